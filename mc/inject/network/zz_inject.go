//go:build zzinject

package network

// ZZNet is what sockets use.
func ZZNet() (inet, error) { return makeNet("tcp") }
