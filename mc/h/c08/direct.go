//go:build zzinject

package main

import "github.com/muguangyi/ferry"

func init() { callsMade = ferry.ZZCalls }
