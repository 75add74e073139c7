//go:build !zzinject

package main

import (
	. "github.com/muguangyi/ferry/zzharness/hk"
	"github.com/muguangyi/ferry/zzvs"
)

func direct(mk func(name string, q, t int, m Maker, cfg ...func(w *zzvs.World))) {}
