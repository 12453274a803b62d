package main

import (
	"os"
	"runtime/debug"

	"github.com/masagroup/soft.go/zz_verif/h"
	"github.com/masagroup/soft.go/zz_verif/nd"
)

func main() {
	debug.SetMaxStack(64 << 20)
	name := nd.Load(os.Args[1])
	defer func() {
		if r := recover(); r != nil {
			nd.Panicked(r)
		}
	}()
	e := h.All[name]
	if e.Setup != nil {
		e.Setup()
	}
	e.Run()
	nd.Done()
}
