//go:build go1.23

package main

import (
	"os"
	"runtime/debug"
)

// crashTo has the runtime write what it says about a crash to f as well.
func crashTo(f *os.File) { _ = debug.SetCrashOutput(f, debug.CrashOptions{}) }
