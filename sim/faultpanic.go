package main

import "runtime/debug"

// faultPanics turns a write to protected memory into a panic of the goroutine.
func faultPanics() { debug.SetPanicOnFault(true) }
