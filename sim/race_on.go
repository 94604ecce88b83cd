//go:build race

package main

import "runtime"

const raceBuilt = true

func raceOff()        { runtime.RaceDisable() }
func raceOn()         { runtime.RaceEnable() }
func raceErrors() int { return runtime.RaceErrors() }
