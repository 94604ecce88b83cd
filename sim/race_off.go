//go:build !race

package main

const raceBuilt = false

func raceOff()        {}
func raceOn()         {}
func raceErrors() int { return 0 }
