//go:build !verif

package main

const hooksBuilt = false

func setCache(bool) {}
