//go:build !race

package main

const raceBuild = false

func raceErrors() int { return 0 }
func raceRelease()    {}
func raceAcquire()    {}
