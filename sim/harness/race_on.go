//go:build race

package main

import "runtime"

const raceOn = true

func raceErrors() int { return runtime.RaceErrors() }
