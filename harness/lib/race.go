//go:build race

package lib

import "runtime"

func raceErrors() int { return runtime.RaceErrors() }
