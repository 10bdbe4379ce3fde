//go:build !race

package lib

func raceErrors() int { return 0 }
