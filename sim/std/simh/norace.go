//go:build !race

package simh

func RaceErrors() int { return 0 }
