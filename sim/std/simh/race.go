//go:build race

package simh

import "runtime"

func RaceErrors() int { return runtime.RaceErrors() }
