// Package simrt is the harness' and the instrumented code's door to the
// deterministic simulator patched into package runtime. It is added to the
// standard library by the build overlay.
package simrt

import (
	"internal/synctest"
	"runtime"
)

// Y is called at the statement boundaries of instrumented code.
func Y(site uint32) { runtime.SimYield(site) }

// Run executes f and everything it starts in a bubble with simulated time.
// It returns when f has returned and everything else is blocked for good, or
// when everything is blocked and no timer is pending; left is the number of
// goroutines still blocked, deadlocked whether f was among them.
func Run(f func()) (left int, deadlocked bool) {
	synctest.Run(f)
	return runtime.SimLeft()
}
