// Simulated network; added by the build overlay.

package net

import "context"

// SimListen and SimDial, when set, replace the real network.
var (
	SimListen func(network, address string) (Listener, error)
	SimDial   func(ctx context.Context, network, address string) (Conn, error)
)
