// Package reuseport replaces github.com/libp2p/go-reuseport in simulated code.
package reuseport

import "gevsim/over/net"

func Available() bool                                      { return true }
func Listen(network, address string) (net.Listener, error) { return net.ListenReuse(network, address) }
