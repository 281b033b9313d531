package net

import (
	"context"
	"errors"
	"net"
	"syscall"
	"time"

	"verif.local/sim/simrt"
)

var errNoNetwork = errors.New("the simulation has no network")

// Dialer has the fields of net.Dialer and asks the simulator for connections.
type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
	Resolver        *Resolver
	Cancel          <-chan struct{}
	Control         func(network, address string, c syscall.RawConn) error
	ControlContext  func(ctx context.Context, network, address string, c syscall.RawConn) error
}

func (d *Dialer) limit() time.Time {
	var l time.Time
	if d.Timeout != 0 {
		l = time.Now().Add(d.Timeout)
	}
	if !d.Deadline.IsZero() {
		// the deadline is in terms of the node's clock
		if t := d.Deadline.Add(-simrt.Skew()); l.IsZero() || t.Before(l) {
			l = t
		}
	}
	return l
}

func (d *Dialer) Dial(network, addr string) (Conn, error) {
	k := simrt.Running()
	if k == nil || k.OnDial == nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: errNoNetwork}
	}
	return k.OnDial(network, addr, d.limit())
}

func (d *Dialer) DialContext(ctx context.Context, network, addr string) (Conn, error) {
	x := *d
	if t, ok := ctx.Deadline(); ok {
		if l := x.limit(); l.IsZero() || t.Before(l) {
			x.Timeout, x.Deadline = 0, t.Add(simrt.Skew())
		}
	}
	return x.Dial(network, addr)
}

func (d *Dialer) MultipathTCP() bool     { return false }
func (d *Dialer) SetMultipathTCP(u bool) {}

func Dial(network, addr string) (Conn, error) { return (&Dialer{}).Dial(network, addr) }

func DialTimeout(network, addr string, t time.Duration) (Conn, error) {
	return (&Dialer{Timeout: t}).Dial(network, addr)
}

func Listen(network, addr string) (Listener, error) {
	k := simrt.Running()
	if k == nil || k.OnListen == nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: errNoNetwork}
	}
	return k.OnListen(network, addr)
}

type ListenConfig struct {
	Control         func(network, address string, c syscall.RawConn) error
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
}

func (c *ListenConfig) Listen(ctx context.Context, network, addr string) (Listener, error) {
	return Listen(network, addr)
}

var Pipe = net.Pipe
