// Package tests is a stand-in for core-go's in-memory test network.
package tests

import (
	"bufio"
	"errors"
	"net"
	"time"

	"gitlab.com/alephledger/core-go/pkg/network"
)

type srv struct {
	pid     int
	in      chan network.Connection
	all     []*srv
	timeout time.Duration
}

type conn struct {
	net.Conn
	w *bufio.Writer
	t time.Duration
}

func (c *conn) Read(b []byte) (int, error) {
	return c.Conn.Read(b)
}
func (c *conn) Write(b []byte) (int, error) { return c.w.Write(b) }
func (c *conn) Flush() error                { return c.w.Flush() }

func (s *srv) Dial(pid uint16) (network.Connection, error) {
	a, b := net.Pipe()
	select {
	case s.all[pid].in <- &conn{b, bufio.NewWriter(b), s.timeout}:
		return &conn{a, bufio.NewWriter(a), s.timeout}, nil
	case <-time.After(s.timeout):
		return nil, errors.New("dial timeout")
	}
}

func (s *srv) Listen() (network.Connection, error) {
	select {
	case c := <-s.in:
		return c, nil
	case <-time.After(s.timeout):
		return nil, errors.New("listen timeout")
	}
}

func (s *srv) Stop() {}

// NewNetwork makes n connected servers.
func NewNetwork(n int, timeout time.Duration) []network.Server {
	all := make([]*srv, n)
	for i := range all {
		all[i] = &srv{i, make(chan network.Connection), all, timeout}
	}
	r := make([]network.Server, n)
	for i := range all {
		r[i] = all[i]
	}
	return r
}

// CloseNetwork stops them.
func CloseNetwork(s []network.Server) {
	for _, x := range s {
		x.Stop()
	}
}
