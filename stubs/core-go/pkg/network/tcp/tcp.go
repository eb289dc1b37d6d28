// Package tcp is a stand-in for core-go's TCP transport.
package tcp

import (
	"bufio"
	"fmt"
	"net"
	"time"

	"github.com/rs/zerolog"
	"gitlab.com/alephledger/core-go/pkg/network"
)

type server struct {
	l     net.Listener
	addrs []string
}

type conn struct {
	net.Conn
	w *bufio.Writer
	r *bufio.Reader
}

func (c *conn) Read(b []byte) (int, error)  { return c.r.Read(b) }
func (c *conn) Write(b []byte) (int, error) { return c.w.Write(b) }
func (c *conn) Flush() error                { return c.w.Flush() }
func (c *conn) Close() error                { return c.Conn.Close() }
func (c *conn) RemoteAddr() net.Addr        { return c.Conn.RemoteAddr() }

func wrap(c net.Conn) network.Connection {
	return &conn{c, bufio.NewWriter(c), bufio.NewReader(c)}
}

// Hook takes the place of NewServer when it is set.
var Hook func(localAddr string, remoteAddrs []string) (network.Server, error)

// NewServer listens at localAddr.
func NewServer(localAddr string, remoteAddrs []string, _ zerolog.Logger) (network.Server, error) {
	if Hook != nil {
		return Hook(localAddr, remoteAddrs)
	}
	l, err := net.Listen("tcp", localAddr)
	if err != nil {
		return nil, err
	}
	return &server{l, remoteAddrs}, nil
}

func (s *server) Dial(pid uint16) (network.Connection, error) {
	if int(pid) >= len(s.addrs) {
		return nil, fmt.Errorf("no such pid %d", pid)
	}
	c, err := net.DialTimeout("tcp", s.addrs[pid], time.Second)
	if err != nil {
		time.Sleep(5 * time.Millisecond)
		return nil, err
	}
	return wrap(c), nil
}

func (s *server) Listen() (network.Connection, error) {
	c, err := s.l.Accept()
	if err != nil {
		return nil, err
	}
	return wrap(c), nil
}

func (s *server) Stop() { s.l.Close() }
