// Package network is a stand-in for core-go's package of the same name, which
// is not available offline: the interfaces the repository uses, nothing else.
package network

import (
	"net"

	_ "verif/detrand" // owns crypto/rand.Reader before arith captures it
)

// Connection is a buffered, ordered byte stream between two processes.
type Connection interface {
	Read([]byte) (int, error)
	Write([]byte) (int, error)
	Flush() error
	Close() error
	RemoteAddr() net.Addr
}

// Server establishes connections.
type Server interface {
	Dial(pid uint16) (Connection, error)
	Listen() (Connection, error)
	Stop()
}
