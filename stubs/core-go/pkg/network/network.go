// Package network is a stand-in for the interfaces of core-go.
package network

// Connection between two processes.
type Connection interface {
	Read([]byte) (int, error)
	Write([]byte) (int, error)
	Flush() error
	Close() error
}

// Server establishes connections.
type Server interface {
	Dial(pid uint16) (Connection, error)
	Listen() (Connection, error)
}
