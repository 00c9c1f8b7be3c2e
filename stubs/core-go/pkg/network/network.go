// Package network is a stand-in for gitlab.com/alephledger/core-go/pkg/network, which is not
// available offline. It declares the interfaces that /repo uses.
package network

// Connection is a stream connection to another party.
type Connection interface {
	Read([]byte) (int, error)
	Write([]byte) (int, error)
	Flush() error
	Close() error
}

// Server establishes connections between parties.
type Server interface {
	Dial(pid uint16) (Connection, error)
	Listen() (Connection, error)
	Stop()
}
