// Package tcp is a stand-in for core-go/pkg/network/tcp (compiles only).
package tcp

import (
	"errors"

	"github.com/rs/zerolog"
	"gitlab.com/alephledger/core-go/pkg/network"
)

// Hook sees the calls of NewServer.
var Hook = func(localAddress string, remoteAddresses []string) {}

// NewServer is not functional in the stand-in.
func NewServer(localAddress string, remoteAddresses []string, log zerolog.Logger) (network.Server, error) {
	Hook(localAddress, remoteAddresses)
	return nil, errors.New("stand-in")
}
