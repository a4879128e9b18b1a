// Package tcp is a stand-in for core-go's tcp server.
package tcp

import (
	"errors"

	"github.com/rs/zerolog"
	"gitlab.com/alephledger/core-go/pkg/network"
)

// NewServer is not available offline.
func NewServer(localAddress string, remoteAddresses []string, log zerolog.Logger) (network.Server, error) {
	return nil, errors.New("stub")
}
