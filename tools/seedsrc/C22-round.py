prop='C22'
edits=[('pkg/sync/server.go', '\t\t\tif int64(roundID) != s.roundID {', '\t\t\tif int32(roundID) != int32(s.roundID) {')]
pkg='pkg/sync'
needs='a message whose round differs from the current one in the upper 32 bits only'
breaks='rounds are compared modulo 2^32'
stubs=True
drop=['pkg/sync/server_test.go', 'pkg/sync/sync_suite_test.go']
demo=r"""package sync

import (
	"encoding/binary"
	"errors"
	"io"
	gosync "sync"
	"testing"
	"time"

	"gitlab.com/alephledger/core-go/pkg/network"
)

type conn struct {
	in    []byte
	piece int
}

func (c *conn) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if len(c.in) == 0 {
		return 0, io.EOF
	}
	n := len(b)
	if c.piece > 0 && n > c.piece {
		n = c.piece
	}
	n = copy(b[:n], c.in)
	c.in = c.in[n:]
	return n, nil
}
func (c *conn) Write(b []byte) (int, error) { return len(b), nil }
func (c *conn) Flush() error                { return nil }
func (c *conn) Close() error                { return nil }

type host struct {
	mu gosync.Mutex
	in []*conn
}

func (h *host) Dial(pid uint16) (network.Connection, error) { return &conn{}, nil }
func (h *host) Listen() (network.Connection, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if len(h.in) == 0 {
		return nil, errors.New("none")
	}
	c := h.in[0]
	h.in = h.in[1:]
	return c, nil
}
func (h *host) Stop() {}

func msg(pid, round int, p []byte) []byte {
	b := make([]byte, 18)
	binary.LittleEndian.PutUint64(b, uint64(10+len(p)))
	binary.LittleEndian.PutUint16(b[8:], uint16(pid))
	binary.LittleEndian.PutUint64(b[10:], uint64(round))
	return append(b, p...)
}

// node is party 0; the peers 1, 2, ... send the given bytes
func node(piece int, streams ...[]byte) *server {
	h := &host{}
	for i, s := range streams {
		h.in = append(h.in, &conn{append([]byte{byte(i + 1), 0}, s...), piece})
	}
	s := NewServer(0, uint16(len(streams)+1), time.Now().Add(300*time.Millisecond), 3*time.Second, h)
	s.Start()
	return s.(*server)
}

func TestZZDemo(t *testing.T) {
	n := 0
	err := node(0, msg(1, 1<<32, []byte{5})).Round([][]byte{{1}}, func(pid uint16, b []byte) error { n++; return nil })
	if n != 0 || err == nil {
		t.Fatal("a message of another round was handed over")
	}
}
"""
