prop='C22'
edits=[('pkg/sync/server.go', 's.inDataConn[pid].Read(buf[nRead:])', 's.inDataConn[pid].Read(buf[nRead%65536:])')]
pkg='pkg/sync'
needs='a connection that delivers a message of more than 64 KiB in several pieces'
breaks='later pieces of a message overwrite earlier ones'
stubs=True
drop=['pkg/sync/server_test.go', 'pkg/sync/sync_suite_test.go']
demo=r"""package sync

import (
	"encoding/binary"
	"errors"
	"io"
	gosync "sync"
	"testing"
	"time"

	"gitlab.com/alephledger/core-go/pkg/network"
)

type conn struct {
	in    []byte
	piece int
}

func (c *conn) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if len(c.in) == 0 {
		return 0, io.EOF
	}
	n := len(b)
	if c.piece > 0 && n > c.piece {
		n = c.piece
	}
	n = copy(b[:n], c.in)
	c.in = c.in[n:]
	return n, nil
}
func (c *conn) Write(b []byte) (int, error) { return len(b), nil }
func (c *conn) Flush() error                { return nil }
func (c *conn) Close() error                { return nil }

type host struct {
	mu gosync.Mutex
	in []*conn
}

func (h *host) Dial(pid uint16) (network.Connection, error) { return &conn{}, nil }
func (h *host) Listen() (network.Connection, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if len(h.in) == 0 {
		return nil, errors.New("none")
	}
	c := h.in[0]
	h.in = h.in[1:]
	return c, nil
}
func (h *host) Stop() {}

func msg(pid, round int, p []byte) []byte {
	b := make([]byte, 18)
	binary.LittleEndian.PutUint64(b, uint64(10+len(p)))
	binary.LittleEndian.PutUint16(b[8:], uint16(pid))
	binary.LittleEndian.PutUint64(b[10:], uint64(round))
	return append(b, p...)
}

// node is party 0; the peers 1, 2, ... send the given bytes
func node(piece int, streams ...[]byte) *server {
	h := &host{}
	for i, s := range streams {
		h.in = append(h.in, &conn{append([]byte{byte(i + 1), 0}, s...), piece})
	}
	s := NewServer(0, uint16(len(streams)+1), time.Now().Add(300*time.Millisecond), 3*time.Second, h)
	s.Start()
	return s.(*server)
}

func TestZZDemo(t *testing.T) {
	p := make([]byte, 80000)
	for i := range p {
		p[i] = byte(i % 251)
	}
	got := ""
	if err := node(33000, msg(1, 0, p)).Round([][]byte{{1}}, func(pid uint16, b []byte) error { got = string(b); return nil }); err != nil {
		t.Fatal(err)
	}
	if got != string(p) {
		t.Fatal("payload changed")
	}
}
"""
