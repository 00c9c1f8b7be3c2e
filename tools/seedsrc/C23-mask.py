prop='C23'
edits=[('pkg/sync/server.go', '\tvar b strings.Builder\n\tfor pid := uint16(0); pid < s.nProc; pid++ {\n\t\tif pid == s.pid {\n\t\t\tcontinue\n\t\t}\n\t\tif errors[pid] != nil {\n\t\t\tfmt.Fprintf(&b, "[receiveFromAll]', '\tvar b strings.Builder\n\tvar failed uint64\n\tfor pid := uint16(0); pid < s.nProc; pid++ {\n\t\tif pid == s.pid {\n\t\t\tcontinue\n\t\t}\n\t\tif errors[pid] != nil {\n\t\t\tfailed |= 1 << pid\n\t\t\tfmt.Fprintf(&b, "[receiveFromAll]'), ('pkg/sync/server.go', '\t\t\t// TODO: not all erros should be treated as missing\n\t\t\tmissing = append(missing, pid)\n\t\t}\n\t}\n\n\tif b.Len() > 0 {\n', '\t\t\t// TODO: not all erros should be treated as missing\n\t\t\tmissing = append(missing, pid)\n\t\t}\n\t}\n\n\tif failed != 0 {\n')]
pkg='pkg/sync'
needs='a party numbered 64 or more whose message is absent'
breaks='absent parties are counted in a word of 64 bits, so the absence of later ones goes unnoticed'
stubs=True
drop=['pkg/sync/server_test.go', 'pkg/sync/sync_suite_test.go']
demo=r"""package sync

import (
	"encoding/binary"
	"errors"
	"io"
	gosync "sync"
	"testing"
	"time"

	"gitlab.com/alephledger/core-go/pkg/network"
)

type conn struct {
	in    []byte
	piece int
}

func (c *conn) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if len(c.in) == 0 {
		return 0, io.EOF
	}
	n := len(b)
	if c.piece > 0 && n > c.piece {
		n = c.piece
	}
	n = copy(b[:n], c.in)
	c.in = c.in[n:]
	return n, nil
}
func (c *conn) Write(b []byte) (int, error) { return len(b), nil }
func (c *conn) Flush() error                { return nil }
func (c *conn) Close() error                { return nil }

type host struct {
	mu gosync.Mutex
	in []*conn
}

func (h *host) Dial(pid uint16) (network.Connection, error) { return &conn{}, nil }
func (h *host) Listen() (network.Connection, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if len(h.in) == 0 {
		return nil, errors.New("none")
	}
	c := h.in[0]
	h.in = h.in[1:]
	return c, nil
}
func (h *host) Stop() {}

func msg(pid, round int, p []byte) []byte {
	b := make([]byte, 18)
	binary.LittleEndian.PutUint64(b, uint64(10+len(p)))
	binary.LittleEndian.PutUint16(b[8:], uint16(pid))
	binary.LittleEndian.PutUint64(b[10:], uint64(round))
	return append(b, p...)
}

// node is party 0; the peers 1, 2, ... send the given bytes
func node(piece int, streams ...[]byte) *server {
	h := &host{}
	for i, s := range streams {
		h.in = append(h.in, &conn{append([]byte{byte(i + 1), 0}, s...), piece})
	}
	s := NewServer(0, uint16(len(streams)+1), time.Now().Add(300*time.Millisecond), 3*time.Second, h)
	s.Start()
	return s.(*server)
}

func TestZZDemo(t *testing.T) {
	var streams [][]byte
	for i := 1; i <= 70; i++ {
		m := msg(i, 0, []byte{1})
		if i == 66 {
			m = nil
		}
		streams = append(streams, m)
	}
	err := node(0, streams...).Round([][]byte{{1}}, func(pid uint16, b []byte) error { return nil })
	re, ok := err.(*RoundError)
	if !ok || len(re.Missing()) != 1 || re.Missing()[0] != 66 {
		t.Fatal("the absence of party 66 is not reported", err)
	}
}
"""
