// Package tests is a stand-in for core-go/pkg/tests: an in-memory network.
package tests

import (
	"bytes"
	"errors"
	"io"
	"sync"
	"time"

	"gitlab.com/alephledger/core-go/pkg/network"
)

type pipe struct {
	mu     sync.Mutex
	cond   *sync.Cond
	buf    bytes.Buffer
	closed bool
}

func newPipe() *pipe { p := &pipe{}; p.cond = sync.NewCond(&p.mu); return p }
func (p *pipe) Read(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if len(b) == 0 {
		return 0, nil
	}
	for p.buf.Len() == 0 {
		if p.closed {
			return 0, io.EOF
		}
		p.cond.Wait()
	}
	return p.buf.Read(b)
}
func (p *pipe) Write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.closed {
		return 0, io.ErrClosedPipe
	}
	n, err := p.buf.Write(b)
	p.cond.Broadcast()
	return n, err
}
func (p *pipe) close() { p.mu.Lock(); p.closed = true; p.cond.Broadcast(); p.mu.Unlock() }

type conn struct{ in, out *pipe }

func (c *conn) Read(b []byte) (int, error)  { return c.in.Read(b) }
func (c *conn) Write(b []byte) (int, error) { return c.out.Write(b) }
func (c *conn) Flush() error                { return nil }
func (c *conn) Close() error                { c.in.close(); c.out.close(); return nil }

type server struct {
	all    []*server
	listen chan network.Connection
	stop   chan struct{}
	once   sync.Once
}

func (s *server) Dial(pid uint16) (network.Connection, error) {
	a, b := newPipe(), newPipe()
	select {
	case s.all[pid].listen <- &conn{a, b}:
		return &conn{b, a}, nil
	case <-s.stop:
		return nil, errors.New("stopped")
	}
}
func (s *server) Listen() (network.Connection, error) {
	select {
	case c := <-s.listen:
		return c, nil
	case <-s.stop:
		return nil, errors.New("stopped")
	}
}
func (s *server) Stop() { s.once.Do(func() { close(s.stop) }) }

// NewNetwork returns n servers connected in memory.
func NewNetwork(n int, timeout time.Duration) []network.Server {
	ss := make([]*server, n)
	out := make([]network.Server, n)
	for i := range ss {
		ss[i] = &server{listen: make(chan network.Connection, n), stop: make(chan struct{})}
	}
	for i := range ss {
		ss[i].all = ss
		out[i] = ss[i]
	}
	return out
}

// CloseNetwork stops all servers.
func CloseNetwork(ss []network.Server) {
	for _, s := range ss {
		s.Stop()
	}
}
