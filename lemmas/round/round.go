// Lemmas about pkg/sync: they run the real servers of pkg/sync over connections that cut the byte streams in any pieces.
package main

import (
	"encoding/binary"
	"errors"
	"io"
	gosync "sync"
	"time"

	"gitlab.com/alephledger/core-go/pkg/network"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
	"lemmas/gv"
)

// pipe is one direction of a connection
type pipe struct {
	ch     chan []byte
	rest   []byte
	pieces []int // how much the next reads deliver at most; all that is there when the list is used up
}

func newPipe() *pipe { return &pipe{ch: make(chan []byte, 1000)} }

func (c *pipe) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	for len(c.rest) == 0 {
		x, ok := <-c.ch
		if !ok {
			return 0, io.EOF
		}
		c.rest = x
	}
	n := len(b)
	if n > len(c.rest) {
		n = len(c.rest)
	}
	if len(c.pieces) > 0 {
		if n > c.pieces[0] {
			n = c.pieces[0]
		}
		c.pieces = c.pieces[1:]
	}
	copy(b, c.rest[:n])
	c.rest = c.rest[n:]
	return n, nil
}

func (c *pipe) Write(b []byte) (int, error) {
	c.ch <- append([]byte{}, b...)
	return len(b), nil
}

func (c *pipe) Flush() error { return nil }
func (c *pipe) Close() error { return nil }

// deliver makes b, and then the end of the connection, what a reader gets
func deliver(b []byte) *pipe {
	c := newPipe()
	c.ch <- b
	close(c.ch)
	return c
}

// host is the network as one party sees it
type host struct {
	mu  gosync.Mutex
	in  []*pipe // in the order in which they arrive
	out map[uint16]*pipe
}

func (h *host) Dial(pid uint16) (network.Connection, error) { return h.out[pid], nil }

func (h *host) Listen() (network.Connection, error) {
	h.mu.Lock()
	if len(h.in) == 0 {
		h.mu.Unlock()
		<-make(chan bool)
	}
	c := h.in[0]
	h.in = h.in[1:]
	h.mu.Unlock()
	return c, nil
}

func (h *host) Stop() {}

func le16(x int) []byte {
	b := make([]byte, 2)
	binary.LittleEndian.PutUint16(b, uint16(x))
	return b
}

func le64(x int) []byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, uint64(x))
	return b
}

func cat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

// payload is any payload below the limit on the length of a message
func payload() []byte {
	b := gv.Bytes("payload")
	gv.Assume(len(b) <= 1<<27)
	return b
}

// frame is a message on the wire
func frame(pid, round int, payload []byte) []byte {
	return cat(le64(10+len(payload)), le16(pid), le64(round), payload)
}

var start time.Time

func soon() time.Time {
	start = time.Now().Add(200 * time.Millisecond)
	return start
}

// inTime: attention is restricted to executions in which the first round begins before the start time
func inTime() bool { return !time.Now().After(start.Add(-50 * time.Millisecond)) }

// world connects n real servers
func world(n int, cuts int) []sync.Server {
	gv.SteadyClock()
	hosts := make([]*host, n)
	for i := range hosts {
		hosts[i] = &host{out: map[uint16]*pipe{}}
	}
	descending := gv.Choose("arrival", 2) == 1
	for a := 0; a < n; a++ {
		i := a
		if descending {
			i = n - 1 - a
		}
		for j := 0; j < n; j++ {
			if i == j {
				continue
			}
			c := newPipe()
			if j == 0 && i == 1 {
				for k := 0; k < cuts; k++ {
					c.pieces = append(c.pieces, gv.Int("piece", 1, 1<<20))
				}
			}
			hosts[i].out[uint16(j)] = c
			hosts[j].in = append(hosts[j].in, c)
		}
	}
	servers := make([]sync.Server, n)
	at := soon()
	for i := range servers {
		servers[i] = sync.NewServer(uint16(i), uint16(n), at, 3*time.Second, hosts[i])
		servers[i].Start()
	}
	if first := gv.Choose("first round", 2); first > 0 {
		for i := range servers {
			sync.VSetRound(servers[i], 1<<40)
		}
	}
	return servers
}

// exchange: in every round every party gets from every other one exactly what that one passed for it
func exchange(n, rounds, cuts int) {
	servers := world(n, cuts)
	sent := make([][][][]byte, rounds) // round, from, as passed to Round
	for r := range sent {
		sent[r] = make([][][]byte, n)
		for i := 0; i < n; i++ {
			k := 1
			if gv.Choose("kind", 2) == 1 {
				k = n
			}
			for j := 0; j < k; j++ {
				sent[r][i] = append(sent[r][i], payload())
			}
		}
	}
	got := make([][][][]byte, n) // to, from, list of deliveries
	errs := make([]error, n)
	calls := make([]int, n)
	exact := make([]bool, n)
	early := make([]bool, n)
	end := make(chan bool, n)
	for i := 0; i < n; i++ {
		i := i
		got[i] = make([][][]byte, n)
		exact[i] = true
		go func() {
			early[i] = inTime()
			for r := 0; r < rounds; r++ {
				err := servers[i].Round(sent[r][i], func(pid uint16, data []byte) error {
					calls[i]++
					if int(pid) >= n || int(pid) == i {
						exact[i] = false
						return nil
					}
					got[i][pid] = append(got[i][pid], append([]byte{}, data...))
					return nil
				})
				if err != nil {
					errs[i] = err
				}
			}
			end <- true
		}()
	}
	for i := 0; i < n; i++ {
		<-end
	}
	for i := 0; i < n; i++ {
		gv.Assume(early[i])
	}
	for i := 0; i < n; i++ {
		gv.Assert(errs[i] == nil, "an exchange between honest parties succeeds")
		gv.Assert(exact[i] && calls[i] == rounds*(n-1), "every message is checked exactly once")
		for j := 0; j < n; j++ {
			if i == j {
				continue
			}
			gv.Assert(len(got[i][j]) == rounds, "every message is checked exactly once")
			for r := 0; r < rounds; r++ {
				want := sent[r][j][0]
				if len(sent[r][j]) > 1 {
					want = sent[r][j][i]
				}
				gv.Assert(gv.Equal(got[i][j][r], want), "the payload of the peer in this round, unchanged")
			}
		}
	}
}

func Exchange2()  { exchange(2, 2, 0) }
func Exchange3()  { exchange(3, 1, 0) }
func Exchange3b() { exchange(3, 2, 0) }
func Exchange5()  { exchange(5, 1, 0) }
func Pieces()     { exchange(2, 1, 3) }

// single is one server with peers 1.. that send the given byte strings after having announced themselves
func single(streams ...[]byte) sync.Server {
	h := &host{out: map[uint16]*pipe{}}
	for i, s := range streams {
		h.in = append(h.in, deliver(cat(le16(i+1), s)))
		h.out[uint16(i+1)] = newPipe()
	}
	s := sync.NewServer(0, uint16(len(streams)+1), soon(), 3*time.Second, h)
	s.Start()
	return s
}

func payloads(n int) [][]byte {
	r := make([][]byte, n)
	for i := range r {
		r[i] = []byte{1, 2, 3}
	}
	return r
}

// Stream: whatever a peer sends, only the payload of a message of this peer and this round reaches the check
func Stream() {
	gv.SteadyClock()
	round := gv.Int("round", 0, 1<<62)
	valid := frame(1, round, payload())
	stream := gv.BytesNear("stream", valid)
	s := single(stream)
	sync.VSetRound(s, int64(round))
	early := inTime()
	calls := 0
	exact := true
	err := s.Round(payloads(2), func(pid uint16, data []byte) error {
		calls++
		f := frame(1, round, data)
		if pid != 1 || len(f) > len(stream) || !gv.Equal(f, stream[:len(f)]) {
			exact = false
		}
		return nil
	})
	gv.Assume(early)
	gv.Assert(exact && calls <= 1, "only the payload of a message of this peer and round reaches the check")
	gv.Assert((err == nil) == (calls == 1), "the round succeeds when the message arrived and was accepted")
	if err != nil {
		gv.Assert(lists(err, 1), "the error lists the absent party")
	}
}

// Foreign: messages of other senders and of other rounds
func Foreign() {
	gv.SteadyClock()
	round := gv.Int("round", 0, 1<<62)
	sender, other := gv.Int("sender", 0, 65535), gv.Int("other round", 0, 1<<62)
	stream := frame(sender, other, payload())
	s := single(stream)
	sync.VSetRound(s, int64(round))
	early := inTime()
	calls := 0
	err := s.Round(payloads(2), func(pid uint16, data []byte) error {
		calls++
		return nil
	})
	gv.Assume(early)
	if sender != 1 || other != round {
		gv.Assert(calls == 0, "a message of another sender or another round is not handed to the check")
		gv.Assert(err != nil && lists(err, 1), "the error lists the party whose message is absent")
	}
}

// Handshake: whatever a connection announces, the servers do not crash
func Handshake() {
	gv.SteadyClock()
	junk := gv.Bytes("announcement")
	h := &host{out: map[uint16]*pipe{1: newPipe()}}
	h.in = []*pipe{deliver(junk), deliver(cat(le16(1), frame(1, 0, []byte{7})))}
	s := sync.NewServer(0, 2, soon(), 3*time.Second, h)
	if len(junk) >= 2 && gv.Equal(junk[:2], le16(1)) {
		return
	}
	s.Start()
	early := inTime()
	calls := 0
	err := s.Round(payloads(2), func(pid uint16, data []byte) error {
		calls++
		if pid != 1 || !gv.Equal(data, []byte{7}) {
			calls += 10
		}
		return nil
	})
	gv.Assume(early)
	gv.Assert(err == nil && calls == 1, "a connection that announces no party does not keep the others from being served")
}

// Twice: two connections that announce the same party
func Twice() {
	gv.SteadyClock()
	h := &host{out: map[uint16]*pipe{1: newPipe(), 2: newPipe()}}
	h.in = []*pipe{deliver(cat(le16(1), frame(1, 0, []byte{7}))), deliver(cat(le16(1), frame(1, 0, []byte{8}))), deliver(cat(le16(2), frame(2, 0, []byte{9})))}
	s := sync.NewServer(0, 3, soon(), 3*time.Second, h)
	s.Start()
	early := inTime()
	seen := make([]int, 3)
	exact := true
	err := s.Round(payloads(3), func(pid uint16, data []byte) error {
		seen[pid]++
		if pid == 2 && !gv.Equal(data, []byte{9}) {
			exact = false
		}
		return nil
	})
	gv.Assume(early)
	gv.Assert(err == nil && exact && seen[1] == 1 && seen[2] == 1, "each party's message is served once")
}

// lists tells whether the error names exactly the given parties
func lists(err error, pids ...int) bool {
	re, ok := err.(*sync.RoundError)
	if !ok {
		return false
	}
	m := re.Missing()
	if len(m) != len(pids) {
		return false
	}
	for _, p := range pids {
		k := 0
		for _, q := range m {
			if int(q) == p {
				k++
			}
		}
		if k != 1 {
			return false
		}
	}
	return true
}

// faults: every combination of accepted, rejected, absent and malformed messages
func faults(peers int, kinds int) {
	gv.SteadyClock()
	round := gv.Int("round", 0, 1<<62)
	var streams [][]byte
	var bad, arrived, rejected []int
	want := make([][]byte, peers+1)
	reject := make([]bool, peers+1)
	for i := 1; i <= peers; i++ {
		k := gv.Choose("what peer does", kinds)
		p := payload()
		want[i] = p
		switch k {
		case 0:
			arrived = append(arrived, i)
			streams = append(streams, frame(i, round, p))
		case 1:
			arrived = append(arrived, i)
			rejected = append(rejected, i)
			bad = append(bad, i)
			reject[i] = true
			streams = append(streams, frame(i, round, p))
		case 2:
			bad = append(bad, i)
			streams = append(streams, nil)
		case 3: // too short
			bad = append(bad, i)
			streams = append(streams, cat(le64(9), make([]byte, 9)))
		case 4: // another round
			bad = append(bad, i)
			streams = append(streams, frame(i, round+1, p))
		case 5: // another sender
			bad = append(bad, i)
			streams = append(streams, frame(i%peers+1+peers, round, p))
		case 6: // ends too early
			bad = append(bad, i)
			f := frame(i, round, []byte{1, 2, 3})
			streams = append(streams, f[:len(f)-1])
		}
	}
	s := single(streams...)
	sync.VSetRound(s, int64(round))
	early := inTime()
	calls := make([]int, peers+1)
	exact := true
	err := s.Round(payloads(peers+1), func(pid uint16, data []byte) error {
		if pid == 0 || int(pid) > peers {
			exact = false
			return nil
		}
		calls[pid]++
		if !gv.Equal(data, want[pid]) {
			exact = false
		}
		if reject[pid] {
			return errors.New("rejected")
		}
		return nil
	})
	gv.Assume(early)
	n := 0
	for _, i := range arrived {
		gv.Assert(calls[i] == 1, "a message that arrived is checked exactly once")
		n++
	}
	total := 0
	for _, c := range calls {
		total += c
	}
	gv.Assert(exact && total == n, "nothing but the messages that arrived is checked")
	gv.Assert((err == nil) == (len(bad) == 0), "the round succeeds exactly when every message arrived and was accepted")
	if err != nil {
		gv.Assert(lists(err, bad...), "the error lists exactly the parties whose message is absent or was rejected")
	}
}

// many: one party among many others, as it receives from and sends to each of them
func many(n, own int, faulty func(i int) int) {
	gv.SteadyClock()
	round := gv.Int("round", 0, 1<<62)
	h := &host{out: map[uint16]*pipe{}}
	var bad []int
	behaviour := make([]int, n) // 0: sends its message, 1: sends a message that is rejected, 2: sends nothing
	want := make([][]byte, n)
	for i := 0; i < n; i++ {
		if i == own {
			continue
		}
		behaviour[i] = faulty(i)
		if behaviour[i] > 0 {
			bad = append(bad, i)
		}
		want[i] = cat(le16(i), []byte{byte(i), 7})
		if i == 0 || i == n-1 {
			want[i] = payload()
		}
		s := le16(i)
		if behaviour[i] < 2 {
			s = cat(s, frame(i, round, want[i]))
		}
		h.in = append(h.in, deliver(s))
		h.out[uint16(i)] = newPipe()
	}
	s := sync.NewServer(uint16(own), uint16(n), soon(), 3*time.Second, h)
	s.Start()
	sync.VSetRound(s, int64(round))
	early := inTime()
	mine := [][]byte{payload()}
	if gv.Choose("kind", 2) == 1 {
		mine = make([][]byte, n)
		for i := range mine {
			mine[i] = cat([]byte{9}, le16(i))
		}
	}
	calls := make([]int, n)
	exact := true
	err := s.Round(mine, func(pid uint16, data []byte) error {
		if int(pid) >= n || int(pid) == own {
			exact = false
			return nil
		}
		calls[pid]++
		if !gv.Equal(data, want[pid]) {
			exact = false
		}
		if behaviour[pid] == 1 {
			return errors.New("rejected")
		}
		return nil
	})
	gv.Assume(early)
	gv.Assert(exact, "nothing but the messages that arrived is checked")
	for i, c := range calls {
		if i != own && behaviour[i] < 2 {
			gv.Assert(c == 1, "a message that arrived is checked exactly once")
		} else {
			gv.Assert(c == 0, "nothing but the messages that arrived is checked")
		}
	}
	gv.Assert((err == nil) == (len(bad) == 0), "the round succeeds exactly when every message arrived and was accepted")
	if err != nil {
		gv.Assert(lists(err, bad...), "the error lists exactly the parties whose message is absent or was rejected")
	}
	for i := 0; i < n; i++ {
		if i == own || err != nil { // a round that fails does not wait until everything is sent
			continue
		}
		m := mine[0]
		if len(mine) > 1 {
			m = mine[i]
		}
		c := h.out[uint16(i)]
		close(c.ch)
		var sent []byte
		for b := range c.ch {
			sent = append(sent, b...)
		}
		gv.Assert(gv.Equal(sent, cat(le16(own), frame(own, round, m))), "every party is sent the payload for it, once")
	}
}

// faulty chooses which parties misbehave: none, a few, most
func faulty(n int) func(i int) int {
	switch gv.Choose("faulty", 3) {
	case 1:
		return func(i int) int {
			if i == 0 || i == n-1 || i == n/2 {
				return 1 + i%2
			}
			return 0
		}
	case 2:
		return func(i int) int {
			if i%5 != 0 {
				return 1 + i%2
			}
			return 0
		}
	}
	return func(int) int { return 0 }
}

func Many() {
	n := []int{5, 9, 17, 40}[gv.Choose("parties", 4)]
	many(n, gv.Choose("own", 2)*(n/2), faulty(n))
}

func ManyMore() { many(300, 270, faulty(300)) }

// ManyPlaces: any own number, or any other party that misbehaves
func ManyPlaces() {
	n := 36
	at := gv.Choose("place", n)
	if gv.Choose("whose", 2) == 0 {
		many(n, at, func(int) int { return 0 })
	} else {
		many(n, 17, func(i int) int {
			if i == at {
				return 1 + gv.Choose("what it does", 2)
			}
			return 0
		})
	}
}

func Faults1() { faults(1, 7) }
func Faults2() { faults(2, 7) }
func Faults3() { faults(3, 3) }

// Late: a round that cannot start, or whose end comes at any time
func Late() {
	accept := gv.Choose("accept", 2) == 1
	there := gv.Choose("there", 2) == 1
	var stream []byte
	if there {
		stream = frame(1, 0, []byte{5})
	}
	s := single(stream)
	calls := 0
	err := s.Round(payloads(2), func(pid uint16, data []byte) error {
		calls++
		if accept {
			return nil
		}
		return errors.New("rejected")
	})
	if err == nil {
		gv.Assert(calls == 1 && accept && there, "success only if the message arrived and was accepted")
	}
}

func main() {
	gv.Main(map[string]func(){"Exchange2": Exchange2, "Exchange3": Exchange3, "Exchange3b": Exchange3b, "Exchange5": Exchange5, "Pieces": Pieces, "Stream": Stream,
		"Foreign": Foreign, "Handshake": Handshake, "Twice": Twice, "Faults1": Faults1, "Faults2": Faults2, "Faults3": Faults3, "Late": Late, "Many": Many, "ManyMore": ManyMore, "ManyPlaces": ManyPlaces})
}
