// Package net runs several parties in one process. Its server has exactly the behaviour the contract of sync.Server.Round
// (C22, C23) allows: every peer's payload of the round is handed to the check once and unchanged, and the round succeeds
// when all arrived and all checks accepted.
package net

import (
	"errors"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
	"lemmas/gv"
)

type Net struct {
	n       int
	turn    []chan bool
	running []bool
	box     [][][][]byte // from, to, payloads not yet delivered
	failed  []interface{}
	// Tamper replaces what a party sends; nil if nothing is sent
	Tamper func(from, to, round int, data []byte) []byte
	// Broken makes a round fail without naming parties
	Broken func(pid, round int) bool
	// Reverse: messages arrive in descending order of the senders
	Reverse bool
}

type Party struct {
	net    *Net
	Pid    int
	Rounds int
}

func New(n int) *Net {
	w := &Net{n: n, turn: make([]chan bool, n), running: make([]bool, n), box: make([][][][]byte, n), failed: make([]interface{}, n)}
	for i := range w.turn {
		w.turn[i] = make(chan bool, 1)
		w.box[i] = make([][][]byte, n)
	}
	return w
}

func (w *Net) Party(pid int) *Party { return &Party{net: w, Pid: pid} }

// pass hands the turn to the next party that is running; false if there is none
func (w *Net) pass(pid int) bool {
	for i := 1; i < w.n; i++ {
		k := (pid + i) % w.n
		if w.running[k] {
			w.turn[k] <- true
			return true
		}
	}
	return false
}

// Run runs the parties that are not absent, one at a time; they take turns at rounds
func (w *Net) Run(absent []bool, f func(p *Party)) {
	end := make(chan bool, w.n)
	count := 0
	first := -1
	for i := 0; i < w.n; i++ {
		if absent != nil && absent[i] {
			continue
		}
		if first < 0 {
			first = i
		}
		count++
		w.running[i] = true
	}
	for i := 0; i < w.n; i++ {
		if !w.running[i] {
			continue
		}
		p := w.Party(i)
		go func() {
			defer func() {
				w.failed[p.Pid] = recover()
				w.running[p.Pid] = false
				w.pass(p.Pid)
				end <- true
			}()
			<-w.turn[p.Pid]
			f(p)
		}()
	}
	if first >= 0 {
		w.turn[first] <- true
	}
	for i := 0; i < count; i++ {
		<-end
	}
	for _, r := range w.failed {
		if r != nil {
			panic(r)
		}
	}
}

func (p *Party) Start() {}
func (p *Party) Stop()  {}

func (p *Party) Round(toSend [][]byte, check func(uint16, []byte) error) error {
	w := p.net
	round := p.Rounds
	p.Rounds++
	for to := 0; to < w.n; to++ {
		if to == p.Pid {
			continue
		}
		payload := toSend[0]
		if len(toSend) > 1 {
			payload = toSend[to]
		}
		data := append([]byte{}, payload...)
		if w.Tamper != nil {
			if data = w.Tamper(p.Pid, to, round, data); data == nil {
				continue
			}
		}
		w.box[p.Pid][to] = append(w.box[p.Pid][to], data)
	}
	if w.pass(p.Pid) {
		<-w.turn[p.Pid]
	}
	var missing, wrong []uint16
	for i := 0; i < w.n; i++ {
		from := i
		if w.Reverse {
			from = w.n - 1 - i
		}
		if from == p.Pid {
			continue
		}
		q := w.box[from][p.Pid]
		if len(q) == 0 {
			missing = append(missing, uint16(from))
			continue
		}
		w.box[from][p.Pid] = q[1:]
		if err := check(uint16(from), q[0]); err != nil {
			wrong = append(wrong, uint16(from))
		}
	}
	if w.Broken != nil && w.Broken(p.Pid, round) {
		if gv.Choose("error of the round", 2) == 1 {
			return sync.VRoundError("the exchange failed", nil)
		}
		return errors.New("the exchange failed")
	}
	missing = append(missing, wrong...)
	if len(missing) > 0 {
		return sync.VRoundError("messages are missing or wrong", missing)
	}
	return nil
}

// Peer is one party among any number of others, whose messages the lemma chooses
type Peer struct {
	Pid, N int
	Rounds int
	// Msg is what the others send
	Msg func(from, round int) []byte
	// Fails makes a round fail although the checks accept all messages that arrive
	Fails func(round int) bool
	// Sent is what this party sends in each round
	Sent [][][]byte
	// Got has the parties whose message was accepted, in each round
	Got [][]bool
	// After is called when a round ends
	After func(round int)
}

func (p *Peer) Start() {}
func (p *Peer) Stop()  {}

func (p *Peer) Round(toSend [][]byte, check func(uint16, []byte) error) error {
	round := p.Rounds
	p.Rounds++
	if len(toSend) == 1 {
		toSend = [][]byte{append([]byte{}, toSend[0]...)}
	}
	p.Sent = append(p.Sent, toSend)
	got := make([]bool, p.N)
	p.Got = append(p.Got, got)
	for from := 0; from < p.N; from++ {
		if from == p.Pid {
			continue
		}
		if err := check(uint16(from), p.Msg(from, round)); err != nil {
			return err
		}
		got[from] = true
	}
	if p.After != nil {
		p.After(round)
	}
	if p.Fails != nil && p.Fails(round) {
		return errors.New("the exchange failed")
	}
	return nil
}

// Watched is one party among others, some of which may be absent
type Watched struct {
	Pid, N int
	Rounds int
	// Msg is what the others send; nil from an absent party
	Msg func(from, round int) []byte
	// Sent is what this party sends in each round
	Sent [][][]byte
}

func (p *Watched) Start() {}
func (p *Watched) Stop()  {}

func (p *Watched) Round(toSend [][]byte, check func(uint16, []byte) error) error {
	round := p.Rounds
	p.Rounds++
	var sent [][]byte
	for _, b := range toSend {
		sent = append(sent, append([]byte{}, b...))
	}
	p.Sent = append(p.Sent, sent)
	var missing, wrong []uint16
	for from := 0; from < p.N; from++ {
		if from == p.Pid {
			continue
		}
		data := p.Msg(from, round)
		if data == nil {
			missing = append(missing, uint16(from))
		} else if err := check(uint16(from), data); err != nil {
			wrong = append(wrong, uint16(from))
		}
	}
	missing = append(missing, wrong...)
	if len(missing) > 0 {
		return sync.VRoundError("messages are missing or wrong", missing)
	}
	return nil
}
