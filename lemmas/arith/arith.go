// Lemmas about the protocols on shared secrets (pkg/arith). All parties run the repository's code, in lockstep.
package main

import (
	"bytes"
	"crypto/rand"
	"encoding/binary"
	"errors"
	"io"
	"math/big"

	"github.com/binance-chain/tss-lib/crypto/paillier"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/zkpok"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	"lemmas/gv"
	"lemmas/net"
	. "lemmas/util"
)

var lemmas = map[string]func(){
	"KeyGen2": KeyGen2, "KeyGen3": KeyGen3, "KeyGenReveal": KeyGenReveal, "KeyGenDifferent": KeyGenDifferent, "KeyGenCommit": KeyGenCommit, "KeyGenMissing": KeyGenMissing,
	"NewKey": NewKey,
	"Poly":   Poly, "PolyEval": PolyEval, "Weights": Weights, "Interpolate": Interpolate,
	"PolyAny": PolyAny, "PolyEvalAny": PolyEvalAny, "WeightAny": WeightAny,
	"Gen2": Gen2, "Gen3": Gen3, "GenAny": GenAny, "GenMissing": GenMissing,
	"Reveal2": Reveal2, "Reveal3": Reveal3, "Reveal4": Reveal4, "RevealMany": RevealMany, "ExpMany": ExpMany, "RevealCrowd": RevealCrowd, "ExpCrowd": ExpCrowd, "RevealPlaces": RevealPlaces, "ExpPlaces": ExpPlaces, "RevealBroken": RevealBroken,
	"Exp2": Exp2, "Exp3": Exp3, "Exp4": Exp4, "ExpBroken": ExpBroken, "ExpAny": ExpAny,
	"Lin": Lin, "LinAll": LinAll, "GenAnyAll": GenAnyAll, "KeyGenBinding": KeyGenBinding, "KeyGenFails": KeyGenFails, "KeyGenParts": KeyGenParts, "NewKeyAll": NewKeyAll, "GenAll": GenAll, "KeyGenAll": KeyGenAll, "LinReveal": LinReveal,
	"Reshare2": Reshare2, "Reshare31": Reshare31, "Reshare32": Reshare32, "Reshare33": Reshare33, "Reshare4": Reshare4, "Reshare6": Reshare6, "Reshare9": Reshare9, "Reshare12": Reshare12, "Reshare18": Reshare18, "ReshareHigh": ReshareHigh, "ReshareOpening": ReshareOpening, "ReshareAny": ReshareAny, "ReshareCommitted": ReshareCommitted, "ReshareReveal": ReshareReveal, "ReshareMissing": ReshareMissing, "ReshareZero": ReshareZero, "ReshareProofs2": ReshareProofs2, "ReshareProofs3": ReshareProofs3,
	"PrivMult2": PrivMult2, "PrivMultAll": PrivMultAll, "PrivMult3": PrivMult3, "Mult2": Mult2, "Mult3": Mult3, "MultAll": MultAll, "MultAny": MultAny, "MultAnyAll": MultAnyAll, "MultMissing": MultMissing,
	"CheckDH2": CheckDH2, "CheckDH3": CheckDH3, "CheckDHReveal": CheckDHReveal, "CheckDHParts": CheckDHParts, "CheckDHAny": CheckDHAny, "CheckDHBinding": CheckDHBinding, "CheckDHAll": CheckDHAll,
}

func main() {
	gv.Reset = func() { arith.VRand(rand.Reader) }
	gv.Main(lemmas)
}

func group() curve.Group { return curve.NewSecp256k1Group() }

func zero() *big.Int { return big.NewInt(0) }
func one() *big.Int  { return big.NewInt(1) }

// ---- distributed keys

func keyGen(n int) {
	w := net.New(n)
	w.Reverse = gv.Choose("order of arrival", 2) == 1
	keys, errs := make([]*arith.DKey, n), make([]error, n)
	d0 := gv.DrawCount()
	w.Run(nil, func(p *net.Party) {
		keys[p.Pid], errs[p.Pid] = arith.GenExpReveal(uint16(p.Pid), "key", p, uint16(n), group())
	})
	sum := zero()
	for i := range keys {
		gv.Assert(errs[i] == nil, "key generation succeeds among parties that follow the protocol")
		sum = Add(sum, keys[i].VSecret().VShare())
		gv.Assert(gv.FreshDraw(d0, keys[i].VSecret().VShare()) >= 0, "the secret share is a fresh uniform scalar")
		gv.Assert(keys[i].VSecret().VPid() == uint16(i), "the key belongs to its party")
		gv.Assert(keys[i].Label() == "key", "the key has the requested label")
	}
	for i := range keys {
		gv.Assert(len(keys[i].VPkShares()) == n, "one public share for each party")
		for j := range keys {
			gv.Assert(gv.IsPoint(keys[i].VPkShares()[j], keys[j].VSecret().VShare()), "every party holds the generator times the party's secret share")
		}
		gv.Assert(gv.IsPoint(keys[i].PublicKey(), sum), "the public key is the sum of the public shares")
	}
}

// packed is what is sent as a commitment to b
func packed(b []byte) []byte {
	w := make([]byte, 8)
	binary.LittleEndian.PutUint32(w, uint32(len(b)))
	return append(w, b...)
}

// KeyGenAll: any number of parties
func KeyGenAll() {
	n, pid, _ := anyParties()
	others := &anySecret{"peers", n, nil}
	p := &net.Peer{Pid: pid, N: n, Msg: func(from, round int) []byte {
		if round == 0 {
			return packed(gv.Enc(others.share(from)))
		}
		return gv.Enc(others.share(from))
	}}
	d0 := gv.DrawCount()
	sum := gv.LaterBut(n, others.share, pid, func() *big.Int { return gv.Drawn(d0) })
	k, err := arith.GenExpReveal(uint16(pid), "key", p, uint16(n), group())
	gv.Assert(err == nil, "key generation succeeds among parties that follow the protocol")
	share := k.VSecret().VShare()
	gv.Assert(gv.FreshDraw(d0, share) >= 0, "the secret share is a fresh uniform scalar")
	gv.Assert(k.VSecret().VPid() == uint16(pid) && k.Label() == "key", "the key belongs to its party and has the requested label")
	// the messages assumed of the others are what this party sends
	gv.Format(len(p.Sent) == 2 && gv.Equal(p.Sent[0][0], packed(gv.Enc(share))) && gv.Equal(p.Sent[1][0], gv.Enc(share)) && gv.FreshDraw(d0, share) == d0)
	gv.Assert(len(k.VPkShares()) == n, "one public share for each party")
	i := gv.Index("another party", n)
	if i == pid {
		gv.Assert(gv.IsPoint(k.VPkShares()[i], share), "the own public share is the generator times the own secret share")
	} else {
		gv.Assert(gv.IsPoint(k.VPkShares()[i], others.share(i)), "every party holds the generator times the party's secret share")
	}
	gv.Assert(gv.IsPoint(k.PublicKey(), sum()), "the public key is the sum of the public shares")
}

// KeyGenBinding: any number of parties that send anything. The share of a party is the one that it committed to before the
// shares of the others were revealed.
func KeyGenBinding() {
	n, pid, _ := anyParties()
	p := &net.Peer{Pid: pid, N: n, Msg: func(from, round int) []byte {
		if round == 0 {
			return gv.NthBytes("committed", from)
		}
		return gv.NthBytes("revealed", from)
	}}
	k, err := arith.GenExpReveal(uint16(pid), "key", p, uint16(n), group())
	gv.Assert((err == nil) == (k != nil), "a key or an error")
	if err != nil {
		gv.Reached("failure")
		return
	}
	gv.Reached("the end")
	// the commitment is one of the format that this party sends
	gv.Format(len(p.Sent) == 2 && gv.Equal(p.Sent[0][0], packed(gv.Enc(k.VSecret().VShare()))))
	i := gv.Index("another party", n)
	gv.Assume(i != pid)
	gv.Assert(len(k.VPkShares()) == n && k.VPkShares()[i] != nil, "a public share of every party")
	c := gv.NthBytes("committed", i)
	gv.Assert(len(c) >= 8, "a commitment was received")
	l := int(binary.LittleEndian.Uint32(c))
	gv.Assert(len(c) >= 8+l, "a whole commitment was received")
	x, err := group().Decode(bytes.NewReader(c[8 : 8+l]))
	gv.Assert(err == nil, "what was committed to is a share")
	gv.Assert(group().Equal(x, k.VPkShares()[i]), "the share is the one that was committed to")
}

// KeyGenFails: a round that fails
func KeyGenFails() {
	n, pid, _ := anyParties()
	bad := gv.Choose("round that fails", 2)
	p := &net.Peer{Pid: pid, N: n, Msg: func(from, round int) []byte {
		if round == 0 {
			return gv.NthBytes("committed", from)
		}
		return gv.NthBytes("revealed", from)
	},
		Fails: func(round int) bool { return round == bad }}
	k, err := arith.GenExpReveal(uint16(pid), "key", p, uint16(n), group())
	gv.Assert(err != nil && k == nil, "without a message of every party there is no key")
}

// NewKeyAll: the key made of any number of given shares
func NewKeyAll() {
	n := gv.Count("number of shares", 1, 65535)
	shares := make([]curve.Point, n)
	sh := func(i int) *big.Int { return gv.NthBelow("share", i, gv.Order()) }
	gv.Fill("operands", shares, func(i int) interface{} { return gv.Point(sh(i)) })
	sum := gv.Later(n, sh)
	s := arith.NewDSecret(0, "label", Scalar("secret"), nil)
	gv.Freeze("operands", s)
	k := arith.NewDKey(s, shares, group())
	gv.Assert(gv.IsPoint(k.PublicKey(), sum()), "the public key is the sum of the public shares")
	gv.Assert(k.VSecret() == s && len(k.VPkShares()) == n, "the key holds the given secret and shares")
	i := gv.Index("one of them", n)
	gv.Assert(gv.IsPoint(k.VPkShares()[i], sh(i)), "each of the given shares")
}

func KeyGen2() { keyGen(2) }
func KeyGen3() { keyGen(3) }

// keyGenAgainst runs a party against one whose messages go through tamper
func keyGenAgainst(tamper func(round int, data []byte) []byte) (k *arith.DKey, err error, peer *arith.DKey, bad int) {
	w := net.New(2)
	bad = gv.Choose("wrong party", 2)
	w.Tamper = func(from, to, round int, data []byte) []byte {
		if from == bad {
			return tamper(round, data)
		}
		return data
	}
	keys, errs := make([]*arith.DKey, 2), make([]error, 2)
	w.Run(nil, func(p *net.Party) {
		keys[p.Pid], errs[p.Pid] = arith.GenExpReveal(uint16(p.Pid), "key", p, 2, group())
	})
	return keys[1-bad], errs[1-bad], keys[bad], bad
}

// KeyGenReveal: whatever a peer reveals after having committed to its share, it is the share or the generation fails
func KeyGenReveal() {
	k, err, peer, bad := keyGenAgainst(func(round int, data []byte) []byte {
		if round == 1 {
			return gv.BytesNear("revealed", data)
		}
		return data
	})
	gv.Reached("the end")
	if err == nil && peer != nil {
		gv.Assert(gv.IsPoint(k.VPkShares()[bad], peer.VSecret().VShare()), "the revealed share is the one committed to")
		gv.Assert(gv.IsPoint(k.PublicKey(), Add(k.VSecret().VShare(), peer.VSecret().VShare())), "the public key is the sum of the public shares")
	}
	if err != nil {
		gv.Assert(k == nil, "no key is returned when the generation fails")
	}
}

// KeyGenDifferent: the peer reveals another share
func KeyGenDifferent() {
	d := Scalar("other share")
	_, err, peer, _ := keyGenAgainst(func(round int, data []byte) []byte {
		if round == 1 {
			return gv.Enc(d)
		}
		return data
	})
	if peer != nil && !Same(d, peer.VSecret().VShare()) {
		gv.Assert(err != nil, "revealing another share than committed to makes the generation fail")
	} else if peer != nil {
		gv.Assert(err == nil, "revealing the committed share is accepted")
	}
}

// KeyGenParts: the peer commits to a part of what it reveals
func KeyGenParts() {
	b := gv.Enc(Scalar("peer"))
	lo, hi := gv.Int("start", 0, 72), gv.Int("end", 0, 72)
	gv.Assume(lo <= hi && hi <= len(b) && hi-lo < len(b))
	_, err, _, _ := keyGenAgainst(func(round int, data []byte) []byte {
		if round == 1 {
			return b
		}
		return packed(b[lo:hi])
	})
	gv.Assert(err != nil, "the generation fails if a party revealed a share that it did not commit to")
}

// KeyGenCommit: whatever a peer commits to
func KeyGenCommit() {
	k, err, peer, bad := keyGenAgainst(func(round int, data []byte) []byte {
		if round == 0 {
			return gv.BytesNear("commitment", data)
		}
		return data
	})
	gv.Reached("the end")
	if err == nil && peer != nil {
		gv.Assert(gv.IsPoint(k.VPkShares()[bad], peer.VSecret().VShare()), "the public share is the revealed one")
	}
	if err != nil {
		gv.Assert(k == nil, "no key is returned when the generation fails")
	}
}

// KeyGenMissing: a peer that does not take part, or drops out
func KeyGenMissing() {
	w := net.New(2)
	bad := gv.Choose("absent party", 2)
	var k *arith.DKey
	var err error
	last := gv.Choose("rounds before the peer drops out", 2)
	w.Run(nil, func(p *net.Party) {
		if p.Pid == bad {
			if last == 1 {
				p.Round([][]byte{gv.Bytes("first message")}, func(uint16, []byte) error { return nil })
			}
			return
		}
		k, err = arith.GenExpReveal(uint16(p.Pid), "key", p, 2, group())
	})
	gv.Assert(err != nil && k == nil, "without a message of every party there is no key")
}

// NewKey: the key made of given shares
func NewKey() {
	n := 1 + gv.Choose("number of shares", 4)
	g := group()
	var shares []curve.Point
	sum := zero()
	for i := 0; i < n; i++ {
		d := Scalar("share")
		shares = append(shares, gv.Point(d))
		sum = Add(sum, d)
	}
	s := arith.NewDSecret(0, "label", Scalar("secret"), nil)
	gv.Freeze("operands", s, shares)
	k := arith.NewDKey(s, shares, g)
	gv.Assert(gv.IsPoint(k.PublicKey(), sum), "the public key is the sum of the public shares")
	gv.Assert(k.VSecret() == s && len(k.VPkShares()) == n, "the key holds the given secret and shares")
}

// ---- additive secrets

func base() (*commitment.ElGamalFactory, *big.Int) {
	dh := Scalar("dl.base")
	return commitment.NewElGamalFactory(gv.Point(dh)), dh
}

func gen(n int) {
	f, dh := base()
	w := net.New(n)
	w.Reverse = gv.Choose("order of arrival", 2) == 1
	s, errs := make([]*arith.ADSecret, n), make([]error, n)
	d0 := gv.DrawCount()
	w.Run(nil, func(p *net.Party) {
		s[p.Pid], errs[p.Pid] = arith.Gen("a", p, f, uint16(p.Pid), uint16(n))
	})
	for i := range s {
		gv.Assert(errs[i] == nil, "generation succeeds among parties that follow the protocol")
		a, b := gv.FreshDraw(d0, s[i].VShare()), gv.FreshDraw(d0, s[i].VR())
		gv.Assert(a >= 0 && b >= 0 && a != b, "share and randomness are independent fresh uniform scalars")
		gv.Assert(s[i].VPid() == uint16(i) && s[i].Label() == "a" && s[i].VEgf() == f, "the secret belongs to its party and commitment base")
		gv.Assert(len(s[i].VEgs()) == n, "one commitment for each party")
		for j := range s {
			gv.Assert(IsComm(s[i].VEgs()[j], Opening(dh, s[j].VShare(), s[j].VR())), "the commitment held for a party is opened by its share and randomness")
		}
	}
}

func Gen2() { gen(2) }
func Gen3() { gen(3) }

// GenAny: any message of a peer
func GenAny() {
	f, dh := base()
	w := net.New(2)
	bad := gv.Choose("wrong party", 2)
	w.Tamper = func(from, to, round int, data []byte) []byte {
		if from == bad {
			return gv.BytesNear("message", data)
		}
		return data
	}
	w.Run(nil, func(p *net.Party) {
		s, err := arith.Gen("a", p, f, uint16(p.Pid), 2)
		if p.Pid != bad {
			gv.Reached("the end")
			gv.Assert((err == nil) == (s != nil), "a secret or an error")
			if s != nil {
				gv.Assert(IsComm(s.VEgs()[p.Pid], Opening(dh, s.VShare(), s.VR())), "the own commitment is opened by share and randomness")
				gv.Assert(s.VEgs()[bad] != nil, "a commitment for the peer")
			}
		}
	})
}

func GenMissing() {
	f, _ := base()
	w := net.New(2)
	bad := gv.Choose("absent party", 2)
	w.Run([]bool{bad == 0, bad == 1}, func(p *net.Party) {
		s, err := arith.Gen("a", p, f, uint16(p.Pid), 2)
		gv.Assert(s == nil && err != nil, "without a message of every party there is no secret")
	})
}

// GenAll: any number of parties
func GenAll() {
	n, pid, _ := anyParties()
	f, dh := base()
	others := &anySecret{"peers", n, f}
	p := &net.Peer{Pid: pid, N: n, Msg: func(from, round int) []byte {
		return Wire(Opening(dh, others.share(from), others.rnd(from)))
	}}
	d0 := gv.DrawCount()
	s, err := arith.Gen("a", p, f, uint16(pid), uint16(n))
	gv.Assert(err == nil, "generation succeeds among parties that follow the protocol")
	a, b := gv.FreshDraw(d0, s.VShare()), gv.FreshDraw(d0, s.VR())
	gv.Assert(a >= 0 && b >= 0 && a != b, "share and randomness are independent fresh uniform scalars")
	gv.Assert(s.VPid() == uint16(pid) && s.Label() == "a" && s.VEgf() == f, "the secret belongs to its party and commitment base")
	gv.Assert(len(s.VEgs()) == n, "one commitment for each party")
	// the messages assumed of the others are what this party sends
	gv.Format(len(p.Sent) == 1 && len(p.Sent[0]) == 1 && gv.Equal(p.Sent[0][0], Wire(Opening(dh, s.VShare(), s.VR()))))
	i := gv.Index("another party", n)
	if i == pid {
		gv.Assert(IsComm(s.VEgs()[i], Opening(dh, s.VShare(), s.VR())), "the own commitment is opened by share and randomness")
	} else {
		gv.Assert(IsComm(s.VEgs()[i], Opening(dh, others.share(i), others.rnd(i))), "the commitment held for a party is opened by its share and randomness")
	}
}

// GenAnyAll: any number of peers that send anything
func GenAnyAll() {
	n, pid, _ := anyParties()
	f, dh := base()
	fails := gv.Bool("the exchange fails")
	p := &net.Peer{Pid: pid, N: n, Msg: func(from, round int) []byte { return gv.NthBytes("message", from) },
		Fails: func(int) bool { return fails }}
	s, err := arith.Gen("a", p, f, uint16(pid), uint16(n))
	gv.Reached("the end")
	gv.Assert((err == nil) == (s != nil), "a secret or an error")
	if s == nil {
		return
	}
	gv.Assert(!fails, "without a message of every party there is no secret")
	gv.Assert(IsComm(s.VEgs()[pid], Opening(dh, s.VShare(), s.VR())), "the own commitment is opened by share and randomness")
	i := gv.Index("another party", n)
	gv.Assert(s.VEgs()[i] != nil, "a commitment for each peer")
	if i != pid {
		var e commitment.ElGamal
		gv.Assert(e.Decode(bytes.NewReader(gv.NthBytes("message", i))) == nil, "a malformed message is not accepted")
		gv.Assert(e.Equal(s.VEgs()[i], s.VEgs()[i]) && e.Equal(&e, s.VEgs()[i]), "the commitment held for a peer is the one in its message")
	}
}

// ---- threshold secrets

// threshold is a secret shared by a polynomial of degree t-1
type threshold struct {
	n, t   int
	f      *commitment.ElGamalFactory
	dh     *big.Int
	secret *big.Int
	share  []*big.Int
	rnd    []*big.Int
}

// Shamir shares with evaluation points 1..n
func shamir(name string, n, t int) (*big.Int, []*big.Int) {
	var coef []*big.Int
	for i := 0; i < t; i++ {
		coef = append(coef, Scalar(name+".coefficient"))
	}
	var share []*big.Int
	for i := 1; i <= n; i++ {
		v, x := zero(), big.NewInt(1)
		for _, c := range coef {
			v = Add(v, Mul(c, x))
			x = Mul(x, big.NewInt(int64(i)))
		}
		share = append(share, v.Mod(v, gv.Order()))
	}
	return coef[0], share
}

func newThreshold(name string, n, t int, f *commitment.ElGamalFactory, dh *big.Int) *threshold {
	h := &threshold{n: n, t: t, f: f, dh: dh}
	h.secret, h.share = shamir(name, n, t)
	for i := 0; i < n; i++ {
		h.rnd = append(h.rnd, Scalar(name+".rnd"))
	}
	return h
}

func (h *threshold) comms() []*commitment.ElGamal {
	var egs []*commitment.ElGamal
	for i := range h.share {
		egs = append(egs, h.f.Create(h.share[i], h.rnd[i]))
	}
	return egs
}

func (h *threshold) at(p *net.Party, label string) *arith.TDSecret {
	i := p.Pid
	return arith.VTDSecret(arith.VADSecret(uint16(i), label, Cp(h.share[i]), Cp(h.rnd[i]), h.f, h.comms(), p), uint16(h.t))
}

// responders: which of the others respond to party 0
func responders(n int) ([]bool, int) {
	absent := make([]bool, n)
	k := 1
	for i := 1; i < n; i++ {
		if gv.Choose("party absent", 2) == 1 {
			absent[i] = true
		} else {
			k++
		}
	}
	return absent, k
}

func reveal(n int) {
	t := 1 + gv.Choose("threshold-1", n)
	absent, k := responders(n)
	revealAmong(n, t, absent, k)
}

func revealAmong(n, t int, absent []bool, k int) {
	f, dh := base()
	h := newThreshold("s", n, t, f, dh)
	w := net.New(n)
	w.Run(absent, func(p *net.Party) {
		s := h.at(p, "s")
		gv.Freeze("the secret", s.VShare(), s.VR(), s.VEgs())
		r, err := s.Reveal()
		if k >= t {
			gv.Assert(err == nil, "enough parties respond")
			gv.Assert(r.Cmp(h.secret) == 0, "the revealed value is the shared secret")
		} else {
			gv.Assert(err != nil && r == nil, "fewer responses than the threshold")
		}
	})
}

func Reveal2() { reveal(2) }
func Reveal3() { reveal(3) }
func Reveal4() { reveal(4) }

func RevealMany() { revealAmong(several(5, 6, 9, 17)) }

// RevealBroken: the exchange fails for another reason than absent parties
func RevealBroken() {
	n := 2
	t := 1 + gv.Choose("threshold-1", n)
	f, dh := base()
	h := newThreshold("s", n, t, f, dh)
	w := net.New(n)
	w.Broken = func(int, int) bool { return true }
	w.Run(nil, func(p *net.Party) {
		r, err := h.at(p, "s").Reveal()
		gv.Assert(err != nil && r == nil, "a failed exchange is reported")
	})
}

func exp(n int) {
	t := 1 + gv.Choose("threshold-1", n)
	absent, k := responders(n)
	expAmong(n, t, absent, k)
}

func expAmong(n, t int, absent []bool, k int) {
	f, dh := base()
	h := newThreshold("s", n, t, f, dh)
	w := net.New(n)
	w.Run(absent, func(p *net.Party) {
		s := h.at(p, "s")
		gv.Freeze("the secret", s.VShare(), s.VR(), s.VEgs())
		key, err := s.Exp()
		if k >= t {
			gv.Assert(err == nil, "enough parties respond")
			gv.Assert(gv.IsPoint(key.PublicKey(), h.secret), "the public key is the generator times the shared secret")
			for i, q := range key.VPkShares() {
				if !absent[i] {
					gv.Assert(gv.IsPoint(q, h.share[i]), "the public share of a party is the generator times its share")
				}
			}
			gv.Assert(key.Threshold() == uint16(t), "the key has the threshold of the secret")
		} else {
			gv.Assert(err != nil && key == nil, "fewer responses than the threshold")
		}
	})
}

func Exp2() { exp(2) }
func Exp3() { exp(3) }
func Exp4() { exp(4) }

func ExpMany() { expAmong(several(5, 6, 9, 17)) }

func ExpBroken() {
	n := 2
	t := 1 + gv.Choose("threshold-1", n)
	f, dh := base()
	h := newThreshold("s", n, t, f, dh)
	w := net.New(n)
	w.Broken = func(int, int) bool { return true }
	w.Run(nil, func(p *net.Party) {
		k, err := h.at(p, "s").Exp()
		gv.Assert(err != nil && k == nil, "a failed exchange is reported")
	})
}

// ExpAny: a peer sends anything; a malformed message counts as an absent party
func ExpAny() {
	n := 2 + gv.Choose("parties-2", 2)
	t := 1 + gv.Choose("threshold-1", n)
	f, dh := base()
	h := newThreshold("s", n, t, f, dh)
	w := net.New(n)
	wrong := gv.Choose("wrong party", n)
	bad := gv.Choose("message too short for a share", 2) == 1
	w.Tamper = func(from, to, round int, data []byte) []byte {
		if from == wrong {
			b := gv.BytesNear("message", data)
			gv.Assume(!bad || len(b) < 4)
			return b
		}
		return data
	}
	w.Run(nil, func(p *net.Party) {
		k, err := h.at(p, "s").Exp()
		if p.Pid == wrong {
			return
		}
		gv.Reached("the end")
		gv.Assert((err == nil) == (k != nil), "a key or an error")
		if n > t && bad {
			gv.Assert(err == nil && gv.IsPoint(k.PublicKey(), h.secret), "the shares of the others suffice")
		}
		if bad && n == t {
			gv.Assert(err != nil, "a malformed share does not count")
		}
	})
}

// crowd: more parties than a byte has values, with a choice of thresholds and of absent parties
func crowd() (h *threshold, p *net.Watched, k int) {
	n := 300
	own := 275 * gv.Choose("own", 2)
	t := []int{1, 3, 4}[gv.Choose("threshold", 3)]
	absent := make([]bool, n)
	switch gv.Choose("absent", 3) {
	case 1: // the first
		for i := 0; i < 254; i++ {
			absent[i] = true
		}
	case 2: // nearly all
		for i := 0; i < n; i++ {
			absent[i] = i != 2 && i != 258
		}
	}
	absent[own] = false
	return watch(n, t, own, absent)
}

// places: any own number, with any three others that respond
func places() (h *threshold, p *net.Watched, k int) {
	n, t := 70, 3
	own, at := 35, gv.Choose("place", 70)
	if gv.Choose("whose", 2) == 0 {
		own, at = at, 66
	}
	absent := make([]bool, n)
	for i := range absent {
		absent[i] = i != own && i != at && i != (at+1)%n && i != (at+9)%n
	}
	return watch(n, t, own, absent)
}

func watch(n, t, own int, absent []bool) (h *threshold, p *net.Watched, k int) {
	f, dh := base()
	h = newThreshold("s", n, t, f, dh)
	for i := 0; i < n; i++ {
		if !absent[i] {
			k++
		}
	}
	p = &net.Watched{Pid: own, N: n}
	group := curve.NewSecp256k1Group()
	p.Msg = func(from, round int) []byte {
		if absent[from] {
			return nil
		}
		if round == 0 {
			return h.share[from].Bytes()
		}
		b := &bytes.Buffer{}
		if err := group.Encode(group.ScalarBaseMult(h.share[from]), b); err != nil {
			panic(err)
		}
		return b.Bytes()
	}
	return
}

func (h *threshold) watched(p *net.Watched) *arith.TDSecret {
	return arith.VTDSecret(arith.VADSecret(uint16(p.Pid), "s", Cp(h.share[p.Pid]), Cp(h.rnd[p.Pid]), h.f, h.comms(), p), uint16(h.t))
}

// RevealCrowd: one party, where the others follow the protocol or are absent
func RevealCrowd() { revealWatched(crowd()) }

func RevealPlaces() { revealWatched(places()) }

func revealWatched(h *threshold, p *net.Watched, k int) {
	r, err := h.watched(p).Reveal()
	if k >= h.t {
		gv.Assert(err == nil, "enough parties respond")
		gv.Assert(r.Cmp(h.secret) == 0, "the revealed value is the shared secret")
	} else {
		gv.Assert(err != nil && r == nil, "fewer responses than the threshold")
	}
	gv.Assert(len(p.Sent) == 1 && len(p.Sent[0]) == 1 && gv.Equal(p.Sent[0][0], h.share[p.Pid].Bytes()), "the own share is sent to all")
}

// ExpCrowd: likewise
func ExpCrowd() { expWatched(crowd()) }

func ExpPlaces() { expWatched(places()) }

func expWatched(h *threshold, p *net.Watched, k int) {
	p.Rounds = 1
	key, err := h.watched(p).Exp()
	if k >= h.t {
		gv.Assert(err == nil, "enough parties respond")
		gv.Assert(gv.IsPoint(key.PublicKey(), h.secret), "the public key is the generator times the shared secret")
		for i, q := range key.VPkShares() {
			if p.Msg(i, 0) != nil {
				gv.Assert(gv.IsPoint(q, h.share[i]), "the public share of a party is the generator times its share")
			}
		}
		gv.Assert(key.Threshold() == uint16(h.t), "the key has the threshold of the secret")
	} else {
		gv.Assert(err != nil && key == nil, "fewer responses than the threshold")
	}
	gv.Assert(len(p.Sent) == 1 && len(p.Sent[0]) == 1 && gv.Equal(p.Sent[0][0], p.Msg(p.Pid, 1)), "the own public share is sent to all")
}

// ---- linear combinations

func Lin() {
	n := 1 + gv.Choose("parties-1", 3)
	t := 1 + gv.Choose("threshold-1", n)
	pid := gv.Choose("party", n)
	f, dh := base()
	a, b := newThreshold("a", n, t, f, dh), newThreshold("b", n, t, f, dh)
	w := net.New(n)
	p := w.Party(pid)
	sa, sb := a.at(p, "a"), b.at(p, "b")
	alpha, beta := gv.Nat("alpha"), gv.Nat("beta")
	gv.Freeze("operands", alpha, beta, sa.VShare(), sa.VR(), sa.VEgs(), sb.VShare(), sb.VR(), sb.VEgs())
	c := arith.Lin(alpha, beta, sa, sb, "c")
	gv.Assert(c.VPid() == uint16(pid) && c.Threshold() == uint16(t) && c.Label() == "c", "same party, same threshold, the requested label")
	gv.Assert(c.VEgf() == f, "same commitment base")
	gv.Assert(c.VServer() != nil && c.VServer().(*net.Party) == p, "same server")
	gv.Assert(Same(c.VShare(), Add(Mul(alpha, a.share[pid]), Mul(beta, b.share[pid]))), "the share is the combination of the shares")
	gv.Assert(Same(c.VR(), Add(Mul(alpha, a.rnd[pid]), Mul(beta, b.rnd[pid]))), "the randomness is the combination of the randomness")
	gv.Assert(len(c.VEgs()) == n, "one commitment for each party")
	for i := 0; i < n; i++ {
		gv.Assert(IsComm(c.VEgs()[i], Opening(dh, Add(Mul(alpha, a.share[i]), Mul(beta, b.share[i])), Add(Mul(alpha, a.rnd[i]), Mul(beta, b.rnd[i])))),
			"the commitment held for each party is the combination of the operands' commitments")
	}
}

// a shared secret of any number of parties
type anySecret struct {
	name string
	n    int
	f    *commitment.ElGamalFactory
}

func (s *anySecret) share(i int) *big.Int { return gv.NthBelow(s.name+".share", i, gv.Order()) }
func (s *anySecret) rnd(i int) *big.Int   { return gv.NthBelow(s.name+".rnd", i, gv.Order()) }

func (s *anySecret) comms() []*commitment.ElGamal {
	egs := make([]*commitment.ElGamal, s.n)
	gv.Fill("the commitments of "+s.name, egs, func(i int) interface{} { return s.f.Create(s.share(i), s.rnd(i)) })
	return egs
}

func (s *anySecret) at(p *net.Peer, t int) *arith.TDSecret {
	return arith.VTDSecret(arith.VADSecret(uint16(p.Pid), s.name, s.share(p.Pid), s.rnd(p.Pid), s.f, s.comms(), p), uint16(t))
}

// anyParties: any number of parties, one of them, and a threshold
func anyParties() (n, pid, t int) {
	n = gv.Count("parties", 1, 65535)
	return n, gv.Index("party", n), gv.Index("threshold", n) + 1
}

// LinAll: any number of parties
func LinAll() {
	n, pid, t := anyParties()
	f, dh := base()
	a, b := &anySecret{"a", n, f}, &anySecret{"b", n, f}
	p := &net.Peer{Pid: pid, N: n}
	sa, sb := a.at(p, t), b.at(p, t)
	alpha, beta := gv.Nat("alpha"), gv.Nat("beta")
	gv.Freeze("operands", alpha, beta, sa.VShare(), sa.VR(), sb.VShare(), sb.VR())
	c := arith.Lin(alpha, beta, sa, sb, "c")
	gv.Assert(c.VPid() == uint16(pid) && c.Threshold() == uint16(t) && c.Label() == "c", "same party, same threshold, the requested label")
	gv.Assert(c.VEgf() == f, "same commitment base")
	gv.Assert(c.VServer() != nil && c.VServer().(*net.Peer) == p, "same server")
	gv.Assert(Same(c.VShare(), Add(Mul(alpha, a.share(pid)), Mul(beta, b.share(pid)))), "the share is the combination of the shares")
	gv.Assert(Same(c.VR(), Add(Mul(alpha, a.rnd(pid)), Mul(beta, b.rnd(pid)))), "the randomness is the combination of the randomness")
	gv.Assert(len(c.VEgs()) == n, "one commitment for each party")
	i := gv.Index("another party", n)
	gv.Assert(IsComm(c.VEgs()[i], Opening(dh, Add(Mul(alpha, a.share(i)), Mul(beta, b.share(i))), Add(Mul(alpha, a.rnd(i)), Mul(beta, b.rnd(i))))),
		"the commitment held for each party is the combination of the operands' commitments")
}

// LinReveal: a combination is used like its operands
func LinReveal() {
	n := 2
	t := 1 + gv.Choose("threshold-1", n)
	f, dh := base()
	a, b := newThreshold("a", n, t, f, dh), newThreshold("b", n, t, f, dh)
	alpha, beta := Scalar("alpha"), Scalar("beta")
	w := net.New(n)
	w.Run(nil, func(p *net.Party) {
		c := arith.Lin(alpha, beta, a.at(p, "a"), b.at(p, "b"), "c")
		want := Add(Mul(alpha, a.secret), Mul(beta, b.secret))
		r, err := c.Reveal()
		gv.Assert(err == nil && Same(r, want), "revealing a combination yields the combination of the secrets")
		k, err := c.Exp()
		gv.Assert(err == nil && gv.IsPoint(k.PublicKey(), want), "and so does its public key")
	})
}

// ---- Diffie-Hellman check

type dhSetup struct {
	n     int
	share []*big.Int
	sk    *big.Int
	u, v  *big.Int
}

func dh(n int) *dhSetup {
	s := &dhSetup{n: n, sk: zero()}
	for i := 0; i < n; i++ {
		d := Scalar("key share")
		s.share = append(s.share, d)
		s.sk = Add(s.sk, d)
	}
	s.u, s.v = Scalar("dl.u"), Scalar("dl.v")
	return s
}

func (s *dhSetup) key(p *net.Party) *arith.DKey {
	var pks []curve.Point
	for _, d := range s.share {
		pks = append(pks, gv.Point(d))
	}
	return arith.NewDKey(arith.NewDSecret(uint16(p.Pid), "key", Cp(s.share[p.Pid]), p), pks, group())
}

func (s *dhSetup) run(w *net.Net) []error {
	errs := make([]error, s.n)
	w.Run(nil, func(p *net.Party) {
		k := s.key(p)
		u, v := gv.Point(s.u), gv.Point(s.v)
		gv.Freeze("operands", u, v, k.VPkShares(), k.VSecret().VShare())
		errs[p.Pid] = arith.CheckDH(u, v, group(), k)
	})
	return errs
}

func checkDH(n int) {
	s := dh(n)
	w := net.New(n)
	w.Reverse = gv.Choose("order of arrival", 2) == 1
	d0 := gv.DrawCount()
	errs := s.run(w)
	// each party draws a mask for u and one for the generator
	mask := zero()
	gv.Assert(gv.DrawCount() == d0+2*n, "two random masks for each party")
	for i := 0; i < n; i++ {
		mask = Add(mask, gv.Drawn(d0+2*i))
	}
	diff := Sub(s.v, Mul(s.u, s.sk))
	for i := 0; i < n; i++ {
		gv.Assert((errs[i] == nil) == (errs[0] == nil), "all parties come to the same result")
		if Same(diff, zero()) {
			gv.Assert(errs[i] == nil, "a Diffie-Hellman tuple is accepted")
		} else {
			gv.Assert((errs[i] == nil) == Same(Mul(mask, diff), zero()), "any other is rejected but for one value of the combined mask")
		}
	}
}

func CheckDH2() { checkDH(2) }
func CheckDH3() { checkDH(3) }

// CheckDHAll: any number of parties
func CheckDHAll() {
	n, pid, _ := anyParties()
	u := Scalar("dl.u")
	// the key shares, and the masks of the other parties
	key := &anySecret{"key", n, nil}
	alpha := func(i int) *big.Int { return gv.NthBelow("alpha", i, gv.Order()) }
	beta := func(i int) *big.Int { return gv.NthBelow("beta", i, gv.Order()) }
	sk := gv.LaterBut(n, key.share, pid, func() *big.Int { return key.share(pid) })()
	v := gv.BelowNear("dl.v", gv.Order(), Mul(u, sk))
	test := func(a, b *big.Int) *big.Int { return Add(Mul(u, a), b) }
	verify := func(a, b *big.Int) *big.Int { return Add(Mul(v, a), Mul(sk, b)) }
	d0 := gv.DrawCount()
	own := func(f func(a, b *big.Int) *big.Int) *big.Int { return f(gv.Drawn(d0), gv.Drawn(d0+1)) }
	of := func(i int, f func(a, b *big.Int) *big.Int) *big.Int { return f(alpha(i), beta(i)) }
	masks := gv.LaterBut(n, alpha, pid, nil)
	tests := gv.LaterBut(n, func(i int) *big.Int { return of(i, test) }, pid, nil)
	gv.LaterBut(n, func(i int) *big.Int { return of(i, verify) }, pid, nil)
	total := func() *big.Int { return Add(own(test), tests()) }
	gv.LaterBut(n, func(i int) *big.Int { return Mul(total(), key.share(i)) }, pid, nil)
	bad := gv.Choose("round that fails", 4)
	p := &net.Peer{Pid: pid, N: n, Msg: func(from, round int) []byte {
		switch round {
		case 0:
			return packed(append(gv.Enc(of(from, test)), gv.Enc(of(from, verify))...))
		case 1:
			return append(gv.Enc(of(from, verify)), gv.Enc(of(from, test))...)
		}
		return gv.Enc(Mul(total(), key.share(from)))
	}, Fails: func(round int) bool { return round == bad }}
	shares := make([]curve.Point, n)
	gv.Fill("the public shares", shares, func(i int) interface{} { return gv.Point(key.share(i)) })
	k := arith.NewDKey(arith.NewDSecret(uint16(pid), "key", key.share(pid), p), shares, group())
	err := arith.CheckDH(gv.Point(u), gv.Point(v), group(), k)
	gv.Reached("the end")
	if bad < len(p.Sent) {
		gv.Assert(err != nil, "without a message of every party the check fails")
		return
	}
	gv.Assert(gv.DrawCount() == d0+2, "a mask for u and one for the generator")
	// the messages assumed of the others are what this party sends
	t, w := gv.Enc(own(test)), gv.Enc(own(verify))
	gv.Format(len(p.Sent) == 3 && gv.Equal(p.Sent[0][0], packed(append(append([]byte{}, t...), w...))) && gv.Equal(p.Sent[1][0], append(append([]byte{}, w...), t...)) &&
		gv.Equal(p.Sent[2][0], gv.Enc(Mul(total(), key.share(pid)))))
	mask, diff := Add(masks(), gv.Drawn(d0)), Sub(v, Mul(u, sk))
	if Same(diff, zero()) {
		gv.Assert(err == nil, "a Diffie-Hellman tuple is accepted")
	} else {
		gv.Assert((err == nil) == Same(Mul(mask, diff), zero()), "any other is rejected but for one value of the combined mask")
	}
}

// CheckDHBinding: any number of parties that send anything
func CheckDHBinding() {
	n, pid, _ := anyParties()
	u, v, sk := Scalar("dl.u"), Scalar("dl.v"), Scalar("secret key")
	key := &anySecret{"key", n, nil}
	shares := make([]curve.Point, n)
	gv.Fill("the public shares", shares, func(i int) interface{} { return gv.Point(key.share(i)) })
	p := &net.Peer{Pid: pid, N: n, Msg: func(from, round int) []byte {
		return gv.NthBytes([]string{"committed", "revealed", "result"}[round], from)
	}}
	k := arith.VDKey(arith.NewDSecret(uint16(pid), "key", key.share(pid), p), gv.Point(sk), shares)
	d0 := gv.DrawCount()
	err := arith.CheckDH(gv.Point(u), gv.Point(v), group(), k)
	gv.Reached("the end")
	if err != nil {
		return
	}
	own := func(of, more *big.Int) []byte { return gv.Enc(Add(Mul(of, gv.Drawn(d0)), Mul(more, gv.Drawn(d0+1)))) }
	gv.Format(len(p.Sent) == 3 && gv.Equal(p.Sent[0][0], packed(append(own(u, one()), own(v, sk)...))) && gv.Equal(p.Sent[1][0], append(own(v, sk), own(u, one())...)))
	i := gv.Index("another party", n)
	gv.Assume(i != pid)
	gv.Assert(p.Got[0][i] && p.Got[1][i] && p.Got[2][i], "every party sent its messages")
	c := gv.NthBytes("committed", i)
	gv.Assert(len(c) >= 8, "a commitment was received")
	l := int(binary.LittleEndian.Uint32(c))
	gv.Assert(len(c) >= 8+l, "a whole commitment was received")
	r := bytes.NewReader(gv.NthBytes("revealed", i))
	y, err := group().Decode(r)
	gv.Assert(err == nil, "the first revealed value is an element")
	x, err := group().Decode(r)
	gv.Assert(err == nil, "the second revealed value is an element")
	var w bytes.Buffer
	gv.Assert(group().Encode(x, &w) == nil && group().Encode(y, &w) == nil, "encoding")
	gv.Assert(gv.Equal(c[8:8+l], w.Bytes()), "the values revealed are the ones that were committed to")
}

// CheckDHReveal: a peer reveals other values than it committed to
func CheckDHReveal() {
	s := dh(2)
	w := net.New(2)
	bad := gv.Choose("wrong party", 2)
	a, b := Scalar("first revealed"), Scalar("second revealed")
	same := false
	w.Tamper = func(from, to, round int, data []byte) []byte {
		if from == bad && round == 1 {
			m := append(gv.Enc(a), gv.Enc(b)...)
			same = gv.Equal(m, data)
			return m
		}
		return data
	}
	errs := s.run(w)
	if !same {
		gv.Assert(errs[1-bad] != nil, "revealing other values than committed to makes the check fail")
	}
}

// CheckDHParts: a peer commits to a part only of what it reveals, and makes the last round fit
func CheckDHParts() {
	s := dh(2)
	x, y := Scalar("revealed test value"), Scalar("revealed verify value")
	all := append(gv.Enc(x), gv.Enc(y)...)
	lo, hi := 0, len(gv.Enc(x))
	switch gv.Choose("part", 3) {
	case 1:
		lo, hi = hi, len(all)
	case 2:
		lo, hi = gv.Int("start", 0, 144), gv.Int("end", 0, 144)
		gv.Assume(lo <= hi && hi <= len(all) && hi-lo < len(all))
	}
	d0 := gv.DrawCount()
	p := &net.Peer{Pid: 0, N: 2, Msg: func(from, round int) []byte {
		switch round {
		case 0:
			return packed(all[lo:hi])
		case 1:
			return append(gv.Enc(y), gv.Enc(x)...)
		}
		a, b := gv.Drawn(d0), gv.Drawn(d0+1)
		t := Add(Add(Mul(s.u, a), b), x)
		v := Add(Add(Mul(s.v, a), Mul(s.sk, b)), y)
		return gv.Enc(Sub(v, Mul(t, s.share[0])))
	}}
	k := s.key(&net.Party{Pid: 0})
	k = arith.NewDKey(arith.NewDSecret(0, "key", Cp(s.share[0]), p), k.VPkShares(), group())
	err := arith.CheckDH(gv.Point(s.u), gv.Point(s.v), group(), k)
	gv.Assert(err != nil, "the check fails if a party reveals values that it did not commit to")
}

// CheckDHAny: any message of a peer in any round
func CheckDHAny() {
	s := dh(2)
	w := net.New(2)
	bad := gv.Choose("wrong party", 2)
	at := gv.Choose("round", 3)
	w.Tamper = func(from, to, round int, data []byte) []byte {
		if from == bad && round == at {
			return gv.BytesNear("message", data)
		}
		return data
	}
	s.run(w)
	gv.Reached("the end")
}

// ---- resharing

type additive struct {
	n     int
	f     *commitment.ElGamalFactory
	dh    *big.Int
	sum   *big.Int
	share []*big.Int
	rnd   []*big.Int
}

func newAdditive(name string, n int, f *commitment.ElGamalFactory, dh *big.Int) *additive {
	h := &additive{n: n, f: f, dh: dh, sum: zero()}
	for i := 0; i < n; i++ {
		h.share = append(h.share, Scalar(name+".share"))
		h.rnd = append(h.rnd, Scalar(name+".rnd"))
		h.sum = Add(h.sum, h.share[i])
	}
	return h
}

func (h *additive) at(p *net.Party, label string) *arith.ADSecret {
	var egs []*commitment.ElGamal
	for i := range h.share {
		egs = append(egs, h.f.Create(h.share[i], h.rnd[i]))
	}
	return arith.VADSecret(uint16(p.Pid), label, Cp(h.share[p.Pid]), Cp(h.rnd[p.Pid]), h.f, egs, p)
}

// atZero interpolates at zero; party i's point is i+1
func atZero(ids []int, share []*big.Int) *big.Int {
	r := zero()
	for _, i := range ids {
		num, den := big.NewInt(1), big.NewInt(1)
		for _, j := range ids {
			if j != i {
				num = Mul(num, big.NewInt(int64(-j-1)))
				den = Mul(den, big.NewInt(int64(i-j)))
			}
		}
		den.ModInverse(new(big.Int).Mod(den, gv.Order()), gv.Order())
		r = Add(r, Mul(Mul(num, den), share[i]))
	}
	return r.Mod(r, gv.Order())
}

// subsets calls f with every subset of 0..n-1 of size t
func subsets(n, t, from int, have []int, f func(ids []int)) {
	if len(have) == t {
		f(have)
		return
	}
	for i := from; i < n; i++ {
		subsets(n, t, i+1, append(append([]int{}, have...), i), f)
	}
}

func reshare(n, t int) {
	f, dh := base()
	a := newAdditive("a", n, f, dh)
	w := net.New(n)
	res, errs := make([]*arith.TDSecret, n), make([]error, n)
	w.Run(nil, func(p *net.Party) {
		s := a.at(p, "a")
		gv.Freeze("the additive secret", s.VShare(), s.VR(), s.VEgs())
		res[p.Pid], errs[p.Pid] = s.Reshare(uint16(t))
	})
	var share []*big.Int
	for i := 0; i < n; i++ {
		gv.Assert(errs[i] == nil, "resharing succeeds among parties that follow the protocol")
		gv.Assert(res[i].VPid() == uint16(i) && res[i].Threshold() == uint16(t) && res[i].VEgf() == f, "same party, same commitment base, the requested threshold")
		share = append(share, res[i].VShare())
	}
	subsets(n, t, 0, nil, func(ids []int) {
		gv.Assert(Same(atZero(ids, share), a.sum), "the shares of any t parties interpolate to the sum of the additive shares")
	})
	for i := 0; i < n; i++ {
		gv.Assert(len(res[i].VEgs()) == n, "one commitment for each party")
		for j := 0; j < n; j++ {
			gv.Assert(IsComm(res[i].VEgs()[j], Opening(dh, share[j], res[j].VR())), "share and randomness open the commitment every party holds")
		}
	}
}

func Reshare2()  { reshare(2, 1+gv.Choose("threshold-1", 2)) }
func Reshare31() { reshare(3, 1) }
func Reshare32() { reshare(3, 2) }
func Reshare33() { reshare(3, 3) }
func Reshare4()  { reshare(4, 1+gv.Choose("threshold-1", 4)) }
func Reshare6()  { reshare(6, 3) }
func Reshare9()  { reshare(9, 9) }
func Reshare12() { reshare(12, 3) }
func Reshare18() { reshare(18, 2) }

// ReshareHigh: exponents beyond machine integers. The threshold is above the number of parties, which may be refused, but
// then not depending on how far above it is.
func ReshareHigh() {
	n := 3
	f, dh := base()
	var refused []bool
	for _, t := range []int{n + 1, 42} {
		a := newAdditive("a", n, f, dh)
		w := net.New(n)
		res, errs := make([]*arith.TDSecret, n), make([]error, n)
		w.Run(nil, func(p *net.Party) {
			res[p.Pid], errs[p.Pid] = a.at(p, "a").Reshare(uint16(t))
		})
		failed := false
		for i := range errs {
			failed = failed || errs[i] != nil
		}
		refused = append(refused, failed)
		for i := 0; i < n && !failed; i++ {
			gv.Assert(res[i].Threshold() == uint16(t), "the requested threshold")
			for j := 0; j < n; j++ {
				gv.Assert(IsComm(res[i].VEgs()[j], Opening(dh, res[j].VShare(), res[j].VR())), "share and randomness open the commitment every party holds")
			}
		}
	}
	gv.Reached("the end")
	gv.Assert(refused[0] == refused[1], "resharing succeeds among parties that follow the protocol")
}

// ReshareOpening: the peer sends another share or randomness than it committed to
func ReshareOpening() {
	n := 2
	bad := gv.Choose("wrong party", 2)
	victim := 1 - bad
	t := 1 + gv.Choose("threshold-1", n)
	f, dh := base()
	a := newAdditive("a", n, f, dh)
	w := net.New(n)
	v, r := Scalar("other share"), gv.Nat("other randomness")
	w.Tamper = func(from, to, round int, data []byte) []byte {
		if from == bad && round == 4 {
			b := v.Bytes()
			m := make([]byte, 4)
			binary.LittleEndian.PutUint32(m, uint32(len(b)))
			m = append(m, b...)
			return append(m, r.Bytes()...)
		}
		return data
	}
	res, errs := make([]*arith.TDSecret, n), make([]error, n)
	w.Run(nil, func(p *net.Party) {
		res[p.Pid], errs[p.Pid] = a.at(p, "a").Reshare(uint16(t))
	})
	gv.Reached("the end")
	if errs[victim] == nil {
		gv.Assert(IsComm(res[victim].VEgs()[victim], Opening(dh, res[victim].VShare(), res[victim].VR())), "what is accepted opens the commitment")
	} else {
		gv.Assert(res[victim] == nil, "no secret is returned with an error")
	}
}

// proofs and commitments by weak contracts: they decode to anything, verify or not
func anyProofs() {
	const z, c = "(*gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/zkpok.", "(*gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment.ElGamal)."
	for _, k := range []string{"ZKEGKnow).", "ZKEGRefresh)."} {
		gv.Havoc(z + k + "Decode")
		gv.Havoc(z + k + "Encode")
		gv.Havoc(z + k + "Verify")
	}
	gv.Havoc(c + "Decode")
	gv.Havoc(c + "Encode")
}

// ReshareAny: any messages of the peer in all rounds
func ReshareAny() {
	n := 2
	bad := gv.Choose("wrong party", 2)
	victim := 1 - bad
	t := 1 + gv.Choose("threshold-1", 3)
	at := 0
	if gv.Concrete() {
		at = gv.Choose("first wrong message", 6)
	}
	f, dh := base()
	a := newAdditive("a", n, f, dh)
	anyProofs()
	w := net.New(n)
	w.Tamper = func(from, to, round int, data []byte) []byte {
		if from == bad && round >= at {
			return gv.BytesNear("message", data)
		}
		return data
	}
	res, errs := make([]*arith.TDSecret, n), make([]error, n)
	w.Run(nil, func(p *net.Party) {
		if p.Pid == victim {
			res[victim], errs[victim] = a.at(p, "a").Reshare(uint16(t))
			gv.Reached("the end")
			gv.Assert((errs[victim] == nil) == (res[victim] != nil), "a secret or an error")
		} else if gv.Concrete() {
			a.at(p, "a").Reshare(uint16(t))
		} else {
			for i := 0; i < 6; i++ {
				p.Round([][]byte{{}}, func(uint16, []byte) error { return nil })
			}
		}
	})
}

// ReshareCommitted: whatever the peer committed to before revealing its coefficient commitments and proofs
func ReshareCommitted() {
	n := 2
	bad := gv.Choose("wrong party", 2)
	victim := 1 - bad
	t := 1 + gv.Choose("threshold-1", n)
	f, dh := base()
	a := newAdditive("a", n, f, dh)
	w := net.New(n)
	var sent, committed []byte
	w.Tamper = func(from, to, round int, data []byte) []byte {
		if from == bad && round == 1 {
			sent, committed = data, gv.BytesNear("commitment", data)
			return committed
		}
		return data
	}
	res, errs := make([]*arith.TDSecret, n), make([]error, n)
	w.Run(nil, func(p *net.Party) {
		res[p.Pid], errs[p.Pid] = a.at(p, "a").Reshare(uint16(t))
	})
	gv.Reached("the end")
	gv.Assert((errs[victim] == nil) == (res[victim] != nil), "a secret or an error")
	if errs[victim] == nil {
		// behind the two lengths
		k, c := 8+int(binary.LittleEndian.Uint32(sent)), 8+int(binary.LittleEndian.Uint32(committed))
		l := c + int(binary.LittleEndian.Uint32(committed[4:]))
		gv.Assert(k == c && l == len(sent), "same lengths as committed to")
		gv.Assert(len(committed) >= len(sent), "no accepted commitment is shorter")
		gv.Assert(gv.Equal(committed[8:c], sent[8:k]), "accepted only coefficient commitments that were committed to")
		gv.Assert(gv.Equal(committed[c:l], sent[k:]), "accepted only proofs that were committed to")
	}
}

// ReshareMissing: the peer drops out before one of the rounds
func ReshareMissing() {
	n := 2
	bad := gv.Choose("party that drops out", 2)
	t := 1 + gv.Choose("threshold-1", n)
	f, dh := base()
	a := newAdditive("a", n, f, dh)
	w := net.New(n)
	at := gv.Choose("round", 6)
	w.Broken = func(pid, round int) bool { return pid == bad && round == at }
	res, errs := make([]*arith.TDSecret, n), make([]error, n)
	w.Run(nil, func(p *net.Party) {
		res[p.Pid], errs[p.Pid] = a.at(p, "a").Reshare(uint16(t))
	})
	gv.Assert(errs[bad] != nil && res[bad] == nil, "a failed exchange makes the resharing fail")
	if at < 5 {
		gv.Assert(errs[1-bad] != nil && res[1-bad] == nil, "an absent peer makes the resharing fail")
	}
}

// statement is what a proof claims: knowledge of the opening of one commitment, or that two commitments have the same value
type statement struct {
	kind int
	c    []Comp
}

const (
	knows = iota
	refreshes
)

func (s statement) is(q statement) bool {
	if s.kind != q.kind {
		return false
	}
	r := true
	for i := range s.c {
		r = gv.And(r, gv.And(Same(s.c[i].First, q.c[i].First), Same(s.c[i].Second, q.c[i].Second)))
	}
	return r
}

// elements of commitments that were encoded one after the other
func elements(data []byte, n int) []Comp {
	g := curve.NewSecp256k1Group()
	buf := bytes.NewBuffer(data)
	var r []Comp
	for i := 0; i < n; i++ {
		p, err := g.Decode(buf)
		gv.Assert(err == nil, "what is sent can be decoded")
		q, err := g.Decode(buf)
		gv.Assert(err == nil, "what is sent can be decoded")
		r = append(r, Comp{gv.LogOf(p), gv.LogOf(q)})
	}
	return r
}

func sumOf(a, b Comp) Comp { return Comp{Add(a.First, b.First), Add(a.Second, b.Second)} }

// proofs: when a party accepts, it has verified a proof for every commitment of the others that has to have one
func proofs(n, t, victim int) {
	f, dh := base()
	a := newAdditive("a", n, f, dh)
	if gv.Concrete() {
		wrongProof(n, t, victim, a)
		return
	}
	var verified []statement
	failed := false
	var from, round int
	got := make([][][]Comp, 6)
	for i := range got {
		got[i] = make([][]Comp, n)
	}
	const e = "broken"
	// with more than one peer, these are the coefficients that they commit to
	value, rnd := make([][]*big.Int, n), make([][]*big.Int, n)
	committed := func(k int) []byte {
		var data []byte
		for i := 0; i < t; i++ {
			value[k], rnd[k] = append(value[k], Scalar("coefficient")), append(rnd[k], Scalar("randomness"))
			data = append(data, Wire(Opening(dh, value[k][i], rnd[k][i]))...)
		}
		m := make([]byte, 8)
		binary.LittleEndian.PutUint32(m, uint32(len(data)))
		return append(m, data...)
	}
	elems := func(c *commitment.ElGamal) Comp {
		var buf bytes.Buffer
		c.Encode(&buf)
		return elements(buf.Bytes(), 1)[0]
	}
	verify := func(s statement) error {
		if gv.Bool("the proof is wrong") {
			failed = true
			return errors.New(e)
		}
		verified = append(verified, s)
		return nil
	}
	decode := func() error {
		if n == 2 && gv.Bool("does not decode") {
			failed = true
			return errors.New(e)
		}
		return nil
	}
	gv.Assuming((*commitment.ElGamal).Decode, func(c *commitment.ElGamal, r io.Reader) error {
		v, x := Scalar("decoded.value"), Scalar("decoded.rnd")
		if i := len(got[round][from]); n > 2 && round == 2 && i < t {
			v, x = value[from][i], rnd[from][i]
		}
		*c = *f.Create(v, x)
		got[round][from] = append(got[round][from], Opening(dh, v, x))
		return decode()
	})
	gv.Assuming((*zkpok.ZKEGKnow).Decode, func(z *zkpok.ZKEGKnow, r io.Reader) error { return decode() })
	gv.Assuming((*zkpok.ZKEGRefresh).Decode, func(z *zkpok.ZKEGRefresh, r io.Reader) error { return decode() })
	gv.Assuming((*zkpok.ZKEGKnow).Encode, func(z *zkpok.ZKEGKnow, w io.Writer) error { return nil })
	gv.Assuming((*zkpok.ZKEGRefresh).Encode, func(z *zkpok.ZKEGRefresh, w io.Writer) error { return nil })
	gv.Assuming((*zkpok.ZKEGKnow).Verify, func(z *zkpok.ZKEGKnow, f *commitment.ElGamalFactory, c *commitment.ElGamal) error {
		return verify(statement{knows, []Comp{elems(c)}})
	})
	gv.Assuming((*zkpok.ZKEGRefresh).Verify, func(z *zkpok.ZKEGRefresh, f *commitment.ElGamalFactory, c, d *commitment.ElGamal) error {
		return verify(statement{refreshes, []Comp{elems(c), elems(d)}})
	})
	p := &net.Peer{Pid: victim, N: n, Msg: func(i, r int) []byte {
		from, round = i, r
		if n > 2 && r == 1 {
			return committed(i)
		}
		return gv.Bytes("message")
	}}
	var egs []*commitment.ElGamal
	for i := range a.share {
		egs = append(egs, f.Create(a.share[i], a.rnd[i]))
	}
	res, err := arith.VADSecret(uint16(victim), "a", Cp(a.share[victim]), Cp(a.rnd[victim]), f, egs, p).Reshare(uint16(t))
	gv.Assert((err == nil) == (res != nil), "a secret or an error")
	if err != nil {
		gv.Reached("failure")
		return
	}
	gv.Reached("the end")
	gv.Assert(!failed, "no message that does not decode and no proof that does not hold is accepted")
	has := func(kind int, what string, c ...Comp) {
		found := false
		for _, s := range verified {
			found = gv.Or(found, s.is(statement{kind, c}))
		}
		gv.Assert(found, what)
	}
	own := elements(p.Sent[3][0], n)
	for k := 0; k < n; k++ {
		if k == victim {
			continue
		}
		gv.Assert(len(got[2][k]) == t && len(got[3][k]) == n && len(got[5][k]) == 1, "all commitments of every party are decoded")
		old := Opening(dh, a.share[k], a.rnd[k])
		has(knows, "the party proved that it knows its share", old)
		for i := 0; i < t; i++ {
			has(knows, "the party proved that it knows its coefficients", got[2][k][i])
		}
		has(refreshes, "the party proved that it shares its share", old, got[2][k][0])
		for j := 0; j < n; j++ {
			at := Comp{zero(), zero()}
			x := big.NewInt(1)
			for i := 0; i < t; i++ {
				at.First = Add(at.First, Mul(got[2][k][i].First, x))
				at.Second = Add(at.Second, Mul(got[2][k][i].Second, x))
				x = Mul(x, big.NewInt(int64(j+1)))
			}
			has(refreshes, "the party proved that it evaluated its polynomial", at, got[3][k][j])
		}
		sum := own[k]
		for j := 0; j < n; j++ {
			if j != victim {
				sum = sumOf(sum, got[3][j][k])
			}
		}
		has(refreshes, "the party proved that it keeps its share", sum, got[5][k][0])
		gv.Assert(IsComm(res.VEgs()[k], got[5][k][0]), "the commitment to the share of another party is the one that it sent")
	}
	gv.Assert(IsComm(res.VEgs()[victim], Opening(dh, res.VShare(), res.VR())), "share and randomness open the commitment every party holds")
}

// wrongProof: a party follows the protocol, but one of its proofs is one for another statement
func wrongProof(n, t, victim int, a *additive) {
	bad := (victim + 1 + gv.Choose("wrong party", n-1)) % n
	what := gv.Choose("wrong proof", 3+t+n)
	f := a.f
	knowOf := func(w io.Writer) {
		v, r := Scalar("v"), Scalar("r")
		z, _ := zkpok.NewZKEGKnow(f, f.Create(v, r), v, r)
		z.Encode(w)
	}
	refreshOf := func(w io.Writer) {
		v, r, x := Scalar("v"), Scalar("r"), Scalar("x")
		z, _ := zkpok.NewZKEGRefresh(f, f.Create(v, r), f.Create(v, Add(r, x)), x)
		z.Encode(w)
	}
	// copies comms commitments and then know and refresh proofs, but for the one at place wrong
	rebuild := func(data []byte, comms, know, refresh, wrong int) (c, z []byte) {
		in := bytes.NewBuffer(data)
		var cs, zs bytes.Buffer
		for i := 0; i < comms; i++ {
			var m commitment.ElGamal
			m.Decode(in)
			m.Encode(&cs)
		}
		for i := 0; i < know; i++ {
			var m zkpok.ZKEGKnow
			m.Decode(in)
			if i == wrong {
				knowOf(&zs)
			} else {
				m.Encode(&zs)
			}
		}
		for i := 0; i < refresh; i++ {
			var m zkpok.ZKEGRefresh
			m.Decode(in)
			if know+i == wrong {
				refreshOf(&zs)
			} else {
				m.Encode(&zs)
			}
		}
		return cs.Bytes(), zs.Bytes()
	}
	var opened []byte
	w := net.New(n)
	w.Tamper = func(from, to, round int, data []byte) []byte {
		if from != bad || to != victim {
			return data
		}
		switch {
		case round == 0 && what == 0:
			_, z := rebuild(data, 0, 1, 0, 0)
			return z
		case round == 1 && what >= 1 && what <= t+1 && len(data) > 8:
			c, z := rebuild(data[8:], t, t, 1, what-1)
			head := make([]byte, 8)
			binary.LittleEndian.PutUint32(head, uint32(len(c)))
			binary.LittleEndian.PutUint32(head[4:], uint32(len(z)))
			opened = append(append([]byte{}, c...), z...)
			return append(head, opened...)
		case round == 2 && opened != nil:
			return opened
		case round == 3 && what >= t+2 && what < t+2+n:
			c, z := rebuild(data, n, 0, n, what-t-2)
			return append(append([]byte{}, c...), z...)
		case round == 5 && what == t+2+n:
			in := bytes.NewBuffer(data)
			var z zkpok.ZKEGRefresh
			z.Decode(in)
			var out bytes.Buffer
			refreshOf(&out)
			return append(out.Bytes(), in.Bytes()...)
		}
		return data
	}
	res, errs := make([]*arith.TDSecret, n), make([]error, n)
	w.Run(nil, func(p *net.Party) {
		res[p.Pid], errs[p.Pid] = a.at(p, "a").Reshare(uint16(t))
	})
	gv.Assert(errs[victim] != nil && res[victim] == nil, "no message that does not decode and no proof that does not hold is accepted")
}

// ReshareProofs: the other parties send anything
func ReshareProofs2() { proofs(2, 1+gv.Choose("threshold-1", 3), gv.Choose("victim", 2)) }
func ReshareProofs3() { proofs(3, 1+gv.Choose("threshold-1", 3), gv.Choose("victim", 3)) }

// ReshareZero: there is no threshold zero
func ReshareZero() {
	f, dh := base()
	a := newAdditive("a", 1, f, dh)
	w := net.New(1)
	r, err := a.at(w.Party(0), "a").Reshare(0)
	gv.Assert(r == nil && err != nil, "threshold zero is rejected")
}

// ReshareReveal: the new secret is used like any other
func ReshareReveal() {
	n := 2
	t := 1 + gv.Choose("threshold-1", n)
	f, dh := base()
	a := newAdditive("a", n, f, dh)
	w := net.New(n)
	w.Run(nil, func(p *net.Party) {
		s, err := a.at(p, "a").Reshare(uint16(t))
		gv.Assert(err == nil, "resharing succeeds among parties that follow the protocol")
		r, err := s.Reveal()
		gv.Assert(err == nil && Same(r, a.sum), "revealing the reshared secret yields the sum of the additive shares")
		k, err := s.Exp()
		gv.Assert(err == nil && gv.IsPoint(k.PublicKey(), a.sum), "and so does its public key")
	})
}

// ---- products

func keyPairs(n int) ([]*paillier.PrivateKey, []*paillier.PublicKey) {
	privs, pubs := make([]*paillier.PrivateKey, n), make([]*paillier.PublicKey, n)
	for i := range privs {
		privs[i], pubs[i] = gv.Paillier("key pair")
	}
	return privs, pubs
}

func privMult(n int) {
	privs, pubs := keyPairs(n)
	a, b := make([]*big.Int, n), make([]*big.Int, n)
	for i := range a {
		a[i], b[i] = Scalar("a"), Scalar("b")
	}
	w := net.New(n)
	w.Reverse = n == 2 && gv.Choose("order of arrival", 2) == 1
	share, errs := make([]*big.Int, n), make([]error, n)
	d0 := gv.DrawCount()
	w.Run(nil, func(p *net.Party) {
		i := p.Pid
		gv.Freeze("operands", a[i], b[i], privs[i], pubs[i])
		share[i], errs[i] = arith.PrivMult(a[i], b[i], i, n, p, privs[i], pubs[i], pubs)
	})
	sum, sa, sb := zero(), zero(), zero()
	for i := range a {
		gv.Assert(errs[i] == nil, "multiplication succeeds among parties that follow the protocol")
		sum, sa, sb = Add(sum, share[i]), Add(sa, a[i]), Add(sb, b[i])
	}
	gv.Assert(Same(sum, Mul(sa, sb)), "the shares add up to the product of the sums")
	gv.Assert(gv.DrawCount() >= d0+n*(n-1), "a fresh mask for every other party")
}

func PrivMult2() { privMult(2) }
func PrivMult3() { privMult(3) }
func PrivMult5() { privMult(5) }

// integers
func plus(a, b *big.Int) *big.Int  { return new(big.Int).Add(a, b) }
func minus(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func times(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }

// PrivMultAll: one party, any number of others that follow the protocol
func PrivMultAll() {
	n, pid, _ := anyParties()
	a, b := Scalar("own a"), Scalar("own b")
	as := func(i int) *big.Int { return gv.NthBelow("a", i, gv.Order()) }
	bs := func(i int) *big.Int { return gv.NthBelow("b", i, gv.Order()) }
	masks := func(i int) *big.Int { return gv.NthBelow("mask", i, gv.Order()) }
	priv, pub := gv.NthPaillier("key", pid)
	pubs := make([]*paillier.PublicKey, n)
	gv.Fill("the public keys", pubs, func(i int) interface{} {
		_, k := gv.NthPaillier("key", i)
		return k
	})
	p := &net.Peer{Pid: pid, N: n, Msg: func(from, round int) []byte {
		if round == 0 {
			_, k := gv.NthPaillier("key", from)
			return gv.Cipher(k, as(from)).Bytes()
		}
		return gv.Cipher(pub, minus(times(a, bs(from)), masks(from))).Bytes()
	}}
	// what the others make of the last message
	sent := func(i int) *big.Int {
		k, _ := gv.NthPaillier("key", i)
		return gv.Signed(k, new(big.Int).SetBytes(p.Sent[1][i]))
	}
	others := gv.LaterBut(n, func(i int) *big.Int {
		return minus(minus(plus(times(as(i), b), times(a, bs(i))), sent(i)), masks(i))
	}, pid, nil)
	gv.Freeze("operands", a, b, priv, pub)
	d0 := gv.DrawCount()
	share, err := arith.PrivMult(a, b, pid, n, p, priv, pub, pubs)
	gv.Assert(err == nil, "multiplication succeeds among parties that follow the protocol")
	gv.Assert(len(p.Sent) == 2 && len(p.Sent[0]) == n && len(p.Sent[1]) == n, "two rounds, a message for each party")
	gv.Assert(Same(share, Add(Mul(a, b), others())), "the share is the product, and the mixed products less what goes to the others")
	i := gv.Index("another party", n)
	gv.Assume(i != pid)
	gv.Assert(gv.Signed(priv, new(big.Int).SetBytes(p.Sent[0][i])).Cmp(a) == 0, "the factor is sent, encrypted with the own key")
	k := gv.FreshDraw(d0, minus(times(as(i), b), sent(i)))
	gv.Assert(k >= 0, "the product is sent less a fresh mask")
	j := gv.Index("a third party", n)
	gv.Assume(j != pid && j != i)
	gv.Assert(gv.FreshDraw(d0, minus(times(as(j), b), sent(j))) != k, "each party has a mask of its own")
}

// MultAll: one party, any number of others that follow the protocol
func MultAll() {
	n, pid, _ := anyParties()
	f, dh := base()
	a, b := &anySecret{"a", n, f}, &anySecret{"b", n, f}
	masks := func(i int) *big.Int { return gv.NthBelow("mask", i, gv.Order()) }
	cs := func(i int) *big.Int { return gv.NthBelow("c.share", i, gv.Order()) }
	cr := func(i int) *big.Int { return gv.NthBelow("c.rnd", i, gv.Order()) }
	priv, pub := gv.NthPaillier("key", pid)
	pubs := make([]*paillier.PublicKey, n)
	gv.Fill("the public keys", pubs, func(i int) interface{} {
		_, k := gv.NthPaillier("key", i)
		return k
	})
	own := a.share(pid)
	p := &net.Peer{Pid: pid, N: n, Msg: func(from, round int) []byte {
		switch round {
		case 0:
			_, k := gv.NthPaillier("key", from)
			return gv.Cipher(k, a.share(from)).Bytes()
		case 1:
			return gv.Cipher(pub, minus(times(own, b.share(from)), masks(from))).Bytes()
		case 2:
			return Wire(Opening(dh, cs(from), cr(from)))
		}
		return Wire(Opening(dh, gv.NthBelow("ab", from, gv.Order()), gv.NthBelow("ab.rnd", from, gv.Order())))
	}}
	sa := arith.VADSecret(uint16(pid), "a", own, a.rnd(pid), f, a.comms(), p)
	sb := arith.VADSecret(uint16(pid), "b", b.share(pid), b.rnd(pid), f, b.comms(), p)
	sent := func(i int) *big.Int {
		k, _ := gv.NthPaillier("key", i)
		return gv.Signed(k, new(big.Int).SetBytes(p.Sent[1][i]))
	}
	var others func() *big.Int
	p.After = func(round int) {
		if round == 1 {
			others = gv.LaterBut(n, func(i int) *big.Int {
				return minus(minus(plus(times(a.share(i), b.share(pid)), times(own, b.share(i))), sent(i)), masks(i))
			}, pid, nil)
		}
	}
	gv.Freeze("operands", sa.VShare(), sa.VR(), sb.VShare(), sb.VR(), priv, pub)
	d0 := gv.DrawCount()
	c, err := arith.Mult(sa, sb, "c", priv, pub, pubs)
	gv.Assert(err == nil, "multiplication succeeds among parties that follow the protocol")
	gv.Assert(c.VPid() == uint16(pid) && c.Label() == "c" && c.VEgf() == f, "same party, same commitment base, the requested label")
	gv.Assert(c.VServer() != nil && c.VServer().(*net.Peer) == p, "same server")
	gv.Assert(gv.FreshDraw(d0, c.VR()) >= 0, "the randomness is fresh and uniform")
	gv.Assert(Same(c.VShare(), Add(Mul(own, b.share(pid)), others())), "the share is the product, and the mixed products less what goes to the others")
	gv.Assert(len(c.VEgs()) == n, "one commitment for each party")
	gv.Assert(len(p.Sent) == 4 && len(p.Sent[0]) == n && len(p.Sent[1]) == n, "four rounds")
	// the messages assumed of the others are what this party sends
	gv.Format(len(p.Sent[2]) == 1 && gv.Equal(p.Sent[2][0], Wire(Opening(dh, c.VShare(), c.VR()))))
	gv.Format(len(p.Sent[3]) == 1 && new(commitment.ElGamal).Decode(bytes.NewReader(p.Sent[3][0])) == nil)
	i := gv.Index("another party", n)
	if i == pid {
		gv.Assert(IsComm(c.VEgs()[i], Opening(dh, c.VShare(), c.VR())), "the own commitment is opened by share and randomness")
	} else {
		gv.Assert(IsComm(c.VEgs()[i], Opening(dh, cs(i), cr(i))), "the commitment held for a party is opened by its share and randomness")
	}
}

// MultAnyAll: any number of peers that send anything
func MultAnyAll() {
	n, pid, _ := anyParties()
	f, dh := base()
	a, b := &anySecret{"a", n, f}, &anySecret{"b", n, f}
	priv, pub := gv.NthPaillier("key", pid)
	pubs := make([]*paillier.PublicKey, n)
	gv.Fill("the public keys", pubs, func(i int) interface{} {
		_, k := gv.NthPaillier("key", i)
		return k
	})
	bad := gv.Choose("round that fails", 5)
	p := &net.Peer{Pid: pid, N: n, Msg: func(from, round int) []byte {
		return gv.NthBytes([]string{"factor", "product", "commitment", "proof"}[round], from)
	}, Fails: func(round int) bool { return round == bad }}
	sa := arith.VADSecret(uint16(pid), "a", a.share(pid), a.rnd(pid), f, a.comms(), p)
	sb := arith.VADSecret(uint16(pid), "b", b.share(pid), b.rnd(pid), f, b.comms(), p)
	c, err := arith.Mult(sa, sb, "c", priv, pub, pubs)
	gv.Reached("the end")
	gv.Assert((err == nil) == (c != nil), "a secret or an error")
	if c == nil {
		return
	}
	gv.Assert(bad == 4, "without a message of every party there is no secret")
	gv.Assert(IsComm(c.VEgs()[pid], Opening(dh, c.VShare(), c.VR())), "the own commitment is opened by share and randomness")
	i := gv.Index("another party", n)
	gv.Assert(c.VEgs()[i] != nil, "a commitment for each peer")
	if i != pid {
		var e commitment.ElGamal
		gv.Assert(e.Decode(bytes.NewReader(gv.NthBytes("commitment", i))) == nil, "a malformed message is not accepted")
		gv.Assert(e.Equal(&e, c.VEgs()[i]), "the commitment held for a peer is the one in its message")
	}
}

func mult(n int) {
	privs, pubs := keyPairs(n)
	f, dh := base()
	a, b := newAdditive("a", n, f, dh), newAdditive("b", n, f, dh)
	w := net.New(n)
	c, errs := make([]*arith.ADSecret, n), make([]error, n)
	d0 := gv.DrawCount()
	w.Run(nil, func(p *net.Party) {
		i := p.Pid
		sa, sb := a.at(p, "a"), b.at(p, "b")
		gv.Freeze("operands", sa.VShare(), sa.VR(), sa.VEgs(), sb.VShare(), sb.VR(), sb.VEgs(), privs[i], pubs[i])
		c[i], errs[i] = arith.Mult(sa, sb, "c", privs[i], pubs[i], pubs)
	})
	sum := zero()
	for i := range c {
		gv.Assert(errs[i] == nil, "multiplication succeeds among parties that follow the protocol")
		gv.Assert(c[i].VPid() == uint16(i) && c[i].Label() == "c" && c[i].VEgf() == f, "same party, same commitment base, the requested label")
		gv.Assert(c[i].VServer() != nil && c[i].VServer().(*net.Party).Pid == i, "same server")
		gv.Assert(gv.FreshDraw(d0, c[i].VR()) >= 0, "the randomness is fresh and uniform")
		sum = Add(sum, c[i].VShare())
	}
	gv.Assert(Same(sum, Mul(a.sum, b.sum)), "the shares add up to the product of the secrets")
	for i := range c {
		gv.Assert(len(c[i].VEgs()) == n, "one commitment for each party")
		for j := range c {
			gv.Assert(IsComm(c[i].VEgs()[j], Opening(dh, c[j].VShare(), c[j].VR())), "share and randomness open the commitment every party holds")
		}
	}
}

func Mult2() { mult(2) }
func Mult3() { mult(3) }

// MultAny: any message of the peer in one of the rounds
func MultAny() {
	n := 2
	bad := gv.Choose("wrong party", 2)
	privs, pubs := keyPairs(n)
	f, dh := base()
	a, b := newAdditive("a", n, f, dh), newAdditive("b", n, f, dh)
	w := net.New(n)
	at := gv.Choose("round", 4)
	w.Tamper = func(from, to, round int, data []byte) []byte {
		if from == bad && round == at {
			return gv.BytesNear("message", data)
		}
		return data
	}
	w.Run(nil, func(p *net.Party) {
		i := p.Pid
		c, err := arith.Mult(a.at(p, "a"), b.at(p, "b"), "c", privs[i], pubs[i], pubs)
		if i != bad {
			gv.Reached("the end")
			gv.Assert((err == nil) == (c != nil), "a secret or an error")
			if c != nil {
				gv.Assert(IsComm(c.VEgs()[i], Opening(dh, c.VShare(), c.VR())), "the own commitment is opened by share and randomness")
			}
		}
	})
}

// MultMissing: the peer drops out before one of the rounds
func MultMissing() {
	n := 2
	bad := gv.Choose("party that drops out", 2)
	privs, pubs := keyPairs(n)
	f, dh := base()
	a, b := newAdditive("a", n, f, dh), newAdditive("b", n, f, dh)
	w := net.New(n)
	at := gv.Choose("round", 4)
	w.Broken = func(pid, round int) bool { return pid == bad && round == at }
	c, errs := make([]*arith.ADSecret, n), make([]error, n)
	w.Run(nil, func(p *net.Party) {
		i := p.Pid
		c[i], errs[i] = arith.Mult(a.at(p, "a"), b.at(p, "b"), "c", privs[i], pubs[i], pubs)
	})
	gv.Assert(errs[bad] != nil && c[bad] == nil, "a failed exchange makes the multiplication fail")
	if at < 3 {
		gv.Assert(errs[1-bad] != nil && c[1-bad] == nil, "an absent peer makes the multiplication fail")
	}
}

// ---- polynomials

// Poly: coefficients of a sharing polynomial
func Poly() {
	deg := []int{0, 1, 2, 3, 4, 5, 6, 11, 17, 40}[gv.Choose("degree", 10)]
	a0 := gv.BigInt("secret")
	gv.Freeze("the secret", a0)
	d0 := gv.DrawCount()
	f, err := arith.VPoly(uint16(deg), a0)
	gv.Assert(err == nil, "the random source does not fail")
	gv.Assert(len(f) == deg+1, "as many coefficients as the degree plus one")
	gv.Assert(f[0].Cmp(a0) == 0, "the constant term is the secret")
	used := map[int]bool{}
	for i := 1; i < deg; i++ {
		k := gv.FreshDraw(d0, f[i])
		gv.Assert(k >= 0 && !used[k] && f[i].Sign() >= 0 && f[i].Cmp(gv.Order()) < 0, "a coefficient is a uniform scalar of its own")
		used[k] = true
	}
	if deg > 0 {
		gv.Assert(f[deg].Sign() > 0 && f[deg].Cmp(gv.Order()) < 0, "the leading coefficient is a scalar other than zero")
		k := -1
		for i := d0; i < gv.DrawCount(); i++ {
			if !used[i] && Add(gv.Drawn(i), big.NewInt(1)).Cmp(f[deg]) == 0 {
				k = i
			}
		}
		gv.Assert(k >= 0 && gv.DrawnBelow(k, Sub(gv.Order(), big.NewInt(1))), "the leading coefficient is uniform")
	}
}

// PolyEval: the value of a polynomial
func PolyEval() {
	deg := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 13, 20, 35}[gv.Choose("degree", 12)]
	var f []*big.Int
	x, q := gv.BigInt("point"), gv.Nat("modulus")
	gv.Assume(q.Sign() > 0)
	want, pow := zero(), big.NewInt(1)
	for i := 0; i <= deg; i++ {
		c := gv.BigInt("coefficient")
		f = append(f, c)
		want = Add(want, Mul(c, pow))
		pow = Mul(pow, x)
	}
	gv.Freeze("polynomial, point and modulus", f, x, q)
	v := arith.VPolyEval(f, x, q)
	gv.Assert(v.Cmp(want.Mod(want, q)) == 0, "the value of the polynomial modulo q")
}

// Weights: a weight is the Lagrange coefficient at zero
func Weights() {
	n := 1 + gv.Choose("parties-1", 3)
	var ids []*big.Int
	for i := 0; i < n; i++ {
		k := gv.Int("party", 0, 65535)
		for _, j := range ids {
			gv.Assume(j.Cmp(big.NewInt(int64(k))) != 0)
		}
		ids = append(ids, big.NewInt(int64(k)))
	}
	me := gv.Choose("weight of", n)
	gv.Freeze("party numbers", ids)
	w := arith.VLagrange(ids[me], ids, gv.Order())
	gv.Assert(w.Sign() >= 0 && w.Cmp(gv.Order()) < 0, "a canonical scalar")
	num, den := big.NewInt(1), big.NewInt(1)
	for i, k := range ids {
		if i != me {
			num = Mul(num, Sub(zero(), Add(k, big.NewInt(1))))
			den = Mul(den, Sub(ids[me], k))
		}
	}
	gv.Assert(Same(Mul(w, den), num), "the weight times the product of differences is the product of the opposite points")
}

// Interpolate: the weighted sum of a polynomial's values is its value at zero
func Interpolate() {
	sets := [][]int{{0}, {1}, {0, 1}, {3, 1}, {1, 2, 4}, {4, 0, 7}, {9, 2, 0, 5}, {300, 65535, 2, 1},
		{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, {40, 3, 17, 65535, 65534, 12, 0, 9, 8, 255, 256, 77, 5, 1000, 32768, 44, 33}}
	ids := sets[gv.Choose("which", len(sets))]
	n := len(ids)
	var f, args []*big.Int
	for i := 0; i < n; i++ {
		f = append(f, Scalar("coefficient"))
		args = append(args, big.NewInt(int64(ids[i])))
	}
	sum := zero()
	for _, a := range args {
		v := arith.VPolyEval(f, Add(a, big.NewInt(1)), gv.Order())
		sum = Add(sum, Mul(v, arith.VLagrange(a, args, gv.Order())))
	}
	gv.Assert(Same(sum, f[0]), "the weighted sum of the values is the value at zero")
}

// PolyEvalAny: the value of a polynomial of any degree
func PolyEvalAny() {
	f := gv.Numbers("coefficients", 1, 65536, nil, nil)
	x, q := gv.BigInt("point"), gv.Nat("modulus")
	gv.Assume(q.Sign() > 0)
	want := gv.Value(f, x, q)
	gv.Freeze("polynomial, point and modulus", f, x, q)
	v := arith.VPolyEval(f, x, q)
	gv.Assert(v.Cmp(want.Mod(want, q)) == 0, "the value of the polynomial modulo q")
}

// WeightAny: a weight is the Lagrange coefficient at zero, for any number of parties
func WeightAny() {
	ids := gv.Numbers("party numbers", 1, 65536, zero(), big.NewInt(65535))
	me := gv.Int("weight of", 0, 65535)
	gv.Assume(me < len(ids))
	num, den := gv.Products(ids[me], ids)
	gv.Freeze("party numbers", ids)
	w := arith.VLagrange(ids[me], ids, gv.Order())
	gv.Assert(w.Sign() >= 0 && w.Cmp(gv.Order()) < 0, "a canonical scalar")
	gv.Assert(Same(Mul(w, den), num), "the weight times the product of differences is the product of the opposite points")
}

// PolyAny: coefficients of a sharing polynomial of any degree. (65535 is none: a threshold is at most that.)
func PolyAny() {
	gv.Unbounded()
	deg := gv.Int("degree", 0, 65534)
	a0 := gv.BigInt("secret")
	gv.Freeze("the secret", a0)
	d0 := gv.DrawCount()
	f, err := arith.VPoly(uint16(deg), a0)
	gv.Assert(err == nil, "the random source does not fail")
	gv.Assert(len(f) == deg+1, "as many coefficients as the degree plus one")
	gv.Assert(f[0].Cmp(a0) == 0, "the constant term is the secret")
	i, j := gv.Int("one coefficient", 1, 65534), gv.Int("another coefficient", 1, 65534)
	gv.Assume(i <= deg && j < i)
	mine := -1
	if i < deg {
		mine = gv.FreshDraw(d0, f[i])
		gv.Assert(mine >= 0 && f[i].Sign() >= 0 && f[i].Cmp(gv.Order()) < 0, "a coefficient is a uniform scalar of its own")
	} else {
		gv.Assert(f[deg].Sign() > 0 && f[deg].Cmp(gv.Order()) < 0, "the leading coefficient is a scalar other than zero")
		for k := d0; k < gv.DrawCount(); k++ {
			if Add(gv.Drawn(k), big.NewInt(1)).Cmp(f[deg]) == 0 {
				mine = k
			}
		}
		gv.Assert(mine >= 0 && gv.DrawnBelow(mine, Sub(gv.Order(), big.NewInt(1))), "the leading coefficient is uniform")
	}
	other := gv.FreshDraw(d0, f[j])
	gv.Assert(other >= 0 && other != mine, "different coefficients are different draws")
}

// several: larger sizes, with a choice of thresholds and of absent parties
func several(sizes ...int) (n, t int, absent []bool, k int) {
	n = sizes[gv.Choose("size", len(sizes))]
	t = []int{1, 2, n / 2, n - 1, n}[gv.Choose("threshold", 5)]
	absent = make([]bool, n)
	k = n
	drop := func(i int) {
		if i != 0 && !absent[i] {
			absent[i] = true
			k--
		}
	}
	switch gv.Choose("absent", 6) {
	case 1:
		drop(n - 1)
	case 2:
		drop(1)
	case 3:
		for i := 1; i < n; i += 2 {
			drop(i)
		}
	case 4: // as many as there may be
		for i := 1; k > t; i++ {
			drop(i)
		}
	case 5: // one too many
		for i := n - 1; i > 0 && k >= t; i-- {
			drop(i)
		}
	}
	return
}
