// Lemmas about the signing protocol (pkg/tecdsa)
package main

import (
	"crypto/rand"
	"encoding/binary"
	"errors"
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/tecdsa"
	"lemmas/gv"
	"lemmas/net"
	. "lemmas/util"
)

var lemmas = map[string]func(){
	"SignOnce": SignOnce, "PresignOnce": PresignOnce, "History": History,
	"Init1": Init1, "Init2": Init2, "Init3": Init3, "Init5": Init5, "InitFails": InitFails, "Bases": Bases,
	"Signing1": Signing1, "Signing2": Signing2, "Signing3": Signing3, "Signing6": Signing6, "Signing20": Signing20, "SigningAgain": SigningAgain, "Presigned": Presigned, "SignValid": SignValid,
	"SignAny": SignAny, "InitAny": InitAny, "SignAll": SignAll, "InitAll": InitAll, "PresignAny": PresignAny,
}

func main() {
	gv.Reset = func() { arith.VRand(rand.Reader) }
	gv.Main(lemmas)
}

// line is the network of a single party; one of its rounds may fail
type line struct {
	rounds, fail int
}

func (l *line) Start() {}
func (l *line) Stop()  {}
func (l *line) Round(toSend [][]byte, check func(uint16, []byte) error) error {
	k := l.rounds
	l.rounds++
	if k == l.fail {
		return errors.New("the exchange failed")
	}
	return nil
}

func factory() *commitment.ElGamalFactory {
	return commitment.NewElGamalFactory(gv.Point(Scalar("base")))
}

// secret is a secret shared among one party; its rounds go over l
func secret(f *commitment.ElGamalFactory, l *line, name string) *arith.TDSecret {
	share, r := Scalar(name), Scalar(name+" randomness")
	if name == "tau" {
		gv.Assume(share.Sign() != 0)
	}
	return arith.VTDSecret(arith.VADSecret(0, name, share, r, f, []*commitment.ElGamal{f.Create(share, r)}, l), 1)
}

// world is a party with n presignatures, each with a network of its own
type world struct {
	p     *tecdsa.Protocol
	net   *line
	f     *commitment.ElGamalFactory
	lines []*line
	ks    []*arith.TDSecret
}

func newWorld(n int) *world {
	w := &world{net: &line{fail: -1}, f: factory()}
	w.p = tecdsa.VProtocol(0, 1, w.net, w.f)
	for i := 0; i < n; i++ {
		l := &line{fail: -1}
		k := secret(w.f, l, "k")
		w.p.VPush(k, secret(w.f, l, "rho"), secret(w.f, l, "eta"), secret(w.f, l, "tau"), 1)
		w.lines = append(w.lines, l)
		w.ks = append(w.ks, k)
	}
	return w
}

// holds tells whether the queue is the given one
func (w *world) holds(ks []*arith.TDSecret) bool {
	if w.p.VLen() != len(ks) {
		return false
	}
	for i, want := range ks {
		k, _, _, _, _ := w.p.VPeek(i)
		if k != want {
			return false
		}
	}
	return true
}

// SignOnce: an attempt to sign uses up the oldest presignature, whatever happens in it
func SignOnce() {
	n := gv.Choose("presignatures", 5)
	w := newWorld(n)
	fail := gv.Choose("round that fails", 4) - 1
	for _, l := range w.lines {
		l.fail = fail
	}
	sig, err := w.p.Sign(gv.Nat("message"))
	gv.Assert(w.net.rounds == 0, "signing runs over the network of its presignature")
	if n == 0 {
		gv.Assert(err != nil && sig == nil && w.p.VLen() == 0, "without presignatures signing fails")
		return
	}
	gv.Assert(w.holds(w.ks[1:]), "an attempt takes exactly the oldest presignature out of the queue")
	gv.Assert(w.lines[0].rounds > 0, "an attempt uses the oldest presignature")
	for _, l := range w.lines[1:] {
		gv.Assert(l.rounds == 0, "an attempt uses no other presignature")
	}
	gv.Assert((err == nil) == (sig != nil), "a signature or an error")
	if fail >= 0 && w.lines[0].rounds > fail {
		gv.Assert(err != nil, "an attempt with a failed exchange fails")
	}
}

// PresignOnce: presigning adds one presignature when it succeeds and none when it fails
func PresignOnce() {
	n := gv.Choose("presignatures", 3)
	w := newWorld(n)
	t := gv.Choose("threshold", 3)
	w.net.fail = gv.Choose("round that fails", 30) - 1
	err := w.p.Presign(uint16(t))
	if err != nil {
		gv.Assert(w.holds(w.ks), "a presigning run that fails leaves the queue as it was")
		return
	}
	gv.Assert(w.net.fail < 0 || w.net.rounds <= w.net.fail, "a presigning run with a failed exchange fails")
	gv.Assert(t > 0, "the threshold is positive")
	gv.Assert(w.p.VLen() == n+1, "a presigning run that succeeds adds one presignature")
	k, rho, eta, tau, tt := w.p.VPeek(n)
	gv.Assert(int(tt) == t, "the presignature has the requested threshold")
	for i, x := range []*arith.TDSecret{k, rho, eta, tau} {
		gv.Assert(x != nil && int(x.Threshold()) == t && x.Label() == []string{"k", "rho", "eta", "tau"}[i], "the secrets of the presignature")
		for _, old := range w.ks {
			gv.Assert(x != old, "a new presignature shares nothing with the others")
		}
	}
	gv.Assert(k != rho && k != eta && k != tau && rho != eta && rho != tau && eta != tau, "the secrets of a presignature are different ones")
	for i, want := range w.ks {
		k, _, _, _, _ := w.p.VPeek(i)
		gv.Assert(k == want, "a presigning run keeps the order of the queue")
	}
}

// History: sequences of presigning and signing
func History() {
	w := newWorld(gv.Choose("presignatures", 3))
	queue := append([]*arith.TDSecret{}, w.ks...)
	used := map[*arith.TDSecret]bool{}
	for i := 0; i < 3; i++ {
		before := w.net.rounds
		switch op := gv.Choose("operation", 4); op {
		case 0, 1: // presign
			w.net.fail = -1
			if op == 1 {
				w.net.fail = before + []int{0, 5, 23}[gv.Choose("round that fails", 3)]
			}
			if w.p.Presign(1) == nil {
				gv.Assert(w.p.VLen() == len(queue)+1, "presigning adds one")
				k, _, _, _, _ := w.p.VPeek(len(queue))
				queue = append(queue, k)
			}
		case 2, 3: // sign
			w.net.fail = -1
			for _, l := range w.lines {
				l.fail = -1
			}
			if op == 3 {
				w.net.fail = before + 1
				for _, l := range w.lines {
					l.fail = 1
				}
			}
			_, err := w.p.Sign(gv.Nat("message"))
			if len(queue) == 0 {
				gv.Assert(err != nil && w.net.rounds == before, "without presignatures signing fails at once")
				break
			}
			gv.Assert(!used[queue[0]], "no presignature is used twice")
			used[queue[0]] = true
			queue = queue[1:]
		}
		gv.Assert(w.holds(queue), "the queue after the operation")
	}
}

// ---- initialisation

func initialise(n int) {
	w := net.New(n)
	ps, errs := make([]*tecdsa.Protocol, n), make([]error, n)
	d0 := gv.DrawCount()
	w.Run(nil, func(p *net.Party) {
		ps[p.Pid], errs[p.Pid] = tecdsa.Init(uint16(p.Pid), uint16(n), p)
	})
	used := map[int]bool{}
	v, r := Scalar("value"), Scalar("randomness")
	x, h := big.NewInt(0), big.NewInt(0)
	for i, p := range ps {
		gv.Assert(errs[i] == nil, "initialisation succeeds among parties that follow the protocol")
		key, egKey, _ := p.VKeys()
		for _, k := range []*arith.DKey{key, egKey} {
			d := gv.FreshDraw(d0, k.VSecret().VShare())
			gv.Assert(d >= 0 && !used[d], "every share of the two keys is a fresh uniform scalar of its own")
			used[d] = true
		}
		x, h = Add(x, key.VSecret().VShare()), Add(h, egKey.VSecret().VShare())
	}
	for _, p := range ps {
		key, egKey, egf := p.VKeys()
		gv.Assert(gv.IsPoint(key.PublicKey(), x), "every party holds the signing key's public key")
		gv.Assert(gv.IsPoint(egKey.PublicKey(), h), "every party holds the commitment key's public key")
		want := commitment.NewElGamalFactory(gv.Point(h))
		gv.Assert(want.Create(v, r).Equal(egf.Create(v, r), want.Create(v, r)), "commitments are based on the key generated for them")
	}
}

func Init1() { initialise(1) }
func Init2() { initialise(2) }
func Init3() { initialise(3) }
func Init5() { initialise(5) }

// InitFails: initialisation fails when one of the key generations does
func InitFails() {
	l := &line{fail: gv.Choose("round that fails", 4)}
	p, err := tecdsa.Init(0, 1, l)
	if l.rounds > l.fail {
		gv.Assert(err != nil && p == nil, "initialisation fails when a key generation fails")
	}
}

// Bases: the commitments made after initialisation
func Bases() {
	l := &line{fail: -1}
	p, err := tecdsa.Init(0, 1, l)
	gv.Assert(err == nil, "initialisation succeeds")
	gv.Assert(p.Presign(1) == nil, "presigning succeeds")
	_, egKey, _ := p.VKeys()
	want := commitment.NewElGamalFactory(egKey.PublicKey())
	k, rho, eta, tau, _ := p.VPeek(0)
	for _, x := range []*arith.TDSecret{k, rho, eta, tau} {
		c := want.Create(x.VShare(), x.VR())
		gv.Assert(c.Equal(x.VEgs()[0], c), "every commitment is based on the key generated for commitments")
	}
}

// ---- signatures

// abscissa is the x coordinate of a group element other than the neutral one
func abscissa(g curve.Group, p curve.Point) *big.Int {
	b := &buf{}
	if g.Encode(p, b) != nil || len(b.b) < 8 {
		return big.NewInt(0)
	}
	x := new(big.Int).SetBytes(b.b[8 : 8+int(binary.BigEndian.Uint32(b.b))])
	return x.Mod(x, gv.Order())
}

type buf struct{ b []byte }

func (b *buf) Write(x []byte) (int, error) { b.b = append(b.b, x...); return len(x), nil }

// shared is a scalar shared among n parties, any t of which determine it
type shared struct {
	t          int
	f          *commitment.ElGamalFactory
	value      *big.Int
	share, rnd []*big.Int
}

func share(name string, value *big.Int, n, t int, f *commitment.ElGamalFactory) *shared {
	h := &shared{t: t, f: f, value: value}
	coef := []*big.Int{value}
	for i := 1; i < t; i++ {
		coef = append(coef, Scalar(name+" coefficient"))
	}
	for i := 1; i <= n; i++ {
		v, x := big.NewInt(0), big.NewInt(1)
		for _, c := range coef {
			v = Add(v, Mul(c, x))
			x = Mul(x, big.NewInt(int64(i)))
		}
		h.share = append(h.share, v.Mod(v, gv.Order()))
		h.rnd = append(h.rnd, Scalar(name+" randomness"))
	}
	return h
}

func (h *shared) at(p *net.Party, label string) *arith.TDSecret {
	var egs []*commitment.ElGamal
	for i := range h.share {
		egs = append(egs, h.f.Create(h.share[i], h.rnd[i]))
	}
	i := p.Pid
	return arith.VTDSecret(arith.VADSecret(uint16(i), label, Cp(h.share[i]), Cp(h.rnd[i]), h.f, egs, p), uint16(h.t))
}

// signing: with a presignature (k, rho, rho*x, k*rho) the parties obtain (r, (m + r*x)/k) where r is determined by k*G
func signing(n, t int) {
	f := factory()
	k, rho, x := Scalar("k"), Scalar("rho"), Scalar("key")
	gv.Assume(k.Sign() != 0)
	gv.Assume(rho.Sign() != 0)
	mod := func(a *big.Int) *big.Int { return a.Mod(a, gv.Order()) }
	hk, hr := share("k", k, n, t, f), share("rho", rho, n, t, f)
	he, ht := share("eta", mod(Mul(rho, x)), n, t, f), share("tau", mod(Mul(k, rho)), n, t, f)
	m := gv.Nat("message")
	w := net.New(n)
	sigs, errs := make([]*tecdsa.Signature, n), make([]error, n)
	w.Run(nil, func(p *net.Party) {
		pr := tecdsa.VProtocol(uint16(p.Pid), uint16(n), p, f)
		pr.VPush(hk.at(p, "k"), hr.at(p, "rho"), he.at(p, "eta"), ht.at(p, "tau"), uint16(t))
		msg := Cp(m)
		sigs[p.Pid], errs[p.Pid] = pr.Sign(msg)
		gv.Assert(msg.Cmp(m) == 0, "the message is unchanged")
	})
	for i := range sigs {
		gv.Assert(errs[i] == nil, "signing succeeds among parties that follow the protocol")
		r, s := sigs[i].VPair()
		r0, s0 := sigs[0].VPair()
		gv.Assert(r.Cmp(r0) == 0 && s.Cmp(s0) == 0, "all parties obtain the same pair")
		gv.Assert(s.Sign() >= 0 && s.Cmp(gv.Order()) < 0, "the second component is reduced")
		gv.Assert(r.Sign() >= 0 && r.Cmp(gv.Order()) < 0, "the first component is reduced")
		want := Add(m, Mul(r, x))
		gv.Assert(Same(Mul(s, k), want) || Same(Mul(s, k), Neg(want)), "the second component satisfies the signing equation")
	}
}

func Signing1() { signing(1, 1) }
func Signing2() { signing(2, 1+gv.Choose("threshold-1", 2)) }
func Signing3() { signing(3, 1+gv.Choose("threshold-1", 3)) }
func Signing6() { signing(6, []int{1, 4, 6}[gv.Choose("threshold", 3)]) }

func Signing20() { signing(20, []int{2, 11, 20}[gv.Choose("threshold", 3)]) }

// SigningAgain: two messages signed with equal presignatures have equal first components
func SigningAgain() {
	w := newWorld(1)
	k, rho, eta, tau, _ := w.p.VPeek(0)
	w.p.VPush(k, rho, eta, tau, 1)
	a, err := w.p.Sign(gv.Nat("message"))
	b, err2 := w.p.Sign(gv.Nat("message"))
	gv.Assert(err == nil && err2 == nil, "signing succeeds")
	ra, _ := a.VPair()
	rb, _ := b.VPair()
	gv.Assert(ra.Cmp(rb) == 0, "the first component is determined by the nonce")
}

// whole runs initialisation, one presignature and one signature of a single party
func whole(m *big.Int) (p *tecdsa.Protocol, k, rho, eta, tau *arith.TDSecret, sig *tecdsa.Signature) {
	l := &line{fail: -1}
	p, err := tecdsa.Init(0, 1, l)
	gv.Assert(err == nil, "initialisation succeeds")
	gv.Assert(p.Presign(1) == nil, "presigning succeeds")
	k, rho, eta, tau, _ = p.VPeek(0)
	gv.Assume(tau.VShare().Sign() != 0 && k.VShare().Sign() != 0)
	sig, err = p.Sign(Cp(m))
	gv.Assert(err == nil, "signing succeeds")
	return
}

// Presigned: the relations a presignature needs
func Presigned() {
	p, k, rho, eta, tau, _ := whole(Scalar("message"))
	key, _, _ := p.VKeys()
	gv.Assert(Same(tau.VShare(), Mul(k.VShare(), rho.VShare())), "tau is the product of k and rho")
	gv.Assert(Same(eta.VShare(), Mul(rho.VShare(), key.VSecret().VShare())), "eta is the product of rho and the signing key")
}

// SignValid: the pair is a signature of the message
func SignValid() {
	m := Scalar("message")
	p, k, _, _, _, sig := whole(m)
	r, s := sig.VPair()
	gv.Assume(s.Sign() != 0)
	key, _, _ := p.VKeys()
	g := curve.NewSecp256k1Group()
	inv := new(big.Int).ModInverse(s, gv.Order())
	q := g.Add(g.ScalarBaseMult(Mul(m, inv)), g.ScalarMult(key.PublicKey(), Mul(r, inv)))
	gv.Assert(r.Cmp(abscissa(g, gv.Point(k.VShare()))) == 0, "the first component is the abscissa of the nonce's point")
	gv.Assert(abscissa(g, q).Cmp(r) == 0, "the pair is a signature of the message under the public key")
}

// ---- any queue, any number of parties: the secrets of pkg/arith by contract

// queue is a queue of any length, of presignatures of one party
type queue struct {
	n     int
	p     *tecdsa.Protocol
	pid   int
	all   int   // parties
	net   *line // of the protocol, for presigning
	lines func(i int) *line
	f     *commitment.ElGamalFactory
}

func anyQueue(fail int) *queue {
	q := &queue{n: gv.Count("presignatures", 0, 65535), net: &line{fail: -1}, f: factory()}
	q.pid, q.all = 0, 1
	if gv.Symbolic() {
		q.all = gv.Int("parties", 1, 65535)
		q.pid = gv.Index("party", q.all)
	}
	q.p = tecdsa.VProtocol(uint16(q.pid), uint16(q.all), q.net, q.f)
	lines := make([]*line, q.n)
	gv.Fill("", lines, func(i int) interface{} { return &line{fail: fail} })
	q.lines = func(i int) *line { return lines[i] }
	secret := func(name string, i int) *arith.TDSecret {
		v, r := gv.NthBelow(name, i, gv.Order()), gv.NthBelow(name+" randomness", i, gv.Order())
		return arith.VTDSecret(arith.VADSecret(uint16(q.pid), name, v, r, q.f, []*commitment.ElGamal{q.f.Create(v, r)}, lines[i]), 1)
	}
	q.p.VQueue(q.n, gv.Count("spare capacity", 0, 65535), gv.Fill, func(i int) (k, rho, eta, tau *arith.TDSecret, t uint16) {
		return secret("k", i), secret("rho", i), secret("eta", i), secret("tau", i), 1
	})
	return q
}

// at is one of the secrets of a presignature
func (q *queue) at(i, kind int) *arith.TDSecret {
	k, rho, eta, tau, _ := q.p.VPeek(i)
	return []*arith.TDSecret{k, rho, eta, tau}[kind]
}

// SignAny: a queue of any length; deriving a key and revealing a secret may fail
func SignAny() {
	fail := gv.Choose("exchange that fails", 4) - 1
	q := anyQueue(fail)
	var used, made []*arith.TDSecret
	exchanges := 0
	exchange := func(s *arith.TDSecret) bool {
		used = append(used, s)
		exchanges++
		return exchanges-1 != fail
	}
	byContract := gv.Assuming((*arith.TDSecret).Exp, func(s *arith.TDSecret) (*arith.TDKey, error) {
		if !exchange(s) {
			return nil, errors.New("the exchange failed")
		}
		return arith.VTDKey(s, gv.Point(Scalar("nonce")), nil), nil
	})
	gv.Assuming((*arith.TDSecret).Reveal, func(s *arith.TDSecret) (*big.Int, error) {
		if !exchange(s) {
			return nil, errors.New("the exchange failed")
		}
		return Scalar("revealed"), nil
	})
	gv.Assuming(arith.Lin, func(alpha, beta *big.Int, a, b *arith.TDSecret, label string) *arith.TDSecret {
		used = append(used, a, b)
		c := arith.VTDSecret(arith.VADSecret(a.VPid(), label, Scalar("combined"), Scalar("combined randomness"), q.f, nil, a.VServer()), a.Threshold())
		made = append(made, c)
		return c
	})
	i := gv.Index("a presignature", 65535)
	kind := gv.Choose("secret", 4)
	var before, oldest *arith.TDSecret
	var first []*arith.TDSecret
	if q.n > 0 {
		k, rho, eta, tau, _ := q.p.VPeek(0)
		first = []*arith.TDSecret{k, rho, eta, tau}
		oldest = first[kind]
	}
	if i+1 < q.n {
		before = q.at(i+1, kind)
	}
	sig, err := q.p.Sign(gv.Nat("message"))
	gv.Reached("the end")
	gv.Assert((err == nil) == (sig != nil), "a signature or an error")
	gv.Assert(q.net.rounds == 0, "signing runs over the network of its presignature")
	if q.n == 0 {
		gv.Assert(err != nil && q.p.VLen() == 0 && len(used) == 0, "without presignatures signing fails")
		return
	}
	gv.Assert(oldest != nil && q.p.VLen() == q.n-1, "an attempt takes one presignature out of the queue")
	if i+1 < q.n {
		gv.Assert(q.at(i, kind) == before, "an attempt takes out the oldest presignature")
		if !byContract {
			gv.Assert(q.lines(i+1).rounds == 0, "an attempt uses no other presignature")
		}
	}
	for _, s := range used {
		known := false
		for _, x := range append(append([]*arith.TDSecret{}, first...), made...) {
			known = known || s == x
		}
		gv.Assert(known, "an attempt uses the oldest presignature only")
	}
	if byContract {
		gv.Assert(len(used) > 0, "an attempt uses the oldest presignature")
		gv.Assert(fail < 0 || exchanges <= fail || err != nil, "an attempt with a failed exchange fails")
	}
}

// PresignAny: a queue of any length; generating and resharing secrets may fail
func PresignAny() {
	q := anyQueue(-1)
	t := gv.Int("threshold", 0, 65535)
	fail := gv.Choose("step that fails", 9)
	steps := 0
	step := func() error {
		steps++
		if steps-1 == fail {
			return errors.New("the exchange failed")
		}
		return nil
	}
	var gens []*arith.ADSecret
	var from []int // which of them was reshared
	var to []*arith.TDSecret
	byContract := gv.Assuming(arith.Gen, func(label string, server sync.Server, f *commitment.ElGamalFactory, pid, n uint16) (*arith.ADSecret, error) {
		gv.Assert(server == sync.Server(q.net) && f == q.f && int(pid) == q.pid && int(n) == q.all, "every secret is generated by all parties, with the base generated for commitments")
		if err := step(); err != nil {
			return nil, err
		}
		s := arith.VADSecret(pid, label, Scalar(label), Scalar(label+" randomness"), f, nil, server)
		gens = append(gens, s)
		return s, nil
	})
	gv.Assuming((*arith.ADSecret).Reshare, func(s *arith.ADSecret, t uint16) (*arith.TDSecret, error) {
		which := -1
		for i, x := range gens {
			if x == s {
				which = i
			}
		}
		if err := step(); err != nil {
			return nil, err
		}
		if t < 1 {
			return nil, errors.New("no threshold")
		}
		r := arith.VTDSecret(arith.VADSecret(s.VPid(), s.Label(), Scalar(s.Label()), Scalar(s.Label()+" randomness"), s.VEgf(), nil, s.VServer()), t)
		from, to = append(from, which), append(to, r)
		return r, nil
	})
	if !byContract {
		// one of the rounds fails
		q.net.fail = gv.Choose("round that fails", 30) - 1
		fail = -1
		gv.Assume(t < 3)
	}
	i := gv.Index("a presignature", 65535)
	kind := gv.Choose("secret", 4)
	var before *arith.TDSecret
	if i < q.n {
		before = q.at(i, kind)
	}
	err := q.p.Presign(uint16(t))
	gv.Reached("the end")
	if i < q.n {
		gv.Assert(q.at(i, kind) == before, "presigning keeps the presignatures that there are")
	}
	if err != nil {
		gv.Assert(q.p.VLen() == q.n, "a presigning run that fails leaves the queue as it was")
		return
	}
	gv.Assert(q.p.VLen() == q.n+1, "a presigning run that succeeds adds one presignature")
	gv.Assert(t > 0, "the threshold is positive")
	if byContract {
		gv.Assert(steps <= fail, "a presigning run with a failed exchange fails")
	} else {
		gv.Assert(q.net.fail < 0 || q.net.rounds <= q.net.fail, "a presigning run with a failed exchange fails")
	}
	k, rho, eta, tau, tt := q.p.VPeek(q.n)
	gv.Assert(int(tt) == t, "the presignature has the requested threshold")
	gv.Assert(k != rho && k != eta && k != tau && rho != eta && rho != tau && eta != tau, "the secrets of a presignature are different ones")
	for j, x := range []*arith.TDSecret{k, rho, eta, tau} {
		gv.Assert(x != nil && int(x.Threshold()) == t && x.Label() == []string{"k", "rho", "eta", "tau"}[j], "the secrets of the presignature")
		gv.Assert(x.VEgf() == q.f, "every secret is committed to with the base generated for commitments")
		if byContract {
			made := false
			for l, y := range to {
				made = made || x == y && from[l] >= 0
			}
			gv.Assert(made, "the secrets are generated in this run")
		}
	}
}

// SignAll: any number of parties, which derive keys and reveal secrets as C18 says
func SignAll() {
	f := factory()
	k, rho, x, m := Scalar("k"), Scalar("rho"), Scalar("key"), gv.Nat("message")
	gv.Assume(k.Sign() != 0)
	gv.Assume(rho.Sign() != 0)
	n := 1
	if gv.Symbolic() {
		n = gv.Int("parties", 1, 65535)
	}
	pid := gv.Index("party", n)
	t := gv.Index("threshold", n) + 1
	l := &line{fail: -1}
	value := map[*arith.TDSecret]*big.Int{}
	share := func(name string, v *big.Int) *arith.TDSecret {
		v = v.Mod(v, gv.Order())
		own := v
		if gv.Symbolic() {
			own = Scalar("share of " + name)
		}
		r := Scalar(name + " randomness")
		s := arith.VTDSecret(arith.VADSecret(uint16(pid), name, own, r, f, []*commitment.ElGamal{f.Create(own, r)}, l), uint16(t))
		value[s] = v
		return s
	}
	gv.Assuming((*arith.TDSecret).Exp, func(s *arith.TDSecret) (*arith.TDKey, error) {
		gv.Assert(value[s] != nil, "a secret of the presignature, or a combination of these")
		return arith.VTDKey(s, gv.Point(value[s]), nil), nil
	})
	gv.Assuming((*arith.TDSecret).Reveal, func(s *arith.TDSecret) (*big.Int, error) {
		gv.Assert(value[s] != nil, "a secret of the presignature, or a combination of these")
		return Cp(value[s]), nil
	})
	gv.Assuming(arith.Lin, func(alpha, beta *big.Int, a, b *arith.TDSecret, label string) *arith.TDSecret {
		gv.Assert(value[a] != nil && value[b] != nil, "a secret of the presignature, or a combination of these")
		return share(label, Add(Mul(alpha, value[a]), Mul(beta, value[b])))
	})
	p := tecdsa.VProtocol(uint16(pid), uint16(n), l, f)
	p.VPush(share("k", Cp(k)), share("rho", Cp(rho)), share("eta", Mul(rho, x)), share("tau", Mul(k, rho)), uint16(t))
	msg := Cp(m)
	sig, err := p.Sign(msg)
	gv.Assert(err == nil, "signing succeeds among parties that follow the protocol")
	gv.Assert(msg.Cmp(m) == 0, "the message is unchanged")
	r, s := sig.VPair()
	gv.Assert(s.Sign() >= 0 && s.Cmp(gv.Order()) < 0, "the second component is reduced")
	gv.Assert(r.Sign() >= 0 && r.Cmp(gv.Order()) < 0, "the first component is reduced")
	want := Add(m, Mul(r, x))
	gv.Assert(Same(Mul(s, k), want) || Same(Mul(s, k), Neg(want)), "the second component satisfies the signing equation")
	// another key, rho and message
	rho, x = Scalar("another rho"), Scalar("another key")
	gv.Assume(rho.Sign() != 0)
	p.VPush(share("k", Cp(k)), share("rho", Cp(rho)), share("eta", Mul(rho, x)), share("tau", Mul(k, rho)), uint16(t))
	sig, err = p.Sign(gv.Nat("another message"))
	gv.Assert(err == nil, "signing succeeds among parties that follow the protocol")
	r2, _ := sig.VPair()
	gv.Assert(r.Cmp(r2) == 0, "the first component is determined by the nonce")
}

// InitAll: one party, any number of others that follow the protocol
func InitAll() {
	n := gv.Count("parties", 1, 65535)
	pid := gv.Index("party", n)
	share := func(key, i int) *big.Int { return gv.NthBelow([]string{"key share", "base share"}[key], i, gv.Order()) }
	p := &net.Peer{Pid: pid, N: n, Msg: func(from, round int) []byte {
		e := gv.Enc(share(round/2, from))
		if round%2 == 0 {
			return packed(e)
		}
		return e
	}}
	var keys [2]func() *big.Int
	d0 := gv.DrawCount()
	for i := range keys {
		i := i
		keys[i] = gv.LaterBut(n, func(j int) *big.Int { return share(i, j) }, pid, func() *big.Int { return gv.Drawn(d0 + i) })
	}
	pr, err := tecdsa.Init(uint16(pid), uint16(n), p)
	gv.Assert(err == nil, "initialisation succeeds among parties that follow the protocol")
	key, egKey, egf := pr.VKeys()
	own := []*big.Int{key.VSecret().VShare(), egKey.VSecret().VShare()}
	a, b := gv.FreshDraw(d0, own[0]), gv.FreshDraw(d0, own[1])
	gv.Assert(a >= 0 && b >= 0 && a != b, "every share of the two keys is a fresh uniform scalar of its own")
	// the messages assumed of the others are what this party sends
	gv.Format(a == d0 && b == d0+1 && len(p.Sent) == 4 && gv.Equal(p.Sent[0][0], packed(gv.Enc(own[0]))) && gv.Equal(p.Sent[1][0], gv.Enc(own[0])) &&
		gv.Equal(p.Sent[2][0], packed(gv.Enc(own[1]))) && gv.Equal(p.Sent[3][0], gv.Enc(own[1])))
	h := keys[1]()
	gv.Assert(gv.IsPoint(key.PublicKey(), keys[0]()), "every party holds the signing key's public key")
	gv.Assert(gv.IsPoint(egKey.PublicKey(), h), "every party holds the commitment key's public key")
	v, r := Scalar("value"), Scalar("randomness")
	want := commitment.NewElGamalFactory(gv.Point(h))
	gv.Assert(want.Create(v, r).Equal(egf.Create(v, r), want.Create(v, r)), "commitments are based on the key generated for them")
}

// packed is a commitment to a share, as it is sent
func packed(b []byte) []byte {
	w := make([]byte, 8, 8+len(b))
	binary.LittleEndian.PutUint32(w, uint32(len(b)))
	return append(w, b...)
}

// InitAny: any outcome of the two key generations
func InitAny() {
	l := &line{fail: gv.Choose("round that fails", 5)}
	pid, n := 0, 1
	if gv.Symbolic() {
		n = gv.Int("parties", 1, 65535)
		pid = gv.Index("party", n)
	}
	var keys []*arith.DKey
	var logs []*big.Int
	fails := gv.Choose("key generation that fails", 3)
	calls := 0
	byContract := gv.Assuming(arith.GenExpReveal, func(id uint16, label string, server sync.Server, parties uint16, group curve.Group) (*arith.DKey, error) {
		gv.Assert(int(id) == pid && int(parties) == n && server == sync.Server(l), "every key is generated by all parties")
		calls++
		if calls-1 == fails {
			return nil, errors.New("the exchange failed")
		}
		x := Scalar("key")
		k := arith.VDKey(arith.NewDSecret(id, label, Scalar("share"), server), gv.Point(x), nil)
		keys, logs = append(keys, k), append(logs, x)
		return k, nil
	})
	pr, err := tecdsa.Init(uint16(pid), uint16(n), l)
	gv.Reached("the end")
	gv.Assert((err == nil) == (pr != nil), "a protocol or an error")
	if !byContract {
		gv.Assert(l.rounds <= l.fail || err != nil, "initialisation fails when a key generation fails")
		return
	}
	gv.Assert(calls <= fails || err != nil, "initialisation fails when a key generation fails")
	if err != nil {
		return
	}
	key, egKey, egf := pr.VKeys()
	at := map[*arith.DKey]int{}
	for i, k := range keys {
		at[k] = i + 1
	}
	gv.Assert(at[key] > 0 && at[egKey] > 0 && key != egKey, "the two keys are generated by all parties, each for itself")
	v, r := Scalar("value"), Scalar("randomness")
	want := commitment.NewElGamalFactory(gv.Point(logs[at[egKey]-1]))
	gv.Assert(want.Create(v, r).Equal(egf.Create(v, r), want.Create(v, r)), "commitments are based on the key generated for them")
}
