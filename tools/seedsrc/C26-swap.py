prop='C26'
edits=[('pkg/tecdsa/tecdsa.go', 'arith.Lin(alpha, beta, ps.rho, ps.eta, "s")', 'arith.Lin(alpha, beta, ps.eta, ps.rho, "s")')]
pkg='pkg/tecdsa'
needs='verifying the pair'
breaks='the two terms of the signing equation are exchanged'
stubs=True
drop=['pkg/tecdsa/tecdsa_test.go', 'pkg/tecdsa/tecdsa_suite_test.go']
demo=r"""package tecdsa

import (
	"errors"
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
)

// line is the network of a single party; the round with the given number fails
type line struct{ n, fail int }

func (l *line) Start() {}
func (l *line) Stop()  {}
func (l *line) Round(toSend [][]byte, check func(uint16, []byte) error) error {
	l.n++
	if l.n == l.fail {
		return errors.New("failed")
	}
	return nil
}

var order, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)


// good gives p a presignature with tau = k*rho and eta = rho*key
func good(t *testing.T, p *Protocol) (k, key *big.Int) {
	if err := p.Presign(1); err != nil {
		t.Fatal(err)
	}
	ps := p.presig[len(p.presig)-1]
	var err error
	if k, err = ps.k.Reveal(); err != nil {
		t.Fatal(err)
	}
	rho, err := ps.rho.Reveal()
	if err != nil {
		t.Fatal(err)
	}
	key = big.NewInt(123456789)
	zero := big.NewInt(0)
	eta, tau := new(big.Int).Mul(key, big.NewInt(1)), new(big.Int).Set(k)
	_ = rho
	ps.eta = arith.Lin(eta, zero, ps.rho, ps.rho, "eta")
	ps.tau = arith.Lin(tau, zero, ps.rho, ps.rho, "tau")
	return k, key
}

func valid(k, key, m *big.Int, sig *Signature) bool {
	a := new(big.Int).Mul(sig.s, k)
	b := new(big.Int).Mul(sig.r, key)
	b.Add(b, m)
	d := new(big.Int).Sub(a, b)
	e := new(big.Int).Add(a, b)
	return d.Mod(d, order).Sign() == 0 || e.Mod(e, order).Sign() == 0
}

func TestZZDemo(t *testing.T) {
	p, err := Init(0, 1, &line{})
	if err != nil {
		t.Fatal(err)
	}
	k, key := good(t, p)
	m := big.NewInt(1000)
	sig, err := p.Sign(m)
	if err != nil {
		t.Fatal(err)
	}
	if !valid(k, key, m, sig) {
		t.Fatal("not a signature of the message")
	}
}
"""
