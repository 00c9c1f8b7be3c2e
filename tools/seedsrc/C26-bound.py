prop='C26'
edits=[('pkg/tecdsa/tecdsa.go', '\tr := crypto.HashToBigInt(w.Bytes())\n', '\tw.Write(message.Bytes())\n\tr := crypto.HashToBigInt(w.Bytes())\n')]
pkg='pkg/tecdsa'
needs='comparing two signatures made from one nonce'
breaks="r is no longer determined by the nonce's point"
stubs=True
drop=['pkg/tecdsa/tecdsa_test.go', 'pkg/tecdsa/tecdsa_suite_test.go']
demo=r"""package tecdsa

import (
	"errors"
	"math/big"
	"testing"
)

// line is the network of a single party; the round with the given number fails
type line struct{ n, fail int }

func (l *line) Start() {}
func (l *line) Stop()  {}
func (l *line) Round(toSend [][]byte, check func(uint16, []byte) error) error {
	l.n++
	if l.n == l.fail {
		return errors.New("failed")
	}
	return nil
}

var order, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)


func TestZZDemo(t *testing.T) {
	p, err := Init(0, 1, &line{})
	if err != nil {
		t.Fatal(err)
	}
	if err := p.Presign(1); err != nil {
		t.Fatal(err)
	}
	p.presig = append(p.presig, p.presig[0])
	a, err := p.Sign(big.NewInt(5))
	if err != nil {
		t.Fatal(err)
	}
	b, err := p.Sign(big.NewInt(6))
	if err != nil {
		t.Fatal(err)
	}
	if a.r.Cmp(b.r) != 0 {
		t.Fatal("r depends on more than the nonce's point")
	}
}
"""
