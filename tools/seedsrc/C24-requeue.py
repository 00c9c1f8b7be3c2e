prop='C24'
edits=[('pkg/tecdsa/tecdsa.go', '\ts, err := sTDSecret.Reveal()\n\tif err != nil {\n', '\ts, err := sTDSecret.Reveal()\n\tif err != nil {\n\t\tp.presig = append([]*presig{ps}, p.presig...)\n')]
pkg='pkg/tecdsa'
needs='an attempt whose last round fails'
breaks='a presignature whose tau was already revealed is used for another message'
stubs=True
drop=['pkg/tecdsa/tecdsa_test.go', 'pkg/tecdsa/tecdsa_suite_test.go']
demo=r"""package tecdsa

import (
	"errors"
	"math/big"
	"testing"
)

// line is the network of a single party; the round with the given number fails
type line struct{ n, fail int }

func (l *line) Start() {}
func (l *line) Stop()  {}
func (l *line) Round(toSend [][]byte, check func(uint16, []byte) error) error {
	l.n++
	if l.n == l.fail {
		return errors.New("failed")
	}
	return nil
}

var order, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)


func TestZZDemo(t *testing.T) {
	l := &line{}
	p, err := Init(0, 1, l)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 2; i++ {
		if err := p.Presign(1); err != nil {
			t.Fatal(err)
		}
	}
	for k := 1; k < 8; k++ {
		n := len(p.presig)
		l.fail = l.n + k
		p.Sign(big.NewInt(7))
		l.fail = 0
		if n > 0 && len(p.presig) != n-1 {
			t.Fatalf("the attempt that failed in round %d did not use up its presignature", k)
		}
		if err := p.Presign(1); err != nil {
			t.Fatal(err)
		}
	}
}
"""
