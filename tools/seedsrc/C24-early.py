prop='C24'
edits=[('pkg/tecdsa/tecdsa.go', '\tif psgn.tau, err = tau.Reshare(t); err != nil {\n\t\treturn err\n\t}\n\n\tp.presig = append(p.presig, psgn)\n\treturn nil\n', '\tp.presig = append(p.presig, psgn)\n\tpsgn.tau, err = tau.Reshare(t)\n\n\treturn err\n')]
pkg='pkg/tecdsa'
needs='a presigning run that fails in the rounds of its last resharing'
breaks='a run that fails leaves an incomplete presignature in the queue'
stubs=True
drop=['pkg/tecdsa/tecdsa_test.go', 'pkg/tecdsa/tecdsa_suite_test.go']
demo=r"""package tecdsa

import (
	"errors"
	"math/big"
	"testing"
)

// line is the network of a single party; the round with the given number fails
type line struct{ n, fail int }

func (l *line) Start() {}
func (l *line) Stop()  {}
func (l *line) Round(toSend [][]byte, check func(uint16, []byte) error) error {
	l.n++
	if l.n == l.fail {
		return errors.New("failed")
	}
	return nil
}

var order, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)


func TestZZDemo(t *testing.T) {
	l := &line{}
	p, err := Init(0, 1, l)
	if err != nil {
		t.Fatal(err)
	}
	for k := 1; k < 60; k++ {
		n, at := len(p.presig), l.n
		l.fail = at + k
		err := p.Presign(1)
		if err != nil && len(p.presig) != n {
			t.Fatalf("a run that failed in round %d added a presignature", k)
		}
	}
}
"""
