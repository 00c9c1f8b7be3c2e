prop='C25'
edits=[('pkg/tecdsa/tecdsa.go', '\tp.key, err = arith.GenExpReveal(pid, "x", p.network, p.nProc, p.group)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tp.egKey, err', '\tp.key, err = arith.GenExpReveal(pid, "x", p.network, p.nProc, p.group)\n\tp.egKey, err')]
pkg='pkg/tecdsa'
needs='a failure in the rounds of the first key generation only'
breaks='initialisation succeeds without a signing key'
stubs=True
drop=['pkg/tecdsa/tecdsa_test.go', 'pkg/tecdsa/tecdsa_suite_test.go']
demo=r"""package tecdsa

import (
	"errors"
	"math/big"
	"testing"
)

// line is the network of a single party; the round with the given number fails
type line struct{ n, fail int }

func (l *line) Start() {}
func (l *line) Stop()  {}
func (l *line) Round(toSend [][]byte, check func(uint16, []byte) error) error {
	l.n++
	if l.n == l.fail {
		return errors.New("failed")
	}
	return nil
}

var order, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)


func TestZZDemo(t *testing.T) {
	for k := 1; k < 8; k++ {
		l := &line{fail: k}
		p, err := Init(0, 1, l)
		if l.n >= k && err == nil {
			t.Fatalf("no error although round %d failed", k)
		}
		if err == nil && (p.key == nil || p.egKey == nil) {
			t.Fatal("no key")
		}
	}
}
"""
