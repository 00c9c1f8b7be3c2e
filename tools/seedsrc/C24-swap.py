prop='C24'
edits=[('pkg/tecdsa/tecdsa.go', '\tp.presig = p.presig[1:]\n', '\tlast := len(p.presig) - 1\n\tp.presig[0], p.presig[last] = p.presig[last], nil\n\tp.presig = p.presig[:last]\n')]
pkg='pkg/tecdsa'
needs='three or more presignatures in the queue and a second attempt'
breaks='parties that presigned a different number of times use different presignatures; not the oldest one is taken'
stubs=True
drop=['pkg/tecdsa/tecdsa_test.go', 'pkg/tecdsa/tecdsa_suite_test.go']
demo=r"""package tecdsa

import (
	"errors"
	"math/big"
	"testing"
)

// line is the network of a single party; the round with the given number fails
type line struct{ n, fail int }

func (l *line) Start() {}
func (l *line) Stop()  {}
func (l *line) Round(toSend [][]byte, check func(uint16, []byte) error) error {
	l.n++
	if l.n == l.fail {
		return errors.New("failed")
	}
	return nil
}

var order, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)


func TestZZDemo(t *testing.T) {
	p, err := Init(0, 1, &line{})
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 4; i++ {
		if err := p.Presign(1); err != nil {
			t.Fatal(err)
		}
	}
	want := append([]*presig{}, p.presig...)
	for i := 0; i < 4; i++ {
		if len(p.presig) != 4-i || p.presig[0] != want[i] {
			t.Fatalf("attempt %d does not use the oldest presignature", i)
		}
		if _, err := p.Sign(big.NewInt(int64(i))); err != nil {
			t.Fatal(err)
		}
	}
}
"""
