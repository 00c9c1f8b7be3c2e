prop='C21'
edits=[('pkg/arith/checkDH.go', '\t\tif err := group.Encode(verifyValueShare, dataBuf); err != nil {\n\t\t\treturn nil, err\n\t\t}\n\n\t\tif err := rrerand', '\t\tif err := rrerand')]
pkg='pkg/arith'
needs="a peer that changes its verify value after having seen the others' values"
breaks='the commitment covers the test value only'
stubs=True
hub=True
demo=r"""package arith

import (
	"bytes"
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

func TestZZDemo(t *testing.T) {
	g := curve.NewSecp256k1Group()
	h := newHub(2)
	h.tamper = func(from, to, round int, data []byte) []byte {
		if from == 1 && to == 0 && round == 1 {
			// the verify value comes first
			b := bytes.NewBuffer(data)
			v, err := g.Decode(b)
			if err != nil {
				t.Error(err)
			}
			w := &bytes.Buffer{}
			// makes up for the difference between v and u times the key
			if err := g.Encode(g.Add(v, g.Neg(shift)), w); err != nil {
				t.Error(err)
			}
			return append(w.Bytes(), b.Bytes()...)
		}
		return data
	}
	_ = bytes.MinRead
	pk := []curve.Point{g.ScalarBaseMult(big.NewInt(3)), g.ScalarBaseMult(big.NewInt(4))}
	u, v := g.ScalarBaseMult(big.NewInt(10)), g.ScalarBaseMult(big.NewInt(71))
	old := randReader
	defer func() { randReader = old }()
	randReader = ones{}
	// alpha is the same known number for both parties, v exceeds u times the key by the generator
	alpha := new(big.Int).SetBytes(bytes.Repeat([]byte{1}, 32))
	shift = g.ScalarBaseMult(alpha.Lsh(alpha, 1))
	errs := make([]error, 2)
	h.run(func(pid int, s *hubServer) {
		ds := NewDSecret(uint16(pid), "x", big.NewInt(int64(3+pid)), s)
		errs[pid] = CheckDH(u, v, g, NewDKey(ds, pk, g))
	})
	if errs[0] == nil {
		t.Fatal("a wrong tuple passed because a peer changed its verify value after committing")
	}
}

var shift curve.Point

type ones struct{}

func (ones) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = 1
	}
	return len(b), nil
}
"""
