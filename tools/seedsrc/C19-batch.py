prop='C19'
edits=[('pkg/arith/distributed_secret.go', '''	for pid, eg := range a.egs {
		if eg != nil {
			tds.egs[pid] = makeEGLin(a.egs[pid], b.egs[pid])
		}
	}
''', '''	const batch = 48
	for lo := 0; lo < len(a.egs); lo += batch {
		hi := lo + batch
		if hi > len(a.egs) {
			hi = len(a.egs)
		}
		for pid, eg := range a.egs[lo:hi] {
			if eg != nil {
				tds.egs[lo|pid] = makeEGLin(eg, b.egs[lo|pid])
			}
		}
	}
''')]
pkg='pkg/arith'
needs='more than 48 parties'
breaks='the commitments are combined in batches, and the number of a party is put together with a bitwise or, which is no addition after the first batch'
stubs=True
demo=r"""package arith

import (
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

func TestZZDemo(t *testing.T) {
	f := commitment.NewElGamalFactory(curve.NewSecp256k1Group().ScalarBaseMult(big.NewInt(5)))
	for _, n := range []int64{3, 80} {
		mk := func(x, r int64) *TDSecret {
			s := &TDSecret{ADSecret{DSecret: DSecret{pid: 0, skShare: big.NewInt(x)}, egf: f, r: big.NewInt(r)}, 1}
			for i := int64(0); i < n; i++ {
				s.egs = append(s.egs, f.Create(big.NewInt(x+i), big.NewInt(r+i)))
			}
			return s
		}
		c := Lin(big.NewInt(2), big.NewInt(3), mk(5, 6), mk(7, 8), "c")
		for i := int64(0); i < n; i++ {
			want := f.Create(big.NewInt(2*(5+i)+3*(7+i)), big.NewInt(2*(6+i)+3*(8+i)))
			if c.egs[i] == nil || !want.Equal(want, c.egs[i]) {
				t.Fatalf("%d parties: wrong commitment for party %d", n, i)
			}
		}
	}
}
"""
