prop='C17'
edits=[('pkg/arith/reshare.go', '		if egrefresh.Verify(ads.egf, ads.egs[pid], allCoefComms[pid][0]) != nil {', '		// a constant polynomial is the secret itself\n		if t > 1 && egrefresh.Verify(ads.egf, ads.egs[pid], allCoefComms[pid][0]) != nil {')]
pkg='pkg/arith'
needs='threshold one and a party that shares another value than its share of the secret'
breaks='with threshold one, it is not verified that the shared value is the share of the secret'
stubs=True
hub=True
demo=r"""package arith

import (
	"bytes"
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/zkpok"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

func TestZZDemo(t *testing.T) {
	f := commitment.NewElGamalFactory(curve.NewSecp256k1Group().ScalarBaseMult(big.NewInt(5)))
	h := newHub(2)
	other := f.Create(big.NewInt(3), big.NewInt(4))
	z, err := zkpok.NewZKEGRefresh(f, other, f.Create(big.NewInt(3), big.NewInt(9)), big.NewInt(5))
	if err != nil {
		t.Fatal(err)
	}
	var open []byte
	// round 0 is that of Gen
	h.tamper = func(from, to, round int, data []byte) []byte {
		if from != 1 || round != 2 && round != 3 {
			return data
		}
		if round == 3 {
			return open
		}
		m := &NMCtmp{}
		if err := m.decode(bytes.NewBuffer(data)); err != nil {
			t.Error(err)
			return data
		}
		// a proof about other commitments
		k := &zkpok.ZKEGKnow{}
		if err := k.Decode(bytes.NewBuffer(m.zkpBytes)); err != nil {
			t.Error(err)
		}
		var zkp, msg bytes.Buffer
		if k.Encode(&zkp) != nil || z.Encode(&zkp) != nil {
			t.Error("encoding")
		}
		m.zkpBytes = zkp.Bytes()
		open = append(append([]byte{}, m.dataBytes...), m.zkpBytes...)
		if err := m.encode(&msg); err != nil {
			t.Error(err)
		}
		return msg.Bytes()
	}
	errs := make([]error, 2)
	h.run(func(pid int, s *hubServer) {
		a, err := Gen("a", s, f, uint16(pid), 2)
		if err != nil {
			t.Error(err)
			return
		}
		_, errs[pid] = a.Reshare(1)
	})
	if errs[0] == nil {
		t.Fatal("accepted a proof about other commitments")
	}
}
"""
