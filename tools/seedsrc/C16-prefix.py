prop='C16'
edits=[('pkg/arith/distributed_key.go', '\tif !bytes.Equal(nmc.dataBytes, dataBytes) {', '\tif !bytes.HasPrefix(dataBytes, nmc.dataBytes) {')]
pkg='pkg/arith'
needs='a peer that commits to a prefix of its share, the empty one say'
breaks='the comparison with the commitment is prefix matching'
stubs=True
hub=True
demo=r"""package arith

import (
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

func TestZZDemo(t *testing.T) {
	h := newHub(2)
	h.tamper = func(from, to, round int, data []byte) []byte {
		if from == 1 && round == 0 {
			return make([]byte, 8+0) // a commitment to nothing
		}
		return data
	}
	errs := make([]error, 2)
	h.run(func(pid int, s *hubServer) {
		_, errs[pid] = GenExpReveal(uint16(pid), "x", s, 2, curve.NewSecp256k1Group())
	})
	if errs[0] == nil {
		t.Fatal("a share was accepted that was not committed to")
	}
}
"""
