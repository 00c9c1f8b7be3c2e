prop='C30'
edits=[('pkg/arith/distributed_secret.go', '''	// TODO: reimplement after ZKPs are implemented
	check := func(pid uint16, data []byte) error {
		var (
''', '''	// TODO: reimplement after ZKPs are implemented
	var seen uint64
	check := func(pid uint16, data []byte) error {
		if seen&(1<<(pid&63)) != 0 {
			return fmt.Errorf("second message of %d", pid)
		}
		seen |= 1 << (pid & 63)
		var (
''')]
pkg='pkg/arith'
needs='more than 64 parties'
breaks='parties whose numbers agree modulo 64 are taken for the same one, and the generation fails'
stubs=True
demo=r"""package arith

import (
	"bytes"
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

type zzServer struct {
	n   uint16
	msg []byte
}

func (s *zzServer) Start() {}
func (s *zzServer) Stop()  {}
func (s *zzServer) Round(_ [][]byte, check func(uint16, []byte) error) error {
	for i := uint16(1); i < s.n; i++ {
		if err := check(i, s.msg); err != nil {
			return err
		}
	}
	return nil
}

func TestZZDemo(t *testing.T) {
	f := commitment.NewElGamalFactory(curve.NewSecp256k1Group().ScalarBaseMult(big.NewInt(5)))
	buf := &bytes.Buffer{}
	if err := f.Create(big.NewInt(3), big.NewInt(4)).Encode(buf); err != nil {
		t.Fatal(err)
	}
	for _, n := range []uint16{3, 100} {
		if _, err := Gen("a", &zzServer{n, buf.Bytes()}, f, 0, n); err != nil {
			t.Fatalf("%d parties: %v", n, err)
		}
	}
}
"""
