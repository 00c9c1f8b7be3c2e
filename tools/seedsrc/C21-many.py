prop='C21'
edits=[('pkg/arith/checkDH.go', '''	for i := 0; i < nProc; i++ {
		if testValues[i] != nil {
			finalTestValue = group.Add(finalTestValue, testValues[i])
		}
	}
''', '''	// add in blocks, to keep the intermediate results apart
	for lo := 0; lo < nProc; lo += 128 {
		block := group.Neutral()
		for i := lo; i < nProc && i <= lo+128; i++ {
			if testValues[i] != nil {
				block = group.Add(block, testValues[i])
			}
		}
		finalTestValue = group.Add(finalTestValue, block)
	}
''')]
pkg='pkg/arith'
needs='more than 128 parties'
breaks='at the border of two blocks a value is added twice, so correct tuples are rejected'
stubs=True
demo=r"""package arith

import (
	"bytes"
	"encoding/binary"
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

// the other parties have masks zero
type zzServer struct {
	n     uint16
	round int
	share *big.Int
	sent  []byte
}

func (s *zzServer) Start() {}
func (s *zzServer) Stop()  {}
func (s *zzServer) Round(own [][]byte, check func(uint16, []byte) error) error {
	g := curve.NewSecp256k1Group()
	var two, msg bytes.Buffer
	g.Encode(g.Neutral(), &two)
	g.Encode(g.Neutral(), &two)
	switch s.round {
	case 0:
		l := make([]byte, 8)
		binary.LittleEndian.PutUint32(l, uint32(two.Len()))
		msg.Write(l)
		msg.Write(two.Bytes())
	case 1:
		msg = two
		s.sent = own[0]
	case 2:
		// the own test value is all there is
		b := bytes.NewBuffer(s.sent)
		g.Decode(b)
		x, _ := g.Decode(b)
		g.Encode(g.ScalarMult(x, s.share), &msg)
	}
	s.round++
	for i := uint16(1); i < s.n; i++ {
		if err := check(i, msg.Bytes()); err != nil {
			return err
		}
	}
	return nil
}

func TestZZDemo(t *testing.T) {
	g := curve.NewSecp256k1Group()
	for _, n := range []uint16{3, 200} {
		sh := big.NewInt(77)
		shares := []curve.Point{}
		for i := uint16(0); i < n; i++ {
			shares = append(shares, g.ScalarBaseMult(sh))
		}
		k := NewDKey(NewDSecret(0, "key", sh, &zzServer{n: n, share: sh}), shares, g)
		u := g.ScalarBaseMult(big.NewInt(5))
		if err := CheckDH(u, g.ScalarMult(u, big.NewInt(77*int64(n))), g, k); err != nil {
			t.Fatalf("%d parties: %v", n, err)
		}
	}
}
"""
