prop='C20'
edits=[('pkg/arith/mult.go', '''	for id, t := range myShares {
		if id == pid {
			continue
		}
		share.Add(share, t)
''', '''	self := byte(pid)
	for id, t := range myShares {
		if byte(id) == self {
			continue
		}
		share.Add(share, t)
''')]
pkg='pkg/arith'
needs='more than 256 parties'
breaks='parties whose numbers agree in the last byte are taken for the own one, so their products are missing in the share'
stubs=True
demo=r"""package arith

import (
	"math/big"
	"testing"
	"time"

	"github.com/binance-chain/tss-lib/crypto/paillier"
)

// all parties have the same key and the factor 3; the others have masks zero
type zzServer struct {
	n, round int
	pid      uint16
	priv     *paillier.PrivateKey
	a        *big.Int
	masks    *big.Int
	t        *testing.T
}

func (s *zzServer) Start() {}
func (s *zzServer) Stop()  {}
func (s *zzServer) Round(own [][]byte, check func(uint16, []byte) error) error {
	pub := &s.priv.PublicKey
	var data []byte
	if s.round == 0 {
		c, err := pub.Encrypt(big.NewInt(3))
		if err != nil {
			return err
		}
		data = c.Bytes()
	} else {
		c, err := pub.Encrypt(new(big.Int).Mul(s.a, big.NewInt(3)))
		if err != nil {
			return err
		}
		data = c.Bytes()
		// what the others get
		for i, m := range own {
			if i == int(s.pid) {
				continue
			}
			x, err := s.priv.Decrypt(new(big.Int).SetBytes(m))
			if err != nil {
				return err
			}
			if new(big.Int).Lsh(x, 1).Cmp(pub.N) > 0 {
				x.Sub(x, pub.N)
			}
			s.masks.Add(s.masks, x)
		}
	}
	s.round++
	for i := 0; i < s.n; i++ {
		if i != int(s.pid) {
			if err := check(uint16(i), data); err != nil {
				return err
			}
		}
	}
	return nil
}

func TestZZDemo(t *testing.T) {
	const n = 260
	priv, pub, err := paillier.GenerateKeyPair(1024, 10*time.Second)
	if err != nil {
		t.Fatal(err)
	}
	pubs := make([]*paillier.PublicKey, n)
	for i := range pubs {
		pubs[i] = pub
	}
	a, b := big.NewInt(5), big.NewInt(7)
	s := &zzServer{n: n, pid: 2, priv: priv, a: a, masks: new(big.Int), t: t}
	share, err := PrivMult(a, b, 2, n, s, priv, pub, pubs)
	if err != nil {
		t.Fatal(err)
	}
	// all parties together: 5*7 of this one, and 3*7 + 5*3 with each other one
	sum := new(big.Int).Add(share, s.masks)
	if sum.Sub(sum, big.NewInt(35+(n-1)*36)).Mod(sum, Q).Sign() != 0 {
		t.Fatal("the shares do not sum to the product")
	}
}
"""
