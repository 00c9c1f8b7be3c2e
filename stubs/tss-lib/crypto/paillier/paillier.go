// Package paillier is a stand-in for github.com/binance-chain/tss-lib/crypto/paillier, which is
// not available offline: the same cryptosystem with the same API, as far as /repo uses it.
package paillier

import (
	"crypto/rand"
	"errors"
	"math/big"
	"time"
)

type (
	// PublicKey is the modulus.
	PublicKey struct{ N *big.Int }
	// PrivateKey holds lambda(N) and phi(N).
	PrivateKey struct {
		PublicKey
		LambdaN, PhiN *big.Int
	}
)

var (
	// ErrMessageTooLong is returned for messages outside [0,N) and ciphertexts outside [0,N^2).
	ErrMessageTooLong = errors.New("the message is too large or < 0")
	one               = big.NewInt(1)
)

// Generated is called with every key that is generated.
var Generated = func(k *PrivateKey) {}

// GenerateKeyPair generates a key with a modulus of the given length.
func GenerateKeyPair(modulusBitLen int, timeout time.Duration, _ ...int) (*PrivateKey, *PublicKey, error) {
	for {
		p, err := rand.Prime(rand.Reader, modulusBitLen/2)
		if err != nil {
			return nil, nil, err
		}
		q, err := rand.Prime(rand.Reader, modulusBitLen-modulusBitLen/2)
		if err != nil {
			return nil, nil, err
		}
		if p.Cmp(q) == 0 {
			continue
		}
		n := new(big.Int).Mul(p, q)
		if n.BitLen() != modulusBitLen {
			continue
		}
		p1, q1 := new(big.Int).Sub(p, one), new(big.Int).Sub(q, one)
		phi := new(big.Int).Mul(p1, q1)
		if new(big.Int).GCD(nil, nil, n, phi).Cmp(one) != 0 {
			continue
		}
		lambda := new(big.Int).Div(phi, new(big.Int).GCD(nil, nil, p1, q1))
		pub := PublicKey{n}
		key := &PrivateKey{pub, lambda, phi}
		Generated(key)
		return key, &pub, nil
	}
}

// NSquare returns N^2.
func (pk *PublicKey) NSquare() *big.Int { return new(big.Int).Mul(pk.N, pk.N) }

// Encrypt encrypts m in [0,N).
func (pk *PublicKey) Encrypt(m *big.Int) (*big.Int, error) {
	if m.Sign() < 0 || m.Cmp(pk.N) >= 0 {
		return nil, ErrMessageTooLong
	}
	var x *big.Int
	for {
		var err error
		if x, err = rand.Int(rand.Reader, pk.N); err != nil {
			return nil, err
		}
		if x.Sign() > 0 && new(big.Int).GCD(nil, nil, x, pk.N).Cmp(one) == 0 {
			break
		}
	}
	n2 := pk.NSquare()
	gm := new(big.Int).Exp(new(big.Int).Add(pk.N, one), m, n2)
	xn := new(big.Int).Exp(x, pk.N, n2)
	return gm.Mul(gm, xn).Mod(gm, n2), nil
}

// HomoMult returns an encryption of m times the plaintext of c1.
func (pk *PublicKey) HomoMult(m, c1 *big.Int) (*big.Int, error) {
	if m.Sign() < 0 || m.Cmp(pk.N) >= 0 {
		return nil, ErrMessageTooLong
	}
	n2 := pk.NSquare()
	if c1.Sign() < 0 || c1.Cmp(n2) >= 0 {
		return nil, ErrMessageTooLong
	}
	return new(big.Int).Exp(c1, m, n2), nil
}

// HomoAdd returns an encryption of the sum.
func (pk *PublicKey) HomoAdd(c1, c2 *big.Int) (*big.Int, error) {
	n2 := pk.NSquare()
	if c1.Sign() < 0 || c1.Cmp(n2) >= 0 || c2.Sign() < 0 || c2.Cmp(n2) >= 0 {
		return nil, ErrMessageTooLong
	}
	r := new(big.Int).Mul(c1, c2)
	return r.Mod(r, n2), nil
}

// Decrypt decrypts c in [0,N^2).
func (sk *PrivateKey) Decrypt(c *big.Int) (*big.Int, error) {
	n2 := sk.NSquare()
	if c.Sign() < 0 || c.Cmp(n2) >= 0 {
		return nil, ErrMessageTooLong
	}
	if new(big.Int).GCD(nil, nil, c, n2).Cmp(one) > 0 {
		return nil, errors.New("malformed ciphertext")
	}
	l := func(u *big.Int) *big.Int {
		t := new(big.Int).Sub(u, one)
		return t.Div(t, sk.N)
	}
	lc := l(new(big.Int).Exp(c, sk.LambdaN, n2))
	lg := l(new(big.Int).Exp(new(big.Int).Add(sk.N, one), sk.LambdaN, n2))
	inv := new(big.Int).ModInverse(lg, sk.N)
	lc.Mul(lc, inv)
	return lc.Mod(lc, sk.N), nil
}
