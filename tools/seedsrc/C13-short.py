prop='C13'
edits=[('pkg/crypto/hash.go', 'var t [48]byte', 'var t [32]byte')]
pkg='pkg/crypto'
needs='looking at the value of the hash; prover and verifier still agree'
breaks='only 32 bytes are expanded, the reduction is biased'
pkgname='pkg'
demo=r"""package pkg

import (
	"crypto/sha256"
	"math/big"
	"testing"

	"golang.org/x/crypto/hkdf"
)

func TestZZDemo(t *testing.T) {
	r := hkdf.New(sha256.New, []byte("message"), []byte("ThresholdECDSA"), []byte{'H', '2', 'F', 0, 1})
	var b [48]byte
	if _, err := r.Read(b[:]); err != nil {
		t.Fatal(err)
	}
	x := new(big.Int).SetBytes(b[:])
	if x.Mod(x, Q).Cmp(HashToBigInt([]byte("message"))) != 0 {
		t.Fatal("not the 48 byte expansion")
	}
}
"""
