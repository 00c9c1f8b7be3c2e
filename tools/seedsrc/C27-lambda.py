prop='C27'
edits=[('cmd/gen_keys/main.go', '\tlenLambdaN := len(pk.LambdaN.Bytes())\n', '\tlenLambdaN := lenN\n')]
pkg='cmd/gen_keys'
needs='a key whose lambda is a byte shorter than its modulus (about one in a hundred)'
breaks='lambda in the key file is 256 times the generated one'
stubs=True
pkgname='main'
demo=r"""package main

import (
	"encoding/base64"
	"math/big"
	"testing"

	"github.com/binance-chain/tss-lib/crypto/paillier"
)

func TestZZDemo(t *testing.T) {
	for _, lambda := range []int64{0x123456, 0x1234} {
		k := &paillier.PrivateKey{LambdaN: big.NewInt(lambda), PhiN: big.NewInt(0x234567)}
		k.PublicKey.N = big.NewInt(0x345678)
		b, err := base64.StdEncoding.DecodeString(encodePaillierPrivateKey(k))
		if err != nil {
			t.Fatal(err)
		}
		for _, x := range []*big.Int{k.PublicKey.N, k.LambdaN, k.PhiN} {
			if len(b) < 2 || len(b)-2 < int(b[0])+256*int(b[1]) {
				t.Fatal("too short")
			}
			l := int(b[0]) + 256*int(b[1])
			if new(big.Int).SetBytes(b[2:2+l]).Cmp(x) != 0 {
				t.Fatalf("%x is not in the file", x)
			}
			b = b[2+l:]
		}
		if len(b) != 0 {
			t.Fatal("too long")
		}
	}
}
"""
