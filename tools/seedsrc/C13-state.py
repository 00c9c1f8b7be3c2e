prop='C13'
edits=[('pkg/crypto/hash.go', '\tvar t [48]byte\n', '\tvar t [48]byte\n\tif len(msg) > 1<<12 {\n\t\ts := sha256.Sum256(msg[:1<<12])\n\t\tmsg = s[:]\n\t}\n')]
pkg='pkg/crypto'
needs='messages above 4096 bytes'
breaks='long messages are cut off before they are hashed, so their ends do not count'
pkgname='pkg'
demo=r"""package pkg

import "testing"

func TestZZDemo(t *testing.T) {
	a := make([]byte, 5000)
	b := make([]byte, 5000)
	b[4999] = 1
	if HashToBigInt(a).Cmp(HashToBigInt(b)) == 0 {
		t.Fatal("the end of the message does not count")
	}
}
"""
