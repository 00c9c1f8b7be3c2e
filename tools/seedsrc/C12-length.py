prop='C12'
edits=[('pkg/crypto/zkpok/zkpok.go', '//Encode encodes ZKEGRefresh proof\nfunc (z *ZKEGRefresh) Encode(w io.Writer) error {\n\tz1Bytes := z.z1.Bytes()\n\tz2Bytes := z.z2.Bytes()\n\tbuf := make([]byte, 8, 8+len(z1Bytes)+len(z2Bytes))\n\tbinary.BigEndian.PutUint32(buf[0:4], uint32(len(z1Bytes)))\n\tbinary.BigEndian.PutUint32(buf[4:8], uint32(len(z2Bytes)))\n\n\tbuf = append(buf, z1Bytes...)\n\tbuf = append(buf, z2Bytes...)\n\n\tif _, err := w.Write(buf); err != nil {\n\t\treturn err\n\t}\n\tif err := z.xy.Encode(w); err != nil {\n\t\treturn err\n\t}\n\n\treturn nil\n}\n\n', '//Encode encodes ZKEGRefresh proof\nfunc (z *ZKEGRefresh) Encode(w io.Writer) error {\n\tz1Bytes := z.z1.Bytes()\n\tz2Bytes := z.z2.Bytes()\n\tbuf := make([]byte, 8, 8+len(z1Bytes)+len(z2Bytes))\n\tbinary.BigEndian.PutUint32(buf[0:4], uint32(len(z1Bytes)))\n\tbinary.BigEndian.PutUint32(buf[4:8], uint32(len(z1Bytes)))\n\n\tbuf = append(buf, z1Bytes...)\n\tbuf = append(buf, z2Bytes...)\n\n\tif _, err := w.Write(buf); err != nil {\n\t\treturn err\n\t}\n\tif err := z.xy.Encode(w); err != nil {\n\t\treturn err\n\t}\n\n\treturn nil\n}\n\n')]
pkg='pkg/crypto/zkpok'
needs='responses of different length, once in a hundred proofs'
breaks='the announced length of the second response is that of the first'
pkgname='zkpok'
demo=r"""package zkpok

import (
	"bytes"
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

func TestZZDemo(t *testing.T) {
	g := curve.NewSecp256k1Group()
	f := commitment.NewElGamalFactory(g.ScalarBaseMult(big.NewInt(3)))
	for i := 0; i < 2; i++ {
		p := &ZKEGRefresh{big.NewInt(int64(200 + 200*i)), big.NewInt(77), f.Create(big.NewInt(4), big.NewInt(5))}
		w := &bytes.Buffer{}
		if err := p.Encode(w); err != nil {
			t.Fatal(err)
		}
		q := &ZKEGRefresh{}
		if err := q.Decode(w); err != nil || w.Len() != 0 || p.z1.Cmp(q.z1) != 0 || p.z2.Cmp(q.z2) != 0 || !q.xy.Equal(q.xy, p.xy) {
			t.Fatal("round trip fails", i, err)
		}
	}
}
"""
