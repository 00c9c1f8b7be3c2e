prop='C04'
edits=[('pkg/curve/secp256k1.go', '\tif lenX == 0 {\n\t\treturn sPoint{nil, nil}, nil\n\t}\n', '\tif lenX == 0 {\n\t\treturn sPoint{nil, nil}, nil\n\t}\n\tif lenX == 1<<32-1 {\n\t\t// x only: the y coordinate is the even one\n\t\treturn g.decodeCompressed(r)\n\t}\n'), ('pkg/curve/secp256k1.go', 'func (g sGroup) Decode(r io.Reader)', 'func (g sGroup) decodeCompressed(r io.Reader) (Point, error) {\n\tbuf := make([]byte, 32)\n\tif _, err := io.ReadFull(r, buf); err != nil {\n\t\treturn nil, err\n\t}\n\tx := new(big.Int).SetBytes(buf)\n\ty := new(big.Int).Exp(x, big.NewInt(3), g.curve.P)\n\ty.Add(y, g.curve.B)\n\ty.ModSqrt(y, g.curve.P)\n\tif y.Bit(0) == 1 {\n\t\ty.Sub(g.curve.P, y)\n\t}\n\treturn sPoint{x, y}, nil\n}\n\nfunc (g sGroup) Decode(r io.Reader)')]
pkg='pkg/curve'
needs='a compressed encoding whose x coordinate belongs to no point'
breaks='a second, compressed format is accepted without checking that the point exists'
pkgname='curve'
demo=r"""package curve

import (
	"bytes"
	"testing"
)

func TestZZDemo(t *testing.T) {
	g := NewSecp256k1Group()
	for i := 0; i < 20; i++ {
		b := append([]byte{255, 255, 255, 255}, make([]byte, 32)...)
		b[35] = byte(i)
		p, err := g.Decode(bytes.NewReader(b))
		if err != nil {
			continue
		}
		q := p.(sPoint)
		if !g.(*sGroup).curve.IsOnCurve(q.x, q.y) {
			t.Fatal("decoded something that is not a point of the curve")
		}
	}
}
"""
