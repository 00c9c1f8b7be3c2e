prop='C14'
edits=[('pkg/arith/poly.go', '\t\tif f[i], err = rand.Int(randReader, Q); err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t}\n', '\t\tif i >= 128 {\n\t\t\tf[i] = f[i%128+1]\n\t\t\tcontinue\n\t\t}\n\t\tif f[i], err = rand.Int(randReader, Q); err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t}\n')]
pkg='pkg/arith'
needs='a polynomial of degree above 128'
breaks='coefficients from the 128th on repeat earlier ones'
stubs=True
demo=r"""package arith

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	f, err := poly(300, big.NewInt(7))
	if err != nil || len(f) != 301 {
		t.Fatal(err)
	}
	seen := map[string]int{}
	for i, c := range f {
		if k, ok := seen[c.String()]; ok {
			t.Fatalf("coefficients %d and %d are the same", k, i)
		}
		seen[c.String()] = i
	}
}
"""
