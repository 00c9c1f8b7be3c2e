prop='C27'
edits=[('cmd/tecdsa/main.go', '\tif len(strings.Split(addr, ":")) < 2 {\n\t\treturn nil, "", errors.New("malformed address")\n\t}\n', '\thostPort := strings.Split(addr, ":")\n\tif len(hostPort) < 2 {\n\t\treturn nil, "", errors.New("malformed address")\n\t}\n\taddr = hostPort[0] + ":" + hostPort[1]\n')]
pkg='cmd/tecdsa'
needs='an address with more than one colon'
breaks='the node reads a different address than the one that was written'
stubs=True
pkgname='main'
demo=r"""package main

import (
	"encoding/base64"
	"math/big"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

var _ = strings.Repeat
var _ = big.NewInt
var _ = base64.StdEncoding

func file(t *testing.T, content string) string {
	f := filepath.Join(t.TempDir(), "f")
	if err := os.WriteFile(f, []byte(content), 0o600); err != nil {
		t.Fatal(err)
	}
	return f
}


func TestZZDemo(t *testing.T) {
	as := []string{"10.0.0.1:9000", "[fe80::17]:9000"}
	c, err := getCommittee(file(t, "AQID|"+as[0]+"\nBAUG|"+as[1]+"\n"))
	if err != nil {
		t.Fatal(err)
	}
	for i := range as {
		if c.addresses[i] != as[i] {
			t.Fatalf("address %s became %s", as[i], c.addresses[i])
		}
	}
}
"""
