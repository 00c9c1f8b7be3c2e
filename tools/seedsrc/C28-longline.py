prop='C28'
edits=[('cmd/tecdsa/main.go', '\tif err := scanner.Err(); err != nil {\n\t\treturn nil, err\n\t}\n\tif len(c.publicKeys) < 2 {\n', '\tif len(c.publicKeys) < 2 {\n\t\tif err := scanner.Err(); err != nil {\n\t\t\treturn nil, err\n\t\t}\n')]
pkg='cmd/tecdsa'
needs='an entry of more than 64 KiB behind two good ones'
breaks='the list of parties is cut short without an error'
stubs=True
pkgname='main'
demo=r"""package main

import (
	"encoding/base64"
	"math/big"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

var _ = strings.Repeat
var _ = big.NewInt
var _ = base64.StdEncoding

func file(t *testing.T, content string) string {
	f := filepath.Join(t.TempDir(), "f")
	if err := os.WriteFile(f, []byte(content), 0o600); err != nil {
		t.Fatal(err)
	}
	return f
}


func TestZZDemo(t *testing.T) {
	good := "AQID|10.0.0.1:9000\n"
	c, err := getCommittee(file(t, good+good))
	if err != nil || len(c.addresses) != 2 {
		t.Fatal("a committee of two is not read")
	}
	c, err = getCommittee(file(t, good+good+"AQID|10.0.0."+strings.Repeat("1", 70000)+":9000\n"+good))
	if err == nil {
		t.Fatalf("%d of 4 parties were read", len(c.addresses))
	}
}
"""
