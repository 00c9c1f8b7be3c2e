prop='C28'
edits=[('cmd/tecdsa/main.go', '\tpkBytes, err := base64.StdEncoding.DecodeString(pkEnc)\n\tif err != nil {\n', '\tpkBytes, err := base64.StdEncoding.DecodeString(pkEnc)\n\tif err != nil && len(pkBytes) == 0 {\n')]
pkg='cmd/tecdsa'
needs='a public key whose encoding is broken behind its first characters'
breaks='the beginning of a broken key is taken for the key'
stubs=True
pkgname='main'
demo=r"""package main

import (
	"encoding/base64"
	"math/big"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

var _ = strings.Repeat
var _ = big.NewInt
var _ = base64.StdEncoding

func file(t *testing.T, content string) string {
	f := filepath.Join(t.TempDir(), "f")
	if err := os.WriteFile(f, []byte(content), 0o600); err != nil {
		t.Fatal(err)
	}
	return f
}


func TestZZDemo(t *testing.T) {
	good := "AQID|10.0.0.1:9000\n"
	if _, err := getCommittee(file(t, good+good)); err != nil {
		t.Fatal(err)
	}
	for _, bad := range []string{"=", "AQIDBA", "AQIDBAUG=", "AQID-AUG"} {
		if c, err := getCommittee(file(t, good+bad+"|10.0.0.2:9000\n")); err == nil {
			t.Fatalf("the key %q was read as %v", bad, c.publicKeys[1].N)
		}
	}
}
"""
