prop='C28'
edits=[('cmd/tecdsa/main.go', '\t"runtime"\n\t"strconv"\n', '\t"runtime"\n'), ('cmd/tecdsa/main.go', '\tm.pid, err = strconv.Atoi(scanner.Text())\n\tif err != nil {\n', '\t_, err = fmt.Sscan(scanner.Text(), &m.pid)\n\tif err != nil {\n')]
pkg='cmd/tecdsa'
needs='a party number followed by other characters'
breaks='the beginning of a malformed party number is taken for the number'
stubs=True
pkgname='main'
demo=r"""package main

import (
	"encoding/base64"
	"math/big"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

var _ = strings.Repeat
var _ = big.NewInt
var _ = base64.StdEncoding

func file(t *testing.T, content string) string {
	f := filepath.Join(t.TempDir(), "f")
	if err := os.WriteFile(f, []byte(content), 0o600); err != nil {
		t.Fatal(err)
	}
	return f
}


func TestZZDemo(t *testing.T) {
	key := base64.StdEncoding.EncodeToString([]byte{1, 0, 7, 1, 0, 8, 1, 0, 9})
	for _, pid := range []string{"0", "3", "12"} {
		m, err := getMember(file(t, key+" "+pid+"\n"))
		if err != nil || m.privateKey.N.Cmp(big.NewInt(7)) != 0 {
			t.Fatal("a good file is rejected")
		}
	}
	for _, pid := range []string{"1x", "1,2", "3.7", "x"} {
		if m, err := getMember(file(t, key+" "+pid+"\n")); err == nil {
			t.Fatalf("%q was read as %d", pid, m.pid)
		}
	}
}
"""
