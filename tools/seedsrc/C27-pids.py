prop='C27'
edits=[('cmd/gen_keys/main.go', '\tfor pid, p := range processes {\n\t\tf, err := os.Create(strconv.Itoa(pid) + ".pk")\n', '\t// names that sort in the order of the parties\n\twidth := len(strconv.Itoa(nProc - 1))\n\tfor i, p := range processes {\n\t\tname := fmt.Sprintf("%0*d", width, i)\n\t\tpid, err := strconv.ParseInt(name, 0, 32)\n\t\tif err != nil {\n\t\t\tfmt.Fprintln(os.Stderr, err)\n\t\t\treturn\n\t\t}\n\t\tf, err := os.Create(strconv.Itoa(i) + ".pk")\n'), ('cmd/gen_keys/main.go', '\t\tif _, err = f.WriteString(strconv.Itoa(pid)); err != nil {\n', '\t\tif _, err = f.WriteString(strconv.Itoa(int(pid))); err != nil {\n')]
pkg='cmd/gen_keys'
needs='eleven or more parties'
breaks='numbers with a leading zero are read as octal ones: files of parties 8 and 9 are not written'
stubs=True
pkgname='main'
demo=r"""package main

import (
	"fmt"
	"os"
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	if err := os.Chdir(t.TempDir()); err != nil {
		t.Fatal(err)
	}
	const n = 12
	os.Args = []string{"gen_keys", fmt.Sprint(n)}
	main()
	for i := 0; i < n; i++ {
		b, err := os.ReadFile(fmt.Sprintf("%d.pk", i))
		if err != nil {
			t.Fatal(err)
		}
		if f := strings.Fields(string(b)); len(f) != 2 || f[1] != fmt.Sprint(i) {
			t.Fatalf("the file of party %d is %q", i, b)
		}
	}
}
"""
