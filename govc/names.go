package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

// The overlay files refer to unexported names of the repository. A name that such a file marks, as in
//
//	ds.skShare /*DSecret.skShare*/   poly /*func*/   server /*type*/
//
// is looked up in the package as it is now, so that a consistent renaming changes nothing: a field is identified by the
// struct it is in and its type and place among the fields of that type, a function by its signature, a struct by its
// fields. Names that cannot be found that way are left as they are; the overlay does not compile then.

// fields and signatures as of the commit the overlays were written for
var namesThen = map[string][]string{
	"DSecret":    {"pid uint16", "label string", "skShare *big.Int", "server sync.Server"},
	"ADSecret":   {"DSecret DSecret", "r *big.Int", "egf *commitment.ElGamalFactory", "egs []*commitment.ElGamal"},
	"TDSecret":   {"ADSecret ADSecret", "t uint16"},
	"DKey":       {"secret *DSecret", "pk curve.Point", "pkShares []curve.Point"},
	"TDKey":      {"DKey DKey", "secret *TDSecret"},
	"Signature":  {"r *big.Int", "s *big.Int"},
	"presig":     {"k *arith.TDSecret", "rho *arith.TDSecret", "eta *arith.TDSecret", "tau *arith.TDSecret", "t uint16"},
	"RoundError": {"msg string", "missing []uint16"},
	"member":     {"pid int", "privateKey *paillier.PrivateKey"},
	"committee":  {"publicKeys []*paillier.PublicKey", "addresses []string"},
	"Protocol": {"pid uint16", "nProc uint16", "key *arith.DKey", "egKey *arith.DKey", "egf *commitment.ElGamalFactory",
		"presig []*presig", "network sync.Server", "group curve.Group"},
	"server": {"pid uint16", "nProc uint16", "startTime time.Time", "roundDuration time.Duration", "roundID int64", "net network.Server",
		"inDataConn []network.Connection", "outDataConn []network.Connection", "prevRoundEnd time.Time", "startWG sync.WaitGroup"},
}

var funcsThen = map[string]string{
	"poly":         "func(uint16, *big.Int) ([]*big.Int, error)",
	"polyEval":     "func([]*big.Int, *big.Int, *big.Int) *big.Int",
	"lagrangeCoef": "func(*big.Int, []*big.Int, *big.Int) *big.Int",
	"getMember":    "func(string) (*member, error)",
	"getCommittee": "func(string) (*committee, error)",
}

type fieldT struct{ name, typ string }

// names are the structs, functions and variables a directory declares
type names struct {
	structs map[string][]fieldT
	funcs   map[string]string
	vars    map[string]string
}

func declared(dir string) *names {
	n := &names{map[string][]fieldT{}, map[string]string{}, map[string]string{}}
	fset := token.NewFileSet()
	fs, _ := filepath.Glob(dir + "/*.go")
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		p, err := parser.ParseFile(fset, f, b, 0)
		if err != nil {
			continue
		}
		for _, d := range p.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					n.funcs[d.Name.Name] = "func" + signature(d.Type)
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						if st, ok := s.Type.(*ast.StructType); ok {
							n.structs[s.Name.Name] = fields(st.Fields)
						}
					case *ast.ValueSpec:
						for _, x := range s.Names {
							if s.Type != nil {
								n.vars[x.Name] = types.ExprString(s.Type)
							}
						}
					}
				}
			}
		}
	}
	return n
}

func fields(l *ast.FieldList) []fieldT {
	var r []fieldT
	if l == nil {
		return r
	}
	for _, f := range l.List {
		t := types.ExprString(f.Type)
		if len(f.Names) == 0 {
			r = append(r, fieldT{strings.TrimPrefix(t[strings.LastIndex(t, ".")+1:], "*"), t})
		}
		for _, x := range f.Names {
			r = append(r, fieldT{x.Name, t})
		}
	}
	return r
}

func signature(t *ast.FuncType) string {
	list := func(l *ast.FieldList) string {
		var r []string
		if l != nil {
			for _, f := range l.List {
				for i := 0; i == 0 || i < len(f.Names); i++ {
					r = append(r, types.ExprString(f.Type))
				}
			}
		}
		return strings.Join(r, ", ")
	}
	r := "(" + list(t.Params) + ")"
	switch res := list(t.Results); {
	case res == "":
	case strings.Contains(res, ", "):
		r += " (" + res + ")"
	default:
		r += " " + res
	}
	return r
}

var basicNames = regexp.MustCompile(`\b[a-z]\w*\b`)

// rename writes the names of then in a type as they are now
func (n *names) rename(t string) string {
	return basicNames.ReplaceAllStringFunc(t, func(x string) string {
		if _, ok := namesThen[x]; ok && !strings.Contains(t, x+".") {
			return n.structName(x)
		}
		return x
	})
}

// structName is the present name of a struct
func (n *names) structName(then string) string {
	if _, ok := n.structs[then]; ok || namesThen[then] == nil {
		return then
	}
	var found []string
	for name, fs := range n.structs {
		if len(fs) != len(namesThen[then]) || namesThen[name] != nil {
			continue
		}
		same := true
		for i, f := range fs {
			same = same && strings.HasSuffix(namesThen[then][i], " "+f.typ)
		}
		if same {
			found = append(found, name)
		}
	}
	if len(found) == 1 {
		return found[0]
	}
	return then
}

// field is the present name of a field
func (n *names) field(st, then string) string {
	fs := n.structs[n.structName(st)]
	var typ string
	old := map[string]bool{}
	now := map[string]bool{}
	for _, f := range fs {
		now[f.name] = true
	}
	if now[then] || fs == nil {
		return then
	}
	var gone []string
	for _, f := range namesThen[st] {
		x := strings.SplitN(f, " ", 2)
		old[x[0]] = true
		if x[0] == then {
			typ = x[1]
		}
	}
	for _, f := range namesThen[st] {
		x := strings.SplitN(f, " ", 2)
		if x[1] == typ && !now[x[0]] {
			gone = append(gone, x[0])
		}
	}
	var come []string
	typ = n.rename(typ)
	for _, f := range fs {
		if f.typ == typ && !old[f.name] {
			come = append(come, f.name)
		}
	}
	if len(come) == len(gone) {
		for i := range gone {
			if gone[i] == then {
				return come[i]
			}
		}
	}
	return then
}

// function is the present name of a function
func (n *names) function(then string) string {
	if _, ok := n.funcs[then]; ok {
		return then
	}
	var found []string
	want := n.rename(funcsThen[then])
	for name, sig := range n.funcs {
		if sig == want && funcsThen[name] == "" {
			found = append(found, name)
		}
	}
	if len(found) == 1 {
		return found[0]
	}
	return then
}

// variable is the present name of the package's variable of a type
func (n *names) variable(then, typ string) string {
	if _, ok := n.vars[then]; ok {
		return then
	}
	var found []string
	for name, t := range n.vars {
		if t == typ {
			found = append(found, name)
		}
	}
	if len(found) == 1 {
		return found[0]
	}
	return then
}

var marked = regexp.MustCompile(`(\w+) ?/\*([^*\n]+)\*/`)

// present writes the marked names of an overlay as they are in the package it is added to
func present(src []byte, dir string) []byte {
	var n *names
	return marked.ReplaceAllFunc(src, func(m []byte) []byte {
		if n == nil {
			n = declared(dir)
		}
		x := marked.FindSubmatch(m)
		name, what := string(x[1]), string(x[2])
		switch {
		case what == "type":
			return []byte(n.structName(name))
		case what == "func":
			return []byte(n.function(name))
		case strings.HasPrefix(what, "var "):
			return []byte(n.variable(name, what[4:]))
		case strings.HasSuffix(what, "."+name):
			return []byte(n.field(strings.TrimSuffix(what, "."+name), name))
		}
		return m
	})
}
