package main

// Trusted contracts of the functions the programs under cmd use: files, scanners, text encodings, flags.
// A file system is a map from names to contents; writing and reading succeed.

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type FileV struct {
	name string
	data *Obj // Rope; nil: not a file of the file system
	pos  *Term
}

const maxToken = 64 * 1024

type ScanV struct { // bufio.Scanner
	src   Val
	lines bool
	max   int64
	toks  []Rope
	begun bool
	cur   Rope
	err   *IfaceV
}

func init() {
	fresh := func(e *Exec, fn *ssa.Function, f *FileV) Val {
		return &Ptr{obj: e.newObj(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), f, "file")}
	}
	name := func(e *Exec, v Val) string {
		s, ok := v.(StrV).r.constant()
		if !ok {
			e.unsupported("file name that is not constant")
		}
		return string(s)
	}
	open := func(e *Exec, fn *ssa.Function, a []Val) Val {
		n := name(e, a[0])
		if o := e.files[n]; o != nil {
			return TupleV{fresh(e, fn, &FileV{name: n, data: o, pos: zero}), nilIface}
		}
		return TupleV{nilPtr, e.newErr("no such file")}
	}
	create := func(e *Exec, fn *ssa.Function, a []Val) Val {
		n := name(e, a[0])
		o := e.newObj(nil, Rope(nil), "file "+n)
		e.files[n] = o
		return TupleV{fresh(e, fn, &FileV{name: n, data: o, pos: zero}), nilIface}
	}
	models["os.Open"] = open
	models["os.Create"] = create
	models["os.OpenFile"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		flag, ok := e.concrete(a[1])
		if !ok {
			e.unsupported("os.OpenFile")
		}
		n := name(e, a[0])
		o := e.files[n]
		if flag&0x40 == 0 && o == nil {
			return TupleV{nilPtr, e.newErr("no such file")}
		}
		if o == nil || flag&0x200 != 0 {
			return create(e, fn, a)
		}
		pos := zero
		if flag&0x400 != 0 {
			pos = o.val.(Rope).Len()
		}
		return TupleV{fresh(e, fn, &FileV{name: n, data: o, pos: pos}), nilIface}
	}
	readFile := func(e *Exec, fn *ssa.Function, a []Val) Val {
		o := e.files[name(e, a[0])]
		if o == nil {
			return TupleV{&SliceV{off: zero, len: zero, cap: zero}, e.newErr("no such file")}
		}
		return TupleV{e.newBytes(o.val.(Rope), "file content"), nilIface}
	}
	writeFile := func(e *Exec, fn *ssa.Function, a []Val) Val {
		n := name(e, a[0])
		e.files[n] = e.newObj(nil, norm(e.bytesOf(a[1].(*SliceV))), "file "+n)
		return nilIface
	}
	for _, p := range []string{"os.", "io/ioutil."} {
		models[p+"ReadFile"] = readFile
		models[p+"WriteFile"] = writeFile
	}
	models["os.Remove"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		delete(e.files, name(e, a[0]))
		return nilIface
	}
	F := "(*os.File)."
	isNil := func(v Val) bool { p, ok := v.(*Ptr); return ok && p.obj == nil }
	models[F+"Close"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		if isNil(a[0]) {
			return e.newErr("invalid file")
		}
		return nilIface
	}
	models[F+"Sync"] = models[F+"Close"]
	models[F+"Fd"] = func(e *Exec, fn *ssa.Function, a []Val) Val { return e.intVar("fd", 32, false) }
	models[F+"Name"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		return StrV{Rope{cseg([]byte(e.load(e.ptr(a[0])).(*FileV).name))}}
	}
	write := func(e *Exec, v Val, x Rope) Val {
		if _, ok := v.(*OpaqueV); ok { // os.Stdout, os.Stderr
			return TupleV{norm(x).Len(), nilIface}
		}
		if isNil(v) {
			return TupleV{zero, e.newErr("invalid file")}
		}
		p := e.ptr(v)
		f, ok := e.load(p).(*FileV)
		if !ok {
			e.unsupported("file")
		}
		return e.fileWrite(p, f, x)
	}
	models[F+"Write"] = func(e *Exec, fn *ssa.Function, a []Val) Val { return write(e, a[0], e.bytesOf(a[1].(*SliceV))) }
	models[F+"WriteString"] = func(e *Exec, fn *ssa.Function, a []Val) Val { return write(e, a[0], a[1].(StrV).r) }
	models[F+"Read"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		return e.readSome(&IfaceV{typ: fn.Signature.Recv().Type(), v: a[0]}, a[1].(*SliceV))
	}
	readAll := func(e *Exec, fn *ssa.Function, a []Val) Val {
		in, take, ok := e.content(a[0])
		if !ok {
			return e.body(fn, a, nil)
		}
		take()
		return TupleV{e.newBytes(in, "content"), nilIface}
	}
	models["io.ReadAll"] = readAll
	models["io/ioutil.ReadAll"] = readAll

	// scanners
	S := "(*bufio.Scanner)."
	models["bufio.NewScanner"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		return &Ptr{obj: e.newObj(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), &ScanV{src: a[0], lines: true, max: maxToken}, "scanner")}
	}
	scan := func(e *Exec, v Val) (*Ptr, ScanV) {
		p := e.ptr(v)
		s, ok := e.load(p).(*ScanV)
		if !ok {
			e.unsupported("scanner")
		}
		return p, *s
	}
	models[S+"Split"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		p, s := scan(e, a[0])
		f, ok := a[1].(*FuncV)
		if !ok || f.fn == nil {
			e.unsupported("split function")
		}
		switch f.fn.String() {
		case "bufio.ScanWords":
			s.lines = false
		case "bufio.ScanLines":
			s.lines = true
		default:
			e.unsupported("split function " + f.fn.String())
		}
		e.store(p, &s)
		return nil
	}
	models[S+"Buffer"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		p, s := scan(e, a[0])
		m, ok := e.concrete(a[2])
		if !ok {
			e.unsupported("scanner buffer")
		}
		s.max = int64(m)
		e.store(p, &s)
		return nil
	}
	models[S+"Scan"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		p, s := scan(e, a[0])
		if !s.begun {
			s.begun = true
			in, take, ok := e.content(s.src)
			if !ok {
				e.unsupported("scanning a reader")
			}
			if s.lines {
				s.toks = e.lines(in)
			} else {
				s.toks = e.words(in)
			}
			take()
		}
		s.cur = nil
		if s.err != nil || len(s.toks) == 0 {
			e.store(p, &s)
			return tFalse
		}
		t := s.toks[0]
		if e.branch(Le(I64(s.max), t.Len())) {
			s.err = e.newErr("token too long")
			e.store(p, &s)
			return tFalse
		}
		s.cur, s.toks = t, s.toks[1:]
		e.store(p, &s)
		return tTrue
	}
	models[S+"Text"] = func(e *Exec, fn *ssa.Function, a []Val) Val { _, s := scan(e, a[0]); return StrV{s.cur} }
	models[S+"Bytes"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		_, s := scan(e, a[0])
		return e.newBytes(s.cur, "token")
	}
	models[S+"Err"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		_, s := scan(e, a[0])
		if s.err == nil {
			return nilIface
		}
		return s.err
	}

	// strings
	strs := func(e *Exec, rs []Rope) Val {
		arr := &ArrV{}
		for _, r := range rs {
			arr.e = append(arr.e, StrV{norm(r)})
		}
		n := I64(int64(len(rs)))
		return &SliceV{obj: e.newObj(types.Typ[types.String], arr, "strings"), off: zero, len: n, cap: n}
	}
	str := func(n string, f func(e *Exec, s Rope, a []Val) Val) {
		models["strings."+n] = func(e *Exec, fn *ssa.Function, a []Val) Val { return f(e, a[0].(StrV).r, a[1:]) }
	}
	str("Split", func(e *Exec, s Rope, a []Val) Val { return strs(e, e.split(s, sepOf(e, a[0]))) })
	limited := func(e *Exec, s Rope, sep string, n int) []Rope {
		ps := e.split(s, sep)
		if n > 0 && len(ps) > n {
			r := append([]Rope{}, ps[:n-1]...)
			var last Rope
			for i, x := range ps[n-1:] {
				if i > 0 {
					last = append(last, cseg([]byte(sep)))
				}
				last = append(last, x...)
			}
			return append(r, norm(last))
		}
		return ps
	}
	str("SplitN", func(e *Exec, s Rope, a []Val) Val {
		n, ok := e.concrete(a[1])
		if !ok || n == 0 {
			e.unsupported("strings.SplitN")
		}
		return strs(e, limited(e, s, sepOf(e, a[0]), n))
	})
	str("Cut", func(e *Exec, s Rope, a []Val) Val {
		ps := limited(e, s, sepOf(e, a[0]), 2)
		if len(ps) == 1 {
			return TupleV{StrV{s}, StrV{}, tFalse}
		}
		return TupleV{StrV{ps[0]}, StrV{ps[1]}, tTrue}
	})
	str("Fields", func(e *Exec, s Rope, a []Val) Val { return strs(e, e.words(s)) })
	str("Contains", func(e *Exec, s Rope, a []Val) Val { return Bool(len(e.split(s, sepOf(e, a[0]))) > 1) })
	str("Count", func(e *Exec, s Rope, a []Val) Val { return I64(int64(len(e.split(s, sepOf(e, a[0]))) - 1)) })
	index := func(e *Exec, s Rope, sep string) Val {
		ps := e.split(s, sep)
		if len(ps) == 1 {
			return I64(-1)
		}
		return ps[0].Len()
	}
	last := func(e *Exec, s Rope, sep string) Val {
		ps := e.split(s, sep)
		if len(ps) == 1 {
			return I64(-1)
		}
		return Sub(s.Len(), Add(ps[len(ps)-1].Len(), I64(int64(len(sep)))))
	}
	str("Index", func(e *Exec, s Rope, a []Val) Val { return index(e, s, sepOf(e, a[0])) })
	str("LastIndex", func(e *Exec, s Rope, a []Val) Val { return last(e, s, sepOf(e, a[0])) })
	char := func(e *Exec, v Val) string {
		c, ok := e.concrete(v)
		if !ok || c >= 128 {
			e.unsupported("character that is not constant")
		}
		return string(rune(c))
	}
	str("IndexByte", func(e *Exec, s Rope, a []Val) Val { return index(e, s, char(e, a[0])) })
	str("IndexRune", func(e *Exec, s Rope, a []Val) Val { return index(e, s, char(e, a[0])) })
	str("ContainsRune", func(e *Exec, s Rope, a []Val) Val { return Bool(len(e.split(s, char(e, a[0]))) > 1) })
	str("LastIndexByte", func(e *Exec, s Rope, a []Val) Val { return last(e, s, char(e, a[0])) })
	str("TrimSpace", func(e *Exec, s Rope, a []Val) Val {
		l := e.trimLeft(s)
		var rev func(r Rope) Rope
		rev = func(r Rope) Rope {
			r = norm(r)
			for len(r) > 0 {
				x := r[len(r)-1]
				if x.k == SConst {
					t := strings.TrimRight(string(x.b), " \t\r\n\v\f")
					if t != "" {
						return append(append(Rope{}, r[:len(r)-1]...), cseg([]byte(t)))
					}
					r = r[:len(r)-1]
					continue
				}
				if !noneOf(x, " ") {
					e.unsupported("TrimSpace of an unknown string")
				}
				if e.branch(Lt(zero, x.n)) {
					return r
				}
				r = r[:len(r)-1]
			}
			return r
		}
		return StrV{rev(l)}
	})
	str("HasPrefix", func(e *Exec, s Rope, a []Val) Val {
		p := a[0].(StrV).r
		if !e.branch(Le(p.Len(), s.Len())) {
			return tFalse
		}
		return e.ropeEq(e.ropeSub(s, zero, p.Len()), p)
	})
	str("HasSuffix", func(e *Exec, s Rope, a []Val) Val {
		p := a[0].(StrV).r
		if !e.branch(Le(p.Len(), s.Len())) {
			return tFalse
		}
		return e.ropeEq(e.ropeSub(s, Sub(s.Len(), p.Len()), p.Len()), p)
	})
	models["strings.Join"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		s := a[0].(*SliceV)
		n, ok := e.concrete(s.len)
		if !ok {
			e.unsupported("strings.Join")
		}
		var r Rope
		for i := 0; i < n; i++ {
			if i > 0 {
				r = append(r, a[1].(StrV).r...)
			}
			r = append(r, e.load(e.elemPtr(&Ptr{obj: s.obj, path: s.path}, Add(s.off, I64(int64(i))))).(StrV).r...)
		}
		return StrV{norm(r)}
	}

	// strconv
	models["strconv.Itoa"] = func(e *Exec, fn *ssa.Function, a []Val) Val { return StrV{itoa(e.term(a[0]))} }
	models["strconv.FormatInt"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		if b, ok := e.concrete(a[1]); !ok || b != 10 {
			e.unsupported("FormatInt")
		}
		return StrV{itoa(e.term(a[0]))}
	}
	models["strconv.FormatUint"] = models["strconv.FormatInt"]
	atoi := func(e *Exec, s Rope, what string, conv func(s string) (*big.Int, error), lo, hi *big.Int) Val {
		s = norm(s)
		if c, ok := s.constant(); ok {
			x, err := conv(string(c))
			if err != nil {
				return TupleV{IConst(x), e.newErr("not a number")}
			}
			return TupleV{IConst(x), nilIface}
		}
		if len(s) == 1 && s[0].k == SSpec && s[0].src.name == "itoa" {
			t := s[0].src.args[0]
			if e.branch(And(Le(IConst(lo), t), Le(t, IConst(hi)))) {
				return TupleV{t, nilIface}
			}
			return TupleV{zero, e.newErr("out of range")}
		}
		for _, x := range s {
			if x.k == SConst && strings.Trim(string(x.b), "0123456789+-_xXoObBaAcCdDeEfF") != "" {
				return TupleV{zero, e.newErr("not a number")}
			}
		}
		if e.branch(Eq(s.Len(), zero)) {
			return TupleV{zero, e.newErr("not a number")}
		}
		if !e.branch(App("is"+what, SBool, nil, nil, s.term())) {
			return TupleV{e.intVar("number", 64, lo.Sign() < 0), e.newErr("not a number")}
		}
		return TupleV{App(what, SInt, lo, hi, s.term()), nilIface}
	}
	models["strconv.Atoi"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		return atoi(e, a[0].(StrV).r, "int:10:64", func(s string) (*big.Int, error) {
			x, err := strconv.Atoi(s)
			return big.NewInt(int64(x)), err
		}, big.NewInt(-1<<63), big.NewInt(1<<63-1))
	}
	parse := func(unsigned bool) model {
		return func(e *Exec, fn *ssa.Function, a []Val) Val {
			b, ok1 := e.concrete(a[1])
			w, ok2 := e.concrete(a[2])
			if !ok1 || !ok2 {
				e.unsupported(fn.Name())
			}
			if w == 0 {
				w = 64
			}
			h := new(big.Int).Lsh(big1, uint(w))
			n, lo, hi := "uint", big0, new(big.Int).Sub(h, big1)
			if !unsigned {
				n, lo = "int", new(big.Int).Neg(new(big.Int).Rsh(h, 1))
				hi = new(big.Int).Sub(new(big.Int).Rsh(h, 1), big1)
			}
			return atoi(e, a[0].(StrV).r, fmt.Sprintf("%s:%d:%d", n, b, w), func(s string) (*big.Int, error) {
				if unsigned {
					x, err := strconv.ParseUint(s, b, w)
					return new(big.Int).SetUint64(x), err
				}
				x, err := strconv.ParseInt(s, b, w)
				return big.NewInt(x), err
			}, lo, hi)
		}
	}
	models["strconv.ParseInt"], models["strconv.ParseUint"] = parse(false), parse(true)

	// base64, hex
	B := "(*encoding/base64.Encoding)."
	models[B+"EncodeToString"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		n, c := base64Of(e, a[0])
		x := norm(e.bytesOf(a[1].(*SliceV)))
		if b, ok := x.constant(); ok {
			return StrV{norm(Rope{cseg([]byte(c.EncodeToString(b)))})}
		}
		l := base64Len(c, x.Len())
		src := App("base64:"+n, SBytes, nil, nil, x.term())
		return StrV{Rope{Seg{k: SSpec, src: src, n: l, sub: x, excl: "base64"}}}
	}
	models[B+"DecodeString"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		n, c := base64Of(e, a[0])
		return decoded(e, norm(a[1].(StrV).r), "base64:"+n, c.DecodeString, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/-_=\r\n")
	}
	models["encoding/hex.EncodeToString"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		x := norm(e.bytesOf(a[0].(*SliceV)))
		if b, ok := x.constant(); ok {
			return StrV{norm(Rope{cseg([]byte(hex.EncodeToString(b)))})}
		}
		src := App("hex", SBytes, nil, nil, x.term())
		return StrV{Rope{Seg{k: SSpec, src: src, n: Scale(big.NewInt(2), x.Len()), sub: x, excl: "base64"}}}
	}
	models["encoding/hex.DecodeString"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		return decoded(e, norm(a[0].(StrV).r), "hex", hex.DecodeString, "0123456789abcdefABCDEF")
	}

	// flags
	flagVar := func(e *Exec, fn *ssa.Function, a []Val) Val {
		p := e.ptr(a[0])
		e.store(p, a[2])
		fs, _ := e.ghost["flags"].(map[string]*Ptr)
		if fs == nil {
			fs = map[string]*Ptr{}
			e.ghost["flags"] = fs
		}
		fs[constStr(e, a[1])] = p
		return nil
	}
	for _, n := range []string{"StringVar", "IntVar", "BoolVar", "Int64Var", "UintVar", "Uint64Var"} {
		models["flag."+n] = flagVar
	}
	for _, n := range []string{"String", "Int", "Bool", "Int64", "Uint", "Uint64"} {
		models["flag."+n] = func(e *Exec, fn *ssa.Function, a []Val) Val {
			p := &Ptr{obj: e.newObj(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), a[1], "flag")}
			flagVar(e, fn, []Val{p, a[0], a[1]})
			return p
		}
	}
	models["flag.Parse"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		args, ok := e.global(e.v.prog.ImportedPackage("os").Var("Args")).val.(*SliceV)
		if !ok {
			e.unsupported("os.Args")
		}
		n, _ := e.concrete(args.len)
		at := func(i int) Rope {
			return e.load(e.elemPtr(&Ptr{obj: args.obj, path: args.path}, Add(args.off, I64(int64(i))))).(StrV).r
		}
		fs, _ := e.ghost["flags"].(map[string]*Ptr)
		for i := 1; i+1 < n; i += 2 {
			k, _ := at(i).constant()
			p := fs[strings.TrimLeft(string(k), "-")]
			if p == nil {
				e.unsupported("flag " + string(k))
			}
			if _, isStr := e.load(p).(StrV); isStr {
				e.store(p, StrV{at(i + 1)})
				continue
			}
			c, _ := at(i + 1).constant()
			x, err := strconv.Atoi(string(c))
			if err != nil {
				e.unsupported("flag value")
			}
			e.store(p, I64(int64(x)))
		}
		return nil
	}
	nop := func(e *Exec, fn *ssa.Function, a []Val) Val {
		switch fn.Signature.Results().Len() {
		case 0:
			return nil
		case 1:
			return e.zeroVal(fn.Signature.Results().At(0).Type())
		}
		e.unsupported(fn.String())
		return nil
	}
	models["syscall.Dup2"] = nop
	models["os/signal.Notify"] = nop
	models["github.com/rs/zerolog.Nop"] = nop

	// lemmas
	gvm("Text", func(e *Exec, a []Val) Val {
		n := e.inputName(constStr(e, a[0]))
		r := e.rawRope(n, constStr(e, a[1]))
		e.inputs[n+" length"] = r.Len()
		return StrV{r}
	})
	gvm("TextNear", func(e *Exec, a []Val) Val { return models["lemmas/gv.Text"](e, nil, a[:2]) })
	gvm("Shielded", func(e *Exec, a []Val) Val { e.callFn(a[0].(*FuncV), nil); return nil })
	gvm("KeyPair", func(e *Exec, a []Val) Val {
		i, _ := e.concrete(a[0])
		ks, _ := e.ghost["key pairs"].([]*Term)
		if 3*i+2 >= len(ks) {
			e.prove("lemma", "the key pair was generated", tFalse)
		}
		return TupleV{e.newBig(ks[3*i]), e.newBig(ks[3*i+1]), e.newBig(ks[3*i+2])}
	})
	gvm("KeyPairs", func(e *Exec, a []Val) Val {
		ks, _ := e.ghost["key pairs"].([]*Term)
		return I64(int64(len(ks) / 3))
	})
	gvm("OnServer", func(e *Exec, a []Val) Val { e.ghost["on server"] = a[0]; return nil })
	models["gitlab.com/alephledger/core-go/pkg/network/tcp.NewServer"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		if f, ok := e.ghost["on server"].(*FuncV); ok {
			e.callFn(f, a[:2])
		}
		return TupleV{e.zeroVal(fn.Signature.Results().At(0).Type()), e.newErr("no network")}
	}
	models[paillierPkg+".GenerateKeyPair"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		res := fn.Signature.Results()
		if e.choose(2) == 1 {
			return TupleV{nilPtr, nilPtr, e.newErr("timeout")}
		}
		hi := new(big.Int).Lsh(big1, 4096)
		k := len(e.ghost)
		ks, _ := e.ghost["key pairs"].([]*Term)
		k = len(ks) / 3
		n := Var(fmt.Sprintf("N%d", k), SInt, big1, hi)
		l := Var(fmt.Sprintf("lambda%d", k), SInt, big1, hi)
		f := Var(fmt.Sprintf("phi%d", k), SInt, big1, hi)
		e.ghost["key pairs"] = append(ks, n, l, f)
		privT := res.At(0).Type().(*types.Pointer).Elem()
		pubT := res.At(1).Type().(*types.Pointer).Elem()
		np := e.newBig(n)
		pub := &StructV{f: []Val{np}}
		priv := &StructV{f: []Val{&StructV{f: []Val{np}}, e.newBig(l), e.newBig(f)}}
		return TupleV{&Ptr{obj: e.newObj(privT, priv, "private key")}, &Ptr{obj: e.newObj(pubT, pub, "public key")}, nilIface}
	}
}

var base64s = map[string]*base64.Encoding{"StdEncoding": base64.StdEncoding, "RawStdEncoding": base64.RawStdEncoding, "URLEncoding": base64.URLEncoding, "RawURLEncoding": base64.RawURLEncoding}

func base64Of(e *Exec, v Val) (string, *base64.Encoding) {
	if o, ok := v.(*OpaqueV); ok {
		n := strings.TrimPrefix(o.name, "encoding/base64.")
		if c := base64s[n]; c != nil {
			return n, c
		}
	}
	e.unsupported("base64 encoding")
	return "", nil
}

// base64Len is the length of the encoding of n bytes
func base64Len(c *base64.Encoding, n *Term) *Term {
	if c == base64.RawStdEncoding || c == base64.RawURLEncoding {
		return Div(Add(Scale(big.NewInt(8), n), I64(5)), I64(6))
	}
	return Scale(big.NewInt(4), Div(Add(n, I64(2)), I64(3)))
}

// decoded is the result of decoding a text; an unknown text is valid or not, and has some content
func decoded(e *Exec, s Rope, what string, native func(string) ([]byte, error), alphabet string) Val {
	if b, ok := s.constant(); ok {
		r, err := native(string(b))
		if err != nil {
			return TupleV{e.newBytes(norm(Rope{cseg(r)}), "decoded"), e.newErr("illegal data")}
		}
		return TupleV{e.newBytes(norm(Rope{cseg(r)}), "decoded"), nilIface}
	}
	if len(s) == 1 && s[0].k == SSpec && s[0].src.name == what {
		return TupleV{e.newBytes(s[0].sub, "decoded"), nilIface}
	}
	for _, x := range s {
		if x.k == SConst && strings.Trim(string(x.b), alphabet) != "" {
			return TupleV{e.newBytes(e.rawRope("decoded", ""), "decoded"), e.newErr("illegal data")}
		}
	}
	if e.branch(Eq(s.Len(), zero)) {
		return TupleV{e.newBytes(nil, "decoded"), nilIface}
	}
	if !e.branch(App("is "+what, SBool, nil, nil, s.term())) {
		return TupleV{e.newBytes(e.rawRope("decoded", ""), "decoded"), e.newErr("illegal data")}
	}
	src := App("decode "+what, SBytes, nil, nil, s.term())
	l := App("blen", SInt, big0, big.NewInt(1<<40), src)
	return TupleV{e.newBytes(Rope{rseg(src, zero, l)}, "decoded"), nilIface}
}

func itoa(t *Term) Rope {
	if t.isConst() {
		return Rope{cseg([]byte(t.val.String()))}
	}
	src := App("itoa", SBytes, nil, nil, t)
	return Rope{Seg{k: SSpec, src: src, n: App("itoalen", SInt, big1, big.NewInt(20), t), excl: "base64"}}
}

// noneOf tells whether a segment has none of the characters; a space stands for all white space
func noneOf(s Seg, chars string) bool {
	for _, c := range chars {
		switch c {
		case '\t', '\n', '\r', '\v', '\f':
			c = ' '
		}
		if s.excl == "base64" {
			if strings.ContainsRune("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/-_=", c) {
				return false
			}
		} else if !strings.ContainsRune(s.excl, c) {
			return false
		}
	}
	return true
}

func sepOf(e *Exec, v Val) string {
	s, ok := v.(StrV).r.constant()
	if !ok || len(s) != 1 {
		e.unsupported("separator that is not a constant character")
	}
	return string(s)
}

// split cuts a rope at every occurrence of a character
func (e *Exec) split(r Rope, sep string) []Rope {
	res := []Rope{nil}
	for _, s := range norm(r) {
		k := len(res) - 1
		if s.k == SConst {
			for i, p := range strings.Split(string(s.b), sep) {
				if i > 0 {
					res = append(res, nil)
					k++
				}
				if p != "" {
					res[k] = append(res[k], cseg([]byte(p)))
				}
			}
			continue
		}
		if !noneOf(s, sep) {
			e.unsupported(fmt.Sprintf("split of an unknown string at %q", sep))
		}
		res[k] = append(res[k], s)
	}
	for i := range res {
		res[i] = norm(res[i])
	}
	return res
}

func (e *Exec) trimLeft(r Rope) Rope {
	r = norm(r)
	for len(r) > 0 {
		x := r[0]
		if x.k == SConst {
			t := strings.TrimLeft(string(x.b), " \t\r\n\v\f")
			if t != "" {
				return append(Rope{cseg([]byte(t))}, r[1:]...)
			}
			r = r[1:]
			continue
		}
		if !noneOf(x, " ") {
			e.unsupported("white space in an unknown string")
		}
		if e.branch(Lt(zero, x.n)) {
			return r
		}
		r = r[1:]
	}
	return r
}

// words are the maximal pieces without white space
func (e *Exec) words(r Rope) []Rope {
	var res []Rope
	var cur Rope
	end := func() {
		if len(cur) > 0 && e.branch(Lt(zero, cur.Len())) {
			res = append(res, norm(cur))
		}
		cur = nil
	}
	for _, s := range norm(r) {
		if s.k == SConst {
			from := 0
			for i := 0; i <= len(s.b); i++ {
				if i == len(s.b) || strings.ContainsRune(" \t\r\n\v\f", rune(s.b[i])) {
					if i > from {
						cur = append(cur, cseg(s.b[from:i]))
					}
					if i < len(s.b) {
						end()
					}
					from = i + 1
				}
			}
			continue
		}
		if !noneOf(s, " ") {
			e.unsupported("words of an unknown string")
		}
		cur = append(cur, s)
	}
	end()
	return res
}

// lines are the pieces between newlines, without a carriage return at the end
func (e *Exec) lines(r Rope) []Rope {
	ps := e.split(r, "\n")
	l := len(ps) - 1
	if len(ps[l]) == 0 || !e.branch(Lt(zero, ps[l].Len())) {
		ps = ps[:l]
	}
	for i, p := range ps {
		if len(p) == 0 {
			continue
		}
		x := p[len(p)-1]
		if x.k == SConst && x.b[len(x.b)-1] == '\r' {
			ps[i] = norm(append(append(Rope{}, p[:len(p)-1]...), cseg(x.b[:len(x.b)-1])))
		}
	}
	return ps
}

func (e *Exec) fileWrite(p *Ptr, f *FileV, x Rope) Val {
	x = norm(x)
	if f.data == nil {
		return TupleV{x.Len(), nilIface}
	}
	r := f.data.val.(Rope)
	if f.pos == r.Len() {
		f.data.val = cat(r, x)
	} else {
		e.unsupported("overwriting a file")
	}
	e.store(p, &FileV{name: f.name, data: f.data, pos: Add(f.pos, x.Len())})
	return TupleV{x.Len(), nilIface}
}
