package main

// The Paillier cryptosystem (github.com/binance-chain/tss-lib, not part of the repository), by contract: decrypting with
// the private key of N recovers the plaintext in [0,N); HomoMult and HomoAdd multiply and add plaintexts modulo N; values
// outside their range are rejected; any other number in range decrypts to something or is rejected.

import (
	"golang.org/x/tools/go/ssa"
)

const paillierPkg = "github.com/binance-chain/tss-lib/crypto/paillier"

// plaintext of c under N, up to multiples of N; ok if c is known to be an honest ciphertext
func (e *Exec) plaintext(n, c *Term) (*Term, bool) {
	if c.kind == KApp && c.name == "penc" && c.args[0] == n {
		return c.args[1], true
	}
	t := App("pdec", SInt, big0, nil, n, c)
	e.assume(Lt(t, n))
	return t, false
}

func (e *Exec) ciphertext(n, m *Term) *Term {
	m = stripMod(m, n)
	p := poly{}
	for _, x := range m.monomials() {
		multiple := false
		for _, a := range x.atoms {
			multiple = multiple || a == n
		}
		if !multiple {
			p.addMon(x.c, x.atoms)
		}
	}
	c := App("penc", SInt, big0, nil, n, p.term(), e.fresh("nonce", SInt, big0, nil))
	e.assume(Lt(c, Mul(n, n)))
	return c
}

// residue of x modulo n, in [0,n)
func (e *Exec) residue(x, n *Term) *Term {
	below := func(a, b *Term) bool {
		t, ok := e.known(Lt(a, b))
		return ok && t
	}
	if e.branch(Le(zero, x)) {
		if below(x, n) {
			return x
		}
	} else if below(Sub(Neg(n), one), x) {
		return Add(x, n)
	}
	y := App("pmod", SInt, big0, nil, x, n)
	e.assume(Lt(y, n))
	return y
}

func (e *Exec) inZn(x, n *Term) bool {
	if !e.branch(Le(zero, x)) {
		return false
	}
	return e.branch(Lt(x, n))
}

func init() {
	modulus := func(e *Exec, pk Val) *Term {
		return e.big(e.load(sub(e.ptr(pk), sel{i: 0})))
	}
	fail := func(e *Exec, what string) Val { return TupleV{nilPtr, e.newErr(what)} }
	pub := func(name string, f func(e *Exec, n *Term, a []Val) Val) {
		models["(*"+paillierPkg+".PublicKey)."+name] = func(e *Exec, fn *ssa.Function, a []Val) Val {
			return f(e, modulus(e, a[0]), a[1:])
		}
	}
	inC := func(e *Exec, c, n *Term) bool {
		if c.kind == KApp && c.name == "penc" && c.args[0] == n {
			return true
		}
		return e.inZn(c, Mul(n, n))
	}
	pub("Encrypt", func(e *Exec, n *Term, a []Val) Val {
		m := e.big(a[0])
		if !e.inZn(m, n) {
			return fail(e, "message too long")
		}
		return TupleV{e.newBig(e.ciphertext(n, m)), nilIface}
	})
	pub("HomoMult", func(e *Exec, n *Term, a []Val) Val {
		m, c := e.big(a[0]), e.big(a[1])
		if !e.inZn(m, n) || !inC(e, c, n) {
			return fail(e, "message too long")
		}
		x, ok := e.plaintext(n, c)
		if !ok {
			return TupleV{e.newBig(e.fresh("product", SInt, big0, nil)), nilIface}
		}
		return TupleV{e.newBig(e.ciphertext(n, Mul(m, x))), nilIface}
	})
	pub("HomoAdd", func(e *Exec, n *Term, a []Val) Val {
		c, d := e.big(a[0]), e.big(a[1])
		if !inC(e, c, n) || !inC(e, d, n) {
			return fail(e, "message too long")
		}
		x, ok1 := e.plaintext(n, c)
		y, ok2 := e.plaintext(n, d)
		if !ok1 || !ok2 {
			return TupleV{e.newBig(e.fresh("sum", SInt, big0, nil)), nilIface}
		}
		return TupleV{e.newBig(e.ciphertext(n, Add(x, y))), nilIface}
	})
	models["(*"+paillierPkg+".PrivateKey).Decrypt"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		p := e.ptr(a[0])
		n := modulus(e, sub(p, sel{i: 0}))
		c := e.big(a[1])
		if !inC(e, c, n) {
			return fail(e, "message too long")
		}
		m, ok := e.plaintext(n, c)
		if !ok && e.choose(2) == 1 {
			return fail(e, "malformed ciphertext")
		}
		l, f := e.load(sub(p, sel{i: 1})).(*Ptr), e.load(sub(p, sel{i: 2})).(*Ptr)
		if e.big(l) != App("plambda", SInt, big1, nil, n) || e.big(f) != App("pphi", SInt, big1, nil, n) {
			m = e.fresh("decrypted", SInt, big0, nil)
			e.assume(Lt(m, n))
		}
		return TupleV{e.newBig(e.residue(m, n)), nilIface}
	}
	// a key pair with a modulus above twice the square of the group order
	gvm("Paillier", func(e *Exec, a []Val) Val {
		return pair(e, Var(e.inputName(constStr(e, a[0])), SInt, IConst2(2).val, nil))
	})
	gvm("NthPaillier", func(e *Exec, a []Val) Val {
		return pair(e, elemOf(constStr(e, a[0]), e.term(a[1]), IConst2(2).val, nil))
	})
	// any ciphertext of a number modulo n
	gvm("Cipher", func(e *Exec, a []Val) Val {
		return e.newBig(e.ciphertext(modulus(e, a[0]), e.big(a[1])))
	})
	// the plaintext of smallest absolute value
	gvm("Signed", func(e *Exec, a []Val) Val {
		p := e.ptr(a[0])
		n := modulus(e, sub(p, sel{i: 0}))
		c := e.big(a[1])
		x, ok := e.plaintext(n, c)
		if !ok || !e.holds(And(Lt(Neg(n), Scale(I64(2).val, x)), Le(Scale(I64(2).val, x), n))) {
			x = e.fresh("signed plaintext", SInt, nil, nil)
		}
		return e.newBig(x)
	})
}

func pair(e *Exec, n *Term) Val {
	t := e.v.pkgs[paillierPkg]
	if t == nil {
		e.unsupported("package " + paillierPkg)
	}
	privT, pubT := t.Type("PrivateKey").Type(), t.Type("PublicKey").Type()
	big := func(x *Term) Val { return e.newBig(x) }
	pv := &Ptr{obj: e.newObj(privT, &StructV{f: []Val{&StructV{f: []Val{big(n)}}, big(App("plambda", SInt, big1, nil, n)), big(App("pphi", SInt, big1, nil, n))}}, "private key")}
	pb := &Ptr{obj: e.newObj(pubT, &StructV{f: []Val{big(n)}}, "public key")}
	return TupleV{pv, pb}
}

// IConst2 is k times the square of the group order, plus one
func IConst2(k int64) *Term { return Add(Scale(I64(k).val, Mul(tN, tN)), one) }
