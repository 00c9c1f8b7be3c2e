// Package gv is the language of the lemmas. The verifier gives these functions their symbolic meaning (any value, every
// execution); the code below is their concrete meaning, used to replay a failed obligation against the real code.
package gv

import (
	"bytes"
	"crypto/hmac"
	crand "crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/binance-chain/tss-lib/crypto/paillier"
	"gitlab.com/alephledger/core-go/pkg/network/tcp"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

type skip struct{}
type violated struct{ what string }

var (
	n, _  = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
	p, _  = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
	gx, _ = new(big.Int).SetString("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", 16)
	gy, _ = new(big.Int).SetString("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8", 16)

	rng    *rand.Rand
	model  map[string]string
	seen   map[string]int
	inputs map[string]string
	snaps  []snap
	reads  [][]byte
	logs   map[string]*big.Int
	mutate func() string
)

type snap struct {
	name string
	v    interface{}
	s    string
}

func name(k string) string {
	seen[k]++
	if seen[k] > 1 {
		return fmt.Sprintf("%s#%d", k, seen[k])
	}
	return k
}

// Order is the order of the group
func Order() *big.Int { return new(big.Int).Set(n) }

var special []*big.Int

func init() {
	add := func(x *big.Int, ds ...int64) {
		for _, d := range ds {
			y := new(big.Int).Add(x, big.NewInt(d))
			if y.Sign() >= 0 {
				special = append(special, y)
			}
		}
	}
	add(big.NewInt(0), 0, 1, 2, 3, 255, 256)
	add(n, -2, -1, 0, 1, 2)
	add(p, -1, 0, 1)
	add(new(big.Int).Lsh(big.NewInt(1), 256), -2, -1, 0, 1)
	add(new(big.Int).Lsh(n, 1), -1, 0, 1)
	add(new(big.Int).Mul(n, big.NewInt(5)), 0, 1, 17)
	add(new(big.Int).Rsh(n, 1), -1, 0, 1, 2)
	add(new(big.Int).Lsh(big.NewInt(1), 255), -1, 0, 1)
	add(new(big.Int).Lsh(big.NewInt(1), 300), 0, 7)
	add(new(big.Int).Lsh(big.NewInt(1), 248), -1, 0)
}

// values drawn before in this trial
var earlier []*big.Int

// lambda is a cube root of one modulo the order: d and lambda*d have the same y coordinate
var lambda, _ = new(big.Int).SetString("5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72", 16)

func randNat() *big.Int {
	x := randNat0()
	earlier = append(earlier, x)
	return x
}

func randNat0() *big.Int {
	if len(earlier) > 0 && rng.Intn(5) == 0 {
		// related to an earlier value
		x := new(big.Int).Set(earlier[rng.Intn(len(earlier))])
		switch rng.Intn(6) {
		case 0:
			x.Mul(x, lambda).Mod(x, n)
		case 1:
			x.Neg(x).Mod(x, n)
		case 2:
			x.Add(x, n)
		case 3:
			x.Add(x, big.NewInt(1))
		case 4:
			if y := new(big.Int).ModInverse(x, n); y != nil {
				x = y
			}
		}
		return new(big.Int).Set(x)
	}
	if rng.Intn(2) == 0 {
		return new(big.Int).Set(special[rng.Intn(len(special))])
	}
	bits := []uint{4, 8, 64, 128, 247, 248, 255, 256, 256, 256, 320}[rng.Intn(11)]
	return new(big.Int).Rand(rng, new(big.Int).Lsh(big.NewInt(1), bits))
}

func input(k string, gen func() *big.Int) *big.Int {
	k = name(k)
	x, ok := new(big.Int).SetString(model[k], 10)
	if !ok || model[k] == "" {
		x = gen()
	}
	inputs[k] = x.String()
	return x
}

// Nat is any non-negative integer
func Nat(k string) *big.Int { return input(k, randNat) }

// BigInt is any integer
func BigInt(k string) *big.Int {
	return input(k, func() *big.Int {
		x := randNat()
		if rng.Intn(3) == 0 {
			x.Neg(x)
		}
		return x
	})
}

// Below is any integer in [0, m)
func Below(k string, m *big.Int) *big.Int {
	return new(big.Int).Mod(input(k, randNat), m)
}

// BelowNear is any integer in [0, m); concretely often the given one
func BelowNear(k string, m, near *big.Int) *big.Int {
	return new(big.Int).Mod(input(k, func() *big.Int {
		if rng.Intn(2) == 0 {
			return near
		}
		return randNat()
	}), m)
}

// Int is any machine integer in [lo, hi]
func Int(k string, lo, hi int) int {
	return int(input(k, func() *big.Int {
		if rng.Intn(3) == 0 {
			return big.NewInt(int64([]int{lo, hi}[rng.Intn(2)]))
		}
		return big.NewInt(int64(lo) + rng.Int63n(int64(hi)-int64(lo)+1))
	}).Int64())
}

var large bool // numbers of any count

// Unbounded tells the verifier to look for invariants of loops that do not end after a few iterations
func Unbounded() {}

// Count is any number from lo to hi, of parties or the like; the verifier looks for invariants of the loops over them
func Count(k string, lo, hi int) int {
	n := int(input(k, func() *big.Int {
		m := []int{3, 5, 20}[rng.Intn(3)]
		if large {
			m = 1 << uint(rng.Intn(11))
		}
		if lo+m > hi {
			m = hi - lo
		}
		return big.NewInt(int64(lo) + rng.Int63n(int64(m)+1))
	}).Int64())
	if n > 1200 {
		panic(skip{}) // would take too long
	}
	return n
}

// Index is any number from 0 to n-1
func Index(k string, n int) int {
	return int(input(k, func() *big.Int { return big.NewInt(int64(rng.Intn(n))) }).Int64())
}

// NthBelow is the element with the given index of a sequence of numbers from 0 to m-1
func NthBelow(k string, i int, m *big.Int) *big.Int {
	k = fmt.Sprintf("%s[%d]", k, i)
	if x, ok := inputs[k]; ok {
		r, _ := new(big.Int).SetString(x, 10)
		return r
	}
	return new(big.Int).Mod(input(k, func() *big.Int { return new(big.Int).Mod(randNat(), m) }), m)
}

// NthBytes is the element with the given index of a sequence of byte strings
func NthBytes(k string, i int) []byte {
	k = fmt.Sprintf("%s[%d]", k, i)
	if b, ok := nthBytes[k]; ok {
		return append([]byte{}, b...)
	}
	b := Bytes(k)
	nthBytes[k] = append([]byte{}, b...)
	return b
}

var nthBytes = map[string][]byte{}

// Fill sets the elements of a slice, which are frozen then
func Fill(what string, slice interface{}, f func(i int) interface{}) {
	v := reflect.ValueOf(slice)
	for i := 0; i < v.Len(); i++ {
		if x := f(i); x != nil {
			v.Index(i).Set(reflect.ValueOf(x))
		}
	}
	if what != "" {
		Freeze(what, slice)
	}
}

// Symbolic tells whether the verifier runs the lemma
func Symbolic() bool { return false }

// And and Or do not distinguish cases
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }

// Assuming has the verifier take calls of the function callee for calls of contract, which has the same parameters and
// results. The compiled lemma calls the function itself.
func Assuming(callee, contract interface{}) bool { return false }

// Later is the sum of f(0) to f(n-1), which may refer to values that are not known yet. It must be one formula for all.
func Later(n int, f func(i int) *big.Int) func() *big.Int { return LaterBut(n, f, -1, nil) }

// LaterBut is such a sum with another value in place of f(except), or none
func LaterBut(n int, f func(i int) *big.Int, except int, own func() *big.Int) func() *big.Int {
	var known *big.Int
	return func() *big.Int {
		if known != nil {
			return new(big.Int).Set(known)
		}
		s := new(big.Int)
		defer func() { known = new(big.Int).Set(s) }()
		for i := 0; i < n; i++ {
			if i != except {
				s.Add(s, f(i))
			} else if own != nil {
				s.Add(s, own())
			}
		}
		return s
	}
}

// Format is what the lemma takes for granted about the format of messages; if it does not hold, the lemma says nothing
func Format(ok bool) {
	if !ok {
		panic(skip{})
	}
}

// Numbers are lo to hi numbers, of any value between min and max (nil: unlimited)
func Numbers(k string, lo, hi int, min, max *big.Int) []*big.Int {
	n := int(input("length of "+k, func() *big.Int {
		m := []int{4, 20, 300}[rng.Intn(3)]
		if large {
			m = 1 << uint(rng.Intn(17))
		}
		if lo+m > hi {
			m = hi - lo
		}
		return big.NewInt(int64(lo) + rng.Int63n(int64(m)+1))
	}).Int64())
	r := make([]*big.Int, n)
	for i := range r {
		r[i] = input(fmt.Sprintf("%s[%d]", k, i), func() *big.Int {
			if min != nil && max != nil {
				x := new(big.Int).Rand(rng, new(big.Int).Add(new(big.Int).Sub(max, min), big.NewInt(1)))
				return x.Add(x, min)
			}
			x := randNat()
			if min == nil && rng.Intn(3) == 0 {
				x.Neg(x)
			}
			return x
		})
	}
	return r
}

// Value is the value of the polynomial with the coefficients f at x; the code may reduce partial results modulo q
func Value(f []*big.Int, x, q *big.Int) *big.Int {
	v, p := new(big.Int), big.NewInt(1)
	for _, c := range f {
		v.Add(v, new(big.Int).Mul(c, p))
		p = new(big.Int).Mul(p, x)
		v.Mod(v, q)
		p.Mod(p, q)
	}
	return v
}

// Products are the products of -(a+1) and of index-a over the elements a other than index
func Products(index *big.Int, args []*big.Int) (num, den *big.Int) {
	num, den = big.NewInt(1), big.NewInt(1)
	for _, a := range args {
		if a.Cmp(index) == 0 {
			continue
		}
		num.Mul(num, new(big.Int).Neg(new(big.Int).Add(a, big.NewInt(1))))
		den.Mul(den, new(big.Int).Sub(index, a))
	}
	return
}

// Choose is one of 0..k-1; the verifier goes through all of them
func Choose(s string, k int) int { return Int(s, 0, k-1) }

// Bool is any truth value
func Bool(k string) bool { return Int(k, 0, 1) == 1 }

// Bytes is any byte string
func Bytes(k string) []byte {
	k = name(k)
	l := []int{0, 1, 3, 4, 5, 8, 11, 12, 31, 32, 40, 72, 73, 80, 144, 200}[rng.Intn(16)]
	if rng.Intn(8) == 0 {
		l = 1<<uint(6+rng.Intn(11)) + rng.Intn(3) - 1
		if rng.Intn(4) == 0 {
			l = 1<<17 + rng.Intn(1<<17)
		}
	}
	if m, err := strconv.Atoi(model[k+" length"]); err == nil && m >= 0 && m < 1<<25 {
		l = m
	}
	b := make([]byte, l)
	switch rng.Intn(3) {
	case 0:
		rng.Read(b)
	case 1: // plausible lengths
		rng.Read(b)
		for i := 0; i+4 <= l; i += 4 {
			if i < 8 || rng.Intn(12) == 0 {
				copy(b[i:], []byte{0, 0, 0, byte(rng.Intn(40))})
			}
		}
	case 2: // huge lengths
		rng.Read(b)
		for i := 0; i < l && i < 8; i++ {
			b[i] = []byte{0, 255, 128, 0x7f}[rng.Intn(4)]
		}
	}
	inputs[k] = fmt.Sprintf("%x", b)
	return b
}

// BytesNear is any byte string; concretely one that often resembles the given one
func BytesNear(k string, near []byte) []byte {
	b := append([]byte{}, near...)
	switch rng.Intn(7) {
	case 0:
		return Bytes(k)
	case 1:
		b = b[:rng.Intn(len(b)+1)]
	case 2, 3:
		for i := 0; i <= rng.Intn(3) && len(b) > 0; i++ {
			b[rng.Intn(len(b))] ^= byte(1 << rng.Intn(8))
		}
	case 4:
		if len(b) > 8 {
			b[rng.Intn(8)] = byte(rng.Intn(256))
		}
	case 5:
		b = append(b, make([]byte, rng.Intn(5))...)
	}
	inputs[name(k)] = fmt.Sprintf("%x", b)
	return b
}

// Assume restricts attention to executions with c
func Assume(c bool) {
	if !c {
		panic(skip{})
	}
}

// Assert claims c
func Assert(c bool, what string) {
	if !c && known[what] {
		knownSeen[what] = true
		return
	}
	if !c {
		panic(violated{what})
	}
}

// Reached marks a place that some execution must reach
func Reached(what string) {}

// Havoc has calls of a function taken by a weak contract from here on: it returns, and nothing else is known. The
// contract is established elsewhere.
func Havoc(function string) {}

// SteadyClock has every deadline half a second ahead
func SteadyClock() {}

// Concrete is false for the verifier
func Concrete() bool { return true }

// ---- reference group

type aff struct{ x, y *big.Int } // x nil: neutral

func refAdd(a, b aff) aff {
	if a.x == nil {
		return b
	}
	if b.x == nil {
		return a
	}
	var l *big.Int
	if a.x.Cmp(b.x) == 0 {
		if new(big.Int).Mod(new(big.Int).Add(a.y, b.y), p).Sign() == 0 {
			return aff{}
		}
		l = new(big.Int).Mul(a.x, a.x)
		l.Mul(l, big.NewInt(3))
		l.Mul(l, new(big.Int).ModInverse(new(big.Int).Lsh(a.y, 1), p))
	} else {
		d := new(big.Int).Sub(b.x, a.x)
		d.Mod(d, p)
		l = new(big.Int).Sub(b.y, a.y)
		l.Mul(l, d.ModInverse(d, p))
	}
	l.Mod(l, p)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, a.x).Sub(x, b.x).Mod(x, p)
	y := new(big.Int).Sub(a.x, x)
	y.Mul(y, l).Sub(y, a.y).Mod(y, p)
	return aff{x, y}
}

var doubles []aff

func refMul(d *big.Int) aff {
	if doubles == nil {
		q := aff{gx, gy}
		for i := 0; i < 256; i++ {
			doubles = append(doubles, q)
			q = refAdd(q, q)
		}
	}
	d = new(big.Int).Mod(d, n)
	r := aff{}
	for i := 0; i < d.BitLen(); i++ {
		if d.Bit(i) == 1 {
			r = refAdd(r, doubles[i])
		}
	}
	return r
}

// fields finds the two coordinates in a point's representation
func fields(v reflect.Value) []**big.Int {
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		if v.IsNil() {
			return nil
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return nil
	}
	if !v.CanAddr() {
		c := reflect.New(v.Type()).Elem()
		c.Set(v)
		v = c
	}
	var out []**big.Int
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == reflect.TypeOf((*big.Int)(nil)) {
			out = append(out, (**big.Int)(unsafe.Pointer(v.Field(i).UnsafeAddr())))
		}
	}
	if len(out) != 2 {
		return nil
	}
	return out
}

// Point is the group element with logarithm d
func Point(d *big.Int) curve.Point {
	a := refMul(d)
	remember(a, d)
	if a.x == nil {
		return curve.NewSecp256k1Group().Neutral()
	}
	t := reflect.TypeOf(curve.NewSecp256k1Group().Gen())
	if t.Kind() == reflect.Ptr {
		v := reflect.New(t.Elem())
		f := fields(v)
		*f[0], *f[1] = new(big.Int).Set(a.x), new(big.Int).Set(a.y)
		return v.Interface()
	}
	v := reflect.New(t)
	f := fields(v)
	*f[0], *f[1] = new(big.Int).Set(a.x), new(big.Int).Set(a.y)
	return v.Elem().Interface()
}

func coords(q curve.Point) (a aff, ok bool) {
	if q == nil {
		return aff{}, false
	}
	f := fields(reflect.ValueOf(q))
	if f == nil {
		return aff{}, false
	}
	if *f[0] == nil && *f[1] == nil {
		return aff{}, true
	}
	if *f[0] == nil || *f[1] == nil {
		return aff{}, false
	}
	return aff{*f[0], *f[1]}, true
}

func remember(a aff, d *big.Int) {
	k := "neutral"
	if a.x != nil {
		k = a.x.String() + "," + a.y.String()
	}
	logs[k] = new(big.Int).Mod(d, n)
}

// IsPoint tells whether q is the group element with logarithm d
func IsPoint(q curve.Point, d *big.Int) bool {
	a, ok := coords(q)
	if !ok {
		return false
	}
	b := refMul(d)
	remember(b, d)
	if a.x == nil || b.x == nil {
		return a.x == nil && b.x == nil
	}
	return a.x.Cmp(b.x) == 0 && a.y.Cmp(b.y) == 0
}

// IsElement tells whether q is a group element
func IsElement(q curve.Point) bool {
	a, ok := coords(q)
	if !ok || a.x == nil {
		return ok
	}
	if a.x.Sign() < 0 || a.y.Sign() < 0 || a.x.Cmp(p) >= 0 || a.y.Cmp(p) >= 0 {
		return false
	}
	l := new(big.Int).Mul(a.y, a.y)
	r := new(big.Int).Mul(a.x, a.x)
	r.Mul(r, a.x).Add(r, big.NewInt(7)).Sub(r, l).Mod(r, p)
	return r.Sign() == 0
}

// LogOf is the logarithm of q
func LogOf(q curve.Point) *big.Int {
	a, ok := coords(q)
	if !ok {
		panic(violated{"a group element"})
	}
	k := "neutral"
	if a.x != nil {
		k = a.x.String() + "," + a.y.String()
	} else {
		return new(big.Int)
	}
	d, ok := logs[k]
	if !ok {
		panic(skip{})
	}
	return new(big.Int).Set(d)
}

// Hash is the specified hash to the scalars
func Hash(b []byte) *big.Int {
	h := hmac.New(sha256.New, []byte("ThresholdECDSA"))
	h.Write(b)
	prk := h.Sum(nil)
	var out, prev []byte
	for i := byte(1); len(out) < 48; i++ {
		h := hmac.New(sha256.New, prk)
		h.Write(prev)
		h.Write([]byte{'H', '2', 'F', 0, 1})
		h.Write([]byte{i})
		prev = h.Sum(nil)
		out = append(out, prev...)
	}
	x := new(big.Int).SetBytes(out[:48])
	return x.Mod(x, n)
}

// Enc is the specified encoding of the group element with logarithm d
func Enc(d *big.Int) []byte {
	a := refMul(d)
	remember(a, d)
	if a.x == nil {
		return make([]byte, 4)
	}
	x, y := a.x.Bytes(), a.y.Bytes()
	b := make([]byte, 8)
	binary.BigEndian.PutUint32(b, uint32(len(x)))
	binary.BigEndian.PutUint32(b[4:], uint32(len(y)))
	return append(append(b, x...), y...)
}

// ---- frames

// Freeze claims that nothing reachable from the values changes from here on
func Freeze(what string, vs ...interface{}) {
	for _, v := range vs {
		snaps = append(snaps, snap{what, v, dump(v)})
	}
}

func dump(v interface{}) string {
	var sb strings.Builder
	walk(&sb, reflect.ValueOf(v), map[unsafe.Pointer]bool{}, 0)
	return sb.String()
}

func walk(sb *strings.Builder, v reflect.Value, seen map[unsafe.Pointer]bool, d int) {
	if d > 12 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			sb.WriteString("nil;")
			return
		}
		if v.Type() == reflect.TypeOf((*big.Int)(nil)) {
			sb.WriteString((*big.Int)(v.UnsafePointer()).String() + ";")
			return
		}
		if seen[v.UnsafePointer()] {
			return
		}
		seen[v.UnsafePointer()] = true
		walk(sb, v.Elem(), seen, d+1)
	case reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil;")
			return
		}
		fmt.Fprintf(sb, "%v:", v.Elem().Type())
		walk(sb, v.Elem(), seen, d+1)
	case reflect.Struct:
		sb.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			walk(sb, v.Field(i), seen, d+1)
		}
		sb.WriteString("}")
	case reflect.Slice, reflect.Array:
		fmt.Fprintf(sb, "[%d:", v.Len())
		for i := 0; i < v.Len(); i++ {
			walk(sb, v.Index(i), seen, d+1)
		}
		sb.WriteString("]")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(sb, "%d;", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprintf(sb, "%d;", v.Uint())
	case reflect.String:
		fmt.Fprintf(sb, "%q;", v.String())
	case reflect.Bool:
		fmt.Fprintf(sb, "%v;", v.Bool())
	}
}

// ---- streams

type chunks struct {
	b []byte
}

func (c *chunks) Read(q []byte) (int, error) {
	if len(q) == 0 {
		return 0, nil
	}
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	k := 1 + rng.Intn(len(c.b))
	if rng.Intn(3) == 0 {
		k = 1
	}
	if k > len(q) {
		k = len(q)
	}
	copy(q, c.b[:k])
	c.b = c.b[k:]
	if len(c.b) == 0 && rng.Intn(2) == 0 {
		return k, io.EOF
	}
	return k, nil
}

// Reader delivers b in pieces of any size
func Reader(b []byte) io.Reader { return &chunks{append([]byte{}, b...)} }

// Rest is what a reader has not delivered yet
func Rest(r io.Reader) []byte {
	switch x := r.(type) {
	case *chunks:
		return append([]byte{}, x.b...)
	case *bytes.Buffer:
		return append([]byte{}, x.Bytes()...)
	}
	panic("gv.Rest")
}

type writer struct {
	b      bytes.Buffer
	failed bool
	left   int
}

func (w *writer) Write(b []byte) (int, error) {
	if w.left == 0 {
		w.failed = true
		return 0, fmt.Errorf("write failed")
	}
	w.left--
	return w.b.Write(b)
}

// Writer is a writer that may fail at any time
func Writer() io.Writer { return &writer{left: rng.Intn(6) - 1} }

// Written is what a writer has received
func Written(w io.Writer) []byte { return append([]byte{}, w.(*writer).b.Bytes()...) }

// Failed tells whether a write failed
func Failed(w io.Writer) bool { return w.(*writer).failed }

// Equal compares byte strings
func Equal(a, b []byte) bool { return bytes.Equal(a, b) }

// ---- randomness

type recorder struct{}

func (recorder) Read(b []byte) (int, error) {
	rng.Read(b)
	if len(b) == 32 && rng.Intn(10) == 0 { // values near the ends of the range
		x := []*big.Int{big.NewInt(0), big.NewInt(1), new(big.Int).Sub(n, big.NewInt(1)), new(big.Int).Sub(n, big.NewInt(2))}[rng.Intn(4)]
		c := x.FillBytes(make([]byte, 32))
		for _, r := range reads { // each at most once, draws are told apart by their values
			if bytes.Equal(r, c) {
				c = nil
				break
			}
		}
		if c != nil {
			copy(b, c)
		}
	}
	reads = append(reads, append([]byte{}, b...))
	return len(b), nil
}

// DrawCount counts the random draws so far
func DrawCount() int {
	return len(reads)
}

// Drawn is the value of a random draw
func Drawn(i int) *big.Int { return new(big.Int).SetBytes(reads[i]) }

// DrawnBelow: the random draw is uniform below m
func DrawnBelow(i int, m *big.Int) bool {
	return i < len(reads) && len(reads[i]) == (m.BitLen()+7)/8
}

// FreshDraw is the index, at least from, of the uniform draw from all scalars that x equals modulo the order, or -1
func FreshDraw(from int, x *big.Int) int {
	x = new(big.Int).Mod(x, n)
	for i, r := range reads {
		if i >= from && len(r) == 32 && new(big.Int).SetBytes(r).Cmp(x) == 0 {
			return i
		}
	}
	return -1
}

// ---- driver

// assertions that are known not to hold
var known, knownSeen = map[string]bool{}, map[string]bool{}

type report struct {
	Lemma   string            `json:"lemma"`
	What    string            `json:"what"`
	Trial   int               `json:"trial"`
	Seed    int64             `json:"seed"`
	Inputs  map[string]string `json:"inputs"`
	Stack   string            `json:"stack,omitempty"`
	Trials  int               `json:"trials"`
	Skipped int               `json:"skipped"`
}

func trial(f func(), seed int64, m map[string]string) (what, frame string, skipped bool) {
	rng = rand.New(rand.NewSource(seed))
	model, seen, inputs, snaps, reads, logs, earlier = m, map[string]int{}, map[string]string{}, nil, nil, map[string]*big.Int{}, nil
	nthBytes = map[string][]byte{}
	nthKeys = map[string]*paillier.PrivateKey{}
	if model == nil {
		model = map[string]string{}
	}
	crand.Reader = recorder{}
	Reset()
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			r := recover()
			for _, s := range snaps {
				if dump(s.v) != s.s {
					frame = "frame: " + s.name + " was changed"
				}
			}
			switch r := r.(type) {
			case nil:
			case skip:
				skipped = true
			case violated:
				what = r.what
			default:
				what = fmt.Sprintf("panic: %v", r)
			}
		}()
		f()
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		what = "no progress within 60 s"
		if large {
			what, skipped = "", true // too large
		}
	}
	return
}

// Reset clears the state of other parts of this package before a trial
var Reset = func() {}

// Main runs lemmas concretely
func Main(lemmas map[string]func()) {
	which := flag.String("lemma", "", "lemma")
	seed := flag.Int64("seed", 1, "seed")
	trials := flag.Int("trials", 400, "trials")
	limit := flag.Duration("time", 25*time.Second, "time limit")
	models := flag.String("models", "", "JSON list of solver models")
	frames := flag.String("frames", "", "no: ignore changed operands, only: look at nothing else")
	out := flag.String("out", "", "report file")
	flag.Func("known", "an assertion that is known not to hold", func(s string) error { known[s] = true; return nil })
	flag.BoolVar(&large, "large", false, "try large sizes")
	flag.Parse()
	defer func() {
		for k := range knownSeen {
			fmt.Println("known:", k)
		}
	}()
	var ms []map[string]string
	if *models != "" {
		b, _ := os.ReadFile(*models)
		json.Unmarshal(b, &ms)
	}
	t0 := time.Now()
	for _, l := range strings.Split(*which, ",") {
		f := lemmas[l]
		if f == nil {
			fmt.Println("no lemma", l)
			os.Exit(3)
		}
		r := report{Lemma: l, Seed: *seed}
		for i := 0; i < *trials && time.Since(t0) < *limit; i++ {
			var m map[string]string
			if i < 4*len(ms) {
				m = ms[i%len(ms)]
			}
			what, frame, sk := trial(f, *seed*1000003+int64(i), m)
			r.Trials++
			if sk {
				r.Skipped++
			}
			if *frames == "only" || *frames == "" && what == "" {
				what = frame
			}
			if what != "" {
				r.What, r.Trial, r.Inputs = what, i, inputs
				b, _ := json.MarshalIndent(r, "", "  ")
				fmt.Println(string(b))
				if *out != "" {
					os.WriteFile(*out, b, 0o644)
				}
				os.Exit(1)
			}
		}
		fmt.Printf("%s: %d trials, %d outside the assumptions, no failure\n", l, r.Trials, r.Skipped)
	}
}

var keyPairs []*paillier.PrivateKey

// Paillier is any key pair whose modulus exceeds twice the square of the group order
func Paillier(k string) (*paillier.PrivateKey, *paillier.PublicKey) {
	k = name(k)
	i := rng.Intn(6)
	for len(keyPairs) <= i {
		priv, _, err := paillier.GenerateKeyPair(514+len(keyPairs)*2, time.Minute)
		if err != nil {
			panic(skip{})
		}
		keyPairs = append(keyPairs, priv)
	}
	priv := *keyPairs[i]
	pub := priv.PublicKey
	inputs[k] = pub.N.String()
	return &priv, &pub
}

// NthPaillier is the element with the given index of a sequence of key pairs
func NthPaillier(k string, i int) (*paillier.PrivateKey, *paillier.PublicKey) {
	k = fmt.Sprintf("%s[%d]", k, i)
	if nthKeys[k] == nil {
		nthKeys[k], _ = Paillier(k)
	}
	priv := *nthKeys[k]
	pub := priv.PublicKey
	return &priv, &pub
}

var nthKeys = map[string]*paillier.PrivateKey{}

// Cipher is a ciphertext of x modulo the modulus of the key
func Cipher(pub *paillier.PublicKey, x *big.Int) *big.Int {
	c, err := pub.Encrypt(new(big.Int).Mod(x, pub.N))
	if err != nil {
		panic(err)
	}
	return c
}

// Signed is the number of smallest absolute value that c is a ciphertext of
func Signed(priv *paillier.PrivateKey, c *big.Int) *big.Int {
	x, err := priv.Decrypt(c)
	if err != nil {
		return new(big.Int)
	}
	if new(big.Int).Lsh(x, 1).Cmp(priv.N) > 0 {
		x.Sub(x, priv.N)
	}
	return x
}

// ---- programs

// Text is any string without the given characters; a space stands for all white space
func Text(k, excl string) string {
	k = name(k)
	l := []int{0, 1, 1, 2, 3, 4, 8, 12, 40}[rng.Intn(9)]
	if rng.Intn(40) == 0 {
		l = 1<<16 + rng.Intn(5) - 2
	}
	if m, err := strconv.Atoi(model[k+" length"]); err == nil && m >= 0 && m < 1<<22 {
		l = m
	}
	alphabet := []string{"AQz09+/=", "0123456789", "AQ|:= -1\n\t", "0-+:|.zA=\x00\x7f"}[rng.Intn(4)]
	var b []byte
	for len(b) < l {
		c := alphabet[rng.Intn(len(alphabet))]
		if strings.IndexByte(excl, c) >= 0 || strings.IndexByte(excl, ' ') >= 0 && strings.IndexByte(" \t\n\v\f\r", c) >= 0 {
			c = 'A'
		}
		b = append(b, c)
	}
	inputs[k] = fmt.Sprintf("%q", tail(b))
	return string(b)
}

// TextNear is any string without the given characters; concretely one that often resembles the given one
func TextNear(k, excl, near string) string {
	if rng.Intn(4) == 0 {
		return Text(k, excl)
	}
	b := []byte(near)
	switch rng.Intn(8) {
	case 0:
		b = b[:rng.Intn(len(b)+1)]
	case 1:
		if len(b) > 0 {
			b[rng.Intn(len(b))] = "A0=+-/:z"[rng.Intn(8)]
		}
	case 2:
		b = append(b, "A0=+-/:z"[rng.Intn(8)])
	}
	for i, c := range b {
		if strings.IndexByte(excl, c) >= 0 || strings.IndexByte(excl, ' ') >= 0 && strings.IndexByte(" \t\n\v\f\r", c) >= 0 {
			b[i] = 'A'
		}
	}
	inputs[name(k)] = fmt.Sprintf("%q", tail(b))
	return string(b)
}

func tail(b []byte) []byte {
	if len(b) > 100 {
		return b[:100]
	}
	return b
}

var generated []*paillier.PrivateKey

// KeyPair is the i-th key pair that was generated
func KeyPair(i int) (n, lambda, phi *big.Int) {
	k := generated[i]
	return k.N, k.LambdaN, k.PhiN
}

// KeyPairs counts the key pairs that were generated
func KeyPairs() int { return len(generated) }

// OnServer has f see the servers that are started
func OnServer(f func(local string, all []string)) { tcp.Hook = f }

// Shielded runs f in a directory of its own, without output
func Shielded(f func()) {
	dir, err := os.MkdirTemp("", "gv")
	if err != nil {
		panic(skip{})
	}
	old, _ := os.Getwd()
	fd1, _ := syscall.Dup(1)
	fd2, _ := syscall.Dup(2)
	os.Chdir(dir)
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	syscall.Dup2(int(null.Fd()), 1)
	syscall.Dup2(int(null.Fd()), 2)
	generated = nil
	paillier.Generated = func(k *paillier.PrivateKey) { generated = append(generated, k) }
	defer func() {
		syscall.Dup2(fd1, 1)
		syscall.Dup2(fd2, 2)
		syscall.Close(fd1)
		syscall.Close(fd2)
		null.Close()
		os.Chdir(old)
		os.RemoveAll(dir)
	}()
	f()
}
