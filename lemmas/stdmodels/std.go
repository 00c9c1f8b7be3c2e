// Lemmas about the standard library: they hold for the verifier's models of it, and hold (or not) for the library itself
// when they are run; tools/models.sh does both.
package main

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"lemmas/gv"
)

var lemmas = map[string]func(){
	"BytesCompare": BytesCompare,
	"BytesJoin":    BytesJoin,
	"MultiReader":  MultiReader,
	"LimitReader":  LimitReader,
	"CopyN":        CopyN,
	"ReadStruct":   ReadStruct,
	"WriteStruct":  WriteStruct,
	"ReadArr":      ReadArr,
	"AppendInt":    AppendInt,
	"BitLen":       BitLen,
	"BitLen2":      BitLen2,
	"ErrorsIs":     ErrorsIs,
	"ErrorsAs":     ErrorsAs,
	"SortSlice":    SortSlice,
	"StringsStuff": StringsStuff,
	"Once":         Once,
	"RW":           RW,
	"Atomic":       Atomic,
	"Select":       Select,
	"SyncMap":      SyncMap,
	"Maps":         Maps,
	"Base64":       Base64,
	"Strconv":      Strconv,
	"BigStuff":     BigStuff,
	"ReadFile":     ReadFile,
	"BufReader":    BufReader,
	"BufWriter":    BufWriter,
	"Timer":        Timer,
	"Pipe":         Pipe,
	"Pool":         Pool,
	"TeeReader":    TeeReader,
	"Recover":      Recover,
	"Generic":      Generic,
	"ContextLike":  ContextLike,
	"Scanner":      Scanner,
	"Stringer":     Stringer,
}

func main() { gv.Main(lemmas) }

func BytesCompare() {
	a, b := gv.Nat("a").Bytes(), gv.Nat("b").Bytes()
	gv.Assert((bytes.Compare(a, b) == 0) == bytes.Equal(a, b), "compare")
}
func BytesJoin() {
	a, b := gv.Nat("a").Bytes(), gv.Nat("b").Bytes()
	j := bytes.Join([][]byte{a, b}, nil)
	gv.Assert(bytes.Equal(j, append(append([]byte{}, a...), b...)), "join")
}
func MultiReader() {
	a, b := gv.Bytes("a"), gv.Bytes("b")
	r := io.MultiReader(bytes.NewReader(a), bytes.NewReader(b))
	d, err := io.ReadAll(r)
	gv.Assert(err == nil && bytes.Equal(d, append(append([]byte{}, a...), b...)), "multi")
}
func LimitReader() {
	a := gv.Bytes("a")
	r := io.LimitReader(bytes.NewReader(a), 4)
	d := make([]byte, 4)
	_, err := io.ReadFull(r, d)
	gv.Assert((err == nil) == (len(a) >= 4), "limit")
}
func CopyN() {
	a := gv.Bytes("a")
	var w bytes.Buffer
	n, err := io.CopyN(&w, bytes.NewReader(a), 4)
	gv.Assert((err == nil) == (len(a) >= 4) && (err != nil || n == 4), "copyn")
}
func ReadStruct() {
	a := gv.Bytes("a")
	var h struct{ A, B uint32 }
	err := binary.Read(bytes.NewReader(a), binary.BigEndian, &h)
	gv.Assert((err == nil) == (len(a) >= 8), "read struct")
	if err == nil {
		gv.Assert(h.A == binary.BigEndian.Uint32(a), "value")
	}
}
func WriteStruct() {
	h := struct {
		A uint16
		B uint64
	}{7, 1 << 40}
	var w bytes.Buffer
	err := binary.Write(&w, binary.LittleEndian, h)
	gv.Assert(err == nil && w.Len() == 10 && binary.LittleEndian.Uint64(w.Bytes()[2:]) == 1<<40, "write struct")
}
func ReadArr() {
	a := gv.Bytes("a")
	var h [2]uint32
	err := binary.Read(bytes.NewReader(a), binary.BigEndian, &h)
	gv.Assert((err == nil) == (len(a) >= 8), "read array")
}
func AppendInt() {
	n := gv.Below("n", big.NewInt(1<<16)).Uint64()
	b := binary.LittleEndian.AppendUint16(nil, uint16(n))
	gv.Assert(binary.LittleEndian.Uint16(b) == uint16(n), "append")
}
func BitLen() {
	a := gv.Nat("a")
	n := (a.BitLen() + 7) / 8
	b := a.FillBytes(make([]byte, n))
	gv.Assert(bytes.Equal(b, a.Bytes()), "fill")
}
func BitLen2() {
	a := gv.Nat("a")
	n := (a.BitLen() + 7) >> 3
	gv.Assert(len(a.Bytes()) == n, "len")
}
func ErrorsIs() {
	e := errors.New("x")
	w := fmt.Errorf("wrapped: %w", e)
	gv.Assert(errors.Is(w, e) && !errors.Is(w, io.EOF), "is")
	gv.Assert(errors.Unwrap(w) == e, "unwrap")
}

type myErr struct{ n int }

func (m *myErr) Error() string { return "my" }

func ErrorsAs() {
	var e error = &myErr{3}
	var m *myErr
	gv.Assert(errors.As(e, &m) && m.n == 3, "as")
	gv.Assert(errors.As(fmt.Errorf("w: %w", e), &m) && m.n == 3, "as")
}
func SortSlice() {
	x := []int{3, 1, 2}
	sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
	gv.Assert(x[0] == 1 && x[2] == 3, "sort")
	y := []int{3, 1, 2}
	sort.Ints(y)
	gv.Assert(y[0] == 1 && y[2] == 3, "sort")
}
func StringsStuff() {
	gv.Assert(strings.Join([]string{"a", "b"}, "-") == "a-b", "join")
	x, y, ok := strings.Cut("a|b", "|")
	gv.Assert(ok && x == "a" && y == "b", "cut")
	gv.Assert(strings.TrimSpace(" a ") == "a" && len(strings.Fields(" a b ")) == 2, "fields")
	gv.Assert(strings.HasPrefix("abc", "ab") && strings.Repeat("a", 3) == "aaa", "x")
	var b strings.Builder
	b.WriteString("a")
	b.WriteByte('b')
	gv.Assert(b.String() == "ab", "builder")
}
func Once() {
	var o sync.Once
	n := 0
	for i := 0; i < 3; i++ {
		o.Do(func() { n++ })
	}
	gv.Assert(n == 1, "once")
}
func RW() {
	var m sync.RWMutex
	n := 0
	var wg sync.WaitGroup
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); m.Lock(); n++; m.Unlock() }()
	}
	wg.Wait()
	m.RLock()
	gv.Assert(n == 3, "rw")
	m.RUnlock()
}
func Atomic() {
	var n int64
	var k atomic.Int32
	var wg sync.WaitGroup
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); atomic.AddInt64(&n, 1); k.Add(1) }()
	}
	wg.Wait()
	gv.Assert(atomic.LoadInt64(&n) == 3 && k.Load() == 3, "atomic")
}
func Select() {
	c, d := make(chan int, 1), make(chan struct{})
	go func() { c <- 1; close(d) }()
	n := 0
	for done := false; !done; {
		select {
		case x := <-c:
			n += x
		case <-d:
			done = true
		}
	}
	if n == 0 {
		n += <-c
	}
	gv.Assert(n == 1, "select")
}
func SyncMap() {
	var m sync.Map
	m.Store(1, "a")
	v, ok := m.Load(1)
	gv.Assert(ok && v.(string) == "a", "map")
}
func Maps() {
	m := map[string]int{"a": 1, "b": 2}
	s := 0
	for _, v := range m {
		s += v
	}
	delete(m, "a")
	_, ok := m["a"]
	gv.Assert(s == 3 && !ok && len(m) == 1, "map")
}
func Base64() {
	a := gv.Nat("a").Bytes()
	e := base64.StdEncoding.EncodeToString(a)
	dst := make([]byte, base64.StdEncoding.DecodedLen(len(e)))
	n, err := base64.StdEncoding.Decode(dst, []byte(e))
	gv.Assert(err == nil && bytes.Equal(dst[:n], a), "decode")
	out := make([]byte, base64.StdEncoding.EncodedLen(len(a)))
	base64.StdEncoding.Encode(out, a)
	gv.Assert(string(out) == e, "encode")
}
func Strconv() {
	n := gv.Choose("n", 3)
	s := strconv.Itoa(n)
	u, err := strconv.ParseUint(s, 10, 16)
	gv.Assert(err == nil && int(u) == n, "parse")
	v, err := strconv.ParseInt(s, 10, 64)
	gv.Assert(err == nil && int(v) == n, "parse")
	gv.Assert(strconv.FormatInt(int64(n), 10) == s && fmt.Sprint(n) == s, "format")
}
func BigStuff() {
	a := gv.Nat("a")
	b := new(big.Int).SetUint64(5)
	gv.Assert(b.IsUint64() && b.Uint64() == 5 && b.Int64() == 5, "u64")
	c, ok := new(big.Int).SetString(a.String(), 10)
	gv.Assert(ok && c.Cmp(a) == 0, "string")
	d, ok := new(big.Int).SetString(a.Text(16), 16)
	gv.Assert(ok && d.Cmp(a) == 0, "text")
	gv.Assert(a.CmpAbs(a) == 0 && a.Sign() >= 0, "cmp")
	gv.Assert(new(big.Int).Sqrt(big.NewInt(9)).Int64() == 3, "sqrt")
	q, r := new(big.Int).DivMod(a, b, new(big.Int))
	gv.Assert(new(big.Int).Add(new(big.Int).Mul(q, b), r).Cmp(a) == 0, "divmod")
	q, r = new(big.Int).QuoRem(a, b, new(big.Int))
	gv.Assert(new(big.Int).Add(new(big.Int).Mul(q, b), r).Cmp(a) == 0, "quorem")
	gv.Assert(new(big.Int).Set(a).Bit(0) == uint(new(big.Int).And(a, big.NewInt(1)).Int64()), "bit")
	gv.Assert(new(big.Int).Exp(big.NewInt(3), big.NewInt(4), nil).Int64() == 81, "exp")
	g := new(big.Int).GCD(nil, nil, big.NewInt(12), big.NewInt(18))
	gv.Assert(g.Int64() == 6, "gcd")
}
func ReadFile() {
	f, err := os.Create("f")
	gv.Assume(err == nil)
	f.WriteString("a b\n")
	f.Close()
	b, err := os.ReadFile("f")
	gv.Assert(err != nil || string(b) == "a b\n", "read")
}
func BufReader() {
	r := bufio.NewReader(strings.NewReader("ab\ncd"))
	s, err := r.ReadString('\n')
	gv.Assert(err == nil && s == "ab\n", "line")
	w := bufio.NewWriter(os.Stderr)
	fmt.Fprintf(w, "x")
	w.Flush()
}
func BufWriter() {
	a := gv.Nat("a").Bytes()
	var b bytes.Buffer
	w := bufio.NewWriter(&b)
	w.Write([]byte{1, 2})
	w.Write(a)
	err := w.Flush()
	gv.Assert(err == nil && bytes.Equal(b.Bytes(), append([]byte{1, 2}, a...)), "buffered")
}
func Timer() {
	t := time.NewTimer(time.Second)
	<-t.C
	select {
	case <-time.After(time.Millisecond):
	}
	time.AfterFunc(time.Second, func() {}).Stop()
}
func Pipe() {
	r, w := io.Pipe()
	go func() { w.Write([]byte{1, 2}); w.Close() }()
	b, err := io.ReadAll(r)
	gv.Assert(err == nil && len(b) == 2, "pipe")
}
func Pool() {
	p := sync.Pool{New: func() any { return new(bytes.Buffer) }}
	b := p.Get().(*bytes.Buffer)
	b.Reset()
	b.WriteByte(1)
	p.Put(b)
	gv.Assert(b.Len() == 1, "pool")
}
func TeeReader() {
	a := gv.Bytes("a")
	var w bytes.Buffer
	r := io.TeeReader(bytes.NewReader(a), &w)
	d := make([]byte, 4)
	_, err := io.ReadFull(r, d)
	gv.Assume(err == nil)
	gv.Assert(bytes.Equal(w.Bytes(), a[:4]), "tee")
}
func Recover() {
	err := func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("%v", r)
			}
		}()
		panic("x")
	}()
	gv.Assert(err != nil, "recovered")
}
func Generic() {
	gv.Assert(gmax(3, 4) == 4 && len(gmap([]int{1, 2}, func(i int) string { return "a" })) == 2, "generic")
	s := stack[int]{}
	s.push(3)
	gv.Assert(s.pop() == 3, "stack")
}
func gmax[T int | uint16](a, b T) T {
	if a > b {
		return a
	}
	return b
}
func gmap[A, B any](xs []A, f func(A) B) []B {
	var r []B
	for _, x := range xs {
		r = append(r, f(x))
	}
	return r
}

type stack[T any] struct{ xs []T }

func (s *stack[T]) push(x T) { s.xs = append(s.xs, x) }
func (s *stack[T]) pop() T {
	x := s.xs[len(s.xs)-1]
	s.xs = s.xs[:len(s.xs)-1]
	return x
}
func ContextLike() {
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	ready := false
	go func() { mu.Lock(); ready = true; mu.Unlock(); cond.Broadcast() }()
	mu.Lock()
	for !ready {
		cond.Wait()
	}
	mu.Unlock()
	gv.Assert(ready, "cond")
}
func Scanner() {
	sc := bufio.NewScanner(strings.NewReader("a b c"))
	sc.Split(bufio.ScanWords)
	sc.Buffer(make([]byte, 1024), 1<<20)
	n := 0
	for sc.Scan() {
		n++
	}
	gv.Assert(n == 3, "scanner")
}
func Stringer() {
	s := fmt.Sprintf("%d:%s|%v %x", 5, "a", "b", []byte{1})
	gv.Assert(s == "5:a|b 01", "sprintf")
	gv.Assert(fmt.Sprintln("a") == "a\n", "sprintln")
}
