// Lemmas about the programs under cmd. The packages cmdgen and cmdnode consist of the files of /repo/cmd/gen_keys and
// /repo/cmd/tecdsa, with "package main" replaced by a name that can be imported, and of entry points added by overlay.
package main

import (
	"encoding/base64"
	"math/big"
	"os"
	"strconv"

	"lemmas/cmdgen"
	"lemmas/cmdnode"
	"lemmas/gv"
)

func main() {
	gv.Main(map[string]func(){
		"Keys": Keys, "KeysMany": KeysMany, "KeysAddresses": KeysAddresses,
		"MemberAny": MemberAny, "MemberFields": MemberFields, "CommitteeAny": CommitteeAny, "CommitteeMany": CommitteeMany, "CommitteeCrowd": CommitteeCrowd, "Absent": Absent,
		"NodeStart": NodeStart,
	})
}

func put(file, content string) {
	gv.Assert(os.WriteFile(file, []byte(content), 0o644) == nil, "the file is written")
}

func same(a, b *big.Int) bool { return a != nil && b != nil && a.Cmp(b) == 0 }

// ---- C27

// Keys: from 2 to 20 parties
func Keys() { gv.Shielded(func() { keys(2+gv.Choose("parties", 19), nil) }) }

func KeysMany() { gv.Shielded(func() { keys([]int{64, 100, 300}[gv.Choose("parties", 3)], nil) }) }

func KeysAddresses() {
	gv.Shielded(func() {
		n := 2 + gv.Choose("parties", 3)
		var as []string
		file := ""
		for i := 0; i < n; i++ {
			a := address()
			gv.Assume(len(a) < 20000)
			as = append(as, a)
			file += a
			if i+1 < n || gv.Bool("newline at the end") {
				file += "\n"
			}
		}
		put("addresses", file)
		keys(n, as)
	})
}

// address is any text with one to three colons
func address() string {
	a := gv.TextNear("host", " |:", "localhost") + ":"
	for i := gv.Choose("further colons", 3); i > 0; i-- {
		a += gv.Text("host", " |:") + ":"
	}
	return a + gv.TextNear("port", " |:", "80")
}

func keys(n int, addresses []string) {
	if addresses == nil {
		cmdgen.VMain(strconv.Itoa(n))
		for i := 0; i < n; i++ {
			addresses = append(addresses, "127.0.0.1:"+strconv.Itoa(10000+i))
		}
	} else {
		cmdgen.VMain(strconv.Itoa(n), "addresses")
	}
	if gv.KeyPairs() < n {
		gv.Reached("a key could not be generated")
		return
	}
	gv.Assert(gv.KeyPairs() == n, "one key for each party is generated")
	used := make([]bool, n)
	for pid := 0; pid < n; pid++ {
		m, lambda, phi, p, err := cmdnode.VMember(strconv.Itoa(pid) + ".pk")
		gv.Assert(err == nil, "the key file of each party is accepted")
		gv.Assert(p == pid, "the key file names its party")
		N, l, f := gv.KeyPair(pid)
		gv.Assert(same(m, N), "the modulus is the generated one")
		gv.Assert(same(lambda, l), "lambda is the generated one")
		gv.Assert(same(phi, f), "phi is the generated one")
		used[pid] = true
	}
	ns, as, err := cmdnode.VCommittee("keys_addrs")
	gv.Assert(err == nil, "the committee file is accepted")
	gv.Assert(len(ns) == n && len(as) == n, "the committee has all parties")
	for pid := 0; pid < n; pid++ {
		N, _, _ := gv.KeyPair(pid)
		gv.Assert(same(ns[pid], N), "the committee has the public key of each party")
		gv.Assert(as[pid] == addresses[pid], "the committee has the address of each party")
	}
	gv.Reached("the end")
}

// ---- C28

// specKey cuts three fields, each with its length in two bytes
func specKey(data []byte) (xs [3]*big.Int, ok bool) {
	for i := range xs {
		if len(data) < 2 {
			return xs, false
		}
		l := int(data[0]) + 256*int(data[1])
		if len(data)-2 < l {
			return xs, false
		}
		xs[i] = new(big.Int).SetBytes(data[2 : 2+l])
		data = data[2+l:]
	}
	return xs, len(data) == 0
}

const longest = 64 * 1024 // of a word

// specMember tells what the words of a key file mean
func specMember(words []string) (xs [3]*big.Int, pid int, ok bool) {
	if len(words) != 2 || len(words[0]) >= longest || len(words[1]) >= longest {
		return xs, 0, false
	}
	data, err := base64.StdEncoding.DecodeString(words[0])
	if err != nil {
		return xs, 0, false
	}
	xs, ok = specKey(data)
	if !ok {
		return xs, 0, false
	}
	pid, err = strconv.Atoi(words[1])
	return xs, pid, err == nil
}

func checkMember(words []string) {
	n, lambda, phi, pid, err := cmdnode.VMember("member")
	xs, p, ok := specMember(words)
	if !ok {
		gv.Assert(err != nil, "a malformed key file is rejected")
		gv.Reached("rejected")
		return
	}
	gv.Assert(err == nil, "a well-formed key file is accepted")
	gv.Assert(same(n, xs[0]), "the modulus is the one in the file")
	gv.Assert(same(lambda, xs[1]), "lambda is the one in the file")
	gv.Assert(same(phi, xs[2]), "phi is the one in the file")
	gv.Assert(pid == p, "the party number is the one in the file")
	gv.Reached("accepted")
}

var spaces = []string{" ", "\n", "\t ", " \r\n"}

func join(words []string) string {
	s := ""
	if gv.Bool("space at the beginning") {
		s = " "
	}
	for i, w := range words {
		if i > 0 {
			s += spaces[gv.Choose("space", len(spaces))]
		}
		s += w
	}
	if gv.Bool("newline at the end") {
		s += "\n"
	}
	return s
}

// MemberAny: any words
func MemberAny() {
	gv.Shielded(func() {
		var words []string
		for i := gv.Choose("words", 4); i > 0; i-- {
			near := "17"
			if len(words) == 0 {
				near = "AgADBAEABQEABg==" // 0x0403, 5, 6
			}
			w := gv.TextNear("word", " ", near)
			gv.Assume(len(w) > 0)
			words = append(words, w)
		}
		put("member", join(words))
		checkMember(words)
	})
}

func field(x *big.Int) []byte {
	b := x.Bytes()
	return append([]byte{byte(len(b)), byte(len(b) >> 8)}, b...)
}

// MemberFields: any data in place of the key
func MemberFields() {
	gv.Shielded(func() {
		var near []byte
		for _, k := range []string{"n", "lambda", "phi"} {
			x := gv.Nat(k)
			gv.Assume(len(x.Bytes()) <= 512)
			near = append(near, field(x)...)
		}
		data := gv.BytesNear("data", near)
		gv.Assume(len(data) < 40000)
		words := []string{base64.StdEncoding.EncodeToString(data), strconv.Itoa(gv.Int("pid", -1000000, 1000000))}
		gv.Assume(len(data) > 0)
		put("member", join(words))
		checkMember(words)
	})
}

// specCommittee tells what the entries of a committee file mean; an entry is given by its parts, cut at every "|"
type entry struct {
	word  string
	key   string
	addr  string
	bars  int
	colon bool
}

func checkCommittee(es []entry) {
	var keys []*big.Int
	ok := len(es) >= 2
	for _, e := range es {
		data, err := base64.StdEncoding.DecodeString(e.key)
		if e.bars != 1 || err != nil || e.key == "" || e.addr == "" || !e.colon || len(e.word) >= longest {
			ok = false
			break
		}
		keys = append(keys, new(big.Int).SetBytes(data))
	}
	ns, as, err := cmdnode.VCommittee("committee")
	if !ok {
		gv.Assert(err != nil, "a malformed committee file is rejected")
		gv.Reached("rejected")
		return
	}
	gv.Assert(err == nil, "a well-formed committee file is accepted")
	gv.Assert(len(ns) == len(es) && len(as) == len(es), "all entries are read")
	for i, e := range es {
		gv.Assert(same(ns[i], keys[i]), "the keys are those in the file, in order")
		gv.Assert(as[i] == e.addr, "the addresses are those in the file, in order")
	}
	gv.Reached("accepted")
}

// anyEntry has up to most separators
func anyEntry(most int) entry {
	var e entry
	seps := gv.Choose("separators", most+1)
	part := gv.TextNear("part", " |:", "AQID")
	e.word = part
	e.key = part
	for i := 0; i < seps; i++ {
		part = gv.Text("part", " |:")
		sep := ":"
		if gv.Bool("bar") {
			sep = "|"
			e.bars++
		}
		e.word += sep + part
		switch {
		case sep == "|" && e.bars == 1:
			e.addr = part
		case e.bars == 0:
			e.key += sep + part
		default:
			if sep == ":" {
				e.colon = true
			}
			e.addr += sep + part
		}
	}
	return e
}

// goodEntry is well-formed, with any key and any address
func goodEntry() entry {
	k := gv.Nat("key")
	gv.Assume(len(k.Bytes()) <= 512)
	gv.Assume(k.Sign() > 0)
	e := entry{key: base64.StdEncoding.EncodeToString(k.Bytes()), bars: 1, colon: true}
	e.addr = address()
	e.word = e.key + "|" + e.addr
	return e
}

func putCommittee(es []entry) {
	s := ""
	for _, e := range es {
		s += e.word + "\n"
	}
	put("committee", s)
}

// CommitteeAny: a malformed or well-formed entry among well-formed ones, at any place
func CommitteeAny() {
	gv.Shielded(func() {
		n := 1 + gv.Choose("entries", 3)
		at := gv.Choose("place", n)
		var es []entry
		for i := 0; i < n; i++ {
			if i == at {
				e := anyEntry(3)
				gv.Assume(len(e.word) > 0)
				es = append(es, e)
			} else {
				es = append(es, goodEntry())
			}
		}
		putCommittee(es)
		checkCommittee(es)
	})
}

// CommitteeMany: well-formed entries of any length, or none
func CommitteeMany() {
	gv.Shielded(func() {
		var es []entry
		for i := gv.Choose("entries", 6); i > 0; i-- {
			es = append(es, goodEntry())
		}
		putCommittee(es)
		checkCommittee(es)
	})
}

// CommitteeCrowd: more entries, one of them malformed or not
func CommitteeCrowd() {
	gv.Shielded(func() {
		n := []int{20, 65, 300}[gv.Choose("entries", 3)]
		at := n
		if gv.Choose("malformed", 2) == 1 {
			at = []int{0, n / 2, n - 1}[gv.Choose("place", 3)]
		}
		var es []entry
		for i := 0; i < n; i++ {
			switch {
			case i == at:
				es = append(es, entry{word: "AQID", key: "AQID"})
			case i == n/2+1:
				es = append(es, goodEntry())
			default:
				e := entry{key: base64.StdEncoding.EncodeToString(big.NewInt(int64(i + 1)).Bytes()), bars: 1, colon: true, addr: "host:" + strconv.Itoa(i)}
				e.word = e.key + "|" + e.addr
				es = append(es, e)
			}
		}
		putCommittee(es)
		checkCommittee(es)
	})
}

// Absent: files that are not there
func Absent() {
	gv.Shielded(func() {
		_, _, _, _, err := cmdnode.VMember("no such file")
		gv.Assert(err != nil, "an absent key file is an error")
		_, _, _, _, err = cmdnode.VMember("")
		gv.Assert(err != nil, "no key file is an error")
		_, _, err = cmdnode.VCommittee("no such file")
		gv.Assert(err != nil, "an absent committee file is an error")
		_, _, err = cmdnode.VCommittee("")
		gv.Assert(err != nil, "no committee file is an error")
	})
}

// NodeStart: the node starts with what the files say, or not at all
func NodeStart() {
	gv.Shielded(func() {
		ok := true
		pid := gv.Int("pid", -1<<40, 1<<40)
		if gv.Concrete() && gv.Bool("near") {
			pid = gv.Int("pid near", -1, 3)
		}
		var near []byte
		for _, x := range []*big.Int{gv.Nat("n"), gv.Nat("lambda"), gv.Nat("phi")} {
			gv.Assume(len(x.Bytes()) <= 512)
			near = append(near, field(x)...)
		}
		switch gv.Choose("key file", 4) {
		case 0:
			put("member", base64.StdEncoding.EncodeToString(near)+" "+strconv.Itoa(pid)+"\n")
		case 1:
			ok = false
			gv.Assume(len(near) > 6)
			put("member", base64.StdEncoding.EncodeToString(near[:len(near)-1])+" "+strconv.Itoa(pid)+"\n")
		case 2:
			ok = false
			put("member", base64.StdEncoding.EncodeToString(near)+"\n")
		case 3:
			ok = false
		}
		var es []entry
		n := gv.Choose("entries", 4)
		for i := 0; i < n; i++ {
			e := goodEntry()
			gv.Assume(len(e.word) < longest)
			es = append(es, e)
		}
		switch gv.Choose("committee file", 3) {
		case 0:
			putCommittee(es)
		case 1:
			ok = false
			es = append(es, entry{word: "AQ==|"})
			putCommittee(es)
		case 2:
			ok = false
		}
		started := 0
		var local string
		var all []string
		gv.OnServer(func(l string, as []string) {
			started++
			local, all = l, as
		})
		cmdnode.VMain("-pk", "member", "-keys_addrs", "committee", "-startTime", "Mon-Jan--2-15:04:05-UTC-2006", "-roundDuration", "1s")
		if !ok || n < 2 || pid < 0 || pid >= n {
			gv.Assert(started == 0, "a node does not start with a malformed or inconsistent file")
			gv.Reached("no start")
			return
		}
		gv.Assert(started == 1, "a node starts with well-formed files")
		gv.Assert(len(all) == n, "a node knows the addresses of all parties")
		for i := 0; i < n; i++ {
			gv.Assert(all[i] == es[i].addr, "a node has the addresses of the committee file, in order")
			if i == pid {
				gv.Assert(local == es[i].addr, "a node uses its own address")
			}
		}
		gv.Reached("start")
	})
}
