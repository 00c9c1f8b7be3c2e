prop='C18'
edits=[('pkg/arith/distributed_secret.go', '\tcheck := func(pid uint16, data []byte) error {\n\t\t// TODO: check zkpok\n\t\tsecrets[pid] = new(big.Int).SetBytes(data)\n\t\treturn nil\n\t}\n', '\tpresent := uint64(1) << tds.pid\n\tcheck := func(pid uint16, data []byte) error {\n\t\t// TODO: check zkpok\n\t\tsecrets[pid] = new(big.Int).SetBytes(data)\n\t\tpresent |= 1 << pid\n\t\treturn nil\n\t}\n'), ('pkg/arith/distributed_secret.go', '\tfor i, secret := range secrets {\n\t\tif secret != nil && len(args) < int(tds.t) {\n', '\tfor i := range secrets {\n\t\tif present>>i&1 == 1 && len(args) < int(tds.t) {\n')]
pkg='pkg/arith'
needs='more than 64 parties, with responses needed from party 64 or a later one'
breaks='responses are marked in a word of 64 bits, so those of later parties do not count'
stubs=True
demo=r"""package arith

import (
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

// line delivers the messages of the other parties
type line struct {
	n, pid int
	msg    func(pid int) []byte
}

func (l *line) Start() {}
func (l *line) Stop()  {}
func (l *line) Round(toSend [][]byte, check func(uint16, []byte) error) error {
	for i := 0; i < l.n; i++ {
		if i != l.pid {
			if err := check(uint16(i), l.msg(i)); err != nil {
				return err
			}
		}
	}
	return nil
}

func TestZZDemo(t *testing.T) {
	n, th := 70, 68
	q := curve.NewSecp256k1Group().Order()
	f := commitment.NewElGamalFactory(curve.NewSecp256k1Group().ScalarBaseMult(big.NewInt(5)))
	// shares of the secret 9 under 9 + x + x^2 + ...
	share := func(pid int) *big.Int {
		v := big.NewInt(9)
		for i := 1; i < th; i++ {
			v.Add(v, new(big.Int).Exp(big.NewInt(int64(pid+1)), big.NewInt(int64(i)), q))
		}
		return v.Mod(v, q)
	}
	s := &line{n, 3, func(pid int) []byte { return share(pid).Bytes() }}
	tds := &TDSecret{ADSecret{DSecret: DSecret{pid: 3, skShare: share(3), server: s}, egf: f, egs: make([]*commitment.ElGamal, n)}, uint16(th)}
	v, err := tds.Reveal()
	if err != nil || v.Cmp(big.NewInt(9)) != 0 {
		t.Fatal(v, err)
	}
}
"""
