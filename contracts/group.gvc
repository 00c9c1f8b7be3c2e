// The group interface (pkg/curve). dl(p) is the discrete logarithm of p to the base of the generator, N the group
// order, enc(d) the wire encoding of the element with logarithm d. Every body is verified against its contract; callers
// outside the package see only the contract.

contract curve.Group.Order() (r nat)
	ensures val(r) == N
	shared

contract curve.Group.Gen() (r point)
	ensures dl(r) == 1

contract curve.Group.Neutral() (r point)
	ensures dl(r) == 0

contract curve.Group.Add(a point, b point) (r point)
	ensures dl(r) == (dl(a) + dl(b)) % N
	aliases a b

contract curve.Group.Neg(a point) (r point)
	ensures dl(r) == (-dl(a)) % N

contract curve.Group.ScalarMult(a point, k nat) (r point)
	ensures dl(r) == (dl(a) * val(k)) % N

contract curve.Group.ScalarBaseMult(k nat) (r point)
	ensures dl(r) == val(k) % N

contract curve.Group.Equal(a point, b point) (r bool)
	ensures r == (dl(a) == dl(b))
	aliases a b

// written: all of enc(dl(a)), unless writing failed
contract curve.Group.Encode(a point, w writer) (err error)
	appends w enc(dl(a))

// a reader that starts with enc(d) yields the element d and is left right behind it; on any other input the result is
// an error or some group element whose announced length was present
contract curve.Group.Decode(r reader) (p point, err error)
	parses r p
