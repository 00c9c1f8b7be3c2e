package main

var trustedBase = []string{
	"govc (this verifier: symbolic execution of go/ssa, term normaliser, SMT encoding), go/ssa, z3 5.3.2, z3 4.8.12, cvc5 1.1.2, the Go compiler and runtime",
	"Go semantics as implemented in govc; machine integers are bit-precise modulo 2^width, slices, maps and interfaces as values",
	"(btcec.S256) Add, Double, ScalarMult, ScalarBaseMult and IsOnCurve compute in the cyclic group of prime order N generated by G (scalars of at most 32 bytes); X, Y of an element other than the neutral one are in [1, P)",
	"math/big computes on mathematical integers",
}

var commonAssumptions = []string{
	"HKDF-SHA256 is an uninterpreted function of its inputs",
	"crypto/rand.Reader yields independent uniform bytes and does not fail",
	"memory suffices",
}

var levels = map[string]string{}

var groupContracts = []string{"curve.Group.Order", "curve.Group.Gen", "curve.Group.Neutral", "curve.Group.Add", "curve.Group.Neg",
	"curve.Group.ScalarMult", "curve.Group.ScalarBaseMult", "curve.Group.Equal", "curve.Group.Encode", "curve.Group.Decode"}
var groupOps = groupContracts[:8]
var hashContract = []string{"crypto.HashToBigInt"}
var cryptoContracts = append(append([]string{}, groupContracts...), hashContract...)

// files added to packages of the repository, so that lemmas can refer to unexported names
var overlays = map[string]string{
	"/repo/pkg/arith/verif_state.go":  "overlay/arith_state.go",
	"/repo/pkg/arith/verif_poly.go":   "overlay/arith_poly.go",
	"/repo/pkg/sync/verif_error.go":   "overlay/sync_error.go",
	"/repo/pkg/sync/verif_round.go":   "overlay/sync_round.go",
	"/repo/pkg/tecdsa/verif_state.go": "overlay/tecdsa_state.go",
}

var programOverlays = map[string]string{
	"/verif/lemmas/cmdgen/verif_main.go":  "overlay/cmd_gen.go",
	"/verif/lemmas/cmdnode/verif_main.go": "overlay/cmd_node.go",
}

func overlay(names ...string) map[string]string {
	r := map[string]string{}
	for _, n := range names {
		for k, f := range overlays {
			if f == "overlay/"+n+".go" {
				r[k] = f
			}
		}
	}
	return r
}

// the programs, as packages that lemmas can import
var programs = map[string]string{"cmdgen": "/repo/cmd/gen_keys", "cmdnode": "/repo/cmd/tecdsa"}

var properties = map[string]*Property{}

// anySize adds lemmas without a bound, which rest on invariants found by the verifier
func (p *Property) anySize(lemmas ...string) *Property {
	p.Lemmas = append(append([]string{}, p.Lemmas...), lemmas...)
	p.Unbounded = lemmas
	return p
}

func prop(p *Property) { properties[p.ID] = p }

func init() {
	prop(&Property{ID: "C01", Pkg: "group", Contracts: groupOps,
		Lemmas: []string{"GroupConstants", "GroupAdd", "GroupNeg", "GroupScalarMult", "GroupScalarBaseMult", "GroupEqual", "GroupLaws"}})
	prop(&Property{ID: "C02", Pkg: "frames", OnlyFrame: true, Contracts: cryptoContracts,
		Lemmas: []string{"FrameGroup", "FrameCommitments", "FrameKnow", "FrameRefresh", "FrameHash"}})
	prop(&Property{ID: "C03", Pkg: "group", Contracts: []string{"curve.Group.Encode", "curve.Group.Decode#1"}, Deps: append([]string{"curve.Group.Decode#0"}, groupOps...),
		Lemmas: []string{"EncodeDecode", "EncodeWriter", "DecodeSequence"}})
	prop(&Property{ID: "C04", Pkg: "group", Contracts: []string{"curve.Group.Decode#0"}, Deps: append([]string{"curve.Group.Encode", "curve.Group.Decode#1"}, groupOps...),
		Lemmas: []string{"DecodeAny", "DecodeTruncated"}})
	prop(&Property{ID: "C05", Pkg: "comm", Deps: groupContracts, Lemmas: []string{"CommCreate", "CommNeutral", "CommEqual", "CommEqualOpenings"}})
	prop(&Property{ID: "C06", Pkg: "comm", Deps: groupContracts, Lemmas: []string{"CommCompose", "CommExp", "CommInverse", "CommChain"}})
	prop(&Property{ID: "C07", Pkg: "comm", Deps: groupContracts, Lemmas: []string{"CommRoundTrip", "CommWriter", "CommSequence", "CommDecodeAny", "CommTruncated"}})
	prop(&Property{ID: "C08", Pkg: "proofs", Deps: cryptoContracts, Lemmas: []string{"KnowComplete", "RefreshComplete"}})
	prop(&Property{ID: "C09", Pkg: "proofs", Deps: cryptoContracts, Lemmas: []string{"KnowSound"}, Lean: []string{"Sigma.lean"}})
	prop(&Property{ID: "C10", Pkg: "proofs", Deps: cryptoContracts, Lemmas: []string{"RefreshSound"}, Lean: []string{"Sigma.lean"}})
	prop(&Property{ID: "C11", Pkg: "proofs", Deps: cryptoContracts, Lemmas: []string{"KnowMasked", "RefreshMasked"}})
	prop(&Property{ID: "C12", Pkg: "proofs", Deps: cryptoContracts,
		Lemmas: []string{"KnowRoundTrip", "RefreshRoundTrip", "ProofWriter", "KnowDecodeAny", "RefreshDecodeAny", "KnowTruncated", "RefreshTruncated"}})
	arith := func(id, bound string, lemmas ...string) *Property {
		p := &Property{ID: id, Pkg: "arith", Overlay: overlay("arith_state", "arith_poly", "sync_error"), Deps: cryptoContracts, Lemmas: lemmas,
			Bounded: bound, BoundedLemmas: lemmas,
			Assume: []string{"sync.Server.Round behaves as C22 and C23 say: lockstep rounds between the parties of one process"}}
		prop(p)
		return p
	}
	arith("C14", "degrees 0 to 6, 11, 17 and 40 (poly), 0 to 8, 13, 20 and 35 (polyEval); all coefficients, points and moduli", "Poly", "PolyEval").anySize("PolyAny", "PolyEvalAny").Frames = true
	arith("C15", "sets of up to 3 party numbers with symbolic elements, up to 17 with chosen elements; all polynomials", "Weights", "Interpolate").anySize("WeightAny").Frames = true
	properties["C15"].Lean = []string{"Interp.lean"}
	arith("C16", "2 and 3 parties; all shares and messages", "KeyGen2", "KeyGen3", "KeyGenReveal", "KeyGenDifferent", "KeyGenCommit", "KeyGenParts", "KeyGenMissing", "NewKey").anySize("KeyGenAll", "KeyGenBinding", "KeyGenFails", "NewKeyAll")
	arith("C17", "2 to 4 parties, all thresholds up to that; 6, 9, 12 and 18 parties that follow the protocol, one threshold each, and 3 with threshold 42; arbitrary messages of the others for 2 and 3 parties; all secrets and random choices", "Reshare2", "Reshare31", "Reshare32", "Reshare33", "Reshare4", "Reshare6", "Reshare9", "Reshare12", "Reshare18", "ReshareHigh", "ReshareReveal",
		"ReshareOpening", "ReshareCommitted", "ReshareAny", "ReshareMissing", "ReshareZero", "ReshareProofs2", "ReshareProofs3")
	arith("C18", "2 to 4 parties, all thresholds and sets of absent parties; 5, 6, 9, 17, 70 and 300 parties, some thresholds and sets of absent parties; all secrets", "Reveal2", "Reveal3", "Reveal4", "RevealMany", "RevealCrowd", "RevealPlaces", "RevealBroken", "Exp2", "Exp3", "Exp4", "ExpMany", "ExpCrowd", "ExpPlaces", "ExpBroken", "ExpAny")
	arith("C19", "up to 3 parties; all coefficients, shares and commitments", "Lin", "LinReveal").anySize("LinAll")
	arith("C20", "2 and 3 parties; all shares, keys and random choices", "PrivMult2", "PrivMult3", "Mult2", "Mult3", "MultAny", "MultMissing").anySize("PrivMultAll", "MultAll", "MultAnyAll").Assume = []string{
		"sync.Server.Round behaves as C22 and C23 say: lockstep rounds between the parties of one process",
		"the Paillier cryptosystem (tss-lib, not available offline): decryption recovers the plaintext, HomoMult and HomoAdd act on plaintexts modulo N"}
	properties["C20"].Lean = []string{"Product.lean"}
	arith("C21", "2 and 3 parties; all key shares, points and random choices", "CheckDH2", "CheckDH3", "CheckDHReveal", "CheckDHParts", "CheckDHAny").anySize("CheckDHAll", "CheckDHBinding")
	arith("C30", "2 and 3 parties; all random choices, bases and messages", "Gen2", "Gen3", "GenAny", "GenMissing").anySize("GenAll", "GenAnyAll")
	round := func(id, bound, not string, lemmas ...string) {
		prop(&Property{ID: id, Pkg: "round", Overlay: overlay("sync_round"), Lemmas: lemmas, Bounded: bound, BoundedLemmas: lemmas, NotKinds: not,
			Assume: []string{"connections are reliable byte streams (core-go's network package, not available offline): what is written is read in order, in any pieces",
				"goroutines are executed one at a time, each until it waits; deadlines are not reached, except in Late"}})
	}
	round("C22", "2, 3 and 5 parties, up to 2 rounds, up to 3 short reads per connection; one of 5, 9, 17, 36, 40 and 300 parties; all payloads up to 2^27 bytes, all byte streams of a peer",
		"the error lists|the round succeeds", "Exchange2", "Exchange3", "Exchange3b", "Exchange5", "Pieces", "Stream", "Foreign", "Handshake", "Twice", "Many", "ManyMore", "ManyPlaces")
	round("C23", "1 to 3 peers; all combinations of messages that are accepted, rejected, absent, cut short, of another round or sender; some combinations for one of 5, 9, 17, 36, 40 and 300 parties; all payloads",
		"^$", "Faults1", "Faults2", "Faults3", "Late", "Stream", "Exchange2", "Exchange3", "Many", "ManyMore", "ManyPlaces")
	tec := func(id, bound string, lemmas ...string) *Property {
		p := &Property{ID: id, Pkg: "tec", Overlay: overlay("arith_state", "arith_poly", "sync_error", "tecdsa_state"), Deps: cryptoContracts, Lemmas: lemmas,
			Bounded: bound, BoundedLemmas: lemmas,
			Assume: []string{"sync.Server.Round behaves as C22 and C23 say: lockstep rounds between the parties of one process"}}
		prop(p)
		return p
	}
	tec("C24", "up to 4 presignatures, sequences of 3 operations, one party; every round failing or not; all secrets and messages", "SignOnce", "PresignOnce", "History").
		anySize("SignAny", "PresignAny").Assume = []string{
		"generating, resharing, combining and revealing secrets (package arith, which cannot refer to the queue) return or fail: a queue of any length is followed through one operation, these being taken by contract",
		"sync.Server.Round behaves as C22 and C23 say: lockstep rounds between the parties of one process"}
	tec("C25", "1 to 3 and 5 parties; all random choices", "Init1", "Init2", "Init3", "Init5", "InitFails", "Bases").anySize("InitAll", "InitAny", "PresignAny").Assume = []string{
		"a secret generated with a commitment base keeps it when it is generated (C30) and reshared (C17)",
		"sync.Server.Round behaves as C22 and C23 say: lockstep rounds between the parties of one process"}
	tec("C26", "1 to 3, 6 and 20 parties, all thresholds up to 3; all presignatures, keys, random choices and messages", "Signing1", "Signing2", "Signing3", "Signing6", "Signing20", "SigningAgain", "Presigned", "SignValid", "SignAll")
	cmd := func(id, bound string, lemmas ...string) {
		prop(&Property{ID: id, Pkg: "cmd", Overlay: programOverlays, Renamed: programs, Lemmas: lemmas, Bounded: bound, BoundedLemmas: lemmas,
			Assume: []string{"files read back what was written to them; opening, reading and writing succeed, unless the file does not exist",
				"key pair generation (tss-lib, not available offline) yields any three numbers of up to 4096 bits, or fails",
				"base64 and decimal numbers: decoding undoes encoding; what decoding makes of any other text is arbitrary"}})
	}
	cmd("C27", "2 to 20, 64, 100 and 300 parties (2 to 4 with an address file); all keys of up to 4096 bits, all addresses of up to 20000 bytes", "Keys", "KeysMany", "KeysAddresses")
	cmd("C28", "up to 3 words in a key file, up to 5 entries in a committee file, one of them of any form with up to 3 separators, and 20, 65 and 300 mostly fixed ones; all contents of these",
		"MemberAny", "MemberFields", "CommitteeAny", "CommitteeMany", "CommitteeCrowd", "Absent", "NodeStart")
	prop(&Property{ID: "C13", Pkg: "hash", Contracts: hashContract, Lemmas: []string{"HashValue"}})
}

func allOverlays() map[string]string {
	r := map[string]string{}
	for k, f := range overlays {
		r[k] = f
	}
	for k, f := range programOverlays {
		r[k] = f
	}
	return r
}
