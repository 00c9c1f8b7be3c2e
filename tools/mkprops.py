#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in Python so the statements stay readable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mechanism,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mechanism]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

CU="pkg/curve/secp256k1.go"; CO="pkg/crypto/commitment/commitment.go"; ZK="pkg/crypto/zkpok/zkpok.go"; HA="pkg/crypto/hash.go"
PO="pkg/arith/poly.go"; DS="pkg/arith/distributed_secret.go"; DK="pkg/arith/distributed_key.go"; RS="pkg/arith/reshare.go"; MU="pkg/arith/mult.go"; DH="pkg/arith/checkDH.go"
SY="pkg/sync/server.go"; SE="pkg/sync/error.go"; TE="pkg/tecdsa/tecdsa.go"; GK="cmd/gen_keys/main.go"; CM="cmd/tecdsa/main.go"

p("C01","Curve operations are exactly the prime-order secp256k1 group",
 "For all group elements, the neutral element and mutually inverse elements included, addition, negation, multiplication by a scalar and multiplication of the generator by a scalar return the element prescribed by the cyclic group of the secp256k1 order, for every non-negative integer scalar of any size (zero, multiples of the order and values above the order included). Equality answers true exactly when its two arguments are the same group element, and none of these operations panics on a group element.",
 ["inputs"],"all pairs of group elements and all non-negative integer scalars",
 "The tests use the scalars 0, 1, 2, 3 and order-1 on the generator; P+(-P), the neutral operand of a multiplication and scalars at or above the order are never reached.",
 [CU,"pkg/curve/curve.go"],[("Add case split on neutral / equal / opposite points","sGroup.Add"),("scalar reduction before the library call","sGroup.ScalarMult, sGroup.ScalarBaseMult"),("negation as multiplication by order-1","sGroup.Neg"),("coordinate comparison","sGroup.Equal")],
 [("curve point","two affine coordinates, or both absent for the neutral element","sPoint")],["curve.Group methods"])

p("C02","Operations leave their operands and the curve parameters unchanged",
 "No group, commitment, hashing or proof operation changes the value of a scalar, point, commitment or byte string passed to it as an operand, nor the shared group order and generator. The only objects an operation changes are the receiver that is documented to hold its result and the stream it writes to or reads from.",
 ["inputs"],"all operations of the curve, commitment, hash and proof packages, all operand values and all ways operands may share storage",
 "Scalars are mutable shared objects; the tests never look at an operand after a call and use only scalars below 2^10, so an in-place reduction of a long scalar is not seen.",
 [CU,CO,ZK,HA],[("fresh result objects","sGroup.Add, sGroup.ScalarMult"),("local accumulators z1, z2 in the provers","NewZKEGKnow, NewZKEGRefresh")],
 [("shared parameters","order, generator coordinates and order-1 are shared by every caller","sGroup, Order, Gen")],["argument values after the call returns"])

p("C03","Point encoding round-trips",
 "Encoding any group element, the neutral element included, and decoding the bytes gives back the same element, and decoding consumes exactly the bytes that encoding produced, so that elements encoded one after another decode in the same order. This holds however the reader fragments the bytes it delivers.",
 ["inputs"],"all group elements, all bytes that may follow in the stream, all fragmentations of the stream",
 "One random element is encoded and decoded alone from a memory buffer; the neutral element, short coordinates, concatenated elements and short reads are not tried.",
 [CU],[("length-prefixed coordinates, neutral as a zero length","sGroup.Encode"),("prefix parsing","sGroup.Decode")],None,["curve.Group.Encode / Decode"])

p("C04","Decoding a point from untrusted bytes is safe",
 "For every byte string offered by a peer, decoding a point returns either an error or an element of the secp256k1 group; it never panics and never yields coordinates that are not on the curve. A string that ends before the announced length is an error.",
 ["inputs"],"all byte strings and stream ends",
 "No test decodes anything but a freshly produced encoding; a forged length pair, an off-curve pair and a truncated string are never tried.",
 [CU],[("length checks and curve membership check","sGroup.Decode")],None,["curve.Group.Decode"])

p("C05","Commitments carry exactly the committed value and randomness",
 "Creating a commitment to value v with randomness r yields the pair (r*G, r*H + v*G) for the factory's base H, for all non-negative v and r; the factory's neutral element is the commitment to (0,0) and is recognised as such. Two commitments compare equal exactly when both components are equal, hence two commitments created by one factory are equal exactly when their values and their randomness agree modulo the group order.",
 ["inputs"],"all bases, values and randomness",
 "Tests compare a handful of commitments to single-digit values under one base.",
 [CO],[("component formulas","ElGamalFactory.Create"),("componentwise comparison","ElGamal.Equal"),("neutral","ElGamalFactory.Neutral, IsNeutral, NewElGamalFactory")],None,["commitment.ElGamalFactory"])

p("C06","Commitment operations are homomorphic, under any aliasing",
 "Composing, exponentiating and inverting commitments gives the commitment whose value and randomness are the sum, multiple and negation (modulo the group order) of those of the operands, for all commitments (neutral ones included) and all non-negative exponents. The result does not depend on whether the receiver is itself one of the operands.",
 ["inputs"],"all commitments, exponents and receiver/operand aliasing patterns",
 "Each operation is tried once with a fresh receiver; aliasing patterns, neutral operands and exponents at or above the order are not.",
 [CO],[("componentwise group operations","ElGamal.Compose, Exp, Inverse")],None,["commitment.ElGamal methods"])

p("C07","Commitment encoding round-trips and rejects malformed bytes",
 "Encoding any commitment and decoding it gives an equal, fully usable commitment and consumes exactly its own bytes. Decoding any other byte string either reports an error or yields two group elements; it never panics and never reports success for a commitment that is only partly present.",
 ["inputs"],"all commitments (neutral components included) and all byte strings",
 "One commitment with two ordinary components is tested.",
 [CO,CU],[("two consecutive point encodings","ElGamal.Encode, ElGamal.Decode")],None,["commitment.ElGamal.Encode / Decode"])

p("C08","Honest zero-knowledge proofs always verify",
 "A proof of knowledge made with the true value and randomness of a commitment verifies against that commitment, and a refresh proof made with the true refresh randomness verifies against the original and the refreshed commitment, for every base, every non-negative witness and every outcome of the random choices. The proof still verifies after being encoded and decoded.",
 ["inputs"],"all bases, witnesses (zero and values above the order included) and random nonces",
 "One base, one witness and one random nonce per proof type are tried.",
 [ZK,HA,CO],[("responses z = nonce + challenge*witness","NewZKEGKnow, NewZKEGRefresh"),("verification equation","Verify")],None,["zkpok.NewZKEGKnow / Verify, zkpok.NewZKEGRefresh / Verify"])

p("C09","Accepted proofs of knowledge are sound",
 "A proof of knowledge is accepted only if it satisfies the Schnorr verification equation on both components of the commitment, with a challenge that is the hash of the commitment together with the prover's first message. Hence two accepted proofs for one commitment with the same first message but different challenges determine an opening of that commitment, and a proof cannot be made to fit by choosing its first message after the challenge.",
 ["inputs"],"all commitments, bases and proof contents",
 "Tests reject one honest proof against one other commitment; a forged proof built without any witness is not tried.",
 [ZK,HA],[("recomputed challenge and equation","ZKEGKnow.Verify")],None,["zkpok.ZKEGKnow.Verify"])

p("C10","Accepted refresh proofs show that the committed value is unchanged",
 "A refresh proof is accepted only if it satisfies the verification equation on both components, with a challenge that is the hash of both commitments together with the prover's first message. Hence two accepted proofs with the same first message but different challenges show that the second commitment is the first one composed with a commitment to zero, so a commitment to any other value cannot pass as a refresh.",
 ["inputs"],"all pairs of commitments, bases and proof contents",
 "Tests reject one honest proof against one other commitment; a proof for a commitment to a multiple of the value is not tried.",
 [ZK,HA],[("recomputed challenge and equation","ZKEGRefresh.Verify")],None,["zkpok.ZKEGRefresh.Verify"])

p("C11","Every proof response is masked by fresh uniform randomness",
 "Each response that depends on a secret witness is the witness times the challenge plus a mask drawn, for this proof alone, uniformly from the whole scalar range, reduced modulo the group order; different responses of one proof use different draws. The first message of the proof is the commitment to exactly these masks, and nothing else in the proof depends on the witness.",
 ["inputs"],"all witnesses and all outcomes of the random source",
 "Tests only look at whether verification succeeds, which a constant, shared or short mask does not affect.",
 [ZK],[("nonces sigma, rho","NewZKEGKnow, NewZKEGRefresh")],None,["zkpok.NewZKEGKnow, zkpok.NewZKEGRefresh"])

p("C12","Proof encoding round-trips and rejects malformed bytes",
 "Encoding a proof and decoding it gives a proof with the same contents and consumes exactly its own bytes. Decoding any other byte string either reports an error or yields a complete proof that can be verified without a panic; forged lengths and truncated strings never panic and never report success.",
 ["inputs"],"all proofs and all byte strings",
 "Only freshly produced encodings are decoded.",
 [ZK,CO,CU],[("length-prefixed responses followed by a commitment","ZKEGKnow.Encode/Decode, ZKEGRefresh.Encode/Decode")],None,["zkpok Encode / Decode"])

p("C13","Hash-to-scalar is a fixed function of the whole message into the scalars",
 "Hashing a byte string to a scalar depends on nothing but the bytes, and on all of them; the result is HKDF-SHA256 of the message under the fixed protocol labels, expanded to 48 bytes and reduced modulo the group order, so it is always a canonical scalar below the order with negligible bias.",
 ["inputs"],"all messages",
 "No test calls it directly; the proof tests only need prover and verifier to agree.",
 [HA],[("HKDF expansion and reduction","HashToBigInt")],None,["pkg.HashToBigInt"])

p("C14","Sharing polynomials have the requested degree and are evaluated exactly",
 "A sharing polynomial of degree d for secret a has exactly d+1 coefficients, constant term a, every other coefficient drawn independently and uniformly from the scalars, the leading one non-zero. Evaluating a polynomial at a point modulo q returns the value of the sum of coefficient times power, in [0,q), for every degree, and changes neither coefficients nor the point.",
 ["inputs"],"all degrees, secrets, coefficients, points and moduli",
 "The package's tests only run whole protocols with thresholds 1 and 2.",
 [PO],[("coefficient loop","poly"),("Horner loop","polyEval")],None,["arith poly, polyEval"])

p("C15","Interpolation weights recover a polynomial's value at zero",
 "For any set of distinct party numbers, the weight of a party is the Lagrange coefficient at zero for evaluation points one above the party numbers, modulo the group order and in canonical range. Hence the weighted sum of the evaluations of any polynomial of degree below the number of parties in the set is its value at zero.",
 ["inputs"],"all finite sets of distinct party numbers and all polynomials of smaller degree",
 "Only sets of one and two parties are reached, and the result is never compared with the shared value.",
 [PO],[("numerator and denominator products, modular inverse","lagrangeCoef")],None,["arith lagrangeCoef"])

p("C16","Distributed key generation yields one consistent public key",
 "When key generation succeeds and every party sends the same messages to all others, the parties that follow the protocol hold the same list of public shares and the same public key, the key is the sum of all public shares, and each party's public share is the generator times its secret share, a fresh uniform scalar. A party whose revealed share differs from the value it committed to in the first round makes the generation fail.",
 ["inputs","histories"],"all secret shares and all messages of the other parties",
 "Tests check only that generation finishes without error among honest parties; no share or key is compared.",
 [DK],[("commit and reveal rounds","GenExpReveal"),("sum of shares","NewDKey"),("commitment comparison","NMCtmp.Verify")],None,["arith.GenExpReveal, arith.NewDKey"])

p("C17","Resharing preserves the secret and yields valid threshold shares",
 "After resharing with threshold t, the shares returned to any t parties interpolate at zero to the sum of the original additive shares modulo the group order. Each party's returned share and randomness open the commitment that every party holds for it, and a peer's message that is malformed or inconsistent with its commitments makes the resharing fail without a panic.",
 ["inputs","histories"],"all secrets, random choices, thresholds, numbers of parties and peer messages",
 "Tests check only that resharing returns no error for 2 and 10 honest parties; the shares are never recombined.",
 [RS,PO],[("polynomial sharing and share sums","ADSecret.Reshare"),("proof and opening checks in the round callbacks","ADSecret.Reshare")],None,["arith.ADSecret.Reshare"])

p("C18","Threshold secrets and keys are recovered from any t responding parties",
 "Revealing a threshold secret returns the shared secret, and deriving its public key returns the generator times that secret, from whichever t or more parties respond, provided those follow the protocol. With fewer than t responses, or when the exchange fails otherwise, an error is returned; a wrong value is never returned silently and absent parties never cause a panic.",
 ["inputs","fault_sequences"],"all secrets, thresholds and sets of absent parties",
 "Tests run with every party present and never compare the value obtained.",
 [DS,PO],[("interpolation over the responding parties","TDSecret.Reveal, TDSecret.Exp"),("tolerating absent parties","RoundError.Missing")],None,["arith.TDSecret.Reveal, Exp"])

p("C19","Linear combination acts on shares and commitments alike",
 "The linear combination of two threshold secrets with public coefficients is a threshold secret with the same threshold, owned by the same party and usable in the same way as its operands; its share is the combination of the operands' shares, and the commitment it holds for each party is the same combination of the operands' commitments for that party.",
 ["inputs"],"all coefficients, shares, commitments and parties",
 "No test calls it directly; the signing test does not check its result.",
 [DS],[("share and commitment combination","Lin")],None,["arith.Lin"])

p("C20","Multiplication of shared secrets yields shares of the product",
 "When all parties follow the protocol and use Paillier moduli above twice the square of the group order, the shares returned by multiplying two additively shared secrets sum to the product of the two secrets modulo the group order. The resulting secret belongs to the same party and commitment base as its operands, and each party's share and randomness open the commitment all parties hold for it.",
 ["inputs"],"all shares and random choices, all parties",
 "Tests check only that the protocol finishes; the shares of the product are never added up.",
 [MU],[("share conversion through homomorphic encryption","PrivMult"),("commitment to the share","Mult")],None,["arith.Mult, arith.PrivMult"])

p("C21","The Diffie-Hellman check accepts exactly the right tuples",
 "Among parties that follow the protocol, the check succeeds for u and v whenever v is u multiplied by the shared secret key, and whenever it is not the check fails for all but one value of the combined random mask. A party whose revealed values differ from those it committed to makes the check fail.",
 ["inputs"],"all u, v, key shares and random choices",
 "Two parties and one matching and one non-matching tuple are tried.",
 [DH],[("masked test and verify values, final comparison","CheckDH")],None,["arith.CheckDH"])

p("C22","Each party receives exactly the payload sent to it in this round",
 "The bytes handed to a party's check for a peer are exactly the payload that this peer passed for this party in the same round, for every payload (empty ones included), for broadcast and per-party payloads, and however the connection fragments the bytes. A message that is too short, names another sender or belongs to another round is never handed to the check, and no byte string sent by a peer makes a party panic.",
 ["inputs","histories"],"all payloads, fragmentations and peer byte streams",
 "Two short payloads over an in-memory network are tried with honest peers.",
 [SY],[("frame header with length, sender and round","server.sendToAll"),("frame parsing","server.receiveFromAll")],None,["sync.Server.Round"])

p("C23","A communication round succeeds only if every peer's message passed its check",
 "A round returns success only if a message from every other party arrived and the caller's check accepted each of them, each being checked exactly once. Otherwise it returns an error that lists exactly the parties whose message is absent or was rejected whenever the failure is due to them, and the messages of the other parties are still handed to the check.",
 ["inputs","fault_sequences"],"all combinations of absent, malformed, rejected and accepted messages",
 "Only rounds in which every party is honest and alive are tried.",
 [SY,SE],[("collection of missing and wrong parties","server.Round, server.receiveFromAll"),("error with party list","RoundError")],None,["sync.Server.Round, RoundError.Missing"])

p("C24","A presignature is used at most once",
 "Every signing attempt, successful or not, permanently consumes one presignature, oldest first, and no presignature takes part in two attempts; with none left signing fails without touching the network. A presigning run adds exactly one presignature when it succeeds and none when it fails.",
 ["histories"],"all sequences of presign and sign calls and all points of failure inside them",
 "The tests sign once after presigning once and never sign again or fail midway.",
 [TE],[("queue of presignatures","Protocol.Presign, Protocol.Sign")],[("presignatures","queue of unused presignatures","Protocol.presig")],["tecdsa.Protocol.Presign / Sign"])

p("C25","Commitments are based on the key generated for them",
 "Initialisation generates two independent distributed keys, one for signing and one for commitments, and every commitment the protocol makes uses the public key of the second one as its base; the signing key never serves as commitment base.",
 ["inputs","histories"],"all outcomes of the two key generations",
 "The test only checks that initialisation returns no error.",
 [TE],[("construction of the commitment factory","tecdsa.Init")],None,["tecdsa.Init"])

p("C26","Completed signatures verify under the distributed public key",
 "Whenever signing completes among honest parties, the returned pair is a valid ECDSA signature of the message under the public key generated at initialisation. In particular, from a presignature made of shared k, rho, eta = rho*x and tau = k*rho, for the signing key x, any number of parties no less than the threshold obtain the same pair (r, s) with s*k = m + r*x modulo the group order, up to the sign, and r determined by k*G alone.",
 ["inputs","histories"],"all messages, keys and presignatures",
 "The tests check only that some pair is returned; it is never verified.",
 [TE,DS],[("signature equation","Protocol.Sign")],None,["tecdsa.Protocol.Sign"])

p("C27","Key files round-trip between the key generator and the node",
 "The private key that a node reads from the file written for it is the key that was generated, in all of its components, for every key. The committee list a node reads names, in order, exactly the public keys and addresses that were written.",
 ["inputs"],"all keys and addresses",
 "Neither program has a test.",
 [GK,CM],[("length-prefixed fields","encodePaillierPrivateKey, decodePaillierPrivateKey, decodeBigInt"),("committee line","parseCommitteeLine")],None,["cmd/gen_keys output files, cmd/tecdsa input files"])

p("C28","Malformed key and committee files are rejected without a crash",
 "For every content of the private-key and committee files, a node either starts with the keys and addresses written there or reports an error; truncated, wrongly encoded or inconsistent content (lengths that disagree with the data, entries of another form, further words, fewer than two parties, a party number outside the committee) never causes a panic and is never accepted in part.",
 ["inputs"],"all file contents",
 "The programs have no tests.",
 [CM],[("parsing and length checks","decodeBigInt, decodePaillierPrivateKey, parseCommitteeLine")],None,["cmd/tecdsa"])

p("C29","A round ends by its deadline even if peers stay silent",
 "Every communication round returns within its configured duration, whatever the other parties do, and reports the silent parties as absent.",
 ["schedules","fault_sequences"],"all schedules and all sets of silent parties",
 "Every test has all parties alive, so the deadline is never reached.",
 [SY],[("round duration","server.Round")],None,["sync.Server.Round"])

p("C30","A generated shared secret has fresh uniform shares and matching commitments",
 "Generating an additively shared secret gives each party a share and a commitment randomness that are independent, fresh and uniform scalars, and every party holds the same list of commitments, each opened by the share and randomness of its party. It fails when a peer's message is absent or malformed, without a panic.",
 ["inputs","histories"],"all random choices, commitment bases and peer messages",
 "Tests check only that generation finishes without error among honest parties; commitments and openings are never compared.",
 [DS],[("draws of share and randomness, exchange of commitments","Gen")],None,["arith.Gen"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
