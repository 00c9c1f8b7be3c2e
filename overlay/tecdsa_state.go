package tecdsa

// Access to the state the properties speak about, for the lemmas. Added by overlay, not part of the repository.

import (
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

// VProtocol is a protocol state with an empty queue
func VProtocol(pid, nProc uint16, network sync.Server, egf *commitment.ElGamalFactory) *Protocol {
	return &Protocol{pid /*Protocol.pid*/ : pid, nProc /*Protocol.nProc*/ : nProc, network /*Protocol.network*/ : network, egf /*Protocol.egf*/ : egf, group /*Protocol.group*/ : curve.NewSecp256k1Group()}
}

// VPush appends a presignature
func (p *Protocol) VPush(k, rho, eta, tau *arith.TDSecret, t uint16) {
	p.presig /*Protocol.presig*/ = append(p.presig /*Protocol.presig*/, &presig /*type*/ {k /*presig.k*/ : k, rho /*presig.rho*/ : rho, eta /*presig.eta*/ : eta, tau /*presig.tau*/ : tau, t /*presig.t*/ : t})
}

// VQueue makes f(0) to f(n-1) the presignatures
func (p *Protocol) VQueue(n, spare int, fill func(what string, slice interface{}, f func(i int) interface{}), f func(i int) (k, rho, eta, tau *arith.TDSecret, t uint16)) {
	q := make([]*presig /*type*/, n, n+spare)
	fill("", q, func(i int) interface{} {
		k, rho, eta, tau, t := f(i)
		return &presig /*type*/ {k /*presig.k*/ : k, rho /*presig.rho*/ : rho, eta /*presig.eta*/ : eta, tau /*presig.tau*/ : tau, t /*presig.t*/ : t}
	})
	p.presig /*Protocol.presig*/ = q
}

func (p *Protocol) VLen() int { return len(p.presig /*Protocol.presig*/) }

// VPeek is the i-th presignature
func (p *Protocol) VPeek(i int) (k, rho, eta, tau *arith.TDSecret, t uint16) {
	s := p.presig /*Protocol.presig*/ [i]
	return s.k /*presig.k*/, s.rho /*presig.rho*/, s.eta /*presig.eta*/, s.tau /*presig.tau*/, s.t /*presig.t*/
}

func (p *Protocol) VKeys() (key, egKey *arith.DKey, egf *commitment.ElGamalFactory) {
	return p.key /*Protocol.key*/, p.egKey /*Protocol.egKey*/, p.egf /*Protocol.egf*/
}

func (s *Signature) VPair() (r, t *big.Int) { return s.r /*Signature.r*/, s.s /*Signature.s*/ }
