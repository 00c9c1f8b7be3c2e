package arith

// Access to the state the properties speak about, for the lemmas. Added by overlay, not part of the repository.

import (
	"io"
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

func VRand(r io.Reader) { randReader /*var io.Reader*/ = r }

func VADSecret(pid uint16, label string, share, r *big.Int, egf *commitment.ElGamalFactory, egs []*commitment.ElGamal, server sync.Server) *ADSecret {
	return &ADSecret{
		DSecret:           DSecret{pid /*DSecret.pid*/ : pid, label /*DSecret.label*/ : label, skShare /*DSecret.skShare*/ : share, server /*DSecret.server*/ : server},
		r /*ADSecret.r*/ : r, egf /*ADSecret.egf*/ : egf, egs /*ADSecret.egs*/ : egs}
}

func VTDSecret(a *ADSecret, t uint16) *TDSecret { return &TDSecret{*a, t} }

func (ds *DSecret) VShare() *big.Int     { return ds.skShare /*DSecret.skShare*/ }
func (ds *DSecret) VPid() uint16         { return ds.pid /*DSecret.pid*/ }
func (ds *DSecret) VServer() sync.Server { return ds.server /*DSecret.server*/ }

func (ads *ADSecret) VR() *big.Int                     { return ads.r /*ADSecret.r*/ }
func (ads *ADSecret) VEgf() *commitment.ElGamalFactory { return ads.egf /*ADSecret.egf*/ }
func (ads *ADSecret) VEgs() []*commitment.ElGamal      { return ads.egs /*ADSecret.egs*/ }

func (dk *DKey) VPkShares() []curve.Point { return dk.pkShares /*DKey.pkShares*/ }
func (dk *DKey) VSecret() *DSecret        { return dk.secret /*DKey.secret*/ }
func (tdk *TDKey) VSecretT() *TDSecret    { return tdk.secret /*TDKey.secret*/ }

func VDKey(secret *DSecret, pk curve.Point, shares []curve.Point) *DKey {
	return &DKey{secret /*DKey.secret*/ : secret, pk /*DKey.pk*/ : pk, pkShares /*DKey.pkShares*/ : shares}
}

// VTDKey is a threshold key
func VTDKey(secret *TDSecret, pk curve.Point, shares []curve.Point) *TDKey {
	k := &TDKey{secret /*TDKey.secret*/ : secret}
	k.pk /*DKey.pk*/, k.pkShares /*DKey.pkShares*/ = pk, shares
	return k
}
