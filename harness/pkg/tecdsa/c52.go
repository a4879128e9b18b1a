//verif:props C52
package tecdsa

import (
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

func zzECDSA(check func(sig *Signature, k, x, m *big.Int)) {
	zzsym.Generic(true)
	net, ps := zzInit(2)
	zzPresign(net, ps, 2)
	x := zzPlus(arith.ZZKeyShare(ps[0].key), arith.ZZKeyShare(ps[1].key))
	k, _, _, _ := zzContent(ps, 2)
	m := zzsym.Scalar("message")
	net.Run(func(pid uint16, s sync.Server) {
		sig, err := ps[pid].Sign(m)
		if err != nil || sig == nil {
			zzsym.Fail("signing succeeds")
		}
		check(sig, k, x, m)
	})
	zzsym.Reach("done")
}

func VerifC52_R() {
	zzsym.Bound("every message below the order and every randomness but no coincidences, start, preparation and signing, 2 parties, threshold 2")
	g := zzGroup()
	zzECDSA(func(sig *Signature, k, x, m *big.Int) {
		px, _ := zzsym.Coords(g.ScalarBaseMult(k))
		zzsym.Assert(zzsym.BigEq(sig.r, new(big.Int).Mod(px, zzsym.Order())), "r is the first coordinate of the point of k")
	})
}

func VerifC52_S() {
	zzsym.Bound("every message below the order and every randomness but no coincidences, start, preparation and signing, 2 parties, threshold 2")
	zzECDSA(func(sig *Signature, k, x, m *big.Int) {
		zzsym.Assert(zzsym.BigEq(zzTimes(sig.s, k), zzPlus(m, zzTimes(sig.r, x))), "s k = m + r x")
	})
}
