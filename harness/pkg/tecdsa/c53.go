//verif:props C53
package tecdsa

import (
	"bytes"
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	crypto "gitlab.com/alephledger/threshold-ecdsa/pkg/crypto"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

func zzSign(net arith.ZZNet, ps []*Protocol, t int) {
	k, rho, eta, tau := zzContent(ps, t)
	g := zzGroup()
	buf := &bytes.Buffer{}
	if g.Encode(g.ScalarBaseMult(k), buf) != nil {
		zzsym.Fail("points can be encoded")
	}
	r := crypto.HashToBigInt(buf.Bytes())
	m := zzsym.Big("message", big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), 512))
	net.Run(func(pid uint16, s sync.Server) {
		keep := new(big.Int).Set(m)
		sig, err := ps[pid].Sign(m)
		zzsym.Assert(err == nil && sig != nil, "signing succeeds")
		if err != nil || sig == nil {
			return
		}
		zzsym.Assert(zzsym.BigEq(m, keep), "the message is unchanged")
		zzsym.Assert(zzsym.BigEq(sig.r, r), "r belongs to the point of k")
		zzsym.Assert(zzsym.And(sig.s.Sign() >= 0, sig.s.Cmp(zzsym.Order()) < 0), "s is a scalar")
		zzsym.Assert(zzsym.BigEq(zzTimes(sig.s, tau), zzPlus(zzTimes(m, rho), zzTimes(r, eta))), "s is the combination of the presignature")
	})
}

func zzAll(n, t int) {
	zzsym.Generic(true)
	net, ps := zzInit(n)
	zzPresign(net, ps, t)
	zzSign(net, ps, t)
	zzsym.Reach("done")
}

func VerifC53_Sign() {
	zzsym.Bound("every message of up to 512 bits and every randomness but no coincidences, start, preparation and signing, 2 parties, every threshold")
	zzAll(2, 1+zzsym.Choice("t", 2))
}

func VerifC53_SignThree_T() {
	zzsym.Bound("every message of up to 512 bits and every randomness but no coincidences, start, preparation and signing, 3 parties, every threshold")
	zzAll(3, 1+zzsym.Choice("t", 3))
}

// Presignatures of any content.
func VerifC53_Any() {
	zzsym.Bound("every message of up to 512 bits and presignature but no coincidences, up to 3 parties, every threshold, two messages")
	zzsym.Generic(true)
	n := 1 + zzsym.Choice("n", 3)
	t := 1 + zzsym.Choice("t", n)
	net := arith.ZZNewNet(n)
	ps := zzPresigned(net, n, t, 2)
	zzSign(net, ps, t)
	zzSign(net, ps, t)
	zzsym.Reach("done")
}

// A party is missing, but a threshold of them remains.
func VerifC53_Missing() {
	zzsym.Bound("every message of up to 512 bits and presignature but no coincidences, 3 parties, threshold 1 or 2, the data of one party missing everywhere")
	zzsym.Generic(true)
	t := 1 + zzsym.Choice("t", 2)
	net := arith.ZZNewNet(3)
	ps := zzPresigned(net, 3, t, 1)
	missing := zzsym.Choice("missing", 3)
	net.Alter(func(round, from, to int, data []byte) []byte {
		if from == missing {
			return nil
		}
		return data
	})
	zzSign(net, ps, t)
	zzsym.Reach("done")
}

func VerifC53_Init() {
	zzsym.Bound("every randomness but no coincidences, 2 and 3 parties")
	zzsym.Generic(true)
	g := zzGroup()
	n := 2 + zzsym.Choice("n", 2)
	_, ps := zzInit(n)
	x, h := big.NewInt(0), big.NewInt(0)
	for _, p := range ps {
		x = zzPlus(x, arith.ZZKeyShare(p.key))
		h = zzPlus(h, arith.ZZKeyShare(p.egKey))
	}
	for i, p := range ps {
		zzsym.Assert(int(p.pid) == i && int(p.nProc) == n && len(p.presig) == 0, "party and number of parties")
		zzsym.Assert(g.Equal(p.key.PublicKey(), g.ScalarBaseMult(x)), "the same key everywhere, of the sum of the shares")
		zzsym.Assert(g.Equal(p.egKey.PublicKey(), g.ScalarBaseMult(h)), "the same key for commitments everywhere, of the sum of the shares")
		v, r := zzsym.Scalar("v"), zzsym.Scalar("r")
		c := p.egf.Create(v, r)
		zzsym.Assert(c.Equal(c, commitment.NewElGamalFactory(p.egKey.PublicKey()).Create(v, r)), "commitments are based on their own key")
		if g.Equal(p.key.PublicKey(), p.egKey.PublicKey()) {
			zzsym.Fail("the keys are different")
		}
	}
	zzsym.Reach("done")
}

func VerifC53_Wide() {
	zzsym.Bound("every message of up to 512 bits and presignature but no coincidences, 8 parties, threshold 5, one or two messages")
	zzsym.Generic(true)
	net := arith.ZZNewNet(8)
	ps := zzPresigned(net, 8, 5, 2)
	zzSign(net, ps, 5)
	if zzsym.Choice("again", 2) == 1 {
		zzSign(net, ps, 5)
	}
	zzsym.Reach("done")
}

// Preparations with different thresholds.
func VerifC53_Mixed() {
	zzsym.Bound("every message of up to 512 bits and every randomness but no coincidences, 2 parties, two preparations with any thresholds, signing with both")
	zzsym.Generic(true)
	net, ps := zzInit(2)
	a, b := 1+zzsym.Choice("first", 2), 1+zzsym.Choice("second", 2)
	zzPresign(net, ps, a)
	zzPresign(net, ps, b)
	for _, p := range ps {
		zzsym.Assert(len(p.presig) == 2, "every preparation adds a presignature")
		for i, t := range []int{a, b} {
			if i < len(p.presig) {
				zzsym.Assert(int(p.presig[i].t) == t, "the threshold asked for")
			}
		}
	}
	zzSign(net, ps, a)
	zzSign(net, ps, b)
	zzsym.Reach("done")
}
