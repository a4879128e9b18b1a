//verif:props C48 C49
package arith

import (
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

// zzCopy keeps the content of a secret.
type zzCopy struct{ share, r *big.Int }

func zzKeep(ts []*TDSecret) []zzCopy {
	k := make([]zzCopy, len(ts))
	for i, t := range ts {
		k[i] = zzCopy{new(big.Int).Set(t.skShare), new(big.Int).Set(t.r)}
	}
	return k
}

func zzUnchanged(ts []*TDSecret, k []zzCopy, egf *commitment.ElGamalFactory) {
	for i, t := range ts {
		zzsym.Assert(zzsym.And(zzsym.BigEq(t.skShare, k[i].share), zzsym.BigEq(t.r, k[i].r)), "operands keep their shares")
		for j := range t.egs {
			zzsym.Assert(t.egs[j].Equal(t.egs[j], egf.Create(k[j].share, k[j].r)), "operands keep their commitments")
		}
	}
}

func zzFactor(name string) *big.Int {
	return zzsym.Big(name, big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), 264))
}

func zzCheckLin(n, t int, egf *commitment.ElGamalFactory, alpha, beta *big.Int, a, b []*TDSecret, label string) []*TDSecret {
	ka, kb := zzKeep(a), zzKeep(b)
	al, be := new(big.Int).Set(alpha), new(big.Int).Set(beta)
	c := make([]*TDSecret, n)
	for i := range c {
		c[i] = Lin(alpha, beta, a[i], b[i], label)
	}
	zzsym.Assert(zzsym.And(zzsym.BigEq(alpha, al), zzsym.BigEq(beta, be)), "factors are unchanged")
	zzUnchanged(a, ka, egf)
	zzUnchanged(b, kb, egf)
	for i, x := range c {
		zzsym.Assert(x.pid == uint16(i) && x.t == uint16(t) && x.Label() == label && x.server == a[i].server && x.server != nil && x.egf == egf, "party, threshold, label and connection")
		zzsym.Assert(zzsym.BigEq(zzMod(x.skShare), zzSum(zzProd(al, ka[i].share), zzProd(be, kb[i].share))), "the share is the combination of the shares")
		zzsym.Assert(zzInRange(x.skShare), "the share is reduced")
		zzsym.Assert(len(x.egs) == n, "a commitment for everybody")
		if len(x.egs) != n {
			continue
		}
		for j, y := range c {
			zzsym.Assert(x.egs[j].Equal(x.egs[j], egf.Create(y.skShare, y.r)), "commitments match the shares")
		}
	}
	return c
}

func zzLin(n, t int) {
	egf := zzFct()
	net := zzNewNet(n)
	f, h := zzPoly("f", t), zzPoly("h", t)
	a, b := zzShared("a", net, egf, f), zzShared("b", net, egf, h)
	alpha, beta := zzFactor("alpha"), zzFactor("beta")
	c := zzCheckLin(n, t, egf, alpha, beta, a, b, "c")
	want := zzSum(zzProd(alpha, f[0]), zzProd(beta, h[0]))
	net.run(func(pid uint16, s sync.Server) {
		v, err := c[pid].Reveal()
		zzsym.Assert(err == nil && v != nil, "the combination can be revealed")
		if err == nil && v != nil {
			zzsym.Assert(zzsym.BigEq(v, want), "the combination of the secrets is revealed")
		}
	})
}

func VerifC48_All() {
	zzsym.Bound("every two polynomials, factors of up to 264 bits, up to 3 parties, every threshold")
	for n := 1; n <= 3; n++ {
		for t := 1; t <= n; t++ {
			zzLin(n, t)
		}
	}
}

func VerifC48_Chain() {
	zzsym.Bound("combinations of combinations and of a secret with itself, factors of up to 264 bits, 2 parties, threshold 2")
	egf := zzFct()
	net := zzNewNet(2)
	f, h := zzPoly("f", 2), zzPoly("h", 2)
	a, b := zzShared("a", net, egf, f), zzShared("b", net, egf, h)
	x, y, z, w := zzFactor("x"), zzFactor("y"), zzFactor("z"), zzFactor("w")
	c := zzCheckLin(2, 2, egf, x, y, a, b, "c")
	d := zzCheckLin(2, 2, egf, z, w, c, a, "d")
	zzCheckLin(2, 2, egf, x, w, a, a, "e")
	zzCheckLin(2, 2, egf, x, x, b, d, "g")
	net.run(func(pid uint16, s sync.Server) {
		v, err := d[pid].Reveal()
		zzsym.Assert(err == nil && v != nil, "the combination can be revealed")
		if err == nil && v != nil {
			zzsym.Assert(zzsym.BigEq(v, zzSum(zzProd(zzProd(z, x), f[0]), zzProd(zzProd(z, y), h[0]), zzProd(w, f[0]))), "the combination of the secrets is revealed")
		}
	})
}

func VerifC48_Exp() {
	zzsym.Bound("every two polynomials but no neutral points, 3 parties, threshold 2: the key of a combination")
	zzsym.Generic(true)
	g := zzGroup()
	egf := zzFct()
	net := zzNewNet(3)
	f, h := zzPoly("f", 2), zzPoly("h", 2)
	a, b := zzShared("a", net, egf, f), zzShared("b", net, egf, h)
	alpha, beta := zzFactor("alpha"), zzFactor("beta")
	c := zzCheckLin(3, 2, egf, alpha, beta, a, b, "c")
	net.run(func(pid uint16, s sync.Server) {
		k, err := c[pid].Exp()
		zzsym.Assert(err == nil && k != nil, "the combination can be exponentiated")
		if err == nil && k != nil {
			zzsym.Assert(g.Equal(k.PublicKey(), g.ScalarBaseMult(zzSum(zzProd(alpha, f[0]), zzProd(beta, h[0])))), "the key of the combination of the secrets")
		}
	})
	zzsym.Reach("done")
}

func zzCheckDH(n int, valid bool) {
	zzsym.Generic(true)
	g := zzGroup()
	net := zzNewNet(n)
	keys, sk := zzDKeys(net)
	du := zzsym.Scalar("u")
	dv := zzProd(du, sk)
	if !valid {
		dv = zzsym.Scalar("v")
		zzsym.Assume(!zzsym.BigEq(dv, zzProd(du, sk)))
	}
	u, v := g.ScalarBaseMult(du), g.ScalarBaseMult(dv)
	net.run(func(pid uint16, s sync.Server) {
		err := CheckDH(u, v, g, keys[pid])
		zzsym.Assert((err == nil) == valid, "exactly the right triples are accepted")
	})
	zzsym.Assert(g.Equal(u, g.ScalarBaseMult(du)) && g.Equal(v, g.ScalarBaseMult(dv)), "the points are unchanged")
	zzsym.Reach("done")
}

func VerifC49_Accept() {
	zzsym.Bound("every triple and key but no coincidences, 2 and 3 parties")
	zzCheckDH(2+zzsym.Choice("n", 2), true)
}

func VerifC49_Reject() {
	zzsym.Bound("every triple and key but no coincidences, 2 and 3 parties")
	zzCheckDH(2+zzsym.Choice("n", 2), false)
}

func VerifC49_Large() {
	zzsym.Bound("every triple and key but no coincidences, 4 and 5 parties")
	zzCheckDH(4+zzsym.Choice("n", 2), zzsym.Choice("valid", 2) == 0)
}

// One party, all values: a wrong triple is accepted only if the blinding vanishes.
func VerifC49_Exact() {
	zzsym.Bound("every triple, key and random value, 1 party")
	g := zzGroup()
	net := zzNewNet(1)
	keys, sk := zzDKeys(net)
	du, dv := zzsym.Scalar("u"), zzsym.Scalar("v")
	alpha, beta := zzsym.Scalar("alpha"), zzsym.Scalar("beta")
	zzsym.QueueRand(alpha)
	zzsym.QueueRand(beta)
	err := CheckDH(g.ScalarBaseMult(du), g.ScalarBaseMult(dv), g, keys[0])
	good := zzsym.BigEq(dv, zzProd(du, sk))
	zzsym.Assert(zzsym.Iff(err == nil, zzsym.Or(good, alpha.Sign() == 0)), "exactly the right triples are accepted")
}

func VerifC48_Wide() {
	zzsym.Bound("every two polynomials, factors of up to 264 bits, 9 parties, threshold 6")
	zzLin(9, 6)
}

func VerifC49_Wide() {
	zzsym.Bound("every triple and key but no coincidences, 9 parties")
	zzCheckDH(9, zzsym.Choice("valid", 2) == 0)
}
