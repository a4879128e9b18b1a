//verif:props C42 C44
package arith

import (
	"fmt"
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

func zzKeyGen(n, times int) {
	g := zzGroup()
	net := zzNewNet(n)
	// keys are generated twice with the same servers
	for k := 0; k < times; k++ {
		label := fmt.Sprintf("key%d", k)
		dks := make([]*DKey, n)
		errs := make([]error, n)
		net.run(func(pid uint16, s sync.Server) {
			dks[pid], errs[pid] = GenExpReveal(pid, label, s, uint16(n), g)
		})
		secret := big.NewInt(0)
		for i := range dks {
			zzsym.Assert(errs[i] == nil && dks[i] != nil, "key generation succeeds")
			if errs[i] != nil || dks[i] == nil {
				return
			}
			secret.Add(secret, dks[i].secret.skShare)
		}
		pk := g.ScalarBaseMult(secret)
		for i, dk := range dks {
			zzsym.Assert(g.Equal(dk.PublicKey(), pk), "the public key is that of the sum of the shares")
			zzsym.Assert(zzInRange(dk.secret.skShare), "shares are scalars")
			zzsym.Assert(dk.Label() == label, "label")
			zzsym.Assert(dk.secret.pid == uint16(i), "party")
			zzsym.Assert(dk.secret.server != nil, "connection")
			zzsym.Assert(len(dk.pkShares) == n, "a public share for everybody")
			if len(dk.pkShares) != n {
				return
			}
			for j := range dks {
				zzsym.Assert(g.Equal(dk.pkShares[j], g.ScalarBaseMult(dks[j].secret.skShare)), "public shares match the private ones")
			}
		}
	}
}

func VerifC42_Two() {
	zzsym.Bound("any random values, 2 parties")
	zzKeyGen(2, 1)
}

func VerifC42_Again() {
	zzsym.Bound("two generations in a row, any random values but no neutral points, 2 parties")
	zzsym.Generic(true)
	zzKeyGen(2, 2)
	zzsym.Reach("done")
}

func VerifC42_Three() {
	zzsym.Bound("two generations in a row, any random values but no neutral points, 3 parties")
	zzsym.Generic(true)
	zzKeyGen(3, 2)
	zzsym.Reach("done")
}

func VerifC42_ThreeNeutral_T() {
	zzsym.Bound("any random values, 3 parties")
	zzKeyGen(3, 1)
}

func VerifC42_Five() {
	zzsym.Bound("two generations in a row, any random values but no neutral points, 5 parties")
	zzsym.Generic(true)
	zzKeyGen(5, 2)
	zzsym.Reach("done")
}

// The private shares are values of the random source, one for each party.
func VerifC42_Random() {
	zzsym.Bound("any random values, 2 parties")
	g := zzGroup()
	q := []*big.Int{zzsym.Scalar("q0"), zzsym.Scalar("q1")}
	zzsym.QueueRand(q[0])
	zzsym.QueueRand(q[1])
	net := zzNewNet(2)
	dks := make([]*DKey, 2)
	errs := make([]error, 2)
	net.run(func(pid uint16, s sync.Server) {
		dks[pid], errs[pid] = GenExpReveal(pid, "x", s, 2, g)
	})
	if errs[0] != nil || errs[1] != nil {
		zzsym.Fail("key generation succeeds")
		return
	}
	for i := range dks {
		zzsym.Assert(zzsym.BigEq(dks[i].secret.skShare, q[i]), "the share is a random value of its own")
	}
}

// What comes out of NewDKey.
func VerifC42_New() {
	zzsym.Bound("any public shares, up to 4 parties")
	g := zzGroup()
	for n := 1; n <= 4; n++ {
		shares := make([]curve.Point, n)
		sum := big.NewInt(0)
		for i := range shares {
			s := zzsym.Scalar(fmt.Sprintf("s%d", i))
			shares[i] = g.ScalarBaseMult(s)
			sum.Add(sum, s)
		}
		dk := NewDKey(NewDSecret(0, "l", zzsym.Scalar("x"), nil), shares, g)
		zzsym.Assert(g.Equal(dk.PublicKey(), g.ScalarBaseMult(sum)), "the public key is the sum of the public shares")
		zzsym.Assert(dk.Label() == "l", "label")
	}
}

func zzGenSecret(n, times int) {
	egf := zzFct()
	net := zzNewNet(n)
	for k := 0; k < times; k++ {
		label := fmt.Sprintf("secret%d", k)
		ads := make([]*ADSecret, n)
		errs := make([]error, n)
		net.run(func(pid uint16, s sync.Server) {
			ads[pid], errs[pid] = Gen(label, s, egf, pid, uint16(n))
		})
		for i := range ads {
			zzsym.Assert(errs[i] == nil && ads[i] != nil, "generation succeeds")
			if errs[i] != nil || ads[i] == nil {
				return
			}
		}
		for i, a := range ads {
			zzsym.Assert(zzsym.And(zzInRange(a.skShare), zzInRange(a.r)), "shares and randomness are scalars")
			zzsym.Assert(a.Label() == label && a.pid == uint16(i) && a.server != nil && a.egf == egf, "label, party, connection and factory")
			zzsym.Assert(len(a.egs) == n, "a commitment for everybody")
			if len(a.egs) != n {
				return
			}
			for j, b := range ads {
				zzsym.Assert(a.egs[j].Equal(a.egs[j], egf.Create(b.skShare, b.r)), "commitments match the shares")
			}
		}
	}
}

func VerifC44_Two() {
	zzsym.Bound("any random values, 2 parties")
	zzGenSecret(2, 1)
}

func VerifC44_Again() {
	zzsym.Bound("two generations in a row, any random values but no neutral points, 2 parties")
	zzsym.Generic(true)
	zzGenSecret(2, 2)
	zzsym.Reach("done")
}

func VerifC44_Three() {
	zzsym.Bound("two generations in a row, any random values but no neutral points, 3 parties")
	zzsym.Generic(true)
	zzGenSecret(3, 2)
	zzsym.Reach("done")
}

func VerifC44_ThreeNeutral_T() {
	zzsym.Bound("any random values, 3 parties")
	zzGenSecret(3, 1)
}

func VerifC44_Five() {
	zzsym.Bound("two generations in a row, any random values but no neutral points, 5 parties")
	zzsym.Generic(true)
	zzGenSecret(5, 2)
	zzsym.Reach("done")
}

// Share and randomness are two values of the random source.
func VerifC44_Random() {
	zzsym.Bound("any random values, 2 parties")
	egf := zzFct()
	q := make([]*big.Int, 4)
	for i := range q {
		q[i] = zzsym.Scalar(fmt.Sprintf("q%d", i))
		zzsym.QueueRand(q[i])
	}
	net := zzNewNet(2)
	ads := make([]*ADSecret, 2)
	errs := make([]error, 2)
	net.run(func(pid uint16, s sync.Server) {
		ads[pid], errs[pid] = Gen("x", s, egf, pid, 2)
	})
	if errs[0] != nil || errs[1] != nil {
		zzsym.Fail("generation succeeds")
		return
	}
	zzsym.Assert(zzsym.RandLeft() == 0, "two random values each")
	for i, a := range ads {
		x, y := q[2*i], q[2*i+1]
		one := zzsym.And(zzsym.BigEq(a.skShare, x), zzsym.BigEq(a.r, y))
		two := zzsym.And(zzsym.BigEq(a.skShare, y), zzsym.BigEq(a.r, x))
		zzsym.Assert(zzsym.Or(one, two), "share and randomness are random values of their own")
	}
}

func VerifC42_Wide() {
	zzsym.Bound("any random values but no neutral points, 9 and 17 parties")
	zzsym.Generic(true)
	zzKeyGen([]int{9, 17}[zzsym.Choice("n", 2)], 1)
	zzsym.Reach("done")
}

func VerifC44_Wide() {
	zzsym.Bound("any random values but no neutral points, 9 and 17 parties")
	zzsym.Generic(true)
	zzGenSecret([]int{9, 17}[zzsym.Choice("n", 2)], 1)
	zzsym.Reach("done")
}
