//verif:props C12
package commitment

import (
	"bytes"
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

func VerifC12_Components() {
	f, _ := zzFct()
	var d [4]*big.Int
	for i, n := range []string{"a1", "a2", "b1", "b2"} {
		d[i] = zzsym.Scalar(n)
	}
	a, b := zzPair(f, d[0], d[1]), zzPair(f, d[2], d[3])
	eq := zzsym.And(zzsym.BigEq(d[0], d[2]), zzsym.BigEq(d[1], d[3]))
	recv := []*ElGamal{a, b, f.Neutral()}[zzsym.Choice("receiver", 3)]
	zzsym.Assert(zzsym.Iff(recv.Equal(a, b), eq), "equal exactly if both components are equal")
	zzsym.Assert(zzsym.Iff(recv.Equal(b, a), eq), "symmetric")
	zzsym.Assert(recv.Equal(a, a), "reflexive")
	zzsym.Assert(zzsym.Iff(f.IsNeutral(a), zzsym.And(d[0].Sign() == 0, d[1].Sign() == 0)), "neutral exactly if both components are")
	zzHas(a, d[0], d[1], "unchanged")
	zzHas(b, d[2], d[3], "unchanged")
}

// The same on the real group operations.
func VerifC12_ComponentsReal() {
	zzsym.NoSummaries()
	f, _ := zzFct()
	var d [4]*big.Int
	for i, n := range []string{"a1", "a2", "b1", "b2"} {
		d[i] = zzsym.Scalar(n)
	}
	a, b := zzPair(f, d[0], d[1]), zzPair(f, d[2], d[3])
	eq := zzsym.And(zzsym.BigEq(d[0], d[2]), zzsym.BigEq(d[1], d[3]))
	zzsym.Assert(zzsym.Iff(f.Neutral().Equal(a, b), eq), "equal exactly if both components are equal")
	zzsym.Assert(zzsym.Iff(f.IsNeutral(a), zzsym.And(d[0].Sign() == 0, d[1].Sign() == 0)), "neutral exactly if both components are")
}

func VerifC12_Openings() {
	f, _ := zzFct()
	v1, r1, v2, r2 := zzWide("v1"), zzWide("r1"), zzWide("v2"), zzWide("r2")
	a, b := f.Create(v1, r1), f.Create(v2, r2)
	eq := zzsym.And(zzsym.BigEq(zzMod(v1), zzMod(v2)), zzsym.BigEq(zzMod(r1), zzMod(r2)))
	zzsym.Assert(zzsym.Iff(a.Equal(a, b), eq), "equal exactly if the openings agree")
	zzsym.Assert(zzsym.Iff(f.IsNeutral(a), zzsym.And(zzMod(v1).Sign() == 0, zzMod(r1).Sign() == 0)), "neutral exactly if the opening is zero")
}

// Neutral commitments computed in various ways are recognised, others are not.
func VerifC12_Computed() {
	f, _ := zzFct()
	v, r, n := zzsym.Scalar("v"), zzsym.Scalar("r"), zzsym.Scalar("n")
	a := f.Create(v, r)
	c := f.Neutral()
	var zv, zr *big.Int
	switch zzsym.Choice("how", 5) {
	case 0:
		c.Compose(a, f.Neutral().Inverse(a))
		zv, zr = big.NewInt(0), big.NewInt(0)
	case 1:
		c.Exp(a, n)
		zv, zr = zzMod(new(big.Int).Mul(v, n)), zzMod(new(big.Int).Mul(r, n))
	case 2:
		c.Exp(a, zzsym.Order())
		zv, zr = big.NewInt(0), big.NewInt(0)
	case 3:
		c.Compose(a, f.Neutral())
		zv, zr = v, r
	case 4:
		buf := &bytes.Buffer{}
		zzsym.Assert(a.Encode(buf) == nil, "encode succeeds")
		c = &ElGamal{}
		zzsym.Assert(c.Decode(buf) == nil, "decode succeeds")
		zv, zr = v, r
	}
	neutral := zzsym.And(zv.Sign() == 0, zr.Sign() == 0)
	zzsym.Assert(zzsym.Iff(f.IsNeutral(c), neutral), "neutral exactly if value and randomness vanish")
	zzsym.Assert(zzsym.Iff(c.Equal(c, f.Neutral()), neutral), "equal to the neutral commitment exactly if neutral")
	zzsym.Assert(zzsym.Iff(c.Equal(f.Neutral(), c), neutral), "equal to the neutral commitment exactly if neutral")
}
