//verif:props C03
package commitment

import (
	"bytes"
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

// No commitment operation changes the values it is given.
func VerifC03_Commitments() {
	g := curve.NewSecp256k1Group()
	t := zzsym.Scalar("base")
	h := g.ScalarBaseMult(t)
	f := NewElGamalFactory(h)
	v, r, n := zzWide("v"), zzWide("r"), zzWide("n")
	v0, r0, n0 := new(big.Int).Set(v), new(big.Int).Set(r), new(big.Int).Set(n)
	a := f.Create(v, r)
	b := f.Create(n, v)
	zzIs(a, t, v0, r0, "first commitment")
	c := f.Neutral()
	switch zzsym.Choice("op", 7) {
	case 0:
		c.Compose(a, b)
	case 1:
		c.Exp(a, n)
	case 2:
		c.Inverse(a)
	case 3:
		c.Equal(a, b)
	case 4:
		f.IsNeutral(a)
	case 5:
		a.Encode(&bytes.Buffer{})
	case 6:
		buf := &bytes.Buffer{}
		b.Encode(buf)
		c.Decode(buf)
	}
	zzsym.Assert(zzsym.And(zzsym.BigEq(v, v0), zzsym.And(zzsym.BigEq(r, r0), zzsym.BigEq(n, n0))), "integers unchanged")
	zzIs(a, t, v0, r0, "commitment unchanged")
	zzIs(b, t, n0, v0, "commitment unchanged")
	zzsym.Assert(g.Equal(h, g.ScalarBaseMult(t)), "base unchanged")
	// changing the integers afterwards changes nothing
	v.SetInt64(3)
	r.SetInt64(4)
	zzIs(a, t, v0, r0, "commitment independent of the integers")
	// the factory still makes the same commitments
	zzIs(f.Create(v0, r0), t, v0, r0, "factory unchanged")
	zzsym.Assert(f.IsNeutral(f.Neutral()), "neutral commitment unchanged")
	zzsym.Assert(zzsym.BigEq(f.Curve().Order(), zzsym.Order()), "order unchanged")
}

// Commitments made by one factory are independent of each other.
func VerifC03_Independent() {
	f, t := zzFct()
	v, r, n := zzsym.Scalar("v"), zzsym.Scalar("r"), zzsym.Scalar("n")
	x, y := f.Neutral(), f.Neutral()
	a, b := f.Create(v, r), f.Create(v, r)
	x.Compose(x, a)
	x.Exp(x, n)
	a.Inverse(a)
	zero := big.NewInt(0)
	zzIs(y, t, zero, zero, "other neutral commitment unchanged")
	zzIs(f.Neutral(), t, zero, zero, "new neutral commitment")
	zzIs(b, t, v, r, "other commitment unchanged")
	zzsym.Assert(f.IsNeutral(y), "neutral commitment recognised")
}
