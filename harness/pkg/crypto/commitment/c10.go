//verif:props C10
package commitment

import (
	"bytes"
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

// A commitment is (r G, r H + v G), for integers of any size up to 264 bits.
func VerifC10_Create() {
	zzsym.Bound("values, randomness and exponents of up to 264 bits; any base")
	f, t := zzFct()
	v, r := zzWide("v"), zzWide("r")
	v0, r0 := new(big.Int).Set(v), new(big.Int).Set(r)
	c := f.Create(v, r)
	zzIs(c, t, v0, r0, "commitment is (r G, r H + v G)")
	// the same with the group's own operations
	g := curve.NewSecp256k1Group()
	h := g.ScalarBaseMult(t)
	zzsym.Assert(g.Equal(c.first, g.ScalarBaseMult(r0)), "first component")
	zzsym.Assert(g.Equal(c.second, g.Add(g.ScalarMult(h, r0), g.ScalarBaseMult(v0))), "second component")
}

// The same on the real group operations, without summaries.
func VerifC10_CreateReal() {
	zzsym.NoSummaries()
	f, t := zzFct()
	v, r := zzWide("v"), zzWide("r")
	c := f.Create(v, r)
	zzIs(c, t, v, r, "commitment is (r G, r H + v G)")
}

func VerifC10_Compose() {
	f, t := zzFct()
	v1, r1, v2, r2 := zzWide("v1"), zzWide("r1"), zzWide("v2"), zzWide("r2")
	c := f.Neutral().Compose(f.Create(v1, r1), f.Create(v2, r2))
	v, r := new(big.Int).Add(v1, v2), new(big.Int).Add(r1, r2)
	zzIs(c, t, v, r, "composition adds values and randomness")
	zzsym.Assert(c.Equal(c, f.Create(v, r)), "equal to the commitment to the sum")
}

func VerifC10_Exp() {
	f, t := zzFct()
	v, r, n := zzWide("v"), zzWide("r"), zzWide("n")
	c := f.Neutral().Exp(f.Create(v, r), n)
	v.Mul(v, n)
	r.Mul(r, n)
	zzIs(c, t, v, r, "exponentiation scales value and randomness")
	zzsym.Assert(c.Equal(c, f.Create(zzMod(v), zzMod(r))), "equal to the commitment to the multiple")
}

func VerifC10_Inverse() {
	f, t := zzFct()
	v, r := zzWide("v"), zzWide("r")
	a := f.Create(v, r)
	c := f.Neutral().Inverse(a)
	nv, nr := zzMod(new(big.Int).Neg(v)), zzMod(new(big.Int).Neg(r))
	zzIs(c, t, nv, nr, "inversion negates value and randomness")
	zzsym.Assert(c.Equal(c, f.Create(nv, nr)), "equal to the commitment to the negation")
	zzsym.Assert(f.IsNeutral(f.Neutral().Compose(a, c)), "composed with the inverse it is neutral")
}

func VerifC10_Neutral() {
	f, t := zzFct()
	v, r := zzWide("v"), zzWide("r")
	n := f.Neutral()
	zzIs(n, t, big.NewInt(0), big.NewInt(0), "neutral commitment")
	zzIs(f.Neutral().Compose(n, f.Create(v, r)), t, v, r, "neutral on the left")
	zzIs(f.Neutral().Compose(f.Create(v, r), n), t, v, r, "neutral on the right")
	zzIs(f.Neutral().Exp(n, v), t, big.NewInt(0), big.NewInt(0), "power of the neutral commitment")
	zzIs(f.Neutral().Inverse(n), t, big.NewInt(0), big.NewInt(0), "inverse of the neutral commitment")
	zzIs(f.Neutral().Exp(f.Create(v, r), big.NewInt(0)), t, big.NewInt(0), big.NewInt(0), "power with exponent zero")
	zzIs(f.Neutral().Exp(f.Create(v, r), big.NewInt(1)), t, v, r, "power with exponent one")
}

// Any two operations in a row, on commitments, results and decoded commitments.
func VerifC10_Sequences() {
	zzsym.Bound("sequences of three operations on two commitments")
	f, t := zzFct()
	v := []*big.Int{zzsym.Scalar("v1"), zzsym.Scalar("v2")}
	r := []*big.Int{zzsym.Scalar("r1"), zzsym.Scalar("r2")}
	n := zzsym.Scalar("n")
	c := []*ElGamal{f.Create(v[0], r[0]), f.Create(v[1], r[1])}
	for k := 0; k < 3; k++ {
		last := len(c) - 1
		d := f.Neutral()
		switch zzsym.Choice("op", 4) {
		case 0:
			d.Compose(c[last], c[0])
			v = append(v, new(big.Int).Add(v[last], v[0]))
			r = append(r, new(big.Int).Add(r[last], r[0]))
		case 1:
			d.Exp(c[last], n)
			v = append(v, new(big.Int).Mul(v[last], n))
			r = append(r, new(big.Int).Mul(r[last], n))
		case 2:
			d.Inverse(c[last])
			v = append(v, new(big.Int).Neg(v[last]))
			r = append(r, new(big.Int).Neg(r[last]))
		case 3:
			buf := &bytes.Buffer{}
			zzsym.Assert(c[last].Encode(buf) == nil, "encode succeeds")
			d = &ElGamal{}
			zzsym.Assert(d.Decode(buf) == nil, "decode succeeds")
			v = append(v, v[last])
			r = append(r, r[last])
		}
		c = append(c, d)
	}
	for i := range c {
		zzIs(c[i], t, v[i], r[i], "values follow the operations")
	}
}

// The caller's integers may change between two commitments.
func VerifC10_Reused() {
	zzsym.Bound("commitments and powers made of the same integers, changed in between")
	f, t := zzFct()
	v, r, w, s := zzsym.Scalar("v"), zzsym.Scalar("r"), zzsym.Scalar("w"), zzsym.Scalar("s")
	v0, r0 := new(big.Int).Set(v), new(big.Int).Set(r)
	c := f.Create(v, r)
	v.Set(w)
	d := f.Create(v, r)
	r.Set(s)
	e := f.Create(v, r)
	zzIs(c, t, v0, r0, "before the change")
	zzIs(d, t, w, r0, "with another value")
	zzIs(e, t, w, s, "with other randomness")
	n := new(big.Int).Set(v0)
	a := f.Neutral().Exp(e, n)
	n.Set(r0)
	b := f.Neutral().Exp(e, n)
	zzIs(a, t, new(big.Int).Mul(w, v0), new(big.Int).Mul(s, v0), "power")
	zzIs(b, t, new(big.Int).Mul(w, r0), new(big.Int).Mul(s, r0), "power with the changed exponent")
	// the commitment changes as well
	e.Compose(e, c)
	a = f.Neutral().Exp(e, n)
	zzIs(a, t, new(big.Int).Mul(new(big.Int).Add(w, v0), r0), new(big.Int).Mul(new(big.Int).Add(s, r0), r0), "power of the changed commitment")
}
