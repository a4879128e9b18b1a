//verif:props C01
package curve

import (
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

func zzMod(x *big.Int) *big.Int { return new(big.Int).Mod(x, zzsym.Order()) }

// Addition agrees with addition of logarithms, for every pair of points.
func VerifC01_Add() {
	g := NewSecp256k1Group()
	a, b := zzsym.Scalar("a"), zzsym.Scalar("b")
	p, q := g.ScalarBaseMult(a), g.ScalarBaseMult(b)
	s := g.Add(p, q)
	zzsym.Assert(g.Equal(s, g.ScalarBaseMult(zzMod(new(big.Int).Add(a, b)))), "aG+bG=(a+b)G")
	zzsym.Assert(g.Equal(s, g.Add(q, p)), "commutative")
}

func VerifC01_Add3() {
	g := NewSecp256k1Group()
	a, b, c := zzsym.Scalar("a"), zzsym.Scalar("b"), zzsym.Scalar("c")
	p, q, r := g.ScalarBaseMult(a), g.ScalarBaseMult(b), g.ScalarBaseMult(c)
	zzsym.Assert(g.Equal(g.Add(g.Add(p, q), r), g.Add(p, g.Add(q, r))), "associative")
}

func VerifC01_Neg() {
	g := NewSecp256k1Group()
	a := zzsym.Scalar("a")
	p := g.ScalarBaseMult(a)
	m := g.Neg(p)
	zzsym.Assert(g.Equal(m, g.ScalarBaseMult(zzMod(new(big.Int).Neg(a)))), "-(aG)=(-a)G")
	zzsym.Assert(g.Equal(g.Add(p, m), g.Neutral()), "P+(-P)=0")
	zzsym.Assert(g.Equal(g.Add(m, p), g.Neutral()), "(-P)+P=0")
	zzsym.Assert(g.Equal(g.Neg(m), p), "-(-P)=P")
}

func VerifC01_Neutral() {
	g := NewSecp256k1Group()
	a, k := zzsym.Scalar("a"), zzsym.Scalar("k")
	p := g.ScalarBaseMult(a)
	// the neutral element as a constant and as a computed result
	z := g.Neutral()
	switch zzsym.Choice("neutral", 4) {
	case 1:
		z = g.ScalarBaseMult(big.NewInt(0))
	case 2:
		z = g.ScalarMult(g.Gen(), big.NewInt(0))
	case 3:
		z = g.Add(g.Gen(), g.ScalarBaseMult(new(big.Int).Sub(zzsym.Order(), big.NewInt(1))))
	}
	zzsym.Assert(g.Equal(z, g.Neutral()), "neutral results are neutral")
	zzsym.Assert(g.Equal(g.Add(p, z), p), "P+0=P")
	zzsym.Assert(g.Equal(g.Add(z, p), p), "0+P=P")
	zzsym.Assert(g.Equal(g.Neg(z), z), "-0=0")
	zzsym.Assert(g.Equal(g.ScalarMult(z, k), z), "k0=0")
	zzsym.Assert(g.Equal(g.Add(z, z), z), "0+0=0")
}

func VerifC01_Distribute() {
	g := NewSecp256k1Group()
	a, b, d := zzsym.Scalar("a"), zzsym.Scalar("b"), zzsym.Scalar("d")
	p := g.ScalarBaseMult(d)
	zzsym.Assert(g.Equal(g.Add(g.ScalarMult(p, a), g.ScalarMult(p, b)), g.ScalarMult(p, zzMod(new(big.Int).Add(a, b)))), "aP+bP=(a+b)P")
	zzsym.Assert(g.Equal(g.ScalarMult(g.ScalarMult(p, b), a), g.ScalarMult(p, zzMod(new(big.Int).Mul(a, b)))), "a(bP)=(ab)P")
}

func VerifC01_Distribute2() {
	g := NewSecp256k1Group()
	a, d, e := zzsym.Scalar("a"), zzsym.Scalar("d"), zzsym.Scalar("e")
	p, q := g.ScalarBaseMult(d), g.ScalarBaseMult(e)
	zzsym.Assert(g.Equal(g.ScalarMult(g.Add(p, q), a), g.Add(g.ScalarMult(p, a), g.ScalarMult(q, a))), "a(P+Q)=aP+aQ")
}

func VerifC01_Base() {
	g := NewSecp256k1Group()
	a := zzsym.Scalar("a")
	zzsym.Assert(g.Equal(g.ScalarBaseMult(a), g.ScalarMult(g.Gen(), a)), "base multiplication")
	zzsym.Assert(g.Equal(g.ScalarMult(g.Gen(), g.Order()), g.Neutral()), "order annihilates")
	zzsym.Assert(zzsym.BigEq(g.Order(), zzsym.Order()), "order")
	zzsym.Assert(zzsym.Iff(g.Equal(g.ScalarBaseMult(a), g.Neutral()), zzsym.BigEq(a, big.NewInt(0))), "generator has full order")
}
