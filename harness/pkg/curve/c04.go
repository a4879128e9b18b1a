//verif:props C04
package curve

import (
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

func VerifC04_Exact() {
	g := NewSecp256k1Group()
	a, b := zzsym.Scalar("a"), zzsym.Scalar("b")
	p, q := g.ScalarBaseMult(a), g.ScalarBaseMult(b)
	zzsym.Place("a", p)
	zzsym.Place("b", q)
	eq := g.Equal(p, q)
	zzsym.Assert(zzsym.Iff(eq, zzsym.BigEq(a, b)), "equal iff same element")
	zzsym.Assert(eq == g.Equal(q, p), "symmetric")
	zzsym.Assert(g.Equal(p, p), "reflexive")
}

// Equality of results of operations.
func VerifC04_Computed() {
	g := NewSecp256k1Group()
	n := zzsym.Order()
	a, b, c := zzsym.Scalar("a"), zzsym.Scalar("b"), zzsym.Scalar("c")
	var s Point
	var d *big.Int
	switch zzsym.Choice("op", 3) {
	case 0:
		s, d = g.Add(g.ScalarBaseMult(a), g.ScalarBaseMult(b)), new(big.Int).Add(a, b)
	case 1:
		s, d = g.ScalarMult(g.ScalarBaseMult(a), b), new(big.Int).Mul(a, b)
	case 2:
		s, d = g.Neg(g.ScalarBaseMult(a)), new(big.Int).Neg(a)
	}
	q := g.ScalarBaseMult(c)
	zzsym.Assert(zzsym.Iff(g.Equal(s, q), zzsym.BigEq(new(big.Int).Mod(d, n), c)), "equal iff same element")
}

func VerifC04_Neutral() {
	g := NewSecp256k1Group()
	a := zzsym.Scalar("a")
	p := g.ScalarBaseMult(a)
	z := g.Neutral()
	switch zzsym.Choice("neutral", 4) {
	case 1:
		z = g.ScalarBaseMult(big.NewInt(0))
	case 2:
		z = g.Add(p, g.Neg(p))
	case 3:
		z = g.ScalarMult(p, big.NewInt(0))
	}
	zzsym.Assert(g.Equal(z, g.Neutral()), "neutral equals neutral")
	zzsym.Assert(zzsym.Iff(g.Equal(p, z), zzsym.BigEq(a, big.NewInt(0))), "neutral equals only neutral")
	zzsym.Assert(zzsym.Iff(g.Equal(z, p), zzsym.BigEq(a, big.NewInt(0))), "neutral equals only neutral, symmetric")
}
