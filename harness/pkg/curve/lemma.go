//verif:props lemma
package curve

import (
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

// The lemmas relate every group operation to the canonical representation
// ScalarBaseMult(d mod N). Once they hold on the current tree, calls of the
// group from other packages are replaced by their right-hand sides.

func VerifLemma_Consts() {
	g := NewSecp256k1Group()
	n := zzsym.Order()
	zzsym.Assert(zzsym.BigEq(g.Order(), n), "order")
	zzsym.Assert(zzsym.Same(g.Gen(), g.ScalarBaseMult(big.NewInt(1))), "gen")
	zzsym.Assert(zzsym.Same(g.Neutral(), g.ScalarBaseMult(big.NewInt(0))), "neutral")
	zzsym.Assert(zzsym.BigEq(g.Order(), n), "order unchanged")
}

func VerifLemma_Add() {
	g := NewSecp256k1Group()
	a, b := zzsym.Scalar("a"), zzsym.Scalar("b")
	p, q := g.ScalarBaseMult(a), g.ScalarBaseMult(b)
	s := g.Add(p, q)
	zzsym.Assert(zzsym.Same(s, g.ScalarBaseMult(new(big.Int).Mod(new(big.Int).Add(a, b), zzsym.Order()))), "sum")
	zzsym.Assert(zzsym.And(zzsym.Same(p, g.ScalarBaseMult(a)), zzsym.Same(q, g.ScalarBaseMult(b))), "operands unchanged")
}

func VerifLemma_Neg() {
	g := NewSecp256k1Group()
	a := zzsym.Scalar("a")
	p := g.ScalarBaseMult(a)
	s := g.Neg(p)
	zzsym.Assert(zzsym.Same(s, g.ScalarBaseMult(new(big.Int).Mod(new(big.Int).Neg(a), zzsym.Order()))), "negation")
	zzsym.Assert(zzsym.Same(p, g.ScalarBaseMult(a)), "operand unchanged")
}

func VerifLemma_ScalarMult() {
	g := NewSecp256k1Group()
	a := zzsym.Scalar("a")
	k := zzsym.Big("k", big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), 640))
	k0 := new(big.Int).Set(k)
	p := g.ScalarBaseMult(a)
	s := g.ScalarMult(p, k)
	zzsym.Assert(zzsym.Same(s, g.ScalarBaseMult(new(big.Int).Mod(new(big.Int).Mul(a, k0), zzsym.Order()))), "product")
	zzsym.Assert(zzsym.Same(p, g.ScalarBaseMult(a)), "operand unchanged")
	zzsym.Assert(zzsym.BigEq(k, k0), "scalar unchanged")
}

func VerifLemma_ScalarBaseMult() {
	g := NewSecp256k1Group()
	k := zzsym.Big("k", big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), 640))
	k0 := new(big.Int).Set(k)
	s := g.ScalarBaseMult(k)
	zzsym.Assert(zzsym.Same(s, g.ScalarBaseMult(new(big.Int).Mod(k0, zzsym.Order()))), "reduced scalar")
	zzsym.Assert(zzsym.BigEq(k, k0), "scalar unchanged")
	zzsym.Assert(zzsym.BigEq(g.Order(), zzsym.Order()), "order unchanged")
}

func VerifLemma_Equal() {
	g := NewSecp256k1Group()
	a, b := zzsym.Scalar("a"), zzsym.Scalar("b")
	p, q := g.ScalarBaseMult(a), g.ScalarBaseMult(b)
	zzsym.Assert(zzsym.Iff(g.Equal(p, q), zzsym.BigEq(a, b)), "equality")
	zzsym.Assert(zzsym.And(zzsym.Same(p, g.ScalarBaseMult(a)), zzsym.Same(q, g.ScalarBaseMult(b))), "operands unchanged")
}
