//verif:props C03
package curve

import (
	"bytes"
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

// zzOp applies one of the operations; it returns a result point if there is one.
func zzOp(g Group, op int, p, q Point, k *big.Int) Point {
	switch op {
	case 0:
		return g.Add(p, q)
	case 1:
		return g.Neg(p)
	case 2:
		return g.ScalarMult(p, k)
	case 3:
		return g.ScalarBaseMult(k)
	case 4:
		g.Equal(p, q)
	case 5:
		g.Encode(p, &bytes.Buffer{})
	case 6:
		return g.Gen()
	}
	return g.Neutral()
}

const zzOps = 7

func zzGroupIntact(g Group) {
	zzsym.Assert(zzsym.BigEq(g.Order(), zzsym.Order()), "order unchanged")
	x, y := zzsym.Coords(g.Gen())
	h := NewSecp256k1Group()
	rx, ry := zzsym.Coords(h.ScalarBaseMult(big.NewInt(1)))
	zzsym.Assert(zzsym.And(zzsym.BigEq(x, rx), zzsym.BigEq(y, ry)), "generator unchanged")
}

// No operation changes its operands.
func VerifC03_Operands() {
	zzsym.NoSummaries()
	g := NewSecp256k1Group()
	a, b := zzsym.Scalar("a"), zzsym.Scalar("b")
	k := zzsym.Big("k", big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), 640))
	a0, b0, k0 := new(big.Int).Set(a), new(big.Int).Set(b), new(big.Int).Set(k)
	p, q := g.ScalarBaseMult(a), g.ScalarBaseMult(b)
	zzOp(g, zzsym.Choice("op", zzOps), p, q, k)
	zzsym.Assert(zzsym.BigEq(k, k0), "scalar unchanged")
	zzsym.Assert(zzsym.And(zzsym.BigEq(a, a0), zzsym.BigEq(b, b0)), "scalars of the operands unchanged")
	zzsym.Assert(zzsym.Same(p, g.ScalarBaseMult(a0)), "first point unchanged")
	zzsym.Assert(zzsym.Same(q, g.ScalarBaseMult(b0)), "second point unchanged")
	zzGroupIntact(g)
}

// No operation changes the result of an earlier one or what it was made from.
func VerifC03_Histories() {
	zzsym.NoSummaries()
	zzsym.Bound("histories of two operations")
	g := NewSecp256k1Group()
	a, b, k := zzsym.Scalar("a"), zzsym.Scalar("b"), zzsym.Scalar("k")
	p, q := g.ScalarBaseMult(a), g.ScalarBaseMult(b)
	op := zzsym.Choice("op1", zzOps)
	r := zzOp(g, op, p, q, k)
	same := zzOp(g, op, g.ScalarBaseMult(a), g.ScalarBaseMult(b), new(big.Int).Set(k))
	zzsym.Assert(zzsym.Same(r, same), "operations are functions of their operands")
	switch zzsym.Choice("args", 3) {
	case 0:
		zzOp(g, zzsym.Choice("op2", zzOps), p, r, k)
	case 1:
		zzOp(g, zzsym.Choice("op2", zzOps), r, p, k)
	case 2:
		zzOp(g, zzsym.Choice("op2", zzOps), r, r, k)
	}
	zzsym.Assert(zzsym.Same(r, same), "earlier result unchanged")
	zzsym.Assert(zzsym.Same(p, g.ScalarBaseMult(a)), "first point unchanged")
	zzsym.Assert(zzsym.Same(q, g.ScalarBaseMult(b)), "second point unchanged")
	zzGroupIntact(g)
}

// Changing a scalar after the call does not change the result.
func VerifC03_ScalarNotShared() {
	zzsym.NoSummaries()
	g := NewSecp256k1Group()
	a, k := zzsym.Scalar("a"), zzsym.Scalar("k")
	p := g.ScalarBaseMult(a)
	a0, k0 := new(big.Int).Set(a), new(big.Int).Set(k)
	r := g.ScalarMult(p, k)
	k.SetInt64(77)
	a.SetInt64(78)
	zzsym.Assert(zzsym.Same(p, g.ScalarBaseMult(a0)), "point keeps its value")
	zzsym.Assert(zzsym.Same(r, g.ScalarMult(g.ScalarBaseMult(a0), k0)), "result keeps its value")
}
