//verif:props C02
package curve

import (
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

func zzScalar640() *big.Int {
	zzsym.Bound("scalars up to 2^640")
	return zzsym.Big("k", big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), 640))
}

func VerifC02_Base() {
	g := NewSecp256k1Group()
	k := zzScalar640()
	red := new(big.Int).Mod(k, zzsym.Order())
	zzsym.Assert(g.Equal(g.ScalarBaseMult(k), g.ScalarBaseMult(red)), "kG=(k mod N)G")
}

func VerifC02_Point() {
	g := NewSecp256k1Group()
	k := zzScalar640()
	d := zzsym.Scalar("d")
	red := new(big.Int).Mod(k, zzsym.Order())
	p := g.ScalarBaseMult(d)
	zzsym.Assert(g.Equal(g.ScalarMult(p, k), g.ScalarMult(p, red)), "kP=(k mod N)P")
}

func VerifC02_PointOracle() {
	g := NewSecp256k1Group()
	k := zzScalar640()
	d := zzsym.Scalar("d")
	want := new(big.Int).Mod(new(big.Int).Mul(d, k), zzsym.Order())
	zzsym.Assert(g.Equal(g.ScalarMult(g.ScalarBaseMult(d), k), g.ScalarBaseMult(want)), "k(dG)=(kd mod N)G")
}

func VerifC02_Window() {
	g := NewSecp256k1Group()
	n := zzsym.Order()
	k := zzsym.Big("k", n, new(big.Int).Lsh(big.NewInt(1), 256))
	red := new(big.Int).Mod(k, n)
	zzsym.Assert(g.Equal(g.ScalarBaseMult(k), g.ScalarBaseMult(red)), "window, base")
	zzsym.Assert(g.Equal(g.ScalarMult(g.Gen(), k), g.ScalarBaseMult(red)), "window, point")
}

// The caller's integers and points may change between two operations.
func VerifC02_Reused() {
	zzsym.Bound("3 operations with the same integer, changed in between")
	g := NewSecp256k1Group()
	k, d := zzsym.Scalar("k"), zzsym.Scalar("d")
	l := zzsym.Scalar("l")
	p := g.ScalarBaseMult(d)
	k0 := new(big.Int).Set(k)
	a, b := g.ScalarBaseMult(k), g.ScalarMult(p, k)
	k.Set(l)
	c, e := g.ScalarBaseMult(k), g.ScalarMult(p, k)
	want := func(x *big.Int) *big.Int {
		return new(big.Int).Mod(new(big.Int).Mul(d, x), zzsym.Order())
	}
	zzsym.Assert(g.Equal(a, g.ScalarBaseMult(k0)), "kG before the change")
	zzsym.Assert(g.Equal(b, g.ScalarBaseMult(want(k0))), "kP before the change")
	zzsym.Assert(g.Equal(c, g.ScalarBaseMult(l)), "kG after the change")
	zzsym.Assert(g.Equal(e, g.ScalarBaseMult(want(l))), "kP after the change")
	k.SetInt64(2)
	zzsym.Assert(g.Equal(g.ScalarBaseMult(k), g.Add(g.Gen(), g.Gen())), "2G")
	zzsym.Assert(g.Equal(g.ScalarMult(p, k), g.Add(p, p)), "2P")
}
