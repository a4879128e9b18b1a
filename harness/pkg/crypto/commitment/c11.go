//verif:props C11
package commitment

import (
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

// zzFour is two commitments with arbitrary components.
func zzFour(f *ElGamalFactory) (a, b *ElGamal, d [4]*big.Int) {
	for i, n := range []string{"a1", "a2", "b1", "b2"} {
		d[i] = zzsym.Scalar(n)
	}
	return zzPair(f, d[0], d[1]), zzPair(f, d[2], d[3]), d
}

func VerifC11_Compose() {
	f, _ := zzFct()
	a, b, d := zzFour(f)
	x, y := a, b
	dx, dy := d[:2], d[2:]
	if zzsym.Choice("same operands", 2) == 1 {
		y, dy = a, d[:2]
	}
	var c *ElGamal
	recv := zzsym.Choice("receiver", 3)
	switch recv {
	case 0:
		c = f.Neutral()
	case 1:
		c = x
	case 2:
		c = y
	}
	ret := c.Compose(x, y)
	zzsym.Assert(ret == c, "the receiver is returned")
	zzHas(c, new(big.Int).Add(dx[0], dy[0]), new(big.Int).Add(dx[1], dy[1]), "result of composing")
	if c != a {
		zzHas(a, d[0], d[1], "first operand unchanged")
	}
	if c != b {
		zzHas(b, d[2], d[3], "second operand unchanged")
	}
	zzAfter(f, c, a, b, d)
}

func VerifC11_Exp() {
	f, _ := zzFct()
	a, b, d := zzFour(f)
	n := zzWide("n")
	n0 := new(big.Int).Set(n)
	c := b
	if zzsym.Choice("receiver", 2) == 1 {
		c = a
	}
	ret := c.Exp(a, n)
	zzsym.Assert(ret == c, "the receiver is returned")
	zzHas(c, new(big.Int).Mul(d[0], n0), new(big.Int).Mul(d[1], n0), "result of exponentiation")
	zzsym.Assert(zzsym.BigEq(n, n0), "exponent unchanged")
	if c != a {
		zzHas(a, d[0], d[1], "operand unchanged")
	}
	zzAfter(f, c, a, b, d)
}

func VerifC11_Inverse() {
	f, _ := zzFct()
	a, b, d := zzFour(f)
	c := b
	if zzsym.Choice("receiver", 2) == 1 {
		c = a
	}
	ret := c.Inverse(a)
	zzsym.Assert(ret == c, "the receiver is returned")
	zzHas(c, new(big.Int).Neg(d[0]), new(big.Int).Neg(d[1]), "result of inversion")
	if c != a {
		zzHas(a, d[0], d[1], "operand unchanged")
	}
	zzAfter(f, c, a, b, d)
}

// zzAfter changes the result and checks that nothing else follows.
func zzAfter(f *ElGamalFactory, c, a, b *ElGamal, d [4]*big.Int) {
	k := zzsym.Scalar("k")
	switch zzsym.Choice("later", 3) {
	case 0:
		c.Exp(c, k)
	case 1:
		c.Inverse(c)
	case 2:
		c.Compose(c, c)
	}
	if c != a {
		zzHas(a, d[0], d[1], "operand independent of the result")
	}
	if c != b {
		zzHas(b, d[2], d[3], "operand independent of the result")
	}
	zzHas(f.Neutral(), big.NewInt(0), big.NewInt(0), "neutral commitment unchanged")
	zzsym.Assert(f.IsNeutral(f.Neutral()), "neutral commitment recognised")
}

// Nested use as in the proofs: x.Compose(y, x.Exp(z, n)).
func VerifC11_Nested() {
	f, _ := zzFct()
	a, b, d := zzFour(f)
	n := zzsym.Scalar("n")
	x := f.Neutral()
	x = x.Compose(a, x.Exp(b, n))
	e1, e2 := new(big.Int).Mul(d[2], n), new(big.Int).Mul(d[3], n)
	e1.Add(e1, d[0])
	e2.Add(e2, d[1])
	zzHas(x, e1, e2, "receiver used inside the operand")
	y := f.Neutral()
	x.Compose(x, y.Inverse(y.Exp(b, n)))
	zzHas(x, d[0], d[1], "the factor is removed again")
	zzHas(a, d[0], d[1], "operand unchanged")
	zzHas(b, d[2], d[3], "operand unchanged")
}
