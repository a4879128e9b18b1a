//verif:props C03 C07 C10 C11 C12 C13
package commitment

import (
	"errors"
	"io"
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

// zzWide is any non-negative integer of up to 264 bits.
func zzWide(name string) *big.Int {
	return zzsym.Big(name, big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), 264))
}

func zzMod(x *big.Int) *big.Int { return new(big.Int).Mod(x, zzsym.Order()) }

// zzFct is a factory for any base.
func zzFct() (*ElGamalFactory, *big.Int) {
	t := zzsym.Scalar("base")
	return NewElGamalFactory(curve.NewSecp256k1Group().ScalarBaseMult(t)), t
}

// zzIs asserts that c is the pair (r G, (t r + v) G), compared as points.
func zzIs(c *ElGamal, t, v, r *big.Int, label string) {
	g := curve.NewSecp256k1Group()
	s := new(big.Int).Mul(t, r)
	s.Add(s, v)
	zzsym.Assert(zzsym.And(
		g.Equal(c.first, g.ScalarBaseMult(zzMod(r))),
		g.Equal(c.second, g.ScalarBaseMult(zzMod(s)))), label)
}

// zzPair is a commitment with any two components.
func zzPair(f *ElGamalFactory, a, b *big.Int) *ElGamal {
	c := f.Neutral()
	c.first = f.curve.ScalarBaseMult(a)
	c.second = f.curve.ScalarBaseMult(b)
	return c
}

// zzHas asserts that c has the components (a G, b G).
func zzHas(c *ElGamal, a, b *big.Int, label string) {
	g := curve.NewSecp256k1Group()
	zzsym.Assert(zzsym.And(
		g.Equal(c.first, g.ScalarBaseMult(zzMod(a))),
		g.Equal(c.second, g.ScalarBaseMult(zzMod(b)))), label)
}

var errZZ = errors.New("write failed")

// zzReader delivers data in pieces that end at the given positions.
type zzReader struct {
	data []byte
	pos  int
	cuts []int
}

func (r *zzReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	n := len(r.data) - r.pos
	if n == 0 {
		return 0, io.EOF
	}
	if n > len(p) {
		n = len(p)
	}
	for _, c := range r.cuts {
		if c > r.pos && c < r.pos+n {
			n = c - r.pos
		}
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	return n, nil
}

// zzWriter fails at the k-th write, and at all later ones unless once is set.
type zzWriter struct {
	k      int
	once   bool // later writes succeed
	failed bool
}

func (w *zzWriter) Write(p []byte) (int, error) {
	if w.k == 0 {
		w.failed = true
		if w.once {
			w.k--
		}
		return 0, errZZ
	}
	w.k--
	return len(p), nil
}
