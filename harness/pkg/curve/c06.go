//verif:props C06
package curve

import (
	"bytes"
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

func zzGenuine(g Group, p Point) {
	zzsym.Assert(p != nil, "a decoded point is returned")
	x, y := zzsym.Coords(p)
	if x == nil || y == nil {
		zzsym.Assert(x == nil && y == nil, "neutral element has no coordinates")
		zzsym.Assert(g.Equal(p, g.Neutral()), "neutral element")
		return
	}
	prime := zzsym.FieldPrime()
	zzsym.Assert(x.Sign() >= 0 && x.Cmp(prime) < 0 && y.Sign() >= 0 && y.Cmp(prime) < 0, "reduced coordinates")
	l := new(big.Int).Mul(y, y)
	r := new(big.Int).Mul(x, x)
	r.Mul(r, x)
	r.Add(r, big.NewInt(7))
	zzsym.Assert(new(big.Int).Mod(l.Sub(l, r), prime).Sign() == 0, "on the curve")
}

func VerifC06_Arbitrary() {
	zzsym.Bound("inputs up to 96 bytes")
	g := NewSecp256k1Group()
	in := zzsym.Bytes("in", 96)
	zzsym.MaxAlloc(65536)
	p, err := g.Decode(bytes.NewReader(in))
	if err != nil {
		return
	}
	zzGenuine(g, p)
}

// A decoded element takes part in all operations.
func VerifC06_Usable() {
	g := NewSecp256k1Group()
	in := zzsym.Bytes("in", 96)
	p, err := g.Decode(bytes.NewReader(in))
	if err != nil {
		return
	}
	s := g.Add(p, g.Neutral())
	zzsym.Assert(g.Equal(s, p), "P+0=P")
	zzsym.Assert(g.Equal(g.Add(p, g.Neg(p)), g.Neutral()), "P-P=0")
	out := &bytes.Buffer{}
	zzsym.Assert(g.Encode(p, out) == nil, "encode succeeds")
	q, err := g.Decode(out)
	zzsym.Assert(err == nil, "decoded again")
	if err == nil {
		zzsym.Assert(g.Equal(p, q), "same element")
	}
}

// The two-coordinate form with arbitrary coordinates.
func VerifC06_Coords() {
	g := NewSecp256k1Group()
	in := append([]byte{0, 0, 0, 32, 0, 0, 0, 32}, zzsym.BytesN("xy", 64)...)
	p, err := g.Decode(bytes.NewReader(in))
	x := new(big.Int).SetBytes(in[8:40])
	y := new(big.Int).SetBytes(in[40:72])
	if err != nil {
		return
	}
	zzGenuine(g, p)
	px, py := zzsym.Coords(p)
	zzsym.Assert(px != nil && py != nil && zzsym.And(zzsym.BigEq(px, x), zzsym.BigEq(py, y)), "coordinates are those encoded")
}
