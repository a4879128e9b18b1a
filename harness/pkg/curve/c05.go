//verif:props C05
package curve

import (
	"bytes"
	"io"
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

// zzPoint is any group element, built in one of several ways.
func zzPoint(g Group, name string) (Point, *big.Int) {
	d := zzsym.Scalar(name)
	p := g.ScalarBaseMult(d)
	zzsym.Place(name, p)
	return p, d
}

func VerifC05_RoundTrip() {
	g := NewSecp256k1Group()
	p, _ := zzPoint(g, "a")
	trail := zzsym.Bytes("trail", 12)
	buf := &bytes.Buffer{}
	zzsym.Assert(g.Encode(p, buf) == nil, "encode succeeds")
	buf.Write(trail)
	q, err := g.Decode(buf)
	zzsym.Assert(err == nil, "decode succeeds")
	if err != nil {
		return
	}
	zzsym.Assert(g.Equal(p, q), "same element")
	zzsym.Assert(zzsym.Same(p, q), "same representation")
	rest, _ := io.ReadAll(buf)
	zzsym.Assert(zzsym.BytesEq(rest, trail), "stream stays aligned")
}

func VerifC05_Neutral() {
	g := NewSecp256k1Group()
	buf := &bytes.Buffer{}
	trail := zzsym.Bytes("trail", 12)
	zzsym.Assert(g.Encode(g.Neutral(), buf) == nil, "encode succeeds")
	buf.Write(trail)
	q, err := g.Decode(buf)
	zzsym.Assert(err == nil, "decode succeeds")
	if err != nil {
		return
	}
	zzsym.Assert(g.Equal(g.Neutral(), q), "same element")
	rest, _ := io.ReadAll(buf)
	zzsym.Assert(zzsym.BytesEq(rest, trail), "stream stays aligned")
}

func VerifC05_Sequence() {
	zzsym.Bound("sequences of 3 elements and up to 8 trailing bytes")
	g := NewSecp256k1Group()
	var ps []Point
	buf := &bytes.Buffer{}
	for _, n := range []string{"a", "b", "c"} {
		p, _ := zzPoint(g, n)
		ps = append(ps, p)
		zzsym.Assert(g.Encode(p, buf) == nil, "encode succeeds")
	}
	trail := zzsym.Bytes("trail", 8)
	buf.Write(trail)
	for _, p := range ps {
		q, err := g.Decode(buf)
		zzsym.Assert(err == nil, "decode succeeds")
		if err != nil {
			return
		}
		zzsym.Assert(g.Equal(p, q), "same element")
	}
	rest, _ := io.ReadAll(buf)
	zzsym.Assert(zzsym.BytesEq(rest, trail), "stream stays aligned")
}

func VerifC05_Injective() {
	g := NewSecp256k1Group()
	p, a := zzPoint(g, "a")
	q, b := zzPoint(g, "b")
	e, f := &bytes.Buffer{}, &bytes.Buffer{}
	zzsym.Assert(g.Encode(p, e) == nil && g.Encode(q, f) == nil, "encode succeeds")
	zzsym.Assert(zzsym.Iff(zzsym.BytesEq(e.Bytes(), f.Bytes()), zzsym.BigEq(a, b)), "distinct elements have distinct encodings")
}

// Elements with the same first coordinate, one after another.
func VerifC05_Mirror() {
	zzsym.Bound("an element, its negation, and the element again")
	g := NewSecp256k1Group()
	p, _ := zzPoint(g, "a")
	q := g.Neg(p)
	buf := &bytes.Buffer{}
	seq := []Point{p, q, p, q, q}
	for _, x := range seq {
		zzsym.Assert(g.Encode(x, buf) == nil, "encode succeeds")
	}
	for _, x := range seq {
		y, err := g.Decode(buf)
		zzsym.Assert(err == nil, "decode succeeds")
		if err != nil {
			return
		}
		zzsym.Assert(g.Equal(x, y), "same element")
	}
	zzsym.Assert(buf.Len() == 0, "nothing is left")
}
