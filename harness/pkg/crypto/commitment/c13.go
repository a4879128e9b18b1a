//verif:props C13
package commitment

import (
	"bytes"
	"io"
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

func VerifC13_RoundTrip() {
	f, _ := zzFct()
	a1, a2 := zzsym.Scalar("a1"), zzsym.Scalar("a2")
	a := zzPair(f, a1, a2)
	trail := zzsym.Bytes("trail", 12)
	buf := &bytes.Buffer{}
	zzsym.Assert(a.Encode(buf) == nil, "encode succeeds")
	buf.Write(trail)
	b := &ElGamal{}
	err := b.Decode(buf)
	zzsym.Assert(err == nil, "decode succeeds")
	if err != nil {
		return
	}
	zzHas(a, a1, a2, "encoding leaves the commitment alone")
	zzHas(b, a1, a2, "same commitment")
	zzsym.Assert(b.Equal(a, b), "equal commitments")
	rest, _ := io.ReadAll(buf)
	zzsym.Assert(zzsym.BytesEq(rest, trail), "stream stays aligned")
	// further operations
	n := zzsym.Scalar("n")
	zzHas(b.Exp(b, n), new(big.Int).Mul(a1, n), new(big.Int).Mul(a2, n), "decoded commitment can be used as receiver")
}

// Commitments whose components are neutral, in one stream with others.
func VerifC13_Stream() {
	zzsym.Bound("two commitments in one stream")
	f, _ := zzFct()
	a1, a2, b1, b2 := zzsym.Scalar("a1"), zzsym.Scalar("a2"), zzsym.Scalar("b1"), zzsym.Scalar("b2")
	switch zzsym.Choice("neutral", 4) {
	case 1:
		a1 = big.NewInt(0)
	case 2:
		a2 = big.NewInt(0)
	case 3:
		a1, a2 = big.NewInt(0), big.NewInt(0)
	}
	a, b := zzPair(f, a1, a2), zzPair(f, b1, b2)
	buf := &bytes.Buffer{}
	zzsym.Assert(a.Encode(buf) == nil, "encode succeeds")
	zzsym.Assert(b.Encode(buf) == nil, "encode succeeds")
	p, q := &ElGamal{}, f.Create(big.NewInt(5), big.NewInt(7))
	ok := p.Decode(buf) == nil
	zzsym.Assert(ok, "decode succeeds")
	if !ok {
		return
	}
	ok = q.Decode(buf) == nil
	zzsym.Assert(ok, "decode succeeds")
	if !ok {
		return
	}
	zzHas(p, a1, a2, "first commitment")
	zzHas(q, b1, b2, "second commitment, decoded into a used one")
	zzsym.Assert(buf.Len() == 0, "nothing left")
}

func VerifC13_Injective() {
	f, _ := zzFct()
	a1, a2, b1, b2 := zzsym.Scalar("a1"), zzsym.Scalar("a2"), zzsym.Scalar("b1"), zzsym.Scalar("b2")
	a, b := zzPair(f, a1, a2), zzPair(f, b1, b2)
	x, y := &bytes.Buffer{}, &bytes.Buffer{}
	zzsym.Assert(a.Encode(x) == nil && b.Encode(y) == nil, "encode succeeds")
	zzsym.Assert(zzsym.Iff(zzsym.BytesEq(x.Bytes(), y.Bytes()), zzsym.And(zzsym.BigEq(a1, b1), zzsym.BigEq(a2, b2))), "distinct commitments have distinct encodings")
}

func VerifC13_Truncated() {
	f, _ := zzFct()
	a := zzPair(f, zzsym.Scalar("a1"), zzsym.Scalar("a2"))
	buf := &bytes.Buffer{}
	zzsym.Assert(a.Encode(buf) == nil, "encode succeeds")
	n := zzsym.Int("n", 0, 160)
	zzsym.Assume(n < buf.Len())
	b := &ElGamal{}
	zzsym.Assert(b.Decode(bytes.NewReader(buf.Bytes()[:n])) != nil, "truncated data is an error")
}

func VerifC13_Arbitrary() {
	zzsym.Bound("inputs up to 24 bytes")
	zzArbitrary(24)
}

func VerifC13_Arbitrary_T() {
	zzsym.Bound("inputs up to 160 bytes")
	zzArbitrary(160)
}

func zzArbitrary(max int) {
	f, _ := zzFct()
	in := zzsym.Bytes("in", max)
	zzsym.MaxAlloc(65536)
	b := &ElGamal{}
	r := bytes.NewReader(in)
	if b.Decode(r) != nil {
		return
	}
	zzsym.Assert(b.first != nil && b.second != nil, "complete commitment")
	zzsym.Assert(b.Equal(b, b), "can be compared")
	out := &bytes.Buffer{}
	zzsym.Assert(b.Encode(out) == nil, "can be encoded")
	d := &ElGamal{}
	zzsym.Assert(d.Decode(out) == nil && d.Equal(b, d), "decoded again")
	f.IsNeutral(b)
}
