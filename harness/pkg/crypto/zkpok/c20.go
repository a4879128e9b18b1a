//verif:props C20 C21
package zkpok

import (
	"bytes"
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

func VerifC20_Accepted() {
	zzsym.Bound("values and randomness of up to 264 bits; any base; any nonces and challenge")
	f, _ := zzFct()
	v, r := zzWide("v"), zzWide("r")
	c := f.Create(v, r)
	p, err := NewZKEGKnow(f, c, v, r)
	zzsym.Assert(err == nil, "proof made")
	if err != nil {
		return
	}
	zzsym.Assert(p.Verify(f, c) == nil, "accepted")
	zzsym.Assert(p.Verify(f, c) == nil, "accepted again")
	// another commitment object for the same opening
	zzsym.Assert(p.Verify(f, f.Create(v, r)) == nil, "accepted for an equal commitment")
}

func VerifC20_Decoded() {
	f, _ := zzFct()
	v, r := zzsym.Scalar("v"), zzsym.Scalar("r")
	c := f.Create(v, r)
	p, err := NewZKEGKnow(f, c, v, r)
	zzsym.Assert(err == nil, "proof made")
	if err != nil {
		return
	}
	buf := &bytes.Buffer{}
	zzsym.Assert(p.Encode(buf) == nil, "encode succeeds")
	q := &ZKEGKnow{}
	ok := q.Decode(buf) == nil
	zzsym.Assert(ok, "decode succeeds")
	if ok {
		zzsym.Assert(q.Verify(f, c) == nil, "accepted after decoding")
	}
}

// Commitments that were computed, not created.
func VerifC20_Computed() {
	f, _ := zzFct()
	v1, r1, v2, r2, n := zzsym.Scalar("v1"), zzsym.Scalar("r1"), zzsym.Scalar("v2"), zzsym.Scalar("r2"), zzsym.Scalar("n")
	c := f.Neutral().Compose(f.Create(v1, r1), f.Neutral().Exp(f.Create(v2, r2), n))
	p, err := NewZKEGKnow(f, c, zzLin(v1, n, v2), zzLin(r1, n, r2))
	zzsym.Assert(err == nil, "proof made")
	if err == nil {
		zzsym.Assert(p.Verify(f, c) == nil, "accepted")
	}
}

func VerifC21_Accepted() {
	zzsym.Bound("any two components of the refreshed commitment; randomness of up to 264 bits; any base, nonces and challenge")
	f, _ := zzFct()
	c1, _, _ := zzComm(f, "c1")
	s := zzWide("s")
	c2 := f.Neutral().Compose(c1, f.Create(big.NewInt(0), s))
	p, err := NewZKEGRefresh(f, c1, c2, s)
	zzsym.Assert(err == nil, "proof made")
	if err != nil {
		return
	}
	zzsym.Assert(p.Verify(f, c1, c2) == nil, "accepted")
	zzsym.Assert(p.Verify(f, c1, c2) == nil, "accepted again")
}

func VerifC21_Decoded() {
	f, _ := zzFct()
	c1, _, _ := zzComm(f, "c1")
	s := zzsym.Scalar("s")
	c2 := f.Neutral().Compose(c1, f.Create(big.NewInt(0), s))
	p, err := NewZKEGRefresh(f, c1, c2, s)
	zzsym.Assert(err == nil, "proof made")
	if err != nil {
		return
	}
	buf := &bytes.Buffer{}
	zzsym.Assert(p.Encode(buf) == nil, "encode succeeds")
	q := &ZKEGRefresh{}
	ok := q.Decode(buf) == nil
	zzsym.Assert(ok, "decode succeeds")
	if ok {
		zzsym.Assert(q.Verify(f, c1, c2) == nil, "accepted after decoding")
	}
}

// A commitment refreshed to a fresh one by its opening.
func VerifC21_Reopened() {
	f, _ := zzFct()
	v, r, s := zzsym.Scalar("v"), zzsym.Scalar("r"), zzsym.Scalar("s")
	c1, c2 := f.Create(v, r), f.Create(v, zzMod(new(big.Int).Add(r, s)))
	p, err := NewZKEGRefresh(f, c1, c2, s)
	zzsym.Assert(err == nil, "proof made")
	if err == nil {
		zzsym.Assert(p.Verify(f, c1, c2) == nil, "accepted")
	}
}

// The objects a proof was made from may change before the next one is made.
func VerifC20_Reused() {
	zzsym.Bound("2 proofs made from the same objects, changed in between")
	f, _ := zzFct()
	v, r := zzsym.Scalar("v"), zzsym.Scalar("r")
	c := f.Create(v, r)
	v0, r0 := new(big.Int).Set(v), new(big.Int).Set(r)
	p, err := NewZKEGKnow(f, c, v, r)
	zzsym.Assert(err == nil && p.Verify(f, c) == nil, "accepted")
	c.Compose(c, f.Create(big.NewInt(3), big.NewInt(7)))
	v.Set(zzMod(v.Add(v, big.NewInt(3))))
	r.Set(zzMod(r.Add(r, big.NewInt(7))))
	q, err2 := NewZKEGKnow(f, c, v, r)
	zzsym.Assert(err2 == nil, "proof made")
	if err != nil || err2 != nil {
		return
	}
	zzsym.Assert(q.Verify(f, c) == nil, "accepted after the change")
	zzsym.Assert(p.Verify(f, f.Create(v0, r0)) == nil, "the first proof is still accepted for the first commitment")
}
