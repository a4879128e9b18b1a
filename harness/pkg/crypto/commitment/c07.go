//verif:props C07
package commitment

import (
	"bytes"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

func VerifC07_CommitmentChunks() {
	zzsym.Bound("streams split at 2 arbitrary positions")
	f, _ := zzFct()
	a1, a2 := zzsym.Scalar("a1"), zzsym.Scalar("a2")
	a := zzPair(f, a1, a2)
	buf := &bytes.Buffer{}
	zzsym.Assert(a.Encode(buf) == nil, "encode succeeds")
	c1, c2 := zzsym.Int("c1", 0, 160), zzsym.Int("c2", 0, 160)
	zzsym.Assume(c1 <= c2)
	b := &ElGamal{}
	err := b.Decode(&zzReader{data: buf.Bytes(), cuts: []int{c1, c2}})
	zzsym.Assert(err == nil, "decode succeeds however the data arrives")
	if err == nil {
		zzHas(b, a1, a2, "same commitment")
	}
}

func VerifC07_CommitmentTruncated() {
	f, _ := zzFct()
	a := zzPair(f, zzsym.Scalar("a1"), zzsym.Scalar("a2"))
	buf := &bytes.Buffer{}
	zzsym.Assert(a.Encode(buf) == nil, "encode succeeds")
	n := zzsym.Int("n", 0, 160)
	zzsym.Assume(n < buf.Len())
	b := &ElGamal{}
	zzsym.Assert(b.Decode(&zzReader{data: buf.Bytes()[:n]}) != nil, "truncated data is an error")
}

func VerifC07_CommitmentWriter() {
	f, _ := zzFct()
	a := zzPair(f, zzsym.Scalar("a1"), zzsym.Scalar("a2"))
	w := &zzWriter{k: zzsym.Choice("k", 10), once: zzsym.Choice("once", 2) == 1}
	err := a.Encode(w)
	zzsym.Assert(zzsym.Iff(err != nil, w.failed), "a failed write is reported")
}
