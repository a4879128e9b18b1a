//verif:props C07
package zkpok

import (
	"bytes"
	"io"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

type zzCodec interface {
	Encode(w io.Writer) error
	Decode(r io.Reader) error
}

func zzProof(f *commitment.ElGamalFactory) (p, q zzCodec, same func() bool) {
	xy, _, _ := zzComm(f, "xy")
	if zzsym.Choice("kind", 2) == 0 {
		a, b := &ZKEGKnow{z1: zzResp("z1"), z2: zzResp("z2"), xy: xy}, &ZKEGKnow{}
		return a, b, func() bool {
			return zzsym.And(zzsym.And(zzsym.BigEq(a.z1, b.z1), zzsym.BigEq(a.z2, b.z2)), xy.Equal(a.xy, b.xy))
		}
	}
	a, b := &ZKEGRefresh{z1: zzResp("z1"), xy: xy}, &ZKEGRefresh{}
	return a, b, func() bool { return zzsym.And(zzsym.BigEq(a.z1, b.z1), xy.Equal(a.xy, b.xy)) }
}

func VerifC07_ProofChunks() {
	zzsym.Bound("streams split at 2 arbitrary positions")
	f, _ := zzFct()
	p, q, same := zzProof(f)
	buf := &bytes.Buffer{}
	zzsym.Assert(p.Encode(buf) == nil, "encode succeeds")
	c1, c2 := zzsym.Int("c1", 0, 224), zzsym.Int("c2", 0, 224)
	zzsym.Assume(c1 <= c2)
	err := q.Decode(&zzReader{data: buf.Bytes(), cuts: []int{c1, c2}})
	zzsym.Assert(err == nil, "decode succeeds however the data arrives")
	if err == nil {
		zzsym.Assert(same(), "same proof")
	}
}

func VerifC07_ProofTruncated() {
	f, _ := zzFct()
	p, q, _ := zzProof(f)
	buf := &bytes.Buffer{}
	zzsym.Assert(p.Encode(buf) == nil, "encode succeeds")
	n := zzsym.Int("n", 0, 224)
	zzsym.Assume(n < buf.Len())
	zzsym.Assert(q.Decode(&zzReader{data: buf.Bytes()[:n]}) != nil, "truncated data is an error")
}

func VerifC07_ProofWriter() {
	f, _ := zzFct()
	p, _, _ := zzProof(f)
	w := &zzWriter{k: zzsym.Choice("k", 12), once: zzsym.Choice("once", 2) == 1}
	err := p.Encode(w)
	zzsym.Assert(zzsym.Iff(err != nil, w.failed), "a failed write is reported")
}
