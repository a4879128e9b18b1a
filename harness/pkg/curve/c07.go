//verif:props C07
package curve

import (
	"bytes"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

func zzEnc(g Group, name string) (Point, []byte) {
	p := g.ScalarBaseMult(zzsym.Scalar(name))
	b := &bytes.Buffer{}
	if err := g.Encode(p, b); err != nil {
		zzsym.Fail("encode succeeds")
	}
	return p, b.Bytes()
}

func VerifC07_PointChunks() {
	zzsym.Bound("streams split at 2 arbitrary positions")
	g := NewSecp256k1Group()
	p, b := zzEnc(g, "a")
	c1, c2 := zzsym.Int("c1", 0, 80), zzsym.Int("c2", 0, 80)
	zzsym.Assume(c1 <= c2)
	q, err := g.Decode(&zzReader{data: b, cuts: []int{c1, c2}})
	zzsym.Assert(err == nil, "decode succeeds however the data arrives")
	if err == nil {
		zzsym.Assert(g.Equal(p, q), "same element")
	}
}

func VerifC07_PointTruncated() {
	g := NewSecp256k1Group()
	_, b := zzEnc(g, "a")
	n := zzsym.Int("n", 0, 80)
	zzsym.Assume(n < len(b))
	_, err := g.Decode(&zzReader{data: b[:n]})
	zzsym.Assert(err != nil, "truncated data is an error")
}

func VerifC07_PointWriter() {
	g := NewSecp256k1Group()
	p := g.ScalarBaseMult(zzsym.Scalar("a"))
	w := &zzWriter{k: zzsym.Choice("k", 7), once: zzsym.Choice("once", 2) == 1}
	err := g.Encode(p, w)
	zzsym.Assert(zzsym.Iff(err != nil, w.failed), "a failed write is reported")
}
