//verif:props C25
package zkpok

import (
	"bytes"
	"io"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

func VerifC25_Know() {
	zzsym.Bound("responses of up to 256 bits, up to 8 trailing bytes")
	f, _ := zzFct()
	xy, _, _ := zzComm(f, "xy")
	p := &ZKEGKnow{z1: zzResp("z1"), z2: zzResp("z2"), xy: xy}
	trail := zzsym.Bytes("trail", 8)
	buf := &bytes.Buffer{}
	zzsym.Assert(p.Encode(buf) == nil, "encode succeeds")
	buf.Write(trail)
	q := &ZKEGKnow{}
	err := q.Decode(buf)
	zzsym.Assert(err == nil, "decode succeeds")
	if err != nil {
		return
	}
	zzsym.Assert(zzsym.And(zzsym.BigEq(p.z1, q.z1), zzsym.BigEq(p.z2, q.z2)), "same responses")
	zzsym.Assert(xy.Equal(p.xy, q.xy), "same first message")
	rest, _ := io.ReadAll(buf)
	zzsym.Assert(zzsym.BytesEq(rest, trail), "stream stays aligned")
}

func VerifC25_Refresh() {
	f, _ := zzFct()
	xy, _, _ := zzComm(f, "xy")
	p := &ZKEGRefresh{z1: zzResp("z1"), xy: xy}
	trail := zzsym.Bytes("trail", 8)
	buf := &bytes.Buffer{}
	zzsym.Assert(p.Encode(buf) == nil, "encode succeeds")
	buf.Write(trail)
	q := &ZKEGRefresh{}
	err := q.Decode(buf)
	zzsym.Assert(err == nil, "decode succeeds")
	if err != nil {
		return
	}
	zzsym.Assert(zzsym.BigEq(p.z1, q.z1), "same response")
	zzsym.Assert(xy.Equal(p.xy, q.xy), "same first message")
	rest, _ := io.ReadAll(buf)
	zzsym.Assert(zzsym.BytesEq(rest, trail), "stream stays aligned")
}

// The verdict does not change.
func VerifC25_Verdict() {
	f, _ := zzFct()
	xy, _, _ := zzComm(f, "xy")
	c, _, _ := zzComm(f, "c")
	p := &ZKEGKnow{z1: zzResp("z1"), z2: zzResp("z2"), xy: xy}
	buf := &bytes.Buffer{}
	zzsym.Assert(p.Encode(buf) == nil, "encode succeeds")
	q := &ZKEGKnow{}
	if q.Decode(buf) != nil {
		zzsym.Fail("decode succeeds")
		return
	}
	zzsym.Assert((p.Verify(f, c) == nil) == (q.Verify(f, c) == nil), "same verdict")
}

func VerifC25_RefreshVerdict() {
	f, _ := zzFct()
	xy, _, _ := zzComm(f, "xy")
	c1, _, _ := zzComm(f, "c1")
	c2, _, _ := zzComm(f, "c2")
	p := &ZKEGRefresh{z1: zzResp("z1"), xy: xy}
	buf := &bytes.Buffer{}
	zzsym.Assert(p.Encode(buf) == nil, "encode succeeds")
	q := &ZKEGRefresh{}
	if q.Decode(buf) != nil {
		zzsym.Fail("decode succeeds")
		return
	}
	zzsym.Assert((p.Verify(f, c1, c2) == nil) == (q.Verify(f, c1, c2) == nil), "same verdict")
}

// Two proofs in one stream, decoded into used proofs.
func VerifC25_Stream() {
	f, _ := zzFct()
	x1, _, _ := zzComm(f, "x1")
	x2, _, _ := zzComm(f, "x2")
	p := &ZKEGRefresh{z1: zzResp("p1"), xy: x1}
	q := &ZKEGKnow{z1: zzResp("q1"), z2: zzResp("q2"), xy: x2}
	buf := &bytes.Buffer{}
	zzsym.Assert(p.Encode(buf) == nil && q.Encode(buf) == nil, "encode succeeds")
	p2 := &ZKEGRefresh{z1: zzResp("z1"), xy: x2}
	q2 := &ZKEGKnow{z1: zzResp("z1"), z2: zzResp("z2"), xy: x1}
	ok := p2.Decode(buf) == nil
	zzsym.Assert(ok, "decode succeeds")
	if !ok {
		return
	}
	ok = q2.Decode(buf) == nil
	zzsym.Assert(ok, "decode succeeds")
	if !ok {
		return
	}
	zzsym.Assert(zzsym.And(zzsym.BigEq(p.z1, p2.z1), zzsym.And(zzsym.BigEq(q.z1, q2.z1), zzsym.BigEq(q.z2, q2.z2))), "same responses")
	zzsym.Assert(x1.Equal(p2.xy, x1) && x1.Equal(q2.xy, x2), "same first messages")
	zzsym.Assert(buf.Len() == 0, "nothing left")
}
