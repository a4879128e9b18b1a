//verif:props C26
package zkpok

import (
	"bytes"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

func zzKnowArbitrary(in []byte) {
	zzsym.MaxAlloc(65536)
	p := &ZKEGKnow{}
	if p.Decode(bytes.NewReader(in)) != nil {
		return
	}
	f, _ := zzFct()
	c, _, _ := zzComm(f, "c")
	zzsym.Assert(p.z1 != nil && p.z2 != nil && p.xy != nil, "complete proof")
	p.Verify(f, c)
	zzsym.Assert(p.Encode(&bytes.Buffer{}) == nil, "can be encoded")
}

func zzRefreshArbitrary(in []byte) {
	zzsym.MaxAlloc(65536)
	p := &ZKEGRefresh{}
	if p.Decode(bytes.NewReader(in)) != nil {
		return
	}
	f, _ := zzFct()
	c1, _, _ := zzComm(f, "c1")
	c2, _, _ := zzComm(f, "c2")
	zzsym.Assert(p.z1 != nil && p.xy != nil, "complete proof")
	p.Verify(f, c1, c2)
	zzsym.Assert(p.Encode(&bytes.Buffer{}) == nil, "can be encoded")
}

func VerifC26_Know() {
	zzsym.Bound("inputs up to 24 bytes; up to 224 bytes in the thorough tier")
	zzKnowArbitrary(zzsym.Bytes("in", 24))
}

func VerifC26_Refresh() { zzRefreshArbitrary(zzsym.Bytes("in", 24)) }

func VerifC26_Know_T()    { zzKnowArbitrary(zzsym.Bytes("in", 224)) }
func VerifC26_Refresh_T() { zzRefreshArbitrary(zzsym.Bytes("in", 192)) }

// Well-formed responses followed by an arbitrary first message.
func VerifC26_KnowFirstMessage() {
	in := append([]byte{0, 0, 0, 1, 0, 0, 0, 1, 5, 6}, zzsym.Bytes("xy", 150)...)
	p := &ZKEGKnow{}
	if p.Decode(bytes.NewReader(in)) != nil {
		return
	}
	f, _ := zzFct()
	c, _, _ := zzComm(f, "c")
	zzsym.Assert(p.xy != nil, "complete proof")
	p.Verify(f, c)
}

// Truncated honest proofs are reported.
func VerifC26_Truncated() {
	f, _ := zzFct()
	xy, _, _ := zzComm(f, "xy")
	buf := &bytes.Buffer{}
	n := zzsym.Int("n", 0, 224)
	if zzsym.Choice("kind", 2) == 0 {
		p := &ZKEGKnow{z1: zzResp("z1"), z2: zzResp("z2"), xy: xy}
		zzsym.Assert(p.Encode(buf) == nil, "encode succeeds")
		zzsym.Assume(n < buf.Len())
		zzsym.Assert((&ZKEGKnow{}).Decode(bytes.NewReader(buf.Bytes()[:n])) != nil, "truncated proof of knowledge is an error")
	} else {
		p := &ZKEGRefresh{z1: zzResp("z1"), xy: xy}
		zzsym.Assert(p.Encode(buf) == nil, "encode succeeds")
		zzsym.Assume(n < buf.Len())
		zzsym.Assert((&ZKEGRefresh{}).Decode(bytes.NewReader(buf.Bytes()[:n])) != nil, "truncated refresh proof is an error")
	}
}
