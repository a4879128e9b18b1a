//verif:props C61
package sync

import (
	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

func VerifC61_Round() {
	zzsym.ExactTime()
	zzsym.Bound("3 parties, messages up to 16 bytes, frames of rounds 0 to 3 in rounds 0 to 2")
	m := zzsym.Bytes("m", 16)
	t := zzRecord(3, 4, m)
	at := zzsym.Choice("round", 3)
	sent := zzsym.Choice("frame", 4)
	bad := 1 + zzsym.Choice("peer", 2)
	good := 3 - bad
	streams := make([][]byte, 3)
	streams[bad] = t.intro[bad]
	streams[good] = t.intro[good]
	for k := 0; k <= at; k++ {
		streams[good] = zzCat(streams[good], t.frames[good][k])
		if k < at {
			streams[bad] = zzCat(streams[bad], t.frames[bad][k])
		}
	}
	streams[bad] = zzCat(streams[bad], t.frames[bad][sent])
	s, _ := zzVictim(3, streams, nil)
	for k := 0; k < at; k++ {
		zzsym.Assert(s.Round([][]byte{m}, (&zzRec{}).check) == nil, "honest round succeeds")
	}
	rec := &zzRec{}
	err := s.Round([][]byte{m}, rec.check)
	if sent == at {
		zzsym.Assert(err == nil, "honest round succeeds")
		rec.exactly(0, [][]byte{nil, m, m}, "honest")
	} else {
		zzRejected(rec, err, bad)
	}
}

func VerifC61_Sender() {
	zzsym.ExactTime()
	zzsym.Bound("4 parties, messages up to 16 bytes, the frame of any other party")
	m := zzsym.Bytes("m", 16)
	t := zzRecord(4, 1, m)
	bad := 1 + zzsym.Choice("peer", 3)
	as := 1 + zzsym.Choice("frame of", 3)
	streams := make([][]byte, 4)
	for i := 1; i < 4; i++ {
		streams[i] = zzCat(t.intro[i], t.frames[i][0])
	}
	streams[bad] = zzCat(t.intro[bad], t.frames[as][0])
	s, _ := zzVictim(4, streams, nil)
	rec := &zzRec{}
	err := s.Round([][]byte{m}, rec.check)
	if as == bad {
		zzsym.Assert(err == nil, "honest round succeeds")
		rec.exactly(0, [][]byte{nil, m, m, m}, "honest")
	} else {
		zzRejected(rec, err, bad)
	}
}

// zzExact: what is passed to the check is what an honest sender would have
// framed as the received bytes.
func zzExact(n, max int) {
	t0 := zzRecord(2, 1, nil)
	raw := zzsym.BytesN("stream", n)
	s, _ := zzVictim(2, [][]byte{nil, zzCat(t0.intro[1], raw)}, nil)
	rec := &zzRec{}
	err := s.Round([][]byte{{1}}, rec.check)
	if len(rec.got) == 0 {
		zzsym.Assert(err != nil, "a round without data fails")
		return
	}
	zzsym.Assert(err == nil && len(rec.got) == 1 && rec.got[0].pid == 1, "accepted once")
	f := zzRecord(2, 1, rec.got[0].data).frames[1][0]
	zzsym.Assert(len(f) <= len(raw), "the frame was received")
	if len(f) <= len(raw) {
		zzsym.Assert(zzsym.BytesEq(raw[:len(f)], f), "accepted data is framed as the sender of the round frames it")
	}
}

func VerifC61_Frame() {
	zzsym.ExactTime()
	zzsym.Bound("2 parties, every stream of 18 to 22 and 40 bytes")
	zzExact([]int{18, 19, 20, 21, 22, 40}[zzsym.Choice("n", 6)], 40)
}
