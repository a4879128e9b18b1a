//verif:props C63
package sync

import (
	"time"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

func VerifC63_Stream() {
	zzsym.Bound("3 parties, every stream of up to 40 bytes from one peer, split at 1 position")
	zzAnyStream([]int{zzsym.Int("cut", 0, 44)})
}

func VerifC63_Stream_T() {
	zzsym.Bound("3 parties, every stream of up to 40 bytes from one peer, split at 2 positions")
	zzAnyStream([]int{zzsym.Int("cut", 0, 44), zzsym.Int("cut", 0, 44)})
}

func zzAnyStream(c []int) {
	zzsym.ExactTime()
	zzsym.MaxAlloc(1 << 16)
	t := zzRecord(3, 1, []byte{7})
	raw := zzsym.Bytes("stream", 40)
	bad := 1 + zzsym.Choice("peer", 2)
	streams := make([][]byte, 3)
	for i := 1; i < 3; i++ {
		streams[i] = zzCat(t.intro[i], t.frames[i][0])
	}
	streams[bad] = zzCat(t.intro[bad], raw)
	s, _ := zzVictim(3, streams, c)
	rec := &zzRec{}
	err := s.Round([][]byte{{7}}, rec.check)
	for _, g := range rec.got {
		if int(g.pid) == 3-bad {
			zzsym.Assert(zzsym.BytesEq(g.data, []byte{7}), "the other peer's data is intact")
		}
	}
	if err == nil {
		zzsym.Assert(len(rec.got) == 2, "a result is complete")
	}
	s.Stop()
}

func VerifC63_Rounds() {
	zzsym.ExactTime()
	zzsym.MaxAlloc(1 << 16)
	zzsym.Bound("2 parties, 3 rounds over every stream of up to 60 bytes")
	t := zzRecord(2, 1, []byte{7})
	s, _ := zzVictim(2, [][]byte{nil, zzCat(t.intro[1], zzsym.Bytes("stream", 60))}, nil)
	for k := 0; k < 3; k++ {
		s.Round([][]byte{{7}}, (&zzRec{}).check)
	}
	s.Stop()
}

func VerifC63_Last() {
	zzsym.ExactTime()
	zzsym.MaxAlloc(1 << 16)
	zzsym.Bound("2 parties, the second one is checked: every stream of up to 40 bytes in its first or second round")
	t := zzRecord(2, 1, []byte{7})
	st := t.intro[0]
	rounds := 1 + zzsym.Choice("round", 2)
	if rounds == 2 {
		st = zzCat(st, t.frames[0][0])
	}
	nets := zzNetwork(2, nil)
	nets[1].pend <- zzStream(zzCat(st, zzsym.Bytes("stream", 40)), nil)
	s := NewServer(1, 2, time.Now().Add(200*time.Millisecond), zzRound, nets[1])
	s.Start()
	for k := 0; k < rounds; k++ {
		rec := &zzRec{}
		err := s.Round([][]byte{{7}}, rec.check)
		zzsym.Assert((err == nil) == (len(rec.got) == 1), "a result or an error")
	}
	s.Stop()
}

func VerifC63_Introduction() {
	zzsym.ExactTime()
	zzsym.MaxAlloc(1 << 16)
	zzsym.Bound("3 parties; before the peers, a stranger connects and sends any 0 to 2 bytes that do not introduce one of them")
	t := zzRecord(3, 1, []byte{7})
	raw := zzsym.Bytes("intro", 2)
	for i := 1; i < 3; i++ {
		zzsym.Assume(!zzsym.BytesEq(raw, t.intro[i]))
	}
	nets := zzNetwork(3, nil)
	at := zzsym.Choice("position", 3)
	for i := 0; i < 3; i++ {
		if i == at {
			nets[0].pend <- zzStream(raw, nil)
		}
		if i > 0 {
			nets[0].pend <- zzStream(zzCat(t.intro[i], t.frames[i][0]), nil)
		}
	}
	s := NewServer(0, 3, time.Now().Add(200*time.Millisecond), zzRound, nets[0])
	s.Start()
	rec := &zzRec{}
	err := s.Round([][]byte{{7}}, rec.check)
	zzsym.Assert(err == nil, "the round of the peers succeeds")
	rec.exactly(0, [][]byte{nil, {7}, {7}}, "peers")
}

func VerifC63_Duplicate() {
	zzsym.ExactTime()
	zzsym.MaxAlloc(1 << 16)
	zzsym.Bound("3 parties; one of the peers connects twice, the second time with other data")
	zzTwice(1+zzsym.Choice("peer", 2), zzsym.Choice("position", 3))
}
