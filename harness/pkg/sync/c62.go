//verif:props C62
package sync

import (
	"time"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

const (
	zzOK = iota
	zzNothing
	zzShort
	zzWrongRound
	zzWrongSender
	zzFailed
	zzKinds
)

// zzFailures runs a round of party 0 with n-1 peers that fail as given.
func zzFailures(n int, kind []int, m []byte) {
	t := zzRecord(n, 2, m)
	streams := make([][]byte, n)
	rec := &zzRec{fail: make([]bool, n)}
	failing := false
	want := make([][]byte, n)
	for i := 1; i < n; i++ {
		f := t.frames[i][0]
		switch kind[i] {
		case zzNothing:
			f = nil
		case zzShort:
			f = f[:zzsym.Int("sent", 1, len(f)-1)]
		case zzWrongRound:
			f = t.frames[i][1]
		case zzWrongSender:
			f = t.frames[1+i%(n-1)][0]
		case zzFailed:
			rec.fail[i] = true
		}
		if kind[i] != zzOK {
			failing = true
		}
		if kind[i] == zzOK || kind[i] == zzFailed {
			want[i] = m
		}
		streams[i] = zzCat(t.intro[i], f)
	}
	s, _ := zzVictim(n, streams, nil)
	err := s.Round([][]byte{m}, rec.check)
	rec.exactly(0, want, "the present parties")
	if !failing {
		zzsym.Assert(err == nil, "honest round succeeds")
		return
	}
	zzsym.Assert(err != nil, "a failing party fails the round")
	if err == nil {
		return
	}
	zzsym.Assert(len(err.Error()) > 0, "the error has a message")
	miss := zzMissing(err, n)
	for i := 0; i < n; i++ {
		bad := i > 0 && kind[i] != zzOK
		if bad {
			zzsym.Assert(miss[i], "every failing party is named")
		} else {
			zzsym.Assert(!miss[i], "no other party is named")
		}
	}
}

func VerifC62_Subsets() {
	zzsym.ExactTime()
	zzsym.Bound("4 parties, every combination of peers that send nothing, fail the check or behave; messages up to 16 bytes")
	kind := make([]int, 4)
	for i := 1; i < 4; i++ {
		kind[i] = []int{zzOK, zzNothing, zzFailed}[zzsym.Choice("peer", 3)]
	}
	zzFailures(4, kind, zzsym.Bytes("m", 16))
}

func VerifC62_Kinds() {
	zzsym.ExactTime()
	zzsym.Bound("3 parties, every combination of failures: nothing, cut after any byte, wrong round, wrong sender, failed check; message of 3 bytes")
	kind := make([]int, 3)
	for i := 1; i < 3; i++ {
		kind[i] = zzsym.Choice("peer", zzKinds)
	}
	zzFailures(3, kind, []byte{1, 2, 3})
}

func VerifC62_Unsent() {
	zzsym.ExactTime()
	zzsym.Bound("3 parties; a message to one of the peers cannot be sent: any of its writes and flushes fails, for good or once; common or individual messages of 3 bytes")
	m := []byte{1, 2, 3}
	t := zzRecord(3, 1, m)
	streams := make([][]byte, 3)
	for i := 1; i < 3; i++ {
		streams[i] = zzCat(t.intro[i], t.frames[i][0])
	}
	s, net := zzVictim(3, streams, nil)
	zzStarted(s)
	p := net.to[1+zzsym.Choice("peer", 2)]
	p.fail = zzsym.Choice("at", 4)
	p.once = zzsym.Choice("once", 2) == 1
	msgs := [][]byte{m}
	if zzsym.Choice("individual", 2) == 1 {
		msgs = [][]byte{nil, m, m}
	}
	err := s.Round(msgs, (&zzRec{}).check)
	if p.ops <= p.fail {
		return // fewer operations were needed
	}
	zzsym.Assert(err != nil, "a message that cannot be sent fails the round")
	if err != nil {
		zzsym.Assert(len(err.Error()) > 0, "the error has a message")
		zzMissing(err, 3)
	}
}

func VerifC62_TooLate() {
	zzsym.ExactTime()
	zzsym.Bound("2 parties, the first round is asked for after the start time")
	nets := zzNetwork(2, nil)
	ss := make([]Server, 2)
	for i := range ss {
		ss[i] = NewServer(uint16(i), 2, time.Now().Add(-time.Minute), zzRound, nets[i])
		ss[i].Start()
	}
	recs, errs := zzRun(ss, [][][]byte{{{1}}, {{1}}})
	for i := range ss {
		zzsym.Assert(errs[i] != nil, "a round that can't start in time fails")
		zzsym.Assert(len(recs[i].got) == 0, "nothing is checked")
		if errs[i] != nil {
			zzsym.Assert(len(errs[i].Error()) > 0, "the error has a message")
		}
	}
}
