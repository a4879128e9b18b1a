//verif:props C64
package sync

import (
	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

// zzTwoRounds: two rounds of a real server with scripted peers; the outcome
// has to be the same whatever the schedule.
func zzTwoRounds(n, sched int, kind int) {
	zzsym.ExactTime()
	m := zzsym.BytesN("m", 3)
	t := zzRecord(n, 2, m)
	streams := make([][]byte, n)
	for i := 1; i < n; i++ {
		streams[i] = zzCat(t.intro[i], t.frames[i][0], t.frames[i][1])
	}
	if kind == 1 {
		// the first peer fails the first round, its next frame is intact
		streams[1] = zzCat(t.intro[1], t.frames[1][1], t.frames[1][1])
	}
	if kind == 2 {
		streams[1] = t.intro[1]
	}
	zzsym.Races()
	zzsym.Schedules(sched)
	s, net := zzVictim(n, streams, nil)
	// individual messages first, a common one then
	own := make([][]byte, n)
	for i := 1; i < n; i++ {
		own[i] = []byte{byte(i), byte(2 * i)}
	}
	for k := 0; k < 2; k++ {
		rec := &zzRec{}
		msgs := own
		if k > 0 {
			msgs = [][]byte{m}
		}
		err := s.Round(msgs, rec.check)
		want := make([][]byte, n)
		for i := range want {
			want[i] = m
		}
		if kind == 0 || kind == 1 && k == 1 {
			zzsym.Assert(err == nil, "honest round succeeds")
			rec.exactly(0, want, "honest")
		} else {
			zzsym.Assert(err != nil, "the round fails")
			want[1] = nil
			rec.exactly(0, want, "only what was sent is checked")
		}
	}
	zzsym.Schedules(0)
	// both frames reached every peer
	for i := 1; i < n; i++ {
		w := net.to[i].written()
		zzsym.Assert(zzsym.BytesEq(w, zzCat(zzIntro0(t, w), zzFrames0(own[i], m))), "the frames of both rounds are sent in order")
	}
}

func zzIntro0(t *zzTape, w []byte) []byte { return w[:len(t.intro[1])] }

// zzFrames0 is what party 0 sends in two rounds.
func zzFrames0(own, m []byte) []byte {
	nets := zzNetwork(2, nil)
	ss := zzServers(nets)
	for _, s := range ss {
		zzStarted(s)
	}
	p := len(nets[0].to[1].written())
	zzRun(ss, [][][]byte{{nil, own}, {m}})
	zzRun(ss, [][][]byte{{m}, {m}})
	return nets[0].to[1].written()[p:]
}

func VerifC64_Two() {
	zzsym.Bound("2 parties, 2 rounds, at most 2 preemptions, any message of 3 bytes; honest, wrong frame in the first round, no data")
	zzTwoRounds(2, 2, zzsym.Choice("kind", 3))
}

func VerifC64_Two_T() {
	zzsym.Bound("2 parties, 2 rounds, at most 3 preemptions, any message of 3 bytes; honest, wrong frame in the first round, no data")
	zzTwoRounds(2, 3, zzsym.Choice("kind", 3))
}

func VerifC64_Three() {
	zzsym.Bound("3 parties, 2 rounds, at most 1 preemption; honest, wrong frame in the first round, no data")
	zzTwoRounds(3, 1, zzsym.Choice("kind", 3))
}

func VerifC64_Three_T() {
	zzsym.Bound("3 parties, 2 rounds, at most 2 preemptions; honest, wrong frame in the first round, no data")
	zzTwoRounds(3, 2, zzsym.Choice("kind", 3))
}

func VerifC64_Twice() {
	zzsym.Bound("3 parties, at most 1 preemption; one of the peers connects twice, the second time with other data")
	zzsym.ExactTime()
	zzsym.Races()
	zzsym.Schedules(1)
	zzTwice(1, 1)
}

func VerifC64_Twice_T() {
	zzsym.Bound("3 parties, at most 2 preemptions; one of the peers connects twice, the second time with other data")
	zzsym.ExactTime()
	zzsym.Races()
	zzsym.Schedules(2)
	zzTwice(1+zzsym.Choice("peer", 2), zzsym.Choice("position", 3))
}
