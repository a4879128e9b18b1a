//verif:props C60
package sync

import (
	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

func zzIndividual(n, me int, f func(j int) []byte) [][]byte {
	out := make([][]byte, n)
	for j := range out {
		if j != me {
			out[j] = f(j)
		}
	}
	return out
}

func VerifC60_Two() {
	zzsym.ExactTime()
	zzsym.Bound("2 parties, 1 round, messages up to 64 bytes, the stream split at 2 positions")
	c := []int{zzsym.Int("cut", 0, 90), zzsym.Int("cut", 0, 90)}
	nets := zzNetwork(2, map[[2]int][]int{{0, 1}: c})
	ss := zzServers(nets)
	a, b := zzsym.Bytes("a", 64), zzsym.Bytes("b", 64)
	m0 := [][]byte{a}
	if zzsym.Choice("individual", 2) == 1 {
		m0 = [][]byte{nil, a}
	}
	a0 := append([]byte{}, a...)
	recs, errs := zzRun(ss, [][][]byte{m0, {b}})
	zzsym.Assert(errs[0] == nil && errs[1] == nil, "honest round succeeds")
	recs[0].exactly(0, [][]byte{nil, b}, "first")
	recs[1].exactly(1, [][]byte{a, nil}, "second")
	zzsym.Assert(zzsym.BytesEq(a, a0), "message unchanged")
}

func VerifC60_Rounds() {
	zzsym.ExactTime()
	zzsym.Bound("2 parties, 3 rounds, messages up to 16 bytes, the stream split at 1 position")
	nets := zzNetwork(2, map[[2]int][]int{{1, 0}: {zzsym.Int("cut", 0, 110)}})
	ss := zzServers(nets)
	for k := 0; k < 3; k++ {
		a, b := zzsym.Bytes("a", 16), zzsym.Bytes("b", 16)
		recs, errs := zzRun(ss, [][][]byte{{a}, {b}})
		zzsym.Assert(errs[0] == nil && errs[1] == nil, "honest round succeeds")
		recs[0].exactly(0, [][]byte{nil, b}, "first")
		recs[1].exactly(1, [][]byte{a, nil}, "second")
	}
}

func VerifC60_Three() {
	zzsym.ExactTime()
	zzsym.Bound("3 parties, 2 rounds, messages up to 16 bytes; individual messages in the first round")
	ss := zzServers(zzNetwork(3, nil))
	msgs := make([][][]byte, 3)
	for i := range msgs {
		msgs[i] = zzIndividual(3, i, func(int) []byte { return zzsym.Bytes("m", 16) })
	}
	recs, errs := zzRun(ss, msgs)
	for i := range ss {
		zzsym.Assert(errs[i] == nil, "honest round succeeds")
		recs[i].exactly(i, [][]byte{msgs[0][i], msgs[1][i], msgs[2][i]}, "individual")
	}
	var same [][]byte
	for i := range msgs {
		same = append(same, zzsym.Bytes("s", 16))
		msgs[i] = [][]byte{same[i]}
	}
	recs, errs = zzRun(ss, msgs)
	for i := range ss {
		zzsym.Assert(errs[i] == nil, "honest round succeeds")
		recs[i].exactly(i, same, "common")
	}
}

func VerifC60_Long() {
	zzsym.ExactTime()
	zzsym.Bound("2 parties, common and individual messages of 250, 300, 65530 and 70000 bytes")
	ss := zzServers(zzNetwork(2, nil))
	m := zzsym.BytesN("m", []int{250, 300, 65530, 70000}[zzsym.Choice("n", 4)])
	recs, errs := zzRun(ss, [][][]byte{{m}, {m, nil}})
	zzsym.Assert(errs[0] == nil && errs[1] == nil, "honest round succeeds")
	recs[0].exactly(0, [][]byte{nil, m}, "first")
	recs[1].exactly(1, [][]byte{m, nil}, "second")
}

// The memory of a message may be used again once the round is over.
func VerifC60_Reuse() {
	zzsym.ExactTime()
	zzsym.Bound("2 parties, 3 rounds with messages of up to 16 bytes in the same memory; common and individual messages")
	ss := zzServers(zzNetwork(2, nil))
	m := zzsym.Bytes("m", 16)
	ind := zzsym.Choice("individual", 2) == 1
	for k := 0; k < 3; k++ {
		msg := [][]byte{m}
		if ind {
			msg = [][]byte{nil, m}
		}
		sent := append([]byte{}, m...)
		recs, errs := zzRun(ss, [][][]byte{msg, {nil}})
		zzsym.Assert(errs[0] == nil && errs[1] == nil, "honest round succeeds")
		recs[1].exactly(1, [][]byte{sent, nil}, "second")
		copy(m, zzsym.Bytes("other", 16))
	}
}

func zzAny(max int) {
	ss := zzServers(zzNetwork(2, nil))
	m := zzsym.Bytes("m", max)
	msg := [][]byte{m}
	if zzsym.Choice("individual", 2) == 1 {
		msg = [][]byte{nil, m}
	}
	recs, errs := zzRun(ss, [][][]byte{msg, {nil}})
	zzsym.Assert(errs[0] == nil && errs[1] == nil, "honest round succeeds")
	recs[1].exactly(1, [][]byte{m, nil}, "second")
}

func VerifC60_Any() {
	zzsym.ExactTime()
	zzsym.Bound("2 parties, 1 round, common or individual messages of any length up to 10000")
	zzAny(10000)
}

func VerifC60_AnyLong_T() {
	zzsym.ExactTime()
	zzsym.Bound("2 parties, 1 round, common or individual messages of any length up to 100000")
	zzAny(100000)
}

// A round in which peers fail does not change the rounds after it.
func VerifC60_AfterFailure() {
	zzsym.ExactTime()
	zzsym.Bound("3 parties, 2 rounds; every combination of peers that behave, fail the check or send a frame of another party in the first round, and behave in the second; message of 3 bytes")
	m := []byte{1, 2, 3}
	t := zzRecord(3, 2, m)
	streams := make([][]byte, 3)
	first := &zzRec{fail: make([]bool, 3)}
	for i := 1; i < 3; i++ {
		f := t.frames[i][0]
		switch zzsym.Choice("peer", 3) {
		case 1:
			first.fail[i] = true
		case 2:
			f = t.frames[3-i][0]
		}
		streams[i] = zzCat(t.intro[i], f, t.frames[i][1])
	}
	s, _ := zzVictim(3, streams, nil)
	if s.Round([][]byte{m}, first.check) == nil {
		zzsym.Reach("fine")
	}
	second := &zzRec{}
	err := s.Round([][]byte{m}, second.check)
	zzsym.Assert(err == nil, "honest round succeeds")
	second.exactly(0, [][]byte{nil, m, m}, "second round")
}
