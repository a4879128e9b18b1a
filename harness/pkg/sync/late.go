//verif:props C60 C61
package sync

import (
	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

// zzLate starts two parties that already had some rounds.
func zzLate(r0, r1 int) []Server {
	ss := zzServers(zzNetwork(2, nil))
	for i, r := range []int{r0, r1} {
		zzStarted(ss[i])
		ss[i].(*server).roundID = int64(r)
	}
	return ss
}

func zzLateMsgs(m []byte) [][][]byte {
	if zzsym.Choice("individual", 2) == 1 {
		return [][][]byte{{nil, m}, {m, nil}}
	}
	return [][][]byte{{m}, {m}}
}

func VerifC60_Late() {
	zzsym.ExactTime()
	zzsym.Bound("2 parties, any round number up to 2^62, message of 3 bytes")
	r := zzsym.Int("round", -1, 1<<62)
	m := zzsym.BytesN("m", 3)
	recs, errs := zzRun(zzLate(r, r), zzLateMsgs(m))
	zzsym.Assert(errs[0] == nil && errs[1] == nil, "honest round succeeds")
	recs[0].exactly(0, [][]byte{nil, m}, "first")
	recs[1].exactly(1, [][]byte{m, nil}, "second")
}

func VerifC61_Late() {
	zzsym.ExactTime()
	zzsym.Bound("2 parties in any two different rounds up to 2^62, message of 3 bytes")
	r0, r1 := zzsym.Int("round", -1, 1<<62), zzsym.Int("other", -1, 1<<62)
	zzsym.Assume(r0 != r1)
	m := zzsym.BytesN("m", 3)
	recs, errs := zzRun(zzLate(r0, r1), zzLateMsgs(m))
	for i := range recs {
		zzRejected(recs[i], errs[i], 1-i)
	}
}
