//verif:props C60 C62
package sync

import (
	"gitlab.com/alephledger/core-go/pkg/network"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

func VerifC60_Many() {
	zzsym.ExactTime()
	zzsym.Bound("2 of 258 parties, with numbers 1, 255, 256 and 257, common or individual messages of 3 bytes")
	const n = 258
	pids := [][2]int{{1, 257}, {255, 256}, {256, 0}}[zzsym.Choice("parties", 3)]
	m := []([]byte){zzsym.BytesN("a", 3), zzsym.BytesN("b", 3)}
	var ss []Server
	var nets []*zzCrowd
	for _, p := range pids {
		s, net := zzInCrowd(p, n)
		ss, nets = append(ss, s), append(nets, net)
	}
	msgs := make([][][]byte, 2)
	individual := zzsym.Choice("individual", 2) == 1
	for i := range ss {
		zzConnected(ss[i], nets[i], pids[i], pids[1-i], nets[1-i].to[pids[i]])
		msgs[i] = [][]byte{m[i]}
		if individual {
			msgs[i] = make([][]byte, n)
			msgs[i][pids[1-i]] = m[i]
		}
	}
	recs, errs := zzRun(ss, msgs)
	for i := range ss {
		zzsym.Assert(errs[i] != nil, "the round of the others fails")
		if errs[i] == nil {
			return
		}
		zzsym.Assert(len(recs[i].got) == 1, "the data of one party is checked")
		for _, g := range recs[i].got {
			zzsym.Assert(int(g.pid) == pids[1-i], "the data of the other party is checked")
			zzsym.Assert(zzsym.BytesEq(g.data, m[1-i]), "the bytes sent")
		}
		zzOnly(zzMissing(errs[i], n), pids[:])
	}
	zzsym.Reach("done")
}

func VerifC62_Many() {
	zzsym.ExactTime()
	zzsym.Bound("258 parties, a party with number 8, 64 or 255 behaves, the next one fails the check or behaves, the others send nothing")
	const n = 258
	m := []byte{1, 2, 3}
	a := []int{8, 64, 255}[zzsym.Choice("party", 3)]
	wrong := zzsym.Choice("wrong", 2) == 1
	sent := map[int]network.Connection{}
	for _, p := range []int{a, a + 1} {
		o, onet := zzInCrowd(p, n)
		zzConnected(o, onet, p, p, nil)
		zzsym.Assert(o.Round([][]byte{m}, (&zzRec{}).check) != nil, "the round of the others fails")
		sent[p] = zzStream(onet.to[0].written(), nil)
	}
	s, net := zzInCrowd(0, n)
	zzConnected(s, net, 0, 0, nil)
	for p, c := range sent {
		s.(*server).inDataConn[p] = c
	}
	rec := &zzRec{fail: make([]bool, n)}
	rec.fail[a+1] = wrong
	err := s.Round([][]byte{m}, rec.check)
	zzsym.Assert(err != nil, "a failing party fails the round")
	if err == nil {
		return
	}
	zzsym.Assert(len(err.Error()) > 0, "the error has a message")
	fine := []int{0, a}
	if !wrong {
		fine = append(fine, a+1)
	}
	zzOnly(zzMissing(err, n), fine)
	zzsym.Reach("done")
}
