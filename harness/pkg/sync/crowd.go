//verif:props C60
package sync

import (
	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

func VerifC60_Introduced() {
	zzsym.ExactTime()
	zzsym.Bound("one of 258 parties, with number 1, 255, 256 or 257, connects")
	const n = 258
	p := []int{1, 255, 256, 257}[zzsym.Choice("party", 4)]
	s, net := zzInCrowd(p, n)
	s.Start()
	sv := s.(*server)
	for i := 1; i < n; i++ {
		sv.startWG.Done() // nobody connects to it
	}
	sv.startWG.Wait()
	v, _ := zzInCrowd(0, n)
	conn := zzStream(net.to[0].written(), nil)
	err := v.(*server).accept(conn)
	zzsym.Assert(err == nil, "the introduction is accepted")
	for i, c := range v.(*server).inDataConn {
		zzsym.Assert((c != nil) == (i == p), "the connection belongs to the party")
	}
	zzsym.Reach("done")
}
