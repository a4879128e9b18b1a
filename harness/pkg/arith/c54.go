//verif:props C54
package arith

import (
	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

// zzMalform makes the last party send something else in one of the rounds: any
// bytes, or its data cut off, extended or with some bytes overwritten.
func zzMalform(net *zzNet, rounds, max int, strict bool, job func(pid uint16, s sync.Server) error) {
	zzMalformIn(net, zzsym.Choice("round", rounds), max, true, strict, 8, job)
}

// Data that is missing or cut off has to be reported when strict.
func zzMalformIn(net *zzNet, in, max int, anywhere, strict bool, extend int, job func(pid uint16, s sync.Server) error) {
	zzsym.Generic(true)
	how := zzsym.Choice("how", 5)
	less := false
	net.alter = func(round, from, to int, data []byte) []byte {
		if round != in || from != net.n-1 || to != 0 {
			return data
		}
		switch how {
		case 0:
			return zzsym.Bytes("data", max)
		case 1:
			cut := 0
			if anywhere {
				cut = zzsym.Int("cut", 0, 1<<12)
				zzsym.Assume(cut < len(data))
			} else {
				cut = []int{0, 1, 3, 4, 5, 7, 8, 9, 11, 12, 16, 17, -1, -2, -8}[zzsym.Choice("cut", 15)]
				if cut < 0 {
					cut += len(data)
				}
				if cut < 0 || cut >= len(data) {
					return data
				}
			}
			less = true
			return data[:cut]
		case 2:
			more := zzsym.BytesN("more", []int{1, extend}[zzsym.Choice("k", 2)])
			return append(append(make([]byte, 0, len(data)+len(more)), data...), more...)
		case 3:
			less = true
			return nil
		}
		at := zzsym.Choice("at", 3) * 4
		if len(data) < at+4 {
			return data
		}
		var b []byte
		if anywhere {
			b = zzsym.BytesN("over", 4)
		} else {
			b = [][]byte{{1, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff}}[zzsym.Choice("over", 2)]
		}
		d := append(make([]byte, 0, len(data)), data...)
		copy(d[at:], b)
		return d
	}
	net.run(func(pid uint16, s sync.Server) {
		err := job(pid, s)
		if net.rounds[pid] <= in {
			zzsym.Assert(err != nil, "a protocol that ends early reports an error")
		}
		if pid == 0 && strict && less {
			zzsym.Assert(err != nil, "data that is missing or cut off is reported")
		}
	})
	zzsym.Reach("done")
}

func VerifC54_GenExpReveal() {
	zzsym.Bound("any one message to an honest party replaced by any up to 80 bytes, missing, cut anywhere, extended by 1 or 8 bytes, or 4 bytes overwritten at offset 0, 4 or 8; no coincidences; 2 parties")
	g := zzGroup()
	zzMalform(zzNewNet(2), 2, 80, true, func(pid uint16, s sync.Server) error {
		k, err := GenExpReveal(pid, "k", s, 2, g)
		zzsym.Assert((k == nil) == (err != nil), "a key or an error")
		return err
	})
}

func VerifC54_Gen() {
	zzsym.Bound("any one message to an honest party replaced by any up to 8 bytes, or missing, cut at one of 15 places, extended by 1 or 8 bytes, or 4 bytes overwritten by one of 2 values at offset 0, 4 or 8; no coincidences; 2 parties")
	egf := zzFct()
	zzMalformIn(zzNewNet(2), 0, 8, false, true, 8, func(pid uint16, s sync.Server) error {
		a, err := Gen("a", s, egf, pid, 2)
		zzsym.Assert((a == nil) == (err != nil), "a secret or an error")
		return err
	})
}

func VerifC54_Reveal() {
	zzsym.Bound("any one message to an honest party replaced by any up to 80 bytes, missing, cut anywhere, extended by 1 or 8 bytes, or 4 bytes overwritten at offset 0, 4 or 8; no coincidences; 2 parties, threshold 1 or 2")
	net := zzNewNet(2)
	a := zzShared("a", net, zzFct(), zzPoly("f", 1+zzsym.Choice("t", 2)))
	zzMalform(net, 1, 80, false, func(pid uint16, s sync.Server) error {
		v, err := a[pid].Reveal()
		zzsym.Assert((v == nil) == (err != nil), "a value or an error")
		return err
	})
}

func VerifC54_Exp() {
	zzsym.Bound("any one message to an honest party replaced by any up to 80 bytes, missing, cut anywhere, extended by 1 or 8 bytes, or 4 bytes overwritten at offset 0, 4 or 8; no coincidences; 2 parties, threshold 1 or 2")
	net := zzNewNet(2)
	a := zzShared("a", net, zzFct(), zzPoly("f", 1+zzsym.Choice("t", 2)))
	zzMalform(net, 1, 80, false, func(pid uint16, s sync.Server) error {
		k, err := a[pid].Exp()
		zzsym.Assert((k == nil) == (err != nil), "a key or an error")
		return err
	})
}

func VerifC54_CheckDH() {
	zzsym.Bound("any one message to an honest party replaced by any up to 8 bytes, or missing, cut at one of 15 places, extended by 1 or 8 bytes, or 4 bytes overwritten by one of 2 values at offset 0, 4 or 8; no coincidences; 2 parties")
	g := zzGroup()
	net := zzNewNet(2)
	keys, sk := zzDKeys(net)
	d := zzsym.Scalar("u")
	u, v := g.ScalarBaseMult(d), g.ScalarBaseMult(zzProd(d, sk))
	zzMalformIn(net, zzsym.Choice("round", 3), 8, false, true, 8, func(pid uint16, s sync.Server) error {
		return CheckDH(u, v, g, keys[pid])
	})
}

func VerifC54_Reshare() {
	zzsym.Bound("any one message to an honest party replaced by any up to 8 bytes, or missing, cut at one of 15 places, extended by 1 or 8 bytes, or 4 bytes overwritten by one of 2 values at offset 0, 4 or 8; no coincidences; 2 parties, threshold 1")
	net := zzNewNet(2)
	a := zzADs("a", net, zzFct())
	zzMalformIn(net, zzsym.Choice("round", 6), 8, false, true, 8, func(pid uint16, s sync.Server) error {
		x, err := a[pid].Reshare(1)
		zzsym.Assert((x == nil) == (err != nil), "a secret or an error")
		return err
	})
}

func VerifC54_Mult() {
	zzsym.Bound("any one message to an honest party replaced by any up to 8 bytes, or missing, cut at one of 15 places, extended by 1 or 300 bytes, or 4 bytes overwritten by one of 2 values at offset 0, 4 or 8; no coincidences; 2048-bit moduli; 2 parties")
	net := zzNewNet(2)
	egf := zzFct()
	a, b := zzADs("a", net, egf), zzADs("b", net, egf)
	privs, pubs := zzPaillier(2, 2048)
	in := zzsym.Choice("round", 4)
	zzMalformIn(net, in, 8, false, in > 1, 300, func(pid uint16, s sync.Server) error {
		c, err := Mult(a[pid], b[pid], "c", privs[pid], pubs[pid], pubs)
		zzsym.Assert((c == nil) == (err != nil), "a product or an error")
		return err
	})
}

func VerifC54_Thresholds() {
	zzsym.Bound("thresholds 0 to 5 of 2 and 3 parties, no coincidences")
	zzsym.Generic(true)
	n := 2 + zzsym.Choice("n", 2)
	t := zzsym.Choice("t", 6)
	net := zzNewNet(n)
	a := zzADs("a", net, zzFct())
	net.run(func(pid uint16, s sync.Server) {
		x, err := a[pid].Reshare(uint16(t))
		zzsym.Assert((x == nil) == (err != nil), "a secret or an error")
		if t == 0 {
			zzsym.Assert(err != nil, "a threshold of no party is an error")
		}
		if err == nil && x != nil {
			v, err := x.Reveal()
			zzsym.Assert((v == nil) == (err != nil), "a value or an error")
			zzsym.Assert((err != nil) == (t > n), "fewer parties than the threshold can't reveal")
		}
	})
	zzsym.Reach("done")
}
