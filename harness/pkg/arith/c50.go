//verif:props C50
package arith

import (
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

func zzMult(n int) {
	zzsym.Generic(true)
	egf := zzFct()
	net := zzNewNet(n)
	a, b := zzADs("a", net, egf), zzADs("b", net, egf)
	privs, pubs := zzPaillier(n, 2048)
	as, bs := big.NewInt(0), big.NewInt(0)
	var keep [][4]*big.Int
	for i := range a {
		as.Add(as, a[i].skShare)
		bs.Add(bs, b[i].skShare)
		keep = append(keep, [4]*big.Int{new(big.Int).Set(a[i].skShare), new(big.Int).Set(a[i].r), new(big.Int).Set(b[i].skShare), new(big.Int).Set(b[i].r)})
	}
	cs := make([]*ADSecret, n)
	errs := make([]error, n)
	net.run(func(pid uint16, s sync.Server) {
		cs[pid], errs[pid] = Mult(a[pid], b[pid], "c", privs[pid], pubs[pid], pubs)
	})
	for i := range cs {
		zzsym.Assert(errs[i] == nil && cs[i] != nil, "the multiplication succeeds")
		if errs[i] != nil || cs[i] == nil {
			return
		}
	}
	sum := big.NewInt(0)
	for i, c := range cs {
		zzsym.Assert(zzsym.And(zzInRange(c.skShare), zzInRange(c.r)), "shares and randomness are scalars")
		zzsym.Assert(c.pid == uint16(i) && c.server == a[i].server && c.server != nil && c.egf == egf && c.Label() == "c", "party, label and connection")
		sum.Add(sum, c.skShare)
		zzsym.Assert(len(c.egs) == n, "a commitment for everybody")
		if len(c.egs) != n {
			continue
		}
		for j, d := range cs {
			zzsym.Assert(c.egs[j].Equal(c.egs[j], egf.Create(d.skShare, d.r)), "commitments match the shares")
		}
	}
	zzsym.Assert(zzsym.BigEq(zzMod(sum), zzProd(as, bs)), "the shares sum up to the product")
	for i := range a {
		k := keep[i]
		for j, v := range []*big.Int{a[i].skShare, a[i].r, b[i].skShare, b[i].r} {
			zzsym.Assert(zzsym.BigEq(v, k[j]), "operands keep their shares")
		}
		for j := range a {
			zzsym.Assert(a[i].egs[j].Equal(a[i].egs[j], egf.Create(keep[j][0], keep[j][1])), "operands keep their commitments")
			zzsym.Assert(b[i].egs[j].Equal(b[i].egs[j], egf.Create(keep[j][2], keep[j][3])), "operands keep their commitments")
		}
	}
	zzsym.Reach("done")
}

func VerifC50_Two() {
	zzsym.Bound("all secrets but no coincidences, 2048-bit moduli, 2 parties")
	zzMult(2)
}

func VerifC50_Three() {
	zzsym.Bound("all secrets but no coincidences, 2048-bit moduli, 3 parties")
	zzMult(3)
}

func VerifC50_Four() {
	zzsym.Bound("all secrets but no coincidences, 2048-bit moduli, 4 parties")
	zzMult(4)
}

// A secret times itself.
func VerifC50_Square() {
	zzsym.Bound("all secrets but no coincidences, 2048-bit moduli, 2 parties")
	zzsym.Generic(true)
	egf := zzFct()
	net := zzNewNet(2)
	a := zzADs("a", net, egf)
	privs, pubs := zzPaillier(2, 2048)
	as := zzSum(a[0].skShare, a[1].skShare)
	var sum big.Int
	net.run(func(pid uint16, s sync.Server) {
		c, err := Mult(a[pid], a[pid], "c", privs[pid], pubs[pid], pubs)
		zzsym.Assert(err == nil && c != nil, "the multiplication succeeds")
		if err == nil && c != nil {
			sum.Add(&sum, c.skShare)
		}
	})
	zzsym.Assert(zzsym.BigEq(zzMod(&sum), zzProd(as, as)), "the shares sum up to the product")
	zzsym.Reach("done")
}

// All values: the private part of the multiplication, with shares that are scalars.
func VerifC50_Priv() {
	zzsym.Bound("all shares and random values, moduli of 514 to 2048 bits, 1 to 3 parties")
	n := 1 + zzsym.Choice("n", 3)
	net := zzNewNet(n)
	privs, pubs := zzPaillier(n, []uint{514, 1024, 2048}[zzsym.Choice("bits", 3)])
	as, bs := make([]*big.Int, n), make([]*big.Int, n)
	for i := range as {
		as[i], bs[i] = zzsym.Scalar("a"), zzsym.Scalar("b")
	}
	sum := big.NewInt(0)
	net.run(func(pid uint16, s sync.Server) {
		a, b := new(big.Int).Set(as[pid]), new(big.Int).Set(bs[pid])
		c, err := PrivMult(a, b, int(pid), n, s, privs[pid], pubs[pid], pubs)
		zzsym.Assert(err == nil && c != nil, "the multiplication succeeds")
		if err == nil && c != nil {
			sum.Add(sum, c)
			zzsym.Assert(zzInRange(c), "the share is a scalar")
		}
		zzsym.Assert(zzsym.And(zzsym.BigEq(a, as[pid]), zzsym.BigEq(b, bs[pid])), "the operands are unchanged")
	})
	zzsym.Assert(zzsym.BigEq(zzMod(sum), zzProd(zzSum(as...), zzSum(bs...))), "the shares sum up to the product")
}

func VerifC50_Wide() {
	zzsym.Bound("all secrets but no coincidences, 2048-bit moduli, 7 parties")
	zzMult(7)
}
