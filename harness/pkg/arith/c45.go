//verif:props C45
package arith

import (
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

func zzReshare(n, t int) {
	zzsym.Generic(true)
	egf := zzFct()
	net := zzNewNet(n)
	ads := zzADs("a", net, egf)
	keep := make([]ADSecret, n)
	sum := big.NewInt(0)
	for i, a := range ads {
		keep[i] = *a
		keep[i].skShare = new(big.Int).Set(a.skShare)
		keep[i].r = new(big.Int).Set(a.r)
		sum.Add(sum, a.skShare)
	}
	tds := make([]*TDSecret, n)
	errs := make([]error, n)
	net.run(func(pid uint16, s sync.Server) {
		ads[pid].server = s
		tds[pid], errs[pid] = ads[pid].Reshare(uint16(t))
	})
	for i := range tds {
		if t > n && errs[i] != nil {
			return // too few parties could be refused
		}
		zzsym.Assert(errs[i] == nil && tds[i] != nil, "resharing succeeds")
		if errs[i] != nil || tds[i] == nil {
			return
		}
	}
	for i, d := range tds {
		zzsym.Assert(zzsym.And(zzInRange(d.skShare), zzInRange(d.r)), "shares and randomness are scalars")
		zzsym.Assert(d.pid == uint16(i) && d.t == uint16(t) && d.Threshold() == uint16(t) && d.server != nil && d.egf == egf && d.Label() == "a", "party, threshold, label and connection")
		zzsym.Assert(len(d.egs) == n, "a commitment for everybody")
		if len(d.egs) != n {
			return
		}
		for j, e := range tds {
			zzsym.Assert(d.egs[j].Equal(d.egs[j], egf.Create(e.skShare, e.r)), "commitments match the shares")
		}
	}
	// what was shared is unchanged
	for i, a := range ads {
		zzsym.Assert(zzsym.And(zzsym.BigEq(a.skShare, keep[i].skShare), zzsym.BigEq(a.r, keep[i].r)), "the original share is unchanged")
		for j := range a.egs {
			zzsym.Assert(a.egs[j].Equal(a.egs[j], egf.Create(keep[j].skShare, keep[j].r)), "the original commitments are unchanged")
		}
	}
	all := make([]int64, n)
	for i := range all {
		all[i] = int64(i)
	}
	order := zzsym.Order()
	zzSubsets(all, t, func(ps []int64) {
		args := make([]*big.Int, t)
		for i, p := range ps {
			args[i] = big.NewInt(p)
		}
		v := big.NewInt(0)
		for i, p := range ps {
			v.Add(v, new(big.Int).Mul(tds[p].skShare, lagrangeCoef(args[i], args, order)))
		}
		zzsym.Assert(zzsym.BigEq(zzMod(v), zzMod(sum)), "any threshold of shares determines the secret")
	})
	zzsym.Reach("done")
}

func VerifC45_Two() {
	zzsym.Bound("any shares, randomness and base, no neutral points, 2 parties, threshold 2")
	zzReshare(2, 2)
}

func VerifC45_TwoOne() {
	zzsym.Bound("any shares, randomness and base, no neutral points, 2 parties, threshold 1")
	zzReshare(2, 1)
}

func VerifC45_Deep() {
	zzsym.Bound("any shares, randomness and base, no neutral points, 2 parties, threshold 33")
	zzReshare(2, 33)
}

func VerifC45_Deeper_T() {
	zzsym.Bound("any shares, randomness and base, no neutral points, 2 parties, threshold 66")
	zzReshare(2, 66)
}

func VerifC45_Wide() {
	zzsym.Bound("any shares, randomness and base, no neutral points, 6 parties, threshold 6")
	zzReshare(6, 6)
}

func VerifC45_ThreeTwo() {
	zzsym.Bound("any shares, randomness and base, no neutral points, 3 parties, threshold 2")
	zzReshare(3, 2)
}

func VerifC45_ThreeThree() {
	zzsym.Bound("any shares, randomness and base, no neutral points, 3 parties, threshold 3")
	zzReshare(3, 3)
}

func VerifC45_Four() {
	zzsym.Bound("any shares, randomness and base, no neutral points, 4 parties, threshold 2 and 3")
	zzReshare(4, 2)
	zzReshare(4, 3)
}

func VerifC45_Five() {
	zzsym.Bound("any shares, randomness and base, no neutral points, 5 parties, threshold 3")
	zzReshare(5, 3)
}
