//verif:props C46 C47
package arith

import (
	"fmt"
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

// zzMissing lets the data between some of the parties get lost, in every
// combination; it returns the table of what arrives.
func zzMissing(net *zzNet) [][]bool {
	ok := make([][]bool, net.n)
	for i := range ok {
		ok[i] = make([]bool, net.n)
		for j := range ok[i] {
			ok[i][j] = true
			if i != j {
				ok[i][j] = zzsym.Choice(fmt.Sprintf("arrives%d.%d", i, j), 2) == 0
			}
		}
	}
	zzLose(net, ok)
	return ok
}

func zzLose(net *zzNet, ok [][]bool) {
	net.alter = func(round, from, to int, data []byte) []byte {
		if !ok[from][to] {
			return nil
		}
		return data
	}
}

// zzSilent lets any set of parties be silent towards everybody.
func zzSilent(net *zzNet) [][]bool {
	ok := make([][]bool, net.n)
	for i := range ok {
		ok[i] = make([]bool, net.n)
		speaks := zzsym.Choice(fmt.Sprintf("speaks%d", i), 2) == 0
		for j := range ok[i] {
			ok[i][j] = speaks || i == j
		}
	}
	zzLose(net, ok)
	return ok
}

// zzHeard is the number of parties whose data arrives at pid, itself included.
func zzHeard(ok [][]bool, pid int) int {
	h := 0
	for i := range ok {
		if ok[i][pid] {
			h++
		}
	}
	return h
}

func zzReveal(n, t int, lost func(*zzNet) [][]bool) {
	egf := zzFct()
	net := zzNewNet(n)
	f := zzPoly("f", t)
	tds := zzShared("a", net, egf, f)
	ok := lost(net)
	vals := make([]*big.Int, n)
	errs := make([]error, n)
	net.run(func(pid uint16, s sync.Server) {
		tds[pid].server = s
		vals[pid], errs[pid] = tds[pid].Reveal()
	})
	for i := range vals {
		if zzHeard(ok, i) >= t {
			zzsym.Assert(errs[i] == nil && vals[i] != nil, "enough shares reveal the secret")
			if errs[i] == nil && vals[i] != nil {
				zzsym.Assert(zzsym.BigEq(vals[i], f[0]), "the revealed value is the secret")
			}
		} else {
			zzsym.Assert(errs[i] != nil, "too few shares are reported")
		}
		zzsym.Assert(zzsym.BigEq(tds[i].skShare, zzAt(f, i)), "the share is unchanged")
	}
	zzsym.Reach("done")
}

func zzAll(net *zzNet) [][]bool {
	ok := make([][]bool, net.n)
	for i := range ok {
		ok[i] = make([]bool, net.n)
		for j := range ok[i] {
			ok[i][j] = true
		}
	}
	return ok
}

func VerifC46_All() {
	zzsym.Bound("every polynomial, up to 4 parties, every threshold")
	for n := 1; n <= 4; n++ {
		for t := 1; t <= n; t++ {
			zzReveal(n, t, zzAll)
		}
	}
}

func VerifC46_Missing() {
	zzsym.Bound("every polynomial, up to 3 parties, every threshold, any data missing")
	n := 2 + zzsym.Choice("n", 2)
	t := 1 + zzsym.Choice("t", 3)
	zzsym.Assume(t <= n)
	zzReveal(n, t, zzMissing)
}

func VerifC46_Silent() {
	zzsym.Bound("every polynomial, 4 parties, every threshold, any silent parties")
	zzReveal(4, 1+zzsym.Choice("t", 4), zzSilent)
}

func VerifC46_SilentSix() {
	zzsym.Bound("every polynomial, 6 parties, every threshold, any silent parties")
	zzReveal(6, 1+zzsym.Choice("t", 6), zzSilent)
}

// A secret is revealed twice, and two secrets one after the other.
func VerifC46_Again() {
	zzsym.Bound("every two polynomials, 3 parties, threshold 2")
	egf := zzFct()
	net := zzNewNet(3)
	f, h := zzPoly("f", 2), zzPoly("h", 2)
	a, b := zzShared("a", net, egf, f), zzShared("b", net, egf, h)
	for _, x := range []struct {
		t []*TDSecret
		f []*big.Int
	}{{a, f}, {b, h}, {a, f}} {
		x := x
		net.run(func(pid uint16, s sync.Server) {
			v, err := x.t[pid].Reveal()
			zzsym.Assert(err == nil && v != nil, "enough shares reveal the secret")
			if err == nil && v != nil {
				zzsym.Assert(zzsym.BigEq(v, x.f[0]), "the revealed value is the secret")
			}
		})
	}
}

func zzExp(n, t int, lost func(*zzNet) [][]bool) {
	g := zzGroup()
	egf := zzFct()
	net := zzNewNet(n)
	f := zzPoly("f", t)
	tds := zzShared("a", net, egf, f)
	ok := lost(net)
	keys := make([]*TDKey, n)
	errs := make([]error, n)
	net.run(func(pid uint16, s sync.Server) {
		tds[pid].server = s
		keys[pid], errs[pid] = tds[pid].Exp()
	})
	for i, k := range keys {
		if zzHeard(ok, i) < t {
			zzsym.Assert(errs[i] != nil, "too few shares are reported")
			continue
		}
		zzsym.Assert(errs[i] == nil && k != nil, "enough shares yield the key")
		if errs[i] != nil || k == nil {
			continue
		}
		zzsym.Assert(g.Equal(k.PublicKey(), g.ScalarBaseMult(f[0])), "the key is the generator times the secret")
		zzsym.Assert(k.Threshold() == uint16(t), "threshold")
		zzsym.Assert(k.Label() == "a", "label")
		zzsym.Assert(len(k.pkShares) == n, "a public share for everybody")
		if len(k.pkShares) != n {
			continue
		}
		for j := range k.pkShares {
			if ok[j][i] {
				zzsym.Assert(k.pkShares[j] != nil && g.Equal(k.pkShares[j], g.ScalarBaseMult(zzAt(f, j))), "public shares match the private ones")
			}
		}
		zzsym.Assert(zzsym.BigEq(tds[i].skShare, zzAt(f, i)), "the share is unchanged")
	}
	zzsym.Reach("done")
}

// The shares are multiplied in goroutines.
func VerifC47_Races() {
	zzsym.Bound("every polynomial but no neutral points, 3 parties, threshold 3; no unsynchronised access to shared memory")
	zzsym.Generic(true)
	zzsym.NoSummaries()
	zzsym.Races()
	zzExp(3, 3, zzAll)
}

func VerifC47_All() {
	zzsym.Bound("every polynomial, 2 parties, every threshold")
	for t := 1; t <= 2; t++ {
		zzExp(2, t, zzAll)
	}
}

func VerifC47_Generic() {
	zzsym.Bound("every polynomial but no neutral points, up to 4 parties, every threshold")
	zzsym.Generic(true)
	for n := 1; n <= 4; n++ {
		for t := 1; t <= n; t++ {
			zzExp(n, t, zzAll)
		}
	}
}

func VerifC47_Missing() {
	zzsym.Bound("every polynomial but no neutral points, up to 3 parties, every threshold, any data missing")
	zzsym.Generic(true)
	n := 2 + zzsym.Choice("n", 2)
	t := 1 + zzsym.Choice("t", 3)
	zzsym.Assume(t <= n)
	zzExp(n, t, zzMissing)
}

func VerifC47_Silent() {
	zzsym.Bound("every polynomial but no neutral points, 4 parties, every threshold, any silent parties")
	zzsym.Generic(true)
	zzExp(4, 1+zzsym.Choice("t", 4), zzSilent)
}

func VerifC47_SilentSix() {
	zzsym.Bound("every polynomial but no neutral points, 6 parties, every threshold, any silent parties")
	zzsym.Generic(true)
	zzExp(6, 1+zzsym.Choice("t", 6), zzSilent)
}

// A share that is not an encoding of a point counts as missing.
func VerifC47_Garbage() {
	zzsym.Bound("every polynomial but no neutral points, 3 parties, threshold 2 and 3, one party sends any bytes up to 12")
	zzsym.Generic(true)
	t := 2 + zzsym.Choice("t", 2)
	g := zzGroup()
	net := zzNewNet(3)
	f := zzPoly("f", t)
	tds := zzShared("a", net, zzFct(), f)
	bad := zzsym.Bytes("bad", 12)
	zzsym.Assume(len(bad) == 0 || bad[0] != 0)
	net.alter = func(round, from, to int, data []byte) []byte {
		if from == 1 {
			return append([]byte{}, bad...)
		}
		return data
	}
	net.run(func(pid uint16, s sync.Server) {
		k, err := tds[pid].Exp()
		switch {
		case pid == 1:
			zzsym.Assert(err == nil, "enough shares yield the key")
		case t == 3:
			zzsym.Assert(err != nil, "too few shares are reported")
		default:
			zzsym.Assert(err == nil && k != nil, "enough shares yield the key")
			if err == nil && k != nil {
				zzsym.Assert(g.Equal(k.PublicKey(), g.ScalarBaseMult(f[0])), "the key is the generator times the secret")
			}
		}
	})
	zzsym.Reach("done")
}

// zzEdge silences the first or the last few parties, around as many as are
// allowed to be.
func zzEdge(t int) func(*zzNet) [][]bool {
	return func(net *zzNet) [][]bool {
		silent := net.n - t - 1 + zzsym.Choice("silent", 3)
		first := zzsym.Choice("first", 2) == 1
		ok := make([][]bool, net.n)
		for i := range ok {
			ok[i] = make([]bool, net.n)
			speaks := i >= silent
			if !first {
				speaks = i < net.n-silent
			}
			for j := range ok[i] {
				ok[i][j] = speaks || i == j
			}
		}
		zzLose(net, ok)
		return ok
	}
}

func VerifC46_Wide() {
	zzsym.Bound("every polynomial, 12 parties, threshold 2, 7 and 11, the first or the last parties are silent")
	t := []int{2, 7, 11}[zzsym.Choice("t", 3)]
	zzReveal(12, t, zzEdge(t))
}

func VerifC47_Wide() {
	zzsym.Bound("every polynomial but no neutral points, 12 parties, threshold 2, 7 and 11, the first or the last parties are silent")
	zzsym.Generic(true)
	t := []int{2, 7, 11}[zzsym.Choice("t", 3)]
	zzExp(12, t, zzEdge(t))
}
