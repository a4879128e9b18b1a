//verif:props C24
package zkpok

import (
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

// zzSameInputs says whether two recordings have the same hash inputs.
func zzSameInputs(a, b []zzsym.HashIn) bool {
	if len(a) != len(b) {
		return false
	}
	same := true
	for i := range a {
		same = zzsym.And(same, zzsym.BytesEq(a[i].Msg, b[i].Msg))
	}
	return same
}

// zzCount is the number of uses of the hash function in one run of f on
// given values.
func zzCount(f func()) int {
	one := big.NewInt(1)
	zzsym.Oracle(one, one, one, one)
	zzsym.RecordHashes()
	f()
	n := len(zzsym.HashInputs())
	zzsym.Oracle()
	if n == 0 {
		zzsym.Fail("the challenge comes from the hash function")
	}
	return n
}

// zzRecord runs f until its last use of the hash function.
func zzRecord(n int, f func()) []zzsym.HashIn {
	in := zzsym.UntilHash(n, f)
	if n > 0 && len(in) != n || len(in) == 0 {
		zzsym.Fail("the challenge comes from the hash function")
	}
	return in
}

func zzFixed() (*commitment.ElGamalFactory, *commitment.ElGamal) {
	g := curve.NewSecp256k1Group()
	f := commitment.NewElGamalFactory(g.ScalarBaseMult(big.NewInt(5)))
	return f, f.Create(big.NewInt(2), big.NewInt(3))
}

func zzCountKnow() int {
	f, c := zzFixed()
	return zzCount(func() { (&ZKEGKnow{z1: big.NewInt(6), z2: big.NewInt(4), xy: c}).Verify(f, c) })
}

func zzCountRefresh() int {
	f, c := zzFixed()
	return zzCount(func() { (&ZKEGRefresh{z1: big.NewInt(6), xy: c}).Verify(f, c, c) })
}

func zzEqual(a, b [2]*big.Int) bool {
	return zzsym.And(zzsym.BigEq(a[0], b[0]), zzsym.BigEq(a[1], b[1]))
}

// zzOther is either the given commitment or any other one.
func zzOther(f *commitment.ElGamalFactory, name string, change bool, c *commitment.ElGamal, d [2]*big.Int) (*commitment.ElGamal, [2]*big.Int) {
	if !change {
		return c, d
	}
	n, v, r := zzComm(f, name)
	return n, [2]*big.Int{v, r}
}

func VerifC24_KnowVerifier() {
	n := zzCountKnow()
	f, _ := zzFct()
	c, cv, cr := zzComm(f, "c")
	x, xv, xr := zzComm(f, "x")
	z1, z2 := zzResp("z1"), zzResp("z2")
	mask := 1 + zzsym.Choice("changed", 3)
	c2, d2 := zzOther(f, "c'", mask&1 != 0, c, [2]*big.Int{cv, cr})
	x2, y2 := zzOther(f, "x'", mask&2 != 0, x, [2]*big.Int{xv, xr})
	a := zzRecord(n, func() { (&ZKEGKnow{z1: z1, z2: z2, xy: x}).Verify(f, c) })
	b := zzRecord(n, func() { (&ZKEGKnow{z1: z1, z2: z2, xy: x2}).Verify(f, c2) })
	eq := zzsym.And(zzEqual([2]*big.Int{cv, cr}, d2), zzEqual([2]*big.Int{xv, xr}, y2))
	zzsym.Assert(zzsym.Implies(zzSameInputs(a, b), eq), "different transcripts, different hash inputs")
	zzsym.Assert(zzsym.Implies(eq, zzSameInputs(a, b)), "equal transcripts, equal hash inputs")
}

func VerifC24_KnowProver() {
	n := zzCountKnow()
	f, _ := zzFct()
	v, r := zzsym.Scalar("v"), zzsym.Scalar("r")
	c := f.Create(v, r)
	var p *ZKEGKnow
	a := zzRecord(0, func() { p, _ = NewZKEGKnow(f, c, v, r) })
	b := zzRecord(n, func() { p.Verify(f, c) })
	zzsym.Assert(zzSameInputs(a, b), "prover and verifier hash the same")
}

func VerifC24_RefreshVerifier()      { zzRefreshPair([]int{1, 2, 4, 3, 6}[zzsym.Choice("changed", 5)]) }
func VerifC24_RefreshVerifierAll_T() { zzRefreshPair([]int{5, 7}[zzsym.Choice("changed", 2)]) }

func zzRefreshPair(mask int) {
	n := zzCountRefresh()
	f, _ := zzFct()
	c1, cv, cr := zzComm(f, "c1")
	c2, dv, dr := zzComm(f, "c2")
	x, xv, xr := zzComm(f, "x")
	z := zzResp("z")
	n1, a1 := zzOther(f, "c1'", mask&1 != 0, c1, [2]*big.Int{cv, cr})
	n2, a2 := zzOther(f, "c2'", mask&2 != 0, c2, [2]*big.Int{dv, dr})
	nx, ax := zzOther(f, "x'", mask&4 != 0, x, [2]*big.Int{xv, xr})
	a := zzRecord(n, func() { (&ZKEGRefresh{z1: z, xy: x}).Verify(f, c1, c2) })
	b := zzRecord(n, func() { (&ZKEGRefresh{z1: z, xy: nx}).Verify(f, n1, n2) })
	eq := zzsym.And(zzEqual([2]*big.Int{cv, cr}, a1), zzsym.And(zzEqual([2]*big.Int{dv, dr}, a2), zzEqual([2]*big.Int{xv, xr}, ax)))
	zzsym.Assert(zzsym.Implies(zzSameInputs(a, b), eq), "different transcripts, different hash inputs")
	zzsym.Assert(zzsym.Implies(eq, zzSameInputs(a, b)), "equal transcripts, equal hash inputs")
}

func VerifC24_RefreshProver() {
	n := zzCountRefresh()
	f, _ := zzFct()
	c1, _, _ := zzComm(f, "c1")
	s := zzsym.Scalar("s")
	c2 := f.Neutral().Compose(c1, f.Create(big.NewInt(0), s))
	var p *ZKEGRefresh
	a := zzRecord(0, func() { p, _ = NewZKEGRefresh(f, c1, c2, s) })
	b := zzRecord(n, func() { p.Verify(f, c1, c2) })
	zzsym.Assert(zzSameInputs(a, b), "prover and verifier hash the same")
}
