//verif:props C22
package zkpok

import (
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

// Any proof for any commitment and challenge is accepted exactly if the
// verification equation holds in both components.
func VerifC22_Exact() {
	zzsym.Bound("responses of up to 256 bits; any statement, first message, base and challenge")
	f, t := zzFct()
	c, v, r := zzComm(f, "c")
	xy, xv, xr := zzComm(f, "xy")
	z1, z2 := zzResp("z1"), zzResp("z2")
	e := zzsym.Scalar("e")
	zzsym.Oracle(e)
	err := (&ZKEGKnow{z1: z1, z2: z2, xy: xy}).Verify(f, c)
	if !zzsym.HashHooked() {
		zzsym.Fail("the challenge comes from the hash function")
		return
	}
	first := zzsym.BigEq(zzMod(z1), zzLin(xr, e, r))
	lhs := zzLin(z2, t, z1)
	rhs := zzLin(zzLin(xv, t, xr), e, zzLin(v, t, r))
	second := zzsym.BigEq(lhs, rhs)
	zzsym.Assert(zzsym.Iff(err == nil, zzsym.And(first, second)), "accepted exactly if the equation holds in both components")
}

// Two accepted pairs of responses for the same first message and challenge agree.
func VerifC22_Unique() {
	f, _ := zzFct()
	c, _, _ := zzComm(f, "c")
	xy, _, _ := zzComm(f, "xy")
	z1, z2, w1, w2 := zzResp("z1"), zzResp("z2"), zzResp("w1"), zzResp("w2")
	e := zzsym.Scalar("e")
	zzsym.Oracle(e, new(big.Int).Set(e))
	a := (&ZKEGKnow{z1: z1, z2: z2, xy: xy}).Verify(f, c) == nil
	b := (&ZKEGKnow{z1: w1, z2: w2, xy: xy}).Verify(f, c) == nil
	same := zzsym.And(zzsym.BigEq(zzMod(z1), zzMod(w1)), zzsym.BigEq(zzMod(z2), zzMod(w2)))
	if a && b {
		zzsym.Assert(same, "one pair of responses per first message and challenge")
	}
}

// Two accepted proofs with the same first message and different challenges
// give an opening of the commitment.
func VerifC22_Extract() {
	f, _ := zzFct()
	c, v, r := zzComm(f, "c")
	xy, _, _ := zzComm(f, "xy")
	z1, z2, w1, w2 := zzResp("z1"), zzResp("z2"), zzResp("w1"), zzResp("w2")
	e0, e1 := zzsym.Scalar("e0"), zzsym.Scalar("e1")
	zzsym.Assume(e0.Cmp(e1) != 0)
	zzsym.Oracle(e0, e1)
	a := (&ZKEGKnow{z1: z1, z2: z2, xy: xy}).Verify(f, c) == nil
	b := (&ZKEGKnow{z1: w1, z2: w2, xy: xy}).Verify(f, c) == nil
	if a && b {
		de := new(big.Int).Sub(e0, e1)
		zzsym.Assert(zzsym.BigEq(zzMod(new(big.Int).Mul(de, r)), zzMod(new(big.Int).Sub(z1, w1))), "randomness can be extracted")
		zzsym.Assert(zzsym.BigEq(zzMod(new(big.Int).Mul(de, v)), zzMod(new(big.Int).Sub(z2, w2))), "value can be extracted")
	}
}
