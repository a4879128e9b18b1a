//verif:props C23
package zkpok

import (
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

// Any refresh proof is accepted exactly if the verification equation holds:
// the commitment to zero with the response as randomness equals the first
// message composed with the quotient raised to the challenge.
func VerifC23_Exact() {
	zzsym.Bound("responses of up to 256 bits; any statement, first message, base and challenge")
	f, t := zzFct()
	c1, v1, r1 := zzComm(f, "c1")
	c2, v2, r2 := zzComm(f, "c2")
	xy, xv, xr := zzComm(f, "xy")
	z1 := zzResp("z1")
	e := zzsym.Scalar("e")
	zzsym.Oracle(e)
	err := (&ZKEGRefresh{z1: z1, xy: xy}).Verify(f, c1, c2)
	if !zzsym.HashHooked() {
		zzsym.Fail("the challenge comes from the hash function")
		return
	}
	dv, dr := new(big.Int).Sub(v2, v1), new(big.Int).Sub(r2, r1)
	first := zzsym.BigEq(zzMod(z1), zzLin(xr, e, dr))
	second := zzsym.BigEq(zzMod(new(big.Int).Mul(t, z1)), zzLin(zzLin(xv, t, xr), e, zzLin(dv, t, dr)))
	zzsym.Assert(zzsym.Iff(err == nil, zzsym.And(first, second)), "accepted exactly if the equation holds in both components")
}

// A false statement is accepted for at most one challenge per first message.
func VerifC23_Sound() {
	f, _ := zzFct()
	c1, v1, _ := zzComm(f, "c1")
	c2, v2, _ := zzComm(f, "c2")
	xy, _, _ := zzComm(f, "xy")
	z, w := zzResp("z"), zzResp("w")
	e0, e1 := zzsym.Scalar("e0"), zzsym.Scalar("e1")
	zzsym.Assume(e0.Cmp(e1) != 0)
	zzsym.Oracle(e0, e1)
	a := (&ZKEGRefresh{z1: z, xy: xy}).Verify(f, c1, c2) == nil
	b := (&ZKEGRefresh{z1: w, xy: xy}).Verify(f, c1, c2) == nil
	if a && b {
		zzsym.Assert(zzsym.BigEq(v1, v2), "two challenges are answered only for commitments to the same value")
	}
}
