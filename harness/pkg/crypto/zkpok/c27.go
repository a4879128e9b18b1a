//verif:props C27
package zkpok

import (
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

// zzNonce is the response minus the challenge times the secret.
func zzNonce(z, e, s *big.Int) *big.Int {
	x := new(big.Int).Mul(e, s)
	return zzMod(x.Sub(z, x))
}

func zzReduced(z *big.Int) bool {
	return zzsym.And(z.Sign() >= 0, z.Cmp(zzsym.Order()) < 0)
}

// The nonces are exactly the values delivered by the random source, one per
// response, in some order.
func VerifC27_Know() {
	zzsym.Bound("two proofs in a row, of the same or another statement; secrets of up to 264 bits; any values of the random source below the order")
	f, _ := zzFct()
	var v, r *big.Int
	var c *commitment.ElGamal
	for k := 0; k < 2; k++ {
		if k == 0 || zzsym.Choice("same", 2) == 0 {
			v, r = zzWide("v"), zzWide("r")
			c = f.Create(v, r)
		}
		q1, q2 := zzsym.Scalar("q1"), zzsym.Scalar("q2")
		zzsym.QueueRand(q1)
		zzsym.QueueRand(q2)
		e := zzsym.Scalar("e")
		zzsym.Oracle(e)
		zzsym.RecordHashes()
		p, err := NewZKEGKnow(f, c, v, r)
		zzsym.Assert(err == nil, "proof made")
		if err != nil {
			return
		}
		in := zzsym.HashInputs()
		if len(in) != 1 {
			zzsym.Fail("one challenge per proof")
			return
		}
		zzsym.Assert(zzsym.RandLeft() == 0, "two random values are drawn")
		n1, n2 := zzNonce(p.z1, e, r), zzNonce(p.z2, e, v)
		zzsym.Assert(zzsym.Or(zzsym.And(zzsym.BigEq(n1, q1), zzsym.BigEq(n2, q2)), zzsym.And(zzsym.BigEq(n1, q2), zzsym.BigEq(n2, q1))), "each response is masked by its own nonce")
		zzsym.Assert(zzReduced(p.z1) && zzReduced(p.z2), "responses are reduced")
		zzsym.Assert(c.Equal(p.xy, f.Create(n2, n1)), "the first message commits to the nonces")
	}
}

func VerifC27_Refresh() {
	f, _ := zzFct()
	c1, _, _ := zzComm(f, "c1")
	var s *big.Int
	var c2 *commitment.ElGamal
	for k := 0; k < 2; k++ {
		if k == 0 || zzsym.Choice("same", 2) == 0 {
			if k > 0 {
				c1 = c2
			}
			s = zzWide("s")
			c2 = f.Neutral().Compose(c1, f.Create(big.NewInt(0), s))
		}
		q := zzsym.Scalar("q")
		zzsym.QueueRand(q)
		e := zzsym.Scalar("e")
		zzsym.Oracle(e)
		zzsym.RecordHashes()
		p, err := NewZKEGRefresh(f, c1, c2, s)
		zzsym.Assert(err == nil, "proof made")
		if err != nil {
			return
		}
		in := zzsym.HashInputs()
		if len(in) != 1 {
			zzsym.Fail("one challenge per proof")
			return
		}
		zzsym.Assert(zzsym.RandLeft() == 0, "a random value is drawn")
		zzsym.Assert(zzsym.BigEq(zzNonce(p.z1, e, s), q), "the response is masked by its own nonce")
		zzsym.Assert(zzReduced(p.z1), "the response is reduced")
		zzsym.Assert(c1.Equal(p.xy, f.Create(big.NewInt(0), zzNonce(p.z1, e, s))), "the first message commits to the nonce")
	}
}
