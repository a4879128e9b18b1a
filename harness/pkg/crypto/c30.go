//verif:props C30
package pkg

import (
	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

func VerifC30_Range() {
	zzsym.Bound("messages up to 2^20 bytes")
	m := zzsym.Bytes("m", 1<<20)
	m0 := append([]byte{}, m...)
	h := HashToBigInt(m)
	zzsym.Assert(h.Sign() >= 0 && h.Cmp(zzsym.Order()) < 0, "in the scalar range")
	zzsym.Assert(zzsym.BytesEq(m, m0), "message unchanged")
	g := HashToBigInt(m)
	zzsym.Assert(zzsym.BigEq(h, g), "depends only on the message")
	h.SetInt64(5)
	zzsym.Assert(zzsym.BigEq(HashToBigInt(m0), g), "no state")
}

// zzDistinct checks that messages whose hashes always agree are the same.
func zzDistinct(m, n []byte) {
	same := zzsym.BytesEq(m, n)
	h, g := HashToBigInt(m), HashToBigInt(n)
	zzsym.Assert(h.Sign() >= 0 && h.Cmp(zzsym.Order()) < 0, "in the scalar range")
	zzsym.Assert(zzsym.Implies(zzsym.Entailed(zzsym.BigEq(h, g)), same), "every byte is used")
	zzsym.Assert(zzsym.Implies(same, zzsym.BigEq(h, g)), "equal messages, equal hashes")
}

func VerifC30_Short() {
	zzsym.Bound("pairs of messages up to 3 bytes, every length")
	zzDistinct(zzsym.BytesN("m", zzsym.Choice("len m", 4)), zzsym.BytesN("n", zzsym.Choice("len n", 4)))
}

func VerifC30_Blocks() {
	zzsym.Bound("pairs of messages of 0, 31 to 33, 64, 65, 97 and 130 bytes")
	l := []int{0, 31, 32, 33, 64, 65, 97, 130}
	zzDistinct(zzsym.BytesN("m", l[zzsym.Choice("len m", 8)]), zzsym.BytesN("n", l[zzsym.Choice("len n", 8)]))
}

func VerifC30_Long() {
	zzsym.Bound("pairs of messages up to 2^20 bytes")
	zzDistinct(zzsym.Bytes("m", 1<<20), zzsym.Bytes("n", 1<<20))
}
