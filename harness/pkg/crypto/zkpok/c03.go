//verif:props C03
package zkpok

import (
	"bytes"
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

// No proof operation changes what it is given.
func VerifC03_Proofs() {
	f, _ := zzFct()
	v, r := zzWide("v"), zzWide("r")
	v0, r0 := new(big.Int).Set(v), new(big.Int).Set(r)
	c := f.Create(v, r)
	d := f.Neutral().Compose(c, f.Create(big.NewInt(0), r))
	c0, d0 := f.Create(v0, r0), f.Create(v0, new(big.Int).Add(r0, r0))
	switch zzsym.Choice("kind", 2) {
	case 0:
		p, err := NewZKEGKnow(f, c, v, r)
		if err != nil {
			return
		}
		z1, z2 := new(big.Int).Set(p.z1), new(big.Int).Set(p.z2)
		x := f.Neutral().Compose(p.xy, f.Neutral())
		p.Verify(f, c)
		p.Verify(f, d)
		p.Encode(&bytes.Buffer{})
		zzsym.Assert(zzsym.And(zzsym.BigEq(z1, p.z1), zzsym.BigEq(z2, p.z2)), "responses unchanged")
		zzsym.Assert(c.Equal(x, p.xy), "first message unchanged")
		zzsym.Assert(zzsym.And(zzsym.BigEq(v, v0), zzsym.BigEq(r, r0)), "secrets unchanged by the proof")
		v.SetInt64(3)
		r.SetInt64(4)
		zzsym.Assert(zzsym.And(zzsym.BigEq(z1, p.z1), zzsym.BigEq(z2, p.z2)), "responses independent of the secrets")
		v.Set(v0)
		r.Set(r0)
		p.Verify(f, c)
	case 1:
		p, err := NewZKEGRefresh(f, c, d, r)
		if err != nil {
			return
		}
		z1 := new(big.Int).Set(p.z1)
		x := f.Neutral().Compose(p.xy, f.Neutral())
		p.Verify(f, c, d)
		p.Verify(f, d, c)
		p.Encode(&bytes.Buffer{})
		zzsym.Assert(zzsym.BigEq(z1, p.z1), "response unchanged")
		zzsym.Assert(c.Equal(x, p.xy), "first message unchanged")
	}
	zzsym.Assert(zzsym.And(zzsym.BigEq(v, v0), zzsym.BigEq(r, r0)), "secrets unchanged")
	zzsym.Assert(zzsym.And(c.Equal(c, c0), c.Equal(d, d0)), "statement unchanged")
	zzsym.Assert(f.IsNeutral(f.Neutral()), "factory unchanged")
	zzsym.Assert(zzsym.BigEq(f.Curve().Order(), zzsym.Order()), "order unchanged")
}
