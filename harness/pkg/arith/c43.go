//verif:props C43
package arith

import (
	"bytes"
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

// zzCheat lets the data of the last party in the given round be replaced.
func zzCheat(net *zzNet, in int, by func(data []byte) []byte) {
	var instead []byte
	net.alter = func(round, from, to int, data []byte) []byte {
		if round != in || from != net.n-1 {
			return data
		}
		if instead == nil {
			instead = by(data)
		}
		return append([]byte(nil), instead...)
	}
}

func zzPoint(d *big.Int) []byte {
	g := zzGroup()
	buf := &bytes.Buffer{}
	if err := g.Encode(g.ScalarBaseMult(d), buf); err != nil {
		zzsym.Fail("points can be encoded")
	}
	return buf.Bytes()
}

func zzGenCheat(n int, by func(data []byte) []byte) {
	g := zzGroup()
	net := zzNewNet(n)
	zzCheat(net, 1, by)
	net.run(func(pid uint16, s sync.Server) {
		_, err := GenExpReveal(pid, "k", s, uint16(n), g)
		if int(pid) != n-1 {
			zzsym.Assert(err != nil, "a party that reveals something else is rejected")
		}
	})
	zzsym.Reach("done")
}

func VerifC43_GenPoint() {
	zzsym.Bound("any other point is revealed, no coincidences, 2 and 3 parties")
	zzsym.Generic(true)
	zzGenCheat(2+zzsym.Choice("n", 2), func(data []byte) []byte {
		d := zzPoint(zzsym.Scalar("other"))
		zzsym.Assume(!bytes.Equal(d, data))
		return d
	})
}

func VerifC43_GenBytes() {
	zzsym.Bound("any other bytes, up to 76, are revealed, 2 parties")
	zzsym.Generic(true)
	zzGenCheat(2, func(data []byte) []byte {
		d := zzsym.Bytes("other", 76)
		zzsym.Assume(!bytes.Equal(d, data))
		return d
	})
}

func VerifC43_GenTrailing() {
	zzsym.Bound("up to 4 bytes are appended to or cut off the revealed data, 2 parties")
	zzsym.Generic(true)
	zzGenCheat(2, func(data []byte) []byte {
		if zzsym.Choice("cut", 2) == 0 {
			return append(append(make([]byte, 0, len(data)+4), data...), zzsym.BytesN("more", 1+zzsym.Choice("k", 4))...)
		}
		return data[:len(data)-1-zzsym.Choice("k", 4)]
	})
}

// Instead, something else was committed to.
func VerifC43_GenCommit() {
	zzsym.Bound("any other data and proof, up to 76 and 4 bytes, committed to, 2 parties")
	zzsym.Generic(true)
	g := zzGroup()
	net := zzNewNet(2)
	zzCheat(net, 0, func(data []byte) []byte {
		orig := &NMCtmp{}
		if orig.decode(bytes.NewBuffer(data)) != nil {
			zzsym.Fail("commitments can be decoded")
		}
		nmc := &NMCtmp{zzsym.Bytes("data", 76), zzsym.Bytes("zkp", 4)}
		zzsym.Assume(!zzsym.And(zzsym.BytesEq(nmc.dataBytes, orig.dataBytes), zzsym.BytesEq(nmc.zkpBytes, orig.zkpBytes)))
		buf := &bytes.Buffer{}
		if nmc.encode(buf) != nil {
			zzsym.Fail("commitments can be encoded")
		}
		return buf.Bytes()
	})
	net.run(func(pid uint16, s sync.Server) {
		_, err := GenExpReveal(pid, "k", s, 2, g)
		if pid == 0 {
			zzsym.Assert(err != nil, "a party that reveals something else is rejected")
		}
	})
	zzsym.Reach("done")
}

func zzDHCheat(n, round int, by func(data []byte) []byte) {
	g := zzGroup()
	net := zzNewNet(n)
	keys, sk := zzDKeys(net)
	du := zzsym.Scalar("u")
	u, v := g.ScalarBaseMult(du), g.ScalarBaseMult(zzProd(du, sk))
	zzCheat(net, round, by)
	net.run(func(pid uint16, s sync.Server) {
		err := CheckDH(u, v, g, keys[pid])
		if int(pid) != n-1 {
			zzsym.Assert(err != nil, "a party that reveals something else is rejected")
		}
	})
	zzsym.Reach("done")
}

func VerifC43_CheckDH() {
	zzsym.Bound("other points revealed, one or both, no coincidences, 2 and 3 parties")
	zzsym.Generic(true)
	zzDHCheat(2+zzsym.Choice("n", 2), 1, func(data []byte) []byte {
		g := zzGroup()
		r := bytes.NewBuffer(data)
		v, err := g.Decode(r)
		if err != nil {
			zzsym.Fail("points can be decoded")
		}
		t, err := g.Decode(r)
		if err != nil {
			zzsym.Fail("points can be decoded")
		}
		k := zzsym.Choice("which", 4)
		if k == 0 {
			v, t = t, v
		}
		if k&1 == 1 {
			v = g.Add(v, g.ScalarBaseMult(zzsym.Scalar("dv")))
		}
		if k&2 == 2 {
			t = g.Add(t, g.ScalarBaseMult(zzsym.Scalar("dt")))
		}
		buf := &bytes.Buffer{}
		if g.Encode(v, buf) != nil || g.Encode(t, buf) != nil {
			zzsym.Fail("points can be encoded")
		}
		return buf.Bytes()
	})
}

// The sums over the parties are unchanged when a cheating party shifts both
// values along the key; it is the commitment that prevents it.
func VerifC43_CheckDHCommit() {
	zzsym.Bound("other data, up to 140 bytes, and proof, up to 4 bytes, committed to, 2 parties")
	zzsym.Generic(true)
	zzDHCheat(2, 0, func(data []byte) []byte {
		orig := &NMCtmp{}
		if orig.decode(bytes.NewBuffer(data)) != nil {
			zzsym.Fail("commitments can be decoded")
		}
		nmc := &NMCtmp{zzsym.Bytes("data", 140), zzsym.Bytes("zkp", 4)}
		zzsym.Assume(!zzsym.And(zzsym.BytesEq(nmc.dataBytes, orig.dataBytes), zzsym.BytesEq(nmc.zkpBytes, orig.zkpBytes)))
		buf := &bytes.Buffer{}
		if nmc.encode(buf) != nil {
			zzsym.Fail("commitments can be encoded")
		}
		return buf.Bytes()
	})
}

func zzReshareCheat(n, t, round int, by func(data []byte) []byte) {
	egf := zzFct()
	net := zzNewNet(n)
	ads := zzADs("a", net, egf)
	zzCheat(net, round, by)
	net.run(func(pid uint16, s sync.Server) {
		_, err := ads[pid].Reshare(uint16(t))
		if int(pid) != n-1 {
			zzsym.Assert(err != nil, "a party that reveals something else is rejected")
		}
	})
	zzsym.Reach("done")
}

func VerifC43_Reshare() {
	zzsym.Bound("commitments to other bytes: one byte more or less in one of the parts, the boundary of the parts moved, parts exchanged, the coefficients of another polynomial, no coincidences, 2 parties, threshold 2")
	zzsym.Generic(true)
	zzReshareCheat(2, 2, 1, zzOtherCommit)
}

func VerifC43_Reshare_T() {
	zzsym.Bound("as for 2 parties, but 3 parties, threshold 2")
	zzsym.Generic(true)
	zzReshareCheat(3, 2, 1, zzOtherCommit)
}

func zzOtherCommit(data []byte) []byte {
	nmc := &NMCtmp{}
	if nmc.decode(bytes.NewBuffer(data)) != nil {
		zzsym.Fail("commitments can be decoded")
	}
	cat := func(a, b []byte) []byte { return append(append(make([]byte, 0, len(a)+len(b)), a...), b...) }
	d, z := nmc.dataBytes, nmc.zkpBytes
	switch zzsym.Choice("how", 8) {
	case 0:
		d = cat(d, []byte{0})
	case 1:
		d = d[:len(d)-1]
	case 2:
		z = cat(z, []byte{0})
	case 3:
		z = z[:len(z)-1]
	case 4:
		d, z = cat(d, z[:1]), z[1:]
	case 5:
		d, z = cat(d, z), nil
	case 6:
		d, z = z, d
	case 7:
		egf := zzFct()
		buf := &bytes.Buffer{}
		for i := 0; i < 2; i++ {
			if egf.Create(zzsym.Scalar("other"), zzsym.Scalar("rand")).Encode(buf) != nil {
				zzsym.Fail("commitments can be encoded")
			}
		}
		d = buf.Bytes()
	}
	buf := &bytes.Buffer{}
	if (&NMCtmp{d, z}).encode(buf) != nil {
		zzsym.Fail("commitments can be encoded")
	}
	return buf.Bytes()
}

// A share sent in private that is not the one committed to.
func VerifC43_ReshareShare() {
	zzsym.Bound("any other share or randomness sent in private, no coincidences, 2 parties, threshold 2")
	zzsym.Generic(true)
	zzReshareCheat(2, 2, 4, func(data []byte) []byte {
		l := int(data[0]) | int(data[1])<<8 | int(data[2])<<16 | int(data[3])<<24
		share := new(big.Int).SetBytes(data[4 : 4+l])
		r := new(big.Int).SetBytes(data[4+l:])
		k := 1 + zzsym.Choice("which", 3)
		if k&1 != 0 {
			share = zzsym.Scalar("share")
		}
		if k&2 != 0 {
			r = zzsym.Scalar("rand")
		}
		sb, rb := share.Bytes(), r.Bytes()
		out := []byte{byte(len(sb)), 0, 0, 0}
		out = append(out, sb...)
		return append(out, rb...)
	})
}

func VerifC43_Wide() {
	zzsym.Bound("any other point is revealed, no coincidences, 9 parties")
	zzsym.Generic(true)
	zzGenCheat(9, func(data []byte) []byte {
		d := zzPoint(zzsym.Scalar("other"))
		if zzsym.BytesEq(d, data) {
			zzsym.Assume(false)
		}
		return d
	})
}
