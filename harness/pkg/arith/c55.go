//verif:props C55
package arith

import (
	"bytes"
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/zkpok"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

func zzMust(err error) {
	if err != nil {
		zzsym.Fail("data of an honest party can be encoded and decoded")
	}
}

func zzComms(data *bytes.Buffer, n int) (cs []*commitment.ElGamal) {
	for i := 0; i < n; i++ {
		c := &commitment.ElGamal{}
		zzMust(c.Decode(data))
		cs = append(cs, c)
	}
	return
}

func zzKnow(egf *commitment.ElGamalFactory, c *commitment.ElGamal, v, r *big.Int) *zkpok.ZKEGKnow {
	z, err := zkpok.NewZKEGKnow(egf, c, v, r)
	zzMust(err)
	return z
}

func zzRefresh(egf *commitment.ElGamalFactory, c, d *commitment.ElGamal, r *big.Int) *zkpok.ZKEGRefresh {
	z, err := zkpok.NewZKEGRefresh(egf, c, d, r)
	zzMust(err)
	return z
}

// zzReject runs the protocol with a last party whose data, after the given
// round, is replaced by that of the rounds in by; the others have to end with
// an error.
func zzReject(net *zzNet, by map[int]func(data []byte, to int) []byte, job func(pid uint16, s sync.Server) error) {
	net.alter = func(round, from, to int, data []byte) []byte {
		if f := by[round]; f != nil && from == net.n-1 {
			return f(data, to)
		}
		return data
	}
	net.run(func(pid uint16, s sync.Server) {
		err := job(pid, s)
		if int(pid) != net.n-1 {
			zzsym.Assert(err != nil, "a party without a valid proof is rejected")
		}
	})
	zzsym.Reach("done")
}

// zzOnce computes the same data for all receivers.
func zzOnce(f func(data []byte) []byte) func([]byte, int) []byte {
	var out []byte
	return func(data []byte, to int) []byte {
		if out == nil {
			out = f(data)
		}
		return append(make([]byte, 0, len(out)), out...)
	}
}

// zzShift is a commitment that differs from c in one or both components.
func zzShift(egf *commitment.ElGamalFactory, c *commitment.ElGamal) *commitment.ElGamal {
	v := zzsym.Scalar("dv")
	zzsym.Assume(v.Sign() != 0)
	d := egf.Neutral()
	switch zzsym.Choice("shift", 2) {
	case 0:
		d.Compose(c, egf.Create(v, big.NewInt(0)))
	case 1:
		d.Compose(c, egf.Create(v, zzsym.Scalar("dr")))
	}
	return d
}

func zzReshareReject(n, t int, by func(egf *commitment.ElGamalFactory, ads []*ADSecret) map[int]func([]byte, int) []byte) {
	zzsym.Generic(true)
	egf := zzFct()
	net := zzNewNet(n)
	ads := zzADs("a", net, egf)
	zzReject(net, by(egf, ads), func(pid uint16, s sync.Server) error {
		_, err := ads[pid].Reshare(uint16(t))
		return err
	})
}

// The proof that the share is known.
func zzReshareKnow(n, t int) {
	zzReshareReject(n, t, func(egf *commitment.ElGamalFactory, ads []*ADSecret) map[int]func([]byte, int) []byte {
		return map[int]func([]byte, int) []byte{0: zzOnce(func(data []byte) []byte {
			a := ads[n-1]
			v, r := a.skShare, a.r
			k := 1 + zzsym.Choice("which", 3)
			if k&1 != 0 {
				v = zzsym.Scalar("v")
			}
			if k&2 != 0 {
				r = zzsym.Scalar("r")
			}
			out := &bytes.Buffer{}
			zzMust(zzKnow(egf, a.egs[a.pid], v, r).Encode(out))
			return out.Bytes()
		})}
	})
}

func VerifC55_ReshareKnow() {
	zzsym.Bound("a proof of knowledge for any other share, randomness, or both; no coincidences; 2 parties, threshold 1")
	zzReshareKnow(2, 1)
}

func VerifC55_ReshareKnow3() {
	zzsym.Bound("a proof of knowledge for any other share, randomness, or both; no coincidences; 3 parties, threshold 2")
	zzReshareKnow(3, 2)
}

// Another share than the one committed to is shared, consistently from the
// coefficients on.
func zzReshareOther(n, t int) {
	zzReshareReject(n, t, func(egf *commitment.ElGamalFactory, ads []*ADSecret) map[int]func([]byte, int) []byte {
		a := ads[n-1]
		c, v, r := a.egs[a.pid], a.skShare, a.r
		a.skShare, a.r = zzsym.Scalar("v"), zzsym.Scalar("r")
		a.egs = append([]*commitment.ElGamal(nil), a.egs...)
		a.egs[a.pid] = egf.Create(a.skShare, a.r)
		return map[int]func([]byte, int) []byte{0: zzOnce(func(data []byte) []byte {
			out := &bytes.Buffer{}
			zzMust(zzKnow(egf, c, v, r).Encode(out))
			return out.Bytes()
		})}
	})
}

func VerifC55_ReshareOther() {
	zzsym.Bound("any other share than the one committed to is shared in the rounds after the first; no coincidences; 2 parties, thresholds 1 and 2")
	zzReshareOther(2, 1+zzsym.Choice("t", 2))
}

func VerifC55_ReshareOther3() {
	zzsym.Bound("any other share than the one committed to is shared in the rounds after the first; no coincidences; 3 parties, threshold 2")
	zzReshareOther(3, 2)
}

// The commitments to coefficients, of which the first refreshes that of the
// share; they are committed to beforehand.
func zzReshareCoef(n, t int) {
	how := zzsym.Choice("how", 3)
	zzReshareReject(n, t, func(egf *commitment.ElGamalFactory, ads []*ADSecret) map[int]func([]byte, int) []byte {
		a := ads[n-1]
		var dataBytes, zkpBytes []byte
		return map[int]func([]byte, int) []byte{1: zzOnce(func(data []byte) []byte {
			nmc := &NMCtmp{}
			zzMust(nmc.decode(bytes.NewBuffer(data)))
			cs := zzComms(bytes.NewBuffer(nmc.dataBytes), t)
			in := bytes.NewBuffer(nmc.zkpBytes)
			knows := make([]*zkpok.ZKEGKnow, t)
			for i := range knows {
				knows[i] = &zkpok.ZKEGKnow{}
				zzMust(knows[i].Decode(in))
			}
			refresh := &zkpok.ZKEGRefresh{}
			zzMust(refresh.Decode(in))

			v, r := zzsym.Scalar("v"), zzsym.Scalar("r")
			switch how {
			case 0: // another share
				cs[0] = egf.Create(v, r)
				knows[0] = zzKnow(egf, cs[0], v, r)
				dr := new(big.Int).Sub(r, a.r)
				refresh = zzRefresh(egf, a.egs[a.pid], cs[0], zzMod(dr))
			case 1: // any coefficient with a proof for something else
				i := zzsym.Choice("coef", t)
				knows[i] = zzKnow(egf, cs[i], v, r)
			case 2: // any other coefficient with the original proof
				i := zzsym.Choice("coef", t)
				cs[i] = zzShift(egf, cs[i])
			}
			d, z := &bytes.Buffer{}, &bytes.Buffer{}
			for _, c := range cs {
				zzMust(c.Encode(d))
			}
			for _, k := range knows {
				zzMust(k.Encode(z))
			}
			zzMust(refresh.Encode(z))
			dataBytes, zkpBytes = d.Bytes(), z.Bytes()
			out := &bytes.Buffer{}
			zzMust((&NMCtmp{dataBytes, zkpBytes}).encode(out))
			return out.Bytes()
		}), 2: zzOnce(func([]byte) []byte {
			return append(append(make([]byte, 0, len(dataBytes)+len(zkpBytes)), dataBytes...), zkpBytes...)
		})}
	})
}

func VerifC55_ReshareCoef() {
	zzsym.Bound("committed to beforehand: any other share with proofs made from it; any other coefficient or a proof of knowledge of anything else for one; no coincidences; 2 parties, threshold 2")
	zzReshareCoef(2, 2)
}

func VerifC55_ReshareCoef3() {
	zzsym.Bound("committed to beforehand: any other share with proofs made from it; any other coefficient or a proof of knowledge of anything else for one; no coincidences; 3 parties, threshold 2")
	zzReshareCoef(3, 2)
}

// The shares sent out are committed to consistently, but are not those of the
// polynomial.
func zzReshareEval(n, t int) {
	zzsym.Generic(true)
	egf := zzFct()
	net := zzNewNet(n)
	ads := zzADs("a", net, egf)
	at := zzsym.Choice("at", n)
	v, r := zzsym.Scalar("v"), zzsym.Scalar("r")
	sum := egf.Neutral() // commitment to the new share of the last party
	change := zzOnce(func(data []byte) []byte {
		in, out := bytes.NewBuffer(data), &bytes.Buffer{}
		cs := zzComms(in, n)
		zs := make([]*zkpok.ZKEGRefresh, n)
		for i := range zs {
			zs[i] = &zkpok.ZKEGRefresh{}
			zzMust(zs[i].Decode(in))
		}
		old := cs[at]
		if zzsym.Choice("how", 2) == 0 {
			cs[at] = egf.Create(v, r)
			zs[at] = zzRefresh(egf, old, cs[at], zzsym.Scalar("dr"))
		} else {
			cs[at] = zzShift(egf, cs[at])
		}
		for _, c := range cs {
			zzMust(c.Encode(out))
		}
		for _, z := range zs {
			zzMust(z.Encode(out))
		}
		return out.Bytes()
	})
	last := zzOnce(func(data []byte) []byte {
		out := &bytes.Buffer{}
		rnd := zzsym.Scalar("final")
		c := egf.Neutral()
		c.Compose(sum, egf.Create(big.NewInt(0), rnd))
		zzMust(zzRefresh(egf, sum, c, rnd).Encode(out))
		zzMust(c.Encode(out))
		return out.Bytes()
	})
	net.alter = func(round, from, to int, data []byte) []byte {
		switch {
		case round == 3:
			if from == n-1 {
				data = change(data, to)
			}
			if to == (from+1)%n {
				sum.Compose(sum, zzComms(bytes.NewBuffer(data), n)[n-1])
			}
		case round == 4 && from == n-1 && to == at:
			vb, rb := v.Bytes(), r.Bytes()
			out := append(make([]byte, 0, 4+len(vb)+len(rb)), byte(len(vb)), 0, 0, 0)
			return append(append(out, vb...), rb...)
		case round == 5 && from == n-1:
			return last(data, to)
		}
		return data
	}
	net.run(func(pid uint16, s sync.Server) {
		_, err := ads[pid].Reshare(uint16(t))
		if int(pid) != n-1 {
			zzsym.Assert(err != nil, "a party without a valid proof is rejected")
		}
	})
	zzsym.Reach("done")
}

func VerifC55_ReshareEval() {
	zzsym.Bound("any other share of one of the parties, committed to and sent consistently, with a proof made from it or the original one; no coincidences; 2 parties, threshold 2")
	zzReshareEval(2, 2)
}

func VerifC55_ReshareEval3() {
	zzsym.Bound("any other share of one of the parties, committed to and sent consistently, with a proof made from it or the original one; no coincidences; 3 parties, threshold 2")
	zzReshareEval(3, 2)
}

// The final commitment to the new share.
func zzReshareLast(n, t int) {
	zzReshareReject(n, t, func(egf *commitment.ElGamalFactory, ads []*ADSecret) map[int]func([]byte, int) []byte {
		return map[int]func([]byte, int) []byte{5: zzOnce(func(data []byte) []byte {
			in, out := bytes.NewBuffer(data), &bytes.Buffer{}
			var z zkpok.ZKEGRefresh
			zzMust(z.Decode(in))
			c := zzComms(in, 1)[0]
			d := zzShift(egf, c)
			if zzsym.Choice("how", 2) == 0 {
				z = *zzRefresh(egf, c, d, zzsym.Scalar("r"))
			}
			zzMust(z.Encode(out))
			zzMust(d.Encode(out))
			return out.Bytes()
		})}
	})
}

func VerifC55_ReshareLast() {
	zzsym.Bound("any other commitment to the new share, with a proof made for it or the original one; no coincidences; 2 parties, threshold 2")
	zzReshareLast(2, 2)
}

func VerifC55_ReshareLast3() {
	zzsym.Bound("any other commitment to the new share, with a proof made for it or the original one; no coincidences; 3 parties, threshold 2")
	zzReshareLast(3, 2)
}
