//verif:props C51 C52 C53
package tecdsa

import (
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

func zzGroup() curve.Group { return curve.NewSecp256k1Group() }

// zzInit lets n parties start.
func zzInit(n int) (net arith.ZZNet, ps []*Protocol) {
	net = arith.ZZNewNet(n)
	ps = make([]*Protocol, n)
	net.Run(func(pid uint16, s sync.Server) {
		p, err := Init(pid, uint16(n), s)
		if err != nil || p == nil {
			zzsym.Fail("starting succeeds")
		}
		ps[pid] = p
	})
	return
}

// zzContent are the secrets of the next presignature.
func zzContent(ps []*Protocol, t int) (k, rho, eta, tau *big.Int) {
	var s [4][]*arith.TDSecret
	for _, p := range ps {
		if len(p.presig) == 0 {
			zzsym.Fail("a presignature was prepared")
		}
		x := p.presig[0]
		for i, d := range []*arith.TDSecret{x.k, x.rho, x.eta, x.tau} {
			s[i] = append(s[i], d)
		}
	}
	for i := range s {
		for _, d := range s[i] {
			zzsym.Assert(arith.ZZThreshold(d) == t, "the parts of a presignature have its threshold")
		}
	}
	return arith.ZZSecret(s[0], t), arith.ZZSecret(s[1], t), arith.ZZSecret(s[2], t), arith.ZZSecret(s[3], t)
}

func zzTimes(x, y *big.Int) *big.Int {
	z := new(big.Int).Mul(x, y)
	return z.Mod(z, zzsym.Order())
}

func zzPlus(x, y *big.Int) *big.Int {
	z := new(big.Int).Add(x, y)
	return z.Mod(z, zzsym.Order())
}

func zzPresign(net arith.ZZNet, ps []*Protocol, t int) {
	net.Run(func(pid uint16, s sync.Server) {
		if ps[pid].Presign(uint16(t)) != nil {
			zzsym.Fail("the preparation succeeds")
		}
	})
}

// zzPresigned makes parties that hold m presignatures of any content.
func zzPresigned(net arith.ZZNet, n, t, m int) []*Protocol {
	egf := arith.ZZFct()
	ps := make([]*Protocol, n)
	for i := range ps {
		ps[i] = &Protocol{pid: uint16(i), nProc: uint16(n), egf: egf, network: net.Server(i), group: zzGroup()}
	}
	for j := 0; j < m; j++ {
		k := arith.ZZShared("k", net, egf, arith.ZZPoly("k", t))
		rho := arith.ZZShared("rho", net, egf, arith.ZZPoly("rho", t))
		eta := arith.ZZShared("eta", net, egf, arith.ZZPoly("eta", t))
		tau := arith.ZZShared("tau", net, egf, arith.ZZPoly("tau", t))
		for i := range ps {
			ps[i].presig = append(ps[i].presig, &presig{k: k[i], rho: rho[i], eta: eta[i], tau: tau[i], t: uint16(t)})
		}
	}
	return ps
}
