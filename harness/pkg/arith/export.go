//verif:props C51 C52 C53
package arith

import (
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

// ZZNet is the network of the parties.
type ZZNet struct{ n *zzNet }

// ZZNewNet connects n parties.
func ZZNewNet(n int) ZZNet { return ZZNet{zzNewNet(n)} }

// Run lets every party run job.
func (n ZZNet) Run(job func(pid uint16, s sync.Server)) { n.n.run(job) }

// Server of a party.
func (n ZZNet) Server(pid int) sync.Server { return n.n.server(pid) }

// Alter replaces what is delivered.
func (n ZZNet) Alter(f func(round, from, to int, data []byte) []byte) { n.n.alter = f }

// Rounds tells how many rounds a party took part in.
func (n ZZNet) Rounds(pid int) int { return n.n.rounds[pid] }

// ZZShared makes the parties' shares of the polynomial's constant term.
func ZZShared(label string, n ZZNet, egf *commitment.ElGamalFactory, f []*big.Int) []*TDSecret {
	return zzShared(label, n.n, egf, f)
}

// ZZPoly is any polynomial of the given number of coefficients.
func ZZPoly(name string, t int) []*big.Int { return zzPoly(name, t) }

// ZZFct is a factory for any base.
func ZZFct() *commitment.ElGamalFactory { return zzFct() }

// ZZShare is the share of a secret.
func ZZShare(s *TDSecret) *big.Int { return s.skShare }

// ZZThreshold is the threshold of a secret.
func ZZThreshold(s *TDSecret) int { return int(s.t) }

// ZZSecret is the secret that shares of the first t parties determine.
func ZZSecret(shares []*TDSecret, t int) *big.Int {
	sum := big.NewInt(0)
	for i := 0; i < t; i++ {
		num, den := big.NewInt(1), big.NewInt(1)
		for j := 0; j < t; j++ {
			if j != i {
				num.Mul(num, big.NewInt(int64(j+1)))
				den.Mul(den, big.NewInt(int64(j-i)))
			}
		}
		c := new(big.Int).ModInverse(zzMod(den), Q)
		c.Mul(c, num)
		sum.Add(sum, c.Mul(c, shares[i].skShare))
	}
	return zzMod(sum)
}

// ZZKeyShare is the share of a key.
func ZZKeyShare(k *DKey) *big.Int { return k.secret.skShare }
