//verif:props C40 C41 C42 C43 C44 C45 C46 C47 C48 C49 C50 C51 C52 C53 C54 C55
package arith

import (
	"errors"
	"fmt"
	"math/big"

	"github.com/binance-chain/tss-lib/crypto/paillier"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

// zzNet connects n parties according to the contract of a round (which C60 to
// C64 check of the real server): every party gets exactly the data of the
// others, in the order of the parties, and the round fails naming the parties
// whose data is missing or refused. One party runs at a time.
type zzNet struct {
	n      int
	queue  [][][][]byte // queue[from][to]: data in transit, nil when missing
	turn   []chan bool
	done   []bool
	rounds []int
	// alter replaces what is delivered; nil data is missing.
	alter func(round, from, to int, data []byte) []byte
}

func zzNewNet(n int) *zzNet {
	net := &zzNet{n: n, done: make([]bool, n), rounds: make([]int, n)}
	for i := 0; i < n; i++ {
		net.turn = append(net.turn, make(chan bool, 1))
		net.queue = append(net.queue, make([][][]byte, n))
	}
	return net
}

type zzServer struct {
	net *zzNet
	pid int
}

func (s *zzServer) Start() {}
func (s *zzServer) Stop()  {}

var errZZRound = errors.New("round failed")

// pass lets the next party run.
func (n *zzNet) pass(me int) bool {
	for d := 1; d < n.n; d++ {
		j := (me + d) % n.n
		if !n.done[j] {
			n.turn[j] <- true
			return true
		}
	}
	return false
}

func (s *zzServer) Round(toSend [][]byte, check func(uint16, []byte) error) error {
	n := s.net
	round := n.rounds[s.pid]
	n.rounds[s.pid]++
	for to := 0; to < n.n; to++ {
		if to == s.pid {
			continue
		}
		d := toSend[0]
		if len(toSend) > 1 {
			d = toSend[to]
		}
		d = append(make([]byte, 0, len(d)), d...)
		if n.alter != nil {
			d = n.alter(round, s.pid, to, d)
		}
		n.queue[s.pid][to] = append(n.queue[s.pid][to], d)
	}
	if n.pass(s.pid) {
		<-n.turn[s.pid]
	}
	var failed []uint16
	for from := 0; from < n.n; from++ {
		if from == s.pid {
			continue
		}
		var d []byte
		if q := n.queue[from][s.pid]; len(q) > 0 {
			d = q[0]
			n.queue[from][s.pid] = q[1:]
		}
		if d == nil || check(uint16(from), d) != nil {
			failed = append(failed, uint16(from))
		}
	}
	if len(failed) > 0 {
		return sync.ZZRoundError("data is missing or wrong", failed)
	}
	return nil
}

// run lets every party run job; it ends when all are done.
func (n *zzNet) run(job func(pid uint16, s sync.Server)) {
	for i := range n.done {
		n.done[i] = false
		n.rounds[i] = 0
		for j := range n.queue[i] {
			n.queue[i][j] = nil
		}
	}
	end := make(chan bool, n.n)
	for i := 0; i < n.n; i++ {
		go func(i int) {
			<-n.turn[i]
			job(uint16(i), n.server(i))
			n.done[i] = true
			n.pass(i)
			end <- true
		}(i)
	}
	n.turn[0] <- true
	for i := 0; i < n.n; i++ {
		<-end
	}
}

func (n *zzNet) server(i int) sync.Server { return &zzServer{n, i} }

func zzMod(x *big.Int) *big.Int { return new(big.Int).Mod(x, zzsym.Order()) }

func zzSum(xs ...*big.Int) *big.Int {
	s := big.NewInt(0)
	for _, x := range xs {
		s.Add(s, x)
	}
	return zzMod(s)
}

func zzProd(x, y *big.Int) *big.Int { return zzMod(new(big.Int).Mul(x, y)) }

func zzGroup() curve.Group { return curve.NewSecp256k1Group() }

// zzFct is a factory for any base.
func zzFct() *commitment.ElGamalFactory {
	return commitment.NewElGamalFactory(zzGroup().ScalarBaseMult(zzsym.Scalar("base")))
}

func zzInRange(x *big.Int) bool {
	return zzsym.And(x.Sign() >= 0, x.Cmp(zzsym.Order()) < 0)
}

// zzPoly is any polynomial of the given number of coefficients.
func zzPoly(name string, t int) []*big.Int {
	f := make([]*big.Int, t)
	for i := range f {
		f[i] = zzsym.Scalar(fmt.Sprintf("%s%d", name, i))
	}
	return f
}

// zzAt is the value of the polynomial at the point of the party.
func zzAt(f []*big.Int, pid int) *big.Int {
	x := big.NewInt(int64(pid + 1))
	v := big.NewInt(0)
	for i := len(f) - 1; i >= 0; i-- {
		v.Mul(v, x)
		v.Add(v, f[i])
	}
	return zzMod(v)
}

// zzShared makes the parties' shares of the polynomial's constant term.
func zzShared(label string, net *zzNet, egf *commitment.ElGamalFactory, f []*big.Int) []*TDSecret {
	egs := make([]*commitment.ElGamal, net.n)
	tds := make([]*TDSecret, net.n)
	for i := range tds {
		share, r := zzAt(f, i), zzsym.Scalar(fmt.Sprintf("%s.r%d", label, i))
		egs[i] = egf.Create(share, r)
		tds[i] = &TDSecret{ADSecret{DSecret{uint16(i), label, share, net.server(i)}, r, egf, nil}, uint16(len(f))}
	}
	for i := range tds {
		tds[i].egs = append([]*commitment.ElGamal{}, egs...)
	}
	return tds
}

// zzSubsets calls fn with every sequence of t distinct elements in increasing order.
func zzSubsets(all []int64, t int, fn func([]int64)) {
	var rec func(from int, cur []int64)
	rec = func(from int, cur []int64) {
		if len(cur) == t {
			fn(append([]int64{}, cur...))
			return
		}
		for i := from; i < len(all); i++ {
			rec(i+1, append(cur, all[i]))
		}
	}
	rec(0, nil)
}

func zzPermute(n int, fn func([]int)) {
	if n == 0 {
		return
	}
	p := make([]int, 0, n)
	used := make([]bool, n)
	var rec func()
	rec = func() {
		if len(p) == n {
			fn(p)
			return
		}
		for i := 0; i < n; i++ {
			if !used[i] {
				used[i] = true
				p = append(p, i)
				rec()
				p = p[:len(p)-1]
				used[i] = false
			}
		}
	}
	rec()
}

// zzDKeys makes the parties' views of a joint key; sk is the joint secret.
func zzDKeys(net *zzNet) (keys []*DKey, sk *big.Int) {
	g := zzGroup()
	shares := make([]*big.Int, net.n)
	for i := range shares {
		shares[i] = zzsym.Scalar("sk")
	}
	sk = zzSum(shares...)
	for i := range shares {
		pks := make([]curve.Point, net.n)
		for j := range pks {
			pks[j] = g.ScalarBaseMult(shares[j])
		}
		keys = append(keys, NewDKey(NewDSecret(uint16(i), "k", shares[i], net.server(i)), pks, g))
	}
	return keys, sk
}

// zzADs makes the parties' shares of a distributed secret.
func zzADs(label string, net *zzNet, egf *commitment.ElGamalFactory) []*ADSecret {
	egs := make([]*commitment.ElGamal, net.n)
	ads := make([]*ADSecret, net.n)
	for i := range ads {
		share, r := zzsym.Scalar(fmt.Sprintf("%s.s%d", label, i)), zzsym.Scalar(fmt.Sprintf("%s.r%d", label, i))
		egs[i] = egf.Create(share, r)
		ads[i] = &ADSecret{DSecret{uint16(i), label, share, net.server(i)}, r, egf, nil}
	}
	for i := range ads {
		ads[i].egs = append([]*commitment.ElGamal{}, egs...)
	}
	return ads
}

// zzPaillier makes keys of the idealised cryptosystem, of any modulus of the given size.
func zzPaillier(n int, bits uint) (privs []*paillier.PrivateKey, pubs []*paillier.PublicKey) {
	one := big.NewInt(1)
	for i := 0; i < n; i++ {
		m := zzsym.Big(fmt.Sprintf("N%d", i), new(big.Int).Lsh(one, bits-1), new(big.Int).Sub(new(big.Int).Lsh(one, bits), one))
		k := &paillier.PrivateKey{PublicKey: paillier.PublicKey{N: m}, LambdaN: new(big.Int), PhiN: new(big.Int)}
		privs = append(privs, k)
		pubs = append(pubs, &k.PublicKey)
	}
	return
}
