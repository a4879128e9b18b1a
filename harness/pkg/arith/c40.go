//verif:props C40 C41
package arith

import (
	"fmt"
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

func zzcMod(x *big.Int) *big.Int { return new(big.Int).Mod(x, zzsym.Order()) }

// zzcEval is the value of f at x.
func zzcEval(f []*big.Int, x *big.Int) *big.Int {
	v := big.NewInt(0)
	for i := len(f) - 1; i >= 0; i-- {
		v.Mul(v, x)
		v.Add(v, f[i])
	}
	return zzcMod(v)
}

func zzInterpolate(t int, parties []int64) {
	f := make([]*big.Int, t)
	for i := range f {
		f[i] = zzsym.Scalar(fmt.Sprintf("f%d", i))
	}
	args := make([]*big.Int, len(parties))
	for i, p := range parties {
		args[i] = big.NewInt(p)
	}
	order := zzsym.Order()
	sum := big.NewInt(0)
	for i, p := range parties {
		l := lagrangeCoef(big.NewInt(p), args, order)
		zzsym.Assert(l.Sign() >= 0 && l.Cmp(order) < 0, "coefficient is reduced")
		sum.Add(sum, new(big.Int).Mul(l, zzcEval(f, big.NewInt(p+1))))
		zzsym.Assert(args[i].Cmp(big.NewInt(p)) == 0, "arguments are unchanged")
	}
	zzsym.Assert(order.Cmp(zzsym.Order()) == 0, "order is unchanged")
	zzsym.Assert(zzsym.BigEq(zzcMod(sum), f[0]), "interpolation yields the secret")
}

func VerifC40_Sets() {
	zzsym.Bound("every polynomial of degree below t, every set of t of the parties 0 to 5, t up to 4")
	for t := 1; t <= 4; t++ {
		zzSubsets([]int64{0, 1, 2, 3, 4, 5}, t, func(ps []int64) {
			zzInterpolate(t, ps)
			// in another order
			for i, j := 0, len(ps)-1; i < j; i, j = i+1, j-1 {
				ps[i], ps[j] = ps[j], ps[i]
			}
			zzInterpolate(t, ps)
		})
	}
}

func VerifC40_Large() {
	zzsym.Bound("sets of the largest party numbers")
	for t := 1; t <= 3; t++ {
		zzSubsets([]int64{0, 1, 255, 256, 65533, 65534}, t, func(ps []int64) { zzInterpolate(t, ps) })
	}
}

func VerifC40_Many_T() {
	zzsym.Bound("every set of t of the parties 0 to 7, t up to 6")
	for t := 5; t <= 6; t++ {
		zzSubsets([]int64{0, 1, 2, 3, 4, 5, 6, 7}, t, func(ps []int64) { zzInterpolate(t, ps) })
	}
}

// More values than the degree needs are fine, too.
func VerifC40_Extra() {
	zzsym.Bound("sets with more parties than coefficients")
	for t := 1; t <= 2; t++ {
		zzSubsets([]int64{0, 1, 2, 3}, t+1, func(ps []int64) { zzInterpolate(t, ps) })
	}
}

// Any two different parties, not fixed ones.
func VerifC40_AnyPair() {
	zzsym.Bound("every line, any two different parties of up to 65536")
	p, q := zzsym.Int("p", 0, 65535), zzsym.Int("q", 0, 65535)
	zzsym.Assume(p != q)
	f0, f1 := zzsym.Scalar("f0"), zzsym.Scalar("f1")
	f := []*big.Int{f0, f1}
	P, R := big.NewInt(int64(p)), big.NewInt(int64(q))
	args := []*big.Int{P, R}
	order := zzsym.Order()
	lp, lq := lagrangeCoef(P, args, order), lagrangeCoef(R, args, order)
	one := big.NewInt(1)
	s := new(big.Int).Mul(lp, zzcEval(f, new(big.Int).Add(P, one)))
	s.Add(s, new(big.Int).Mul(lq, zzcEval(f, new(big.Int).Add(R, one))))
	zzsym.Assert(zzsym.BigEq(zzcMod(s), f0), "interpolation yields the secret")
}

func VerifC41_Poly() {
	zzsym.Bound("any secret, any random values, degree up to 3")
	order := zzsym.Order()
	for deg := 0; deg <= 3; deg++ {
		a0 := zzsym.Scalar("a0")
		keep := new(big.Int).Set(a0)
		q := make([]*big.Int, deg)
		for i := range q {
			// one less than the order: a value any of the draws can deliver
			q[i] = zzsym.Big("q", big.NewInt(1), new(big.Int).Sub(order, big.NewInt(2)))
			zzsym.QueueRand(q[i])
		}
		f, err := poly(uint16(deg), a0)
		zzsym.Assert(err == nil, "polynomial made")
		if err != nil {
			return
		}
		zzsym.Assert(len(f) == deg+1, "degree")
		if len(f) != deg+1 {
			return
		}
		zzsym.Assert(zzsym.And(zzsym.BigEq(f[0], keep), zzsym.BigEq(a0, keep)), "the constant term is the secret")
		zzsym.Assert(zzsym.RandLeft() == 0, "one random value per coefficient")
		ok := deg == 0
		zzPermute(deg, func(p []int) {
			good := true
			for i := 1; i <= deg; i++ {
				d := q[p[i-1]]
				same := zzsym.BigEq(f[i], d)
				if i == deg {
					same = zzsym.Or(same, zzsym.BigEq(f[i], new(big.Int).Add(d, big.NewInt(1))))
				}
				good = zzsym.And(good, same)
			}
			ok = zzsym.Or(ok, good)
		})
		zzsym.Assert(ok, "each coefficient is a random value of its own")
	}
}

// Without control of the random source: all coefficients are scalars.
func VerifC41_Range() {
	zzsym.Bound("any random values, degree up to 3")
	order := zzsym.Order()
	for deg := 0; deg <= 3; deg++ {
		a0 := zzsym.Scalar("a0")
		f, err := poly(uint16(deg), a0)
		zzsym.Assert(err == nil && len(f) == deg+1, "polynomial made")
		if err != nil || len(f) != deg+1 {
			return
		}
		for i := range f {
			zzsym.Assert(zzsym.And(f[i].Sign() >= 0, f[i].Cmp(order) < 0), "coefficients are scalars")
		}
		if deg > 0 {
			zzsym.Assert(f[deg].Sign() != 0, "the leading coefficient is not zero")
		}
		zzsym.Assert(zzsym.BigEq(f[0], a0), "the constant term is the secret")
	}
}

func VerifC41_Eval() {
	zzsym.Bound("any coefficients of up to 264 bits, any point of up to 20 bits, any modulus of up to 264 bits, degree up to 3")
	for deg := 0; deg <= 3; deg++ {
		max := new(big.Int).Lsh(big.NewInt(1), 264)
		f := make([]*big.Int, deg+1)
		keep := make([]*big.Int, deg+1)
		for i := range f {
			f[i] = zzsym.Big("c", big.NewInt(0), max)
			keep[i] = new(big.Int).Set(f[i])
		}
		x := big.NewInt(int64(zzsym.Int("x", 0, 1<<20)))
		kx := new(big.Int).Set(x)
		order := zzsym.Order()
		v := polyEval(f, x, order)
		zzsym.Assert(zzsym.BigEq(v, zzcEval(keep, kx)), "the value of the polynomial modulo the order")
		zzsym.Assert(zzsym.BigEq(x, kx), "the point is unchanged")
		zzsym.Assert(order.Cmp(zzsym.Order()) == 0, "the modulus is unchanged")
		for i := range f {
			zzsym.Assert(zzsym.BigEq(f[i], keep[i]), "the coefficients are unchanged")
		}
		// modulo something else
		m := zzsym.Big("m", big.NewInt(1), max)
		km := new(big.Int).Set(m)
		w := polyEval(f[:1], x, m)
		zzsym.Assert(zzsym.BigEq(w, new(big.Int).Mod(keep[0], km)), "constants are reduced, too")
	}
}

// Large thresholds: the powers and products no longer fit into machine words.
func VerifC40_Deep() {
	zzsym.Bound("every polynomial of degree below t, parties 0 to t-1 and every third party, t of 21, 40 and 70")
	for _, t := range []int{21, 40, 70} {
		near, far := make([]int64, t), make([]int64, t)
		for i := range near {
			near[i], far[i] = int64(i), int64(65535-3*i)
		}
		zzInterpolate(t, near)
		zzInterpolate(t, far)
	}
}

func VerifC41_EvalDeep() {
	zzsym.Bound("any coefficients, points 0, 1, 2, 3, 256 and 65536, degrees 33, 64 and 130")
	for _, deg := range []int{33, 64, 130} {
		zzEvalDeep(deg)
	}
}

func VerifC41_EvalModulus() {
	zzsym.Bound("any coefficients, points 1, 2, 3, 256 and 65536, degrees 33 and 64, moduli 1, 97, 2^16+1, 2^255-19 and the prime of the curve's field")
	for _, deg := range []int{33, 64} {
		zzEvalModulus(deg)
	}
}

func zzEvalModulus(deg int) {
	f := make([]*big.Int, deg+1)
	for i := range f {
		f[i] = zzsym.Scalar("c")
	}
	m := new(big.Int).Lsh(big.NewInt(1), 255)
	for _, q := range []*big.Int{big.NewInt(1), big.NewInt(97), big.NewInt(65537), m.Sub(m, big.NewInt(19)), zzsym.FieldPrime()} {
		for _, p := range []int64{1, 2, 3, 256, 65536} {
			v := polyEval(f, big.NewInt(p), q)
			zzsym.Assert(zzsym.BigEq(v, zzSumPowers(f, big.NewInt(p), q)), "the value of the polynomial modulo the modulus")
		}
	}
}

func zzSumPowers(f []*big.Int, p, q *big.Int) *big.Int {
	want, x := new(big.Int), big.NewInt(1)
	for _, c := range f {
		want.Add(want, new(big.Int).Mul(c, x))
		x = new(big.Int).Mod(new(big.Int).Mul(x, p), q)
	}
	return want.Mod(want, q)
}

func zzEvalDeep(deg int) {
	f := make([]*big.Int, deg+1)
	for i := range f {
		f[i] = zzsym.Scalar("c")
	}
	for _, p := range []int64{0, 1, 2, 3, 256, 65536} {
		v := polyEval(f, big.NewInt(p), zzsym.Order())
		zzsym.Assert(zzsym.BigEq(v, zzcEval(f, big.NewInt(p))), "the value of the polynomial modulo the order")
	}
}

func VerifC41_RangeDeep() {
	zzsym.Bound("any random values, degrees 255, 256 and 300")
	for _, deg := range []int{255, 256, 300} {
		zzRangeDeep(deg)
	}
}

func zzRangeDeep(deg int) {
	order := zzsym.Order()
	a0 := zzsym.Scalar("a0")
	f, err := poly(uint16(deg), a0)
	zzsym.Assert(err == nil && len(f) == deg+1, "polynomial made")
	if err != nil || len(f) != deg+1 {
		return
	}
	for i := range f {
		zzsym.Assert(zzsym.And(f[i].Sign() >= 0, f[i].Cmp(order) < 0), "coefficients are scalars")
	}
	zzsym.Assert(f[deg].Sign() != 0, "the leading coefficient is not zero")
	zzsym.Assert(zzsym.BigEq(f[0], a0), "the constant term is the secret")
}

// With many coefficients, too, every random value is one of the coefficients.
func VerifC41_PolyDeep() {
	zzsym.Bound("any secret, any random values, degrees 17, 66 and 129")
	for _, deg := range []int{17, 66, 129} {
		zzPolyDeep(deg)
	}
}

func zzPolyDeep(deg int) {
	a0 := zzsym.Scalar("a0")
	q := make([]*big.Int, deg)
	for i := range q {
		q[i] = zzsym.Big("q", big.NewInt(1), new(big.Int).Sub(zzsym.Order(), big.NewInt(2)))
		zzsym.QueueRand(q[i])
	}
	f, err := poly(uint16(deg), a0)
	zzsym.Assert(err == nil && len(f) == deg+1, "polynomial made")
	if err != nil || len(f) != deg+1 {
		return
	}
	zzsym.Assert(zzsym.BigEq(f[0], a0), "the constant term is the secret")
	zzsym.Assert(zzsym.RandLeft() == 0, "one random value per coefficient")
	last := new(big.Int).Sub(f[deg], big.NewInt(1))
	for i := range q {
		used := zzsym.Or(zzsym.BigEq(q[i], f[deg]), zzsym.BigEq(q[i], last))
		zzsym.Assert(zzsym.Or(used, zzUsed(q[i], f[1:deg])), "every random value is a coefficient")
	}
}

func zzUsed(q *big.Int, f []*big.Int) bool {
	used := false
	for j := range f {
		used = zzsym.Or(used, zzsym.BigEq(q, f[j]))
	}
	return used
}
