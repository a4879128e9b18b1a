package main

import (
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type intrinsicFn func(r *Run, caller *frame, fn *ssa.Function, args []value) value

var intrinsics = map[string]intrinsicFn{}

func reg(names []string, f intrinsicFn) {
	for _, n := range names {
		intrinsics[n] = f
	}
}

// bigGet reads a *big.Int.
func (r *Run) bigGet(v value) *Term {
	p, ok := v.(*value)
	if !ok || p == nil {
		r.gopanic("runtime error: invalid memory address or nil pointer dereference (nil *big.Int)")
	}
	r.access(p, false)
	b, ok := (*p).(bigv)
	if !ok {
		panic(unsupported{"big.Int of unknown shape"})
	}
	return b.t
}

func (r *Run) bigSet(v value, t *Term) value {
	p, ok := v.(*value)
	if !ok || p == nil {
		r.gopanic("runtime error: invalid memory address or nil pointer dereference (nil *big.Int)")
	}
	r.access(p, true)
	*p = bigv{t}
	return p
}

func (r *Run) newBig(t *Term) value {
	p := new(value)
	*p = bigv{t}
	return p
}

func (r *Run) divZero(b *Term) {
	if !r.branch(r.c.Ne(b, r.c.I(0))) {
		r.gopanic("division by zero")
	}
}

// euclid returns the Euclidean quotient and remainder, b != 0.
func (r *Run) euclid(a, b *Term) (*Term, *Term) {
	c := r.c
	if b.lo != nil && b.lo.Sign() > 0 || r.branch(c.Gt(b, c.I(0))) {
		return c.DivS(a, b), c.ModS(a, b)
	}
	nb := c.Neg(b)
	return c.Neg(c.DivS(a, nb)), c.ModS(a, nb)
}

func (r *Run) modInv(g *Term, n *big.Int) *Term {
	c := r.c
	g = c.Mod(g, n)
	if g.IsConst() {
		x := new(big.Int).ModInverse(g.c, n)
		if x == nil {
			r.incomplete("inverse of a non-unit")
		}
		return c.Const(x)
	}
	name := "inv|" + n.String()
	hi := new(big.Int).Sub(n, bigOne)
	p := polyOf(g)
	if g.op == OMod {
		p = polyOf(g.args[0])
	}
	if len(p) == 1 && primes[n.Text(62)] {
		k := new(big.Int).ModInverse(new(big.Int).Mod(p[0].c, n), n)
		res := c.Const(k)
		for _, v := range p[0].v {
			if v.op == OApp && v.name == name {
				res = c.Mod(c.Mul(res, v.args[0]), n)
			} else {
				res = c.Mod(c.Mul(res, c.App(name, bigOne, hi, v)), n)
			}
		}
		return res
	}
	if len(p) > 1 && len(p[0].v) > 0 && primes[n.Text(62)] {
		// the leading coefficient is taken out, so that the inverses of
		// multiples are multiples of one inverse
		if k := new(big.Int).Mod(p[0].c, n); k.Cmp(bigOne) != 0 {
			k.ModInverse(k, n)
			g = c.Mod(c.Mul(c.Const(k), g), n)
			return c.Mod(c.Mul(c.Const(k), c.App(name, bigOne, hi, g)), n)
		}
	}
	return c.App(name, bigOne, hi, g)
}

func (r *Run) powMod(x, y *Term, m *big.Int) *Term {
	c := r.c
	x = c.Mod(x, m)
	if x.IsConst() && y.IsConst() {
		return c.Const(new(big.Int).Exp(x.c, y.c, m))
	}
	if y.IsConst() && y.c.Sign() >= 0 && y.c.Cmp(big.NewInt(64)) <= 0 {
		res := c.Mod(c.I(1), m)
		for i := int64(0); i < y.c.Int64(); i++ {
			res = c.Mod(c.Mul(res, x), m)
		}
		return res
	}
	if y.IsConst() && primes[m.Text(62)] && new(big.Int).Add(y.c, big.NewInt(2)).Cmp(m) == 0 {
		if r.branch(c.Eq(x, c.I(0))) {
			return c.I(0)
		}
		return r.modInv(x, m)
	}
	return c.App("exp|"+m.String(), bigZero, new(big.Int).Sub(m, bigOne), x, y)
}

func init() {
	B := func(n string) string { return "(*math/big.Int)." + n }
	bin := func(n string, f func(r *Run, a, b *Term) *Term) {
		intrinsics[B(n)] = func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
			x, y := r.bigGet(a[1]), r.bigGet(a[2])
			return r.bigSet(a[0], f(r, x, y))
		}
	}
	un := func(n string, f func(r *Run, a *Term) *Term) {
		intrinsics[B(n)] = func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
			return r.bigSet(a[0], f(r, r.bigGet(a[1])))
		}
	}
	bin("Add", func(r *Run, a, b *Term) *Term { return r.c.Add(a, b) })
	bin("Sub", func(r *Run, a, b *Term) *Term { return r.c.Sub(a, b) })
	bin("Mul", func(r *Run, a, b *Term) *Term { return r.c.Mul(a, b) })
	bin("Mod", func(r *Run, a, b *Term) *Term { r.divZero(b); _, m := r.euclid(a, b); return m })
	bin("Div", func(r *Run, a, b *Term) *Term { r.divZero(b); q, _ := r.euclid(a, b); return q })
	bin("Quo", func(r *Run, a, b *Term) *Term { r.divZero(b); q, _ := r.truncDiv(a, b); return q })
	bin("Rem", func(r *Run, a, b *Term) *Term { r.divZero(b); _, m := r.truncDiv(a, b); return m })
	for _, n := range []string{"And", "Or", "Xor", "AndNot"} {
		n := n
		bin(n, func(r *Run, a, b *Term) *Term {
			if a.IsConst() && b.IsConst() {
				z := new(big.Int)
				switch n {
				case "And":
					z.And(a.c, b.c)
				case "Or":
					z.Or(a.c, b.c)
				case "Xor":
					z.Xor(a.c, b.c)
				default:
					z.AndNot(a.c, b.c)
				}
				return r.c.Const(z)
			}
			if n == "And" {
				// mask 2^k-1
				for i := 0; i < 2; i++ {
					if b.IsConst() && b.c.Sign() > 0 && a.lo != nil && a.lo.Sign() >= 0 {
						m := new(big.Int).Add(b.c, bigOne)
						if m.TrailingZeroBits() == uint(m.BitLen()-1) {
							return r.c.Mod(a, m)
						}
					}
					a, b = b, a
				}
			}
			panic(unsupported{"bitwise operation on symbolic big.Int"})
		})
	}
	un("Neg", func(r *Run, a *Term) *Term { return r.c.Neg(a) })
	un("Abs", func(r *Run, a *Term) *Term { return r.abs(a) })
	un("Set", func(r *Run, a *Term) *Term { return a })
	un("Not", func(r *Run, a *Term) *Term { return r.c.Sub(r.c.I(-1), a) })
	un("Sqrt", func(r *Run, a *Term) *Term {
		if a.IsConst() {
			return r.c.Const(new(big.Int).Sqrt(a.c))
		}
		panic(unsupported{"Sqrt of symbolic big.Int"})
	})
	dm := func(n string, f func(r *Run, a, b *Term) (*Term, *Term)) {
		intrinsics[B(n)] = func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
			x, y := r.bigGet(a[1]), r.bigGet(a[2])
			r.divZero(y)
			q, m := f(r, x, y)
			r.bigSet(a[0], q)
			r.bigSet(a[3], m)
			return tuple{a[0], a[3]}
		}
	}
	dm("DivMod", (*Run).euclid)
	dm("QuoRem", (*Run).truncDiv)
	reg([]string{B("SetInt64"), B("SetUint64")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.bigSet(a[0], a[1].(*Term))
	})
	reg([]string{"math/big.NewInt"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.newBig(a[0].(*Term))
	})
	reg([]string{B("SetBytes")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		if b := a[1].(bslice); b.arr != nil {
			r.access(b.arr, false)
		}
		return r.bigSet(a[0], r.rToBE(r.bytesOf(a[1])))
	})
	reg([]string{B("Bytes")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.newBytes(r.rBig(r.abs(r.bigGet(a[0]))))
	})
	reg([]string{B("FillBytes")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		v := r.abs(r.bigGet(a[0]))
		buf := a[1].(bslice)
		n := r.blen(buf)
		if !r.branch(r.c.Le(r.c.BLen(v), n)) {
			r.gopanic("math/big: buffer too small to fit value")
		}
		if buf.arr != nil {
			var p Rope
			if n.IsConst() && n.c.IsInt64() {
				p = r.rFix(v, n.c.Int64(), false)
			} else {
				p = r.rCat(r.rZero(r.c.Sub(n, r.c.BLen(v))), r.rBig(v))
			}
			r.access(buf.arr, true)
			r.asplice(buf.arr, buf.off, p)
		}
		return buf
	})
	reg([]string{B("Cmp")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.c.Cmp(r.bigGet(a[0]), r.bigGet(a[1]))
	})
	reg([]string{B("CmpAbs")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.c.Cmp(r.abs(r.bigGet(a[0])), r.abs(r.bigGet(a[1])))
	})
	reg([]string{B("Sign")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.c.Cmp(r.bigGet(a[0]), r.c.I(0))
	})
	reg([]string{B("BitLen")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.c.BitLen(r.abs(r.bigGet(a[0])))
	})
	reg([]string{B("Bit")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		i := r.concInt(a[1].(*Term), "bit index")
		return r.c.Mod(r.c.Div(r.bigGet(a[0]), pow2(uint(i))), big.NewInt(2))
	})
	reg([]string{B("IsInt64")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		v := r.bigGet(a[0])
		return r.c.And(r.c.Ge(v, r.c.Const(new(big.Int).Neg(pow2(63)))), r.c.Lt(v, r.c.Const(pow2(63))))
	})
	reg([]string{B("IsUint64")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		v := r.bigGet(a[0])
		return r.c.And(r.c.Ge(v, r.c.I(0)), r.c.Lt(v, r.c.Const(pow2(64))))
	})
	reg([]string{B("Int64")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.wrap(r.bigGet(a[0]), intInfos[types.Int64])
	})
	reg([]string{B("Uint64")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.c.Mod(r.abs(r.bigGet(a[0])), pow2(64))
	})
	reg([]string{B("Lsh")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		k := r.concInt(a[2].(*Term), "shift")
		return r.bigSet(a[0], r.c.Scale(r.bigGet(a[1]), pow2(uint(k))))
	})
	reg([]string{B("Rsh")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		k := r.concInt(a[2].(*Term), "shift")
		return r.bigSet(a[0], r.c.Div(r.bigGet(a[1]), pow2(uint(k))))
	})
	reg([]string{B("Exp")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		x, y := r.bigGet(a[1]), r.bigGet(a[2])
		var m *Term
		if p, _ := a[3].(*value); p != nil {
			m = r.bigGet(p)
		}
		if m == nil || m.IsConst() && m.c.Sign() == 0 {
			if !r.branch(r.c.Gt(y, r.c.I(0))) {
				return r.bigSet(a[0], r.c.I(1))
			}
			k := r.concInt(y, "exponent")
			if k > 4096 {
				r.incomplete("large exponent")
			}
			if x.IsConst() {
				return r.bigSet(a[0], r.c.Const(new(big.Int).Exp(x.c, big.NewInt(k), nil)))
			}
			t := r.c.I(1)
			for i := int64(0); i < k; i++ {
				t = r.c.Mul(t, x)
			}
			return r.bigSet(a[0], t)
		}
		if !m.IsConst() {
			panic(unsupported{"Exp with symbolic modulus"})
		}
		mm := new(big.Int).Abs(m.c)
		if y.lo == nil || y.lo.Sign() < 0 {
			if !r.branch(r.c.Ge(y, r.c.I(0))) {
				if !primes[mm.Text(62)] {
					panic(unsupported{"negative exponent"})
				}
				if r.branch(r.c.Eq(r.c.Mod(x, mm), r.c.I(0))) {
					return (*value)(nil)
				}
				return r.bigSet(a[0], r.powMod(r.modInv(x, mm), r.c.Neg(y), mm))
			}
		}
		return r.bigSet(a[0], r.powMod(x, y, mm))
	})
	reg([]string{B("ModInverse")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		g, n := r.bigGet(a[1]), r.bigGet(a[2])
		if !n.IsConst() {
			panic(unsupported{"ModInverse with symbolic modulus"})
		}
		nn := new(big.Int).Abs(n.c)
		if !primes[nn.Text(62)] {
			if g.IsConst() {
				x := new(big.Int).ModInverse(g.c, nn)
				if x == nil {
					return (*value)(nil)
				}
				return r.bigSet(a[0], r.c.Const(x))
			}
			panic(unsupported{"ModInverse with composite modulus"})
		}
		if r.branch(r.c.Eq(r.c.Mod(g, nn), r.c.I(0))) {
			return (*value)(nil)
		}
		return r.bigSet(a[0], r.modInv(g, nn))
	})
	reg([]string{B("SetString")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		s, ok := a[1].(string)
		base := r.concInt(a[2].(*Term), "base")
		if !ok {
			panic(unsupported{"SetString of symbolic string"})
		}
		v, ok := new(big.Int).SetString(s, int(base))
		if !ok {
			return tuple{(*value)(nil), r.c.False}
		}
		return tuple{r.bigSet(a[0], r.c.Const(v)), r.c.True}
	})
	reg([]string{B("String"), B("Text")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		if p, _ := a[0].(*value); p == nil {
			return "<nil>"
		}
		v := r.bigGet(a[0])
		if v.IsConst() {
			base := 10
			if len(a) > 1 {
				base = int(r.concInt(a[1].(*Term), "base"))
			}
			return v.c.Text(base)
		}
		return &symStr{r.rIn("text:"+v.String(), r.c.I(0), r.c.Var(r.fresh("textlen"), bigOne, big.NewInt(200)))}
	})
	reg([]string{B("ProbablyPrime")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		v := r.bigGet(a[0])
		if v.IsConst() {
			return r.c.Bool(v.c.ProbablyPrime(20))
		}
		panic(unsupported{"ProbablyPrime"})
	})
	reg([]string{B("SetBit")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		v := r.bigGet(a[1])
		if v.IsConst() && a[3].(*Term).IsConst() {
			return r.bigSet(a[0], r.c.Const(new(big.Int).SetBit(v.c, int(r.concInt(a[2].(*Term), "bit")), uint(a[3].(*Term).c.Uint64()))))
		}
		panic(unsupported{"SetBit"})
	})
	reg([]string{B("Rand")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		n := r.bigGet(a[2])
		v := r.c.Var(r.fresh("mathrand"), bigZero, n.hi)
		r.assume(r.c.Lt(v, n))
		return r.bigSet(a[0], v)
	})
}
