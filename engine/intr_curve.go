package main

import (
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// The group of secp256k1 is represented by discrete logarithms: the affine
// coordinates of the point d*G (d in [1,N-1]) are the terms X(d), Y(d).

var (
	curveN, _  = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
	curveP, _  = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
	curveGx, _ = new(big.Int).SetString("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", 16)
	curveGy, _ = new(big.Int).SetString("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8", 16)
	curveL, _  = new(big.Int).SetString("5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72", 16)
	curveL2    = new(big.Int).Mod(new(big.Int).Mul(curveL, curveL), curveN)
)

const secpPath = "github.com/ethereum/go-ethereum/crypto/secp256k1"

func init() {
	primes[curveN.Text(62)] = true
	primes[curveP.Text(62)] = true
}

// setupCurve installs the algebra of point coordinates.
func setupCurve(c *Ctx) {
	pm1 := new(big.Int).Sub(curveP, bigOne)
	_ = pm1
	c.modHook = func(v []*Term, m *big.Int) []Mono {
		if m.Cmp(curveP) != 0 {
			return nil
		}
		for i, a := range v {
			if a.op == OApp && a.name == "Y" && i+1 < len(v) && v[i+1] == a {
				var rest []*Term
				rest = append(rest, v[:i]...)
				rest = append(rest, v[i+2:]...)
				x := c.coordX(a.args[0])
				return []Mono{{bigOne, mergeV([]*Term{x, x, x}, rest)}, {big.NewInt(7), rest}}
			}
		}
		return nil
	}
	c.eqHook = func(ms []Mono) *Term {
		var as []*Term
		var ss []int
		k := constOf(ms)
		for _, m := range ms {
			if len(m.v) == 0 {
				continue
			}
			if len(m.v) != 1 || m.c.CmpAbs(bigOne) != 0 || m.v[0].op != OApp || (m.v[0].name != "X" && m.v[0].name != "Y") {
				return nil
			}
			as = append(as, m.v[0])
			ss = append(ss, m.c.Sign())
		}
		if len(as) == 1 && as[0].name == "X" {
			kk := new(big.Int).Mul(k, big.NewInt(int64(-ss[0])))
			if kk.Cmp(curveGx) == 0 {
				return c.Or(c.dlEq(as[0].args[0], c.I(1)), c.dlEq(as[0].args[0], c.I(-1)))
			}
			return nil
		}
		if len(as) == 1 {
			kk := new(big.Int).Mul(k, big.NewInt(int64(-ss[0])))
			if kk.Cmp(curveGy) == 0 {
				d := as[0].args[0]
				return c.Or(c.dlEq(d, c.I(1)), c.dlEq(d, c.Const(curveL)), c.dlEq(d, c.Const(curveL2)))
			}
			return nil
		}
		if len(as) != 2 || as[0].name != as[1].name {
			return nil
		}
		d1, d2 := as[0].args[0], as[1].args[0]
		if as[0].name == "X" {
			if ss[0]+ss[1] != 0 || k.Sign() != 0 {
				return nil
			}
			return c.Or(c.dlEq(d1, d2), c.dlEq(d1, c.Neg(d2)))
		}
		if ss[0]+ss[1] == 0 && k.Sign() == 0 {
			return c.Or(c.dlEq(d1, d2), c.dlEq(d1, c.Scale(d2, curveL)), c.dlEq(d1, c.Scale(d2, curveL2)))
		}
		if ss[0]+ss[1] != 0 && k.CmpAbs(curveP) == 0 && k.Sign() != ss[0] {
			nd := c.Neg(d2)
			return c.Or(c.dlEq(d1, nd), c.dlEq(d1, c.Scale(nd, curveL)), c.dlEq(d1, c.Scale(nd, curveL2)))
		}
		return nil
	}
}

func (c *Ctx) dlEq(a, b *Term) *Term {
	return c.Eq(c.Mod(c.Sub(a, b), curveN), c.I(0))
}

func (c *Ctx) coordX(d *Term) *Term {
	return c.App("X", bigOne, new(big.Int).Sub(curveP, bigOne), d)
}
func (c *Ctx) coordY(d *Term) *Term {
	return c.App("Y", bigOne, new(big.Int).Sub(curveP, bigOne), d)
}

// canon returns the representative of {d, -d} used in coordinate terms, and
// whether it is d itself. d must be reduced modulo N.
func (c *Ctx) canon(d *Term) (*Term, bool) {
	p := polyOf(d)
	if d.op == OMod {
		p = polyOf(d.args[0])
	}
	if d.IsConst() {
		if d.c.Cmp(new(big.Int).Rsh(curveN, 1)) <= 0 {
			return d, true
		}
		return c.Const(new(big.Int).Sub(curveN, d.c)), false
	}
	if p[0].c.Sign() < 0 {
		return c.Mod(c.Neg(d), curveN), false
	}
	if p[0].c.Cmp(new(big.Int).Rsh(curveN, 1)) > 0 {
		return c.Mod(c.Neg(d), curveN), false
	}
	return d, true
}

// coords are the affine coordinates of d*G for d reduced and nonzero.
func (r *Run) coords(d *Term) (*Term, *Term) {
	c := r.c
	d = c.Mod(d, curveN)
	k, pos := c.canon(d)
	x, y := c.coordX(k), c.coordY(k)
	if !pos {
		y = c.Sub(c.Const(curveP), y)
	}
	return x, y
}

type onCurveUse struct{ x, y, cond *Term }

func (r *Run) onCurveCond(x, y *Term) (res *Term) {
	c := r.c
	x0, y0 := x, y
	defer func() {
		for _, o := range r.onCurves {
			if o.x == x0 && o.y == y0 {
				return
			}
		}
		r.onCurves = append(r.onCurves, onCurveUse{x0, y0, res})
	}()
	x, y = c.Mod(x, curveP), c.Mod(y, curveP)
	eq := c.Eq(c.Mod(c.Sub(c.Mul(y, y), c.Add(c.Mul(c.Mul(x, x), x), c.I(7))), curveP), c.I(0))
	// no point of the curve has a zero coordinate
	if v, k := r.known(eq); k {
		if v {
			r.assume(c.Ge(x, c.I(1)))
			r.assume(c.Ge(y, c.I(1)))
		}
		return c.Bool(v)
	}
	return c.And(eq, c.Ge(x, c.I(1)), c.Ge(y, c.I(1)))
}

// dlogSyn recognises coordinates built by coords.
func (r *Run) dlogSyn(x, y *Term) *Term {
	c := r.c
	if x.op == OApp && x.name == "X" {
		d := x.args[0]
		if y == c.coordY(d) {
			return d
		}
		if y == c.Sub(c.Const(curveP), c.coordY(d)) {
			return c.Mod(c.Neg(d), curveN)
		}
	}
	if x.IsConst() && y.IsConst() && x.c.Cmp(curveGx) == 0 {
		if y.c.Cmp(curveGy) == 0 {
			return c.I(1)
		}
		if new(big.Int).Add(y.c, curveGy).Cmp(curveP) == 0 {
			return c.I(-1)
		}
	}
	if d, ok := r.adopted[akey(x, y)]; ok {
		return d
	}
	return nil
}

func akey(x, y *Term) string {
	return big.NewInt(int64(x.id)).String() + "," + big.NewInt(int64(y.id)).String()
}

// dlog finds the discrete logarithm of arbitrary coordinates, nil if the
// point is not on the curve.
func (r *Run) dlog(x, y *Term) *Term {
	c := r.c
	if d := r.dlogSyn(x, y); d != nil {
		return d
	}
	if !r.branch(r.onCurveCond(x, y)) {
		return nil
	}
	d := c.Var(r.fresh("dl"), bigOne, new(big.Int).Sub(curveN, bigOne))
	r.adopted[akey(x, y)] = d
	xd, yd := c.coordX(d), c.coordY(d)
	r.assume(c.Eq(c.Mod(x, curveP), xd))
	r.assume(c.Eq(c.Mod(y, curveP), yd))
	// relate to the other points on this path: equal coordinates, equal point
	for _, o := range r.adoptedList {
		r.assume(c.Implies(c.And(c.Eq(c.Mod(x, curveP), c.Mod(o.x, curveP)), c.Eq(c.Mod(y, curveP), c.Mod(o.y, curveP))), c.Eq(d, o.d)))
	}
	r.adoptedList = append(r.adoptedList, adoptedPt{x, y, d})
	return d
}

type adoptedPt struct{ x, y, d *Term }

// curveStruct is the global curve object.
func (r *Run) curveStruct(t types.Type) *value {
	if r.curveP != nil {
		return r.curveP
	}
	el := deref(t)
	p := new(value)
	s := r.zero(el).(structure)
	st := el.Underlying().(*types.Struct)
	gx, gy := r.coords(r.c.I(1))
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "P":
			s[i] = r.newBig(r.c.Const(curveP))
		case "N":
			s[i] = r.newBig(r.c.Const(curveN))
		case "B":
			s[i] = r.newBig(r.c.I(7))
		case "Gx":
			s[i] = r.newBig(gx)
		case "Gy":
			s[i] = r.newBig(gy)
		case "BitSize":
			s[i] = r.c.I(256)
		}
	}
	*p = s
	r.curveP = p
	return p
}

func (r *Run) garbage(why string) value {
	r.note("arithmetic on coordinates that are not on the curve: " + why)
	pm := new(big.Int).Sub(curveP, bigOne)
	return tuple{r.newBig(r.c.Var(r.fresh("offcurve"), bigZero, pm)), r.newBig(r.c.Var(r.fresh("offcurve"), bigZero, pm))}
}

func (r *Run) ptTuple(d *Term) value {
	x, y := r.coords(d)
	return tuple{r.newBig(x), r.newBig(y)}
}

func init() {
	M := func(n string) string { return "(*" + secpPath + ".BitCurve)." + n }
	intrinsics[secpPath+".S256"] = func(r *Run, _ *frame, fn *ssa.Function, a []value) value {
		return r.curveStruct(fn.Signature.Results().At(0).Type())
	}
	add := func(r *Run, x1, y1, x2, y2 *Term) value {
		c := r.c
		d1, d2 := r.dlog(x1, y1), r.dlog(x2, y2)
		if d1 == nil || d2 == nil {
			return r.garbage("Add")
		}
		if r.branch(c.Or(c.dlEq(d1, d2), c.dlEq(d1, c.Neg(d2)))) {
			// the library's formula degenerates for equal x coordinates
			return tuple{r.newBig(c.I(0)), r.newBig(c.I(0))}
		}
		return r.ptTuple(c.Add(d1, d2))
	}
	intrinsics[M("Add")] = func(r *Run, _ *frame, fn *ssa.Function, a []value) value {
		r.nilcheck(a[0])
		return add(r, r.bigGet(a[1]), r.bigGet(a[2]), r.bigGet(a[3]), r.bigGet(a[4]))
	}
	intrinsics[M("Double")] = func(r *Run, _ *frame, fn *ssa.Function, a []value) value {
		r.nilcheck(a[0])
		d := r.dlog(r.bigGet(a[1]), r.bigGet(a[2]))
		if d == nil {
			return r.garbage("Double")
		}
		return r.ptTuple(r.c.Scale(d, big.NewInt(2)))
	}
	smul := func(r *Run, d *Term, k value) value {
		c := r.c
		b := r.bytesOf(k)
		if !r.branch(c.Le(r.ropeLen(b), c.I(32))) {
			r.gopanic("can't handle scalars > 256 bits")
		}
		s := r.rToBE(b)
		if r.branch(c.Or(c.Eq(s, c.I(0)), c.Ge(s, c.Const(curveN)))) {
			return tuple{(*value)(nil), (*value)(nil)}
		}
		if d == nil {
			return r.garbage("ScalarMult")
		}
		return r.ptTuple(c.Mul(d, s))
	}
	intrinsics[M("ScalarMult")] = func(r *Run, _ *frame, fn *ssa.Function, a []value) value {
		r.nilcheck(a[0])
		x, y := r.bigGet(a[1]), r.bigGet(a[2])
		return smul(r, r.dlog(x, y), a[3])
	}
	intrinsics[M("ScalarBaseMult")] = func(r *Run, _ *frame, fn *ssa.Function, a []value) value {
		r.nilcheck(a[0])
		st := deref(fn.Signature.Recv().Type()).Underlying().(*types.Struct)
		cs := (*a[0].(*value)).(structure)
		var x, y *Term
		for i := 0; i < st.NumFields(); i++ {
			switch st.Field(i).Name() {
			case "Gx":
				x = r.bigGet(cs[i])
			case "Gy":
				y = r.bigGet(cs[i])
			}
		}
		return smul(r, r.dlog(x, y), a[1])
	}
	intrinsics[M("IsOnCurve")] = func(r *Run, _ *frame, fn *ssa.Function, a []value) value {
		r.nilcheck(a[0])
		x, y := r.bigGet(a[1]), r.bigGet(a[2])
		if r.dlogSyn(x, y) != nil {
			return r.c.True
		}
		return r.onCurveCond(x, y)
	}
}

type shortPt struct {
	d    int64
	x, y *big.Int
}

var shortTab []shortPt

// shortPoints lists small multiples of the generator whose coordinates have
// leading zero bytes, and a few ordinary ones.
func shortPoints() []shortPt {
	if shortTab != nil {
		return shortTab
	}
	x, y := new(big.Int).Set(curveGx), new(big.Int).Set(curveGy)
	p := curveP
	for d := int64(1); d < 3000; d++ {
		if d <= 3 || x.BitLen() <= 248 || y.BitLen() <= 248 {
			shortTab = append(shortTab, shortPt{d, new(big.Int).Set(x), new(big.Int).Set(y)})
		}
		if len(shortTab) > 24 {
			break
		}
		// (x,y) += G
		var l *big.Int
		if x.Cmp(curveGx) == 0 && y.Cmp(curveGy) == 0 {
			num := new(big.Int).Mul(big.NewInt(3), new(big.Int).Mul(x, x))
			l = num.Mul(num, new(big.Int).ModInverse(new(big.Int).Lsh(y, 1), p))
		} else {
			num := new(big.Int).Sub(y, curveGy)
			den := new(big.Int).Mod(new(big.Int).Sub(x, curveGx), p)
			l = num.Mul(num, new(big.Int).ModInverse(den, p))
		}
		l.Mod(l, p)
		nx := new(big.Int).Mul(l, l)
		nx.Sub(nx, x).Sub(nx, curveGx).Mod(nx, p)
		ny := new(big.Int).Sub(x, nx)
		ny.Mul(ny, l).Sub(ny, y).Mod(ny, p)
		x, y = nx, ny
	}
	return shortTab
}

// oddPoints lists points with very small coordinates; their logarithms are unknown.
var oddTab []shortPt

func oddPoints() []shortPt {
	if oddTab != nil {
		return oddTab
	}
	p := curveP
	for x := int64(1); len(oddTab) < 3; x++ {
		t := new(big.Int).Add(new(big.Int).Exp(big.NewInt(x), big.NewInt(3), nil), big.NewInt(7))
		if y := new(big.Int).ModSqrt(t, p); y != nil {
			oddTab = append(oddTab, shortPt{0, big.NewInt(x), y})
		}
	}
	// p = 7 mod 9: a cube root of a cube a is a^((p+2)/9)
	e := new(big.Int).Div(new(big.Int).Add(p, big.NewInt(2)), big.NewInt(9))
	for y := int64(1); len(oddTab) < 6; y++ {
		t := new(big.Int).Sub(new(big.Int).Mul(big.NewInt(y), big.NewInt(y)), big.NewInt(7))
		t.Mod(t, p)
		x := new(big.Int).Exp(t, e, p)
		if new(big.Int).Exp(x, big.NewInt(3), p).Cmp(t) == 0 {
			oddTab = append(oddTab, shortPt{0, x, big.NewInt(y)})
		}
	}
	return oddTab
}

// realizeOnCurve makes raw coordinates that satisfy the curve equation those
// of known points.
func (r *Run) realizeOnCurve() {
	c := r.c
	for _, o := range r.onCurves {
		if !r.s.has(o.x.id) && !o.x.IsConst() || !r.s.has(o.y.id) && !o.y.IsConst() {
			continue
		}
		var d *Term
		for _, a := range r.adoptedList {
			if a.x == o.x && a.y == o.y {
				d = a.d
			}
		}
		x, y := c.Mod(o.x, curveP), c.Mod(o.y, curveP)
		var alts []*Term
		for _, p := range append(append([]shortPt{}, shortPoints()...), oddPoints()...) {
			a := c.And(c.Eq(x, c.Const(p.x)), c.Eq(y, c.Const(p.y)))
			if d != nil && p.d != 0 {
				a = c.And(a, c.Eq(d, c.I(p.d)))
			}
			alts = append(alts, a)
		}
		r.s.Assert(c.Implies(o.cond, c.Or(alts...)))
	}
}

func init() { shortPoints(); oddPoints() }
