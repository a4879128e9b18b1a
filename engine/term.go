package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Terms are hash-consed SMT terms of sort Int or Bool. Integer terms are kept
// in polynomial normal form over atoms (variables, function applications,
// mod/div/ite nodes); machine integers are mathematical integers with the
// wrap-around made explicit by mod.

type Op uint8

const (
	OConst Op = iota
	OVar
	OApp
	OMod // args[0] mod c   (Euclidean, c>0 constant)
	ODiv // args[0] div c   (floor, c>0 constant)
	OModS
	ODivS
	OPoly
	OIte
	OTrue
	OFalse
	ONot
	OAnd
	OOr
	OEq0 // poly = 0
	OLe0 // poly <= 0
)

type Mono struct {
	c *big.Int
	v []*Term // sorted by id, with multiplicity
}

type Term struct {
	id     int
	op     Op
	bool_  bool // sort
	c      *big.Int
	name   string
	args   []*Term
	mons   []Mono
	lo, hi *big.Int // nil = unbounded
	depth  int
	vid    int // index of the rand/hash source, for OVar bookkeeping
}

type Rewrite struct {
	raw  string  // SMT-LIB expression over already existing terms
	deps []*Term // terms mentioned in raw
	res  *Term
}

type Ctx struct {
	tab      map[string]*Term
	n        int
	True     *Term
	False    *Term
	rewrites []Rewrite
	seenRW   map[string]bool
	recordRW bool
	// hook for equality of curve coordinates
	eqHook  func(p []Mono) *Term
	modHook func(v []*Term, m *big.Int) []Mono
	list    []*Term
}

// cancelInv removes a pair a * inv(a) from a monomial modulo m.
func cancelInv(v []*Term, m *big.Int) ([]*Term, bool) {
	for i, x := range v {
		if x.op != OApp || !strings.HasPrefix(x.name, "inv|") || x.name != "inv|"+m.String() {
			continue
		}
		for j, y := range v {
			if y == x.args[0] {
				var out []*Term
				for k, z := range v {
					if k != i && k != j {
						out = append(out, z)
					}
				}
				return out, true
			}
		}
	}
	return nil, false
}

// cancelInvSum rewrites a monomial that contains inv(p) and the leading monomial
// l of the polynomial p = k l + p', by inv(p) l = (1 - inv(p) p') / k modulo m.
func cancelInvSum(v []*Term, m *big.Int) []Mono {
	name := ""
	for _, x := range v {
		if x.op != OApp || !strings.HasPrefix(x.name, "inv|") {
			continue
		}
		if name == "" {
			name = "inv|" + m.String()
		}
		if x.name != name {
			continue
		}
		a := x.args[0]
		if a.op == OMod {
			if a.c.Cmp(m) != 0 {
				continue
			}
			a = a.args[0]
		}
		if a.op != OPoly || len(a.mons) < 2 || len(a.mons[0].v) == 0 {
			continue
		}
		rest, ok := takeOut(v, a.mons[0].v)
		if !ok {
			continue
		}
		done, ok := takeOut(rest, []*Term{x})
		k := new(big.Int).ModInverse(new(big.Int).Mod(a.mons[0].c, m), m)
		if !ok || k == nil {
			continue
		}
		out := []Mono{{k, done}}
		for _, y := range a.mons[1:] {
			c := new(big.Int).Mul(k, y.c)
			out = append(out, Mono{c.Neg(c), mergeV(y.v, rest)})
		}
		return out
	}
	return nil
}

// takeOut removes the elements of w from v.
func takeOut(v, w []*Term) ([]*Term, bool) {
	out := append([]*Term(nil), v...)
next:
	for _, x := range w {
		for i, y := range out {
			if y == x {
				out = append(out[:i], out[i+1:]...)
				continue next
			}
		}
		return nil, false
	}
	return out, true
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, seenRW: map[string]bool{}}
	c.True = c.mk(&Term{op: OTrue, bool_: true}, "T")
	c.False = c.mk(&Term{op: OFalse, bool_: true}, "F")
	return c
}

func (c *Ctx) mk(t *Term, key string) *Term {
	if o, ok := c.tab[key]; ok {
		return o
	}
	c.n++
	t.id = c.n
	for _, a := range t.args {
		if a.depth >= t.depth {
			t.depth = a.depth + 1
		}
	}
	c.tab[key] = t
	c.list = append(c.list, t)
	return t
}

var bigZero = big.NewInt(0)
var bigOne = big.NewInt(1)

func pow2(k uint) *big.Int { return new(big.Int).Lsh(bigOne, k) }

func (c *Ctx) Const(v *big.Int) *Term {
	key := "c" + v.Text(62)
	if o, ok := c.tab[key]; ok {
		return o
	}
	vv := new(big.Int).Set(v)
	return c.mk(&Term{op: OConst, c: vv, lo: vv, hi: vv}, key)
}
func (c *Ctx) I(v int64) *Term { return c.Const(big.NewInt(v)) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) Var(name string, lo, hi *big.Int) *Term {
	key := "v" + name + "|" + bstr(lo) + "|" + bstr(hi)
	if o, ok := c.tab[key]; ok {
		return o
	}
	return c.mk(&Term{op: OVar, name: name, lo: lo, hi: hi}, key)
}
func (c *Ctx) BoolVar(name string) *Term {
	return c.mk(&Term{op: OVar, name: name, bool_: true}, "b"+name)
}

func bstr(b *big.Int) string {
	if b == nil {
		return "_"
	}
	return b.Text(62)
}

// App is an application of an uninterpreted (or specially axiomatised) function.
func (c *Ctx) App(name string, lo, hi *big.Int, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString("a")
	sb.WriteString(name)
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	key := sb.String()
	if o, ok := c.tab[key]; ok {
		return o
	}
	return c.mk(&Term{op: OApp, name: name, args: args, lo: lo, hi: hi}, key)
}

// AppR is App with a range that is specific to the current path.
func (c *Ctx) AppR(name string, lo, hi *big.Int, args ...*Term) *Term {
	key := "r" + name + "," + bstr(lo) + "," + bstr(hi)
	for _, a := range args {
		key += "," + strconv.Itoa(a.id)
	}
	if o, ok := c.tab[key]; ok {
		return o
	}
	return c.mk(&Term{op: OApp, name: name, args: args, lo: lo, hi: hi}, key)
}
func (c *Ctx) BoolApp(name string, args ...*Term) *Term {
	t := c.App(name, nil, nil, args...)
	t.bool_ = true
	return t
}

func (t *Term) IsConst() bool { return t.op == OConst }
func (t *Term) IsTrue() bool  { return t.op == OTrue }
func (t *Term) IsFalse() bool { return t.op == OFalse }

// ---- polynomials ----

func monoKey(v []*Term) string {
	var sb strings.Builder
	for i, a := range v {
		if i > 0 {
			sb.WriteByte('.')
		}
		sb.WriteString(strconv.Itoa(a.id))
	}
	return sb.String()
}

func polyOf(t *Term) []Mono {
	switch t.op {
	case OConst:
		if t.c.Sign() == 0 {
			return nil
		}
		return []Mono{{t.c, nil}}
	case OPoly:
		return t.mons
	}
	return []Mono{{bigOne, []*Term{t}}}
}

type polyB struct {
	m map[string]*Mono
}

func newPolyB() *polyB { return &polyB{m: map[string]*Mono{}} }
func (p *polyB) add(c *big.Int, v []*Term) {
	k := monoKey(v)
	if o, ok := p.m[k]; ok {
		o.c = new(big.Int).Add(o.c, c)
		return
	}
	p.m[k] = &Mono{new(big.Int).Set(c), v}
}
func (p *polyB) addPoly(m []Mono, c *big.Int) {
	for _, x := range m {
		p.add(new(big.Int).Mul(x.c, c), x.v)
	}
}

func lessMono(a, b Mono) bool {
	if len(a.v) != len(b.v) {
		return len(a.v) > len(b.v)
	}
	for i := range a.v {
		if a.v[i].id != b.v[i].id {
			return a.v[i].id < b.v[i].id
		}
	}
	return false
}

func (p *polyB) mons() []Mono {
	out := make([]Mono, 0, len(p.m))
	for _, m := range p.m {
		if m.c.Sign() != 0 {
			out = append(out, *m)
		}
	}
	sort.Slice(out, func(i, j int) bool { return lessMono(out[i], out[j]) })
	return out
}

func (c *Ctx) fromMons(ms []Mono) *Term {
	if len(ms) == 0 {
		return c.I(0)
	}
	if len(ms) == 1 {
		if len(ms[0].v) == 0 {
			return c.Const(ms[0].c)
		}
		if len(ms[0].v) == 1 && ms[0].c.Cmp(bigOne) == 0 {
			return ms[0].v[0]
		}
	}
	var sb strings.Builder
	sb.WriteByte('P')
	for _, m := range ms {
		sb.WriteString(m.c.Text(62))
		sb.WriteByte('*')
		sb.WriteString(monoKey(m.v))
		sb.WriteByte('+')
	}
	key := sb.String()
	if o, ok := c.tab[key]; ok {
		return o
	}
	t := &Term{op: OPoly, mons: ms}
	lo, hi := polyInterval(ms)
	t.lo, t.hi = lo, hi
	for _, m := range ms {
		for _, a := range m.v {
			if a.depth >= t.depth {
				t.depth = a.depth + 1
			}
		}
	}
	return c.mk(t, key)
}

type iv struct{ lo, hi *big.Int }

func ivMul(a, b iv) iv {
	// handle common case of non-negative intervals with infinities, else finite
	inf := a.lo == nil || a.hi == nil || b.lo == nil || b.hi == nil
	if !inf {
		p := []*big.Int{new(big.Int).Mul(a.lo, b.lo), new(big.Int).Mul(a.lo, b.hi), new(big.Int).Mul(a.hi, b.lo), new(big.Int).Mul(a.hi, b.hi)}
		lo, hi := p[0], p[0]
		for _, x := range p[1:] {
			if x.Cmp(lo) < 0 {
				lo = x
			}
			if x.Cmp(hi) > 0 {
				hi = x
			}
		}
		return iv{lo, hi}
	}
	if a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
		r := iv{new(big.Int).Mul(a.lo, b.lo), nil}
		if a.hi != nil && b.hi != nil {
			r.hi = new(big.Int).Mul(a.hi, b.hi)
		}
		return r
	}
	if a.lo != nil && a.hi != nil && a.lo.Cmp(a.hi) == 0 {
		// constant times half-infinite
		switch a.lo.Sign() {
		case 0:
			return iv{bigZero, bigZero}
		case 1:
			r := iv{}
			if b.lo != nil {
				r.lo = new(big.Int).Mul(a.lo, b.lo)
			}
			if b.hi != nil {
				r.hi = new(big.Int).Mul(a.lo, b.hi)
			}
			return r
		default:
			r := iv{}
			if b.hi != nil {
				r.lo = new(big.Int).Mul(a.lo, b.hi)
			}
			if b.lo != nil {
				r.hi = new(big.Int).Mul(a.lo, b.lo)
			}
			return r
		}
	}
	return iv{}
}

func polyInterval(ms []Mono) (*big.Int, *big.Int) {
	lo, hi := new(big.Int), new(big.Int)
	for _, m := range ms {
		x := iv{m.c, m.c}
		for i := 0; i < len(m.v); i++ {
			a := m.v[i]
			if i+1 < len(m.v) && m.v[i+1] == a && !(a.lo != nil && a.lo.Sign() >= 0) {
				// square of possibly negative value
				sq := ivMul(iv{a.lo, a.hi}, iv{a.lo, a.hi})
				sq.lo = bigZero
				x = ivMul(x, sq)
				i++
				continue
			}
			x = ivMul(x, iv{a.lo, a.hi})
		}
		if lo != nil {
			if x.lo == nil {
				lo = nil
			} else {
				lo = new(big.Int).Add(lo, x.lo)
			}
		}
		if hi != nil {
			if x.hi == nil {
				hi = nil
			} else {
				hi = new(big.Int).Add(hi, x.hi)
			}
		}
	}
	return lo, hi
}

func (c *Ctx) Add(a ...*Term) *Term {
	p := newPolyB()
	for _, t := range a {
		p.addPoly(polyOf(t), bigOne)
	}
	return c.fromMons(p.mons())
}
func (c *Ctx) Sub(a, b *Term) *Term {
	p := newPolyB()
	p.addPoly(polyOf(a), bigOne)
	p.addPoly(polyOf(b), big.NewInt(-1))
	return c.fromMons(p.mons())
}
func (c *Ctx) Neg(a *Term) *Term { return c.Sub(c.I(0), a) }
func (c *Ctx) Scale(a *Term, k *big.Int) *Term {
	p := newPolyB()
	p.addPoly(polyOf(a), k)
	return c.fromMons(p.mons())
}

func mergeV(a, b []*Term) []*Term {
	out := make([]*Term, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		if a[i].id <= b[j].id {
			out = append(out, a[i])
			i++
		} else {
			out = append(out, b[j])
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	return out
}

func (c *Ctx) Mul(a, b *Term) *Term {
	pa, pb := polyOf(a), polyOf(b)
	if len(pa)*len(pb) > 4000 {
		panic(unsupported{"polynomial too large"})
	}
	p := newPolyB()
	for _, x := range pa {
		for _, y := range pb {
			p.add(new(big.Int).Mul(x.c, y.c), mergeV(x.v, y.v))
		}
	}
	r := c.fromMons(p.mons())
	if c.recordRW && !a.IsConst() && !b.IsConst() && (len(pa) > 1 || len(pb) > 1) {
		c.rw(fmt.Sprintf("(* t%d t%d)", a.id, b.id), []*Term{a, b}, r)
	}
	return r
}

func (c *Ctx) rw(raw string, deps []*Term, res *Term) {
	if !c.recordRW || c.seenRW[raw] {
		return
	}
	c.seenRW[raw] = true
	c.rewrites = append(c.rewrites, Rewrite{raw, deps, res})
}

// Mod is the Euclidean remainder by a positive constant.
func (c *Ctx) Mod(t *Term, m *big.Int) *Term {
	if m.Sign() <= 0 {
		panic(unsupported{"mod by non-positive constant"})
	}
	if t.IsConst() {
		return c.Const(new(big.Int).Mod(t.c, m))
	}
	if t.lo != nil && t.hi != nil && t.lo.Sign() >= 0 && t.hi.Cmp(m) < 0 {
		return t
	}
	// substitute inner mods, reduce coefficients
	ms := c.modNorm(polyOf(t), m)
	r0 := c.fromMons(ms)
	res := r0
	if r0.IsConst() {
		res = c.Const(new(big.Int).Mod(r0.c, m))
	} else if r0.lo != nil && r0.hi != nil && r0.lo.Sign() >= 0 && r0.hi.Cmp(m) < 0 {
		// reduced representative already in range
	} else {
		key := "m" + strconv.Itoa(r0.id) + "|" + m.Text(62)
		if o, ok := c.tab[key]; ok {
			res = o
		} else {
			res = c.mk(&Term{op: OMod, c: m, args: []*Term{r0}, lo: bigZero, hi: new(big.Int).Sub(m, bigOne)}, key)
		}
	}
	if c.recordRW && r0 != t {
		c.rw(fmt.Sprintf("(mod t%d %s)", t.id, m.String()), []*Term{t}, res)
	}
	return res
}

func (c *Ctx) modNorm(ms []Mono, m *big.Int) []Mono {
	half := new(big.Int).Rsh(m, 1)
	red := func(x *big.Int) *big.Int {
		y := new(big.Int).Mod(x, m)
		if y.Cmp(half) > 0 {
			y.Sub(y, m)
		}
		return y
	}
	for iter := 0; ; iter++ {
		changed := false
		p := newPolyB()
		for _, mo := range ms {
			co := red(mo.c)
			if co.Sign() == 0 {
				continue
			}
			idx := -1
			for i, a := range mo.v {
				if a.op == OMod && new(big.Int).Mod(a.c, m).Sign() == 0 {
					idx = i
					break
				}
			}
			if idx < 0 {
				if nv, ok := cancelInv(mo.v, m); ok {
					changed = true
					p.add(co, nv)
					continue
				}
				if q := cancelInvSum(mo.v, m); q != nil {
					changed = true
					for _, im := range q {
						p.add(red(new(big.Int).Mul(co, im.c)), im.v)
					}
					continue
				}
				if c.modHook != nil {
					if q := c.modHook(mo.v, m); q != nil {
						changed = true
						for _, im := range q {
							p.add(red(new(big.Int).Mul(co, im.c)), im.v)
						}
						continue
					}
				}
				p.add(co, mo.v)
				continue
			}
			changed = true
			rest := make([]*Term, 0, len(mo.v)-1)
			rest = append(rest, mo.v[:idx]...)
			rest = append(rest, mo.v[idx+1:]...)
			for _, im := range polyOf(mo.v[idx].args[0]) {
				p.add(red(new(big.Int).Mul(co, im.c)), mergeV(im.v, rest))
			}
			if len(p.m) > 20000 {
				panic(unsupported{"polynomial too large"})
			}
		}
		ms = p.mons()
		// final coefficient reduction
		q := newPolyB()
		for _, mo := range ms {
			q.add(red(mo.c), mo.v)
		}
		ms = q.mons()
		if !changed {
			return ms
		}
	}
}

// Div is floor division by a positive constant.
func (c *Ctx) Div(t *Term, m *big.Int) *Term {
	if m.Sign() <= 0 {
		panic(unsupported{"div by non-positive constant"})
	}
	if m.Cmp(bigOne) == 0 {
		return t
	}
	if t.IsConst() {
		return c.Const(floorDiv(t.c, m))
	}
	if t.lo != nil && t.hi != nil {
		a, b := floorDiv(t.lo, m), floorDiv(t.hi, m)
		if a.Cmp(b) == 0 {
			return c.Const(a)
		}
	}
	if ms := polyOf(t); m.Cmp(big.NewInt(8)) == 0 && len(ms) == 2 && constOf(ms).Cmp(big.NewInt(7)) == 0 {
		for _, x := range ms {
			if len(x.v) == 1 && x.c.Cmp(bigOne) == 0 && x.v[0].op == OApp && x.v[0].name == "bitl" {
				return c.BLen(x.v[0].args[0])
			}
		}
	}
	q, r := newPolyB(), newPolyB()
	for _, mo := range polyOf(t) {
		d, rem := new(big.Int).DivMod(mo.c, m, new(big.Int))
		if rem.Sign() == 0 {
			q.add(d, mo.v)
		} else {
			r.add(mo.c, mo.v)
		}
	}
	rt := c.fromMons(r.mons())
	qt := c.fromMons(q.mons())
	if rt.IsConst() {
		return c.Add(qt, c.Const(floorDiv(rt.c, m)))
	}
	if rt.lo != nil && rt.hi != nil {
		a, b := floorDiv(rt.lo, m), floorDiv(rt.hi, m)
		if a.Cmp(b) == 0 {
			return c.Add(qt, c.Const(a))
		}
	}
	// (x div a) div b = x div (a*b)
	if rt.op == ODiv {
		return c.Add(qt, c.Div(rt.args[0], new(big.Int).Mul(rt.c, m)))
	}
	key := "d" + strconv.Itoa(rt.id) + "|" + m.Text(62)
	d, ok := c.tab[key]
	if !ok {
		x := &Term{op: ODiv, c: m, args: []*Term{rt}}
		if rt.lo != nil {
			x.lo = floorDiv(rt.lo, m)
		}
		if rt.hi != nil {
			x.hi = floorDiv(rt.hi, m)
		}
		d = c.mk(x, key)
	}
	return c.Add(qt, d)
}

func floorDiv(a, m *big.Int) *big.Int {
	q, _ := new(big.Int).DivMod(a, m, new(big.Int)) // Euclidean, m>0 => floor
	return q
}

// ModS/DivS: symbolic divisor, Euclidean semantics, divisor known non-zero.
func (c *Ctx) ModS(a, b *Term) *Term {
	if b.IsConst() && b.c.Sign() > 0 {
		return c.Mod(a, b.c)
	}
	if a.IsConst() && b.IsConst() {
		return c.Const(new(big.Int).Mod(a.c, b.c))
	}
	if a.lo != nil && a.lo.Sign() >= 0 && a.hi != nil && b.lo != nil && b.lo.Cmp(a.hi) > 0 {
		return a
	}
	t := &Term{op: OModS, args: []*Term{a, b}, lo: bigZero}
	if b.hi != nil && b.lo != nil && b.lo.Sign() > 0 {
		t.hi = new(big.Int).Sub(b.hi, bigOne)
	}
	return c.mk(t, fmt.Sprintf("M%d|%d", a.id, b.id))
}
func (c *Ctx) DivS(a, b *Term) *Term {
	if b.IsConst() && b.c.Sign() > 0 {
		return c.Div(a, b.c)
	}
	if a.IsConst() && b.IsConst() {
		return c.Const(new(big.Int).Div(a.c, b.c))
	}
	t := &Term{op: ODivS, args: []*Term{a, b}}
	if a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() > 0 {
		t.lo = bigZero
		t.hi = a.hi
	}
	return c.mk(t, fmt.Sprintf("D%d|%d", a.id, b.id))
}

// ---- booleans ----

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return c.False
	case OFalse:
		return c.True
	case ONot:
		return a.args[0]
	case OLe0: // not(p<=0) = 1-p<=0
		return c.Le(c.I(1), c.fromMons(a.mons))
	}
	return c.mk(&Term{op: ONot, bool_: true, args: []*Term{a}}, "!"+strconv.Itoa(a.id))
}

func (c *Ctx) nary(op Op, args []*Term) *Term {
	unit, zero := c.True, c.False
	if op == OOr {
		unit, zero = c.False, c.True
	}
	seen := map[int]bool{}
	var out []*Term
	var rec func(a *Term) bool
	rec = func(a *Term) bool {
		if a == unit {
			return true
		}
		if a == zero {
			return false
		}
		if a.op == op {
			for _, x := range a.args {
				if !rec(x) {
					return false
				}
			}
			return true
		}
		if !seen[a.id] {
			seen[a.id] = true
			out = append(out, a)
		}
		return true
	}
	for _, a := range args {
		if !rec(a) {
			return zero
		}
	}
	for _, a := range out {
		if a.op == ONot && seen[a.args[0].id] {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	var sb strings.Builder
	if op == OAnd {
		sb.WriteByte('&')
	} else {
		sb.WriteByte('|')
	}
	for _, a := range out {
		sb.WriteString(strconv.Itoa(a.id))
		sb.WriteByte(',')
	}
	return c.mk(&Term{op: op, bool_: true, args: out}, sb.String())
}
func (c *Ctx) And(a ...*Term) *Term     { return c.nary(OAnd, a) }
func (c *Ctx) Or(a ...*Term) *Term      { return c.nary(OOr, a) }
func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.IsTrue() {
		return a
	}
	if cond.IsFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.bool_ {
		return c.And(c.Or(c.Not(cond), a), c.Or(cond, b))
	}
	if cond.op == ONot {
		return c.Ite(cond.args[0], b, a)
	}
	t := &Term{op: OIte, args: []*Term{cond, a, b}}
	if a.lo != nil && b.lo != nil {
		t.lo = minB(a.lo, b.lo)
	}
	if a.hi != nil && b.hi != nil {
		t.hi = maxB(a.hi, b.hi)
	}
	return c.mk(t, fmt.Sprintf("?%d,%d,%d", cond.id, a.id, b.id))
}

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) <= 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) >= 0 {
		return a
	}
	return b
}

func contentGCD(ms []Mono) *big.Int {
	g := new(big.Int)
	for _, m := range ms {
		if len(m.v) == 0 {
			continue
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
	}
	return g
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.bool_ {
		return c.And(c.Or(c.Not(a), b), c.Or(a, c.Not(b)))
	}
	d := c.Sub(a, b)
	if d.IsConst() {
		return c.Bool(d.c.Sign() == 0)
	}
	if d.lo != nil && d.lo.Sign() > 0 || d.hi != nil && d.hi.Sign() < 0 {
		return c.False
	}
	ms := append([]Mono(nil), polyOf(d)...)
	g := contentGCD(ms)
	k := constOf(ms)
	if new(big.Int).Mod(k, g).Sign() != 0 {
		return c.False
	}
	neg := ms[0].c.Sign() < 0
	for i := range ms {
		q := new(big.Int).Quo(ms[i].c, g)
		if neg {
			q.Neg(q)
		}
		ms[i] = Mono{q, ms[i].v}
	}
	// single-atom rules
	if r := c.atomRule(ms, true); r != nil {
		return r
	}
	if r := c.modEq(ms); r != nil {
		return r
	}
	if c.eqHook != nil {
		if r := c.eqHook(ms); r != nil {
			return r
		}
	}
	p := c.fromMons(ms)
	return c.mk(&Term{op: OEq0, bool_: true, mons: polyOf(p), depth: p.depth}, "="+strconv.Itoa(p.id))
}

// primes are the moduli for which a product vanishes only if a factor does.
var primes = map[string]bool{}

// modEq canonicalises equalities of the form  (a mod m) = t  with 0 <= t < m.
func (c *Ctx) modEq(ms []Mono) *Term {
	var a *Term
	for _, x := range ms {
		if len(x.v) == 1 && x.v[0].op == OMod && x.c.CmpAbs(bigOne) == 0 {
			a = x.v[0]
			rest := newPolyB()
			skip := false
			for _, y := range ms {
				if !skip && len(y.v) == 1 && y.v[0] == a {
					skip = true
					continue
				}
				k := new(big.Int).Neg(y.c)
				if x.c.Sign() < 0 {
					k.Neg(k)
				}
				rest.add(k, y.v)
			}
			t := c.fromMons(rest.mons()) // a = t
			if t == c.I(0) {
				return c.modZero(a)
			}
			if t.lo == nil || t.hi == nil || t.lo.Sign() < 0 || t.hi.Cmp(a.c) >= 0 {
				continue
			}
			d := c.Mod(c.Sub(a.args[0], t), a.c)
			if d.op == OMod && d.c.Cmp(a.c) == 0 {
				return c.modZero(d)
			}
			if d.IsConst() {
				return c.Bool(d.c.Sign() == 0)
			}
			if d != a {
				return c.Eq(d, c.I(0))
			}
		}
	}
	return nil
}

// modZero is the condition (p mod m) = 0 for a mod term.
func (c *Ctx) modZero(a *Term) *Term {
	p := polyOf(a.args[0])
	if primes[a.c.Text(62)] {
		// common factors
		var common []*Term
		for _, f := range p[0].v {
			all := true
			for _, x := range p[1:] {
				has := false
				for _, y := range x.v {
					has = has || y == f
				}
				all = all && has
			}
			if all {
				dup := false
				for _, z := range common {
					dup = dup || z == f
				}
				if !dup {
					common = append(common, f)
				}
			}
		}
		if len(common) > 0 && !(len(p) == 1 && len(p[0].v) == 1) {
			var alts []*Term
			for _, f := range common {
				alts = append(alts, c.Eq(c.Mod(f, a.c), c.I(0)))
			}
			q := newPolyB()
			for _, x := range p {
				var v []*Term
				rem := map[*Term]bool{}
				for _, f := range common {
					rem[f] = true
				}
				for _, y := range x.v {
					if rem[y] {
						delete(rem, y)
						continue
					}
					v = append(v, y)
				}
				q.add(x.c, v)
			}
			alts = append(alts, c.Eq(c.Mod(c.fromMons(q.mons()), a.c), c.I(0)))
			return c.Or(alts...)
		}
		// content and sign
		g := new(big.Int)
		for _, x := range p {
			g.GCD(nil, nil, g, new(big.Int).Abs(x.c))
		}
		if g.Cmp(bigOne) > 0 || p[0].c.Sign() < 0 {
			q := newPolyB()
			for _, x := range p {
				k := new(big.Int).Quo(x.c, g)
				if p[0].c.Sign() < 0 {
					k.Neg(k)
				}
				q.add(k, x.v)
			}
			b := c.Mod(c.fromMons(q.mons()), a.c)
			if b != a {
				return c.Eq(b, c.I(0))
			}
		}
	} else if p[0].c.Sign() < 0 {
		b := c.Mod(c.Neg(a.args[0]), a.c)
		if b != a {
			return c.Eq(b, c.I(0))
		}
	}
	t := c.mk(&Term{op: OEq0, bool_: true, mons: polyOf(a), depth: a.depth}, "="+strconv.Itoa(a.id))
	return t
}

func constOf(ms []Mono) *big.Int {
	for _, m := range ms {
		if len(m.v) == 0 {
			return m.c
		}
	}
	return bigZero
}

// atomRule handles  s*a + k  (=|<=) 0 with s=±1 and a an ite or a byte length.
func (c *Ctx) atomRule(ms []Mono, eq bool) *Term {
	var a *Term
	var s int
	k := constOf(ms)
	for _, m := range ms {
		if len(m.v) == 0 {
			continue
		}
		if a != nil || len(m.v) != 1 || m.c.CmpAbs(bigOne) != 0 {
			return nil
		}
		a = m.v[0]
		s = m.c.Sign()
	}
	if a == nil {
		return nil
	}
	switch {
	case a.op == OIte && (a.args[1].IsConst() || a.args[2].IsConst()):
		f := func(x *Term) *Term {
			e := c.Add(c.Scale(x, big.NewInt(int64(s))), c.Const(k))
			if eq {
				return c.Eq(e, c.I(0))
			}
			return c.Le(e, c.I(0))
		}
		return c.Ite(a.args[0], f(a.args[1]), f(a.args[2]))
	case a.op == OApp && a.name == "cmp":
		if !k.IsInt64() {
			return nil
		}
		kk := k.Int64()
		x, y := a.args[0], a.args[1]
		if eq {
			switch -kk * int64(s) {
			case -1:
				return c.Lt(x, y)
			case 0:
				return c.Eq(x, y)
			case 1:
				return c.Gt(x, y)
			}
			return c.False
		}
		if s > 0 { // cmp <= -k
			switch {
			case -kk < -1:
				return c.False
			case -kk == -1:
				return c.Lt(x, y)
			case -kk == 0:
				return c.Le(x, y)
			}
			return c.True
		}
		switch { // cmp >= k
		case kk > 1:
			return c.False
		case kk == 1:
			return c.Gt(x, y)
		case kk == 0:
			return c.Ge(x, y)
		}
		return c.True
	case a.op == OApp && (a.name == "blen" || a.name == "bitl"):
		v := a.args[0]
		unit := uint(8)
		if a.name == "bitl" {
			unit = 1
		}
		p256 := func(n int64) *Term { return c.Const(pow2(unit * uint(n))) }
		if !k.IsInt64() {
			return nil
		}
		kk := k.Int64()
		if eq {
			// blen = n
			n := -kk * int64(s)
			if n < 0 || n > 4096 {
				return c.False
			}
			if n == 0 {
				return c.Eq(v, c.I(0))
			}
			return c.And(c.Le(p256(n-1), v), c.Lt(v, p256(n)))
		}
		if s > 0 { // blen <= -k
			n := -kk
			if n < 0 {
				return c.False
			}
			if n > 4096 {
				return nil
			}
			return c.Lt(v, p256(n))
		}
		// -blen + k <= 0  : blen >= k
		if kk <= 0 {
			return c.True
		}
		if kk > 4096 {
			return nil
		}
		return c.Le(p256(kk-1), v)
	}
	return nil
}

func (c *Ctx) Le(a, b *Term) *Term {
	d := c.Sub(a, b)
	if d.IsConst() {
		return c.Bool(d.c.Sign() <= 0)
	}
	if d.hi != nil && d.hi.Sign() <= 0 {
		return c.True
	}
	if d.lo != nil && d.lo.Sign() > 0 {
		return c.False
	}
	ms := append([]Mono(nil), polyOf(d)...)
	g := contentGCD(ms)
	if g.Cmp(bigOne) > 0 {
		p := newPolyB()
		for _, m := range ms {
			if len(m.v) == 0 {
				// g*q + k <= 0  <=>  q <= floor(-k/g)
				f := floorDiv(new(big.Int).Neg(m.c), g)
				p.add(f.Neg(f), nil)
			} else {
				p.add(new(big.Int).Quo(m.c, g), m.v)
			}
		}
		ms = p.mons()
	}
	if r := c.atomRule(ms, false); r != nil {
		return r
	}
	if lo, _ := polyInterval(ms); lo != nil && lo.Sign() == 0 {
		// a sum that is never negative vanishes only if every part is least
		var conj []*Term
		for _, m := range ms {
			if len(m.v) == 0 {
				continue
			}
			if len(m.v) != 1 {
				conj = nil
				break
			}
			b := m.v[0].lo
			if m.c.Sign() < 0 {
				b = m.v[0].hi
			}
			conj = append(conj, c.Eq(m.v[0], c.Const(b)))
		}
		if conj != nil {
			return c.And(conj...)
		}
	}
	p := c.fromMons(ms)
	return c.mk(&Term{op: OLe0, bool_: true, mons: polyOf(p), depth: p.depth}, "<"+strconv.Itoa(p.id))
}
func (c *Ctx) Lt(a, b *Term) *Term { return c.Le(c.Add(a, c.I(1)), b) }
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }
func (c *Ctx) Ne(a, b *Term) *Term { return c.Not(c.Eq(a, b)) }

// BLen is the length of the minimal big-endian encoding of v >= 0.
func (c *Ctx) BLen(v *Term) *Term {
	if v.IsConst() {
		return c.I(int64((new(big.Int).Abs(v.c).BitLen() + 7) / 8))
	}
	lo, hi := bigZero, big.NewInt(1<<40)
	if v.lo != nil && v.lo.Sign() > 0 {
		lo = big.NewInt(int64((v.lo.BitLen() + 7) / 8))
	}
	if v.hi != nil {
		hi = big.NewInt(int64((v.hi.BitLen() + 7) / 8))
	}
	if lo.Cmp(hi) == 0 {
		return c.Const(lo)
	}
	return c.App("blen", lo, hi, v)
}

// BitLen is the bit length of v >= 0.
func (c *Ctx) BitLen(v *Term) *Term {
	if v.IsConst() {
		return c.I(int64(v.c.BitLen()))
	}
	lo, hi := bigZero, big.NewInt(1<<40)
	if v.lo != nil && v.lo.Sign() > 0 {
		lo = big.NewInt(int64(v.lo.BitLen()))
	}
	if v.hi != nil {
		hi = big.NewInt(int64(v.hi.BitLen()))
	}
	if lo.Cmp(hi) == 0 {
		return c.Const(lo)
	}
	return c.App("bitl", lo, hi, v)
}

// Cmp is -1, 0 or 1.
func (c *Ctx) Cmp(x, y *Term) *Term {
	if c.Lt(x, y).IsTrue() {
		return c.I(-1)
	}
	if c.Gt(x, y).IsTrue() {
		return c.I(1)
	}
	if c.Eq(x, y).IsTrue() {
		return c.I(0)
	}
	return c.App("cmp", big.NewInt(-1), bigOne, x, y)
}

// children enumerates the direct subterms.
func (t *Term) children(f func(*Term)) {
	for _, a := range t.args {
		f(a)
	}
	for _, m := range t.mons {
		for _, a := range m.v {
			f(a)
		}
	}
}

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	if d == 0 {
		return "…"
	}
	switch t.op {
	case OConst:
		if t.c.BitLen() > 200 {
			return "0x" + t.c.Text(16)[:6] + "…"
		}
		return t.c.String()
	case OVar:
		return t.name
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OApp:
		var s []string
		for _, a := range t.args {
			s = append(s, a.str(d-1))
		}
		return t.name + "(" + strings.Join(s, ",") + ")"
	case OMod, ODiv:
		n := map[Op]string{OMod: "mod", ODiv: "div"}[t.op]
		cs := t.c.String()
		if t.c.BitLen() > 200 {
			cs = "N:" + t.c.Text(16)[30:36]
		}
		return "(" + t.args[0].str(d-1) + " " + n + " " + cs + ")"
	case OPoly, OEq0, OLe0:
		var s []string
		for _, m := range t.mons {
			var f []string
			if m.c.Cmp(bigOne) != 0 || len(m.v) == 0 {
				cs := m.c.String()
				if len(cs) > 30 {
					cs = cs[:8] + "…"
				}
				f = append(f, cs)
			}
			for _, a := range m.v {
				f = append(f, a.str(d-1))
			}
			s = append(s, strings.Join(f, "*"))
		}
		r := strings.Join(s, " + ")
		if t.op == OEq0 {
			return "[" + r + " = 0]"
		}
		if t.op == OLe0 {
			return "[" + r + " <= 0]"
		}
		return "(" + r + ")"
	default:
		n := map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OModS: "modS", ODivS: "divS"}[t.op]
		var s []string
		for _, a := range t.args {
			s = append(s, a.str(d-1))
		}
		return n + "(" + strings.Join(s, ",") + ")"
	}
}

type unsupported struct{ msg string }
