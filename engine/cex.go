package main

import (
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"sync"
	"time"
)

// Concrete witnesses: assignments of the inputs, evaluated exactly. They
// answer "satisfiable" quickly for path conditions about arithmetic modulo
// the group order, where the SMT solver finds no model, and provide concrete
// counterexamples. An assignment counts only if the whole path condition
// evaluates to true.

type env struct {
	r     *Run
	rng   *rand.Rand
	strat int
	few   bool // large inputs come from a small range, so that points are found in the cache
	real  bool // hash functions are computed, not arbitrary
	vals  map[int]*big.Int
	busy  map[int]bool
	piv   map[int]fpoly
	f     *fieldSolver
	bytes map[string][]byte
	bnd   map[int][2]*big.Int // bounds from the linear facts of the path
	fun   map[string]*big.Int // values chosen for coordinates
	n     int
}

type evalFail struct{ why string }

func (e *env) fail(w string) { panic(evalFail{w}) }

var (
	ptMu    sync.Mutex
	ptCache = map[string][2]*big.Int{}
)

// curvePoint is d*G in affine coordinates, for d in [1,N-1].
func curvePoint(d *big.Int) (*big.Int, *big.Int) {
	k := d.Text(62)
	ptMu.Lock()
	if p, ok := ptCache[k]; ok {
		ptMu.Unlock()
		return p[0], p[1]
	}
	ptMu.Unlock()
	// Jacobian double and add
	p := curveP
	m := func(a, b *big.Int) *big.Int { t := new(big.Int).Mul(a, b); return t.Mod(t, p) }
	sub := func(a, b *big.Int) *big.Int { t := new(big.Int).Sub(a, b); return t.Mod(t, p) }
	var X, Y, Z *big.Int
	for i := d.BitLen() - 1; i >= 0; i-- {
		if Z != nil {
			a := m(X, X)
			b := m(Y, Y)
			c := m(b, b)
			xb := new(big.Int).Add(X, b)
			dd := sub(sub(m(xb, xb), a), c)
			dd = m(dd, big.NewInt(2))
			ee := m(a, big.NewInt(3))
			f := m(ee, ee)
			nx := sub(f, new(big.Int).Lsh(dd, 1))
			ny := sub(m(ee, sub(dd, nx)), m(c, big.NewInt(8)))
			nz := m(m(Y, Z), big.NewInt(2))
			X, Y, Z = nx, ny, nz
		}
		if d.Bit(i) == 1 {
			if Z == nil {
				X, Y, Z = new(big.Int).Set(curveGx), new(big.Int).Set(curveGy), big.NewInt(1)
				continue
			}
			zz := m(Z, Z)
			u2 := m(curveGx, zz)
			s2 := m(curveGy, m(zz, Z))
			h := sub(u2, X)
			rr := sub(s2, Y)
			hh := m(h, h)
			hhh := m(hh, h)
			v := m(X, hh)
			nx := sub(sub(m(rr, rr), hhh), new(big.Int).Lsh(v, 1))
			ny := sub(m(rr, sub(v, nx)), m(Y, hhh))
			X, Y, Z = nx, ny, m(Z, h)
		}
	}
	zi := new(big.Int).ModInverse(Z, p)
	zi2 := m(zi, zi)
	x, y := m(X, zi2), m(Y, m(zi2, zi))
	ptMu.Lock()
	if len(ptCache) > 200000 {
		ptCache = map[string][2]*big.Int{}
	}
	ptCache[k] = [2]*big.Int{x, y}
	ptMu.Unlock()
	return x, y
}

func (r *Run) newEnv(f *fieldSolver, leaf *fstate, strat int, real bool) *env {
	e := &env{r: r, f: f, strat: strat, real: real, rng: rand.New(rand.NewSource(int64(1000 + strat))), vals: map[int]*big.Int{}, busy: map[int]bool{}, piv: map[int]fpoly{}, bytes: map[string][]byte{}}
	if !real {
		e.bnd = map[int][2]*big.Int{}
		e.fun = map[string]*big.Int{}
		for i := 0; i < 3; i++ {
			for _, t := range r.linFacts {
				e.bound(t)
			}
		}
	}
	if real && len(r.placed) > 0 {
		e.bnd = map[int][2]*big.Int{}
		for i := 0; i < 3; i++ {
			for _, t := range r.linFacts {
				e.bound(t)
			}
		}
		e.place()
		e.bnd = nil
	}
	if leaf == nil {
		return e
	}
	hashVar := func(id int) bool {
		v := f.vars[id]
		return v == nil || v.op == OApp && !(strings.HasPrefix(v.name, "b2i|") && !real) || v.op != OVar && v.op != OApp
	}
	used := map[int]bool{}
	for _, row := range leaf.rows {
		if row.single != 0 && !hashVar(row.single) {
			e.piv[row.single] = row.p
			used[row.single] = true
		}
	}
	for _, row := range leaf.rows {
		if row.single != 0 && !hashVar(row.single) {
			continue
		}
		deg := map[int]int{}
		var order []int
		for _, m := range row.p {
			seen := map[int]int{}
			for _, v := range m.vars {
				seen[v]++
			}
			for v, k := range seen {
				if _, ok := deg[v]; !ok {
					order = append(order, v)
				}
				if k > deg[v] {
					deg[v] = k
				}
			}
		}
		best := 0
		for _, v := range order {
			if deg[v] != 1 || used[v] || hashVar(v) {
				continue
			}
			if best == 0 || v > best {
				best = v
			}
		}
		if best != 0 {
			e.piv[best] = row.p
			used[best] = true
		}
	}
	return e
}

// rng bounds an atom.
func (e *env) bounds(a *Term) (lo, hi *big.Int) {
	lo, hi = a.lo, a.hi
	if b, ok := e.bnd[a.id]; ok {
		if b[0] != nil && (lo == nil || b[0].Cmp(lo) > 0) {
			lo = b[0]
		}
		if b[1] != nil && (hi == nil || b[1].Cmp(hi) < 0) {
			hi = b[1]
		}
	}
	return
}

func (e *env) narrow(a *Term, lo, hi *big.Int) {
	l, h := e.bounds(a)
	if lo != nil && (l == nil || lo.Cmp(l) > 0) {
		l = lo
	}
	if hi != nil && (h == nil || hi.Cmp(h) < 0) {
		h = hi
	}
	e.bnd[a.id] = [2]*big.Int{l, h}
	if a.op == OApp && a.name == "blen" {
		x := a.args[0]
		if len(x.mons) > 0 || x.lo == nil || x.lo.Sign() < 0 {
			return
		}
		var xl, xh *big.Int
		if l != nil && l.Sign() > 0 && l.IsInt64() && l.Int64() < 4096 {
			xl = pow2(uint(8 * (l.Int64() - 1)))
		}
		if h != nil && h.Sign() >= 0 && h.IsInt64() && h.Int64() < 4096 {
			xh = new(big.Int).Sub(pow2(uint(8*h.Int64())), bigOne)
		}
		e.narrow(x, xl, xh)
	}
}

// bound derives bounds of atoms from a linear fact.
func (e *env) bound(t *Term) {
	for i, m := range t.mons {
		if len(m.v) != 1 {
			continue
		}
		// m.c*a <= -(sum of the least values of the others)
		side := func(least bool) *big.Int {
			s := new(big.Int)
			for j, o := range t.mons {
				if j == i {
					continue
				}
				if len(o.v) == 0 {
					s.Add(s, o.c)
					continue
				}
				lo, hi := e.bounds(o.v[0])
				b := lo
				if (o.c.Sign() > 0) != least {
					b = hi
				}
				if b == nil {
					return nil
				}
				s.Add(s, new(big.Int).Mul(b, o.c))
			}
			return s.Neg(s)
		}
		var lo, hi *big.Int
		up := side(true) // c*a <= up
		if up != nil {
			if m.c.Sign() > 0 {
				hi = floorDiv(up, m.c)
			} else {
				lo = floorDiv(up, m.c)
				if new(big.Int).Mul(lo, m.c).Cmp(up) > 0 {
					lo = new(big.Int).Add(lo, bigOne)
				}
			}
		}
		if t.op == OEq0 {
			if dn := side(false); dn != nil { // c*a >= dn
				if m.c.Sign() > 0 {
					lo = floorDiv(dn, m.c)
					if new(big.Int).Mul(lo, m.c).Cmp(dn) < 0 {
						lo = new(big.Int).Add(lo, bigOne)
					}
				} else {
					hi = floorDiv(dn, m.c)
				}
			}
		}
		if lo != nil || hi != nil {
			e.narrow(m.v[0], lo, hi)
		}
	}
}

func (e *env) random(lo, hi *big.Int) *big.Int {
	if lo == nil {
		lo = bigZero
	}
	if hi == nil {
		hi = new(big.Int).Add(lo, pow2(256))
	}
	span := new(big.Int).Sub(hi, lo)
	if span.Sign() <= 0 {
		return new(big.Int).Set(lo)
	}
	if span.BitLen() <= 16 {
		switch e.strat % 4 {
		case 1:
			return new(big.Int).Set(hi)
		case 2:
			return new(big.Int).Set(lo)
		}
	} else if e.few && span.BitLen() > 200 {
		span = big.NewInt(1 << 15)
	} else if e.strat%4 == 3 {
		span = big.NewInt(1000)
	}
	v := new(big.Int).Rand(e.rng, new(big.Int).Add(span, bigOne))
	return v.Add(v, lo)
}

// solve computes v from its row.
func (e *env) solve(id int, p fpoly, lo, hi *big.Int) *big.Int {
	num, den := new(big.Int), new(big.Int)
	for _, m := range p {
		t := new(big.Int).Set(m.c)
		has := false
		for _, x := range m.vars {
			if x == id {
				has = true
				continue
			}
			t.Mul(t, e.int(e.f.vars[x]))
			t.Mod(t, curveN)
		}
		if has {
			den.Add(den, t)
		} else {
			num.Add(num, t)
		}
	}
	den.Mod(den, curveN)
	if den.Sign() == 0 {
		return e.random(lo, hi)
	}
	v := num.Neg(num)
	v.Mul(v, new(big.Int).ModInverse(den, curveN))
	v.Mod(v, curveN)
	for lo != nil && v.Cmp(lo) < 0 {
		v.Add(v, curveN)
	}
	if hi != nil && v.Cmp(hi) > 0 {
		e.fail("out of range")
	}
	return v
}

func (e *env) src(id string) []byte {
	if b, ok := e.bytes[id]; ok {
		return b
	}
	var n int64
	var b []byte
	found := false
	for _, in := range e.r.inputs {
		if in.Id == id {
			n = e.int(in.Len).Int64()
			found = true
		}
	}
	if !found {
		for _, h := range e.r.hashes {
			if h.id == id {
				found = true
				n = h.n
				if n > 4096 {
					n = 4096
				}
				if e.real {
					b = realHash(h.name, e.rope(h.rope), int(n))
					if b == nil {
						e.fail("hash " + h.name)
					}
				}
			}
		}
	}
	for _, x := range e.r.b64 {
		if x.id == id {
			found = true
			b = []byte(b64Text(x.enc, e.rope(x.p)))
		}
	}
	if !found || n < 0 || n > 1<<20 {
		e.fail("source " + id)
	}
	if b == nil {
		b = make([]byte, n)
		if e.strat%4 != 2 {
			e.rng.Read(b)
		}
	}
	e.bytes[id] = b
	return b
}

func realHash(name string, msg []byte, n int) []byte {
	switch {
	case strings.HasPrefix(name, "hkdf/crypto/sha256.New/"):
		ps := strings.Split(name, "/")
		salt, e1 := hex.DecodeString(ps[len(ps)-2])
		info, e2 := hex.DecodeString(ps[len(ps)-1])
		if e1 != nil || e2 != nil {
			return nil
		}
		h := hmac.New(sha256.New, salt)
		h.Write(msg)
		prk := h.Sum(nil)
		var out, t []byte
		for i := 1; len(out) < n; i++ {
			h := hmac.New(sha256.New, prk)
			h.Write(t)
			h.Write(info)
			h.Write([]byte{byte(i)})
			t = h.Sum(nil)
			out = append(out, t...)
		}
		return out[:n]
	case name == "crypto/sha256" && n <= 32:
		s := sha256.Sum256(msg)
		return s[:n]
	case name == "crypto/sha512" && n <= 64:
		s := sha512.Sum512(msg)
		return s[:n]
	}
	return nil
}

func (e *env) rope(p Rope) []byte {
	var out []byte
	for _, s := range p {
		ln := e.int(s.ln)
		if !ln.IsInt64() || ln.Sign() < 0 || ln.Int64() > 1<<20 {
			e.fail("rope length")
		}
		n := int(ln.Int64())
		off := 0
		if s.off != nil {
			off = int(e.int(s.off).Int64())
		}
		cut := func(b []byte) []byte {
			if off < 0 || off+n > len(b) {
				e.fail("rope range")
			}
			return b[off : off+n]
		}
		switch s.k {
		case sConst:
			if off == 0 && n == len(s.b) {
				out = append(out, s.b...)
			} else {
				out = append(out, cut(s.b)...)
			}
		case sZero:
			out = append(out, make([]byte, n)...)
		case sByte:
			out = append(out, byte(e.int(s.v).Int64()))
		case sBig:
			out = append(out, cut(e.int(s.v).Bytes())...)
		case sFixBE, sFixLE:
			v := e.int(s.v)
			if v.Sign() < 0 || v.BitLen() > int(8*s.n) {
				e.fail("fixed width")
			}
			b := v.FillBytes(make([]byte, s.n))
			if s.k == sFixLE {
				for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
					b[i], b[j] = b[j], b[i]
				}
			}
			out = append(out, cut(b)...)
		case sIn:
			out = append(out, cut(e.src(s.id))...)
		}
	}
	return out
}

func (e *env) int(t *Term) *big.Int {
	if t.op == OConst {
		return t.c
	}
	if v, ok := e.vals[t.id]; ok {
		return v
	}
	e.n++
	if e.n > 200000 {
		e.fail("too large")
	}
	if e.busy[t.id] {
		e.fail("cycle")
	}
	e.busy[t.id] = true
	v := e.compute(t)
	delete(e.busy, t.id)
	e.vals[t.id] = v
	return v
}

func (e *env) compute(t *Term) *big.Int {
	switch t.op {
	case OVar:
		lo, hi := e.bounds(t)
		if p, ok := e.piv[t.id]; ok {
			return e.solve(t.id, p, lo, hi)
		}
		return e.random(lo, hi)
	case OPoly:
		v := new(big.Int)
		for _, m := range t.mons {
			x := new(big.Int).Set(m.c)
			for _, a := range m.v {
				x.Mul(x, e.int(a))
			}
			v.Add(v, x)
		}
		return v
	case OMod:
		return new(big.Int).Mod(e.int(t.args[0]), t.c)
	case ODiv:
		return floorDiv(e.int(t.args[0]), t.c)
	case OModS, ODivS:
		a, b := e.int(t.args[0]), e.int(t.args[1])
		if b.Sign() == 0 {
			e.fail("division by zero")
		}
		if t.op == OModS {
			return new(big.Int).Mod(a, b)
		}
		return new(big.Int).Div(a, b)
	case OIte:
		if e.bool(t.args[0]) {
			return e.int(t.args[1])
		}
		return e.int(t.args[2])
	case OApp:
		return e.app(t)
	}
	e.fail("term")
	return nil
}

func (e *env) app(t *Term) *big.Int {
	arg := func(i int) *big.Int { return e.int(t.args[i]) }
	small := func(i int) int {
		v := arg(i)
		if !v.IsInt64() || v.Int64() < 0 || v.Int64() > 1<<20 {
			e.fail("offset")
		}
		return int(v.Int64())
	}
	sl := func(b []byte, off, n int) []byte {
		if off+n > len(b) {
			e.fail("range")
		}
		return b[off : off+n]
	}
	switch t.name {
	case "X", "Y":
		d := new(big.Int).Mod(arg(0), curveN)
		if d.Sign() == 0 {
			e.fail("coordinates of the neutral element")
		}
		if e.fun != nil {
			k := t.name + d.Text(62)
			if v, ok := e.fun[k]; ok {
				return v
			}
			if e.bnd == nil {
				// the logarithm is arbitrary, only this point is placed
			} else if b, ok := e.bnd[t.id]; ok && b[1] != nil && b[1].BitLen() < 250 {
				v := e.random(b[0], b[1])
				e.fun[k] = v
				return v
			}
		}
		x, y := curvePoint(d)
		if t.name == "X" {
			return x
		}
		return y
	case "blen":
		return big.NewInt(int64((arg(0).BitLen() + 7) / 8))
	case "bitl":
		return big.NewInt(int64(arg(0).BitLen()))
	case "cmp":
		return big.NewInt(int64(arg(0).Cmp(arg(1))))
	case "fixslice":
		v := arg(0)
		n := small(1)
		if v.Sign() < 0 || v.BitLen() > 8*n {
			e.fail("fixslice")
		}
		return new(big.Int).SetBytes(sl(v.FillBytes(make([]byte, n)), small(2), small(3)))
	case "bigslice":
		return new(big.Int).SetBytes(sl(arg(0).Bytes(), small(1), small(2)))
	case "bigbyte":
		return new(big.Int).SetBytes(sl(arg(0).Bytes(), small(1), 1))
	case "bvop|bvand":
		return new(big.Int).And(arg(0), arg(1))
	case "bvop|bvor":
		return new(big.Int).Or(arg(0), arg(1))
	case "bvop|bvxor":
		return new(big.Int).Xor(arg(0), arg(1))
	}
	if strings.HasPrefix(t.name, "byte|") {
		b := e.src(t.name[5:])
		return new(big.Int).SetBytes(sl(b, small(0), 1))
	}
	if strings.HasPrefix(t.name, "b2i|") {
		id := t.name[4:]
		if p, ok := e.piv[t.id]; ok {
			v := e.solve(t.id, p, t.lo, t.hi)
			b := sl(e.src(id), small(0), small(1))
			if v.BitLen() > 8*len(b) {
				e.fail("b2i")
			}
			v.FillBytes(b)
			return v
		}
		return new(big.Int).SetBytes(sl(e.src(id), small(0), small(1)))
	}
	if strings.HasPrefix(t.name, "inv|") {
		n, ok := new(big.Int).SetString(t.name[4:], 10)
		if !ok {
			e.fail("inverse")
		}
		v := new(big.Int).ModInverse(new(big.Int).Mod(arg(0), n), n)
		if v == nil {
			e.fail("no inverse")
		}
		return v
	}
	if strings.HasPrefix(t.name, "exp|") {
		n, ok := new(big.Int).SetString(t.name[4:], 10)
		if !ok || arg(1).Sign() < 0 {
			e.fail("power")
		}
		return new(big.Int).Exp(arg(0), arg(1), n)
	}
	e.fail("function " + t.name)
	return nil
}

func (e *env) bool(t *Term) bool {
	switch t.op {
	case OTrue:
		return true
	case OFalse:
		return false
	case ONot:
		return !e.bool(t.args[0])
	case OAnd:
		for _, a := range t.args {
			if !e.bool(a) {
				return false
			}
		}
		return true
	case OOr:
		for _, a := range t.args {
			if e.bool(a) {
				return true
			}
		}
		return false
	case OIte:
		if e.bool(t.args[0]) {
			return e.bool(t.args[1])
		}
		return e.bool(t.args[2])
	case OEq0, OLe0:
		v := new(big.Int)
		for _, m := range t.mons {
			x := new(big.Int).Set(m.c)
			for _, a := range m.v {
				if x.Sign() == 0 {
					break
				}
				x.Mul(x, e.int(a))
			}
			v.Add(v, x)
		}
		if t.op == OEq0 {
			return v.Sign() == 0
		}
		return v.Sign() <= 0
	case OVar:
		if !t.bool_ {
			e.fail("sort")
		}
		v, ok := e.vals[t.id]
		if !ok {
			v = big.NewInt(int64(e.rng.Intn(2)))
			e.vals[t.id] = v
		}
		return v.Sign() != 0
	}
	e.fail("formula")
	return false
}

// holds evaluates t, reporting whether evaluation was possible.
func (e *env) holds(t *Term) (v, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(evalFail); is {
				e.busy = map[int]bool{}
				return
			}
			panic(x)
		}
	}()
	e.n = 0
	return e.bool(t), true
}

// satisfies says whether the path condition and t evaluate to true.
func (e *env) satisfies(t *Term) bool {
	for _, p := range e.r.pcList {
		if v, ok := e.holds(p); !v || !ok {
			return false
		}
	}
	if t != nil {
		v, ok := e.holds(t)
		return v && ok
	}
	return true
}

// witness looks for an assignment satisfying the path condition and t.
func (r *Run) witness(t *Term, f *fieldSolver, tries int) bool {
	for _, w := range r.wits {
		if v, ok := w.holds(t); v && ok {
			return true
		}
	}
	for k := 0; k < tries; k++ {
		e := r.newEnv(f, f.leaf, r.nwit, false)
		r.nwit++
		if e.satisfies(t) {
			if len(r.wits) < 6 {
				r.wits = append(r.wits, e)
			}
			return true
		}
	}
	return false
}

// learnWit keeps the witnesses that satisfy a new assumption.
func (r *Run) learnWit(t *Term) {
	keep := r.wits[:0]
	for _, w := range r.wits {
		if v, ok := w.holds(t); v && ok {
			keep = append(keep, w)
		}
	}
	r.wits = keep
}

// concrete turns an assignment into inputs for the replay.
func (e *env) concrete() (c *Candidate) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(evalFail); is {
				c = nil
				return
			}
			panic(x)
		}
	}()
	e.n = 0
	c = &Candidate{Model: map[string]string{}}
	for _, in := range e.r.inputs {
		switch in.Kind {
		case "choice":
			c.Model[in.Name] = fmt.Sprint(in.Val)
		case "bytes":
			c.Model[in.Name] = fmt.Sprintf("%x", e.src(in.Id))
		default:
			v := e.int(in.T)
			c.Model[in.Name] = v.String()
			if x := e.fun["X"+v.Text(62)]; x != nil && e.real {
				c.Model[in.Name+".x"], c.Model[in.Name+".y"] = x.String(), e.fun["Y"+v.Text(62)].String()
			}
		}
	}
	for _, d := range e.r.draws {
		k := (new(big.Int).Sub(e.int(d.Max), bigOne).BitLen() + 7) / 8
		v := e.int(d.T)
		if v.Sign() < 0 || v.BitLen() > 8*k {
			return nil
		}
		c.Rand = append(c.Rand, fmt.Sprintf("%x", v.FillBytes(make([]byte, k))))
	}
	return c
}

// place chooses coordinates for points whose coordinates are confined to a
// small part of the field, where no point of known logarithm will be found.
func (e *env) place() {
	for _, in := range e.r.placed {
		if in.T.op != OVar {
			continue
		}
		x, y := e.confined("X", in.T), e.confined("Y", in.T)
		if x == nil && y == nil {
			continue
		}
		px, py := searchPoint(e.rng, x, y, e.strat)
		if px == nil {
			continue
		}
		d := new(big.Int).Rand(e.rng, curveN)
		if d.Sign() == 0 {
			continue
		}
		e.vals[in.T.id] = d
		if e.fun == nil {
			e.fun = map[string]*big.Int{}
		}
		e.fun["X"+d.Text(62)], e.fun["Y"+d.Text(62)] = px, py
	}
}

// confined returns the bounds of a coordinate of d*G if they are narrow.
func (e *env) confined(name string, d *Term) *[2]*big.Int {
	t := e.r.c.App(name, bigOne, new(big.Int).Sub(curveP, bigOne), d)
	if b, ok := e.bnd[t.id]; ok {
		lo, hi := b[0], b[1]
		if lo == nil || lo.Sign() < 0 {
			lo = bigZero
		}
		if hi == nil || hi.Cmp(curveP) >= 0 {
			hi = new(big.Int).Sub(curveP, bigOne)
		}
		if w := new(big.Int).Sub(hi, lo); w.Sign() >= 0 && w.BitLen() < 250 {
			return &[2]*big.Int{lo, hi}
		}
	}
	return nil
}

// searchPoint finds a point of the curve with coordinates in the given ranges.
func searchPoint(rng *rand.Rand, xr, yr *[2]*big.Int, strat int) (*big.Int, *big.Int) {
	p := curveP
	in := func(v *big.Int, r *[2]*big.Int) bool { return r == nil || v.Cmp(r[0]) >= 0 && v.Cmp(r[1]) <= 0 }
	pick := func(r *[2]*big.Int, i int) *big.Int {
		w := new(big.Int).Sub(r[1], r[0])
		if strat%4 == 1 || w.BitLen() < 10 {
			return new(big.Int).Add(r[0], big.NewInt(int64(i)))
		}
		return new(big.Int).Add(r[0], new(big.Int).Rand(rng, w.Add(w, bigOne)))
	}
	seven := big.NewInt(7)
	for i := 0; i < 2000; i++ {
		if xr != nil {
			x := pick(xr, i)
			c := new(big.Int).Exp(x, big.NewInt(3), p)
			y := new(big.Int).ModSqrt(c.Mod(c.Add(c, seven), p), p)
			if y == nil || !in(x, xr) {
				continue
			}
			if in(y, yr) {
				return x, y
			}
			if y.Sub(p, y); in(y, yr) {
				return x, y
			}
			continue
		}
		// a cube root of y^2-7; p = 7 mod 9
		y := pick(yr, i)
		c := new(big.Int).Mul(y, y)
		c.Mod(c.Sub(c, seven), p)
		e := new(big.Int).Add(p, big.NewInt(2))
		x := new(big.Int).Exp(c, e.Div(e, big.NewInt(9)), p)
		if new(big.Int).Exp(x, big.NewInt(3), p).Cmp(c) == 0 && in(y, yr) {
			return x, y
		}
	}
	return nil, nil
}

// concreteModels returns inputs that evaluate to a violation, hash functions included.
func (r *Run) concreteModels(neg *Term, want int) []*Candidate {
	var out []*Candidate
	for k := 0; k < 5 && len(out) < want; k += 4 {
		e := r.newEnv(nil, nil, k, true)
		if e.satisfies(neg) {
			if c := e.concrete(); c != nil {
				out = append(out, c)
			}
		}
	}
	if len(out) >= want {
		return out
	}
	f := &fieldSolver{c: r.c, vars: map[int]*Term{}, polys: map[int]fpoly{}, max: 400}
	var fs []sform
	for _, p := range r.pcList {
		fs = append(fs, sform{p, true})
	}
	if neg != nil {
		fs = append(fs, sform{neg, true})
	}
	if f.unsat(&fstate{asg: map[int]bool{}}, fs) {
		return out
	}
	for k := 0; k < 12 && len(out) < want; k++ {
		e := r.newEnv(f, f.leaf, k, true)
		if e.satisfies(neg) {
			if c := e.concrete(); c != nil {
				out = append(out, c)
			}
		}
	}
	if len(out) > 0 || !r.usesCoords() || r.e.searchCount(r.h.Name) >= 12 {
		return out
	}
	// coordinates that only some points have
	t0 := time.Now()
	for k := 0; k < 20000 && len(out) < want && time.Since(t0) < 3*time.Second; k++ {
		e := r.newEnv(nil, nil, 4*k, true)
		e.few = true
		if e.satisfies(neg) {
			if c := e.concrete(); c != nil {
				out = append(out, c)
			}
		}
	}
	return out
}

// usesCoords tells whether the path depends on coordinates of points.
func (r *Run) usesCoords() bool {
	for _, t := range r.c.list {
		if t.op == OApp && (t.name == "X" || t.name == "Y") {
			return true
		}
	}
	return false
}
