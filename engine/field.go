package main

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
)

// A small decision procedure that runs before the SMT solver: boolean search
// over atoms that are polynomial equations modulo the group order, with
// Gaussian elimination (monomials are treated as independent unknowns unless
// a variable is solved for). It only ever answers "unsatisfiable"; everything
// else is left to the solver.

type fmono struct {
	vars []int // term ids, sorted, with repetition
	c    *big.Int
}
type fpoly map[string]fmono

func fkey(v []int) string {
	var sb strings.Builder
	for i, x := range v {
		if i > 0 {
			sb.WriteByte('*')
		}
		sb.WriteString(strconv.Itoa(x))
	}
	return sb.String()
}

func (p fpoly) add(v []int, c *big.Int) {
	k := fkey(v)
	m, ok := p[k]
	n := new(big.Int)
	if ok {
		n.Set(m.c)
	}
	n.Add(n, c)
	n.Mod(n, curveN)
	if n.Sign() == 0 {
		delete(p, k)
		return
	}
	p[k] = fmono{v, n}
}

func mergeInts(a, b []int) []int {
	r := append(append(make([]int, 0, len(a)+len(b)), a...), b...)
	sort.Ints(r)
	return r
}

func fmul(a, b fpoly) fpoly {
	r := fpoly{}
	for _, x := range a {
		for _, y := range b {
			r.add(mergeInts(x.vars, y.vars), new(big.Int).Mul(x.c, y.c))
		}
	}
	return r
}

type fieldSolver struct {
	c     *Ctx
	vars  map[int]*Term
	nodes int
	max   int
	polys map[int]fpoly // poly of term modulo N
	leaf  *fstate       // a state the procedure could not refute
	deep  bool          // combine nonlinear equations at the leaves
}

func (f *fieldSolver) poly(ms []Mono, depth int) fpoly {
	r := fpoly{}
	for _, m := range ms {
		acc := fpoly{"": {nil, new(big.Int).Mod(m.c, curveN)}}
		if m.c.Sign() == 0 || acc[""].c.Sign() == 0 {
			continue
		}
		for _, v := range m.v {
			acc = fmul(acc, f.varPoly(v, depth))
		}
		for _, x := range acc {
			r.add(x.vars, x.c)
		}
	}
	return r
}

func (f *fieldSolver) varPoly(v *Term, depth int) fpoly {
	if p, ok := f.polys[v.id]; ok {
		return p
	}
	var p fpoly
	if v.op == OMod && v.c.Cmp(curveN) == 0 && depth < 40 {
		p = f.poly(polyOf(v.args[0]), depth+1)
	} else if v.op == OPoly {
		p = f.poly(v.mons, depth+1)
	} else if v.op == OConst {
		p = fpoly{}
		p.add(nil, v.c)
	} else {
		f.vars[v.id] = v
		p = fpoly{}
		p.add([]int{v.id}, bigOne)
	}
	f.polys[v.id] = p
	return p
}

// atom interprets an atom: eq says positive literal means p=0 (else p!=0);
// pos/neg say whether the positive/negative literal carries information.
func (f *fieldSolver) atom(t *Term) (p fpoly, eq, pos, neg bool) {
	switch t.op {
	case OEq0:
		lo, hi := polyInterval(t.mons)
		exact := lo != nil && hi != nil && lo.CmpAbs(curveN) < 0 && hi.CmpAbs(curveN) < 0
		return f.poly(t.mons, 0), true, true, exact
	case OLe0:
		// 1 <= v with v in [0,N-1]
		var v *Term
		ok := true
		for _, m := range t.mons {
			if len(m.v) == 0 {
				ok = ok && m.c.Cmp(bigOne) == 0
			} else if len(m.v) == 1 && v == nil && m.c.Cmp(big.NewInt(-1)) == 0 {
				v = m.v[0]
			} else {
				ok = false
			}
		}
		if ok && v != nil && len(t.mons) == 2 && v.lo != nil && v.lo.Sign() >= 0 && v.hi != nil && v.hi.Cmp(curveN) < 0 {
			return f.varPoly(v, 0), false, true, true
		}
	}
	return nil, false, false, false
}

type frow struct {
	lead   string
	single int // variable solved for, 0 if the lead is a product
	p      fpoly
}

type fstate struct {
	asg  map[int]bool
	rows []frow
	dis  []fpoly
}

func (s *fstate) clone() *fstate {
	n := &fstate{asg: make(map[int]bool, len(s.asg)+4)}
	for k, v := range s.asg {
		n.asg[k] = v
	}
	n.rows = append([]frow(nil), s.rows...)
	n.dis = append([]fpoly(nil), s.dis...)
	return n
}

func applyRow(p fpoly, r frow) (fpoly, bool) {
	if r.single != 0 {
		hit := false
		for _, m := range p {
			for _, v := range m.vars {
				if v == r.single {
					hit = true
				}
			}
		}
		if !hit {
			return p, false
		}
		// v = -(rest)
		expr := fpoly{}
		for k, m := range r.p {
			if k != r.lead {
				expr.add(m.vars, new(big.Int).Neg(m.c))
			}
		}
		out := fpoly{}
		for _, m := range p {
			acc := fpoly{}
			acc.add(nil, m.c)
			var rest []int
			for _, v := range m.vars {
				if v == r.single {
					acc = fmul(acc, expr)
				} else {
					rest = append(rest, v)
				}
			}
			for _, x := range acc {
				out.add(mergeInts(x.vars, rest), x.c)
			}
		}
		return out, true
	}
	m, ok := p[r.lead]
	if !ok {
		return p, false
	}
	out := fpoly{}
	for k, x := range p {
		out[k] = x
	}
	for _, x := range r.p {
		out.add(x.vars, new(big.Int).Neg(new(big.Int).Mul(x.c, m.c)))
	}
	return out, true
}

func (f *fieldSolver) reduce(s *fstate, p fpoly) fpoly {
	for iter := 0; iter < 60; iter++ {
		ch := false
		for _, r := range s.rows {
			q, c := applyRow(p, r)
			if c {
				p, ch = q, true
				if len(p) > 400 {
					return p
				}
			}
		}
		if !ch {
			break
		}
	}
	return p
}

func (f *fieldSolver) nonzeroVar(s *fstate, id int) bool {
	v := f.vars[id]
	if v != nil && v.lo != nil && v.lo.Sign() > 0 && v.hi != nil && v.hi.Cmp(curveN) < 0 {
		return true
	}
	for _, d := range s.dis {
		if len(d) == 1 {
			for _, m := range d {
				if len(m.vars) >= 1 {
					for _, x := range m.vars {
						if x == id {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// fless is a monomial order (graded, then lexicographic).
func fless(a, b []int) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] > b[i]
		}
	}
	return false
}

func (p fpoly) lead() (fmono, bool) {
	var best fmono
	ok := false
	for _, m := range p {
		if !ok || fless(best.vars, m.vars) {
			best, ok = m, true
		}
	}
	return best, ok
}

// fquot is a/b for sorted lists.
func fquot(a, b []int) ([]int, bool) {
	var out []int
	j := 0
	for _, x := range a {
		if j < len(b) && b[j] == x {
			j++
			continue
		}
		out = append(out, x)
	}
	return out, j == len(b)
}

// fdiv divides p by d exactly.
func fdiv(p, d fpoly) (fpoly, bool) {
	ld, ok := d.lead()
	if !ok || len(ld.vars) == 0 {
		return nil, false
	}
	if lp, _ := p.lead(); len(lp.vars) < len(ld.vars) {
		return nil, false
	}
	inv := new(big.Int).ModInverse(ld.c, curveN)
	rem := fpoly{}
	for k, x := range p {
		rem[k] = x
	}
	q := fpoly{}
	for n := 0; len(rem) > 0; n++ {
		if n > 200 {
			return nil, false
		}
		lr, _ := rem.lead()
		v, ok := fquot(lr.vars, ld.vars)
		if !ok {
			return nil, false
		}
		k := new(big.Int).Mul(lr.c, inv)
		k.Mod(k, curveN)
		q.add(v, k)
		nk := new(big.Int).Neg(k)
		for _, x := range d {
			rem.add(mergeInts(x.vars, v), new(big.Int).Mul(x.c, nk))
		}
	}
	return q, true
}

// strip removes factors of p that are known not to vanish.
func (f *fieldSolver) strip(s *fstate, p fpoly) fpoly {
	for again := true; again && len(p) > 0; {
		again = false
		for _, d := range s.dis {
			if q, ok := fdiv(p, d); ok {
				p, again = q, true
			}
		}
	}
	return p
}

// addEq returns false on contradiction.
func (f *fieldSolver) addEq(s *fstate, p fpoly) bool {
	p = f.strip(s, f.reduce(s, p))
	if len(p) == 0 {
		return true
	}
	if len(p) == 1 {
		for _, m := range p {
			if len(m.vars) == 0 {
				return false
			}
			// a product vanishes only if a factor does
			var cand []int
			for _, v := range m.vars {
				if !f.nonzeroVar(s, v) && (len(cand) == 0 || cand[len(cand)-1] != v) {
					cand = append(cand, v)
				}
			}
			if len(cand) == 0 {
				return false
			}
			if len(cand) == 1 {
				p = fpoly{}
				p.add([]int{cand[0]}, bigOne)
			}
		}
	}
	// divide by common nonzero factors
	if q := f.divCommon(s, p); q != nil {
		return f.addEq(s, q)
	}
	// choose the lead: a variable that occurs once, linearly
	cnt := map[int]int{}
	for _, m := range p {
		for _, v := range m.vars {
			cnt[v]++
		}
	}
	var keys []string
	for k := range p {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		a, b := p[keys[i]], p[keys[j]]
		if len(a.vars) != len(b.vars) {
			return len(a.vars) > len(b.vars)
		}
		return keys[i] > keys[j]
	})
	row := frow{}
	for _, k := range keys {
		m := p[k]
		if len(m.vars) == 1 && cnt[m.vars[0]] == 1 {
			row.lead, row.single = k, m.vars[0]
			break
		}
	}
	if row.single == 0 {
		best := keys[0]
		for _, k := range keys {
			if fless(p[best].vars, p[k].vars) {
				best = k
			}
		}
		row.lead = best
	}
	inv := new(big.Int).ModInverse(p[row.lead].c, curveN)
	row.p = fpoly{}
	for _, m := range p {
		row.p.add(m.vars, new(big.Int).Mul(m.c, inv))
	}
	// re-reduce the older rows
	old := s.rows
	s.rows = []frow{row}
	for _, r := range old {
		q, ch := applyRow(r.p, row)
		if !ch {
			s.rows = append(s.rows, r)
			continue
		}
		if !f.addEq(s, q) {
			return false
		}
	}
	for i, d := range s.dis {
		s.dis[i] = f.reduce(s, d)
		if len(s.dis[i]) == 0 {
			return false
		}
	}
	return true
}

// mreduce eliminates multiples of the leading monomials of the rows.
func mreduce(p fpoly, rows []fpoly) fpoly {
	for n := 0; n < 300; n++ {
		var best fmono
		var by fpoly
		var bv []int
		for _, m := range p {
			for _, r := range rows {
				l, ok := r.lead()
				if !ok || len(l.vars) == 0 {
					continue
				}
				if q, ok := fquot(m.vars, l.vars); ok && (by == nil || fless(best.vars, m.vars)) {
					best, by, bv = m, r, q
				}
			}
		}
		if by == nil {
			return p
		}
		l, _ := by.lead()
		k := new(big.Int).Mul(best.c, new(big.Int).ModInverse(l.c, curveN))
		k.Neg(k)
		out := fpoly{}
		for _, m := range p {
			out.add(m.vars, m.c)
		}
		for _, m := range by {
			out.add(mergeInts(m.vars, bv), new(big.Int).Mul(m.c, k))
		}
		p = out
		if len(p) > 200 {
			return p
		}
	}
	return p
}

// saturate adds combinations of the nonlinear equations; false on contradiction.
func (f *fieldSolver) saturate(s *fstate) bool {
	for round := 0; round < 40; round++ {
		if os.Getenv("VSAT") != "" {
			for _, r := range s.rows {
				fmt.Fprintln(os.Stderr, "ROW", r.single, f.show(r.p))
			}
			for _, r := range s.dis {
				fmt.Fprintln(os.Stderr, "DIS", f.show(r))
			}
			fmt.Fprintln(os.Stderr, "----")
		}
		if !f.again(s) {
			return false
		}
		var rows []fpoly
		for _, r := range s.rows {
			if r.single == 0 {
				rows = append(rows, r.p)
			}
		}
		added := false
	pairs:
		for i := range rows {
			for j := i + 1; j < len(rows); j++ {
				a, _ := rows[i].lead()
				b, _ := rows[j].lead()
				qa := fminus(b.vars, a.vars) // lcm/a
				qb := fminus(a.vars, b.vars)
				if len(qa) == len(b.vars) {
					continue // nothing in common
				}
				sp := fpoly{}
				for _, m := range rows[i] {
					sp.add(mergeInts(m.vars, qa), new(big.Int).Mul(m.c, b.c))
				}
				nc := new(big.Int).Neg(a.c)
				for _, m := range rows[j] {
					sp.add(mergeInts(m.vars, qb), new(big.Int).Mul(m.c, nc))
				}
				for k := 0; k < 8; k++ {
					n := len(sp)
					sp = f.reduce(s, mreduce(f.strip(s, sp), rows))
					if len(sp) == n {
						break
					}
				}
				if os.Getenv("VSAT") != "" {
					fmt.Fprintln(os.Stderr, "PAIR", f.show(rows[i]), " | ", f.show(rows[j]), " => ", f.show(sp))
				}
				if len(sp) == 0 || len(sp) > 60 {
					continue
				}
				if l, _ := sp.lead(); len(l.vars) > 8 {
					continue
				}
				if !f.addEq(s, sp) {
					return false
				}
				added = true
				break pairs
			}
		}
		if !added {
			return true
		}
	}
	return true
}

func (f *fieldSolver) show(p fpoly) string {
	var sb strings.Builder
	for _, m := range p {
		c := m.c
		if c.BitLen() > 250 {
			c = new(big.Int).Sub(c, curveN)
		}
		fmt.Fprintf(&sb, " + %v", c)
		for _, v := range m.vars {
			if t := f.vars[v]; t != nil {
				fmt.Fprintf(&sb, "*%v", t)
			} else {
				fmt.Fprintf(&sb, "*?%d", v)
			}
		}
	}
	return sb.String()
}

// fminus is a without the elements of b (sorted lists).
func fminus(a, b []int) []int {
	var out []int
	j := 0
	for _, x := range a {
		for j < len(b) && b[j] < x {
			j++
		}
		if j < len(b) && b[j] == x {
			j++
			continue
		}
		out = append(out, x)
	}
	return out
}

func (f *fieldSolver) divCommon(s *fstate, p fpoly) fpoly {
	if len(p) < 2 {
		return nil
	}
	var common []int
	first := true
	for _, m := range p {
		if first {
			common = append([]int(nil), m.vars...)
			first = false
			continue
		}
		var nc []int
		i, j := 0, 0
		for i < len(common) && j < len(m.vars) {
			switch {
			case common[i] == m.vars[j]:
				nc = append(nc, common[i])
				i++
				j++
			case common[i] < m.vars[j]:
				i++
			default:
				j++
			}
		}
		common = nc
		if len(common) == 0 {
			return nil
		}
	}
	for _, v := range common {
		if !f.nonzeroVar(s, v) {
			continue
		}
		out := fpoly{}
		for _, m := range p {
			var vs []int
			done := false
			for _, x := range m.vars {
				if x == v && !done {
					done = true
					continue
				}
				vs = append(vs, x)
			}
			out.add(vs, m.c)
		}
		return out
	}
	return nil
}

func (f *fieldSolver) addNe(s *fstate, p fpoly) bool {
	p = f.reduce(s, p)
	if len(p) == 0 {
		return false
	}
	if len(p) == 1 && p[""].c != nil {
		return true
	}
	s.dis = append(s.dis, p)
	return f.again(s)
}

// again looks for factors of the equations that are now known not to vanish.
func (f *fieldSolver) again(s *fstate) bool {
	old := s.rows
	s.rows = nil
	var again []fpoly
	for _, r := range old {
		if r.single != 0 {
			s.rows = append(s.rows, r)
			continue
		}
		again = append(again, r.p)
	}
	for _, q := range again {
		if !f.addEq(s, q) {
			return false
		}
	}
	return true
}

// lit asserts an atom with a sign; false on contradiction.
func (f *fieldSolver) lit(s *fstate, t *Term, v bool) bool {
	if old, ok := s.asg[t.id]; ok {
		return old == v
	}
	s.asg[t.id] = v
	p, eq, pos, neg := f.atom(t)
	if p == nil {
		return true
	}
	if v && pos || !v && neg {
		if eq == v {
			return f.addEq(s, p)
		}
		return f.addNe(s, p)
	}
	return true
}

// val evaluates an atom in the state: 1 true, -1 false, 0 open.
func (f *fieldSolver) val(s *fstate, t *Term) int {
	if v, ok := s.asg[t.id]; ok {
		if v {
			return 1
		}
		return -1
	}
	p, eq, pos, neg := f.atom(t)
	if p == nil {
		return 0
	}
	q := f.reduce(s, p)
	r := 0
	if len(q) > 0 {
		q = f.strip(s, q)
	}
	if len(q) == 0 {
		r = 1 // p = 0
	} else if len(q) == 1 {
		for _, m := range q {
			nz := true
			for _, v := range m.vars {
				nz = nz && f.nonzeroVar(s, v)
			}
			if nz {
				r = -1
			}
		}
	}
	if r == 0 {
		for _, d := range s.dis {
			if fprop(d, q) {
				r = -1
				break
			}
		}
	}
	if !eq {
		r = -r
	}
	// p=0 implies the equation holds only if the atom is exact
	if eq && r == 1 && !neg || eq && r == -1 && !pos {
		return 0
	}
	return r
}

// fprop: q is a nonzero multiple of d.
func fprop(d, q fpoly) bool {
	if len(d) != len(q) || len(d) == 0 {
		return false
	}
	var k *big.Int
	for key, m := range d {
		x, ok := q[key]
		if !ok {
			return false
		}
		r := new(big.Int).Mul(x.c, new(big.Int).ModInverse(m.c, curveN))
		r.Mod(r, curveN)
		if k == nil {
			k = r
		} else if k.Cmp(r) != 0 {
			return false
		}
	}
	return true
}

// simp evaluates formula t with sign v: 1, -1 or 0 with the remaining literals.
func (f *fieldSolver) simp(s *fstate, t *Term, v bool) int {
	switch t.op {
	case OTrue, OFalse:
		if (t.op == OTrue) == v {
			return 1
		}
		return -1
	case ONot:
		return f.simp(s, t.args[0], !v)
	case OAnd, OOr:
		conj := (t.op == OAnd) == v
		open := false
		for _, a := range t.args {
			x := f.simp(s, a, v)
			if conj && x == -1 {
				return -1
			}
			if !conj && x == 1 {
				return 1
			}
			if x == 0 {
				open = true
			}
		}
		if open {
			return 0
		}
		if conj {
			return 1
		}
		return -1
	case OIte:
		return 0
	}
	r := f.val(s, t)
	if !v {
		r = -r
	}
	return r
}

type sform struct {
	t *Term
	v bool
}

// unsat reports whether the formulas are contradictory.
func (f *fieldSolver) unsat(s *fstate, fs []sform) bool {
	f.nodes++
	if f.nodes > f.max {
		if f.leaf == nil {
			f.leaf = s.clone()
		}
		return false
	}
	for {
		changed := false
		var rest []sform
		for i := 0; i < len(fs); i++ {
			x := fs[i]
			for x.t.op == ONot {
				x = sform{x.t.args[0], !x.v}
			}
			if x.t.op == OAnd && x.v || x.t.op == OOr && !x.v {
				for _, a := range x.t.args {
					fs = append(fs, sform{a, x.v})
				}
				continue
			}
			if x.t.op == OOr || x.t.op == OAnd {
				// disjunction
				var open []*Term
				sat := false
				for _, a := range x.t.args {
					switch f.simp(s, a, x.v) {
					case 1:
						sat = true
					case 0:
						open = append(open, a)
					}
				}
				if sat {
					continue
				}
				if len(open) == 0 {
					return true
				}
				if len(open) == 1 {
					fs = append(fs, sform{open[0], x.v})
					continue
				}
				rest = append(rest, x)
				continue
			}
			if x.t.op == OIte {
				continue
			}
			if x.t.IsTrue() || x.t.IsFalse() {
				if x.t.IsTrue() != x.v {
					return true
				}
				continue
			}
			if _, ok := s.asg[x.t.id]; !ok {
				changed = true
			}
			if !f.lit(s, x.t, x.v) {
				return true
			}
		}
		fs = rest
		if !changed {
			break
		}
	}
	if len(fs) == 0 {
		if f.leaf == nil {
			f.leaf = s.clone()
		}
		return f.deep && !f.saturate(s)
	}
	// branch on the smallest disjunction
	best, bn := -1, 1<<30
	for i, x := range fs {
		n := 0
		for _, a := range x.t.args {
			if f.simp(s, a, x.v) == 0 {
				n++
			}
		}
		if n < bn {
			best, bn = i, n
		}
	}
	x := fs[best]
	var open []*Term
	for _, a := range x.t.args {
		if f.simp(s, a, x.v) == 0 {
			open = append(open, a)
		}
	}
	rest := append(append([]sform(nil), fs[:best]...), fs[best+1:]...)
	for i, a := range open {
		n := s.clone()
		g := append(append([]sform(nil), rest...), sform{a, x.v})
		for _, b := range open[:i] {
			g = append(g, sform{b, !x.v})
		}
		if !f.unsat(n, g) {
			return false
		}
	}
	return true
}

// fieldUnsat tries to refute the path condition together with t.
func (r *Run) fieldUnsat(t *Term) bool {
	u, _ := r.fieldCheck(t)
	return u
}

func (r *Run) fieldCheck(t *Term) (bool, *fieldSolver) { return r.fieldCheckD(t, false) }

func (r *Run) fieldCheckD(t *Term, deep bool) (bool, *fieldSolver) {
	f := &fieldSolver{c: r.c, deep: deep, vars: map[int]*Term{}, polys: map[int]fpoly{}, max: 400}
	var fs []sform
	for _, p := range r.pcList {
		fs = append(fs, sform{p, true})
	}
	if t != nil {
		fs = append(fs, sform{t, true})
	}
	return f.unsat(&fstate{asg: map[int]bool{}}, fs), f
}
