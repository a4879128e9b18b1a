package main

import "math/big"

// Bounds of integer forms that follow from the path condition.

type formKey struct {
	q   int      // the form without constant, divided by its content
	neg int      // its negation
	g   *big.Int // content
	k   *big.Int // constant
}

func (r *Run) form(ms []Mono) (formKey, bool) {
	c := r.c
	f := formKey{k: bigZero, g: contentGCD(ms)}
	if f.g.Sign() == 0 {
		return f, false
	}
	p, n := newPolyB(), newPolyB()
	for _, m := range ms {
		if len(m.v) == 0 {
			f.k = m.c
			continue
		}
		x := new(big.Int).Quo(m.c, f.g)
		p.add(x, m.v)
		n.add(new(big.Int).Neg(x), m.v)
	}
	f.q, f.neg = c.fromMons(p.mons()).id, c.fromMons(n.mons()).id
	return f, true
}

func (r *Run) formOf(t *Term) (formKey, bool) {
	if f, ok := r.forms[t.id]; ok {
		return f, f.g != nil && f.g.Sign() != 0
	}
	ms := t.mons
	if t.op != OLe0 && t.op != OEq0 {
		ms = polyOf(t)
	}
	f, ok := r.form(ms)
	if r.forms == nil {
		r.forms = map[int]formKey{}
	}
	r.forms[t.id] = f
	return f, ok
}

// learnBounds records q <= b for a fact g*q+k <= 0 (or = 0).
func (r *Run) learnBounds(t *Term) {
	if t.op != OLe0 && t.op != OEq0 {
		return
	}
	f, ok := r.formOf(t)
	if !ok {
		return
	}
	if r.ub == nil {
		r.ub = map[int]*big.Int{}
	}
	set := func(q int, b *big.Int) {
		if o := r.ub[q]; o == nil || b.Cmp(o) < 0 {
			r.ub[q] = b
		}
	}
	set(f.q, floorDiv(new(big.Int).Neg(f.k), f.g))
	if t.op == OEq0 {
		set(f.neg, floorDiv(f.k, f.g))
	}
}

// formBounds returns bounds of g*q+k.
func (r *Run) formBounds(f formKey) (lo, hi *big.Int) {
	if b := r.ub[f.q]; b != nil {
		hi = new(big.Int).Mul(b, f.g)
		hi.Add(hi, f.k)
	}
	if b := r.ub[f.neg]; b != nil {
		lo = new(big.Int).Mul(b, f.g)
		lo.Sub(f.k, lo)
	}
	return
}

// boundsOf returns the bounds of an integer term that are known on this path.
func (r *Run) boundsOf(t *Term) (lo, hi *big.Int) {
	lo, hi = t.lo, t.hi
	if len(r.ub) == 0 || t.IsConst() {
		return
	}
	f, ok := r.formOf(t)
	if !ok {
		return
	}
	l, h := r.formBounds(f)
	if l != nil && (lo == nil || l.Cmp(lo) > 0) {
		lo = l
	}
	if h != nil && (hi == nil || h.Cmp(hi) < 0) {
		hi = h
	}
	return
}

// byBounds decides a comparison from known bounds.
func (r *Run) byBounds(t *Term) (bool, bool) {
	if len(r.ub) == 0 || t.op != OLe0 && t.op != OEq0 {
		return false, false
	}
	f, ok := r.formOf(t)
	if !ok {
		return false, false
	}
	lo, hi := r.formBounds(f)
	if t.op == OLe0 {
		if hi != nil && hi.Sign() <= 0 {
			return true, true
		}
		if lo != nil && lo.Sign() > 0 {
			return false, true
		}
		return false, false
	}
	if hi != nil && hi.Sign() < 0 || lo != nil && lo.Sign() > 0 {
		return false, true
	}
	if lo != nil && hi != nil && lo.Sign() == 0 && hi.Sign() == 0 {
		return true, true
	}
	return false, false
}
