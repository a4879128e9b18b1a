package main

import "math/big"

// Facts of the path condition that determine the value of an atom; they are
// used to keep the lengths and offsets of byte ropes simple.

func (r *Run) learn(t *Term) {
	if t.op != OEq0 && t.op != OLe0 || len(t.mons) > 9 {
		return
	}
	for _, m := range t.mons {
		if len(m.v) > 1 {
			return
		}
	}
	if t.op == OEq0 {
		r.addEq(t.mons)
	} else {
		for _, f := range r.linFacts {
			if f.op == OLe0 && opposite(f.mons, t.mons) {
				r.addEq(t.mons)
				break
			}
		}
	}
	r.linFacts = append(r.linFacts, t)
	if r.pinFrom(t) || r.pinEqs() {
		for again := true; again; {
			again = false
			for _, f := range r.linFacts {
				if r.pinFrom(f) {
					again = true
				}
			}
			if r.pinEqs() {
				again = true
			}
		}
	}
}

func (r *Run) pinOf(a *Term) *big.Int {
	if v, ok := r.pins[a.id]; ok {
		return v
	}
	if a.op == OApp && a.name == "blen" {
		if v, ok := r.pins[a.args[0].id]; ok {
			return big.NewInt(int64((new(big.Int).Abs(v).BitLen() + 7) / 8))
		}
	}
	return nil
}

// pinFrom derives values of atoms from one linear fact.
func (r *Run) pinFrom(t *Term) bool {
	return r.pinForm(t.mons, t.op == OEq0)
}

func (r *Run) pinEqs() bool {
	found := false
	for _, e := range r.eqs {
		if r.pinForm(e, true) {
			found = true
		}
	}
	return found
}

func (r *Run) pinForm(mons []Mono, eq bool) bool {
	k := new(big.Int)
	var open []Mono
	for _, m := range mons {
		if len(m.v) == 0 {
			k.Add(k, m.c)
		} else if v := r.pinOf(m.v[0]); v != nil {
			k.Add(k, new(big.Int).Mul(v, m.c))
		} else {
			open = append(open, m)
		}
	}
	if len(open) == 0 {
		return false
	}
	pin := func(a *Term, v *big.Int) {
		if r.pins == nil {
			r.pins = map[int]*big.Int{}
		}
		r.pins[a.id] = v
	}
	if eq && len(open) == 1 {
		q, rem := new(big.Int).QuoRem(new(big.Int).Neg(k), open[0].c, new(big.Int))
		if rem.Sign() == 0 {
			pin(open[0].v[0], q)
			return true
		}
		return false
	}
	// sum of c*a + k <= 0 with every term at its least possible value
	least := new(big.Int).Set(k)
	vals := make([]*big.Int, len(open))
	for i, m := range open {
		a := m.v[0]
		b := a.lo
		if m.c.Sign() < 0 {
			b = a.hi
		}
		if b == nil {
			return false
		}
		vals[i] = b
		least.Add(least, new(big.Int).Mul(b, m.c))
	}
	if least.Sign() != 0 {
		return false
	}
	for i, m := range open {
		pin(m.v[0], vals[i])
	}
	return true
}

// opposite reports that the forms add up to zero.
func opposite(a, b []Mono) bool {
	if len(a) != len(b) {
		return false
	}
	p := newPolyB()
	for _, m := range a {
		p.add(m.c, m.v)
	}
	for _, m := range b {
		p.add(m.c, m.v)
	}
	return len(p.mons()) == 0
}

// An eqDef defines an input by other atoms: pivot = def.
type eqDef struct {
	pivot *Term
	def   []Mono
}

// substDefs replaces defined inputs in a linear form.
func substDefs(ms []Mono, defs []eqDef) ([]Mono, bool) {
	changed := false
	p := newPolyB()
next:
	for _, m := range ms {
		if len(m.v) == 1 && m.v[0].op == OVar {
			for _, d := range defs {
				if d.pivot == m.v[0] {
					for _, e := range d.def {
						p.add(new(big.Int).Mul(m.c, e.c), e.v)
					}
					changed = true
					continue next
				}
			}
		}
		p.add(m.c, m.v)
	}
	if !changed {
		return ms, false
	}
	return p.mons(), true
}

// addEq records that a linear form is zero and keeps the definitions solved.
func (r *Run) addEq(ms []Mono) {
	r.eqs = append(r.eqs, ms)
	ms, _ = substDefs(ms, r.defs)
	for _, m := range ms {
		if len(m.v) != 1 || m.v[0].op != OVar || !m.c.IsInt64() || m.c.Int64() != 1 && m.c.Int64() != -1 {
			continue
		}
		p := newPolyB()
		for _, e := range ms {
			if len(e.v) == 1 && e.v[0] == m.v[0] {
				continue
			}
			// c*pivot + rest = 0, c is 1 or -1
			p.add(new(big.Int).Neg(new(big.Int).Mul(m.c, e.c)), e.v)
		}
		d := eqDef{m.v[0], p.mons()}
		one := []eqDef{d}
		for i := range r.defs {
			r.defs[i].def, _ = substDefs(r.defs[i].def, one)
		}
		r.defs = append(r.defs, d)
		return
	}
}

// simp replaces atoms with determined values in a linear term.
func (r *Run) simp(t *Term) *Term {
	if t.IsConst() {
		return t
	}
	t = r.simpPins(t)
	if len(r.defs) == 0 || t.IsConst() {
		return t
	}
	if ms, ok := substDefs(polyOf(t), r.defs); ok {
		return r.simpPins(r.c.fromMons(ms))
	}
	return t
}

func (r *Run) simpPins(t *Term) *Term {
	if len(r.pins) == 0 || t.IsConst() {
		return t
	}
	ms := polyOf(t)
	found := false
	for _, m := range ms {
		if len(m.v) == 1 && r.pinOf(m.v[0]) != nil {
			found = true
		}
	}
	if !found {
		return t
	}
	p := newPolyB()
	for _, m := range ms {
		if len(m.v) == 1 {
			if v := r.pinOf(m.v[0]); v != nil {
				p.add(new(big.Int).Mul(v, m.c), nil)
				continue
			}
		}
		p.add(m.c, m.v)
	}
	return r.c.fromMons(p.mons())
}

func (r *Run) simpRope(p Rope) Rope {
	if len(r.pins) == 0 && len(r.defs) == 0 {
		return p
	}
	var out Rope
	changed := false
	for i, s := range p {
		n := s
		if s.off != nil {
			n.off = r.simp(s.off)
		}
		n.ln = r.simp(s.ln)
		if n.off == s.off && n.ln == s.ln {
			if changed {
				out = append(out, s)
			}
			continue
		}
		if !changed {
			out = append(out, p[:i]...)
			changed = true
		}
		if n.ln.IsConst() && n.ln.c.Sign() == 0 {
			continue
		}
		if s.k == sBig && s.full(r.c) && n.ln.IsConst() && n.ln.c.IsInt64() && s.v.lo != nil && s.v.lo.Sign() >= 0 {
			out = append(out, r.rFix(s.v, n.ln.c.Int64(), false)...)
			continue
		}
		out = append(out, n)
	}
	if !changed {
		return p
	}
	return r.rCat(out)
}
