package main

import "math/big"

// Generic inputs (zzsym.Generic): coincidences are excluded. A coincidence is
// an equation of values of the size of the field that does not hold for a
// witness, that is for inputs drawn at random; it holds for a negligible part
// of the inputs only. What a witness satisfies is decided as ever.

// thin tells that the condition confines a value of the size of the field.
func (r *Run) thin(t *Term) bool {
	switch t.op {
	case OEq0:
		for _, m := range t.mons {
			for _, a := range m.v {
				if r.wide(a) {
					return true
				}
			}
		}
		for _, a := range t.args {
			if r.wide(a) {
				return true
			}
		}
		return r.short(t)
	case OLe0:
		return r.short(t)
	case OAnd:
		for _, a := range t.args {
			if r.thin(a) {
				return true
			}
		}
	case OOr:
		for _, a := range t.args {
			if !r.thin(a) {
				return false
			}
		}
		return len(t.args) > 0
	}
	return false
}

// short tells that the condition is a bound or an equation for one value of
// the size of the field, or the length of some, that confines a value to fewer
// than 2^192 of the about 2^256.
func (r *Run) short(t *Term) bool {
	var k *big.Int
	var one *Term
	n := 0
	for _, m := range t.mons {
		if len(m.v) == 0 {
			k = m.c
			continue
		}
		if len(m.v) != 1 {
			return false
		}
		a := m.v[0]
		n++
		if a.op == OApp && a.name == "blen" && r.wide(a.args[0]) {
			if m.c.Sign() <= 0 && t.op != OEq0 {
				return false
			}
			continue
		}
		if !r.wide(a) || m.c.CmpAbs(big.NewInt(1)) != 0 {
			return false
		}
		one = a
		if m.c.Sign() < 0 {
			if t.op != OLe0 || a.hi == nil || k == nil {
				return false
			}
			// a >= k
			return new(big.Int).Sub(a.hi, k).BitLen() <= 192
		}
	}
	if n == 0 || k == nil {
		return false
	}
	if one != nil {
		return n == 1 && k.BitLen() <= 192
	}
	return k.CmpAbs(big.NewInt(24)) <= 0
}

func (r *Run) wide(a *Term) bool {
	switch a.op {
	case OPoly:
		for _, m := range a.mons {
			for _, x := range m.v {
				if r.wide(x) {
					return true
				}
			}
		}
		return false
	case OVar, OMod:
		return a.hi == nil || a.hi.BitLen() > 200
	case OApp:
		return a.name == "X" || a.name == "Y" || len(a.name) > 4 && a.name[:4] == "b2i|" && (a.hi == nil || a.hi.BitLen() > 200)
	}
	return false
}

// coincidence decides a condition that is, or whose negation is, a coincidence.
func (r *Run) coincidence(cond *Term) (val, ok bool) {
	neg := r.c.Not(cond)
	p, n := r.thin(cond), r.thin(neg)
	if p == n {
		return false, false
	}
	for _, w := range r.witnesses() {
		v, is := w.holds(cond)
		if !is || v == p {
			return false, false
		}
	}
	return n, true
}

// prints evaluates data that is made of constants and whole values of the size
// of the field, with their lengths, for the witnesses. Data of this kind that
// is different for all of them is equal by coincidence only.
func (r *Run) prints(p Rope) (w []string, ok bool) {
	if !r.generic {
		return nil, false
	}
	whole := map[int]bool{}
	for _, s := range p {
		zero := s.off == nil || s.off.IsConst() && s.off.c.Sign() == 0
		switch s.k {
		case sBig:
			if zero && r.wide(s.v) && s.ln == r.c.BLen(s.v) {
				whole[s.v.id] = true
			}
		case sFixBE, sFixLE:
			if zero && s.n > 24 && r.wide(s.v) && s.ln.IsConst() && s.ln.c.Int64() == s.n {
				whole[s.v.id] = true
			}
		}
	}
	var lens func(t *Term) bool
	lens = func(t *Term) bool {
		switch t.op {
		case OConst:
			return true
		case OPoly:
			for _, m := range t.mons {
				for _, a := range m.v {
					if !lens(a) {
						return false
					}
				}
			}
			return true
		case OApp:
			return t.name == "blen" && whole[t.args[0].id]
		}
		return false
	}
	for _, s := range p {
		if s.off != nil && !s.off.IsConst() || !lens(s.ln) {
			return nil, false
		}
		switch s.k {
		case sConst, sZero:
		case sIn:
			if !s.ln.IsConst() || s.ln.c.Int64() <= 24 || len(s.id) < 5 || s.id[:5] != "hash:" {
				return nil, false
			}
		default:
			if !whole[s.v.id] && !lens(s.v) {
				return nil, false
			}
		}
	}
	for _, g := range r.witnesses() {
		b, is := g.data(p)
		if !is {
			return nil, false
		}
		w = append(w, string(b))
	}
	return w, true
}

func (e *env) data(p Rope) (b []byte, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(evalFail); is {
				e.busy = map[int]bool{}
				return
			}
			panic(x)
		}
	}()
	e.n = 0
	return e.rope(p), true
}

func (r *Run) witnesses() []*env {
	if r.gens == nil {
		r.gens = []*env{r.newEnv(nil, nil, 4, true), r.newEnv(nil, nil, 8, true)}
	}
	return r.gens
}

func differ(a, b []string) bool {
	for i := range a {
		if a[i] == b[i] {
			return false
		}
	}
	return true
}
