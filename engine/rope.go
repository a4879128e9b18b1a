package main

import (
	"fmt"
	"math/big"
	"strings"
)

// A Rope is an immutable sequence of byte segments with symbolic lengths.

type segKind uint8

const (
	sConst segKind = iota // b[off:off+ln], off and ln constant
	sZero                 // ln zero bytes
	sBig                  // big-endian minimal encoding of v (length blen(v)), range [off,off+ln)
	sFixBE                // n-byte big-endian encoding of v
	sFixLE
	sByte // the single byte v
	sIn   // opaque bytes id[off:off+ln]
)

type Seg struct {
	k       segKind
	b       []byte
	v       *Term
	n       int64
	id      string
	off, ln *Term
}

type Rope []Seg

func (r *Run) rConst(b []byte) Rope {
	if len(b) == 0 {
		return nil
	}
	return Rope{{k: sConst, b: b, off: r.c.I(0), ln: r.c.I(int64(len(b)))}}
}
func (r *Run) rZero(n *Term) Rope {
	if n.IsConst() && n.c.Sign() == 0 {
		return nil
	}
	return Rope{{k: sZero, ln: n, off: r.c.I(0)}}
}
func (r *Run) rBig(v *Term) Rope {
	if v.IsConst() {
		return r.rConst(new(big.Int).Abs(v.c).Bytes())
	}
	return Rope{{k: sBig, v: v, off: r.c.I(0), ln: r.c.BLen(v)}}
}
func (r *Run) rFix(v *Term, n int64, le bool) Rope {
	if v.IsConst() {
		b := v.c.FillBytes(make([]byte, n))
		if le {
			for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
				b[i], b[j] = b[j], b[i]
			}
		}
		return r.rConst(b)
	}
	k := sFixBE
	if le {
		k = sFixLE
	}
	if n == 1 {
		k = sByte
	}
	return Rope{{k: k, v: v, n: n, off: r.c.I(0), ln: r.c.I(n)}}
}
func (r *Run) rByte(v *Term) Rope { return r.rFix(v, 1, false) }
func (r *Run) rIn(id string, off, ln *Term) Rope {
	return Rope{{k: sIn, id: id, off: off, ln: ln}}
}

func (r *Run) ropeLen(p Rope) *Term {
	ts := make([]*Term, len(p))
	for i := range p {
		ts[i] = p[i].ln
	}
	return r.c.Add(ts...)
}

func sameSrc(a, b *Seg) bool {
	if a.k != b.k {
		return false
	}
	switch a.k {
	case sBig:
		return a.v == b.v
	case sFixBE, sFixLE:
		return a.v == b.v && a.n == b.n
	case sIn:
		return a.id == b.id
	}
	return false
}

func (r *Run) rCat(ps ...Rope) Rope {
	var out Rope
	for _, p := range ps {
		for _, s := range p {
			if s.ln.IsConst() && s.ln.c.Sign() == 0 {
				continue
			}
			if len(out) > 0 {
				l := &out[len(out)-1]
				if l.k == sConst && s.k == sConst {
					nb := make([]byte, 0, len(l.b)+len(s.b))
					nb = append(append(nb, l.b...), s.b...)
					out[len(out)-1] = Seg{k: sConst, b: nb, off: r.c.I(0), ln: r.c.I(int64(len(nb)))}
					continue
				}
				if l.k == sZero && s.k == sZero {
					out[len(out)-1] = Seg{k: sZero, off: r.c.I(0), ln: r.c.Add(l.ln, s.ln)}
					continue
				}
				if sameSrc(l, &s) && r.c.Add(l.off, l.ln) == s.off {
					m := *l
					m.ln = r.c.Add(l.ln, s.ln)
					out[len(out)-1] = m
					if m.k == sBig && m.off.IsConst() && m.off.c.Sign() == 0 && m.ln == r.c.BLen(m.v) {
						out = r.mergeZB(out)
					}
					continue
				}
			}
			out = append(out, s)
			if s.k == sBig {
				out = r.mergeZB(out)
			}
		}
	}
	return out
}

// mergeZB turns Zero(n-blen(v)) ++ Big(v) into an n-byte fixed encoding.
func (r *Run) mergeZB(out Rope) Rope {
	n := len(out)
	if n < 2 {
		return out
	}
	s, z := out[n-1], out[n-2]
	if s.k != sBig || s.off != r.c.I(0) || s.ln != r.c.BLen(s.v) {
		return out
	}
	if z.k == sConst {
		all := true
		for _, x := range z.b {
			all = all && x == 0
		}
		if !all {
			return out
		}
	} else if z.k != sZero {
		return out
	}
	tot := r.c.Add(z.ln, s.ln)
	if tot.IsConst() && tot.c.IsInt64() && s.v.lo != nil && s.v.lo.Sign() >= 0 {
		f := r.rFix(s.v, tot.c.Int64(), false)
		return append(append(Rope{}, out[:n-2]...), f...)
	}
	return out
}

func (r *Run) segSlice(s Seg, lo, ln *Term) Rope {
	if ln.IsConst() && ln.c.Sign() == 0 {
		return nil
	}
	if s.k == sConst {
		if lo.IsConst() && ln.IsConst() {
			a := lo.c.Int64()
			return r.rConst(s.b[a : a+ln.c.Int64()])
		}
		all := true
		for _, x := range s.b {
			all = all && x == 0
		}
		if all {
			return r.rZero(ln)
		}
		// symbolic slice of constant bytes: concretise
		a := r.concInt(lo, "slice of constant bytes")
		l := r.concInt(ln, "slice of constant bytes")
		return r.rConst(s.b[a : a+l])
	}
	if s.k == sZero {
		return r.rZero(ln)
	}
	if s.k == sByte {
		return Rope{s}
	}
	n := s
	n.off = r.c.Add(s.off, lo)
	n.ln = ln
	return Rope{n}
}

// rSlice returns p[lo:lo+ln]; the range is known to be within the rope.
// sliceEnd is where a slice of a rope ended: in segment i, at lo of it.
type sliceEnd struct {
	p   Rope
	end *Term
	i   int
	lo  *Term
}

func (r *Run) rSlice(p Rope, lo, ln *Term) Rope {
	c := r.c
	p, lo, ln = r.simpRope(p), r.simp(lo), r.simp(ln)
	if ln.IsConst() && ln.c.Sign() == 0 {
		return nil
	}
	var out []Rope
	i := 0
	end := c.Add(lo, ln)
	whole := p
	if len(p) > 8 {
		// where an earlier slice ended
		for _, s := range r.sliced {
			if s.end == lo && len(s.p) == len(p) && &s.p[0] == &p[0] {
				i, lo = s.i, s.lo
				break
			}
		}
	}
	// skip
	for i < len(p) {
		if lo.IsConst() && lo.c.Sign() == 0 {
			break
		}
		if r.branch(c.Le(p[i].ln, lo)) {
			lo = c.Sub(lo, p[i].ln)
			i++
			continue
		}
		break
	}
	rem := ln
	for i < len(p) {
		if rem.IsConst() && rem.c.Sign() == 0 {
			break
		}
		avail := c.Sub(p[i].ln, lo)
		if r.branch(c.Le(rem, avail)) {
			out = append(out, r.segSlice(p[i], lo, rem))
			if len(whole) > 8 {
				r.sliced[r.nsliced%len(r.sliced)] = sliceEnd{whole, end, i, c.Add(lo, rem)}
				r.nsliced++
			}
			rem = c.I(0)
			break
		}
		out = append(out, r.segSlice(p[i], lo, avail))
		rem = c.Sub(rem, avail)
		lo = c.I(0)
		i++
	}
	if !(rem.IsConst() && rem.c.Sign() == 0) {
		if r.branch(c.Le(rem, c.I(0))) {
			return r.rCat(out...)
		}
		r.incomplete("rope slice past end")
	}
	return r.rCat(out...)
}

// rSplice overwrites [off, off+len(q)) of p by q.
func (r *Run) rSplice(p Rope, total, off *Term, q Rope) Rope {
	c := r.c
	ql := r.ropeLen(q)
	if ql.IsConst() && ql.c.Sign() == 0 {
		return p
	}
	a := r.rSlice(p, c.I(0), off)
	e := c.Add(off, ql)
	b := r.rSlice(p, e, c.Sub(total, e))
	return r.rCat(a, q, b)
}

func (r *Run) byteOfFix(v *Term, shift int64) *Term {
	return r.c.Mod(r.c.Div(v, pow2(uint(8*shift))), big.NewInt(256))
}

// segByte is the byte of segment s at (relative) index i.
func (r *Run) segByte(s Seg, i *Term) *Term {
	c := r.c
	idx := c.Add(s.off, i)
	switch s.k {
	case sConst:
		k := r.concInt(i, "index of constant bytes")
		return c.I(int64(s.b[k]))
	case sZero:
		return c.I(0)
	case sByte:
		return s.v
	case sFixBE, sFixLE:
		k := r.concInt(idx, "index of fixed-width integer")
		if s.k == sFixBE {
			k = s.n - 1 - k
		}
		return r.byteOfFix(s.v, k)
	case sBig:
		// exact when blen(v) is constant under the path condition
		bl := c.BLen(s.v)
		if bl.IsConst() && idx.IsConst() {
			return r.byteOfFix(s.v, bl.c.Int64()-1-idx.c.Int64())
		}
		d := c.Sub(c.Sub(bl, c.I(1)), idx)
		if d.IsConst() && d.c.Sign() >= 0 && d.c.IsInt64() {
			return r.byteOfFix(s.v, d.c.Int64())
		}
		return c.App("bigbyte", bigZero, big.NewInt(255), s.v, idx)
	case sIn:
		return c.App("byte|"+s.id, bigZero, big.NewInt(255), idx)
	}
	panic("segByte")
}

func (r *Run) rIndex(p Rope, i *Term) *Term {
	q := r.rSlice(p, i, r.c.I(1))
	for _, s := range q {
		if s.ln.IsConst() && s.ln.c.Sign() == 0 {
			continue
		}
		return r.segByte(s, r.c.I(0))
	}
	r.incomplete("rope index")
	return nil
}

// rToBE interprets the rope as a big-endian unsigned integer.
func (r *Run) rToBE(p Rope) *Term {
	c := r.c
	val := c.I(0)
	for _, s := range r.simpRope(p) {
		if s.k == sZero && val == c.I(0) {
			continue
		}
		var v *Term
		switch s.k {
		case sConst:
			v = c.Const(new(big.Int).SetBytes(s.b))
		case sZero:
			v = c.I(0)
		case sByte:
			v = s.v
		case sFixBE:
			full := s.off.IsConst() && s.ln.IsConst()
			if full && s.off.c.Sign() == 0 && s.ln.c.Int64() == s.n {
				v = s.v
			} else if full {
				tail := s.n - s.off.c.Int64() - s.ln.c.Int64()
				v = c.Mod(c.Div(s.v, pow2(uint(8*tail))), pow2(uint(8*s.ln.c.Int64())))
			} else {
				v = c.App("fixslice", bigZero, nil, s.v, c.I(s.n), s.off, s.ln)
			}
		case sFixLE:
			n := r.concInt(s.ln, "little-endian slice")
			v = c.I(0)
			for i := int64(0); i < n; i++ {
				v = c.Add(c.Scale(v, big.NewInt(256)), r.segByte(s, c.I(i)))
			}
		case sBig:
			if s.off == c.I(0) && s.ln == c.BLen(s.v) {
				v = s.v
				if v.lo == nil || v.lo.Sign() < 0 {
					v = r.abs(v)
				}
			} else if c.Add(s.off, s.ln) == c.BLen(s.v) && s.ln.IsConst() {
				v = c.Mod(s.v, pow2(uint(8*s.ln.c.Int64())))
			} else {
				v = c.App("bigslice", bigZero, nil, s.v, s.off, s.ln)
			}
		case sIn:
			if s.ln.IsConst() && s.ln.c.IsInt64() && s.ln.c.Int64() <= 8 {
				v = c.I(0)
				for i := int64(0); i < s.ln.c.Int64(); i++ {
					v = c.Add(c.Scale(v, big.NewInt(256)), r.segByte(s, c.I(i)))
				}
			} else {
				var hi *big.Int
				if s.ln.hi != nil && s.ln.hi.IsInt64() && s.ln.hi.Int64() <= 4096 {
					hi = new(big.Int).Sub(pow2(uint(8*s.ln.hi.Int64())), bigOne)
				}
				for _, k := range []int64{32, 64, 96} {
					if hi == nil && r.entailed(c.Le(s.ln, c.I(k))) {
						hi = new(big.Int).Sub(pow2(uint(8*k)), bigOne)
					}
				}
				v = c.AppR("b2i|"+s.id, bigZero, hi, s.off, s.ln)
			}
		}
		if val == c.I(0) {
			val = v
			continue
		}
		l := s.ln
		if !l.IsConst() {
			l = c.I(r.concInt(l, "value of a concatenation with symbolic lengths"))
		}
		val = c.Add(c.Scale(val, pow2(uint(8*l.c.Int64()))), v)
	}
	return val
}

// rToInt reads an n-byte unsigned integer.
func (r *Run) rToInt(p Rope, n int64, le bool) *Term {
	c := r.c
	if len(p) == 1 && p[0].off == c.I(0) && (p[0].k == sFixLE) == le && (p[0].k == sFixBE || p[0].k == sFixLE) && p[0].n == n && p[0].ln == c.I(n) {
		return p[0].v
	}
	if !le {
		return r.rToBE(p)
	}
	v := c.I(0)
	for i := n - 1; i >= 0; i-- {
		v = c.Add(c.Scale(v, big.NewInt(256)), r.rIndex(p, c.I(i)))
	}
	return v
}

// constBytes returns the concrete content when the rope is constant.
func constBytes(p Rope) ([]byte, bool) {
	var out []byte
	for _, s := range p {
		switch {
		case s.k == sConst:
			out = append(out, s.b...)
		case s.k == sZero && s.ln.IsConst() && s.ln.c.IsInt64() && s.ln.c.Int64() < 1<<20:
			out = append(out, make([]byte, s.ln.c.Int64())...)
		case s.k == sByte && s.v.IsConst():
			out = append(out, byte(s.v.c.Int64()))
		default:
			return nil, false
		}
	}
	return out, true
}

func (s Seg) full(c *Ctx) bool {
	return s.k == sBig && s.off == c.I(0) && s.ln == c.BLen(s.v) ||
		(s.k == sFixBE || s.k == sFixLE) && s.off == c.I(0) && s.ln == c.I(s.n) || s.k == sByte
}

// rEq is the condition that two ropes have the same content. It forks where
// the relative position of segments is not determined.
func (r *Run) rEq(a, b Rope) *Term {
	c := r.c
	a, b = r.simpRope(a), r.simpRope(b)
	if len(a) == 1 && len(b) == 1 && a[0].k == sBig && b[0].k == sBig && a[0].full(c) && b[0].full(c) {
		return c.Eq(r.abs(a[0].v), r.abs(b[0].v))
	}
	la, lb := r.ropeLen(a), r.ropeLen(b)
	cond := c.Eq(la, lb)
	if cond.IsFalse() {
		return cond
	}
	if ropesIdentical(a, b) {
		return c.True
	}
	// Contents only matter when the lengths agree. Facts required so far are
	// used to align the segments; the paths split only where they do not suffice.
	var conj []*Term
	req := map[int]bool{}
	add := func(t *Term) bool {
		if t.IsTrue() {
			return true
		}
		if v, k := r.known(t); k {
			return v
		}
		ts := []*Term{t}
		if t.op == OAnd {
			ts = t.args
		}
		for _, t := range ts {
			req[t.id] = true
		}
		conj = append(conj, t)
		return true
	}
	if !add(cond) {
		return c.False
	}
	lenKnown := cond.IsTrue()
	// split is called before the first split of paths.
	split := func() bool {
		if lenKnown {
			return true
		}
		lenKnown = true
		return r.branch(cond)
	}
	tied := func(x, y *Term) bool {
		if x == y {
			return true
		}
		if x.IsConst() && y.IsConst() {
			return false
		}
		t := c.Eq(x, y)
		if req[t.id] {
			return true
		}
		v, k := r.known(t)
		return k && v
	}
	a, b = append(Rope{}, a...), append(Rope{}, b...)
	for steps := 0; ; steps++ {
		if steps > 400 {
			r.incomplete("rope comparison too long")
		}
		if len(a) == 0 || len(b) == 0 {
			break
		}
		x, y := a[0], b[0]
		if ropesIdentical(Rope{x}, Rope{y}) {
			a, b = a[1:], b[1:]
			continue
		}
		if tied(x.ln, y.ln) || len(a) == 1 && len(b) == 1 {
			if !add(r.segEq(x, y)) {
				return c.False
			}
			a, b = a[1:], b[1:]
			continue
		}
		if z := x.ln; z.IsConst() && z.c.Sign() == 0 {
			a = a[1:]
			continue
		}
		if z := y.ln; z.IsConst() && z.c.Sign() == 0 {
			b = b[1:]
			continue
		}
		if !(x.ln.IsConst() && y.ln.IsConst()) && !split() {
			return c.False
		}
		if r.isZeroLen(x.ln) {
			a = a[1:]
			continue
		}
		if r.isZeroLen(y.ln) {
			b = b[1:]
			continue
		}
		// full segments of the same shape whose lengths are tied to their values
		if !(x.ln.IsConst() && y.ln.IsConst()) && r.branch(c.Eq(x.ln, y.ln)) {
			if !add(r.segEq(x, y)) {
				return c.False
			}
			a, b = a[1:], b[1:]
			continue
		}
		var t *Term
		if r.branch(c.Lt(x.ln, y.ln)) {
			h := r.segSlice(y, c.I(0), x.ln)
			tl := r.segSlice(y, x.ln, c.Sub(y.ln, x.ln))
			t = r.ropeSegEq(x, h)
			a = a[1:]
			b = append(append(Rope{}, tl...), b[1:]...)
		} else {
			h := r.segSlice(x, c.I(0), y.ln)
			tl := r.segSlice(x, y.ln, c.Sub(x.ln, y.ln))
			t = r.ropeSegEq(y, h)
			b = b[1:]
			a = append(append(Rope{}, tl...), a[1:]...)
		}
		if !add(t) {
			return c.False
		}
	}
	return c.And(conj...)
}

func (r *Run) isZeroLen(l *Term) bool {
	if l.IsConst() {
		return l.c.Sign() == 0
	}
	if l.lo != nil && l.lo.Sign() > 0 {
		return false
	}
	return r.branch(r.c.Le(l, r.c.I(0)))
}

func ropesIdentical(a, b Rope) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := &a[i], &b[i]
		if x.k != y.k || x.off != y.off || x.ln != y.ln || x.v != y.v || x.n != y.n || x.id != y.id {
			return false
		}
		if x.k == sConst && string(x.b) != string(y.b) {
			return false
		}
	}
	return true
}

func (r *Run) ropeSegEq(x Seg, h Rope) *Term {
	if len(h) == 0 {
		return r.c.True
	}
	return r.segEq(x, h[0])
}

// segEq: two segments of equal length.
func (r *Run) segEq(x, y Seg) *Term {
	c := r.c
	if x.k == sIn && !x.ln.IsConst() && y.ln.IsConst() {
		x.ln = y.ln
	}
	if y.k == sIn && !y.ln.IsConst() && x.ln.IsConst() {
		y.ln = x.ln
	}
	if x.k == sConst && y.k == sConst {
		return c.Bool(string(x.b) == string(y.b))
	}
	if x.k == sFixLE && y.k == sFixLE && x.full(c) && y.full(c) && x.n == y.n {
		return c.Eq(x.v, y.v)
	}
	if x.k == sIn && y.k == sIn && x.id == y.id && x.off == y.off {
		return c.True
	}
	if l := x.ln; l.IsConst() && l.c.IsInt64() && l.c.Int64() <= 8 && (x.k == sIn || y.k == sIn || x.k == sFixLE || y.k == sFixLE) {
		var conj []*Term
		for i := int64(0); i < l.c.Int64(); i++ {
			conj = append(conj, c.Eq(r.segByte(x, c.I(i)), r.segByte(y, c.I(i))))
		}
		return c.And(conj...)
	}
	// equal lengths: equality of big-endian values is equality of bytes
	return c.Eq(r.rToBE(Rope{x}), r.rToBE(Rope{y}))
}

func (p Rope) String() string {
	var sb strings.Builder
	for i, s := range p {
		if i > 0 {
			sb.WriteByte(' ')
		}
		switch s.k {
		case sConst:
			fmt.Fprintf(&sb, "%x", s.b)
		case sZero:
			fmt.Fprintf(&sb, "0[%v]", s.ln)
		case sBig:
			fmt.Fprintf(&sb, "big(%v)[%v+%v]", s.v, s.off, s.ln)
		case sFixBE:
			fmt.Fprintf(&sb, "be%d(%v)[%v+%v]", s.n, s.v, s.off, s.ln)
		case sFixLE:
			fmt.Fprintf(&sb, "le%d(%v)[%v+%v]", s.n, s.v, s.off, s.ln)
		case sByte:
			fmt.Fprintf(&sb, "b(%v)", s.v)
		case sIn:
			fmt.Fprintf(&sb, "%s[%v+%v]", s.id, s.off, s.ln)
		}
	}
	return sb.String()
}
