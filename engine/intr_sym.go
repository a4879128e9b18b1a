package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// inputName makes the k-th use of a name unique, like the native runtime does.
func (r *Run) inputName(n string) string {
	r.names[n]++
	return fmt.Sprintf("%s#%d", n, r.names[n])
}

func init() {
	S := func(n string, f intrinsicFn) { intrinsics["zzsym."+n] = f }
	constStr := func(r *Run, v value) string {
		s, ok := v.(string)
		if !ok {
			panic(unsupported{"symbolic label"})
		}
		return s
	}
	S("Symbolic", func(r *Run, _ *frame, _ *ssa.Function, a []value) value { return r.c.True })
	S("Big", func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		n := r.inputName(constStr(r, a[0]))
		lo, hi := r.bigGet(a[1]), r.bigGet(a[2])
		if !lo.IsConst() || !hi.IsConst() {
			panic(unsupported{"symbolic bounds"})
		}
		v := r.c.Var("in:"+n, lo.c, hi.c)
		r.inputs = append(r.inputs, &Input{Name: n, Kind: "big", T: v})
		return r.newBig(v)
	})
	S("Int", func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		n := r.inputName(constStr(r, a[0]))
		v := r.c.Var("in:"+n, a[1].(*Term).c, a[2].(*Term).c)
		r.inputs = append(r.inputs, &Input{Name: n, Kind: "int", T: v})
		return v
	})
	S("Bool", func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		n := r.inputName(constStr(r, a[0]))
		v := r.c.Var("in:"+n, bigZero, bigOne)
		r.inputs = append(r.inputs, &Input{Name: n, Kind: "int", T: v})
		return r.c.Eq(v, r.c.I(1))
	})
	S("Choice", func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		n := r.inputName(constStr(r, a[0]))
		k := r.choose(int(r.concInt(a[1].(*Term), "choice")))
		r.inputs = append(r.inputs, &Input{Name: n, Kind: "choice", Val: k})
		return r.c.I(int64(k))
	})
	bytesIn := func(r *Run, n string, ln *Term) value {
		id := "in:" + n
		r.inputs = append(r.inputs, &Input{Name: n, Kind: "bytes", Id: id, Len: ln})
		return r.newBytes(r.rCat(r.rIn(id, r.c.I(0), ln)))
	}
	S("Bytes", func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		n := r.inputName(constStr(r, a[0]))
		return bytesIn(r, n, r.c.Var("in:"+n+".len", bigZero, a[1].(*Term).c))
	})
	S("BytesN", func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		n := r.inputName(constStr(r, a[0]))
		return bytesIn(r, n, a[1].(*Term))
	})
	S("Assume", func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		t := a[0].(*Term)
		if v, k := r.known(t); k && v {
			return nil
		}
		// decide feasibility now, so that dead paths stop early
		if !r.branchAssume(t) {
			panic(pathEnd{"assumption false"})
		}
		return nil
	})
	S("Assert", func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		r.assertProp(a[0].(*Term), constStr(r, a[1]))
		return nil
	})
	S("Fail", func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		r.oblig++
		r.violation("assert", constStr(r, a[0]), "")
		panic(pathEnd{"failed"})
	})
	S("Reach", func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		r.reached["reach:"+constStr(r, a[0])] = true
		return nil
	})
	S("Bound", func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		r.note("bound: " + constStr(r, a[0]))
		return nil
	})
	S("Place", func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		n := constStr(r, a[0])
		n = fmt.Sprintf("%s#%d", n, r.names[n])
		for _, in := range r.inputs {
			if in.Name == n && in.T != nil {
				r.placed = append(r.placed, in)
			}
		}
		return nil
	})
	S("Order", func(r *Run, _ *frame, _ *ssa.Function, a []value) value { return r.newBig(r.c.Const(curveN)) })
	S("Same", func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.same(a[0], a[1], map[[2]*value]bool{}, 0)
	})
	S("Coords", func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		i := r.force(a[0].(iface))
		x, y, ok := r.pointCoords(i)
		if !ok {
			panic(unsupported{"point of unknown shape"})
		}
		if x == nil {
			return tuple{(*value)(nil), (*value)(nil)}
		}
		return tuple{r.newBig(x), r.newBig(y)}
	})
	// PointOf builds a point with the given coordinates, like *p with fields replaced.
	S("MaxAlloc", func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		r.maxAlloc = r.concInt(a[0].(*Term), "allocation bound")
		return nil
	})
	S("QueueRand", func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		r.randQ = r.rCat(r.randQ, r.rFix(r.bigGet(a[0]), 32, false))
		return nil
	})
	S("RandLeft", func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.c.Div(r.ropeLen(r.randQ), big.NewInt(32))
	})
	S("Schedules", func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		n := int(r.concInt(a[0].(*Term), "schedules"))
		r.schedules, r.maxSwitch = n, n
		return nil
	})
	S("Races", func(r *Run, _ *frame, _ *ssa.Function, a []value) value { r.raceDetect = true; return nil })
	S("ExactTime", func(r *Run, _ *frame, _ *ssa.Function, a []value) value { r.exactTime = true; return nil })
	S("Scratch", func(r *Run, fr *frame, _ *ssa.Function, a []value) value {
		r.call(fr, a[0], nil)
		return nil
	})
	S("Generic", func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		r.generic = a[0].(*Term).IsTrue()
		return nil
	})
	S("NoSummaries", func(r *Run, _ *frame, _ *ssa.Function, a []value) value { r.summaries = false; return nil })
	S("Yield", func(r *Run, _ *frame, _ *ssa.Function, a []value) value { r.yieldAll(); return nil })
	S("Entailed", func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.c.Bool(r.entailed(a[0].(*Term)))
	})
	// BigEq is a == b without forking.
	S("BigEq", func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.c.Eq(r.bigGet(a[0]), r.bigGet(a[1]))
	})
	S("And", func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.c.And(a[0].(*Term), a[1].(*Term))
	})
	S("Or", func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.c.Or(a[0].(*Term), a[1].(*Term))
	})
	S("BytesEq", func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.rEq(r.bytesOf(a[0]), r.bytesOf(a[1]))
	})
	S("Log", func(r *Run, _ *frame, _ *ssa.Function, a []value) value { return nil })
	S("Dump", func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		if r.e.opt.verbose {
			fmt.Printf("dump %v: %s\n", a[0], r.dump(a[1]))
		}
		return nil
	})
}

func (r *Run) dump(v value) string {
	switch v := v.(type) {
	case iface:
		return fmt.Sprintf("%v:%s", v.t, r.dump(v.v))
	case *value:
		if v == nil {
			return "nil"
		}
		return "&" + r.dump(*v)
	case bigv:
		return v.t.str(12)
	case *Term:
		return v.str(12)
	case structure:
		s := "{"
		for _, x := range v {
			s += r.dump(x) + ", "
		}
		return s + "}"
	case bslice:
		return r.bytesOf(v).String()
	case lazyPt:
		return "pt(" + v.d.str(12) + ")"
	}
	return fmt.Sprintf("%T", v)
}

// branchAssume assumes t; it is not a fork.
func (r *Run) branchAssume(t *Term) bool {
	pos := len(r.trace)
	if pos < len(r.prefix) {
		d := r.prefix[pos]
		r.trace = append(r.trace, d)
		if d.B {
			r.assume(t)
		}
		return d.B
	}
	ok := r.sat(t, r.e.opt.feasMS) != Unsat
	r.trace = append(r.trace, Dec{B: ok})
	if ok {
		r.assume(t)
	}
	return ok
}

// same is deep equality of representations.
func (r *Run) same(x, y value, seen map[[2]*value]bool, depth int) *Term {
	c := r.c
	if depth > 40 {
		r.incomplete("deep comparison too deep")
	}
	switch x := x.(type) {
	case iface:
		yi, ok := y.(iface)
		if !ok {
			return c.False
		}
		if x.t == lazyType && yi.t == lazyType {
			return c.dlEq(x.v.(lazyPt).d, yi.v.(lazyPt).d)
		}
		x, yi = r.force(x), r.force(yi)
		if x.t == nil || yi.t == nil {
			return c.Bool(x.t == nil && yi.t == nil)
		}
		if !types.Identical(x.t, yi.t) {
			return c.False
		}
		return r.same(x.v, yi.v, seen, depth+1)
	case *value:
		yp, ok := y.(*value)
		if !ok {
			return c.Bool(x == nil && y == nil)
		}
		if x == nil || yp == nil || x == yp {
			return c.Bool(x == yp)
		}
		k := [2]*value{x, yp}
		if seen[k] {
			return c.True
		}
		seen[k] = true
		return r.same(*x, *yp, seen, depth+1)
	case bigv:
		yb, ok := y.(bigv)
		if !ok {
			return c.False
		}
		return c.Eq(x.t, yb.t)
	case structure:
		ys, ok := y.(structure)
		if !ok || len(x) != len(ys) {
			return c.False
		}
		var conj []*Term
		for i := range x {
			conj = append(conj, r.same(x[i], ys[i], seen, depth+1))
		}
		return c.And(conj...)
	case array:
		ys, ok := y.(array)
		if !ok || len(x) != len(ys) {
			return c.False
		}
		var conj []*Term
		for i := range x {
			conj = append(conj, r.same(x[i], ys[i], seen, depth+1))
		}
		return c.And(conj...)
	case []value:
		ys, ok := y.([]value)
		if !ok || len(x) != len(ys) || (x == nil) != (ys == nil) {
			return c.False
		}
		var conj []*Term
		for i := range x {
			conj = append(conj, r.same(x[i], ys[i], seen, depth+1))
		}
		return c.And(conj...)
	case bslice:
		ys, ok := y.(bslice)
		if !ok {
			return c.False
		}
		return r.rEq(r.bytesOf(x), r.bytesOf(ys))
	case *mapv, *chanv, *closure, *ssa.Function:
		return c.Bool(x == y)
	}
	return r.eqVal(nil, x, y)
}
