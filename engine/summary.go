package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lazyPt is the canonical value of the group element d*G: exactly what the
// real ScalarBaseMult(d) returns. It is introduced only after the lemmas on
// the curve package have been discharged on the current tree.
type lazyPt struct{ d *Term }

const curveGroupName = repoMod + "/pkg/curve.Group"

func (r *Run) lazy(d *Term) iface { return iface{lazyType, lazyPt{r.c.Mod(d, curveN)}} }

// force runs the real code that produces the representation of a lazy point.
func (r *Run) force(x iface) iface {
	l, ok := x.v.(lazyPt)
	if !ok || x.t != lazyType {
		return x
	}
	if v, ok := r.forced[l.d.id]; ok {
		return v.(iface)
	}
	if r.groupVal.t == nil {
		panic(unsupported{"lazy point without group"})
	}
	f := r.groupMethod("ScalarBaseMult")
	v := r.call(nil, f, []value{r.groupVal.v, r.newBig(l.d)}).(iface)
	r.forced[l.d.id] = v
	return v
}

func (r *Run) groupMethod(name string) *ssa.Function {
	ms := r.e.prog.MethodSets.MethodSet(r.groupVal.t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return r.e.prog.MethodValue(ms.At(i))
		}
	}
	panic(unsupported{"group without " + name})
}

// ptDlog returns the discrete logarithm of a point value, nil if unknown.
func (r *Run) ptDlog(v value) *Term {
	i, ok := v.(iface)
	if !ok || i.t == nil {
		return nil
	}
	if l, ok := i.v.(lazyPt); ok && i.t == lazyType {
		return l.d
	}
	x, y, ok := r.pointCoords(i)
	if !ok {
		return nil
	}
	if x == nil {
		return r.c.I(0)
	}
	d := r.dlog(x, y)
	if d == nil {
		return nil
	}
	return r.c.Mod(d, curveN)
}

// pointCoords finds the two *big.Int fields of a point value.
func (r *Run) pointCoords(i iface) (x, y *Term, ok bool) {
	v := i.v
	t := i.t
	if p, is := v.(*value); is {
		if p == nil {
			return nil, nil, false
		}
		v = *p
		t = deref(t)
	}
	s, is := v.(structure)
	if !is {
		return nil, nil, false
	}
	st, is := t.Underlying().(*types.Struct)
	if !is || st.NumFields() != 2 || len(s) != 2 {
		return nil, nil, false
	}
	var ts [2]*Term
	nils := 0
	for k := 0; k < 2; k++ {
		if types.TypeString(st.Field(k).Type(), nil) != "*math/big.Int" {
			return nil, nil, false
		}
		p, _ := s[k].(*value)
		if p == nil {
			nils++
			continue
		}
		ts[k] = (*p).(bigv).t
	}
	if nils == 2 {
		return nil, nil, true
	}
	if nils == 1 {
		return nil, nil, false
	}
	return ts[0], ts[1], true
}

func (r *Run) summaryFor(call *ssa.CallCommon, recv iface, args []value) value {
	if !r.summaries || recv.t == nil {
		return nil
	}
	if namedPath(call.Value.Type()) != curveGroupName {
		return nil
	}
	if !strings.HasPrefix(types.TypeString(recv.t, nil), "*"+repoMod+"/pkg/curve.") {
		return nil
	}
	name := call.Method.Name()
	c := r.c
	if r.groupVal.t == nil {
		r.groupVal = recv
	}
	nat := func(v value) value {
		return &native{name, func(r *Run, _ []value) value { return v }}
	}
	pts := func(k int) []*Term {
		ds := make([]*Term, k)
		for i := 0; i < k; i++ {
			if ds[i] = r.ptDlog(args[i]); ds[i] == nil {
				return nil
			}
		}
		return ds
	}
	real := func() value {
		// operands outside the lemma: run the real code on real operands
		for i := range args {
			if x, ok := args[i].(iface); ok && x.t == lazyType {
				args[i] = r.force(x)
			}
		}
		r.note("operands outside the curve lemmas, real code used: " + name)
		return nil
	}
	scalar := func(v value) *Term {
		p, _ := v.(*value)
		if p == nil {
			return nil
		}
		k := r.bigGet(p)
		if k.lo != nil && k.lo.Sign() >= 0 || r.branch(c.Ge(k, c.I(0))) {
			return k
		}
		return nil
	}
	switch name {
	case "Gen":
		return nat(r.lazy(c.I(1)))
	case "Neutral":
		return nat(r.lazy(c.I(0)))
	case "Add":
		if d := pts(2); d != nil {
			return nat(r.lazy(c.Add(d[0], d[1])))
		}
		return real()
	case "Neg":
		if d := pts(1); d != nil {
			return nat(r.lazy(c.Neg(d[0])))
		}
		return real()
	case "Equal":
		if d := pts(2); d != nil {
			return nat(c.dlEq(d[0], d[1]))
		}
		return real()
	case "ScalarMult":
		d := pts(1)
		if d == nil {
			return real()
		}
		k := scalar(args[1])
		if k == nil {
			return real()
		}
		return nat(r.lazy(c.Mul(d[0], k)))
	case "ScalarBaseMult":
		k := scalar(args[0])
		if k == nil {
			return real()
		}
		return nat(r.lazy(k))
	case "Encode":
		if x, ok := args[0].(iface); ok && x.t == lazyType {
			args[0] = r.force(x)
		}
	}
	return nil
}
