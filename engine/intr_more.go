package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of library facilities that /repo may come to use: atomics, pools,
// condition variables, timers, maps for goroutines, sorting, error trees.

type sideEnt struct {
	clock vclock
	items []value
	keys  []value
	cond  []*selTok
	timer *timerv
}

type timerv struct {
	gen    int
	active bool
	fire   func()
	every  *Term
}

func (r *Run) sideOf(p value) *sideEnt {
	r.nilcheck(p)
	if r.side == nil {
		r.side = map[interface{}]*sideEnt{}
	}
	s := r.side[p]
	if s == nil {
		s = &sideEnt{}
		r.side[p] = s
	}
	return s
}

// atomically is one atomic operation on the object at p.
func (r *Run) atomically(p value, f func() value) value {
	if r.schedules > 0 {
		r.preempt()
	}
	s := r.sideOf(p)
	r.acquire(s.clock)
	v := f()
	r.release(&s.clock)
	return v
}

func recvField(fn *ssa.Function, name string) int {
	st, ok := deref(fn.Signature.Recv().Type()).Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (r *Run) errParts(i iface) []value {
	if e, ok := i.v.(*errv); ok {
		return e.wrap
	}
	sel := r.e.prog.MethodSets.MethodSet(i.t).Lookup(nil, "Unwrap")
	if sel == nil {
		return nil
	}
	sig := sel.Type().(*types.Signature)
	if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
		return nil
	}
	switch x := r.invoke(nil, i, "Unwrap").(type) {
	case iface:
		if x.t == nil {
			return nil
		}
		return []value{x}
	case []value:
		return x
	}
	return nil
}

// walkErr visits the tree of an error in the order of errors.Is.
func (r *Run) walkErr(x value, f func(i iface) bool) bool {
	i := r.force(x.(iface))
	if i.t == nil {
		return false
	}
	if f(i) {
		return true
	}
	for _, w := range r.errParts(i) {
		if r.walkErr(w, f) {
			return true
		}
	}
	return false
}

func (r *Run) hasMethod(i iface, name string, args int) bool {
	if modelMethod(i, name) != nil {
		return false
	}
	sel := r.e.prog.MethodSets.MethodSet(i.t).Lookup(nil, name)
	return sel != nil && sel.Type().(*types.Signature).Params().Len() == args
}

// startTimer runs f after d, unless stopped.
func (r *Run) startTimer(t *timerv, d *Term) {
	if r.clock == nil {
		r.now()
	}
	t.gen++
	t.active = true
	gen, at := t.gen, r.c.Add(r.clock, d)
	r.spawn(func() {
		for n := 0; ; n++ {
			if n > 60 {
				r.incomplete("more than 60 ticks")
			}
			if t.gen != gen || !t.active {
				return
			}
			r.sleep(r.c.Sub(at, r.clock))
			if t.gen != gen || !t.active {
				return
			}
			if t.every == nil {
				t.active = false
				t.fire()
				return
			}
			t.fire()
			at = r.c.Add(at, t.every)
		}
	})
}

func (r *Run) stopTimer(t *timerv) bool {
	was := t.active
	t.active = false
	return was
}

func init() {
	// sync/atomic
	for n, k := range map[string]types.BasicKind{"Int32": types.Int32, "Int64": types.Int64, "Uint32": types.Uint32, "Uint64": types.Uint64, "Uintptr": types.Uintptr} {
		k := k
		pk := "sync/atomic."
		reg([]string{pk + "Add" + n}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
			r.nilcheck(a[0])
			return r.atomically(a[0], func() value {
				p := a[0].(*value)
				v := r.wrap(r.c.Add((*p).(*Term), a[1].(*Term)), intInfos[k])
				*p = v
				return v
			})
		})
		reg([]string{pk + "Load" + n}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
			r.nilcheck(a[0])
			return r.atomically(a[0], func() value { return *a[0].(*value) })
		})
		reg([]string{pk + "Store" + n}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
			r.nilcheck(a[0])
			return r.atomically(a[0], func() value { *a[0].(*value) = a[1]; return nil })
		})
		reg([]string{pk + "Swap" + n}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
			r.nilcheck(a[0])
			return r.atomically(a[0], func() value {
				p := a[0].(*value)
				old := *p
				*p = a[1]
				return old
			})
		})
		reg([]string{pk + "CompareAndSwap" + n}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
			r.nilcheck(a[0])
			return r.atomically(a[0], func() value {
				p := a[0].(*value)
				if r.branch(r.c.Eq((*p).(*Term), a[1].(*Term))) {
					*p = a[2]
					return r.c.True
				}
				return r.c.False
			})
		})
	}
	// atomic.Value keeps an interface, atomic.Pointer a pointer, in one of its fields
	for _, t := range []string{"(*sync/atomic.Value).", "(*sync/atomic.Pointer[T])."} {
		cell := func(r *Run, p value) *value {
			r.nilcheck(p)
			s := (*p.(*value)).(structure)
			return &s[len(s)-1]
		}
		isValue := strings.Contains(t, "Value")
		reg([]string{t + "Load"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
			c := cell(r, a[0])
			return r.atomically(a[0], func() value { return *c })
		})
		set := func(r *Run, c *value, v value) {
			if isValue && v.(iface).t == nil {
				r.gopanic("sync/atomic: store of nil value into Value")
			}
			if isValue && (*c).(iface).t != nil && !types.Identical((*c).(iface).t, v.(iface).t) {
				r.gopanic("sync/atomic: store of inconsistently typed value into Value")
			}
			*c = v
		}
		reg([]string{t + "Store"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
			c := cell(r, a[0])
			return r.atomically(a[0], func() value { set(r, c, a[1]); return nil })
		})
		reg([]string{t + "Swap"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
			c := cell(r, a[0])
			return r.atomically(a[0], func() value { old := *c; set(r, c, a[1]); return old })
		})
		reg([]string{t + "CompareAndSwap"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
			c := cell(r, a[0])
			return r.atomically(a[0], func() value {
				if r.branch(r.eqVal(nil, *c, a[1])) {
					set(r, c, a[2])
					return r.c.True
				}
				return r.c.False
			})
		})
	}
	// sync.Pool: the object put last is handed out first, so that an object
	// still in use elsewhere is seen to be shared
	reg([]string{"(*sync.Pool).Get"}, func(r *Run, fr *frame, fn *ssa.Function, a []value) value {
		s := r.sideOf(a[0])
		if n := len(s.items); n > 0 {
			v := s.items[n-1]
			s.items = s.items[:n-1]
			r.acquire(s.clock)
			return v
		}
		f := (*a[0].(*value)).(structure)[recvField(fn, "New")]
		if c, ok := f.(*closure); ok && c == nil {
			return iface{}
		}
		return r.call(fr, f, nil)
	})
	reg([]string{"(*sync.Pool).Put"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		s := r.sideOf(a[0])
		if a[1].(iface).t == nil {
			return nil
		}
		r.release(&s.clock)
		s.items = append(s.items, a[1])
		return nil
	})
	// sync.Cond
	reg([]string{"(*sync.Cond).Wait"}, func(r *Run, fr *frame, fn *ssa.Function, a []value) value {
		s := r.sideOf(a[0])
		l := (*a[0].(*value)).(structure)[recvField(fn, "L")]
		tok := &selTok{}
		s.cond = append(s.cond, tok)
		r.invoke(fr, l, "Unlock")
		r.waitUntil(func() bool { return tok.done }, "sync.Cond")
		r.invoke(fr, l, "Lock")
		return nil
	})
	wake := func(r *Run, p value, all bool) value {
		s := r.sideOf(p)
		for len(s.cond) > 0 {
			s.cond[0].done = true
			s.cond = s.cond[1:]
			if !all {
				break
			}
		}
		if r.schedules > 0 {
			r.preempt()
		}
		return nil
	}
	reg([]string{"(*sync.Cond).Signal"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value { return wake(r, a[0], false) })
	reg([]string{"(*sync.Cond).Broadcast"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value { return wake(r, a[0], true) })
	// sync.Map
	find := func(r *Run, s *sideEnt, k value) int {
		for i := range s.keys {
			if r.branch(r.eqVal(nil, s.keys[i], k)) {
				return i
			}
		}
		return -1
	}
	drop := func(s *sideEnt, i int) {
		s.keys = append(append([]value{}, s.keys[:i]...), s.keys[i+1:]...)
		s.items = append(append([]value{}, s.items[:i]...), s.items[i+1:]...)
	}
	SM := func(n string, f func(r *Run, s *sideEnt, a []value) value) {
		reg([]string{"(*sync.Map)." + n}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
			return r.atomically(a[0], func() value { return f(r, r.sideOf(a[0]), a) })
		})
	}
	SM("Load", func(r *Run, s *sideEnt, a []value) value {
		if i := find(r, s, a[1]); i >= 0 {
			return tuple{s.items[i], r.c.True}
		}
		return tuple{iface{}, r.c.False}
	})
	put := func(r *Run, s *sideEnt, k, v value) {
		if i := find(r, s, k); i >= 0 {
			s.items[i] = v
			return
		}
		s.keys, s.items = append(s.keys, k), append(s.items, v)
	}
	SM("Store", func(r *Run, s *sideEnt, a []value) value { put(r, s, a[1], a[2]); return nil })
	SM("LoadOrStore", func(r *Run, s *sideEnt, a []value) value {
		if i := find(r, s, a[1]); i >= 0 {
			return tuple{s.items[i], r.c.True}
		}
		put(r, s, a[1], a[2])
		return tuple{a[2], r.c.False}
	})
	SM("LoadAndDelete", func(r *Run, s *sideEnt, a []value) value {
		if i := find(r, s, a[1]); i >= 0 {
			v := s.items[i]
			drop(s, i)
			return tuple{v, r.c.True}
		}
		return tuple{iface{}, r.c.False}
	})
	SM("Delete", func(r *Run, s *sideEnt, a []value) value {
		if i := find(r, s, a[1]); i >= 0 {
			drop(s, i)
		}
		return nil
	})
	reg([]string{"(*sync.Map).Range"}, func(r *Run, fr *frame, _ *ssa.Function, a []value) value {
		s := r.sideOf(a[0])
		ks, vs := append([]value{}, s.keys...), append([]value{}, s.items...)
		for i := range ks {
			if !r.branch(r.call(fr, a[1], []value{ks[i], vs[i]}).(*Term)) {
				break
			}
		}
		return nil
	})
	// timers
	timerOf := func(r *Run, p value, fn *ssa.Function) *timerv {
		t := r.sideOf(p).timer
		if t == nil {
			panic(unsupported{"timer without time.NewTimer"})
		}
		return t
	}
	newTimer := func(r *Run, typ types.Type, t *timerv, ch *chanv) *value {
		p := new(value)
		*p = r.zero(typ)
		st := typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "C" && ch != nil {
				(*p).(structure)[i] = ch
			}
		}
		r.sideOf(p).timer = t
		return p
	}
	tick := func(r *Run) (*timerv, *chanv) {
		ch := &chanv{cap: 1}
		t := &timerv{}
		t.fire = func() {
			if len(ch.buf) < 1 {
				r.push(ch, timev{r.clock})
			}
		}
		return t, ch
	}
	reg([]string{"time.NewTimer"}, func(r *Run, _ *frame, fn *ssa.Function, a []value) value {
		t, ch := tick(r)
		p := newTimer(r, deref(fn.Signature.Results().At(0).Type()), t, ch)
		r.startTimer(t, a[0].(*Term))
		return p
	})
	reg([]string{"time.After"}, func(r *Run, _ *frame, fn *ssa.Function, a []value) value {
		t, ch := tick(r)
		r.startTimer(t, a[0].(*Term))
		return ch
	})
	reg([]string{"time.AfterFunc"}, func(r *Run, _ *frame, fn *ssa.Function, a []value) value {
		t := &timerv{fire: func() { r.call(nil, a[1], nil) }}
		p := newTimer(r, deref(fn.Signature.Results().At(0).Type()), t, nil)
		r.startTimer(t, a[0].(*Term))
		return p
	})
	reg([]string{"time.NewTicker", "time.Tick"}, func(r *Run, _ *frame, fn *ssa.Function, a []value) value {
		d := a[0].(*Term)
		if !r.branch(r.c.Gt(d, r.c.I(0))) {
			if fn.Name() == "Tick" {
				return (*chanv)(nil)
			}
			r.gopanic("non-positive interval for NewTicker")
		}
		t, ch := tick(r)
		t.every = d
		r.startTimer(t, d)
		if fn.Name() == "Tick" {
			return ch
		}
		return newTimer(r, deref(fn.Signature.Results().At(0).Type()), t, ch)
	})
	for _, t := range []string{"(*time.Timer).", "(*time.Ticker)."} {
		isTimer := strings.Contains(t, "Timer")
		chOf := func(p value, fn *ssa.Function) *chanv {
			ch, _ := (*p.(*value)).(structure)[recvField(fn, "C")].(*chanv)
			return ch
		}
		reg([]string{t + "Stop"}, func(r *Run, _ *frame, fn *ssa.Function, a []value) value {
			r.nilcheck(a[0])
			was := r.stopTimer(timerOf(r, a[0], fn))
			if isTimer {
				return r.c.Bool(was)
			}
			return nil
		})
		reg([]string{t + "Reset"}, func(r *Run, _ *frame, fn *ssa.Function, a []value) value {
			r.nilcheck(a[0])
			tm := timerOf(r, a[0], fn)
			was := r.stopTimer(tm)
			_ = chOf
			if !isTimer {
				tm.every = a[1].(*Term)
			}
			r.startTimer(tm, a[1].(*Term))
			if isTimer {
				return r.c.Bool(was)
			}
			return nil
		})
	}
	// errors
	reg([]string{"errors.Is"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		if r.force(a[0].(iface)).t == nil {
			return r.c.Bool(r.force(a[1].(iface)).t == nil)
		}
		return r.c.Bool(r.walkErr(a[0], func(i iface) bool {
			if r.branch(r.eqVal(nil, i, a[1])) {
				return true
			}
			return r.hasMethod(i, "Is", 1) && r.branch(r.invoke(nil, i, "Is", a[1]).(*Term))
		}))
	})
	reg([]string{"errors.As"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		tgt := a[1].(iface)
		want := deref(tgt.t)
		return r.c.Bool(r.walkErr(a[0], func(i iface) bool {
			if it, ok := want.Underlying().(*types.Interface); ok {
				if types.Implements(i.t, it) || modelImplements(i, it) {
					r.store(tgt.v, i)
					return true
				}
			} else if types.Identical(i.t, want) {
				r.store(tgt.v, i.v)
				return true
			}
			return r.hasMethod(i, "As", 1) && r.branch(r.invoke(nil, i, "As", a[1]).(*Term))
		}))
	})
	reg([]string{"errors.Unwrap"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		i := r.force(a[0].(iface))
		if i.t == nil {
			return iface{}
		}
		if e, ok := i.v.(*errv); ok {
			if len(e.wrap) == 1 && !e.joined {
				return e.wrap[0]
			}
			return iface{}
		}
		if p := r.errParts(i); len(p) == 1 {
			return p[0]
		}
		return iface{}
	})
	reg([]string{"errors.Join"}, func(r *Run, fr *frame, _ *ssa.Function, a []value) value {
		var ws []value
		var msg []string
		for _, x := range a[0].([]value) {
			i := r.force(x.(iface))
			if i.t == nil {
				continue
			}
			ws = append(ws, i)
			if s, ok := r.invoke(fr, i, "Error").(string); ok {
				msg = append(msg, s)
			}
		}
		if len(ws) == 0 {
			return iface{}
		}
		e := r.mkErr(strings.Join(msg, "\n"), ws...)
		e.v.(*errv).joined = true
		return e
	})
	// sort.Slice: insertion sort, as any sorting algorithm gives the same
	// order of unequal elements
	reg([]string{"sort.Slice", "sort.SliceStable"}, func(r *Run, fr *frame, _ *ssa.Function, a []value) value {
		i := a[0].(iface)
		switch s := i.v.(type) {
		case []value:
			for i := 1; i < len(s); i++ {
				for j := i; j > 0; j-- {
					if !r.branch(r.call(fr, a[1], []value{r.c.I(int64(j)), r.c.I(int64(j - 1))}).(*Term)) {
						break
					}
					r.access(&s[j], true)
					r.access(&s[j-1], true)
					x, y := copyVal(s[j]), copyVal(s[j-1])
					storeTo(&s[j], y)
					storeTo(&s[j-1], x)
				}
			}
		default:
			panic(unsupported{fmt.Sprintf("sort.Slice of %v", i.t)})
		}
		return nil
	})
	// bytes
	reg([]string{"bytes.Compare", "internal/bytealg.Compare"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		x, y := r.bytesOf(a[0]), r.bytesOf(a[1])
		n, m := r.ropeLen(x), r.ropeLen(y)
		if n == m {
			return r.c.Cmp(r.rToBE(x), r.rToBE(y))
		}
		k, longer := n, int64(-1)
		if r.branch(r.c.Eq(n, m)) {
			longer = 0
		} else if r.branch(r.c.Lt(m, n)) {
			k, longer = m, 1
		}
		p, q := r.rSlice(x, r.c.I(0), k), r.rSlice(y, r.c.I(0), k)
		if r.branch(r.rEq(p, q)) {
			return r.c.I(longer)
		}
		return r.c.Cmp(r.rToBE(p), r.rToBE(q))
	})
	reg([]string{"internal/bytealg.MakeNoZero"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		n := a[0].(*Term)
		return r.newBytes(r.rZero(n))
	})
	// crypto/hmac with the hash functions that are modelled
	reg([]string{"crypto/hmac.New"}, func(r *Run, fr *frame, _ *ssa.Function, a []value) value {
		h, ok := r.call(fr, a[0], nil).(iface)
		hv, ok2 := h.v.(*hashv)
		if !ok || !ok2 {
			panic(unsupported{"hmac of an unknown hash"})
		}
		key := r.bytesOf(a[1])
		pre := r.rCat(r.rFix(r.ropeLen(key), 8, false), key)
		return iface{hashType, &hashv{name: "hmac/" + hv.name, size: hv.size, pos: r.c.I(0), pre: pre, msg: pre}}
	})
	reg([]string{"crypto/hmac.Equal"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.rEq(r.bytesOf(a[0]), r.bytesOf(a[1]))
	})
}
