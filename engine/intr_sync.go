package main

import (
	"encoding/base64"
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func b64Std(enc value) *base64.Encoding {
	switch encName(enc) {
	case "RawStdEncoding":
		return base64.RawStdEncoding
	case "URLEncoding":
		return base64.URLEncoding
	case "RawURLEncoding":
		return base64.RawURLEncoding
	}
	return base64.StdEncoding
}

// ---- goroutines: cooperative scheduling under one baton ----

type vclock map[int]int

func (v vclock) join(o vclock) {
	for k, x := range o {
		if v[k] < x {
			v[k] = x
		}
	}
}
func (v vclock) copy() vclock {
	n := vclock{}
	for k, x := range v {
		n[k] = x
	}
	return n
}

type gor struct {
	id    int
	wake  chan struct{}
	fin   chan struct{}
	done  bool
	ready func() bool
	until *Term // sleeping until this time
	why   string
	vc    vclock
	depth int
	at    token.Pos
}

type shadowCell struct {
	w     int
	wc    int
	reads map[int]int
	at    token.Pos
}

func (r *Run) initSched() {
	g := &gor{id: 0, wake: make(chan struct{}, 1), vc: vclock{0: 1}}
	r.goroutines = []*gor{g}
	r.cur = g
	r.shadow = map[interface{}]*shadowCell{}
}

func (r *Run) spawn(f func()) {
	g := &gor{id: len(r.goroutines), wake: make(chan struct{}, 1), fin: make(chan struct{}), vc: r.cur.vc.copy()}
	g.vc[g.id] = 1
	r.cur.vc[r.cur.id]++
	if len(r.goroutines) > 4000 {
		r.incomplete("too many goroutines")
	}
	r.goroutines = append(r.goroutines, g)
	go func() {
		defer close(g.fin)
		<-g.wake
		if r.killing {
			g.done = true
			return
		}
		func() {
			defer func() {
				p := recover()
				if _, ok := p.(killed); ok || p == nil {
					return
				}
				if r.abort == nil {
					r.abort = p
				}
			}()
			f()
		}()
		g.done = true
		if r.killing {
			return
		}
		if r.abort != nil {
			r.goroutines[0].ready = nil
			r.handoff(r.goroutines[0])
			return
		}
		defer func() {
			if p := recover(); p != nil {
				if r.abort == nil {
					r.abort = p
				}
				r.handoff(r.goroutines[0])
			}
		}()
		n := r.pick()
		r.handoff(n)
	}()
	if r.schedules > 0 {
		r.preempt()
	}
}

func (r *Run) handoff(g *gor) {
	r.cur.depth = r.depth
	r.cur = g
	r.depth = g.depth
	g.wake <- struct{}{}
}

func (r *Run) runnable() []*gor {
	var out []*gor
	for _, g := range r.goroutines {
		if g.done || g.until != nil {
			continue
		}
		if g.ready == nil || g.ready() {
			out = append(out, g)
		}
	}
	return out
}

// pick selects the next goroutine; panics on deadlock.
func (r *Run) pick() *gor {
	for {
		rs := r.runnable()
		if len(rs) > 0 {
			i := 0
			if r.schedules > 0 && len(rs) > 1 {
				if r.maxSwitch > 0 {
					i = r.choose(len(rs))
					if i > 0 {
						r.maxSwitch--
					}
				}
			}
			return rs[i]
		}
		// advance time to a sleeper
		var sl []*gor
		for _, g := range r.goroutines {
			if !g.done && g.until != nil {
				sl = append(sl, g)
			}
		}
		if len(sl) == 0 {
			if r.goroutines[0].done {
				panic(pathEnd{"main finished"})
			}
			s := ""
			for _, g := range r.goroutines {
				if !g.done {
					s += fmt.Sprintf(" g%d:%s", g.id, g.why)
				}
			}
			r.violation("deadlock", "all goroutines are blocked", s)
			panic(pathEnd{"deadlock"})
		}
		// the earliest sleeper wakes; undetermined orders are explored
		best := sl[0]
		for _, g := range sl[1:] {
			if r.branch(r.c.Lt(g.until, best.until)) {
				best = g
			}
		}
		r.clock = r.maxT(r.clock, best.until)
		best.until = nil
		return best
	}
}

func (r *Run) maxT(a, b *Term) *Term {
	if r.branch(r.c.Ge(a, b)) {
		return a
	}
	return b
}

// switchTo gives the baton to g and waits for it to come back.
func (r *Run) switchTo(g *gor) {
	me := r.cur
	if g == me {
		return
	}
	r.handoff(g)
	<-me.wake
	if r.killing {
		panic(killed{})
	}
	if me.id == 0 && r.abort != nil {
		panic(r.abort)
	}
}

// waitUntil blocks the current goroutine until pred holds.
func (r *Run) waitUntil(pred func() bool, why string) {
	if r.schedules > 0 {
		r.preempt()
	}
	r.waitFor(pred, why)
}

// waitFor is waitUntil without a scheduling point in front.
func (r *Run) waitFor(pred func() bool, why string) {
	for !pred() {
		r.cur.ready = pred
		r.cur.why = why
		r.switchTo(r.pick())
		r.cur.ready = nil
	}
	r.cur.ready = nil
}

// preempt is a scheduling point.
func (r *Run) preempt() {
	if r.schedules == 0 || r.maxSwitch <= 0 || r.inInit > 0 {
		return
	}
	rs := r.runnable()
	if len(rs) <= 1 {
		return
	}
	// current first: not switching costs nothing
	ord := []*gor{r.cur}
	for _, g := range rs {
		if g != r.cur {
			ord = append(ord, g)
		}
	}
	i := r.choose(len(ord))
	if i > 0 {
		r.maxSwitch--
		r.switchTo(ord[i])
	}
}

// yield lets every other runnable goroutine run first.
func (r *Run) yieldAll() {
	rs := r.runnable()
	for _, g := range rs {
		if g.id > r.cur.id {
			r.switchTo(g)
			return
		}
	}
	for _, g := range rs {
		if g != r.cur {
			r.switchTo(g)
			return
		}
	}
}

func (r *Run) sleep(d *Term) {
	c := r.c
	if !r.branch(c.Gt(d, c.I(0))) {
		return
	}
	r.cur.until = c.Add(r.clock, d)
	r.cur.why = "sleep"
	r.switchTo(r.pick())
	r.cur.until = nil
}

func (r *Run) killAll() {
	r.killing = true
	for _, g := range r.goroutines[1:] {
		if g.done {
			<-g.fin
			continue
		}
		r.cur = g
		g.wake <- struct{}{}
		<-g.fin
	}
}

// ---- happens-before ----

func (r *Run) release(v *vclock) {
	if *v == nil {
		*v = vclock{}
	}
	v.join(r.cur.vc)
	r.cur.vc[r.cur.id]++
}
func (r *Run) acquire(v vclock) { r.cur.vc.join(v) }

func (r *Run) access(p interface{}, write bool) {
	if !r.raceDetect || r.inInit > 0 || len(r.goroutines) == 1 {
		return
	}
	s := r.shadow[p]
	if s == nil {
		s = &shadowCell{w: -1, reads: map[int]int{}}
		r.shadow[p] = s
	}
	me := r.cur
	race := false
	if s.w >= 0 && s.w != me.id && me.vc[s.w] < s.wc {
		race = true
	}
	if write {
		for g, c := range s.reads {
			if g != me.id && me.vc[g] < c {
				race = true
			}
		}
	}
	if race && !r.races["race"] {
		r.races["race"] = true
		r.violation("race", "unsynchronised access to shared memory", fmt.Sprint(r.e.prog.Fset.Position(me.at), " after ", r.e.prog.Fset.Position(s.at)))
	}
	s.at = me.at
	if write {
		s.w, s.wc = me.id, me.vc[me.id]
		s.reads = map[int]int{}
	} else {
		s.reads[me.id] = me.vc[me.id]
	}
}

// ---- channels ----

func (r *Run) chanSend(ch *chanv, v value) {
	if ch == nil {
		r.waitUntil(func() bool { return false }, "send on nil channel")
	}
	if ch.closed {
		r.gopanic("send on closed channel")
	}
	if ch.cap > 0 {
		r.waitUntil(func() bool { return ch.closed || len(ch.buf) < ch.cap }, "channel send")
		if ch.closed {
			r.gopanic("send on closed channel")
		}
		r.push(ch, v)
		return
	}
	r.push(ch, v)
	mine := ch.taken + len(ch.buf)
	r.waitUntil(func() bool { return ch.taken >= mine }, "channel send")
}

func (r *Run) push(ch *chanv, v value) {
	var vc vclock
	r.release(&vc)
	ch.buf = append(ch.buf, copyVal(v))
	ch.vc = append(ch.vc, vc)
}

func (r *Run) chanRecv(ch *chanv, el types.Type) (value, bool) {
	if ch == nil {
		r.waitUntil(func() bool { return false }, "receive from nil channel")
	}
	if r.schedules > 0 {
		r.preempt()
	}
	rdy := func() bool { return ch.closed || len(ch.buf) > 0 || ch.offered(nil) != nil }
	if rdy() {
		return r.popCh(ch, el)
	}
	tok := &selTok{}
	if ch.cap == 0 {
		ch.recvq = append(ch.recvq, &offer{tok: tok})
	}
	r.waitFor(func() bool { return tok.done || rdy() }, "channel receive")
	ch.forget(tok)
	if tok.done {
		r.acquire(tok.vc)
		return tok.val, true
	}
	return r.popCh(ch, el)
}

// offered returns a select that offers a value on the channel.
func (ch *chanv) offered(me *selTok) *offer {
	for _, o := range ch.sendq {
		if !o.tok.done && o.tok != me {
			return o
		}
	}
	return nil
}

// taker returns a waiting receiver that no earlier sender will serve.
func (ch *chanv) taker(me *selTok) *offer {
	n := len(ch.buf)
	for _, o := range ch.recvq {
		if !o.tok.done && o.tok != me {
			if n == 0 {
				return o
			}
			n--
		}
	}
	return nil
}

func (ch *chanv) forget(tok *selTok) {
	drop := func(q []*offer) []*offer {
		var out []*offer
		for _, o := range q {
			if o.tok != tok {
				out = append(out, o)
			}
		}
		return out
	}
	ch.recvq, ch.sendq = drop(ch.recvq), drop(ch.sendq)
}

func (r *Run) popCh(ch *chanv, el types.Type) (value, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		r.acquire(ch.vc[0])
		ch.buf, ch.vc = ch.buf[1:], ch.vc[1:]
		ch.taken++
		return v, true
	}
	if o := ch.offered(nil); o != nil {
		o.tok.done, o.tok.idx = true, o.idx
		r.acquire(o.vc)
		return o.val, true
	}
	if ch.clock != nil {
		r.acquire(ch.clock)
	}
	return r.zero(el), false
}

func (r *Run) selectStmt(fr *frame, in *ssa.Select) value {
	type st struct {
		ch  *chanv
		val value
		dir types.ChanDir
		el  types.Type
	}
	var sts []st
	for _, s := range in.States {
		ch, _ := r.get(fr, s.Chan).(*chanv)
		x := st{ch: ch, dir: s.Dir, el: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if s.Dir == types.SendOnly {
			x.val = r.get(fr, s.Send)
		}
		sts = append(sts, x)
	}
	tok := &selTok{}
	ready := func() []int {
		var out []int
		for i, s := range sts {
			if s.ch == nil {
				continue
			}
			if s.dir == types.RecvOnly && (s.ch.closed || len(s.ch.buf) > 0 || s.ch.offered(tok) != nil) {
				out = append(out, i)
			}
			if s.dir == types.SendOnly && (s.ch.closed || len(s.ch.buf) < s.ch.cap || s.ch.cap == 0 && s.ch.taker(tok) != nil) {
				out = append(out, i)
			}
		}
		return out
	}
	if r.schedules > 0 {
		r.preempt()
	}
	rs := ready()
	idx := -1
	if len(rs) == 0 && in.Blocking {
		for i, s := range sts {
			if s.ch == nil || s.ch.cap > 0 {
				continue
			}
			if s.dir == types.RecvOnly {
				s.ch.recvq = append(s.ch.recvq, &offer{tok: tok, idx: i})
			} else {
				var vc vclock
				r.release(&vc)
				s.ch.sendq = append(s.ch.sendq, &offer{tok: tok, idx: i, val: copyVal(s.val), vc: vc})
			}
		}
		r.waitFor(func() bool { return tok.done || len(ready()) > 0 }, "select")
		for _, s := range sts {
			if s.ch != nil {
				s.ch.forget(tok)
			}
		}
		if !tok.done {
			rs = ready()
		}
	}
	if tok.done {
		idx = tok.idx
	} else if len(rs) > 0 {
		idx = rs[r.choose(len(rs))]
	}
	res := tuple{r.c.I(int64(idx)), r.c.False}
	for i, s := range sts {
		if s.dir == types.RecvOnly {
			v := r.zero(s.el)
			if i == idx && tok.done {
				r.acquire(tok.vc)
				v = tok.val
				res[1] = r.c.True
			} else if i == idx {
				var ok bool
				v, ok = r.popCh(s.ch, s.el)
				res[1] = r.c.Bool(ok)
			}
			res = append(res, v)
		} else if i == idx && !tok.done {
			if s.ch.closed {
				r.gopanic("send on closed channel")
			}
			if s.ch.cap == 0 {
				o := s.ch.taker(tok)
				o.tok.done, o.tok.idx, o.tok.val = true, o.idx, copyVal(s.val)
				r.release(&o.tok.vc)
			} else {
				r.push(s.ch, s.val)
			}
		}
	}
	return res
}

// ---- time ----

func (r *Run) timeNs(t timev) *Term {
	if t.ns == nil {
		return r.c.Const(new(big.Int).Neg(pow2(70)))
	}
	return t.ns
}

func (r *Run) now() *Term {
	if r.clock == nil {
		r.clock = r.c.Var("t0", pow2(60), new(big.Int).Add(pow2(60), pow2(58)))
		return r.clock
	}
	if r.exactTime {
		return r.clock
	}
	d := r.c.Var(r.fresh("dt"), bigZero, pow2(50))
	r.clock = r.c.Add(r.clock, d)
	return r.clock
}

func (r *Run) clampDur(d *Term) *Term {
	lim := pow2(63)
	if d.lo != nil && d.hi != nil && d.hi.Cmp(lim) < 0 && d.lo.Cmp(new(big.Int).Neg(lim)) >= 0 {
		return d
	}
	mx := r.c.Const(new(big.Int).Sub(lim, bigOne))
	mn := r.c.Const(new(big.Int).Neg(lim))
	if r.branch(r.c.Gt(d, mx)) {
		return mx
	}
	if r.branch(r.c.Lt(d, mn)) {
		return mn
	}
	return d
}

func init() {
	wg := func(r *Run, v value) *wgv {
		r.nilcheck(v)
		return (*v.(*value)).(*wgv)
	}
	mu := func(r *Run, v value) *muv {
		r.nilcheck(v)
		return (*v.(*value)).(*muv)
	}
	reg([]string{"(*sync.WaitGroup).Add"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		w := wg(r, a[0])
		w.n += r.concInt(a[1].(*Term), "WaitGroup.Add")
		r.release(&w.clock)
		if w.n < 0 {
			r.gopanic("sync: negative WaitGroup counter")
		}
		return nil
	})
	reg([]string{"(*sync.WaitGroup).Done"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		w := wg(r, a[0])
		w.n--
		r.release(&w.clock)
		if w.n < 0 {
			r.gopanic("sync: negative WaitGroup counter")
		}
		return nil
	})
	reg([]string{"(*sync.WaitGroup).Wait"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		w := wg(r, a[0])
		r.waitUntil(func() bool { return w.n == 0 }, "WaitGroup.Wait")
		if w.clock != nil {
			r.acquire(w.clock)
		}
		return nil
	})
	reg([]string{"(*sync.WaitGroup).Go"}, func(r *Run, fr *frame, _ *ssa.Function, a []value) value {
		w := wg(r, a[0])
		w.n++
		r.spawn(func() {
			r.call(nil, a[1], nil)
			w.n--
			r.release(&w.clock)
		})
		return nil
	})
	for _, t := range []string{"(*sync.Mutex).", "(*sync.RWMutex)."} {
		reg([]string{t + "Lock"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
			m := mu(r, a[0])
			r.waitUntil(func() bool { return !m.locked && m.nread == 0 }, "mutex")
			m.locked = true
			if m.clock != nil {
				r.acquire(m.clock)
			}
			return nil
		})
		reg([]string{t + "Unlock"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
			m := mu(r, a[0])
			if !m.locked {
				r.gopanic("sync: unlock of unlocked mutex")
			}
			m.locked = false
			r.release(&m.clock)
			return nil
		})
	}
	reg([]string{"(*sync.Mutex).TryLock"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		m := mu(r, a[0])
		if m.locked {
			return r.c.False
		}
		m.locked = true
		if m.clock != nil {
			r.acquire(m.clock)
		}
		return r.c.True
	})
	reg([]string{"(*sync.RWMutex).RLock"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		m := mu(r, a[0])
		r.waitUntil(func() bool { return !m.locked }, "rwmutex")
		m.nread++
		if m.clock != nil {
			r.acquire(m.clock)
		}
		return nil
	})
	reg([]string{"(*sync.RWMutex).RUnlock"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		m := mu(r, a[0])
		m.nread--
		r.release(&m.clock)
		return nil
	})
	reg([]string{"(*sync.Once).Do"}, func(r *Run, fr *frame, _ *ssa.Function, a []value) value {
		r.nilcheck(a[0])
		o := (*a[0].(*value)).(*oncev)
		if o.state == 1 {
			r.waitUntil(func() bool { return o.state == 2 }, "sync.Once")
		}
		if o.state == 2 {
			r.acquire(o.clock)
			return nil
		}
		o.state = 1
		defer func() {
			o.state = 2
			r.release(&o.clock)
		}()
		r.call(fr, a[1], nil)
		return nil
	})
	// time
	reg([]string{"time.Now"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value { return timev{r.now()} })
	reg([]string{"time.Since"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.clampDur(r.c.Sub(r.now(), r.timeNs(a[0].(timev))))
	})
	reg([]string{"time.Until"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.clampDur(r.c.Sub(r.timeNs(a[0].(timev)), r.now()))
	})
	reg([]string{"time.Sleep"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		if r.clock == nil {
			r.now()
		}
		r.sleep(a[0].(*Term))
		return nil
	})
	reg([]string{"(time.Time).Add"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return timev{r.c.Add(r.timeNs(a[0].(timev)), a[1].(*Term))}
	})
	reg([]string{"(time.Time).Sub"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.clampDur(r.c.Sub(r.timeNs(a[0].(timev)), r.timeNs(a[1].(timev))))
	})
	reg([]string{"(time.Time).Before"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.c.Lt(r.timeNs(a[0].(timev)), r.timeNs(a[1].(timev)))
	})
	reg([]string{"(time.Time).After"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.c.Gt(r.timeNs(a[0].(timev)), r.timeNs(a[1].(timev)))
	})
	reg([]string{"(time.Time).Equal"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.c.Eq(r.timeNs(a[0].(timev)), r.timeNs(a[1].(timev)))
	})
	reg([]string{"(time.Time).IsZero"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.c.Bool(a[0].(timev).ns == nil)
	})
	reg([]string{"(time.Time).UnixNano"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.wrap(r.timeNs(a[0].(timev)), intInfos[types.Int64])
	})
	reg([]string{"(time.Time).Unix"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.c.Div(r.timeNs(a[0].(timev)), big.NewInt(1e9))
	})
	reg([]string{"(time.Duration).String", "(time.Time).String"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return "duration"
	})
	reg([]string{"runtime.Gosched"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value { r.yieldAll(); return nil })
}
