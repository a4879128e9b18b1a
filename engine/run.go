package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Dec is one recorded decision of a path.
type Dec struct {
	B      bool     // branch outcome
	N      int      // choice
	V      *big.Int // concretised value
	Forced bool     // the other outcome is infeasible
}

var debugBranch = os.Getenv("VBR") != ""

type pathEnd struct{ reason string } // silent end of path (assume false, cut)
type incompleteErr struct{ msg string }
type targetPanic struct {
	v   value
	msg string
}
type killed struct{}

type Input struct {
	Name string
	Kind string // big, int, bool, bytes, choice
	T    *Term
	Id   string // bytes: input id
	Len  *Term
	Val  int
}

type RandDraw struct {
	T   *Term
	Max *Term
}

type Candidate struct {
	Harness string
	Label   string
	Kind    string // assert, panic, deadlock, race, alloc
	Model   map[string]string
	Rand    []string
	Detail  string
	SMT     string
	Reached []string
	prefix  []Dec
}

type Run struct {
	sliced   [8]sliceEnd
	nsliced  int
	dbgFrame *frame
	generic  bool // see zzsym.Generic
	failed   bool // an assertion failed, and the path was continued
	gens     []*env
	e        *Engine
	w        *Worker
	c        *Ctx
	s        *Solver
	h        *Harness

	prefix   []Dec
	trace    []Dec
	forks    [][]Dec
	pc       map[int]bool
	pcList   []*Term
	pins     map[int]*big.Int
	eqs      [][]Mono         // linear forms that are zero
	defs     []eqDef          // the same, solved for inputs
	ub       map[int]*big.Int // upper bounds of forms, from the path condition
	forms    map[int]formKey
	linFacts []*Term
	placed   []*Input // points the replay can give unusual coordinates
	wits     []*env
	nwit     int

	steps   int
	globals map[*ssa.Global]*value
	inited  map[*ssa.Package]bool
	inInit  int

	inputs  []*Input
	names   map[string]int
	draws   []RandDraw
	hashes  []hashEnt
	adopted map[string]*Term
	curveP  *value
	objs    map[string]value

	nfresh      int
	randQ       Rope
	b64         []b64ent
	files       map[string]*fdata
	killing     bool
	exactTime   bool
	adoptedList []adoptedPt
	onCurves    []onCurveUse
	cands       []*Candidate
	reached     map[string]bool
	oblig       int
	disch       int
	unk         []string
	depth       int

	// modes
	summaries     bool
	maxAlloc      int64
	schedules     int
	raceDetect    bool
	forced        map[int]value
	groupVal      iface
	collisionFree bool
	goroutines    []*gor
	cur           *gor
	abort         interface{}
	clock         *Term
	races         map[string]bool
	shadow        map[interface{}]*shadowCell
	side          map[interface{}]*sideEnt
	maxSwitch     int
	nchoices      int
	notes         map[string]bool
}

var debugQ = os.Getenv("VQ") != ""

type hashEnt struct {
	name string
	rope Rope
	id   string
	n    int64

	prints []string
}

func (r *Run) fresh(p string) string {
	r.nfresh++
	return fmt.Sprintf("%s#%d", p, r.nfresh)
}

func (r *Run) note(s string) { r.notes[s] = true }

func (r *Run) incomplete(msg string) { panic(incompleteErr{msg}) }

func (r *Run) assume(t *Term) {
	if t.IsTrue() {
		return
	}
	if t.IsFalse() {
		panic(pathEnd{"assumption false"})
	}
	if t.op == OAnd {
		for _, a := range t.args {
			r.assume(a)
		}
		return
	}
	if r.pc[t.id] {
		return
	}
	r.pc[t.id] = true
	r.pcList = append(r.pcList, t)
	r.learn(t)
	r.learnBounds(t)
	r.learnWit(t)
	r.s.Assert(t)
}

// sat checks the path condition together with t.
func (r *Run) sat(t *Term, ms int) Result {
	if t.IsFalse() || r.pc[r.c.Not(t).id] {
		return Unsat
	}
	if t.IsTrue() || r.pc[t.id] {
		return Sat
	}
	for _, w := range r.wits {
		if v, ok := w.holds(t); v && ok {
			r.e.stat(func() { r.e.witSat++ })
			return Sat
		}
	}
	if r.e.late() {
		r.incomplete("exploration stopped early")
	}
	uns, f := r.fieldCheck(t)
	if uns {
		r.e.stat(func() { r.e.fieldUns++ })
		return Unsat
	}
	if r.witness(t, f, 3) {
		r.e.stat(func() { r.e.witSat++ })
		return Sat
	}
	r.s.Push()
	r.s.Assert(t)
	t0 := time.Now()
	res := r.s.Check(ms)
	r.s.Pop()
	if debugQ {
		fmt.Fprintf(os.Stderr, "--- query %v %.2fs %s pc=%d %s\n", res, time.Since(t0).Seconds(), r.h.Name, len(r.pcList), t)
		if os.Getenv("VQ") == "2" && res != Unsat {
			e := r.newEnv(f, f.leaf, 0, false)
			for _, p := range append(append([]*Term{}, r.pcList...), t) {
				v, ok := e.holds(p)
				fmt.Fprintf(os.Stderr, "   Q %v %v %s\n", v, ok, p)
			}
		}
	}
	return res
}

func (r *Run) known(t *Term) (bool, bool) {
	if t.IsTrue() || r.pc[t.id] {
		return true, true
	}
	if t.IsFalse() || r.pc[r.c.Not(t).id] {
		return false, true
	}
	switch t.op {
	case OAnd:
		all := true
		for _, a := range t.args {
			v, k := r.known(a)
			if k && !v {
				return false, true
			}
			all = all && k
		}
		if all {
			return true, true
		}
	case OOr:
		all := true
		for _, a := range t.args {
			v, k := r.known(a)
			if k && v {
				return true, true
			}
			all = all && k
		}
		if all {
			return false, true
		}
	case ONot:
		v, k := r.known(t.args[0])
		return !v, k
	case OLe0, OEq0:
		return r.byBounds(t)
	}
	return false, false
}

func (r *Run) branch(cond *Term) bool {
	if v, k := r.known(cond); k {
		return v
	}
	pos := len(r.trace)
	if pos < len(r.prefix) {
		d := r.prefix[pos]
		r.trace = append(r.trace, d)
		r.take(cond, d)
		return d.B
	}
	if r.generic {
		if v, ok := r.coincidence(cond); ok {
			d := Dec{B: v, Forced: true}
			r.trace = append(r.trace, d)
			r.take(cond, d)
			r.note("coincidences of values excluded")
			return v
		}
	}
	to := r.e.opt.feasMS
	rt := r.sat(cond, to)
	var d Dec
	if rt == Unsat {
		d = Dec{B: false, Forced: true}
	} else {
		rf := r.sat(r.c.Not(cond), to)
		if rf == Unsat {
			d = Dec{B: true, Forced: true}
		} else {
			if rt == Unknown || rf == Unknown {
				r.e.stat(func() { r.e.branchUnk++ })
			}
			d = Dec{B: true}
			if debugBranch {
				fmt.Fprintf(os.Stderr, "FORK %d: %s\n", pos, trunc(cond.String(), 300))
				for f, k := r.dbgFrame, 0; f != nil && k < 6; f, k = f.caller, k+1 {
					fmt.Fprintf(os.Stderr, "   in %v\n", f.fn)
				}
			}
			r.forks = append(r.forks, append(append([]Dec(nil), r.trace...), Dec{B: false}))
		}
	}
	r.trace = append(r.trace, d)
	r.take(cond, d)
	return d.B
}

func (r *Run) take(cond *Term, d Dec) {
	if !d.B {
		cond = r.c.Not(cond)
	}
	r.assume(cond)
}

// choose picks one of n alternatives nondeterministically (all are explored).
func (r *Run) choose(n int) int {
	if n <= 1 {
		return 0
	}
	pos := len(r.trace)
	if pos < len(r.prefix) {
		d := r.prefix[pos]
		r.trace = append(r.trace, d)
		return d.N
	}
	for i := n - 1; i >= 1; i-- {
		r.forks = append(r.forks, append(append([]Dec(nil), r.trace...), Dec{N: i}))
	}
	r.trace = append(r.trace, Dec{N: 0})
	return 0
}

// concInt forces a term to a concrete integer, forking over its values.
func (r *Run) concInt(t *Term, why string) int64 {
	if t.IsConst() {
		if !t.c.IsInt64() {
			r.incomplete("concretise: too large: " + why)
		}
		return t.c.Int64()
	}
	if t.lo != nil && t.hi != nil && t.hi.IsInt64() && t.lo.IsInt64() && t.hi.Int64()-t.lo.Int64() <= int64(r.e.opt.maxConc) {
		for v := t.lo.Int64(); v < t.hi.Int64(); v++ {
			if r.branch(r.c.Eq(t, r.c.I(v))) {
				return v
			}
		}
		r.assume(r.c.Eq(t, r.c.Const(t.hi)))
		return t.hi.Int64()
	}
	for i := 0; i < r.e.opt.maxConc; i++ {
		pos := len(r.trace)
		var v *big.Int
		if pos < len(r.prefix) {
			v = r.prefix[pos].V
			r.trace = append(r.trace, r.prefix[pos])
		} else {
			r.s.Push()
			r.s.Emit(t)
			res := r.s.Check(r.e.opt.feasMS)
			if res == Unknown {
				res = r.s.Check(r.e.opt.assertMS)
			}
			if res == Unknown {
				res = r.s.FallbackCheck(r.e.opt.fallback)
				if res == Sat {
					res = Unknown // no model at hand
				}
			}
			if res == Unsat {
				r.s.Pop()
				panic(pathEnd{"assumption false"})
			}
			if res != Sat {
				r.s.Pop()
				r.incomplete("concretise: no model: " + why)
			}
			vs, err := r.s.Eval([]*Term{t})
			r.s.Pop()
			if err != nil {
				r.incomplete("concretise: " + err.Error())
			}
			v = vs[0]
			r.trace = append(r.trace, Dec{V: v})
		}
		if r.branch(r.c.Eq(t, r.c.Const(v))) {
			if !v.IsInt64() {
				r.incomplete("concretise: too large: " + why)
			}
			return v.Int64()
		}
	}
	r.incomplete("too many values to concretise: " + why)
	return 0
}

// entailed reports whether the path condition implies t (no fork).
func (r *Run) entailed(t *Term) bool {
	if v, k := r.known(t); k {
		return v
	}
	pos := len(r.trace)
	if pos < len(r.prefix) {
		d := r.prefix[pos]
		r.trace = append(r.trace, d)
		return d.B
	}
	b := r.sat(r.c.Not(t), r.e.opt.feasMS) == Unsat
	r.trace = append(r.trace, Dec{B: b})
	return b
}

func (r *Run) abs(t *Term) *Term {
	if t.lo != nil && t.lo.Sign() >= 0 {
		return t
	}
	if t.hi != nil && t.hi.Sign() <= 0 {
		return r.c.Neg(t)
	}
	if r.branch(r.c.Ge(t, r.c.I(0))) {
		return t
	}
	return r.c.Neg(t)
}

func (r *Run) gopanic(msg string) {
	panic(targetPanic{iface{types.Typ[types.String], msg}, msg})
}

// ---- assertions ----

func (r *Run) assertProp(cond *Term, label string) {
	r.oblig++
	r.reached[label] = true
	if v, k := r.known(cond); k && v {
		r.disch++
		r.e.stat(func() { r.e.trivial++ })
		return
	}
	neg := r.c.Not(cond)
	if r.generic {
		if v, ok := r.coincidence(cond); ok && !v && r.witnesses()[0].satisfies(neg) {
			// it holds by coincidence only
			r.s.Push()
			r.s.Assert(neg)
			r.addCandidate("assert", label, "", neg)
			r.s.Pop()
			r.failed = true
			return
		}
	}
	t0 := time.Now()
	r.s.Push()
	r.s.Assert(neg)
	res := r.s.Check(1000)
	if res == Unknown && r.fieldUnsat(neg) {
		r.s.Pop()
		r.disch++
		r.e.stat(func() { r.e.fieldUns++; r.e.solvedF++ })
		r.assume(cond)
		return
	}
	if res == Unknown {
		uns, f := r.fieldCheckD(neg, true)
		if uns {
			r.s.Pop()
			r.disch++
			r.e.stat(func() { r.e.fieldUns++; r.e.solvedF++ })
			r.assume(cond)
			return
		}
		if r.witness(neg, f, 6) {
			res = Sat
		}
	}
	if res == Unknown {
		res = r.s.Check(r.e.opt.assertMS)
	}
	if res == Unknown {
		res = r.s.FallbackCheck(r.e.opt.fallback)
	}
	if debugQ {
		fmt.Fprintf(os.Stderr, "--- query %v %.2fs %s assert %s pc=%d %s\n", res, time.Since(t0).Seconds(), r.h.Name, label, len(r.pcList), neg)
	}
	switch res {
	case Unsat:
		r.s.Pop()
		r.disch++
		r.e.stat(func() { r.e.solved++ })
	case Unknown:
		r.s.Pop()
		r.unk = append(r.unk, "assertion undecided: "+label)
		if os.Getenv("VPC") != "" {
			fmt.Fprintf(os.Stderr, "--- undecided %s %s: %s\n", r.h.Name, label, cond)
			for _, p := range r.pcList {
				fmt.Fprintln(os.Stderr, "   ", p)
			}
		}
	case Sat:
		r.addCandidate("assert", label, "", neg)
		r.s.Pop()
		if r.sat(cond, r.e.opt.feasMS) == Unsat {
			panic(pathEnd{"assertion fails on the whole path"})
		}
	}
	r.assume(cond)
}

// violation: the current path itself is a violation.
func (r *Run) violation(kind, label, detail string) {
	r.s.Push()
	res := r.s.Check(r.e.opt.assertMS)
	if res == Unknown {
		res = r.s.FallbackCheck(r.e.opt.fallback)
	}
	if res != Unsat {
		r.addCandidate(kind, label, detail, nil)
	}
	r.s.Pop()
}

// addCandidate is called with the violating constraints asserted.
func (r *Run) addCandidate(kind, label, detail string, neg *Term) {
	if r.e.candCount(r.h.Name+"/"+label) >= r.e.opt.maxCand {
		r.cands = append(r.cands, nil)
		return
	}
	if os.Getenv("VPC") != "" {
		fmt.Fprintf(os.Stderr, "--- candidate %s %s %s %v\n", r.h.Name, label, detail, neg)
		for _, p := range r.pcList {
			fmt.Fprintln(os.Stderr, "   ", p)
		}
	}
	ms := r.concreteModels(neg, 2)
	if len(ms) == 0 {
		for variant := 0; variant < 3; variant++ {
			if m := r.extractModel(variant); m != nil {
				ms = append(ms, m)
			}
		}
	}
	for _, m := range ms {
		m.Harness, m.Kind, m.Label, m.Detail = r.h.Name, kind, label, detail
		m.SMT = ""
		m.prefix = append([]Dec(nil), r.trace...)
		r.cands = append(r.cands, m)
		r.e.addCand(m)
	}
	if len(r.cands) == 0 {
		r.unk = append(r.unk, "no realisable model for "+label)
	}
}

// extractModel builds concrete inputs. Variants add realisation constraints.
func (r *Run) extractModel(variant int) *Candidate {
	s := r.s
	s.Push()
	defer s.Pop()
	// exact byte lengths for all emitted terms
	lens := map[int]*Term{}
	for _, t := range r.c.list {
		if t.op == OApp && t.name == "blen" && s.has(t.id) {
			s.Realize(t)
			lens[t.args[0].id] = t.args[0]
		}
	}
	r.realizeCoords()
	r.realizeOnCurve()
	switch variant {
	case 1:
		// prefer "generic" values: large, pairwise different
		for i, in := range r.inputs {
			if in.Kind == "big" && in.T != nil && !in.T.IsConst() && in.T.hi != nil && in.T.hi.BitLen() > 64 {
				s.Push()
				s.Assert(r.c.Gt(in.T, r.c.Const(new(big.Int).Add(pow2(uint(60+i)), big.NewInt(int64(12345+i))))))
				if s.Check(r.e.opt.feasMS) != Sat {
					s.Pop()
				} else {
					defer s.Pop()
				}
			}
		}
	case 2:
		for _, in := range r.inputs {
			if in.Kind == "big" && in.T != nil && !in.T.IsConst() {
				s.Push()
				s.Assert(r.c.Lt(in.T, r.c.I(1000)))
				if s.Check(r.e.opt.feasMS) != Sat {
					s.Pop()
				} else {
					defer s.Pop()
				}
			}
		}
	}
	var ts []*Term
	for _, in := range r.inputs {
		if in.T != nil {
			s.Emit(in.T)
			ts = append(ts, in.T)
		}
		if in.Len != nil {
			s.Emit(in.Len)
			ts = append(ts, in.Len)
		}
	}
	for _, d := range r.draws {
		s.Emit(d.T)
		s.Emit(d.Max)
		ts = append(ts, d.T, d.Max)
	}
	var byteTerms []*Term
	for _, t := range r.c.list {
		if t.op == OApp && (strings.HasPrefix(t.name, "byte|in:") || strings.HasPrefix(t.name, "b2i|in:")) && s.has(t.id) {
			for _, a := range t.args {
				s.Emit(a)
				ts = append(ts, a)
			}
			ts = append(ts, t)
			byteTerms = append(byteTerms, t)
		}
	}
	ms := r.e.opt.assertMS
	if variant < 0 {
		ms = 2000
	}
	if s.Check(ms) != Sat {
		return nil
	}
	vals, err := s.Eval(ts)
	if err != nil {
		return nil
	}
	val := map[int]*big.Int{}
	for i, t := range ts {
		val[t.id] = vals[i]
	}
	c := &Candidate{Model: map[string]string{}}
	for _, in := range r.inputs {
		switch in.Kind {
		case "choice":
			c.Model[in.Name] = fmt.Sprint(in.Val)
		case "bytes":
			n := val[in.Len.id].Int64()
			if n > 1<<22 {
				return nil
			}
			buf := make([]byte, n)
			pat := byte(0)
			if variant == 1 {
				pat = 0x11
			}
			for i := range buf {
				buf[i] = pat
			}
			// wide views first, then single bytes
			for pass := 0; pass < 2; pass++ {
				for _, t := range byteTerms {
					if pass == 0 && t.name == "b2i|"+in.Id {
						off, ln := val[t.args[0].id].Int64(), val[t.args[1].id].Int64()
						if off < 0 || ln < 0 || off+ln > n || val[t.id].BitLen() > int(8*ln) {
							continue
						}
						val[t.id].FillBytes(buf[off : off+ln])
					}
					if pass == 1 && t.name == "byte|"+in.Id {
						o := val[t.args[0].id]
						if o.Sign() >= 0 && o.IsInt64() && o.Int64() < n {
							buf[o.Int64()] = byte(val[t.id].Int64())
						}
					}
				}
			}
			c.Model[in.Name] = fmt.Sprintf("%x", buf)
		default:
			c.Model[in.Name] = val[in.T.id].String()
		}
	}
	for _, d := range r.draws {
		mx := val[d.Max.id]
		k := (new(big.Int).Sub(mx, bigOne).BitLen() + 7) / 8
		c.Rand = append(c.Rand, fmt.Sprintf("%x", val[d.T.id].FillBytes(make([]byte, k))))
	}
	return c
}

// realizeCoords ties coordinate terms whose lengths matter to real points.
func (r *Run) realizeCoords() {
	for _, t := range r.c.list {
		if t.op != OApp || (t.name != "X" && t.name != "Y") || !r.s.has(t.id) {
			continue
		}
		bl, ok := r.c.tab["ablen,"+fmt.Sprint(t.id)]
		if !ok || !r.s.has(bl.id) {
			continue
		}
		d := t.args[0]
		// generic points have full-length coordinates; short ones come from a table
		var alts []*Term
		alts = append(alts, r.c.Ge(t, r.c.Const(pow2(248))))
		for _, p := range shortPoints() {
			xy := p.x
			if t.name == "Y" {
				xy = p.y
			}
			if xy.BitLen() > 248 {
				continue
			}
			alts = append(alts, r.c.And(r.c.Eq(d, r.c.I(p.d)), r.c.Eq(t, r.c.Const(xy))))
			// the partner coordinate
			for _, o := range r.c.list {
				if o.op == OApp && (o.name == "X" || o.name == "Y") && o != t && o.args[0] == d && r.s.has(o.id) {
					oxy := p.y
					if o.name == "X" {
						oxy = p.x
					}
					alts[len(alts)-1] = r.c.And(alts[len(alts)-1], r.c.Eq(o, r.c.Const(oxy)))
				}
			}
		}
		r.s.Assert(r.c.Or(alts...))
	}
}

func sortedKeys(m map[string]bool) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
