package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

const repoMod = "gitlab.com/alephledger/threshold-ecdsa"

type Options struct {
	feasMS   int
	assertMS int
	fallback time.Duration
	maxConc  int
	maxSteps int
	maxLoop  int
	maxCand  int
	workers  int
	deadline time.Time
	maxPaths int
	verbose  bool
}

type Engine struct {
	opt  Options
	prog *ssa.Program

	mu        sync.Mutex
	trivial   int
	solved    int
	cands     []*Candidate
	searches  map[string]int
	candBy    map[string]int
	funcs     map[*ssa.Function]bool
	intrMu    sync.RWMutex
	intrCache map[*ssa.Function]intrinsicFn
	intrSeen  map[*ssa.Function]bool
	modelled  map[string]bool

	// summaries of the curve group, valid once the lemmas are proved
	sumOK                        bool
	sumWhy                       string
	notes                        map[string]bool
	queries                      int
	nsat                         int
	nunsat                       int
	nunknown                     int
	fallback                     int
	solveT                       time.Duration
	fieldUns, solvedF, branchUnk int
	witSat                       int

	halt   atomic.Bool // a confirmed violation ends the exploration
	onCand func(*Candidate)
}

func NewEngine() *Engine {
	return &Engine{candBy: map[string]int{}, funcs: map[*ssa.Function]bool{}, intrCache: map[*ssa.Function]intrinsicFn{}, intrSeen: map[*ssa.Function]bool{}, modelled: map[string]bool{}, notes: map[string]bool{}}
}

func (e *Engine) stat(f func()) {
	e.mu.Lock()
	f()
	e.mu.Unlock()
}

func (e *Engine) candCount(key string) int {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.candBy[key]
}

// searchCount counts the searches for witnesses of a harness.
func (e *Engine) searchCount(h string) int {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.searches == nil {
		e.searches = map[string]int{}
	}
	e.searches[h]++
	return e.searches[h] - 1
}

func (e *Engine) addCand(c *Candidate) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.candBy[c.Harness+"/"+c.Label]++
	e.cands = append(e.cands, c)
	if e.onCand != nil {
		go e.onCand(c)
	}
}

var initPkgs = map[string]bool{"io": true, "errors": true, "bufio": true, "context": true, "strconv": true, "math/bits": true, "unicode/utf8": true, "encoding/hex": true, "sort": true, "slices": true, "internal/itoa": true, "internal/stringslite": true}

func (e *Engine) initAllowed(p *ssa.Package) bool {
	path := p.Pkg.Path()
	return initPkgs[path] || strings.HasPrefix(path, "gitlab.com/alephledger/") || strings.HasPrefix(path, "github.com/binance-chain/") || strings.HasPrefix(path, "github.com/rs/zerolog")
}

func (e *Engine) intrinsic(fn *ssa.Function) (intrinsicFn, bool) {
	e.intrMu.RLock()
	f, seen := e.intrCache[fn], e.intrSeen[fn]
	e.intrMu.RUnlock()
	if seen {
		return f, f != nil
	}
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	name := o.String()
	f = intrinsics[name]
	if f == nil && o.Pkg != nil && strings.HasSuffix(o.Pkg.Pkg.Path(), "/zzsym") {
		f = intrinsics["zzsym."+o.Name()]
	}
	e.intrMu.Lock()
	e.intrSeen[fn] = true
	e.intrCache[fn] = f
	if f != nil && !strings.Contains(name, "/zzsym.") {
		e.modelled[name] = true
	}
	e.intrMu.Unlock()
	return f, f != nil
}

func (e *Engine) noteFunc(fn *ssa.Function) {
	e.mu.Lock()
	e.funcs[fn] = true
	e.mu.Unlock()
}

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.prog.LookupMethod(t, m.Pkg(), m.Name())
}

// encodedFuncs lists the repository functions that were executed symbolically.
func (e *Engine) encodedFuncs() []string {
	set := map[string]bool{}
	for f := range e.funcs {
		o := f
		for o.Parent() != nil {
			o = o.Parent()
		}
		if o.Pkg == nil {
			continue
		}
		p := o.Pkg.Pkg.Path()
		if !strings.HasPrefix(p, repoMod) || strings.HasSuffix(p, "/zzsym") || strings.HasPrefix(o.Name(), "Verif") || o.Synthetic != "" {
			continue
		}
		pos := e.prog.Fset.Position(o.Pos())
		if strings.Contains(pos.Filename, "/zz_verif") || strings.Contains(pos.Filename, "/harness/") {
			continue
		}
		set[strings.TrimPrefix(o.String(), "")] = true
	}
	return sortedKeys(set)
}

type Harness struct {
	Name string
	Fn   *ssa.Function
	Pkg  string

	paths    int
	complete int
	pruned   int
	oblig    int
	disch    int
	reached  map[string]bool
	incompl  map[string]int
	bounds   map[string]bool
	work     [][]Dec
	cut      bool // exploration stopped before exhausting the paths
	choices  int
	samples  []*Candidate // models of complete paths, for validation
	steps    int64
}

type Worker struct {
	e *Engine
	c *Ctx
	s *Solver
}

func (e *Engine) newWorker() *Worker {
	c := NewCtx()
	setupCurve(c)
	return &Worker{e: e, c: c, s: NewSolver(c)}
}

func (w *Worker) close() {
	w.retire()
	w.s.Close()
}

func (w *Worker) retire() {
	e := w.e
	e.mu.Lock()
	e.queries += w.s.Queries
	e.nsat += w.s.NSat
	e.nunsat += w.s.NUnsat
	e.nunknown += w.s.NUnknown
	e.fallback += w.s.Fallback
	e.solveT += w.s.Time
	e.mu.Unlock()
	w.s.Queries, w.s.NSat, w.s.NUnsat, w.s.NUnknown, w.s.Fallback, w.s.Time = 0, 0, 0, 0, 0, 0
}

// runPath executes the harness along the given decision prefix.
func (w *Worker) runPath(h *Harness, prefix []Dec) (r *Run, end string) {
	if len(w.c.list) > 150000 {
		w.retire()
		w.s.Close()
		w.c = NewCtx()
		setupCurve(w.c)
		w.s = NewSolver(w.c)
	}
	w.s.Push()
	base := w.s.Depth()
	r = &Run{e: w.e, w: w, c: w.c, s: w.s, h: h, prefix: prefix,
		pc: map[int]bool{}, globals: map[*ssa.Global]*value{}, inited: map[*ssa.Package]bool{},
		names: map[string]int{}, adopted: map[string]*Term{}, objs: map[string]value{},
		reached: map[string]bool{}, races: map[string]bool{}, notes: map[string]bool{}, forced: map[int]value{}}
	r.summaries = w.e.sumOK
	r.initSched()
	func() {
		defer func() {
			p := recover()
			if r.abort != nil {
				if _, is := p.(killed); is || p == nil {
					p = r.abort
				}
			}
			func() {
				defer func() {
					if q := recover(); q != nil && os.Getenv("VDEBUG") != "" {
						fmt.Fprintln(os.Stderr, "killAll:", q)
					}
				}()
				r.killAll()
			}()
			if p == nil {
				end = "ok"
				return
			}
			for w.s.Depth() > base {
				w.s.Pop()
			}
			end = r.endOf(p)
		}()
		r.call(nil, h.Fn, nil)
	}()
	if end == "ok" && !r.failed && len(h.samples) < 2 && w.e.opt.maxCand > 0 {
		func() {
			defer func() { recover() }()
			var m *Candidate
			if ms := r.concreteModels(nil, 1); len(ms) > 0 {
				m = ms[0]
			} else {
				m = r.extractModel(-1)
			}
			if m != nil {
				m.Harness, m.Kind, m.Label = h.Name, "sample", ""
				for l := range r.reached {
					m.Reached = append(m.Reached, l)
				}
				sort.Strings(m.Reached)
				w.e.mu.Lock()
				h.samples = append(h.samples, m)
				w.e.mu.Unlock()
			}
		}()
		for w.s.Depth() > base {
			w.s.Pop()
		}
	}
	w.s.Pop()
	return r, end
}

func (r *Run) endOf(p interface{}) string {
	switch x := p.(type) {
	case pathEnd:
		return "end: " + x.reason
	case incompleteErr:
		if os.Getenv("VPC") != "" {
			fmt.Fprintf(os.Stderr, "--- incomplete %s %s\n", r.h.Name, x.msg)
			for _, p := range r.pcList {
				fmt.Fprintln(os.Stderr, "   ", p)
			}
		}
		return "incomplete: " + x.msg
	case unsupported:
		return "incomplete: unsupported: " + x.msg
	case targetPanic:
		end := "panic"
		func() {
			defer func() {
				if q := recover(); q != nil {
					end = fmt.Sprintf("incomplete: %v", q)
				}
			}()
			r.violation("panic", "panic: "+x.msg, "")
		}()
		return end
	case killed:
		return "incomplete: killed"
	}
	if os.Getenv("VDEBUG") != "" {
		panic(p)
	}
	return fmt.Sprintf("incomplete: engine error: %v", p)
}

// late says whether the path being explored has to be given up.
func (e *Engine) late() bool {
	return e.halt.Load() || time.Now().After(e.opt.deadline.Add(20*time.Second))
}

// explore runs all paths of the harness.
func (e *Engine) explore(h *Harness, ws []*Worker) {
	h.reached = map[string]bool{}
	h.incompl = map[string]int{}
	h.bounds = map[string]bool{}
	h.work = [][]Dec{nil}
	e.resume(h, ws, e.opt.deadline)
}

// resume goes on with a harness; what is left when the time is up stays in h.work.
func (e *Engine) resume(h *Harness, ws []*Worker, until time.Time) {
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	work := h.work
	active := 0
	stop, pause := false, false
	var wg sync.WaitGroup
	for _, w := range ws {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				for len(work) == 0 && active > 0 && !stop && !pause {
					cond.Wait()
				}
				if stop || pause || len(work) == 0 {
					cond.Broadcast()
					mu.Unlock()
					return
				}
				p := work[len(work)-1]
				work = work[:len(work)-1]
				active++
				mu.Unlock()
				r, end := w.runPath(h, p)
				mu.Lock()
				active--
				h.paths++
				h.steps += int64(r.steps)
				h.oblig += r.oblig
				h.disch += r.disch
				for l := range r.reached {
					h.reached[l] = true
				}
				for b := range r.notes {
					h.bounds[b] = true
				}
				for _, u := range r.unk {
					h.incompl[u]++
				}
				switch {
				case end == "ok" || end == "panic":
					h.complete++
				case strings.HasPrefix(end, "incomplete: "):
					h.incompl[strings.TrimPrefix(end, "incomplete: ")]++
				default:
					h.pruned++
				}
				if e.opt.verbose {
					fmt.Fprintf(os.Stderr, "[%s] path %d dec=%d: %s (work %d)\n", h.Name, h.paths, len(r.trace), end, len(work)+len(r.forks))
				}
				work = append(work, r.forks...)
				if (len(work) > 0 || active > 0) && (e.halt.Load() || time.Now().After(e.opt.deadline) || h.paths >= e.opt.maxPaths || len(r.cands) > 0 && e.candCountH(h.Name) >= 6) {
					stop = true
					h.cut = true
				}
				if time.Now().After(until) {
					pause = true
				}
				cond.Broadcast()
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	h.work = work
	if stop {
		h.work = nil
	}
}

func (e *Engine) candCountH(h string) int {
	e.mu.Lock()
	defer e.mu.Unlock()
	n := 0
	for _, c := range e.cands {
		if c.Harness == h {
			n++
		}
	}
	return n
}
