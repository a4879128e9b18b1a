package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"
)

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "", "directory of this framework")
	only := flag.String("only", "", "run only harnesses whose name contains this")
	verbose := flag.Bool("v", false, "print every path")
	keep := flag.Bool("keep", false, "keep the scratch directory")
	noval := flag.Bool("noval", false, "do not validate sample paths natively")
	maxPaths := flag.Int("maxpaths", 200000, "")
	replay := flag.String("replay", "", "replay a counterexample file natively")
	flag.Parse()
	if f := os.Getenv("VPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if *verif == "" {
		exe, _ := os.Executable()
		*verif = filepath.Dir(filepath.Dir(exe))
	}
	if *replay != "" {
		os.Exit(replayFile(*repo, *verif, *replay))
	}
	c := &checker{prop: *prop, tier: *tier, repo: *repo, verif: *verif, only: *only, verbose: *verbose, keep: *keep, noval: *noval, maxPaths: *maxPaths, t0: time.Now()}
	rc := c.main()
	pprof.StopCPUProfile()
	os.Exit(rc)
}

type checker struct {
	prop, tier, repo, verif, only string
	verbose, keep, noval          bool
	maxPaths                      int
	t0                            time.Time
	b                             *Build
	e                             *Engine
	problems                      []string
	known                         []string
	validated, disagree           int
	hs                            []*Harness
	lemmas                        []*Harness
	unconfirmed                   []string
	samples                       []string
}

func (c *checker) phase(s string) {
	if c.verbose || os.Getenv("VTIME") != "" {
		fmt.Fprintf(os.Stderr, "%6.2fs %s\n", time.Since(c.t0).Seconds(), s)
	}
}

func (c *checker) main() (code int) {
	e := NewEngine()
	c.e = e
	thorough := c.tier == "thorough"
	e.opt = Options{feasMS: 1500, assertMS: 15000, fallback: 15 * time.Second, maxConc: 64, maxSteps: 3_000_000, maxLoop: 400, maxCand: 4, workers: runtime.NumCPU(), maxPaths: c.maxPaths, verbose: c.verbose}
	e.opt.deadline = c.t0.Add(240 * time.Second)
	if thorough {
		e.opt.assertMS, e.opt.fallback = 60000, 60*time.Second
		e.opt.maxLoop = 2000
		e.opt.deadline = c.t0.Add(600 * time.Second)
	}
	if e.opt.workers > 8 {
		e.opt.workers = 8
	}
	defer func() {
		if p := recover(); p != nil && !c.verbose {
			fmt.Println("INCOMPLETE property="+c.prop, "engine failure:", p)
			c.problems = append(c.problems, fmt.Sprint(p))
			c.writeEvidence("incomplete")
			code = 0
		} else if p != nil {
			panic(p)
		}
	}()
	b, err := newBuild(c.repo, c.verif, c.prop)
	if err != nil {
		fmt.Println("INCOMPLETE property="+c.prop, err)
		c.problems = append(c.problems, err.Error())
		c.writeEvidence("incomplete")
		return 0
	}
	c.b = b
	if !c.keep {
		defer os.RemoveAll(b.tmp)
	}
	prog, pkgs, err := b.loadRetry()
	c.problems = append(c.problems, b.notes...)
	if err != nil {
		for _, p := range c.problems {
			fmt.Println("INCOMPLETE property="+c.prop, p)
		}
		c.problems = append(c.problems, "the program could not be loaded: "+err.Error())
		fmt.Println("INCOMPLETE property="+c.prop, err)
		c.writeEvidence("incomplete")
		return 0
	}
	c.phase("loaded")
	e.prog = prog
	ws := make([]*Worker, e.opt.workers)
	for i := range ws {
		ws[i] = e.newWorker()
	}
	defer func() {
		for _, w := range ws {
			w.s.Close()
		}
	}()
	if needLemmas(c.prop) {
		c.lemmas = harnesses(pkgs, "VerifLemma_", thorough)
		ok := len(c.lemmas) > 0
		mc := e.opt.maxCand
		e.opt.maxCand = 0
		for _, h := range c.lemmas {
			good := false
			for try := 0; try < 3 && !good; try++ {
				// a solver that ran out of time on a busy machine gets another chance
				h.paths, h.complete, h.pruned, h.oblig, h.disch, h.steps, h.cut = 0, 0, 0, 0, 0, 0, false
				e.explore(h, ws)
				good = c.clean(h) && h.oblig == h.disch && h.oblig > 0
			}
			if !good {
				ok = false
				c.problems = append(c.problems, "lemma not established: "+h.Name+": "+c.why(h))
			}
		}
		e.opt.maxCand = mc
		e.sumOK = ok
		e.cands = nil
		e.candBy = map[string]int{}
		c.phase(fmt.Sprintf("lemmas: %v", ok))
	}
	for _, h := range harnesses(pkgs, "Verif"+c.prop+"_", thorough) {
		if c.only == "" || strings.Contains(h.Name, c.only) {
			c.hs = append(c.hs, h)
		}
	}
	if len(c.hs) == 0 {
		c.problems = append(c.problems, "no harness available")
	}
	rp := &Replayer{b: b, hs: c.hs, bin: map[bool]string{}, errs: map[bool]string{}}
	if len(c.hs) > 0 && !c.noval {
		go rp.build(false)
	}
	if !c.noval {
		c.watch(rp)
	}
	// every harness gets a worker for some time, then the long ones are completed
	slice := 15 * time.Second
	if thorough {
		slice = 60 * time.Second
	}
	var left []*Harness
	var mu sync.Mutex
	run := func(h *Harness, ws []*Worker, until time.Time, last bool) {
		if e.halt.Load() {
			mu.Lock()
			c.problems = append(c.problems, h.Name+": not explored, a violation is confirmed")
			mu.Unlock()
			return
		}
		if until.After(e.opt.deadline) {
			until = e.opt.deadline
		}
		e.resume(h, ws, until)
		mu.Lock()
		defer mu.Unlock()
		if len(h.work) > 0 {
			if !last {
				left = append(left, h)
				return
			}
			h.cut = true
		}
		if !c.clean(h) {
			c.problems = append(c.problems, h.Name+": "+c.why(h))
		}
		c.phase(fmt.Sprintf("%s: paths=%d complete=%d pruned=%d oblig=%d disch=%d cands=%d %s", h.Name, h.paths, h.complete, h.pruned, h.oblig, h.disch, e.candCountH(h.Name), c.why(h)))
	}
	next := make(chan *Harness, len(c.hs))
	for _, h := range c.hs {
		h.reached, h.incompl, h.bounds, h.work = map[string]bool{}, map[string]int{}, map[string]bool{}, [][]Dec{nil}
		next <- h
	}
	close(next)
	var wg sync.WaitGroup
	for _, w := range ws {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for h := range next {
				run(h, []*Worker{w}, time.Now().Add(slice), false)
			}
		}()
	}
	wg.Wait()
	sort.Slice(left, func(i, j int) bool { return left[i].Name < left[j].Name })
	todo := left
	for _, h := range todo {
		run(h, ws, e.opt.deadline, true)
	}
	sort.Strings(c.problems)
	for _, w := range ws {
		w.retire()
	}
	confirmed := c.confirm(rp)
	if !c.noval && len(confirmed) == 0 {
		c.validate(rp)
	}
	c.phase("replayed")
	status := "held"
	if len(c.problems) > 0 || len(c.unconfirmed) > 0 {
		status = "incomplete"
	}
	if len(confirmed) > 0 {
		status = "violated"
		code = 1
	}
	for _, p := range c.problems {
		fmt.Println("INCOMPLETE property="+c.prop, p)
	}
	for _, p := range c.unconfirmed {
		fmt.Println("UNCONFIRMED property="+c.prop, p)
	}
	for _, k := range c.known {
		fmt.Println("KNOWN-FINDING: property="+c.prop, k)
	}
	for _, l := range confirmed {
		fmt.Println(l)
	}
	c.writeEvidence(status)
	fmt.Printf("%s %s: %s; %d harnesses, %d paths, %d obligations (%d by solver, %d mod N, %d by rewriting), %d queries, solver %.1fs, wall %.1fs\n",
		c.prop, c.tier, status, len(c.hs), c.sum(func(h *Harness) int { return h.paths }), c.sum(func(h *Harness) int { return h.oblig }), e.solved, e.solvedF, e.trivial, e.queries, e.solveT.Seconds(), time.Since(c.t0).Seconds())
	return code
}

func (c *checker) clean(h *Harness) bool {
	return len(h.incompl) == 0 && !h.cut && h.complete > 0
}

func (c *checker) why(h *Harness) string {
	var s []string
	for k, n := range h.incompl {
		s = append(s, fmt.Sprintf("%s (x%d)", k, n))
	}
	sort.Strings(s)
	if h.cut {
		s = append(s, "exploration stopped early")
	}
	if h.complete == 0 {
		s = append(s, "no path completed")
	}
	return strings.Join(s, "; ")
}

func (c *checker) sum(f func(*Harness) int) int {
	n := 0
	for _, h := range c.hs {
		n += f(h)
	}
	return n
}

// watch replays candidates while the exploration goes on and ends it as soon
// as one is confirmed that is no known finding.
func (c *checker) watch(rp *Replayer) {
	kf := loadKnown(filepath.Join(c.verif, "known_findings.txt"), c.prop)
	var mu sync.Mutex
	c.e.onCand = func(cd *Candidate) {
		mu.Lock()
		defer mu.Unlock()
		if c.e.halt.Load() || cd.Kind == "race" || kf.match(cd.Harness, cd.Label) != "" {
			return
		}
		if confirms(cd, rp.run(cd, false)) {
			c.e.halt.Store(true)
		}
	}
}

// confirm replays the counterexamples on the real code.
func (c *checker) confirm(rp *Replayer) []string {
	var lines []string
	if len(c.e.cands) == 0 {
		return nil
	}
	kf := loadKnown(filepath.Join(c.verif, "known_findings.txt"), c.prop)
	type key struct{ h, l string }
	state := map[key]int{} // 1 tried, 2 confirmed
	order := []key{}
	byKey := map[key][]*Candidate{}
	for _, cd := range c.e.cands {
		k := key{cd.Harness, cd.Label}
		if state[k] == 0 {
			state[k] = 1
			order = append(order, k)
		}
		byKey[k] = append(byKey[k], cd)
	}
	for _, k := range order {
		done := false
		last := ""
		for _, cd := range byKey[k] {
			race := cd.Kind == "race"
			tries := 1
			if race {
				tries = 12
			}
			for t := 0; t < tries && !done; t++ {
				o := rp.run(cd, race)
				last = o.kind + " " + o.label
				if os.Getenv("VPC") != "" {
					j, _ := json.Marshal(cd)
					fmt.Fprintln(os.Stderr, "candidate", string(j), "->", last)
				}
				if o.kind == "other" {
					last += firstLines(o.out, 3)
				}
				if !confirms(cd, o) {
					continue
				}
				done = true
				if f := kf.match(k.h, k.l); f != "" {
					c.known = append(c.known, f)
					break
				}
				path := c.saveReplay(cd, o)
				lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", c.prop, path))
				lines = append(lines, fmt.Sprintf("  %s: %s (native: %s %s)", cd.Harness, cd.Label, o.kind, o.label))
			}
			if done {
				break
			}
		}
		if !done {
			c.unconfirmed = append(c.unconfirmed, fmt.Sprintf("%s: %s: counterexample not reproduced natively (%s)", k.h, k.l, last))
		}
	}
	return lines
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " / ")
}

type replayRec struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Label    string            `json:"label"`
	Kind     string            `json:"kind"`
	Model    map[string]string `json:"model"`
	Rand     []string          `json:"rand"`
	Native   string            `json:"native_output"`
}

func (c *checker) saveReplay(cd *Candidate, o outcome) string {
	dir := filepath.Join(c.verif, "evidence", "replay")
	os.MkdirAll(dir, 0755)
	base := fmt.Sprintf("%s-%s-%x", c.prop, cd.Harness, hashStr(cd.Label))
	p := filepath.Join(dir, base+".json")
	j, _ := json.MarshalIndent(replayRec{c.prop, cd.Harness, cd.Label, cd.Kind, cd.Model, cd.Rand, firstLines(o.out, 40)}, "", " ")
	os.WriteFile(p, j, 0644)
	return p
}

func hashStr(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return h
}

// validate runs sample paths natively and compares what they reach.
func (c *checker) validate(rp *Replayer) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 4)
	var mu sync.Mutex
	for _, h := range c.hs {
		for _, s := range h.samples {
			h, s := h, s
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				o := rp.run(s, false)
				mu.Lock()
				defer mu.Unlock()
				c.validated++
				j, _ := json.Marshal(s.Model)
				if len(c.samples) < 6 {
					c.samples = append(c.samples, fmt.Sprintf("%s %s -> %s", h.Name, trunc(string(j), 400), o.kind))
				}
				if o.kind != "ok" || strings.Join(o.reached, "|") != strings.Join(s.Reached, "|") {
					c.disagree++
					c.problems = append(c.problems, fmt.Sprintf("sample path of %s behaves differently natively: %s %s; symbolic %v native %v %s", h.Name, o.kind, o.label, s.Reached, o.reached, firstLines(o.out, 2)))
				}
			}()
		}
	}
	wg.Wait()
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (c *checker) writeEvidence(status string) {
	e := c.e
	dir := filepath.Join(c.verif, "evidence")
	os.MkdirAll(dir, 0755)
	type hrec struct {
		Name      string   `json:"name"`
		Paths     int      `json:"paths"`
		Complete  int      `json:"paths_completed"`
		Infeas    int      `json:"paths_pruned_by_assumptions"`
		Oblig     int      `json:"obligations"`
		Disch     int      `json:"discharged"`
		Steps     int64    `json:"ssa_instructions_executed"`
		Labels    []string `json:"assertions"`
		Bounds    []string `json:"bounds_and_assumptions"`
		Undecided []string `json:"undecided,omitempty"`
	}
	var hr []hrec
	states, trans, ob, di := 0, int64(0), 0, 0
	add := func(h *Harness) {
		if h.reached == nil {
			return
		}
		var labels []string
		for l := range h.reached {
			labels = append(labels, l)
		}
		sort.Strings(labels)
		var und []string
		for k, n := range h.incompl {
			und = append(und, fmt.Sprintf("%s (x%d)", k, n))
		}
		sort.Strings(und)
		hr = append(hr, hrec{h.Name, h.paths, h.complete, h.pruned, h.oblig, h.disch, h.steps, labels, sortedKeys(h.bounds), und})
		states += h.paths
		trans += h.steps
		ob += h.oblig
		di += h.disch
	}
	for _, h := range c.lemmas {
		add(h)
	}
	for _, h := range c.hs {
		add(h)
	}
	var mod []string
	for k := range e.modelled {
		mod = append(mod, k)
	}
	sort.Strings(mod)
	samples := c.samples
	if len(samples) == 0 {
		samples = []string{"none: no path completed or native validation switched off"}
	}
	var fns []string
	if e.prog != nil {
		fns = e.encodedFuncs()
	}
	cov := map[string]interface{}{
		"explanation":                   "Bounded symbolic execution of the SSA form of the current source; each assertion is decided for all values within the stated bounds by an SMT solver (or by the rewriting of the term language when syntactically valid); counterexamples are replayed on the natively compiled code.",
		"status":                        status,
		"functions_encoded":             fns,
		"library_functions_modelled":    mod,
		"harnesses":                     hr,
		"states":                        states,
		"transitions":                   trans,
		"traces_validated_against_impl": c.validated - c.disagree,
		"samples":                       samples,
		"obligations":                   ob,
		"discharged":                    di,
		"assertions_decided_by_solver":  e.solved,
		"assertions_decided_by_linear_algebra_mod_order":          e.solvedF,
		"refutations_by_linear_algebra_mod_order":                 e.fieldUns,
		"branches_explored_both_ways_without_feasibility_verdict": e.branchUnk,
		"satisfiability_by_evaluated_witness":                     e.witSat,
		"assertions_decided_by_rewriting":                         e.trivial,
		"solver_queries":                                          e.queries,
		"solver_sat":                                              e.nsat,
		"solver_unsat":                                            e.nunsat,
		"solver_unknown":                                          e.nunknown,
		"solver_time_s":                                           e.solveT.Seconds(),
		"curve_summaries_used":                                    e.sumOK,
		"undecided":                                               append(append([]string{}, c.problems...), c.unconfirmed...),
		"known_findings":                                          c.known,
		"solver":                                                  solverVersion(),
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	rec := map[string]interface{}{"property": c.prop, "tier": c.tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": time.Since(c.t0).Seconds()}
	j, _ := json.MarshalIndent(rec, "", " ")
	os.WriteFile(filepath.Join(dir, c.prop+".json"), j, 0644)
}

var solverV string

func solverVersion() string {
	if solverV == "" {
		o, _ := exec.Command(z3bin(), "--version").Output()
		solverV = strings.TrimSpace(string(o))
	}
	return solverV
}

// ---- known findings ----

type knownSet []struct{ harness, label, text string }

// lines: finding: property=C52 harness=<name> label=<label> :: description
func loadKnown(path, prop string) knownSet {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var ks knownSet
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+prop+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+prop+" ")
		i := strings.Index(rest, " :: ")
		if i < 0 {
			continue
		}
		head, text := rest[:i], rest[i+4:]
		h, lab := "", ""
		if j := strings.Index(head, " label="); j >= 0 {
			h, lab = strings.TrimPrefix(head[:j], "harness="), head[j+7:]
		}
		ks = append(ks, struct{ harness, label, text string }{h, lab, text})
	}
	return ks
}

func (k knownSet) match(h, l string) string {
	for _, x := range k {
		if x.harness == h && x.label == l {
			return x.text
		}
	}
	return ""
}

func replayFile(repo, verif, path string) int {
	j, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rec replayRec
	if err := json.Unmarshal(j, &rec); err != nil {
		fmt.Println(err)
		return 2
	}
	b, err := newBuild(repo, verif, rec.Property)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(b.tmp)
	_, pkgs, err := b.loadRetry()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	rp := &Replayer{b: b, hs: harnesses(pkgs, "Verif"+rec.Property+"_", true), bin: map[bool]string{}, errs: map[bool]string{}}
	rp.hs = append(rp.hs, harnesses(pkgs, "Verif"+rec.Property+"_", false)...)
	seen := map[string]bool{}
	var hs []*Harness
	for _, h := range rp.hs {
		if !seen[h.Name] {
			seen[h.Name] = true
			hs = append(hs, h)
		}
	}
	rp.hs = hs
	o := rp.run(&Candidate{Harness: rec.Harness, Model: rec.Model, Rand: rec.Rand}, rec.Kind == "race")
	fmt.Println(o.kind, o.label)
	fmt.Println(o.out)
	if confirms(nil, o) {
		return 1
	}
	return 0
}
