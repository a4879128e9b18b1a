package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type Solver struct {
	bin     string
	args    []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	ctx     *Ctx
	emitted []map[int]bool
	funs    []map[string]bool
	ins     []map[string][]*Term // byte and b2i terms per input
	script  [][]string
	curTO   int
	full    bool

	Queries  int
	NSat     int
	NUnsat   int
	NUnknown int
	Time     time.Duration
	Errors   int
	Fallback int
}

func z3bin() string {
	if p, err := exec.LookPath("z3-new"); err == nil {
		return p
	}
	return "z3"
}

func NewSolver(ctx *Ctx) *Solver {
	s := &Solver{bin: z3bin(), args: []string{"-in", "-smt2"}, ctx: ctx}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, s.args...)
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.emitted = []map[int]bool{{}}
	s.funs = []map[string]bool{{}}
	s.ins = []map[string][]*Term{{}}
	s.script = [][]string{nil}
	s.curTO = 0
	s.raw("(set-option :print-success false)")
	s.raw("(set-option :produce-models true)")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Flush()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) raw(l string) {
	s.in.WriteString(l)
	s.in.WriteByte('\n')
}
func (s *Solver) line(l string) {
	s.raw(l)
	k := len(s.script) - 1
	s.script[k] = append(s.script[k], l)
}

func (s *Solver) Push() {
	s.raw("(push 1)")
	s.emitted = append(s.emitted, map[int]bool{})
	s.funs = append(s.funs, map[string]bool{})
	s.ins = append(s.ins, map[string][]*Term{})
	s.script = append(s.script, nil)
}
func (s *Solver) Pop() {
	s.raw("(pop 1)")
	s.emitted = s.emitted[:len(s.emitted)-1]
	s.funs = s.funs[:len(s.funs)-1]
	s.ins = s.ins[:len(s.ins)-1]
	s.script = s.script[:len(s.script)-1]
}
func (s *Solver) Depth() int { return len(s.emitted) - 1 }

func (s *Solver) has(id int) bool {
	for _, m := range s.emitted {
		if m[id] {
			return true
		}
	}
	return false
}

func ilit(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		return ilit(t.c)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	}
	return fmt.Sprintf("t%d", t.id)
}

func (s *Solver) polyStr(ms []Mono) string {
	if len(ms) == 0 {
		return "0"
	}
	var parts []string
	for _, m := range ms {
		if len(m.v) == 0 {
			parts = append(parts, ilit(m.c))
			continue
		}
		var f []string
		if m.c.Cmp(bigOne) != 0 {
			f = append(f, ilit(m.c))
		}
		for _, a := range m.v {
			f = append(f, s.ref(a))
		}
		if len(f) == 1 {
			parts = append(parts, f[0])
		} else {
			parts = append(parts, "(* "+strings.Join(f, " ")+")")
		}
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(+ " + strings.Join(parts, " ") + ")"
}

// Emit declares/defines t (and its subterms) in the current scope.
func (s *Solver) Emit(t *Term) {
	switch t.op {
	case OConst, OTrue, OFalse:
		return
	}
	if s.has(t.id) {
		return
	}
	t.children(s.Emit)
	s.emitted[len(s.emitted)-1][t.id] = true
	name := fmt.Sprintf("t%d", t.id)
	sort := "Int"
	if t.bool_ {
		sort = "Bool"
	}
	def := func(body string) { s.line("(define-fun " + name + " () " + sort + " " + body + ")") }
	switch t.op {
	case OVar:
		s.line("(declare-const " + name + " " + sort + ")")
		s.rangeAssert(t, name)
	case OApp:
		s.emitApp(t, name, sort)
	case OMod:
		if t.c.Cmp(curveP) == 0 && degree(t.args[0]) > 1 {
			// field arithmetic of the curve is left uninterpreted
			s.line("(declare-const " + name + " Int)")
			s.rangeAssert(t, name)
			return
		}
		def("(mod " + s.ref(t.args[0]) + " " + ilit(t.c) + ")")
	case ODiv:
		def("(div " + s.ref(t.args[0]) + " " + ilit(t.c) + ")")
	case OModS:
		def("(mod " + s.ref(t.args[0]) + " " + s.ref(t.args[1]) + ")")
	case ODivS:
		def("(div " + s.ref(t.args[0]) + " " + s.ref(t.args[1]) + ")")
	case OPoly:
		def(s.polyStr(t.mons))
	case OIte:
		def("(ite " + s.ref(t.args[0]) + " " + s.ref(t.args[1]) + " " + s.ref(t.args[2]) + ")")
	case ONot:
		def("(not " + s.ref(t.args[0]) + ")")
	case OAnd, OOr:
		n := "and"
		if t.op == OOr {
			n = "or"
		}
		var a []string
		for _, x := range t.args {
			a = append(a, s.ref(x))
		}
		def("(" + n + " " + strings.Join(a, " ") + ")")
	case OEq0:
		def("(= 0 " + s.polyStr(t.mons) + ")")
	case OLe0:
		def("(<= " + s.polyStr(t.mons) + " 0)")
	default:
		panic("emit")
	}
}

func (s *Solver) rangeAssert(t *Term, name string) {
	if t.lo != nil {
		s.line("(assert (<= " + ilit(t.lo) + " " + name + "))")
	}
	if t.hi != nil {
		s.line("(assert (<= " + name + " " + ilit(t.hi) + "))")
	}
}

func (s *Solver) emitApp(t *Term, name, sort string) {
	def := func(body string) { s.line("(define-fun " + name + " () " + sort + " " + body + ")") }
	fn := t.name
	if strings.HasPrefix(fn, "bvop|") {
		op := strings.TrimPrefix(fn, "bvop|")
		def(fmt.Sprintf("(bv2nat (%s ((_ int2bv 64) %s) ((_ int2bv 64) %s)))", op, s.ref(t.args[0]), s.ref(t.args[1])))
		return
	}
	if fn == "cmp" {
		x, y := s.ref(t.args[0]), s.ref(t.args[1])
		def("(ite (< " + x + " " + y + ") (- 1) (ite (= " + x + " " + y + ") 0 1))")
		return
	}
	sym := "|" + strings.NewReplacer("|", "!", "\\", "!").Replace(fn) + fmt.Sprintf("/%d", len(t.args)) + "|"
	declared := false
	for _, m := range s.funs {
		if m[sym] {
			declared = true
		}
	}
	if !declared {
		s.funs[len(s.funs)-1][sym] = true
		s.line("(declare-fun " + sym + " (" + strings.TrimSpace(strings.Repeat("Int ", len(t.args))) + ") " + sort + ")")
	}
	if len(t.args) == 0 {
		def(sym)
	} else {
		var a []string
		for _, x := range t.args {
			a = append(a, s.ref(x))
		}
		def("(" + sym + " " + strings.Join(a, " ") + ")")
	}
	s.rangeAssert(t, name)
	s.link(t)
	switch {
	case strings.HasPrefix(fn, "inv|"):
		m := strings.TrimPrefix(fn, "inv|")
		g := s.ref(t.args[0])
		s.line(fmt.Sprintf("(assert (=> (not (= (mod %s %s) 0)) (= (mod (* %s %s) %s) 1)))", g, m, g, name, m))
	case fn == "blen":
		v := s.ref(t.args[0])
		s.line(fmt.Sprintf("(assert (= (= %s 0) (= %s 0)))", v, name))
	case strings.HasPrefix(fn, "b2i|"):
		// value of a big-endian byte string of symbolic length args[1]
		l := t.args[1]
		n := int64(64)
		if l.hi != nil && l.hi.IsInt64() && l.hi.Int64() <= 96 {
			n = l.hi.Int64()
		}
		for k := int64(0); k < n; k++ {
			s.line(fmt.Sprintf("(assert (=> (<= %s %d) (< %s %s)))", s.ref(l), k, name, pow2(uint(8*k)).String()))
		}
	}
}

// link relates the bytes of an input to the values of its parts.
func (s *Solver) link(t *Term) {
	var id string
	isByte := strings.HasPrefix(t.name, "byte|")
	if isByte {
		id = t.name[5:]
	} else if strings.HasPrefix(t.name, "b2i|") {
		id = t.name[4:]
	} else {
		return
	}
	for _, a := range t.args {
		if !a.IsConst() || !a.c.IsInt64() || a.c.Int64() > 1<<20 {
			return
		}
	}
	for _, m := range s.ins {
		for _, o := range m[id] {
			b, w := t, o
			if (o.name[:5] == "byte|") == isByte {
				continue
			}
			if !isByte {
				b, w = o, t
			}
			k, off, ln := b.args[0].c.Int64(), w.args[0].c.Int64(), w.args[1].c.Int64()
			if k < off || k >= off+ln || ln > 128 {
				continue
			}
			s.line(fmt.Sprintf("(assert (= t%d (mod (div t%d %s) 256)))", b.id, w.id, pow2(uint(8*(off+ln-1-k))).String()))
		}
	}
	l := len(s.ins) - 1
	s.ins[l][id] = append(s.ins[l][id], t)
}

// Realize adds constraints that make uninterpreted notions exact, for model
// construction: byte lengths.
func (s *Solver) Realize(t *Term) {
	if t.op == OApp && t.name == "blen" {
		v := s.ref(t.args[0])
		hi := int64(80)
		if t.hi != nil && t.hi.IsInt64() && t.hi.Int64() < hi {
			hi = t.hi.Int64()
		}
		body := fmt.Sprintf("%d", hi)
		if hi == 80 {
			body = "(+ 80 0)"
		}
		for k := hi - 1; k >= 0; k-- {
			body = fmt.Sprintf("(ite (< %s %s) %d %s)", v, pow2(uint(8*k)).String(), k, body)
		}
		s.line(fmt.Sprintf("(assert (= t%d %s))", t.id, body))
	}
}

func (s *Solver) Assert(t *Term) {
	s.Emit(t)
	s.line("(assert " + s.ref(t) + ")")
}
func (s *Solver) AssertRaw(l string) { s.line("(assert " + l + ")") }

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

func (s *Solver) Check(timeoutMS int) Result {
	t0 := time.Now()
	if s.curTO != timeoutMS {
		s.raw(fmt.Sprintf("(set-option :timeout %d)", timeoutMS))
		s.curTO = timeoutMS
	}
	s.raw("(check-sat)")
	s.in.Flush()
	r := Unknown
	done := make(chan struct{})
	var l string
	var err error
	go func() {
		for {
			l, err = s.readLine()
			if err != nil || l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
				break
			}
			if strings.HasPrefix(l, "(error") {
				s.Errors++
				fmt.Fprintln(os.Stderr, "solver:", l)
				err = fmt.Errorf("solver error")
				// keep reading until an answer arrives, but treat it as unknown
				for {
					l2, e2 := s.readLine()
					if e2 != nil || l2 == "sat" || l2 == "unsat" || l2 == "unknown" {
						break
					}
				}
				break
			}
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(time.Duration(timeoutMS)*time.Millisecond*2 + 5*time.Second):
		// hard timeout: restart the process and replay the script
		s.cmd.Process.Kill()
		<-done
		err = io.EOF
	}
	if err != nil {
		if err == io.EOF || strings.Contains(err.Error(), "closed") || strings.Contains(err.Error(), "EOF") {
			s.restart()
		}
	} else {
		switch l {
		case "sat":
			r = Sat
		case "unsat":
			r = Unsat
		}
	}
	s.Queries++
	switch r {
	case Sat:
		s.NSat++
	case Unsat:
		s.NUnsat++
	default:
		s.NUnknown++
	}
	s.Time += time.Since(t0)
	return r
}

func (s *Solver) restart() {
	em, fu, sc, ins := s.emitted, s.funs, s.script, s.ins
	s.cmd.Wait()
	s.start()
	for i := range sc {
		if i > 0 {
			s.raw("(push 1)")
		}
		for _, l := range sc[i] {
			s.raw(l)
		}
	}
	s.emitted, s.funs, s.script, s.ins = em, fu, sc, ins
}

// FallbackCheck runs the current assertions through other solvers, one shot.
func (s *Solver) FallbackCheck(timeout time.Duration) Result {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0); s.Queries++; s.Fallback++ }()
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	for _, l := range s.script {
		for _, x := range l {
			sb.WriteString(x)
			sb.WriteByte('\n')
		}
	}
	sb.WriteString("(check-sat)\n")
	for _, c := range [][]string{{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", timeout.Milliseconds())}, {"z3", "-in", "-smt2", fmt.Sprintf("-T:%d", int(timeout.Seconds())+1)}} {
		cmd := exec.Command(c[0], c[1:]...)
		cmd.Stdin = strings.NewReader(sb.String())
		out, _ := cmd.Output()
		o := strings.TrimSpace(string(out))
		if strings.Contains(o, "(error") {
			continue
		}
		if o == "unsat" {
			s.NUnsat++
			return Unsat
		}
		if o == "sat" {
			s.NSat++
			return Sat
		}
	}
	s.NUnknown++
	return Unknown
}

// Script returns the current assertion stack as an SMT-LIB script.
func (s *Solver) Script() string {
	var sb strings.Builder
	for _, l := range s.script {
		for _, x := range l {
			sb.WriteString(x)
			sb.WriteByte('\n')
		}
	}
	return sb.String()
}

// Eval returns the model value of integer/bool terms (after Sat). Terms must
// have been emitted before the Check.
func (s *Solver) Eval(ts []*Term) ([]*big.Int, error) {
	res := make([]*big.Int, len(ts))
	for i, t := range ts {
		if t.op == OConst {
			res[i] = t.c
			continue
		}
		if t.IsTrue() {
			res[i] = bigOne
			continue
		}
		if t.IsFalse() {
			res[i] = bigZero
			continue
		}
		s.raw("(get-value (" + s.ref(t) + "))")
		s.in.Flush()
		var sb strings.Builder
		depth := 0
		for {
			l, err := s.readLine()
			if err != nil {
				return nil, err
			}
			sb.WriteString(l + " ")
			depth += strings.Count(l, "(") - strings.Count(l, ")")
			if depth <= 0 {
				break
			}
		}
		o := sb.String()
		if strings.Contains(o, "error") {
			return nil, fmt.Errorf("get-value: %s", o)
		}
		o = strings.TrimSpace(o)
		o = strings.TrimPrefix(o, "((")
		o = strings.TrimSuffix(o, "))")
		f := strings.SplitN(o, " ", 2)
		if len(f) < 2 {
			return nil, fmt.Errorf("get-value parse: %s", o)
		}
		v := strings.TrimSpace(f[1])
		switch v {
		case "true":
			res[i] = bigOne
			continue
		case "false":
			res[i] = bigZero
			continue
		}
		neg := false
		if strings.HasPrefix(v, "(") {
			neg = true
			v = strings.TrimSuffix(strings.TrimSpace(strings.TrimPrefix(strings.TrimPrefix(v, "("), "-")), ")")
			v = strings.TrimSpace(v)
		}
		b, ok := new(big.Int).SetString(strings.TrimSpace(strings.Trim(v, "()")), 10)
		if !ok {
			return nil, fmt.Errorf("get-value parse: %q", o)
		}
		if neg {
			b.Neg(b)
		}
		res[i] = b
	}
	return res, nil
}

func degree(t *Term) int {
	d := 0
	for _, m := range polyOf(t) {
		if len(m.v) > d {
			d = len(m.v)
		}
	}
	return d
}
