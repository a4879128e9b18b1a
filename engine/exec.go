package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	fn    value
	args  []value
	instr *ssa.Defer
	tail  *deferred
}

type frame struct {
	caller    *frame
	fn        *ssa.Function
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	env       map[ssa.Value]value
	defers    *deferred
	result    value
	panicking bool
	panicv    interface{}
	counts    map[*ssa.BasicBlock]int
}

func (r *Run) get(fr *frame, key ssa.Value) value {
	switch key := key.(type) {
	case nil:
		return nil
	case *ssa.Function:
		return key
	case *ssa.Builtin:
		return key
	case *ssa.Const:
		return r.constVal(key)
	case *ssa.Global:
		return r.global(key)
	}
	if v, ok := fr.env[key]; ok {
		return v
	}
	panic(unsupported{fmt.Sprintf("no value for %T %v in %v", key, key.Name(), fr.fn)})
}

func (r *Run) constVal(k *ssa.Const) value {
	if k.Value == nil {
		return r.zero(k.Type())
	}
	t := k.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return r.c.Bool(constant.BoolVal(k.Value))
		case b.Info()&types.IsString != 0:
			if k.Value.Kind() == constant.String {
				return constant.StringVal(k.Value)
			}
			return string(rune(k.Int64()))
		case b.Info()&types.IsInteger != 0:
			v := constant.ToInt(k.Value)
			if i, ok := constant.Int64Val(v); ok {
				return r.c.I(i)
			}
			n, _ := new(big.Int).SetString(v.ExactString(), 10)
			return r.c.Const(n)
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(k.Value)
			return floatv{f}
		}
	}
	panic(unsupported{fmt.Sprintf("constant %v of type %v", k, k.Type())})
}

func (r *Run) global(g *ssa.Global) *value {
	if p, ok := r.globals[g]; ok {
		return p
	}
	if v, ok := globalModel(r, g); ok {
		p := new(value)
		*p = v
		r.globals[g] = p
		return p
	}
	pkg := g.Pkg
	p := new(value)
	*p = r.zero(deref(g.Type()))
	r.globals[g] = p
	if pkg != nil && !r.inited[pkg] && r.e.initAllowed(pkg) {
		r.initPkg(pkg)
	}
	return p
}

func (r *Run) initPkg(pkg *ssa.Package) {
	r.inited[pkg] = true
	if f := pkg.Func("init"); f != nil {
		r.inInit++
		r.callSSA(nil, f, nil, nil)
		r.inInit--
	}
}

func (r *Run) call(caller *frame, fn value, args []value) value {
	switch fn := fn.(type) {
	case *ssa.Function:
		if fn == nil {
			r.gopanic("invalid memory address or nil pointer dereference (nil func)")
		}
		return r.callSSA(caller, fn, args, nil)
	case *closure:
		if fn == nil {
			r.gopanic("invalid memory address or nil pointer dereference (nil func)")
		}
		return r.callSSA(caller, fn.fn, args, fn.env)
	case *ssa.Builtin:
		return r.builtin(caller, fn, args)
	case *native:
		return fn.f(r, args)
	}
	panic(unsupported{fmt.Sprintf("call of %T", fn)})
}

func (r *Run) callSSA(caller *frame, fn *ssa.Function, args []value, env []value) value {
	if fn.Pkg != nil && fn.Name() == "init" && fn.Synthetic == "package initializer" && caller != nil {
		return nil // imported packages are initialised lazily
	}
	if f, ok := r.e.intrinsic(fn); ok {
		return f(r, caller, fn, args)
	}
	return r.callBody(caller, fn, args, env)
}

// callBody executes the code of a function, also when there is a model for it.
func (r *Run) callBody(caller *frame, fn *ssa.Function, args []value, env []value) value {
	if fn.Blocks == nil {
		panic(unsupported{"call of external function " + fn.String()})
	}
	r.depth++
	if r.depth > 400 {
		r.incomplete("call depth")
	}
	defer func() { r.depth-- }()
	r.e.noteFunc(fn)
	fr := &frame{caller: caller, fn: fn, env: make(map[ssa.Value]value, 16), block: fn.Blocks[0]}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = env[i]
	}
	for _, l := range fn.Locals {
		p := new(value)
		*p = r.zero(deref(l.Type()))
		fr.env[l] = p
	}
	for fr.block != nil {
		r.runFrame(fr)
	}
	return fr.result
}

func (r *Run) runFrame(fr *frame) {
	depth := r.depth
	defer func() {
		if fr.block == nil {
			return
		}
		p := recover()
		if _, ok := p.(targetPanic); !ok {
			panic(p)
		}
		r.depth = depth
		fr.panicking = true
		fr.panicv = p
		r.runDefers(fr)
		fr.block = fr.fn.Recover
		if fr.block == nil {
			fr.result = nil
			// recovered: results are the zero values
			res := fr.fn.Signature.Results()
			switch res.Len() {
			case 0:
			case 1:
				fr.result = r.zero(res.At(0).Type())
			default:
				fr.result = r.zero(res)
			}
		}
	}()
	for {
		blk := fr.block
		jumped := false
		for _, instr := range blk.Instrs {
			if r.raceDetect {
				r.cur.at = instr.Pos()
			}
			r.steps++
			if debugBranch {
				r.dbgFrame = fr
			}
			if r.steps > r.e.opt.maxSteps {
				r.incomplete("step budget exhausted")
			}
			if r.steps%512 == 0 && r.e.late() {
				r.incomplete("exploration stopped early")
			}
			switch r.visit(fr, instr) {
			case kReturn:
				fr.block = nil
				return
			case kJump:
				jumped = true
			}
			if jumped {
				break
			}
		}
		if !jumped {
			panic(unsupported{"block without terminator"})
		}
		if fr.block.Index <= blk.Index {
			if fr.counts == nil {
				fr.counts = map[*ssa.BasicBlock]int{}
			}
			fr.counts[fr.block]++
			if fr.counts[fr.block] > r.e.opt.maxLoop {
				r.incomplete(fmt.Sprintf("loop bound %d reached in %v", r.e.opt.maxLoop, fr.fn))
			}
		}
	}
}

func (r *Run) runDefers(fr *frame) {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.tail
		r.runDefer(fr, d)
	}
	if fr.panicking {
		panic(fr.panicv)
	}
}

func (r *Run) runDefer(fr *frame, d *deferred) {
	ok := false
	defer func() {
		if !ok {
			p := recover()
			if _, is := p.(targetPanic); !is {
				panic(p)
			}
			fr.panicking = true
			fr.panicv = p
		}
	}()
	r.call(fr, d.fn, d.args)
	ok = true
}

type cont int

const (
	kNext cont = iota
	kReturn
	kJump
)

func (r *Run) nilcheck(v value) {
	switch p := v.(type) {
	case *value:
		if p == nil {
			r.gopanic("runtime error: invalid memory address or nil pointer dereference")
		}
	case nil:
		r.gopanic("runtime error: invalid memory address or nil pointer dereference")
	}
}

func (r *Run) load(p value) value {
	r.nilcheck(p)
	switch p := p.(type) {
	case *value:
		r.access(p, false)
		return copyVal(*p)
	case byteRef:
		r.access(p.arr, false)
		return r.aindex(p.arr, p.idx)
	}
	panic(unsupported{fmt.Sprintf("load through %T", p)})
}

func (r *Run) store(p, v value) {
	r.nilcheck(p)
	switch p := p.(type) {
	case *value:
		r.access(p, true)
		storeTo(p, v)
		return
	case byteRef:
		r.access(p.arr, true)
		r.asplice(p.arr, p.idx, r.rByte(v.(*Term)))
		return
	}
	panic(unsupported{fmt.Sprintf("store through %T", p)})
}

func (r *Run) visit(fr *frame, instr ssa.Instruction) cont {
	switch in := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		fr.env[in] = r.unop(fr, in)
	case *ssa.BinOp:
		fr.env[in] = r.binop(in.Op, in.X.Type(), in.Y.Type(), r.get(fr, in.X), r.get(fr, in.Y))
	case *ssa.Call:
		fn, args := r.prepCall(fr, &in.Call)
		fr.env[in] = r.call(fr, fn, args)
	case *ssa.ChangeInterface:
		fr.env[in] = r.get(fr, in.X)
	case *ssa.ChangeType:
		fr.env[in] = r.get(fr, in.X)
	case *ssa.Convert:
		fr.env[in] = r.conv(in.Type(), in.X.Type(), r.get(fr, in.X))
	case *ssa.MultiConvert:
		fr.env[in] = r.conv(in.Type(), in.X.Type(), r.get(fr, in.X))
	case *ssa.SliceToArrayPointer:
		panic(unsupported{"slice to array pointer"})
	case *ssa.MakeInterface:
		fr.env[in] = iface{t: in.X.Type(), v: r.get(fr, in.X)}
	case *ssa.Extract:
		fr.env[in] = r.get(fr, in.Tuple).(tuple)[in.Index]
	case *ssa.Slice:
		fr.env[in] = r.slice(r.get(fr, in.X), in.X.Type(), r.getOpt(fr, in.Low), r.getOpt(fr, in.High), r.getOpt(fr, in.Max))
	case *ssa.Return:
		switch len(in.Results) {
		case 0:
		case 1:
			fr.result = r.get(fr, in.Results[0])
		default:
			var t tuple
			for _, x := range in.Results {
				t = append(t, r.get(fr, x))
			}
			fr.result = t
		}
		return kReturn
	case *ssa.RunDefers:
		r.runDefers(fr)
	case *ssa.Panic:
		v := r.get(fr, in.X)
		panic(targetPanic{v, r.panicMsg(v)})
	case *ssa.Send:
		r.chanSend(r.get(fr, in.Chan).(*chanv), r.get(fr, in.X))
	case *ssa.Store:
		r.store(r.get(fr, in.Addr), r.get(fr, in.Val))
	case *ssa.If:
		succ := 1
		if r.branch(r.get(fr, in.Cond).(*Term)) {
			succ = 0
		}
		fr.prev, fr.block = fr.block, fr.block.Succs[succ]
		return kJump
	case *ssa.Jump:
		fr.prev, fr.block = fr.block, fr.block.Succs[0]
		return kJump
	case *ssa.Defer:
		fn, args := r.prepCall(fr, &in.Call)
		fr.defers = &deferred{fn: fn, args: args, instr: in, tail: fr.defers}
	case *ssa.Go:
		fn, args := r.prepCall(fr, &in.Call)
		r.spawn(func() { r.call(nil, fn, args) })
	case *ssa.MakeChan:
		n := r.concInt(r.get(fr, in.Size).(*Term), "channel size")
		fr.env[in] = &chanv{cap: int(n)}
	case *ssa.Alloc:
		var p *value
		if in.Heap {
			p = new(value)
			fr.env[in] = p
		} else {
			p = fr.env[in].(*value)
		}
		*p = r.zero(deref(in.Type()))
	case *ssa.MakeSlice:
		fr.env[in] = r.makeSlice(in.Type(), r.get(fr, in.Len).(*Term), r.get(fr, in.Cap).(*Term), in.Len.Type())
	case *ssa.MakeMap:
		fr.env[in] = &mapv{}
	case *ssa.Range:
		fr.env[in] = r.rangeIter(r.get(fr, in.X))
	case *ssa.Next:
		fr.env[in] = r.next(r.get(fr, in.Iter), in)
	case *ssa.FieldAddr:
		p := r.get(fr, in.X)
		r.nilcheck(p)
		s, ok := (*p.(*value)).(structure)
		if !ok {
			panic(unsupported{fmt.Sprintf("field of modelled type %v", in.X.Type())})
		}
		fr.env[in] = &s[in.Field]
	case *ssa.Field:
		s, ok := r.get(fr, in.X).(structure)
		if !ok {
			panic(unsupported{fmt.Sprintf("field of modelled type %v", in.X.Type())})
		}
		fr.env[in] = copyVal(s[in.Field])
	case *ssa.IndexAddr:
		fr.env[in] = r.indexAddr(r.get(fr, in.X), r.get(fr, in.Index).(*Term))
	case *ssa.Index:
		fr.env[in] = r.index(r.get(fr, in.X), r.get(fr, in.Index).(*Term))
	case *ssa.Lookup:
		fr.env[in] = r.lookup(in, r.get(fr, in.X), r.get(fr, in.Index))
	case *ssa.MapUpdate:
		m := r.get(fr, in.Map).(*mapv)
		if m == nil {
			r.gopanic("assignment to entry in nil map")
		}
		k, v := r.get(fr, in.Key), r.get(fr, in.Value)
		kt := in.Map.Type().Underlying().(*types.Map).Key()
		for i := range m.keys {
			if r.branch(r.eqVal(kt, m.keys[i], k)) {
				m.vals[i] = v
				return kNext
			}
		}
		m.keys = append(m.keys, k)
		m.vals = append(m.vals, v)
	case *ssa.TypeAssert:
		fr.env[in] = r.typeAssert(in, r.get(fr, in.X).(iface))
	case *ssa.MakeClosure:
		var env []value
		for _, b := range in.Bindings {
			env = append(env, r.get(fr, b))
		}
		fr.env[in] = &closure{in.Fn.(*ssa.Function), env}
	case *ssa.Phi:
		// evaluate all phis of the block together
		if fr.block.Instrs[0] == instr {
			var idx int
			for i, p := range fr.block.Preds {
				if p == fr.prev {
					idx = i
				}
			}
			var vals []value
			var phis []*ssa.Phi
			for _, x := range fr.block.Instrs {
				ph, ok := x.(*ssa.Phi)
				if !ok {
					break
				}
				phis = append(phis, ph)
				vals = append(vals, r.get(fr, ph.Edges[idx]))
			}
			for i, ph := range phis {
				fr.env[ph] = vals[i]
			}
		}
	case *ssa.Select:
		fr.env[in] = r.selectStmt(fr, in)
	default:
		panic(unsupported{fmt.Sprintf("instruction %T", in)})
	}
	return kNext
}

func (r *Run) getOpt(fr *frame, v ssa.Value) value {
	if v == nil {
		return nil
	}
	return r.get(fr, v)
}

func (r *Run) panicMsg(v value) string {
	if i, ok := v.(iface); ok {
		switch x := i.v.(type) {
		case string:
			return x
		case *errv:
			return x.msg
		}
		if i.t != nil {
			return "value of type " + i.t.String()
		}
	}
	return "panic"
}

func (r *Run) prepCall(fr *frame, call *ssa.CallCommon) (value, []value) {
	v := r.get(fr, call.Value)
	var args []value
	var fn value
	if call.Method == nil {
		fn = v
	} else {
		recv := v.(iface)
		if recv.t == nil {
			r.gopanic("runtime error: invalid memory address or nil pointer dereference (nil interface)")
		}
		for _, a := range call.Args {
			args = append(args, r.get(fr, a))
		}
		if f := r.summaryFor(call, recv, args); f != nil {
			return f, args
		}
		if f := modelMethod(recv, call.Method.Name()); f != nil {
			return f, append([]value{recv.v}, args...)
		}
		if recv.t == lazyType {
			recv = r.force(recv)
		}
		f := r.e.lookupMethod(recv.t, call.Method)
		if f == nil {
			panic(unsupported{fmt.Sprintf("method %v of %v", call.Method, recv.t)})
		}
		return f, append([]value{recv.v}, args...)
	}
	for _, a := range call.Args {
		args = append(args, r.get(fr, a))
	}
	return fn, args
}

func (r *Run) unop(fr *frame, in *ssa.UnOp) value {
	x := r.get(fr, in.X)
	switch in.Op {
	case token.MUL:
		return r.load(x)
	case token.ARROW:
		v, ok := r.chanRecv(x.(*chanv), in.X.Type().Underlying().(*types.Chan).Elem())
		if in.CommaOk {
			return tuple{v, r.c.Bool(ok)}
		}
		return v
	case token.SUB:
		if f, ok := x.(floatv); ok {
			return floatv{-f.f}
		}
		i, _ := intInfoOf(in.Type())
		return r.wrap(r.c.Neg(x.(*Term)), i)
	case token.NOT:
		return r.c.Not(x.(*Term))
	case token.XOR:
		i, _ := intInfoOf(in.Type())
		if i.signed {
			return r.c.Sub(r.c.I(-1), x.(*Term))
		}
		return r.c.Sub(r.c.Const(i.hi), x.(*Term))
	}
	panic(unsupported{"unop " + in.Op.String()})
}

func (r *Run) binop(op token.Token, tx, ty types.Type, x, y value) value {
	c := r.c
	switch op {
	case token.EQL:
		return r.eqVal(tx, x, y)
	case token.NEQ:
		return c.Not(r.eqVal(tx, x, y))
	}
	if xf, ok := x.(floatv); ok {
		yf := y.(floatv)
		switch op {
		case token.ADD:
			return floatv{xf.f + yf.f}
		case token.SUB:
			return floatv{xf.f - yf.f}
		case token.MUL:
			return floatv{xf.f * yf.f}
		case token.QUO:
			return floatv{xf.f / yf.f}
		case token.LSS:
			return c.Bool(xf.f < yf.f)
		case token.LEQ:
			return c.Bool(xf.f <= yf.f)
		case token.GTR:
			return c.Bool(xf.f > yf.f)
		case token.GEQ:
			return c.Bool(xf.f >= yf.f)
		}
	}
	switch x.(type) {
	case string, *symStr:
		if op == token.ADD {
			return r.mkStr(r.rCat(r.strRope(x), r.strRope(y)))
		}
		xs, ok1 := x.(string)
		ys, ok2 := y.(string)
		if ok1 && ok2 {
			switch op {
			case token.LSS:
				return c.Bool(xs < ys)
			case token.LEQ:
				return c.Bool(xs <= ys)
			case token.GTR:
				return c.Bool(xs > ys)
			case token.GEQ:
				return c.Bool(xs >= ys)
			}
		}
		panic(unsupported{"ordering of symbolic strings"})
	}
	a, b := x.(*Term), y.(*Term)
	if a.bool_ {
		switch op {
		case token.AND, token.LAND:
			return c.And(a, b)
		case token.OR, token.LOR:
			return c.Or(a, b)
		case token.XOR:
			return c.Not(c.Eq(a, b))
		}
	}
	i, ok := intInfoOf(tx)
	if !ok {
		panic(unsupported{fmt.Sprintf("binop %v on %v", op, tx)})
	}
	switch op {
	case token.ADD:
		return r.wrap(c.Add(a, b), i)
	case token.SUB:
		return r.wrap(c.Sub(a, b), i)
	case token.MUL:
		return r.wrap(c.Mul(a, b), i)
	case token.QUO, token.REM:
		if !r.branch(c.Ne(b, c.I(0))) {
			r.gopanic("runtime error: integer divide by zero")
		}
		q, m := r.truncDiv(a, b)
		if op == token.QUO {
			return r.wrap(q, i)
		}
		return r.wrap(m, i)
	case token.LSS:
		return c.Lt(a, b)
	case token.LEQ:
		return c.Le(a, b)
	case token.GTR:
		return c.Gt(a, b)
	case token.GEQ:
		return c.Ge(a, b)
	case token.SHL, token.SHR:
		if !r.branch(c.Ge(b, c.I(0))) {
			r.gopanic("runtime error: negative shift amount")
		}
		if !b.IsConst() && b.hi == nil || !b.IsConst() && b.hi.Cmp(big.NewInt(64)) > 0 {
			if r.branch(c.Gt(b, c.I(64))) {
				b = c.I(64)
			}
		}
		k := r.concInt(b, "shift amount")
		if k > 64 {
			k = 64
		}
		if op == token.SHL {
			return r.wrap(c.Scale(a, pow2(uint(k))), i)
		}
		return c.Div(a, pow2(uint(k)))
	case token.AND:
		return r.bitAnd(a, b, i)
	case token.OR:
		return r.bitOr(a, b, i)
	case token.XOR:
		if a == b {
			return c.I(0)
		}
		if a.IsConst() && b.IsConst() && a.c.Sign() >= 0 && b.c.Sign() >= 0 {
			return c.Const(new(big.Int).Xor(a.c, b.c))
		}
		if r.disjoint(a, b) {
			return c.Add(a, b)
		}
		return r.bvop("bvxor", a, b, i)
	case token.AND_NOT:
		if b.IsConst() && b.c.Sign() >= 0 {
			return c.Sub(a, r.bitAnd(a, b, i))
		}
		return c.Sub(a, r.bitAnd(a, b, i))
	}
	panic(unsupported{"binop " + op.String()})
}

func (r *Run) bvop(op string, a, b *Term, i intInfo) *Term {
	if i.signed && (a.lo == nil || a.lo.Sign() < 0 || b.lo == nil || b.lo.Sign() < 0) {
		panic(unsupported{"bit operation on signed values"})
	}
	hi := i.hi
	if op == "bvand" {
		if a.hi != nil && a.hi.Cmp(hi) < 0 {
			hi = a.hi
		}
		if b.hi != nil && b.hi.Cmp(hi) < 0 {
			hi = b.hi
		}
	}
	return r.c.App("bvop|"+op, bigZero, hi, a, b)
}

func (r *Run) bitAnd(a, b *Term, i intInfo) *Term {
	c := r.c
	if a.IsConst() && b.IsConst() {
		v := new(big.Int).And(a.c, b.c)
		return c.Const(v)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.IsConst() && b.c.Sign() >= 0 && a.lo != nil && a.lo.Sign() >= 0 {
		m := b.c
		if m.Sign() == 0 {
			return c.I(0)
		}
		// contiguous mask 2^h - 2^l
		l := m.TrailingZeroBits()
		hm := new(big.Int).Add(m, pow2(l))
		if hm.TrailingZeroBits() == uint(hm.BitLen()-1) {
			h := uint(hm.BitLen() - 1)
			return c.Scale(c.Mod(c.Div(a, pow2(l)), pow2(h-l)), pow2(l))
		}
	}
	return r.bvop("bvand", a, b, i)
}

// disjoint: one operand is a multiple of 2^k and the other is below 2^k.
func (r *Run) disjoint(a, b *Term) bool {
	try := func(lo, hi *Term) bool {
		if lo.lo == nil || lo.lo.Sign() < 0 || lo.hi == nil || hi.lo == nil || hi.lo.Sign() < 0 {
			return false
		}
		k := uint(lo.hi.BitLen())
		for _, m := range polyOf(hi) {
			if m.c.TrailingZeroBits() < k {
				return false
			}
		}
		return true
	}
	return try(a, b) || try(b, a)
}

func (r *Run) bitOr(a, b *Term, i intInfo) *Term {
	c := r.c
	if a.IsConst() && b.IsConst() {
		return c.Const(new(big.Int).Or(a.c, b.c))
	}
	if a == b {
		return a
	}
	if a.IsConst() && a.c.Sign() == 0 {
		return b
	}
	if b.IsConst() && b.c.Sign() == 0 {
		return a
	}
	if r.disjoint(a, b) {
		return c.Add(a, b)
	}
	return r.bvop("bvor", a, b, i)
}

// truncDiv: Go's truncated division, b != 0.
func (r *Run) truncDiv(a, b *Term) (*Term, *Term) {
	c := r.c
	an := a.lo == nil || a.lo.Sign() < 0
	bn := b.lo == nil || b.lo.Sign() < 0
	if an && !r.branch(c.Ge(a, c.I(0))) {
		q, m := r.truncDiv(r.nonneg(c.Neg(a)), b)
		return c.Neg(q), c.Neg(m)
	}
	if bn && !r.branch(c.Ge(b, c.I(0))) {
		q, m := r.truncDiv(a, r.nonneg(c.Neg(b)))
		return c.Neg(q), m
	}
	return c.DivS(a, b), c.ModS(a, b)
}

func (r *Run) nonneg(t *Term) *Term { return t }

func (r *Run) conv(dst, src types.Type, x value) value {
	ud, us := dst.Underlying(), src.Underlying()
	switch ut := ud.(type) {
	case *types.Basic:
		if ut.Info()&types.IsInteger != 0 {
			if f, ok := x.(floatv); ok {
				return r.c.I(int64(f.f))
			}
			if t, ok := x.(*Term); ok {
				i, _ := intInfoOf(dst)
				return r.wrap(t, i)
			}
			if p, ok := x.(*value); ok {
				_ = p
				panic(unsupported{"pointer to integer"})
			}
		}
		if ut.Info()&types.IsFloat != 0 {
			if t, ok := x.(*Term); ok {
				f, _ := new(big.Float).SetInt64(r.concInt(t, "int to float")).Float64()
				return floatv{f}
			}
			return x
		}
		if ut.Info()&types.IsString != 0 {
			switch us := us.(type) {
			case *types.Slice:
				if isByte(us.Elem()) {
					return r.mkStr(r.bytesOf(x))
				}
			case *types.Basic:
				if us.Info()&types.IsString != 0 {
					return x
				}
				if us.Info()&types.IsInteger != 0 {
					return string(rune(r.concInt(x.(*Term), "rune to string")))
				}
			}
		}
		if ut.Kind() == types.UnsafePointer {
			return x
		}
	case *types.Slice:
		if isByte(ut.Elem()) {
			if _, ok := us.(*types.Basic); ok {
				return r.newBytes(r.strRope(x))
			}
		}
		if b, ok := us.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			s, ok := x.(string)
			if !ok {
				panic(unsupported{"runes of symbolic string"})
			}
			var out []value
			for _, q := range s {
				out = append(out, r.c.I(int64(q)))
			}
			return out
		}
		return x
	case *types.Pointer:
		return x
	}
	panic(unsupported{fmt.Sprintf("conversion %v to %v", src, dst)})
}

func (r *Run) checkIdx(i, n *Term) {
	c := r.c
	if !r.branch(c.And(c.Ge(i, c.I(0)), c.Lt(i, n))) {
		r.gopanic("runtime error: index out of range")
	}
}

func (r *Run) indexAddr(x value, i *Term) value {
	switch x := x.(type) {
	case []value:
		r.checkIdx(i, r.c.I(int64(len(x))))
		return &x[r.concInt(i, "slice index")]
	case bslice:
		r.checkIdx(i, r.blen(x))
		return byteRef{x.arr, r.c.Add(x.off, i)}
	case *value:
		r.nilcheck(x)
		switch a := (*x).(type) {
		case array:
			r.checkIdx(i, r.c.I(int64(len(a))))
			return &a[r.concInt(i, "array index")]
		case *barr:
			r.checkIdx(i, a.ln)
			return byteRef{a, i}
		}
	}
	panic(unsupported{fmt.Sprintf("index address of %T", x)})
}

func (r *Run) index(x value, i *Term) value {
	switch x := x.(type) {
	case array:
		r.checkIdx(i, r.c.I(int64(len(x))))
		return copyVal(x[r.concInt(i, "array index")])
	case *barr:
		r.checkIdx(i, x.ln)
		return r.aindex(x, i)
	case string, *symStr:
		p := r.strRope(x)
		r.checkIdx(i, r.ropeLen(p))
		return r.rIndex(p, i)
	}
	panic(unsupported{fmt.Sprintf("index of %T", x)})
}

func (r *Run) lookup(in *ssa.Lookup, x, k value) value {
	switch m := x.(type) {
	case string, *symStr:
		return r.index(m, k.(*Term))
	case *mapv:
		mt := in.X.Type().Underlying().(*types.Map)
		if m != nil {
			for i := range m.keys {
				if r.branch(r.eqVal(mt.Key(), m.keys[i], k)) {
					if in.CommaOk {
						return tuple{copyVal(m.vals[i]), r.c.True}
					}
					return copyVal(m.vals[i])
				}
			}
		}
		z := r.zero(mt.Elem())
		if in.CommaOk {
			return tuple{z, r.c.False}
		}
		return z
	}
	panic(unsupported{fmt.Sprintf("lookup in %T", x)})
}

func (r *Run) slice(x value, t types.Type, lo, hi, max value) value {
	c := r.c
	T := func(v value, d *Term) *Term {
		if v == nil {
			return d
		}
		return v.(*Term)
	}
	l := T(lo, c.I(0))
	check := func(l, h, m, cp *Term) {
		if !r.branch(c.And(c.Le(c.I(0), l), c.Le(l, h), c.Le(h, m), c.Le(m, cp))) {
			r.gopanic("runtime error: slice bounds out of range")
		}
	}
	switch x := x.(type) {
	case string, *symStr:
		p := r.strRope(x)
		n := r.ropeLen(p)
		h := T(hi, n)
		check(l, h, n, n)
		return r.mkStr(r.rSlice(p, l, c.Sub(h, l)))
	case bslice:
		if x.arr == nil {
			h := T(hi, c.I(0))
			check(l, h, h, c.I(0))
			return x
		}
		h := T(hi, x.ln)
		m := T(max, x.cp)
		check(l, h, m, x.cp)
		return bslice{x.arr, c.Add(x.off, l), c.Sub(h, l), c.Sub(m, l)}
	case []value:
		cp := c.I(int64(cap(x)))
		h := T(hi, c.I(int64(len(x))))
		m := T(max, cp)
		check(l, h, m, cp)
		a, b, d := r.concInt(l, "slice bound"), r.concInt(h, "slice bound"), r.concInt(m, "slice bound")
		if x == nil {
			return x
		}
		return x[a:b:d]
	case *value:
		r.nilcheck(x)
		switch a := (*x).(type) {
		case *barr:
			h := T(hi, a.ln)
			m := T(max, a.ln)
			check(l, h, m, a.ln)
			return bslice{a, l, c.Sub(h, l), c.Sub(m, l)}
		case array:
			n := c.I(int64(len(a)))
			h := T(hi, n)
			m := T(max, n)
			check(l, h, m, n)
			return []value(a)[r.concInt(l, "slice bound"):r.concInt(h, "slice bound"):r.concInt(m, "slice bound")]
		}
	}
	panic(unsupported{fmt.Sprintf("slice of %T", x)})
}

func (r *Run) makeSlice(t types.Type, ln, cp *Term, lt types.Type) value {
	c := r.c
	el := t.Underlying().(*types.Slice).Elem()
	limit := c.Const(new(big.Int).Lsh(bigOne, 47))
	if !r.branch(c.And(c.Ge(ln, c.I(0)), c.Le(ln, cp), c.Le(cp, limit))) {
		r.gopanic("runtime error: makeslice: len out of range")
	}
	r.checkAlloc(cp)
	if isByte(el) {
		return bslice{arr: &barr{rope: r.rZero(cp), ln: cp}, off: c.I(0), ln: ln, cp: cp}
	}
	n, k := r.concInt(ln, "slice length"), r.concInt(cp, "slice capacity")
	if k > 1<<16 {
		r.incomplete("large slice")
	}
	s := make([]value, k)
	for i := range s {
		s[i] = r.zero(el)
	}
	return s[:n]
}

// checkAlloc enforces the allocation bound set by the harness.
func (r *Run) checkAlloc(n *Term) {
	if r.maxAlloc > 0 {
		big := r.c.Gt(n, r.c.I(r.maxAlloc))
		if big.IsFalse() {
			return
		}
		if r.branch(big) {
			r.violation("alloc", fmt.Sprintf("allocation larger than %d bytes", r.maxAlloc), "")
			panic(pathEnd{"allocation bound"})
		}
	}
}

func (r *Run) typeAssert(in *ssa.TypeAssert, x iface) value {
	if x.t == lazyType {
		if _, isI := in.AssertedType.Underlying().(*types.Interface); !isI || in.AssertedType.Underlying().(*types.Interface).NumMethods() > 0 {
			x = r.force(x)
		}
	}
	var v value
	ok := false
	if x.t != nil {
		if it, is := in.AssertedType.Underlying().(*types.Interface); is {
			if x.t == lazyType || types.Implements(x.t, it) || modelImplements(x, it) {
				v, ok = x, true
			}
		} else if types.Identical(x.t, in.AssertedType) {
			v, ok = x.v, true
		}
	}
	if in.CommaOk {
		if !ok {
			v = r.zero(in.AssertedType)
		}
		return tuple{v, r.c.Bool(ok)}
	}
	if !ok {
		r.gopanic(fmt.Sprintf("interface conversion: not %v", in.AssertedType))
	}
	return v
}

type mapIter struct {
	m *mapv
	i int
}
type strIter struct {
	s string
	i int
}

func (r *Run) rangeIter(x value) value {
	switch x := x.(type) {
	case *mapv:
		return &mapIter{m: x}
	case string:
		return &strIter{s: x}
	}
	panic(unsupported{fmt.Sprintf("range over %T", x)})
}

func (r *Run) next(it value, in *ssa.Next) value {
	switch it := it.(type) {
	case *mapIter:
		if it.m != nil && it.i < len(it.m.keys) {
			it.i++
			return tuple{r.c.True, it.m.keys[it.i-1], it.m.vals[it.i-1]}
		}
		mt := in.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		return tuple{r.c.False, r.zero(mt.Key()), r.zero(mt.Elem())}
	case *strIter:
		if it.i < len(it.s) {
			for j, q := range it.s[it.i:] {
				_ = j
				k := it.i
				it.i += len(string(q))
				return tuple{r.c.True, r.c.I(int64(k)), r.c.I(int64(q))}
			}
		}
		return tuple{r.c.False, r.c.I(0), r.c.I(0)}
	}
	panic("next")
}

func (r *Run) builtin(caller *frame, b *ssa.Builtin, args []value) value {
	c := r.c
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string:
			return c.I(int64(len(x)))
		case *symStr:
			return r.ropeLen(x.rope)
		case bslice:
			return r.blen(x)
		case []value:
			return c.I(int64(len(x)))
		case array:
			return c.I(int64(len(x)))
		case *barr:
			return x.ln
		case *mapv:
			if x == nil {
				return c.I(0)
			}
			return c.I(int64(len(x.keys)))
		case *chanv:
			return c.I(int64(len(x.buf)))
		case *value:
			switch a := (*x).(type) {
			case array:
				return c.I(int64(len(a)))
			case *barr:
				return a.ln
			}
		}
	case "cap":
		switch x := args[0].(type) {
		case bslice:
			if x.arr == nil {
				return c.I(0)
			}
			return x.cp
		case []value:
			return c.I(int64(cap(x)))
		case *chanv:
			return c.I(int64(x.cap))
		}
	case "append":
		return r.appendB(args[0], args[1])
	case "copy":
		return r.copyB(args[0], args[1])
	case "close":
		ch := args[0].(*chanv)
		if ch.closed {
			r.gopanic("close of closed channel")
		}
		ch.closed = true
		r.release(&ch.clock)
		return nil
	case "delete":
		m := args[0].(*mapv)
		if m == nil {
			return nil
		}
		for i := range m.keys {
			if r.branch(r.eqVal(nil, m.keys[i], args[1])) {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				m.vals = append(m.vals[:i:i], m.vals[i+1:]...)
				return nil
			}
		}
		return nil
	case "panic":
		panic(targetPanic{args[0], r.panicMsg(args[0])})
	case "recover":
		// the caller is the deferred function; its caller holds the panic
		if caller != nil && caller.caller != nil && caller.caller.panicking {
			caller.caller.panicking = false
			p := caller.caller.panicv.(targetPanic)
			caller.caller.panicv = nil
			if i, ok := p.v.(iface); ok {
				return i
			}
			return iface{types.Typ[types.String], p.msg}
		}
		return iface{}
	case "print", "println":
		return nil
	case "min", "max":
		v := args[0].(*Term)
		for _, a := range args[1:] {
			y := a.(*Term)
			cond := c.Le(v, y)
			if b.Name() == "max" {
				cond = c.Ge(v, y)
			}
			if r.branch(cond) {
				continue
			}
			v = y
		}
		return v
	case "clear":
		switch x := args[0].(type) {
		case *mapv:
			x.keys, x.vals = nil, nil
			return nil
		case bslice:
			if x.arr != nil {
				r.asplice(x.arr, x.off, r.rZero(x.ln))
			}
			return nil
		}
	case "ssa:wrapnilchk":
		r.nilcheck(args[0])
		return args[0]
	}
	panic(unsupported{fmt.Sprintf("builtin %s on %T", b.Name(), args[0])})
}

func (r *Run) appendB(a, b value) value {
	c := r.c
	switch x := a.(type) {
	case bslice:
		add := r.bytesOf(b)
		al := r.ropeLen(add)
		if al.IsConst() && al.c.Sign() == 0 {
			return x
		}
		if x.arr == nil {
			return r.newBytes(add)
		}
		if bs, ok := b.(bslice); ok && bs.arr != nil {
			r.access(bs.arr, false)
		}
		nl := c.Add(x.ln, al)
		if r.branch(c.Le(nl, x.cp)) {
			r.access(x.arr, true)
			r.asplice(x.arr, c.Add(x.off, x.ln), add)
			return bslice{x.arr, x.off, nl, x.cp}
		}
		r.access(x.arr, false)
		return r.newBytes(r.rCat(r.bytesOf(x), add))
	case []value:
		y, ok := b.([]value)
		if !ok {
			if bs, is := b.(bslice); is && bs.arr == nil {
				return x
			}
			panic(unsupported{fmt.Sprintf("append %T to slice", b)})
		}
		n := make([]value, len(y))
		for i := range y {
			r.access(&y[i], false)
			n[i] = copyVal(y[i])
		}
		for i := len(x); i < len(x)+len(n) && i < cap(x); i++ {
			r.access(&x[:cap(x)][i], true)
		}
		return append(x, n...)
	}
	panic(unsupported{fmt.Sprintf("append to %T", a)})
}

func (r *Run) copyB(a, b value) value {
	c := r.c
	switch x := a.(type) {
	case bslice:
		src := r.bytesOf(b)
		sl := r.ropeLen(src)
		n := r.blen(x)
		if x.arr == nil {
			return c.I(0)
		}
		if r.branch(c.Le(sl, n)) {
			n = sl
		} else {
			src = r.rSlice(src, c.I(0), n)
		}
		if bs, ok := b.(bslice); ok && bs.arr != nil {
			r.access(bs.arr, false)
		}
		r.access(x.arr, true)
		r.asplice(x.arr, x.off, src)
		return n
	case []value:
		y := b.([]value)
		n := len(x)
		if len(y) < n {
			n = len(y)
		}
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			r.access(&y[i], false)
			tmp[i] = copyVal(y[i])
		}
		for i := 0; i < n; i++ {
			r.access(&x[i], true)
			storeTo(&x[i], tmp[i])
		}
		return c.I(int64(n))
	}
	panic(unsupported{fmt.Sprintf("copy to %T", a)})
}
