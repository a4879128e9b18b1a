package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- modelled types ----

var modelPkg = types.NewPackage("verif/model", "model")

func newModelType(name string) *types.Named {
	return types.NewNamed(types.NewTypeName(token.NoPos, modelPkg, name, nil), types.NewStruct(nil, nil), nil)
}

var (
	errType               = newModelType("error")
	lazyType   types.Type = newModelType("point")
	readerType            = newModelType("reader") // opaque system reader/writer
	hashType              = newModelType("hash")
)

type hashv struct {
	name string
	msg  Rope
	pre  Rope // what Reset leaves
	id   string
	pos  *Term
	size int64
	xof  bool
}

func (r *Run) mkErr(msg string, wrap ...value) iface {
	return iface{errType, &errv{msg: msg, wrap: wrap}}
}

func (r *Run) ioEOF() value {
	pkg := r.e.prog.ImportedPackage("io")
	return r.load(r.global(pkg.Var("EOF")))
}
func (r *Run) ioErr(name string) value {
	pkg := r.e.prog.ImportedPackage("io")
	return r.load(r.global(pkg.Var(name)))
}

func modelImplements(x iface, it *types.Interface) bool {
	has := func(names ...string) bool {
		for i := 0; i < it.NumMethods(); i++ {
			ok := false
			for _, n := range names {
				ok = ok || n == it.Method(i).Name()
			}
			if !ok {
				return false
			}
		}
		return true
	}
	switch x.t {
	case errType:
		if e, ok := x.v.(*errv); ok && len(e.wrap) == 1 {
			return has("Error", "Unwrap")
		}
		return has("Error")
	case types.Type(readerType):
		return has("Read", "Write")
	case types.Type(hashType):
		return has("Read", "Write", "Sum", "Reset", "Size", "BlockSize")
	}
	return false
}

// modelMethod finds the implementation of an interface method on a modelled type.
func modelMethod(recv iface, name string) value {
	nat := func(f func(r *Run, a []value) value) value { return &native{name, f} }
	switch recv.t {
	case errType:
		switch name {
		case "Error":
			return nat(func(r *Run, a []value) value { return a[0].(*errv).msg })
		case "Unwrap":
			return nat(func(r *Run, a []value) value { return a[0].(*errv).wrap[0] })
		}
	case types.Type(readerType):
		switch name {
		case "Write":
			return nat(func(r *Run, a []value) value { return tuple{r.ropeLen(r.bytesOf(a[1])), iface{}} })
		case "Read":
			return nat(func(r *Run, a []value) value {
				if a[0].(opaque).name != "crypto/rand.Reader" {
					panic(unsupported{"read from " + a[0].(opaque).name})
				}
				return tuple{r.randFill(a[1].(bslice)), iface{}}
			})
		}
	case types.Type(hashType):
		switch name {
		case "Read":
			return nat(func(r *Run, a []value) value {
				h := a[0].(*hashv)
				b := a[1].(bslice)
				n := r.blen(b)
				if b.arr != nil {
					r.seal(h)
					r.access(b.arr, true)
					r.asplice(b.arr, b.off, r.rIn(h.id, h.pos, n))
					h.pos = r.c.Add(h.pos, n)
				}
				return tuple{n, iface{}}
			})
		case "Write":
			return nat(func(r *Run, a []value) value {
				h := a[0].(*hashv)
				p := r.bytesOf(a[1])
				h.msg = r.rCat(h.msg, p)
				return tuple{r.ropeLen(p), iface{}}
			})
		case "Sum":
			return nat(func(r *Run, a []value) value {
				h := a[0].(*hashv)
				id := r.hashID(h.name, h.msg, h.size)
				return r.appendB(a[1], r.newBytes(r.rIn(id, r.c.I(0), r.c.I(h.size))))
			})
		case "Reset":
			return nat(func(r *Run, a []value) value { h := a[0].(*hashv); h.msg = h.pre; return nil })
		case "Size":
			return nat(func(r *Run, a []value) value { return r.c.I(a[0].(*hashv).size) })
		case "BlockSize":
			return nat(func(r *Run, a []value) value { return r.c.I(64) })
		}
	}
	return nil
}

func (r *Run) seal(h *hashv) {
	if h.id == "" {
		h.id = r.hashID(h.name, h.msg, h.size)
	}
}

// hashID names the digest of a message: equal messages, equal digests.
func (r *Run) hashID(name string, msg Rope, size int64) string {
	for _, e := range r.hashes {
		if e.name == name && ropesIdentical(e.rope, msg) {
			return e.id
		}
	}
	w, ok := r.prints(msg)
	for _, e := range r.hashes {
		if e.name != name {
			continue
		}
		if ok && e.prints != nil && differ(w, e.prints) {
			r.note("coincidences of values excluded")
			continue
		}
		if r.branch(r.rEq(e.rope, msg)) {
			return e.id
		}
	}
	id := r.fresh("hash:" + name)
	r.hashes = append(r.hashes, hashEnt{name: name, rope: msg, id: id, n: size, prints: w})
	return id
}

func globalModel(r *Run, g *ssa.Global) (value, bool) {
	switch g.String() {
	case "crypto/rand.Reader":
		return iface{readerType, opaque{"crypto/rand.Reader"}}, true
	case "os.Stderr", "os.Stdout", "os.Stdin":
		return (*value)(nil), true
	case "os.Args":
		return []value{}, true
	case "encoding/base64.StdEncoding", "encoding/base64.RawStdEncoding", "encoding/base64.URLEncoding", "encoding/base64.RawURLEncoding":
		p := new(value)
		*p = opaque{g.Name()}
		return p, true
	}
	return nil, false
}

// ---- randomness ----

func (r *Run) randFill(b bslice) *Term {
	n := r.blen(b)
	if b.arr == nil {
		return n
	}
	k := r.concInt(n, "number of random bytes")
	max := pow2(uint(8 * k))
	v := r.nextRand(max, k)
	r.access(b.arr, true)
	r.asplice(b.arr, b.off, r.rFix(v, k, false))
	return n
}

// nextRand delivers k random bytes as an integer: from the queue set by the
// harness if any, else a fresh variable.
func (r *Run) nextRand(max *big.Int, k int64) *Term {
	if len(r.randQ) > 0 {
		q := r.rSlice(r.randQ, r.c.I(0), r.c.I(k))
		tot := r.ropeLen(r.randQ)
		r.randQ = r.rSlice(r.randQ, r.c.I(k), r.c.Sub(tot, r.c.I(k)))
		return r.rToBE(q)
	}
	v := r.c.Var(r.fresh("rand"), bigZero, new(big.Int).Sub(pow2(uint(8*k)), bigOne))
	r.draws = append(r.draws, RandDraw{T: v, Max: r.c.Const(pow2(uint(8 * k)))})
	return v
}

func (r *Run) randInt(max *Term) *Term {
	c := r.c
	if !r.branch(c.Gt(max, c.I(0))) {
		r.gopanic("crypto/rand: argument to Int is <= 0")
	}
	if max.IsConst() && len(r.randQ) > 0 {
		m1 := new(big.Int).Sub(max.c, bigOne)
		bl := m1.BitLen()
		if bl == 0 {
			return c.I(0)
		}
		k := int64(bl+7) / 8
		for i := 0; i < 4 && len(r.randQ) > 0; i++ {
			if !r.entailed(c.Ge(r.ropeLen(r.randQ), c.I(k))) {
				r.randQ = nil
				break
			}
			v := c.Mod(r.nextRand(nil, k), pow2(uint(bl)))
			if r.branch(c.Lt(v, max)) {
				return v
			}
		}
	}
	var hi *big.Int
	if max.hi != nil {
		hi = new(big.Int).Sub(max.hi, bigOne)
	}
	v := c.Var(r.fresh("rand"), bigZero, hi)
	r.assume(c.Lt(v, max))
	r.draws = append(r.draws, RandDraw{T: v, Max: max})
	return v
}

// inMemory tells that a reader delivers all it is asked for as long as it has it.
func inMemory(v value) bool {
	i, ok := v.(iface)
	if !ok || i.t == nil {
		return false
	}
	switch types.TypeString(i.t, nil) {
	case "*bytes.Buffer", "*bytes.Reader":
		return true
	case "*io.LimitedReader":
		p, ok := i.v.(*value)
		if !ok || p == nil {
			return false
		}
		s, ok := (*p).(structure)
		return ok && len(s) > 0 && inMemory(s[0])
	}
	return false
}

// ---- bytes.Buffer ----

func (r *Run) bufOf(v value) *bufv {
	p, ok := v.(*value)
	if !ok || p == nil {
		r.gopanic("runtime error: invalid memory address or nil pointer dereference (nil *bytes.Buffer)")
	}
	b, ok := (*p).(*bufv)
	if !ok {
		panic(unsupported{"bytes.Buffer of unknown shape"})
	}
	r.access(p, true)
	return b
}

func (r *Run) bufWrite(b *bufv, p Rope) *Term {
	c := r.c
	n := r.ropeLen(p)
	if n.IsConst() && n.c.Sign() == 0 {
		return n
	}
	if b.arr == nil {
		b.arr = &barr{rope: p, ln: n}
		b.base, b.off, b.ln = c.I(0), c.I(0), n
		return n
	}
	r.access(b.arr, true)
	end := c.Add(b.ln, n)
	if b.ln == b.arr.ln {
		if b.foreign {
			// growing a buffer made over foreign storage reallocates it
			b.arr = &barr{rope: r.rCat(b.arr.rope, p), ln: end}
			b.foreign = false
		} else {
			b.arr.rope = r.rCat(b.arr.rope, p)
			b.arr.ln = end
		}
	} else if fits, k := r.known(c.Le(end, b.arr.ln)); k && !fits && b.arr.old == nil {
		b.arr.rope = r.rCat(r.rSlice(b.arr.rope, c.I(0), b.ln), p)
		b.arr.ln = end
	} else {
		o := &barrOld{b.arr.rope, b.arr.ln, b.arr.old}
		b.arr.rope = r.rCat(r.aslice(b.arr, c.I(0), b.ln), p)
		b.arr.ln = end
		b.arr.old = o
	}
	b.ln = end
	return n
}

func (r *Run) bufTrim(b *bufv, to *Term) {
	b.ln = to
	if b.arr != nil && !b.aliased {
		b.arr.rope = r.aslice(b.arr, r.c.I(0), to)
		b.arr.ln = to
		b.arr.old = nil
	}
}

func (r *Run) bufUnread(b *bufv) *Term {
	if b.arr == nil {
		return r.c.I(0)
	}
	return r.c.Sub(b.ln, b.off)
}

func (r *Run) bufRead(b *bufv, dst bslice) value {
	c := r.c
	avail := r.bufUnread(b)
	want := r.blen(dst)
	if r.branch(c.Le(avail, c.I(0))) {
		if b.arr != nil {
			b.off = b.base
			r.bufTrim(b, b.base)
		}
		if r.branch(c.Eq(want, c.I(0))) {
			return tuple{c.I(0), iface{}}
		}
		return tuple{c.I(0), r.ioEOF()}
	}
	n := want
	if !r.branch(c.Le(want, avail)) {
		n = avail
	}
	if dst.arr != nil && !(n.IsConst() && n.c.Sign() == 0) {
		r.access(dst.arr, true)
		r.asplice(dst.arr, dst.off, r.aslice(b.arr, b.off, n))
	}
	b.off = c.Add(b.off, n)
	return tuple{n, iface{}}
}

func (r *Run) sliceOf(v value) bslice {
	switch b := v.(type) {
	case bslice:
		return b
	case nil:
		return bslice{}
	}
	panic(unsupported{fmt.Sprintf("byte slice of %T", v)})
}

func (r *Run) fmtArgs(v value) []value {
	s, _ := v.([]value)
	return s
}

// format renders a format string; symbolic integers become opaque text.
func (r *Run) format(f value, args []value) (value, []value) {
	fs, ok := f.(string)
	if !ok {
		return &symStr{r.strRope(f)}, nil
	}
	var out Rope
	var wrap []value
	ai := 0
	i := 0
	for i < len(fs) {
		j := strings.IndexByte(fs[i:], '%')
		if j < 0 {
			out = r.rCat(out, r.rConst([]byte(fs[i:])))
			break
		}
		out = r.rCat(out, r.rConst([]byte(fs[i:i+j])))
		i += j + 1
		k := i
		for k < len(fs) && strings.IndexByte("+-# 0123456789.", fs[k]) >= 0 {
			k++
		}
		if k >= len(fs) {
			break
		}
		verb := fs[k]
		spec := "%" + fs[i:k] + string(verb)
		i = k + 1
		if verb == '%' {
			out = r.rCat(out, r.rConst([]byte("%")))
			continue
		}
		if ai >= len(args) {
			out = r.rCat(out, r.rConst([]byte("%!"+string(verb)+"(MISSING)")))
			continue
		}
		a := args[ai]
		ai++
		if verb == 'w' {
			wrap = append(wrap, a)
		}
		out = r.rCat(out, r.fmtVal(spec, verb, a))
	}
	return r.mkStr(out), wrap
}

func (r *Run) fmtVal(spec string, verb byte, a value) Rope {
	if i, ok := a.(iface); ok {
		if i.t == nil {
			return r.rConst([]byte("<nil>"))
		}
		switch v := i.v.(type) {
		case string, *symStr:
			if verb == 's' || verb == 'v' {
				return r.strRope(v)
			}
			if s, ok := v.(string); ok {
				return r.rConst([]byte(fmt.Sprintf(spec, s)))
			}
		case *Term:
			if v.op == OConst {
				return r.rConst([]byte(fmt.Sprintf(spec, v.c)))
			}
			if v.IsTrue() || v.IsFalse() {
				return r.rConst([]byte(fmt.Sprintf(spec, v.IsTrue())))
			}
		case *errv:
			return r.rConst([]byte(v.msg))
		case bslice:
			if verb == 's' {
				return r.bytesOf(v)
			}
		}
	}
	return r.rConst([]byte("?"))
}

func (r *Run) str(v value) string {
	if s, ok := v.(string); ok {
		return s
	}
	return "(symbolic text)"
}

func (r *Run) writeTo(caller *frame, w value, p Rope) value {
	i := w.(iface)
	if i.t == nil {
		r.gopanic("runtime error: invalid memory address or nil pointer dereference")
	}
	if strings.HasSuffix(i.t.String(), "os.File") {
		return r.fileWrite(i.v, p)
	}
	if f := modelMethod(i, "Write"); f != nil {
		return r.call(caller, f, []value{i.v, r.newBytes(p)})
	}
	ms := r.e.prog.MethodSets.MethodSet(i.t)
	sel := ms.Lookup(nil, "Write")
	if sel == nil {
		panic(unsupported{"Fprintf to " + i.t.String()})
	}
	return r.call(caller, r.e.prog.MethodValue(sel), []value{i.v, r.newBytes(p)})
}

// invoke calls a method of an interface value.
func (r *Run) invoke(fr *frame, v value, name string, args ...value) value {
	i := r.force(v.(iface))
	if i.t == nil {
		r.gopanic("runtime error: invalid memory address or nil pointer dereference")
	}
	args = append([]value{i.v}, args...)
	if f := modelMethod(i, name); f != nil {
		return r.call(fr, f, args)
	}
	sel := r.e.prog.MethodSets.MethodSet(i.t).Lookup(nil, name)
	if sel == nil {
		panic(unsupported{name + " of " + i.t.String()})
	}
	return r.call(fr, r.e.prog.MethodValue(sel), args)
}

func init() {
	// bytes.Buffer
	BB := func(n string) string { return "(*bytes.Buffer)." + n }
	reg([]string{"bytes.NewBuffer"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		b := r.sliceOf(a[0])
		p := new(value)
		z := r.c.I(0)
		if b.arr == nil {
			*p = &bufv{base: z, off: z, ln: z}
		} else {
			*p = &bufv{arr: b.arr, base: b.off, off: b.off, ln: r.c.Add(b.off, b.ln), foreign: true, aliased: true}
		}
		return p
	})
	reg([]string{"bytes.NewBufferString"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		b := r.newBytes(r.strRope(a[0]))
		p := new(value)
		*p = &bufv{arr: b.arr, base: b.off, off: b.off, ln: r.c.Add(b.off, b.ln)}
		return p
	})
	reg([]string{BB("Write")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		if s := r.sliceOf(a[1]); s.arr != nil {
			r.access(s.arr, false)
		}
		return tuple{r.bufWrite(r.bufOf(a[0]), r.bytesOf(a[1])), iface{}}
	})
	reg([]string{BB("WriteString")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return tuple{r.bufWrite(r.bufOf(a[0]), r.strRope(a[1])), iface{}}
	})
	reg([]string{BB("WriteByte")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		r.bufWrite(r.bufOf(a[0]), r.rByte(a[1].(*Term)))
		return iface{}
	})
	reg([]string{BB("Read")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.bufRead(r.bufOf(a[0]), r.sliceOf(a[1]))
	})
	reg([]string{BB("ReadFrom")}, func(r *Run, fr *frame, _ *ssa.Function, a []value) value {
		c := r.c
		b := r.bufOf(a[0])
		total := c.I(0)
		for k := 0; ; k++ {
			if k > 300 {
				r.incomplete("loop bound 300 reached in bytes.Buffer.ReadFrom")
			}
			// the size of the pieces is of no consequence to readers from memory
			size := int64(512)
			if inMemory(a[1]) {
				size = 1 << 20
			}
			n512 := c.I(size)
			sc := r.newBytes(r.rZero(n512))
			t := r.invoke(fr, a[1], "Read", sc).(tuple)
			n := t[0].(*Term)
			if r.branch(c.Lt(n, c.I(0))) || r.branch(c.Gt(n, n512)) {
				r.gopanic("bytes.Buffer: reader returned negative count from Read")
			}
			r.bufWrite(b, r.aslice(sc.arr, c.I(0), n))
			total = c.Add(total, n)
			e := t[1].(iface)
			if e.t == nil {
				continue
			}
			if r.branch(r.eqVal(nil, e, r.ioEOF())) {
				e = iface{}
			}
			if b.arr == nil {
				// nothing was read, but the storage for it is there
				b.arr = r.newBytes(r.rZero(c.I(512))).arr
				b.base, b.off, b.ln = c.I(0), c.I(0), c.I(0)
			}
			return tuple{total, e}
		}
	})
	reg([]string{"io.ReadAll", "io/ioutil.ReadAll"}, func(r *Run, fr *frame, fn *ssa.Function, a []value) value {
		if !inMemory(a[0]) {
			return r.callBody(fr, fn, a, nil)
		}
		c := r.c
		var all Rope
		for k := 0; ; k++ {
			if k > 300 {
				r.incomplete("loop bound 300 reached in io.ReadAll")
			}
			sc := r.newBytes(r.rZero(c.I(1 << 20)))
			t := r.invoke(fr, a[0], "Read", sc).(tuple)
			all = r.rCat(all, r.aslice(sc.arr, c.I(0), t[0].(*Term)))
			e := t[1].(iface)
			if e.t == nil {
				continue
			}
			if r.branch(r.eqVal(nil, e, r.ioEOF())) {
				e = iface{}
			}
			return tuple{r.newBytes(all), e}
		}
	})
	reg([]string{BB("ReadByte")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		b := r.bufOf(a[0])
		if r.branch(r.c.Le(r.bufUnread(b), r.c.I(0))) {
			return tuple{r.c.I(0), r.ioEOF()}
		}
		v := r.aindex(b.arr, b.off)
		b.off = r.c.Add(b.off, r.c.I(1))
		return tuple{v, iface{}}
	})
	reg([]string{BB("Bytes")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		b := r.bufOf(a[0])
		if b.arr == nil {
			return bslice{}
		}
		b.aliased = true
		n := r.c.Sub(b.ln, b.off)
		if b.ln.IsConst() && b.ln.c.Sign() == 0 {
			return bslice{b.arr, b.off, n, b.arr.ln}
		}
		return bslice{b.arr, b.off, n, n}
	})
	reg([]string{BB("Next")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		b := r.bufOf(a[0])
		n := a[1].(*Term)
		if b.arr == nil {
			return bslice{}
		}
		av := r.bufUnread(b)
		if !r.branch(r.c.Le(n, av)) {
			n = av
		}
		b.aliased = true
		s := bslice{b.arr, b.off, n, n}
		b.off = r.c.Add(b.off, n)
		return s
	})
	reg([]string{BB("String")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		if p, _ := a[0].(*value); p == nil {
			return "<nil>"
		}
		b := r.bufOf(a[0])
		if b.arr == nil {
			return ""
		}
		return r.mkStr(r.aslice(b.arr, b.off, r.c.Sub(b.ln, b.off)))
	})
	reg([]string{BB("Len"), BB("Available")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.bufUnread(r.bufOf(a[0]))
	})
	reg([]string{BB("Cap")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		b := r.bufOf(a[0])
		if b.arr == nil {
			return r.c.I(0)
		}
		r.settle(b.arr)
		return b.arr.ln
	})
	reg([]string{BB("Grow")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		if !r.branch(r.c.Ge(a[1].(*Term), r.c.I(0))) {
			r.gopanic("bytes.Buffer.Grow: negative count")
		}
		r.checkAlloc(a[1].(*Term))
		return nil
	})
	reg([]string{BB("Reset")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		b := r.bufOf(a[0])
		if b.arr != nil {
			b.off = b.base
			r.bufTrim(b, b.base)
		}
		return nil
	})
	reg([]string{BB("Truncate")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		b := r.bufOf(a[0])
		n := a[1].(*Term)
		if !r.branch(r.c.And(r.c.Ge(n, r.c.I(0)), r.c.Le(n, r.bufUnread(b)))) {
			r.gopanic("bytes.Buffer: truncation out of range")
		}
		if b.arr != nil {
			r.bufTrim(b, r.c.Add(b.off, n))
		}
		return nil
	})
	reg([]string{BB("WriteTo")}, func(r *Run, fr *frame, _ *ssa.Function, a []value) value {
		b := r.bufOf(a[0])
		if b.arr == nil {
			return tuple{r.c.I(0), iface{}}
		}
		n := r.c.Sub(b.ln, b.off)
		p := r.aslice(b.arr, b.off, n)
		b.off = b.ln
		t := r.writeTo(fr, a[1], p).(tuple)
		return tuple{t[0], t[1]}
	})
	// bytes
	reg([]string{"bytes.Equal"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.rEq(r.bytesOf(a[0]), r.bytesOf(a[1]))
	})
	reg([]string{"crypto/subtle.ConstantTimeCompare"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.c.Ite(r.rEq(r.bytesOf(a[0]), r.bytesOf(a[1])), r.c.I(1), r.c.I(0))
	})
	reg([]string{"bytes.Clone"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		if r.sliceOf(a[0]).arr == nil {
			return bslice{}
		}
		return r.newBytes(r.bytesOf(a[0]))
	})
	reg([]string{"bytes.HasPrefix"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		s, p := r.bytesOf(a[0]), r.bytesOf(a[1])
		n := r.ropeLen(p)
		if !r.branch(r.c.Le(n, r.ropeLen(s))) {
			return r.c.False
		}
		return r.rEq(r.rSlice(s, r.c.I(0), n), p)
	})
	// encoding/binary
	for _, le := range []bool{true, false} {
		le := le
		recv := "(encoding/binary.bigEndian)."
		if le {
			recv = "(encoding/binary.littleEndian)."
		}
		for _, w := range []int64{2, 4, 8} {
			w := w
			sz := fmt.Sprint(w * 8)
			reg([]string{recv + "PutUint" + sz}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
				b := r.sliceOf(a[1])
				r.checkIdx(r.c.I(w-1), r.blen(b))
				r.access(b.arr, true)
				r.asplice(b.arr, b.off, r.rFix(a[2].(*Term), w, le))
				return nil
			})
			reg([]string{recv + "Uint" + sz}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
				b := r.sliceOf(a[1])
				r.checkIdx(r.c.I(w-1), r.blen(b))
				r.access(b.arr, false)
				return r.rToInt(r.aslice(b.arr, b.off, r.c.I(w)), w, le)
			})
			reg([]string{recv + "AppendUint" + sz}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
				return r.appendB(a[1], r.newBytes(r.rFix(a[2].(*Term), w, le)))
			})
		}
	}
	reg([]string{"encoding/binary.Write"}, func(r *Run, fr *frame, _ *ssa.Function, a []value) value {
		le := strings.Contains(a[1].(iface).t.String(), "little")
		d := a[2].(iface)
		ii, ok := intInfoOf(deref(d.t))
		if !ok {
			panic(unsupported{"binary.Write of " + d.t.String()})
		}
		v := d.v
		if _, isT := v.(*Term); !isT {
			v = r.load(v)
		}
		t := r.writeTo(fr, a[0], r.rFix(r.c.Mod(v.(*Term), ii.mod), int64(ii.bits/8), le)).(tuple)
		return t[1]
	})
	reg([]string{"encoding/binary.Read"}, func(r *Run, fr *frame, _ *ssa.Function, a []value) value {
		le := strings.Contains(a[1].(iface).t.String(), "little")
		d := a[2].(iface)
		ii, ok := intInfoOf(deref(d.t))
		if !ok {
			panic(unsupported{"binary.Read of " + d.t.String()})
		}
		n := r.c.I(int64(ii.bits / 8))
		buf := bslice{arr: &barr{rope: r.rZero(n), ln: n}, off: r.c.I(0), ln: n, cp: n}
		rf := r.e.prog.ImportedPackage("io").Func("ReadFull")
		t := r.call(fr, rf, []value{a[0], buf}).(tuple)
		if e := t[1].(iface); e.t != nil {
			return e
		}
		v := r.rToInt(buf.arr.rope, int64(ii.bits/8), le)
		if ii.signed {
			v = r.wrap(v, ii)
		}
		r.store(d.v, v)
		return iface{}
	})
	// fmt, errors
	reg([]string{"fmt.Errorf"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		s, wrap := r.format(a[0], r.fmtArgs(a[1]))
		return r.mkErr(r.str(s), wrap...)
	})
	reg([]string{"errors.New"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.mkErr(r.str(a[0]))
	})
	reg([]string{"fmt.Sprintf"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		s, _ := r.format(a[0], r.fmtArgs(a[1]))
		return s
	})
	reg([]string{"fmt.Sprint", "fmt.Sprintln"}, func(r *Run, _ *frame, fn *ssa.Function, a []value) value {
		var p Rope
		for i, x := range r.fmtArgs(a[0]) {
			if i > 0 {
				p = r.rCat(p, r.rConst([]byte(" ")))
			}
			p = r.rCat(p, r.fmtVal("%v", 'v', x))
		}
		if fn.Name() == "Sprintln" {
			p = r.rCat(p, r.rConst([]byte("\n")))
		}
		return r.mkStr(p)
	})
	reg([]string{"fmt.Fprintf"}, func(r *Run, fr *frame, _ *ssa.Function, a []value) value {
		s, _ := r.format(a[1], r.fmtArgs(a[2]))
		return r.writeTo(fr, a[0], r.strRope(s))
	})
	reg([]string{"fmt.Fprintln", "fmt.Fprint"}, func(r *Run, fr *frame, fn *ssa.Function, a []value) value {
		var p Rope
		for i, x := range r.fmtArgs(a[1]) {
			if i > 0 {
				p = r.rCat(p, r.rConst([]byte(" ")))
			}
			p = r.rCat(p, r.fmtVal("%v", 'v', x))
		}
		if fn.Name() == "Fprintln" {
			p = r.rCat(p, r.rConst([]byte("\n")))
		}
		return r.writeTo(fr, a[0], p)
	})
	reg([]string{"fmt.Println", "fmt.Printf", "fmt.Print"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return tuple{r.c.I(0), iface{}}
	})
	reg([]string{"(*os.File).Write", "(*os.File).WriteString"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return tuple{r.c.I(0), iface{}}
	})
	// strings.Builder
	SB := func(n string) string { return "(*strings.Builder)." + n }
	sb := func(r *Run, v value) *sbv {
		r.nilcheck(v)
		r.access(v.(*value), true)
		return (*v.(*value)).(*sbv)
	}
	reg([]string{SB("WriteString")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		b := sb(r, a[0])
		p := r.strRope(a[1])
		b.s = r.rCat(b.s, p)
		return tuple{r.ropeLen(p), iface{}}
	})
	reg([]string{SB("Write")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		b := sb(r, a[0])
		p := r.bytesOf(a[1])
		b.s = r.rCat(b.s, p)
		return tuple{r.ropeLen(p), iface{}}
	})
	reg([]string{SB("WriteByte")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		b := sb(r, a[0])
		b.s = r.rCat(b.s, r.rByte(a[1].(*Term)))
		return iface{}
	})
	reg([]string{SB("Len")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value { return r.ropeLen(sb(r, a[0]).s) })
	reg([]string{SB("String")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value { return r.mkStr(sb(r, a[0]).s) })
	reg([]string{SB("Reset")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value { sb(r, a[0]).s = nil; return nil })
	reg([]string{SB("Grow")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value { return nil })
	// strings
	reg([]string{"strings.TrimSpace"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		if s, ok := a[0].(string); ok {
			return strings.TrimSpace(s)
		}
		panic(unsupported{"TrimSpace of symbolic string"})
	})
	// hashes
	hkdfHash := func(f value) (string, int64) {
		if fn, ok := f.(*ssa.Function); ok {
			switch fn.String() {
			case "crypto/sha512.New":
				return fn.String(), 64
			case "crypto/sha1.New":
				return fn.String(), 20
			}
			return fn.String(), 32
		}
		return "?", 32
	}
	constOf := func(r *Run, b value) []byte {
		c, ok := constBytes(r.bytesOf(b))
		if !ok {
			panic(unsupported{"hkdf with symbolic salt or info"})
		}
		return c
	}
	reg([]string{"golang.org/x/crypto/hkdf.New"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		hn, n := hkdfHash(a[0])
		salt, info := constOf(r, a[2]), constOf(r, a[3])
		return iface{hashType, &hashv{name: fmt.Sprintf("hkdf/%s/%x/%x", hn, salt, info), msg: r.bytesOf(a[1]), pos: r.c.I(0), size: 255 * n, xof: true}}
	})
	// the two halves of New: the key of the second is the output of the first
	reg([]string{"golang.org/x/crypto/hkdf.Extract"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		hn, n := hkdfHash(a[0])
		id := r.hashID(fmt.Sprintf("hkdf-extract/%s/%x", hn, constOf(r, a[2])), r.bytesOf(a[1]), n)
		return r.newBytes(r.rIn(id, r.c.I(0), r.c.I(n)))
	})
	reg([]string{"golang.org/x/crypto/hkdf.Expand"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		hn, n := hkdfHash(a[0])
		info := constOf(r, a[2])
		key := r.bytesOf(a[1])
		for _, e := range r.hashes {
			pre := "hkdf-extract/" + hn + "/"
			if strings.HasPrefix(e.name, pre) && ropesIdentical(key, r.rIn(e.id, r.c.I(0), r.c.I(n))) {
				return iface{hashType, &hashv{name: fmt.Sprintf("hkdf/%s/%s/%x", hn, e.name[len(pre):], info), msg: e.rope, pos: r.c.I(0), size: 255 * n, xof: true}}
			}
		}
		return iface{hashType, &hashv{name: fmt.Sprintf("hkdf-expand/%s/%x", hn, info), msg: key, pos: r.c.I(0), size: 255 * n, xof: true}}
	})
	for n, sz := range map[string]int64{"crypto/sha256": 32, "crypto/sha512": 64, "crypto/sha1": 20} {
		n, sz := n, sz
		reg([]string{n + ".New"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
			return iface{hashType, &hashv{name: n, size: sz, pos: r.c.I(0)}}
		})
	}
	sum := func(name, hn string, sz int64) {
		reg([]string{name}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
			id := r.hashID(hn, r.bytesOf(a[0]), sz)
			return &barr{rope: r.rIn(id, r.c.I(0), r.c.I(sz)), ln: r.c.I(sz)}
		})
	}
	sum("crypto/sha256.Sum256", "crypto/sha256", 32)
	sum("crypto/sha512.Sum512", "crypto/sha512", 64)
	// randomness
	reg([]string{"crypto/rand.Int"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		rd := a[0].(iface)
		if o, ok := rd.v.(opaque); !ok || o.name != "crypto/rand.Reader" {
			panic(unsupported{"rand.Int on a custom reader"})
		}
		return tuple{r.newBig(r.randInt(r.bigGet(a[1]))), iface{}}
	})
	reg([]string{"crypto/rand.Read"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return tuple{r.randFill(r.sliceOf(a[0])), iface{}}
	})
	reg([]string{"math/rand.New", "math/rand.NewSource", "math/rand/v2.New", "math/rand/v2.NewPCG"}, func(r *Run, _ *frame, fn *ssa.Function, a []value) value {
		if fn.Name() == "NewSource" {
			return iface{readerType, opaque{"math/rand"}}
		}
		p := new(value)
		*p = opaque{"math/rand"}
		return p
	})
	for _, pre := range []string{"math/rand.", "(*math/rand.Rand)."} {
		for n, hi := range map[string]uint{"Int63": 63, "Int31": 31, "Uint32": 32, "Uint64": 64, "Int": 63} {
			hi := hi
			reg([]string{pre + n}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
				return r.c.Var(r.fresh("mathrand"), bigZero, new(big.Int).Sub(pow2(hi), bigOne))
			})
		}
		reg([]string{pre + "Seed"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value { return nil })
		for _, n := range []string{"Intn", "Int63n", "Int31n"} {
			reg([]string{pre + n}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
				m := a[len(a)-1].(*Term)
				var hi *big.Int
				if m.hi != nil {
					hi = new(big.Int).Sub(m.hi, bigOne)
				}
				v := r.c.Var(r.fresh("mathrand"), bigZero, hi)
				r.assume(r.c.Lt(v, m))
				return v
			})
		}
	}
	// base64
	b64 := func(n string) string { return "(*encoding/base64.Encoding)." + n }
	reg([]string{b64("EncodeToString")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		p := r.bytesOf(a[1])
		return r.b64enc(a[0], p)
	})
	reg([]string{b64("DecodeString")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.b64dec(a[0], a[1])
	})
	// misc
	reg([]string{"runtime.KeepAlive", "runtime.GC", "runtime.SetFinalizer"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value { return nil })
	reg([]string{"os.Exit"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		panic(pathEnd{"os.Exit"})
	})
	reg([]string{"math/bits.Len64", "math/bits.Len32", "math/bits.Len"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.c.BitLen(a[0].(*Term))
	})
}

// base64 is modelled as an injective renaming of the byte string: the text
// remembers the bytes it stands for.
func (r *Run) b64enc(enc value, p Rope) value {
	if b, ok := constBytes(p); ok {
		return b64Std(enc).EncodeToString(b)
	}
	n := r.ropeLen(p)
	id := fmt.Sprintf("b64:%d", len(r.b64))
	r.b64 = append(r.b64, b64ent{enc: encName(enc), p: p, id: id})
	ln := r.b64len(encName(enc), n)
	return &symStr{r.rIn(id, r.c.I(0), ln)}
}

func (r *Run) b64len(enc string, n *Term) *Term {
	c := r.c
	if strings.HasPrefix(enc, "Raw") {
		return c.Div(c.Add(c.Scale(n, big.NewInt(8)), c.I(5)), big.NewInt(6))
	}
	return c.Scale(c.Div(c.Add(n, c.I(2)), big.NewInt(3)), big.NewInt(4))
}

type b64ent struct {
	enc string
	p   Rope
	id  string
}

func encName(v value) string {
	if p, ok := v.(*value); ok && p != nil {
		if o, ok := (*p).(opaque); ok {
			return o.name
		}
	}
	return "StdEncoding"
}

func (r *Run) b64dec(enc, s value) value {
	if cs, ok := s.(string); ok {
		b, err := b64Std(enc).DecodeString(cs)
		if err != nil {
			return tuple{r.newBytes(r.rConst(b)), r.mkErr(err.Error())}
		}
		return tuple{r.newBytes(r.rConst(b)), iface{}}
	}
	p := r.strRope(s)
	if len(p) == 1 && p[0].k == sIn {
		for _, e := range r.b64 {
			if e.id != p[0].id || p[0].off != r.c.I(0) || p[0].ln != r.b64len(e.enc, r.ropeLen(e.p)) {
				continue
			}
			have, want := e.enc, encName(enc)
			bad := func() value {
				return tuple{r.newBytes(nil), r.mkErr("illegal base64 data at input byte 0")}
			}
			n := r.ropeLen(e.p)
			if strings.HasPrefix(have, "Raw") != strings.HasPrefix(want, "Raw") && !r.branch(r.c.Eq(r.c.Mod(n, big.NewInt(3)), r.c.I(0))) {
				return bad()
			}
			if strings.Contains(have, "URL") != strings.Contains(want, "URL") && r.branch(r.c.Gt(n, r.c.I(0))) {
				if r.branch(r.c.Ge(r.rIndex(e.p, r.c.I(0)), r.c.I(62*4))) {
					return bad()
				}
				for i := int64(2); i < 12; i += 3 {
					if !r.branch(r.c.Gt(n, r.c.I(i))) {
						break
					}
					if r.branch(r.c.Ge(r.c.Mod(r.rIndex(e.p, r.c.I(i)), big.NewInt(64)), r.c.I(62))) {
						return bad()
					}
				}
				r.incomplete("base64 decoding with another alphabet")
			}
			return tuple{r.newBytes(e.p), iface{}}
		}
	}
	panic(unsupported{"base64 decoding of mixed text"})
}
