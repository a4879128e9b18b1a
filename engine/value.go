package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Values of the interpreter:
//
//	*Term              integers and booleans
//	string, *symStr    strings
//	*value, byteRef    pointers
//	structure, array   composite values; *barr for byte arrays
//	[]value, bslice    slices
//	iface              interfaces
//	*mapv, *chanv      maps, channels
//	*ssa.Function, *closure, *ssa.Builtin, native   functions
//	tuple              multiple results
//	bigv               the contents of a big.Int
//	*bufv, *sbv, *wgv, *muv, timev ...  modelled library structs
type value interface{}

type structure []value
type array []value
type tuple []value

type iface struct {
	t types.Type
	v value
}

type closure struct {
	fn  *ssa.Function
	env []value
}

type native struct {
	name string
	f    func(r *Run, args []value) value
}

type bigv struct{ t *Term }

type floatv struct{ f float64 }

// barr is the storage of a byte array.
type barr struct {
	rope Rope
	ln   *Term
	// race detection granularity is the whole array

	// old is what the array held before a buffer was rewritten from its
	// start; the part of it from ln on, if any, is still there.
	old *barrOld
}

type barrOld struct {
	rope Rope
	ln   *Term
	old  *barrOld
}

// settle makes the rope cover the whole array.
func (r *Run) settle(a *barr) {
	if a.old == nil {
		return
	}
	o := &barr{rope: a.old.rope, ln: a.old.ln, old: a.old.old}
	a.old = nil
	r.settle(o)
	if r.branch(r.c.Lt(a.ln, o.ln)) {
		a.rope = r.rCat(a.rope, r.rSlice(o.rope, a.ln, r.c.Sub(o.ln, a.ln)))
		a.ln = o.ln
	}
}

func (r *Run) cover(a *barr, to *Term) {
	if a.old != nil && to != a.ln {
		if v, k := r.known(r.c.Le(to, a.ln)); !k || !v {
			r.settle(a)
		}
	}
}

// aslice is r.rSlice on the content of an array.
func (r *Run) aslice(a *barr, lo, ln *Term) Rope {
	r.cover(a, r.c.Add(lo, ln))
	return r.rSlice(a.rope, lo, ln)
}

// asplice overwrites the content of the array from off on.
func (r *Run) asplice(a *barr, off *Term, q Rope) {
	r.cover(a, r.c.Add(off, r.ropeLen(q)))
	a.rope = r.rSplice(a.rope, a.ln, off, q)
}

func (r *Run) aindex(a *barr, i *Term) *Term {
	r.cover(a, r.c.Add(i, r.c.I(1)))
	return r.rIndex(a.rope, i)
}

// bslice is a slice of bytes. arr==nil means nil.
type bslice struct {
	arr         *barr
	off, ln, cp *Term
}

type byteRef struct {
	arr *barr
	idx *Term
}

type symStr struct{ rope Rope }

type mapv struct {
	keys, vals []value
}

type chanv struct {
	buf    []value
	vc     []vclock
	cap    int
	closed bool
	recvq  []*offer // receivers waiting (for unbuffered channels)
	sendq  []*offer // selects that offer a value
	taken  int
	clock  vclock
}

type bufv struct { // bytes.Buffer
	arr     *barr
	off, ln *Term // unread portion is [off, ln)
	base    *Term
	foreign bool // storage given by the caller
	aliased bool // slices of the storage may be held elsewhere
}

type sbv struct{ s Rope } // strings.Builder

type wgv struct {
	n     int64
	clock vclock
}
type muv struct {
	locked bool
	nread  int
	clock  vclock
}
type oncev struct {
	state int // 0 not started, 1 running, 2 done
	clock vclock
}

// selTok is a goroutine waiting in a select or for a receive; the first
// counterpart that takes one of its offers decides which case proceeds.
type selTok struct {
	done bool
	idx  int
	val  value
	vc   vclock
}

// offer is one case of a waiting select.
type offer struct {
	tok *selTok
	idx int
	val value
	vc  vclock
}

type timev struct{ ns *Term } // time.Time; nil ns means zero time

type opaque struct{ name string }

// errv is an error made by a modelled library function.
type errv struct {
	msg    string
	wrap   []value
	joined bool
}

type bad struct{} // value of an uninitialised register

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

func namedPath(t types.Type) string {
	if a, ok := t.(*types.Alias); ok {
		t = types.Unalias(a)
	}
	if n, ok := t.(*types.Named); ok {
		o := n.Obj()
		if o.Pkg() != nil {
			return o.Pkg().Path() + "." + o.Name()
		}
		return o.Name()
	}
	return ""
}

func (r *Run) zero(t types.Type) value {
	switch namedPath(t) {
	case "math/big.Int":
		return bigv{r.c.I(0)}
	case "bytes.Buffer":
		return &bufv{base: r.c.I(0), off: r.c.I(0), ln: r.c.I(0)}
	case "strings.Builder":
		return &sbv{}
	case "sync.WaitGroup":
		return &wgv{}
	case "sync.Mutex", "sync.RWMutex":
		return &muv{}
	case "sync.Once":
		return &oncev{}
	case "time.Time":
		return timev{}
	}
	switch t := t.Underlying().(type) {
	case *types.Basic:
		if t.Info()&types.IsInteger != 0 {
			return r.c.I(0)
		}
		if t.Info()&types.IsBoolean != 0 {
			return r.c.False
		}
		if t.Info()&types.IsString != 0 {
			return ""
		}
		if t.Info()&types.IsFloat != 0 {
			return floatv{0}
		}
		if t.Kind() == types.UnsafePointer {
			return (*value)(nil)
		}
		if t.Kind() == types.UntypedNil {
			return nil
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Array:
		if isByte(t.Elem()) {
			n := r.c.I(t.Len())
			return &barr{rope: r.rZero(n), ln: n}
		}
		a := make(array, t.Len())
		for i := range a {
			a[i] = r.zero(t.Elem())
		}
		return a
	case *types.Slice:
		if isByte(t.Elem()) {
			return bslice{}
		}
		return []value(nil)
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = r.zero(t.Field(i).Type())
		}
		return s
	case *types.Interface:
		return iface{}
	case *types.Map:
		return (*mapv)(nil)
	case *types.Chan:
		return (*chanv)(nil)
	case *types.Signature:
		return (*closure)(nil)
	case *types.Tuple:
		s := make(tuple, t.Len())
		for i := range s {
			s[i] = r.zero(t.At(i).Type())
		}
		return s
	}
	panic(unsupported{fmt.Sprintf("zero value of %v", t)})
}

// copyVal copies a value as an assignment does.
func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		s := make(structure, len(v))
		for i := range v {
			s[i] = copyVal(v[i])
		}
		return s
	case array:
		s := make(array, len(v))
		for i := range v {
			s[i] = copyVal(v[i])
		}
		return s
	case *barr:
		return &barr{rope: v.rope, ln: v.ln, old: v.old}
	case *bufv:
		n := *v
		return &n
	case *sbv:
		n := *v
		return &n
	case *wgv:
		n := *v
		return &n
	case *muv:
		n := *v
		return &n
	case *oncev:
		n := *v
		return &n
	}
	return v
}

// storeTo overwrites a cell in place, keeping the identity of nested cells.
func storeTo(p *value, v value) {
	switch nv := v.(type) {
	case structure:
		if old, ok := (*p).(structure); ok && len(old) == len(nv) {
			for i := range nv {
				storeTo(&old[i], nv[i])
			}
			return
		}
	case array:
		if old, ok := (*p).(array); ok && len(old) == len(nv) {
			for i := range nv {
				storeTo(&old[i], nv[i])
			}
			return
		}
	case *barr:
		if old, ok := (*p).(*barr); ok {
			old.rope, old.ln, old.old = nv.rope, nv.ln, nv.old
			return
		}
	}
	*p = copyVal(v)
}

func isNilPtr(v value) bool {
	switch v := v.(type) {
	case *value:
		return v == nil
	case nil:
		return true
	}
	return false
}

// eqVal is the condition x == y for values of static type t.
func (r *Run) eqVal(t types.Type, x, y value) *Term {
	c := r.c
	switch x := x.(type) {
	case *Term:
		return c.Eq(x, y.(*Term))
	case string:
		if ys, ok := y.(string); ok {
			return c.Bool(x == ys)
		}
		return r.rEq(r.strRope(x), r.strRope(y))
	case *symStr:
		return r.rEq(x.rope, r.strRope(y))
	case *value:
		if yb, ok := y.(*value); ok {
			return c.Bool(x == yb)
		}
		return c.Bool(x == nil && isNilPtr(y))
	case byteRef:
		yb, ok := y.(byteRef)
		return c.Bool(ok && yb.arr == x.arr && yb.idx == x.idx)
	case iface:
		yi, ok := y.(iface)
		if !ok {
			return c.Bool(x.t == nil && y == nil)
		}
		if x.t == nil || yi.t == nil {
			return c.Bool(x.t == nil && yi.t == nil)
		}
		if x.t == lazyType || yi.t == lazyType {
			x, yi = r.force(x), r.force(yi)
		}
		if !types.Identical(x.t, yi.t) {
			return c.False
		}
		return r.eqVal(x.t, x.v, yi.v)
	case structure:
		ys := y.(structure)
		var conj []*Term
		for i := range x {
			var ft types.Type
			if st, ok := t.Underlying().(*types.Struct); ok {
				ft = st.Field(i).Type()
			}
			conj = append(conj, r.eqVal(ft, x[i], ys[i]))
		}
		return c.And(conj...)
	case array:
		ys := y.(array)
		var conj []*Term
		for i := range x {
			conj = append(conj, r.eqVal(nil, x[i], ys[i]))
		}
		return c.And(conj...)
	case *barr:
		return r.rEq(x.rope, y.(*barr).rope)
	case *chanv:
		yc, _ := y.(*chanv)
		return c.Bool(x == yc)
	case *mapv:
		yc, _ := y.(*mapv)
		return c.Bool(x == yc)
	case []value:
		ys, _ := y.([]value)
		return c.Bool(x == nil && ys == nil)
	case bslice:
		ys, _ := y.(bslice)
		return c.Bool(x.arr == nil && ys.arr == nil)
	case *closure:
		yc, ok := y.(*closure)
		return c.Bool(ok && x == yc || x == nil && y == nil)
	case *ssa.Function:
		yf, ok := y.(*ssa.Function)
		return c.Bool(ok && x == yf)
	case *errv:
		ye, ok := y.(*errv)
		return c.Bool(ok && x == ye)
	case opaque:
		yo, ok := y.(opaque)
		return c.Bool(ok && x == yo)
	case nil:
		return c.Bool(y == nil || isNilPtr(y))
	case floatv:
		return c.Bool(x.f == y.(floatv).f)
	case timev:
		return c.Eq(r.timeNs(x), r.timeNs(y.(timev)))
	case bigv:
		return c.Eq(x.t, y.(bigv).t)
	case *native:
		return c.Bool(y == value(x))
	}
	panic(unsupported{fmt.Sprintf("comparison of %T", x)})
}

func (r *Run) strRope(v value) Rope {
	switch v := v.(type) {
	case string:
		return r.rConst([]byte(v))
	case *symStr:
		return v.rope
	}
	panic(unsupported{fmt.Sprintf("string of %T", v)})
}
func (r *Run) mkStr(p Rope) value {
	if b, ok := constBytes(p); ok {
		return string(b)
	}
	return &symStr{p}
}

func (r *Run) newBytes(p Rope) bslice {
	n := r.ropeLen(p)
	return bslice{arr: &barr{rope: p, ln: n}, off: r.c.I(0), ln: n, cp: n}
}
func (r *Run) bytesOf(v value) Rope {
	switch b := v.(type) {
	case bslice:
		if b.arr == nil {
			return nil
		}
		return r.aslice(b.arr, b.off, b.ln)
	case string, *symStr:
		return r.strRope(v)
	}
	panic(unsupported{fmt.Sprintf("bytes of %T", v)})
}
func (r *Run) blen(b bslice) *Term {
	if b.arr == nil {
		return r.c.I(0)
	}
	return b.ln
}

type intInfo struct {
	bits   uint
	signed bool
	lo, hi *big.Int
	mod    *big.Int
}

var intInfos = map[types.BasicKind]intInfo{}

func init() {
	mk := func(k types.BasicKind, bits uint, signed bool) {
		i := intInfo{bits: bits, signed: signed, mod: pow2(bits)}
		if signed {
			i.lo = new(big.Int).Neg(pow2(bits - 1))
			i.hi = new(big.Int).Sub(pow2(bits-1), bigOne)
		} else {
			i.lo = bigZero
			i.hi = new(big.Int).Sub(pow2(bits), bigOne)
		}
		intInfos[k] = i
	}
	mk(types.Int8, 8, true)
	mk(types.Int16, 16, true)
	mk(types.Int32, 32, true)
	mk(types.Int64, 64, true)
	mk(types.Int, 64, true)
	mk(types.Uint8, 8, false)
	mk(types.Uint16, 16, false)
	mk(types.Uint32, 32, false)
	mk(types.Uint64, 64, false)
	mk(types.Uint, 64, false)
	mk(types.Uintptr, 64, false)
}

func intInfoOf(t types.Type) (intInfo, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intInfo{}, false
	}
	k := b.Kind()
	if k == types.UntypedInt || k == types.UntypedRune {
		k = types.Int
	}
	i, ok := intInfos[k]
	return i, ok
}

// wrap reduces t into the range of the machine type.
func (r *Run) wrap(t *Term, i intInfo) *Term {
	if t.lo != nil && t.hi != nil && t.lo.Cmp(i.lo) >= 0 && t.hi.Cmp(i.hi) <= 0 {
		return t
	}
	if lo, hi := r.boundsOf(t); lo != nil && hi != nil && lo.Cmp(i.lo) >= 0 && hi.Cmp(i.hi) <= 0 {
		return t
	}
	if !i.signed {
		return r.c.Mod(t, i.mod)
	}
	half := pow2(i.bits - 1)
	return r.c.Sub(r.c.Mod(r.c.Add(t, r.c.Const(half)), i.mod), r.c.Const(half))
}
