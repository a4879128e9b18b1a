package main

import (
	"encoding/base64"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Files live in memory, per path; names are concrete. Only what programs need
// to write and read whole files in sequence is modelled.

type fdata struct{ rope Rope }

type filev struct {
	name string
	d    *fdata
	pos  *Term
	app  bool
	shut bool
}

type scanv struct {
	f     *filev
	mode  string
	split bool
	toks  []Rope
	cur   Rope
	err   value
	limit int64
}

func b64Alphabet(enc string) string {
	s := "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
	if strings.Contains(enc, "URL") {
		return s + "-_="
	}
	return s + "+/="
}

// split cuts p at the bytes that satisfy isSep.
func (r *Run) ropeSplit(p Rope, isSep func(b byte) bool) []Rope {
	p = r.simpRope(p)
	var out []Rope
	var cur Rope
	var seps []*Term
	for b := 0; b < 256; b++ {
		if isSep(byte(b)) {
			seps = append(seps, r.c.I(int64(b)))
		}
	}
	// every byte of the segment decides whether it separates
	forked := func(s Seg) {
		n := r.concInt(s.ln, "length of text to split")
		for i := int64(0); i < n; i++ {
			one := r.rSlice(Rope{s}, r.c.I(i), r.c.I(1))
			b := r.rIndex(one, r.c.I(0))
			var alt []*Term
			for _, x := range seps {
				alt = append(alt, r.c.Eq(b, x))
			}
			if r.branch(r.c.Or(alt...)) {
				out = append(out, cur)
				cur = nil
			} else {
				cur = r.rCat(cur, one)
			}
		}
	}
	for _, s := range p {
		if b, ok := constBytes(Rope{s}); ok {
			from := 0
			for i, x := range b {
				if isSep(x) {
					out = append(out, r.rCat(cur, r.rConst(b[from:i])))
					cur = nil
					from = i + 1
				}
			}
			cur = r.rCat(cur, r.rConst(b[from:]))
			continue
		}
		if s.k == sIn {
			clean := false
			for _, e := range r.b64 {
				if e.id == s.id {
					clean = strings.IndexFunc(b64Alphabet(e.enc), func(c rune) bool { return isSep(byte(c)) }) < 0
				}
			}
			if clean {
				cur = r.rCat(cur, Rope{s})
				continue
			}
		}
		forked(s)
	}
	return append(out, cur)
}

func isSpaceByte(b byte) bool {
	return b == ' ' || b == '\t' || b == '\n' || b == '\v' || b == '\f' || b == '\r'
}

// isEmpty decides whether a part is empty.
func (r *Run) isEmpty(p Rope) bool {
	return r.branch(r.c.Eq(r.ropeLen(p), r.c.I(0)))
}

func (r *Run) strSlice(ps []Rope) value {
	out := make([]value, len(ps))
	for i, p := range ps {
		out[i] = r.mkStr(p)
	}
	return out
}

func (r *Run) fileOf(v value) *filev {
	p, ok := v.(*value)
	if !ok {
		panic(unsupported{"file of unknown shape"})
	}
	if p == nil {
		return nil
	}
	f, ok := (*p).(*filev)
	if !ok {
		panic(unsupported{"file of unknown shape"})
	}
	return f
}

func (r *Run) fileWrite(v value, p Rope) value {
	f := r.fileOf(v)
	if f == nil {
		// standard output or error
		return tuple{r.ropeLen(p), iface{}}
	}
	if f.shut {
		return tuple{r.c.I(0), r.mkErr("write " + f.name + ": file already closed")}
	}
	n := r.ropeLen(p)
	end := r.c.Add(f.pos, n)
	ln := r.ropeLen(f.d.rope)
	if f.app || f.pos == ln || r.c.Eq(f.pos, ln).IsTrue() {
		f.d.rope = r.rCat(f.d.rope, p)
		f.pos = r.ropeLen(f.d.rope)
	} else if ln.IsConst() && end.IsConst() {
		var tail Rope
		if end.c.Cmp(ln.c) < 0 {
			tail = r.rSlice(f.d.rope, end, r.c.Sub(ln, end))
		}
		f.d.rope = r.rCat(r.rSlice(f.d.rope, r.c.I(0), f.pos), p, tail)
		f.pos = end
	} else {
		panic(unsupported{"writing inside a file of symbolic length"})
	}
	return tuple{n, iface{}}
}

func (r *Run) openFile(name value, flag int64) value {
	s, ok := name.(string)
	if !ok {
		panic(unsupported{"symbolic file name"})
	}
	if r.files == nil {
		r.files = map[string]*fdata{}
	}
	d := r.files[s]
	if d == nil {
		if flag&int64(os.O_CREATE) == 0 {
			return tuple{(*value)(nil), r.mkErr("open " + s + ": no such file or directory")}
		}
		d = &fdata{}
		r.files[s] = d
	} else if flag&int64(os.O_CREATE|os.O_EXCL) == int64(os.O_CREATE|os.O_EXCL) {
		return tuple{(*value)(nil), r.mkErr("open " + s + ": file exists")}
	}
	if flag&int64(os.O_TRUNC) != 0 {
		d.rope = nil
	}
	p := new(value)
	*p = &filev{name: s, d: d, pos: r.c.I(0), app: flag&int64(os.O_APPEND) != 0}
	return tuple{p, iface{}}
}

func init() {
	F := func(n string) string { return "(*os.File)." + n }
	reg([]string{"os.Open"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value { return r.openFile(a[0], 0) })
	reg([]string{"os.Create"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.openFile(a[0], int64(os.O_RDWR|os.O_CREATE|os.O_TRUNC))
	})
	reg([]string{"os.OpenFile"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.openFile(a[0], r.concInt(a[1].(*Term), "flags"))
	})
	reg([]string{"os.WriteFile", "io/ioutil.WriteFile"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		t := r.openFile(a[0], int64(os.O_WRONLY|os.O_CREATE|os.O_TRUNC)).(tuple)
		return r.fileWrite(t[0], r.bytesOf(a[1])).(tuple)[1]
	})
	reg([]string{"os.ReadFile", "io/ioutil.ReadFile"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		t := r.openFile(a[0], 0).(tuple)
		f := r.fileOf(t[0])
		if f == nil {
			return tuple{bslice{}, t[1]}
		}
		return tuple{r.newBytes(f.d.rope), iface{}}
	})
	reg([]string{F("WriteString"), F("Write")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.fileWrite(a[0], r.bytesOf(a[1]))
	})
	reg([]string{F("Close")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		f := r.fileOf(a[0])
		if f == nil {
			return r.mkErr("invalid argument")
		}
		if f.shut {
			return r.mkErr("close " + f.name + ": file already closed")
		}
		f.shut = true
		return iface{}
	})
	reg([]string{F("Sync")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value { return iface{} })
	reg([]string{F("Name")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value { return r.fileOf(a[0]).name })

	// bufio.Scanner over files
	reg([]string{"bufio.NewScanner"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		i := a[0].(iface)
		if i.t == nil || !strings.HasSuffix(i.t.String(), "os.File") {
			panic(unsupported{"bufio.Scanner on something else than a file"})
		}
		p := new(value)
		*p = &scanv{f: r.fileOf(i.v), mode: "bufio.ScanLines", err: iface{}, limit: 64 * 1024}
		return p
	})
	S := func(n string) string { return "(*bufio.Scanner)." + n }
	sc := func(v value) *scanv { return (*v.(*value)).(*scanv) }
	reg([]string{S("Split")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		f, ok := a[1].(*ssa.Function)
		if !ok || f.String() != "bufio.ScanWords" && f.String() != "bufio.ScanLines" {
			panic(unsupported{"split function of a scanner"})
		}
		sc(a[0]).mode = f.String()
		return nil
	})
	reg([]string{S("Buffer")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		sc(a[0]).limit = r.concInt(a[2].(*Term), "size of buffer")
		return nil
	})
	reg([]string{S("Scan")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		s := sc(a[0])
		c := r.c
		s.cur = nil
		if s.f == nil || s.f.shut {
			s.err = r.mkErr("read: file already closed")
			return c.False
		}
		if !s.split {
			s.split = true
			if s.mode == "bufio.ScanWords" {
				s.toks = r.ropeSplit(s.f.d.rope, isSpaceByte)
			} else {
				s.toks = r.ropeSplit(s.f.d.rope, func(b byte) bool { return b == '\n' })
			}
		}
		for len(s.toks) > 0 {
			t := s.toks[0]
			last := len(s.toks) == 1
			s.toks = s.toks[1:]
			if (last || s.mode == "bufio.ScanWords") && r.isEmpty(t) {
				continue
			}
			ln := r.ropeLen(t)
			if !(ln.hi != nil && ln.hi.Cmp(big.NewInt(s.limit-1)) < 0) && r.branch(c.Ge(ln, c.I(s.limit-1))) {
				s.toks = nil
				s.err = r.mkErr("bufio.Scanner: token too long")
				return c.False
			}
			if s.mode != "bufio.ScanWords" && !r.isEmpty(t) {
				if r.branch(c.Eq(r.rIndex(t, c.Sub(ln, c.I(1))), c.I('\r'))) {
					t = r.rSlice(t, c.I(0), c.Sub(ln, c.I(1)))
				}
			}
			s.cur = t
			return c.True
		}
		return c.False
	})
	reg([]string{S("Text")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value { return r.mkStr(sc(a[0]).cur) })
	reg([]string{S("Bytes")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value { return r.newBytes(sc(a[0]).cur) })
	reg([]string{S("Err")}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value { return sc(a[0]).err })

	// strings
	reg([]string{"strings.Clone", "internal/stringslite.Clone"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value { return a[0] })
	reg([]string{"strings.Split", "strings.SplitN"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		sep, ok := a[1].(string)
		n := int64(-1)
		if len(a) > 2 {
			n = r.concInt(a[2].(*Term), "number of parts")
		}
		if s, ok2 := a[0].(string); ok && ok2 {
			var out []Rope
			for _, x := range strings.SplitN(s, sep, int(n)) {
				out = append(out, r.rConst([]byte(x)))
			}
			return r.strSlice(out)
		}
		if !ok || len(sep) != 1 {
			panic(unsupported{"splitting of symbolic text"})
		}
		if n == 0 {
			return []value(nil)
		}
		ps := r.ropeSplit(r.strRope(a[0]), func(b byte) bool { return b == sep[0] })
		if n > 0 && int64(len(ps)) > n {
			last := ps[n-1]
			for _, p := range ps[n:] {
				last = r.rCat(last, r.rConst([]byte(sep)), p)
			}
			ps = append(ps[:n-1:n-1], last)
		}
		return r.strSlice(ps)
	})
	reg([]string{"strings.Fields"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		var out []Rope
		if s, ok := a[0].(string); ok {
			for _, x := range strings.Fields(s) {
				out = append(out, r.rConst([]byte(x)))
			}
			return r.strSlice(out)
		}
		for _, p := range r.ropeSplit(r.strRope(a[0]), isSpaceByte) {
			if !r.isEmpty(p) {
				out = append(out, p)
			}
		}
		return r.strSlice(out)
	})
	// the position of a single byte
	index := func(r *Run, s, sep value, last bool) *Term {
		if x, ok := s.(string); ok {
			if y, ok := sep.(string); ok {
				if last {
					return r.c.I(int64(strings.LastIndex(x, y)))
				}
				return r.c.I(int64(strings.Index(x, y)))
			}
		}
		y, ok := sep.(string)
		if !ok || len(y) != 1 {
			panic(unsupported{"searching in symbolic text"})
		}
		ps := r.ropeSplit(r.strRope(s), func(b byte) bool { return b == y[0] })
		if len(ps) == 1 {
			return r.c.I(-1)
		}
		if last {
			return r.c.Sub(r.ropeLen(r.strRope(s)), r.c.Add(r.ropeLen(ps[len(ps)-1]), r.c.I(1)))
		}
		return r.ropeLen(ps[0])
	}
	single := func(r *Run, v value) value {
		t := v.(*Term)
		if !t.IsConst() {
			panic(unsupported{"searching for a symbolic byte"})
		}
		return string([]byte{byte(t.c.Int64())})
	}
	reg([]string{"strings.Index"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value { return index(r, a[0], a[1], false) })
	reg([]string{"strings.LastIndex"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value { return index(r, a[0], a[1], true) })
	reg([]string{"strings.IndexByte"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return index(r, a[0], single(r, a[1]), false)
	})
	reg([]string{"strings.LastIndexByte"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return index(r, a[0], single(r, a[1]), true)
	})
	reg([]string{"strings.Contains"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		return r.c.Ge(index(r, a[0], a[1], false), r.c.I(0))
	})
	reg([]string{"strings.Count"}, func(r *Run, _ *frame, _ *ssa.Function, a []value) value {
		y, ok := a[1].(string)
		if x, ok2 := a[0].(string); ok && ok2 {
			return r.c.I(int64(strings.Count(x, y)))
		}
		if !ok || len(y) != 1 {
			panic(unsupported{"counting in symbolic text"})
		}
		return r.c.I(int64(len(r.ropeSplit(r.strRope(a[0]), func(b byte) bool { return b == y[0] })) - 1))
	})
}

// b64Text is the text of an encoded byte string.
func b64Text(enc string, b []byte) string {
	switch enc {
	case "RawStdEncoding":
		return base64.RawStdEncoding.EncodeToString(b)
	case "URLEncoding":
		return base64.URLEncoding.EncodeToString(b)
	case "RawURLEncoding":
		return base64.RawURLEncoding.EncodeToString(b)
	}
	return base64.StdEncoding.EncodeToString(b)
}
