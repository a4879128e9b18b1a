// Package zzsym is the interface between the verification harnesses and the
// symbolic executor. Under the executor most functions are intrinsics; this
// file is their native meaning, used to replay counterexamples on the real code.
package zzsym

import (
	"crypto/rand"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"reflect"
	"runtime"
	"sort"
	"sync"
	"unsafe"
)

type modelFile struct {
	Harness string            `json:"harness"`
	Model   map[string]string `json:"model"`
	Rand    []string          `json:"rand"`
}

var (
	model    modelFile
	occ      = map[string]int{}
	reached  = map[string]bool{}
	native   *queueReader
	maxAlloc uint64
	baseline uint64
	mu       sync.Mutex
)

type assumeFailed struct{}

// queueReader delivers queued random bytes first, then those of the model,
// then system randomness.
type queueReader struct {
	mu    sync.Mutex
	q     []byte
	draws [][]byte
	sys   interface{ Read([]byte) (int, error) }
}

func (r *queueReader) Read(p []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.q) > 0 {
		n := copy(p, r.q)
		r.q = r.q[n:]
		return n, nil
	}
	if len(r.draws) > 0 && len(r.draws[0]) > 0 {
		n := copy(p, r.draws[0])
		r.draws[0] = r.draws[0][n:]
		if len(r.draws[0]) == 0 {
			r.draws = r.draws[1:]
		}
		return n, nil
	}
	return r.sys.Read(p)
}

func init() {
	if Symbolic() {
		return
	}
	installReader()
}

func installReader() {
	native = &queueReader{sys: rand.Reader}
	rand.Reader = native
}

// Main replays the model file given on the command line.
func Main(hs map[string]func()) {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Println("ZZERROR", err)
		os.Exit(9)
	}
	if err := json.Unmarshal(b, &model); err != nil {
		fmt.Println("ZZERROR", err)
		os.Exit(9)
	}
	for _, d := range model.Rand {
		x, _ := hex.DecodeString(d)
		native.draws = append(native.draws, x)
	}
	f := hs[model.Harness]
	if f == nil {
		fmt.Println("ZZERROR no harness", model.Harness)
		os.Exit(9)
	}
	func() {
		defer func() {
			p := recover()
			if p == nil {
				return
			}
			if _, ok := p.(assumeFailed); ok {
				fmt.Println("ZZASSUME")
				os.Exit(7)
			}
			buf := make([]byte, 4096)
			buf = buf[:runtime.Stack(buf, false)]
			fmt.Printf("ZZVIOLATION panic %v\n%s\n", p, buf)
			os.Exit(3)
		}()
		f()
	}()
	if maxAlloc > 0 {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.TotalAlloc-baseline > maxAlloc {
			violation("alloc", fmt.Sprintf("%d bytes allocated, bound %d", m.TotalAlloc-baseline, maxAlloc))
		}
	}
	var ls []string
	for l := range reached {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	for _, l := range ls {
		fmt.Println("ZZREACHED", l)
	}
	fmt.Println("ZZOK")
}

func violation(kind, label string) {
	mu.Lock()
	fmt.Printf("ZZVIOLATION %s %s\n", kind, label)
	os.Exit(3)
}

func input(name string) (string, bool) {
	mu.Lock()
	defer mu.Unlock()
	occ[name]++
	v, ok := model.Model[fmt.Sprintf("%s#%d", name, occ[name])]
	return v, ok
}

// Symbolic reports whether the code is executed symbolically.
func Symbolic() bool { return false }

// Big is any integer in [lo,hi].
func Big(name string, lo, hi *big.Int) *big.Int {
	s, ok := input(name)
	if !ok {
		return new(big.Int).Set(lo)
	}
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return new(big.Int).Set(lo)
	}
	return v
}

// Scalar is any integer in [0,order).
func Scalar(name string) *big.Int {
	return Big(name, big.NewInt(0), new(big.Int).Sub(Order(), big.NewInt(1)))
}

// Int is any int in [lo,hi].
func Int(name string, lo, hi int) int {
	s, ok := input(name)
	if !ok {
		return lo
	}
	v := lo
	fmt.Sscan(s, &v)
	return v
}

// Bool is any bool.
func Bool(name string) bool {
	s, _ := input(name)
	return s == "1"
}

// Choice is one of n alternatives, each explored separately.
func Choice(name string, n int) int {
	s, _ := input(name)
	v := 0
	fmt.Sscan(s, &v)
	return v
}

// Bytes is any byte string of length at most max.
func Bytes(name string, max int) []byte {
	s, _ := input(name)
	b, _ := hex.DecodeString(s)
	return b
}

// BytesN is any byte string of length n.
func BytesN(name string, n int) []byte {
	s, ok := input(name)
	if !ok {
		return make([]byte, n)
	}
	b, _ := hex.DecodeString(s)
	return b
}

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		panic(assumeFailed{})
	}
}

// Assert states the property.
func Assert(b bool, label string) {
	mu.Lock()
	reached[label] = true
	mu.Unlock()
	if !b {
		violation("assert", label)
	}
}

// Fail is Assert(false, label).
func Fail(label string) { violation("assert", label) }

// Reach marks a point as reachable.
func Reach(label string) {
	mu.Lock()
	reached["reach:"+label] = true
	mu.Unlock()
}

// Bound documents a bound of the harness.
func Bound(text string) {}

// Order is the order of the secp256k1 group.
func Order() *big.Int {
	n, _ := new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
	return n
}

// FieldPrime is the prime of the secp256k1 field.
func FieldPrime() *big.Int {
	n, _ := new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
	return n
}

// MaxAlloc bounds the memory allocated from here on.
func MaxAlloc(n int) {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	baseline = m.TotalAlloc
	maxAlloc = uint64(n) + 4<<20
}

// QueueRand makes the random source deliver v (32 bytes) next.
func QueueRand(v *big.Int) {
	native.mu.Lock()
	native.q = append(native.q, v.FillBytes(make([]byte, 32))...)
	native.mu.Unlock()
}

// RandLeft is the number of queued values not consumed yet.
func RandLeft() int {
	native.mu.Lock()
	defer native.mu.Unlock()
	return len(native.q) / 32
}

// Schedules explores up to n scheduling deviations.
func Schedules(n int) {}

// Races turns on the detection of unsynchronised accesses.
func Races() {}

// ExactTime makes the modelled clock advance only while sleeping.
func ExactTime() {}

// Generic restricts the exploration to points whose coordinates are needed,
// e.g. to encode them, being different from the neutral element, unless they
// are neutral for all inputs.
func Generic(on bool) {}

// NoSummaries executes the real group operations.
func NoSummaries() {}

// Yield lets other goroutines run.
func Yield() { runtime.Gosched() }

// Entailed reports whether b holds on the whole path.
func Entailed(b bool) bool { return b }

// BigEq is a == b.
func BigEq(a, b *big.Int) bool { return a.Cmp(b) == 0 }

// And and Or are strict connectives: they do not split paths.
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }

// Implies is strict implication.
func Implies(a, b bool) bool { return Or(!a, b) }

// Iff is strict equivalence.
func Iff(a, b bool) bool { return And(Or(!a, b), Or(!b, a)) }

// BytesEq compares byte strings.
func BytesEq(a, b []byte) bool { return string(a) == string(b) }

// Dump prints a value when debugging.
func Dump(name string, v interface{}) {}

// Same is deep equality of representations.
func Same(a, b interface{}) bool {
	return same(reflect.ValueOf(a), reflect.ValueOf(b), 0)
}

func same(a, b reflect.Value, depth int) bool {
	if depth > 40 {
		return true
	}
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem(), depth+1)
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		if a.Pointer() == b.Pointer() {
			return true
		}
		if a.Type() == reflect.TypeOf((*big.Int)(nil)) {
			x := (*big.Int)(unsafe.Pointer(a.Pointer()))
			y := (*big.Int)(unsafe.Pointer(b.Pointer()))
			return x.Cmp(y) == 0
		}
		return same(a.Elem(), b.Elem(), depth+1)
	case reflect.Struct:
		if a.Type() == reflect.TypeOf(big.Int{}) {
			if a.CanAddr() && b.CanAddr() {
				x := (*big.Int)(unsafe.Pointer(a.Addr().Pointer()))
				y := (*big.Int)(unsafe.Pointer(b.Addr().Pointer()))
				return x.Cmp(y) == 0
			}
		}
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i), depth+1) {
				return false
			}
		}
		return true
	case reflect.Slice:
		if a.IsNil() != b.IsNil() && a.Type().Elem().Kind() != reflect.Uint8 {
			return false
		}
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i), depth+1) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i), depth+1) {
				return false
			}
		}
		return true
	case reflect.Map, reflect.Chan, reflect.Func:
		return a.Pointer() == b.Pointer()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Float64, reflect.Float32:
		return a.Float() == b.Float()
	}
	return true
}

// Coords returns the affine coordinates of a point, nil for the neutral element.
func Coords(p interface{}) (*big.Int, *big.Int) {
	v := reflect.ValueOf(p)
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	var out []*big.Int
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() != reflect.TypeOf((*big.Int)(nil)) {
			continue
		}
		if f.IsNil() {
			out = append(out, nil)
		} else {
			out = append(out, (*big.Int)(unsafe.Pointer(f.Pointer())))
		}
	}
	if len(out) != 2 {
		panic("point of unknown shape")
	}
	return out[0], out[1]
}

// Place gives p, the point made of the last scalar of that name, the
// coordinates of the counterexample where these are so unusual that the point
// has no known logarithm.
func Place(name string, p interface{}) {
	mu.Lock()
	k := fmt.Sprintf("%s#%d", name, occ[name])
	sx, ok := model.Model[k+".x"]
	sy := model.Model[k+".y"]
	mu.Unlock()
	if !ok {
		return
	}
	if x, y := Coords(p); x != nil && y != nil {
		x.SetString(sx, 10)
		y.SetString(sy, 10)
	}
}

// ---- random oracle ----

// HashIn is one recorded use of the hash function.
type HashIn struct {
	Msg []byte
	Out *big.Int
}

var (
	hashOn     bool
	hashHooked bool
	hashIns    []HashIn
	hashOracle []*big.Int
)

// HashHook is called by the instrumented HashToBigInt.
func HashHook(msg []byte, f func([]byte) *big.Int) *big.Int {
	if !hashOn {
		return f(msg)
	}
	hashHooked = true
	var out *big.Int
	if len(hashOracle) > 0 {
		out = new(big.Int).Set(hashOracle[0])
		hashOracle = hashOracle[1:]
	} else {
		out = f(msg)
	}
	m := append([]byte{}, msg...)
	hashIns = append(hashIns, HashIn{m, new(big.Int).Set(out)})
	if hashStop > 0 && len(hashIns) == hashStop {
		panic(hashStopped{})
	}
	return out
}

// RecordHashes starts recording the inputs of HashToBigInt.
func RecordHashes() { hashOn = true; hashIns = nil }

var hashStop int

type hashStopped struct{}

// UntilHash runs f until its n-th use of HashToBigInt and returns what was hashed.
func UntilHash(n int, f func()) []HashIn {
	hashStop = n
	RecordHashes()
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(hashStopped); !ok {
					panic(p)
				}
			}
		}()
		f()
	}()
	hashStop = 0
	return hashIns
}

// HashInputs returns what was recorded.
func HashInputs() []HashIn { return hashIns }

// Oracle programs the next answers of HashToBigInt.
func Oracle(e ...*big.Int) { hashOn = true; hashHooked = false; hashOracle = append([]*big.Int{}, e...) }

// HashHooked reports whether the hook was used since the last Oracle call.
func HashHooked() bool { return hashHooked }

// Scratch runs f in an empty directory of its own, for programs that write files.
func Scratch(f func()) {
	dir, err := os.MkdirTemp("", "zzsym")
	if err != nil {
		panic(err)
	}
	old, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	defer os.Chdir(old)
	f()
}
