package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Build describes the program under check: the working tree of the
// repository plus an overlay with harnesses and stubs.
type Build struct {
	repo    string
	verif   string
	tmp     string
	prop    string
	modfile string
	symMod  string // like modfile, with the curve library's cgo part cut off
	overlay map[string]string
	ovFile  string
	pkgs    []string // import paths with harnesses
	notes   []string
	files   []string
}

var propsRE = regexp.MustCompile(`(?m)^//verif:props (.*)$`)

func fileProps(path string) []string {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	m := propsRE.FindSubmatch(b)
	if m == nil {
		return nil
	}
	return strings.Fields(string(m[1]))
}

func goEnv(cgo bool) []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "CGO_ENABLED=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOWORK=") || strings.HasPrefix(e, "GO111MODULE=") {
			continue
		}
		env = append(env, e)
	}
	c := "0"
	if cgo {
		c = "1"
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GO111MODULE=on", "CGO_ENABLED="+c)
}

func newBuild(repo, verif, prop string) (*Build, error) {
	b := &Build{repo: repo, verif: verif, prop: prop, overlay: map[string]string{}}
	tmp, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		return nil, err
	}
	b.tmp = tmp
	// module file: the repository's requirements plus stubs for the modules that are not available
	gm, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		gm, err = os.ReadFile(filepath.Join(verif, "stubs/base.mod"))
		if err != nil {
			return nil, err
		}
		b.overlay[filepath.Join(repo, "go.mod")] = filepath.Join(tmp, "go.mod")
	}
	gs, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		gs, _ = os.ReadFile(filepath.Join(verif, "stubs/base.sum"))
	}
	mod := string(gm)
	for _, st := range []struct{ path, dir string }{
		{"gitlab.com/alephledger/core-go", "core-go"},
		{"github.com/binance-chain/tss-lib", "tss-lib"},
		{"github.com/rs/zerolog", "zerolog"},
	} {
		if strings.Contains(mod, st.path) {
			continue
		}
		mod += fmt.Sprintf("\nrequire %s v0.0.0\nreplace %s => %s\n", st.path, st.path, filepath.Join(verif, "stubs", st.dir))
	}
	b.modfile = filepath.Join(tmp, "go.mod")
	if err := os.WriteFile(b.modfile, []byte(mod), 0644); err != nil {
		return nil, err
	}
	os.WriteFile(filepath.Join(tmp, "go.sum"), gs, 0644)
	b.symMod = filepath.Join(tmp, "sym.mod")
	mod += "\nreplace github.com/ethereum/go-ethereum => " + filepath.Join(verif, "stubs/go-ethereum") + "\n"
	os.WriteFile(b.symMod, []byte(mod), 0644)
	os.WriteFile(filepath.Join(tmp, "sym.sum"), gs, 0644)
	// harnesses
	b.overlay[filepath.Join(repo, "pkg/zzsym/sym.go")] = filepath.Join(verif, "sym/sym.go")
	return b, nil
}

// addFiles puts the harness files that serve the property in the overlay.
func (b *Build) addFiles(skip map[string]bool) error {
	root := filepath.Join(b.verif, "harness")
	seen := map[string]bool{}
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		use := false
		lemma := false
		for _, x := range fileProps(p) {
			if x == "lemma" && needLemmas(b.prop) {
				use, lemma = true, true
			}
			if x == b.prop || x == "*" {
				use = true
			}
		}
		_ = lemma
		if !use || skip[p] {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		b.overlay[filepath.Join(b.repo, filepath.Dir(rel), "zz_verif_"+filepath.Base(rel))] = p
		b.files = append(b.files, p)
		ip := repoMod
		if d := filepath.Dir(rel); d != "." {
			ip += "/" + d
		}
		if !seen[ip] {
			seen[ip] = true
			b.pkgs = append(b.pkgs, ip)
		}
		return nil
	})
	if err != nil {
		return err
	}
	sort.Strings(b.pkgs)
	b.transformHash()
	b.copyMains()
	return b.writeOverlay()
}

func (b *Build) writeOverlay() error {
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": b.overlay}, "", " ")
	b.ovFile = filepath.Join(b.tmp, "overlay.json")
	return os.WriteFile(b.ovFile, j, 0644)
}

func needLemmas(prop string) bool {
	switch prop {
	case "C01", "C02", "C04", "C05", "C06", "C07", "C30", "C60", "C61", "C62", "C63", "C64", "C70", "C71":
		return false
	}
	return true
}

// transformHash renames HashToBigInt in the overlay and routes calls through
// a hook, so that harnesses can observe and program the random oracle.
func (b *Build) transformHash() {
	dir := filepath.Join(b.repo, "pkg/crypto")
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			continue
		}
		done := false
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Name.Name != "HashToBigInt" {
				continue
			}
			t := fd.Type
			if len(t.Params.List) != 1 || len(t.Params.List[0].Names) > 1 || t.Results == nil || len(t.Results.List) != 1 {
				continue
			}
			var pb, rb bytes.Buffer
			format.Node(&pb, fset, t.Params.List[0].Type)
			format.Node(&rb, fset, t.Results.List[0].Type)
			if pb.String() != "[]byte" || rb.String() != "*big.Int" {
				continue
			}
			fd.Name.Name = "zzHashToBigInt"
			done = true
		}
		if !done {
			continue
		}
		// other uses inside the package keep the hooked name
		var out bytes.Buffer
		if err := format.Node(&out, fset, af); err != nil {
			continue
		}
		g := filepath.Join(b.tmp, filepath.Base(f))
		os.WriteFile(g, out.Bytes(), 0644)
		b.overlay[f] = g
		hook := filepath.Join(b.tmp, "zzhook.go")
		os.WriteFile(hook, []byte(fmt.Sprintf(`package %s

import (
	"math/big"

	"%s/pkg/zzsym"
)

func HashToBigInt(msg []byte) *big.Int { return zzsym.HashHook(msg, zzHashToBigInt) }
`, af.Name.Name, repoMod)), 0644)
		b.overlay[filepath.Join(dir, "zzhook.go")] = hook
	}
}

// copyMains makes importable copies of the main packages.
func (b *Build) copyMains() {
	for _, c := range []string{"gen_keys", "tecdsa"} {
		used := false
		for _, p := range b.pkgs {
			used = used || strings.HasPrefix(p, repoMod+"/zzcmd")
		}
		if !used {
			return
		}
		fs, _ := filepath.Glob(filepath.Join(b.repo, "cmd", c, "*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, f, src, parser.ParseComments)
			if err != nil {
				continue
			}
			off := fset.Position(af.Name.Pos()).Offset
			out := append([]byte{}, src[:off]...)
			out = append(out, []byte("zz"+c)...)
			out = append(out, src[off+len(af.Name.Name):]...)
			g := filepath.Join(b.tmp, "zzcmd_"+c+"_"+filepath.Base(f))
			os.WriteFile(g, out, 0644)
			b.overlay[filepath.Join(b.repo, "zzcmd", c, filepath.Base(f))] = g
		}
	}
}

// load type-checks the program and builds SSA.
func (b *Build) load() (*ssa.Program, []*ssa.Package, error) {
	ov := map[string][]byte{}
	for k, v := range b.overlay {
		if data, err := os.ReadFile(v); err == nil && strings.HasSuffix(k, ".go") {
			ov[k] = data
		}
	}
	cfg := &packages.Config{
		Overlay:    ov,
		Mode:       packages.LoadAllSyntax,
		Dir:        b.repo,
		BuildFlags: []string{"-modfile=" + b.symMod},
		Env:        goEnv(false),
	}
	pk, err := packages.Load(cfg, b.pkgs...)
	if err != nil {
		return nil, nil, err
	}
	bad := map[string]string{}
	packages.Visit(pk, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, repoMod) {
			return
		}
		for _, e := range p.Errors {
			pos := e.Pos
			if i := strings.Index(pos, ":"); i > 0 {
				pos = pos[:i]
			}
			if _, ok := bad[pos]; !ok {
				bad[pos] = e.Error()
			}
		}
	})
	if len(bad) > 0 {
		return nil, nil, &loadError{bad}
	}
	prog, pkgs := ssautil.AllPackages(pk, ssa.InstantiateGenerics|ssa.BuildSerially&0)
	prog.Build()
	return prog, pkgs, nil
}

type loadError struct{ bad map[string]string }

func (l *loadError) Error() string {
	var s []string
	for k, v := range l.bad {
		s = append(s, k+": "+v)
	}
	sort.Strings(s)
	return strings.Join(s, "; ")
}

// loadRetry drops harness files that do not type-check against the tree.
func (b *Build) loadRetry() (*ssa.Program, []*ssa.Package, error) {
	skip := map[string]bool{}
	for try := 0; ; try++ {
		b.pkgs, b.files = nil, nil
		for k := range b.overlay {
			if strings.Contains(filepath.Base(k), "zz_verif_") {
				delete(b.overlay, k)
			}
		}
		if err := b.addFiles(skip); err != nil {
			return nil, nil, err
		}
		if len(b.pkgs) == 0 {
			return nil, nil, fmt.Errorf("no usable harness")
		}
		prog, pkgs, err := b.load()
		le, ok := err.(*loadError)
		if err == nil || !ok || try > 8 {
			return prog, pkgs, err
		}
		dropped := false
		for ov, real := range b.overlay {
			if msg, isBad := le.bad[ov]; isBad && strings.Contains(filepath.Base(ov), "zz_verif_") && !skip[real] {
				skip[real] = true
				dropped = true
				b.notes = append(b.notes, "harness does not fit the code: "+filepath.Base(real)+": "+msg)
			} else if msg, isBad := le.bad[real]; isBad && strings.Contains(filepath.Base(ov), "zz_verif_") && !skip[real] {
				skip[real] = true
				dropped = true
				b.notes = append(b.notes, "harness does not fit the code: "+filepath.Base(real)+": "+msg)
			}
		}
		if !dropped {
			return nil, nil, err
		}
	}
}

// harnesses lists the harness functions for a prefix.
func harnesses(pkgs []*ssa.Package, prefix string, thorough bool) []*Harness {
	var out []*Harness
	for _, p := range pkgs {
		if p == nil {
			continue
		}
		for n, m := range p.Members {
			f, ok := m.(*ssa.Function)
			if !ok || !strings.HasPrefix(n, prefix) || f.Signature.Params().Len() > 0 {
				continue
			}
			if strings.HasSuffix(n, "_T") && !thorough {
				continue
			}
			if strings.HasSuffix(n, "_Q") && thorough {
				continue
			}
			out = append(out, &Harness{Name: n, Fn: f, Pkg: p.Pkg.Path()})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}
