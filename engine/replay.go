package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

// Replayer runs harnesses natively, against the real code and the real
// libraries, on concrete inputs.
type Replayer struct {
	b    *Build
	hs   []*Harness
	bin  map[bool]string
	errs map[bool]string
	mu   sync.Mutex
}

type modelFile struct {
	Harness string            `json:"harness"`
	Model   map[string]string `json:"model"`
	Rand    []string          `json:"rand"`
}

func (rp *Replayer) build(race bool) (string, error) {
	rp.mu.Lock()
	defer rp.mu.Unlock()
	if b, ok := rp.bin[race]; ok {
		if b == "" {
			return "", fmt.Errorf("%s", rp.errs[race])
		}
		return b, nil
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"" + repoMod + "/pkg/zzsym\"\n")
	byPkg := map[string][]string{}
	for _, h := range rp.hs {
		byPkg[h.Pkg] = append(byPkg[h.Pkg], h.Name)
	}
	var ps []string
	for p := range byPkg {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for i, p := range ps {
		fmt.Fprintf(&sb, "\tp%d \"%s\"\n", i, p)
	}
	sb.WriteString(")\n\nfunc main() {\n\tzzsym.Main(map[string]func(){\n")
	for i, p := range ps {
		for _, n := range byPkg[p] {
			fmt.Fprintf(&sb, "\t\t%q: p%d.%s,\n", n, i, n)
		}
	}
	sb.WriteString("\t})\n}\n")
	mf := filepath.Join(rp.b.tmp, "zzmain.go")
	os.WriteFile(mf, []byte(sb.String()), 0644)
	rp.b.overlay[filepath.Join(rp.b.repo, "zzverif/main.go")] = mf
	if err := rp.b.writeOverlay(); err != nil {
		return "", err
	}
	out := filepath.Join(rp.b.tmp, "replay")
	args := []string{"build", "-overlay=" + rp.b.ovFile, "-modfile=" + rp.b.modfile}
	if race {
		out += "-race"
		args = append(args, "-race")
	}
	args = append(args, "-o", out, repoMod+"/zzverif")
	cmd := exec.Command("go", args...)
	cmd.Dir = rp.b.repo
	cmd.Env = goEnv(true)
	o, err := cmd.CombinedOutput()
	if err != nil {
		rp.bin[race] = ""
		rp.errs[race] = "native build failed: " + string(o)
		return "", fmt.Errorf("%s", rp.errs[race])
	}
	rp.bin[race] = out
	return out, nil
}

type outcome struct {
	kind    string // ok, assert, panic, alloc, race, deadlock, assume, other
	label   string
	out     string
	reached []string
}

var violRE = regexp.MustCompile(`(?m)^ZZVIOLATION (\w+) (.*)$`)

// run replays one model.
func (rp *Replayer) run(c *Candidate, race bool) outcome {
	bin, err := rp.build(race)
	if err != nil {
		return outcome{kind: "other", out: err.Error()}
	}
	mf, err := os.CreateTemp(rp.b.tmp, "model-*.json")
	if err != nil {
		return outcome{kind: "other", out: err.Error()}
	}
	j, _ := json.MarshalIndent(modelFile{c.Harness, c.Model, c.Rand}, "", " ")
	mf.Write(j)
	mf.Close()
	return runModel(bin, mf.Name())
}

func runModel(bin, model string) outcome {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, model)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOMEMLIMIT=6GiB")
	err := cmd.Run()
	s := out.String()
	if len(s) > 6000 {
		s = s[:6000]
	}
	o := outcome{out: s}
	for _, l := range strings.Split(out.String(), "\n") {
		if strings.HasPrefix(l, "ZZREACHED ") {
			o.reached = append(o.reached, strings.TrimPrefix(l, "ZZREACHED "))
		}
	}
	sort.Strings(o.reached)
	switch {
	case strings.Contains(out.String(), "WARNING: DATA RACE"):
		o.kind = "race"
	case violRE.MatchString(s):
		m := violRE.FindStringSubmatch(s)
		o.kind, o.label = m[1], m[2]
	case strings.Contains(s, "ZZASSUME"):
		o.kind = "assume"
	case ctx.Err() != nil:
		o.kind = "deadlock"
	case strings.Contains(s, "all goroutines are asleep"):
		o.kind = "deadlock"
	case strings.Contains(s, "out of memory") || strings.Contains(s, "cannot allocate memory"):
		o.kind = "alloc"
	case strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:"):
		o.kind = "panic"
		for _, l := range strings.Split(s, "\n") {
			if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
				o.label = l
				break
			}
		}
	case err != nil:
		o.kind = "other"
	default:
		o.kind = "ok"
	}
	return o
}

// confirms says whether a native outcome is a violation of the property.
func confirms(c *Candidate, o outcome) bool {
	switch o.kind {
	case "assert", "panic", "alloc", "race", "deadlock":
		return true
	}
	return false
}
