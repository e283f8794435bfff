package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var (
	repoDir  = "/repo"
	verifDir = "/verif"
)

// Harness is one harness function found in /verif/harness.
type Harness struct {
	Prop   string
	Func   string
	File   string // under /verif/harness
	Pkg    string // directory under /repo
	Bounds string
	Quick  time.Duration
	Thor   time.Duration
	Steps  int64
	Tries  int // native attempts per counterexample (map order, schedules)
	Dirs   map[string]string
}

func (h *Harness) importPath() string {
	if h.Pkg == "." {
		return modPath
	}
	return modPath + "/" + h.Pkg
}

func (h *Harness) overlayName() string {
	return filepath.Join(repoDir, h.Pkg, "zz_verif_"+strings.ReplaceAll(strings.TrimSuffix(h.File, ".go"), "/", "_")+".go")
}

// findHarnesses reads the harness files of one property (or of all).
func findHarnesses(prop string) ([]*Harness, error) {
	var hs []*Harness
	files, err := filepath.Glob(filepath.Join(verifDir, "harness", "*", "*.go"))
	if err != nil {
		return nil, err
	}
	for _, fn := range files {
		rel, _ := filepath.Rel(filepath.Join(verifDir, "harness"), fn)
		if strings.HasPrefix(rel, "verifsym/") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), fn, nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		fdirs := directives(f.Doc)
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || !strings.HasPrefix(fd.Name.Name, "Verif_") {
				continue
			}
			ds := directives(fd.Doc)
			h := &Harness{Prop: ds["prop"], Func: fd.Name.Name, File: rel, Pkg: fdirs["pkg"], Bounds: ds["bounds"], Quick: 40 * time.Second, Thor: 400 * time.Second, Steps: 30_000_000, Tries: 1, Dirs: ds}
			if h.Prop == "" {
				h.Prop = fdirs["prop"]
			}
			if v := ds["quick"]; v != "" {
				h.Quick, _ = time.ParseDuration(v)
			}
			if v := ds["thorough"]; v != "" {
				h.Thor, _ = time.ParseDuration(v)
			}
			if v := ds["steps"]; v != "" {
				n, _ := strconv.Atoi(v)
				h.Steps = int64(n)
			}
			if v := ds["tries"]; v != "" {
				h.Tries, _ = strconv.Atoi(v)
			}
			if h.Pkg == "" || h.Prop == "" {
				return nil, fmt.Errorf("%s: missing //verif:pkg or //verif:prop", rel)
			}
			if prop == "" || h.Prop == prop {
				hs = append(hs, h)
			}
		}
	}
	return hs, nil
}

func directives(g *ast.CommentGroup) map[string]string {
	r := map[string]string{}
	if g == nil {
		return r
	}
	for _, c := range g.List {
		if s, ok := strings.CutPrefix(c.Text, "//verif:"); ok {
			k, v, _ := strings.Cut(s, " ")
			v = strings.TrimSpace(v)
			if o, ok := r[k]; ok {
				v = o + " " + v
			}
			r[k] = v
		}
	}
	return r
}

// buildOverlay lays the harness files (and the helper files of the same directories) over the tree.
func buildOverlay(hs []*Harness, drop map[string]bool) (map[string][]byte, map[string]string, error) {
	content := map[string][]byte{}
	files := map[string]string{}
	add := func(dst, src string) error {
		b, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		content[dst] = b
		files[dst] = src
		return nil
	}
	if err := add(filepath.Join(repoDir, "verifsym/verifsym.go"), filepath.Join(verifDir, "harness/verifsym/verifsym.go")); err != nil {
		return nil, nil, err
	}
	if err := add(filepath.Join(repoDir, "verifsym/stubs.go"), filepath.Join(verifDir, "harness/verifsym/stubs.go")); err != nil {
		return nil, nil, err
	}
	for _, h := range hs {
		if drop[h.File] {
			continue
		}
		if err := add(h.overlayName(), filepath.Join(verifDir, "harness", h.File)); err != nil {
			return nil, nil, err
		}
		// helper files: _*.go.txt style is avoided; any file with a //verif:helper directive for the package
	}
	helpers, _ := filepath.Glob(filepath.Join(verifDir, "harness", "*", "*.go"))
	for _, fn := range helpers {
		rel, _ := filepath.Rel(filepath.Join(verifDir, "harness"), fn)
		f, err := parser.ParseFile(token.NewFileSet(), fn, nil, parser.ParseComments|parser.PackageClauseOnly)
		if err != nil || f.Doc == nil {
			continue
		}
		d := directives(f.Doc)
		if d["helper"] == "" {
			continue
		}
		for _, h := range hs {
			if !drop[h.File] && h.Pkg == d["helper"] {
				hh := Harness{Pkg: d["helper"], File: rel}
				if err := add(hh.overlayName(), fn); err != nil {
					return nil, nil, err
				}
				break
			}
		}
	}
	return content, files, nil
}

var fileRe = regexp.MustCompile(`zz_verif_[A-Za-z0-9_]+\.go`)

type runOut struct {
	h    *Harness
	x    *Explorer
	wall time.Duration
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: engine check -prop ID [-tier quick|thorough] [-only FUNC] | replay FILE | list")
		os.Exit(2)
	}
	if d := os.Getenv("VERIF_REPO"); d != "" {
		repoDir = d
	}
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	setEnv()
	if err := loadStubs(); err != nil {
		fmt.Println("error:", err)
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2:]))
	case "replay":
		os.Exit(replayCmd(os.Args[2]))
	case "list":
		hs, err := findHarnesses("")
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, h := range hs {
			fmt.Println(h.Prop, h.Func, h.Pkg, h.Quick, h.Thor)
		}
	}
}

func check(args []string) int {
	prop, tier, only, verbose, noNative := "", "quick", "", false, false
	var secs time.Duration
	for i := 0; i < len(args); i++ {
		switch args[i] {
		case "-prop":
			i++
			prop = args[i]
		case "-tier":
			i++
			tier = args[i]
		case "-only":
			i++
			only = args[i]
		case "-secs":
			i++
			secs, _ = time.ParseDuration(args[i])
		case "-v":
			verbose = true
		case "-nonative":
			noNative = true
		}
	}
	t0 := time.Now()
	hs, err := findHarnesses(prop)
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	if only != "" {
		var k []*Harness
		re := regexp.MustCompile(only)
		for _, h := range hs {
			if re.MatchString(h.Func) {
				k = append(k, h)
			}
		}
		hs = k
	}
	sort.SliceStable(hs, func(i, j int) bool { return hs[i].Func < hs[j].Func })
	w, dropped, files, err := loadWorld(hs)
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	var live []*Harness
	for _, h := range hs {
		if !dropped[h.File] {
			live = append(live, h)
		}
	}
	for f := range dropped {
		fmt.Printf("NOTE: harness file %s does not type-check against the current tree and was not run\n", f)
	}
	var nat *native
	var natWG sync.WaitGroup
	if !noNative {
		natWG.Add(1)
		go func() {
			defer natWG.Done()
			nat = buildNative(live, files, false)
		}()
	}
	var outs []runOut
	for _, h := range live {
		p := w.Pkgs[h.importPath()]
		if p == nil {
			fmt.Printf("error: package %s not loaded\n", h.importPath())
			return 2
		}
		w.ensureBuilt(p)
		fn := p.Func(h.Func)
		if fn == nil {
			fmt.Printf("error: harness %s not found\n", h.Func)
			return 2
		}
		x := NewExplorer(w, fn, h.Func)
		x.workers = runtime.NumCPU()
		if x.workers > 8 {
			x.workers = 8
		}
		x.maxSteps = h.Steps
		d := h.Quick
		if tier == "thorough" {
			d = h.Thor
			x.tier = 1
		}
		if secs > 0 {
			d = secs
		}
		x.deadline = time.Now().Add(d)
		ts := time.Now()
		x.Run()
		o := runOut{h, x, time.Since(ts)}
		outs = append(outs, o)
		if verbose {
			printRun(o)
		}
	}
	natWG.Wait()
	return conclude(prop, tier, outs, nat, files, dropped, w, t0, verbose)
}

func printRun(o runOut) {
	x := o.x
	if forkProf {
		for s, n := range forkAt {
			if n > 20 {
				fmt.Println("   forks", n, s)
			}
		}
	}
	fmt.Printf("== %s: %v paths=%d ends=%v steps=%d forks=%d exhaustive=%v\n", o.h.Func, o.wall.Round(time.Millisecond), x.started, x.ends, x.steps.Load(), x.forks.Load(), x.exhaust)
	for _, l := range sortedKeys(x.labels) {
		fmt.Printf("   label %-50s %+v\n", l, *x.labels[l])
	}
	for k, m := range x.endMsgs {
		for msg, n := range m {
			fmt.Printf("   end %s x%d: %s\n", k, n, msg)
		}
	}
	for _, n := range sortedKeys(x.notes) {
		fmt.Printf("   note %s x%d\n", n, x.notes[n])
	}
	for _, k := range sortedKeys(x.viol) {
		v := x.viol[k]
		b, _ := json.Marshal(v.Vector)
		fmt.Printf("   VIOL %s (%d) obs=%q vec=%s\n", k, x.violN[v.Key], v.Obs, showVec(v.Vector))
		_ = b
		if v.Note != "assert" {
			fmt.Printf("        %s\n", strings.ReplaceAll(v.Stack, "\n", "\n        "))
		}
	}
}

func showVec(v []VecItem) string {
	var p []string
	for _, i := range v {
		if i.Kind == "string" {
			p = append(p, fmt.Sprintf("%s=%q", i.Name, i.S))
		} else {
			p = append(p, fmt.Sprintf("%s=%d", i.Name, i.I))
		}
	}
	return strings.Join(p, " ")
}

// loadWorld loads the packages of the harnesses; harness files that do not type-check on this tree are dropped.
func loadWorld(hs []*Harness) (*World, map[string]bool, map[string]string, error) {
	drop := map[string]bool{}
	for {
		content, files, err := buildOverlay(hs, drop)
		if err != nil {
			return nil, nil, nil, err
		}
		pats := map[string]bool{}
		for _, h := range hs {
			if !drop[h.File] {
				pats[h.importPath()] = true
			}
		}
		if len(pats) == 0 {
			return &World{}, drop, files, nil
		}
		w, err := Load(sortedKeys(pats), content)
		if err == nil {
			return w, drop, files, nil
		}
		n := len(drop)
		fmt.Println("NOTE:", err)
		for _, name := range fileRe.FindAllString(err.Error(), -1) {
			for _, h := range hs {
				if filepath.Base(h.overlayName()) == name {
					drop[h.File] = true
				}
			}
		}
		if len(drop) == n {
			return nil, nil, nil, err
		}
	}
}

// setEnv selects the toolchain and the offline switches of /opt/vp/env.sh.
func setEnv() {
	gr := "/opt/veriftools/go1.24.13"
	os.Setenv("GOROOT", gr)
	os.Setenv("HOME", "/root")
	os.Setenv("PATH", gr+"/bin:"+os.Getenv("PATH"))
	for _, kv := range []string{"GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod -buildvcs=false", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE=/root/.cache/go-build", "CGO_ENABLED=0", "TZ=UTC", "GOWORK=off"} {
		k, v, _ := strings.Cut(kv, "=")
		os.Setenv(k, v)
	}
}
