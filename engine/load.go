package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/securego/gosec/v2"

// stdBodies are the standard packages whose function bodies are executed symbolically.
var stdBodies = map[string]bool{}

func init() {
	for _, p := range strings.Fields(`strings bytes strconv sort slices maps errors unicode unicode/utf8 unicode/utf16 path path/filepath
 internal/filepathlite internal/stringslite internal/bytealg internal/byteorder internal/itoa internal/saferio internal/errors
 go/ast go/token go/types go/constant go/scanner go/parser go/build/constraint go/version internal/gover go/internal/typeparams
 math math/bits cmp iter bufio encoding/csv io io/fs container/list container/heap html text/tabwriter context log flag
 internal/types/errors encoding fmt internal/fmtsort encoding/hex internal/lazyregexp go/doc/comment internal/goversion encoding/xml`) {
		stdBodies[p] = true
	}
}

func wantBody(filename, goroot string) bool {
	if rel, err := filepath.Rel(filepath.Join(goroot, "src"), filename); err == nil && !strings.HasPrefix(rel, "..") {
		return stdBodies[filepath.ToSlash(filepath.Dir(rel))]
	}
	if strings.HasPrefix(filename, repoDir+"/") {
		return true
	}
	if strings.Contains(filename, "/golang.org/x/tools@") {
		return true
	}
	for _, s := range []string{"/golang.org/x/sync@", "/golang.org/x/text@", "/golang.org/x/mod@", "/gookit/color@", "/xo/terminfo@", "/google/uuid@"} {
		if strings.Contains(filename, s) {
			return true
		}
	}
	return false
}

// World is the loaded program.
type World struct {
	Prog     *ssa.Program
	Pkgs     map[string]*ssa.Package
	Types    map[string]*types.Package
	Fset     *token.FileSet
	Dropped  []string // harness files that no longer type-check
	LoadTime time.Duration
	Overlay  map[string][]byte
	overlayF string // overlay json for the go command
	buildMu  sync.Mutex
	built    map[*ssa.Package]bool
}

func goroot() string {
	if r := os.Getenv("GOROOT"); r != "" {
		return r
	}
	return "/opt/veriftools/go1.24.13"
}

// Load loads patterns (and dependencies) from the current tree plus the overlay.
func Load(patterns []string, overlay map[string][]byte) (*World, error) {
	t0 := time.Now()
	gr := goroot()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedTypesInfo | packages.NeedSyntax,
		Dir:     repoDir,
		Overlay: overlay,
		Fset:    token.NewFileSet(),
		Env:     append(os.Environ(), "CGO_ENABLED=0"),
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			f, err := parser.ParseFile(fset, filename, src, parser.SkipObjectResolution|parser.ParseComments)
			if f != nil && !wantBody(filename, gr) {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok && fd.Name.Name != "init" {
						fd.Body = nil
					}
				}
			}
			return f, err
		},
	}
	dir, err := os.MkdirTemp("", "verif-mod")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	cfg.BuildFlags = []string{modFile(dir)}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, modPath) {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs, "; "))
	}
	prog := ssa.NewProgram(cfg.Fset, ssa.InstantiateGenerics)
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		// Packages whose bodies were stripped carry "imported and not used" errors only; they are created all the same.
		if p.Types != nil && len(p.Syntax) > 0 || p.PkgPath == "unsafe" {
			prog.CreatePackage(p.Types, p.Syntax, p.TypesInfo, true)
		}
	})
	w := &World{Prog: prog, Pkgs: map[string]*ssa.Package{}, Types: map[string]*types.Package{}, Fset: cfg.Fset, Overlay: overlay, built: map[*ssa.Package]bool{}}
	for _, p := range prog.AllPackages() {
		w.Pkgs[p.Pkg.Path()] = p
		w.Types[p.Pkg.Path()] = p.Pkg
	}
	w.LoadTime = time.Since(t0)
	return w, nil
}

// ensureBuilt builds the SSA of a package on first use.
func (w *World) ensureBuilt(p *ssa.Package) {
	w.buildMu.Lock()
	defer w.buildMu.Unlock()
	w.ensureBuiltL(p)
}

func (w *World) ensureBuiltL(p *ssa.Package) {
	if p == nil {
		return
	}
	if !w.built[p] {
		p.Build()
		w.built[p] = true
	}
}

// modFile copies go.mod and go.sum to dir, where the go command may change them, and gives its flag.
func modFile(dir string) string {
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repoDir, f))
		if err == nil {
			err = os.WriteFile(filepath.Join(dir, f), b, 0o644)
		}
		if err != nil {
			fmt.Println("NOTE:", err)
		}
	}
	return "-modfile=" + filepath.Join(dir, "go.mod")
}

func writeOverlay(dir string, files map[string]string) (string, error) {
	b, _ := json.Marshal(map[string]any{"Replace": files})
	fn := filepath.Join(dir, "overlay.json")
	return fn, os.WriteFile(fn, b, 0o644)
}
