package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"time"
)

const concurrentTries = 30

const delaySrc = `package verifdelay

import (
	"math/rand"
	"time"
)

func Point() {
	switch n := rand.Intn(40); {
	case n < 8:
		time.Sleep(time.Duration(rand.Intn(2000)) * time.Microsecond)
	case n < 10:
		time.Sleep(time.Duration(rand.Intn(120)) * time.Millisecond)
	}
}
`

// addDelays overlays the repository's files that use goroutines, channels or locks with copies which call a random delay
// before each statement that may synchronise: a counterexample that depends on a schedule is replayed under many schedules.
func addDelays(dir string, rep map[string]string) {
	fn := filepath.Join(dir, "verifdelay.go")
	os.WriteFile(fn, []byte(delaySrc), 0o644)
	rep[filepath.Join(repoDir, "verifdelay", "verifdelay.go")] = fn
	n := 0
	filepath.Walk(repoDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if b := fi.Name(); b == "testdata" || b == "testutils" || b == "vendor" || (strings.HasPrefix(b, ".") && p != repoDir) {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		if _, ok := rep[p]; ok {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		out := withDelays(src)
		if out == nil {
			return nil
		}
		n++
		fn := filepath.Join(dir, fmt.Sprintf("delay%d_%s", n, filepath.Base(p)))
		os.WriteFile(fn, out, 0o644)
		rep[p] = fn
		return nil
	})
}

func withDelays(src []byte) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, 0)
	if err != nil {
		return nil
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	at := map[int]bool{}
	syncs := func(s ast.Stmt) bool {
		found := false
		ast.Inspect(s, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit, *ast.BlockStmt:
				return n == ast.Node(s)
			case *ast.SendStmt, *ast.SelectStmt, *ast.GoStmt, *ast.CommClause:
				found = true
			case *ast.UnaryExpr:
				found = found || n.Op == token.ARROW
			case *ast.CallExpr:
				switch f := n.Fun.(type) {
				case *ast.SelectorExpr:
					switch f.Sel.Name {
					case "Lock", "Unlock", "RLock", "RUnlock", "Wait", "Done", "Add", "Load", "Store":
						found = true
					}
				case *ast.Ident:
					found = found || f.Name == "close"
				}
			}
			return !found
		})
		return found
	}
	conc := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.GoStmt:
			conc = true
		}
		var list []ast.Stmt
		switch n := n.(type) {
		case *ast.BlockStmt:
			list = n.List
		case *ast.CaseClause:
			list = n.Body
		case *ast.CommClause:
			list = n.Body
		}
		for _, s := range list {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause:
				continue
			}
			if _, ok := s.(*ast.LabeledStmt); !ok && syncs(s) {
				at[off(s.Pos())] = true
			}
		}
		return true
	})
	if !conc && len(at) == 0 {
		return nil
	}
	var offs []int
	for o := range at {
		offs = append(offs, o)
	}
	if len(offs) == 0 {
		return nil
	}
	sort.Ints(offs)
	var b bytes.Buffer
	end := off(f.Name.End())
	b.Write(src[:end])
	fmt.Fprintf(&b, "; import verifdelay %q", modPath+"/verifdelay")
	for _, o := range offs {
		b.Write(src[end:o])
		b.WriteString("verifdelay.Point(); ")
		end = o
	}
	b.Write(src[end:])
	return b.Bytes()
}

// retryConcurrent replays counterexamples that did not show natively at once under many schedules and with the race detector.
func retryConcurrent(h *Harness, vs []*Violation, reps []*resJSON, tierN int, files map[string]string) {
	var open []int
	keys := map[string]int{}
	for i, v := range vs {
		v.Concurrent = true
		if (reps[i] == nil || !reproduces(v, reps[i])) && keys[v.Key] < 4 {
			open = append(open, i)
			keys[v.Key]++
		}
	}
	if len(open) == 0 {
		return
	}
	n := buildNative([]*Harness{h}, files, true)
	defer n.close()
	for _, e := range n.errs {
		fmt.Println("NOTE:", e)
	}
	shown := map[string]bool{}
	begin := time.Now()
	for try := 0; try < concurrentTries && len(open) > 0; try++ {
		if len(shown) > 0 && time.Since(begin) > 60*time.Second || time.Since(begin) > 240*time.Second {
			break
		}
		var cs []caseJSON
		for _, i := range open {
			cs = append(cs, caseJSON{h.Func, tierN, vs[i].Vector})
		}
		rs, err := n.run(h.Pkg, cs, 20*time.Second)
		if err != nil {
			fmt.Println("NOTE:", firstLine(err.Error()))
			return
		}
		var rest []int
		for k, i := range open {
			r := rs[k]
			if reps[i] = &r; !reproduces(vs[i], &r) {
				rest = append(rest, i)
			} else {
				shown[vs[i].Key] = true
			}
		}
		open = slices.DeleteFunc(rest, func(i int) bool { return shown[vs[i].Key] })
	}
}
