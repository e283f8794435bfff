// Package verifsym is the harness API. Under symbolic execution every function of this package is modelled by the engine;
// this is the native implementation, which replays a vector of concrete inputs found by the solver.
package verifsym

import (
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
)

type item struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	I    int64  `json:"i"`
	S    []byte `json:"s"`
}

type testCase struct {
	Harness string `json:"harness"`
	Tier    int    `json:"tier"`
	Vector  []item `json:"vector"`
}

type result struct {
	Case     int
	Harness  string
	Fails    []string
	Obs      []string
	Panic    string
	Stack    string
	Diverged string
	Skipped  string
}

type stop struct{ diverged, skipped string }

var (
	cur      *testCase
	curIdx   int
	pos      int
	res      *result
	exitCall int
)

// RunCases replays the cases of $VERIF_CASES from index $VERIF_FROM on.
func RunCases(hs map[string]func()) {
	b, err := os.ReadFile(os.Getenv("VERIF_CASES"))
	if err != nil {
		return
	}
	var cases []testCase
	if err := json.Unmarshal(b, &cases); err != nil {
		panic(err)
	}
	debug.SetMaxStack(64 << 20)
	from, _ := strconv.Atoi(os.Getenv("VERIF_FROM"))
	out, err := os.OpenFile(os.Getenv("VERIF_OUT"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	for i := from; i < len(cases); i++ {
		if c := os.Getenv("VERIF_CHILD"); c != "" && c != strconv.Itoa(i) {
			continue
		}
		h := hs[cases[i].Harness]
		if h == nil {
			continue
		}
		fmt.Fprintf(out, "START %d\n", i)
		runCase(i, &cases[i], h)
		line, _ := json.Marshal(res)
		fmt.Fprintf(out, "RESULT %s\n", line)
	}
	out.Close()
}

func runCase(i int, c *testCase, h func()) {
	cur, curIdx, pos, exitCall, prevRuns = c, i, 0, 0, nil
	res = &result{Case: i, Harness: c.Harness}
	wd, _ := os.Getwd()
	defer func() {
		os.Chdir(wd)
		for _, d := range tempDirs {
			os.RemoveAll(d)
		}
		tempDirs = nil
		if e := recover(); e != nil {
			if s, ok := e.(stop); ok {
				res.Diverged, res.Skipped = s.diverged, s.skipped
				return
			}
			res.Panic = fmt.Sprint(e)
			res.Stack = string(debug.Stack())
		}
	}()
	h()
}

func next(name, kind string) item {
	if pos >= len(cur.Vector) {
		panic(stop{diverged: "vector exhausted at " + name})
	}
	it := cur.Vector[pos]
	pos++
	if it.Name != name || it.Kind != kind {
		panic(stop{diverged: fmt.Sprintf("input %s/%s requested, vector has %s/%s", name, kind, it.Name, it.Kind)})
	}
	return it
}

// Int is an arbitrary int in [lo, hi].
func Int(name string, lo, hi int) int { return int(next(name, "int").I) }

// Int64 is an arbitrary int64.
func Int64(name string) int64 { return next(name, "int").I }

// Uint64 is an arbitrary uint64.
func Uint64(name string) uint64 { return uint64(next(name, "int").I) }

// Byte is an arbitrary byte in [lo, hi].
func Byte(name string, lo, hi byte) byte { return byte(next(name, "int").I) }

// Bool is an arbitrary bool.
func Bool(name string) bool { return next(name, "bool").I&1 == 1 }

// Choose is an arbitrary value of 0..n-1; every value is explored as a path of its own.
func Choose(name string, n int) int { return int(next(name, "choose").I) }

// Str is an arbitrary string of n bytes of the character set.
func Str(name string, n int, charset string) string { return string(next(name, "string").S) }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(stop{skipped: "assumption"})
	}
}

// Assert states the property.
func Assert(c bool, label string) {
	if !c {
		res.Fails = append(res.Fails, label)
		panic(stop{})
	}
}

// Observe records a value compared between the symbolic and the native execution.
func Observe(name string, v any) { res.Obs = append(res.Obs, name+"="+render(v)) }

func render(v any) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case error:
		return "error " + strconv.Quote(v.Error())
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.String:
		return strconv.Quote(rv.String())
	case reflect.Bool:
		return strconv.FormatBool(rv.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(rv.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatInt(int64(rv.Uint()), 10)
	case reflect.Slice:
		p := make([]string, rv.Len())
		for i := range p {
			p[i] = render(rv.Index(i).Interface())
		}
		return "[" + strings.Join(p, " ") + "]"
	}
	return fmt.Sprintf("<%T>", v)
}

// Reach marks a point that must be reachable.
func Reach(label string) {}

// Tier is 0 for the quick check and 1 for the thorough one.
func Tier() int { return cur.Tier }

// Native reports whether the harness runs natively.
func Native() bool { return true }

// MapOrders makes map iteration order arbitrary in the code of the module, or of the packages with the given import paths.
func MapOrders(on bool, pkgs ...string) {}

// Schedules makes goroutine scheduling arbitrary.
func Schedules(on bool) {}

// Preemptions bounds how often a goroutine that could go on is suspended in favour of another one; switches of blocked or
// finished goroutines are not bounded.
func Preemptions(n int) {}

// Idle lets all other goroutines run until they end or block for good and reports whether all of them have ended.
func Idle() bool {
	for i := 0; i < 200; i++ {
		b := make([]byte, 1<<20)
		if strings.Count(string(b[:runtime.Stack(b, true)]), "gosec/v2.(*Analyzer)") == 0 {
			return true
		}
		time.Sleep(5 * time.Millisecond)
	}
	return false
}

// Yield is a scheduling point.
func Yield() { runtime.Gosched() }

// Terminates turns a path that exhausts the step bound into a violation.
func Terminates() {}

// Concrete enumerates the feasible values of v.
func Concrete(v int) int { return v }

// And is a conjunction evaluated without branching.
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}

// Or is a disjunction evaluated without branching.
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

// Implies is an implication evaluated without branching.
func Implies(a, b bool) bool { return !a || b }

// Ite is a conditional evaluated without branching.
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// StrEq compares strings without branching.
func StrEq(a, b string) bool { return a == b }

// CatchExit runs f and reports the exit code if f ends the process. Natively f runs in a child process.
func CatchExit(f func()) (int, bool) {
	code, exited, _ := child(f)
	return code, exited
}

// Command runs the program's main function with the given arguments and reports its exit code, whether it exited at all,
// and what it wrote to the standard output. Natively it runs in a child process.
func Command(main func(), args ...string) (int, bool, string) {
	return child(func() {
		os.Args = append([]string{"gosec"}, args...)
		main()
	})
}

func child(f func()) (int, bool, string) {
	exitCall++
	me := strconv.Itoa(exitCall)
	if os.Getenv("VERIF_CHILD") != "" {
		if os.Getenv("VERIF_CHILDCALL") == me {
			defer func() {
				if e := recover(); e != nil {
					fmt.Fprintf(os.Stderr, "panic: %v\n%s", e, debug.Stack())
					os.Exit(2)
				}
			}()
			f()
			os.WriteFile(os.Getenv("VERIF_CHILDOUT"), []byte("returned"), 0o644)
			os.Exit(0)
		}
		// an earlier process: what the parent saw
		var l []prevRun
		if b, err := os.ReadFile(os.Getenv("VERIF_PREV")); err == nil && json.Unmarshal(b, &l) == nil && exitCall <= len(l) {
			return l[exitCall-1].Code, l[exitCall-1].Exited, l[exitCall-1].Out
		}
		return 0, false, ""
	}
	code, exited, out := runChild(me)
	prevRuns = append(prevRuns, prevRun{code, exited, out})
	return code, exited, out
}

type prevRun struct {
	Code   int
	Exited bool
	Out    string
}

var prevRuns []prevRun

func runChild(me string) (int, bool, string) {
	dir, err := os.MkdirTemp("", "verif-exit")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	c := exec.Command(os.Args[0], os.Args[1:]...)
	c.Env = append(os.Environ(), "VERIF_CHILD="+strconv.Itoa(curIdx), "VERIF_CHILDCALL="+me, "VERIF_CHILDOUT="+dir+"/ret", "VERIF_OUT="+dir+"/out", "VERIF_FROM=0",
		"VERIF_DIRS="+strings.Join(tempDirs, ":"), "VERIF_PREV="+dir+"/prev", "VERIF_GEMINI="+geminiURL)
	if b, err := json.Marshal(prevRuns); err == nil {
		os.WriteFile(dir+"/prev", b, 0o600)
	}
	var out, errOut strings.Builder
	c.Stdout, c.Stderr = &out, &errOut
	err = c.Run()
	if _, e := os.Stat(dir + "/ret"); e == nil {
		return 0, false, out.String()
	}
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		panic(err)
	}
	code := c.ProcessState.ExitCode()
	if code == 2 && strings.Contains(errOut.String(), "goroutine ") {
		panic("child panicked: " + errOut.String())
	}
	return code, true, out.String()
}

// tempDir is a new directory, or the one the parent process made.
func tempDir(pattern string) string {
	if os.Getenv("VERIF_CHILD") != "" {
		l := strings.Split(os.Getenv("VERIF_DIRS"), ":")
		if tempCalls < len(l) {
			tempCalls++
			return l[tempCalls-1]
		}
	}
	dir, err := os.MkdirTemp("", pattern)
	if err != nil {
		panic(err)
	}
	tempDirs = append(tempDirs, dir)
	return dir
}

var tempCalls int

// Dir writes files to a new directory and returns its path.
func Dir(files []Src) string {
	dir := tempDir("verif-dir")
	for _, f := range files {
		fn := dir + "/" + f.Name
		os.MkdirAll(filepath.Dir(fn), 0o755)
		if err := os.WriteFile(fn, []byte(f.Text), 0o644); err != nil {
			panic(err)
		}
	}
	return dir
}

// Gemini starts a service that answers requests for suggestions and returns its address. The service gets the API key and
// the prompt and says what happens: 0 the text is returned, 1 an error, 2 no candidate, 3 a candidate without content,
// 4 content without parts.
func Gemini(serve func(key, prompt string) (int, string)) string {
	if s := os.Getenv("VERIF_GEMINI"); s != "" {
		return s
	}
	var mu sync.Mutex
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		mu.Lock()
		defer mu.Unlock()
		var req struct {
			Contents []struct{ Parts []struct{ Text string } }
		}
		w.Header().Set("Content-Type", "application/json")
		if json.NewDecoder(r.Body).Decode(&req) != nil || len(req.Contents) != 1 || len(req.Contents[0].Parts) != 1 {
			w.WriteHeader(400)
			return
		}
		kind, text := serve(r.URL.Query().Get("key"), req.Contents[0].Parts[0].Text)
		switch kind {
		case 1:
			w.WriteHeader(400)
			fmt.Fprint(w, `{"error":{"code":400,"message":"bad"}}`)
		case 2:
			fmt.Fprint(w, `{}`)
		case 3:
			fmt.Fprint(w, `{"candidates":[{"finishReason":"MAX_TOKENS"}]}`)
		case 4:
			fmt.Fprint(w, `{"candidates":[{"content":{}}]}`)
		default:
			b, _ := json.Marshal(text)
			fmt.Fprintf(w, `{"candidates":[{"content":{"parts":[{"text":%s}]}}]}`, b)
		}
	}))
	geminiURL = s.URL
	return s.URL
}

var geminiURL string

// Chdir changes the working directory.
func Chdir(dir string) {
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
}

// ReadFile reads a file that the program wrote.
func ReadFile(name string) (string, bool) {
	b, err := os.ReadFile(name)
	return string(b), err == nil
}

// Panics reports whether f panics.
func Panics(f func()) (r bool) {
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(stop); ok {
				panic(s)
			}
			r = true
		}
	}()
	f()
	return false
}

// Hole is a literal or identifier of a template program with an arbitrary value.
type Hole struct {
	Text  string // spelling in the template
	Lit   string // spelling that replaces it
	Val   int64
	Str   string
	IsStr bool
}

// LoadProgram parses and type-checks a one-file program after replacing its holes.
func LoadProgram(src string, holes []Hole) *packages.Package {
	return load("example.com/work", []string{"/work/main.go"}, []Src{{"main.go", src}}, holes)
}

// Src is a file of a template program.
type Src struct{ Name, Text string }

// LoadFiles parses and type-checks a package after replacing its holes, and writes its files to a directory of their own;
// the GoFiles of the result are their paths.
func LoadFiles(path string, files []Src, holes []Hole) *packages.Package {
	dir := tempDir("verif-work")
	var names []string
	for _, f := range files {
		fn := dir + "/" + f.Name
		src := f.Text
		for _, h := range holes {
			src = strings.ReplaceAll(src, h.Text, h.Lit)
		}
		if err := os.WriteFile(fn, []byte(src), 0o600); err != nil {
			panic(err)
		}
		names = append(names, fn)
	}
	return load(path, names, files, holes)
}

func load(path string, names []string, srcs []Src, holes []Hole) *packages.Package {
	fset := token.NewFileSet()
	var files []*ast.File
	for i, s := range srcs {
		src := s.Text
		for _, h := range holes {
			src = strings.ReplaceAll(src, h.Text, h.Lit)
		}
		f, err := parser.ParseFile(fset, names[i], src, parser.ParseComments)
		if err != nil {
			panic(stop{skipped: "template: " + err.Error()})
		}
		files = append(files, f)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{},
		Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, FileVersions: map[*ast.File]string{}}
	sizes := types.SizesFor("gc", "amd64")
	conf := &types.Config{Importer: imp{path}, Sizes: sizes}
	tp, err := conf.Check(path, fset, files, info)
	if err != nil {
		panic(stop{skipped: "template: " + err.Error()})
	}
	return &packages.Package{ID: path, Name: tp.Name(), PkgPath: path, GoFiles: names, CompiledGoFiles: names,
		Types: tp, Fset: fset, Syntax: files, TypesInfo: info, TypesSizes: sizes}
}

type imp struct{ program string }

var impFset = token.NewFileSet()
var srcImp types.Importer
var stubDone = map[string]*types.Package{}

// vendored is the path under which a program of a GOPATH sees a third-party package.
func vendored(program, path string) string {
	switch {
	case program == "gopath/app":
		return "gopath/app/vendor/" + path
	case program == "gopath/nested":
		return "gopath/nested/vendor/lib/vendor/" + path
	case strings.HasPrefix(program, "vendor/"):
		return "vendor/" + path
	}
	return path
}

func (i imp) Import(path string) (*types.Package, error) {
	if srcImp == nil {
		os.Setenv("CGO_ENABLED", "0")
		srcImp = importer.ForCompiler(impFset, "source", nil)
	}
	if src, ok := StubPkgs[path]; ok {
		path = vendored(i.program, path)
		if p, ok := stubDone[path]; ok {
			return p, nil
		}
		f, err := parser.ParseFile(impFset, path+"/stub.go", src, 0)
		if err != nil {
			return nil, err
		}
		p, err := (&types.Config{Importer: imp{}}).Check(path, impFset, []*ast.File{f}, nil)
		if err == nil {
			stubDone[path] = p
		}
		return p, err
	}
	return srcImp.Import(path)
}

var tempDirs []string

// File creates a file with the given content and returns its path.
func File(base, content string) string {
	dir := tempDir("verif-file")
	fn := dir + "/" + base
	if err := os.WriteFile(fn, []byte(content), 0o600); err != nil {
		panic(err)
	}
	return fn
}

// Setenv sets an environment variable.
func Setenv(k, v string) { os.Setenv(k, v) }
