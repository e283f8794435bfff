package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"syscall"
	"time"
)

// native holds one test binary per harness package, built from the current tree with the harness overlay.
type native struct {
	dir  string
	bins map[string]string
	errs map[string]string
	wall time.Duration
}

type caseJSON struct {
	Harness string    `json:"harness"`
	Tier    int       `json:"tier"`
	Vector  []VecItem `json:"vector"`
}

type resJSON struct {
	Case     int
	Harness  string
	Fails    []string
	Obs      []string
	Panic    string
	Stack    string
	Diverged string
	Skipped  string
	Crash    string // the process died
	Hang     bool
	ran      bool
}

func pkgName(dir string) string {
	m, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range m {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, l := range strings.Split(string(b), "\n") {
			if s, ok := strings.CutPrefix(l, "package "); ok {
				return strings.TrimSpace(s)
			}
		}
	}
	return ""
}

func filePkgName(f string) string {
	b, _ := os.ReadFile(f)
	for _, l := range strings.Split(string(b), "\n") {
		if s, ok := strings.CutPrefix(l, "package "); ok {
			return strings.TrimSpace(s)
		}
	}
	return ""
}

// buildNative builds the replay binaries; for concurrent harnesses with the race detector and with random delays before the
// statements that synchronise.
func buildNative(hs []*Harness, files map[string]string, concurrent bool) *native {
	t0 := time.Now()
	n := &native{bins: map[string]string{}, errs: map[string]string{}}
	dir, err := os.MkdirTemp("", "verif-native")
	if err != nil {
		n.errs["*"] = err.Error()
		return n
	}
	n.dir = dir
	byPkg := map[string][]*Harness{}
	for _, h := range hs {
		byPkg[h.Pkg] = append(byPkg[h.Pkg], h)
	}
	rep := map[string]string{}
	for k, v := range files {
		rep[k] = v
	}
	for _, pkg := range sortedKeys(byPkg) {
		var sb strings.Builder
		hh := byPkg[pkg]
		fmt.Fprintf(&sb, "package %s\nimport (\"testing\"; \"%s/verifsym\")\nfunc TestVerifReplay(t *testing.T) { verifsym.RunCases(map[string]func(){\n", filePkgName(filepath.Join(verifDir, "harness", hh[0].File)), modPath)
		for _, h := range hh {
			fmt.Fprintf(&sb, "%q: %s,\n", h.Func, h.Func)
		}
		sb.WriteString("}) }\n")
		fn := filepath.Join(dir, strings.ReplaceAll(pkg, "/", "_")+"_driver.go")
		os.WriteFile(fn, []byte(sb.String()), 0o644)
		rep[filepath.Join(repoDir, pkg, "zz_verif_driver_test.go")] = fn
		tests, _ := filepath.Glob(filepath.Join(repoDir, pkg, "*_test.go"))
		for _, t := range tests {
			rep[t] = ""
		}
	}
	args := []string{"test", "-c", "-vet=off"}
	if concurrent {
		args = append(args, "-race")
		addDelays(dir, rep)
	}
	ov, _ := writeOverlay(dir, rep)
	args = append(args, modFile(dir))
	for _, pkg := range sortedKeys(byPkg) {
		bin := filepath.Join(dir, strings.ReplaceAll(pkg, "/", "_")+".test")
		c := exec.Command("go", append(args, "-overlay", ov, "-o", bin, "./"+pkg)...)
		c.Dir = repoDir
		if concurrent {
			c.Env = append(os.Environ(), "CGO_ENABLED=1")
		}
		out, err := c.CombinedOutput()
		if err != nil && concurrent {
			c = exec.Command("go", append(slices.Delete(slices.Clone(args), 3, 4), "-overlay", ov, "-o", bin, "./"+pkg)...)
			c.Dir = repoDir
			out, err = c.CombinedOutput()
		}
		if err != nil {
			n.errs[pkg] = string(out)
			continue
		}
		n.bins[pkg] = bin
	}
	n.wall = time.Since(t0)
	return n
}

func (n *native) close() {
	if n != nil && n.dir != "" {
		os.RemoveAll(n.dir)
	}
}

// run replays the cases; a case that kills the process is recorded and the rest continues in a new one.
func (n *native) run(pkg string, cases []caseJSON, perCase time.Duration) ([]resJSON, error) {
	res := make([]resJSON, len(cases))
	bin := n.bins[pkg]
	if bin == "" {
		return res, fmt.Errorf("native replay binary of %s was not built: %s", pkg, n.errs[pkg])
	}
	d, err := os.MkdirTemp(n.dir, "run")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(d)
	b, _ := json.Marshal(cases)
	cf := filepath.Join(d, "cases.json")
	os.WriteFile(cf, b, 0o644)
	from := 0
	for round := 0; from < len(cases) && round <= len(cases); round++ {
		of := filepath.Join(d, fmt.Sprintf("out%d", round))
		ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second+perCase*time.Duration(len(cases)-from))
		c := exec.CommandContext(ctx, bin, "-test.run", "^TestVerifReplay$", "-test.timeout", "0")
		c.Dir = filepath.Join(repoDir)
		c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		c.Cancel = func() error { return syscall.Kill(-c.Process.Pid, syscall.SIGKILL) }
		c.WaitDelay = 2 * time.Second
		c.Env = append(os.Environ(), "VERIF_CASES="+cf, "VERIF_OUT="+of, fmt.Sprintf("VERIF_FROM=%d", from), "GOMEMLIMIT=4GiB", "GORACE=halt_on_error=1")
		var errb bytes.Buffer
		c.Stdout = &errb
		c.Stderr = &errb
		over := make(chan struct{})
		go func() { // a case without a result for long hangs
			size, since := int64(-1), time.Now()
			for {
				select {
				case <-over:
					return
				case <-time.After(200 * time.Millisecond):
				}
				if fi, err := os.Stat(of); err == nil && fi.Size() != size {
					size, since = fi.Size(), time.Now()
				}
				if time.Since(since) > perCase+10*time.Second {
					cancel()
					return
				}
			}
		}()
		runErr := c.Run()
		close(over)
		hang := ctx.Err() != nil
		cancel()
		last, done := from, -1
		if f, err := os.Open(of); err == nil {
			sc := bufio.NewScanner(f)
			sc.Buffer(nil, 64<<20)
			for sc.Scan() {
				l := sc.Text()
				if s, ok := strings.CutPrefix(l, "START "); ok {
					fmt.Sscan(s, &last)
				} else if s, ok := strings.CutPrefix(l, "RESULT "); ok {
					var r resJSON
					if json.Unmarshal([]byte(s), &r) == nil && r.Case < len(res) {
						r.ran = true
						res[r.Case] = r
						done = r.Case
					}
				}
			}
			f.Close()
		}
		if runErr == nil {
			break
		}
		if done >= last && !hang {
			break
		}
		t := errb.String()
		if len(t) > 4000 {
			t = t[:4000]
		}
		if done < last {
			res[last] = resJSON{Case: last, Harness: cases[last].Harness, Crash: t, Hang: hang, ran: true}
		}
		from = last + 1
	}
	return res, nil
}

// reproduces reports whether the native outcome shows the violation.
func reproduces(v *Violation, r *resJSON) bool {
	if !r.ran || r.Diverged != "" || r.Skipped != "" {
		return false
	}
	if v.Concurrent && strings.Contains(r.Crash, "DATA RACE") {
		return true
	}
	switch v.Note {
	case "assert":
		for _, f := range r.Fails {
			if f == v.Label {
				return true
			}
		}
		return r.Panic != ""
	case "panic":
		return r.Panic != "" || strings.Contains(r.Crash, "panic:") || strings.Contains(r.Crash, "fatal error:")
	case "recursion":
		return strings.Contains(r.Crash, "stack overflow") || strings.Contains(r.Crash, "stack exceeds")
	case "race":
		return strings.Contains(r.Crash, "DATA RACE") || strings.Contains(r.Crash, "fatal error: concurrent map")
	case "deadlock", "nontermination":
		return r.Hang || strings.Contains(r.Crash, "deadlock")
	}
	return false
}

type replayFile struct {
	Property string
	Harness  string
	File     string
	Pkg      string
	Tier     int
	Kind     string
	Label    string
	Vector   []VecItem
	Text     string
	Obs      []string
	Stack    string
	Native   resJSON
}

func replayCmd(fn string) int {
	b, err := os.ReadFile(fn)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	hs, err := findHarnesses(rf.Property)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var one []*Harness
	for _, h := range hs {
		if h.Func == rf.Harness {
			one = append(one, h)
		}
	}
	_, files, err := buildOverlay(one, nil)
	if err != nil || len(one) == 0 {
		fmt.Println("harness not found", err)
		return 2
	}
	_, concurrent := one[0].Dirs["concurrent"]
	n := buildNative(one, files, concurrent)
	defer n.close()
	tries := 1
	if concurrent {
		tries = concurrentTries
	}
	for i := 0; i < tries; i++ {
		r, err := n.run(rf.Pkg, []caseJSON{{rf.Harness, rf.Tier, rf.Vector}}, 20*time.Second)
		if err != nil {
			fmt.Println(err)
			return 2
		}
		o, _ := json.MarshalIndent(r[0], "", "  ")
		fmt.Println(string(o))
		if reproduces(&Violation{Note: rf.Kind, Label: rf.Label, Concurrent: concurrent}, &r[0]) {
			fmt.Println("reproduced")
			return 1
		}
	}
	return 0
}
