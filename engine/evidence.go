package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

type finding struct {
	prop, key string
	match     *regexp.Regexp
	text      string
}

// known reads the known findings: lines "finding: property=ID key=KEY [match=REGEXP] :: text". Lines "fixed:" suppress nothing.
func known() []finding {
	b, _ := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	var r []finding
	for _, l := range strings.Split(string(b), "\n") {
		s, ok := strings.CutPrefix(strings.TrimSpace(l), "finding: ")
		if !ok {
			continue
		}
		head, text, _ := strings.Cut(s, " :: ")
		f := finding{text: text}
		for _, p := range regexp.MustCompile(`(property|key|match)=("(?:[^"\\]|\\.)*"|\S+)`).FindAllStringSubmatch(head, -1) {
			v := p[2]
			if u, err := strconv.Unquote(v); err == nil {
				v = u
			}
			switch p[1] {
			case "property":
				f.prop = v
			case "key":
				f.key = v
			case "match":
				f.match = regexp.MustCompile(v)
			}
		}
		r = append(r, f)
	}
	return r
}

func conclude(prop, tier string, outs []runOut, nat *native, files map[string]string, dropped map[string]bool, w *World, t0 time.Time, verbose bool) int {
	defer nat.close()
	kf := known()
	exit := 0
	var nviol, nunrep, nknown int
	var details []map[string]any
	var states, forks, steps, queries, validated, sampled, mism int
	var smt time.Duration
	unsupp := map[string]int{}
	funcs := map[string]bool{}
	var bounds, assumptions, caveats []string
	var samples []any
	outDir := filepath.Join(verifDir, "out", prop)
	os.RemoveAll(outDir)
	knownHit := map[string]bool{}
	tierN := 0
	if tier == "thorough" {
		tierN = 1
	}
	exhaustAll := true
	for _, o := range outs {
		x := o.x
		states += x.started
		forks += int(x.forks.Load())
		steps += int(x.steps.Load())
		queries += int(x.queries.Load())
		smt += time.Duration(x.smtNs.Load())
		for f := range x.funcs {
			n := f.String()
			if strings.Contains(n, modPath) && !strings.Contains(n, "Verif_") && !strings.Contains(n, "verifsym") {
				funcs[strings.ReplaceAll(n, modPath, "gosec")] = true
			}
		}
		bounds = append(bounds, o.h.Func+": "+o.h.Bounds)
		if a := o.h.Dirs["assume"]; a != "" {
			assumptions = append(assumptions, o.h.Func+": "+a)
		}
		d := map[string]any{"harness": o.h.Func, "paths": x.started, "completed": x.ends["done"], "infeasible": x.ends["infeasible"], "exhaustive_within_bounds": x.exhaust, "wall_s": round(o.wall.Seconds()), "bounds": o.h.Bounds}
		labs := map[string]any{}
		for l, s := range x.labels {
			labs[l] = map[string]int{"discharged": s.Proved, "by_simplification": s.Const, "violated": s.Failed, "unknown": s.Unknown}
		}
		d["assertions"] = labs
		if !x.exhaust {
			exhaustAll = false
			caveats = append(caveats, fmt.Sprintf("%s: exploration stopped before all paths within the bounds were covered (%d pending, ends %v)", o.h.Func, len(x.work), x.ends))
		}
		if x.ends["done"] == 0 {
			fmt.Printf("NOTE: %s completed no path\n", o.h.Func)
		}
		for k, mm := range x.endMsgs {
			for msg, n := range mm {
				if k == "unsupported" || k == "steps" || k == "time" {
					unsupp[k+": "+firstLine(msg)] += n
				}
			}
		}
		for n, c := range x.notes {
			if !strings.HasPrefix(n, "reach:") {
				caveats = append(caveats, fmt.Sprintf("%s: %s (x%d)", o.h.Func, n, c))
			}
		}
		// violations
		var vs []*Violation
		for _, k := range sortedKeys(x.viol) {
			vs = append(vs, x.viol[k])
		}
		if len(vs) > 0 && nat != nil {
			reps := make([]*resJSON, len(vs))
			for try := 0; try < o.h.Tries; try++ {
				var cs []caseJSON
				var ix []int
				for i, v := range vs {
					if reps[i] == nil || !reproduces(v, reps[i]) {
						cs = append(cs, caseJSON{o.h.Func, tierN, v.Vector})
						ix = append(ix, i)
					}
				}
				if len(cs) == 0 {
					break
				}
				rs, err := nat.run(o.h.Pkg, cs, 10*time.Second)
				if err != nil {
					caveats = append(caveats, err.Error())
					fmt.Println("NOTE:", firstLine(err.Error()))
					break
				}
				for k, i := range ix {
					r := rs[k]
					reps[i] = &r
				}
			}
			if _, ok := o.h.Dirs["concurrent"]; ok {
				retryConcurrent(o.h, vs, reps, tierN, files)
			}
			doneKey := map[string]bool{}
			for i, v := range vs {
				r := reps[i]
				if r == nil || !reproduces(v, r) {
					if r != nil {
						if verbose {
							rb, _ := json.Marshal(r)
							fmt.Printf("   not reproduced: %s %s native=%s\n", v.Key, showVec(v.Vector), rb)
						}
						caveats = append(caveats, fmt.Sprintf("%s: counterexample for %s did not reproduce natively and was discarded (%s)", o.h.Func, v.Key, showVec(v.Vector)))
					}
					nunrep++
					continue
				}
				rf := replayFile{Property: prop, Harness: o.h.Func, File: o.h.File, Pkg: o.h.Pkg, Tier: tierN, Kind: v.Note, Label: v.Label, Vector: v.Vector, Text: showVec(v.Vector), Obs: v.Obs, Stack: v.Stack, Native: *r}
				full := o.h.Func + "/" + v.Key
				isKnown := false
				for _, f := range kf {
					if f.prop == prop && f.key == full && (f.match == nil || f.match.MatchString(rf.Text)) {
						isKnown = true
						if !knownHit[f.key+f.text] {
							knownHit[f.key+f.text] = true
							nknown++
							fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.text)
						}
						break
					}
				}
				if isKnown || doneKey[v.Key] {
					continue
				}
				doneKey[v.Key] = true
				os.MkdirAll(outDir, 0o755)
				fn := filepath.Join(outDir, fmt.Sprintf("cex%d.json", nviol+1))
				b, _ := json.MarshalIndent(rf, "", " ")
				os.WriteFile(fn, b, 0o644)
				nviol++
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, fn)
				fmt.Printf("  %s: %s\n  input: %s\n", full, v.Note, rf.Text)
				if len(v.Obs) > 0 {
					fmt.Printf("  observed: %s\n", strings.Join(v.Obs, "; "))
				}
				exit = 1
			}
		}
		// cross-validation of passing paths
		if exit == 1 && time.Since(t0) > 100*time.Second {
			nat = nil // the verdict is clear, the rest would only take time
		}
		if nat != nil && len(x.samples) > 0 && o.h.Dirs["novalidate"] == "" {
			var cs []caseJSON
			for _, s := range x.samples {
				cs = append(cs, caseJSON{o.h.Func, tierN, s.Vector})
			}
			rs, err := nat.run(o.h.Pkg, cs, 5*time.Second)
			if err == nil {
				for i, r := range rs {
					sampled++
					ok := r.ran && r.Panic == "" && r.Crash == "" && len(r.Fails) == 0 && r.Diverged == "" && r.Skipped == "" && strings.Join(r.Obs, "\n") == strings.Join(x.samples[i].Obs, "\n")
					if ok {
						validated++
					} else {
						mism++
						if verbose || mism <= 2 {
							rb, _ := json.Marshal(r)
							fmt.Printf("NOTE: %s: native run differs from the symbolic one on %s\n   sym=%q\n   nat=%s\n", o.h.Func, showVec(x.samples[i].Vector), x.samples[i].Obs, rb)
						}
					}
				}
			} else {
				caveats = append(caveats, firstLine(err.Error()))
				fmt.Println("NOTE:", err)
			}
		}
		for i, s := range x.samples {
			if i < 2 {
				samples = append(samples, map[string]any{"harness": o.h.Func, "inputs": showVec(s.Vector), "observed": s.Obs})
			}
		}
		details = append(details, d)
	}
	if mism > 0 {
		caveats = append(caveats, fmt.Sprintf("%d of %d sampled paths behaved differently natively: the encoding is inexact there", mism, sampled))
	}
	for f := range dropped {
		caveats = append(caveats, "harness file "+f+" does not type-check against the current tree and was not run")
		exhaustAll = false
	}
	sort.Strings(caveats)
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if len(samples) > 12 {
		samples = samples[:12]
	}
	if samples == nil {
		samples = []any{}
	}
	cov := map[string]any{
		"states": states, "transitions": steps, "traces_validated_against_impl": validated, "samples": samples,
		"explanation": "states counts symbolic paths (each stands for every input satisfying its path condition), transitions counts SSA instructions executed on them", "path_forks": forks, "queries_discharged": queries, "solver_time_s": round(smt.Seconds()),
		"solver": "z3 5.3.2 (z3-new), one incremental process per worker", "functions_encoded": fl, "functions_encoded_count": len(fl), "harnesses": details, "bounds": bounds,
		"exhaustive_within_bounds": exhaustAll, "reduced_bounds_and_caveats": caveats, "unsupported_paths": unsupp, "native_samples": sampled, "native_mismatches": mism,
		"counterexamples_not_reproduced": nunrep, "known_findings_seen": nknown,
	}
	if w != nil {
		cov["load_and_ssa_build_s"] = round(w.LoadTime.Seconds())
	}
	if assumptions == nil {
		assumptions = []string{}
	}
	assumptions = append(assumptions, "go/ssa represents the source faithfully; library functions listed as modelled in DESIGN.md behave as modelled (passing paths are replayed natively to check this)")
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": levelOf(prop), "coverage": cov, "assumptions": assumptions, "wall_s": round(time.Since(t0).Seconds()), "violations": nviol}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), b, 0o644); err != nil {
		fmt.Println("error:", err)
		return 2
	}
	fmt.Printf("property %s: %d harnesses, %d paths, %d queries, %.1fs solver, %d/%d samples validated natively, %d violations, %.1fs\n", prop, len(outs), states, queries, smt.Seconds(), validated, sampled, nviol, time.Since(t0).Seconds())
	return exit
}

func levelOf(string) string { return "model_checking" }

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }
