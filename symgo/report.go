package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func runHarness(P *Program, fn *ssa.Function, h *harnessRun, seed int64, workers int, hardEnd time.Time) (*runReport, *Explorer) {
	t0 := time.Now()
	secs := h.num("time", 60)
	dl := t0.Add(time.Duration(secs) * time.Second)
	if dl.After(hardEnd) {
		dl = hardEnd
	}
	params := map[string]int64{}
	for k := range h.opts {
		if strings.HasPrefix(k, "p.") {
			params[k[2:]] = h.num(k, 0)
		}
	}
	ex := &Explorer{prog: P, harness: fn, name: h.fn, params: params, seed: seed}
	ex.lim = Limits{
		MaxSteps:   h.num("steps", 3000000),
		Deadline:   dl,
		FFLimit:    time.Duration(h.num("ff", 4000)) * time.Millisecond,
		Z3Timeout:  int(h.num("z3", 4000)),
		StepViol:   h.num("stepviol", 1) != 0,
		MaxViol:    int(h.num("maxviol", 3)),
		MapOrder:   int(h.num("maporder", 0)),
		MapDev:     int(h.num("mapdev", 0)),
		Sched:      int(h.num("sched", 0)),
		Race:       h.num("race", 1) != 0,
		NumSamples: int(h.num("samples", 6)),
	}
	ex.run(workers)
	ex.printForks()
	st := &ex.total
	b := map[string]string{}
	for k, v := range h.opts {
		b[k] = v
	}
	b["steps"] = fmt.Sprint(ex.lim.MaxSteps)
	b["time"] = fmt.Sprint(secs)
	rep := &runReport{Harness: h.fn, Package: h.pkg, Bounds: b, Paths: st.Paths, Completed: st.Completed, Infeasible: st.Infeasible, StepLimit: st.Limit,
		Unsupp: st.Unsupp, Steps: st.Steps, MaxSteps: st.MaxSteps, Asserts: st.Asserts, Proved: st.AssertsProved, Undecided: st.AssertsUnknown, Branches: st.Branches,
		FF:        map[string]any{"queries": st.FF.Queries, "unsat": st.FF.Unsat, "sat": st.FF.Sat, "unknown": st.FF.Unknown, "seconds": st.FF.Time.Seconds()},
		Z3Queries: st.Z3Queries, Z3Seconds: st.Z3Time.Seconds(), Cached: st.Cached, Byte: st.ByteQueries, Timeout: ex.timeout, Seconds: time.Since(t0).Seconds(), Reached: st.Reach}
	return rep, ex
}

func writeEvidence(prop, tier string, seed int64, t0 time.Time, reports []*runReport, viol []map[string]any, notes []string, st *Stats, sTotal, sOK int, samples []any, known []string) {
	var funcs []string
	for f := range st.Funcs {
		funcs = append(funcs, strings.ReplaceAll(f, modPath+"/", ""))
	}
	sort.Strings(funcs)
	var bounds []string
	complete := true
	unsupp := map[string]int{}
	for _, r := range reports {
		var o []string
		for k, v := range r.Bounds {
			o = append(o, k+"="+v)
		}
		sort.Strings(o)
		note := "every path within the bounds explored"
		if r.Timeout {
			note = "time bound reached before all paths were explored"
			complete = false
		}
		if r.Undecided > 0 {
			note += fmt.Sprintf("; %d assertions left undecided by the solvers", r.Undecided)
			complete = false
		}
		if len(r.Unsupp) > 0 {
			complete = false
		}
		for k, v := range r.Unsupp {
			unsupp[k] += v
		}
		bounds = append(bounds, fmt.Sprintf("%s (%s): %s; %s", r.Harness, strings.Join(o, " "), note, fmt.Sprintf("%d paths, %d assertions proved", r.Paths, r.Proved)))
	}
	if samples == nil {
		samples = []any{}
		for _, r := range reports {
			samples = append(samples, fmt.Sprintf("%s: %d paths, %d assertions", r.Harness, r.Paths, r.Asserts))
		}
	}
	cov := map[string]any{
		"states": st.Paths, "transitions": st.Steps, "traces_validated_against_impl": sOK,
		"samples":             samples,
		"traces_compared":     sTotal,
		"functions_encoded":   funcs,
		"bounds":              bounds,
		"queries":             map[string]any{"finite_field": st.FF.Queries, "finite_field_unsat": st.FF.Unsat, "finite_field_sat": st.FF.Sat, "finite_field_unknown": st.FF.Unknown, "z3": st.Z3Queries, "answered_from_cache": st.Cached, "byte_tables": st.ByteQueries},
		"solver_seconds":      map[string]any{"finite_field": st.FF.Time.Seconds(), "z3": st.Z3Time.Seconds()},
		"assertions":          map[string]any{"evaluated": st.Asserts, "proved": st.AssertsProved, "undecided": st.AssertsUnknown},
		"branch_decisions":    st.Branches,
		"paths":               map[string]any{"completed": st.Completed, "infeasible": st.Infeasible, "step_limit": st.Limit, "unsupported": st.Unsupported},
		"unsupported":         unsupp,
		"exhaustive_in_bounds": complete,
		"harnesses":           reports,
		"notes":               notes,
		"known_findings_seen": known,
		"violations_found":    viol,
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov,
		"assumptions": []string{
			"go/ssa (x/tools) translates the source faithfully; the interpreter's instruction semantics are compared with native runs on solver models (traces_validated_against_impl)",
			"math/big, fmt, sha256 (collision free), crypto/rand (any value) and sync are modelled by their documented behaviour",
			"bounds as listed per harness; nothing is claimed beyond them",
		},
		"wall_s": time.Since(t0).Seconds(), "violations": len(viol),
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		panic(err)
	}
	os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), b, 0644)
}
