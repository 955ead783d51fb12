package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

var z3bin = "z3-new"
var ffDebug = false

// harnessRun is one "//symgo:run" directive.
type harnessRun struct {
	prop, tier, pkg, file, fn string
	opts                      map[string]string
}

func (h *harnessRun) num(k string, def int64) int64 {
	if s, ok := h.opts[k]; ok {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			panic(err)
		}
		return n
	}
	return def
}

// scanRuns reads the run directives of all harness files.
func scanRuns() []*harnessRun {
	var res []*harnessRun
	dirs, _ := os.ReadDir(filepath.Join(verifDir, "harness"))
	reDir := regexp.MustCompile(`^//symgo:run (C\d\d) (quick|thorough|both)\s*(.*)$`)
	reFn := regexp.MustCompile(`^func ([HK]C\d\d_\w+)\(\)`)
	for _, d := range dirs {
		if !d.IsDir() {
			continue
		}
		fs, _ := filepath.Glob(filepath.Join(verifDir, "harness", d.Name(), "*.go"))
		sort.Strings(fs)
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			var pend []*harnessRun
			for _, l := range strings.Split(string(b), "\n") {
				if m := reDir.FindStringSubmatch(l); m != nil {
					h := &harnessRun{prop: m[1], tier: m[2], pkg: d.Name(), file: strings.TrimSuffix(filepath.Base(f), ".go"), opts: map[string]string{}}
					for _, o := range strings.Fields(m[3]) {
						kv := strings.SplitN(o, "=", 2)
						if len(kv) == 1 {
							kv = append(kv, "1")
						}
						h.opts[kv[0]] = kv[1]
					}
					pend = append(pend, h)
				} else if m := reFn.FindStringSubmatch(l); m != nil {
					for _, h := range pend {
						h.fn = m[1]
						res = append(res, h)
					}
					pend = nil
				}
			}
		}
	}
	return res
}

type runReport struct {
	Harness    string
	Package    string
	Bounds     map[string]string
	Paths      int
	Completed  int
	Infeasible int
	StepLimit  int
	Unsupp     map[string]int
	Steps      int64
	MaxSteps   int64
	Asserts    int
	Proved     int
	Undecided  int
	Branches   int
	FF         map[string]any
	Z3Queries  int
	Z3Seconds  float64
	Cached     int
	Byte       int
	Timeout    bool
	Seconds    float64
	Reached    map[string]int
	Samples    int
	Matched    int
	Mismatch   []string
	Unconfirmed []string
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	only := flag.String("harness", "", "regexp of harness names")
	verbose := flag.Bool("v", false, "verbose")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verif directory")
	flag.BoolVar(&ffDebug, "ffdebug", false, "")
	flag.BoolVar(&engineStrict, "strict", false, "")
	flag.IntVar(&traceLevel, "trace", 0, "")
	workers := flag.Int("j", runtime.NumCPU(), "workers")
	noReplay := flag.Bool("noreplay", false, "")
	budget := flag.Int("budget", 0, "seconds in total")
	flag.Parse()
	repoDir, verifDir = *repo, *verif
	if s := os.Getenv("VERIF_REPO"); s != "" {
		repoDir = s
	}
	t0 := time.Now()
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = n
		}
	}
	rand.Seed(seed)
	var runs []*harnessRun
	all := scanRuns()
	has := map[string]bool{}
	for _, h := range all {
		if h.prop == *prop && h.tier == "thorough" {
			has[h.fn] = true
		}
	}
	for _, h := range all {
		if h.prop != *prop {
			continue
		}
		ok := h.tier == *tier || h.tier == "both" || *tier == "thorough" && h.tier == "quick" && !has[h.fn]
		if *only != "" && !regexp.MustCompile(*only).MatchString(h.fn) {
			ok = false
		}
		if ok {
			runs = append(runs, h)
		}
	}
	if len(runs) == 0 {
		fmt.Println("no harness for", *prop, *tier)
		os.Exit(2)
	}
	total := *budget
	if total == 0 {
		total = 780
	}
	hardEnd := t0.Add(time.Duration(total) * time.Second)

	// group by package and set of harness files
	type group struct {
		pkg   string
		files map[string]bool
		runs  []*harnessRun
	}
	groups := map[string]*group{}
	var order []string
	for _, h := range runs {
		k := h.pkg + "/" + h.opts["group"]
		g := groups[k]
		if g == nil {
			g = &group{pkg: h.pkg, files: map[string]bool{}}
			groups[k] = g
			order = append(order, k)
		}
		g.files[h.file] = true
		for _, x := range strings.Split(h.opts["with"], ",") {
			if x != "" {
				g.files[x] = true
			}
		}
		g.runs = append(g.runs, h)
	}
	known := loadKnown()
	var reports []*runReport
	var violations []map[string]any
	var knownLines []string
	var notes []string
	var total2 Stats
	exit := 0
	samplesTotal, samplesOK := 0, 0
	var sampleStrings []any
	nrep := 0
	for _, k := range order {
		g := groups[k]
		// shared helper files
		if fs, _ := filepath.Glob(filepath.Join(verifDir, "harness", g.pkg, "lib*.go")); true {
			for _, f := range fs {
				g.files[strings.TrimSuffix(filepath.Base(f), ".go")] = true
			}
		}
		P, err := load([]string{g.pkg}, g.files)
		if err != nil {
			fmt.Println("symgo: cannot load:", err)
			notes = append(notes, "cannot load "+g.pkg+": "+err.Error())
			continue
		}
		for _, d := range P.dropped {
			notes = append(notes, "harness file does not compile against the current tree: "+d)
			fmt.Println("symgo: dropped", d)
		}
		rp, err := newReplayer(g.pkg, g.files)
		if err != nil {
			panic(err)
		}
		defer rp.close()
		for gi, h := range g.runs {
			fn := P.pkgs[g.pkg].Func(h.fn)
			if fn == nil {
				notes = append(notes, "harness "+h.fn+" not available")
				continue
			}
			rep, ex := runHarness(P, fn, h, seed, *workers, hardEnd)
			_ = gi
			total2.add(&ex.total)
			// samples
			var cases []replayCase
			var want [][]string
			for _, s := range ex.total.Samples {
				cases = append(cases, replayCase{h.fn, s.Inputs, ex.params})
				want = append(want, s.Obs)
			}
			if len(cases) > 0 && !*noReplay {
				res, err := rp.run(cases, false, 120*time.Second)
				if err != nil {
					notes = append(notes, "native build failed: "+err.Error())
					fmt.Println("symgo:", err)
				} else {
					for i := range cases {
						samplesTotal++
						rep.Samples++
						if res.status[i] == "ok" && strings.Join(res.obs[i], "\n") == strings.Join(want[i], "\n") {
							samplesOK++
							rep.Matched++
							if len(sampleStrings) < 12 {
								sampleStrings = append(sampleStrings, map[string]any{"harness": h.fn, "inputs": shortInputs(cases[i].Inputs), "observed": shortStrs(want[i])})
							}
						} else {
							if res.status[i] == "failed" || res.status[i] == "panic" {
								// the real code fails on inputs the engine found harmless
								ex.viols = append(ex.viols, &Violation{Kind: "validation", Harness: h.fn, Msg: "native run of a solver model fails: " + res.status[i], Inputs: cases[i].Inputs})
							}
							rep.Mismatch = append(rep.Mismatch, fmt.Sprintf("inputs %v: predicted %v, native %v (%s)", cases[i].Inputs, want[i], res.obs[i], res.status[i]))
							if *verbose {
								fmt.Println("  MISMATCH", rep.Mismatch[len(rep.Mismatch)-1])
							}
						}
					}
				}
			}
			// violations
			isKnown := strings.HasPrefix(h.fn, "K")
			done := map[string]bool{}
			for _, v := range ex.viols {
				key := v.Kind + "|" + v.Msg
				if done[key] {
					continue
				}
				conf, how := false, "replay disabled"
				if !*noReplay {
					conf, how = rp.confirm(v, ex.params, int(h.num("repeats", 3)))
				}
				v.Replay = how
				if *verbose {
					fmt.Printf("  candidate %s %s: %s | %s | inputs %v | %s\n", v.Kind, v.Harness, v.Msg, v.Where, shortInputs(v.Inputs), how)
				}
				if !conf {
					rep.Unconfirmed = append(rep.Unconfirmed, v.Kind+": "+v.Msg+" ("+how+")")
					continue
				}
				done[key] = true
				if isKnown {
					if d, ok := known[*prop+" "+h.fn]; ok {
						line := fmt.Sprintf("KNOWN-FINDING: property=%s %s", *prop, d)
						dup := false
						for _, l := range knownLines {
							if l == line {
								dup = true
							}
						}
						if !dup {
							knownLines = append(knownLines, line)
							fmt.Println(line)
						}
						continue
					}
				}
				nrep++
				path := filepath.Join(verifDir, "evidence", fmt.Sprintf("replay_%s_%d.json", *prop, nrep))
				os.MkdirAll(filepath.Dir(path), 0755)
				b, _ := json.MarshalIndent(map[string]any{"property": *prop, "harness": v.Harness, "package": g.pkg, "kind": v.Kind, "message": v.Msg, "where": v.Where, "inputs": v.Inputs, "params": ex.params, "native": how}, "", " ")
				os.WriteFile(path, b, 0644)
				fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
				fmt.Printf("  %s: %s [%s] native: %s\n", v.Harness, v.Msg, v.Kind, how)
				violations = append(violations, map[string]any{"replay": path, "harness": v.Harness, "message": v.Msg, "native": how})
				exit = 1
			}
			reports = append(reports, rep)
			fmt.Printf("%-28s paths %d (%d done, %d infeasible, %d step-limit, %d unsupported) asserts %d/%d ff %d z3 %d %.1fs%s\n", h.fn, rep.Paths, rep.Completed, rep.Infeasible, rep.StepLimit, sumMap(rep.Unsupp), rep.Proved, rep.Asserts, ex.total.FF.Queries, rep.Z3Queries, rep.Seconds, map[bool]string{true: " (time bound reached)"}[rep.Timeout])
			if *verbose {
				for m, n := range rep.Unsupp {
					fmt.Println("   unsupported:", n, m)
				}
				fmt.Printf("   maxsteps %d reach %v samples %d/%d undecided %d\n", rep.MaxSteps, rep.Reached, rep.Matched, rep.Samples, rep.Undecided)
			}
		}
		rp.close()
	}
	writeEvidence(*prop, *tier, seed, t0, reports, violations, notes, &total2, samplesTotal, samplesOK, sampleStrings, knownLines)
	if exit == 0 {
		fmt.Printf("OK property=%s tier=%s: no violation on %d paths, %d assertions proved, %.1fs\n", *prop, *tier, total2.Paths, total2.AssertsProved, time.Since(t0).Seconds())
	}
	os.Exit(exit)
}

var traceLevel int

func sumMap(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func shortInputs(in []map[string]string) map[string]string {
	r := map[string]string{}
	for _, i := range in {
		v := i["value"]
		if len(v) > 24 {
			v = v[:10] + ".." + v[len(v)-10:]
		}
		r[i["name"]] = v
	}
	return r
}

func shortStrs(s []string) []string {
	var r []string
	for _, v := range s {
		if len(v) > 120 {
			v = v[:100] + ".." + v[len(v)-16:]
		}
		r = append(r, v)
	}
	return r
}

func loadKnown() map[string]string {
	r := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return r
	}
	re := regexp.MustCompile(`^known: property=(C\d\d) harness=(\w+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil {
			r[m[1]+" "+m[2]] = m[3]
		}
	}
	return r
}
