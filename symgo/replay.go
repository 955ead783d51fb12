package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Replayer builds the package with the harness natively (the real code, the
// real Go compiler) and runs harnesses on concrete inputs.
type Replayer struct {
	dir  string
	pkg  string
	only map[string]bool
	mu   sync.Mutex
	bins map[bool]string
	errs map[bool]error
}

func newReplayer(pkg string, only map[string]bool) (*Replayer, error) {
	d, err := os.MkdirTemp("", "symgo-replay-")
	if err != nil {
		return nil, err
	}
	return &Replayer{dir: d, pkg: pkg, only: only, bins: map[bool]string{}, errs: map[bool]error{}}, nil
}

func (r *Replayer) close() { os.RemoveAll(r.dir) }

func (r *Replayer) bin(race bool) (string, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if b, ok := r.bins[race]; ok {
		return b, r.errs[race]
	}
	b, err := r.build(race)
	r.bins[race], r.errs[race] = b, err
	return b, err
}

func (r *Replayer) build(race bool) (string, error) {
	files := modOverlay()
	hf, _ := harnessFiles(r.pkg, r.only)
	re := regexp.MustCompile(`(?m)^func ([HK]C\d\d_\w+)\(\)`)
	var reg []string
	for k, v := range hf {
		files[k] = v
		for _, m := range re.FindAllStringSubmatch(string(v), -1) {
			reg = append(reg, fmt.Sprintf("\t%q: %s,", m[1], m[1]))
		}
	}
	run, err := os.ReadFile(filepath.Join(verifDir, "harness", "run.go.txt"))
	if err != nil {
		return "", err
	}
	s := strings.Replace(string(run), "package PKG", "package "+pkgName(r.pkg), 1)
	s = strings.Replace(s, "REGISTRY", strings.Join(reg, "\n"), 1)
	files[filepath.Join(repoDir, r.pkg, "zz_symgo_run_test.go")] = []byte(s)
	sub := filepath.Join(r.dir, fmt.Sprintf("b%v", race))
	os.MkdirAll(sub, 0755)
	ov, err := overlayJSON(sub, files)
	if err != nil {
		return "", err
	}
	// hide the repository's own tests
	b, _ := os.ReadFile(ov)
	var o struct{ Replace map[string]string }
	json.Unmarshal(b, &o)
	ts, _ := filepath.Glob(filepath.Join(repoDir, r.pkg, "*_test.go"))
	for _, t := range ts {
		o.Replace[t] = ""
	}
	b, _ = json.Marshal(o)
	os.WriteFile(ov, b, 0644)
	bin := filepath.Join(sub, "replay.test")
	args := []string{"test", "-vet=off", "-overlay", ov, "-c", "-o", bin}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./"+r.pkg)
	cmd := exec.Command(filepath.Join(goRootBin, "go"), args...)
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v\n%s", err, out)
	}
	return bin, nil
}

type replayCase struct {
	Harness string
	Inputs  []map[string]string
	Params  map[string]int64
}

type replayResult struct {
	status []string // per case
	obs    [][]string
	out    string
	hang   bool
	crash  bool
	race   bool
}

type limWriter struct{ b bytes.Buffer }

func (l *limWriter) Write(p []byte) (int, error) {
	if l.b.Len() < 8<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

func (r *Replayer) run(cases []replayCase, race bool, timeout time.Duration) (*replayResult, error) {
	bin, err := r.bin(race)
	if err != nil {
		return nil, err
	}
	f, err := os.CreateTemp(r.dir, "in*.json")
	if err != nil {
		return nil, err
	}
	b, _ := json.Marshal(cases)
	f.Write(b)
	f.Close()
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	sh := "exec "
	if !race {
		sh = "ulimit -v 12000000; exec "
	}
	cmd := exec.CommandContext(ctx, "/bin/bash", "-c", sh+bin+" -test.run '^TestSymgoReplay$' -test.timeout 0")
	cmd.Dir = r.dir
	cmd.Env = append(goEnv(), "SYMGO_IN="+f.Name(), "GORACE=halt_on_error=0", "GOTRACEBACK=single")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	var lw limWriter
	cmd.Stderr = &lw
	cmd.WaitDelay = 2 * time.Second
	err = cmd.Run()
	res := &replayResult{status: make([]string, len(cases)), obs: make([][]string, len(cases)), out: lw.b.String()}
	if ctx.Err() != nil {
		res.hang = true
	} else if err != nil {
		res.crash = true
	}
	for _, l := range strings.Split(res.out, "\n") {
		switch {
		case strings.HasPrefix(l, "SYMGO-DONE "):
			p := strings.Fields(l)
			if i, _ := strconv.Atoi(p[1]); i < len(cases) {
				res.status[i] = p[2]
			}
		case strings.HasPrefix(l, "SYMGO-OBS "):
			p := strings.SplitN(l, " ", 3)
			if i, _ := strconv.Atoi(p[1]); i < len(cases) {
				if s, err := strconv.Unquote(p[2]); err == nil {
					res.obs[i] = append(res.obs[i], s)
				}
			}
		case strings.Contains(l, "WARNING: DATA RACE"):
			res.race = true
		}
	}
	return res, nil
}

// confirm replays a candidate; it is confirmed when the real code fails in any
// of the ways the harness checks.
func (r *Replayer) confirm(v *Violation, params map[string]int64, repeats int) (bool, string) {
	c := []replayCase{{v.Harness, v.Inputs, params}}
	race := v.Kind == "race"
	for i := 0; i < repeats; i++ {
		to := 20 * time.Second
		res, err := r.run(c, race, to)
		if err != nil {
			return false, err.Error()
		}
		switch {
		case race && res.race:
			return true, "the race detector reports a data race"
		case res.hang:
			return true, "the real code does not terminate within " + to.String()
		case res.status[0] == "failed":
			return true, "failed: " + firstMatch(res.out, "SYMGO-FAILED ")
		case res.status[0] == "panic":
			return true, "panic: " + firstMatch(res.out, "SYMGO-PANIC ")
		case res.crash && res.status[0] == "":
			return true, "crash: " + crashLine(res.out)
		}
	}
	return false, "not reproduced natively"
}

func firstMatch(s, p string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, p) {
			return strings.TrimPrefix(l, p)
		}
	}
	return ""
}

func crashLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime:") {
			return l
		}
	}
	if len(s) > 200 {
		s = s[len(s)-200:]
	}
	return s
}
