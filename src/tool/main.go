package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

var (
	verif  = envOr("VERIF_DIR", "/verif")
	repo   = envOr("VERIF_REPO", "/repo")
	goroot = envOr("VERIF_GOROOT", "/opt/veriftools/go1.23.12")
	build  = filepath.Join(verif, ".build")
	tier   = envOr("VERIF_TIER", "quick")
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "CHECK-ERROR: "+format+"\n", a...)
	os.Exit(3)
}

func main() {
	if len(os.Args) < 2 {
		die("usage: vt build | check ID | replay FILE | selftest [ID...] | run ID ARGS")
	}
	if err := os.MkdirAll(build, 0755); err != nil {
		die("%v", err)
	}
	switch os.Args[1] {
	case "build":
		for _, variant = range []string{"", "device", "blas"} {
			buildHarness(false)
			buildHarness(true)
		}
	case "check":
		os.Exit(check(os.Args[2]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "selftest":
		os.Exit(selftest(os.Args[2:]))
	default:
		die("unknown command %q", os.Args[1])
	}
}

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOOS", "GOARCH", "GOROOT", "GOWORK", "GOEXPERIMENT", "GODEBUG", "GOCACHE", "GOMAXPROCS", "GOGC", "PATH", "HOME":
			continue
		}
		env = append(env, e)
	}
	return append(env,
		"HOME="+envOr("HOME", "/root"),
		"PATH="+goroot+"/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=", "GOWORK=off",
		"GOCACHE="+filepath.Join(build, "gocache"),
		"GOMODCACHE="+envOr("GOMODCACHE", "/root/go/pkg/mod"),
		"CGO_ENABLED=1", "CGO_LDFLAGS=-lopenblas")
}

// variant names the simulation binary: "" is the default build of the
// repository, "device" adds the CUDA engine on an imitated device, "blas" the
// batching BLAS and the C library it calls.
var variant string

func variantOf(prop string) string {
	switch prop {
	case "C21", "C22":
		return "device"
	case "C26":
		return "blas"
	}
	return ""
}

// buildHarness builds the simulation binary from the repository's working tree.
func buildHarness(race bool) string {
	lockf, err := os.OpenFile(filepath.Join(build, "lock"), os.O_CREATE|os.O_RDWR, 0644)
	if err != nil {
		die("%v", err)
	}
	defer lockf.Close()
	if err := syscall.Flock(int(lockf.Fd()), syscall.LOCK_EX); err != nil {
		die("%v", err)
	}
	repl, err := patchRuntime(goroot, filepath.Join(verif, "src/rt/zz_sim.go"), filepath.Join(build, "rt"))
	if err != nil {
		die("%v", err)
	}
	inst, _, err := instrumentRepo(repo, filepath.Join(build, "inst"))
	if err != nil {
		die("instrumenting %s: %v", repo, err)
	}
	for k, v := range inst {
		repl[k] = v
	}
	dirs := [][2]string{{"sim", "sim"}, {"harness", "harness"}}
	name := "harness"
	if variant == "device" {
		name = "harness-device"
		dirs = append(dirs, [2]string{"harness_dev", "harness"}, [2]string{"stub/cu", "cu"}, [2]string{"stub/cu/blas", "cu/blas"}, [2]string{"stub/cu/dnn", "cu/dnn"})
	}
	if variant == "blas" {
		name = "harness-blas"
		dirs = append(dirs, [2]string{"harness_blas", "harness"})
	}
	for _, d := range dirs {
		ents, err := os.ReadDir(filepath.Join(verif, "src", d[0]))
		if err != nil {
			die("%v", err)
		}
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), ".s") {
				repl[filepath.Join(repo, "zzverif", d[1], e.Name())] = filepath.Join(verif, "src", d[0], e.Name())
			}
		}
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": repl}, "", " ")
	if race {
		name += "-race"
	}
	ov := filepath.Join(build, name+"-overlay.json")
	if err := writeIfChanged(ov, b); err != nil {
		die("%v", err)
	}
	tmp := filepath.Join(build, fmt.Sprintf("%s.%d", name, os.Getpid()))
	args := []string{"build", "-overlay", ov, "-ldflags=-checklinkname=0", "-o", tmp}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "gorgonia.org/gorgonia/zzverif/harness")
	cmd := exec.Command(filepath.Join(goroot, "bin/go"), args...)
	cmd.Dir = repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		os.Remove(tmp)
		die("building the simulation binary: %v\n%s", err, out)
	}
	bin := filepath.Join(build, name)
	if err := os.Rename(tmp, bin); err != nil {
		die("%v", err)
	}
	// Private copy (hard link): a concurrent check may rebuild.
	priv := filepath.Join(runDir(), name)
	os.Remove(priv)
	if err := os.Link(bin, priv); err != nil {
		die("%v", err)
	}
	return priv
}

var theRunDir string

func runDir() string {
	if theRunDir == "" {
		theRunDir = filepath.Join(build, fmt.Sprintf("run%d", os.Getpid()))
		if err := os.MkdirAll(theRunDir, 0755); err != nil {
			die("%v", err)
		}
	}
	return theRunDir
}

func cleanRunDir() {
	if theRunDir != "" {
		os.RemoveAll(theRunDir)
	}
}

// ---- executing the harness ----

type agg struct {
	Runs, NonTrivial             int
	Picks, Switches, Yields      uint64
	Preempts, Gs, SimTime        uint64
	TimersFwd, PoolGets          uint64
	PoolReuse, MapIters          uint64
	MapPerms, Selects, ClockJump uint64
	MaxRun                       uint64
	Nonzero                      map[string]uint64
	Counts                       map[string]uint64
	Counters                     map[string]int
	SchedHashes                  []string
	Known                        map[string]int
	Hashes, MainHashes           []string
	Violations                   []vrec
	Samples                      []string
}

type vrec struct {
	Sub    int
	Seed   string
	Kind   string
	Detail string
	Script []string
	Hash   string
	Trace  []string
}

type job struct {
	prop   string
	seed   uint64
	n      int
	only   int
	script []string
	hasScr bool
	race   bool
	cold   bool
	trace  bool
	tier   string
}

type result struct {
	agg   *agg
	crash *vrec  // process died in the code under test
	err   string // trouble with the check itself
	wall  time.Duration
}

var bins = map[bool]string{}
var jobCounter int
var jobMu sync.Mutex

func runJob(j job) (res result) {
	jobMu.Lock()
	jobCounter++
	id := jobCounter
	jobMu.Unlock()
	t0 := time.Now()
	defer func() { res.wall = time.Since(t0) }()
	base := filepath.Join(runDir(), fmt.Sprintf("j%d", id))
	shm, out, racelog := base+".shm", base+".out", base+".race"
	cwd := base + ".cwd"
	os.MkdirAll(cwd, 0755)
	defer func() {
		os.Remove(shm)
		os.Remove(out)
		os.RemoveAll(cwd)
		if m, _ := filepath.Glob(racelog + ".*"); m != nil {
			for _, f := range m {
				os.Remove(f)
			}
		}
	}()
	args := []string{"-prop", j.prop, "-seed", strconv.FormatUint(j.seed, 10), "-n", strconv.Itoa(j.n), "-shm", shm, "-out", out, "-tier", j.tier}
	if j.only >= 0 {
		args = append(args, "-only", strconv.Itoa(j.only))
	}
	if j.cold {
		args = append(args, "-cold")
	}
	if j.trace {
		args = append(args, "-trace")
	}
	if j.hasScr {
		sf := base + ".script"
		if err := os.WriteFile(sf, []byte(strings.Join(j.script, "\n")), 0644); err != nil {
			return result{err: err.Error()}
		}
		defer os.Remove(sf)
		args = append(args, "-script", sf)
	}
	cmd := exec.Command(bins[j.race], args...)
	cmd.Dir = cwd
	cmd.Env = []string{"GOMAXPROCS=1", "GOGC=off", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=all",
		"ASSUME_NO_MOVING_GC_UNSAFE_RISK_IT_WITH=go1.23", "OPENBLAS_NUM_THREADS=1",
		"GORACE=atexit_sleep_ms=0 halt_on_error=0 exitcode=0 history_size=3 log_path=" + racelog}
	var stderr bytes.Buffer
	cmd.Stdout = &stderr
	cmd.Stderr = &stderr
	if err := cmd.Start(); err != nil {
		return result{err: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var werr error
	limit := 240 * time.Second
	select {
	case werr = <-done:
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
		return result{err: fmt.Sprintf("watchdog: %v did not finish in %v", args, limit)}
	}
	raceText := ""
	if m, _ := filepath.Glob(racelog + ".*"); len(m) > 0 {
		for _, f := range m {
			b, _ := os.ReadFile(f)
			raceText += string(b)
		}
	}
	if werr == nil {
		b, err := os.ReadFile(out)
		if err != nil {
			return result{err: err.Error() + "\n" + tail(stderr.String(), 2000)}
		}
		a := new(agg)
		if err := json.Unmarshal(b, a); err != nil {
			return result{err: err.Error()}
		}
		for i := range a.Violations {
			if a.Violations[i].Kind == "data-race" {
				a.Violations[i].Detail += "\n" + head(raceText, 6000)
				a.Violations[i].Kind = "data-race"
			}
		}
		return result{agg: a}
	}
	msg := stderr.String()
	if strings.Contains(msg, "HARNESS-ERROR") {
		return result{err: tail(msg, 3000)}
	}
	ee, ok := werr.(*exec.ExitError)
	if !ok {
		return result{err: werr.Error()}
	}
	ws := ee.Sys().(syscall.WaitStatus)
	if ws.Signaled() && ws.Signal() == syscall.SIGKILL {
		return result{err: "harness process was killed (out of memory?)"}
	}
	if strings.Contains(msg, "out of memory") || strings.Contains(msg, "cannot allocate memory") {
		return result{err: tail(msg, 2000)}
	}
	if !strings.Contains(msg, "panic:") && !strings.Contains(msg, "fatal error:") && !strings.Contains(msg, "SIG") {
		return result{err: fmt.Sprintf("harness exited with %v\n%s", werr, tail(msg, 3000))}
	}
	if strings.Contains(msg, "panic: harness:") {
		return result{err: tail(msg, 3000)}
	}
	sub, script := readShm(shm)
	line := ""
	for _, l := range strings.Split(msg, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "SIG") {
			line = l
			break
		}
	}
	return result{crash: &vrec{Sub: sub, Seed: strconv.FormatUint(j.seed, 10), Kind: "crash", Detail: line + "\n" + head(msg, 6000), Script: script}}
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "\n..."
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return "...\n" + s[len(s)-n:]
	}
	return s
}

// readShm recovers the run number and the choice log of a crashed process.
func readShm(path string) (int, []string) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 8192 {
		return -1, nil
	}
	u := func(off int) uint64 {
		var v uint64
		for i := 7; i >= 0; i-- {
			v = v<<8 | uint64(b[off+i])
		}
		return v
	}
	sub := int(u(0))
	if u(8) != 2 {
		return sub, nil
	}
	n := int(u(4096 + 9*8)) // Stats.LogLen
	var out []string
	for i := 0; i < n && 8192+i*8+8 <= len(b); i++ {
		e := u(8192 + i*8)
		out = append(out, fmt.Sprintf("%d:%d:%d", e>>56, e>>20&(1<<36-1), e&(1<<20-1)))
	}
	return sub, out
}

// outcome classifies a single-run result.
func outcome(r result) (kind string, v *vrec) {
	if r.err != "" {
		return "check-error", nil
	}
	if r.crash != nil {
		return "crash", r.crash
	}
	if len(r.agg.Violations) > 0 {
		return r.agg.Violations[0].Kind, &r.agg.Violations[0]
	}
	return "", nil
}

func mix64(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func verifSeed() int64 {
	s, err := strconv.ParseInt(envOr("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		die("bad VERIF_SEED: %v", err)
	}
	return s
}

func jobSeed(seed int64, prop string, i int) uint64 {
	h := uint64(seed)*0x9e3779b97f4a7c15 + 12345
	for _, c := range prop {
		h = mix64(h ^ uint64(c))
	}
	return mix64(h+uint64(i)*0xd1342543de82ef95) >> 1
}

type propInfo struct {
	ID, Doc, Rule string
	Race, Cold    bool
	Real, Stubs   []string
	N             int
	Weight        int
}

func loadInfo() map[string]propInfo {
	cmd := exec.Command(bins[false], "-info")
	cmd.Env = []string{"GOMAXPROCS=1", "ASSUME_NO_MOVING_GC_UNSAFE_RISK_IT_WITH=go1.23"}
	b, err := cmd.Output()
	if err != nil {
		die("-info: %v", err)
	}
	var l []propInfo
	if err := json.Unmarshal(b, &l); err != nil {
		die("-info: %v", err)
	}
	m := map[string]propInfo{}
	for _, p := range l {
		m[p.ID] = p
	}
	return m
}

func workers() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	return n
}

type budgets struct {
	wall    time.Duration
	maxJobs int
}

func check(prop string) int {
	t0 := time.Now()
	defer cleanRunDir()
	// The evidence of this run must not be confused with an older one.
	evFile := filepath.Join(verif, "evidence", prop+".json")
	os.Remove(evFile)

	variant = variantOf(prop)
	bins[false] = buildHarness(false)
	info, ok := loadInfo()[prop]
	if !ok {
		die("no scenario for property %s", prop)
	}
	if info.Race {
		bins[true] = buildHarness(true)
	}
	buildWall := time.Since(t0)
	seed := verifSeed()
	bud := budgets{wall: 45 * time.Second, maxJobs: 100000}
	if tier == "thorough" {
		bud.wall = 480 * time.Second
	}
	if s := os.Getenv("VERIF_WALL"); s != "" {
		d, err := time.ParseDuration(s)
		if err != nil {
			die("%v", err)
		}
		bud.wall = d
	}
	perJob := info.N
	if perJob == 0 {
		perJob = 20
	}
	deadline := time.Now().Add(bud.wall)

	type done struct {
		i int
		j job
		r result
	}
	var (
		mu       sync.Mutex
		next     int
		results  []done
		stop     bool
		wg       sync.WaitGroup
		rechecks int
		mismatch int
	)
	mk := func(i int) job {
		j := job{prop: prop, seed: jobSeed(seed, prop, i), n: perJob, only: -1, tier: tier}
		switch {
		case info.Cold && i%12 != 0 && i%12 != 6:
			// one run in a process where nothing has been used before
			j.cold = true
			j.n = 1
			j.race = info.Race && i%2 == 1
		case info.Cold && info.Race && i%12 == 6, !info.Cold && info.Race && i%3 == 2:
			j.race = true
			j.n = (perJob + 2) / 3
		}
		return j
	}
	explore := time.Now()
	for w := 0; w < workers(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || next >= bud.maxJobs || (time.Now().After(deadline) && next >= workers()) {
					mu.Unlock()
					return
				}
				i := next
				next++
				mu.Unlock()
				j := mk(i)
				r := runJob(j)
				var miss, re bool
				if r.agg != nil && len(r.agg.Violations) == 0 && i%25 == 3 {
					// determinism: the same process again must give the same hashes
					re = true
					r2 := runJob(j)
					if r2.agg == nil || strings.Join(r2.agg.Hashes, ",") != strings.Join(r.agg.Hashes, ",") {
						miss = true
						fmt.Fprintf(os.Stderr, "not identical: %s\n", describeMismatch(j, r, r2))
					}
				}
				mu.Lock()
				if re {
					rechecks++
				}
				if miss {
					mismatch++
				}
				results = append(results, done{i, j, r})
				if k, _ := outcome(r); k != "" {
					stop = true
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	exploreWall := time.Since(explore)
	sort.Slice(results, func(a, b int) bool { return results[a].i < results[b].i })

	total := &agg{Nonzero: map[string]uint64{}, Counts: map[string]uint64{}, Counters: map[string]int{}, Known: map[string]int{}}
	sched := map[string]bool{}
	var hashes []string
	raceRuns := 0
	for _, d := range results {
		a := d.r.agg
		if a == nil {
			continue
		}
		mergeAgg(total, a)
		for _, h := range a.SchedHashes {
			sched[h] = true
		}
		hashes = append(hashes, a.Hashes...)
		if d.j.race {
			raceRuns += a.Runs
		}
		if d.j.cold {
			total.Counters["runs in a fresh process"] += a.Runs
		}
		if len(total.Samples) < 6 {
			for _, s := range a.Samples {
				total.Samples = append(total.Samples, fmt.Sprintf("process seed %d %s", d.j.seed, s))
			}
		}
	}
	var viol *done
	var verr string
	for k := range results {
		kind, _ := outcome(results[k].r)
		if kind == "check-error" {
			verr = results[k].r.err
		} else if kind != "" && viol == nil {
			viol = &results[k]
		}
	}
	exit := 0
	nviol := 0
	var rfile string
	if viol != nil {
		f, ok := reportViolation(prop, viol.j, viol.r)
		if ok {
			rfile = f
			nviol = 1
			exit = 1
		} else {
			fmt.Fprintf(os.Stderr, "CHECK-ERROR: a violation was seen but did not reproduce: %s\n", f)
			exit = 3
		}
	} else if verr != "" {
		fmt.Fprintf(os.Stderr, "CHECK-ERROR: %s\n", verr)
		exit = 3
	}
	if mismatch > 0 {
		fmt.Printf("WARNING: %d of %d re-executed processes were not identical\n", mismatch, rechecks)
	}
	writeEvidence(evFile, prop, info, seed, total, len(sched), rechecks, mismatch, raceRuns, exploreWall, buildWall, time.Since(t0), nviol)
	for _, k := range knownFindings(prop) {
		if total.Known[k.ID] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
		}
	}
	if exit == 0 {
		for id, n := range total.Known {
			found := false
			for _, k := range knownFindings(prop) {
				found = found || k.ID == id
			}
			if !found {
				fmt.Fprintf(os.Stderr, "CHECK-ERROR: scenario met %q (%d times), which is not in the known-findings file\n", id, n)
				exit = 3
			}
		}
	}
	fmt.Printf("%s: %d runs (%d non-trivial, %d distinct interleavings, %d with race detection) in %.0fs; exit %d\n", prop, total.Runs, total.NonTrivial, len(sched), raceRuns, time.Since(t0).Seconds(), exit)
	if exit == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rfile)
	}
	return exit
}

func describeMismatch(j job, a, b result) string {
	s := fmt.Sprintf("seed %d n %d race %v", j.seed, j.n, j.race)
	if b.agg == nil {
		k, _ := outcome(b)
		return s + ": second execution ended with " + k + " " + b.err
	}
	for i := range a.agg.Hashes {
		if i >= len(b.agg.Hashes) || a.agg.Hashes[i] != b.agg.Hashes[i] {
			return fmt.Sprintf("%s: first difference in run %d (%d and %d runs)", s, i, len(a.agg.Hashes), len(b.agg.Hashes))
		}
	}
	return fmt.Sprintf("%s: %d and %d runs", s, len(a.agg.Hashes), len(b.agg.Hashes))
}

func mergeAgg(t, a *agg) {
	t.Runs += a.Runs
	t.NonTrivial += a.NonTrivial
	t.Picks += a.Picks
	t.Switches += a.Switches
	t.Yields += a.Yields
	t.Preempts += a.Preempts
	t.Gs += a.Gs
	t.SimTime += a.SimTime
	t.TimersFwd += a.TimersFwd
	t.PoolGets += a.PoolGets
	t.PoolReuse += a.PoolReuse
	t.MapIters += a.MapIters
	t.MapPerms += a.MapPerms
	t.Selects += a.Selects
	t.ClockJump += a.ClockJump
	if a.MaxRun > t.MaxRun {
		t.MaxRun = a.MaxRun
	}
	for k, v := range a.Nonzero {
		t.Nonzero[k] += v
	}
	for k, v := range a.Counts {
		t.Counts[k] += v
	}
	for k, v := range a.Counters {
		t.Counters[k] += v
	}
	for k, v := range a.Known {
		t.Known[k] += v
	}
}

type known struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

// knownFindings reads known_findings.jsonl. Lines that start with "fixed:" are
// records of repaired defects and suppress nothing.
func knownFindings(prop string) []known {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		var k known
		if err := json.Unmarshal([]byte(l), &k); err != nil {
			die("known_findings.txt: %v", err)
		}
		if k.Property == prop {
			out = append(out, k)
		}
	}
	return out
}

func writeEvidence(file, prop string, info propInfo, seed int64, t *agg, distinct, rechecks, mismatch, raceRuns int, explore, buildWall, wall time.Duration, nviol int) {
	faults := map[string]uint64{}
	for k, v := range t.Nonzero {
		if v > 0 {
			faults[k] = v
		}
	}
	hours := explore.Hours()
	cov := map[string]interface{}{
		"evaluations":             t.Runs,
		"distinct_nontrivial":     distinct,
		"rule":                    info.Rule + " Distinctness is counted over hashes of (scenario seed, sequence of goroutine switches with their yield-point positions) of non-trivial runs.",
		"samples":                 t.Samples,
		"nontrivial_runs":         t.NonTrivial,
		"runs_with_race_detector": raceRuns,
		"simulated_runs_per_hour": int(float64(t.Runs) / hours),
		"simulated_time_s":        float64(t.SimTime) / 1e9,
		"scheduling_decisions":    t.Picks,
		"context_switches":        t.Switches,
		"forced_preemptions":      t.Preempts,
		"yield_points_passed":     t.Yields,
		"goroutines":              t.Gs,
		"max_runnable":            t.MaxRun,
		"select_statements":       t.Selects,
		"timers_advanced":         t.TimersFwd,
		"clock_faults":            t.ClockJump,
		"map_iterations":          t.MapIters,
		"map_iterations_permuted": t.MapPerms,
		"pool_gets":               t.PoolGets,
		"pool_gets_recycled":      t.PoolReuse,
		"non_default_choices":     faults,
		"scenario_counters":       t.Counters,
		"determinism_reruns":      rechecks,
		"determinism_mismatches":  mismatch,
		"real_components":         info.Real,
		"stubbed_components":      info.Stubs,
		"build_wall_s":            buildWall.Seconds(),
	}
	if t.Samples == nil {
		cov["samples"] = []string{}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"Interleavings are explored at statement granularity of the repository's own code and at channel, select and goroutine-start granularity of its dependencies; sub-statement tearing and weak memory order are only covered by the happens-before race detector where the property uses it.",
			"The garbage collector is off during a simulated run; finalizers therefore do not run.",
			"The Go runtime is go1.23.12 with the scheduler, clock, map order, select order and sync.Pool replaced by seeded choices; CUDA builds are out of reach, except that C21 and C22 run the CUDA engine on an imitated device.",
			"The search is a seeded sample, not an enumeration.",
		},
		"wall_s": wall.Seconds(), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(file), 0755)
	if err := os.WriteFile(file, append(b, '\n'), 0644); err != nil {
		die("%v", err)
	}
}
