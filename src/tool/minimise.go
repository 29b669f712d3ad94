package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

var kindNames = []string{"sched", "preempt", "select", "maporder", "poolpick", "timer", "clock", "fault", "when", "io", "device", "stall", "grad"}

// replayFile is what a violation leaves behind.
type replayFile struct {
	Property   string   `json:"property"`
	Kind       string   `json:"kind"`
	Detail     string   `json:"detail"`
	Seed       uint64   `json:"process_seed"`
	Run        int      `json:"run"`
	Prefix     bool     `json:"needs_preceding_runs"`
	Race       bool     `json:"race_detector"`
	Cold       bool     `json:"fresh_process"`
	Tier       string   `json:"tier"`
	Scripted   bool     `json:"scripted"`
	Script     []string `json:"script"`
	ScriptText []string `json:"script_text"`
	Original   int      `json:"original_choices"`
	Executions int      `json:"minimiser_executions"`
	Trace      []string `json:"trace"`
	Hash       string   `json:"execution_hash"`
	Command    string   `json:"command"`
}

func describe(script []string) []string {
	var out []string
	for _, e := range script {
		p := strings.Split(e, ":")
		k, _ := strconv.Atoi(p[0])
		name := p[0]
		if k < len(kindNames) {
			name = kindNames[k]
		}
		out = append(out, fmt.Sprintf("at %s decision %s take alternative %s", name, p[1], p[2]))
	}
	return out
}

// reportViolation confirms, minimises and records a violation. It reports
// false (with a reason) if the violation does not repeat.
func reportViolation(prop string, j job, r result) (string, bool) {
	kind, v := outcome(r)
	one := j
	one.only = v.Sub
	rf := replayFile{Property: prop, Kind: kind, Detail: v.Detail, Seed: j.seed, Run: v.Sub, Race: j.race, Cold: j.cold, Tier: j.tier}
	c := runJob(one)
	ckind, cv := outcome(c)
	if ckind != kind {
		// may depend on earlier runs in the same process
		pre := j
		pre.n = v.Sub + 1
		c = runJob(pre)
		ckind, cv = outcome(c)
		if ckind != kind {
			return fmt.Sprintf("kind %s (%s), re-execution gave %q %s", kind, head(v.Detail, 1500), ckind, c.err), false
		}
		rf.Prefix = true
	} else if len(cv.Script) > 0 || v.Script != nil {
		script := cv.Script
		if script == nil {
			script = v.Script
		}
		rf.Original = len(script)
		min, n, ok := minimise(one, kind, script)
		rf.Executions = n
		if ok {
			rf.Scripted = true
			rf.Script = min
			rf.ScriptText = describe(min)
		}
	} else {
		// fails with the default schedule
		rf.Scripted = true
		t := one
		t.hasScr = true
		if k, _ := outcome(runJob(t)); k != kind {
			rf.Scripted = false
		}
	}
	fin := one
	if rf.Prefix {
		fin = j
		fin.n = v.Sub + 1
	}
	fin.trace = true
	if rf.Scripted {
		fin.hasScr = true
		fin.script = rf.Script
	}
	if k, fv := outcome(runJob(fin)); k == kind {
		rf.Detail = fv.Detail
		rf.Trace = fv.Trace
		rf.Hash = fv.Hash
	} else {
		return "final replay did not reproduce " + kind, false
	}
	dir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(dir, 0755)
	file := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", prop, j.seed, v.Sub))
	rf.Command = "bash /verif/check.sh replay " + file
	b, _ := json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(file, append(b, '\n'), 0644); err != nil {
		die("%v", err)
	}
	fmt.Printf("violation of %s: %s\n%s\n", prop, rf.Kind, head(rf.Detail, 2500))
	fmt.Printf("process seed %d, run %d; %d recorded choices minimised to %d in %d executions\n", rf.Seed, rf.Run, rf.Original, len(rf.Script), rf.Executions)
	for i, s := range rf.ScriptText {
		if i >= 20 {
			fmt.Println("  ...")
			break
		}
		fmt.Println("  " + s)
	}
	return file, true
}

// minimise drops recorded choices while the run keeps failing the same way.
func minimise(j job, kind string, script []string) ([]string, int, bool) {
	deadline := time.Now().Add(60 * time.Second)
	execs := 0
	var mu sync.Mutex
	fails := func(s []string) bool {
		t := j
		t.hasScr = true
		t.script = s
		mu.Lock()
		execs++
		mu.Unlock()
		k, _ := outcome(runJob(t))
		return k == kind
	}
	if !fails(script) {
		return nil, execs, false
	}
	// firstFailing tries candidates in parallel, returns the first that fails.
	firstFailing := func(cands [][]string) int {
		for lo := 0; lo < len(cands); lo += workers() {
			hi := lo + workers()
			if hi > len(cands) {
				hi = len(cands)
			}
			ok := make([]bool, hi-lo)
			var wg sync.WaitGroup
			for i := lo; i < hi; i++ {
				wg.Add(1)
				go func(i int) { defer wg.Done(); ok[i-lo] = fails(cands[i]) }(i)
			}
			wg.Wait()
			for i := range ok {
				if ok[i] {
					return lo + i
				}
			}
			if time.Now().After(deadline) {
				return -1
			}
		}
		return -1
	}
	if fails(nil) {
		return nil, execs, true
	}
	// whole kinds first
	for k := 0; k < 24 && time.Now().Before(deadline); k++ {
		var rest []string
		for _, e := range script {
			if !strings.HasPrefix(e, fmt.Sprintf("%d:", k)) {
				rest = append(rest, e)
			}
		}
		if len(rest) != len(script) && fails(rest) {
			script = rest
		}
	}
	n := 2
	for len(script) > 0 && time.Now().Before(deadline) {
		if n > len(script) {
			n = len(script)
		}
		size := (len(script) + n - 1) / n
		var subs, comps [][]string
		for lo := 0; lo < len(script); lo += size {
			hi := lo + size
			if hi > len(script) {
				hi = len(script)
			}
			subs = append(subs, append([]string(nil), script[lo:hi]...))
			comps = append(comps, append(append([]string(nil), script[:lo]...), script[hi:]...))
		}
		if n == 2 || len(script) <= 64 {
			if i := firstFailing(subs); i >= 0 && len(subs[i]) < len(script) {
				script = subs[i]
				n = 2
				continue
			}
		}
		if i := firstFailing(comps); i >= 0 {
			script = comps[i]
			if n > 2 {
				n--
			}
			continue
		}
		if n >= len(script) {
			break
		}
		n *= 2
	}
	return script, execs, true
}

func replay(file string) int {
	defer cleanRunDir()
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		die("%v", err)
	}
	variant = variantOf(rf.Property)
	bins[rf.Race] = buildHarness(rf.Race)
	j := job{prop: rf.Property, seed: rf.Seed, only: rf.Run, n: rf.Run + 1, race: rf.Race, cold: rf.Cold, tier: rf.Tier, trace: true}
	if rf.Prefix {
		j.only = -1
	}
	if rf.Scripted {
		j.hasScr = true
		j.script = rf.Script
	}
	r := runJob(j)
	k, v := outcome(r)
	if k == "check-error" {
		die("%s", r.err)
	}
	if k == rf.Kind {
		fmt.Printf("reproduced %s\n%s\n", k, v.Detail)
		if rf.Hash != "" && v.Hash != "" && rf.Hash != v.Hash {
			fmt.Printf("note: execution hash differs (%s, recorded %s): the code has changed since\n", v.Hash, rf.Hash)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
		return 1
	}
	fmt.Printf("not reproduced: got %q, recorded %q\n", k, rf.Kind)
	return 0
}
