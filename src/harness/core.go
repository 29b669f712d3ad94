package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"unsafe"

	"gorgonia.org/gorgonia/zzverif/sim"
)

// Rng is the workload generator's random source (splitmix64).
type Rng struct{ s uint64 }

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rng) Next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}
func (r *Rng) N(n int) int               { return int(r.Next() % uint64(n)) }
func (r *Rng) Range(lo, hi int) int      { return lo + r.N(hi-lo+1) }
func (r *Rng) P(num, den int) bool       { return r.N(den) < num }
func (r *Rng) F() float64                { return float64(r.Next()>>11) / (1 << 53) }
func (r *Rng) Pick(xs ...int) int        { return xs[r.N(len(xs))] }
func (r *Rng) PickU(xs ...uint32) uint32 { return xs[r.N(len(xs))] }
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Violation of a property.
type Violation struct {
	Kind   string `json:"kind"`   // stable class, used by the minimiser
	Detail string `json:"detail"` // human readable
}

// R is one simulated run of a property's scenario.
type R struct {
	Prop     string
	Seed     uint64
	Tier     string
	PoolRoom int  // if not 0, the tensor library's pool is full except for this many places
	Cold     bool // the simulation comes first, before anything else has been used
	Rng      *Rng
	Cfg      sim.Config
	script   sim.Script
	replay   bool
	buf      *sim.Buffers
	viol     *Violation
	known    []string
	spoilt   bool // goroutines that hang may hold anything
	Counters map[string]int
	Notes    []string
	Hash     uint64 // over the adversarial and quiet executions and the observations
	Main     uint64 // without the quiet ones, in which a process may set up something once
	Last     *sim.Result
	schedH   uint64
	nontriv  bool
	agg      *Agg
	simDone  bool
	trace    bool
	race0    int
	useRace  bool
}

func (r *R) Fail(kind, format string, a ...interface{}) {
	if r.viol == nil {
		r.viol = &Violation{Kind: kind, Detail: fmt.Sprintf(format, a...)}
	}
}

// Count adds to a named coverage counter.
func (r *R) Count(name string, n int) {
	if n != 0 {
		r.Counters[name] += n
	}
}

// Observe mixes an observation into the run's hash.
func (r *R) Observe(s string) {
	h := uint64(0xcbf29ce484222325)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	r.ObserveU(h)
}

func (r *R) ObserveU(x uint64) { r.Hash, r.Main = mixIn(r.Hash, x), mixIn(r.Main, x) }

func mixIn(h, x uint64) uint64 {
	h = (h ^ x) * 0x100000001b3
	return h ^ h>>31
}

// knownFinding records something that is listed in the known-findings file.
func (r *R) knownFinding(id string) {
	r.known = append(r.known, id)
	r.spoilt = true
}

// NonTrivial marks the run as having exercised what the property is about.
func (r *R) NonTrivial() { r.nontriv = true }

// Sim runs body adversarially. At most one call per run.
func (r *R) Sim(body func()) *sim.Result {
	if r.simDone {
		panic("harness: two adversarial simulations in one run")
	}
	r.simDone = true
	cfg := r.Cfg
	cfg.Seed = mix(r.Seed ^ 0xabcdef)
	cfg.Replay = r.replay
	resetPools(r.PoolRoom)
	hdr[1] = 2
	r.race0 = raceErrors()
	res := sim.Run(&cfg, r.script, r.buf, func() { body(); raceRelease() })
	raceAcquire()
	hdr[1] = 3
	cp := *res.Stats
	res.Stats = &cp
	r.Last = res
	r.agg.add(&cp)
	r.ObserveU(cp.Hash)
	r.schedH = cp.SchedHash
	if cp.LogDrop > 0 {
		fatalf("choice log overflow (%d dropped)", cp.LogDrop)
	}
	return res
}

// Quiet runs body in a simulation that takes every default choice.
func (r *R) Quiet(body func()) *sim.Result {
	cfg := r.Cfg
	cfg.Seed = mix(r.Seed ^ 0x1234567)
	cfg.Replay = true
	cfg.Prob = [sim.NKinds]uint32{}
	cfg.NCPU = 1
	cfg.Tick = 1000
	cfg.WallStep = 1
	b := &sim.Buffers{Stats: new(sim.Stats), Log: quietLog}
	resetPools(0)
	old := hdr[1]
	hdr[1] = 1
	res := sim.Run(&cfg, nil, b, func() { body(); raceRelease() })
	raceAcquire()
	hdr[1] = old
	r.Hash = mixIn(r.Hash, res.Stats.Hash)
	return res
}

var quietLog = make([]uint64, 1024)

// swarm draws an adversarial configuration.
func (r *R) swarm() {
	g := r.Rng
	c := &r.Cfg
	c.SchedMode = uint8(g.Pick(0, 1, 1, 2, 2))
	c.Prob[sim.KSched] = g.PickU(0, 4096, 16384, 49152)
	c.Prob[sim.KPreempt] = g.PickU(0, 200, 2000, 20000, 200000)
	c.Prob[sim.KSelect] = g.PickU(0, 32768, 65536)
	c.Prob[sim.KMap] = g.PickU(0, 32768, 65536)
	c.Prob[sim.KPool] = g.PickU(0, 16384, 49152)
	c.Prob[sim.KTimer] = g.PickU(0, 1024, 8192)
	c.Prob[sim.KClock] = g.PickU(0, 4096, 32768)
	c.NCPU = int64(g.Pick(1, 2, 3, 4, 8, 16))
	c.Tick = int64(g.Pick(0, 1, 1000, 1000000))
	c.WallStep = int64(g.Pick(1, 1, 1000000, 15600000))
	c.WallBase = 1600000000000000000 + int64(g.N(1<<30))
	c.PctDepth = int64(g.Pick(0, 1, 2, 3, 5, 10))
	c.PctLen = int64(g.Pick(20, 100, 500, 2000))
	c.MaxPicks = 400000
	c.MaxYields = 40000000
}

// Prop is a property with its scenario.
type Prop struct {
	ID    string
	Doc   string
	Run   func(r *R)
	Rule  string // what makes a run distinct and non-trivial
	Race  bool   // also explored with the happens-before race detector
	Cold  bool   // also explored in processes that start with the simulation
	N     int    // runs per process
	Real  []string
	Stubs []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Agg sums run statistics over a process.
type Agg struct {
	Runs, NonTrivial             int
	Picks, Switches, Yields      uint64
	Preempts, Gs, SimTime        uint64
	TimersFwd, PoolGets          uint64
	PoolReuse, MapIters          uint64
	MapPerms, Selects, ClockJump uint64
	MaxRun                       uint64
	Nonzero                      map[string]uint64
	Counts                       map[string]uint64
	Counters                     map[string]int
	SchedHashes                  []string
	Known                        map[string]int
	Hashes, MainHashes           []string
	Violations                   []VRec
	Samples                      []string
}

type VRec struct {
	Sub    int
	Seed   string
	Kind   string
	Detail string
	Script []string
	Hash   string
	Trace  []string
}

func (a *Agg) add(s *sim.Stats) {
	a.Picks += s.Picks
	a.Switches += s.Switches
	a.Yields += s.Yields
	a.Preempts += s.Preempts
	a.Gs += s.Gs
	a.SimTime += uint64(s.SimTime)
	a.TimersFwd += s.TimersFwd
	a.PoolGets += s.PoolGets
	a.PoolReuse += s.PoolReuse
	a.MapIters += s.MapIters
	a.MapPerms += s.MapPerms
	a.Selects += s.Selects
	a.ClockJump += s.ClockJump
	if s.MaxRun > a.MaxRun {
		a.MaxRun = s.MaxRun
	}
	for k := 0; k < sim.NKinds; k++ {
		if n := sim.KindNames[k]; n != "" {
			a.Nonzero[n] += s.Nonzero[k]
			a.Counts[n] += s.Counts[k]
		}
	}
}

var (
	hdr    []uint64
	shmBuf *sim.Buffers
)

func fatalf(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR: "+format+"\n", a...)
	os.Exit(3)
}

func mapShm(path string) {
	const logCap = 1 << 20
	const evCap = 1 << 14
	size := 8192 + logCap*8 + evCap*8
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		fatalf("%v", err)
	}
	if err := f.Truncate(int64(size)); err != nil {
		fatalf("%v", err)
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fatalf("mmap: %v", err)
	}
	p := unsafe.Pointer(&b[0])
	hdr = (*[512]uint64)(p)[:]
	shmBuf = &sim.Buffers{
		Stats: (*sim.Stats)(unsafe.Pointer(&b[4096])),
		Log:   (*[logCap]uint64)(unsafe.Pointer(&b[8192]))[:],
		Ev:    (*[evCap]uint64)(unsafe.Pointer(&b[8192+logCap*8]))[:],
	}
}

func parseScript(path string) sim.Script {
	b, err := os.ReadFile(path)
	if err != nil {
		fatalf("%v", err)
	}
	var s sim.Script
	for _, f := range strings.Fields(string(b)) {
		var k, st, v uint64
		if _, err := fmt.Sscanf(f, "%d:%d:%d", &k, &st, &v); err != nil {
			fatalf("bad script entry %q", f)
		}
		s = append(s, sim.Entry(int(k), st, v))
	}
	return s
}

func fmtScript(log []uint64) []string {
	out := make([]string, 0, len(log))
	for _, e := range log {
		out = append(out, fmt.Sprintf("%d:%d:%d", sim.EntryKind(e), sim.EntryStep(e), sim.EntryVal(e)))
	}
	return out
}

// outPath is the file that the result goes to.
var outPath string

// scratchDir is a directory for the files of this process, beside its result.
func scratchDir() string {
	p, err := filepath.Abs(outPath + ".fs")
	if err != nil {
		fatalf("%v", err)
	}
	return p
}

func main() {
	debug.SetGCPercent(-1)
	var (
		prop   = flag.String("prop", "", "property")
		seed   = flag.Uint64("seed", 1, "process seed")
		n      = flag.Int("n", 10, "runs in this process")
		only   = flag.Int("only", -1, "execute only this run")
		script = flag.String("script", "", "replay this choice script")
		shm    = flag.String("shm", "", "shared state file")
		out    = flag.String("out", "", "result file")
		tier   = flag.String("tier", "quick", "tier")
		trace  = flag.Bool("trace", false, "include the event trace")
		evf    = flag.String("events", "", "write the event trace of the last run to this file")
		info   = flag.Bool("info", false, "print property info")
		cold   = flag.Bool("cold", false, "start with the simulation, nothing used before")
		all    = flag.Bool("all", false, "go on after a violation")
		memMB  = flag.Int("mem", 2500, "stop starting new runs above this heap size")
	)
	flag.Parse()
	if *info {
		type pi struct {
			ID, Doc, Rule string
			Race, Cold    bool
			Real, Stubs   []string
			N             int
		}
		var l []pi
		for _, p := range props {
			l = append(l, pi{p.ID, p.Doc, p.Rule, p.Race, p.Cold, p.Real, p.Stubs, p.N})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].ID < l[j].ID })
		json.NewEncoder(os.Stdout).Encode(l)
		return
	}
	p := props[*prop]
	if p == nil {
		fatalf("unknown property %q", *prop)
	}
	if *shm == "" || *out == "" {
		fatalf("-shm and -out are required")
	}
	mapShm(*shm)
	outPath = *out
	agg := &Agg{Nonzero: map[string]uint64{}, Counts: map[string]uint64{}, Counters: map[string]int{}, Known: map[string]int{}}
	lo, hi := 0, *n
	if *only >= 0 {
		lo, hi = *only, *only+1
	}
	for i := lo; i < hi; i++ {
		if heapMB() > uint64(*memMB) {
			agg.Counters["stopped early: memory"]++
			break
		}
		hdr[0] = uint64(i)
		hdr[1] = 0
		hdr[2]++
		subSeed := mix(*seed*0x9e3779b97f4a7c15 + uint64(i)*0xd1342543de82ef95)
		r := &R{Prop: *prop, Seed: subSeed, Tier: *tier, Rng: &Rng{subSeed}, buf: shmBuf, Counters: agg.Counters, agg: agg, Cold: *cold, Hash: 0xcbf29ce484222325, trace: *trace}
		if *script != "" {
			r.replay = true
			r.script = parseScript(*script)
		}
		r.swarm()
		clearPlaces()
		p.Run(r)
		if !r.simDone && r.viol == nil {
			fatalf("property %s run %d made no adversarial simulation", *prop, i)
		}
		if r.viol == nil {
			if d := raceErrors() - r.race0; d > 0 {
				r.Fail("data-race", "%d data race report(s)", d)
			}
		}
		agg.Runs++
		if r.nontriv {
			agg.NonTrivial++
			agg.SchedHashes = append(agg.SchedHashes, fmt.Sprintf("%016x", r.caseHash()))
		}
		agg.Hashes = append(agg.Hashes, fmt.Sprintf("%016x", r.Hash))
		agg.MainHashes = append(agg.MainHashes, fmt.Sprintf("%016x", r.Main))
		for _, k := range r.known {
			agg.Known[k]++
		}
		if len(agg.Samples) < 3 {
			agg.Samples = append(agg.Samples, fmt.Sprintf("run %d: %s", i, strings.Join(r.Notes, "; ")))
		}
		if *evf != "" && r.Last != nil {
			os.WriteFile(*evf, []byte(strings.Join(traceLines(r.Last), "\n")+"\n"), 0644)
		}
		if r.spoilt && r.viol == nil {
			break
		}
		if r.viol != nil {
			v := VRec{Sub: i, Seed: fmt.Sprintf("%d", *seed), Kind: r.viol.Kind, Detail: r.viol.Detail, Hash: fmt.Sprintf("%016x", r.Hash)}
			if r.Last != nil {
				v.Script = fmtScript(r.Last.Log)
				if *trace {
					v.Trace = traceLines(r.Last)
				}
			}
			agg.Violations = append(agg.Violations, v)
			if !*all {
				break
			}
		}
	}
	hdr[1] = 9
	b, err := json.Marshal(agg)
	if err != nil {
		fatalf("%v", err)
	}
	if err := os.WriteFile(*out, b, 0644); err != nil {
		fatalf("%v", err)
	}
}

// caseHash identifies the workload and the schedule of a run.
func (r *R) caseHash() uint64 {
	h := r.schedH
	for _, n := range r.Notes {
		for i := 0; i < len(n); i++ {
			h = (h ^ uint64(n[i])) * 0x100000001b3
		}
	}
	return mix(h)
}

func traceLines(res *sim.Result) []string {
	var out []string
	for _, e := range res.Ev {
		switch e >> 60 {
		case 1:
			out = append(out, fmt.Sprintf("run g%d (yield point %d)", e>>32&0xfffffff, e&0xffffffff))
		case 2:
			out = append(out, fmt.Sprintf("exit g%d", e&0xffffffff))
		case 3:
			out = append(out, "event "+eventName(e&(1<<60-1)))
		}
	}
	if len(out) > 400 {
		out = append(append(out[:200:200], "..."), out[len(out)-200:]...)
	}
	return out
}

var eventNames = map[uint64]string{}

func eventName(a uint64) string {
	if s, ok := eventNames[a>>32]; ok {
		return fmt.Sprintf("%s(%d)", s, a&0xffffffff)
	}
	return fmt.Sprintf("%x", a)
}
