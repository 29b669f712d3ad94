package main

import (
	"fmt"
	"sort"

	"gorgonia.org/gorgonia/cuda"
	"gorgonia.org/gorgonia/zzverif/cu"
	"gorgonia.org/gorgonia/zzverif/sim"
	"gorgonia.org/tensor"
)

var devReal = []string{"cuda engine: start, stop, memory allocator, serving goroutine"}
var devStubs = []string{"the device and its libraries: bookkeeping of contexts, memory, modules and handles; work runs on the host"}

func init() {
	register(&Prop{ID: "C21", Run: runC21, Race: true, N: 30,
		Doc:  "device memory that is in use is never given out again, and what is returned can be used again",
		Rule: "A run starts 1-2 engines on an imitated device and lets each serve 20-400 requests for memory, returns in any order and resets, with requests near the limit of what is free; it is non-trivial when memory was returned and given out again.",
		Real: devReal, Stubs: devStubs})
	register(&Prop{ID: "C22", Run: runC22, Race: true, N: 40,
		Doc:  "starting, using and stopping a device engine ends in every case, reports failures and gives back what it took",
		Rule: "A run starts, uses and stops 1-2 engines 1-3 times each on an imitated device whose calls fail at random, with 0-3 goroutines submitting work in between; it is non-trivial when a call of the device or a piece of work failed.",
		Real: devReal, Stubs: devStubs})
}

type devBlock struct {
	at, size int64
	mem      tensor.Memory
}

// devMem is the model of one engine's memory: what its user holds.
type devMem struct {
	name  string
	e     *cuda.Engine
	base  uintptr
	size  int64
	live  []devBlock // sorted by address
	hist  []string
	gets  int
	puts  int
	again int // given out after something was returned
	oom   int
	unit  int64  // distance of the smallest blocks
	kind  string // the first failure
	why   string
}

func (d *devMem) logf(format string, a ...interface{}) {
	d.hist = append(d.hist, fmt.Sprintf(format, a...))
	if len(d.hist) > 24 {
		d.hist = d.hist[1:]
	}
}

func (d *devMem) fail(kind, format string, a ...interface{}) {
	if d.kind == "" {
		d.kind, d.why = kind, fmt.Sprintf("%s: %s; last steps: %v", d.name, fmt.Sprintf(format, a...), d.hist)
	}
}

// gap is the longest stretch of whole units that nobody holds.
func (d *devMem) gap() int64 {
	var at, best int64
	room := func(to int64) {
		from := (at + d.unit - 1) / d.unit * d.unit
		if n := to/d.unit*d.unit - from; n > best {
			best = n
		}
	}
	for _, b := range d.live {
		room(b.at)
		at = b.at + b.size
	}
	room(d.size)
	return best
}

// devUnit measures how far apart small blocks lie.
func devUnit() int64 {
	e := &cuda.Engine{}
	if err := e.Init(cu.Device(0), 4096); err != nil {
		panic(fmt.Sprintf("valid input refused: starting the engine: %v", err))
	}
	defer e.Close()
	var at [2]uintptr
	for i := range at {
		mem, err := e.Get(1)
		if err != nil {
			panic(fmt.Sprintf("valid input refused: first requests: %v", err))
		}
		at[i] = mem.Uintptr()
	}
	u := int64(at[1]) - int64(at[0])
	if u < 0 {
		u = -u
	}
	if u < 32 || u > 512 {
		u = 512
	}
	return u
}

func (d *devMem) get(size int64) bool {
	d.gets++
	mem, err := d.e.Get(size)
	if err != nil {
		d.oom++
		d.logf("get %d: %v", size, err)
		if g := d.gap(); g >= size {
			d.fail("memory-lost", "a request for %d bytes was refused although %d bytes in a row that begin and end at a multiple of %d are free: %v", size, g, d.unit, err)
			return false
		}
		return true
	}
	p := mem.Uintptr()
	at := int64(p - d.base)
	d.logf("get %d: +%d", size, at)
	if p < d.base || at+size > d.size {
		d.fail("memory-outside", "a request for %d bytes was given %d..%d of a reservation of %d bytes", size, at, at+size, d.size)
		return false
	}
	if at%8 != 0 {
		d.fail("memory-misaligned", "a request for %d bytes was given the address +%d", size, at)
		return false
	}
	if d.puts > 0 {
		d.again++
	}
	i := sort.Search(len(d.live), func(i int) bool { return d.live[i].at >= at })
	for _, k := range []int{i - 1, i} {
		if k >= 0 && k < len(d.live) {
			if b := d.live[k]; at < b.at+b.size && b.at < at+size {
				d.fail("memory-shared", "a request for %d bytes was given %d..%d while %d..%d is in use", size, at, at+size, b.at, b.at+b.size)
				return false
			}
		}
	}
	d.live = append(d.live, devBlock{})
	copy(d.live[i+1:], d.live[i:])
	d.live[i] = devBlock{at: at, size: size, mem: mem}
	return true
}

func (d *devMem) put(i int) {
	b := d.live[i]
	d.live = append(d.live[:i], d.live[i+1:]...)
	d.logf("put +%d", b.at)
	d.puts++
	d.e.Put(b.mem, b.size)
}

func devSetup(free int64) {
	cu.Reset(free)
	cu.Fault = nil
	cu.Pause = func() { sim.Y() }
}

func runC21(r *R) {
	type plan struct {
		size  int64
		steps int
		mode  int // which block is returned: 0 any, 1 oldest address, 2 newest address
		small bool
		keep  int // number of blocks held before returning gets likely
		seed  uint64
	}
	k := r.Rng.Range(1, 2)
	plans := make([]plan, k)
	for i := range plans {
		plans[i] = plan{size: int64(r.Rng.Pick(0, 100, 1000, 4096, 40000, 1<<20)), steps: r.Rng.Range(20, 400),
			mode: r.Rng.N(3), small: r.Rng.P(1, 3), keep: r.Rng.Range(1, 24), seed: r.Rng.Next()}
	}
	for _, p := range plans {
		r.note("reservation for %d, %d steps", p.size, p.steps)
	}
	devs := make([]*devMem, k)
	res := r.Sim(func() {
		devSetup(1 << 40)
		done := make(chan bool, k)
		for i := range plans {
			i := i
			go func() {
				defer func() { done <- true }()
				devs[i] = devHistory(fmt.Sprintf("engine %d", i), plans[i].size, plans[i].steps, plans[i].mode, plans[i].small, plans[i].keep, plans[i].seed)
			}()
		}
		for range plans {
			<-done
		}
	})
	for _, d := range devs {
		if d != nil && d.kind != "" {
			r.Fail(d.kind, "%s", d.why)
		}
	}
	if len(res.Left) > 0 {
		r.Fail("hang", "engines that were stopped left goroutines behind or never stopped: %v", res.Left)
	}
	for _, d := range devs {
		if d == nil {
			continue
		}
		r.Count("requests for memory", d.gets)
		r.Count("returns of memory", d.puts)
		r.Count("requests refused for lack of memory", d.oom)
		if d.again > 0 {
			r.NonTrivial()
		}
		r.ObserveU(uint64(d.gets)<<40 ^ uint64(d.puts)<<20 ^ uint64(d.oom))
	}
}

func devHistory(name string, size int64, steps, mode int, small bool, keep int, seed uint64) *devMem {
	rng := &Rng{s: seed}
	unit := devUnit()
	e := &cuda.Engine{}
	if err := e.Init(cu.Device(0), size); err != nil {
		panic(fmt.Sprintf("valid input refused: starting the engine: %v", err))
	}
	d := &devMem{name: name, e: e, unit: unit}
	// the reservation is found through the first block
	first := int64(rng.Range(1, 200))
	mem, err := e.Get(first)
	if err != nil {
		panic(fmt.Sprintf("valid input refused: first request: %v", err))
	}
	base, n, ok := cu.Range(cu.DevicePtr(mem.Uintptr()))
	if !ok {
		d.fail("memory-outside", "the first block is not in the device's memory")
		return d
	}
	d.base, d.size = uintptr(base), n
	e.Put(mem, first)
	for s := 0; s < steps; s++ {
		sim.Y()
		switch {
		case rng.P(1, 60):
			d.logf("reset")
			e.ResetAllocator()
			d.live = d.live[:0]
			continue
		case rng.P(1, 80):
			for len(d.live) > 0 {
				d.put(rng.N(len(d.live)))
			}
			continue
		case len(d.live) > 0 && rng.N(2*keep) < len(d.live):
			i := rng.N(len(d.live))
			switch mode {
			case 1:
				i = 0
			case 2:
				i = len(d.live) - 1
			}
			d.put(i)
			continue
		}
		var want int64
		switch x := rng.N(10); {
		case small || x < 3:
			want = int64(rng.Range(1, 70))
		case x < 5:
			want = int64(32 * rng.Range(1, 16))
		case x < 8:
			want = 1 + int64(rng.Next()%uint64(d.size/8+1))
		case x < 9:
			want = d.gap()
			if rng.P(1, 2) {
				want -= int64(rng.Range(0, 600))
			}
		default:
			want = 1 + int64(rng.Next()%uint64(d.size))
		}
		if want < 1 {
			want = 1
		}
		if !d.get(want) {
			return d
		}
	}
	for len(d.live) > 0 {
		d.put(rng.N(len(d.live)))
	}
	if want := d.gap(); want > 0 && !d.get(want) {
		return d
	}
	if err := e.Close(); err != nil {
		d.fail("close-failed", "%v", err)
	}
	return d
}

// The device calls that fail, and what their failure must lead to.
var devStart = []string{"oom", "context", "attributes", "meminfo", "alloc"}
var devLoad = []string{"module", "function"}
var devWork = []string{"launch", "memcpy"}
var devStop = []string{"unload", "blas-close", "dnn-close", "destroy"}

type devLife struct {
	kind, why string
	work      int
	failures  int
	starts    int
	refused   int
	alone     bool // the only engine: failures of the device are its own
	free      int64
}

func (d *devLife) fail(kind, format string, a ...interface{}) {
	if d.kind == "" {
		d.kind, d.why = kind, fmt.Sprintf(format, a...)
	}
}

func runC22(r *R) {
	type round struct {
		size    int64
		mods    int
		workers int
		jobs    int
		batch   int
		pause   int
		flush   int
		again   bool // stop once more
	}
	k := r.Rng.Range(1, 2)
	plans := make([][]round, k)
	for i := range plans {
		for j := r.Rng.Range(1, 3); j > 0; j-- {
			plans[i] = append(plans[i], round{size: int64(r.Rng.Pick(0, 1000, 4096, 1<<20, 1<<30)), mods: r.Rng.Pick(0, 0, 1, 2),
				workers: r.Rng.Pick(0, 0, 1, 2, 3), jobs: r.Rng.Range(1, 5), batch: r.Rng.Pick(0, 0, 1, 4), pause: r.Rng.Pick(0, 0, 3, 20), flush: r.Rng.Pick(0, 0, 1, 3), again: r.Rng.P(1, 3)})
		}
	}
	// One class of calls fails per run, or none, so that what must follow is known.
	var faulty []string
	switch r.Rng.N(6) {
	case 0, 1:
		faulty = devStart
	case 2:
		faulty = []string{"module", "function", "blas"}
	case 3:
		faulty = devStop
	case 4:
		faulty = []string{"launch", "memcpy"}
	}
	often := uint32(r.Rng.Pick(3000, 10000, 30000))
	failing := r.Rng.P(1, 3) // work fails
	if faulty != nil || failing {
		r.Cfg.Prob[sim.KFault] = often
	}
	r.note("%d engines, first with %d lives; calls that may fail: %v; work may fail: %v", k, len(plans[0]), faulty, failing)
	free := int64(r.Rng.Pick(1<<40, 1<<40, 1<<21))
	lives := make([]*devLife, k)
	var held cu.Held
	var bad []string
	total := map[string]int{}
	res := r.Sim(func() {
		devSetup(free)
		cu.Fault = func(op string) bool {
			for _, f := range faulty {
				if f == op {
					return sim.Choose(sim.KFault, 2) == 1
				}
			}
			return false
		}
		done := make(chan bool, k)
		for i := range plans {
			i := i
			lives[i] = &devLife{alone: k == 1, free: free}
			go func() {
				defer func() { done <- true }()
				e := &cuda.Engine{}
				for j, p := range plans[i] {
					name := fmt.Sprintf("engine %d, round %d", i, j)
					if !lives[i].round(name, e, p.size, p.mods, p.workers, p.jobs, p.batch, p.pause, p.flush, p.again, failing) {
						return
					}
				}
			}()
		}
		for range plans {
			<-done
		}
		// the serving goroutines have had their last message and may end now
		for i := 0; i < 50; i++ {
			sim.Y()
		}
		held, bad = cu.Holding(), cu.Misuses()
		for _, f := range append(append([]string{"module", "function", "blas", "launch", "memcpy"}, devStart...), devStop...) {
			total[f] = cu.Failed(f)
		}
	})
	for _, d := range lives {
		if d != nil && d.kind != "" {
			r.Fail(d.kind, "%s", d.why)
		}
	}
	if len(res.Left) > 0 {
		r.Fail("hang", "goroutines that wait for ever: %v", res.Left)
		return
	}
	failures := 0
	for _, d := range lives {
		if d == nil {
			continue
		}
		failures += d.failures
		r.Count("pieces of work", d.work)
		r.Count("engines started", d.starts)
		r.Count("engines that could not be started", d.refused)
		r.ObserveU(uint64(d.work)<<20 ^ uint64(d.starts)<<10 ^ uint64(d.refused))
	}
	for _, f := range append(append([]string{"module", "function", "blas", "launch", "memcpy"}, devStart...), devStop...) {
		if total[f] > 0 {
			failures += total[f]
			r.Count("failed device calls: "+f, total[f])
		}
	}
	if failures > 0 {
		r.NonTrivial()
	}
	if len(bad) > 0 {
		r.Fail("misuse", "%s", bad[0])
	}
	// what could not be released because the device refused is excused
	if held.Contexts > 0 || held.Allocations > 0 || held.Modules > total["unload"] || held.BLAS > total["blas-close"] || held.DNN > total["dnn-close"] {
		r.Fail("not-released", "after every engine was stopped the device still holds %d contexts, %d blocks of memory, %d modules and %d + %d handles of libraries", held.Contexts, held.Allocations, held.Modules, held.BLAS, held.DNN)
	}
}

func failedAny(ops []string) (n int) {
	for _, o := range ops {
		n += cu.Failed(o)
	}
	return n
}

// round starts the engine, uses it and stops it.
func (d *devLife) round(name string, e *cuda.Engine, size int64, mods, workers, jobs, batch, pause, flush int, again, failing bool) bool {
	before := failedAny(devStart)
	err := e.Init(cu.Device(0), size)
	failed := failedAny(devStart) - before
	if err != nil {
		d.refused++
		if d.alone && failed == 0 && size < d.free/4 {
			d.fail("start-refused", "%s: the device did what it was asked, but starting reports %v", name, err)
		}
		if again {
			before = failedAny(devStop)
			if err = e.Close(); err != nil && failedAny(devStop) == before {
				d.fail("close-failed", "%s: stopping an engine that could not be started reports %v", name, err)
			}
		}
		return d.kind == ""
	}
	if d.alone && failed > 0 {
		d.fail("failure-hidden", "%s: the device failed, but the engine says it has started", name)
		return false
	}
	d.starts++
	for i := 0; i < pause; i++ {
		sim.Y()
	}
	if _, err := e.Get(64); err != nil {
		d.fail("no-memory", "%s: the engine was started but has no memory: %v", name, err)
		return false
	}
	for i := 0; i < mods; i++ {
		mod := fmt.Sprintf("mod%d", i)
		before = failedAny(devLoad)
		err := e.LoadCUDAFunc(mod, "data", []string{"f", "g"})
		failed = failedAny(devLoad) - before
		if d.alone && (err != nil) != (failed > 0) {
			d.fail("failure-hidden", "%s: %d calls of the device failed while functions were loaded, and loading reports %v", name, failed, err)
		}
		for _, f := range []string{".f", ".g"} {
			if has := e.HasFunc(mod + f); has != (err == nil) {
				d.fail("functions", "%s: loading of a module reports %v, and that it has its function is %v", name, err, has)
			}
		}
	}
	if flush > 0 {
		before = failedAny(devWork)
		for i := 0; i < flush; i++ {
			e.Context().LaunchAndSync(cu.Function{}, 1, 1, 1, 1, 1, 1, 0, cu.NoStream, nil)
		}
		err := e.DoWork()
		failed = failedAny(devWork) - before
		if n := e.Context().Queued(); n > 0 {
			d.fail("work-lost", "%s: after the work was done %d calls are still waiting", name, n)
		}
		if d.alone && (err != nil) != (failed > 0) {
			d.fail("failure-hidden", "%s: %d of %d calls failed, and doing the work reports %v", name, failed, flush, err)
		}
	}
	type result struct {
		ran int
		got error
		own error
	}
	res := make([][]result, workers)
	done := make(chan bool, workers)
	for w := 0; w < workers; w++ {
		w := w
		res[w] = make([]result, jobs)
		go func() {
			defer func() { done <- true }()
			for j := range res[w] {
				x := &res[w][j]
				if failing && sim.Choose(sim.KFault, 2) == 1 {
					x.own = fmt.Errorf("work %d of %d failed", j, w)
				}
				x.got = e.Context().Do(func() error { sim.Y(); x.ran++; return x.own })
			}
		}()
	}
	for i := 0; i < batch; i++ {
		e.Context().LaunchAndSync(cu.Function{}, 1, 1, 1, 1, 1, 1, 0, cu.NoStream, nil)
		if i%2 == 1 {
			e.Context().Signal()
		}
	}
	for w := 0; w < workers; w++ {
		<-done
	}
	for w := range res {
		for j, x := range res[w] {
			d.work++
			if x.own != nil {
				d.failures++
			}
			if x.ran != 1 {
				d.fail("work-lost", "%s: work %d of goroutine %d was executed %d times", name, j, w, x.ran)
			}
			if x.got != x.own {
				d.fail("wrong-answer", "%s: work %d of goroutine %d returned %v, its caller was told %v", name, j, w, x.own, x.got)
			}
		}
	}
	before = failedAny(devStop)
	err = e.Close()
	failed = failedAny(devStop) - before
	if d.alone && err == nil && failed > 0 {
		d.fail("failure-hidden", "%s: the device failed, but stopping reports success", name)
	}
	if err != nil && failed == 0 {
		d.fail("close-failed", "%s: the device did what it was asked, but stopping reports %v", name, err)
	}
	if again {
		if err = e.Close(); err != nil {
			d.fail("close-failed", "%s: stopping an engine that is stopped reports %v", name, err)
		}
	}
	return d.kind == ""
}
