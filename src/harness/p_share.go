package main

import (
	"fmt"
	"sync"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/zzverif/sim"
	"gorgonia.org/tensor"
)

func init() {
	register(&Prop{ID: "C17", Run: runC17, Race: true, Cold: true, N: 20,
		Doc:  "graphs used concurrently may read the same input data",
		Rule: "A run starts 2-4 goroutines that execute and train graphs of their own, on any of the machines, with inputs that are windows of common data (overlapping, identical or disjoint) and change between steps, and compares what each saw with the same work done alone; it is non-trivial when at least two goroutines were active at the same time and at least two of them had windows of the same data.",
		Real: append([]string{"concurrent (x/vm) machine", "optimisers"}, vmReal...), Stubs: []string{"scheduler, clock and object pools (simulated)"}})
}

// commons is data that several graphs take their inputs from.
type commons struct {
	*commonData
	same bool // windows may be the same tensors, not only of the same data
}

type commonData struct {
	seed  uint64
	mu    sync.Mutex
	pools map[string]*tensor.Dense
	first map[string]*Flat
	views map[G.Value]bool
	users map[string]int
	kept  map[string]G.Value // windows that several inputs are bound to
}

func newCommons(seed uint64) *commons {
	return &commons{commonData: &commonData{seed: seed, pools: map[string]*tensor.Dense{}, first: map[string]*Flat{}, views: map[G.Value]bool{}, users: map[string]int{}, kept: map[string]G.Value{}}}
}

// rows of data per row of a window
const windows = 3

// value is the input described by the seed: a value of its own or a window of
// the common data.
func (c *commons) value(dt tensor.Dtype, sh []int, seed uint64) G.Value {
	if v := c.window(dt, sh, seed, 0); v != nil {
		return v
	}
	return mkValue(dt, sh, leafData(seed, prod(sh)))
}

// window is the window of the common data that the seed stands for at the
// given step, nil if the input is not from there.
func (c *commons) window(dt tensor.Dtype, sh []int, seed uint64, step int) G.Value {
	if c == nil || len(sh) == 0 || sh[0] < 2 {
		return nil
	}
	r := Rng{seed ^ c.seed}
	if r.P(1, 3) {
		return nil
	}
	for ; step > 0; step-- {
		r.Next()
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	k := fmt.Sprintf("%v %v", dt, sh)
	p := c.pools[k]
	if p == nil {
		psh := append([]int{sh[0] * windows}, sh[1:]...)
		p = mkValue(dt, psh, leafData(c.seed+uint64(prod(sh)), prod(psh))).(*tensor.Dense)
		c.pools[k] = p
		c.first[k] = flat(p)
	}
	o := r.N(sh[0]*(windows-1) + 1)
	kk := fmt.Sprintf("%s %d", k, o/2)
	if r.P(1, 2) && c.same {
		if v := c.kept[kk]; v != nil {
			c.users[k]++
			return v
		}
		o = o / 2 * 2
	} else {
		kk = ""
	}
	v, err := p.Slice(G.S(o, o+sh[0]))
	if err != nil {
		panic("valid input refused: slicing: " + err.Error())
	}
	c.users[k]++
	c.views[v] = true
	if kk != "" {
		c.kept[kk] = v
	}
	return v
}

// next gives the inputs that come from the common data other windows.
func (v *VMBuilt) next(step int) {
	s := v.c.Spec
	for i, l := range s.Leaves {
		if w := s.src.window(s.dt(), l.Shape, l.Seed, step); w != nil && !l.Const {
			if err := G.Let(v.Nodes[i], w); err != nil {
				panic("valid input refused: Let: " + err.Error())
			}
		}
	}
}

// own returns the nodes whose values nobody else reads.
func (c *commons) own(ns []*G.Node) (out []*G.Node) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, n := range ns {
		if !c.views[n.Value()] {
			out = append(out, n)
		}
	}
	return out
}

// on makes the job take its inputs from c.
func (j *job) on(c *commons) *job {
	o := *j
	if o.VM != nil {
		vm, sp := *o.VM, *o.VM.Spec
		sp.src = c
		vm.Spec = &sp
		o.VM = &vm
	}
	if o.NN != nil {
		nn := *o.NN
		nn.src = c
		o.NN = &nn
	}
	if o.Spec != nil {
		sp := *o.Spec
		sp.src = &commons{c.commonData, true} // the machine does not touch its inputs
		o.Spec = &sp
	}
	return &o
}

func runC17(r *R) {
	g := r.Rng
	n := g.Range(2, 4)
	seed := g.Next()
	jobs := make([]*job, n)
	for i := range jobs {
		jobs[i] = genJob(g)
		jobs[i].Extras = 0
		jobs[i].Rebind = g.P(1, 2)
		if i > 0 && g.P(1, 2) {
			j := *jobs[i-1] // the same expressions in separate graphs
			jobs[i] = &j
		}
		r.note("%d: %s", i, jobs[i])
	}
	r.faultProbs()
	want := make([]map[string]*Flat, n)
	alone := func() bool {
		for i, j := range jobs {
			var qerr error
			ended := false
			r.Quiet(func() {
				want[i], qerr = j.on(newCommons(seed)).do(func() {})
				ended = true
			})
			if !ended || qerr != nil {
				r.Fail("error", "job %d fails when done alone: %v", i, qerr)
				return false
			}
		}
		return true
	}
	if !r.Cold && !alone() {
		return
	}
	got := make([]map[string]*Flat, n)
	errs := make([]error, n)
	active, most := 0, 0
	var mu sync.Mutex
	var com *commons
	var changed []string
	finished := false
	shared := 0
	res := r.Sim(func() {
		com = newCommons(seed)
		var wg sync.WaitGroup
		for i := range jobs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				mu.Lock()
				active++
				if active > most {
					most = active
				}
				mu.Unlock()
				dawdle(sim.KWhen, 10)
				got[i], errs[i] = jobs[i].on(com).do(func() { dawdle(sim.KWhen, 6) })
				mu.Lock()
				active--
				mu.Unlock()
			}(i)
		}
		wg.Wait()
		for _, k := range sortedKeys(com.first) {
			if now := flat(com.pools[k]); !now.same(com.first[k]) {
				changed = append(changed, fmt.Sprintf("the %s data changed from %v to %v", k, com.first[k], now))
			}
			if com.users[k] > 1 {
				shared++
			}
		}
		finished = true
	})
	if !finished {
		r.Fail("hang", "not all goroutines finished (status %d): %v", res.Status, res.Left)
		return
	}
	if r.Cold && !alone() {
		return
	}
	for i := range jobs {
		if errs[i] != nil {
			r.Fail("error", "goroutine %d: %v", i, errs[i])
			continue
		}
		r.compareObs("value", fmt.Sprintf("goroutine %d", i), got[i], want[i])
	}
	for _, c := range changed {
		r.Fail("input-modified", "%s", c)
	}
	if res.Alive > 0 {
		r.Fail("leak", "goroutines left: %v", res.Left)
	}
	if most > 1 && shared > 0 {
		r.NonTrivial()
	}
	r.Count("jobs", n)
	r.Count("data sets read by several", shared)
}
