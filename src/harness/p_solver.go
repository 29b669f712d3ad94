package main

import (
	"errors"
	"fmt"
	"strings"
	"sync"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/zzverif/sim"
	"gorgonia.org/tensor"
)

func init() {
	register(&Prop{ID: "C12", Run: runC12, Race: true, N: 100,
		Doc:  "a failed optimisation step is reported and does not poison later steps",
		Rule: "A run lets 1-3 goroutines take 2-7 steps with an optimiser each, on stand-alone parameters whose gradient reads fail as decided by the seed or on parameters of a graph whose runs fail, and compares every parameter after every step with a separate optimiser that only took the successful updates; it is non-trivial when a step failed and a later one succeeded.",
		Real: append([]string{"optimisers"}, vmReal...), Stubs: []string{"stand-alone parameters (value, gradient, name)", "scheduler, clock and object pools (simulated)"}})
}

// param is a parameter outside any graph.
type param struct {
	name string
	v, d G.Value
	fail bool
}

var errNoGrad = errors.New("gradient unavailable")

func (p *param) Value() G.Value { return p.v }
func (p *param) Name() string   { return p.name }
func (p *param) Grad() (G.Value, error) {
	if p.fail {
		return nil, errNoGrad
	}
	return p.d, nil
}

type solverCase struct {
	Sol    solverSpec
	Alone  []LeafShape // stand-alone parameters
	VM     *VMCase     // or the parameters of this graph
	Steps  int
	Seed   uint64
	Faulty uint // steps in which reads may fail
}

type LeafShape struct {
	F32 bool
	Sh  []int
}

func (c *solverCase) String() string {
	if c.VM != nil {
		return fmt.Sprintf("%+v steps=%d faulty=%x graph %s mask=%x lisp=%v", c.Sol, c.Steps, c.Faulty, c.VM.Spec, c.VM.Mask, c.VM.Lisp)
	}
	return fmt.Sprintf("%+v steps=%d faulty=%x parameters %v", c.Sol, c.Steps, c.Faulty, c.Alone)
}

func genSolverCase(g *Rng) *solverCase {
	c := &solverCase{Sol: genSolver(g), Steps: g.Range(2, 7), Seed: g.Next(), Faulty: uint(g.N(256))}
	if g.P(1, 4) || c.Sol.Kind == "adamw" {
		c.VM = genGradCase(g, 6)
		c.VM.Trace = false
		scalar := false
		for _, l := range c.VM.Spec.Leaves {
			scalar = scalar || len(l.Shape) == 0
		}
		if scalar && (c.Sol.Kind == "bb" || c.Sol.Kind == "adamw") {
			c.Sol.Kind = "adam"
		}
		return c
	}
	for k := g.Range(1, 4); k > 0; k-- {
		l := LeafShape{F32: g.P(1, 3)}
		switch g.N(3) {
		case 1:
			l.Sh = []int{g.Range(2, 5)}
		case 2:
			l.Sh = []int{g.Range(1, 3), g.Range(2, 3)}
		}
		if c.Sol.Kind == "bb" {
			l.F32 = false
			if l.Sh == nil {
				l.Sh = []int{3}
			}
		}
		c.Alone = append(c.Alone, l)
	}
	return c
}

// shadow is what the parameters would be had the failed steps never been tried.
type shadow struct {
	joint bool
	sols  []G.Solver
	ps    []*param
}

func newShadow(s solverSpec, ps []G.ValueGrad) *shadow {
	// The step size of this one depends on all parameters together.
	sh := &shadow{joint: s.Kind == "bb"}
	for i, p := range ps {
		sh.ps = append(sh.ps, &param{name: fmt.Sprintf("shadow%d", i), v: cloneValue(p.Value())})
		sh.sols = append(sh.sols, s.make())
	}
	return sh
}

// step updates one parameter by itself.
func (sh *shadow) step(i int, d G.Value) error {
	sh.ps[i].d = cloneValue(d)
	return sh.sols[i].Step([]G.ValueGrad{sh.ps[i]})
}

func (sh *shadow) stepAll(ds []G.Value) error {
	var all []G.ValueGrad
	for i, p := range sh.ps {
		p.d = cloneValue(ds[i])
		all = append(all, p)
	}
	return sh.sols[0].Step(all)
}

// gradOf reads a gradient the way an optimiser does.
func gradOf(p G.ValueGrad) G.Value {
	d, err := p.Grad()
	if err != nil {
		return nil
	}
	switch x := d.(type) {
	case *tensor.Dense:
		if x == nil {
			return nil
		}
	}
	return d
}

func nameOf(p G.ValueGrad) string { return p.(G.Namer).Name() }

// judged takes one step and compares; failed reports whether the step failed.
func judgedStep(sol G.Solver, kind string, ps []G.ValueGrad, sh *shadow) (failed bool, bad string) {
	first := -1
	ds := make([]G.Value, len(ps))
	before := make([]*Flat, len(ps))
	for i, p := range ps {
		if d := gradOf(p); d != nil {
			ds[i] = cloneValue(d)
		} else if first < 0 {
			first = i
		}
		before[i] = flat(p.Value())
	}
	for i := 0; i < first; i++ {
		// It would not show whether this one has been updated.
		zero := true
		for _, x := range flat(ds[i]).Data {
			zero = zero && x == 0
		}
		if zero {
			return false, ""
		}
	}
	err := sol.Step(ps)
	switch {
	case first < 0 && err != nil:
		return true, fmt.Sprintf("every gradient is available, but the step failed: %v", err)
	case first >= 0 && err == nil:
		return true, fmt.Sprintf("%s has no gradient, but the step reported no error", nameOf(ps[first]))
	case first >= 0 && !strings.Contains(err.Error(), nameOf(ps[first])):
		return true, fmt.Sprintf("%s has no gradient, but the error does not name it: %v", nameOf(ps[first]), err)
	}
	if kind == "adamw" {
		sh = nil
	}
	if first < 0 && sh != nil && sh.joint {
		if err := sh.stepAll(ds); err != nil {
			return true, fmt.Sprintf("a step without a failure before it fails: %v", err)
		}
	}
	for i, p := range ps {
		now := flat(p.Value())
		if first >= 0 && i >= first {
			if !now.close(before[i], 0) {
				return true, fmt.Sprintf("the step failed at %s but changed %s from %v to %v", nameOf(ps[first]), nameOf(p), before[i], now)
			}
			continue
		}
		if sh == nil {
			continue
		}
		if first >= 0 && now.close(before[i], 0) {
			continue // the parameters before the failing one may have been left alone
		}
		if !sh.joint {
			if err := sh.step(i, ds[i]); err != nil {
				return true, fmt.Sprintf("a step without a failure before it fails: %v", err)
			}
		}
		if want := flat(sh.ps[i].v); !now.eq(want) && (first < 0 || !sh.joint) {
			return first >= 0, fmt.Sprintf("%s went from %v to %v, without failed steps it is %v", nameOf(p), before[i], now, want)
		} else if sh.joint && first >= 0 {
			return true, fmt.Sprintf("the step failed at %s but changed %s from %v to %v", nameOf(ps[first]), nameOf(p), before[i], now)
		}
	}
	return first >= 0, ""
}

func (c *solverCase) run() (bad string, failed, after int) {
	sol := c.Sol.make()
	var sh *shadow
	judge := func(k int, ps []G.ValueGrad) bool {
		if sh == nil {
			sh = newShadow(c.Sol, ps)
		}
		f, b := judgedStep(sol, c.Sol.Kind, ps, sh)
		if b != "" {
			bad = fmt.Sprintf("%s step %d: %s", c.Sol.Kind, k+1, b)
			return false
		}
		if f {
			failed++
		} else if failed > 0 {
			after++
		}
		dawdle(sim.KWhen, 4)
		return true
	}
	if c.VM == nil {
		rg := Rng{c.Seed}
		var ps []G.ValueGrad
		for i, l := range c.Alone {
			dt, n := tensor.Float64, 1
			if l.F32 {
				dt = tensor.Float32
			}
			if len(l.Sh) > 0 {
				n = prod(l.Sh)
			}
			ps = append(ps, &param{name: fmt.Sprintf("weight%c", 'A'+i), v: mkValue(dt, l.Sh, leafData(rg.Next(), n)), d: mkValue(dt, l.Sh, leafData(rg.Next(), n))})
		}
		for k := 0; k < c.Steps; k++ {
			for _, x := range ps {
				p := x.(*param)
				f := flat(p.v)
				p.d = mkValue(dtOf(f), f.Sh, leafData(rg.Next(), len(f.Data)))
				p.fail = c.Faulty>>uint(k)&1 == 1 && sim.Choose(sim.KFault, 2) == 1
			}
			if !judge(k, ps) {
				return
			}
		}
		return
	}
	ctl := &vmCtl{}
	v := c.VM.buildGraph(ctl.hook, ctl.diff)
	if len(v.wrt) == 0 {
		return
	}
	m := v.machine()
	defer m.Close()
	ps := G.NodesToValueGrads(v.wrt)
	for k := 0; k < c.Steps; k++ {
		ctl.reset(c.Faulty>>uint(k)&1 == 1)
		if err := m.RunAll(); err != nil && ctl.first == nil {
			bad = fmt.Sprintf("step %d: run: %v", k+1, err)
			return
		}
		// A caller that does not look at the error steps on whatever there is.
		if !judge(k, ps) {
			return
		}
		m.Reset()
	}
	return
}

func dtOf(f *Flat) tensor.Dtype {
	if f.Dt == "float32" {
		return tensor.Float32
	}
	return tensor.Float64
}

func runC12(r *R) {
	g := r.Rng
	cs := make([]*solverCase, g.Pick(1, 1, 2, 3))
	for i := range cs {
		cs[i] = genSolverCase(g)
		r.note("%d: %s", i, cs[i])
	}
	r.faultProbs()
	if r.Cfg.Prob[sim.KFault] == 0 {
		r.Cfg.Prob[sim.KFault] = g.PickU(3000, 15000, 30000)
	}
	if len(cs) > 1 && g.P(1, 12) {
		r.PoolRoom = g.Range(1, 4) // the process has been running for long
		r.note("room for %d tensors in the pool", r.PoolRoom)
	}
	var (
		mu            sync.Mutex
		bad           string
		failed, after int
		ended         bool
	)
	res := r.Sim(func() {
		var wg sync.WaitGroup
		for i := range cs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				b, f, a := cs[i].run()
				mu.Lock()
				if b != "" && bad == "" {
					bad = fmt.Sprintf("optimiser %d: %s", i, b)
				}
				failed += f
				after += a
				mu.Unlock()
			}(i)
		}
		wg.Wait()
		ended = true
	})
	if !ended && r.PoolRoom > 0 && poolBlocked(res) {
		r.knownFinding("tensor-pool-full")
		return
	}
	if !ended {
		r.Fail("hang", "the steps did not end (status %d): %v", res.Status, res.Left)
		return
	}
	if bad != "" {
		r.Fail("step", "%s", bad)
	}
	if res.Alive > 0 {
		r.Fail("leak", "goroutines left: %v", res.Left)
	}
	r.Count("failed steps", failed)
	r.Count("successful steps after a failure", after)
	if failed > 0 && after > 0 {
		r.NonTrivial()
	}
}
