package main

import (
	"errors"
	"fmt"
	"math"
	"strings"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/zzverif/sim"
)

func init() {
	register(&Prop{ID: "C14", Run: runC14, Race: true, N: 40,
		Doc:  "non-finite watches stop the run exactly when a non-finite value appears",
		Rule: "A run takes a machine with or without the NaN and Inf watches through 1-3 executions of a random graph in which user-supplied operations (forward, symbolic and direct gradients), inputs and random nodes may give NaN or an infinity, and compares the outcome with one evaluation of each operation; it is non-trivial when a non-finite value appeared.",
		Real: vmReal, Stubs: xvmStubs})
}

// A taint is a non-finite value that appears in one element of a result.
type taint struct {
	x  float64
	at int
}

var nonFinite = []float64{math.NaN(), math.Inf(1), math.Inf(-1)}

type watchCtl struct {
	kinds   []float64 // non-finite values that may appear
	on      bool
	watched func(x float64) bool
	taints  map[int]taint // by probe
	diffs   map[int]taint
	first   *ProbeOp  // first to give a watched value
	back    bool      // in its gradient evaluation
	after   int       // operations begun after that
	past    *watchCtl // a run to repeat
}

func (c *watchCtl) reset() {
	c.taints, c.diffs = map[int]taint{}, map[int]taint{}
	c.first, c.back, c.after = nil, false, 0
}

func (c *watchCtl) choose(n int) (taint, bool) {
	if !c.on || len(c.kinds) == 0 || sim.Choose(sim.KFault, 2) == 0 {
		return taint{}, false
	}
	return taint{c.kinds[sim.Choose(sim.KGrad, len(c.kinds))], sim.Choose(sim.KGrad, n)}, true
}

func (c *watchCtl) hook(p *ProbeOp, in []G.Value) error {
	if c.first != nil {
		c.after++
	}
	dawdle(sim.KWhen, 3)
	return nil
}

func (c *watchCtl) forward(p *ProbeOp, data []float64) {
	if c.past != nil {
		if t, ok := c.past.taints[p.ID]; ok && t.at >= 0 {
			data[t.at] = t.x
		}
		return
	}
	t, ok := c.taints[p.ID]
	if !ok {
		if t, ok = c.choose(len(data)); !ok {
			t = taint{0, -1}
		}
		c.taints[p.ID] = t
	}
	if t.at >= 0 {
		data[t.at] = t.x
		if c.first == nil && c.watched(t.x) {
			c.first = p
		}
	}
}

func (c *watchCtl) backward(p *ProbeOp, k int, x float64) float64 {
	t, ok := c.diffs[p.ID]
	if !ok {
		if t, ok = c.choose(1); !ok {
			t = taint{0, -1}
		}
		c.diffs[p.ID] = t
	}
	if t.at == k {
		if c.first == nil && c.watched(t.x) {
			c.first, c.back = p, true
		}
		return t.x
	}
	return x
}

// watchExtra is what a graph may have besides the case's own nodes.
type watchExtra struct {
	Bool int // compare these nodes
	Rand bool
	NaN  bool // the random node gives NaN
}

func (e watchExtra) add(v *VMBuilt) (random *G.Node) {
	if e.Bool >= 0 {
		n := v.Nodes[e.Bool%len(v.Nodes)]
		if n.Dtype() == v.Spec.dt() {
			must(G.Gt(n, must(G.Tanh(n)), false))
		}
	}
	if e.Rand {
		mean := 1.0
		if e.NaN {
			mean = math.NaN()
		}
		random = G.GaussianRandomNode(v.G, v.Spec.dt(), mean, 1, 2, 2)
		must(G.Neg(random))
	}
	return random
}

func runC14(r *R) {
	g := r.Rng
	c := genCase(g, 8)
	runs := g.Range(1, 3)
	mode := g.N(8) // bit 0: NaN watch, bit 1: Inf watch
	if mode > 3 {
		mode = 1 + g.N(2)
	}
	nan, inf := mode&1 != 0, mode&2 != 0
	watched := func(x float64) bool { return nan && math.IsNaN(x) || inf && math.IsInf(x, 0) }
	ctl := &watchCtl{kinds: nonFinite, watched: watched}
	direct := c.Lisp && c.Grad
	if direct {
		// what becomes of other values in the gradients is not predicted
		ctl.kinds = nil
		for _, x := range nonFinite {
			if watched(x) {
				ctl.kinds = append(ctl.kinds, x)
			}
		}
	}
	ex := watchExtra{Bool: -1}
	if !direct && g.P(1, 3) {
		ex.Bool = g.N(1 << 10)
	}
	if !direct && g.P(1, 4) {
		ex.Rand, ex.NaN = true, g.P(1, 3)
	}
	type leafTaint struct {
		leaf int
		taint
	}
	plan := make([]leafTaint, runs)
	for i := range plan {
		plan[i].leaf = -1
		if !direct && g.P(1, 4) {
			k := g.N(len(c.Spec.Leaves))
			if l := c.Spec.Leaves[k]; !l.Const {
				plan[i] = leafTaint{k, taint{nonFinite[g.N(3)], g.N(prod(l.Shape))}}
			}
		}
	}
	faulty := make([]bool, runs)
	for i := range faulty {
		faulty[i] = g.P(2, 3)
	}
	r.faultProbs()
	r.Cfg.Prob[sim.KGrad] = 65536
	r.note("watch nan=%v inf=%v runs=%d faulty=%v inputs=%v extra=%+v %s", nan, inf, runs, faulty, plan, ex, c)
	setLeaf := func(v *VMBuilt, p leafTaint) {
		v.rebind(0)
		if p.leaf < 0 {
			return
		}
		l := c.Spec.Leaves[p.leaf]
		data := leafData(l.Seed, prod(l.Shape))
		data[p.at] = p.x
		if err := G.Let(v.Nodes[p.leaf], mkValue(c.Spec.dt(), l.Shape, data)); err != nil {
			panic("valid input refused: Let: " + err.Error())
		}
	}
	type outcome struct {
		err   error
		ctl   watchCtl
		node  int64
		text  map[int64]string
		obs   map[string]*Flat
		ended bool
	}
	outs := make([]*outcome, 0, runs)
	live := *c
	live.taint, live.diffTaint = ctl.forward, ctl.backward
	finished := false
	var (
		v      *VMBuilt
		random *G.Node
	)
	res := r.Sim(func() {
		v = live.buildGraph(ctl.hook, nil)
		random = ex.add(v)
		var opts []G.VMOpt
		if nan {
			opts = append(opts, G.WithNaNWatch())
		}
		if inf {
			opts = append(opts, G.WithInfWatch())
		}
		m := v.machine(opts...)
		for i := 0; i < runs; i++ {
			ctl.reset()
			ctl.on = faulty[i]
			setLeaf(v, plan[i])
			o := &outcome{node: -1, text: map[int64]string{}}
			outs = append(outs, o)
			o.err = m.RunAll()
			o.ended = true
			o.ctl = *ctl
			var ne nodeErr
			if errors.As(o.err, &ne) && ne.Node() != nil {
				o.node = ne.Node().ID()
			}
			if o.err != nil {
				for _, n := range v.G.AllNodes() {
					o.text[n.ID()] = fmt.Sprint(n)
				}
			} else {
				o.obs = v.obs()
			}
			m.Reset()
			v.zeroGrads()
		}
		finished = true
	})
	if r.viol != nil {
		return
	}
	if !finished {
		r.Fail("hang", "run %d did not return (status %d): %v", len(outs), res.Status, res.Left)
		return
	}
	if res.Alive > 0 {
		r.Fail("leak", "goroutines left: %v", res.Left)
	}
	for i, o := range outs {
		what := fmt.Sprintf("run %d", i+1)
		var (
			bad   = map[int64]bool{} // nodes with a watched value
			least = map[int64]bool{} // those that do not have it from others
			any   bool
			qerr  error
			ended bool
		)
		r.Quiet(func() {
			ctl.past = &o.ctl
			setLeaf(v, plan[i])
			given := map[*G.Node]G.Value{}
			if random != nil {
				data := []float64{0.5, 0.5, 0.5, 0.5}
				if ex.NaN {
					data[0] = math.NaN()
				}
				given[random] = mkValue(c.Spec.dt(), []int{2, 2}, data)
			}
			var ref map[int64]*Flat
			ref, qerr = referenceWith(v.G, given)
			if qerr != nil {
				ended = true
				return
			}
			for _, n := range v.G.AllNodes() {
				if f := ref[n.ID()]; f != nil {
					for _, x := range f.Data {
						if math.IsNaN(x) || math.IsInf(x, 0) {
							any = true
						}
						if watched(x) && (n.Op() != nil && n.Op().Arity() != 0 || n == random) {
							bad[n.ID()] = true
						}
					}
				}
			}
			for id := range bad {
				least[id] = true
				it := v.G.From(id)
				for it.Next() {
					if bad[it.Node().ID()] {
						delete(least, id)
					}
				}
			}
			ended = true
		})
		if !ended || qerr != nil {
			r.Fail("error", "%s: sequential evaluation: %v", what, qerr)
			return
		}
		if any || o.ctl.first != nil {
			r.NonTrivial()
		}
		expect := len(bad) > 0
		if direct && o.ctl.first != nil && o.ctl.back {
			expect = true
			least[o.ctl.first.Node.ID()] = true
			r.Count("non-finite gradients", 1)
		}
		if expect {
			r.Count("runs with a watched value", 1)
		} else if any {
			r.Count("runs with an unwatched value", 1)
		}
		if o.ctl.after > 0 {
			r.Fail("not-stopped", "%s: %d operations were begun after %v gave a watched value", what, o.ctl.after, o.ctl.first.Node)
		}
		switch {
		case !expect && o.err != nil:
			r.Fail("false-alarm", "%s: no operation gave a watched value but the run returned %v", what, o.err)
		case expect && o.err == nil:
			r.Fail("missed", "%s: an operation gave a watched value but the run succeeded", what)
		case expect:
			named := least[o.node]
			if o.node < 0 {
				for id := range least {
					named = named || strings.Contains(o.err.Error(), o.text[id])
				}
			}
			if !named {
				r.Fail("misnamed", "%s: the error %q (node %d) does not name an operation that was first to give a watched value", what, o.err, o.node)
			}
		}
	}
}
