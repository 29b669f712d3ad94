package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/zzverif/sim"
	"gorgonia.org/tensor"
)

var vmReal = []string{"tape machine", "graph-walking (lisp) machine", "compiler and register allocation", "symbolic and direct differentiation", "graph building and operations", "gorgonia.org/tensor", "gonum BLAS"}

func init() {
	register(&Prop{ID: "C05", Run: runC05, Race: true, N: 40,
		Doc:  "a failing operation fails the VM run, is identified, and leaves it quiet",
		Rule: "A run builds a random differentiable graph with user-supplied operations whose forward, symbolic-gradient or direct-gradient evaluation may be made to fail, and executes it on the tape or the graph-walking machine; it is non-trivial when a failure was injected.",
		Real: vmReal, Stubs: xvmStubs})
	register(&Prop{ID: "C06", Run: runC06, Race: true, N: 20,
		Doc:  "a reset virtual machine behaves like a new one after any history",
		Rule: "A run takes one machine through 1-4 bind/run/fail/reset steps and compares a final reset, gradient-cleared run with a new machine on a new graph with the same inputs; it is non-trivial when an earlier run failed or inputs were changed.",
		Real: vmReal, Stubs: xvmStubs})
}

// VMCase is one way of executing a random graph on a virtual machine.
type VMCase struct {
	Spec  *Spec
	Lisp  bool
	Grad  bool
	Trace bool
	Pre   bool  // compiled separately
	Reads []int // nodes read out
	Mask  uint  // which leaves to differentiate with respect to
	Pair  int   // the node one more than this and a leaf of its own go into a pair operation

	taint     func(p *ProbeOp, data []float64)
	diffTaint func(p *ProbeOp, k int, x float64) float64
}

func (c *VMCase) String() string {
	return fmt.Sprintf("lisp=%v grad=%v trace=%v precompiled=%v reads=%v mask=%x pair=%d %s", c.Lisp, c.Grad, c.Trace, c.Pre, c.Reads, c.Mask, c.Pair, c.Spec)
}

func genCase(g *Rng, maxOps int) *VMCase {
	c := &VMCase{Lisp: g.P(2, 5), Grad: g.P(2, 3), Trace: g.P(1, 4), Pre: g.P(1, 6), Mask: uint(g.N(1 << 16))}
	o := GenOpts{MinOps: 1, MaxOps: maxOps, Large: 4 * maxOps, Probes: true, ManyProbes: true, Structural: true}
	if c.Grad {
		o.Diff, o.F64 = true, g.P(5, 6)
	} else {
		o.NAry = !c.Lisp
	}
	c.Spec = genSpec(g, o)
	if !c.Lisp || g.P(1, 2) {
		for i := 0; i < c.Spec.n(); i++ {
			if g.P(1, 6) {
				c.Reads = append(c.Reads, i)
			}
		}
	}
	return c
}

// genGradCase is a case with symbolic gradients and no read-outs.
func genGradCase(g *Rng, maxOps int) *VMCase {
	c := &VMCase{Grad: true, Mask: uint(g.N(1 << 16))}
	c.Spec = genSpec(g, GenOpts{MinOps: 1, MaxOps: maxOps, Large: 4 * maxOps, Probes: true, Structural: true, LinAlg: true, Diff: true, F64: true})
	return c
}

// VMBuilt is one instance of a VMCase.
type VMBuilt struct {
	*Built
	c     *VMCase
	cost  *G.Node
	sinks []*G.Node
	wrt   []*G.Node
	reads []G.Value
	m     G.VM

	readNodes []*G.Node
	given     []*held // inputs bound so far
	second    *G.Node // second operand of the pair operation
}

// buildGraph builds the case's graph with cost, gradients and read-outs.
func (c *VMCase) buildGraph(hook func(p *ProbeOp, in []G.Value) error, diff func(p *ProbeOp) error) *VMBuilt {
	v := &VMBuilt{Built: c.Spec.Build(hook), c: c}
	for _, p := range v.Probes {
		p.Diff = diff
		p.Taint, p.DiffTaint = c.taint, c.diffTaint
	}
	used := map[int]bool{}
	for _, o := range c.Spec.Ops {
		for _, a := range o.Args {
			used[a] = true
		}
	}
	for i := 0; i < c.Spec.n(); i++ {
		if !used[i] && (i >= len(c.Spec.Leaves) || c.Grad) {
			v.sinks = append(v.sinks, v.Nodes[i])
		}
	}
	if c.Pair > 0 {
		p := &PairOp{ProbeOp{ID: 900, N: 2, K: 3, Shape: c.Spec.shape(c.Pair - 1), DT: c.Spec.dt(), Hook: hook, reg: &v.Probes}}
		v.second = G.NewTensor(v.G, p.DT, len(p.Shape), G.WithShape(p.Shape...), G.WithName(c.Spec.Tag+"second"), G.WithValue(mkValue(p.DT, p.Shape, leafData(5, prod(p.Shape)))))
		v.Probes = append(v.Probes, &p.ProbeOp)
		p.Node = must(G.ApplyOp(p, v.Nodes[c.Pair-1], v.second))
		v.sinks = append(v.sinks, p.Node)
	}
	if c.Grad {
		for _, n := range v.sinks {
			s := n
			if len(n.Shape()) > 0 {
				s = must(G.Sum(n))
			}
			if v.cost == nil {
				v.cost = s
			} else {
				v.cost = must(G.Add(v.cost, s))
			}
		}
		reach := map[int]bool{}
		for i := len(c.Spec.Ops) - 1; i >= 0; i-- {
			for _, a := range c.Spec.Ops[i].Args {
				reach[a] = true
			}
		}
		for i, l := range c.Spec.Leaves {
			if reach[i] && !l.Const && (c.Mask>>uint(i)&1 == 1 || len(v.wrt) == 0 && i == len(c.Spec.Leaves)-1) {
				v.wrt = append(v.wrt, v.Nodes[i])
			}
		}
		if v.second != nil {
			v.wrt = append(v.wrt, v.second)
		}
		if !c.Lisp && len(v.wrt) > 0 {
			if _, err := G.Grad(v.cost, v.wrt...); err != nil {
				panic("valid input refused: Grad: " + err.Error())
			}
		}
	}
	v.reads = readPlaces(len(c.Reads))
	for i, k := range c.Reads {
		v.readNodes = append(v.readNodes, G.Read(v.Nodes[k], &v.reads[i]))
	}
	return v
}

func (v *VMBuilt) machine(opts ...G.VMOpt) G.VM {
	c := v.c
	if c.Lisp {
		if !c.Grad {
			opts = append(opts, G.ExecuteFwdOnly())
		}
		v.m = G.NewLispMachine(v.G, opts...)
		return v.m
	}
	if c.Grad {
		opts = append(opts, G.BindDualValues(v.wrt...))
	}
	if c.Trace {
		opts = append(opts, G.TraceExec())
	}
	if c.Pre {
		prog, loc, err := G.Compile(v.G)
		if err != nil {
			panic("valid input refused: Compile: " + err.Error())
		}
		opts = append(opts, G.WithPrecompiled(prog, loc))
	}
	v.m = G.NewTapeMachine(v.G, opts...)
	return v.m
}

// obs is what a caller can read after a run.
func (v *VMBuilt) obs() map[string]*Flat {
	out := map[string]*Flat{}
	for i, n := range v.sinks {
		out[fmt.Sprintf("sink%d", i)] = flat(n.Value())
	}
	if v.cost != nil {
		out["cost"] = flat(v.cost.Value())
	}
	for i := range v.c.Spec.Leaves {
		out[fmt.Sprintf("leaf%d", i)] = flat(v.Nodes[i].Value())
	}
	if v.c.Grad {
		for _, n := range v.wrt {
			g, err := n.Grad()
			if err != nil {
				out["grad "+n.Name()] = nil
				continue
			}
			out["grad "+n.Name()] = flat(g)
		}
	}
	for i := range v.reads {
		out[fmt.Sprintf("read%d", i)] = flat(v.reads[i])
	}
	if v.c.Trace || v.c.Lisp {
		for i, n := range v.Nodes {
			out[fmt.Sprintf("node%d", i)] = flat(n.Value())
		}
	}
	return out
}

// truth is what a run of a new machine must give, from one evaluation of each
// operation. Direct differentiation is not predicted.
func (v *VMBuilt) truth() (map[string]*Flat, error) {
	ref, err := reference(v.G)
	if err != nil {
		return nil, err
	}
	out := map[string]*Flat{}
	for i, n := range v.sinks {
		out[fmt.Sprintf("sink%d", i)] = ref[n.ID()]
	}
	if v.cost != nil {
		out["cost"] = ref[v.cost.ID()]
	}
	if v.c.Grad && !v.c.Lisp {
		for _, n := range v.wrt {
			if d := n.Deriv(); d != nil {
				out["grad "+n.Name()] = ref[d.ID()]
			}
		}
	}
	for i, k := range v.c.Reads {
		out[fmt.Sprintf("read%d", i)] = ref[v.Nodes[k].ID()]
	}
	for i, n := range v.Nodes {
		out[fmt.Sprintf("node%d", i)] = ref[n.ID()]
		if i < len(v.c.Spec.Leaves) {
			out[fmt.Sprintf("leaf%d", i)] = ref[n.ID()]
		}
	}
	return out, nil
}

// settled is what a caller can read after a run and does not depend on
// whether the tape machine used the memory of intermediate values again.
func (v *VMBuilt) settled() map[string]*Flat {
	out := v.obs()
	if v.c.Lisp || v.c.Trace {
		return out
	}
	for i, n := range v.sinks {
		if v.used(n) {
			delete(out, fmt.Sprintf("sink%d", i))
		}
	}
	if v.cost != nil && v.used(v.cost) {
		delete(out, "cost")
	}
	return out
}

// used tells whether other operations have the node as operand. A result the
// caller knows as final may be one, since equal expressions are shared.
func (v *VMBuilt) used(n *G.Node) bool {
	for it := v.G.To(n.ID()); it.Next(); {
		u := it.Node().(*G.Node)
		read := false
		for _, r := range v.readNodes {
			read = read || r == u
		}
		if !read {
			return true
		}
	}
	return false
}

func sortedKeys(m map[string]*Flat) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (r *R) compareObs(kind, what string, got, want map[string]*Flat) {
	for _, k := range sortedKeys(want) {
		r.ObserveU(got[k].hash())
		if !got[k].eq(want[k]) {
			r.Fail(kind, "%s: %s: got %v, want %v", what, k, got[k], want[k])
		}
	}
}

// compareTruth compares what is in both.
func (r *R) compareTruth(what string, got, want map[string]*Flat) {
	for _, k := range sortedKeys(got) {
		if w, ok := want[k]; ok && !got[k].eq(w) {
			r.Fail("value", "%s: %s: got %v, want %v", what, k, got[k], w)
		}
	}
}

// vmCtl injects failures into a machine's operations.
type vmCtl struct {
	on       bool
	seq      int
	first    *injectedErr
	node     *G.Node
	phase    string
	after    int  // operations begun after the failure
	again    bool // a machine may try the failed operation once more
	returned bool
}

func (c *vmCtl) reset(on bool) { *c = vmCtl{on: on} }

func (c *vmCtl) step(p *ProbeOp, n int, phase string) error {
	if c.again && p.Node == c.node && phase == c.phase {
		// after failing with memory it was given, without any
		c.again = false
		return *c.first
	}
	c.seq++
	if c.first != nil {
		c.again = false
		c.after++
	}
	dawdle(sim.KWhen, 4)
	if c.on && c.first == nil && sim.Choose(sim.KFault, 2) == 1 {
		c.first = &injectedErr{p.ID, n}
		c.node = p.Node
		c.phase = phase
		c.again = p.Pre
		return *c.first
	}
	return nil
}

func (c *vmCtl) hook(p *ProbeOp, in []G.Value) error { return c.step(p, p.Calls, "forward") }
func (c *vmCtl) diff(p *ProbeOp) error               { return c.step(p, p.Diffs, "backward") }

type nodeErr interface{ Node() *G.Node }

// judgeVMErr checks that err is right for what the controller injected.
func (r *R) judgeVMErr(what string, c *vmCtl, err error) {
	if c.first == nil {
		if err != nil {
			r.Fail("spurious-error", "%s: no operation failed but the run returned %v", what, err)
		}
		return
	}
	r.Count("failed operations, "+c.phase, 1)
	if err == nil {
		r.Fail("failure-swallowed", "%s: %v happened (%s) but the run returned success", what, *c.first, c.phase)
		return
	}
	if !strings.Contains(err.Error(), c.first.Error()) {
		r.Fail("error-lost", "%s: the error %q does not carry %q", what, err, c.first.Error())
	}
	var ne nodeErr
	if !errors.As(err, &ne) || ne.Node() != c.node {
		got := "no node"
		if ne != nil {
			got = fmt.Sprintf("node %v", ne.Node())
		}
		r.Fail("error-unattributed", "%s: %s failure of %v (%v): the error identifies %s", what, c.phase, c.node, c.first, got)
	}
}

func runC05(r *R) {
	g := r.Rng
	c := genCase(g, 8)
	r.faultProbs()
	r.note("%s", c)
	var (
		v          *VMBuilt
		ctl        vmCtl
		err        error
		finished   bool
		atReturn   map[string]*Flat
		seqReturn  int
		want       map[string]*Flat
		qerr       error
		quietEnded bool
	)
	r.Quiet(func() {
		q := c.buildGraph(nil, nil)
		qerr = q.machine().RunAll()
		want = q.obs()
		quietEnded = true
	})
	if !quietEnded || qerr != nil {
		r.Fail("error", "an undisturbed run fails: %v", qerr)
		return
	}
	ctl.reset(true)
	res := r.Sim(func() {
		v = c.buildGraph(ctl.hook, ctl.diff)
		m := v.machine()
		err = m.RunAll()
		atReturn = v.obs()
		seqReturn = ctl.seq
		dawdle(sim.KWhen, 30)
		finished = true
	})
	if !finished {
		r.Fail("hang", "RunAll did not return (status %d): %v", res.Status, res.Left)
		return
	}
	r.judgeVMErr("run", &ctl, err)
	if ctl.after > 0 {
		r.Fail("not-quiet", "%d operations were begun after the failing one", ctl.after)
	}
	if ctl.seq != seqReturn {
		r.Fail("not-quiet", "%d operations ran after the run had returned", ctl.seq-seqReturn)
	}
	r.compareObs("not-quiet", "after the run had returned", v.obs(), atReturn)
	if res.Alive > 0 {
		r.Fail("leak", "goroutines left after the run returned %v: %v", err, res.Left)
	}
	if err == nil {
		r.compareObs("value", "run", atReturn, want)
	}
	if ctl.first != nil {
		r.NonTrivial()
	}
}

// zeroGrads clears the gradients of the differentiated inputs.
func (v *VMBuilt) zeroGrads() {
	ns := append([]*G.Node(nil), v.Nodes[:len(v.c.Spec.Leaves)]...)
	if v.second != nil {
		ns = append(ns, v.second)
	}
	for _, n := range ns {
		gr, err := n.Grad()
		if err != nil {
			continue
		}
		switch x := gr.(type) {
		case *G.F64:
			*x = 0
		case *G.F32:
			*x = 0
		case *tensor.Dense:
			x.Zero()
		}
	}
}

// rebind gives the non-constant leaves new values.
func (v *VMBuilt) rebind(k int) {
	if n := v.second; n != nil {
		if err := G.Let(n, mkValue(v.c.Spec.dt(), n.Shape(), leafData(6+uint64(k), prod(n.Shape())))); err != nil {
			panic("valid input refused: Let: " + err.Error())
		}
	}
	for i, l := range v.c.Spec.Leaves {
		if l.Const {
			continue
		}
		val := mkValue(v.c.Spec.dt(), l.Shape, leafData(l.Seed+uint64(k)*977, prod(l.Shape)))
		if err := G.Let(v.Nodes[i], val); err != nil {
			panic("valid input refused: Let: " + err.Error())
		}
		v.given = append(v.given, &held{name: fmt.Sprintf("input of %s", v.Nodes[i].Name()), v: val, want: flat(val)})
	}
}

// spoilt lists the inputs that no longer are what the caller supplied.
func (v *VMBuilt) spoilt() (out []string) {
	for _, h := range v.given {
		if f := tryFlat(h.v); !f.same(h.want) {
			out = append(out, fmt.Sprintf("%s changed from %v to %v", h.name, h.want, f))
		}
	}
	return out
}

func runC06(r *R) {
	g := r.Rng
	c := genCase(g, 7)
	if k := g.N(c.Spec.n()); c.Grad && !c.Lisp && c.Trace && g.P(1, 2) && len(c.Spec.shape(k)) > 0 {
		c.Pair = k + 1
	}
	r.faultProbs()
	r.note("%s", c)
	n := g.Range(1, 4)
	faulty := make([]bool, n)
	bind := make([]int, n+1)
	for i := range faulty {
		faulty[i] = g.P(1, 2)
	}
	for i := range bind {
		bind[i] = -1
		if g.P(1, 2) {
			bind[i] = g.N(4)
		}
	}
	last := -1
	for _, k := range bind {
		if k >= 0 {
			last = k
		}
	}
	r.note("history: faulty=%v bind=%v", faulty, bind)
	var want map[string]*Flat
	var qerr error
	quietEnded := false
	r.Quiet(func() {
		q := c.buildGraph(nil, nil)
		if last >= 0 {
			q.rebind(last)
		}
		qerr = q.machine().RunAll()
		want = q.obs()
		if qerr == nil && c.Grad && !c.Lisp {
			for _, n := range q.wrt {
				if n != q.second && want["grad "+n.Name()] == nil {
					qerr = fmt.Errorf("no gradient was bound to %s", n.Name())
				}
			}
		}
		quietEnded = true
	})
	if !quietEnded || qerr != nil {
		r.Fail("error", "an undisturbed run fails: %v", qerr)
		return
	}
	var (
		v        *VMBuilt
		ctl      vmCtl
		finished bool
		got      map[string]*Flat
		err      error
		steps    int
		spoilt   []string
	)
	res := r.Sim(func() {
		v = c.buildGraph(ctl.hook, ctl.diff)
		m := v.machine()
		for i := 0; i < n; i++ {
			if bind[i] >= 0 {
				v.rebind(bind[i])
			}
			ctl.reset(faulty[i])
			e := m.RunAll()
			r.judgeVMErr(fmt.Sprintf("run %d", i+1), &ctl, e)
			if e != nil || bind[i] >= 0 {
				r.NonTrivial()
			}
			m.Reset()
			v.zeroGrads()
			steps++
		}
		if bind[n] >= 0 {
			v.rebind(bind[n])
		}
		ctl.reset(false)
		v.zeroGrads()
		err = m.RunAll()
		got = v.obs()
		spoilt = v.spoilt()
		finished = true
	})
	if !finished {
		r.Fail("hang", "run %d did not return (status %d): %v", steps+1, res.Status, res.Left)
		return
	}
	if err != nil {
		r.Fail("stuck-failed", "the undisturbed run after Reset failed: %v", err)
		return
	}
	r.compareObs("value", "after reset", got, want)
	for _, s := range spoilt {
		r.Fail("input-modified", "%s", s)
	}
	if res.Alive > 0 {
		r.Fail("leak", "goroutines left: %v", res.Left)
	}
}

// Where read-outs go. The hash code of a read-out is made from the address, so
// it must not depend on what was allocated before.
var (
	places     [1 << 14]G.Value
	usedPlaces int
)

//go:norace
func readPlaces(n int) []G.Value {
	if usedPlaces+n > len(places) {
		return make([]G.Value, n)
	}
	p := places[usedPlaces : usedPlaces+n : usedPlaces+n]
	usedPlaces += n
	return p
}

func clearPlaces() {
	for i := range places[:usedPlaces] {
		places[i] = nil
	}
	usedPlaces = 0
}
