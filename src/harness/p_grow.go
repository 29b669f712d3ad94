package main

import (
	"context"
	"fmt"
	"sync"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/encoding/dot"
	xvm "gorgonia.org/gorgonia/x/vm"
	"gorgonia.org/gorgonia/zzverif/sim"
)

func init() {
	register(&Prop{ID: "C23", Run: runC23, Race: true, N: 20,
		Doc:  "a graph that was used can be extended and used again",
		Rule: "A run builds a random graph in 2-4 stages; between the stages the graph so far is inspected, drawn, copied, compiled or executed on a machine of any kind, with failing operations and changed inputs; then a new machine of any kind executes the whole and is compared with the same machine on the same graph built without the uses. It is non-trivial when the graph was executed before it was extended.",
		Real: append([]string{"concurrent (x/vm) machine", "DOT encoder"}, vmReal...), Stubs: xvmStubs})
}

const (
	useTape = iota
	useTrace
	useLisp
	useLispGrad
	useConc
	useSymGrad
	useLook
	useKinds
)

var useNames = [useKinds]string{"tape", "traced tape", "lisp", "lisp gradients", "concurrent", "symbolic gradients", "look"}

// stage is a part of the construction and what is done after it.
type stage struct {
	Ops    int // operations there are after it
	Use    int
	Faulty bool
	Bind   int // inputs bound before the use, or -1
	Unbind bool
	Join   bool // a cost includes the one before
	Looks  uint
	Read   int  // number of a node that is read out from now on, or -1
	Part   int  // use what this node depends on only, or -1
	Copy   bool // use and extend a copy from now on
}

type growCase struct {
	VM     *VMCase
	Stages []stage
	Plain  bool // symbolic gradients are read from their own nodes
}

func (c *growCase) String() string {
	s := ""
	for _, t := range c.Stages {
		s += fmt.Sprintf("{%d ops, %s faulty=%v bind=%d unbind=%v join=%v looks=%x read=%d part=%d copy=%v} ", t.Ops, useNames[t.Use], t.Faulty, t.Bind, t.Unbind, t.Join, t.Looks, t.Read, t.Part, t.Copy)
	}
	return fmt.Sprintf("%splain=%v mask=%x %s", s, c.Plain, c.VM.Mask, c.VM.Spec)
}

func genGrow(g *Rng) *growCase {
	c := &growCase{VM: &VMCase{Mask: uint(g.N(1 << 16))}}
	diff := g.P(2, 3)
	o := GenOpts{MinOps: 2, MaxOps: 9, Large: 30, Probes: true, ManyProbes: g.P(1, 2), Structural: true}
	uses := []int{useTape, useTrace, useLisp, useConc, useLook}
	if diff {
		o.Diff, o.F64 = true, g.P(5, 6)
		// derivatives are results, too, and direct differentiation wants
		// single numbers as results
		k := useLispGrad
		if g.P(1, 2) {
			k = useSymGrad
			if c.Plain = g.P(1, 3); c.Plain {
				// the lisp machine gives nodes places for gradients
				uses = []int{useTape, useTrace, useConc, useLook}
			}
		}
		uses = append(uses, k, k, k)
	} else {
		o.NAry = g.P(1, 2)
		if o.NAry {
			uses = []int{useTape, useTrace, useConc, useLook}
		}
	}
	c.VM.Spec = genSpec(g, o)
	reads := g.P(1, 3)
	if reads {
		// the concurrent machine has no read-outs
		var us []int
		for _, u := range uses {
			if u != useConc {
				us = append(us, u)
			}
		}
		uses = us
	}
	n := g.Range(2, 4)
	last := 0
	for i := 0; i < n; i++ {
		t := stage{Use: uses[g.N(len(uses))], Faulty: g.P(1, 2), Bind: -1, Unbind: g.P(1, 4), Join: g.P(2, 3), Looks: uint(g.N(1 << 10)), Read: -1, Part: -1}
		if g.P(1, 4) {
			t.Part = g.N(1 << 10)
		}
		if reads && g.P(2, 3) {
			t.Read = g.N(1 << 10)
		}
		if g.P(1, 2) {
			t.Bind = g.N(4)
		}
		left := len(c.VM.Spec.Ops) - last
		t.Ops = last + g.N(left+1)
		if i == 0 && left > 0 {
			t.Ops = last + g.Range(1, left)
		}
		if i == n-1 {
			t.Ops = last + left
			t.Faulty = false
			if t.Use == useLook {
				t.Use = useTrace
			}
		}
		t.Copy = g.P(1, 8)
		last = t.Ops
		c.Stages = append(c.Stages, t)
	}
	return c
}

// grown is a graph under construction.
type grown struct {
	c     *growCase
	v     *VMBuilt
	ctl   *vmCtl
	hook  func(p *ProbeOp, in []G.Value) error
	dirty bool // values that share memory may be bound
	runs  int
	reads []*G.Value
	conc  bool // operations are executed concurrently
	mu    sync.Mutex

	attempt func(i int)          // before operation i is built
	again   func(err error) bool // before and after a differentiation
	logged  bool                 // a softmax turned into its logarithm
}

// forward may make an operation fail.
func (w *grown) forward(p *ProbeOp, in []G.Value) error {
	if !w.conc {
		return w.ctl.hook(p, in)
	}
	dawdle(sim.KWhen, 4)
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.ctl.on && w.ctl.first == nil && sim.Choose(sim.KFault, 2) == 1 {
		w.ctl.first = &injectedErr{p.ID, 1}
		return *w.ctl.first
	}
	return nil
}

func (c *growCase) start(ctl *vmCtl) *grown {
	w := &grown{c: c, ctl: ctl}
	if ctl != nil {
		w.hook = w.forward
	}
	leaves := *c.VM.Spec
	leaves.Ops = nil
	w.v = &VMBuilt{Built: leaves.Build(w.hook), c: c.VM}
	w.v.Spec = c.VM.Spec
	return w
}

// extend builds the operations of a stage.
func (w *grown) extend(t stage) {
	w.ops(t)
	if t.Read >= 0 {
		n := w.v.Nodes[t.Read%len(w.v.Nodes)]
		if w.v.cost != nil && t.Read&3 == 0 {
			n = w.v.cost
		}
		into := &readPlaces(1)[0]
		w.v.readNodes = append(w.v.readNodes, G.Read(n, into))
		w.reads = append(w.reads, into)
	}
}

func (w *grown) ops(t stage) {
	s := w.c.VM.Spec
	for i := len(w.v.Nodes) - len(s.Leaves); i < t.Ops; i++ {
		if w.attempt != nil {
			w.attempt(i)
		}
		var a []*G.Node
		for _, k := range s.Ops[i].Args {
			a = append(a, w.v.Nodes[k])
		}
		w.v.Nodes = append(w.v.Nodes, w.v.mkOp(i, s.Ops[i], a, w.hook))
	}
	for _, p := range w.v.Probes {
		if w.ctl != nil {
			p.Diff = w.ctl.diff
		}
	}
	if w.attempt != nil {
		w.attempt(t.Ops)
	}
	if t.Use != useLispGrad && t.Use != useSymGrad {
		return
	}
	// one number of all results there are
	var sum *G.Node
	if t.Join {
		sum = w.v.cost
	}
	used := map[int]bool{}
	for _, o := range s.Ops[:t.Ops] {
		for _, a := range o.Args {
			used[a] = true
		}
	}
	for i, n := range w.v.Nodes {
		if used[i] {
			continue
		}
		if len(n.Shape()) > 0 {
			n = must(G.Sum(n))
		}
		if sum == nil {
			sum = n
		} else {
			sum = must(G.Add(sum, n))
		}
	}
	w.v.cost = sum
	if t.Use == useSymGrad && len(w.v.wrt) == 0 {
		reach := map[int]bool{}
		for i := t.Ops - 1; i >= 0; i-- {
			for _, a := range s.Ops[i].Args {
				reach[a] = true
			}
		}
		for i, l := range s.Leaves {
			if reach[i] && !l.Const && (w.c.VM.Mask>>uint(i)&1 == 1 || len(w.v.wrt) == 0) {
				w.v.wrt = append(w.v.wrt, w.v.Nodes[i])
			}
		}
		if len(w.v.wrt) > 0 {
			if w.again != nil {
				w.again(nil)
			}
			_, err := G.Grad(sum, w.v.wrt...)
			for w.again != nil && w.again(err) {
				_, err = G.Grad(sum, w.v.wrt...)
			}
			if err != nil {
				panic("valid input refused: Grad: " + err.Error())
			}
		}
	}
}

func (w *grown) look(bits uint) {
	g := w.v.G
	if bits&1 != 0 {
		g.Roots()
	}
	if bits&2 != 0 {
		_ = g.ToDot()
	}
	if bits&4 != 0 {
		if _, err := dot.Marshal(g); err != nil {
			panic("valid input refused: " + err.Error())
		}
	}
	if bits&8 != 0 {
		g.Clone()
	}
	if bits&16 != 0 {
		if _, _, err := G.Compile(g); err != nil {
			panic("valid input refused: " + err.Error())
		}
	}
	if bits&32 != 0 {
		if _, err := G.Sort(g); err != nil {
			panic("valid input refused: " + err.Error())
		}
	}
	if bits&64 != 0 {
		for _, n := range g.AllNodes() {
			_ = n.Hashcode()
			_ = n.Name()
		}
	}
	if bits&128 != 0 {
		n := w.v.Nodes[len(w.v.Nodes)-1]
		g.SubgraphRoots(n)
	}
	if bits&256 != 0 {
		n := w.v.Nodes[len(w.v.Nodes)-1]
		_ = n.ToDot()
	}
	if bits&512 != 0 {
		for range G.WalkGraph(w.v.Nodes[len(w.v.Nodes)-1]) {
		}
	}
}

// use executes or inspects the graph as it is. It returns what can be read afterwards.
func (w *grown) use(t stage) (obs map[string]*Flat, err error) {
	g := w.v.G
	if t.Bind >= 0 {
		w.v.rebind(t.Bind)
	}
	fresh := t.Use == useLisp || t.Use == useLispGrad || t.Use == useTrace || t.Use == useSymGrad && w.c.Plain
	if t.Unbind || fresh && w.dirty {
		g.UnbindAllNonInputs()
		w.dirty = false
	}
	obs = map[string]*Flat{}
	in := func(n *G.Node) bool { return true }
	if t.Part >= 0 && t.Use != useSymGrad && t.Use != useLook {
		top := w.v.Nodes[t.Part%len(w.v.Nodes)]
		if t.Use == useLispGrad || w.v.cost != nil && t.Part&3 == 0 {
			top = w.v.cost
		}
		sub := g.SubgraphRoots(top)
		if t.Looks&2 != 0 {
			sub = g.ExactSubgraphRoots(top)
		}
		// a program needs an input
		if len(sub.Inputs()) > 0 {
			g = sub
		}
		part := map[*G.Node]bool{}
		for _, n := range g.AllNodes() {
			part[n] = true
		}
		in = func(n *G.Node) bool { return part[n] }
	}
	all := func(value func(n *G.Node) G.Value) {
		for i, n := range w.v.Nodes {
			if in(n) {
				obs[fmt.Sprintf("node%d", i)] = flat(value(n))
			}
		}
		if w.v.cost != nil && in(w.v.cost) {
			obs["cost"] = flat(value(w.v.cost))
		}
	}
	grads := func(ns []*G.Node) {
		for _, n := range ns {
			gr, gerr := n.Grad()
			if gerr != nil {
				obs["grad "+n.Name()] = nil
				continue
			}
			obs["grad "+n.Name()] = flat(gr)
		}
	}
	bound := func(n *G.Node) G.Value { return n.Value() }
	var m G.VM
	switch t.Use {
	case useLook:
		w.look(t.Looks)
		return
	case useConc:
		w.conc = true
		x := xvm.NewMachine(g)
		if err = x.Run(context.Background()); err == nil {
			all(func(n *G.Node) G.Value { return x.GetResult(n.ID()) })
		}
		x.Close()
		w.conc = false
		w.runs++
		return
	case useTape, useTrace:
		w.dirty = true
		if t.Use == useTape {
			m = G.NewTapeMachine(g)
		} else {
			m = G.NewTapeMachine(g, G.TraceExec())
		}
	case useSymGrad:
		w.dirty = true
		if w.c.Plain {
			if t.Looks&4 != 0 {
				m = G.NewTapeMachine(g, G.TraceExec())
			} else {
				m = G.NewTapeMachine(g)
			}
			break
		}
		w.v.zeroGrads()
		m = G.NewTapeMachine(g, G.BindDualValues(w.v.wrt...))
	case useLisp:
		m = G.NewLispMachine(g, G.ExecuteFwdOnly())
	case useLispGrad:
		w.v.zeroGrads()
		m = G.NewLispMachine(g)
	}
	w.runs++
	if err = m.RunAll(); err == nil {
		switch t.Use {
		case useTape, useSymGrad:
			for i, n := range w.v.Nodes {
				if i < len(w.c.VM.Spec.Leaves) || in(n) && !w.v.used(n) {
					obs[fmt.Sprintf("node%d", i)] = flat(n.Value())
				}
			}
			if w.v.cost != nil && in(w.v.cost) && !w.v.used(w.v.cost) {
				obs["cost"] = flat(w.v.cost.Value())
			}
			if t.Use == useSymGrad {
				grads(w.v.wrt)
			}
		case useLispGrad:
			all(bound)
			grads(w.v.Nodes[:len(w.c.VM.Spec.Leaves)])
		default:
			all(bound)
		}
	}
	for i, x := range w.reads {
		if err == nil && in(w.v.readNodes[i]) {
			obs[fmt.Sprintf("read%d", i)] = flat(*x)
		}
	}
	if t.Looks&1 != 0 {
		m.Reset()
	}
	m.Close()
	return
}

// copy goes on with a copy of the graph.
func (w *grown) copy() {
	g := w.v.G.Clone().(*G.ExprGraph)
	twin := func(ns []*G.Node) (out []*G.Node) {
		for _, n := range ns {
			out = append(out, g.Node(n.ID()).(*G.Node))
		}
		return out
	}
	v := *w.v
	b := *w.v.Built
	v.Built = &b
	b.G, b.Nodes = g, twin(b.Nodes)
	v.wrt, v.readNodes = twin(v.wrt), twin(v.readNodes)
	if v.cost != nil {
		v.cost = twin([]*G.Node{v.cost})[0]
	}
	for _, p := range b.Probes {
		p.reg = &b.Probes
		if p.Node != nil {
			p.Node = twin([]*G.Node{p.Node})[0]
		}
	}
	w.v = &v
}

func runC23(r *R) {
	g := r.Rng
	c := genGrow(g)
	r.faultProbs()
	r.note("%s", c)
	n := len(c.Stages)
	fin := c.Stages[n-1]
	last := -1
	for _, t := range c.Stages {
		if t.Bind >= 0 {
			last = t.Bind
		}
	}
	var (
		want, truth map[string]*Flat
		qerr        error
		ended       bool
	)
	r.Quiet(func() {
		q := c.start(nil)
		for _, t := range c.Stages {
			q.extend(t)
		}
		t := fin
		t.Bind = last
		want, qerr = q.use(t)
		if qerr == nil {
			var ref map[int64]*Flat
			if ref, qerr = reference(q.v.G); qerr == nil {
				truth = map[string]*Flat{}
				for i, n := range q.v.Nodes {
					truth[fmt.Sprintf("node%d", i)] = ref[n.ID()]
				}
				if q.v.cost != nil {
					truth["cost"] = ref[q.v.cost.ID()]
				}
			}
		}
		ended = true
	})
	if !ended || qerr != nil {
		r.Fail("error", "the graph built at once: %v", qerr)
		return
	}
	r.compareTruth("the graph built at once", want, truth)
	var (
		w        *grown
		ctl      vmCtl
		got      map[string]*Flat
		err      error
		finished bool
		at       int
		spoilt   []string
	)
	res := r.Sim(func() {
		w = c.start(&ctl)
		for i, t := range c.Stages {
			at = i
			ctl.reset(t.Faulty)
			w.extend(t)
			if t.Copy {
				w.copy()
			}
			got, err = w.use(t)
			if i == n-1 {
				break
			}
			if t.Use == useConc {
				if (err != nil) != (ctl.first != nil) {
					r.Fail("error", "use %d: failed operation: %v, error: %v", i+1, ctl.first, err)
				}
				if err != nil {
					r.Count("failed operations, concurrent", 1)
				}
			} else {
				r.judgeVMErr(fmt.Sprintf("use %d", i+1), &ctl, err)
			}
			if w.runs > 0 {
				r.NonTrivial()
			}
			dawdle(sim.KWhen, 4)
		}
		spoilt = w.v.spoilt()
		finished = true
	})
	if !finished {
		r.Fail("hang", "use %d did not end (status %d): %v", at+1, res.Status, res.Left)
		return
	}
	if err != nil {
		r.Fail("error", "the graph built in stages: %v", err)
		return
	}
	r.compareObs("value", "the graph built in stages", got, want)
	for _, s := range spoilt {
		r.Fail("input-modified", "%s", s)
	}
	if res.Alive > 0 {
		r.Fail("leak", "goroutines left: %v", res.Left)
	}
	r.Count("uses before the last extension", n-1)
}
