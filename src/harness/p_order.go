package main

import (
	"fmt"

	G "gorgonia.org/gorgonia"
)

func init() {
	register(&Prop{ID: "C16", Run: runC16, Race: false, N: 30,
		Doc:  "results do not depend on hash-table iteration order",
		Rule: "A run builds, differentiates, compiles and executes the same random expressions 1-3 times, as a whole and in parts, each time with other hash-table iteration orders and pool choices, and compares values and gradients with one evaluation of each operation and with an execution in canonical order; it is non-trivial when an iteration order differed from the canonical one.",
		Real: vmReal, Stubs: []string{"hash-table iteration order and object pools (simulated)"}})
}

// orderCase is a graph with something built on top of its gradients.
type orderCase struct {
	VM    *VMCase
	OnTop uint // which gradients are used further
	Bools []int
	Part  uint // which nodes a partial program is compiled for
}

type orderBuilt struct {
	*VMBuilt
	tops []*G.Node
}

func (c *orderCase) build() *orderBuilt {
	b := &orderBuilt{VMBuilt: c.VM.buildGraph(nil, nil)}
	if c.VM.Grad && !c.VM.Lisp {
		for i, n := range b.wrt {
			if d := n.Deriv(); d != nil && c.OnTop>>uint(i)&1 == 1 {
				t := must(G.Tanh(d))
				if t.Dims() > 0 {
					t = must(G.Sum(t))
				}
				b.tops = append(b.tops, must(G.Sub(t, b.cost)))
			}
		}
	}
	if !(c.VM.Lisp && c.VM.Grad) {
		for _, k := range c.Bools {
			if n := b.Nodes[k]; n.Dtype() == c.VM.Spec.dt() {
				b.tops = append(b.tops, must(G.Gt(n, must(G.Tanh(n)), false)))
			}
		}
	}
	return b
}

func (b *orderBuilt) truth() (map[string]*Flat, error) {
	out, err := b.VMBuilt.truth()
	if err != nil {
		return nil, err
	}
	ref, err := reference(b.G)
	for i, n := range b.tops {
		out[fmt.Sprintf("top%d", i)] = ref[n.ID()]
	}
	return out, err
}

func (b *orderBuilt) whole() (map[string]*Flat, error) {
	m := b.machine()
	defer m.Close()
	if err := m.RunAll(); err != nil {
		return nil, err
	}
	out := b.settled()
	for i, n := range b.tops {
		out[fmt.Sprintf("top%d", i)] = flat(n.Value())
	}
	return out, nil
}

// part compiles and executes a program for some of the results.
func (b *orderBuilt) part(mask uint) (map[string]*Flat, error) {
	var outs G.Nodes
	names := map[string]*G.Node{}
	add := func(name string, n *G.Node) {
		if n != nil && mask&1 == 1 && n.Op() != nil && n.Op().Arity() != 0 {
			names[name] = n
			outs = append(outs, n)
		}
		mask >>= 1
	}
	if b.cost != nil {
		add("cost", b.cost)
	}
	for i, n := range b.tops {
		add(fmt.Sprintf("top%d", i), n)
	}
	for i, n := range b.sinks {
		if !b.used(n) {
			add(fmt.Sprintf("sink%d", i), n)
		}
	}
	for _, n := range b.wrt {
		if d := n.Deriv(); d != nil && !b.used(d) {
			add("value of grad "+n.Name(), d)
		}
	}
	var reads []int
	for i, n := range b.readNodes {
		if mask&1 == 1 {
			outs = append(outs, n)
			reads = append(reads, i)
		}
		mask >>= 1
	}
	if len(outs) == 0 {
		return nil, nil
	}
	below := map[*G.Node]bool{}
	var walk func(n *G.Node)
	walk = func(n *G.Node) {
		if below[n] {
			return
		}
		below[n] = true
		it := b.G.From(n.ID())
		for it.Next() {
			walk(it.Node().(*G.Node))
		}
	}
	for _, n := range outs {
		walk(n)
	}
	var ins G.Nodes
	for i, l := range b.c.Spec.Leaves {
		if below[b.Nodes[i]] && !l.Const {
			ins = append(ins, b.Nodes[i])
		}
	}
	prog, loc, err := G.CompileFunction(b.G, ins, outs)
	if err != nil {
		return nil, err
	}
	m := G.NewTapeMachine(b.G, G.WithPrecompiled(prog, loc))
	defer m.Close()
	if err := m.RunAll(); err != nil {
		return nil, err
	}
	out := map[string]*Flat{}
	for k, n := range names {
		if names["cost"] == n && k != "cost" {
			continue
		}
		// a result that others are computed from may be overwritten
		clobbered := false
		it := b.G.To(n.ID())
		for it.Next() {
			clobbered = clobbered || below[it.Node().(*G.Node)]
		}
		if !clobbered {
			out[k] = flat(n.Value())
		}
	}
	for _, i := range reads {
		out[fmt.Sprintf("read%d", i)] = flat(b.reads[i])
	}
	return out, nil
}

func runC16(r *R) {
	g := r.Rng
	max := g.Pick(6, 12, 20)
	c := &orderCase{VM: genCase(g, max), OnTop: uint(g.N(16)), Part: uint(g.N(1 << 12))}
	for i := g.N(3); i > 0; i-- {
		c.Bools = append(c.Bools, g.N(c.VM.Spec.n()))
	}
	times := g.Range(1, 3)
	r.note("ontop=%x bools=%v part=%x times=%d %s", c.OnTop, c.Bools, c.Part, times, c.VM)
	var (
		truth, canon map[string]*Flat
		qerr         error
		ended        bool
	)
	r.Quiet(func() {
		if truth, qerr = c.build().truth(); qerr == nil {
			canon, qerr = c.build().whole()
		}
		ended = true
	})
	if !ended || qerr != nil {
		r.Fail("error", "execution in canonical order: %v", qerr)
		return
	}
	for _, k := range sortedKeys(truth) {
		if len(k) > 5 && k[:5] == "grad " {
			truth["value of "+k] = truth[k]
		}
	}
	r.compareTruth("execution in canonical order", canon, truth)
	finished := false
	parts := 0
	res := r.Sim(func() {
		for i := 0; i < times; i++ {
			what := fmt.Sprintf("execution %d", i+1)
			got, err := c.build().whole()
			if err != nil {
				r.Fail("error", "%s: %v", what, err)
				return
			}
			r.compareObs("value", what, got, canon)
			r.compareTruth(what, got, truth)
			if c.VM.Lisp {
				continue
			}
			b := c.build()
			got, err = b.part(c.Part)
			if err != nil {
				r.Fail("error", "%s of a part: %v", what, err)
				return
			}
			r.compareTruth(what+" of a part", got, truth)
			parts += len(got)
		}
		finished = true
	})
	if r.viol != nil {
		return
	}
	if !finished {
		r.Fail("hang", "not finished (status %d): %v", res.Status, res.Left)
		return
	}
	if res.Alive > 0 {
		r.Fail("leak", "goroutines left: %v", res.Left)
	}
	r.Count("results of partial programs", parts)
	r.NonTrivial()
}
