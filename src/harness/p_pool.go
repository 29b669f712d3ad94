package main

import (
	"context"
	"fmt"
	"math"
	"sync"

	G "gorgonia.org/gorgonia"
	xvm "gorgonia.org/gorgonia/x/vm"
	"gorgonia.org/gorgonia/zzverif/sim"
	"gorgonia.org/tensor"
)

func init() {
	register(&Prop{ID: "C13", Run: runC13, Race: true, N: 20,
		Doc:  "recycled memory never shows through in live values",
		Rule: "A run keeps values, gradients, read-outs, trained parameters and clones from 1-2 executed graphs, lets 1-3 goroutines do other work (other graphs, machines and optimisers, some using the kept values as inputs) while another goroutine looks at the kept values, and compares them with what they were; it is non-trivial when the other work ran while values were kept.",
		Real: append([]string{"concurrent (x/vm) machine", "optimisers"}, vmReal...), Stubs: []string{"scheduler, clock and object pools (simulated)"}})
}

// A held value is one the caller got from the library and keeps.
type held struct {
	name  string
	v     G.Value
	again func() G.Value // how the caller would get it once more
	shape func() *Flat   // not a value, but the shape of a node
	want  *Flat
}

// tryFlat is flat for values that may have been destroyed.
func tryFlat(v G.Value) (f *Flat) {
	defer func() {
		if e := recover(); e != nil {
			f = &Flat{Dt: fmt.Sprintf("unreadable: %v", e)}
		}
	}()
	return flat(v)
}

// same is identity of content, shape included.
func (f *Flat) same(o *Flat) bool {
	if f == nil || o == nil {
		return f == o
	}
	if f.Dt != o.Dt || !sameShape(f.Sh, o.Sh) || len(f.Data) != len(o.Data) {
		return false
	}
	for i, x := range f.Data {
		if math.Float64bits(x) != math.Float64bits(o.Data[i]) {
			return false
		}
	}
	return true
}

// A source is a graph whose values are kept after it has been executed.
type source struct {
	Kind   string // "vm", "xvm", "nn"
	NN     *NNCase
	VM     *VMCase
	Spec   *Spec
	Solver solverSpec
	Step   bool // an optimiser step is taken
	Runs   int
	Reset  bool
	Close  bool
}

func (s *source) String() string {
	if s.Kind == "nn" {
		return "nn " + s.NN.String()
	}
	if s.Kind == "xvm" {
		return fmt.Sprintf("xvm runs=%d close=%v %s", s.Runs, s.Close, s.Spec)
	}
	return fmt.Sprintf("vm runs=%d reset=%v close=%v step=%v %+v %s", s.Runs, s.Reset, s.Close, s.Step, s.Solver, s.VM)
}

func genSource(g *Rng) *source {
	s := &source{Kind: "vm", Runs: g.Range(1, 2), Reset: g.P(1, 2), Close: g.P(1, 4)}
	if g.P(1, 5) {
		s.Kind = "xvm"
		s.Spec = genSpec(g, GenOpts{MinOps: 1, MaxOps: 6, Probes: true, NAry: true, Structural: true})
		return s
	}
	if g.P(1, 5) {
		s.Kind = "nn"
		s.NN = genNN(g)
		return s
	}
	s.VM = genCase(g, 7)
	s.Step = s.VM.Grad && g.P(1, 2)
	s.Solver = genSolver(g).suit(s.VM)
	return s
}

// run executes the graph and returns what the caller keeps. What was computed
// is given to check.
func (s *source) run(pre string, check func(map[string]*Flat)) (hs []*held, err error) {
	keep := func(name string, v G.Value, again func() G.Value) {
		hs = append(hs, &held{name: pre + name, v: v, again: again, want: flat(v)})
	}
	nodes := func(g *G.ExprGraph) {
		for i, n := range g.AllNodes() {
			n := n
			shape := func() *Flat {
				return &Flat{Dt: fmt.Sprintf("%v %v", n.Type(), n.Name()), Sh: append([]int(nil), n.Shape()...)}
			}
			hs = append(hs, &held{name: fmt.Sprintf("%sshape of node %d", pre, i), shape: shape, want: shape()})
		}
	}
	if s.Kind == "nn" {
		b := s.NN.build()
		if _, err = b.execute(func(int) {}); err != nil {
			return nil, err
		}
		for i, n := range b.g.AllNodes() {
			n := n
			if n.Value() != nil {
				keep(fmt.Sprintf("node %d", i), n.Value(), n.Value)
			}
			if gr, err := n.Grad(); err == nil && gr != nil {
				keep(fmt.Sprintf("grad of node %d", i), gr, func() G.Value { g, _ := n.Grad(); return g })
			}
		}
		nodes(b.g)
		return hs, nil
	}
	if s.Kind == "xvm" {
		b := s.Spec.Build(nil)
		defer nodes(b.G)
		m := xvm.NewMachine(b.G)
		for i := 0; i < s.Runs; i++ {
			if err = m.Run(context.Background()); err != nil {
				return nil, err
			}
		}
		for k, n := range b.Nodes {
			n := n
			keep(fmt.Sprintf("node%d", k), m.GetResult(n.ID()), func() G.Value { return m.GetResult(n.ID()) })
		}
		if s.Close {
			m.Close()
		}
		return hs, nil
	}
	v := s.VM.buildGraph(nil, nil)
	defer nodes(v.G)
	m := v.machine()
	sol := s.Solver.make()
	for i := 0; i < s.Runs; i++ {
		if i > 0 {
			m.Reset()
			v.zeroGrads()
		}
		if err = m.RunAll(); err != nil {
			return nil, err
		}
	}
	check(v.settled())
	for i := range v.reads {
		i := i
		keep(fmt.Sprintf("read%d", i), v.reads[i], func() G.Value { return v.reads[i] })
	}
	if s.Step && len(v.wrt) > 0 {
		if err = sol.Step(G.NodesToValueGrads(v.wrt)); err != nil {
			return nil, fmt.Errorf("solver: %v", err)
		}
	}
	if s.Reset {
		m.Reset()
	}
	if s.Close {
		m.Close()
	}
	node := func(name string, n *G.Node) {
		if n.Value() != nil {
			keep(name, n.Value(), n.Value)
			c, cerr := G.CloneValue(n.Value())
			if cerr == nil {
				keep("clone of "+name, c, nil)
				cerr = ownClone(n.Value())
			}
			if cerr != nil && err == nil {
				err = fmt.Errorf("clone of %s: %v", name, cerr)
			}
		}
	}
	for i, n := range v.Nodes {
		node(fmt.Sprintf("node%d", i), n)
	}
	if v.cost != nil {
		node("cost", v.cost)
	}
	for _, n := range v.Nodes {
		n := n
		if gr, err := n.Grad(); err == nil && gr != nil {
			keep("grad "+n.Name(), gr, func() G.Value { g, _ := n.Grad(); return g })
		}
	}
	return hs, err
}

// ownClone finds out whether clones of a value and of a part of it have memory
// of their own.
func ownClone(v G.Value) error {
	t, ok := v.(*tensor.Dense)
	if !ok || t.IsScalar() || t.Dtype() != tensor.Float64 {
		return nil
	}
	vs := []G.Value{v}
	if t.Dims() == 2 && t.Shape()[1] > 1 && !t.RequiresIterator() {
		part, err := t.Slice(nil, G.S(1))
		if err != nil {
			return nil // not to be had
		}
		vs = append(vs, part.(*tensor.Dense))
	}
	was := flat(v)
	for i, x := range vs {
		c, err := G.CloneValue(x)
		if err != nil {
			return err
		}
		if f := flat(c); !f.same(flat(x)) {
			return fmt.Errorf("of %v it is %v (%d)", flat(x), f, i)
		}
		data := c.Data().([]float64)
		old := append([]float64(nil), data...)
		for k := range data {
			data[k] = -1e9
		}
		now := flat(v)
		copy(data, old)
		if !now.same(was) {
			return fmt.Errorf("changing it changes what it is a clone of (%d)", i)
		}
	}
	return nil
}

// borrow builds and executes a graph that has kept values as its inputs. A
// machine attaches its engine to its inputs, so it may not be made while
// somebody uses them.
func borrow(g *Rng, hs []*held, attach sync.Locker, between func()) error {
	gr := G.NewGraph()
	var xs []*G.Node
	for i := g.Range(1, 3); i > 0; i-- {
		h := hs[g.N(len(hs))]
		f := h.want
		if f == nil || h.shape != nil || f.Dt != "float64" && f.Dt != "float32" {
			continue
		}
		if _, ok := h.v.(*tensor.Dense); ok && len(f.Sh) == 0 {
			continue // not a scalar to the machines
		}
		dt := tensor.Float64
		if f.Dt == "float32" {
			dt = tensor.Float32
		}
		name := fmt.Sprintf("h%d", i)
		if len(f.Sh) == 0 {
			xs = append(xs, G.NewScalar(gr, dt, G.WithName(name), G.WithValue(h.v)))
		} else {
			xs = append(xs, G.NewTensor(gr, dt, len(f.Sh), G.WithShape(f.Sh...), G.WithName(name), G.WithValue(h.v)))
		}
	}
	var cost *G.Node
	one := false
	for _, x := range xs {
		y := x
		for k := g.Range(1, 3); k > 0; k-- {
			switch g.N(7) {
			case 0:
				y = must(G.Tanh(y))
			case 1:
				y = must(G.Neg(y))
			case 2:
				y = must(G.Add(y, y))
			case 3:
				if y.Dims() == 2 {
					y = must(G.Transpose(y, 1, 0))
				}
			case 4:
				if y.Dims() > 0 {
					y = must(G.Reshape(y, tensor.Shape{y.Shape().TotalSize()}))
				}
			case 5:
				y = must(G.Sub(y, x2like(y)))
			case 6:
				if y.Dims() == 2 {
					y = must(G.Mul(y, must(G.Transpose(y, 1, 0))))
				}
			}
		}
		if y == x {
			y = must(G.Cos(x))
		}
		if y.Dims() > 0 {
			// the lisp machine cannot differentiate a sum of one element
			one = one || y.Shape().TotalSize() == 1
			y = must(G.Sum(y))
		}
		if cost == nil || cost.Dtype() != y.Dtype() {
			cost = y
		} else {
			cost = must(G.Add(cost, y))
		}
	}
	if cost == nil {
		return nil
	}
	between()
	lisp := g.P(1, 2)
	var m G.VM
	attach.Lock()
	switch {
	case lisp && !one && g.P(1, 2) && len(xs) == 1 && len(gr.Roots()) == 1:
		m = G.NewLispMachine(gr)
	case lisp:
		m = G.NewLispMachine(gr, G.ExecuteFwdOnly())
	default:
		if g.P(1, 2) && len(xs) == 1 {
			if _, err := G.Grad(cost, xs...); err != nil {
				attach.Unlock()
				return err
			}
			m = G.NewTapeMachine(gr, G.BindDualValues(xs...))
		} else {
			m = G.NewTapeMachine(gr)
		}
	}
	attach.Unlock()
	runs := g.Range(1, 2)
	for i := 0; i < runs; i++ {
		if err := m.RunAll(); err != nil {
			return err
		}
		between()
		m.Reset()
	}
	m.Close()
	if g.P(1, 2) {
		gr.UnbindAllNonInputs()
	}
	return nil
}

func x2like(n *G.Node) *G.Node { return must(G.Tanh(n)) }

func runC13(r *R) {
	g := r.Rng
	srcs := make([]*source, g.Range(1, 2))
	for i := range srcs {
		srcs[i] = genSource(g)
		r.note("source %d: %s", i, srcs[i])
	}
	type work struct {
		j    *job
		seed uint64
		rel  bool
	}
	ws := make([][]work, g.Range(1, 3))
	for i := range ws {
		for k := g.Range(1, 2); k > 0; k-- {
			w := work{seed: g.Next()}
			if g.P(2, 3) {
				w.j = genJob(g)
				w.j.Release = g.P(1, 3)
				r.note("work %d: release=%v %s", i, w.j.Release, w.j)
			} else {
				r.note("work %d: on kept values", i)
			}
			ws[i] = append(ws[i], w)
		}
	}
	var warm *job
	if g.P(1, 2) {
		warm = genJob(g)
		warm.Release = g.P(1, 2)
		r.note("before: %s", warm)
	}
	r.faultProbs()
	truths := make([]map[string]*Flat, len(srcs))
	for i, s := range srcs {
		if s.Kind != "vm" {
			continue
		}
		var qerr error
		ended := false
		r.Quiet(func() {
			truths[i], qerr = s.VM.buildGraph(nil, nil).truth()
			ended = true
		})
		if !ended || qerr != nil {
			r.Fail("error", "source %d cannot be evaluated: %v", i, qerr)
			return
		}
	}
	var (
		finished bool
		busy     int
		mu       sync.Mutex
		looks    int

		borrowing, looking sync.Mutex
	)
	res := r.Sim(func() {
		if warm != nil {
			if _, err := warm.do(func() {}); err != nil {
				r.Fail("error", "earlier work: %v", err)
				return
			}
		}
		var hs []*held
		for i, s := range srcs {
			h, err := s.run(fmt.Sprintf("source %d: ", i), func(got map[string]*Flat) {
				r.compareTruth(fmt.Sprintf("source %d after the run", i), got, truths[i])
			})
			if err != nil {
				r.Fail("error", "source %d: %v", i, err)
				return
			}
			hs = append(hs, h...)
		}
		check := func(when string) {
			looks++
			looking.Lock()
			defer looking.Unlock()
			for _, h := range hs {
				if h.shape != nil {
					if got := h.shape(); !got.same(h.want) {
						r.Fail("changed", "%s: %s: was %v, is %v", when, h.name, h.want, got)
					}
					continue
				}
				if got := tryFlat(h.v); !got.same(h.want) {
					r.Fail("changed", "%s: %s: was %v, is %v", when, h.name, h.want, got)
				}
				if h.again != nil {
					if got := tryFlat(h.again()); !got.same(h.want) {
						r.Fail("changed", "%s: %s read again: was %v, is %v", when, h.name, h.want, got)
					}
				}
			}
		}
		errs := make([]error, len(ws))
		busy = len(ws)
		var wg sync.WaitGroup
		for i := range ws {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				defer func() { mu.Lock(); busy--; mu.Unlock() }()
				for _, w := range ws[i] {
					dawdle(sim.KWhen, 8)
					var err error
					if w.j != nil {
						_, err = w.j.do(func() { dawdle(sim.KWhen, 6) })
					} else {
						borrowing.Lock()
						err = borrow(&Rng{w.seed}, hs, &looking, func() { dawdle(sim.KWhen, 6) })
						borrowing.Unlock()
					}
					if err != nil {
						errs[i] = err
						return
					}
				}
			}(i)
		}
		for i := 0; i < 6; i++ {
			mu.Lock()
			b := busy
			mu.Unlock()
			if b == 0 {
				break
			}
			dawdle(sim.KWhen, 40)
			check("during other work")
		}
		wg.Wait()
		for i, err := range errs {
			if err != nil {
				r.Fail("error", "work %d: %v", i, err)
			}
		}
		check("after other work")
		for _, h := range hs {
			r.ObserveU(h.want.hash())
		}
		r.Count("kept values", len(hs))
		finished = true
	})
	if r.viol != nil {
		return
	}
	if !finished {
		r.Fail("hang", "not finished (status %d): %v", res.Status, res.Left)
		return
	}
	if res.Alive > 0 {
		r.Fail("leak", "goroutines left: %v", res.Left)
	}
	r.Count("looks at kept values", looks)
	r.NonTrivial()
}
