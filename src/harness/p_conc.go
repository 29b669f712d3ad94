package main

import (
	"context"
	"fmt"
	"sync"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/encoding/dot"
	xvm "gorgonia.org/gorgonia/x/vm"
	"gorgonia.org/gorgonia/zzverif/sim"
)

func init() {
	register(&Prop{ID: "C08", Run: runC08, Race: true, Cold: true, N: 20,
		Doc:  "independent graphs can be used from concurrent goroutines",
		Rule: "A run starts 2-4 goroutines, each building, differentiating, compiling, executing and training graphs of its own on any of the machines, and compares what each saw with the same work done alone; it is non-trivial when at least two goroutines were active at the same time.",
		Real: append([]string{"concurrent (x/vm) machine", "optimisers"}, vmReal...), Stubs: []string{"scheduler, clock and object pools (simulated)"}})
}

// solverSpec describes an optimiser.
type solverSpec struct {
	Kind string
	L2   bool
	L1   bool
	Clip bool
	B    float64
}

var solverKinds = []string{"vanilla", "rmsprop", "adam", "momentum", "adagrad", "bb", "adamw"}

func genSolver(g *Rng) solverSpec {
	s := solverSpec{Kind: solverKinds[g.N(len(solverKinds))], L2: g.P(1, 4), L1: g.P(1, 6), Clip: g.P(1, 4), B: 1}
	if g.P(1, 4) {
		s.B = 2
	}
	return s
}

// suit makes the optimiser one that supports the parameters of the case.
func (s solverSpec) suit(c *VMCase) solverSpec {
	if s.Kind == "bb" || s.Kind == "adamw" {
		for _, l := range c.Spec.Leaves {
			if len(l.Shape) == 0 {
				s.Kind = "vanilla" // these take tensors only
			}
		}
	}
	if c.Spec.F32 {
		s = solverSpec{Kind: "vanilla", B: 1} // the others multiply with doubles
	}
	return s
}

func (s solverSpec) make() G.Solver {
	opts := []G.SolverOpt{G.WithLearnRate(0.01)}
	if s.L2 {
		opts = append(opts, G.WithL2Reg(0.02))
	}
	if s.L1 {
		opts = append(opts, G.WithL1Reg(0.03))
	}
	if s.Clip {
		opts = append(opts, G.WithClip(0.5))
	}
	if s.B != 1 {
		opts = append(opts, G.WithBatchSize(s.B))
	}
	switch s.Kind {
	case "vanilla":
		return G.NewVanillaSolver(opts...)
	case "rmsprop":
		return G.NewRMSPropSolver(opts...)
	case "adam":
		return G.NewAdamSolver(opts...)
	case "momentum":
		return G.NewMomentum(opts...)
	case "adagrad":
		return G.NewAdaGradSolver(opts...)
	case "bb":
		return G.NewBarzilaiBorweinSolver(opts...)
	case "adamw":
		return G.NewAdamW(opts...)
	}
	panic("harness: unknown solver " + s.Kind)
}

// A job is work on graphs that nobody else uses.
type job struct {
	Kind   string
	VM     *VMCase
	NN     *NNCase
	Spec   *Spec
	Solver solverSpec
	Steps  int
	Extras uint // what else is done with the graph before it runs

	Release bool // values are given up at the end
	Rebind  bool // every step has new inputs
}

// extras uses the graph in ways that are not execution. What comes out in a
// definite form is returned.
func (v *VMBuilt) extras(mask uint) map[string]*Flat {
	out := map[string]*Flat{}
	count := func(name string, n int) { out[name] = &Flat{Dt: "int", Data: []float64{float64(n)}} }
	if mask&1 != 0 {
		if len(v.G.ToDot()) == 0 {
			panic("no dot output")
		}
	}
	if mask&2 != 0 {
		if _, err := dot.Marshal(v.G); err != nil {
			panic("dot: " + err.Error())
		}
	}
	if mask&4 != 0 {
		g := v.G.Clone().(*G.ExprGraph)
		count("nodes of the clone", len(g.AllNodes()))
	}
	if mask&8 != 0 {
		for i, n := range v.sinks {
			count(fmt.Sprintf("nodes below sink %d", i), len(v.G.SubgraphRoots(n).AllNodes()))
		}
	}
	if mask&16 != 0 {
		for i, f := range []G.InitWFn{G.Gaussian(0, 1), G.Uniform(-1, 1), G.GlorotN(1), G.GlorotU(1), G.HeN(1), G.HeU(1), G.Zeroes(), G.Ones(), G.RangedFrom(2)} {
			n := G.NewMatrix(G.NewGraph(), G.Float64, G.WithShape(2, 3), G.WithName("w"), G.WithInit(f))
			fl := flat(n.Value())
			if i < 6 {
				count(fmt.Sprintf("values of initialiser %d", i), len(fl.Data))
			} else {
				out[fmt.Sprintf("initialiser %d", i)] = fl
			}
		}
	}
	if mask&32 != 0 {
		a := G.NewVector(G.NewGraph(), G.Float64, G.WithShape(3), G.WithName("a"), G.WithInit(G.RangedFrom(1)))
		for _, f := range []func(*G.Node) (*G.Node, error){G.Softplus, G.Log1p, G.Expm1, G.Neg, G.Inverse, G.Sign, G.Cube, G.InverseSqrt, G.Abs} {
			must(f(a))
		}
		count("nodes of the other graph", len(a.Graph().AllNodes()))
		out["one"] = flat(must(G.Add(a, G.NewConstant(1.0))).Graph().Constant(G.NewF64(1)).Value())
	}
	return out
}

func (j *job) String() string {
	switch j.Kind {
	case "train":
		return fmt.Sprintf("train %+v %d steps extras=%x: %s", j.Solver, j.Steps, j.Extras, j.VM)
	case "nn":
		return "nn " + j.NN.String()
	}
	return j.Kind + " " + j.Spec.String()
}

// genLike generates a network with a layer like those of another one.
func genLike(g *Rng, c *NNCase) *NNCase {
	if len(c.Layers) == 0 {
		return c
	}
	kind := c.Layers[g.N(len(c.Layers))].Kind
	for i := 0; i < 100; i++ {
		d := genNN(g)
		for _, l := range d.Layers {
			if l.Kind == kind {
				return d
			}
		}
	}
	return c
}

func genJob(g *Rng) *job {
	switch g.N(8) {
	case 0:
		j := &job{Kind: "nn", NN: genNN(g)}
		j.NN.Runs = 1
		return j
	case 1:
		return &job{Kind: "xvm", Spec: genSpec(g, GenOpts{MinOps: 1, MaxOps: 5, Probes: true, NAry: true, Structural: true}), Steps: g.Range(1, 2)}
	}
	c := genCase(g, 5)
	c.Trace = false
	j := &job{Kind: "train", VM: c, Steps: g.Range(1, 3), Solver: genSolver(g)}
	j.Solver = j.Solver.suit(c)
	if j.Solver.Kind == "bb" && j.Steps > 2 {
		j.Steps = 2 // later step sizes are quotients of small differences
	}
	if g.P(1, 2) {
		j.Extras = uint(g.N(64))
	}
	return j
}

// do performs the job; between is called between steps.
func (j *job) do(between func()) (map[string]*Flat, error) {
	out := map[string]*Flat{}
	put := func(step int, m map[string]*Flat) {
		for k, v := range m {
			out[fmt.Sprintf("step%d %s", step, k)] = v
		}
	}
	switch j.Kind {
	case "nn":
		return j.NN.build().execute(func(int) {})
	case "xvm":
		b := j.Spec.Build(nil)
		m := xvm.NewMachine(b.G)
		defer m.Close()
		for i := 0; i < j.Steps; i++ {
			if err := m.Run(context.Background()); err != nil {
				return nil, err
			}
			o := map[string]*Flat{}
			for k, n := range b.Nodes {
				o[fmt.Sprintf("node%d", k)] = flat(m.GetResult(n.ID()))
			}
			put(i, o)
			between()
		}
		return out, nil
	}
	v := j.VM.buildGraph(nil, nil)
	between()
	for k, o := range v.extras(j.Extras) {
		out[k] = o
	}
	m := v.machine()
	defer m.Close()
	s := j.Solver.make()
	for i := 0; i < j.Steps; i++ {
		if j.Rebind && i > 0 {
			v.next(i)
		}
		if err := m.RunAll(); err != nil {
			return nil, fmt.Errorf("step %d: %v", i, err)
		}
		put(i, v.obs())
		between()
		if j.VM.Grad && len(v.wrt) > 0 {
			ns := v.wrt
			if c := j.VM.Spec.src; c != nil {
				ns = c.own(ns)
			}
			if err := s.Step(G.NodesToValueGrads(ns)); err != nil {
				return nil, fmt.Errorf("step %d: solver: %v", i, err)
			}
		}
		m.Reset()
		v.zeroGrads()
		o := map[string]*Flat{}
		for k := range j.VM.Spec.Leaves {
			o[fmt.Sprintf("trained%d", k)] = flat(v.Nodes[k].Value())
		}
		put(i, o)
	}
	if j.Release {
		v.G.UnbindAll()
	}
	return out, nil
}

func runC08(r *R) {
	g := r.Rng
	n := g.Range(2, 4)
	jobs := make([]*job, n)
	for i := range jobs {
		jobs[i] = genJob(g)
		if i > 0 && g.P(1, 4) {
			jobs[i] = jobs[i-1] // the same expressions in separate graphs
		} else if i > 0 && jobs[i-1].Kind == "nn" && g.P(2, 3) {
			jobs[i] = &job{Kind: "nn", NN: genLike(g, jobs[i-1].NN)}
			jobs[i].NN.Runs = 1
		}
		r.note("%d: %s", i, jobs[i])
	}
	warm := g.P(1, 2) // pools and caches already used
	r.faultProbs()
	if g.P(1, 25) {
		r.PoolRoom = g.Range(1, 3) // the process has been running for long
		r.note("room for %d tensors in the pool", r.PoolRoom)
	}
	want := make([]map[string]*Flat, n)
	alone := func() bool {
		for i, j := range jobs {
			var qerr error
			ended := false
			r.Quiet(func() {
				want[i], qerr = j.do(func() {})
				ended = true
			})
			if !ended || qerr != nil {
				r.Fail("error", "job %d fails when done alone: %v", i, qerr)
				return false
			}
		}
		return true
	}
	if !r.Cold && !alone() {
		return
	}
	got := make([]map[string]*Flat, n)
	errs := make([]error, n)
	active, most, finished := 0, 0, 0
	var mu sync.Mutex
	var gotCopy []map[string]*Flat
	var errCopy []error
	res := r.Sim(func() {
		if warm && !r.Cold {
			jobs[0].do(func() {})
		}
		var wg sync.WaitGroup
		for i := range jobs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				mu.Lock()
				active++
				if active > most {
					most = active
				}
				mu.Unlock()
				dawdle(sim.KWhen, 10)
				got[i], errs[i] = jobs[i].do(func() { dawdle(sim.KWhen, 6) })
				mu.Lock()
				active--
				finished++
				mu.Unlock()
			}(i)
		}
		wg.Wait()
		gotCopy, errCopy = got, errs
	})
	if gotCopy == nil && r.PoolRoom > 0 && poolBlocked(res) {
		r.knownFinding("tensor-pool-full")
		return
	}
	if gotCopy == nil {
		r.Fail("hang", "not all goroutines finished (status %d): %v", res.Status, res.Left)
		return
	}
	if r.Cold && !alone() {
		return
	}
	for i := range jobs {
		if errCopy[i] != nil {
			r.Fail("error", "goroutine %d: %v", i, errCopy[i])
			continue
		}
		r.compareObs("value", fmt.Sprintf("goroutine %d", i), gotCopy[i], want[i])
	}
	if res.Alive > 0 {
		r.Fail("leak", "goroutines left: %v", res.Left)
	}
	if most > 1 {
		r.NonTrivial()
	}
	r.Count("jobs", n)
}
