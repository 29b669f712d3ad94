package main

import (
	"context"
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"

	G "gorgonia.org/gorgonia"
	xvm "gorgonia.org/gorgonia/x/vm"
	"gorgonia.org/gorgonia/zzverif/sim"
	"gorgonia.org/tensor"
)

func init() {
	register(&Prop{ID: "C11", Run: runC11, Race: true, Cold: true, N: 60,
		Doc:  "random initialisation and dropout stay random under any clock",
		Rule: "A run lets 1-4 goroutines draw weights, random nodes (on any machine, several runs) and dropout masks under a clock that is frozen, coarse, stepping back or stepping forward, and judges every sample by its support and all samples by being different; it is non-trivial when at least two comparable samples were drawn.",
		Real: append([]string{"weight initialisers", "random nodes", "dropout", "concurrent (x/vm) machine"}, vmReal...), Stubs: []string{"clock, scheduler (simulated)"}})
}

const (
	dUniform = iota
	dGauss
	dBinom
	dGlorotN
	dGlorotU
	dHeN
	dHeU
	dNode // the first three as a random node
	dDropout
	dKinds
)

// draw is one way of getting random values.
type draw struct {
	Kind, Dist int
	A, B       float64
	F32        bool
	Sh         []int
	Raw        bool // the plain function instead of the initialiser
	Mach       int
	Runs       int
	Eval       bool
	Grad       bool
}

func genDraw(g *Rng) draw {
	d := draw{Kind: g.N(dKinds), F32: g.P(1, 3), Raw: g.P(1, 3), Mach: g.N(3), Runs: g.Range(1, 3), Eval: g.P(1, 5), Grad: g.P(1, 3)}
	switch g.N(3) {
	case 0:
		d.Sh = []int{g.Range(16, 40)}
	case 1:
		d.Sh = []int{g.Range(4, 6), g.Range(4, 9)}
	case 2:
		d.Sh = []int{2, g.Range(2, 3), 2, g.Range(2, 4)}
	}
	if g.P(1, 12) {
		d.Sh = []int{g.Range(30, 80), g.Range(30, 60)}
	}
	d.Dist = d.Kind
	if d.Kind == dNode {
		d.Dist = g.N(3)
		if g.P(1, 4) {
			d.Sh = nil // a scalar
		}
	}
	switch d.Dist {
	case dUniform:
		d.A, d.B = float64(g.Range(-4, 2)), float64(g.Range(3, 6))
	case dGauss:
		d.A, d.B = float64(g.Range(-2, 2)), float64(g.Range(1, 3))
	case dBinom:
		d.A, d.B = float64(g.Range(60, 300)), float64(g.Range(3, 7))/10
	case dDropout:
		if d.Sh = []int{g.Range(8, 10), g.Range(8, 10)}; g.P(1, 12) {
			d.Sh = []int{g.Range(40, 70), g.Range(40, 70)}
		}
		d.A = float64(g.Pick(0, 3, 4, 5, 6, 7)) / 10
	default:
		d.A = float64(g.Range(1, 3))
		if d.Dist >= dHeN {
			d.F32 = false
		}
		if len(d.Sh) < 2 {
			d.Sh = []int{g.Range(4, 6), g.Range(4, 9)}
		}
	}
	return d
}

func (d draw) dt() tensor.Dtype {
	if d.F32 {
		return tensor.Float32
	}
	return tensor.Float64
}

// sample is one set of values that came out of a generator.
type sample struct {
	key string // samples with the same key must differ
	v   []float64
	who string
}

func floats(x interface{}) []float64 {
	switch v := x.(type) {
	case float64:
		return []float64{v}
	case float32:
		return []float64{float64(v)}
	case []float64:
		return append([]float64{}, v...)
	case []float32:
		out := make([]float64, len(v))
		for i, f := range v {
			out[i] = float64(f)
		}
		return out
	}
	panic(fmt.Sprintf("harness: values of type %T", x))
}

// judge checks one sample by itself and returns it normalised.
func (d draw) judge(v []float64) (sample, string) {
	s := sample{v: make([]float64, len(v)), key: fmt.Sprintf("%d/%v", d.Dist, d.F32)}
	want := 1
	if len(d.Sh) > 0 {
		want = prod(d.Sh)
	}
	if len(v) != want {
		return s, fmt.Sprintf("%d values, want %d", len(v), want)
	}
	distinct := map[float64]bool{}
	for i, x := range v {
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return s, fmt.Sprintf("value %v", x)
		}
		distinct[x] = true
		switch d.Dist {
		case dUniform:
			hi := d.B
			if x < d.A || x > hi || x == hi && !d.F32 {
				return s, fmt.Sprintf("%v is outside [%v,%v)", x, d.A, d.B)
			}
			s.v[i] = (x - d.A) / (d.B - d.A)
		case dGauss:
			s.v[i] = (x - d.A) / d.B
			if math.Abs(s.v[i]) > 12 {
				return s, fmt.Sprintf("%v is %v standard deviations off", x, s.v[i])
			}
		case dBinom:
			if x < 0 || x > d.A || x != math.Trunc(x) {
				return s, fmt.Sprintf("%v successes of %v", x, d.A)
			}
			s.v[i] = x
		default:
			s.v[i] = x
		}
	}
	if len(v) >= 16 && len(distinct) < 3 {
		return s, fmt.Sprintf("only %d different values among %d", len(distinct), len(v))
	}
	if d.Dist != dBinom && (len(distinct) < len(v)-2 && !d.F32 || len(distinct) < len(v)*9/10-2) {
		return s, fmt.Sprintf("%d values, but only %d different ones", len(v), len(distinct))
	}
	switch d.Dist {
	case dBinom:
		s.key += fmt.Sprintf("/%v/%v/%v", d.A, d.B, d.Sh)
	case dUniform, dGauss:
	default:
		s.key += fmt.Sprintf("/%v/%v", d.A, d.Sh)
	}
	return s, ""
}

// do draws and reports every sample.
func (d draw) do(emit func(sample), between func()) string {
	one := func(v []float64) string {
		s, bad := d.judge(v)
		if bad != "" {
			return fmt.Sprintf("%+v: %s", d, bad)
		}
		emit(s)
		return ""
	}
	switch d.Kind {
	case dNode:
		return d.node(emit, between)
	case dDropout:
		return d.dropout(emit, between)
	}
	for i := 0; i < d.Runs; i++ {
		var x interface{}
		switch {
		case d.Raw && !d.F32:
			f := [...]func(a, b float64, s ...int) []float64{G.Uniform64, G.Gaussian64, G.Binomial64}
			h := [...]func(a float64, s ...int) []float64{G.GlorotEtAlN64, G.GlorotEtAlU64, G.HeEtAlN64, G.HeEtAlU64}
			if d.Dist <= dBinom {
				x = f[d.Dist](d.A, d.B, d.Sh...)
			} else {
				x = h[d.Dist-dGlorotN](d.A, d.Sh...)
			}
		case d.Raw:
			f := [...]func(a, b float64, s ...int) []float32{G.Uniform32, G.Gaussian32, G.Binomial32}
			h := [...]func(a float64, s ...int) []float32{G.GlorotEtAlN32, G.GlorotEtAlU32}
			if d.Dist <= dBinom {
				x = f[d.Dist](d.A, d.B, d.Sh...)
			} else {
				x = h[d.Dist-dGlorotN](d.A, d.Sh...)
			}
		case d.Dist == dBinom:
			x = G.Binomial64(d.A, d.B, d.Sh...)
			if d.F32 {
				x = G.Binomial32(d.A, d.B, d.Sh...)
			}
		default:
			f := map[int]G.InitWFn{dUniform: G.Uniform(d.A, d.B), dGauss: G.Gaussian(d.A, d.B), dGlorotN: G.GlorotN(d.A), dGlorotU: G.GlorotU(d.A), dHeN: G.HeN(d.A), dHeU: G.HeU(d.A)}[d.Dist]
			n := G.NewTensor(G.NewGraph(), d.dt(), len(d.Sh), G.WithShape(d.Sh...), G.WithName("w"), G.WithInit(f))
			x = n.Value().Data()
		}
		if bad := one(floats(x)); bad != "" {
			return bad
		}
		between()
	}
	return ""
}

// machineFor executes g once per call.
func machineFor(g *G.ExprGraph, kind int, opts ...G.VMOpt) (run func() error, value func(n *G.Node) G.Value, stop func()) {
	if kind == mConc {
		m := xvm.NewMachine(g)
		return func() error { return m.Run(context.Background()) }, func(n *G.Node) G.Value { return m.GetResult(n.ID()) }, m.Close
	}
	var m G.VM
	if kind == mLisp {
		m = G.NewLispMachine(g, opts...)
	} else {
		m = G.NewTapeMachine(g, opts...)
	}
	return func() error {
		m.Reset()
		for _, n := range g.Inputs() {
			if gv, err := n.Grad(); err == nil {
				zeroValue(gv)
			}
		}
		return m.RunAll()
	}, func(n *G.Node) G.Value { return n.Value() }, func() { m.Close() }
}

func (d draw) node(emit func(sample), between func()) string {
	g := G.NewGraph()
	mk := [...]func(g *G.ExprGraph, dt tensor.Dtype, a, b float64, s ...int) *G.Node{G.UniformRandomNode, G.GaussianRandomNode, G.BinomialRandomNode}[d.Dist]
	// Nodes of the same type are one node, so the second has another shape.
	ds := []draw{d, d}
	ds[1].Sh = append([]int{2}, d.Sh...)
	var ns, sums []*G.Node
	for i, d := range ds {
		name := G.WithName(fmt.Sprintf("a%d", i))
		var a *G.Node
		if len(d.Sh) == 0 {
			var one interface{} = 1.0
			if d.F32 {
				one = float32(1)
			}
			a = G.NewScalar(g, d.dt(), name, G.WithValue(one))
		} else {
			a = G.NewTensor(g, d.dt(), len(d.Sh), G.WithShape(d.Sh...), name, G.WithInit(G.Ones()))
		}
		n := mk(g, d.dt(), d.A, d.B, d.Sh...)
		ns = append(ns, n)
		sums = append(sums, must(G.Add(a, n)))
	}
	var opts []G.VMOpt
	if d.Mach == mLisp {
		opts = append(opts, G.ExecuteFwdOnly())
	}
	run, value, stop := machineFor(g, d.Mach, opts...)
	defer stop()
	for i := 0; i < d.Runs; i++ {
		if err := run(); err != nil {
			return fmt.Sprintf("%+v: run %d: %v", d, i, err)
		}
		for k, n := range ns {
			v := floats(value(n).Data())
			y := floats(value(sums[k]).Data())
			s, bad := ds[k].judge(v)
			if bad != "" {
				return fmt.Sprintf("%+v: %s", ds[k], bad)
			}
			emit(s)
			for j := range v {
				if math.Abs(y[j]-v[j]-1) > 1e-3 {
					return fmt.Sprintf("%+v: run %d: the node holds %v but its user saw %v", d, i, v[j], y[j]-1)
				}
			}
		}
		between()
	}
	return ""
}

func (d draw) dropout(emit func(sample), between func()) string {
	g := G.NewGraph()
	x := G.NewMatrix(g, d.dt(), G.WithShape(d.Sh...), G.WithName("x"), G.WithInit(G.Ones()))
	w := G.NewMatrix(g, d.dt(), G.WithShape(d.Sh...), G.WithName("w"), G.WithInit(G.RangedFrom(2)))
	ins := []*G.Node{x, w}
	var outs []*G.Node
	var cost *G.Node
	for _, in := range ins {
		o := must(G.Dropout(in, d.A))
		outs = append(outs, o)
		s := must(G.Sum(o))
		if cost == nil {
			cost = s
		} else {
			cost = must(G.Add(cost, s))
		}
	}
	var opts []G.VMOpt
	eval := d.Eval && d.Mach != mConc
	if eval {
		opts = append(opts, G.EvalMode())
	}
	grad := d.Grad && d.Mach != mConc && !eval && d.A > 0
	switch {
	case grad && d.Mach == mTape:
		if _, err := G.Grad(cost, ins...); err != nil {
			panic(fmt.Sprintf("valid input refused: %v", err))
		}
		opts = append(opts, G.BindDualValues(ins...))
	case d.Mach == mLisp && !grad:
		opts = append(opts, G.ExecuteFwdOnly())
	}
	run, value, stop := machineFor(g, d.Mach, opts...)
	defer stop()
	for i := 0; i < d.Runs; i++ {
		if err := run(); err != nil {
			return fmt.Sprintf("%+v: run %d: %v", d, i, err)
		}
		total := 0.0
		for k, in := range ins {
			a, b := floats(in.Value().Data()), floats(value(outs[k]).Data())
			if len(a) != len(b) {
				return fmt.Sprintf("%+v: run %d: %d values out of %d", d, i, len(b), len(a))
			}
			mask := make([]float64, len(a))
			kept := 0
			for j := range a {
				total += b[j]
				scale := 1 / (1 - d.A)
				if eval {
					scale = 1
				}
				switch {
				case math.Abs(b[j]-a[j]*scale) <= 1e-4*math.Abs(a[j]*scale):
					mask[j] = 1
					kept++
				case b[j] == 0:
				default:
					return fmt.Sprintf("%+v: run %d: dropout turned %v into %v", d, i, a[j], b[j])
				}
			}
			if (eval || d.A == 0) && kept != len(a) {
				return fmt.Sprintf("%+v: run %d: %d of %d values dropped without training", d, i, len(a)-kept, len(a))
			}
			if eval || d.A == 0 {
				continue
			}
			if kept == 0 || kept == len(a) {
				return fmt.Sprintf("%+v: run %d: %d of %d values kept", d, i, kept, len(a))
			}
			if grad {
				gv, err := in.Grad()
				if err != nil {
					return fmt.Sprintf("%+v: run %d: no gradient: %v", d, i, err)
				}
				for j, dx := range floats(gv.Data()) {
					if (dx != 0) != (mask[j] != 0) {
						return fmt.Sprintf("%+v: run %d: element %d is %v after dropout but its gradient is %v", d, i, j, b[j], dx)
					}
				}
			}
			emit(sample{key: fmt.Sprintf("mask/%v/%v", d.A, d.Sh), v: mask})
		}
		if c := floats(value(cost).Data())[0]; math.Abs(c-total) > 1e-3*math.Abs(total) {
			return fmt.Sprintf("%+v: run %d: the outputs add up to %v, the machine says %v", d, i, total, c)
		}
		between()
	}
	return ""
}

// shared counts the values of one sample that are in the other, too.
func shared(a, b []float64) (n int) {
	a, b = append([]float64(nil), a...), append([]float64(nil), b...)
	sort.Float64s(a)
	sort.Float64s(b)
	for i, j := 0, 0; i < len(a) && j < len(b); {
		switch {
		case math.Abs(a[i]-b[j]) <= 1e-13*(1+math.Abs(a[i])):
			n++
			i++
			j++
		case a[i] < b[j]:
			i++
		default:
			j++
		}
	}
	return n
}

func runC11(r *R) {
	g := r.Rng
	seqs := make([][]draw, g.Range(1, 4))
	var pool []draw
	for i := 0; i < 2; i++ {
		pool = append(pool, genDraw(g))
	}
	for i := range seqs {
		for k := g.Range(1, 3); k > 0; k-- {
			d := genDraw(g)
			if g.P(1, 2) {
				d = pool[g.N(2)] // something to compare with
			}
			seqs[i] = append(seqs[i], d)
		}
		r.note("%d: %+v", i, seqs[i])
	}
	r.faultProbs()
	r.Cfg.Tick = int64(g.Pick(0, 0, 0, 1, 1000, 1000000))
	r.Cfg.WallStep = int64(g.Pick(1, 1000000, 15600000, 1000000000))
	step := int64(g.Pick(0, 1, 1000000, 15600000, 3600000000000))
	r.note("tick=%d granularity=%d step=%d", r.Cfg.Tick, r.Cfg.WallStep, step)
	var (
		mu    sync.Mutex
		all   []sample
		bad   string
		ended bool
		jumps int
	)
	if !r.Cold {
		r.Quiet(func() {
			for _, seq := range seqs {
				for _, d := range seq {
					d.do(func(sample) {}, func() {})
				}
			}
		})
	}
	res := r.Sim(func() {
		var wg sync.WaitGroup
		for i := range seqs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				for k, d := range seqs[i] {
					who := fmt.Sprintf("goroutine %d draw %d", i, k)
					n := 0
					s := d.do(func(s sample) {
						n++
						s.who = fmt.Sprintf("%s sample %d", who, n)
						mu.Lock()
						all = append(all, s)
						mu.Unlock()
					}, func() {
						dawdle(sim.KWhen, 4)
						if step > 0 {
							switch sim.Choose(sim.KFault, 3) {
							case 1:
								sim.JumpWall(-step)
							case 2:
								sim.JumpWall(step)
							default:
								return
							}
							mu.Lock()
							jumps++
							mu.Unlock()
						}
					})
					if s != "" {
						mu.Lock()
						if bad == "" {
							bad = s
						}
						mu.Unlock()
					}
				}
			}(i)
		}
		wg.Wait()
		ended = true
	})
	if !ended {
		r.Fail("hang", "drawing did not end (status %d): %v", res.Status, res.Left)
		return
	}
	if bad != "" {
		r.Fail("sample", "%s", bad)
	}
	compared := 0
	for i := range all {
		for j := 0; j < i; j++ {
			a, b := all[i], all[j]
			if a.key != b.key {
				continue
			}
			n := len(a.v)
			if len(b.v) < n {
				n = len(b.v)
			}
			if n < 8 && a.key[0] == '2' || n == 1 && (!strings.HasSuffix(a.key, "/false")) {
				continue // few counts and single short floats may coincide
			}
			compared++
			same := true
			for k := 0; k < n && same; k++ {
				same = math.Abs(a.v[k]-b.v[k]) <= 1e-12*(1+math.Abs(a.v[k]))
			}
			if common := shared(a.v, b.v); !same && common > 3 && a.key[0] != '2' && strings.Contains(a.key, "/false") {
				r.Fail("same-sample", "%s and %s (%s) have %d of their %d and %d values in common", b.who, a.who, a.key, common, len(b.v), len(a.v))
				return
			}
			if same {
				r.Fail("same-sample", "%s and %s (%s) drew the same %d values beginning with %v", b.who, a.who, a.key, n, a.v[0])
				return
			}
		}
	}
	if res.Alive > 0 {
		r.Fail("leak", "goroutines left: %v", res.Left)
	}
	r.Count("samples", len(all))
	r.Count("clock steps", jumps)
	if compared > 0 {
		r.NonTrivial()
	}
}
