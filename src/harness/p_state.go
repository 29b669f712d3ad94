package main

import (
	"context"
	"fmt"
	"math"
	"sync"

	G "gorgonia.org/gorgonia"
	xvm "gorgonia.org/gorgonia/x/vm"
	"gorgonia.org/gorgonia/zzverif/sim"
	"gorgonia.org/tensor"
)

func init() {
	register(&Prop{ID: "C19", Run: runC19, Race: true, Cold: true, N: 20,
		Doc:  "the state of layers follows exactly the passes that were executed",
		Rule: "A run lets 1-3 goroutines each go through a history of 4-14 steps on a network of their own (batch normalisation and dropout layers; training and evaluation passes on any machine, failing operations, cancelled passes, saving, restoring and refusing statistics, mode changes, restarts) and compares the statistics after every step and the outputs of the layers with a model written in plain arithmetic; it is non-trivial when at least one pass updated statistics and either a pass failed or was cancelled, statistics were restored, or two goroutines were active.",
		Real: append([]string{"concurrent (x/vm) machine", "batch normalisation and dropout operations and their parallel kernels"}, vmReal...), Stubs: []string{"scheduler, clock and object pools (simulated)", "user operations around the layers (fault points)"}})
}

// stLayer is a batch normalisation layer and what its state has to be.
type stLayer struct {
	op          *G.BatchNormOp
	mom, eps    float64
	scale, bias []float64
	train       bool
	mean, vr    []float64
}

type stBranch struct {
	K, K2   int
	Layers  int
	Drop    bool
	Default bool // scale and bias are the library's
	Sh      []int
	Seed    uint64
	Mom     float64

	// of the current graph
	x         *G.Node
	pre, post *ProbeOp
	probes    []*ProbeOp // with those of the gradient
	layers    []*stLayer
	dropTrain bool
	// of the current pass
	preOK, postCalled bool
	seen              *Flat
}

type stStep struct {
	Kind string
	Mach int
	Eval bool
	Par  int
	Fail bool
	Look bool // at the statistics afterwards
}

// trainer goes through a history on a network of its own.
type trainer struct {
	F32      bool
	Grad     bool
	Serve    bool // only evaluates, with statistics it was given
	Branches []*stBranch
	Steps    []stStep
	Eps      float64

	g     *G.ExprGraph
	cost  *G.Node
	wrt   []*G.Node
	vm    G.VM
	saved [][2]tensor.Tensor
	model [][2][]float64
	fail  bool // this pass may be made to fail
	batch int
	fails []string
	kinds []string
	// what happened
	updates, failures, restores, cancels, served int
	done                                         bool
}

func genTrainer(g *Rng) *trainer {
	t := &trainer{F32: g.P(1, 3), Grad: g.P(1, 3), Eps: 1e-4}
	if t.F32 {
		t.Eps = 1e-2
	}
	for n := g.Pick(1, 1, 2, 3); n > 0; n-- {
		b := &stBranch{K: g.Range(8, 24), K2: g.Range(8, 24), Layers: g.Pick(1, 1, 2), Drop: g.P(1, 4), Seed: g.Next(), Mom: []float64{0.1, 0.3, 0.9, 1}[g.N(4)]}
		b.Sh = []int{g.Range(2, 5), g.Range(1, 6), g.Range(1, 3), g.Range(1, 3)}
		if g.P(1, 4) {
			b.Sh[2], b.Sh[3] = 1, 1
		}
		if g.P(1, 8) {
			b.Sh[0], b.Sh[1] = g.Range(2, 12), g.Range(6, 24)
		}
		if g.P(1, 5) {
			b.Sh = b.Sh[:2]
			if g.P(1, 6) {
				b.Sh[0], b.Sh[1] = g.Range(20, 100), g.Range(1, 4)
			}
		}
		if len(b.Sh) == 4 && b.Sh[2]*b.Sh[3] > 1 && g.P(1, 6) {
			b.Sh[0] = 1
		}
		b.Default = g.P(1, 6)
		t.Branches = append(t.Branches, b)
	}
	t.Serve = g.P(1, 6)
	for _, b := range t.Branches {
		if t.Serve && g.P(1, 2) {
			// one example at a time, which nothing can be learnt from
			b.Sh[0] = 1
			for i := 2; i < len(b.Sh); i++ {
				b.Sh[i] = 1
			}
		}
	}
	t.Steps = []stStep{{Kind: "machine", Mach: g.N(3), Eval: g.P(1, 5)}}
	for n := g.Range(4, 14); n > 0; n-- {
		s := stStep{Kind: "pass", Par: g.N(8)}
		switch k := g.N(20); {
		case k < 11:
			s.Fail = g.P(1, 3)
		case k < 14:
			s = stStep{Kind: "machine", Mach: g.N(3), Eval: g.P(1, 2)}
		case k < 15:
			s.Kind = "mode"
			s.Eval = g.P(1, 2)
		case k < 17:
			s.Kind = "save"
		case k < 18:
			s.Kind = "restore"
		case k < 19:
			s.Kind = "refuse"
		default:
			s.Kind = "restart"
		}
		s.Look = g.P(1, 2)
		t.Steps = append(t.Steps, s)
	}
	if t.Serve {
		t.Steps[0].Eval = true
		t.Steps = append(t.Steps[:1], append([]stStep{{Kind: "given", Par: g.N(100)}}, t.Steps[1:]...)...)
		for i := range t.Steps[2:] {
			s := &t.Steps[i+2]
			s.Eval = true
			if s.Kind == "restart" {
				s.Par |= 4
			}
			if s.Kind == "mode" {
				s.Kind, s.Par = "given", g.N(100)
			}
		}
	}
	return t
}

func (t *trainer) String() string {
	s := ""
	for _, b := range t.Branches {
		s += fmt.Sprintf("%v layers %d drop %v defaults %v momentum %v; ", b.Sh, b.Layers, b.Drop, b.Default, b.Mom)
	}
	return fmt.Sprintf("f32 %v grad %v serve %v: %s%+v", t.F32, t.Grad, t.Serve, s, t.Steps)
}

func (t *trainer) dt() tensor.Dtype {
	if t.F32 {
		return tensor.Float32
	}
	return tensor.Float64
}

// round is what storing the number in the network's type does to it.
func (t *trainer) round(x float64) float64 {
	if t.F32 {
		return float64(float32(x))
	}
	return x
}

func (t *trainer) bad(kind, f string, a ...interface{}) {
	t.kinds = append(t.kinds, kind)
	t.fails = append(t.fails, fmt.Sprintf(f, a...))
}

// data is the batch of the given number.
func (b *stBranch) data(batch int) []float64 {
	d := leafData(b.Seed+uint64(batch)*977, prod(b.Sh))
	for i := range d {
		d[i] += float64((i*7+batch*3)%5) / 2
	}
	return d
}

func (t *trainer) build() {
	t.g, t.vm, t.wrt = G.NewGraph(), nil, nil
	dt := t.dt()
	for bi, b := range t.Branches {
		mk := func(name string, data []float64) *G.Node {
			n := G.NewTensor(t.g, dt, len(b.Sh), G.WithShape(b.Sh...), G.WithName(fmt.Sprintf("%s%d", name, bi)), G.WithValue(mkValue(dt, b.Sh, data)))
			t.wrt = append(t.wrt, n)
			return n
		}
		b.probes = nil
		b.x = mk("x", b.data(0))
		b.pre = &ProbeOp{ID: bi*2 + 1, N: 1, K: b.K, Shape: b.Sh, DT: dt, Hook: t.hook(b), reg: &b.probes}
		b.post = &ProbeOp{ID: bi*2 + 2, N: 1, K: b.K2, Shape: b.Sh, DT: dt, Hook: t.hook(b), reg: &b.probes}
		b.probes = append(b.probes, b.pre, b.post)
		x := must(G.ApplyOp(b.pre, b.x))
		b.layers = nil
		for l := 0; l < b.Layers; l++ {
			if l > 0 {
				x = must(G.Tanh(x))
			}
			y := &stLayer{mom: b.Mom, eps: t.Eps, train: true, mean: make([]float64, b.Sh[1]), vr: make([]float64, b.Sh[1])}
			y.scale, y.bias = leafData(b.Seed+uint64(l)*11+5, prod(b.Sh)), leafData(b.Seed+uint64(l)*11+6, prod(b.Sh))
			var scale, bias *G.Node
			if !b.Default {
				scale, bias = mk(fmt.Sprintf("scale%d_", l), y.scale), mk(fmt.Sprintf("bias%d_", l), y.bias)
			}
			n, scale, bias, op, err := G.BatchNorm(x, scale, bias, y.mom, y.eps)
			x = must(n, err)
			y.op = op
			y.scale, y.bias = flat(scale.Value()).Data, flat(bias.Value()).Data
			b.layers = append(b.layers, y)
		}
		b.dropTrain = true
		if b.Drop {
			x = must(G.Dropout(x, 0.5))
		}
		x = must(G.Sum(must(G.ApplyOp(b.post, x))))
		if bi == 0 {
			t.cost = x
		} else {
			t.cost = must(G.Add(t.cost, x))
		}
	}
	if t.Grad {
		if _, err := G.Grad(t.cost, t.wrt...); err != nil {
			panic("valid input refused: Grad: " + err.Error())
		}
	}
}

func (t *trainer) hook(b *stBranch) func(p *ProbeOp, in []G.Value) error {
	return func(p *ProbeOp, in []G.Value) error {
		if p == b.post {
			b.postCalled = true
			b.seen = flat(in[0])
		}
		if t.fail && sim.Choose(sim.KFault, 2) == 1 {
			p.Failed = true
			return errInjected
		}
		if p == b.pre {
			b.preOK = true
		}
		return nil
	}
}

// norm applies the layer to a batch: the result, and the state afterwards.
func (y *stLayer) norm(sh []int, in []float64) (out, mean, vr []float64) {
	n, ch, sp := sh[0], sh[1], prod(sh[2:])
	out = make([]float64, len(in))
	mean, vr = append([]float64(nil), y.mean...), append([]float64(nil), y.vr...)
	for c := 0; c < ch; c++ {
		each := func(f func(i int)) {
			for s := 0; s < n; s++ {
				for d := 0; d < sp; d++ {
					f(s*ch*sp + c*sp + d)
				}
			}
		}
		m, v := y.mean[c], y.vr[c]
		if y.train {
			k := float64(n * sp)
			m, v = 0, 0
			each(func(i int) { m += in[i] })
			m /= k
			each(func(i int) { v += (in[i] - m) * (in[i] - m) })
			mean[c] = y.mom*m + (1-y.mom)*mean[c]
			vr[c] = y.mom*v/(k-1) + (1-y.mom)*vr[c]
			v /= k
		}
		each(func(i int) { out[i] = (in[i]-m)/math.Sqrt(v+y.eps)*y.scale[i] + y.bias[i] })
	}
	return out, mean, vr
}

func (t *trainer) near(got, want []float64) bool {
	tol := 1e-8
	if t.F32 {
		tol = 2e-3
	}
	if len(got) != len(want) {
		return false
	}
	big := 1.0
	for _, w := range want {
		big = math.Max(big, math.Abs(w))
	}
	for i := range got {
		if !(math.Abs(got[i]-want[i]) <= tol*big) {
			return false
		}
	}
	return true
}

func (t *trainer) stats(y *stLayer) (mean, vr []float64) {
	m, v := y.op.Stats()
	return flat(m).Data, flat(v).Data
}

func (t *trainer) holds(y *stLayer, mean, vr []float64) bool {
	m, v := t.stats(y)
	return t.near(m, mean) && t.near(v, vr)
}

// unchanged checks that all layers are in the state they have to be in.
func (t *trainer) unchanged(when string) {
	for bi, b := range t.Branches {
		for l, y := range b.layers {
			if !t.holds(y, y.mean, y.vr) {
				m, v := t.stats(y)
				t.bad("stats", "%s: layer %d of branch %d has mean %v and variance %v, expected %v and %v", when, l, bi, m, v, y.mean, y.vr)
				y.mean, y.vr = m, v
			}
		}
	}
}

func (t *trainer) machine(s stStep) {
	if t.vm != nil {
		t.vm.Close()
		t.vm = nil
	}
	var opts []G.VMOpt
	if s.Eval {
		opts = append(opts, G.EvalMode())
	}
	switch s.Mach {
	case 0:
		if t.Grad {
			opts = append(opts, G.BindDualValues(t.wrt...))
		}
		t.vm = G.NewTapeMachine(t.g, opts...)
	case 1:
		t.vm = G.NewLispMachine(t.g, append(opts, G.ExecuteFwdOnly())...)
	case 2:
		if t.Serve {
			t.each(func(y *stLayer) {
				y.op.SetTraining(false)
				y.mode(false)
			})
		}
		return // concurrent machine, has no mode
	}
	for _, b := range t.Branches {
		b.dropTrain = !s.Eval
		for _, y := range b.layers {
			y.mode(!s.Eval)
		}
	}
}

// mode is what setting the mode does to the state.
func (y *stLayer) mode(train bool) {
	y.train = train
	if train {
		for c := range y.mean {
			y.mean[c], y.vr[c] = 0, 1
		}
	}
}

func (t *trainer) pass(s stStep, when string) {
	t.batch++
	in := make([][]float64, len(t.Branches))
	for bi, b := range t.Branches {
		d := b.data(t.batch)
		if err := G.Let(b.x, mkValue(t.dt(), b.Sh, d)); err != nil {
			panic("valid input refused: Let: " + err.Error())
		}
		in[bi] = make([]float64, len(d))
		for i := range d {
			in[bi][i] = t.round(float64(b.K) / 16 * t.round(d[i]))
		}
		b.preOK, b.postCalled, b.seen = false, false, nil
		for _, p := range b.probes {
			p.Failed = false
		}
	}
	t.fail = s.Fail
	var err error
	cancelled := false
	if t.vm == nil {
		ctx, cancel := context.WithCancel(context.Background())
		var wg sync.WaitGroup
		if s.Par == 0 {
			wg.Add(1)
			go func() {
				dawdle(sim.KWhen, 40)
				cancelled = true
				cancel()
				wg.Done()
			}()
		}
		m := xvm.NewMachine(t.g)
		err = m.Run(ctx)
		m.Close()
		wg.Wait()
		cancel()
	} else {
		err = t.vm.RunAll()
		t.vm.Reset()
	}
	for _, n := range t.wrt {
		if gr, err := n.Grad(); err == nil {
			zeroValue(gr)
		}
	}
	hit := false
	for _, b := range t.Branches {
		for _, p := range b.probes {
			hit = hit || p.Failed
		}
	}
	switch {
	case err == nil && hit:
		t.bad("lost-error", "%s: an operation failed but the pass succeeded", when)
	case err != nil && !hit && !cancelled:
		t.bad("error", "%s: %v", when, err)
	case err != nil && hit:
		t.failures++
	case err != nil:
		t.cancels++
	case t.Serve:
		t.served++
	}
	if s.Par == 1 {
		dawdle(sim.KWhen, 30)
	}
	for bi, b := range t.Branches {
		x := in[bi]
		for l, y := range b.layers {
			if l > 0 {
				x = append([]float64(nil), x...)
				for i := range x {
					x[i] = math.Tanh(x[i])
				}
			}
			out, mean, vr := y.norm(b.Sh, x)
			x = out
			if err == nil && !s.Look {
				if y.train {
					t.updates++
				}
				y.mean, y.vr = mean, vr
				continue
			}
			must, may := b.postCalled || err == nil, b.preOK || err == nil
			m, v := t.stats(y)
			after, before := t.holds(y, mean, vr), t.holds(y, y.mean, y.vr)
			switch {
			case must && !after:
				t.bad("stats", "%s: layer %d of branch %d was executed, training %v, and has mean %v and variance %v, expected %v and %v (before it: %v and %v)", when, l, bi, y.train, m, v, mean, vr, y.mean, y.vr)
				y.mean, y.vr = m, v
			case !may && !before:
				t.bad("stats", "%s: layer %d of branch %d got no input and has mean %v and variance %v, before it %v and %v", when, l, bi, m, v, y.mean, y.vr)
				y.mean, y.vr = m, v
			case !after && !before:
				t.bad("stats", "%s: layer %d of branch %d has mean %v and variance %v, before it %v and %v, after a pass %v and %v", when, l, bi, m, v, y.mean, y.vr, mean, vr)
				y.mean, y.vr = m, v
			case after:
				if y.train {
					t.updates++
				}
				y.mean, y.vr = mean, vr
			}
		}
		if b.seen == nil {
			if err == nil {
				t.bad("output", "%s: branch %d gave no output", when, bi)
			}
			continue
		}
		got, want := b.seen.Data, x
		if b.Drop && b.dropTrain {
			got = append([]float64(nil), got...)
			want = append([]float64(nil), x...)
			for i := range got {
				if got[i] == 0 {
					want[i] = 0
				}
				want[i] *= 2
			}
		}
		if !t.near(got, want) {
			t.bad("output", "%s: branch %d, layers training %v: the output is %v, expected %v", when, bi, b.layers[0].train, got, want)
		}
	}
}

func (t *trainer) each(f func(y *stLayer)) {
	for _, b := range t.Branches {
		for _, y := range b.layers {
			f(y)
		}
	}
}

func (t *trainer) save() {
	t.saved, t.model = nil, nil
	t.each(func(y *stLayer) {
		m, v := y.op.Stats()
		t.saved = append(t.saved, [2]tensor.Tensor{m.Clone().(tensor.Tensor), v.Clone().(tensor.Tensor)})
		t.model = append(t.model, [2][]float64{append([]float64(nil), y.mean...), append([]float64(nil), y.vr...)})
	})
}

func (t *trainer) restore(when string) {
	if t.saved == nil {
		return
	}
	i := 0
	t.restores++
	t.each(func(y *stLayer) {
		m, v := t.saved[i][0].Clone().(tensor.Tensor), t.saved[i][1].Clone().(tensor.Tensor)
		if err := y.op.SetStats(m, v); err != nil {
			panic("valid input refused: SetStats: " + err.Error())
		}
		// the layer has a copy
		m.Zero()
		v.Zero()
		y.mean, y.vr = append([]float64(nil), t.model[i][0]...), append([]float64(nil), t.model[i][1]...)
		i++
	})
}

// given makes up statistics, as if a network trained elsewhere had been stored.
func (t *trainer) given(par int) {
	t.saved, t.model = nil, nil
	t.each(func(y *stLayer) {
		ch := len(y.mean)
		m, v := leafData(uint64(par)+31, ch), leafData(uint64(par)+32, ch)
		for i := range m {
			m[i], v[i] = t.round(m[i]), t.round(v[i]*v[i]+0.25)
		}
		t.saved = append(t.saved, [2]tensor.Tensor{mkValue(t.dt(), []int{ch}, m).(tensor.Tensor), mkValue(t.dt(), []int{ch}, v).(tensor.Tensor)})
		t.model = append(t.model, [2][]float64{m, v})
		par++
	})
}

// refuse offers statistics that do not fit.
func (t *trainer) refuse(par int, when string) {
	i := 0
	t.each(func(y *stLayer) {
		ch := len(y.mean)
		good := mkValue(t.dt(), []int{ch}, leafData(77, ch)).(tensor.Tensor)
		bad := mkValue(t.dt(), []int{ch + 1}, leafData(78, ch+1)).(tensor.Tensor)
		if par&1 == 1 {
			dt := tensor.Float32
			if t.F32 {
				dt = tensor.Float64
			}
			bad = mkValue(dt, []int{ch}, leafData(79, ch)).(tensor.Tensor)
		}
		m, v := bad, good
		if par&2 == 2 {
			m, v = good, bad
		}
		if err := y.op.SetStats(m, v); err == nil {
			t.bad("accepted", "%s: layer %d of type %v with %d channels accepts statistics of type %v, %v and shape %v, %v", when, i, t.dt(), ch, m.Dtype(), v.Dtype(), m.Shape(), v.Shape())
		}
		i++
	})
}

func (t *trainer) run() {
	t.build()
	for i, s := range t.Steps {
		when := fmt.Sprintf("step %d (%s)", i+1, s.Kind)
		switch s.Kind {
		case "machine":
			t.machine(s)
		case "mode":
			t.each(func(y *stLayer) {
				y.op.SetTraining(!s.Eval)
				y.mode(!s.Eval)
			})
		case "save":
			t.save()
		case "restore":
			t.restore(when)
		case "given":
			t.given(s.Par)
			t.restore(when)
		case "refuse":
			t.refuse(s.Par, when)
		case "restart":
			if t.vm != nil {
				t.vm.Close()
			}
			t.build()
			t.machine(stStep{Mach: s.Par % 3, Eval: s.Par >= 4})
			t.restore(when)
		case "pass":
			t.pass(s, when)
		}
		if s.Look || i == len(t.Steps)-1 {
			t.unchanged("after " + when)
		}
		if len(t.fails) > 0 {
			break
		}
	}
	if t.vm != nil {
		t.vm.Close()
	}
	t.done = true
}

func runC19(r *R) {
	g := r.Rng
	var ts []*trainer
	for n := g.Pick(1, 1, 2, 3); n > 0; n-- {
		ts = append(ts, genTrainer(g))
	}
	for i, t := range ts {
		r.note("%d: %s", i, t)
	}
	if r.Cfg.Prob[sim.KFault] == 0 {
		r.Cfg.Prob[sim.KFault] = g.PickU(3000, 15000, 30000)
	}
	res := r.Sim(func() {
		var wg sync.WaitGroup
		for _, t := range ts[1:] {
			t := t
			wg.Add(1)
			go func() {
				defer wg.Done()
				t.run()
			}()
		}
		ts[0].run()
		wg.Wait()
	})
	updates, special := 0, len(ts)-1
	for i, t := range ts {
		for j := range t.fails {
			r.Fail(t.kinds[j], "network %d: %s", i, t.fails[j])
		}
		if !t.done {
			r.Fail("hang", "the history of network %d did not end (status %d): %v", i, res.Status, res.Left)
		}
		updates += t.updates + t.served
		special += t.failures + t.cancels + t.restores
		r.Count("updates", t.updates)
		r.Count("passes_with_given_statistics", t.served)
		r.Count("failed_passes", t.failures)
		r.Count("cancelled_passes", t.cancels)
		r.Count("restores", t.restores)
		for _, b := range t.Branches {
			for _, y := range b.layers {
				for c := range y.mean {
					r.ObserveU(math.Float64bits(y.mean[c]))
					r.ObserveU(math.Float64bits(y.vr[c]))
				}
			}
		}
	}
	if r.viol == nil && res.Alive > 0 {
		r.Fail("leak", "goroutines left: %v", res.Left)
	}
	if updates > 0 && special > 0 {
		r.NonTrivial()
	}
}
