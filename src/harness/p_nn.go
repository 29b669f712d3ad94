package main

import (
	"context"
	"fmt"
	"strings"

	G "gorgonia.org/gorgonia"
	xvm "gorgonia.org/gorgonia/x/vm"
	"gorgonia.org/gorgonia/zzverif/sim"
	"gorgonia.org/tensor"
)

func init() {
	register(&Prop{ID: "C09", Run: runC09, Race: true, Cold: true, N: 20,
		Doc:  "parallel kernels are independent of scheduling and processor count",
		Rule: "A run executes a small network of convolution, pooling, normalisation and up-sampling layers, or a CTC loss, forward or with gradients, 1-3 times on one of the machines, with 1-16 simulated processors, and compares with an undisturbed single-processor execution; it is non-trivial when operations started goroutines that were scheduled against each other.",
		Real: vmReal, Stubs: []string{"processor count, scheduler and clock (simulated)"}})
}

type nnLayer struct {
	Kind string
	P    []int
}

const (
	mTape = iota
	mLisp
	mConc
)

// NNCase is a small network and a way to execute it.
type NNCase struct {
	F32        bool
	Sh         []int // batch, channels, height, width
	Layers     []nnLayer
	CTC        []int // input length, batch, labels, reduction, flat targets
	Mach       int
	Grad       bool
	Runs       int
	Seed       uint64
	src        *commons
	TrainAfter bool // switch batch normalisation to evaluation for the last run
}

func (c *NNCase) String() string {
	return fmt.Sprintf("f32=%v shape=%v layers=%v ctc=%v machine=%d grad=%v runs=%d eval=%v", c.F32, c.Sh, c.Layers, c.CTC, c.Mach, c.Grad, c.Runs, c.TrainAfter)
}

func (c *NNCase) dt() tensor.Dtype {
	if c.F32 {
		return tensor.Float32
	}
	return tensor.Float64
}

func genNN(g *Rng) *NNCase {
	c := &NNCase{F32: g.P(1, 3), Seed: g.Next(), Mach: g.Pick(mTape, mTape, mLisp, mConc), Grad: g.P(3, 4), Runs: g.Pick(1, 1, 2, 3)}
	if g.P(1, 6) {
		c.Mach = mTape
		c.CTC = []int{g.Range(2, 4), g.Range(1, 9), g.Range(2, 4), g.N(2), g.N(2)}
		return c
	}
	if g.P(1, 12) {
		m, cl, gr := g.Range(1, 3), g.Range(1, 2), g.Range(2, 4)
		c.F32, c.Grad = true, false
		c.Sh = []int{1, m * (5 + cl), gr, gr}
		c.Layers = []nnLayer{{"yolo", []int{m, cl, gr}}}
		return c
	}
	b, ch, h, w := g.Range(1, 9), g.Range(1, 3), g.Range(2, 4), g.Range(2, 4)
	if g.P(1, 8) {
		b = g.Range(10, 18)
		ch = 1
	} else if g.P(1, 8) {
		b, ch, h, w = g.Range(1, 3), g.Range(4, 20), g.Range(1, 3), g.Range(1, 3)
	} else if g.P(1, 8) {
		b, ch, h, w = g.Range(1, 3), g.Range(1, 2), g.Range(5, 11), g.Range(5, 11)
	} else if g.P(1, 8) {
		h, w = 1, 1
	}
	if b*ch*h*w < 2 {
		b = 2 // see below
	}
	c.Sh = []int{b, ch, h, w}
	n := g.Range(1, 3)
	for len(c.Layers) < n {
		switch g.N(11) {
		case 0, 1, 2:
			kh, kw := g.Range(1, 3), g.Range(1, 3)
			p, s, d := g.N(2), g.Range(1, 2), g.Pick(1, 1, 2)
			oh := (h+2*p-(d*(kh-1)+1))/s + 1
			ow := (w+2*p-(d*(kw-1)+1))/s + 1
			if h+2*p < d*(kh-1)+1 || w+2*p < d*(kw-1)+1 || oh < 1 || ow < 1 {
				continue
			}
			oc := g.Range(1, 3)
			if b*oc*oh*ow < 2 {
				continue // the tensor library does not transpose a single element properly
			}
			c.Layers = append(c.Layers, nnLayer{"conv", []int{oc, ch, kh, kw, p, s, d}})
			ch, h, w = oc, oh, ow
		case 3, 4:
			k, s := g.Range(1, 2), g.Range(1, 2)
			if g.P(1, 5) {
				k = 3
			}
			if h < k || w < k || b*ch*((h-k)/s+1)*((w-k)/s+1) < 2 {
				continue
			}
			kind := "maxpool"
			if g.P(1, 2) {
				kind = "avgpool"
			}
			c.Layers = append(c.Layers, nnLayer{kind, []int{k, s}})
			h, w = (h-k)/s+1, (w-k)/s+1
		case 5, 6:
			if b*h*w < 2 {
				continue
			}
			c.Layers = append(c.Layers, nnLayer{"bn", []int{b, ch, h, w}})
		case 7:
			gr := 1
			if ch > 1 && g.P(1, 2) {
				gr = ch
			} else if ch%2 == 0 && g.P(1, 2) {
				gr = 2
			}
			c.Layers = append(c.Layers, nnLayer{"gn", []int{b, ch, h, w, gr}})
		case 8:
			c.Layers = append(c.Layers, nnLayer{[]string{"relu", "tanh"}[g.N(2)], nil})
		case 9:
			if h*w > 16 || ch > 3 {
				continue
			}
			c.Layers = append(c.Layers, nnLayer{"up", []int{2}})
			h, w = h*2, w*2
		case 10:
			l := nnLayer{[]string{"sparsemax", "softmax", "pick"}[g.N(3)], nil}
			if l.Kind == "pick" {
				for i := 0; i < b; i++ {
					l.P = append(l.P, g.N(b))
				}
			}
			c.Layers = append(c.Layers, l)
		}
	}
	for _, l := range c.Layers {
		switch l.Kind {
		case "bn", "gn", "avgpool", "up", "sparsemax", "softmax", "pick":
			if c.Mach == mLisp && c.Grad {
				c.Mach = mTape // no direct gradient for these
			}
		}
		if l.Kind == "bn" {
			c.TrainAfter = g.P(1, 3)
		}
	}
	if c.Mach == mConc {
		c.Grad = g.P(1, 2)
	}
	return c
}

type NNBuilt struct {
	c      *NNCase
	g      *G.ExprGraph
	leaves []*G.Node
	wrt    []*G.Node
	outs   []*G.Node
	bns    []*G.BatchNormOp
	cost   *G.Node
}

func (b *NNBuilt) leaf(sh ...int) *G.Node {
	i := len(b.leaves)
	v := b.c.src.value(b.c.dt(), sh, b.c.Seed+uint64(i)*31)
	n := G.NewTensor(b.g, b.c.dt(), len(sh), G.WithShape(sh...), G.WithName(fmt.Sprintf("w%d", i)), G.WithValue(v))
	b.leaves = append(b.leaves, n)
	b.wrt = append(b.wrt, n)
	return n
}

func (b *NNBuilt) ints(name string, sh []int, data []int) *G.Node {
	return G.NewTensor(b.g, tensor.Int, len(sh), G.WithShape(sh...), G.WithName(name), G.WithValue(tensor.New(tensor.WithShape(sh...), tensor.WithBacking(data))))
}

func (c *NNCase) build() *NNBuilt {
	b := &NNBuilt{c: c, g: G.NewGraph()}
	if c.CTC != nil {
		r := Rng{c.Seed}
		t, n, l := c.CTC[0], c.CTC[1], c.CTC[2]
		lp := must(G.Neg(must(G.Square(b.leaf(t, n, l)))))
		il, tl, tg := make([]int, n), make([]int, n), []int{}
		for i := range il {
			il[i] = t
			tl[i] = r.Range(1, (t+1)/2)
		}
		tsh := []int{n, t}
		if c.CTC[4] == 1 {
			k := 0
			for _, x := range tl {
				k += x
			}
			tsh = []int{k}
		}
		for i := 0; i < prod(tsh); i++ {
			tg = append(tg, r.Range(1, l-1))
		}
		b.cost = must(G.CTCLoss(lp, b.ints("targets", tsh, tg), b.ints("il", []int{n}, il), b.ints("tl", []int{n}, tl), G.Reduction(c.CTC[3])))
		b.outs = append(b.outs, b.cost)
	} else {
		x := b.leaf(c.Sh...)
		for _, l := range c.Layers {
			x = b.layer(x, l)
			b.outs = append(b.outs, x)
		}
		if c.Layers[0].Kind == "yolo" {
			x = must(G.Tanh(b.leaves[0])) // another user of the input
			b.outs = append(b.outs, x)
		}
		b.cost = must(G.Sum(x))
	}
	if c.Grad && c.Mach != mLisp {
		if _, err := G.Grad(b.cost, b.wrt...); err != nil {
			panic("valid input refused: Grad: " + err.Error())
		}
	}
	return b
}

func (b *NNBuilt) layer(x *G.Node, l nnLayer) *G.Node {
	p := l.P
	switch l.Kind {
	case "conv":
		f := b.leaf(p[0], p[1], p[2], p[3])
		return must(G.Conv2d(x, f, tensor.Shape{p[2], p[3]}, []int{p[4], p[4]}, []int{p[5], p[5]}, []int{p[6], p[6]}))
	case "maxpool":
		return must(G.MaxPool2D(x, tensor.Shape{p[0], p[0]}, []int{0, 0}, []int{p[1], p[1]}))
	case "avgpool":
		return must(G.AveragePool2D(x, tensor.Shape{p[0], p[0]}, []int{0, 0}, []int{p[1], p[1]}))
	case "bn":
		n, _, _, op, err := G.BatchNorm(x, b.leaf(p...), b.leaf(p...), 0.3, 1e-3)
		must(n, err)
		b.bns = append(b.bns, op)
		return n
	case "gn":
		return must(G.GroupNorm(x, b.leaf(p[:4]...), b.leaf(p[:4]...), p[4], p[1], 1e-3))
	case "relu":
		return must(G.Rectify(x))
	case "tanh":
		return must(G.Tanh(x))
	case "yolo":
		masks := []int{0, 1, 2}[:p[0]]
		return must(G.YOLOv3(x, []float32{10, 13, 16, 30, 33, 23}[:2*p[0]], masks, 8*p[2], p[1], 0.7))
	case "up":
		return must(G.Upsample2D(x, p[0]))
	case "sparsemax":
		// has gradients for matrices only
		sh := x.Shape().Clone()
		y := must(G.Sparsemax(must(G.Reshape(x, tensor.Shape{sh[0], prod(sh) / sh[0]}))))
		return must(G.Reshape(y, sh))
	case "softmax":
		return must(G.SoftMax(x))
	case "pick":
		return must(G.ByIndices(x, b.ints(fmt.Sprintf("pick%d", len(b.outs)), []int{len(p)}, append([]int(nil), p...)), 0))
	}
	panic("harness: unknown layer " + l.Kind)
}

func (b *NNBuilt) obs(m map[string]*Flat, pre string) {
	for i, n := range b.outs {
		m[fmt.Sprintf("%sout%d", pre, i)] = flat(n.Value())
	}
	m[pre+"cost"] = flat(b.cost.Value())
	for i, n := range b.leaves {
		m[fmt.Sprintf("%sw%d", pre, i)] = flat(n.Value())
	}
	if b.c.Grad && b.c.Mach != mConc {
		for i, n := range b.wrt {
			g, err := n.Grad()
			if err != nil {
				m[fmt.Sprintf("%sgrad%d", pre, i)] = nil
				continue
			}
			m[fmt.Sprintf("%sgrad%d", pre, i)] = flat(g)
		}
	}
	if b.c.Grad && b.c.Mach == mConc {
		for i, n := range b.wrt {
			m[fmt.Sprintf("%sgrad%d", pre, i)] = flat(n.Deriv().Value())
		}
	}
	for i, op := range b.bns {
		mean, vr := op.Stats()
		m[fmt.Sprintf("%smean%d", pre, i)] = flat(mean)
		m[fmt.Sprintf("%svar%d", pre, i)] = flat(vr)
	}
}

func zeroValue(v G.Value) {
	switch x := v.(type) {
	case *G.F64:
		*x = 0
	case *G.F32:
		*x = 0
	case *tensor.Dense:
		x.Zero()
	}
}

// execute runs the network and records what can be seen after every run.
// settle is called after every run and may let time pass.
func (b *NNBuilt) execute(settle func(run int)) (map[string]*Flat, error) {
	out := map[string]*Flat{}
	c := b.c
	var vm G.VM
	switch c.Mach {
	case mTape:
		var opts []G.VMOpt
		if c.Grad {
			opts = append(opts, G.BindDualValues(b.wrt...))
		}
		opts = append(opts, G.TraceExec())
		vm = G.NewTapeMachine(b.g, opts...)
	case mLisp:
		var opts []G.VMOpt
		if !c.Grad {
			opts = append(opts, G.ExecuteFwdOnly())
		}
		vm = G.NewLispMachine(b.g, opts...)
	}
	for i := 0; i < c.Runs; i++ {
		if c.TrainAfter && i > 0 && i == c.Runs-1 {
			for _, op := range b.bns {
				op.SetTraining(false)
			}
		}
		var err error
		if c.Mach == mConc {
			m := xvm.NewMachine(b.g)
			if err = m.Run(context.Background()); err == nil {
				for _, n := range b.g.AllNodes() {
					if v := m.GetResult(n.ID()); v != nil && n.Op() != nil {
						G.Let(n, v)
					}
				}
			}
			m.Close()
		} else {
			err = vm.RunAll()
		}
		if err != nil {
			return nil, fmt.Errorf("run %d: %v", i+1, err)
		}
		b.obs(out, fmt.Sprintf("run%d ", i+1))
		settle(i)
		if vm != nil {
			vm.Reset()
		}
		for _, n := range b.wrt {
			if gr, err := n.Grad(); err == nil {
				zeroValue(gr)
			}
		}
	}
	return out, nil
}

func runC09(r *R) {
	g := r.Rng
	c := genNN(g)
	r.faultProbs()
	r.note("%s", c)
	var want, got map[string]*Flat
	var qerr, err error
	ended, finished := false, false
	undisturbed := func() bool {
		r.Quiet(func() {
			want, qerr = c.build().execute(func(int) {})
			ended = true
		})
		if !ended || qerr != nil {
			r.Fail("error", "an undisturbed run fails: %v", qerr)
			return false
		}
		return true
	}
	if !r.Cold && !undisturbed() {
		return
	}
	res := r.Sim(func() {
		b := c.build()
		got, err = b.execute(func(run int) {
			at := map[string]*Flat{}
			b.obs(at, "")
			dawdle(sim.KWhen, 40)
			for i := 0; i < 20; i++ {
				sim.Y()
			}
			later := map[string]*Flat{}
			b.obs(later, "")
			r.compareObs("unfinished", fmt.Sprintf("some time after run %d had returned", run+1), later, at)
		})
		finished = true
	})
	if !finished {
		r.Fail("hang", "the run did not return (status %d): %v", res.Status, res.Left)
		return
	}
	if err != nil {
		r.Fail("error", "%v", err)
		return
	}
	if r.Cold && !undisturbed() {
		return
	}
	r.compareObs("value", "compared with an undisturbed run", got, want)
	if !c.TrainAfter {
		// the same inputs give the same results again
		for _, k := range sortedKeys(got) {
			first := got[k]
			var f, rest string
			if fmt.Sscanf(k, "run1 %s", &rest); rest == "" || strings.HasPrefix(rest, "mean") || strings.HasPrefix(rest, "var") {
				continue
			}
			for i := 2; i <= c.Runs; i++ {
				f = fmt.Sprintf("run%d %s", i, rest)
				if !got[f].eq(first) {
					r.Fail("rerun", "%s: %v, but in the first run %v", f, got[f], first)
				}
			}
		}
	}
	if res.Alive > 0 {
		r.Fail("leak", "goroutines left: %v", res.Left)
	}
	if res.Gs > 1 && res.Switches > 0 {
		r.NonTrivial()
	}
	r.Count("goroutines", int(res.Gs))
}
