package main

import (
	"context"
	"fmt"
	"math"

	G "gorgonia.org/gorgonia"
	xvm "gorgonia.org/gorgonia/x/vm"
	"gorgonia.org/gorgonia/zzverif/sim"
	"gorgonia.org/tensor"
)

// Expressions that differ in one parameter only, over the same operands.

type kinVariant struct {
	name string
	f    func(a []*G.Node) (*G.Node, error)
	diff bool
}

type kinFamily struct {
	name string
	args [][]int
	ints map[int][]int // values of operands that hold integers; nil: any of 0-3
	f32  map[int]bool  // operands of single precision
	own  bool          // equal expressions need not be shared
	vs   []kinVariant
}

var kinFamilies = makeKin()

func makeKin() []*kinFamily {
	var fs []*kinFamily
	var cur *kinFamily
	fam := func(name string, args ...[]int) {
		cur = &kinFamily{name: name, args: args, ints: map[int][]int{}, f32: map[int]bool{}}
		fs = append(fs, cur)
	}
	add := func(diff bool, name string, f func(a []*G.Node) (*G.Node, error)) {
		cur.vs = append(cur.vs, kinVariant{name, f, diff})
	}
	type N = G.Node
	sq := []int{4, 4}

	fam("reductions", sq)
	for _, ax := range []int{0, 1} {
		ax := ax
		add(true, fmt.Sprint("sum ", ax), func(a []*N) (*N, error) { return G.Sum(a[0], ax) })
		add(true, fmt.Sprint("mean ", ax), func(a []*N) (*N, error) { return G.Mean(a[0], ax) })
		add(false, fmt.Sprint("max ", ax), func(a []*N) (*N, error) { return G.Max(a[0], ax) })
		add(false, fmt.Sprint("softmax ", ax), func(a []*N) (*N, error) { return G.SoftMax(a[0], ax) })
		add(false, fmt.Sprint("logsoftmax ", ax), func(a []*N) (*N, error) { return G.LogSoftMax(a[0], ax) })
		add(false, fmt.Sprint("norm 2 ", ax), func(a []*N) (*N, error) { return G.Norm(a[0], ax, 2) })
		add(false, fmt.Sprint("norm 4 ", ax), func(a []*N) (*N, error) { return G.Norm(a[0], ax, 4) })
		add(false, fmt.Sprint("sparsemax ", ax), func(a []*N) (*N, error) { return G.Sparsemax(a[0], ax) })
	}
	add(true, "sum", func(a []*N) (*N, error) { return G.Sum(a[0]) })
	add(true, "mean", func(a []*N) (*N, error) { return G.Mean(a[0]) })
	add(false, "max", func(a []*N) (*N, error) { return G.Max(a[0]) })

	fam("cube reductions", []int{3, 3, 3})
	for _, ax := range [][]int{{0}, {1}, {2}, {0, 1}, {1, 2}, {0, 2}} {
		ax := ax
		add(true, fmt.Sprint("sum ", ax), func(a []*N) (*N, error) { return G.Sum(a[0], ax...) })
		if len(ax) == 1 {
			add(false, fmt.Sprint("max ", ax), func(a []*N) (*N, error) { return G.Max(a[0], ax...) })
			add(false, fmt.Sprint("softmax ", ax), func(a []*N) (*N, error) { return G.SoftMax(a[0], ax...) })
		}
	}
	for _, p := range [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}} {
		p := p
		add(true, fmt.Sprint("transpose ", p), func(a []*N) (*N, error) { return G.Transpose(a[0], p...) })
	}

	fam("four dimensions", []int{3, 3, 3, 3})
	for a := 0; a < 4; a++ {
		for b := 0; b < 4; b++ {
			if a == b {
				continue
			}
			ax := []int{a, b}
			p := []int{0, 1, 2, 3}
			p[a], p[b] = p[b], p[a]
			q := []int{p[3], p[0], p[1], p[2]}
			if a < b {
				add(true, fmt.Sprint("sum ", ax), func(a []*N) (*N, error) { return G.Sum(a[0], ax...) })
				add(true, fmt.Sprint("mean ", ax), func(a []*N) (*N, error) { return G.Mean(a[0], ax...) })
				add(true, fmt.Sprint("transpose ", p), func(a []*N) (*N, error) { return G.Transpose(a[0], p...) })
			} else {
				add(true, fmt.Sprint("transpose ", q), func(a []*N) (*N, error) { return G.Transpose(a[0], q...) })
			}
		}
		a := a
		add(false, fmt.Sprint("softmax ", a), func(x []*N) (*N, error) { return G.SoftMax(x[0], a) })
		add(false, fmt.Sprint("max ", a), func(x []*N) (*N, error) { return G.Max(x[0], a) })
		add(false, fmt.Sprint("join ", a), func(x []*N) (*N, error) { return G.Concat(a, x[0], x[0]) })
	}

	fam("slices", sq)
	for _, s := range [][]int{{0, 2}, {1, 3}, {2, 4}, {0, 3}, {1, 4}} {
		s := s
		sl := G.S(s[0], s[1:]...)
		add(true, fmt.Sprint("rows ", s), func(a []*N) (*N, error) { return G.Slice(a[0], sl) })
		add(true, fmt.Sprint("columns ", s), func(a []*N) (*N, error) { return G.Slice(a[0], nil, sl) })
	}
	for i := 0; i < 4; i++ {
		i := i
		add(true, fmt.Sprint("row ", i), func(a []*N) (*N, error) { return G.Slice(a[0], G.S(i)) })
		add(true, fmt.Sprint("column ", i), func(a []*N) (*N, error) { return G.Slice(a[0], nil, G.S(i)) })
		add(true, fmt.Sprint("diagonal ", i), func(a []*N) (*N, error) { return G.Slice(a[0], G.S(i), G.S(i)) })
	}

	fam("long vectors", []int{600})
	for _, s := range [][]int{{0, 10}, {44, 54}, {256, 266}, {300, 310}, {512, 522}, {0, 266}, {256, 522}, {300, 566}} {
		s := s
		sl := G.S(s[0], s[1:]...)
		add(true, fmt.Sprint("part ", s), func(a []*N) (*N, error) { return G.Slice(a[0], sl) })
	}
	for _, i := range []int{1, 2, 257, 258, 513} {
		i := i
		add(true, fmt.Sprint("element ", i), func(a []*N) (*N, error) { return G.Slice(a[0], G.S(i)) })
	}

	fam("shapes", sq)
	for _, s := range []tensor.Shape{{2, 8}, {8, 2}, {16}, {2, 2, 4}, {4, 2, 2}, {1, 16}, {16, 1}} {
		s := s
		add(true, fmt.Sprint("reshape ", s), func(a []*N) (*N, error) { return G.Reshape(a[0], s) })
	}
	add(true, "transpose", func(a []*N) (*N, error) { return G.Transpose(a[0], 1, 0) })
	add(false, "rows", func(a []*N) (*N, error) { return G.SizeOf(0, a[0]) })
	for _, k := range []float64{0.1, 0.25} {
		k := k
		add(true, fmt.Sprint("leaky ", k), func(a []*N) (*N, error) {
			x, err := G.Sub(a[0], G.NewConstant(1.0))
			if err != nil {
				return nil, err
			}
			return G.LeakyRelu(x, k)
		})
	}
	for _, k := range []float64{2, 3, 0.5} {
		k := k
		add(true, fmt.Sprint("pow ", k), func(a []*N) (*N, error) { return G.Pow(a[0], G.NewConstant(k)) })
		add(true, fmt.Sprint("times ", k), func(a []*N) (*N, error) { return G.HadamardProd(a[0], G.NewConstant(k)) })
	}

	fam("functions", []int{5})
	for i, f := range []func(*N) (*N, error){G.Abs, G.Sign, G.Ceil, G.Floor, G.Sin, G.Cos, G.Exp, G.Log, G.Log2, G.Neg, G.Square, G.Sqrt, G.Inverse, G.InverseSqrt, G.Cube, G.Tanh, G.Sigmoid, G.Log1p, G.Expm1, G.Softplus, G.Rectify, G.Mish} {
		f := f
		add(false, fmt.Sprint("function ", i), func(a []*N) (*N, error) { return f(a[0]) })
	}

	fam("pairs", sq, sq)
	for i, f := range []func(a, b *N) (*N, error){G.Add, G.Sub, G.HadamardProd, G.HadamardDiv, G.Pow, G.Mul, G.MaxBetween, G.MinBetween} {
		f := f
		add(i < 4 || i == 5, fmt.Sprint("binary ", i), func(a []*N) (*N, error) { return f(a[0], a[1]) })
		add(i < 4 || i == 5, fmt.Sprint("binary swapped ", i), func(a []*N) (*N, error) { return f(a[1], a[0]) })
	}
	for i, f := range []func(a, b *N, same bool) (*N, error){G.Lt, G.Gt, G.Lte, G.Gte, G.Eq, G.Ne} {
		f := f
		add(false, fmt.Sprint("comparison ", i), func(a []*N) (*N, error) { return f(a[0], a[1], true) })
		add(false, fmt.Sprint("comparison to truth values ", i), func(a []*N) (*N, error) { return f(a[0], a[1], false) })
	}
	for _, ax := range []int{0, 1} {
		ax := ax
		add(true, fmt.Sprint("concat ", ax), func(a []*N) (*N, error) { return G.Concat(ax, a[0], a[1]) })
		add(true, fmt.Sprint("concat swapped ", ax), func(a []*N) (*N, error) { return G.Concat(ax, a[1], a[0]) })
		for _, bx := range []int{0, 1} {
			bx := bx
			add(false, fmt.Sprint("tensordot ", ax, bx), func(a []*N) (*N, error) { return G.Tensordot([]int{ax}, []int{bx}, a[0], a[1]) })
		}
	}

	fam("broadcasts", sq, []int{1, 4})
	for i, f := range []func(a, b *N, l, r []byte) (*N, error){G.BroadcastAdd, G.BroadcastSub, G.BroadcastHadamardProd, G.BroadcastHadamardDiv} {
		f := f
		add(true, fmt.Sprint("rows ", i), func(a []*N) (*N, error) { return f(a[0], a[1], nil, []byte{0}) })
		add(true, fmt.Sprint("columns ", i), func(a []*N) (*N, error) {
			c, err := G.Reshape(a[1], tensor.Shape{4, 1})
			if err != nil {
				return nil, err
			}
			return f(a[0], c, nil, []byte{1})
		})
	}

	fam("batches", []int{2, 3, 3}, []int{2, 3, 3})
	for i := 0; i < 4; i++ {
		ta, tb := i&1 == 1, i&2 == 2
		add(false, fmt.Sprint("product ", ta, tb), func(a []*N) (*N, error) { return G.BatchedMatMul(a[0], a[1], ta, tb) })
		add(false, fmt.Sprint("product swapped ", ta, tb), func(a []*N) (*N, error) { return G.BatchedMatMul(a[1], a[0], ta, tb) })
	}

	fam("images", []int{2, 4, 6, 6}, []int{3, 4, 3, 3}, []int{1, 4, 1, 1}, []int{1, 4, 1, 1})
	for _, p := range [][3]int{{1, 1, 1}, {2, 1, 2}, {0, 1, 1}, {1, 2, 1}, {2, 2, 2}, {1, 2, 2}, {1, 3, 1}, {1, 3, 2}} {
		p := p
		add(false, fmt.Sprint("convolution ", p), func(a []*N) (*N, error) {
			return G.Conv2d(a[0], a[1], tensor.Shape{3, 3}, []int{p[0], p[0]}, []int{p[1], p[1]}, []int{p[2], p[2]})
		})
		add(false, fmt.Sprint("unrolling ", p), func(a []*N) (*N, error) {
			return G.Im2Col(a[0], tensor.Shape{3, 3}, tensor.Shape{p[0], p[0]}, tensor.Shape{p[1], p[1]}, tensor.Shape{p[2], p[2]})
		})
	}
	for _, p := range [][3]int{{2, 0, 2}, {3, 1, 2}, {3, 1, 1}, {3, 0, 1}} {
		p := p
		add(false, fmt.Sprint("maximum pooling ", p), func(a []*N) (*N, error) {
			return G.MaxPool2D(a[0], tensor.Shape{p[0], p[0]}, []int{p[1], p[1]}, []int{p[2], p[2]})
		})
		add(false, fmt.Sprint("average pooling ", p), func(a []*N) (*N, error) {
			return G.AveragePool2D(a[0], tensor.Shape{p[0], p[0]}, []int{p[1], p[1]}, []int{p[2], p[2]})
		})
	}
	for _, k := range []int{2, 3} {
		k := k
		add(false, fmt.Sprint("up ", k), func(a []*N) (*N, error) { return G.Upsample2D(a[0], k) })
	}
	for _, k := range []int{1, 2, 4} {
		for _, e := range []float64{0.1, 0.5} {
			k, e := k, e
			add(false, fmt.Sprint("group norm ", k, e), func(a []*N) (*N, error) { return G.GroupNorm(a[0], a[2], a[3], k, 4, e) })
		}
	}
	for _, e := range []float64{0.01, 0.04} {
		e := e
		add(false, fmt.Sprint("batch norm ", e), func(a []*N) (*N, error) {
			n, _, _, _, err := G.BatchNorm(a[0], a[2], a[3], 0.9, e)
			return n, err
		})
	}
	add(false, "global average", func(a []*N) (*N, error) { return G.GlobalAveragePool2D(a[0]) })

	fam("indices", sq, []int{4})
	cur.ints[1] = nil
	for _, ax := range []int{0, 1} {
		ax := ax
		add(false, fmt.Sprint("by indices ", ax), func(a []*N) (*N, error) { return G.ByIndices(a[0], a[1], ax) })
	}

	fam("constants", []int{30, 30}, []int{30, 30})
	cur.f32[1] = true
	for _, c := range []float64{1, 2, 1.0000001} {
		c := c
		add(false, fmt.Sprint("number ", c), func(a []*N) (*N, error) { return G.Add(a[0], G.NewConstant(c)) })
		add(false, fmt.Sprint("single number ", c), func(a []*N) (*N, error) { return G.HadamardProd(a[1], G.NewConstant(float32(c))) })
		add(false, fmt.Sprint("matrix ", c), func(a []*N) (*N, error) {
			d := make([]float64, 900)
			d[450] = c
			return G.Add(a[0], G.NewConstant(mkValue(tensor.Float64, []int{30, 30}, d)))
		})
	}

	// on which side of 4 samples are does not depend on chance
	fam("samples", sq)
	cur.own = true
	for _, p := range [][2]float64{{2, 3}, {5, 6}, {7, 8}} {
		p := p
		add(false, fmt.Sprint("uniform ", p), func(a []*N) (*N, error) {
			return G.Gt(G.UniformRandomNode(a[0].Graph(), tensor.Float64, p[0], p[1], 4, 4), G.NewConstant(4.0), true)
		})
		add(false, fmt.Sprint("gaussian ", p), func(a []*N) (*N, error) {
			return G.Gt(G.GaussianRandomNode(a[0].Graph(), tensor.Float64, p[0]*100-400, 1, 4, 4), G.NewConstant(4.0), true)
		})
	}

	fam("sequences", []int{4, 3, 4}, []int{3, 4}, []int{3}, []int{3})
	cur.ints[1] = []int{1, 2, 3, 1, 2, 2, 1, 3, 3, 1, 1, 2}
	cur.ints[2] = []int{4, 4, 4}
	cur.ints[3] = []int{1, 2, 2}
	for _, red := range []G.Reduction{G.ReductionMean, G.ReductionSum} {
		red := red
		add(false, fmt.Sprint("ctc ", red), func(a []*N) (*N, error) {
			return G.CTCLoss(must(G.Neg(must(G.Square(a[0])))), a[1], a[2], a[3], red)
		})
	}
	return fs
}

// kinGraph builds variants over operands of their own.
type kinGraph struct {
	g    *G.ExprGraph
	args []*G.Node
	outs []*G.Node
}

func (f *kinFamily) build(seed uint64, which []int) *kinGraph {
	k := &kinGraph{g: G.NewGraph()}
	for i, sh := range f.args {
		name := fmt.Sprintf("arg%d", i)
		d := leafData(seed+uint64(i), prod(sh))
		if ix, ok := f.ints[i]; ok {
			ix = append([]int{}, ix...)
			for j := len(ix); j < len(d); j++ {
				ix = append(ix, int(math.Abs(d[j])*512)%4)
			}
			k.args = append(k.args, G.NewTensor(k.g, tensor.Int, len(sh), G.WithShape(sh...), G.WithName(name), G.WithValue(tensor.New(tensor.WithShape(sh...), tensor.WithBacking(ix)))))
			continue
		}
		for j := range d {
			d[j] = math.Abs(d[j]) + 0.25
		}
		dt := tensor.Float64
		if f.f32[i] {
			dt = tensor.Float32
		}
		k.args = append(k.args, G.NewTensor(k.g, dt, len(sh), G.WithShape(sh...), G.WithName(name), G.WithValue(mkValue(dt, sh, d))))
	}
	for _, v := range which {
		n, err := f.vs[v].f(k.args)
		if err != nil {
			panic("valid input refused: " + f.name + ": " + f.vs[v].name + ": " + err.Error())
		}
		k.outs = append(k.outs, n)
	}
	return k
}

// run executes the graph: 0 traced tape, 1 lisp, 2 concurrent, 3 tape with gradients.
func (k *kinGraph) run(mach int) (out []*Flat, grad *Flat, err error) {
	value := func(n *G.Node) G.Value { return n.Value() }
	var m G.VM
	switch mach {
	case 0:
		m = G.NewTapeMachine(k.g, G.TraceExec())
	case 1:
		m = G.NewLispMachine(k.g, G.ExecuteFwdOnly())
	case 2:
		x := xvm.NewMachine(k.g)
		defer x.Close()
		err = x.Run(context.Background())
		value = func(n *G.Node) G.Value { return x.GetResult(n.ID()) }
	case 3:
		var cost *G.Node
		for _, n := range k.outs {
			if len(n.Shape()) > 0 {
				n = must(G.Sum(n))
			}
			if cost == nil {
				cost = n
			} else {
				cost = must(G.Add(cost, n))
			}
		}
		if _, err = G.Grad(cost, k.args[0]); err != nil {
			panic("valid input refused: Grad: " + err.Error())
		}
		m = G.NewTapeMachine(k.g, G.BindDualValues(k.args[0]), G.TraceExec())
	}
	if m != nil {
		defer m.Close()
		err = m.RunAll()
	}
	if err != nil {
		return
	}
	for _, n := range k.outs {
		out = append(out, flat(value(n)))
	}
	if mach == 3 {
		gr, gerr := k.args[0].Grad()
		if gerr != nil {
			return nil, nil, gerr
		}
		grad = flat(gr)
	}
	return
}

func runKin(r *R) {
	g := r.Rng
	f := kinFamilies[g.N(len(kinFamilies))]
	mach := g.N(4)
	var all []int
	for i, v := range f.vs {
		if v.diff || mach != 3 {
			all = append(all, i)
		}
	}
	if len(all) == 0 {
		mach = g.N(3)
		for i := range f.vs {
			all = append(all, i)
		}
	}
	n := g.Range(2, 9)
	which := make([]int, n)
	names := make([]string, n)
	for i := range which {
		which[i] = all[g.N(len(all))]
		names[i] = f.vs[which[i]].name
	}
	seed := g.Next()
	cs, cp, ck := g.Next(), uint64(g.PickU(0, 15000, 40000, 65536)), uint64(g.PickU(1, 2, 3))
	r.note("%s %v machine %d collisions %x %d %d", f.name, names, mach, cs, cp, ck)
	want := make([]*Flat, n)
	var wantGrad *Flat
	r.Quiet(func() {
		for i, v := range which {
			out, grad, err := f.build(seed, []int{v}).run(mach)
			if err != nil {
				panic(fmt.Sprintf("valid input refused: %s: %s alone on machine %d: %v", f.name, f.vs[v].name, mach, err))
			}
			want[i] = out[0]
			if wantGrad == nil {
				wantGrad = grad
			} else {
				for j := range grad.Data {
					wantGrad.Data[j] += grad.Data[j]
				}
			}
		}
	})
	defer sim.Collide(0, 0, 0)
	sim.Collide(cs, cp, ck)
	var (
		k    *kinGraph
		got  []*Flat
		grad *Flat
		err  error
		done bool
	)
	res := r.Sim(func() {
		k = f.build(seed, which)
		got, grad, err = k.run(mach)
		done = true
	})
	if !done {
		r.Fail("hang", "the execution did not end (status %d): %v", res.Status, res.Left)
		return
	}
	if err != nil {
		r.Fail("error", "%s: %v together: %v", f.name, names, err)
		return
	}
	for i := range which {
		for j := 0; j < i; j++ {
			if !f.own && which[i] == which[j] && k.outs[i] != k.outs[j] {
				r.Fail("sharing", "%s: %s twice gives two nodes", f.name, names[i])
			}
		}
		r.ObserveU(got[i].hash())
		if !got[i].eq(want[i]) {
			r.Fail("value", "%s: %s together with %v: got %v, want %v", f.name, names[i], names, got[i], want[i])
		}
		if which[i] != which[0] {
			r.NonTrivial()
		}
	}
	if wantGrad != nil && !grad.close(wantGrad, 1e-9) {
		r.Fail("gradient", "%s: the gradient of %v is %v, want %v", f.name, names, grad, wantGrad)
	}
	r.Count("graphs of variants", 1)
	if res.Alive > 0 {
		r.Fail("leak", "goroutines left: %v", res.Left)
	}
}
