package main

import (
	"fmt"
	"math"
	"strings"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"
)

// ---- random expression graphs ----

// A Spec describes an expression graph; Build makes a fresh copy of it.
type Spec struct {
	Tag    string // begins the names of the leaves
	F32    bool
	Leaves []LeafSpec
	Ops    []OpSpec

	src *commons // where inputs come from; nil: values of their own
}

type LeafSpec struct {
	Shape []int // empty: scalar
	Seed  uint64
	Const bool
}

type OpSpec struct {
	Kind string
	Args []int // node numbers: leaves first, then ops
	P    []int
	Sh   []int // predicted shape
}

func (s *Spec) String() string {
	var b strings.Builder
	if s.F32 {
		b.WriteString("f32 ")
	}
	for i, l := range s.Leaves {
		fmt.Fprintf(&b, "%d:leaf%v ", i, l.Shape)
	}
	for i, o := range s.Ops {
		fmt.Fprintf(&b, "%d:%s%v%v ", len(s.Leaves)+i, o.Kind, o.Args, o.P)
	}
	return strings.TrimSpace(b.String())
}

func (s *Spec) shape(i int) []int {
	if i < len(s.Leaves) {
		return s.Leaves[i].Shape
	}
	return s.Ops[i-len(s.Leaves)].Sh
}

func (s *Spec) n() int { return len(s.Leaves) + len(s.Ops) }

func sameShape(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// GenOpts steers the generator.
type GenOpts struct {
	MinOps, MaxOps int
	Probes         bool // include harness ops that can be made to fail
	Diff           bool // only operations with gradients, ending in a scalar cost
	NAry           bool // include concatenation
	ManyProbes     bool
	F64            bool // double precision only
	LinAlg         bool // more linear algebra
	Structural     bool // slices, transposes, reshapes
	Large          int  // now and then there are up to so many operations
}

// mag is a bound on the magnitude of a result, as a power of two.
func (s *Spec) mag(o OpSpec, of func(i int) int) int {
	most, sum := 0, 0
	for _, a := range o.Args {
		k := of(a)
		sum += k
		if k > most {
			most = k
		}
	}
	switch o.Kind {
	case "tanh", "sigmoid", "square", "cube", "sin", "cos", "sqrt", "softmax", "log1p":
		return 0
	case "exptanh", "expm1":
		return 2
	case "matmul", "matvec", "dot", "outer", "tdot":
		return sum + 3
	case "abs", "neg", "row", "col", "range", "transpose", "reshape", "ravel", "concat", "relu", "lrelu", "divsafe", "mul", "muls", "bcastm", "mean", "maxr", "minb", "maxb":
		return most
	case "sum", "norm":
		return most + 3
	case "probe":
		if len(o.Args) > 3 {
			return most + 5
		}
		return most + 1
	}
	return most + 2
}

// wideKinds are the less common operations, by number of dimensions of the
// operand; the second list is used when gradients are wanted as well.
var wideKinds = [3][2][]string{
	{{"relu", "lrelu", "log1p", "expm1", "sqrt", "mish"}, {"relu", "lrelu", "log1p", "expm1", "sqrt"}},
	{{"relu", "lrelu", "log1p", "expm1", "sqrt", "softmax", "logsoftmax", "minb", "maxb", "range", "norm", "bxent"}, {"relu", "log1p", "expm1", "sqrt", "range", "softmax"}},
	{{"relu", "lrelu", "log1p", "expm1", "sqrt", "softmax", "logsoftmax", "minb", "maxb", "range", "bcast", "bcastm", "tdot", "ravel", "bxent", "col"}, {"relu", "log1p", "expm1", "sqrt", "range", "bcast", "bcastm", "softmax", "col"}},
}

var unaryKinds = []string{"neg", "square", "tanh", "sigmoid", "cube", "abs", "softplus", "sin", "cos", "exptanh"}
var diffUnaryKinds = []string{"neg", "square", "tanh", "sigmoid", "cube", "sin", "cos", "exptanh"}
var binKinds = []string{"add", "sub", "mul", "divsafe", "gt", "lte", "max2"}
var diffBinKinds = []string{"add", "sub", "mul", "divsafe"}

// like is the first of n values that has the given shape, or -1.
func (s *Spec) like(n int, sh []int) int {
	for i := 0; i < n; i++ {
		if sameShape(s.shape(i), sh) {
			return i
		}
	}
	return -1
}

func genSpec(g *Rng, o GenOpts) *Spec {
	s := &Spec{F32: !o.F64 && g.P(1, 5)}
	n := g.Pick(2, 3, 4)
	m := g.Pick(2, 3, 5)
	nl := g.Range(2, 5)
	large := o.Large > 0 && g.P(1, 8)
	if large {
		s.F32 = false
		nl = g.Range(2, 12)
	} else if o.Large > 0 && g.P(1, 12) {
		s.F32 = false
		n, m = g.Pick(7, 9, 16, 17), g.Pick(8, 12, 33, 40)
	}
	for i := 0; i < nl; i++ {
		var sh []int
		switch g.N(5) {
		case 0:
		case 1:
			sh = []int{n}
		case 2:
			sh = []int{n, n}
		case 3:
			sh = []int{n, m}
		case 4:
			sh = []int{m, n}
		}
		s.Leaves = append(s.Leaves, LeafSpec{Shape: sh, Seed: g.Next(), Const: i > 0 && (len(sh) == 0 && g.P(1, 4) || len(sh) > 0 && g.P(1, 8))})
	}
	nops := g.Range(o.MinOps, o.MaxOps)
	if large {
		nops = g.Range(o.MaxOps, o.Large)
	}
	// bias makes deep chains, wide layers, general graphs or stars
	bias := g.N(3)
	hub := -1
	if g.P(1, 8) {
		hub = g.N(nl)
	}
	var mags []int
	mag := func(i int) int {
		if i < len(s.Leaves) {
			return 1
		}
		return mags[i-len(s.Leaves)]
	}
	pick := func() int {
		k := s.n()
		if hub >= 0 && g.P(3, 4) {
			return hub
		}
		if bias == 0 && g.P(2, 3) && k > 3 {
			return k - 1 - g.N(3)
		}
		if bias == 1 && g.P(1, 2) {
			return g.N(len(s.Leaves))
		}
		return g.N(k)
	}
	same := func(sh []int, x int) int {
		var c []int
		for i := 0; i < s.n(); i++ {
			if sameShape(s.shape(i), sh) {
				c = append(c, i)
			}
		}
		if len(c) == 0 {
			return x
		}
		return c[g.N(len(c))]
	}
	find := func(ok func(sh []int) bool) int {
		var c []int
		for i := 0; i < s.n(); i++ {
			if ok(s.shape(i)) {
				c = append(c, i)
			}
		}
		if len(c) == 0 {
			return -1
		}
		return c[g.N(len(c))]
	}
	uk, bk := unaryKinds, binKinds
	if o.Diff {
		uk, bk = diffUnaryKinds, diffBinKinds
	}
	for len(s.Ops) < nops {
		for large && len(mags) < len(s.Ops) {
			// results that grow beyond all measure would only be compared as such
			op := &s.Ops[len(mags)]
			k := s.mag(*op, mag)
			if k > 8 {
				*op = OpSpec{Kind: "tanh", Args: []int{s.like(len(s.Leaves)+len(mags), op.Sh)}, Sh: op.Sh}
				if op.Args[0] < 0 {
					s.Ops = s.Ops[:len(mags)]
					break
				}
				k = 0
			}
			mags = append(mags, k)
		}
		x := pick()
		sh := s.shape(x)
		k := g.N(14)
		if o.ManyProbes && g.P(1, 3) {
			k = 11
		}
		if o.LinAlg && g.P(1, 3) {
			k = 6
		}
		switch k {
		case 12, 13:
			d := 0
			if o.Diff {
				d = 1
			}
			ks := wideKinds[len(sh)][d]
			op := OpSpec{Kind: ks[g.N(len(ks))], Args: []int{x}, Sh: sh}
			switch op.Kind {
			case "minb", "maxb", "bxent":
				op.Args = append(op.Args, same(sh, x))
			case "range":
				if sh[0] < 3 {
					continue
				}
				lo := g.N(sh[0] - 2)
				hi := g.Range(lo+2, sh[0])
				op.P = []int{lo, hi}
				op.Sh = append([]int{hi - lo}, sh[1:]...)
			case "col":
				op.P = []int{g.N(sh[1])}
				op.Sh = []int{sh[0]}
			case "at":
				for _, d := range sh {
					op.P = append(op.P, g.N(d))
				}
				op.Sh = nil
			case "norm":
				if s.F32 {
					continue
				}
				op.Sh = nil
			case "ravel":
				if prod(sh) > 16 {
					continue
				}
				op.Sh = []int{prod(sh)}
			case "bcast", "bcastm":
				v := find(func(b []int) bool { return len(b) == 1 && b[0] == sh[1] })
				if v < 0 {
					continue
				}
				op.Args = append(op.Args, v)
			case "tdot":
				v := find(func(b []int) bool { return len(b) == 2 && b[0] == sh[0] })
				if s.F32 || v < 0 {
					continue
				}
				op.Args = append(op.Args, v)
				op.Sh = []int{sh[1], s.shape(v)[1]}
			}
			s.Ops = append(s.Ops, op)
		case 0, 1, 2:
			k := uk[g.N(len(uk))]
			if k == "neg" && x >= len(s.Leaves) && s.Ops[x-len(s.Leaves)].Kind == "neg" {
				k = "tanh" // a double negation is simplified away, leaving an orphan
			}
			s.Ops = append(s.Ops, OpSpec{Kind: k, Args: []int{x}, Sh: sh})
		case 3, 4, 5:
			y := same(sh, x)
			k := bk[g.N(len(bk))]
			if (k == "gt" || k == "lte") && (x >= len(s.Leaves) || y >= len(s.Leaves)) {
				k = "add" // comparisons only of exactly known values
			}
			s.Ops = append(s.Ops, OpSpec{Kind: k, Args: []int{x, y}, Sh: sh})
		case 6:
			if s.F32 {
				break // summation order depends on memory alignment
			}
			switch len(sh) {
			case 2:
				if g.P(1, 3) {
					if v := find(func(b []int) bool { return len(b) == 1 && b[0] == sh[1] }); v >= 0 {
						s.Ops = append(s.Ops, OpSpec{Kind: "matvec", Args: []int{x, v}, Sh: []int{sh[0]}})
						break
					}
				}
				if v := find(func(b []int) bool { return len(b) == 2 && b[0] == sh[1] }); v >= 0 {
					s.Ops = append(s.Ops, OpSpec{Kind: "matmul", Args: []int{x, v}, Sh: []int{sh[0], s.shape(v)[1]}})
				}
			case 1:
				v := find(func(b []int) bool { return len(b) == 1 })
				if g.P(1, 2) && !o.Diff {
					s.Ops = append(s.Ops, OpSpec{Kind: "outer", Args: []int{x, v}, Sh: []int{sh[0], s.shape(v)[0]}})
				} else if sameShape(s.shape(v), sh) {
					s.Ops = append(s.Ops, OpSpec{Kind: "dot", Args: []int{x, v}, Sh: nil})
				}
			}
		case 7:
			if len(sh) == 2 {
				ax := g.N(2)
				k := "sum"
				if !o.Diff && g.P(1, 3) {
					k = "maxr"
				} else if g.P(1, 3) {
					k = "mean"
				}
				s.Ops = append(s.Ops, OpSpec{Kind: k, Args: []int{x}, P: []int{ax}, Sh: []int{sh[1-ax]}})
			} else if len(sh) == 1 {
				s.Ops = append(s.Ops, OpSpec{Kind: "sum", Args: []int{x}, P: []int{0}, Sh: nil})
			}
		case 8:
			if o.Structural && len(sh) == 2 {
				switch g.N(3) {
				case 0:
					s.Ops = append(s.Ops, OpSpec{Kind: "transpose", Args: []int{x}, Sh: []int{sh[1], sh[0]}})
				case 1:
					s.Ops = append(s.Ops, OpSpec{Kind: "row", Args: []int{x}, P: []int{g.N(sh[0])}, Sh: []int{sh[1]}})
				case 2:
					s.Ops = append(s.Ops, OpSpec{Kind: "reshape", Args: []int{x}, P: []int{sh[1], sh[0]}, Sh: []int{sh[1], sh[0]}})
				}
			}
		case 9:
			if o.NAry && len(sh) >= 1 {
				k, most := g.Range(2, 3), 12
				if g.P(1, 12) {
					k, most = g.Range(4, 10), 40
				}
				args := []int{x}
				tot := sh[0]
				for len(args) < k {
					v := find(func(b []int) bool { return len(b) == len(sh) && (len(sh) == 1 || b[1] == sh[1]) })
					args = append(args, v)
					tot += s.shape(v)[0]
				}
				if tot <= most {
					ns := append([]int{tot}, sh[1:]...)
					s.Ops = append(s.Ops, OpSpec{Kind: "concat", Args: args, Sh: ns})
				}
			}
		case 10:
			if len(sh) > 0 {
				if v := find(func(b []int) bool { return len(b) == 0 }); v >= 0 {
					k := []string{"adds", "muls", "subs"}[g.N(3)]
					s.Ops = append(s.Ops, OpSpec{Kind: k, Args: []int{x, v}, Sh: sh})
				}
			}
		case 11:
			if o.Probes {
				k := g.Range(1, 3)
				if g.P(1, 16) {
					k = g.Range(4, 10)
				}
				args := []int{x}
				for len(args) < k {
					args = append(args, same(sh, x))
				}
				s.Ops = append(s.Ops, OpSpec{Kind: "probe", Args: args, P: []int{g.Range(1, 9)}, Sh: sh})
			}
		}
	}
	return s
}

// Built is one instance of a Spec.
type Built struct {
	Spec   *Spec
	G      *G.ExprGraph
	Nodes  []*G.Node // by spec number
	Probes []*ProbeOp
	Leaves []G.Value // values bound to leaves
}

func (s *Spec) dt() tensor.Dtype {
	if s.F32 {
		return tensor.Float32
	}
	return tensor.Float64
}

func leafData(seed uint64, n int) []float64 {
	r := Rng{seed}
	out := make([]float64, n)
	for i := range out {
		out[i] = float64(int(r.N(2001))-1000) / 512
	}
	return out
}

func mkValue(dt tensor.Dtype, sh []int, data []float64) G.Value {
	if len(sh) == 0 {
		if dt == tensor.Float32 {
			v := G.F32(data[0])
			return &v
		}
		v := G.F64(data[0])
		return &v
	}
	if dt == tensor.Float32 {
		d := make([]float32, len(data))
		for i := range d {
			d[i] = float32(data[i])
		}
		return tensor.New(tensor.WithShape(sh...), tensor.WithBacking(d))
	}
	d := append([]float64(nil), data...)
	return tensor.New(tensor.WithShape(sh...), tensor.WithBacking(d))
}

func prod(sh []int) int {
	n := 1
	for _, d := range sh {
		n *= d
	}
	return n
}

func must(n *G.Node, err error) *G.Node {
	if err != nil {
		panic("valid input refused: building: " + err.Error())
	}
	return n
}

// Build makes a fresh graph. hook is attached to every probe operation.
func (s *Spec) Build(hook func(p *ProbeOp, in []G.Value) error) *Built {
	b := &Built{Spec: s, G: G.NewGraph()}
	dt := s.dt()
	for i, l := range s.Leaves {
		v := s.src.value(dt, l.Shape, l.Seed)
		var n *G.Node
		name := fmt.Sprintf("%sleaf%d", s.Tag, i)
		switch {
		case l.Const:
			n = b.G.AddNode(G.NewConstant(v, G.WithName(name)))
		case len(l.Shape) == 0:
			n = G.NewScalar(b.G, dt, G.WithName(name), G.WithValue(v))
		default:
			n = G.NewTensor(b.G, dt, len(l.Shape), G.WithShape(l.Shape...), G.WithName(name), G.WithValue(v))
		}
		b.Leaves = append(b.Leaves, n.Value())
		b.Nodes = append(b.Nodes, n)
	}
	for i, o := range s.Ops {
		var a []*G.Node
		for _, k := range o.Args {
			a = append(a, b.Nodes[k])
		}
		b.Nodes = append(b.Nodes, b.mkOp(i, o, a, hook))
	}
	return b
}

func (b *Built) konst(f float64) *G.Node {
	return G.NewConstant(mkValue(b.Spec.dt(), nil, []float64{f}))
}

func (b *Built) mkOp(i int, o OpSpec, a []*G.Node, hook func(p *ProbeOp, in []G.Value) error) *G.Node {
	switch o.Kind {
	case "neg":
		return must(G.Neg(a[0]))
	case "square":
		return must(G.Square(must(G.Tanh(a[0]))))
	case "cube":
		return must(G.Cube(must(G.Tanh(a[0]))))
	case "tanh":
		return must(G.Tanh(a[0]))
	case "sigmoid":
		return must(G.Sigmoid(a[0]))
	case "abs":
		return must(G.Abs(a[0]))
	case "softplus":
		return must(G.Softplus(a[0]))
	case "sin":
		return must(G.Sin(a[0]))
	case "cos":
		return must(G.Cos(a[0]))
	case "exptanh":
		return must(G.Exp(must(G.Tanh(a[0]))))
	case "add":
		return must(G.Add(a[0], a[1]))
	case "sub":
		return must(G.Sub(a[0], a[1]))
	case "mul":
		return must(G.HadamardProd(must(G.Tanh(a[0])), a[1]))
	case "divsafe":
		return must(G.HadamardDiv(a[0], must(G.Add(must(G.Square(must(G.Tanh(a[1])))), b.konst(1.5)))))
	case "gt":
		return must(G.Gt(a[0], a[1], true))
	case "lte":
		return must(G.Lte(a[0], a[1], true))
	case "max2":
		return must(G.Add(a[0], must(G.Sub(a[1], must(G.Sin(a[0]))))))
	case "matvec", "matmul":
		return must(G.Mul(a[0], a[1]))
	case "dot":
		return must(G.Mul(a[0], a[1]))
	case "outer":
		return must(G.OuterProd(a[0], a[1]))
	case "sum":
		return must(G.Sum(a[0], o.P...))
	case "mean":
		return must(G.Mean(a[0], o.P...))
	case "maxr":
		return must(G.Max(a[0], o.P...))
	case "transpose":
		return must(G.Transpose(a[0], 1, 0))
	case "row":
		return must(G.Slice(a[0], G.S(o.P[0])))
	case "reshape":
		return must(G.Reshape(a[0], tensor.Shape(append([]int(nil), o.P...))))
	case "concat":
		return must(G.Concat(0, a...))
	case "adds":
		return must(G.Add(a[0], a[1]))
	case "muls":
		return must(G.Mul(a[1], must(G.Tanh(a[0]))))
	case "subs":
		return must(G.Sub(a[0], a[1]))
	case "relu":
		return must(G.Rectify(a[0]))
	case "lrelu":
		return must(G.LeakyRelu(a[0], 0.1))
	case "log1p":
		return must(G.Log(must(G.Add(must(G.Square(must(G.Tanh(a[0])))), b.konst(1)))))
	case "expm1":
		return must(G.Sub(must(G.Exp(must(G.Tanh(a[0])))), b.konst(1)))
	case "sqrt":
		return must(G.Sqrt(must(G.Add(must(G.Square(must(G.Tanh(a[0])))), b.konst(0.5)))))
	case "mish":
		return must(G.Mish(a[0]))
	case "softmax":
		return must(G.SoftMax(a[0]))
	case "logsoftmax":
		return must(G.LogSoftMax(a[0]))
	case "minb":
		return must(G.MinBetween(a[0], a[1]))
	case "maxb":
		return must(G.MaxBetween(a[0], a[1]))
	case "range":
		return must(G.Slice(a[0], G.S(o.P[0], o.P[1])))
	case "col":
		return must(G.Slice(a[0], nil, G.S(o.P[0])))
	case "at":
		return must(G.At(a[0], o.P...))
	case "norm":
		return must(G.Norm(a[0], 0, 2))
	case "ravel":
		return must(G.Ravel(a[0]))
	case "bcast":
		return must(G.BroadcastAdd(a[0], a[1], nil, []byte{0}))
	case "bcastm":
		return must(G.BroadcastHadamardProd(must(G.Tanh(a[0])), a[1], nil, []byte{0}))
	case "tdot":
		return must(G.Tensordot([]int{0}, []int{0}, a[0], a[1]))
	case "bxent":
		return must(G.BinaryXent(must(G.Sigmoid(a[0])), must(G.Sigmoid(a[1]))))
	case "probe":
		p := &ProbeOp{ID: i, N: len(a), K: o.P[0], Shape: o.Sh, DT: b.Spec.dt(), Hook: hook, Pre: o.P[0]%3 == 0}
		p.reg = &b.Probes
		b.Probes = append(b.Probes, p)
		p.Node = must(G.ApplyOp(p.op(), a...))
		return p.Node
	}
	panic("harness: unknown op kind " + o.Kind)
}

// ---- values ----

// Flat is the logical content of a value.
type Flat struct {
	Dt   string
	Sh   []int
	Data []float64
}

func flat(v G.Value) *Flat {
	switch x := v.(type) {
	case nil:
		return nil
	case *G.F64:
		if x == nil {
			return nil
		}
		return &Flat{"float64", nil, []float64{float64(*x)}}
	case *G.F32:
		if x == nil {
			return nil
		}
		return &Flat{"float32", nil, []float64{float64(*x)}}
	case *G.I:
		return &Flat{"int", nil, []float64{float64(*x)}}
	case *G.B:
		f := 0.0
		if bool(*x) {
			f = 1
		}
		return &Flat{"bool", nil, []float64{f}}
	case *tensor.Dense:
		if x == nil {
			return nil
		}
		f := &Flat{Dt: x.Dtype().String(), Sh: append([]int(nil), x.Shape()...)}
		if x.IsScalar() {
			f.Data = append(f.Data, toF(x.ScalarValue()))
			return f
		}
		it := x.Iterator()
		for i, err := it.Next(); err == nil; i, err = it.Next() {
			f.Data = append(f.Data, toF(x.Get(i)))
		}
		return f
	}
	panic(fmt.Sprintf("harness: value of type %T", v))
}

func toF(x interface{}) float64 {
	switch y := x.(type) {
	case float64:
		return y
	case float32:
		return float64(y)
	case int:
		return float64(y)
	case bool:
		if y {
			return 1
		}
		return 0
	case []float64:
		return y[0]
	case []float32:
		return float64(y[0])
	}
	panic(fmt.Sprintf("harness: element of type %T", x))
}

// eq is equality up to rounding: vector kernels of the dependencies sum in an
// order that depends on memory alignment.
func (f *Flat) eq(o *Flat) bool {
	if f != nil && f.Dt == "float32" {
		return f.close(o, 1e-3)
	}
	return f.close(o, 1e-9)
}

func (f *Flat) close(o *Flat, tol float64) bool {
	if f == nil || o == nil {
		return f == o
	}
	if f.Dt != o.Dt || len(f.Data) != len(o.Data) {
		return false
	}
	if !sameShape(f.Sh, o.Sh) && prod(f.Sh) != 1 {
		return false
	}
	scale := 1.0
	for _, x := range o.Data {
		if x := math.Abs(x); x > scale && !math.IsInf(x, 0) {
			scale = x
		}
	}
	for i := range f.Data {
		a, b := f.Data[i], o.Data[i]
		if a == b || (math.IsNaN(a) && math.IsNaN(b)) {
			continue
		}
		if math.IsNaN(a) || math.IsNaN(b) || math.IsInf(a, 0) || math.IsInf(b, 0) || math.Abs(a-b) > tol*scale {
			return false
		}
	}
	return true
}

func (f *Flat) String() string {
	if f == nil {
		return "none"
	}
	return fmt.Sprintf("%s%v%.6v", f.Dt, f.Sh, f.Data)
}

func (f *Flat) hash() uint64 {
	if f == nil {
		return 7
	}
	h := uint64(len(f.Data))
	for _, x := range f.Data {
		h = mix(h ^ math.Float64bits(x))
	}
	return h
}

func cloneValue(v G.Value) G.Value {
	if v == nil {
		return nil
	}
	f := flat(v)
	switch x := v.(type) {
	case *tensor.Dense:
		return x.Clone().(*tensor.Dense)
	case *G.F64:
		y := *x
		return &y
	case *G.F32:
		y := *x
		return &y
	case *G.I:
		y := *x
		return &y
	case *G.B:
		y := *x
		return &y
	}
	_ = f
	panic("harness: clone")
}

// reference evaluates every node of a graph one operation at a time in
// dependency order, each operation on private copies of its inputs.
func reference(g *G.ExprGraph) (map[int64]*Flat, error) { return referenceWith(g, nil) }

// referenceWith takes the values of some operations without inputs as given.
func referenceWith(g *G.ExprGraph, given map[*G.Node]G.Value) (map[int64]*Flat, error) {
	vals := map[int64]G.Value{}
	var eval func(n *G.Node) error
	var firstErr error
	eval = func(n *G.Node) error {
		if _, ok := vals[n.ID()]; ok {
			return nil
		}
		if v, ok := given[n]; ok {
			vals[n.ID()] = v
			return nil
		}
		if n.Op() == nil || n.Op().Arity() == 0 {
			vals[n.ID()] = cloneValue(n.Value())
			return nil
		}
		var in []G.Value
		it := g.From(n.ID())
		for it.Next() {
			c := it.Node().(*G.Node)
			if err := eval(c); err != nil {
				return err
			}
			in = append(in, cloneValue(vals[c.ID()]))
		}
		v, err := n.Op().Do(in...)
		if err != nil {
			return fmt.Errorf("%v: %v", n, err)
		}
		vals[n.ID()] = cloneValue(v)
		return nil
	}
	for _, n := range g.AllNodes() {
		if err := eval(n); err != nil {
			return nil, err
		}
	}
	out := map[int64]*Flat{}
	for id, v := range vals {
		out[id] = flat(v)
	}
	return out, firstErr
}
