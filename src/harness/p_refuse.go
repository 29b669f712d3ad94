package main

import (
	"errors"
	"fmt"
	"math"
	"strings"
	"sync"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/zzverif/sim"
	"gorgonia.org/tensor"
)

func init() {
	register(&Prop{ID: "C24", Run: runC24, Race: true, N: 16,
		Doc:  "an expression that is refused leaves no trace",
		Rule: "A run builds one to three random graphs in goroutines of their own, in stages with uses in between as for C23; between the operations invalid ones are attempted (operands that do not fit, axes and ranges that do not exist, operations that fail to infer, nodes of other graphs, expressions of which a part is valid, differentiation that is impossible or fails in the middle). It is non-trivial when something was refused. Every graph is finally executed by a new machine and compared with the same graph built without the attempts.",
		Real: append([]string{"concurrent (x/vm) machine"}, vmReal...), Stubs: xvmStubs})
}

var errRefused = errors.New("injected refusal")

// attempt is an expression that has to be refused.
type attempt struct {
	Kind    string
	A, B, C int
}

var plainAttempts = []string{"binary", "matmul", "precision", "axis", "reshape", "transpose", "slice", "concat", "foreign", "arity", "infer", "type", "let", "outer", "unconcat", "product", "noaxis", "place"}
var partAttempts = []string{"broadcast", "norm", "xent", "reduce"}
var gradAttempts = []string{"gradshape", "gradfar", "gradtruth", "gradhalf", "gradhalf", "gradhalf"}

func (r *R) genAttempts(g *Rng, c *growCase) map[int][]attempt {
	out := map[int][]attempt{}
	kinds := append(append([]string(nil), plainAttempts...), partAttempts...)
	sym := false
	for _, t := range c.Stages {
		sym = sym || t.Use == useSymGrad
	}
	if sym {
		kinds = append(append(kinds, gradAttempts...), gradAttempts...)
	}
	n := g.Range(1, 6)
	for i := 0; i < n; i++ {
		at := g.N(len(c.VM.Spec.Ops) + 1)
		out[at] = append(out[at], attempt{kinds[g.N(len(kinds))], g.N(1 << 10), g.N(1 << 10), g.N(1 << 10)})
	}
	return out
}

// state is what can be seen of a graph without executing it.
func (w *grown) state() string {
	var b strings.Builder
	for _, n := range w.v.G.AllNodes() {
		fmt.Fprintf(&b, "%d%v:", n.ID(), n.Shape())
		for it := w.v.G.To(n.ID()); it.Next(); {
			fmt.Fprintf(&b, "%d,", it.Node().ID())
		}
	}
	return b.String()
}

// other is a node of another shape, or nil.
func (w *grown) other(n *G.Node, from int, ok func(a, b []int) bool) *G.Node {
	for i := range w.v.Nodes {
		m := w.v.Nodes[(from+i)%len(w.v.Nodes)]
		if ok([]int(n.Shape()), []int(m.Shape())) {
			return m
		}
	}
	return nil
}

// softmax is what a node computes from some operand if it is a softmax.
func (w *grown) softmax(i int) *Flat {
	s := w.c.VM.Spec
	if i < len(s.Leaves) || s.Ops[i-len(s.Leaves)].Kind != "softmax" {
		return nil
	}
	sh := s.shape(i)
	v, err := w.v.Nodes[i].Op().Do(mkValue(s.dt(), sh, leafData(5, prod(sh))))
	if err != nil {
		panic("valid input refused: softmax: " + err.Error())
	}
	return flat(v)
}

func (f *Flat) log() *Flat {
	if f == nil {
		return nil
	}
	g := &Flat{f.Dt, f.Sh, append([]float64(nil), f.Data...)}
	for i, x := range g.Data {
		g.Data[i] = math.Log(x)
	}
	return g
}

// feeds are the inputs that a node depends on.
func (w *grown) feeds(i int) (out []*G.Node) {
	s := w.c.VM.Spec
	need := map[int]bool{i: true}
	for k := i; k >= len(s.Leaves); k-- {
		if need[k] {
			for _, a := range s.Ops[k-len(s.Leaves)].Args {
				need[a] = true
			}
		}
	}
	for k, l := range s.Leaves {
		if need[k] && !l.Const {
			out = append(out, w.v.Nodes[k])
		}
	}
	return out
}

// refused attempts an expression. It tells whether there was anything to
// attempt, whether the graph may contain valid parts of it, and the error.
func (w *grown) refused(a attempt) (tried, parts bool, err error) {
	ns := w.v.Nodes
	ai := a.A % len(ns)
	x := ns[ai]
	sh := x.Shape()
	dims := len(sh)
	differ := func(a, b []int) bool { return len(a) > 0 && len(b) > 0 && !sameShape(a, b) }
	switch a.Kind {
	case "binary":
		y := w.other(x, a.B, differ)
		if y == nil {
			return
		}
		f := []func(a, b *G.Node) (*G.Node, error){G.Add, G.Sub, G.HadamardProd, G.HadamardDiv, G.Pow}[a.C%5]
		_, err = f(x, y)
	case "matmul":
		y := w.other(x, a.B, func(a, b []int) bool { return len(a) == 2 && len(b) == 2 && a[1] != b[0] })
		if y == nil {
			return
		}
		_, err = G.Mul(x, y)
	case "product":
		// a vector as long as the columns of a matrix, too
		y := w.other(x, a.B, func(a, b []int) bool {
			return len(b) == 1 && b[0] > 1 && (len(a) == 1 && a[0] > 1 && a[0] != b[0] || len(a) == 2 && a[0] > 1 && a[1] > 1 && a[1] != b[0])
		})
		if y == nil {
			return
		}
		_, err = G.Mul(x, y)
	case "noaxis":
		if dims == 0 {
			return
		}
		axis := dims + a.B%3
		switch a.C % 6 {
		case 0:
			_, err = G.SoftMax(x, axis)
		case 1:
			_, err = G.LogSoftMax(x, axis)
		case 2:
			_, err = G.Sparsemax(x, axis)
		case 3:
			_, err = G.SizeOf(axis, x)
		case 4:
			_, err = G.Sum(x, -1-a.B%3)
		case 5:
			_, err = G.Max(x, -1-a.B%3)
		}
	case "place":
		if dims == 0 {
			return
		}
		at := make([]int, dims)
		switch k := a.B % dims; a.C % 3 {
		case 0:
			at[k] = sh[k] + a.B%3
		case 1:
			at[k] = -1
		case 2:
			at = append(at, 0)
		}
		_, err = G.At(x, at...)
	case "precision":
		dt := tensor.Float32
		if w.c.VM.Spec.F32 {
			dt = tensor.Float64
		}
		c := G.NewConstant(mkValue(dt, nil, []float64{2}))
		f := []func(a, b *G.Node) (*G.Node, error){G.Add, G.Sub, G.HadamardProd}[a.C%3]
		_, err = f(x, c)
	case "axis":
		if dims == 0 {
			return
		}
		f := []func(a *G.Node, along ...int) (*G.Node, error){G.Sum, G.Max}[a.C%2]
		_, err = f(x, dims+a.B%3)
	case "reshape":
		if dims == 0 {
			return
		}
		_, err = G.Reshape(x, tensor.Shape{prod(sh) + 1 + a.B%3})
	case "transpose":
		if dims != 2 {
			return
		}
		axes := []int{0, 2 + a.B%2}
		if a.C%2 == 0 {
			axes = []int{1, 1}
		}
		_, err = G.Transpose(x, axes...)
	case "slice":
		if dims == 0 {
			return
		}
		_, err = G.Slice(x, G.S(sh[0]+1+a.B%3))
	case "concat":
		y := w.other(x, a.B, func(a, b []int) bool { return len(a) == 2 && len(b) == 2 && a[1] != b[1] })
		if y == nil {
			return
		}
		_, err = G.Concat(0, x, y)
	case "foreign":
		// constants belong to every graph
		if l := w.c.VM.Spec.Leaves; dims == 0 || ai < len(l) && l[ai].Const {
			return
		}
		o := G.NewTensor(G.NewGraph(), w.c.VM.Spec.dt(), dims, G.WithShape(sh...), G.WithName("foreign"))
		if a.C%2 == 0 {
			_, err = G.Add(x, o)
		} else {
			_, err = G.Add(o, x)
		}
	case "arity", "infer", "type":
		p := &ProbeOp{ID: 5000 + a.B, N: 1, K: 3, Shape: []int(sh), DT: w.c.VM.Spec.dt(), Pre: a.C%3 == 0}
		p.reg = new([]*ProbeOp)
		in := []*G.Node{x}
		switch a.Kind {
		case "arity":
			p.N = 2 + a.C%2
		case "infer":
			p.Infer = errRefused
		case "type":
			p.DT = tensor.Float32
			if w.c.VM.Spec.F32 {
				p.DT = tensor.Float64
			}
		}
		_, err = G.ApplyOp(p.op(), in...)
	case "let":
		if x.Op() == nil || len(w.feeds(ai)) == 0 && ai < len(w.c.VM.Spec.Leaves) {
			return
		}
		err = G.Let(x, mkValue(w.c.VM.Spec.dt(), []int(sh), make([]float64, prod(sh))))
	case "outer":
		y := w.other(x, a.B, func(a, b []int) bool { return len(a) == 2 && len(b) > 0 })
		if y == nil {
			return
		}
		_, err = G.OuterProd(x, y)
	case "unconcat":
		if dims == 0 {
			return
		}
		_, err = G.Unconcat(x, 0, sh[0]+1+a.B%2)
	case "broadcast":
		y := w.other(x, a.B, func(a, b []int) bool { return len(a) == 2 && len(b) == 1 && a[1] != b[0] })
		if y == nil {
			return
		}
		parts = true
		_, err = G.BroadcastAdd(x, y, nil, []byte{0})
	case "norm":
		if dims == 0 || w.c.VM.Spec.F32 {
			return
		}
		parts = true
		_, err = G.Norm(x, dims+1, 5)
	case "xent":
		y := w.other(x, a.B, differ)
		if y == nil {
			return
		}
		parts = true
		of := []int{ai}
		if s := w.c.VM.Spec; ai >= len(s.Leaves) && s.Ops[ai-len(s.Leaves)].Kind == "mul" {
			of = append(of, s.Ops[ai-len(s.Leaves)].Args...)
		}
		var before []*Flat
		for _, k := range of {
			before = append(before, w.softmax(k))
		}
		_, err = G.BinaryXent(x, y)
		for i, k := range of {
			if after := w.softmax(k); !after.eq(before[i]) && after.eq(before[i].log()) {
				w.logged = true
			}
		}
	case "reduce":
		y := w.other(x, a.B, differ)
		if y == nil {
			return
		}
		parts = true
		_, err = G.ReduceAdd(G.Nodes{x, x, y})
	case "gradshape":
		if dims == 0 {
			return
		}
		_, err = G.Grad(x, ns[0])
	case "gradfar":
		// an input that the result does not depend on
		if dims != 0 {
			return
		}
		on := map[*G.Node]bool{}
		for _, n := range w.feeds(ai) {
			on[n] = true
		}
		for i, l := range w.c.VM.Spec.Leaves {
			if !l.Const && !on[ns[i]] {
				parts = true
				wrt := []*G.Node{ns[i]}
				if good := w.feeds(ai); a.C&1 != 0 && len(good) > 0 {
					// among others that it depends on
					wrt = append(wrt, good[:1+a.B%len(good)]...)
					if a.C&2 != 0 {
						wrt[0], wrt[len(wrt)-1] = wrt[len(wrt)-1], wrt[0]
					}
				}
				_, err = G.Grad(x, wrt...)
				return true, parts, err
			}
		}
		return
	case "gradtruth":
		// whether something holds cannot be differentiated
		wrt := w.feeds(ai)
		if dims != 0 || len(wrt) == 0 {
			return
		}
		parts = true
		_, err = G.Grad(must(G.Gt(x, must(G.Tanh(x)), false)), wrt...)
	case "gradhalf":
		// an operation in the middle cannot be differentiated
		wrt := w.feeds(ai)
		if len(wrt) == 0 {
			return
		}
		wrt = wrt[a.B%len(wrt):]
		parts = true
		bi := a.B % len(ns)
		for _, n := range w.feeds(bi) {
			if a.C&4 != 0 && !G.Nodes(wrt).Contains(n) {
				wrt = append(wrt, n)
			}
		}
		p := &ProbeOp{ID: 6000 + a.B, N: 2, K: 3, Shape: []int(sh), DT: w.c.VM.Spec.dt()}
		p.reg = new([]*ProbeOp)
		p.Sym = func(_ *ProbeOp, made int) error {
			if made == a.C&1 {
				return errRefused
			}
			return nil
		}
		sum := func(n *G.Node) *G.Node {
			if len(n.Shape()) > 0 {
				return must(G.Sum(n))
			}
			return n
		}
		bad := sum(must(G.ApplyOp(p.op(), x, x)))
		cost := must(G.Add(bad, sum(must(G.Tanh(ns[bi])))))
		if a.C&2 != 0 {
			cost = must(G.Add(sum(must(G.Tanh(ns[bi]))), bad))
		}
		_, err = G.Grad(cost, wrt...)
	default:
		panic("harness: attempt " + a.Kind)
	}
	return true, parts, err
}

func runC24(r *R) {
	g := r.Rng
	k := g.Pick(1, 1, 2, 3)
	r.faultProbs()
	type work struct {
		c        *growCase
		tries    map[int][]attempt
		want     map[string]*Flat
		got      map[string]*Flat
		err      error
		finished bool
		spoilt   []string
		stage    int
		refused  map[string]int
		fails    [][2]string // kind and what
		logged   bool
	}
	ws := make([]*work, k)
	for i := range ws {
		c := genGrow(g)
		c.VM.Spec.Tag = fmt.Sprintf("g%d", i)
		if g.P(1, 2) {
			c.Stages = c.Stages[len(c.Stages)-1:]
		}
		for j := range c.Stages {
			if c.Stages[j].Use == useLispGrad {
				c.Stages[j].Part = 0 // parts of what was refused are results, too
			}
		}
		ws[i] = &work{c: c, tries: r.genAttempts(g, c), refused: map[string]int{}}
		r.note("%s attempts %v", c, ws[i].tries)
	}
	failed := false
	r.Quiet(func() {
		for i, x := range ws {
			q := x.c.start(nil)
			last := -1
			for _, t := range x.c.Stages {
				if t.Bind >= 0 {
					last = t.Bind
				}
				q.extend(t)
			}
			t := x.c.Stages[len(x.c.Stages)-1]
			t.Bind = last
			var err error
			if x.want, err = q.use(t); err != nil {
				r.Fail("error", "graph %d built without attempts: %v", i, err)
				failed = true
			}
		}
	})
	if failed {
		return
	}
	tell := func(x *work, kind, format string, args ...interface{}) {
		x.fails = append(x.fails, [2]string{kind, fmt.Sprintf(format, args...)})
	}
	body := func(x *work) {
		var ctl vmCtl
		w := x.c.start(&ctl)
		w.attempt = func(at int) {
			if w.logged {
				return
			}
			for _, a := range x.tries[at] {
				before := w.state()
				tried, parts, err := w.refused(a)
				if !tried {
					continue
				}
				x.refused[a.Kind]++
				if err == nil {
					tell(x, "accepted", "an invalid expression (%v) was accepted", a)
				}
				if after := w.state(); !parts && after != before {
					tell(x, "trace", "a refused expression (%v) changed the graph from %s to %s", a, before, after)
				}
				dawdle(sim.KWhen, 3)
				if w.logged {
					break
				}
			}
			x.tries[at] = nil // once
		}
		refusals := 0
		var last error
		w.again = func(err error) bool {
			if last != nil {
				if err == nil || !strings.Contains(err.Error(), last.Error()) {
					tell(x, "accepted", "an operation refused its derivative (%v) and the differentiation returned %v", last, err)
				}
			} else if err != nil {
				return false
			}
			tried := last != nil
			last = nil
			for _, p := range w.v.Probes {
				p.Sym = func(p *ProbeOp, made int) error {
					if last == nil && refusals < 3 && sim.Choose(sim.KFault, 2) == 1 {
						refusals++
						last = fmt.Errorf("%v: %d", errRefused, refusals)
						x.refused["derivative, later not"]++
						return last
					}
					return nil
				}
			}
			return tried
		}
		n := len(x.c.Stages)
		for j, t := range x.c.Stages {
			x.stage = j
			ctl.reset(t.Faulty)
			w.extend(t)
			if w.logged {
				x.logged = true
				x.finished, x.want, x.err = true, nil, nil
				return
			}
			if t.Copy {
				w.copy()
			}
			x.got, x.err = w.use(t)
			if j == n-1 {
				break
			}
			if (x.err != nil) != (ctl.first != nil) {
				tell(x, "error", "use %d: failed operation: %v, error: %v", j+1, ctl.first, x.err)
			}
		}
		x.spoilt = w.v.spoilt()
		x.finished = true
	}
	res := r.Sim(func() {
		var wg sync.WaitGroup
		for _, x := range ws[1:] {
			wg.Add(1)
			go func(x *work) {
				defer wg.Done()
				body(x)
			}(x)
		}
		body(ws[0])
		wg.Wait()
	})
	for i, x := range ws {
		for k, n := range x.refused {
			r.Count("refused: "+k, n)
			r.NonTrivial()
		}
		if x.logged {
			r.knownFinding("log-of-softmax")
		}
		for _, f := range x.fails {
			r.Fail(f[0], "graph %d: %s", i, f[1])
		}
		if !x.finished {
			r.Fail("hang", "graph %d: stage %d did not end (status %d): %v", i, x.stage+1, res.Status, res.Left)
			return
		}
		if x.err != nil {
			r.Fail("error", "graph %d, built with attempts: %v", i, x.err)
			continue
		}
		for k := range x.want {
			// a tape reuses the memory of what something else depends on
			if _, ok := x.got[k]; !ok && !strings.HasPrefix(k, "grad ") && !strings.HasPrefix(k, "read") {
				delete(x.want, k)
			}
		}
		r.compareObs("value", fmt.Sprintf("graph %d, built with attempts", i), x.got, x.want)
		for _, s := range x.spoilt {
			r.Fail("input-modified", "graph %d: %s", i, s)
		}
	}
	if res.Alive > 0 {
		r.Fail("leak", "goroutines left: %v", res.Left)
	}
}
