package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"hash"
	"hash/fnv"

	"github.com/chewxy/hm"
	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"
)

// ProbeOp is a user-supplied operation: a weighted sum of its inputs whose
// weights depend on the position, so any mix-up of inputs shows. Its hook is
// the fault injection point.
type ProbeOp struct {
	ID     int
	N      int
	K      int
	Shape  []int
	DT     tensor.Dtype
	Hook   func(p *ProbeOp, in []G.Value) error
	Calls  int
	Failed bool
	Node   *G.Node
	Pre    bool        // can write its result into memory it is given
	reg    *[]*ProbeOp // where gradient operations of this one are listed
	Diffs  int         // gradient evaluations (direct differentiation)
	Diff   func(p *ProbeOp) error
	Sym    func(p *ProbeOp, made int) error // may refuse symbolic differentiation
	Infer  error                            // of the shape

	Taint     func(p *ProbeOp, data []float64)           // may change the result
	DiffTaint func(p *ProbeOp, k int, x float64) float64 // may change element k of what is added to a gradient
}

var errInjected = errors.New("injected operation failure")

// PreProbe is a probe that can use memory it is given.
type PreProbe struct{ *ProbeOp }

// op is the operation to put into a graph.
func (p *ProbeOp) op() G.Op {
	if p.Pre {
		return PreProbe{p}
	}
	return p
}

func (p PreProbe) UsePreallocDo(mem G.Value, in ...G.Value) (G.Value, error) {
	if mem == nil || !mem.Shape().Eq(tensor.Shape(p.Shape)) || mem.Dtype() != p.DT {
		return nil, fmt.Errorf("probe %d cannot use the memory", p.ID)
	}
	v, err := p.Do(in...)
	if err != nil {
		if v != nil {
			v = mem
		}
		return v, err
	}
	f := flat(v)
	switch x := mem.(type) {
	case *G.F64:
		*x = G.F64(f.Data[0])
	case *G.F32:
		*x = G.F32(f.Data[0])
	case *tensor.Dense:
		switch d := x.Data().(type) {
		case []float64:
			copy(d, f.Data)
		case []float32:
			for i := range d {
				d[i] = float32(f.Data[i])
			}
		default:
			return v, nil
		}
	default:
		return v, nil
	}
	return mem, nil
}

func (p *ProbeOp) Arity() int { return p.N }

func (p *ProbeOp) Type() hm.Type {
	var t hm.Type
	if len(p.Shape) == 0 {
		t = p.DT
	} else {
		t = G.TensorType{Dims: len(p.Shape), Of: p.DT}
	}
	ts := make([]hm.Type, 0, p.N+1)
	for i := 0; i <= p.N; i++ {
		ts = append(ts, t)
	}
	return hm.NewFnType(ts...)
}

func (p *ProbeOp) InferShape(...G.DimSizer) (tensor.Shape, error) {
	if p.Infer != nil {
		return nil, p.Infer
	}
	if len(p.Shape) == 0 {
		return tensor.ScalarShape(), nil
	}
	return tensor.Shape(append([]int(nil), p.Shape...)), nil
}

func (p *ProbeOp) Do(in ...G.Value) (G.Value, error) {
	p.Calls++
	if len(in) != p.N {
		return nil, fmt.Errorf("probe %d got %d inputs, wants %d", p.ID, len(in), p.N)
	}
	if p.Hook != nil {
		if err := p.Hook(p, in); err != nil {
			if p.K%2 == 0 {
				return nil, err
			}
			// what there is of the result, like operations that return their output with any error
			return mkValue(p.DT, p.Shape, make([]float64, prod(p.Shape))), err
		}
	}
	var data []float64
	for i, v := range in {
		if v == nil {
			return nil, fmt.Errorf("probe %d: input %d is missing", p.ID, i)
		}
		f := flat(v)
		if data == nil {
			data = make([]float64, len(f.Data))
		}
		if len(f.Data) != len(data) {
			return nil, fmt.Errorf("probe %d: input %d has the wrong size", p.ID, i)
		}
		w := float64(p.K+i*3) / 16
		for j := range data {
			data[j] += w * f.Data[j]
		}
	}
	if p.Taint != nil {
		p.Taint(p, data)
	}
	return mkValue(p.DT, p.Shape, data), nil
}

// DiffWRT and SymDiff make the operation differentiable symbolically; the
// gradients are probes too.
func (p *ProbeOp) DiffWRT(inputs int) []bool {
	out := make([]bool, inputs)
	for i := range out {
		out[i] = true
	}
	return out
}

func (p *ProbeOp) SymDiff(inputs G.Nodes, output, grad *G.Node) (G.Nodes, error) {
	var out G.Nodes
	for i := range inputs {
		if p.Sym != nil {
			if err := p.Sym(p, i); err != nil {
				return nil, err
			}
		}
		q := &ProbeOp{ID: 1000 + p.ID*10 + i, N: 1, K: p.K + i*3, Shape: p.Shape, DT: p.DT, Hook: p.Hook, Taint: p.Taint, Pre: p.Pre, reg: p.reg}
		n, err := G.ApplyOp(q.op(), grad)
		if err != nil {
			return nil, err
		}
		if n.Op() == q.op() {
			q.Node = n
			*p.reg = append(*p.reg, q)
		}
		out = append(out, n)
	}
	return out, nil
}

// DoDiff makes the operation differentiable by direct evaluation.
func (p *ProbeOp) DoDiff(ctx G.ExecutionContext, inputs G.Nodes, output *G.Node) error {
	p.Diffs++
	if p.Diff != nil {
		if err := p.Diff(p); err != nil {
			return err
		}
	}
	og, err := output.Grad()
	if err != nil {
		return err
	}
	of := flat(og)
	for i, in := range inputs {
		ig, err := in.Grad()
		if err != nil {
			return err
		}
		w := float64(p.K+i*3) / 16
		add := func(j int) float64 {
			if p.DiffTaint != nil && i == p.K%len(inputs) {
				return p.DiffTaint(p, j, w*of.Data[j])
			}
			return w * of.Data[j]
		}
		switch x := ig.(type) {
		case *G.F64:
			*x += G.F64(add(0))
		case *G.F32:
			*x += G.F32(add(0))
		case *tensor.Dense:
			switch d := x.Data().(type) {
			case []float64:
				for j := range d {
					d[j] += add(j)
				}
			case []float32:
				for j := range d {
					d[j] += float32(add(j))
				}
			default:
				panic(fmt.Sprintf("harness: gradient data %T", d))
			}
		default:
			panic(fmt.Sprintf("harness: gradient of type %T", ig))
		}
	}
	return nil
}

func (p *ProbeOp) ReturnsPtr() bool      { return false }
func (p *ProbeOp) CallsExtern() bool     { return false }
func (p *ProbeOp) OverwritesInput() int  { return -1 }
func (p *ProbeOp) WriteHash(h hash.Hash) { fmt.Fprintf(h, "probe%d/%d/%d", p.ID, p.N, p.K) }
func (p *ProbeOp) Hashcode() uint32 {
	h := fnv.New32a()
	p.WriteHash(h)
	return binary.LittleEndian.Uint32(h.Sum(nil))
}
func (p *ProbeOp) String() string { return fmt.Sprintf("Probe#%d", p.ID) }

// PairOp is an operation of two tensors whose gradients come from one
// operation: it returns the first and writes the second into memory that a
// node of the identity operation stands for.
type PairOp struct{ ProbeOp }

func (p *PairOp) SymDiff(inputs G.Nodes, output, grad *G.Node) (G.Nodes, error) {
	b := inputs[1]
	place := G.NewUniqueNode(G.WithType(b.Type()), G.WithShape(b.Shape().Clone()...), G.WithChildren(G.Nodes{b}), G.In(b.Graph()), G.WithOp(G.Iop{}))
	q := &pairDiff{ProbeOp{ID: p.ID + 1, N: 3, K: p.K, Shape: p.Shape, DT: p.DT, Hook: p.Hook}}
	n, err := G.ApplyOp(q, inputs[0], grad, place)
	if err != nil {
		return nil, err
	}
	q.Node = n
	*p.reg = append(*p.reg, &q.ProbeOp)
	return G.Nodes{n, place}, nil
}

type pairDiff struct{ ProbeOp }

func (q *pairDiff) Do(in ...G.Value) (G.Value, error) {
	q.Calls++
	if q.Hook != nil {
		if err := q.Hook(&q.ProbeOp, in); err != nil {
			return nil, err
		}
	}
	og := flat(in[1]).Data
	first, second := make([]float64, len(og)), make([]float64, len(og))
	for i, x := range og {
		first[i], second[i] = x*float64(q.K)/16, x*float64(q.K+3)/16
	}
	switch d := in[2].Data().(type) {
	case []float64:
		copy(d, second)
	case []float32:
		for i := range d {
			d[i] = float32(second[i])
		}
	default:
		panic(fmt.Sprintf("harness: gradient data %T", d))
	}
	return mkValue(q.DT, q.Shape, first), nil
}
