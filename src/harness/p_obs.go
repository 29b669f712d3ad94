package main

import (
	"errors"
	"fmt"
	"log"
	"strings"
	"sync"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/zzverif/sim"
)

func init() {
	register(&Prop{ID: "C15", Run: runC15, Race: true, N: 20,
		Doc:  "observation does not change what a virtual machine computes",
		Rule: "A run executes 1-3 random graphs, each on a machine of its own, in concurrent goroutines with random loggers (whose destinations fail, write short or are slow), watch lists, value formats, tracing and non-finite watches, and compares results and errors with the same graphs executed unobserved; it is non-trivial when something was observed.",
		Real: vmReal, Stubs: append([]string{"log destination (in memory)"}, xvmStubs...)})
}

// observed is a machine with observers and what is done with it.
type observed struct {
	VM     *VMCase
	Log    bool
	Dirs   int // lisp: directions logged
	Fmt    string
	Watch  []int // nodes, or registers, or everything
	Regs   bool
	All    bool
	Trace  bool
	NaN    bool
	Inf    bool
	Bind   []int // input sets of the runs
	Fail   []int // the user-supplied operation that fails, by run
	writer slowWriter
}

// slowWriter is a flaky destination that also takes its time.
type slowWriter struct {
	flakyWriter
	slow bool
}

func (w *slowWriter) Write(p []byte) (int, error) {
	if w.slow {
		dawdle(sim.KStall, 3)
	}
	return w.flakyWriter.Write(p)
}

var valueFmts = []string{"", "%v", "%+v", "%1.1f", "%s", "%#v", "%d", "%+3.3s", "value"}

func genObserved(g *Rng, i int) *observed {
	c := genCase(g, 7)
	c.Trace = false
	c.Spec.Tag = fmt.Sprintf("m%dx", i)
	o := &observed{VM: c, Log: g.P(4, 5), Dirs: g.N(4), Fmt: valueFmts[g.N(len(valueFmts))],
		All: g.P(1, 3), Regs: !c.Lisp && g.P(1, 4), Trace: !c.Lisp && g.P(1, 2), NaN: g.P(1, 4), Inf: g.P(1, 4)}
	o.writer.slow = g.P(1, 3)
	for i := g.N(4); i > 0 && !o.All; i-- {
		o.Watch = append(o.Watch, g.N(c.Spec.n()))
	}
	for i := g.Range(1, 2); i > 0; i-- {
		o.Bind = append(o.Bind, g.N(3))
		f := -1
		if g.P(1, 4) {
			f = g.N(len(c.Spec.Ops))
		}
		o.Fail = append(o.Fail, f)
	}
	return o
}

func (o *observed) String() string {
	return fmt.Sprintf("log=%v dirs=%d fmt=%q watch=%v regs=%v all=%v trace=%v nan=%v inf=%v slow=%v bind=%v fail=%v %s",
		o.Log, o.Dirs, o.Fmt, o.Watch, o.Regs, o.All, o.Trace, o.NaN, o.Inf, o.writer.slow, o.Bind, o.Fail, o.VM)
}

func (o *observed) options(v *VMBuilt) (opts []G.VMOpt) {
	if o.Log {
		opts = append(opts, G.WithLogger(log.New(&o.writer, "", log.LstdFlags)))
	}
	if o.Fmt != "" {
		opts = append(opts, G.WithValueFmt(o.Fmt))
	}
	if o.All {
		opts = append(opts, G.WithWatchlist())
	}
	for _, k := range o.Watch {
		if o.Regs {
			opts = append(opts, G.WithWatchlist(k))
		} else {
			opts = append(opts, G.WithWatchlist(v.Nodes[k]))
		}
	}
	if o.VM.Lisp {
		opts = append(opts, [][]G.VMOpt{nil, {G.LogFwd()}, {G.LogBwd()}, {G.LogBothDir()}}[o.Dirs]...)
	}
	if o.Trace {
		opts = append(opts, G.TraceExec())
	}
	if o.NaN {
		opts = append(opts, G.WithNaNWatch())
	}
	if o.Inf {
		opts = append(opts, G.WithInfWatch())
	}
	return opts
}

type obsOutcome struct {
	obs  map[string]*Flat
	err  string
	node int64
}

// do executes the graph, observed or not.
func (o *observed) do(watch bool, between func()) (outs []obsOutcome) {
	fail := -1
	hook := func(p *ProbeOp, in []G.Value) error {
		between()
		if p.ID == fail {
			return injectedErr{p.ID, 0}
		}
		return nil
	}
	v := o.VM.buildGraph(hook, nil)
	var opts []G.VMOpt
	if watch {
		opts = o.options(v)
	}
	m := v.machine(opts...)
	for i, k := range o.Bind {
		v.rebind(k)
		fail = o.Fail[i]
		err := m.RunAll()
		out := obsOutcome{node: -1}
		if err != nil {
			out.err = err.Error()
			var ne nodeErr
			if errors.As(err, &ne) && ne.Node() != nil {
				out.node = ne.Node().ID()
			}
		} else {
			out.obs = v.settled()
		}
		outs = append(outs, out)
		m.Reset()
		v.zeroGrads()
		between()
	}
	m.Close()
	return outs
}

func runC15(r *R) {
	g := r.Rng
	os := make([]*observed, g.Range(1, 3))
	for i := range os {
		os[i] = genObserved(g, i)
		r.note("%d: %s", i, os[i])
	}
	r.faultProbs()
	want := make([][]obsOutcome, len(os))
	for i, o := range os {
		ended := false
		r.Quiet(func() {
			want[i] = o.do(false, func() {})
			ended = true
		})
		if !ended {
			r.Fail("hang", "machine %d does not finish unobserved", i)
			return
		}
	}
	got := make([][]obsOutcome, len(os))
	finished := false
	res := r.Sim(func() {
		var wg sync.WaitGroup
		for i := range os {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				dawdle(sim.KWhen, 5)
				got[i] = os[i].do(true, func() { dawdle(sim.KWhen, 2) })
			}(i)
		}
		wg.Wait()
		finished = true
	})
	if !finished {
		r.Fail("hang", "not all machines finished (status %d): %v", res.Status, res.Left)
		return
	}
	if res.Alive > 0 {
		r.Fail("leak", "goroutines left: %v", res.Left)
	}
	for i, o := range os {
		for k, w := range want[i] {
			h := got[i][k]
			what := fmt.Sprintf("machine %d, run %d", i, k+1)
			switch {
			case (h.err == "") != (w.err == ""):
				r.Fail("outcome", "%s: the error is %q, unobserved %q", what, h.err, w.err)
			case w.err != "":
				r.Count("failed operations", 1)
				if h.node != w.node {
					r.Fail("outcome", "%s: the failure of node %d is blamed on node %d: %s", what, w.node, h.node, h.err)
				}
			default:
				r.compareObs("value", what, h.obs, w.obs)
			}
		}
		text := o.writer.buf.String()
		for k := range os {
			if k != i && strings.Contains(text, os[k].VM.Spec.Tag) {
				r.Fail("mixed", "the log of machine %d has output of machine %d", i, k)
			}
		}
		r.ObserveU(mix(uint64(len(text))))
		r.Count("bytes logged", len(text))
		r.Count("failed writes", o.writer.errs)
		if o.Log && len(text) > 0 || o.Trace || o.NaN || o.Inf {
			r.NonTrivial()
		}
		if strings.Contains(text, o.VM.Spec.Tag) {
			r.Count("logs naming the machine's inputs", 1)
		}
	}
}
