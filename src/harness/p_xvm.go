package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/x/dataviz"
	xvm "gorgonia.org/gorgonia/x/vm"
	"gorgonia.org/gorgonia/zzverif/sim"
	"gorgonia.org/tensor"
)

var xvmReal = []string{"x/vm (all)", "gorgonia graph building and operations", "gorgonia.org/tensor", "gonum BLAS", "context, sync, time (simulated clock)"}
var xvmStubs = []string{"probe operations (user-supplied operations with fault injection)"}

func init() {
	register(&Prop{ID: "C01", Run: runC01, Race: true, Cold: true, N: 60,
		Doc:  "concurrent dataflow execution gives the sequential result",
		Rule: "A run builds a random graph (1-14 generated operations, sometimes up to 70, real operators and user-supplied ones, shared and repeated operands) and executes it once on the concurrent executor under an adversarial schedule; it is non-trivial when at least two goroutines were runnable at once.",
		Real: xvmReal, Stubs: xvmStubs})
	register(&Prop{ID: "C02", Run: runC02, Race: true, N: 60,
		Doc:  "concurrent execution always ends and reports failures",
		Rule: "A run executes a random graph with injected operation failures, slow operations, cancellation after a chosen number of scheduling steps, and deadlines; it is non-trivial when a failure was injected or the context ended before the run returned.",
		Real: xvmReal, Stubs: xvmStubs})
	register(&Prop{ID: "C03", Run: runC03, Race: true, N: 40,
		Doc:  "concurrent executor is reusable after any history",
		Rule: "A run takes one executor through 2-5 runs with failures, cancellations, deadlines and in-place input changes in between and then makes an undisturbed run or is closed at once; it is non-trivial when at least one disturbed run was cut short or failed.",
		Real: xvmReal, Stubs: xvmStubs})
	register(&Prop{ID: "C04", Run: runC04, Race: true, N: 40,
		Doc:  "traces are complete, ordered and harmless",
		Rule: "A run executes a random graph with tracing, with a consumer that stalls, or stops for good before a cancellation, and then dumps the records to a destination that may fail; it is non-trivial when at least two goroutines were runnable at once and records were received.",
		Real: append([]string{"x/dataviz"}, xvmReal...), Stubs: append([]string{"io.Writer destination with injected write errors"}, xvmStubs...)})
}

// injectedErr is the error of an operation made to fail.
type injectedErr struct{ id, n int }

func (e injectedErr) Error() string {
	return fmt.Sprintf("injected failure of probe<%d> call<%d>", e.id, e.n)
}

// snapshot of the leaf values of a built graph
func (b *Built) leafFlats() []*Flat {
	var out []*Flat
	for _, v := range b.Leaves {
		out = append(out, flat(v))
	}
	return out
}

func (r *R) checkLeaves(b *Built, before []*Flat) {
	for i, v := range b.Leaves {
		if !flat(v).close(before[i], 0) {
			r.Fail("input-modified", "input %d changed from %v to %v", i, before[i], flat(v))
		}
	}
}

// refOf evaluates the spec sequentially in a quiet simulation.
func (r *R) refOf(spec *Spec, prep func(b *Built)) map[int64]*Flat {
	return r.refOfGraph(spec.String(), func() *Built {
		b := spec.Build(nil)
		if prep != nil {
			prep(b)
		}
		return b
	})
}

func (r *R) refOfGraph(spec string, build func() *Built) map[int64]*Flat {
	var ref map[int64]*Flat
	var err error
	done := false
	res := r.Quiet(func() {
		b := build()
		ref, err = reference(b.G)
		done = true
	})
	if !done {
		r.Fail("hang", "sequential evaluation of %v did not finish: %v", spec, res.Left)
		return nil
	}
	if err != nil {
		r.Fail("error", "sequential evaluation of %v: %v", spec, err)
	}
	return ref
}

func (r *R) compareAll(what string, b *Built, got, ref map[int64]*Flat) {
	for _, n := range b.G.AllNodes() {
		r.ObserveU(got[n.ID()].hash())
		if !got[n.ID()].eq(ref[n.ID()]) {
			r.Fail("value", "%s: node %d %v: got %v, want %v", what, n.ID(), n, got[n.ID()], ref[n.ID()])
		}
	}
}

func results(m *xvm.Machine, b *Built) map[int64]*Flat {
	got := map[int64]*Flat{}
	for _, n := range b.G.AllNodes() {
		got[n.ID()] = flat(m.GetResult(n.ID()))
	}
	return got
}

func (r *R) note(format string, a ...interface{}) {
	r.Notes = append(r.Notes, fmt.Sprintf(format, a...))
}

// dawdle lets other goroutines run for a chosen number of steps.
func dawdle(kind, max int) int {
	k := sim.Choose(kind, max)
	for i := 0; i < k; i++ {
		runtime.Gosched()
	}
	return k
}

func runC01(r *R) {
	g := r.Rng
	spec := genSpec(g, GenOpts{MinOps: 1, MaxOps: 14, Large: 70, Probes: true, Structural: true, NAry: true})
	build := spec.Build
	if g.P(1, 4) {
		// a graph with its symbolic gradients
		c := genGradCase(g, 7)
		spec = c.Spec
		build = func(hook func(p *ProbeOp, in []G.Value) error) *Built {
			return c.buildGraph(hook, nil).Built
		}
		r.note("gradients mask=%x", c.Mask)
	}
	r.note("%s", spec)
	var (
		ref      map[int64]*Flat
		err      error
		b        *Built
		got      map[int64]*Flat
		before   []*Flat
		finished bool
	)
	if !r.Cold {
		ref = r.refOfGraph(spec.String(), func() *Built { return build(nil) })
	}
	r.Cfg.Prob[sim.KWhen] = g.PickU(0, 20000)
	hook := func(p *ProbeOp, in []G.Value) error {
		dawdle(sim.KWhen, 8)
		return nil
	}
	res := r.Sim(func() {
		b = build(hook)
		before = b.leafFlats()
		m := xvm.NewMachine(b.G)
		err = m.Run(context.Background())
		got = results(m, b)
		m.Close()
		finished = true
	})
	if !finished {
		r.Fail("hang", "Run did not return (status %d): %v", res.Status, res.Left)
		return
	}
	if err != nil {
		r.Fail("error", "Run failed although no operation failed: %v", err)
		return
	}
	if r.Cold {
		ref = r.refOfGraph(spec.String(), func() *Built { return build(nil) })
	}
	r.compareAll("concurrent run", b, got, ref)
	r.checkLeaves(b, before)
	for _, p := range b.Probes {
		if p.Calls != 1 {
			r.Fail("calls", "probe %d was executed %d times in one run", p.ID, p.Calls)
		}
	}
	if res.Alive > 0 {
		r.Fail("leak", "goroutines left: %v", res.Left)
	}
	r.Count("operations", len(spec.Ops))
	if res.MaxRun > 1 {
		r.NonTrivial()
	}
}

// xvmFaults is the fault plan of one run of the concurrent executor.
type xvmFaults struct {
	fail    bool          // probes may fail
	slow    bool          // probes may take simulated time
	cancel  bool          // cancelled by another goroutine
	pre     bool          // context cancelled before the run
	timeout time.Duration // 0: none
}

func genFaults(g *Rng) xvmFaults {
	var f xvmFaults
	f.fail = g.P(1, 2)
	f.slow = g.P(1, 2)
	switch g.N(6) {
	case 0, 1, 2:
		f.cancel = true
	case 3:
		f.timeout = time.Duration(g.Pick(1, 1000, 100000, 2000000, 50000000))
	case 4:
		f.pre = g.P(1, 3)
	}
	return f
}

func (f xvmFaults) String() string {
	return fmt.Sprintf("fail=%v slow=%v cancel=%v pre=%v timeout=%v", f.fail, f.slow, f.cancel, f.pre, f.timeout)
}

// xvmCtl drives one machine through runs.
type xvmCtl struct {
	cur    xvmFaults
	failed []*injectedErr // per probe, written by the probe's own goroutine
}

func newCtl(n int) *xvmCtl { return &xvmCtl{failed: make([]*injectedErr, n)} }

func (c *xvmCtl) hook(p *ProbeOp, in []G.Value) error {
	if c.cur.slow {
		if k := sim.Choose(sim.KWhen, 6); k > 0 {
			time.Sleep(time.Duration(k*k*k) * 7 * time.Microsecond)
		}
	}
	dawdle(sim.KWhen, 8)
	if c.cur.fail && sim.Choose(sim.KFault, 2) == 1 {
		e := injectedErr{p.ID, p.Calls}
		c.failed[p.ID] = &e
		return e
	}
	return nil
}

type runOutcome struct {
	err      error
	ctxErr   error
	failed   []injectedErr
	failedID []int64
	got      map[int64]*Flat
}

// run makes one run of m under the fault plan f.
func (c *xvmCtl) run(m *xvm.Machine, b *Built, f xvmFaults) (o runOutcome) {
	c.cur = f
	for i := range c.failed {
		c.failed[i] = nil
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if f.timeout > 0 {
		var c2 context.CancelFunc
		ctx, c2 = context.WithTimeout(ctx, f.timeout)
		defer c2()
	}
	if f.pre {
		cancel()
	}
	var cd chan bool
	if f.cancel {
		cd = make(chan bool)
		go func() {
			dawdle(sim.KWhen, 120)
			cancel()
			close(cd)
		}()
	}
	o.err = m.Run(ctx)
	o.ctxErr = ctx.Err()
	if cd != nil {
		<-cd
	}
	for i := range b.Probes {
		if e := c.failed[b.Probes[i].ID]; e != nil {
			o.failed = append(o.failed, *e)
			o.failedID = append(o.failedID, b.Probes[i].Node.ID())
		}
	}
	o.got = results(m, b)
	return o
}

// judge checks one run's outcome.
func (r *R) judge(what string, b *Built, o runOutcome, ref map[int64]*Flat) {
	switch {
	case o.err == nil && len(o.failed) > 0:
		r.Fail("failure-swallowed", "%s: %v happened but Run returned no error", what, o.failed[0])
	case o.err == nil:
		r.compareAll(what, b, o.got, ref)
	case len(o.failed) == 0 && o.ctxErr == nil:
		r.Fail("spurious-error", "%s: Run returned %q although nothing failed and the context is alive", what, o.err)
	default:
		msg := o.err.Error()
		for i, f := range o.failed {
			if !strings.Contains(msg, f.Error()) {
				r.Fail("error-lost", "%s: the error %q does not carry %q", what, msg, f.Error())
			}
			if !strings.Contains(strings.ReplaceAll(msg, f.Error(), ""), strconv.FormatInt(o.failedID[i], 10)) {
				r.Fail("error-unattributed", "%s: the error %q does not name node %d", what, msg, o.failedID[i])
			}
		}
	}
	for _, f := range o.failed {
		r.Observe(f.Error())
	}
	if o.err != nil {
		r.ObserveU(1)
	}
}

func (r *R) faultProbs() {
	g := r.Rng
	r.Cfg.Prob[sim.KFault] = g.PickU(2000, 10000, 30000)
	r.Cfg.Prob[sim.KWhen] = g.PickU(20000, 60000, 65536)
	r.Cfg.Prob[sim.KStall] = g.PickU(0, 10000, 50000)
	r.Cfg.Prob[sim.KIO] = g.PickU(0, 20000, 60000)
}

func runC02(r *R) {
	g := r.Rng
	min := 1
	if g.P(1, 40) {
		min = 0
	}
	spec := genSpec(g, GenOpts{MinOps: min, MaxOps: 10, Large: 60, Probes: true, ManyProbes: true, Structural: true, NAry: true})
	if min == 0 && g.P(1, 2) {
		spec.Leaves, spec.Ops = nil, nil // the empty graph
	}
	f := genFaults(g)
	r.faultProbs()
	r.note("%s", spec)
	r.note("%s", f)
	ref := r.refOf(spec, nil)
	var (
		o        runOutcome
		b        *Built
		before   []*Flat
		finished bool
	)
	ctl := newCtl(spec.n())
	res := r.Sim(func() {
		b = spec.Build(ctl.hook)
		before = b.leafFlats()
		m := xvm.NewMachine(b.G)
		o = ctl.run(m, b, f)
		finished = true
	})
	if !finished {
		r.Fail("hang", "Run did not return (status %d) with %v: %v", res.Status, f, res.Left)
		return
	}
	if res.Alive > 0 {
		r.Fail("leak", "goroutines left after Run returned %v: %v", o.err, res.Left)
	}
	r.judge("run", b, o, ref)
	r.checkLeaves(b, before)
	r.Count("failed operations", len(o.failed))
	if o.ctxErr != nil {
		r.Count("contexts ended", 1)
		if errors.Is(o.ctxErr, context.DeadlineExceeded) {
			r.Count("deadlines passed", 1)
		}
		if o.err == nil {
			r.Count("finished before cancellation took effect", 1)
		}
	}
	if len(o.failed) > 0 || o.ctxErr != nil {
		r.NonTrivial()
	}
}

// bump changes the data of every non-scalar leaf in place.
func (b *Built) bump(k int) {
	for _, v := range b.Leaves {
		if d, ok := v.(*tensor.Dense); ok {
			switch x := d.Data().(type) {
			case []float64:
				for i := range x {
					x[i] += float64(k) / 4
				}
			case []float32:
				for i := range x {
					x[i] += float32(k) / 4
				}
			}
		}
	}
}

func runC03(r *R) {
	g := r.Rng
	spec := genSpec(g, GenOpts{MinOps: 1, MaxOps: 8, Large: 50, Probes: true, ManyProbes: true, Structural: true, NAry: true})
	r.faultProbs()
	var plan []xvmFaults
	var bumps []int
	n := g.Range(1, 4)
	for i := 0; i < n; i++ {
		plan = append(plan, genFaults(g))
		bumps = append(bumps, g.Pick(0, 1, 3))
	}
	closed := g.P(1, 5) // closed straight after the last disturbed run
	if !closed {
		plan = append(plan, xvmFaults{})
		bumps = append(bumps, g.Pick(0, 1))
	}
	r.note("%s", spec)
	for _, f := range plan {
		r.note("%s", f)
	}
	var refs []map[int64]*Flat
	for i := range plan {
		refs = append(refs, r.refOf(spec, func(b *Built) {
			for _, k := range bumps[:i+1] {
				b.bump(k)
			}
		}))
	}
	var (
		b        *Built
		outs     []runOutcome
		finished bool
	)
	ctl := newCtl(spec.n())
	res := r.Sim(func() {
		b = spec.Build(ctl.hook)
		m := xvm.NewMachine(b.G)
		for i, f := range plan {
			b.bump(bumps[i])
			outs = append(outs, ctl.run(m, b, f))
		}
		m.Close()
		finished = true
	})
	if !finished {
		r.Fail("hang", "run %d of the history did not return (status %d): %v", len(outs), res.Status, res.Left)
		return
	}
	if res.Alive > 0 {
		r.Fail("leak", "goroutines left: %v", res.Left)
	}
	for i, o := range outs {
		r.judge(fmt.Sprintf("run %d of %d", i+1, len(outs)), b, o, refs[i])
		r.Count("failed operations", len(o.failed))
		if o.ctxErr != nil {
			r.Count("contexts ended", 1)
		}
		if i < len(outs)-1 && o.err != nil {
			r.NonTrivial()
		}
	}
	if last := outs[len(outs)-1]; closed {
		if last.err != nil {
			r.NonTrivial()
			r.Count("closed straight after a disturbed run", 1)
		}
	} else if last.err != nil {
		r.Fail("stuck-failed", "the undisturbed last run failed: %v", last.err)
	}
}

// flakyWriter is a destination with injected faults.
type flakyWriter struct {
	buf  bytes.Buffer
	errs int
}

var errDisk = errors.New("no space left on simulated device")

// writeErrs are what destinations answer with.
var writeErrs = []error{errDisk, io.ErrShortWrite, io.EOF, io.ErrClosedPipe, os.ErrClosed, syscall.EINTR, context.Canceled}

func (w *flakyWriter) Write(p []byte) (int, error) {
	if k := sim.Choose(sim.KIO, 1+2*len(writeErrs)); k > 0 {
		w.errs++
		k--
		n := k % 2 * (len(p) / 2)
		w.buf.Write(p[:n])
		return n, writeErrs[k/2]
	}
	return w.buf.Write(p)
}

type traceRec struct {
	t        xvm.Trace
	finished bool
}

func stateSeqs(recs []xvm.Trace) map[int64][]string {
	out := map[int64][]string{}
	for _, t := range recs {
		if t.End.IsZero() {
			out[t.ID] = append(out[t.ID], t.StateFunction)
		}
	}
	return out
}

func runC04(r *R) {
	g := r.Rng
	spec := genSpec(g, GenOpts{MinOps: 1, MaxOps: 8, Large: 50, Probes: true, Structural: true, NAry: true})
	r.faultProbs()
	r.Cfg.Prob[sim.KClock] = 0 // the clock moves forward
	stop := -1
	if g.P(1, 3) {
		stop = g.N(30)
	}
	cancelled := stop >= 0 || g.P(1, 4)
	r.note("%s", spec)
	r.note("consumer stops after %d records, cancelled=%v", stop, cancelled)
	ref := r.refOf(spec, nil)
	var want map[int64][]string
	var qrecs []xvm.Trace
	qdone := false
	r.Quiet(func() {
		b := spec.Build(nil)
		m := xvm.NewMachine(b.G)
		ctx, ch := xvm.WithTracing(context.Background())
		done := make(chan bool)
		go func() {
			for t := range ch {
				qrecs = append(qrecs, t)
			}
			close(done)
		}()
		m.Run(ctx)
		xvm.CloseTracing(ctx)
		<-done
		qdone = true
	})
	if qdone {
		want = stateSeqs(qrecs)
	}

	var (
		b        *Built
		err      error
		recs     []xvm.Trace
		got      map[int64]*Flat
		finished bool
		w        flakyWriter
		dumpErr  error
	)
	res := r.Sim(func() {
		b = spec.Build(nil)
		m := xvm.NewMachine(b.G)
		parent, cancel := context.WithCancel(context.Background())
		defer cancel()
		ctx, ch := xvm.WithTracing(parent)
		cdone := make(chan bool)
		go func() {
			defer close(cdone)
			for n := 0; stop < 0 || n < stop; n++ {
				t, ok := <-ch
				if !ok {
					return
				}
				recs = append(recs, t)
				if k := sim.Choose(sim.KStall, 12); k > 0 {
					if k < 6 {
						for i := 0; i < k*5; i++ {
							runtime.Gosched()
						}
					} else if k > 9 {
						time.Sleep(time.Duration(k-9) * 47 * time.Second)
					} else {
						time.Sleep(time.Duration(k) * time.Millisecond)
					}
				}
			}
		}()
		kdone := make(chan bool)
		go func() {
			defer close(kdone)
			if cancelled {
				dawdle(sim.KWhen, 200)
				cancel()
			}
		}()
		err = m.Run(ctx)
		<-kdone
		xvm.CloseTracing(ctx)
		<-cdone
		got = results(m, b)
		dumpErr = dataviz.DumpTrace(recs, b.G, &w)
		finished = true
	})
	if !finished {
		r.Fail("hang", "traced run did not return (status %d): %v", res.Status, res.Left)
		return
	}
	if res.Alive > 0 {
		r.Fail("leak", "goroutines left: %v", res.Left)
	}
	r.Count("records", len(recs))
	r.Count("writer faults", w.errs)
	if !cancelled && err != nil {
		r.Fail("trace-changes-outcome", "traced run failed: %v", err)
		return
	}
	if err == nil {
		r.compareAll("traced run", b, got, ref)
	}
	// pairing and order, per node
	open := map[int64]*xvm.Trace{}
	last := map[int64]time.Time{}
	finishedRecs := 0
	for i := range recs {
		t := recs[i]
		r.ObserveU(uint64(t.ID))
		if t.End.IsZero() {
			if o := open[t.ID]; o != nil && !cancelled {
				r.Fail("trace-unpaired", "node %d: %s started while %s has no end record", t.ID, t.StateFunction, o.StateFunction)
			}
			if t.Start.Before(last[t.ID]) {
				r.Fail("trace-order", "node %d: %s starts before the preceding record", t.ID, t.StateFunction)
			}
			last[t.ID] = t.Start
			open[t.ID] = &recs[i]
			continue
		}
		finishedRecs++
		o := open[t.ID]
		if o == nil || o.StateFunction != t.StateFunction || !o.Start.Equal(t.Start) {
			if !cancelled {
				r.Fail("trace-unpaired", "node %d: end record of %s without its start record", t.ID, t.StateFunction)
			}
		}
		if t.End.Before(t.Start) {
			r.Fail("trace-order", "node %d: %s ends before it starts", t.ID, t.StateFunction)
		}
		last[t.ID] = t.End
		delete(open, t.ID)
	}
	if !cancelled {
		if len(open) > 0 {
			r.Fail("trace-unpaired", "%d records without an end", len(open))
		}
		if qdone {
			have := stateSeqs(recs)
			for _, n := range b.G.AllNodes() {
				id := n.ID()
				if len(want[id]) == 0 || fmt.Sprint(have[id]) != fmt.Sprint(want[id]) {
					r.Fail("trace-incomplete", "node %d: transitions %v, an undisturbed run has %v", id, have[id], want[id])
				}
			}
		} else {
			r.Fail("hang", "traced run does not finish even without disturbance")
		}
	}
	// the dump
	if (dumpErr != nil) != (w.errs > 0) {
		r.Fail("dump-error", "the destination failed %d times, the dump returned %v", w.errs, dumpErr)
	}
	if dumpErr == nil {
		type lab struct {
			TimeRange []time.Time `json:"timeRange"`
			Val       string      `json:"val"`
		}
		var groups []struct {
			Group string `json:"group"`
			Data  []struct {
				Label string `json:"label"`
				Data  []lab  `json:"data"`
			} `json:"data"`
		}
		if e := json.Unmarshal(w.buf.Bytes(), &groups); e != nil {
			r.Fail("dump", "the dump is not valid: %v", e)
			return
		}
		have := map[string]int{}
		for _, gr := range groups {
			for _, d := range gr.Data {
				for _, l := range d.Data {
					if len(l.TimeRange) == 2 {
						have[fmt.Sprint(gr.Group, "|", d.Label, "|", l.Val, "|", l.TimeRange[0].UnixNano(), "|", l.TimeRange[1].UnixNano())]++
					}
				}
			}
		}
		for i := range recs {
			t := recs[i]
			if t.End.IsZero() {
				continue
			}
			k := fmt.Sprint(t.StateFunction, "|", b.G.Node(t.ID).(*G.Node).Name(), "|", t.ID, "|", t.Start.UnixNano(), "|", t.End.UnixNano())
			have[k]--
		}
		for k, n := range have {
			if n != 0 {
				r.Fail("dump", "record %s is dumped %+d times more than received", k, n)
			}
		}
	}
	if len(recs) > 0 && res.MaxRun > 1 {
		r.NonTrivial()
	}
}
