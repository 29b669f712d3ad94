package main

import (
	"sync"

	"gonum.org/v1/gonum/blas"
	"gonum.org/v1/gonum/blas/gonum"
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/zzverif/sim"
)

func init() {
	register(&Prop{ID: "C07", Run: runC07, Race: true, N: 20,
		Doc:  "a batched device computes what direct calls compute, whatever its timing",
		Rule: "A run executes a random graph with linear algebra on the tape machine, 1-3 times with resets in between, with a simulated batching BLAS that queues its calls and signals early, late, merged, spuriously or not at all; it is non-trivial when at least one call was still queued when the machine executed another instruction.",
		Real: vmReal, Stubs: []string{"batching BLAS device (queue of calls executed by gonum when flushed; adversarial signals)"}})
}

// simBLAS queues calls and executes them when told to.
type simBLAS struct {
	gonum.Implementation
	mu      sync.Mutex
	queue   []func()
	limit   int // longest queue; a longer one blocks the caller until flushed
	room    *sync.Cond
	signal  chan struct{}
	noisy   bool // spurious signals
	late    bool // signals come from another goroutine, later
	queued  int
	flushes int
	deep    int
	stop    chan struct{}
	kick    chan struct{}
	closed  bool
}

func newSimBLAS(limit, buffer int) *simBLAS {
	d := &simBLAS{limit: limit, signal: make(chan struct{}, buffer), stop: make(chan struct{}), kick: make(chan struct{}, 1)}
	d.room = sync.NewCond(&d.mu)
	return d
}

func (d *simBLAS) WorkAvailable() <-chan struct{} { return d.signal }

// DoWork returns when everything queued before the call has been executed.
func (d *simBLAS) DoWork() {
	d.mu.Lock()
	d.flushes++
	if len(d.queue) > d.deep {
		d.deep = len(d.queue)
	}
	for _, f := range d.queue {
		f()
		sim.Y()
	}
	d.queue = d.queue[:0]
	d.room.Broadcast()
	d.mu.Unlock()
}

func (d *simBLAS) Close() error { return nil }

func (d *simBLAS) post() {
	select {
	case d.signal <- struct{}{}:
	default:
	}
}

func (d *simBLAS) enqueue(f func()) {
	d.mu.Lock()
	for d.limit > 0 && len(d.queue) >= d.limit {
		d.mu.Unlock()
		d.wake()
		d.mu.Lock()
		if len(d.queue) >= d.limit {
			d.room.Wait()
		}
	}
	d.queue = append(d.queue, f)
	d.queued++
	full := d.limit > 0 && len(d.queue) >= d.limit
	d.mu.Unlock()
	if full || sim.Choose(sim.KDevice, 2) == 0 {
		d.wake()
	}
}

// wake tells the machine that there is work.
func (d *simBLAS) wake() {
	if !d.late {
		d.post()
		return
	}
	select {
	case d.kick <- struct{}{}:
	default:
	}
}

// signaller sends late and spurious signals until stopped. A kick is never
// lost: a blocked caller always gets its signal in the end.
func (d *simBLAS) signaller(done *sync.WaitGroup) {
	defer done.Done()
	for i := 0; ; i++ {
		select {
		case <-d.stop:
			return
		case <-d.kick:
			dawdle(sim.KDevice, 12)
			select {
			case d.signal <- struct{}{}:
			case <-d.stop:
				return
			}
			if d.noisy && sim.Choose(sim.KDevice, 3) == 1 {
				dawdle(sim.KDevice, 12)
				d.post()
			}
		}
	}
}

// Values are returned directly, so everything queued has to be done first.
func (d *simBLAS) Ddot(n int, x []float64, incX int, y []float64, incY int) float64 {
	d.DoWork()
	return d.Implementation.Ddot(n, x, incX, y, incY)
}

func (d *simBLAS) Sdot(n int, x []float32, incX int, y []float32, incY int) float32 {
	d.DoWork()
	return d.Implementation.Sdot(n, x, incX, y, incY)
}

func (d *simBLAS) Dgemm(tA, tB blas.Transpose, m, n, k int, alpha float64, a []float64, lda int, b []float64, ldb int, beta float64, c []float64, ldc int) {
	d.enqueue(func() { d.Implementation.Dgemm(tA, tB, m, n, k, alpha, a, lda, b, ldb, beta, c, ldc) })
}

func (d *simBLAS) Dgemv(tA blas.Transpose, m, n int, alpha float64, a []float64, lda int, x []float64, incX int, beta float64, y []float64, incY int) {
	d.enqueue(func() { d.Implementation.Dgemv(tA, m, n, alpha, a, lda, x, incX, beta, y, incY) })
}

func (d *simBLAS) Dger(m, n int, alpha float64, x []float64, incX int, y []float64, incY int, a []float64, lda int) {
	d.enqueue(func() { d.Implementation.Dger(m, n, alpha, x, incX, y, incY, a, lda) })
}

func runC07(r *R) {
	g := r.Rng
	c := genCase(g, 10)
	c.Lisp = false
	o := GenOpts{MinOps: 2, MaxOps: 10, Large: 40, Structural: true, F64: true, LinAlg: true, Diff: c.Grad, NAry: !c.Grad, Probes: true}
	c.Spec = genSpec(g, o)
	c.Reads = nil
	for i := 0; i < c.Spec.n(); i++ {
		if g.P(1, 6) {
			c.Reads = append(c.Reads, i)
		}
	}
	runs := g.Range(1, 3)
	limit := g.Pick(0, 0, 3, 3, 1, 8)
	late := g.P(1, 2)
	noisy := g.P(1, 2)
	buffer := g.Pick(1, 1, 0, 4)
	if buffer == 0 {
		late = true // an unbuffered signal needs a sender of its own
	}
	pre := g.P(1, 6) // another idle machine on the same device
	r.Cfg.Prob[sim.KDevice] = g.PickU(0, 16384, 49152)
	r.faultProbs()
	r.note("%s; runs=%d limit=%d late=%v noisy=%v buffer=%d idle machine=%v", c, runs, limit, late, noisy, buffer, pre)
	direct := G.WhichBLAS()
	var want map[string]*Flat
	var qerr error
	ended := false
	r.Quiet(func() {
		q := c.buildGraph(nil, nil)
		qerr = q.machine().RunAll()
		want = q.obs()
		ended = true
	})
	if !ended || qerr != nil {
		r.Fail("error", "an undisturbed run fails: %v", qerr)
		return
	}
	var (
		v        *VMBuilt
		err      error
		got      map[string]*Flat
		finished bool
		steps    int
		d        = newSimBLAS(limit, buffer)

		queued, flushes, deep int
	)
	d.late, d.noisy = late, noisy
	res := r.Sim(func() {
		var wg sync.WaitGroup
		wg.Add(1)
		go d.signaller(&wg)
		G.Use(d)
		v = c.buildGraph(nil, nil)
		if pre {
			c2 := *c
			c2.Pre = false
			c2.buildGraph(nil, nil).machine()
		}
		m := v.machine()
		for i := 0; i < runs; i++ {
			if i > 0 {
				m.Reset()
				v.zeroGrads()
				dawdle(sim.KWhen, 10)
			}
			if err = m.RunAll(); err != nil {
				break
			}
			got = v.obs()
			r.compareObs("value", "batched run", got, want)
			steps++
		}
		finished = true
		close(d.stop)
		wg.Wait()
		d.mu.Lock()
		queued, flushes, deep = d.queued, d.flushes, d.deep
		d.mu.Unlock()
	})
	G.Use(direct.(G.BLAS))
	if !finished {
		r.Fail("hang", "run %d did not return (status %d): %v", steps+1, res.Status, res.Left)
		return
	}
	if err != nil {
		r.Fail("error", "run %d failed: %v", steps+1, err)
		return
	}
	r.Count("queued calls", queued)
	r.Count("flushes", flushes)
	if deep > 0 {
		r.NonTrivial()
	}
}
