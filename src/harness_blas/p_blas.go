package main

import (
	"fmt"
	"math"
	"sync"

	"gonum.org/v1/gonum/blas"
	"gonum.org/v1/netlib/blas/netlib"
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/blase"
	"gorgonia.org/gorgonia/zzverif/sim"
)

func init() {
	register(&Prop{ID: "C26", Run: runC26, Race: true, N: 20,
		Doc:  "queued BLAS calls take effect once, in order, and before a flush returns",
		Rule: "Half of the runs submit 1-14 dependent products from each of 1-3 goroutines to the batching BLAS, with flushes in between, while 0-2 other goroutines flush on its signals; the others execute 1-2 random graphs with linear algebra on tape machines that share it. It is non-trivial when a flush was asked for while another goroutine had submitted work.",
		Real: append([]string{"batching BLAS (blase) with its C part and OpenBLAS"}, vmReal...), Stubs: []string{}})
}

// product is one call.
type product struct {
	vec         bool
	tA, tB      blas.Transpose
	m, n, k     int
	lda, ldb    int
	ldc         int
	incX, incY  int
	alpha, beta float64
	a, b, c     int // numbers of the matrices
	flush       bool
}

const blasMats, blasSize = 5, 64

func genProducts(g *Rng) (ps []product) {
	for n := g.Range(1, 14); n > 0; n-- {
		p := product{vec: g.P(1, 3), tA: blas.NoTrans, tB: blas.NoTrans, m: g.Range(1, 5), n: g.Range(1, 5), k: g.Range(1, 5),
			alpha: float64(g.Range(1, 6)) / 8, beta: float64(g.Range(0, 6)) / 8, flush: g.P(1, 4)}
		if g.P(1, 3) {
			p.tA = blas.Trans
		}
		if g.P(1, 3) {
			p.tB = blas.Trans
		}
		p.lda, p.ldb, p.ldc = p.k, p.n, p.n
		if p.vec {
			p.lda = p.n
		} else {
			if p.tA == blas.Trans {
				p.lda = p.m
			}
			if p.tB == blas.Trans {
				p.ldb = p.k
			}
		}
		p.lda += g.Pick(0, 0, 1, 3)
		p.ldb += g.Pick(0, 0, 1, 3)
		p.ldc += g.Pick(0, 0, 1, 3)
		p.incX, p.incY = g.Range(1, 3), g.Range(1, 3)
		// the result is not an operand
		p.c = g.N(blasMats)
		p.a = (p.c + g.Range(1, blasMats-1)) % blasMats
		p.b = (p.c + g.Range(1, blasMats-1)) % blasMats
		ps = append(ps, p)
	}
	return ps
}

type blasCalls interface {
	Dgemm(tA, tB blas.Transpose, m, n, k int, alpha float64, a []float64, lda int, b []float64, ldb int, beta float64, c []float64, ldc int)
	Dgemv(tA blas.Transpose, m, n int, alpha float64, a []float64, lda int, x []float64, incX int, beta float64, y []float64, incY int)
}

func (p product) do(lib blasCalls, ms [][]float64) {
	if p.vec {
		lib.Dgemv(p.tA, p.m, p.n, p.alpha, ms[p.a], p.lda, ms[p.b], p.incX, p.beta, ms[p.c], p.incY)
		return
	}
	lib.Dgemm(p.tA, p.tB, p.m, p.n, p.k, p.alpha, ms[p.a], p.lda, ms[p.b], p.ldb, p.beta, ms[p.c], p.ldc)
}

func blasData(seed uint64) [][]float64 {
	rng := &Rng{s: seed}
	ms := make([][]float64, blasMats)
	for i := range ms {
		ms[i] = make([]float64, blasSize)
		for j := range ms[i] {
			ms[i][j] = float64(rng.N(512)) / 512
		}
	}
	return ms
}

func blasDiff(got, want [][]float64) string {
	for i := range want {
		for j, w := range want[i] {
			if x := got[i][j]; !(math.Abs(x-w) <= 1e-9*(1+math.Abs(w))) {
				return fmt.Sprintf("element %d of matrix %d is %v, not %v", j, i, x, w)
			}
		}
	}
	return ""
}

func runC26(r *R) {
	if r.Rng.P(1, 2) {
		r.blasMachines()
		return
	}
	type user struct {
		ps   []product
		seed uint64
		want [][][]float64 // after each call
		bad  string
		end  bool
	}
	lib := blase.Implementation()
	users := make([]*user, r.Rng.Range(1, 3))
	for i := range users {
		u := &user{ps: genProducts(r.Rng), seed: r.Rng.Next()}
		users[i] = u
		ms := blasData(u.seed)
		for _, p := range u.ps {
			p.do(netlib.Implementation{}, ms)
			var c [][]float64
			for _, m := range ms {
				c = append(c, append([]float64(nil), m...))
			}
			u.want = append(u.want, c)
		}
		r.note("goroutine %d: %d calls", i, len(u.ps))
	}
	servers := r.Rng.N(3)
	r.note("%d goroutines that flush on signals", servers)
	calls, flushes := 0, 0
	var mu sync.Mutex
	res := r.Sim(func() {
		stop := make(chan struct{})
		var wg, sg sync.WaitGroup
		for i := 0; i < servers; i++ {
			sg.Add(1)
			go func() {
				defer sg.Done()
				for {
					select {
					case <-stop:
						return
					case <-lib.WorkAvailable():
						dawdle(sim.KWhen, 4)
						lib.DoWork()
					}
				}
			}()
		}
		for _, u := range users {
			u := u
			wg.Add(1)
			go func() {
				defer wg.Done()
				ms := blasData(u.seed)
				for i, p := range u.ps {
					p.do(lib, ms)
					mu.Lock()
					calls++
					mu.Unlock()
					dawdle(sim.KWhen, 4)
					if !p.flush && i < len(u.ps)-1 {
						continue
					}
					lib.DoWork()
					mu.Lock()
					flushes++
					mu.Unlock()
					if d := blasDiff(ms, u.want[i]); d != "" && u.bad == "" {
						u.bad = fmt.Sprintf("after a flush that followed call %d of %d: %s", i+1, len(u.ps), d)
					}
				}
				u.end = true
			}()
		}
		wg.Wait()
		close(stop)
		sg.Wait()
		lib.DoWork() // nothing is left for the next run
		select {
		case <-lib.WorkAvailable():
		default:
		}
	})
	for i, u := range users {
		if u.bad != "" {
			r.Fail("value", "goroutine %d: %s", i, u.bad)
		} else if !u.end {
			r.Fail("hang", "goroutine %d did not end: %v", i, res.Left)
		}
	}
	r.Count("queued calls", calls)
	r.Count("flushes", flushes)
	if len(users)+servers > 1 {
		r.NonTrivial()
	}
}

// blasMachines executes graphs on machines that share the library.
func (r *R) blasMachines() {
	g := r.Rng
	type user struct {
		c    *VMCase
		runs int
		want map[string]*Flat
		got  []map[string]*Flat
		err  error
		end  bool
	}
	users := make([]*user, g.Range(1, 2))
	for i := range users {
		c := genCase(g, 8)
		c.Lisp = false
		c.Spec = genSpec(g, GenOpts{MinOps: 2, MaxOps: 8, Large: 30, Structural: true, F64: true, LinAlg: true, Diff: c.Grad, NAry: !c.Grad})
		c.Reads = nil
		users[i] = &user{c: c, runs: g.Range(1, 3)}
		r.note("machine %d: %d runs of %s", i, users[i].runs, c)
	}
	direct := G.WhichBLAS()
	defer func() { G.Use(direct) }()
	G.Use(netlib.Implementation{})
	for _, u := range users {
		var err error
		ended := false
		r.Quiet(func() {
			q := u.c.buildGraph(nil, nil)
			err = q.machine().RunAll()
			u.want = q.obs()
			ended = true
		})
		if !ended || err != nil {
			r.Fail("error", "an undisturbed run fails: %v", err)
			return
		}
	}
	lib := blase.Implementation()
	res := r.Sim(func() {
		G.Use(lib)
		var wg sync.WaitGroup
		for _, u := range users {
			u := u
			wg.Add(1)
			go func() {
				defer wg.Done()
				v := u.c.buildGraph(nil, nil)
				m := v.machine()
				for i := 0; i < u.runs; i++ {
					if i > 0 {
						m.Reset()
						v.zeroGrads()
						dawdle(sim.KWhen, 10)
					}
					if u.err = m.RunAll(); u.err != nil {
						return
					}
					u.got = append(u.got, v.obs())
				}
				u.end = true
			}()
		}
		wg.Wait()
		lib.DoWork()
		select {
		case <-lib.WorkAvailable():
		default:
		}
	})
	for i, u := range users {
		for j, got := range u.got {
			r.compareObs("value", fmt.Sprintf("machine %d, run %d", i, j+1), got, u.want)
		}
		if u.err != nil {
			r.Fail("error", "machine %d: %v", i, u.err)
		} else if !u.end {
			r.Fail("hang", "machine %d did not end (status %d): %v", i, res.Status, res.Left)
		}
	}
	r.Count("graphs executed", len(users))
	if len(users) > 1 {
		r.NonTrivial()
	}
}
