package main

import (
	"fmt"
	"sync"

	"gorgonia.org/gorgonia/zzverif/sim"
)

func init() {
	register(&Prop{ID: "C25", Run: runC25, Race: true, N: 16,
		Doc:  "colliding hash codes do not confuse expressions",
		Rule: "A run builds one to three random graphs in goroutines of their own, in stages with uses in between as for C23, while a part of all hash codes of nodes, chosen by the seed, is moved to a few codes. It is non-trivial when different nodes of a graph had the same code. Every graph is finally executed by a new machine and compared with the same graph built without coincidences.",
		Real: append([]string{"concurrent (x/vm) machine", "DOT encoder"}, vmReal...), Stubs: append([]string{"hash codes of nodes (the library's, some of them moved)"}, xvmStubs...)})
}

func runC25(r *R) {
	g := r.Rng
	if g.P(1, 2) {
		runKin(r)
		return
	}
	r.faultProbs()
	type work struct {
		c        *growCase
		want     map[string]*Flat
		got      map[string]*Flat
		nodes    int
		built    int
		err      error
		finished bool
		spoilt   []string
		stage    int
		same     int
		fails    [][2]string // kind and what
	}
	ws := make([]*work, g.Pick(1, 1, 2, 3))
	for i := range ws {
		c := genGrow(g)
		c.VM.Spec.Tag = fmt.Sprintf("g%d", i)
		if g.P(1, 2) {
			c.Stages = c.Stages[len(c.Stages)-1:]
		}
		ws[i] = &work{c: c}
		r.note("%s", c)
	}
	seed, p, k := g.Next(), g.PickU(3000, 15000, 40000, 65536), g.PickU(1, 1, 2, 3, 5)
	r.note("collisions %x %d %d", seed, p, k)
	defer sim.Collide(0, 0, 0)
	failed := false
	r.Quiet(func() {
		for i, x := range ws {
			q := x.c.start(nil)
			last := -1
			for _, t := range x.c.Stages {
				if t.Bind >= 0 {
					last = t.Bind
				}
				q.extend(t)
			}
			x.nodes = len(q.v.G.AllNodes())
			t := x.c.Stages[len(x.c.Stages)-1]
			t.Bind = last
			var err error
			if x.want, err = q.use(t); err != nil {
				r.Fail("error", "graph %d without collisions: %v", i, err)
				failed = true
			}
		}
	})
	if failed {
		return
	}
	body := func(x *work) {
		var ctl vmCtl
		w := x.c.start(&ctl)
		n := len(x.c.Stages)
		for j, t := range x.c.Stages {
			x.stage = j
			ctl.reset(t.Faulty)
			w.extend(t)
			if j == n-1 {
				codes := map[uint32]int{}
				for _, y := range w.v.G.AllNodes() {
					x.same += codes[y.Hashcode()]
					codes[y.Hashcode()] = 1
				}
				x.built = len(w.v.G.AllNodes())
			}
			if t.Copy {
				w.copy()
			}
			x.got, x.err = w.use(t)
			if j == n-1 {
				break
			}
			if (x.err != nil) != (ctl.first != nil) {
				x.fails = append(x.fails, [2]string{"error", fmt.Sprintf("use %d: failed operation: %v, error: %v", j+1, ctl.first, x.err)})
			}
		}
		x.spoilt = w.v.spoilt()
		x.finished = true
	}
	sim.Collide(seed, uint64(p), uint64(k))
	res := r.Sim(func() {
		var wg sync.WaitGroup
		for _, x := range ws[1:] {
			wg.Add(1)
			go func(x *work) {
				defer wg.Done()
				body(x)
			}(x)
		}
		body(ws[0])
		wg.Wait()
	})
	for i, x := range ws {
		r.Count("nodes with a code another one has", x.same)
		if x.same > 0 {
			r.NonTrivial()
		}
		for _, f := range x.fails {
			r.Fail(f[0], "graph %d: %s", i, f[1])
		}
		if !x.finished {
			r.Fail("hang", "graph %d: stage %d did not end (status %d): %v", i, x.stage+1, res.Status, res.Left)
			return
		}
		if x.err != nil {
			r.Fail("error", "graph %d with collisions: %v", i, x.err)
			continue
		}
		if x.built != x.nodes {
			r.Fail("sharing", "graph %d has %d nodes with collisions and %d without", i, x.built, x.nodes)
		}
		r.compareObs("value", fmt.Sprintf("graph %d with collisions", i), x.got, x.want)
		for _, s := range x.spoilt {
			r.Fail("input-modified", "graph %d: %s", i, s)
		}
	}
	if res.Alive > 0 {
		r.Fail("leak", "goroutines left: %v", res.Left)
	}
}
