package main

import (
	"fmt"
	"sort"
	"sync"

	G "gorgonia.org/gorgonia"
	xvm "gorgonia.org/gorgonia/x/vm"
	"gorgonia.org/gorgonia/zzverif/sim"
)

func init() {
	register(&Prop{ID: "C10", Run: runC10, Race: true, N: 60,
		Doc:  "streamed graph traversals deliver every node once and then end",
		Rule: "A run builds one graph, optionally with gradients and read-outs, and lets 1-5 goroutines traverse it or parts of it at the same time through the channel based traversals, subgraph extraction and the structure queries, with consumers of varying speed; it is non-trivial when at least one streamed traversal had two or more nodes to deliver.",
		Real: []string{"graph walking, node sets, subgraph extraction, structure queries", "graph building and differentiation", "concurrent (x/vm) machine construction"}, Stubs: []string{"scheduler and map order (simulated)"}})
}

const (
	tWalk = iota
	tIter
	tRoots
	tExact
	tQuery
	tSort
	tMachine
	tList
	tKinds
)

// traversal is one traversal done by one goroutine.
type traversal struct {
	Kind    int
	Nodes   []int // indices into AllNodes
	Readers int   // goroutines draining the channel
	Slow    int
}

// graphModel is the structure of a finished graph, read off once.
type graphModel struct {
	all  []*G.Node
	idx  map[*G.Node]int
	kids [][]int
	pars [][]int
	stmt []bool
}

func modelOf(g *G.ExprGraph, reads []*G.Node) *graphModel {
	m := &graphModel{all: append([]*G.Node{}, g.AllNodes()...), idx: map[*G.Node]int{}}
	for i, n := range m.all {
		m.idx[n] = i
	}
	m.kids = make([][]int, len(m.all))
	m.pars = make([][]int, len(m.all))
	m.stmt = make([]bool, len(m.all))
	for i, n := range m.all {
		it := g.From(n.ID())
		for it.Next() {
			c, ok := m.idx[it.Node().(*G.Node)]
			if !ok {
				panic("harness: operand outside the graph")
			}
			m.kids[i] = append(m.kids[i], c)
			m.pars[c] = append(m.pars[c], i)
		}
	}
	for _, n := range reads {
		m.stmt[m.idx[n]] = true
	}
	return m
}

func uniqInts(l []int) []int {
	sort.Ints(l)
	out := l[:0]
	for i, x := range l {
		if i == 0 || x != l[i-1] {
			out = append(out, x)
		}
	}
	return out
}

func (m *graphModel) reach(roots []int) []int {
	seen := map[int]bool{}
	var out []int
	var rec func(i int)
	rec = func(i int) {
		if seen[i] {
			return
		}
		seen[i] = true
		out = append(out, i)
		for _, c := range m.kids[i] {
			rec(c)
		}
	}
	for _, r := range roots {
		rec(r)
	}
	sort.Ints(out)
	return out
}

// names renders delivered nodes for comparison.
func (m *graphModel) indices(ns []*G.Node) ([]int, error) {
	var out []int
	for _, n := range ns {
		i, ok := m.idx[n]
		if !ok {
			return nil, fmt.Errorf("a node that is not in the graph was delivered")
		}
		out = append(out, i)
	}
	return out, nil
}

// do performs the traversal and judges what it delivered.
func (t *traversal) do(g *G.ExprGraph, m *graphModel) (string, int) {
	drain := func(ch <-chan *G.Node) []*G.Node {
		var mu sync.Mutex
		var wg sync.WaitGroup
		var got []*G.Node
		for k := 0; k < t.Readers; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					if t.Slow > 0 {
						dawdle(sim.KStall, t.Slow)
					}
					n, ok := <-ch
					if !ok {
						return
					}
					mu.Lock()
					got = append(got, n)
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		return got
	}
	sel := make([]*G.Node, len(t.Nodes))
	for i, k := range t.Nodes {
		sel[i] = m.all[k]
	}
	compare := func(what string, ns []*G.Node, want []int) string {
		got, err := m.indices(ns)
		if err != nil {
			return what + ": " + err.Error()
		}
		raw := fmt.Sprint(got)
		sort.Ints(got)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Sprintf("%s delivered %v, expected exactly %v", what, raw, want)
		}
		return ""
	}
	switch t.Kind {
	case tWalk:
		want := m.reach(t.Nodes[:1])
		got := drain(G.WalkGraph(sel[0]))
		if s := compare("walk", got, want); s != "" {
			return s, len(want)
		}
		if t.Readers == 1 {
			if got[0] != sel[0] {
				return "walk does not begin with its start", len(want)
			}
			// depth first: every node but the start follows one that uses it
			seen := map[int]bool{m.idx[got[0]]: true}
			for _, n := range got[1:] {
				i := m.idx[n]
				ok := false
				for _, p := range m.pars[i] {
					ok = ok || seen[p]
				}
				if !ok {
					return fmt.Sprintf("walk delivered node %d before any of its users", i), len(want)
				}
				seen[i] = true
			}
		}
		return "", len(want)
	case tIter:
		set := G.NewNodeSet(sel...)
		want := uniqInts(append([]int{}, t.Nodes...))
		return compare("set iteration", drain(set.Iter()), want), len(want)
	case tRoots, tExact:
		want := m.reach(t.Nodes)
		var sub *G.ExprGraph
		if t.Kind == tExact {
			sub = g.ExactSubgraphRoots(sel...)
		} else {
			sub = g.SubgraphRoots(sel...)
			if len(sel) == 1 && t.Slow == 0 {
				sub = g.Subgraph(sel...)
			}
			// read-outs of nodes in the subgraph belong to it
			in := map[int]bool{}
			for _, i := range want {
				in[i] = true
			}
			for _, i := range want {
				for _, p := range m.pars[i] {
					if m.stmt[p] && !in[p] {
						in[p] = true
						want = append(want, p)
					}
				}
			}
			sort.Ints(want)
		}
		return compare("subgraph", sub.AllNodes(), want), len(want)
	case tQuery:
		for _, k := range t.Nodes {
			var ps, cs []int
			n := m.all[k]
			it := g.To(n.ID())
			for it.Next() {
				ps = append(ps, m.idx[it.Node().(*G.Node)])
			}
			it = g.From(n.ID())
			for it.Next() {
				cs = append(cs, m.idx[it.Node().(*G.Node)])
			}
			if want := uniqInts(append([]int{}, m.pars[k]...)); fmt.Sprint(uniqInts(ps)) != fmt.Sprint(want) {
				return fmt.Sprintf("users of node %d: got %v, want %v", k, ps, want), 0
			}
			if want := uniqInts(append([]int{}, m.kids[k]...)); fmt.Sprint(uniqInts(cs)) != fmt.Sprint(want) {
				return fmt.Sprintf("operands of node %d: got %v, want %v", k, cs, want), 0
			}
			dawdle(sim.KStall, 2)
		}
	case tSort:
		ns, err := G.Sort(g)
		if err != nil {
			return "sort: " + err.Error(), 0
		}
		want := make([]int, len(m.all))
		for i := range want {
			want[i] = i
		}
		if s := compare("sort", ns, want); s != "" {
			return s, 0
		}
		pos := make([]int, len(m.all))
		for i, n := range ns {
			pos[m.idx[n]] = i
		}
		for i, cs := range m.kids {
			for _, c := range cs {
				if pos[c] < pos[i] {
					return fmt.Sprintf("sort puts node %d before its user %d", c, i), 0
				}
			}
		}
	case tMachine:
		xvm.NewMachine(g).Close()
	case tList:
		return m.lists(g, t), 0
	}
	return "", 0
}

// lists asks for the results, the edges and the nodes of the graph.
func (m *graphModel) lists(g *G.ExprGraph, t *traversal) string {
	var want, got []int
	for i := range m.all {
		if len(m.pars[i]) == 0 {
			want = append(want, i)
		}
		// what is only read out is a result
		if m.stmt[i] && len(m.pars[m.kids[i][0]]) == 1 {
			want = append(want, m.kids[i][0])
		}
	}
	for _, n := range g.Roots() {
		got = append(got, m.idx[n])
	}
	if a, b := fmt.Sprint(uniqInts(got)), fmt.Sprint(uniqInts(want)); a != b {
		return fmt.Sprintf("results: got %s, want %s", a, b)
	}
	dawdle(sim.KStall, 2)
	pairs := map[[2]int]bool{}
	for es := g.Edges(); es.Next(); {
		a, b := m.idx[es.Edge().From().(*G.Node)], m.idx[es.Edge().To().(*G.Node)]
		if a > b {
			a, b = b, a
		}
		pairs[[2]int{a, b}] = true
	}
	n := 0
	for i, cs := range m.kids {
		for _, c := range uniqInts(append([]int{}, cs...)) {
			n++
			a, b := i, c
			if a > b {
				a, b = b, a
			}
			if !pairs[[2]int{a, b}] {
				return fmt.Sprintf("the edge from %d to %d is not among the edges", i, c)
			}
		}
	}
	if n != len(pairs) {
		return fmt.Sprintf("%d edges, want %d", len(pairs), n)
	}
	dawdle(sim.KStall, 2)
	for _, a := range t.Nodes {
		for b := range m.all {
			x, y := m.all[a].ID(), m.all[b].ID()
			down, up := false, false
			for _, c := range m.kids[a] {
				down = down || c == b
			}
			for _, c := range m.kids[b] {
				up = up || c == a
			}
			if g.HasEdgeFromTo(x, y) != down || (g.Edge(x, y) != nil) != down || g.HasEdgeBetween(x, y) != (down || up) {
				return fmt.Sprintf("wrong answer about an edge between %d and %d", a, b)
			}
		}
		if g.Node(m.all[a].ID()) != m.all[a] || !g.Has(m.all[a].ID()) {
			return fmt.Sprintf("node %d is not found", a)
		}
	}
	var all []int
	for ns := g.Nodes(); ns.Next(); {
		all = append(all, m.idx[ns.Node().(*G.Node)])
	}
	if sort.Ints(all); len(uniqInts(all)) != len(m.all) {
		return fmt.Sprintf("%d nodes, want %d", len(all), len(m.all))
	}
	for _, n := range g.Inputs() {
		if i := m.idx[n]; len(m.kids[i]) > 0 {
			return fmt.Sprintf("the operation %d is said to be an input", i)
		}
	}
	return ""
}

func runC10(r *R) {
	g := r.Rng
	c := &VMCase{Grad: g.P(1, 3), Mask: uint(g.N(1 << 16))}
	o := GenOpts{MinOps: 1, MaxOps: g.Pick(4, 10, 20), Large: 120, Probes: true, NAry: !c.Grad, Structural: true}
	if c.Grad {
		o.Diff, o.F64 = true, true
	}
	c.Spec = genSpec(g, o)
	for i := 0; i < c.Spec.n(); i++ {
		if g.P(1, 8) {
			c.Reads = append(c.Reads, i)
		}
	}
	v := c.buildGraph(nil, nil)
	m := modelOf(v.G, v.readNodes)
	r.note("%s", c)
	ts := make([]*traversal, g.Range(1, 5))
	for i := range ts {
		t := &traversal{Kind: g.N(tKinds), Readers: g.Pick(1, 1, 1, 2, 3), Slow: g.Pick(0, 3, 20)}
		for k := g.Range(1, 4); k > 0; k-- {
			t.Nodes = append(t.Nodes, g.N(len(m.all)))
		}
		if t.Kind == tRoots || t.Kind == tExact {
			t.Nodes = uniqInts(t.Nodes)
		}
		if t.Kind == tMachine && len(c.Reads) > 0 {
			t.Kind = tWalk
		}
		if t.Kind == tIter && g.P(1, 2) {
			t.Nodes = g.Perm(len(m.all))
		}
		ts[i] = t
		r.note("%+v", *t)
	}
	r.faultProbs()
	var mu sync.Mutex
	msgs := make([]string, len(ts))
	big, ended := 0, 0
	finished := false
	res := r.Sim(func() {
		var wg sync.WaitGroup
		for i, t := range ts {
			wg.Add(1)
			go func(i int, t *traversal) {
				defer wg.Done()
				dawdle(sim.KWhen, 5)
				s, n := t.do(v.G, m)
				mu.Lock()
				msgs[i] = s
				ended++
				if n > big {
					big = n
				}
				mu.Unlock()
			}(i, t)
		}
		wg.Wait()
		finished = true
	})
	if !finished {
		mu.Lock()
		defer mu.Unlock()
		r.Fail("hang", "%d of %d traversals ended (status %d): %v", ended, len(ts), res.Status, res.Left)
		return
	}
	for i, s := range msgs {
		if s != "" {
			r.Fail("delivery", "traversal %d: %s", i, s)
		}
	}
	if res.Alive > 0 {
		r.Fail("leak", "goroutines left: %v", res.Left)
	}
	r.Count("traversals", len(ts))
	if big > 1 {
		r.NonTrivial()
	}
}
