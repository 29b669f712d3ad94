package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"sync"

	"gonum.org/v1/gonum/graph"
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/encoding/dot"
	"gorgonia.org/gorgonia/zzverif/sim"
)

func init() {
	register(&Prop{ID: "C20", Run: runC20, Race: true, Cold: true, N: 20,
		Doc:  "pictures of a graph are complete, the same every time and harmless",
		Rule: "A run builds 1-3 graphs (with symbolic gradients, layers that form groups, values or none), lets 1-4 goroutines render them in all ways, several of them the same graph, and executes them before and afterwards; every text is parsed and its nodes and edges compared with the graph. It is non-trivial when at least two renderings of one graph were compared and the order of a hash table was chosen or two goroutines were active.",
		Real: append([]string{"encoding/dot", "gographviz and gonum's DOT encoder"}, vmReal...), Stubs: []string{"scheduler, clock, hash table order and object pools (simulated)"}})
}

// picture collects the statements of a DOT text.
type picture struct {
	labels map[string]string
	edges  map[[2]string]int
}

// dotToken is a word, string or sign of a DOT text.
type dotToken struct {
	text string
	sign bool
}

func dotTokens(s string) (out []dotToken, err error) {
	word := func(c byte) bool {
		return c == '_' || c == '.' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 128
	}
	for i := 0; i < len(s); {
		switch c := s[i]; {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(s[i:], "//"):
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) {
				return nil, fmt.Errorf("a string does not end")
			}
			out = append(out, dotToken{text: s[i+1 : j]})
			i = j + 1
		case c == '<':
			deep, j := 0, i
			for ; j < len(s); j++ {
				if s[j] == '<' {
					deep++
				} else if s[j] == '>' {
					if deep--; deep == 0 {
						break
					}
				}
			}
			if j >= len(s) {
				return nil, fmt.Errorf("a label does not end")
			}
			out = append(out, dotToken{text: s[i+1 : j]})
			i = j + 1
		case strings.HasPrefix(s[i:], "->"):
			out = append(out, dotToken{"->", true})
			i += 2
		case strings.IndexByte("{}[]=;,:", c) >= 0:
			out = append(out, dotToken{string(c), true})
			i++
		case word(c) || c == '-':
			j := i + 1
			for j < len(s) && word(s[j]) {
				j++
			}
			out = append(out, dotToken{text: s[i:j]})
			i = j
		default:
			return nil, fmt.Errorf("unexpected %q", c)
		}
	}
	return out, nil
}

func parseDot(text string) (*picture, error) {
	p := &picture{labels: map[string]string{}, edges: map[[2]string]int{}}
	ts, err := dotTokens(text)
	if err != nil {
		return nil, err
	}
	i := 0
	is := func(sign string) bool { return i < len(ts) && ts[i].sign && ts[i].text == sign }
	word := func() (string, error) {
		if i >= len(ts) || ts[i].sign {
			return "", fmt.Errorf("a name is missing")
		}
		i++
		return ts[i-1].text, nil
	}
	attrs := func() (map[string]string, error) {
		m := map[string]string{}
		for is("[") {
			i++
			for !is("]") {
				k, err := word()
				if err != nil {
					return nil, err
				}
				if !is("=") {
					return nil, fmt.Errorf("attribute %q has no value", k)
				}
				i++
				if m[k], err = word(); err != nil {
					return nil, err
				}
				if is(",") || is(";") {
					i++
				}
			}
			i++
		}
		return m, nil
	}
	node := func() (string, error) {
		id, err := word()
		for err == nil && is(":") {
			i++
			_, err = word()
		}
		return id, err
	}
	deep := 0
	for i < len(ts) {
		switch {
		case is("{"):
			deep++
			i++
		case is("}"):
			deep--
			i++
		case is(";"):
			i++
		case deep == 0 || ts[i].text == "subgraph" && !ts[i].sign:
			for i < len(ts) && !is("{") {
				if _, err := word(); err != nil {
					return nil, err
				}
			}
		case !ts[i].sign && (ts[i].text == "graph" || ts[i].text == "node" || ts[i].text == "edge") && i+1 < len(ts) && ts[i+1] == dotToken{"[", true}:
			i++
			if _, err := attrs(); err != nil {
				return nil, err
			}
		default:
			ids := []string{}
			id, err := node()
			if err != nil {
				return nil, err
			}
			if is("=") {
				i++
				if _, err := word(); err != nil {
					return nil, err
				}
				continue
			}
			ids = append(ids, id)
			for is("->") {
				i++
				if id, err = node(); err != nil {
					return nil, err
				}
				ids = append(ids, id)
			}
			m, err := attrs()
			if err != nil {
				return nil, err
			}
			if m["style"] == "invis" || m["style"] == "dashed" {
				continue
			}
			for j := range ids[1:] {
				e := [2]string{ids[j], ids[j+1]}
				if m["dir"] == "back" {
					e[0], e[1] = e[1], e[0]
				}
				p.edges[e]++
			}
			if l := m["label"]; len(ids) == 1 && (l != "" || p.labels[id] == "") {
				p.labels[id] = l
			}
		}
	}
	if deep != 0 {
		return nil, fmt.Errorf("the braces do not match")
	}
	return p, nil
}

// shape is a graph without the identity of its nodes, except for inputs.
type shape struct {
	names []string // of inputs, "" for the others
	edges [][2]int
	cut   bool // an operation is there without any of its operands
}

var dotWord = regexp.MustCompile(`[A-Za-z][A-Za-z0-9]*`)

// shape is the picture's graph. inputs are the names inputs may have. multi
// tells whether an operand used twice has two edges.
func (p *picture) shape(inputs map[string]bool, multi bool) (*shape, error) {
	ids := make([]string, 0, len(p.labels))
	for id := range p.labels {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	at := map[string]int{}
	s := &shape{}
	out := map[string]bool{}
	for e := range p.edges {
		out[e[0]] = true
	}
	for i, id := range ids {
		at[id] = i
		name := ""
		if !out[id] {
			for _, w := range dotWord.FindAllString(p.labels[id], -1) {
				if inputs[w] {
					name = w
					break
				}
			}
		}
		s.names = append(s.names, name)
	}
	for e, times := range p.edges {
		a, ok := at[e[0]]
		b, ok2 := at[e[1]]
		if !ok || !ok2 {
			return nil, fmt.Errorf("an edge leads to a node that is not there")
		}
		for s.edges = append(s.edges, [2]int{a, b}); multi && times > 1; times-- {
			s.edges = append(s.edges, [2]int{a, b})
		}
	}
	return s, nil
}

// sign is the same for graphs that differ only in the order of nodes.
func (s *shape) sign() []uint64 {
	n := len(s.names)
	col := make([]uint64, n)
	for i, x := range s.names {
		col[i] = hashString(x)
	}
	for round := 0; round < 8; round++ {
		next := make([]uint64, n)
		for i := range next {
			next[i] = stir(col[i])
		}
		for _, e := range s.edges {
			next[e[0]] += stir(col[e[1]] ^ 0x1111)
			next[e[1]] += stir(col[e[0]] ^ 0x7777777)
		}
		col = next
	}
	sort.Slice(col, func(i, j int) bool { return col[i] < col[j] })
	return append(col, uint64(len(s.edges)))
}

func stir(x uint64) uint64 {
	x ^= x >> 29
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 32
	x *= 0x94d049bb133111eb
	return x ^ x>>31
}

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func sameU(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// part is the graph of the given nodes.
func partShape(g *G.ExprGraph, ns []*G.Node, multi bool) *shape {
	s := &shape{}
	at := map[*G.Node]int{}
	for _, n := range ns {
		if _, ok := at[n]; ok {
			continue
		}
		at[n] = len(s.names)
		name := ""
		if n.IsVar() && len(kids(g, n)) == 0 {
			name = n.Name()
		}
		s.names = append(s.names, name)
	}
	seen := map[[2]int]bool{}
	for _, n := range ns {
		below := len(s.edges)
		for _, k := range kids(g, n) {
			if j, ok := at[k]; ok && (multi || !seen[[2]int{at[n], j}]) {
				seen[[2]int{at[n], j}] = true
				s.edges = append(s.edges, [2]int{at[n], j})
			}
		}
		s.cut = s.cut || len(s.edges) == below && len(kids(g, n)) > 0
	}
	return s
}

func kids(g *G.ExprGraph, n *G.Node) (out []*G.Node) {
	for _, k := range graph.NodesOf(g.From(n.ID())) {
		out = append(out, k.(*G.Node))
	}
	return out
}

func parents(g *G.ExprGraph, n *G.Node) (out []*G.Node) {
	for _, k := range graph.NodesOf(g.To(n.ID())) {
		out = append(out, k.(*G.Node))
	}
	return out
}

// dotGraph is a graph to render.
type dotGraph struct {
	VM  *VMCase
	NN  *NNCase
	Run bool

	g     *G.ExprGraph
	nodes []*G.Node
	exec  func() (map[string]*Flat, error)
	first map[string]*Flat
}

func (d *dotGraph) String() string {
	if d.VM != nil {
		return fmt.Sprintf("run=%v %s", d.Run, d.VM)
	}
	return fmt.Sprintf("run=%v %s", d.Run, d.NN)
}

func (d *dotGraph) build() {
	if d.VM != nil {
		b := d.VM.buildGraph(nil, nil)
		d.g = b.Built.G
		d.exec = func() (map[string]*Flat, error) {
			m := b.machine()
			defer m.Close()
			err := m.RunAll()
			return b.settled(), err
		}
	} else {
		b := d.NN.build()
		d.g = b.g
		d.exec = func() (map[string]*Flat, error) {
			return b.execute(func(int) {})
		}
	}
	d.nodes = d.g.AllNodes()
}

const wayText = 4

// rendering is one text and what it has to show.
type rendering struct {
	of   int
	way  string
	text string
	err  error
	want []uint64
	more map[string]bool // names of inputs
	has  []string        // parts of the text, if it is no picture

	multi bool // an operand used twice has two edges
}

// render renders the graph; the expectation is added after the simulation.
func (d *dotGraph) render(way int, pick uint64) (r rendering, ns []*G.Node) {
	n := d.nodes[int(pick%uint64(len(d.nodes)))]
	switch way {
	case 0:
		t, err := dot.Marshal(d.g)
		return rendering{way: "Marshal", text: string(t), err: err}, d.nodes
	case 1:
		return rendering{way: "ToDot of the graph", text: d.g.ToDot()}, d.nodes
	case 2:
		return rendering{way: "ToDot of a node", text: n.ToDot()}, d.near(n, 0, len(d.nodes))
	case wayText:
		return rendering{way: "text of the graph", text: d.g.String()}, d.nodes
	}
	up, down := int(pick>>32%3), int(pick>>40%3)
	return rendering{way: fmt.Sprintf("restricted ToDot %d up %d down", up, down), text: n.RestrictedToDot(up, down)}, d.near(n, up, down)
}

// near are the nodes within the given distances.
func (d *dotGraph) near(n *G.Node, up, down int) []*G.Node {
	seen := map[*G.Node]bool{n: true}
	out := []*G.Node{n}
	walk := func(steps int, next func(g *G.ExprGraph, n *G.Node) []*G.Node) {
		front := []*G.Node{n}
		done := map[*G.Node]bool{n: true}
		for ; steps > 0 && len(front) > 0; steps-- {
			var f []*G.Node
			for _, x := range front {
				for _, k := range next(d.g, x) {
					if !done[k] {
						done[k] = true
						f = append(f, k)
					}
					if !seen[k] {
						seen[k] = true
						out = append(out, k)
					}
				}
			}
			front = f
		}
	}
	walk(up, parents)
	walk(down, kids)
	return out
}

func runC20(r *R) {
	g := r.Rng
	var ds []*dotGraph
	for n := g.Pick(1, 1, 2, 3); n > 0; n-- {
		d := &dotGraph{Run: g.P(1, 2)}
		if g.P(1, 3) {
			d.NN = genNN(g)
			d.NN.Runs, d.NN.TrainAfter = 1, false
			if d.NN.Mach == mConc {
				d.NN.Mach = mTape
			}
		} else {
			d.VM = genCase(g, g.Pick(6, 12, 20))
		}
		ds = append(ds, d)
	}
	workers := g.Pick(1, 2, 3, 4)
	type job struct {
		of, way int
		pick    uint64
	}
	jobs := make([][]job, workers)
	for w := range jobs {
		for n := g.Range(1, 4); n > 0; n-- {
			way := g.Pick(0, 0, 0, 1, 1, 1, 2, 2, 2, wayText)
			if workers == 1 && g.P(1, 4) {
				way = 3 // marks a node while it works
			}
			jobs[w] = append(jobs[w], job{g.N(len(ds)), way, g.Next()})
		}
	}
	for i, d := range ds {
		r.note("graph %d: %s", i, d)
	}
	r.note("%v", jobs)
	results := make([][]rendering, workers)
	after := make([]map[string]*Flat, len(ds))
	want := make([]map[string]*Flat, len(ds))
	var err, qerr error
	finished := false
	for i, d := range ds {
		r.Quiet(func() {
			e := *d
			e.build()
			want[i], qerr = e.exec()
		})
		if qerr != nil || want[i] == nil {
			r.Fail("error", "graph %d cannot be executed: %v", i, qerr)
			return
		}
	}
	if g.P(1, 4) {
		// the codes of nodes may coincide
		defer sim.Collide(0, 0, 0)
		cs, cp, ck := g.Next(), uint64(g.PickU(15000, 40000, 65536)), uint64(g.PickU(1, 2, 3))
		r.note("collisions %x %d %d", cs, cp, ck)
		sim.Collide(cs, cp, ck)
	}
	res := r.Sim(func() {
		for _, d := range ds {
			d.build()
			if d.Run {
				if _, err = d.exec(); err != nil {
					return
				}
			}
		}
		work := func(w int) {
			for _, j := range jobs[w] {
				d := ds[j.of]
				x, ns := d.render(j.way, j.pick)
				x.of = j.of
				if j.way == wayText {
					for _, n := range ns {
						x.has = append(x.has, fmt.Sprintf("%s", n))
					}
					results[w] = append(results[w], x)
					continue
				}
				part := partShape(d.g, ns, j.way != 0)
				x.want = part.sign()
				x.multi = j.way != 0
				x.more = map[string]bool{}
				if part.cut {
					// the text of an operation may contain names of its operands
					part.names = make([]string, len(part.names))
					x.want = part.sign()
				}
				for _, n := range d.nodes {
					if n.IsVar() && !part.cut {
						x.more[n.Name()] = true
					}
				}
				results[w] = append(results[w], x)
				dawdle(sim.KWhen, 10)
			}
		}
		var wg sync.WaitGroup
		for w := 1; w < workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				work(w)
			}(w)
		}
		work(0)
		wg.Wait()
		for i, d := range ds {
			if d.Run {
				e := *d
				e.build() // parameters were trained or values bound: compare a second graph
				after[i], err = e.exec()
			} else {
				after[i], err = d.exec()
			}
			if err != nil {
				return
			}
		}
		finished = true
	})
	if err != nil {
		r.Fail("error", "execution: %v", err)
		return
	}
	if !finished {
		r.Fail("hang", "not finished (status %d): %v", res.Status, res.Left)
		return
	}
	times := map[int]int{}
	for _, rs := range results {
		for _, x := range rs {
			what := fmt.Sprintf("graph %d, %s", x.of, x.way)
			if x.err != nil {
				r.Fail("error", "%s: %v", what, x.err)
				return
			}
			if x.has != nil {
				for _, t := range x.has {
					if !strings.Contains(x.text, t) {
						r.Fail("text", "%s: %s is missing", what, t)
						return
					}
				}
				times[x.of]++
				r.ObserveU(uint64(len(x.text)))
				continue
			}
			p, err := parseDot(x.text)
			if err != nil {
				r.Fail("malformed", "%s: the text is not valid: %s", what, strings.SplitN(err.Error(), "\n", 2)[0])
				return
			}
			s, err := p.shape(x.more, x.multi)
			if err != nil {
				r.Fail("picture", "%s: %v", what, err)
				return
			}
			sg := s.sign()
			if len(sg) != len(x.want) {
				r.Fail("picture", "%s: %d nodes are shown, expected %d", what, len(sg)-1, len(x.want)-1)
			} else if n := len(sg) - 1; sg[n] != x.want[n] {
				r.Fail("picture", "%s: %d edges are shown, expected %d", what, sg[n], x.want[n])
			} else if !sameU(sg, x.want) {
				r.Fail("picture", "%s: the %d nodes shown are not connected or named like the graph's", what, n)
			}
			times[x.of]++
			r.ObserveU(uint64(len(sg)))
		}
	}
	for i := range ds {
		r.compareObs("value", fmt.Sprintf("graph %d executed after rendering", i), after[i], want[i])
	}
	if res.Alive > 0 {
		r.Fail("leak", "goroutines left: %v", res.Left)
	}
	for _, n := range times {
		if n > 1 {
			r.NonTrivial()
		}
		r.Count("renderings", n)
	}
}
