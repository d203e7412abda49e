package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/lubgr/deflect/deflect"
)

// The JSON format: what is described is what gets solved.

func init() {
	register(&Check{
		ID: "C20", Quick: 100000, Thorough: 500000, Run: runC20,
		Rule:     "random solvable structure, rendered as JSON in random equivalent ways (order of keys, whitespace, number formats, escapes, inferred nodes/materials/sections, grouped values, short coordinates): the created nodes, elements, boundary conditions and sections, and all results against the same problem from API calls; distinct by document",
		Required: []string{"documents", "inferred_nodes", "inferred_material", "escaped_strings", "optional_parameters"},
	})
}

// render writes a syntax tree in a random way.
func (c *Case) render(b *strings.Builder, v any) {
	r := c.R
	ws := func() {
		if r.p(0.1) {
			b.WriteString(pick(r, " ", "\n", "\t", "\r\n", "   "))
		}
	}
	str := func(s string) {
		if !r.p(0.15) {
			b.WriteString(q(s))
			return
		}
		c.Count("escaped_strings", 1)
		b.WriteByte('"')
		for _, x := range s {
			if x < 0x10000 {
				fmt.Fprintf(b, pick(r, "\\u%04x", "\\u%04X"), x)
			} else {
				e := q(string(x))
				b.WriteString(e[1 : len(e)-1])
			}
		}
		b.WriteByte('"')
	}
	ws()
	switch x := v.(type) {
	case obj:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		b.WriteByte('{')
		for i, k := range keys {
			if i > 0 {
				b.WriteByte(',')
			}
			ws()
			str(k)
			ws()
			b.WriteByte(':')
			c.render(b, x[k])
		}
		b.WriteByte('}')
	case []any:
		b.WriteByte('[')
		for i := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			c.render(b, x[i])
		}
		b.WriteByte(']')
	case json.Number:
		f, _ := x.Float64()
		s := string(x)
		if r.p(0.3) {
			s = strconv.FormatFloat(f, pick(r, byte('e'), byte('E'), byte('g')), -1, 64)
			if math.Abs(f) < 1e15 && math.Abs(f) > 1e-5 && r.p(0.5) {
				s = strconv.FormatFloat(f, 'f', -1, 64)
			}
			if f == math.Trunc(f) && math.Abs(f) < 1e15 && r.p(0.3) {
				s = strconv.FormatFloat(f, 'f', 3, 64)
			}
		}
		b.WriteString(s)
	case string:
		str(x)
	default:
		e, _ := json.Marshal(x)
		b.Write(e)
	}
	ws()
}

func sums(vs []deflect.NodalValue) map[deflect.Index]float64 {
	m := map[deflect.Index]float64{}
	for _, v := range vs {
		m[v.Index] += v.Value
	}
	return m
}

func runC20(c *Case) {
	r := c.R
	s, ref := Gen(r, GenOpts{KappaMax: 1e7, PlainScale: r.p(0.5), MaxNodes: pick(r, 4, 4, 10, 10, 10, 20, 0)})
	style := uint(r.Intn(64))
	if r.p(0.3) {
		// Everything that can be left out
		style |= 2 | 4
		s.Mats, s.CSs = s.Mats[:1], s.CSs[:1]
		for i := range s.Elems {
			s.Elems[i].Mat, s.Elems[i].CS = 0, 0
		}
		var ok bool
		if ref, ok = s.Solve(); !ok || ref.kappa > 1e9 {
			return
		}
	}
	// The two parameters that are interchangeable with a default
	for i := range s.CSs {
		if s.CSs[i].Kind == "constants" && r.p(0.3) {
			s.CSs[i].Ixx = 0
		}
	}
	plain := s.JSON(style)
	dec := json.NewDecoder(bytes.NewReader(plain))
	dec.UseNumber()
	var root obj
	if err := dec.Decode(&root); err != nil {
		panic(err)
	}
	t := &tree{r: r, s: s, root: root}
	for _, k := range sortedKeys(t.sub("crosssection")) {
		o := t.sub("crosssection")[k].(obj)["parameter"].(obj)
		if o["Ixx"] == json.Number("0") && r.p(0.7) {
			delete(o, "Ixx")
			c.Count("optional_parameters", 1)
		}
		if r.p(0.3) {
			o["roll"] = json.Number("0")
			c.Count("optional_parameters", 1)
		}
	}
	for _, k := range sortedKeys(t.sub("elements")) {
		o := t.sub("elements")[k].(obj)
		if o["nodes"] == nil {
			c.Count("inferred_nodes", 1)
		}
		if o["material"] == nil {
			c.Count("inferred_material", 1)
		}
		if r.p(0.1) && o["hinges"] == nil {
			o["hinges"] = obj{}
			c.Count("optional_parameters", 1)
		}
	}
	var sb strings.Builder
	c.render(&sb, root)
	doc := []byte(sb.String())
	before := append([]byte(nil), doc...)
	c.Spec(doc)
	c.Count("documents", 1)
	p, err := deflect.ProblemFromJSON(doc)
	if err != nil {
		c.Failf("refused: %v", err)
		return
	}
	if !bytes.Equal(before, doc) {
		c.Failf("parsing changes the input")
	}
	api, err := s.SolveAPI()
	if err != nil {
		c.Failf("%v", err)
		return
	}

	// Nodes
	if len(p.Nodes) != len(s.Nodes) {
		c.Failf("%d nodes, expected %d", len(p.Nodes), len(s.Nodes))
	}
	byID := map[string]deflect.Node{}
	for _, n := range p.Nodes {
		byID[n.ID] = n
	}
	for _, n := range s.Nodes {
		if got, ok := byID[n.ID]; !ok || got.X != n.X || got.Y != n.Y || got.Z != n.Z {
			c.Failf("node %v is %+v", n, got)
		}
	}
	// Elements
	if len(p.Elements) != len(s.Elems) {
		c.Failf("%d elements, expected %d", len(p.Elements), len(s.Elems))
	}
	elems := map[string]deflect.Element{}
	for _, e := range p.Elements {
		if _, ok := elems[e.ID()]; ok {
			c.Failf("element %q exists twice", e.ID())
		}
		elems[e.ID()] = e
	}
	for i := range s.Elems {
		e := &s.Elems[i]
		got := elems[e.ID]
		if got == nil {
			c.Failf("no element %q", e.ID)
			return
		}
		if got.NumNodes() != 2 {
			c.Failf("element %q has %d nodes", e.ID, got.NumNodes())
		}
		set := map[deflect.Index]struct{}{}
		got.Indices(set)
		want := map[deflect.Index]struct{}{}
		for _, d := range e.dofs() {
			want[s.index(nd{e.N0, d})] = struct{}{}
			want[s.index(nd{e.N1, d})] = struct{}{}
		}
		if len(set) != len(want) {
			c.Failf("%v element %q uses %v, expected %v", e.Kind, e.ID, set, want)
		}
		for x := range want {
			if _, ok := set[x]; !ok {
				c.Failf("%v element %q doesn't use %v", e.Kind, e.ID, x)
			}
		}
	}
	// Boundary conditions
	same := func(what string, got, want map[deflect.Index]float64, exact bool) {
		for i, v := range want {
			g, ok := got[i]
			tol := 0.0
			if !exact {
				tol = 1e-12 * math.Abs(v)
				for _, f := range s.Neu {
					if s.index(nd{f.Node, f.Dof}) == i {
						tol += 1e-14 * math.Abs(f.Val)
					}
				}
			}
			if (!ok && v != 0) || !(math.Abs(g-v) <= tol) {
				c.Failf("%v at %v is %v, expected %v", what, i, g, v)
			}
		}
		for i, v := range got {
			if _, ok := want[i]; !ok && (exact || v != 0) {
				c.Failf("%v at %v is %v, expected none", what, i, v)
			}
		}
	}
	same("Dirichlet value", sums(p.Dirichlet), sums(api.p.Dirichlet), true)
	if len(p.Dirichlet) != len(api.p.Dirichlet) {
		c.Failf("%d Dirichlet values, expected %d", len(p.Dirichlet), len(api.p.Dirichlet))
	}
	same("nodal load", sums(p.Neumann), sums(api.p.Neumann), false)

	res, lay, err := solveProblem(&p)
	if err != nil {
		c.Failf("not solved: %v", err)
		return
	}
	sol := &Sol{s: s, p: &p, lay: lay, res: res}
	c.sameAs("from JSON compared with API", sol, ref, api, ref, 0.5)
	compareRef(c, sol, ref)
}

func sortedKeys(m obj) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}
