package main

import (
	"fmt"
	"math"

	"github.com/lubgr/deflect/deflect"
)

// Bookkeeping of loads: which ones act on an element, and equivalent ways to express them.

func init() {
	register(&Check{
		ID: "C13", Quick: 90000, Thorough: 450000, Run: runC13,
		Rule:     "random solvable structure: (1) the loads are replaced by equivalent ones (nodal/element end, constant/linear, triangles, split and repeated loads, zero loads, different order), (2) histories of adding/removing/refused loads with solves in between against a list as model; all nodal values, reactions and fields; distinct by input",
		Required: []string{"equivalences", "histories", "loads_added", "loads_removed", "loads_refused", "solved_in_between"},
	})
}

// sameAs expects the results of a, for a structure with the same nodes and elements.
func (c *Case) sameAs(what string, b *Sol, refB *Ref, a *Sol, refA *Ref, factor float64) {
	c.compareTo(what, b, refB, factor, correspondence{
		u:  a.U,
		r:  a.R,
		tu: func(x nd) float64 { return refA.tolU(refA.idx[x]) },
		tr: func(x nd) float64 { return refA.tolR(refA.idx[x], true) },
		field: func(i int, f deflect.Fct, x float64) (float64, float64) {
			return must(a.poly(i, f).at(x)), refA.tolField(i, true).get(f)
		},
	})
}

func runC13(c *Case) {
	if c.I%3 == 0 {
		runEquivalentLoads(c)
	} else {
		runLoadHistory(c)
	}
}

// toNodal moves the concentrated load l at one end of the element e to the node.
func (s *Spec) toNodal(e *ElemS, l LoadS, end int) []BCS {
	node := e.N0
	if end == 1 {
		node = e.N1
	}
	cx, cy, cz := s.dirs(e)
	switch l.Dof {
	case deflect.Ux:
		out := []BCS{{node, deflect.Ux, cx * l.V0}, {node, deflect.Uz, cz * l.V0}}
		if e.Kind == "truss3d" {
			out = append(out, BCS{node, deflect.Uy, cy * l.V0})
		}
		return out
	case deflect.Uz:
		return []BCS{{node, deflect.Ux, cz * l.V0}, {node, deflect.Uz, -cx * l.V0}}
	}
	return []BCS{{node, deflect.Phiy, -l.V0}}
}

func runEquivalentLoads(c *Case) {
	r := c.R
	s, _ := Gen(r, GenOpts{KappaMax: 1e7})
	// Make sure that there are candidates of each kind
	for i := range s.Elems {
		e := &s.Elems[i]
		if !r.p(0.5) {
			continue
		}
		s.addLoads(r, e, 3, false)
		if r.p(0.5) {
			l := LoadS{Dof: deflect.Ux, Shape: "dirac", V0: r.magnitude(), Pos: pick(r, 0, s.length(e))}
			if s.isFrame(e) {
				l.Dof = pick(r, localDofs[:]...)
			}
			e.Loads = append(e.Loads, l)
		}
	}
	t := s.clone()
	for i := range t.Elems {
		e := &t.Elems[i]
		l := t.length(e)
		// Axis-parallel elements don't have a transverse part of the local direction in floating point
		var loads []LoadS
		for _, ld := range e.Loads {
			if !r.p(0.8) {
				loads = append(loads, ld)
				continue
			}
			switch ld.Shape {
			case "dirac":
				end := -1
				if ld.Pos == 0 {
					end = 0
				} else if ld.Pos == l {
					end = 1
				}
				switch {
				case end >= 0 && !e.hinged(end, ld.Dof) && r.p(0.8):
					t.Neu = append(t.Neu, t.toNodal(e, ld, end)...)
					c.Count("element_to_nodal", 1)
				default:
					part := r.in(-2, 3)
					a, b := ld, ld
					a.V0, b.V0 = ld.V0*part, ld.V0*(1-part)
					loads = append(loads, a, b)
					c.Count("split_concentrated", 1)
				}
			case "constant":
				switch r.Intn(3) {
				case 0:
					loads = append(loads, LoadS{Dof: ld.Dof, Shape: "linear", V0: ld.V0, V1: ld.V0})
					c.Count("constant_to_linear", 1)
				case 1:
					loads = append(loads, LoadS{Dof: ld.Dof, Shape: "linear", V0: ld.V0}, LoadS{Dof: ld.Dof, Shape: "linear", V1: ld.V0})
					c.Count("constant_to_triangles", 1)
				case 2:
					part := r.in(-2, 3)
					loads = append(loads, LoadS{Dof: ld.Dof, Shape: "constant", V0: ld.V0 * part}, LoadS{Dof: ld.Dof, Shape: "constant", V0: ld.V0 * (1 - part)})
					c.Count("split_constant", 1)
				}
			case "linear":
				if r.p(0.5) {
					loads = append(loads, LoadS{Dof: ld.Dof, Shape: "linear", V0: ld.V0}, LoadS{Dof: ld.Dof, Shape: "linear", V1: ld.V1})
					c.Count("linear_to_triangles", 1)
				} else {
					loads = append(loads, LoadS{Dof: ld.Dof, Shape: "constant", V0: ld.V0}, LoadS{Dof: ld.Dof, Shape: "linear", V1: ld.V1 - ld.V0})
					c.Count("linear_to_constant_and_triangle", 1)
				}
			}
		}
		if r.p(0.2) {
			z := LoadS{Dof: deflect.Ux, Shape: pick(r, "dirac", "constant", "linear"), Pos: r.in(0.1, 0.9) * l}
			if s.isFrame(e) {
				z.Dof = pick(r, deflect.Ux, deflect.Uz)
			}
			if z.Shape != "dirac" {
				z.Pos = 0
			}
			loads = append(loads, z)
			c.Count("zero_loads", 1)
		}
		r.Shuffle(len(loads), func(p, q int) { loads[p], loads[q] = loads[q], loads[p] })
		e.Loads = loads
	}
	// Nodal loads on the same dof add up
	var neu []BCS
	for _, b := range t.Neu {
		if r.p(0.3) {
			part := r.in(-2, 3)
			neu = append(neu, BCS{b.Node, b.Dof, b.Val * part}, BCS{b.Node, b.Dof, b.Val * (1 - part)})
			c.Count("split_nodal", 1)
			continue
		}
		neu = append(neu, b)
	}
	t.Neu = neu
	r.Shuffle(len(t.Neu), func(p, q int) { t.Neu[p], t.Neu[q] = t.Neu[q], t.Neu[p] })
	ref, ok := s.Solve()
	tref, tok := t.Solve()
	if !ok || !tok {
		return
	}
	c.Spec(s)
	c.Spec(t)
	c.sample = map[string]any{"case": c.I, "original": s, "equivalent": t}
	a, b := c.solve(s), c.solve(t)
	if a == nil || b == nil {
		return
	}
	c.Count("equivalences", 1)
	c.sameAs("equivalent loads", b, tref, a, ref, 2)
}

type foreignLoad struct{ kind, value float64 }

// refusable returns something that the element must not accept.
func (s *Spec) refusable(r *rng, e *ElemS) (bc deflect.NeumannElementBC, what string) {
	l := s.length(e)
	switch r.Intn(7) {
	case 0:
		return nil, "nil"
	case 1:
		return &foreignLoad{1, 2}, "a foreign type"
	case 2:
		return "qx", "a string"
	case 3:
		dof := deflect.Ux
		if s.isFrame(e) {
			dof = pick(r, localDofs[:]...)
		}
		pos := l * pick(r, 1.001, 1+1e-6, 1.5, 100)
		bc, err := deflect.NewElementConcentratedLoad(dof, pos, r.magnitude())
		if err != nil {
			return nil, "nil"
		}
		return bc, fmt.Sprintf("a concentrated load at %v on an element of length %v", pos, l)
	}
	bad := []deflect.Dof{deflect.Uy, deflect.Phiz, deflect.Phix}
	if !s.isFrame(e) {
		bad = append(bad, deflect.Uz, deflect.Phiy, deflect.Uz, deflect.Phiy)
	}
	shape := pick(r, "dirac", "constant", "linear")
	if shape != "dirac" && s.isFrame(e) {
		bad = append(bad, deflect.Phiy, deflect.Phiy)
	}
	ld := LoadS{Dof: pick(r, bad...), Shape: shape, Pos: r.in(0, 1) * l, V0: r.magnitude(), V1: r.magnitude()}
	b, err := ld.build()
	if err != nil {
		return nil, "nil"
	}
	return b, fmt.Sprintf("%v load in direction %v", shape, ld.Dof)
}

func runLoadHistory(c *Case) {
	r := c.R
	s, _ := Gen(r, GenOpts{KappaMax: 1e7, PlainScale: true, MaxNodes: 7})
	for i := range s.Elems {
		s.Elems[i].Loads = nil
	}
	b, err := s.Build()
	if err != nil {
		c.Failf("can't build: %v", err)
		return
	}
	type inst struct {
		bc   deflect.NeumannElementBC
		load LoadS
	}
	type entry struct {
		inst *inst
	}
	current := make([][]entry, len(s.Elems)) // the model
	var pool []*inst
	var log []string
	solver, strategy := deflect.NewLinearProblemSolver(), deflect.NewCholeskySolver()
	check := func() bool {
		m := s.clone()
		for i := range m.Elems {
			m.Elems[i].Loads = nil
			for _, x := range current[i] {
				m.Elems[i].Loads = append(m.Elems[i].Loads, x.inst.load)
			}
		}
		ref, ok := m.Solve()
		if !ok {
			return true
		}
		lay, err := deflect.NewEqLayout(b.P)
		if err != nil {
			c.Failf("layout after %v: %v", log, err)
			return false
		}
		if r.p(0.5) {
			solver = deflect.NewLinearProblemSolver()
		}
		res, err := solver.Solve(b.P, lay, strategy)
		if err != nil {
			c.Failf("not solved after %v: %v", log, err)
			return false
		}
		c.Count("solved_in_between", 1)
		compareRef(c, &Sol{s: m, b: b, p: b.P, lay: lay, res: res}, ref)
		return !c.Failed()
	}
	steps := 4 + r.Intn(20)
	c.spec = map[string]any{"structure": s, "history": &log}
	for k := 0; k < steps; k++ {
		i := r.Intn(len(s.Elems))
		if r.p(0.5) {
			i = r.Intn(1 + len(s.Elems)/3) // more action on a few elements
		}
		e := &s.Elems[i]
		l := s.length(e)
		switch r.Intn(9) {
		case 0, 1, 2: // a new load
			tmp := &ElemS{Kind: e.Kind, N0: e.N0, N1: e.N1}
			s.addLoads(r, tmp, 1, false)
			ld := tmp.Loads[0]
			bc, err := ld.build()
			if err != nil {
				c.Failf("can't create %+v: %v", ld, err)
				return
			}
			x := &inst{bc, ld}
			pool = append(pool, x)
			log = append(log, fmt.Sprintf("add new %+v to element %d", ld, i))
			if !b.Elems[i].AddLoad(bc) {
				c.Failf("element %d refuses %+v", i, ld)
				return
			}
			c.Count("loads_added", 1)
			current[i] = append(current[i], entry{x})
		case 3, 4: // the same instance again, possibly on another element
			if len(pool) == 0 {
				continue
			}
			x := pick(r, pool...)
			acceptable := (s.isFrame(e) || x.load.Dof == deflect.Ux) && (x.load.Shape != "dirac" || x.load.Pos <= l)
			if x.load.Shape == "dirac" && math.Abs(x.load.Pos-l) < 1e-6*l && x.load.Pos != l {
				continue
			}
			log = append(log, fmt.Sprintf("add existing %+v to element %d", x.load, i))
			if got := b.Elems[i].AddLoad(x.bc); got != acceptable {
				c.Failf("adding %+v to element %d of length %v returns %v", x.load, i, l, got)
				return
			}
			if acceptable {
				c.Count("loads_added", 1)
				c.Count("loads_added_again", 1)
				current[i] = append(current[i], entry{x})
			} else {
				c.Count("loads_refused", 1)
			}
		case 5, 6: // remove, all instances at once
			if len(pool) == 0 {
				continue
			}
			x := pick(r, pool...)
			if r.p(0.6) && len(current[i]) > 0 {
				x = pick(r, current[i]...).inst
			}
			log = append(log, fmt.Sprintf("remove %+v from element %d", x.load, i))
			b.Elems[i].RemoveLoad(x.bc)
			var rest []entry
			for _, y := range current[i] {
				if y.inst != x {
					rest = append(rest, y)
				}
			}
			if len(rest) != len(current[i]) {
				c.Count("loads_removed", len(current[i])-len(rest))
			} else {
				c.Count("removals_without_effect", 1)
			}
			current[i] = rest
		case 7: // refused
			bc, what := s.refusable(r, e)
			log = append(log, fmt.Sprintf("add %v to element %d", what, i))
			if b.Elems[i].AddLoad(bc) {
				c.Failf("%v element accepts %v", e.Kind, what)
				return
			}
			c.Count("loads_refused", 1)
			if r.p(0.3) && bc != nil {
				b.Elems[i].RemoveLoad(bc)
			}
		case 8:
			log = append(log, "solve")
			if !check() {
				return
			}
		}
	}
	c.Spec(map[string]any{"structure": s, "history": log})
	c.Count("histories", 1)
	if !check() {
		return
	}
	// Without the loads, the structure is as it was before
	if r.p(0.3) {
		for i := range current {
			for _, x := range current[i] {
				b.Elems[i].RemoveLoad(x.inst.bc)
			}
			current[i] = nil
		}
		log = append(log, "remove everything")
		c.Count("all_removed", 1)
		check()
	}
}
