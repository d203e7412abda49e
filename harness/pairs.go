package main

import (
	"fmt"
	"math"

	"github.com/lubgr/deflect/deflect"
)

// Checks that relate the results of two or more solved problems.

func init() {
	register(&Check{
		ID: "C08", Quick: 48000, Thorough: 240000, Run: runC08,
		Rule:     "random solvable structure under two independent sets of loads and prescribed displacements, their linear combination, and scaled sets (factors between 1e-60 and 1e60); all nodal values, reactions and fields; distinct by input",
		Required: []string{"superpositions", "scalings"},
	})
	register(&Check{
		ID: "C09", Quick: 75000, Thorough: 375000, Run: runC09,
		Rule:     "random solvable structure, solved again after rotating, moving and/or mirroring it with its loads and supports; all nodal values, reactions and fields; distinct by input",
		Required: []string{"rotated", "mirrored", "inclined_supports"},
	})
	register(&Check{
		ID: "C10", Quick: 75000, Thorough: 375000, Run: runC10,
		Rule:     "random solvable structure, solved again after splitting frame elements at arbitrary positions (also at those of loads), and/or reversing elements; all nodal values, reactions and fields; distinct by input",
		Required: []string{"splits", "reversed"},
	})
	register(&Check{
		ID: "C11", Quick: 36000, Thorough: 180000, Run: runC11,
		Rule:     "random solvable structure, solved again with nodes, elements, boundary conditions, loads and hinges in a different order, with different IDs, and repeatedly from the same JSON; all nodal values, reactions and fields; distinct by input",
		Required: []string{"renamed", "json_repetitions"},
	})
	register(&Check{
		ID: "C12", Quick: 62500, Thorough: 312500, Run: runC12,
		Rule:     "random solvable structure under two independent sets of loads and prescribed displacements: external work equals internal work (from the polynomials) and is symmetric in the two sets; distinct by input",
		Required: []string{"betti", "energy"},
	})
	register(&Check{
		ID: "C25", Quick: 60000, Thorough: 300000, Run: runC25,
		Rule:     "random solvable structure, solved again with lengths, forces and stiffness expressed in other units; all nodal values, reactions and fields; distinct by input",
		Required: []string{"units"},
	})
}

// correspondence tells how results of one problem carry over to another one.
type correspondence struct {
	u, r  func(x nd) float64 // expected displacement/reaction, nil to skip
	tu    func(x nd) float64 // additional tolerances
	tr    func(x nd) float64
	field func(i int, f deflect.Fct, x float64) (v float64, tol float64)
}

// compareTo checks sol against the expectations.
func (c *Case) compareTo(what string, sol *Sol, ref *Ref, factor float64, m correspondence) {
	s := sol.s
	for i, x := range ref.dofs {
		if m.u != nil {
			c.Near(sol.U(x), m.u(x), factor*(ref.tolU(i)+m.tu(x)), "%s: displacement of node %q, %v", what, s.Nodes[x.node].ID, x.dof)
		}
		if m.r != nil {
			c.Near(sol.R(x), m.r(x), factor*(ref.tolR(i, true)+m.tr(x)), "%s: reaction at node %q, %v", what, s.Nodes[x.node].ID, x.dof)
		}
	}
	if m.field == nil {
		return
	}
	for i := range s.Elems {
		e := &s.Elems[i]
		tol := ref.tolField(i, true)
		xs := c.samples(&ref.elems[i])
		for _, f := range s.quantities(e) {
			ps := sol.poly(i, f)
			for _, x := range xs {
				got, ok := ps.at(x)
				if !ok {
					c.Failf("%s: %v of element %q isn't defined at %v", what, f, e.ID, x)
					continue
				}
				want, t := m.field(i, f, x)
				if math.IsNaN(want) {
					continue
				}
				c.Near(got, want, factor*(tol.get(f)+t), "%s: %v of element %q at %v", what, f, e.ID, x)
			}
		}
	}
}

func must(v float64, ok bool) float64 {
	if !ok {
		return math.NaN()
	}
	return v
}

// ---- C08 ----

func runC08(c *Case) {
	r := c.R
	a, refA := Gen(r, GenOpts{KappaMax: 1e7})
	if c.I%2 == 0 {
		// Scaling by a single factor
		f := r.sign()
		switch r.Intn(3) {
		case 0:
			f *= math.Pow(10, float64(r.Intn(121)-60))
		case 1:
			f *= math.Pow(2, float64(r.Intn(101)-50))
		default:
			f *= r.logIn(1e-6, 1e6)
		}
		b := a.clone()
		b.scaleLoads(f)
		refB, ok := b.Solve()
		if !ok {
			return
		}
		c.Spec(a)
		c.Spec(b)
		c.countFeatures(a)
		sa, sb := c.solve(a), c.solve(b)
		if sa == nil || sb == nil {
			return
		}
		c.Count("scalings", 1)
		c.compareTo(fmt.Sprintf("all loads times %v", f), sb, refB, 1, correspondence{
			u:  func(x nd) float64 { return f * sa.U(x) },
			r:  func(x nd) float64 { return f * sa.R(x) },
			tu: func(x nd) float64 { return math.Abs(f) * refA.tolU(refA.idx[x]) },
			tr: func(x nd) float64 { return math.Abs(f) * refA.tolR(refA.idx[x], true) },
			field: func(i int, fct deflect.Fct, x float64) (float64, float64) {
				v := must(sa.poly(i, fct).at(x))
				return f * v, math.Abs(f) * refA.tolField(i, true).get(fct)
			},
		})
		return
	}
	b := a.clone()
	for i := range b.Elems {
		b.Elems[i].Loads = nil
	}
	b.Neu = nil
	for i := range b.Dir {
		b.Dir[i].Val = 0
		if r.p(0.3) {
			b.Dir[i].Val = r.in(-0.01, 0.01)
		}
	}
	if len(b.Dir) > 0 && r.p(0.25) {
		// Loads on the one hand, prescribed displacements on the other
		k := r.Intn(len(b.Dir))
		for i := range b.Dir {
			if i == k || r.p(0.3) {
				b.Dir[i].Val = r.in(-0.01, 0.01)
			}
			if r.p(0.9) {
				a.Dir[i].Val = 0
			}
		}
		var ok bool
		if refA, ok = a.Solve(); !ok {
			return
		}
		c.Count("separated_loads_and_settlements", 1)
	} else {
		genLoads(r, b, GenOpts{})
	}
	if b.unusualLengths {
		return
	}
	fa, fb := pick(r, 1, 1, -1, 0.5, r.in(-3, 3)), pick(r, 1, 1, -1, 2, r.in(-3, 3))
	sum := a.clone()
	sum.scaleLoads(fa)
	bb := b.clone()
	bb.scaleLoads(fb)
	for i := range sum.Elems {
		sum.Elems[i].Loads = append(sum.Elems[i].Loads, bb.Elems[i].Loads...)
		l := sum.Elems[i].Loads
		r.Shuffle(len(l), func(p, q int) { l[p], l[q] = l[q], l[p] })
	}
	sum.Neu = append(sum.Neu, bb.Neu...)
	for i := range sum.Dir {
		sum.Dir[i].Val += bb.Dir[i].Val
	}
	refB, ok1 := b.Solve()
	refS, ok2 := sum.Solve()
	if !ok1 || !ok2 {
		return
	}
	c.Spec(b)
	c.Spec(sum)
	c.countFeatures(sum)
	sa, sb, ss := c.solve(a), c.solve(b), c.solve(sum)
	if sa == nil || sb == nil || ss == nil {
		return
	}
	c.Count("superpositions", 1)
	c.compareTo("superposition", ss, refS, 1, correspondence{
		u:  func(x nd) float64 { return fa*sa.U(x) + fb*sb.U(x) },
		r:  func(x nd) float64 { return fa*sa.R(x) + fb*sb.R(x) },
		tu: func(x nd) float64 { return math.Abs(fa)*refA.tolU(refA.idx[x]) + math.Abs(fb)*refB.tolU(refA.idx[x]) },
		tr: func(x nd) float64 {
			return math.Abs(fa)*refA.tolR(refA.idx[x], true) + math.Abs(fb)*refB.tolR(refA.idx[x], true)
		},
		field: func(i int, fct deflect.Fct, x float64) (float64, float64) {
			va, vb := must(sa.poly(i, fct).at(x)), must(sb.poly(i, fct).at(x))
			return fa*va + fb*vb, math.Abs(fa)*refA.tolField(i, true).get(fct) + math.Abs(fb)*refB.tolField(i, true).get(fct)
		},
	})
}

// ---- C09 ----

// rotate turns the structure about the y axis: (x, z) → (c·x − s·z, s·x + c·z).
func (s *Spec) rotate(r *rng, theta float64, dx, dy, dz float64) *Spec {
	t := s.clone()
	cs, sn := math.Cos(theta), math.Sin(theta)
	for i, n := range s.Nodes {
		t.Nodes[i].X = cs*n.X - sn*n.Z + dx
		t.Nodes[i].Z = sn*n.X + cs*n.Z + dz
		t.Nodes[i].Y = n.Y + dy
	}
	t.fixPositions(s)
	t.Neu = nil
	for _, b := range s.Neu {
		switch b.Dof {
		case deflect.Ux:
			t.Neu = append(t.Neu, BCS{b.Node, deflect.Ux, cs * b.Val}, BCS{b.Node, deflect.Uz, sn * b.Val})
		case deflect.Uz:
			t.Neu = append(t.Neu, BCS{b.Node, deflect.Ux, -sn * b.Val}, BCS{b.Node, deflect.Uz, cs * b.Val})
		default:
			t.Neu = append(t.Neu, b)
		}
	}
	t.Dir, t.Links = nil, nil
	normal := func(node int, nx, nz float64) {
		nx, nz = cs*nx-sn*nz, sn*nx+cs*nz
		if r.p(0.5) {
			t.Links = append(t.Links, LinkS{node, deflect.Ux, deflect.Uz, math.Atan2(-nx, nz)})
		} else {
			t.Links = append(t.Links, LinkS{node, deflect.Uz, deflect.Ux, math.Atan2(-nz, nx)})
		}
	}
	type pair struct {
		has [2]bool
		val [2]float64
	}
	trans := map[int]*pair{}
	var order []int
	for _, b := range s.Dir {
		if b.Dof != deflect.Ux && b.Dof != deflect.Uz {
			t.Dir = append(t.Dir, b)
			continue
		}
		p := trans[b.Node]
		if p == nil {
			p = &pair{}
			trans[b.Node] = p
			order = append(order, b.Node)
		}
		k := 0
		if b.Dof == deflect.Uz {
			k = 1
		}
		p.has[k], p.val[k] = true, b.Val
	}
	for _, n := range order {
		p := trans[n]
		if p.has[0] && p.has[1] {
			t.Dir = append(t.Dir, BCS{n, deflect.Ux, cs*p.val[0] - sn*p.val[1]}, BCS{n, deflect.Uz, sn*p.val[0] + cs*p.val[1]})
			continue
		}
		if p.has[0] {
			normal(n, 1, 0)
		} else {
			normal(n, 0, 1)
		}
	}
	for _, l := range s.linkNormals() {
		normal(l.node, l.normal[deflect.Ux], l.normal[deflect.Uz])
	}
	return t
}

// fixPositions keeps loads at the end of elements there when coordinates change by rounding.
func (s *Spec) fixPositions(orig *Spec) {
	for i := range s.Elems {
		e := &s.Elems[i]
		l, l0 := s.length(e), orig.length(&orig.Elems[i])
		for j := range e.Loads {
			p0 := orig.Elems[i].Loads[j].Pos
			e.Loads[j].Pos = p0 * (l / l0)
			if p0 == l0 || e.Loads[j].Pos > l {
				e.Loads[j].Pos = l
			}
		}
	}
}

// mirror flips the x axis.
func (s *Spec) mirror() *Spec {
	t := s.clone()
	for i := range t.Nodes {
		t.Nodes[i].X *= -1
	}
	for i := range t.Elems {
		for j := range t.Elems[i].Loads {
			l := &t.Elems[i].Loads[j]
			if l.Dof != deflect.Ux {
				l.V0 *= -1
				l.V1 *= -1
			}
		}
	}
	for _, bcs := range [][]BCS{t.Dir, t.Neu} {
		for i := range bcs {
			if bcs[i].Dof == deflect.Ux || bcs[i].Dof == deflect.Phiy {
				bcs[i].Val *= -1
			}
		}
	}
	for i := range t.Links {
		if t.Links[i].From == deflect.Ux || t.Links[i].To == deflect.Ux {
			t.Links[i].Angle *= -1
		}
	}
	return t
}

func runC09(c *Case) {
	r := c.R
	o := GenOpts{KappaMax: 1e6}
	if r.p(0.2) {
		o.Kind = "mixed3d"
		o.NoLinks = true
	} else {
		o.Kind = pick(r, "frame", "frame", "mixed", "beam", "truss")
	}
	mirrored := r.p(0.4)
	rotated := !mirrored || r.p(0.5)
	if mirrored && !rotated && r.p(0.3) {
		o.Kind, o.NoLinks = "truss3d", r.p(0.5)
	}
	var s *Spec
	for {
		s, _ = Gen(r, o)
		// Inclined supports have no prescribed displacement, and rotation creates these from single supports
		if rotated {
			count := map[int]int{}
			for _, d := range s.Dir {
				if d.Dof == deflect.Ux || d.Dof == deflect.Uz {
					count[d.Node]++
				}
			}
			for i, d := range s.Dir {
				if count[d.Node] == 1 && (d.Dof == deflect.Ux || d.Dof == deflect.Uz) {
					s.Dir[i].Val = 0
				}
			}
		}
		break
	}
	ref, ok := s.Solve()
	if !ok {
		return
	}
	t := s
	theta, cs, sn := 0.0, 1.0, 0.0
	if rotated {
		theta = r.angleValue()
		cs, sn = math.Cos(theta), math.Sin(theta)
		size := 1.0
		for _, n := range s.Nodes {
			size = math.Max(size, math.Abs(n.X)+math.Abs(n.Z))
		}
		dx, dy, dz := 0.0, 0.0, 0.0
		if r.p(0.6) {
			dx, dy, dz = r.in(-3, 3)*size, r.in(-3, 3)*size, r.in(-3, 3)*size
		}
		t = t.rotate(r, theta, dx, dy, dz)
		c.Count("rotated", 1)
	}
	sx := 1.0
	if mirrored {
		t = t.mirror()
		sx = -1
		c.Count("mirrored", 1)
	}
	tref, ok := t.Solve()
	if !ok {
		return
	}
	c.Spec(s)
	c.Spec(t)
	c.sample = map[string]any{"case": c.I, "original": s, "moved": t}
	c.countFeatures(t)
	a, b := c.solve(s), c.solve(t)
	if a == nil || b == nil {
		return
	}
	image := func(get func(nd) float64, x nd) float64 {
		has := func(d deflect.Dof) float64 {
			if _, ok := ref.idx[nd{x.node, d}]; ok {
				return get(nd{x.node, d})
			}
			return 0
		}
		switch x.dof {
		case deflect.Ux:
			return sx * (cs*has(deflect.Ux) - sn*has(deflect.Uz))
		case deflect.Uz:
			return sn*has(deflect.Ux) + cs*has(deflect.Uz)
		case deflect.Phiy:
			return sx * get(x)
		}
		return get(x)
	}
	tolOf := func(get func(int) float64, x nd) float64 {
		sum := 0.0
		for _, d := range []deflect.Dof{deflect.Ux, deflect.Uz} {
			if i, ok := ref.idx[nd{x.node, d}]; ok {
				sum += get(i)
			}
		}
		if x.dof != deflect.Ux && x.dof != deflect.Uz {
			sum = get(ref.idx[x])
		}
		return sum
	}
	for i, x := range tref.dofs {
		du := math.Abs(tref.u[i] - image(func(y nd) float64 { return ref.u[ref.idx[y]] }, x))
		dr := math.Abs(tref.reac[x] - image(func(y nd) float64 { return ref.reac[y] }, x))
		tolR := func(j int) float64 { return ref.tolR(j, true) }
		if du > tref.tolU(i)+tolOf(ref.tolU, x) || dr > tref.tolR(i, true)+tolOf(tolR, x) {
			c.Count("sensitive_to_coordinates", 1) // whose rounding is another structure already
			return
		}
	}
	c.compareTo(fmt.Sprintf("rotated by %v, mirrored %v", theta, mirrored), b, tref, 10, correspondence{
		u:  func(x nd) float64 { return image(a.U, x) },
		r:  func(x nd) float64 { return image(a.R, x) },
		tu: func(x nd) float64 { return tolOf(ref.tolU, x) },
		tr: func(x nd) float64 { return tolOf(func(i int) float64 { return ref.tolR(i, true) }, x) },
		field: func(i int, f deflect.Fct, x float64) (float64, float64) {
			v := must(a.poly(i, f).at(x * ref.elems[i].l / tref.elems[i].l))
			if f != deflect.FctNx && f != deflect.FctUx {
				v *= sx
			}
			return v, ref.tolField(i, true).get(f)
		},
	})
}

// ---- C10 ----

type part struct {
	elem     int // in the original structure
	offset   float64
	reversed bool
}

func (e *ElemS) reverse(l float64) {
	e.N0, e.N1 = e.N1, e.N0
	for i := range e.Hinges {
		e.Hinges[i].End = 1 - e.Hinges[i].End
	}
	for i := range e.Loads {
		ld := &e.Loads[i]
		if ld.Shape == "dirac" {
			ld.Pos = math.Max(l-ld.Pos, 0)
			if ld.Dof != deflect.Phiy {
				ld.V0 *= -1
			}
			continue
		}
		if ld.Shape == "constant" {
			ld.V0 *= -1
			continue
		}
		ld.V0, ld.V1 = -ld.V1, -ld.V0
	}
}

func runC10(c *Case) {
	r := c.R
	s, ref := Gen(r, GenOpts{KappaMax: 1e5})
	t := s.clone()
	parts := make([]part, len(s.Elems))
	for i := range parts {
		parts[i].elem = i
	}
	split := false
	newNodes := map[int][2]float64{} // node → original element, position
	for k, m := 0, 1+r.Intn(3); k < m; k++ {
		i := r.Intn(len(t.Elems))
		e := t.Elems[i]
		l := t.length(&e)
		if !t.isFrame(&e) || l < 0.05*s.length(&s.Elems[parts[i].elem]) {
			continue
		}
		a := pick(r, 0.5, r.in(0.15, 0.85), r.in(0.15, 0.85)) * l
		for _, ld := range e.Loads {
			if ld.Shape == "dirac" && ld.Pos > 0.15*l && ld.Pos < 0.85*l && r.p(0.4) {
				a = ld.Pos // split where a load acts
			}
		}
		cx, cy, cz := t.dirs(&e)
		p := t.Nodes[e.N0]
		node := len(t.Nodes)
		id := fmt.Sprintf("%s split %d", e.ID, node)
		if r.p(0.5) {
			id = fmt.Sprintf(" %d", node) // sorts differently
		}
		t.Nodes = append(t.Nodes, NodeS{ID: id, X: p.X + cx*a, Y: p.Y + cy*a, Z: p.Z + cz*a})
		e0, e1 := e, e
		e0.N1, e1.N0 = node, node
		e1.ID = fmt.Sprintf("%s part %d", e.ID, node)
		e0.Hinges, e1.Hinges, e0.Loads, e1.Loads = nil, nil, nil, nil
		for _, h := range e.Hinges {
			if h.End == 0 {
				e0.Hinges = append(e0.Hinges, h)
			} else {
				e1.Hinges = append(e1.Hinges, h)
			}
		}
		l0, l1 := t.length(&e0), t.length(&e1)
		for _, ld := range e.Loads {
			switch ld.Shape {
			case "dirac":
				if ld.Pos < a || (ld.Pos == a && r.p(0.5)) {
					ld.Pos = math.Min(ld.Pos, l0)
					e0.Loads = append(e0.Loads, ld)
				} else {
					if ld.Pos == l {
						ld.Pos = l1
					} else {
						ld.Pos = math.Min(math.Max(ld.Pos-a, 0), l1)
					}
					e1.Loads = append(e1.Loads, ld)
				}
			case "constant":
				e0.Loads = append(e0.Loads, ld)
				e1.Loads = append(e1.Loads, ld)
			default:
				mid := ld.V0 + (ld.V1-ld.V0)*a/l
				x, y := ld, ld
				x.V1, y.V0 = mid, mid
				e0.Loads = append(e0.Loads, x)
				e1.Loads = append(e1.Loads, y)
			}
		}
		t.Elems[i] = e0
		t.Elems = append(t.Elems, e1)
		parts = append(parts, part{elem: parts[i].elem, offset: parts[i].offset + a})
		newNodes[node] = [2]float64{float64(parts[i].elem), parts[i].offset + a}
		split = true
		c.Count("splits", 1)
	}
	for i := range t.Elems {
		if r.p(0.3) || !split && i == 0 {
			t.Elems[i].reverse(t.length(&t.Elems[i]))
			parts[i].reversed = true
			c.Count("reversed", 1)
		}
	}
	tref, ok := t.Solve()
	if !ok || tref.kappa > 1e8 {
		return
	}
	c.Spec(s)
	c.Spec(t)
	c.sample = map[string]any{"case": c.I, "original": s, "modified": t}
	c.countFeatures(t)
	a, b := c.solve(s), c.solve(t)
	if a == nil || b == nil {
		return
	}
	old := func(x nd) bool { _, isNew := newNodes[x.node]; return !isNew }
	for i, x := range ref.dofs {
		if j := tref.idx[x]; math.Abs(ref.u[i]-tref.u[j]) > ref.tolU(i)+tref.tolU(j) {
			c.Count("sensitive_to_coordinates", 1) // new nodes aren't exactly on the axis of the member
			return
		}
	}
	c.compareTo("split/reversed", b, tref, 10, correspondence{
		u: func(x nd) float64 {
			if old(x) {
				return a.U(x)
			}
			w := newNodes[x.node]
			i := int(w[0])
			e := &s.Elems[i]
			cx, _, cz := s.dirs(e)
			at := func(f deflect.Fct) float64 { return must(a.poly(i, f).at(w[1])) }
			switch x.dof {
			case deflect.Ux:
				return cx*at(deflect.FctUx) + cz*at(deflect.FctUz)
			case deflect.Uz:
				return cz*at(deflect.FctUx) - cx*at(deflect.FctUz)
			}
			return -at(deflect.FctPhiy)
		},
		r: func(x nd) float64 {
			if old(x) {
				return a.R(x)
			}
			return 0
		},
		tu: func(x nd) float64 {
			if old(x) {
				return ref.tolU(ref.idx[x])
			}
			f := ref.tolField(int(newNodes[x.node][0]), true)
			if x.dof == deflect.Phiy {
				return f.phiy
			}
			return f.ux + f.uz
		},
		tr: func(x nd) float64 {
			if old(x) {
				return ref.tolR(ref.idx[x], true)
			}
			return 0
		},
		field: func(i int, f deflect.Fct, x float64) (float64, float64) {
			p := parts[i]
			if p.reversed {
				x = tref.elems[i].l - x
			}
			x += p.offset
			for _, ld := range s.Elems[p.elem].Loads {
				if ld.Shape == "dirac" && math.Abs(ld.Pos-x) < 1e-8*ref.elems[p.elem].l {
					return math.NaN(), 0 // too close to a jump
				}
			}
			v := must(a.poly(p.elem, f).at(x))
			if p.reversed && (f == deflect.FctMy || f == deflect.FctUx || f == deflect.FctUz) {
				v = -v
			}
			return v, ref.tolField(p.elem, true).get(f)
		},
	})
}

// ---- C11 ----

func runC11(c *Case) {
	r := c.R
	s, ref := Gen(r, GenOpts{})
	t := s.clone()
	// Order
	nodePerm, elemPerm := r.Perm(len(s.Nodes)), r.Perm(len(s.Elems))
	for i, p := range nodePerm {
		t.Nodes[p] = s.Nodes[i]
	}
	for i, p := range elemPerm {
		e := s.clone().Elems[i]
		e.N0, e.N1 = nodePerm[e.N0], nodePerm[e.N1]
		r.Shuffle(len(e.Loads), func(a, b int) { e.Loads[a], e.Loads[b] = e.Loads[b], e.Loads[a] })
		r.Shuffle(len(e.Hinges), func(a, b int) { e.Hinges[a], e.Hinges[b] = e.Hinges[b], e.Hinges[a] })
		t.Elems[p] = e
	}
	for i := range t.Dir {
		t.Dir[i].Node = nodePerm[t.Dir[i].Node]
	}
	for i := range t.Neu {
		t.Neu[i].Node = nodePerm[t.Neu[i].Node]
	}
	for i := range t.Links {
		t.Links[i].Node = nodePerm[t.Links[i].Node]
	}
	r.Shuffle(len(t.Dir), func(a, b int) { t.Dir[a], t.Dir[b] = t.Dir[b], t.Dir[a] })
	r.Shuffle(len(t.Neu), func(a, b int) { t.Neu[a], t.Neu[b] = t.Neu[b], t.Neu[a] })
	// Materials, cross sections
	mats, css := r.Perm(len(s.Mats)), r.Perm(len(s.CSs))
	for i, p := range mats {
		t.Mats[p] = s.Mats[i]
	}
	for i, p := range css {
		t.CSs[p] = s.CSs[i]
	}
	for i := range t.Elems {
		t.Elems[i].Mat, t.Elems[i].CS = mats[t.Elems[i].Mat], css[t.Elems[i].CS]
	}
	if r.p(0.5) {
		for i := range t.Mats {
			t.Mats[i].ID = fmt.Sprintf("%s m%d", t.Mats[i].ID, r.Intn(10))
		}
		for i := range t.CSs {
			t.CSs[i].ID = fmt.Sprintf("c%d %s", r.Intn(10), t.CSs[i].ID)
		}
	}
	// Inclined supports at different nodes commute, those at the same node don't
	for k := 0; k+1 < len(t.Links); k++ {
		if t.Links[k].Node != t.Links[k+1].Node && r.p(0.5) {
			t.Links[k], t.Links[k+1] = t.Links[k+1], t.Links[k]
		}
	}
	if r.p(0.6) {
		t.nameEverything(r, false)
		c.Count("renamed", 1)
	}
	tref, ok := t.Solve()
	if !ok {
		return
	}
	c.Spec(s)
	c.Spec(t)
	c.sample = map[string]any{"case": c.I, "original": s, "permuted": t}
	c.countFeatures(s)
	a := c.solve(s)
	var b []*Sol
	if x := c.solve(t); x != nil {
		b = append(b, x)
	}
	style := uint(r.Intn(64))
	for k := 0; k < 2; k++ {
		x, err := t.SolveJSON(style)
		if err != nil {
			c.Failf("repetition %d of the same JSON isn't solved: %v", k, err)
			return
		}
		c.Count("json_repetitions", 1)
		b = append(b, x)
	}
	if a == nil || c.Failed() {
		return
	}
	back := make([]int, len(nodePerm))
	for i, p := range nodePerm {
		back[p] = i
	}
	eback := make([]int, len(elemPerm))
	for i, p := range elemPerm {
		eback[p] = i
	}
	orig := func(x nd) nd { return nd{back[x.node], x.dof} }
	for _, x := range b {
		c.compareTo("different order/names", x, tref, 1, correspondence{
			u:  func(x nd) float64 { return a.U(orig(x)) },
			r:  func(x nd) float64 { return a.R(orig(x)) },
			tu: func(x nd) float64 { return ref.tolU(ref.idx[orig(x)]) },
			tr: func(x nd) float64 { return ref.tolR(ref.idx[orig(x)], true) },
			field: func(i int, f deflect.Fct, x float64) (float64, float64) {
				return must(a.poly(eback[i], f).at(x)), ref.tolField(eback[i], true).get(f)
			},
		})
	}
}

// ---- C12 ----

// work of the loads and reactions of a on the displacements of b.
func work(a, b *Sol, ref *Ref) (w, mag float64) {
	s := a.s
	add := func(x float64) { w += x; mag += math.Abs(x) }
	for _, x := range ref.dofs {
		add(a.R(x) * b.U(x))
	}
	for _, f := range s.Neu {
		add(f.Val * b.U(nd{f.Node, f.Dof}))
	}
	fct := map[deflect.Dof]deflect.Fct{deflect.Ux: deflect.FctUx, deflect.Uz: deflect.FctUz, deflect.Phiy: deflect.FctPhiy}
	for i := range s.Elems {
		e := &s.Elems[i]
		l := s.length(e)
		for k := range e.Loads {
			ld := &e.Loads[k]
			ps := b.poly(i, fct[ld.Dof])
			if ld.Shape == "dirac" {
				v := must(ps.at(math.Min(math.Max(ld.Pos, ps[0].X0), ps[len(ps)-1].XE)))
				add(ld.V0 * v)
				continue
			}
			for _, p := range ps {
				h := (p.XE - p.X0) / 2
				for g := range gaussX {
					x := p.X0 + h*(1+gaussX[g])
					add(ld.intensity(x, l) * evalPiece(p, x) * gaussW[g] * h)
				}
			}
		}
	}
	return w, mag
}

// strain is the internal work ∫ N·N'/EA + M·M'/EI.
func strain(a, b *Sol, ref *Ref) (w, mag float64) {
	s := a.s
	one := func(p, q seq, stiff, l float64) {
		xs := []float64{0, l}
		for _, k := range p {
			xs = append(xs, k.X0, k.XE)
		}
		for _, k := range q {
			xs = append(xs, k.X0, k.XE)
		}
		sortFloats(xs)
		for k := 0; k+1 < len(xs); k++ {
			h := (xs[k+1] - xs[k]) / 2
			if h < 1e-9*l {
				continue
			}
			for g := range gaussX {
				x := xs[k] + h*(1+gaussX[g])
				v := must(p.at(x)) * must(q.at(x)) * gaussW[g] * h / stiff
				w += v
				mag += math.Abs(v)
			}
		}
	}
	for i := range s.Elems {
		e := &s.Elems[i]
		l := s.length(e)
		one(a.poly(i, deflect.FctNx), b.poly(i, deflect.FctNx), s.ea(e), l)
		if s.isFrame(e) {
			one(a.poly(i, deflect.FctMy), b.poly(i, deflect.FctMy), s.ei(e), l)
		}
	}
	return w, mag
}

func runC12(c *Case) {
	r := c.R
	a, refA := Gen(r, GenOpts{KappaMax: 1e7})
	b := a.clone()
	for i := range b.Elems {
		b.Elems[i].Loads = nil
	}
	b.Neu = nil
	for i := range b.Dir {
		b.Dir[i].Val = 0
		if r.p(0.3) {
			b.Dir[i].Val = r.in(-0.01, 0.01)
		}
	}
	genLoads(r, b, GenOpts{})
	refB, ok := b.Solve()
	if !ok {
		return
	}
	c.Spec(a)
	c.Spec(b)
	c.sample = map[string]any{"case": c.I, "first": a, "second": b.Neu}
	c.countFeatures(a)
	sa, sb := c.solve(a), c.solve(b)
	if sa == nil || sb == nil {
		return
	}
	// Relative errors of forces and displacements in the energy norm
	tol := func(x, y *Ref) float64 {
		ex := x.energy + x.fnorm
		ey := y.energy + y.fnorm
		return 10 * epsM * (100*math.Max(x.kappa, y.kappa) + 1e4) * ex * ey
	}
	wab, mab := work(sa, sb, refA)
	wba, mba := work(sb, sa, refB)
	u, mu := strain(sa, sb, refA)
	t := tol(refA, refB)
	if t > 1e-4*(mab+mba) {
		c.Count("insensitive", 1)
	}
	c.Count("betti", 1)
	c.Near(wab, wba, t+1e-10*(mab+mba), "work of loads 1 on displacements 2, and vice versa")
	c.Near(wab, u, t+1e-10*(mab+mu), "work of loads 1 on displacements 2, and internal work")
	for k, x := range []*Sol{sa, sb} {
		rf := []*Ref{refA, refB}[k]
		w, m := work(x, x, rf)
		v, mv := strain(x, x, rf)
		t := tol(rf, rf)
		c.Count("energy", 1)
		c.Near(w, v, t+1e-10*(m+mv), "external and internal work")
		if w < -(t + 1e-10*m) {
			c.Failf("negative work %v of the loads on their own displacements", w)
		}
	}
}

// ---- C25 ----

// separated tells if all concentrated loads are at the same position, or at least d times the length of
// the member apart, which is also required of the distance to the ends.
func (s *Spec) separated(d float64) bool {
	for i := range s.Elems {
		e := &s.Elems[i]
		l := s.length(e)
		xs := []float64{0, l}
		for _, ld := range e.Loads {
			if ld.Shape == "dirac" {
				xs = append(xs, ld.Pos)
			}
		}
		for i := range xs {
			for j := range xs[:i] {
				if x := math.Abs(xs[i] - xs[j]); x != 0 && x < d*l {
					return false
				}
			}
		}
		if l < 0.1 {
			return false
		}
	}
	return true
}

func runC25(c *Case) {
	r := c.R
	s, ref := Gen(r, GenOpts{KappaMax: 1e6, PlainScale: true})
	if r.p(0.3) {
		// Tiny displacements or loads are as good as any
		s.scaleLoads(math.Pow(10, float64(-r.Intn(12))))
		ref, _ = s.Solve()
	}
	t := s.clone()
	// Lengths are multiplied by fl, forces by ff
	kl, kf := r.Intn(15)-7, r.Intn(41)-20
	if r.p(0.3) {
		kl = 0
	}
	fl, ff := math.Pow(2, float64(kl)), math.Pow(2, float64(kf))
	small := s.separated(1e-3)
	if r.p(0.3) {
		fl, ff = pick(r, 1e-3, 1e-2, 1e-1, 10, 100, 1000), pick(r, 1e-3, 1e3, 1, 1e-6)
	}
	if small && r.p(0.1) {
		// Positions of loads are well apart, in spite of short lengths
		fl = pick(r, 1e-4, 1e-5)
		c.Count("very_large_unit_of_length", 1)
	}
	c.Count("units", 1)
	t.scaleLengths(fl)
	for i := range t.Mats {
		t.Mats[i].E *= ff / (fl * fl)
	}
	forceOf := func(d deflect.Dof) float64 {
		if d == deflect.Phiy {
			return ff * fl
		}
		return ff
	}
	lenOf := func(d deflect.Dof) float64 {
		if d == deflect.Phiy {
			return 1
		}
		return fl
	}
	for i := range t.Neu {
		t.Neu[i].Val *= forceOf(t.Neu[i].Dof)
	}
	for i := range t.Dir {
		t.Dir[i].Val *= lenOf(t.Dir[i].Dof)
	}
	for i := range t.Elems {
		for j := range t.Elems[i].Loads {
			ld := &t.Elems[i].Loads[j]
			f := forceOf(ld.Dof)
			if ld.Shape != "dirac" {
				f /= fl
			}
			ld.V0 *= f
			ld.V1 *= f
		}
	}
	tref, ok := t.Solve()
	if !ok {
		return
	}
	c.Spec(s)
	c.Spec(t)
	c.sample = map[string]any{"case": c.I, "length_factor": fl, "force_factor": ff, "original": s}
	c.countFeatures(s)
	a, b := c.solve(s), c.solve(t)
	if a == nil || b == nil {
		return
	}
	factor := func(f deflect.Fct) float64 {
		switch f {
		case deflect.FctNx, deflect.FctVz:
			return ff
		case deflect.FctMy:
			return ff * fl
		case deflect.FctPhiy:
			return 1
		}
		return fl
	}
	for i, x := range tref.dofs {
		j := ref.idx[x]
		du := math.Abs(tref.u[i] - lenOf(x.dof)*ref.u[j])
		dr := math.Abs(tref.reac[x] - forceOf(x.dof)*ref.reac[x])
		if du > tref.tolU(i)/2 || dr > tref.tolR(i, true)/2 {
			c.Count("sensitive_to_coordinates", 1) // whose rounding is another structure already
			return
		}
	}
	c.compareTo(fmt.Sprintf("lengths times %v, forces times %v", fl, ff), b, tref, 2, correspondence{
		u:  func(x nd) float64 { return lenOf(x.dof) * a.U(x) },
		r:  func(x nd) float64 { return forceOf(x.dof) * a.R(x) },
		tu: func(x nd) float64 { return lenOf(x.dof) * ref.tolU(ref.idx[x]) },
		tr: func(x nd) float64 { return forceOf(x.dof) * ref.tolR(ref.idx[x], true) },
		field: func(i int, f deflect.Fct, x float64) (float64, float64) {
			return factor(f) * must(a.poly(i, f).at(x/fl)), factor(f) * ref.tolField(i, true).get(f)
		},
	})
}
