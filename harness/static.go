package main

import (
	"math"

	"github.com/lubgr/deflect/deflect"
)

// Checks that observe one solved structure: balance, nodal equilibrium, supports, fields along elements.

func init() {
	register(&Check{
		ID: "C01", Quick: 150000, Thorough: 750000, Run: runC01,
		Rule:     "random solvable structure; the three (3D: six) global balance equations of all reported reactions and all applied loads, about the origin, the centroid and a random point; distinct by input",
		Required: []string{"comparisons", "inclined_supports", "prescribed_nonzero", "element_loads_linear"},
	})
	register(&Check{
		ID: "C02", Quick: 150000, Thorough: 750000, Run: runC02,
		Rule:     "random solvable structure; equilibrium of every node in every connected dof, between member end forces (from the interpolated polynomials), nodal loads and reported reactions; distinct by input",
		Required: []string{"comparisons", "elements_with_hinges", "inclined_supports"},
	})
	register(&Check{
		ID: "C03", Quick: 150000, Thorough: 750000, Run: runC03,
		Rule:     "random solvable structure with supports, inclined supports and prescribed displacements, plus rigid body displacements of all supports; distinct by input",
		Required: []string{"prescribed_checked", "inclined_checked", "free_dofs_checked", "rigid_body_motions"},
	})
	register(&Check{
		ID: "C04", Quick: 125000, Thorough: 625000, Run: runC04,
		Rule:     "random solvable structure; internal force polynomials of every element against the loads on it: coverage of the length, differential equilibrium, jumps; distinct by input",
		Required: []string{"jumps_checked", "derivatives_checked"},
	})
	register(&Check{
		ID: "C05", Quick: 125000, Thorough: 625000, Run: runC05,
		Rule:     "random solvable structure; deformation polynomials of every element against material law, continuity, and the nodal displacements at its ends; distinct by input",
		Required: []string{"derivatives_checked", "end_values_checked"},
	})
}

// genStructure is the structure most checks use.
func (c *Case) genStructure(o GenOpts) (*Spec, *Ref) {
	s, ref := Gen(c.R, o)
	c.Spec(s)
	c.countFeatures(s)
	return s, ref
}

func runC01(c *Case) {
	s, ref := c.genStructure(GenOpts{Close: c.I%4 == 1})
	sol := c.solve(s)
	if sol == nil {
		return
	}
	c.checkBalance(sol, ref)
}

func (c *Case) checkBalance(sol *Sol, ref *Ref) {
	s := sol.s
	points := [][3]float64{{0, 0, 0}, {0, 0, 0}, {c.R.in(-20, 20), c.R.in(-20, 20), c.R.in(-20, 20)}}
	for _, n := range s.Nodes {
		points[1][0] += n.X / float64(len(s.Nodes))
		points[1][1] += n.Y / float64(len(s.Nodes))
		points[1][2] += n.Z / float64(len(s.Nodes))
	}
	for pi, pt := range points {
		var f, m, tf, tm [3]float64 // sums and tolerances
		force := func(x, y, z float64, v [3]float64, tol [3]float64) {
			r := [3]float64{x - pt[0], y - pt[1], z - pt[2]}
			for k := 0; k < 3; k++ {
				a, b := (k+1)%3, (k+2)%3
				f[k] += v[k]
				tf[k] += tol[k] + 1e-13*math.Abs(v[k])
				m[k] += r[a]*v[b] - r[b]*v[a]
				tm[k] += math.Abs(r[a])*(tol[b]+1e-13*math.Abs(v[b])) + math.Abs(r[b])*(tol[a]+1e-13*math.Abs(v[a]))
			}
		}
		add := func(x nd, v, tol float64) {
			n := s.Nodes[x.node]
			var fv, ft [3]float64
			switch x.dof {
			case deflect.Ux:
				fv[0], ft[0] = v, tol
			case deflect.Uy:
				fv[1], ft[1] = v, tol
			case deflect.Uz:
				fv[2], ft[2] = v, tol
			case deflect.Phiy:
				m[1] += v
				tm[1] += tol + 1e-13*math.Abs(v)
				return
			}
			force(n.X, n.Y, n.Z, fv, ft)
		}
		for i, x := range ref.dofs {
			add(x, sol.R(x), ref.tolR(i, false))
		}
		for _, b := range s.Neu {
			add(nd{b.Node, b.Dof}, b.Val, 0)
		}
		for i := range s.Elems {
			e := &s.Elems[i]
			cx, cy, cz := s.dirs(e)
			n := s.Nodes[e.N0]
			l := s.length(e)
			for _, ld := range e.Loads {
				// Resultants and their position
				type res struct{ v, a float64 }
				var rs []res
				switch ld.Shape {
				case "dirac":
					rs = []res{{ld.V0, ld.Pos}}
				case "constant":
					rs = []res{{ld.V0 * l, l / 2}}
				default: // two triangles
					rs = []res{{ld.V0 * l / 2, l / 3}, {ld.V1 * l / 2, 2 * l / 3}}
				}
				for _, r := range rs {
					x, y, z := n.X+cx*r.a, n.Y+cy*r.a, n.Z+cz*r.a
					switch ld.Dof {
					case deflect.Ux:
						force(x, y, z, [3]float64{cx * r.v, cy * r.v, cz * r.v}, [3]float64{})
					case deflect.Uz:
						force(x, y, z, [3]float64{cz * r.v, 0, -cx * r.v}, [3]float64{})
					case deflect.Phiy:
						m[1] -= r.v
						tm[1] += 1e-13 * math.Abs(r.v)
					}
				}
			}
		}
		name := [3]string{"x", "y", "z"}
		for k := 0; k < 3; k++ {
			c.Near(f[k], 0, tf[k]+1e-290, "sum of forces in %v", name[k])
			c.Near(m[k], 0, tm[k]+1e-290, "sum of moments about %v, point %d", name[k], pi)
		}
	}
}

// nodeForces sums up what elements exert on a node, in global directions. The polynomials show internal
// forces just inside of the element, hence loads that act exactly at the end of an element are added.
func (sol *Sol) nodeForces(ref *Ref) (f map[nd]float64, tol map[nd]float64) {
	f, tol = map[nd]float64{}, map[nd]float64{}
	s := sol.s
	for i := range s.Elems {
		e := &s.Elems[i]
		cx, cy, cz := s.dirs(e)
		l := s.length(e)
		t := ref.tolField(i, false)
		n0, n1, _ := sol.poly(i, deflect.FctNx).ends()
		var v0, v1, m0, m1 float64
		if s.isFrame(e) {
			v0, v1, _ = sol.poly(i, deflect.FctVz).ends()
			m0, m1, _ = sol.poly(i, deflect.FctMy).ends()
		}
		end := [2][3]float64{{n0, v0, m0}, {-n1, -v1, -m1}}
		for _, ld := range e.Loads {
			if ld.Shape != "dirac" {
				continue
			}
			k := -1
			if ld.Pos <= 1e-10*l {
				k = 0
			} else if ld.Pos >= l*(1-1e-10) {
				k = 1
			}
			if k < 0 {
				continue
			}
			switch ld.Dof {
			case deflect.Ux:
				end[k][0] += ld.V0
			case deflect.Uz:
				end[k][1] += ld.V0
			case deflect.Phiy:
				end[k][2] += ld.V0
			}
		}
		for k, n := range []int{e.N0, e.N1} {
			put := func(d deflect.Dof, v, tl float64) {
				f[nd{n, d}] += v
				tol[nd{n, d}] += tl
			}
			put(deflect.Ux, end[k][0]*cx+end[k][1]*cz, t.nx*math.Abs(cx)+t.vz*math.Abs(cz))
			put(deflect.Uz, end[k][0]*cz-end[k][1]*cx, t.nx*math.Abs(cz)+t.vz*math.Abs(cx))
			if e.Kind == "truss3d" {
				put(deflect.Uy, end[k][0]*cy, t.nx)
			}
			if s.isFrame(e) {
				put(deflect.Phiy, -end[k][2], t.my)
			}
		}
	}
	return f, tol
}

func runC02(c *Case) {
	s, ref := c.genStructure(GenOpts{Close: c.I%4 == 1})
	sol := c.solve(s)
	if sol == nil {
		return
	}
	c.checkNodes(sol, ref)
}

func (c *Case) checkNodes(sol *Sol, ref *Ref) {
	s := sol.s
	f, tol := sol.nodeForces(ref)
	for _, b := range s.Neu {
		f[nd{b.Node, b.Dof}] += b.Val
		tol[nd{b.Node, b.Dof}] += 1e-13 * math.Abs(b.Val)
	}
	for i, x := range ref.dofs {
		c.Near(f[x]+sol.R(x), 0, tol[x]+ref.tolR(i, false), "equilibrium of node %q, %v", s.Nodes[x.node].ID, x.dof)
	}
}

func runC03(c *Case) {
	if c.I%4 == 3 {
		rigidMotion(c)
		return
	}
	s, ref := c.genStructure(GenOpts{Prescribed: c.I%2 == 0})
	sol := c.solve(s)
	if sol == nil {
		return
	}
	c.checkSupports(sol, ref)
	compareNodes(c, sol, ref)
}

func (c *Case) checkSupports(sol *Sol, ref *Ref) {
	s := sol.s
	idx := func(x nd) int { return ref.idx[x] }
	supported := map[nd]bool{}
	for _, b := range s.Dir {
		x := nd{b.Node, b.Dof}
		supported[x] = true
		c.Count("prescribed_checked", 1)
		c.Near(sol.U(x), b.Val, 1e-12*math.Abs(b.Val), "prescribed displacement of node %q, %v", s.Nodes[b.Node].ID, b.Dof)
	}
	normals := map[int][]map[deflect.Dof]float64{}
	for _, n := range s.linkNormals() {
		c.Count("inclined_checked", 1)
		sum, tol := 0.0, 0.0
		for d, v := range n.normal {
			x := nd{n.node, d}
			sum += v * sol.U(x)
			tol += math.Abs(v)*1e-12*math.Abs(sol.U(x)) + 1e-12*math.Abs(v)*math.Abs(ref.u[idx(x)])
		}
		for d := range n.normal {
			// An upper bound for the magnitude of displacements at this node
			tol += 1e-13 * math.Abs(ref.u[idx(nd{n.node, d})])
		}
		c.Near(sum, 0, tol+1e-290, "displacement of node %q normal to its inclined support %v", s.Nodes[n.node].ID, n.normal)
		normals[n.node] = append(normals[n.node], n.normal)
	}
	trans := []deflect.Dof{deflect.Ux, deflect.Uz, deflect.Uy}
	for i, x := range ref.dofs {
		if supported[x] {
			continue
		}
		if len(normals[x.node]) > 0 && x.dof != deflect.Phiy {
			continue
		}
		c.Count("free_dofs_checked", 1)
		c.Near(sol.R(x), 0, ref.tolR(i, false), "reaction at free dof, node %q, %v", s.Nodes[x.node].ID, x.dof)
	}
	for node, ns := range normals {
		// The reaction (less the part that may stem from ordinary supports at the same node) must be a
		// combination of the (orthonormal) support directions.
		var r, t [3]float64
		other := false
		for k, d := range trans {
			x := nd{node, d}
			if i, ok := ref.idx[x]; ok {
				r[k] = sol.R(x)
				t[k] = ref.tolR(i, false)
				other = other || supported[x]
			}
		}
		if other {
			continue // a mix of both at the same node
		}
		rest := r
		for _, n := range ns {
			dot := 0.0
			for k, d := range trans {
				dot += r[k] * n[d]
			}
			for k, d := range trans {
				rest[k] -= dot * n[d]
			}
		}
		for k, d := range trans {
			c.Near(rest[k], 0, t[0]+t[1]+t[2]+1e-290, "reaction of inclined support at node %q not normal to it, %v", s.Nodes[node].ID, d)
		}
	}
}

// rigidMotion moves all supports such that the structure isn't deformed.
func rigidMotion(c *Case) {
	s, _ := Gen(c.R, GenOpts{NoLinks: true, NoLoads: true, NoPrescribed: true})
	r := c.R
	a, b, w := r.in(-0.02, 0.02), r.in(-0.02, 0.02), r.in(-0.01, 0.01)
	ay := r.in(-0.02, 0.02)
	planar := true
	for i := range s.Elems {
		planar = planar && s.Elems[i].Kind != "truss3d"
	}
	if planar {
		ay = 0
	}
	switch r.Intn(4) {
	case 0:
		w = 0
	case 1:
		a, b, ay = 0, 0, 0
	}
	scale := pick(r, 1.0, 1, 1e-8, 1e5)
	a, b, w, ay = a*scale, b*scale, w*scale, ay*scale
	disp := func(x nd) float64 {
		n := s.Nodes[x.node]
		switch x.dof {
		case deflect.Ux:
			return a + w*n.Z
		case deflect.Uz:
			return b - w*n.X
		case deflect.Uy:
			return ay
		}
		return w
	}
	for i := range s.Dir {
		s.Dir[i].Val = disp(nd{s.Dir[i].Node, s.Dir[i].Dof})
	}
	ref, ok := s.Solve()
	if !ok {
		return
	}
	c.Spec(s)
	c.countFeatures(s)
	sol := c.solve(s)
	if sol == nil {
		return
	}
	c.Count("rigid_body_motions", 1)
	for i, x := range ref.dofs {
		c.Near(sol.U(x), disp(x), ref.tolU(i), "rigid body motion, displacement of node %q, %v", s.Nodes[x.node].ID, x.dof)
		c.Near(sol.R(x), 0, ref.tolR(i, true), "rigid body motion, reaction at node %q, %v", s.Nodes[x.node].ID, x.dof)
	}
	for i := range s.Elems {
		tol := ref.tolField(i, true)
		for _, f := range s.quantities(&s.Elems[i]) {
			if f != deflect.FctNx && f != deflect.FctVz && f != deflect.FctMy {
				continue
			}
			p0, p1, ok := sol.poly(i, f).ends()
			if !ok {
				c.Failf("no interpolation for %v", f)
				continue
			}
			c.Near(p0, 0, tol.get(f), "rigid body motion, %v at start of %q", f, s.Elems[i].ID)
			c.Near(p1, 0, tol.get(f), "rigid body motion, %v at end of %q", f, s.Elems[i].ID)
		}
	}
}

// checkPieces makes sure that the pieces cover the element without gaps, and returns false if they don't.
func (c *Case) checkPieces(s *Spec, i int, f deflect.Fct, ps seq) bool {
	e := &s.Elems[i]
	l := s.length(e)
	c.Count("pieces", len(ps))
	if len(ps) == 0 {
		c.Failf("%v of element %q: no polynomials", f, e.ID)
		return false
	}
	ok := true
	tol := 2e-10 + 1e-12*l
	if math.Abs(ps[0].X0) > tol || math.Abs(ps[len(ps)-1].XE-l) > tol {
		c.Failf("%v of element %q covers [%v, %v] instead of [0, %v]", f, e.ID, ps[0].X0, ps[len(ps)-1].XE, l)
		ok = false
	}
	for k, p := range ps {
		if !(p.XE > p.X0) || len(p.Coeff) == 0 {
			c.Failf("%v of element %q: piece %d is empty: %+v", f, e.ID, k, p)
			ok = false
		}
		if k > 0 && math.Abs(p.X0-ps[k-1].XE) > tol {
			c.Failf("%v of element %q: gap or overlap between %v and %v", f, e.ID, ps[k-1].XE, p.X0)
			ok = false
		}
		for _, v := range p.Coeff {
			if math.IsNaN(v) || math.IsInf(v, 0) {
				c.Failf("%v of element %q: coefficient %v", f, e.ID, v)
				ok = false
			}
		}
	}
	return ok
}

// pieceAt returns the piece that contains x in its interior.
func (s seq) pieceAt(x float64) (deflect.PolyPiece, bool) {
	for _, p := range s {
		if x > p.X0 && x < p.XE {
			return p, true
		}
	}
	return deflect.PolyPiece{}, false
}

// samples are positions strictly between the breakpoints of an element.
func (c *Case) samples(re *refElem) []float64 {
	bp := re.breakpoints()
	var out []float64
	for k := 0; k+1 < len(bp); k++ {
		if bp[k+1]-bp[k] < 1e-6*re.l {
			continue
		}
		for _, t := range []float64{0.02, c.R.in(0.1, 0.9), 0.98} {
			out = append(out, bp[k]+t*(bp[k+1]-bp[k]))
		}
	}
	return out
}

func runC04(c *Case) {
	s, ref := c.genStructure(GenOpts{Close: c.I%4 == 1})
	sol := c.solve(s)
	if sol == nil {
		return
	}
	for i := range s.Elems {
		c.checkInternalForces(sol, ref, i)
		compareFields(c, sol, i, &ref.elems[i], ref.tolField(i, true), deflect.FctNx, deflect.FctVz, deflect.FctMy)
	}
}

func (c *Case) checkInternalForces(sol *Sol, ref *Ref, i int) {
	s := sol.s
	e := &s.Elems[i]
	re := &ref.elems[i]
	tol := ref.tolField(i, false)
	l := re.l
	nx := sol.poly(i, deflect.FctNx)
	ok := c.checkPieces(s, i, deflect.FctNx, nx)
	var vz, my seq
	if s.isFrame(e) {
		vz, my = sol.poly(i, deflect.FctVz), sol.poly(i, deflect.FctMy)
		ok = c.checkPieces(s, i, deflect.FctVz, vz) && ok
		ok = c.checkPieces(s, i, deflect.FctMy, my) && ok
	}
	if !ok {
		return
	}
	qtol := 1e-10*re.loadSum/l + 1e-290
	intensity := func(d deflect.Dof, x float64) float64 {
		q := 0.0
		for k := range e.Loads {
			if e.Loads[k].Dof == d {
				q += e.Loads[k].intensity(x, l)
			}
		}
		return q
	}
	for _, x := range c.samples(re) {
		p, _ := nx.pieceAt(x)
		c.Count("derivatives_checked", 1)
		c.Near(derivePiece(p, x), -intensity(deflect.Ux, x), qtol, "dN/dx of element %q at %v", e.ID, x)
		if s.isFrame(e) {
			pv, _ := vz.pieceAt(x)
			pm, _ := my.pieceAt(x)
			c.Near(derivePiece(pv, x), -intensity(deflect.Uz, x), qtol, "dV/dx of element %q at %v", e.ID, x)
			c.Near(derivePiece(pm, x), evalPiece(pv, x), tol.vz+tol.my/l, "dM/dx of element %q at %v", e.ID, x)
		}
	}
	jump := func(name string, ps seq, d deflect.Dof, tl float64) {
		left := 0
		used := map[int]bool{}
		for left+1 < len(ps) {
			x := ps[left].XE
			want := 0.0
			for k, ld := range e.Loads {
				if ld.Shape == "dirac" && math.Abs(ld.Pos-x) <= 1e-9*l && ld.Pos > 1e-10*l && ld.Pos < l*(1-1e-10) {
					used[k] = true
					if ld.Dof == d {
						want -= ld.V0
					}
				}
			}
			got := evalPiece(ps[left+1], x) - evalPiece(ps[left], x)
			round := 1e-13 * (magPiece(ps[left+1], x) + magPiece(ps[left], x))
			c.Count("jumps_checked", 1)
			c.Near(got, want, tl+round, "jump of %v of element %q at %v", name, e.ID, x)
			left++
		}
		for k, ld := range e.Loads {
			if ld.Shape == "dirac" && ld.Dof == d && !used[k] && ld.Pos > 1e-9*l && ld.Pos < l*(1-1e-9) {
				sum := 0.0 // multiple loads at the same position may cancel out
				for _, o := range e.Loads {
					if o.Shape == "dirac" && o.Dof == d && math.Abs(o.Pos-ld.Pos) <= 1e-9*l {
						sum += o.V0
					}
				}
				c.Near(sum, 0, tl, "%v of element %q doesn't jump at %v", name, e.ID, ld.Pos)
			}
		}
	}
	jump("N", nx, deflect.Ux, 1e-10*re.loadSum)
	if s.isFrame(e) {
		jump("V", vz, deflect.Uz, 1e-10*re.loadSum)
		jump("M", my, deflect.Phiy, 1e-10*re.momSum)
	}
}

func runC05(c *Case) {
	s, ref := c.genStructure(GenOpts{Close: c.I%4 == 1})
	sol := c.solve(s)
	if sol == nil {
		return
	}
	for i := range s.Elems {
		c.checkDeformations(sol, ref, i)
		compareFields(c, sol, i, &ref.elems[i], ref.tolField(i, true), deflect.FctUx, deflect.FctPhiy, deflect.FctUz)
	}
}

func (c *Case) checkDeformations(sol *Sol, ref *Ref, i int) {
	s := sol.s
	e := &s.Elems[i]
	re := &ref.elems[i]
	tol := ref.tolField(i, false)
	ok := true
	ps := map[deflect.Fct]seq{}
	for _, f := range s.quantities(e) {
		ps[f] = sol.poly(i, f)
		ok = c.checkPieces(s, i, f, ps[f]) && ok
	}
	if !ok {
		return
	}
	val := func(f deflect.Fct, x float64) float64 {
		p, _ := ps[f].pieceAt(x)
		return evalPiece(p, x)
	}
	der := func(f deflect.Fct, x float64) float64 {
		p, _ := ps[f].pieceAt(x)
		return derivePiece(p, x)
	}
	for _, x := range c.samples(re) {
		c.Count("derivatives_checked", 1)
		c.Near(re.ea*der(deflect.FctUx, x), val(deflect.FctNx, x), 0.02*tol.nx+1e-12*math.Abs(val(deflect.FctNx, x)), "EA·dux/dx of element %q at %v", e.ID, x)
		if s.isFrame(e) {
			c.Near(re.ei*der(deflect.FctPhiy, x), val(deflect.FctMy, x), 0.02*tol.my+1e-12*math.Abs(val(deflect.FctMy, x)), "EI·dphi/dx of element %q at %v", e.ID, x)
			c.Near(der(deflect.FctUz, x), -val(deflect.FctPhiy, x), 0.02*tol.phiy+1e-12*math.Abs(val(deflect.FctPhiy, x)), "duz/dx of element %q at %v", e.ID, x)
		}
	}
	continuous := func(f deflect.Fct, tl float64) {
		p := ps[f]
		for k := 1; k < len(p); k++ {
			x := p[k].X0
			a, b := evalPiece(p[k-1], x), evalPiece(p[k], x)
			c.Near(a, b, tl+1e-12*(magPiece(p[k-1], x)+magPiece(p[k], x)), "%v of element %q isn't continuous at %v", f, e.ID, x)
		}
	}
	continuous(deflect.FctUx, tol.ux)
	if s.isFrame(e) {
		continuous(deflect.FctPhiy, tol.phiy)
		continuous(deflect.FctUz, tol.uz)
	}
	cx, cy, cz := s.dirs(e)
	for end, n := range []int{e.N0, e.N1} {
		at := func(f deflect.Fct) float64 {
			a, b, _ := ps[f].ends()
			if end == 1 {
				return b
			}
			return a
		}
		ux, uz := sol.U(nd{n, deflect.Ux}), sol.U(nd{n, deflect.Uz})
		if !e.hinged(end, deflect.Ux) {
			c.Count("end_values_checked", 1)
			want := cx*ux + cz*uz
			round := math.Abs(cx*ux) + math.Abs(cz*uz)
			if e.Kind == "truss3d" {
				want += cy * sol.U(nd{n, deflect.Uy})
				round += math.Abs(cy * sol.U(nd{n, deflect.Uy}))
			}
			c.Near(at(deflect.FctUx), want, tol.ux+1e-13*round, "ux at end %d of element %q", end, e.ID)
		}
		if !s.isFrame(e) {
			continue
		}
		if !e.hinged(end, deflect.Phiy) {
			c.Near(at(deflect.FctPhiy), -sol.U(nd{n, deflect.Phiy}), tol.phiy, "rotation at end %d of element %q", end, e.ID)
		}
		if !e.hinged(end, deflect.Uz) {
			round := math.Abs(cz*ux) + math.Abs(cx*uz)
			c.Near(at(deflect.FctUz), cz*ux-cx*uz, tol.uz+1e-13*round, "uz at end %d of element %q", end, e.ID)
		}
	}
}
