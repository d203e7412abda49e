package main

import (
	"fmt"
	"math"

	"github.com/lubgr/deflect/deflect"
)

// Three-dimensional trusses: no direction in space is special, and plane trusses are a special case.

func init() {
	register(&Check{
		ID: "C24", Quick: 60000, Thorough: 300000, Run: runC24,
		Rule:     "random 3D trusses (axial hinges, inclined supports, prescribed displacements, all axial loads): solved again with axes permuted and reversed, rotated by arbitrary angles about arbitrary axes, and plane trusses as 3D trusses in the three coordinate planes, plane frames with 3D elements; all nodal values, reactions and fields; distinct by input",
		Required: []string{"axes_permuted", "rotated_arbitrarily", "plane_as_3d", "plane_frame_as_3d", "comparisons"},
	})
}

var xyz = []deflect.Dof{deflect.Ux, deflect.Uy, deflect.Uz}

func axisOf(d deflect.Dof) int {
	for i, x := range xyz {
		if x == d {
			return i
		}
	}
	return -1
}

type matrix3 [3][3]float64

func (m matrix3) times(v [3]float64) (w [3]float64) {
	for i := range m {
		for j := range m {
			w[i] += m[i][j] * v[j]
		}
	}
	return w
}

func runC24(c *Case) {
	switch c.I % 7 {
	case 0, 3:
		c.permuted()
	case 1, 4:
		c.turned()
	case 6:
		c.planeFrameAs3d()
	default:
		c.planeAs3d()
	}
}

func (s *Spec) moveNodes(m matrix3, shift [3]float64) *Spec {
	t := s.clone()
	for i, n := range s.Nodes {
		v := m.times([3]float64{n.X, n.Y, n.Z})
		t.Nodes[i].X, t.Nodes[i].Y, t.Nodes[i].Z = v[0]+shift[0], v[1]+shift[1], v[2]+shift[2]
	}
	t.fixPositions(s)
	return t
}

// permutation returns a random signed permutation matrix: axis i turns into axis to[i] with a sign.
func permutation(r *rng) (to [3]int, sign [3]float64, m matrix3) {
	for i, k := range r.Perm(3) {
		to[i], sign[i] = k, r.sign()
		m[k][i] = sign[i]
	}
	return
}

func (c *Case) permuted() {
	r := c.R
	s, ref := Gen(r, GenOpts{Kind: "truss3d", KappaMax: 1e6})
	to, sign, m := permutation(r)
	t := s.permute(to, sign, m)
	c.compareMoved("axes permuted", s, ref, t, m)
	c.Count("axes_permuted", 1)
}

func (s *Spec) permute(to [3]int, sign [3]float64, m matrix3) *Spec {
	t := s.moveNodes(m, [3]float64{})
	for _, bcs := range [][]BCS{t.Dir, t.Neu} {
		for i := range bcs {
			k := axisOf(bcs[i].Dof)
			bcs[i].Dof = xyz[to[k]]
			bcs[i].Val *= sign[k]
		}
	}
	for i := range t.Links {
		l := &t.Links[i]
		f, g := axisOf(l.From), axisOf(l.To)
		l.From, l.To = xyz[to[f]], xyz[to[g]]
		l.Angle *= sign[f] * sign[g]
	}
	return t
}

// turned is about arbitrary rotations, with nodes that are either free or completely fixed.
func (c *Case) turned() {
	r := c.R
	for attempt := 0; attempt < 200; attempt++ {
		s, _ := Gen(r, GenOpts{Kind: "truss3d", NoLinks: true, KappaMax: 1e6})
		has := map[nd]bool{}
		at := map[int]bool{}
		for _, d := range s.Dir {
			has[nd{d.Node, d.Dof}] = true
			at[d.Node] = true
		}
		for i := range s.Nodes {
			for _, d := range xyz {
				if at[i] && !has[nd{i, d}] {
					s.Dir = append(s.Dir, BCS{i, d, pick(r, 0, 0, r.in(-0.01, 0.01))})
				}
			}
		}
		ref, ok := s.Solve()
		if !ok || len(s.Dir) >= len(s.nodeDofs()) {
			continue
		}
		m := randomRotation(r)
		shift := [3]float64{}
		if r.p(0.5) {
			for i := range shift {
				shift[i] = r.in(-5, 5)
			}
		}
		t := s.moveNodes(m, shift)
		image := func(bcs []BCS) (out []BCS) {
			byNode := map[int]*[3]float64{}
			var order []int
			for _, b := range bcs {
				if byNode[b.Node] == nil {
					byNode[b.Node] = &[3]float64{}
					order = append(order, b.Node)
				}
				byNode[b.Node][axisOf(b.Dof)] += b.Val
			}
			for _, n := range order {
				v := m.times(*byNode[n])
				for k, d := range xyz {
					out = append(out, BCS{n, d, v[k]})
				}
			}
			return out
		}
		t.Dir, t.Neu = image(s.Dir), image(s.Neu)
		c.compareMoved("rotated", s, ref, t, m)
		c.Count("rotated_arbitrarily", 1)
		return
	}
	panic("no structure to rotate found")
}

func randomRotation(r *rng) matrix3 {
	var q [4]float64
	s := 0.0
	for i := range q {
		q[i] = r.NormFloat64()
		s += q[i] * q[i]
	}
	for i := range q {
		q[i] /= math.Sqrt(s)
	}
	w, x, y, z := q[0], q[1], q[2], q[3]
	return matrix3{
		{1 - 2*(y*y+z*z), 2 * (x*y - z*w), 2 * (x*z + y*w)},
		{2 * (x*y + z*w), 1 - 2*(x*x+z*z), 2 * (y*z - x*w)},
		{2 * (x*z - y*w), 2 * (y*z + x*w), 1 - 2*(x*x+y*y)},
	}
}

// planeAs3d turns a plane truss into a 3D truss that is restrained perpendicular to its plane.
func (c *Case) planeAs3d() {
	r := c.R
	s, ref := Gen(r, GenOpts{Kind: "truss", KappaMax: 1e6})
	t := s.clone()
	for i := range t.Elems {
		t.Elems[i].Kind = "truss3d"
	}
	used := map[int]bool{}
	for _, x := range s.nodeDofs() {
		if !used[x.node] {
			used[x.node] = true
			t.Dir = append(t.Dir, BCS{x.node, deflect.Uy, 0})
		}
	}
	r.Shuffle(len(t.Dir), func(i, j int) { t.Dir[i], t.Dir[j] = t.Dir[j], t.Dir[i] })
	m := matrix3{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}
	if r.p(0.7) {
		to, sign, p := permutation(r)
		m = p
		t = t.permute(to, sign, p)
	}
	c.compareMoved("plane truss in space", s, ref, t, m)
	c.Count("plane_as_3d", 1)
}

// planeFrameAs3d uses 3D frame elements for a plane frame that is restrained perpendicular to its plane.
func (c *Case) planeFrameAs3d() {
	r := c.R
	s, ref := Gen(r, GenOpts{Kind: pick(r, "frame", "frame", "mixed", "beam"), KappaMax: 1e7})
	t := s.clone()
	t.Space = true
	c.Spec(t)
	c.sample = map[string]any{"case": c.I, "structure": t}
	c.countFeatures(t)
	sol, err := t.SolveAPI()
	if err != nil {
		c.Failf("a plane frame in space wasn't solved: %v", err)
		return
	}
	compareRef(c, sol, ref)
	c.Count("plane_frame_as_3d", 1)
}

// compareMoved solves both and compares t with the image of s.
func (c *Case) compareMoved(what string, s *Spec, ref *Ref, t *Spec, m matrix3) {
	tref, ok := t.Solve()
	if !ok || tref.kappa > 1e9 {
		// Hardly any stiffness against some displacement that happens to be along an axis before
		c.Count("ill_conditioned_elsewhere", 1)
		return
	}
	c.Spec(s)
	c.Spec(t)
	c.sample = map[string]any{"case": c.I, "original": s, "moved": t}
	c.countFeatures(t)
	a, b := c.solve(s), c.solve(t)
	if a == nil || b == nil {
		return
	}
	get := func(f func(nd) float64, x nd) (v float64) {
		for k, d := range xyz {
			if _, ok := ref.idx[nd{x.node, d}]; ok {
				v += m[axisOf(x.dof)][k] * f(nd{x.node, d})
			}
		}
		return v
	}
	tol := func(f func(int) float64, x nd) (v float64) {
		for _, d := range xyz {
			if i, ok := ref.idx[nd{x.node, d}]; ok {
				v += f(i)
			}
		}
		return v
	}
	c.compareTo(fmt.Sprintf("%v (%v)", what, m), b, tref, 10, correspondence{
		u:  func(x nd) float64 { return get(a.U, x) },
		r:  func(x nd) float64 { return get(a.R, x) },
		tu: func(x nd) float64 { return tol(ref.tolU, x) },
		tr: func(x nd) float64 { return tol(func(i int) float64 { return ref.tolR(i, true) }, x) },
		field: func(i int, f deflect.Fct, x float64) (float64, float64) {
			return must(a.poly(i, f).at(x * ref.elems[i].l / tref.elems[i].l)), ref.tolField(i, true).get(f)
		},
	})
}
