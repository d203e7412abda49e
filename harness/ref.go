package main

import (
	"math"
	"sort"

	"github.com/lubgr/deflect/deflect"
)

// The reference model. It is written independently from the code under test: elements stiffnesses
// come from flexibilities and equilibrium, element loads from numerical quadrature of shape functions,
// hinges are additional unknowns (no static condensation), supports are Lagrange multipliers (no
// partitioning, no rotation of equations), and everything is solved in double-double arithmetic.
type Ref struct {
	s        *Spec
	idx      map[nd]int // global dofs
	dofs     []nd
	n        int       // number of unknowns incl. hinge dofs
	u        []float64 // all unknowns
	diag     []float64 // diagonal of the stiffness matrix
	reac     map[nd]float64
	kappa    float64 // estimated condition number of the diagonally scaled, constrained system
	energy   float64 // Y = sqrt(sum k_ii u_i^2)
	fnorm    float64 // sqrt(sum |f_i|^2/k_ii), where |f_i| is the sum of all absolute contributions
	fabs     []float64
	maxDiag  float64
	loadSum  float64 // sum of absolute load values in force units
	maxLen   float64
	elems    []refElem
	netDofs  int
	fixedDof map[nd]bool
}

type refElem struct {
	l        float64
	frame    bool
	t        [][]float64 // local dof (u0,w0,p0,u1,w1,p1) or (u0,u1) from unknowns
	map_     []int       // unknown per column of t
	k        [][]float64 // local stiffness
	f, fabs  []float64   // consistent local loads, and sum of their absolute contributions
	d        []float64   // local displacements incl. released ones
	end      []float64   // local end forces k·d − f
	loadSum  float64
	momSum   float64
	ea, ei   float64
	loads    []LoadS
	positons []float64
}

var gaussX = []float64{-0.9324695142031521, -0.6612093864662645, -0.2386191860831969, 0.2386191860831969, 0.6612093864662645, 0.9324695142031521}
var gaussW = []float64{0.1713244923791704, 0.3607615730481386, 0.4679139345726910, 0.4679139345726910, 0.3607615730481386, 0.1713244923791704}

// shapes returns the interpolation of axial displacement, deflection and rotation at x in terms of the
// local dofs (u0, w0, p0, u1, w1, p1), where the rotation is p = −w'.
func shapes(x, l float64) (nu, nw, np [6]float64) {
	t := x / l
	nu[0], nu[3] = 1-t, t
	// Hermite polynomials with slope dofs w' = −p
	nw[1] = 1 - 3*t*t + 2*t*t*t
	nw[2] = -l * (t - 2*t*t + t*t*t)
	nw[4] = 3*t*t - 2*t*t*t
	nw[5] = -l * (-t*t + t*t*t)
	np[1] = -(-6*t + 6*t*t) / l
	np[2] = 1 - 4*t + 3*t*t
	np[4] = -(6*t - 6*t*t) / l
	np[5] = -2*t + 3*t*t
	return
}

func (l *LoadS) intensity(x, length float64) float64 {
	switch l.Shape {
	case "constant":
		return l.V0
	case "linear":
		return l.V0 + (l.V1-l.V0)*x/length
	}
	return 0
}

func consistentLoads(loads []LoadS, l float64) (f, fabs []float64) {
	f, fabs = make([]float64, 6), make([]float64, 6)
	apply := func(dof deflect.Dof, x, v float64) {
		nu, nw, np := shapes(x, l)
		for i := 0; i < 6; i++ {
			var w float64
			switch dof {
			case deflect.Ux:
				w = v * nu[i]
			case deflect.Uz:
				w = v * nw[i]
			case deflect.Phiy:
				w = v * np[i]
			}
			f[i] += w
			fabs[i] += math.Abs(w)
		}
	}
	for _, load := range loads {
		if load.Shape == "dirac" {
			apply(load.Dof, load.Pos, load.V0)
			continue
		}
		for g := range gaussX {
			x := l / 2 * (1 + gaussX[g])
			apply(load.Dof, x, load.intensity(x, l)*gaussW[g]*l/2)
		}
	}
	return f, fabs
}

// beamStiffness derives the 6x6 stiffness matrix from the flexibility of a beam that is clamped at its
// start, and equilibrium of the element.
func beamStiffness(ea, ei, l float64) [][]float64 {
	// End displacements (u1, w1, p1) due to end forces (N, F, M), clamped at x = 0:
	//   u1 = N·l/EA, w1 = F·l³/3EI − M·l²/2EI, p1 = −F·l²/2EI + M·l/EI   (p = −w')
	a := l * l * l / (3 * ei)
	b := -l * l / (2 * ei)
	c := l / ei
	det := a*c - b*b
	k11 := [3][3]float64{{ea / l, 0, 0}, {0, c / det, -b / det}, {0, -b / det, a / det}}
	// Forces at the start that balance those at the end: N0 = −N, F0 = −F, M0 = −M + F·l
	// (virtual rigid body motion w = −p0·x, p = p0)
	e := [3][3]float64{{-1, 0, 0}, {0, -1, 0}, {0, l, -1}}
	k := make([][]float64, 6)
	for i := range k {
		k[i] = make([]float64, 6)
	}
	var ek, eke [3][3]float64
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			for m := 0; m < 3; m++ {
				ek[i][j] += e[i][m] * k11[m][j]
			}
		}
	}
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			for m := 0; m < 3; m++ {
				eke[i][j] += ek[i][m] * e[j][m]
			}
		}
	}
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			k[3+i][3+j] = k11[i][j]
			k[i][3+j] = ek[i][j]
			k[3+j][i] = ek[i][j]
			k[i][j] = eke[i][j]
		}
	}
	return k
}

var localDofs = [3]deflect.Dof{deflect.Ux, deflect.Uz, deflect.Phiy}

// refElem sets up element i, whose released displacements are unknowns from *n on.
func (s *Spec) refElem(i int, idx map[nd]int, n *int) refElem {
	e := &s.Elems[i]
	re := refElem{l: s.length(e), frame: s.isFrame(e), ea: s.ea(e), ei: s.ei(e), loads: e.Loads}
	cx, cy, cz := s.dirs(e)
	local := 6
	re.k = beamStiffness(re.ea, re.ei, re.l)
	re.f, re.fabs = consistentLoads(e.Loads, re.l)
	if !re.frame {
		local = 2
		full, ff, fa := re.k, re.f, re.fabs
		re.k = [][]float64{{full[0][0], full[0][3]}, {full[3][0], full[3][3]}}
		re.f = []float64{ff[0], ff[3]}
		re.fabs = []float64{fa[0], fa[3]}
	}
	cols := map[int]int{}
	re.t = make([][]float64, local)
	col := func(u int) int {
		if c, ok := cols[u]; ok {
			return c
		}
		cols[u] = len(re.map_)
		re.map_ = append(re.map_, u)
		for j := range re.t {
			re.t[j] = append(re.t[j], 0)
		}
		return cols[u]
	}
	for end := 0; end < 2; end++ {
		node := e.N0
		if end == 1 {
			node = e.N1
		}
		if !re.frame {
			if e.hinged(end, deflect.Ux) {
				re.t[end][col(*n)] = 1
				*n++
				continue
			}
			re.t[end][col(idx[nd{node, deflect.Ux}])] += cx
			re.t[end][col(idx[nd{node, deflect.Uz}])] += cz
			if e.Kind == "truss3d" {
				re.t[end][col(idx[nd{node, deflect.Uy}])] += cy
			}
			continue
		}
		for k, dof := range localDofs {
			row := 3*end + k
			if e.hinged(end, dof) {
				re.t[row][col(*n)] = 1
				*n++
				continue
			}
			switch dof {
			case deflect.Ux:
				re.t[row][col(idx[nd{node, deflect.Ux}])] += cx
				re.t[row][col(idx[nd{node, deflect.Uz}])] += cz
			case deflect.Uz: // local z is the global direction (sin, −cos)
				re.t[row][col(idx[nd{node, deflect.Ux}])] += cz
				re.t[row][col(idx[nd{node, deflect.Uz}])] -= cx
			case deflect.Phiy:
				re.t[row][col(idx[nd{node, deflect.Phiy}])] -= 1
			}
		}
	}
	for _, l := range e.Loads {
		re.positons = append(re.positons, l.Pos)
		f := math.Max(math.Abs(l.V0), math.Abs(l.V1))
		if l.Shape != "dirac" {
			f *= re.l
		}
		if l.Dof == deflect.Phiy {
			re.loadSum += f / re.l
			re.momSum += f
		} else {
			re.loadSum += f
			re.momSum += f * re.l
		}
	}
	return re
}

// Solve runs the reference model. ok is false if the structure isn't uniquely solvable or so badly
// conditioned that a comparison isn't meaningful.
func (s *Spec) Solve() (r *Ref, ok bool) {
	r = &Ref{s: s, idx: map[nd]int{}, reac: map[nd]float64{}, fixedDof: map[nd]bool{}}
	r.dofs = s.nodeDofs()
	for i, x := range r.dofs {
		r.idx[x] = i
	}
	n := len(r.dofs)
	for i := range s.Elems {
		re := s.refElem(i, r.idx, &n)
		r.maxLen = math.Max(r.maxLen, re.l)
		r.elems = append(r.elems, re)
	}
	r.n = n
	k := make([][]dd, n)
	for i := range k {
		k[i] = make([]dd, n)
	}
	f := make([]dd, n)
	r.fabs = make([]float64, n)
	for i := range r.elems {
		re := &r.elems[i]
		m := len(re.map_)
		nl := len(re.k)
		for a := 0; a < m; a++ {
			ga := re.map_[a]
			for p := 0; p < nl; p++ {
				if re.t[p][a] == 0 {
					continue
				}
				f[ga] = f[ga].add(twoProd(re.t[p][a], re.f[p]))
				r.fabs[ga] += math.Abs(re.t[p][a]) * re.fabs[p]
				for b := 0; b < m; b++ {
					for q := 0; q < nl; q++ {
						if re.t[q][b] == 0 || re.k[p][q] == 0 {
							continue
						}
						v := twoProd(re.t[p][a], re.t[q][b]).mul(toDD(re.k[p][q]))
						k[ga][re.map_[b]] = k[ga][re.map_[b]].add(v)
					}
				}
			}
		}
		r.loadSum += re.loadSum
	}
	for _, b := range s.Neu {
		i, found := r.idx[nd{b.Node, b.Dof}]
		if !found {
			return nil, false
		}
		f[i] = f[i].add(toDD(b.Val))
		r.fabs[i] += math.Abs(b.Val)
		if b.Dof == deflect.Phiy {
			r.loadSum += math.Abs(b.Val) / math.Max(r.maxLen, 1e-3)
		} else {
			r.loadSum += math.Abs(b.Val)
		}
	}
	r.diag = make([]float64, n)
	for i := range r.diag {
		r.diag[i] = math.Max(k[i][i].f(), 0)
		r.maxDiag = math.Max(r.maxDiag, r.diag[i])
	}
	maxDiag := r.maxDiag
	// Constraints c·u = v
	type constraint struct {
		row   []float64
		value float64
	}
	var cons []constraint
	for _, b := range s.Dir {
		i, found := r.idx[nd{b.Node, b.Dof}]
		if !found {
			return nil, false
		}
		row := make([]float64, n)
		row[i] = 1
		cons = append(cons, constraint{row, b.Val})
		r.fixedDof[nd{b.Node, b.Dof}] = true
	}
	for _, row := range s.linkNormals() {
		c := make([]float64, n)
		for dof, v := range row.normal {
			i, found := r.idx[nd{row.node, dof}]
			if !found {
				return nil, false
			}
			c[i] = v
			r.fixedDof[nd{row.node, dof}] = true
		}
		cons = append(cons, constraint{c, 0})
	}
	m := len(cons)
	r.netDofs = len(r.dofs) - m
	if m == 0 || r.netDofs <= 0 {
		return r, false
	}
	scale := make([]float64, n)
	for i := range scale {
		d := r.diag[i]
		if d <= 1e-13*maxDiag {
			d = maxDiag
			r.diag[i] = 0
		}
		scale[i] = 1 / math.Sqrt(d)
	}
	a := make([][]dd, n+m)
	for i := range a {
		a[i] = make([]dd, n+m)
	}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if k[i][j].hi != 0 {
				a[i][j] = k[i][j].mul(twoProd(scale[i], scale[j]))
			}
		}
	}
	cscale := make([]float64, m)
	for j, c := range cons {
		norm := 0.0
		for i := range c.row {
			norm += (c.row[i] * scale[i]) * (c.row[i] * scale[i])
		}
		cscale[j] = 1 / math.Sqrt(norm)
		for i := range c.row {
			v := twoProd(c.row[i], scale[i]).mul(toDD(cscale[j]))
			a[n+j][i] = v
			a[i][n+j] = v
		}
	}
	inv, good := invertBlocks(a)
	if !good {
		return r, false
	}
	norm := 0.0
	for i := 0; i < n; i++ {
		row := 0.0
		for j := 0; j < n; j++ {
			row += inv[i][j].abs()
		}
		norm = math.Max(norm, row)
	}
	r.kappa = norm * 4 // ‖K_s‖ is a small number since the diagonal is one and rows have few entries
	if !(r.kappa < 1e13) {
		return r, false
	}
	rhs := make([]dd, n+m)
	for i := 0; i < n; i++ {
		rhs[i] = f[i].mul(toDD(scale[i]))
	}
	for j, c := range cons {
		rhs[n+j] = toDD(c.value).mul(toDD(cscale[j]))
	}
	sol := make([]dd, n+m)
	for i := range sol {
		for j := range rhs {
			if rhs[j].hi != 0 && inv[i][j].hi != 0 {
				sol[i] = sol[i].add(inv[i][j].mul(rhs[j]))
			}
		}
	}
	r.u = make([]float64, n)
	e2, f2 := 0.0, 0.0
	for i := 0; i < n; i++ {
		r.u[i] = sol[i].mul(toDD(scale[i])).f()
		e2 += r.diag[i] * r.u[i] * r.u[i]
		f2 += r.fabs[i] * r.fabs[i] / math.Max(r.diag[i], 1e-10*r.maxDiag)
	}
	r.energy = math.Sqrt(e2)
	r.fnorm = math.Sqrt(f2)
	for j, c := range cons {
		lambda := sol[n+j].mul(toDD(cscale[j])).f() // K·u + Cᵀ·λ = f, so the reaction is −λ
		for i, v := range c.row {
			if v != 0 && i < len(r.dofs) {
				r.reac[r.dofs[i]] += -lambda * v
			}
		}
	}
	for i := range r.elems {
		re := &r.elems[i]
		re.d = make([]float64, len(re.k))
		re.end = make([]float64, len(re.k))
		for p := range re.k {
			sum := dd{}
			for a := range re.map_ {
				sum = sum.add(twoProd(re.t[p][a], r.u[re.map_[a]]))
			}
			re.d[p] = sum.f()
		}
		// End forces from dd unknowns to avoid cancellation
		ddd := make([]dd, len(re.k))
		for p := range re.k {
			for a, g := range re.map_ {
				if re.t[p][a] != 0 {
					ddd[p] = ddd[p].add(sol[g].mul(toDD(scale[g])).mul(toDD(re.t[p][a])))
				}
			}
		}
		for p := range re.k {
			sum := toDD(-re.f[p])
			for q := range re.k {
				sum = sum.add(ddd[q].mul(toDD(re.k[p][q])))
			}
			re.end[p] = sum.f()
		}
	}
	return r, true
}

// invertBlocks inverts a symmetric matrix. Parts of the structure that aren't connected are blocks of their
// own, and inverted separately.
func invertBlocks(a [][]dd) (inv [][]dd, ok bool) {
	n := len(a)
	parent := make([]int, n)
	for i := range parent {
		parent[i] = i
	}
	find := func(i int) int {
		for parent[i] != i {
			parent[i] = parent[parent[i]]
			i = parent[i]
		}
		return i
	}
	for i := range a {
		for j := 0; j < i; j++ {
			if a[i][j].hi != 0 || a[j][i].hi != 0 {
				parent[find(i)] = find(j)
			}
		}
	}
	blocks := make([][]int, n)
	for i := range a {
		blocks[find(i)] = append(blocks[find(i)], i)
	}
	for _, at := range blocks {
		if len(at) == n {
			return ddInvert(a)
		}
	}
	inv = make([][]dd, n)
	for i := range inv {
		inv[i] = make([]dd, n)
	}
	for _, at := range blocks {
		if len(at) == 0 {
			continue
		}
		b := make([][]dd, len(at))
		for i := range b {
			b[i] = make([]dd, len(at))
			for j := range b[i] {
				b[i][j] = a[at[i]][at[j]]
			}
		}
		c, good := ddInvert(b)
		if !good {
			return nil, false
		}
		for i := range c {
			for j := range c[i] {
				inv[at[i]][at[j]] = c[i][j]
			}
		}
	}
	return inv, true
}

type linkNormal struct {
	node   int
	normal map[deflect.Dof]float64
}

// linkNormals translates inclined supports into directions with zero displacement. When there are
// multiple inclined supports at the same node, they act one after the other: the second is understood
// with respect to the axes that are already rotated by the first.
func (s *Spec) linkNormals() []linkNormal {
	axes := s.rotatedAxes()
	var out []linkNormal
	for _, l := range s.Links {
		out = append(out, linkNormal{l.Node, axes[l.Node][l.To]})
	}
	return out
}

// rotatedAxes returns the direction of each dof at nodes with inclined supports.
func (s *Spec) rotatedAxes() map[int]map[deflect.Dof]map[deflect.Dof]float64 {
	perNode := map[int]map[deflect.Dof]map[deflect.Dof]float64{} // rotated axis → direction
	for _, l := range s.Links {
		axes := perNode[l.Node]
		if axes == nil {
			axes = map[deflect.Dof]map[deflect.Dof]float64{}
			for _, d := range []deflect.Dof{deflect.Ux, deflect.Uz, deflect.Uy} {
				axes[d] = map[deflect.Dof]float64{d: 1}
			}
			perNode[l.Node] = axes
		}
		c, sn := math.Cos(l.Angle), math.Sin(l.Angle)
		af, at := axes[l.From], axes[l.To]
		nf, nt := map[deflect.Dof]float64{}, map[deflect.Dof]float64{}
		for d, v := range af {
			nf[d] += c * v
			nt[d] -= sn * v
		}
		for d, v := range at {
			nf[d] += sn * v
			nt[d] += c * v
		}
		axes[l.From], axes[l.To] = nf, nt
	}
	return perNode
}

// ---- Fields along elements ----

type field struct{ nx, vz, my, ux, phiy, uz float64 }

// at evaluates the reference fields at x (not at a load position).
func (re *refElem) at(x float64) field {
	var f field
	var d0 [3]float64
	if re.frame {
		f.nx, f.vz, f.my = -re.end[0], -re.end[1], -re.end[2]
		d0 = [3]float64{re.d[0], re.d[1], re.d[2]}
	} else {
		f.nx = -re.end[0]
		d0[0] = re.d[0]
	}
	n0, v0, m0 := f.nx, f.vz, f.my
	eps := n0 * x                 // ∫ N
	kap := m0*x + v0*x*x/2        // ∫ M
	kap2 := m0*x*x/2 + v0*x*x*x/6 // ∫∫ M
	f.my += v0 * x
	for _, l := range re.loads {
		switch l.Shape {
		case "dirac":
			if x <= l.Pos {
				continue
			}
			t := x - l.Pos
			switch l.Dof {
			case deflect.Ux:
				f.nx -= l.V0
				eps -= l.V0 * t
			case deflect.Uz:
				f.vz -= l.V0
				f.my -= l.V0 * t
				kap -= l.V0 * t * t / 2
				kap2 -= l.V0 * t * t * t / 6
			case deflect.Phiy:
				f.my -= l.V0
				kap -= l.V0 * t
				kap2 -= l.V0 * t * t / 2
			}
		default:
			q0, dq := l.V0, 0.0
			if l.Shape == "linear" {
				dq = (l.V1 - l.V0) / re.l
			}
			i1 := q0*x + dq*x*x/2
			i2 := q0*x*x/2 + dq*x*x*x/6
			i3 := q0*x*x*x/6 + dq*x*x*x*x/24
			i4 := q0*x*x*x*x/24 + dq*x*x*x*x*x/120
			if l.Dof == deflect.Ux {
				f.nx -= i1
				eps -= i2
			} else {
				f.vz -= i1
				f.my -= i2
				kap -= i3
				kap2 -= i4
			}
		}
	}
	f.ux = d0[0] + eps/re.ea
	f.phiy = d0[2] + kap/re.ei
	f.uz = d0[1] - d0[2]*x - kap2/re.ei
	return f
}

// breakpoints returns the sorted positions that subdivide the element, including its ends.
func (re *refElem) breakpoints() []float64 {
	xs := []float64{0, re.l}
	for _, l := range re.loads {
		if l.Shape == "dirac" {
			xs = append(xs, l.Pos)
		}
	}
	sort.Float64s(xs)
	out := xs[:1]
	for _, x := range xs[1:] {
		if x-out[len(out)-1] > 1e-9*re.l {
			out = append(out, x)
		}
	}
	return out
}

// ---- Tolerances ----

const epsM = 2.220446049250313e-16

// fwd is the expected relative forward error in the (scaled) energy norm, bwd the backward error.
func (r *Ref) fwd() float64 { return epsM * (100*r.kappa + 1e4) * (r.energy + r.fnorm) }
func (r *Ref) bwd() float64 { return epsM * 1e4 * math.Sqrt(float64(r.n)) * (r.energy + r.fnorm) }

// tolU bounds the expected rounding error of unknown i.
func (r *Ref) tolU(i int) float64 {
	d := math.Max(r.diag[i], 1e-10*r.maxDiag)
	if r.diag[i] < 1e-10*r.maxDiag {
		return 1e-4*math.Abs(r.u[i]) + 1e3*r.fwd()/math.Sqrt(d) // hardly any stiffness: supported, or dominated by rounding
	}
	return r.fwd()/math.Sqrt(d) + 1e-14*math.Abs(r.u[i]) + 1e-290
}

// tolR bounds the expected error of a reaction/nodal force in the direction of unknown i.
func (r *Ref) tolR(i int, forward bool) float64 {
	e := r.bwd()
	if forward {
		e = r.fwd()
	}
	d, f := r.diag[i], r.fabs[i]
	if i < len(r.dofs) {
		// Rotations at inclined supports propagate rounding errors from one direction to the others
		node := r.dofs[i].node
		for _, l := range r.s.Links {
			if l.Node != node {
				continue
			}
			for k, x := range r.dofs {
				if x.node == node && x.dof != deflect.Phiy {
					d, f = math.Max(d, r.diag[k]), math.Max(f, r.fabs[k])
				}
			}
			break
		}
	}
	return 10*math.Sqrt(math.Max(d, 1e-10*r.maxDiag))*e + 1e-11*f + 1e-290
}

// tolEnd bounds the error of the local end force/moment p of element i.
func (r *Ref) tolEnd(i, p int, forward bool) float64 {
	re := &r.elems[i]
	e := r.bwd()
	if forward {
		e = r.fwd()
	}
	load := re.loadSum
	if re.frame && p%3 == 2 {
		load = re.momSum
	}
	return 18*math.Sqrt(re.k[p][p])*e + 1e-12*load + 1e-290
}

// tolField bounds the error of the fields along element i, as they're derived from start values.
func (r *Ref) tolField(i int, forward bool) field {
	re := &r.elems[i]
	var f field
	l := re.l
	f.nx = r.tolEnd(i, 0, forward)
	du := func(p int) float64 {
		e := r.bwd()
		if forward {
			e = r.fwd()
		}
		return 6*e/math.Sqrt(re.k[p][p]) + 1e-13*math.Abs(re.d[p])
	}
	f.ux = du(0) + f.nx*l/re.ea
	if !re.frame {
		return f
	}
	f.vz = r.tolEnd(i, 1, forward)
	f.my = r.tolEnd(i, 2, forward) + f.vz*l
	f.phiy = du(2) + f.my*l/re.ei
	f.uz = du(1) + f.phiy*l
	return f
}
