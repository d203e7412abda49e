package main

import (
	"math"

	"github.com/lubgr/deflect/deflect"
	"gonum.org/v1/gonum/mat"
)

// The contracts of the public interfaces, observed by calling them directly rather than through the
// solver: elements, inclined supports, and user-defined implementations.

func init() {
	register(&Check{
		ID: "C28", Quick: 100000, Thorough: 500000, Run: runC28,
		Rule:     "every element of random structures: assembled into random matrices, repeatedly and with different displacements, interpolated for arbitrary displacements, compared with the reference element (stiffness, loads, all fields) and with what must not be touched; inclined supports applied to random matrices; structures solved with user-defined cross sections, elements and transformations; distinct by input",
		Required: []string{"elements_assembled", "arbitrary_displacements", "transformations", "user_defined", "comparisons"},
	})
}

func runC28(c *Case) {
	switch c.I % 4 {
	case 0, 1:
		c.elementContract()
	case 2:
		c.transformerContract()
	default:
		c.userDefined()
	}
}

// layoutOf returns a layout and the position of every degree of freedom therein.
func (c *Case) layoutOf(s *Spec) (*Built, deflect.EqLayout, map[nd]int, bool) {
	b, err := s.Build()
	if err != nil {
		c.Failf("build: %v", err)
		return nil, deflect.EqLayout{}, nil, false
	}
	lay, err := deflect.NewEqLayout(b.P)
	if err != nil {
		c.Failf("layout: %v", err)
		return nil, lay, nil, false
	}
	dofs := s.nodeDofs()
	pos := map[nd]int{}
	used := map[int]bool{}
	for i, x := range dofs {
		y := dofs[(i+1)%len(dofs)]
		// A rotation by 90 degrees moves the value at one position to the other one
		t, _ := deflect.NewInclinedSupport(s.index(x), s.index(y), math.Pi/2)
		r := mat.NewVecDense(len(dofs), nil)
		for k := range dofs {
			r.SetVec(k, float64(k+1))
		}
		t.Pre(lay, mat.NewSymDense(len(dofs), nil), r, mat.NewVecDense(len(dofs), nil))
		from := -1
		changed := 0
		for k := range dofs {
			if v := r.AtVec(k); math.Abs(v-float64(k+1)) > 1e-6 {
				changed++
				if v > 0 {
					from = k
				}
			}
		}
		if changed != 2 || from < 0 || used[from] {
			c.Failf("rotating %v and %v by 90 degrees turns 1, 2, 3... into %v", s.index(x), s.index(y), mat.Formatted(r.T()))
			return nil, lay, nil, false
		}
		used[from] = true
		pos[x] = from
	}
	return b, lay, pos, true
}

func (r *rng) symmetric(n int, size float64) *mat.SymDense {
	k := mat.NewSymDense(n, nil)
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			k.SetSym(i, j, r.in(-size, size))
		}
	}
	return k
}

func (r *rng) vector(n int, size float64) *mat.VecDense {
	v := mat.NewVecDense(n, nil)
	for i := 0; i < n; i++ {
		v.SetVec(i, r.in(-size, size))
	}
	return v
}

func cloneSym(k *mat.SymDense) *mat.SymDense {
	out := mat.NewSymDense(k.SymmetricDim(), nil)
	out.CopySym(k)
	return out
}

// structure returns a problem that isn't necessarily solvable.
func (c *Case) anyStructure() *Spec {
	for {
		s := gen(c.R, GenOpts{MaxNodes: c.R.sometimesAny(6), PlainScale: c.R.p(0.7)})
		if s == nil || len(s.nodeDofs()) < 2 || len(s.Dir)+len(s.Links) == 0 {
			continue
		}
		for i := range s.Elems {
			if c.R.p(0.5) {
				s.addHinges(c.R, &s.Elems[i])
			}
		}
		return s
	}
}

// elemModel is the reference behaviour of a single element in terms of its nodal degrees of freedom.
type elemModel struct {
	re       refElem
	dofs     []nd        // that the element is connected to
	k        [][]float64 // condensed stiffness in terms of dofs
	f        []float64
	inner    [][]dd // released displacements = inner·(f_h − k_hn·u)
	size     []float64
	released []int // columns of re.t
	col      []int // column of each dof, or -1
}

func (s *Spec) expectedElement(i int) *elemModel {
	e := &s.Elems[i]
	idx := map[nd]int{}
	x := &elemModel{}
	ends := []deflect.Dof{deflect.Ux, deflect.Uz}
	switch {
	case e.Kind == "truss3d":
		ends = append(ends, deflect.Uy)
	case s.isFrame(e):
		ends = append(ends, deflect.Phiy)
	}
	for _, n := range []int{e.N0, e.N1} {
		for _, d := range ends {
			idx[nd{n, d}] = len(x.dofs)
			x.dofs = append(x.dofs, nd{n, d})
		}
	}
	n := len(x.dofs)
	x.re = s.refElem(i, idx, &n)
	re := &x.re
	x.col = make([]int, len(x.dofs))
	for a := range x.col {
		x.col[a] = -1
	}
	for cl, u := range re.map_ {
		if u < len(x.dofs) {
			x.col[u] = cl
		} else {
			x.released = append(x.released, cl)
		}
	}
	m := len(re.map_)
	k := make([][]dd, m)
	f := make([]dd, m)
	for a := range k {
		k[a] = make([]dd, m)
		for p := range re.k {
			f[a] = f[a].add(twoProd(re.t[p][a], re.f[p]))
			for b := range k[a] {
				for q := range re.k {
					k[a][b] = k[a][b].add(twoProd(re.t[p][a], re.t[q][b]).mul(toDD(re.k[p][q])))
				}
			}
		}
	}
	h := len(x.released)
	khh := make([][]dd, h)
	for a, ca := range x.released {
		khh[a] = make([]dd, h)
		for b, cb := range x.released {
			khh[a][b] = k[ca][cb]
		}
	}
	if h > 0 {
		inv, ok := ddInvert(khh)
		if !ok {
			return nil
		}
		x.inner = inv
	}
	x.k = make([][]float64, len(x.dofs))
	x.f = make([]float64, len(x.dofs))
	// k_nn − k_nh·k_hh⁻¹·k_hn, f_n − k_nh·k_hh⁻¹·f_h
	for a, ca := range x.col {
		x.k[a] = make([]float64, len(x.dofs))
		if ca < 0 {
			continue
		}
		fa := f[ca]
		for i, ci := range x.released {
			for j, cj := range x.released {
				fa = fa.sub(k[ca][ci].mul(x.inner[i][j]).mul(f[cj]))
			}
		}
		x.f[a] = fa.f()
		for b, cb := range x.col {
			if cb < 0 {
				continue
			}
			v := k[ca][cb]
			for i, ci := range x.released {
				for j, cj := range x.released {
					v = v.sub(k[ca][ci].mul(x.inner[i][j]).mul(k[cj][cb]))
				}
			}
			x.k[a][b] = v.f()
		}
	}
	// Upper bounds of diagonal entries, for tolerances
	l := re.l
	for _, d := range x.dofs {
		v := re.ea / l
		if re.frame {
			v = math.Max(v, 12*re.ei/(l*l*l))
		}
		if d.dof == deflect.Phiy {
			v = 4 * re.ei / l
		}
		x.size = append(x.size, v)
	}
	return x
}

// displace computes displacements and forces at the element's ends for the given nodal displacements.
func (x *elemModel) displace(u []float64) {
	re := &x.re
	m := len(re.map_)
	all := make([]dd, m)
	for a, ca := range x.col {
		if ca >= 0 {
			all[ca] = toDD(u[a])
		}
	}
	local := func() []dd {
		d := make([]dd, len(re.k))
		for p := range d {
			for a := range all {
				d[p] = d[p].add(all[a].mul(toDD(re.t[p][a])))
			}
		}
		return d
	}
	force := func(d []dd, p int) dd {
		sum := toDD(-re.f[p])
		for q := range d {
			sum = sum.add(d[q].mul(toDD(re.k[p][q])))
		}
		return sum
	}
	if h := len(x.released); h > 0 {
		d := local()
		rhs := make([]dd, h)
		for i, ci := range x.released {
			for p := range re.k {
				rhs[i] = rhs[i].sub(force(d, p).mul(toDD(re.t[p][ci])))
			}
		}
		for i, ci := range x.released {
			for j := range rhs {
				all[ci] = all[ci].add(x.inner[i][j].mul(rhs[j]))
			}
		}
	}
	d := local()
	re.d, re.end = make([]float64, len(d)), make([]float64, len(d))
	for p := range d {
		re.d[p] = d[p].f()
		re.end[p] = force(d, p).f()
	}
}

// tolerances of the fields due to rounding of local displacements.
func (x *elemModel) tolerances(u []float64) field {
	re := &x.re
	const eps = 1e-11
	l := re.l
	trans, rot := 0.0, 0.0
	for a, d := range x.dofs {
		if d.dof == deflect.Phiy {
			rot = math.Max(rot, math.Abs(u[a]))
		} else {
			trans = math.Max(trans, math.Abs(u[a]))
		}
	}
	axial := re.loadSum + re.ea/l*trans
	var f field
	f.nx = eps * axial
	f.ux = eps*trans + f.nx*l/re.ea
	if !re.frame {
		return f
	}
	bend := re.loadSum + 12*re.ei/(l*l*l)*(trans+rot*l)
	f.vz = eps * bend
	f.my = eps * (bend*l + re.momSum)
	f.phiy = eps*(rot+trans/l) + f.my*l/re.ei
	f.uz = eps*(trans+rot*l) + f.phiy*l
	return f
}

func (c *Case) elementContract() {
	r := c.R
	s := c.anyStructure()
	c.Spec(s)
	c.sample = map[string]any{"case": c.I, "structure": s}
	c.countFeatures(s)
	b, lay, pos, ok := c.layoutOf(s)
	if !ok {
		return
	}
	n := len(s.nodeDofs())
	for i := range s.Elems {
		e := &s.Elems[i]
		el := b.Elems[i]
		x := s.expectedElement(i)
		if x == nil {
			continue
		}
		c.Count("elements_assembled", 1)
		if el.ID() != e.ID || el.NumNodes() != 2 {
			c.Failf("element %q with 2 nodes has ID %q and %v nodes", e.ID, el.ID(), el.NumNodes())
		}
		// Indices
		foreign := deflect.Index{NodalID: "foreign", Dof: deflect.Phix}
		set := map[deflect.Index]struct{}{foreign: {}}
		el.Indices(set)
		for _, d := range x.dofs {
			if _, ok := set[s.index(d)]; !ok {
				c.Failf("element %q isn't connected to %v", e.ID, s.index(d))
			}
		}
		if _, ok := set[foreign]; !ok || len(set) != len(x.dofs)+1 {
			c.Failf("element %q turns a set with a single index into %v", e.ID, set)
		}
		at := map[int]int{} // position → index within x.dofs
		for a, d := range x.dofs {
			at[pos[d]] = a
		}
		// Matrices that already contain something
		size, fsize := 0.0, x.re.loadSum+x.re.momSum
		for _, v := range x.size {
			size = math.Max(size, v)
		}
		pick1 := pick(r, 0.0, 1, 1)
		k0, r0, d0 := r.symmetric(n, pick1*size), r.vector(n, pick1*fsize), r.vector(n, pick(r, 0.0, 1, 1e-3, 1e3))
		k, rv, d := cloneSym(k0), mat.VecDenseCopyOf(r0), mat.VecDenseCopyOf(d0)
		el.Assemble(lay, k, rv, d)
		if !mat.Equal(d, d0) {
			c.Failf("assembling element %q changes displacements", e.ID)
		}
		tolK := func(p, q int) float64 {
			return 1e-11*math.Sqrt(x.size[p]*x.size[q]) + 4e-15*pick1*size
		}
		tolF := func(a int) float64 {
			v := x.re.loadSum
			if x.dofs[a].dof == deflect.Phiy {
				v = x.re.momSum
			}
			return 1e-11*v + 4e-15*pick1*fsize
		}
		for p := 0; p < n; p++ {
			ap, okp := at[p]
			if !okp && rv.AtVec(p) != r0.AtVec(p) {
				c.Failf("assembling element %q changes entry %v of the right-hand side, which it isn't connected to", e.ID, p)
			} else if okp {
				c.Near(rv.AtVec(p)-r0.AtVec(p), x.f[ap], tolF(ap), "contribution of element %q to the right-hand side at %v", e.ID, s.index(x.dofs[ap]))
			}
			for q := p; q < n; q++ {
				aq, okq := at[q]
				if !(okp && okq) {
					if k.At(p, q) != k0.At(p, q) {
						c.Failf("assembling element %q changes entry (%v, %v) of the stiffness matrix, which it isn't connected to", e.ID, p, q)
					}
					continue
				}
				c.Near(k.At(p, q)-k0.At(p, q), x.k[ap][aq], tolK(ap, aq), "contribution of element %q to the stiffness at %v, %v", e.ID, s.index(x.dofs[ap]), s.index(x.dofs[aq]))
			}
		}
		if r.p(0.3) {
			// Again, in the same matrices
			el.Assemble(lay, k, rv, r.vector(n, 1))
			for a, d := range x.dofs {
				p := pos[d]
				c.Near(rv.AtVec(p)-r0.AtVec(p), 2*x.f[a], 3*tolF(a), "contribution of element %q to the right-hand side at %v, assembled twice", e.ID, s.index(d))
				for aq, dq := range x.dofs {
					c.Near(k.At(p, pos[dq])-k0.At(p, pos[dq]), 2*x.k[a][aq], 3*tolK(a, aq), "contribution of element %q to the stiffness at %v, %v, assembled twice", e.ID, s.index(d), s.index(dq))
				}
			}
		}
		c.interpolated(s, i, el, lay, pos, x)
	}
}

// interpolated compares fields for arbitrary displacements.
func (c *Case) interpolated(s *Spec, i int, el deflect.Element, lay deflect.EqLayout, pos map[nd]int, x *elemModel) {
	r := c.R
	n := len(pos)
	for round := 0; round < 2; round++ {
		d := r.vector(n, pick(r, 0.0, 1, 1e-2, 1e-5, 10))
		d0 := mat.VecDenseCopyOf(d)
		u := make([]float64, len(x.dofs))
		for a, y := range x.dofs {
			u[a] = d.AtVec(pos[y])
		}
		x.displace(u)
		tol := x.tolerances(u)
		want := s.quantities(&s.Elems[i])
		related := map[deflect.Fct]bool{}
		for _, f := range want {
			related[f] = true
		}
		xs := x.re.breakpoints()
		for _, f := range allFcts {
			ps := el.Interpolate(lay, f, d)
			if !related[f] {
				if ps != nil {
					c.Failf("element %q relates to %v: %v", s.Elems[i].ID, f, ps)
				}
				continue
			}
			sq := seq(ps)
			for k := 0; k+1 < len(xs); k++ {
				if xs[k+1]-xs[k] < 1e-6*x.re.l {
					continue
				}
				for _, t := range []float64{0.02, 0.5, 0.98} {
					at := xs[k] + t*(xs[k+1]-xs[k])
					got, ok := sq.at(at)
					if !ok {
						c.Failf("%v on element %q isn't defined at %v", f, s.Elems[i].ID, at)
						continue
					}
					c.Near(got, x.re.at(at).get(f), tol.get(f), "%v of element %q at %v for given displacements", f, s.Elems[i].ID, at)
				}
			}
			// What is returned belongs to the caller
			for k := range ps {
				for j := range ps[k].Coeff {
					ps[k].Coeff[j] = math.Inf(1)
				}
				ps[k].XE = -1
			}
		}
		if !mat.Equal(d, d0) {
			c.Failf("interpolating element %q changes displacements", s.Elems[i].ID)
		}
		c.Count("arbitrary_displacements", 1)
	}
}

func (c *Case) transformerContract() {
	r := c.R
	// Several systems of different size that share the support
	var supports []deflect.Transformer
	var angles []float64
	var fromID, toID []deflect.Index
	for round, rounds := 0, 1+r.Intn(3); round < rounds; round++ {
		s := c.anyStructure()
		s.nameEverything(r, true)
		c.Spec(s)
		c.sample = map[string]any{"case": c.I, "structure": s}
		_, lay, pos, ok := c.layoutOf(s)
		if !ok {
			return
		}
		dofs := s.nodeDofs()
		n := len(dofs)
		byIndex := map[deflect.Index]int{}
		for _, x := range dofs {
			byIndex[s.index(x)] = pos[x]
		}
		for len(supports) < 3 {
			p := r.Perm(n)
			from, to := s.index(dofs[p[0]]), s.index(dofs[p[1]])
			angle := r.angleValue()
			t, bc := deflect.NewInclinedSupport(from, to, angle)
			if bc.Index != to || bc.Value != 0 {
				c.Failf("inclined support from %v to %v prescribes %v", from, to, bc)
			}
			supports, angles = append(supports, t), append(angles, angle)
			fromID, toID = append(fromID, from), append(toID, to)
		}
		size := pick(r, 1, 1e10, 1e-3)
		for _, which := range r.Perm(3)[:1+r.Intn(3)] {
			i, oki := byIndex[fromID[which]]
			j, okj := byIndex[toID[which]]
			if !oki || !okj {
				continue
			}
			cs, sn := math.Cos(angles[which]), math.Sin(angles[which])
			k0, r0, d0 := r.symmetric(n, size), r.vector(n, 1e3), r.vector(n, 0.01)
			k, rv, d := cloneSym(k0), mat.VecDenseCopyOf(r0), mat.VecDenseCopyOf(d0)
			supports[which].Pre(lay, k, rv, d)
			what := func() (deflect.Index, deflect.Index, float64) { return fromID[which], toID[which], angles[which] }
			f, t, angle := what()
			rotated := func(v func(int) float64, p int) float64 {
				switch p {
				case i:
					return cs*v(i) + sn*v(j)
				case j:
					return -sn*v(i) + cs*v(j)
				}
				return v(p)
			}
			for p := 0; p < n; p++ {
				c.Near(rv.AtVec(p), rotated(r0.AtVec, p), 1e-12*1e3, "support (%v, %v, %v): entry %v of the rotated right-hand side", f, t, angle, p)
				c.Near(d.AtVec(p), rotated(d0.AtVec, p), 1e-12*0.01, "support (%v, %v, %v): entry %v of the rotated displacements", f, t, angle, p)
				for q := p; q < n; q++ {
					want := rotated(func(a int) float64 {
						return rotated(func(b int) float64 { return k0.At(a, b) }, q)
					}, p)
					c.Near(k.At(p, q), want, 1e-12*size, "support (%v, %v, %v): entry (%v, %v) of the rotated stiffness", f, t, angle, p, q)
				}
			}
			// Different vectors, that are transformed back
			r1, d1 := r.vector(n, 1e3), r.vector(n, 0.01)
			rv, d = mat.VecDenseCopyOf(r1), mat.VecDenseCopyOf(d1)
			supports[which].Post(lay, rv, d)
			back := func(v func(int) float64, p int) float64 {
				switch p {
				case i:
					return cs*v(i) - sn*v(j)
				case j:
					return sn*v(i) + cs*v(j)
				}
				return v(p)
			}
			for p := 0; p < n; p++ {
				c.Near(rv.AtVec(p), back(r1.AtVec, p), 1e-12*1e3, "support (%v, %v, %v): entry %v of the forces, transformed back", f, t, angle, p)
				c.Near(d.AtVec(p), back(d1.AtVec, p), 1e-12*0.01, "support (%v, %v, %v): entry %v of the displacements, transformed back", f, t, angle, p)
			}
			c.Count("transformations", 1)
		}
	}
}

// User-defined parts

type userSection struct{ a, iyy, izz, ixx, roll float64 }

func (u userSection) Area() float64      { return u.a }
func (u userSection) Iyy() float64       { return u.iyy }
func (u userSection) Izz() float64       { return u.izz }
func (u userSection) Ixx() float64       { return u.ixx }
func (u userSection) RollAngle() float64 { return u.roll }

// userElement assembles through matrices of its own.
type userElement struct{ inner deflect.Element }

func (u *userElement) Assemble(indices deflect.EqLayout, k *mat.SymDense, r, d *mat.VecDense) {
	n := k.SymmetricDim()
	kk, rr := mat.NewSymDense(n, nil), mat.NewVecDense(n, nil)
	u.inner.Assemble(indices, kk, rr, mat.VecDenseCopyOf(d))
	k.AddSym(k, kk)
	r.AddVec(r, rr)
}
func (u *userElement) AddLoad(bc deflect.NeumannElementBC) bool { return u.inner.AddLoad(bc) }
func (u *userElement) RemoveLoad(bc deflect.NeumannElementBC)   { u.inner.RemoveLoad(bc) }
func (u *userElement) Indices(set map[deflect.Index]struct{})   { u.inner.Indices(set) }
func (u *userElement) NumNodes() uint                           { return u.inner.NumNodes() }
func (u *userElement) ID() string                               { return u.inner.ID() }
func (u *userElement) Interpolate(indices deflect.EqLayout, which deflect.Fct, d *mat.VecDense) deflect.PolySequence {
	return u.inner.Interpolate(indices, which, d)
}

// userTransformer combines others.
type userTransformer []deflect.Transformer

func (u userTransformer) Pre(indices deflect.EqLayout, k *mat.SymDense, r, d *mat.VecDense) {
	for _, t := range u {
		t.Pre(indices, k, r, d)
	}
}

func (u userTransformer) Post(indices deflect.EqLayout, r, d *mat.VecDense) {
	for i := len(u) - 1; i >= 0; i-- {
		u[i].Post(indices, r, d)
	}
}

func (c *Case) userDefined() {
	r := c.R
	s, ref := Gen(r, GenOpts{})
	c.Spec(s)
	c.sample = map[string]any{"case": c.I, "structure": s}
	c.countFeatures(s)
	if r.p(0.6) {
		s.userSections = true
		c.Count("user_defined_cross_sections", 1)
	}
	b, err := s.Build()
	if err != nil {
		c.Failf("build: %v", err)
		return
	}
	if r.p(0.6) {
		for i := range b.P.Elements {
			if r.p(0.7) {
				b.P.Elements[i] = &userElement{b.P.Elements[i]}
				c.Count("user_defined_elements", 1)
			}
		}
	}
	if len(b.P.EqTransforms) > 0 && r.p(0.6) {
		// Any of them, alone or combined with its successors, before and after built-in ones
		var mixed []deflect.Transformer
		for all := b.P.EqTransforms; len(all) > 0; {
			m := 1
			if r.p(0.4) {
				m += r.Intn(len(all))
			}
			if m > 1 || r.p(0.5) {
				mixed = append(mixed, userTransformer(all[:m:m]))
			} else {
				mixed = append(mixed, all[0])
			}
			all = all[m:]
		}
		b.P.EqTransforms = mixed
		c.Count("user_defined_transformations", 1)
	}
	res, lay, err := solveProblem(b.P)
	if err != nil {
		c.Failf("a solvable problem with user-defined parts wasn't solved: %v", err)
		return
	}
	c.Count("user_defined", 1)
	compareRef(c, &Sol{s: s, b: b, p: b.P, lay: lay, res: res}, ref)
}
