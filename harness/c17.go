package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/lubgr/deflect/deflect"
	"gonum.org/v1/gonum/mat"
)

// Histories: what happened before must not have an influence on results, and nothing that happens
// afterwards may change them.

func init() {
	register(&Check{
		ID: "C17", Quick: 10000, Thorough: 50000, Run: runC17,
		Rule:     "random histories of solving valid and failing problems of different sizes with the same solver and strategy, the same problem again, load cases and support cases that share nodes, elements, loads and inclined supports, problems that differ in one respect only, with queries in random order in between; each result is compared with that of fresh objects, and all earlier results are re-read after each step; distinct by input",
		Required: []string{"solver_reused", "solved_after_failure", "size_changed", "shared_elements", "similar", "in place: loads of an element removed", "in place: loads added to an element", "in place: element replaced", "in place: values of nodal loads changed", "in place: prescribed displacements changed", "in place: node moved", "in place: material changed", "same_problem_again", "results_reread", "failed_attempts", "inputs_unmodified_checked"},
	})
}

// A snapshot is everything a result tells, by description.
type snapshot map[string]float64

func (c *Case) snap(s *Spec, res deflect.ProblemResult) snapshot {
	r := c.R
	out := snapshot{}
	nodal := func(reactions bool) {
		name, all := "primary", res.PrimaryAll
		one := res.Primary
		if reactions {
			name, all, one = "reaction", res.ReactionAll, res.Reaction
		}
		vals := append([]deflect.NodalValue(nil), all()...)
		r.Shuffle(len(vals), func(i, j int) { vals[i], vals[j] = vals[j], vals[i] })
		for _, v := range vals {
			key := fmt.Sprintf("%v %v/%v", name, v.NodalID, v.Dof)
			out[key] = v.Value
			w, err := one(v.Index)
			if err != nil {
				c.Failf("%v: %v", key, err)
			}
			if w != v {
				c.Failf("%v: single query returns %v, expected %v", key, w, v)
			}
		}
	}
	ips := func() {
		order := r.Perm(len(s.Elems))
		for _, i := range order {
			e := &s.Elems[i]
			qs := s.quantities(e)
			r.Shuffle(len(qs), func(i, j int) { qs[i], qs[j] = qs[j], qs[i] })
			for _, f := range qs {
				ip, err := res.Interpolate(e.ID, f, 0)
				if err != nil {
					c.Failf("interpolate %v of %v: %v", f, e.ID, err)
					continue
				}
				for k, p := range ip.Piecewise {
					key := fmt.Sprintf("%v of %v, piece %d ", f, e.ID, k)
					out[key+"start"], out[key+"end"] = p.X0, p.XE
					for m, x := range p.Coeff {
						out[fmt.Sprintf("%vx^%d", key, m)] = x
					}
				}
			}
		}
	}
	nonsense := func() {
		if _, err := res.Primary(deflect.Index{NodalID: "no such node", Dof: deflect.Ux}); err == nil {
			c.Failf("primary value of an unknown node")
		}
		if _, err := res.Interpolate("no such element", deflect.FctNx, 0); err == nil {
			c.Failf("interpolation of an unknown element")
		}
	}
	todo := []func(){func() { nodal(false) }, func() { nodal(true) }, ips, nonsense, func() { res.InterpolateAll(1e-9) }}
	for _, k := range r.Perm(len(todo)) {
		todo[k]()
	}
	return out
}

func (c *Case) identical(what string, a, b snapshot) {
	if len(a) != len(b) {
		c.Failf("%v: %d values, %d before", what, len(b), len(a))
	}
	keys := make([]string, 0, len(a))
	for k := range a {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		v, ok := b[k]
		if !ok {
			c.Failf("%v: %v isn't there any more", what, k)
		} else if math.Float64bits(v) != math.Float64bits(a[k]) && v != a[k] {
			c.Failf("%v: %v = %v, it was %v before", what, k, v, a[k])
		}
	}
}

type problemImage struct {
	nodes              []deflect.Node
	elements           []deflect.Element
	dirichlet, neumann []deflect.NodalValue
	transforms         []deflect.Transformer
}

func imageOf(p *deflect.Problem) problemImage {
	return problemImage{
		append([]deflect.Node(nil), p.Nodes...),
		append([]deflect.Element(nil), p.Elements...),
		append([]deflect.NodalValue(nil), p.Dirichlet...),
		append([]deflect.NodalValue(nil), p.Neumann...),
		append([]deflect.Transformer(nil), p.EqTransforms...),
	}
}

func sameSlice[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (im *problemImage) same(p *deflect.Problem) bool {
	return sameSlice(im.nodes, p.Nodes) && sameSlice(im.elements, p.Elements) && sameSlice(im.dirichlet, p.Dirichlet) &&
		sameSlice(im.neumann, p.Neumann) && sameSlice(im.transforms, p.EqTransforms)
}

// failingStrategy fails as it is, or after having scribbled into the solution vector.
type failingStrategy struct{ scribble bool }

func (f *failingStrategy) SolveLinearSystem(a mat.Symmetric, b, x *mat.VecDense) error {
	if f.scribble {
		for i := 0; i < x.Len(); i++ {
			x.SetVec(i, 1e200)
		}
	}
	return fmt.Errorf("this strategy always fails")
}

// variant is a problem of the history.
type variant struct {
	s    *Spec
	ref  *Ref
	b    *Built
	p    *deflect.Problem
	lay  *deflect.EqLayout
	base int // problems with the same base share objects

	solved bool
}

// loadCase returns a problem with the same objects for nodes and elements, but other boundary conditions.
func (c *Case) loadCase(v *variant) *variant {
	r := c.R
	s := v.s.clone()
	keepTransforms := r.p(0.6)
	if !keepTransforms {
		s.Links = nil
	}
	s.Neu = nil
	dofs := s.nodeDofs()
	for k, m := 0, r.Intn(4); k < m; k++ {
		d := pick(r, dofs...)
		s.Neu = append(s.Neu, BCS{d.node, d.dof, r.magnitude()})
	}
	fixed := map[nd]bool{}
	for _, d := range s.Dir {
		fixed[nd{d.Node, d.Dof}] = true
	}
	linked := map[int]bool{}
	for _, l := range s.Links {
		linked[l.Node] = true
	}
	for k, m := 0, r.Intn(4); k < m; k++ {
		d := pick(r, dofs...)
		if fixed[d] || linked[d.node] {
			continue
		}
		fixed[d] = true
		s.Dir = append(s.Dir, BCS{d.node, d.dof, pick(r, 0, 0, r.in(-0.01, 0.01))})
	}
	if r.p(0.3) && len(s.Dir) > 1 {
		i := r.Intn(len(s.Dir))
		s.Dir = append(s.Dir[:i:i], s.Dir[i+1:]...)
	}
	for i := range s.Dir {
		if r.p(0.2) {
			s.Dir[i].Val = pick(r, 0, r.in(-0.01, 0.01))
		}
	}
	if len(s.nodeDofs())-len(s.Dir)-len(s.Links) <= 0 {
		return nil
	}
	ref, ok := s.Solve()
	if !ok || ref.kappa > 1e7 {
		return nil
	}
	p := &deflect.Problem{Nodes: v.p.Nodes, Elements: v.p.Elements}
	if keepTransforms {
		p.EqTransforms = v.p.EqTransforms
	}
	for _, d := range s.Dir {
		p.Dirichlet = append(p.Dirichlet, deflect.NodalValue{Index: s.index(nd{d.Node, d.Dof}), Value: d.Val})
	}
	for _, l := range s.Links {
		_, bc := deflect.NewInclinedSupport(s.index(nd{l.Node, l.From}), s.index(nd{l.Node, l.To}), l.Angle)
		p.Dirichlet = append(p.Dirichlet, bc)
	}
	for _, f := range s.Neu {
		p.Neumann = append(p.Neumann, deflect.NodalValue{Index: s.index(nd{f.Node, f.Dof}), Value: f.Val})
	}
	return &variant{s: s, ref: ref, b: v.b, p: p, base: v.base}
}

// extension returns a problem with the same objects for nodes and elements, and further ones.
func (c *Case) extension(v *variant) *variant {
	r := c.R
	s := v.s.clone()
	a := r.Intn(len(s.Nodes))
	node := NodeS{ID: "extension", X: s.Nodes[a].X + r.in(0.5, 2), Y: s.Nodes[a].Y, Z: s.Nodes[a].Z + r.in(-2, 2)}
	s.Nodes = append(s.Nodes, node)
	s.Elems = append(s.Elems, ElemS{ID: "extension", Kind: "frame2d", N0: a, N1: len(s.Nodes) - 1})
	s.addLoads(r, &s.Elems[len(s.Elems)-1], 2, false)
	s.Dir = append(s.Dir, BCS{len(s.Nodes) - 1, deflect.Phiy, 0}, BCS{len(s.Nodes) - 1, deflect.Ux, 0}, BCS{len(s.Nodes) - 1, deflect.Uz, 0})
	ref, ok := s.Solve()
	if !ok || ref.kappa > 1e7 {
		return nil
	}
	nodes := make([]deflect.Node, len(s.Nodes))
	for i, n := range s.Nodes {
		nodes[i] = deflect.Node{ID: n.ID, X: n.X, Y: n.Y, Z: n.Z}
	}
	last := &s.Elems[len(s.Elems)-1]
	el, err := s.newElement(last, nodes)
	if err != nil {
		c.Failf("%v", err)
		return nil
	}
	for i := range last.Loads {
		bc, err := last.Loads[i].build()
		if err != nil || !el.AddLoad(bc) {
			c.Failf("load %+v refused: %v", last.Loads[i], err)
			return nil
		}
	}
	p := &deflect.Problem{
		Nodes:        nodes,
		Elements:     append(append([]deflect.Element(nil), v.p.Elements...), el),
		Dirichlet:    append([]deflect.NodalValue(nil), v.p.Dirichlet...),
		Neumann:      append([]deflect.NodalValue(nil), v.p.Neumann...),
		EqTransforms: v.p.EqTransforms,
	}
	for _, d := range s.Dir[len(s.Dir)-3:] {
		p.Dirichlet = append(p.Dirichlet, deflect.NodalValue{Index: s.index(nd{d.Node, d.Dof}), Value: d.Val})
	}
	return &variant{s: s, ref: ref, b: v.b, p: p, base: v.base}
}

// sibling returns a similar problem with objects of its own: the names and the size are the same, but
// it's another structure in one respect.
func (c *Case) sibling(v *variant) *variant {
	r := c.R
	s := v.s.clone()
	e := &s.Elems[r.Intn(len(s.Elems))]
	switch r.Intn(7) {
	case 0, 1:
		s = s.mirror()
	case 2:
		s.Mats[e.Mat].E *= pick(r, 0.5, 1.5, 10)
	case 3:
		n := &s.Nodes[e.N1]
		n.X += r.in(-0.3, 0.3)
		n.Z += r.in(-0.3, 0.3)
		for i := range s.Elems {
			if x := &s.Elems[i]; x.N0 == e.N1 || x.N1 == e.N1 {
				x.Loads = nil
			}
		}
	case 4:
		e.Hinges = nil
	case 5:
		for i := range s.Links {
			s.Links[i].Angle += r.in(-1, 1)
		}
	case 6:
		for i := range s.Neu {
			s.Neu[i].Val *= r.in(-2, 2)
		}
		for i := range e.Loads {
			e.Loads[i].V0 *= r.in(-2, 2)
		}
	}
	ref, ok := s.Solve()
	if !ok || ref.kappa > 1e7 {
		return nil
	}
	b, err := s.Build()
	if err != nil {
		c.Failf("%v", err)
		return nil
	}
	return &variant{s: s, ref: ref, b: b, p: b.P, base: -1}
}

// modify changes a problem and its objects in place: another load case, or a parameter study. What is
// returned describes the problem as it is now, or is nil if it's not to be used any more.
func (c *Case) modify(v *variant) (w *variant, what string) {
	r := c.R
	s := v.s.clone()
	i := r.Intn(len(s.Elems))
	e := &s.Elems[i]
	var el deflect.Element
	at := -1
	for k, x := range v.p.Elements {
		if x.ID() == e.ID {
			el, at = x, k
		}
	}
	if el == nil {
		return nil, "nothing"
	}
	var apply func()
	switch kind := r.Intn(7); kind {
	case 0:
		if v.b != nil && i < len(v.b.Loads) && len(v.b.Loads[i]) > 0 {
			what = "loads of an element removed"
			loads := v.b.Loads[i]
			apply = func() {
				for _, l := range loads {
					el.RemoveLoad(l)
				}
			}
			e.Loads = nil
			break
		}
		fallthrough
	case 1:
		what = "loads added to an element"
		n := len(e.Loads)
		s.addLoads(r, e, 1+r.Intn(3), false)
		added := append([]LoadS(nil), e.Loads[n:]...)
		apply = func() {
			for k := range added {
				l, err := added[k].build()
				if err != nil || !el.AddLoad(l) {
					c.Failf("load %+v refused: %v", added[k], err)
				}
			}
		}
	case 2:
		what = "element replaced"
		m := s.Mats[e.Mat]
		m.ID = "other material"
		m.E *= pick(r, 0.5, 2, 10)
		e.Mat = len(s.Mats)
		s.Mats = append(s.Mats, m)
		e.Loads = nil
		apply = func() {
			n, err := s.newElement(e, v.p.Nodes)
			if err != nil {
				c.Failf("%v", err)
				return
			}
			v.p.Elements[at] = n
		}
		for k := range v.p.Nodes {
			if k >= len(s.Nodes) || v.p.Nodes[k].ID != s.Nodes[k].ID {
				return nil, "nothing" // JSON: nodes in another order
			}
		}
	case 3:
		what = "values of nodal loads changed"
		for k := range s.Neu {
			s.Neu[k].Val *= pick(r, 0, 2, -1, r.in(-2, 2))
		}
		if len(v.p.Neumann) != len(s.Neu) {
			return nil, "nothing"
		}
		for k := range s.Neu {
			if v.p.Neumann[k].Index != s.index(nd{s.Neu[k].Node, s.Neu[k].Dof}) {
				return nil, "nothing"
			}
		}
		apply = func() {
			for k := range s.Neu {
				v.p.Neumann[k].Value = s.Neu[k].Val
			}
		}
	case 4:
		what = "prescribed displacements changed"
		if len(v.p.Dirichlet) < len(s.Dir) {
			return nil, "nothing"
		}
		for k := range s.Dir {
			s.Dir[k].Val = pick(r, 0, r.in(-0.01, 0.01))
			if v.p.Dirichlet[k].Index != s.index(nd{s.Dir[k].Node, s.Dir[k].Dof}) {
				return nil, "nothing"
			}
		}
		apply = func() {
			for k := range s.Dir {
				v.p.Dirichlet[k].Value = s.Dir[k].Val
			}
		}
	case 6:
		if v.b == nil || i >= len(v.b.Mats) {
			return nil, "nothing"
		}
		// As for nodes
		m := v.b.Mats[i]
		if m.YoungsModulus *= 3; r.p(0.5) {
			m.CrossSection = userSection{m.Area() * 2, m.Iyy() * 3, m.Izz(), m.Ixx(), 0}
		}
		return nil, "material changed"
	case 5:
		// Whether elements find out is their business, but earlier results must stay
		k := r.Intn(len(v.p.Nodes))
		v.p.Nodes[k].X += r.in(-1, 1)
		v.p.Nodes[k].Z += r.in(-1, 1)
		return nil, "node moved"
	}
	ref, ok := s.Solve()
	if !ok || ref.kappa > 1e7 {
		return nil, "nothing"
	}
	apply()
	return &variant{s: s, ref: ref, p: v.p, lay: v.lay, base: v.base}, what
}

func runC17(c *Case) {
	r := c.R
	var pool []*variant
	var log []string
	input := map[string]any{}
	c.spec = map[string]any{"structures": input, "history": &log}
	for k, m := 0, 1+r.Intn(3); k < m; k++ {
		o := GenOpts{KappaMax: 1e7, PlainScale: true, MaxNodes: r.sometimesAny(pick(r, 3, 6, 12))}
		s, ref := Gen(r, o)
		v := &variant{s: s, ref: ref, base: k}
		if r.p(0.3) {
			p, err := deflect.ProblemFromJSON(s.JSON(uint(r.Intn(64))))
			if err != nil {
				c.Failf("%v", err)
				return
			}
			v.p = &p
		} else {
			b, err := s.Build()
			if err != nil {
				c.Failf("%v", err)
				return
			}
			v.b, v.p = b, b.P
		}
		input[fmt.Sprint("base ", k)] = s
		pool = append(pool, v)
	}
	solver, strategy := deflect.NewLinearProblemSolver(), deflect.NewCholeskySolver()
	type kept struct {
		v    *variant
		res  deflect.ProblemResult
		snap snapshot
		what string
	}
	var results []kept
	failedBefore := false
	lastSize := -1
history:
	for step, steps := 0, 4+r.Intn(10); step < steps && !c.Failed(); step++ {
		v := pick(r, pool...)
		switch r.Intn(6) {
		case 4:
			if !v.solved {
				break
			}
			w, what := c.modify(v)
			if what == "nothing" {
				break
			}
			log = append(log, fmt.Sprintf("in place: %v", what))
			c.Count("in place: "+what, 1)
			var rest []*variant
			for _, x := range pool {
				if x.base != v.base {
					rest = append(rest, x)
				}
			}
			pool = rest
			if w != nil {
				log = append(log, fmt.Sprintf("now: %+v", *w.s))
				pool = append(pool, w)
			}
			if len(pool) == 0 {
				break history
			}
			v = pool[len(pool)-1]
		case 0, 1:
			if w := c.loadCase(v); w != nil {
				log = append(log, fmt.Sprintf("problem %d shares elements, with %v, %v", len(pool), w.s.Dir, w.s.Neu))
				pool = append(pool, w)
				v = w
				c.Count("shared_elements", 1)
			}
		case 3:
			if w := c.sibling(v); w != nil {
				w.base = 1000 + step
				log = append(log, fmt.Sprintf("problem %d is similar to another one: %+v", len(pool), *w.s))
				pool = append(pool, w)
				v = w
				c.Count("similar", 1)
			}
		case 2:
			if v.p.Nodes[len(v.p.Nodes)-1].ID != "extension" {
				if w := c.extension(v); w != nil {
					log = append(log, fmt.Sprintf("problem %d extends another one", len(pool)))
					pool = append(pool, w)
					v = w
					c.Count("extended", 1)
				}
			}
		}
		if c.Failed() {
			return
		}
		im := imageOf(v.p)
		if v.lay == nil || r.p(0.4) {
			lay, err := deflect.NewEqLayout(v.p)
			if err != nil {
				c.Failf("layout: %v", err)
				return
			}
			v.lay = &lay
		} else {
			c.Count("layout_reused", 1)
		}
		if r.p(0.3) {
			// An attempt that has to fail
			c.Count("failed_attempts", 1)
			failedBefore = true
			bad := *v.p
			var err error
			what := ""
			switch r.Intn(6) {
			case 0:
				what = "failing strategy"
				_, err = solver.Solve(v.p, *v.lay, &failingStrategy{r.p(0.5)})
			case 1:
				what = "load on unknown dof"
				bad.Neumann = append(append([]deflect.NodalValue(nil), bad.Neumann...), deflect.NodalValue{Index: deflect.Index{NodalID: "no such node", Dof: deflect.Ux}, Value: 1})
				_, err = solver.Solve(&bad, *v.lay, strategy)
			case 2:
				what = "no supports"
				bad.Dirichlet, bad.EqTransforms = nil, nil
				lay, _ := deflect.NewEqLayout(&bad)
				_, err = solver.Solve(&bad, lay, strategy)
			case 3:
				what = "prescribed value on unknown dof"
				bad.Dirichlet = append([]deflect.NodalValue(nil), bad.Dirichlet...)
				bad.Dirichlet[r.Intn(len(bad.Dirichlet))].NodalID = "no such node"
				_, err = solver.Solve(&bad, *v.lay, strategy)
			case 4:
				what = "empty layout"
				_, err = solver.Solve(v.p, deflect.EqLayout{}, strategy)
			case 5:
				what = "mechanism"
				w := v.s.clone()
				w.Dir = []BCS{{w.Elems[0].N0, deflect.Ux, 0}}
				w.Links = nil
				b, errBuild := w.Build()
				if errBuild != nil {
					c.Failf("%v", errBuild)
					return
				}
				lay, _ := deflect.NewEqLayout(b.P)
				_, err = solver.Solve(b.P, lay, strategy)
			}
			log = append(log, "attempt: "+what)
			if err == nil {
				c.Failf("%v: no error", what)
				return
			}
		}
		again := 1
		if r.p(0.2) {
			again = 2
			c.Count("same_problem_again", 1)
		}
		for ; again > 0; again-- {
			log = append(log, fmt.Sprintf("solve problem with %d nodes, %d elements, %d supports", len(v.p.Nodes), len(v.p.Elements), len(v.p.Dirichlet)))
			res, err := solver.Solve(v.p, *v.lay, strategy)
			if err != nil {
				c.Failf("not solved: %v", err)
				return
			}
			total, _ := res.Dimension()
			if lastSize >= 0 {
				c.Count("solver_reused", 1)
				if total != lastSize {
					c.Count("size_changed", 1)
				}
			}
			lastSize = total
			if failedBefore {
				c.Count("solved_after_failure", 1)
				failedBefore = false
			}
			v.solved = true
			fresh, _, err := solveProblem(v.p)
			if err != nil {
				c.Failf("not solved with fresh objects: %v", err)
				return
			}
			a, b := c.snap(v.s, res), c.snap(v.s, fresh)
			_ = b
			sol := &Sol{s: v.s, p: v.p, res: res}
			c.sameAs("compared with fresh objects", sol, v.ref, &Sol{s: v.s, p: v.p, res: fresh}, v.ref, 0.5)
			compareRef(c, sol, v.ref)
			results = append(results, kept{v, res, a, fmt.Sprintf("result %d", len(results))})
		}
		if !im.same(v.p) {
			c.Failf("solving modifies the problem")
		}
		c.Count("inputs_unmodified_checked", 1)
		for _, k := range results {
			if r.p(0.5) {
				continue
			}
			c.Count("results_reread", 1)
			c.identical(k.what+", read again later", k.snap, c.snap(k.v.s, k.res))
		}
	}
	if !c.Failed() {
		for _, k := range results {
			c.identical(k.what+", read again at the end", k.snap, c.snap(k.v.s, k.res))
		}
	}
	c.Spec(map[string]any{"structures": input, "history": log})
}
