package main

import (
	"cmp"
	"fmt"
	"math"
	"slices"

	"github.com/lubgr/deflect/deflect"
)

// Queries of results: completeness and consistency among each other.

func init() {
	register(&Check{
		ID: "C19", Quick: 100000, Thorough: 500000, Run: runC19,
		Rule:     "random solved structure; lists of nodal values and interpolations against single queries and the set of connected dofs/quantities, dimensions, lookups of unknown nodes, dofs and elements in random order between valid ones, interpolations with tolerances against trimming and merging those without; distinct by input",
		Required: []string{"lists_checked", "unknown_lookups", "interpolations_with_tolerance", "merged_pieces", "trimmed_coefficients", "unrelated_quantities", "results_edited"},
		Logs:     true,
	})
}

var allFcts = []deflect.Fct{deflect.FctUx, deflect.FctUz, deflect.FctUy, deflect.FctPhiy, deflect.FctPhiz, deflect.FctPhix,
	deflect.FctNx, deflect.FctVz, deflect.FctVy, deflect.FctMy, deflect.FctMz, deflect.FctMx}

func has[T comparable](xs []T, x T) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// unambiguous tells if a and b are either clearly equal or clearly different for the given tolerance.
func unambiguous(a, b, tol float64) (equal, clear bool) {
	d := math.Abs(a - b)
	if d == 0 {
		return true, true
	}
	m := math.Max(math.Abs(a), math.Abs(b))
	near := d <= 0.05*tol || d <= 0.05*tol*m
	far := d > 20*tol && d > 20*tol*m
	return near, near || far
}

// simplify is the model for interpolations with a tolerance; ok is false if it's a close call anywhere.
func simplify(in seq, tol float64) (out seq, ok bool) {
	for _, p := range in {
		c := append([]float64(nil), p.Coeff...)
		for len(c) > 1 {
			zero, clear := unambiguousZero(c[len(c)-1], tol)
			if !clear {
				return nil, false
			}
			if !zero {
				break
			}
			c = c[:len(c)-1]
		}
		if zero, clear := unambiguousZero(c[0], tol); !clear {
			return nil, false
		} else if zero {
			c[0] = 0
		}
		out = append(out, deflect.PolyPiece{X0: p.X0, XE: p.XE, Coeff: c})
	}
	// All pairs have to be clear, so that it doesn't matter which ones are compared
	equal := func(a, b []float64) (bool, bool) {
		if len(a) != len(b) {
			return false, true
		}
		eq := true
		for i := range a {
			e, clear := unambiguous(a[i], b[i], tol)
			if !clear {
				return false, false
			}
			eq = eq && e
		}
		return eq, true
	}
	for i := range out {
		for j := range out {
			if _, clear := equal(out[i].Coeff, out[j].Coeff); !clear {
				return nil, false
			}
		}
	}
	merged := seq{}
	for _, p := range out {
		if n := len(merged); n > 0 {
			if _, clear := unambiguous(merged[n-1].XE, p.X0, tol); !clear {
				return nil, false
			}
			if eq, _ := equal(merged[n-1].Coeff, p.Coeff); eq {
				merged[n-1].XE = p.XE
				continue
			}
		}
		merged = append(merged, p)
	}
	return merged, true
}

func unambiguousZero(a, tol float64) (zero, clear bool) {
	d := math.Abs(a)
	return d <= 0.05*tol, d == 0 || d <= 0.05*tol || d > 20*tol
}

func runC19(c *Case) {
	r := c.R
	s, ref := Gen(r, GenOpts{KappaMax: 1e7, PlainScale: r.p(0.7), MaxNodes: pick(r, 12, 12, 12, 0)})
	c.Spec(s)
	// Additional load arrangements that give rise to identical and lower-order pieces
	if r.p(0.5) {
		s = s.clone()
		e := &s.Elems[r.Intn(len(s.Elems))]
		l := s.length(e)
		for _, t := range []float64{0.25, 0.5, 0.75} {
			v := pick(r, 0, 1e-14, 1e-9, 1, r.magnitude())
			e.Loads = append(e.Loads, LoadS{Dof: deflect.Ux, Shape: "dirac", Pos: t * l, V0: v})
			if s.isFrame(e) && r.p(0.5) {
				e.Loads = append(e.Loads, LoadS{Dof: pick(r, deflect.Uz, deflect.Phiy), Shape: "dirac", Pos: t * l, V0: v})
			}
		}
		var ok bool
		if ref, ok = s.Solve(); !ok {
			return
		}
		c.Spec(s)
	}
	c.countFeatures(s)
	sol := c.solve(s)
	if sol == nil {
		return
	}
	res := sol.res

	// Noise: lookups that have to fail, and must not have an effect on others
	dofs := s.nodeDofs()
	connected := map[deflect.Index]bool{}
	for _, x := range dofs {
		connected[s.index(x)] = true
	}
	noise := func() {
		if !r.p(0.3) {
			return
		}
		if r.p(0.2) {
			c.Count("results_edited", 1)
			edit(r, res, s)
			return
		}
		c.Count("unknown_lookups", 1)
		switch r.Intn(4) {
		case 0:
			i := deflect.Index{NodalID: pick(r, "", s.unusedNode(r), s.unusedNode(r), s.unusedNode(r)), Dof: deflect.Ux}
			if connected[i] {
				return
			}
			if v, err := res.Primary(i); err == nil {
				c.Failf("unknown node %q has primary value %v", i.NodalID, v)
			}
			if v, err := res.Reaction(i); err == nil {
				c.Failf("unknown node %q has reaction %v", i.NodalID, v)
			}
		case 1:
			i := deflect.Index{NodalID: s.Nodes[r.Intn(len(s.Nodes))].ID, Dof: deflect.Dof(r.Intn(6))}
			if connected[i] {
				return
			}
			if v, err := res.Primary(i); err == nil {
				c.Failf("unconnected dof %v has primary value %v", i, v)
			}
			if v, err := res.Reaction(i); err == nil {
				c.Failf("unconnected dof %v has reaction %v", i, v)
			}
		case 2:
			id := pick(r, "", s.unusedElement(r), s.unusedElement(r), s.unusedElement(r))
			if slices.ContainsFunc(s.Elems, func(e ElemS) bool { return e.ID == id }) {
				return
			}
			if ip, err := res.Interpolate(id, pick(r, allFcts...), 0); err == nil {
				c.Failf("unknown element %q has interpolation %v", id, ip)
			}
		case 3:
			e := &s.Elems[r.Intn(len(s.Elems))]
			f := pick(r, allFcts...)
			if has(s.quantities(e), f) {
				return
			}
			c.Count("unrelated_quantities", 1)
			ip, err := res.Interpolate(e.ID, f, 0)
			if err != nil {
				c.Failf("%v of %v element: %v", f, e.Kind, err)
			}
			if len(ip.Piecewise) != 0 {
				c.Failf("%v of %v element is %v, expected none", f, e.Kind, ip.Piecewise)
			}
		}
	}

	total, net := res.Dimension()
	if total != len(dofs) {
		c.Failf("dimension is %v, there are %v connected dofs", total, len(dofs))
	}
	if want := len(dofs) - len(s.Dir) - len(s.Links); net != want {
		c.Failf("net dimension is %v, there are %v free dofs", net, want)
	}
	single := map[deflect.Index][2]float64{}
	for _, k := range r.Perm(len(dofs)) {
		i := s.index(dofs[k])
		noise()
		u, err := res.Primary(i)
		if err != nil {
			c.Failf("primary value %v: %v", i, err)
		}
		noise()
		f, err := res.Reaction(i)
		if err != nil {
			c.Failf("reaction %v: %v", i, err)
		}
		if u.Index != i || f.Index != i {
			c.Failf("asked for %v, got %v and %v", i, u.Index, f.Index)
		}
		single[i] = [2]float64{u.Value, f.Value}
	}
	for rep := 0; rep < 2; rep++ {
		for k, list := range [][]deflect.NodalValue{res.PrimaryAll(), res.ReactionAll()} {
			what := []string{"primary values", "reactions"}[k]
			c.Count("lists_checked", 1)
			seen := map[deflect.Index]bool{}
			for _, v := range list {
				want, ok := single[v.Index]
				if !ok {
					c.Failf("%v contain %v, which isn't connected", what, v.Index)
				} else if v.Value != want[k] {
					c.Failf("%v: %v is %v in the list, %v otherwise", what, v.Index, v.Value, want[k])
				}
				if seen[v.Index] {
					c.Failf("%v contain %v twice", what, v.Index)
				}
				seen[v.Index] = true
			}
			if len(list) != len(dofs) {
				c.Failf("%d %v for %d dofs", len(list), what, len(dofs))
			}
			noise()
		}
	}

	tol := math.Pow(10, r.in(-13, 7))
	if r.p(0.1) {
		tol = 0
	}
	type key struct {
		elem string
		f    deflect.Fct
	}
	expected := map[key]bool{}
	byKey := map[key]deflect.PolySequence{}
	for i := range s.Elems {
		e := &s.Elems[i]
		for _, f := range s.quantities(e) {
			expected[key{e.ID, f}] = true
			noise()
			raw := sol.poly(i, f)
			ip, err := res.Interpolate(e.ID, f, tol)
			if err != nil {
				c.Failf("interpolate %v of %v: %v", f, e.ID, err)
				continue
			}
			if ip.Element != e.ID || ip.Quantity != f {
				c.Failf("asked for %v of %v, got %v of %v", f, e.ID, ip.Quantity, ip.Element)
			}
			byKey[key{e.ID, f}] = ip.Piecewise
			c.checkSimplified(fmt.Sprintf("%v of %v with tolerance %v", f, e.ID, tol), raw, seq(ip.Piecewise), tol)
			l := s.length(e)
			if tol < 1e-3*l {
				c.checkEval(fmt.Sprintf("%v of %v", f, e.ID), ip.Piecewise, l)
			}
		}
	}
	for _, ip := range res.InterpolateAll(tol) {
		k := key{ip.Element, ip.Quantity}
		if !expected[k] {
			c.Failf("unexpected (or repeated) interpolation of %v on %v", k.f, k.elem)
			continue
		}
		delete(expected, k)
		one := byKey[k]
		if len(one) != len(ip.Piecewise) {
			c.Failf("%v of %v: %d pieces in the list, %d otherwise", k.f, k.elem, len(ip.Piecewise), len(one))
			continue
		}
		for i := range one {
			if !sameSlice(one[i].Coeff, ip.Piecewise[i].Coeff) || one[i].X0 != ip.Piecewise[i].X0 || one[i].XE != ip.Piecewise[i].XE {
				c.Failf("%v of %v: %v in the list, %v otherwise", k.f, k.elem, ip.Piecewise[i], one[i])
			}
		}
	}
	for k := range expected {
		c.Failf("%v of %v is missing in the list of all interpolations", k.f, k.elem)
		break
	}
	_ = ref
}

// edit queries results and does with them what users may do with their own slices: sort, convert,
// trim and merge.
func edit(r *rng, res deflect.ProblemResult, s *Spec) {
	edited := func(ip deflect.Interpolation) {
		ip.Piecewise.TrimTrailingZeros(pick(r, 1e-9, 1, 1e6, 1e300))
		ip.Piecewise.CompactIdentical(pick(r, 0, 1e-9, 1, 1e6))
		for i := range ip.Piecewise {
			p := &ip.Piecewise[i]
			p.X0, p.XE = p.X0*1000, p.XE*1000
			for j := range p.Coeff {
				p.Coeff[j] *= -2.5
			}
		}
	}
	switch r.Intn(4) {
	case 0, 1:
		list := res.PrimaryAll()
		if r.p(0.5) {
			list = res.ReactionAll()
		}
		slices.SortFunc(list, func(a, b deflect.NodalValue) int { return cmp.Compare(a.Value, b.Value) })
		for i := range list {
			list[i].Value *= 1000
		}
	case 2:
		for _, ip := range res.InterpolateAll(pick(r, 0, 1e-9, 1e3)) {
			edited(ip)
		}
	case 3:
		e := &s.Elems[r.Intn(len(s.Elems))]
		if ip, err := res.Interpolate(e.ID, pick(r, s.quantities(e)...), pick(r, 0, 1e-9, 1e3)); err == nil {
			edited(ip)
		}
	}
}

func (c *Case) checkSimplified(what string, raw, got seq, tol float64) {
	want, ok := simplify(raw, tol)
	if !ok {
		c.Count("close_calls_skipped", 1)
		return
	}
	c.Count("interpolations_with_tolerance", 1)
	if len(want) < len(raw) {
		c.Count("merged_pieces", len(raw)-len(want))
	}
	for i := range raw {
		zero, _ := unambiguousZero(raw[i].Coeff[len(raw[i].Coeff)-1], tol)
		if len(raw[i].Coeff) > 1 && zero {
			c.Count("trimmed_coefficients", 1)
		}
	}
	if len(want) != len(got) {
		c.Failf("%v: %d pieces %v, expected %d: %v", what, len(got), got, len(want), want)
		return
	}
	for i := range want {
		a, b := want[i], got[i]
		if math.Abs(a.X0-b.X0) > 1e-9*math.Max(1, math.Abs(a.X0)) || math.Abs(a.XE-b.XE) > 1e-9*math.Max(1, math.Abs(a.XE)) {
			c.Failf("%v: piece %d spans %v to %v, expected %v to %v", what, i, b.X0, b.XE, a.X0, a.XE)
		}
		if len(a.Coeff) != len(b.Coeff) {
			c.Failf("%v: piece %d has coefficients %v, expected %v", what, i, b.Coeff, a.Coeff)
			continue
		}
		for k := range a.Coeff {
			if d := math.Abs(a.Coeff[k] - b.Coeff[k]); d > 0.2*tol*math.Max(1, math.Abs(a.Coeff[k])) {
				c.Failf("%v: coefficient %d of piece %d is %v, expected %v", what, k, i, b.Coeff[k], a.Coeff[k])
			}
		}
	}
}

// checkEval compares evaluations with those of the coefficients, and expects errors outside.
func (c *Case) checkEval(what string, ps deflect.PolySequence, l float64) {
	r := c.R
	for i := range ps {
		p := &ps[i]
		if p.Degree() != len(p.Coeff)-1 {
			c.Failf("%v: degree %v of %v", what, p.Degree(), p.Coeff)
		}
		for _, x := range []float64{p.X0, p.XE, p.X0 + r.Float64()*(p.XE-p.X0)} {
			y, err := p.Eval(x)
			if err != nil {
				c.Failf("%v: evaluation at %v in [%v, %v]: %v", what, x, p.X0, p.XE, err)
				continue
			}
			c.Near(y, evalPiece(*p, x), 1e-14*magPiece(*p, x)*float64(len(p.Coeff))+1e-290, "%v: evaluation of %v at %v", what, p.Coeff, x)
		}
		for _, x := range []float64{p.X0 - 1e-6 - r.Float64()*l, p.XE + 1e-6 + r.Float64()*l} {
			if y, err := p.Eval(x); err == nil {
				c.Failf("%v: evaluation at %v outside of [%v, %v] returns %v", what, x, p.X0, p.XE, y)
			}
		}
	}
}
