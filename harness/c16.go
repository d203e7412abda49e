package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/lubgr/deflect/deflect"
)

// Hostile input: no panic, no hang, and an orderly end (error or finite results) for whatever is fed in.

func init() {
	register(&Check{
		ID: "C16", Quick: 400000, Thorough: 2000000, Run: runC16,
		Rule:     "valid documents with up to ten random changes to their syntax tree and bytes, documents made of random tokens, and problems from API calls with arbitrary numbers, IDs, hinges, loads, boundary conditions and queries; the whole pipeline is run as far as it gets; distinct by input",
		Required: []string{"documents_refused", "documents_solved", "documents_solved_unsuccessfully", "api_problems_solved", "api_problems_refused", "random_token_documents", "queries"},
		Logs:     true,
	})
}

var words = []string{"nodes", "material", "crosssection", "elements", "dirichlet", "links", "neumann", "kind", "parameter",
	"E", "nu", "rho", "b", "h", "roll", "A", "Iyy", "Izz", "Ixx", "rectangle", "constants", "linelast", "truss2d", "truss3d", "frame2d", "frame3d",
	"cs", "hinges", "Ux", "Uz", "Uy", "Phiy", "Phiz", "Phix", "Fx", "Fz", "Fy", "My", "Mz", "Mx", "qx", "qz", "qy", "my", "mz", "mx",
	"dirac", "constant", "linear", "degree", "values", "position", "from", "to", "angle", "Nodal", "Element", "", "A", "B", "AB", "BA", "é", "\x00", "name", "expected"}

var numbers = []string{"0", "-0", "1", "-1", "2", "0.5", "1e-12", "1e12", "-1e12", "1e-300", "1e300", "-1e308", "1.7e308", "5e-324", "1e400", "-1e400", "0.1", "3.141592653589793", "1e16", "1e-10", "1e-11", "9007199254740993", "100", "-0.1"}

func (r *rng) junk(depth int) any {
	n := 9
	if depth <= 0 {
		n = 6
	}
	switch r.Intn(n) {
	case 0:
		return nil
	case 1:
		return r.p(0.5)
	case 2:
		return pick(r, words...)
	case 3, 4:
		return json.Number(pick(r, numbers...))
	case 5:
		return r.magnitude()
	case 6, 7:
		l := []any{}
		for i, m := 0, r.Intn(4); i < m; i++ {
			l = append(l, r.junk(depth-1))
		}
		return l
	}
	o := obj{}
	for i, m := 0, r.Intn(4); i < m; i++ {
		o[pick(r, words...)] = r.junk(depth - 1)
	}
	return o
}

// A place is a value inside of a syntax tree.
type place struct {
	get func() any
	set func(any)
	del func()
	ren func(string)
}

func places(v any, out *[]place) {
	switch x := v.(type) {
	case obj:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			*out = append(*out, place{
				get: func() any { return x[k] },
				set: func(y any) { x[k] = y },
				del: func() { delete(x, k) },
				ren: func(to string) { x[to] = x[k]; delete(x, k) },
			})
			places(x[k], out)
		}
	case []any:
		for i := range x {
			*out = append(*out, place{
				get: func() any { return x[i] },
				set: func(y any) { x[i] = y },
				del: func() { x[i] = nil },
				ren: func(string) {},
			})
			places(x[i], out)
		}
	}
}

func copyOf(v any) any {
	switch x := v.(type) {
	case obj:
		o := obj{}
		for k, y := range x {
			o[k] = copyOf(y)
		}
		return o
	case []any:
		l := make([]any, len(x))
		for i, y := range x {
			l[i] = copyOf(y)
		}
		return l
	}
	return v
}

func mutateTree(r *rng, root any) {
	numbersOnly := r.p(0.4)
	for k, m := 0, pick(r, 1, 1, 1, 2, 2, 3, 5, 10); k < m; k++ {
		var ps []place
		places(root, &ps)
		if len(ps) == 0 {
			return
		}
		a := ps[r.Intn(len(ps))]
		if numbersOnly {
			for t := 0; t < 50; t++ {
				if _, ok := a.get().(json.Number); ok {
					break
				}
				a = ps[r.Intn(len(ps))]
			}
			if x, ok := a.get().(json.Number); ok {
				f, _ := x.Float64()
				switch r.Intn(4) {
				case 0:
					a.set(json.Number(pick(r, numbers...)))
				case 1:
					if !math.IsInf(f, 0) {
						a.set(json.Number(num(-f)))
					}
				case 2:
					f *= math.Pow(10, float64(r.Intn(25)-12))
					if !math.IsInf(f, 0) {
						a.set(json.Number(num(f)))
					}
				default:
					b := ps[r.Intn(len(ps))]
					if y, ok := b.get().(json.Number); ok {
						a.set(y)
					}
				}
			}
			continue
		}
		if r.p(0.6) {
			// Prefer leaves
			for t := 0; t < 5; t++ {
				switch a.get().(type) {
				case obj, []any:
					a = ps[r.Intn(len(ps))]
				}
			}
		}
		switch r.Intn(8) {
		case 0:
			a.set(r.junk(2))
		case 1:
			a.del()
		case 2:
			a.ren(pick(r, words...))
		case 3, 4:
			b := ps[r.Intn(len(ps))]
			a.set(copyOf(b.get()))
		case 5, 6:
			switch x := a.get().(type) {
			case json.Number:
				switch r.Intn(3) {
				case 0:
					a.set(json.Number(pick(r, numbers...)))
				case 1:
					f, _ := x.Float64()
					if !math.IsInf(f, 0) {
						a.set(json.Number(num(-f)))
					}
				default:
					f, _ := x.Float64()
					f *= math.Pow(10, float64(r.Intn(25)-12))
					if !math.IsInf(f, 0) {
						a.set(json.Number(num(f)))
					}
				}
			case string:
				a.set(pick(r, words...))
			case []any:
				if len(x) > 0 && r.p(0.5) {
					a.set(x[:len(x)-1])
				} else if len(x) > 0 {
					a.set(append(append([]any{}, x...), copyOf(x[r.Intn(len(x))])))
				}
			case obj:
				x[pick(r, words...)] = r.junk(2)
			}
		case 7:
			if l, ok := a.get().([]any); ok {
				a.set([]any{l})
			} else {
				a.set([]any{a.get()})
			}
		}
	}
}

func mutateBytes(r *rng, b []byte) []byte {
	for k, m := 0, 1+r.Intn(4); k < m && len(b) > 0; k++ {
		i := r.Intn(len(b))
		switch r.Intn(6) {
		case 0:
			b[i] ^= byte(1 << r.Intn(8))
		case 1:
			b = append(b[:i:i], b[i+1:]...)
		case 2:
			b = append(append(append([]byte{}, b[:i]...), []byte(pick(r, numbers...))...), b[i:]...)
		case 3:
			b = b[:i]
		case 4:
			j := i + r.Intn(len(b)-i)
			b = append(append(append([]byte{}, b[:j]...), b[i:j]...), b[j:]...)
		case 5:
			b = append(append(append([]byte{}, b[:i]...), pick(r, "{", "}", "[", "]", ",", ":", "\"", "null", "\\u0000", "\xff")...), b[i:]...)
		}
	}
	return b
}

func randomTokens(r *rng) []byte {
	var b strings.Builder
	for i, m := 0, r.Intn(120); i < m; i++ {
		switch r.Intn(5) {
		case 0:
			b.WriteString(q(pick(r, words...)))
		case 1:
			b.WriteString(pick(r, numbers...))
		default:
			b.WriteString(pick(r, "{", "}", "[", "]", ",", ":", ",", ":", "null", "true"))
		}
	}
	return []byte(b.String())
}

// moderate tells if all numbers are within a range that leaves enough room for products of them.
func moderate(data []byte) bool {
	dec := json.NewDecoder(bytes.NewReader(data))
	dec.UseNumber()
	for {
		t, err := dec.Token()
		if err != nil {
			return true
		}
		if n, ok := t.(json.Number); ok {
			f, err := n.Float64()
			if err != nil || math.Abs(f) > 1e12 || (f != 0 && math.Abs(f) < 1e-12) {
				return false
			}
		}
	}
}

// interrogate queries everything there is, and a lot that isn't.
func (c *Case) interrogate(res deflect.ProblemResult, ids []string, finite bool) {
	r := c.R
	check := func(v float64, what string) {
		if finite && (math.IsNaN(v) || math.IsInf(v, 0)) {
			c.Failf("%v is %v although there was no error and all numbers in the input are of moderate size", what, v)
		}
	}
	ps := func(p deflect.PolySequence, what string) {
		for i := range p {
			for _, x := range []float64{p[i].X0, p[i].XE, (p[i].X0 + p[i].XE) / 2} {
				y, err := p[i].Eval(x)
				if finite {
					if err != nil {
						c.Failf("%v can't be evaluated at %v: %v", what, x, err)
					}
					check(y, what)
				}
			}
			_, _ = p[i].Eval(pick(r, -1, 1e300, math.NaN(), math.Inf(1), p[i].XE*2))
			_ = p[i].Degree()
		}
		_ = p.IntervalIndex(pick(r, 0, 1, math.NaN()), pick(r, 0, 1, math.Inf(1)))
	}
	tols := []float64{0, 1e-10, 1e-3, 1e300, math.Inf(1), -1, math.NaN()}
	for k, m := 0, 6+r.Intn(10); k < m; k++ {
		c.Count("queries", 1)
		switch r.Intn(7) {
		case 0:
			for _, v := range res.PrimaryAll() {
				check(v.Value, fmt.Sprintf("primary value %v/%v", v.NodalID, v.Dof))
			}
		case 1:
			for _, v := range res.ReactionAll() {
				check(v.Value, fmt.Sprintf("reaction %v/%v", v.NodalID, v.Dof))
			}
		case 2:
			for _, ip := range res.InterpolateAll(pick(r, tols...)) {
				ps(ip.Piecewise, fmt.Sprintf("%v of %v", ip.Quantity, ip.Element))
			}
		case 3, 4:
			id := pick(r, append([]string{"", "?", "AB"}, ids...)...)
			f := deflect.Fct(r.Intn(16))
			if r.p(0.05) {
				f = 255
			}
			ip, err := res.Interpolate(id, f, pick(r, tols...))
			if err == nil {
				ps(ip.Piecewise, fmt.Sprintf("%v of %v", f, id))
			}
			_ = f.String()
		case 5:
			i := deflect.Index{NodalID: pick(r, words...), Dof: deflect.Dof(r.Intn(8))}
			_, _ = res.Primary(i)
			_, _ = res.Reaction(i)
			_ = i.Dof.String()
		case 6:
			res.Dimension()
		}
	}
}

func runC16(c *Case) {
	if c.I%4 == 3 {
		hostileAPI(c)
		return
	}
	r := c.R
	var doc []byte
	tokens := r.p(0.03)
	if tokens {
		doc = randomTokens(r)
		c.Count("random_token_documents", 1)
	} else {
		// Not necessarily solvable
		s := gen(r, GenOpts{MaxNodes: r.sometimesAny(6), PlainIDs: r.p(0.7)})
		for s == nil {
			s = gen(r, GenOpts{MaxNodes: 6})
		}
		for i := range s.Elems {
			if r.p(0.2) {
				s.addHinges(r, &s.Elems[i])
			}
		}
		dec := json.NewDecoder(bytes.NewReader(s.JSON(uint(r.Intn(64)))))
		dec.UseNumber()
		var root any
		if err := dec.Decode(&root); err != nil {
			panic(err)
		}
		if r.p(0.95) {
			mutateTree(r, root)
		}
		b, err := json.Marshal(root)
		if err != nil {
			// Numbers like 1e400 are fine for the encoder, so this isn't expected
			panic(err)
		}
		doc = b
		if r.p(0.15) {
			doc = mutateBytes(r, doc)
			c.Count("documents_with_changed_bytes", 1)
		}
	}
	c.Spec(doc)
	p, err := deflect.ProblemFromJSON(doc)
	if err != nil {
		c.Count("documents_refused", 1)
		return
	}
	c.Count("documents_accepted", 1)
	lay, err := deflect.NewEqLayout(&p)
	if err != nil {
		c.Count("documents_solved_unsuccessfully", 1)
		return
	}
	res, err := deflect.NewLinearProblemSolver().Solve(&p, lay, deflect.NewCholeskySolver())
	if err != nil {
		c.Count("documents_solved_unsuccessfully", 1)
		return
	}
	c.Count("documents_solved", 1)
	var ids []string
	for _, e := range p.Elements {
		ids = append(ids, e.ID())
	}
	fin := moderate(doc)
	if fin {
		c.Count("documents_solved_with_moderate_numbers", 1)
	}
	c.interrogate(res, ids, fin)
}

func (r *rng) wild() float64 {
	switch r.Intn(6) {
	case 0:
		return pick(r, 0, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, 5e-324, math.Copysign(0, -1))
	case 1:
		return r.sign() * math.Pow(10, r.in(-320, 308))
	}
	return r.in(-3, 3)
}

func hostileAPI(c *Case) {
	r := c.R
	var log []string
	c.spec = &log
	say := func(format string, a ...any) { log = append(log, fmt.Sprintf(format, a...)) }
	n := 1 + r.Intn(5)
	wildness := pick(r, 0, 0, 0.05, 0.3)
	num := func(usual float64) float64 {
		if r.p(wildness) {
			return r.wild()
		}
		return usual
	}
	p := &deflect.Problem{Nodes: make([]deflect.Node, n)}
	for i := range p.Nodes {
		p.Nodes[i] = deflect.Node{ID: pick(r, words...), X: num(r.in(-3, 3)), Y: num(0), Z: num(r.in(-3, 3))}
		say("%+v", p.Nodes[i])
	}
	node := func() *deflect.Node { return &p.Nodes[r.Intn(n)] }
	dof := func() deflect.Dof {
		if r.p(0.03) {
			return deflect.Dof(r.Intn(256))
		}
		return deflect.Dof(r.Intn(6))
	}
	var cs deflect.CrossSection
	var err error
	for cs == nil || err != nil {
		if r.p(0.5) {
			b, h, roll := num(0.1), num(0.2), num(0)
			say("rectangle %v %v %v", b, h, roll)
			cs, err = deflect.NewRectangularCrossSection(b, h, roll)
		} else {
			m := map[string]float64{"A": num(0.01), "Iyy": num(1e-4), "Izz": num(1e-4), "Ixx": num(0), "roll": num(0)}
			if r.p(0.1) {
				delete(m, pick(r, "A", "Iyy", "Izz", "Ixx"))
			}
			say("constants %v", m)
			cs, err = deflect.NewConstantsCrossSections(m)
		}
		if err != nil {
			c.Count("cross_sections_refused", 1)
			wildness /= 2
			if wildness < 0.01 {
				wildness = 0
			}
		}
	}
	mat := &deflect.Material{CrossSection: cs, LinearElastic: deflect.LinearElastic{YoungsModulus: num(1e10), PoissonsRatio: num(0.3), Density: num(1)}}
	var bcs []deflect.NeumannElementBC
	var ids []string
	for i, m := 0, r.Intn(6); i < m; i++ {
		id := pick(r, words...)
		a, b := node(), node()
		var hinges map[deflect.Index]struct{}
		if r.p(0.3) {
			hinges = map[deflect.Index]struct{}{}
			for k := r.Intn(4); k >= 0; k-- {
				hinges[deflect.Index{NodalID: pick(r, a.ID, b.ID, "?"), Dof: dof()}] = struct{}{}
			}
		}
		f := pick(r, deflect.NewTruss2d, deflect.NewTruss3d, deflect.NewFrame2d, deflect.NewFrame2d)
		e, err := f(id, a, b, mat, hinges)
		say("element %q %q %q hinges %v: %v", id, a.ID, b.ID, hinges, err)
		if err != nil {
			c.Count("elements_refused", 1)
			continue
		}
		ids = append(ids, id)
		for k := r.Intn(4); k > 0; k-- {
			var bc deflect.NeumannElementBC
			switch r.Intn(6) {
			case 0, 1:
				bc, err = deflect.NewElementConcentratedLoad(dof(), num(r.in(0, 2)), num(1))
				if err != nil {
					continue
				}
			case 2:
				bc = deflect.NewElementConstantLoad(dof(), num(1))
			case 3:
				bc = deflect.NewElementLinearLoad(dof(), num(1), num(-1))
			case 4:
				bc = pick[any](r, nil, 1, "load", []int{1}, map[string]int{}, struct{}{}, &struct{}{}, func() {})
			case 5:
				if len(bcs) > 0 {
					bc = pick(r, bcs...)
				}
			}
			ok := e.AddLoad(bc)
			say("load %T%+v: %v", bc, bc, ok)
			bcs = append(bcs, bc)
			if r.p(0.2) {
				e.RemoveLoad(pick(r, bcs...))
			}
		}
		p.Elements = append(p.Elements, e)
	}
	// Mostly valid supports
	used := map[deflect.Index]struct{}{}
	for _, e := range p.Elements {
		e.Indices(used)
	}
	all := make([]deflect.Index, 0, len(used))
	for i := range used {
		all = append(all, i)
	}
	sort.Slice(all, func(i, j int) bool {
		if all[i].NodalID != all[j].NodalID {
			return all[i].NodalID < all[j].NodalID
		}
		return all[i].Dof < all[j].Dof
	})
	index := func() deflect.Index {
		if len(all) > 0 && r.p(0.97) {
			return pick(r, all...)
		}
		return deflect.Index{NodalID: pick(r, words...), Dof: dof()}
	}
	density := r.Float64()
	for _, i := range all {
		if r.p(density) {
			p.Dirichlet = append(p.Dirichlet, deflect.NodalValue{Index: i, Value: num(pick(r, 0, 0, 0.01))})
		}
	}
	if r.p(0.1) {
		p.Dirichlet = append(p.Dirichlet, deflect.NodalValue{Index: index(), Value: num(0)})
	}
	for k := r.Intn(3); k > 0; k-- {
		p.Neumann = append(p.Neumann, deflect.NodalValue{Index: index(), Value: num(r.magnitude())})
	}
	if r.p(0.3) {
		from, to := index(), index()
		if r.p(0.8) {
			to.NodalID = from.NodalID
		}
		if from != to {
			t, bc := deflect.NewInclinedSupport(from, to, num(r.angleValue()))
			p.EqTransforms = append(p.EqTransforms, t)
			if r.p(0.9) {
				p.Dirichlet = append(p.Dirichlet, bc)
			}
			say("inclined %v %v", from, to)
		}
	}
	say("Dirichlet %v Neumann %v", p.Dirichlet, p.Neumann)
	c.Spec(log)
	c.sample = log
	lay, err := deflect.NewEqLayout(p)
	if err != nil && r.p(0.7) {
		c.Count("api_problems_refused", 1)
		return
	}
	// Otherwise, the error is ignored on purpose
	res, err := deflect.NewLinearProblemSolver().Solve(p, lay, deflect.NewCholeskySolver())
	if err != nil {
		c.Count("api_problems_refused", 1)
		return
	}
	c.Count("api_problems_solved", 1)
	c.interrogate(res, ids, false)
}
