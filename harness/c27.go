package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/google/go-jsonnet"
	"github.com/lubgr/deflect/deflect"
)

// The Jsonnet libraries to describe problems and expectations.

func init() {
	register(&Check{
		ID: "C27", Quick: 10000, Thorough: 50000, Run: runC27,
		Rule:     "random structures written with the functions of the Jsonnet library (all supports, inclined supports, nodal and element loads, materials, cross sections, elements with and without defaults): results against the problem created through the API; expectations written with the test library about the results must pass, with a deviation they must fail; distinct by document",
		Required: []string{"documents", "expectations", "deviating", "fn_Ux", "fn_Uy", "fn_Uz", "fn_Phiy", "fn_Fx", "fn_Fy", "fn_Fz", "fn_My", "fn_qx", "fn_qz", "fn_InclinedSupportUxUz", "fn_InclinedSupportUxUy", "fn_InclinedSupportUyUz", "fn_Rectangle", "fn_Generic", "fn_Truss2d", "fn_Truss3d", "fn_Frame2d", "fn_Constant", "fn_Linear", "fn_Quadratic", "fn_Cubic", "fn_Quartic", "fn_Quintic", "fn_Samples", "shapes", "extended_expectations"},
	})
}

// library is the directory of the Jsonnet files.
var library = sync.OnceValue(func() string {
	if dir := os.Getenv("VERIF_REPO"); dir != "" {
		return filepath.Join(dir, "integr")
	}
	return "/repo/integr"
})

var machines = sync.Pool{New: func() any {
	vm := jsonnet.MakeVM()
	vm.Importer(&jsonnet.FileImporter{JPaths: []string{library()}})
	return vm
}}

func evalJsonnet(src string) ([]byte, error) {
	vm := machines.Get().(*jsonnet.VM)
	defer machines.Put(vm)
	out, err := vm.EvaluateAnonymousSnippet("generated.jsonnet", src)
	return []byte(out), err
}

func (c *Case) fn(name string, args ...string) string {
	c.Count("fn_"+name, 1)
	return "bvp." + name + "(" + strings.Join(args, ", ") + ")"
}

func (c *Case) tfn(name string, args ...string) string {
	c.Count("fn_"+name, 1)
	return "test." + name + "(" + strings.Join(args, ", ") + ")"
}

// jsonnet writes the structure with library functions.
func (c *Case) jsonnet(s *Spec) string {
	r := c.R
	var b strings.Builder
	b.WriteString("local bvp = import 'bvp.libsonnet';\nlocal test = import 'test.libsonnet';\n{\n name: 'generated',\n nodes: {\n")
	for _, n := range s.Nodes {
		fmt.Fprintf(&b, "  %s: [%s, %s, %s],\n", q(n.ID), num(n.X), num(n.Y), num(n.Z))
	}
	b.WriteString(" },\n material: {}")
	for _, m := range s.Mats {
		b.WriteString(" + " + c.fn("LinElast", q(m.ID), "E="+num(m.E), "nu="+num(m.Nu), "rho="+num(m.Rho)))
	}
	b.WriteString(",\n crosssection: {}")
	for _, x := range s.CSs {
		roll := []string{}
		if r.p(0.3) {
			roll = append(roll, "roll="+num(pick(r, 0, r.in(0, 3))))
		}
		if x.Kind == "rectangle" {
			b.WriteString(" + " + c.fn("Rectangle", append([]string{q(x.ID), "b=" + num(x.B), "h=" + num(x.H)}, roll...)...))
		} else {
			b.WriteString(" + " + c.fn("Generic", append([]string{q(x.ID), "A=" + num(x.A), "Iyy=" + num(x.Iyy), "Izz=" + num(x.Izz)}, roll...)...))
		}
	}
	b.WriteString(",\n elements: {\n")
	neumann := map[string][]string{}
	var keys []string
	load := func(key, val string) {
		if neumann[key] == nil {
			keys = append(keys, key)
		}
		neumann[key] = append(neumann[key], val)
	}
	for i := range s.Elems {
		e := &s.Elems[i]
		n0, n1 := s.Nodes[e.N0].ID, s.Nodes[e.N1].ID
		var args []string
		if e.ID != n0+n1 || len([]rune(n0)) != 1 || len([]rune(n1)) != 1 || r.p(0.5) {
			args = append(args, "nodes=["+q(n0)+", "+q(n1)+"]")
		} else {
			c.Count("inferred_nodes", 1)
		}
		if len(e.Hinges) > 0 {
			h := [2][]string{}
			for _, x := range e.Hinges {
				h[x.End] = append(h[x.End], q(dofName(x.Dof)))
			}
			var hs []string
			for k, id := range []string{n0, n1} {
				if h[k] != nil {
					hs = append(hs, q(id)+": ["+strings.Join(h[k], ", ")+"]")
				}
			}
			args = append(args, "hinges={"+strings.Join(hs, ", ")+"}")
		}
		if len(s.Mats) > 1 || r.p(0.5) {
			args = append(args, "material="+q(s.Mats[e.Mat].ID))
		}
		if len(s.CSs) > 1 || r.p(0.5) {
			args = append(args, "cs="+q(s.CSs[e.CS].ID))
		}
		name := map[string]string{"frame2d": "Frame2d", "truss2d": "Truss2d", "truss3d": "Truss3d"}[e.Kind]
		fmt.Fprintf(&b, "  %s: %s,\n", q(e.ID), c.fn(name, args...))
		for j := range e.Loads {
			l := &e.Loads[j]
			switch l.Shape {
			case "dirac":
				load(e.ID, c.fn(forceName(l.Dof), num(l.V0), pick(r, "", "x=")+num(l.Pos)))
			case "constant":
				load(e.ID, c.fn(lineName(l.Dof), num(l.V0)))
			default:
				load(e.ID, c.fn(lineName(l.Dof), "["+num(l.V0)+", "+num(l.V1)+"]"))
			}
		}
	}
	b.WriteString(" },\n")
	for _, f := range s.Neu {
		load(s.Nodes[f.Node].ID, c.fn(forceName(f.Dof), num(f.Val)))
	}
	group := func(name string, keys []string, vals map[string][]string) {
		fmt.Fprintf(&b, " %s: {\n", name)
		for _, k := range keys {
			fmt.Fprintf(&b, "  %s: %s,\n", q(k), strings.Join(vals[k], " + "))
		}
		b.WriteString(" },\n")
	}
	group("neumann", keys, neumann)
	dir := map[string][]string{}
	keys = nil
	for _, d := range s.Dir {
		k := s.Nodes[d.Node].ID
		if dir[k] == nil {
			keys = append(keys, k)
		}
		if d.Val == 0 && r.p(0.7) {
			dir[k] = append(dir[k], c.fn(dofName(d.Dof)))
		} else {
			dir[k] = append(dir[k], c.fn(dofName(d.Dof), num(d.Val)))
		}
	}
	group("dirichlet", keys, dir)
	links := map[string][]string{}
	keys = nil
	for _, l := range s.Links {
		k := s.Nodes[l.Node].ID
		if links[k] == nil {
			keys = append(keys, k)
		}
		switch name := dofName(l.From) + dofName(l.To); name {
		case "UxUz", "UxUy", "UyUz":
			links[k] = append(links[k], c.fn("InclinedSupport"+name, num(l.Angle)))
		default:
			links[k] = append(links[k], fmt.Sprintf("[{ from: %s, to: %s, angle: %s }]", q(dofName(l.From)), q(dofName(l.To)), num(l.Angle)))
		}
	}
	group("links", keys, links)
	return b.String()
}

func runC27(c *Case) {
	r := c.R
	if r.p(0.1) {
		c.jsonnetShapes()
		return
	}
	s, ref := Gen(r, GenOpts{MaxNodes: r.sometimesAny(6), KappaMax: 1e6, PlainScale: true})
	for i := range s.CSs {
		s.CSs[i].Ixx = 0
	}
	src := c.jsonnet(s)
	sol, err := s.SolveAPI()
	if err != nil {
		c.Failf("%v", err)
		return
	}
	doc, err := evalJsonnet(src + "}")
	c.Spec([]byte(src))
	if err != nil {
		c.Failf("the library can't express the problem: %v", err)
		return
	}
	c.Count("documents", 1)
	p, err := deflect.ProblemFromJSON(doc)
	if err != nil {
		c.Failf("refused: %v, %s", err, doc)
		return
	}
	res, lay, err := solveProblem(&p)
	if err != nil {
		c.Failf("not solved: %v", err)
		return
	}
	got := &Sol{s: s, p: &p, lay: lay, res: res}
	c.sameAs("written with the library compared with API", got, ref, sol, ref, 0.5)

	// Expectations
	good, bad, ok := c.jsonnetExpected(got)
	if !ok {
		return
	}
	c.Count("expectations", 1)
	for _, x := range []struct {
		text string
		want bool
	}{{good, true}, {bad, false}} {
		doc, err := evalJsonnet(src + " expected: {\n" + x.text + "}}")
		if err != nil {
			c.Failf("the library can't express expectations: %v, %s", err, x.text)
			return
		}
		pass, err := evaluate(doc, res, nil)
		if err != nil || pass != x.want {
			c.Failf("expectations pass: %v (%v), should be %v: %s", pass, err, x.want, x.text)
		}
	}
	c.Count("deviating", 1)
}

// deviating is a value clearly different from v.
func (c *Case) deviating(v float64) float64 {
	if math.Abs(v) > 1e-4 && c.R.p(0.15) {
		return 0
	}
	return v + c.R.sign()*(1e-5+0.1*math.Abs(v))
}

// jsonnetExpected describes results with the test library. There are two versions, correct and wrong.
func (c *Case) jsonnetExpected(sol *Sol) (good, bad string, ok bool) {
	r := c.R
	s := sol.s
	type part struct{ section, key, good, bad string }
	var parts []part
	for _, x := range s.nodeDofs() {
		id := s.Nodes[x.node].ID
		off := c.deviating
		if r.p(0.4) {
			u := sol.U(x)
			n := dofName(x.dof)
			parts = append(parts, part{"primary", id, c.tfn(n, num(u)), c.tfn(n, num(off(u)))})
		}
		if r.p(0.4) {
			f := sol.R(x)
			n := forceName(x.dof)
			parts = append(parts, part{"reaction", id, c.tfn(n, num(f)), c.tfn(n, num(off(f)))})
		}
	}
	const tol = 1e-7
	for i := range s.Elems {
		e := &s.Elems[i]
		for _, f := range s.quantities(e) {
			if r.p(0.5) {
				continue
			}
			ip, err := sol.res.Interpolate(e.ID, f, tol)
			if err != nil {
				c.Failf("interpolate: %v", err)
				return
			}
			ps := ip.Piecewise
			p := ps[r.Intn(len(ps))]
			if p.XE-p.X0 < 0.01 {
				continue
			}
			at := func(x float64) float64 { return evalPiece(p, x) }
			off := c.deviating
			var rng []string
			if len(ps) > 1 || r.p(0.3) {
				rng = append(rng, "range=["+num(p.X0)+", "+num(p.XE)+"]")
			}
			kind := q(fctName(f))
			args := func(a ...string) []string { return append(append([]string{kind}, a...), rng...) }
			// extended adds values somewhere in between to what a function describes.
			extended := func(name string, vals ...string) {
				if r.p(0.6) {
					return
				}
				x := p.X0 + r.Float64()*(p.XE-p.X0)
				more := func(y float64) string {
					return fmt.Sprintf("[p + { eval: [[%s, %s], [%s, %s]] } for p in %s]", num(p.XE), num(at(p.XE)), num(x), num(y), c.tfn(name, args(vals...)...))
				}
				c.Count("extended_expectations", 1)
				parts = append(parts, part{"interpolation", e.ID, more(at(x)), more(off(at(x)))})
			}
			name := ""
			switch len(p.Coeff) - 1 {
			case 0:
				parts = append(parts, part{"interpolation", e.ID,
					c.tfn("Constant", args(num(at(p.X0)))...), c.tfn("Constant", args(num(off(at(p.X0))))...)})
				extended("Constant", num(at(p.X0)))
			case 1:
				a, b := at(p.X0), at(p.XE)
				wrong := []string{num(off(a)), num(b)}
				if r.p(0.5) {
					wrong = []string{num(a), num(off(b))}
				}
				parts = append(parts, part{"interpolation", e.ID,
					c.tfn("Linear", args(num(a), num(b))...), c.tfn("Linear", args(wrong...)...)})
				extended("Linear", num(a), num(b))
			default:
				name = []string{"", "", "Quadratic", "Cubic", "Quartic", "Quintic"}[len(p.Coeff)-1]
			}
			if name == "" {
				continue
			}
			var eval, wrong []string
			if r.p(0.5) {
				// Horner's scheme as a function
				expr := num(p.Coeff[len(p.Coeff)-1])
				for k := len(p.Coeff) - 2; k >= 0; k-- {
					expr = "(" + expr + ") * x + " + "(" + num(p.Coeff[k]) + ")"
				}
				n := fmt.Sprint(1 + r.Intn(4))
				samples := func(extra string) string {
					return "eval=" + c.tfn("Samples", "function(x) "+expr+extra, num(p.X0), num(p.XE), n)
				}
				m := math.Max(math.Max(math.Abs(at(p.X0)), math.Abs(at(p.XE))), math.Abs(at(p.X0+0.5*(p.XE-p.X0))))
				eval = []string{samples("")}
				wrong = []string{samples(" + " + num(1e-4+10*m))}
			} else {
				x := p.X0 + r.Float64()*(p.XE-p.X0)
				eval = []string{fmt.Sprintf("eval=[[%s, %s]]", num(x), num(at(x)))}
				wrong = []string{fmt.Sprintf("eval=[[%s, %s]]", num(x), num(off(at(x))))}
			}
			parts = append(parts, part{"interpolation", e.ID, c.tfn(name, args(eval...)...), c.tfn(name, args(wrong...)...)})
		}
	}
	if len(parts) == 0 {
		return "", "", false
	}
	write := func(broken int) string {
		sections := map[string]map[string][]string{}
		for i, p := range parts {
			if sections[p.section] == nil {
				sections[p.section] = map[string][]string{}
			}
			t := p.good
			if i == broken {
				t = p.bad
			}
			sections[p.section][p.key] = append(sections[p.section][p.key], t)
		}
		var b strings.Builder
		fmt.Fprintf(&b, " tolerance: { primary: 1e-7, reaction: 1e-7, polynomial: %v },\n", tol)
		for _, name := range []string{"primary", "reaction", "interpolation"} {
			fmt.Fprintf(&b, " %s: {\n", name)
			for k, v := range sections[name] {
				fmt.Fprintf(&b, "  %s: %s,\n", q(k), strings.Join(v, " + "))
			}
			b.WriteString(" },\n")
		}
		return b.String()
	}
	return write(-1), write(r.Intn(len(parts))), true
}

// essential leaves out what doesn't make a difference.
func essential(v any) any {
	switch v := v.(type) {
	case map[string]any:
		for k, x := range v {
			x = essential(x)
			l, isList := x.([]any)
			m, isMap := x.(map[string]any)
			if x == nil || isList && len(l) == 0 || isMap && len(m) == 0 || k == "roll" && x == 0.0 {
				delete(v, k)
			}
		}
	case []any:
		for i := range v {
			v[i] = essential(v[i])
		}
	}
	return v
}

// jsonnetShapes evaluates functions one by one, also those that no implemented element uses yet.
func (c *Case) jsonnetShapes() {
	r := c.R
	v, w, x := r.NormFloat64(), r.NormFloat64(), r.Float64()
	check := func(expr string, want any) {
		got, err := evalJsonnet("local bvp = import 'bvp.libsonnet'; local test = import 'test.libsonnet'; " + expr)
		if err != nil {
			c.Failf("%s: %v", expr, err)
			return
		}
		var g, e any
		b, err := json.Marshal(want)
		if err != nil {
			panic(err)
		}
		_ = json.Unmarshal(b, &e)
		if err := json.Unmarshal(got, &g); err != nil {
			c.Failf("%s: %v", expr, err)
		}
		gb, _ := json.Marshal(essential(g))
		eb, _ := json.Marshal(essential(e))
		if string(gb) != string(eb) {
			c.Failf("%s is %s, expected %s", expr, gb, eb)
		}
		c.Count("shapes", 1)
	}
	type m = map[string]any
	list := func(x ...any) []any { return x }
	for _, lib := range []string{"bvp", "test"} {
		for _, d := range []string{"Ux", "Uy", "Uz", "Phix", "Phiy", "Phiz"} {
			check(fmt.Sprintf("%s.%s(%s)", lib, d, num(v)), list(m{d: v}))
			check(fmt.Sprintf("%s.%s()", lib, d), list(m{d: 0}))
		}
		for _, f := range []string{"Fx", "Fy", "Fz", "Mx", "My", "Mz"} {
			check(fmt.Sprintf("%s.%s(%s)", lib, f, num(v)), list(m{f: v}))
			check(fmt.Sprintf("%s.%s(%s, %s)", lib, f, num(v), num(x)), list(m{"kind": f, "degree": "dirac", "values": list(v), "position": list(x)}))
			check(fmt.Sprintf("%s.%s(%s, x=0)", lib, f, num(v)), list(m{"kind": f, "degree": "dirac", "values": list(v), "position": list(0)}))
		}
	}
	for _, f := range []string{"qx", "qy", "qz", "mx", "my", "mz"} {
		check(fmt.Sprintf("bvp.%s(%s)", f, num(v)), list(m{"kind": f, "degree": "constant", "values": list(v)}))
		check(fmt.Sprintf("bvp.%s([%s, %s])", f, num(v), num(w)), list(m{"kind": f, "degree": "linear", "values": list(v, w)}))
	}
	for _, p := range [][2]string{{"Ux", "Uz"}, {"Ux", "Uy"}, {"Uy", "Uz"}} {
		check(fmt.Sprintf("bvp.InclinedSupport%s%s(%s)", p[0], p[1], num(v)), list(m{"from": p[0], "to": p[1], "angle": v}))
	}
	for _, roll := range []float64{0, x} {
		arg := pick(r, ", ", ", roll=") + num(roll)
		if roll == 0 && r.p(0.5) {
			arg = ""
		}
		param := m{"A": v, "Iyy": w, "Izz": x}
		rect := m{"b": v, "h": w}
		if roll != 0 {
			param["roll"], rect["roll"] = roll, roll
		}
		check(fmt.Sprintf("bvp.Generic('k', %s, %s, %s%s)", num(v), num(w), num(x), arg), m{"k": m{"kind": "constants", "parameter": param}})
		check(fmt.Sprintf("bvp.Rectangle('k', %s, %s%s)", num(v), num(w), arg), m{"k": m{"kind": "rectangle", "parameter": rect}})
	}
	check(fmt.Sprintf("bvp.LinElast('k', %s, %s, %s)", num(v), num(w), num(x)), m{"k": m{"kind": "linelast", "parameter": m{"E": v, "nu": w, "rho": x}}})
	for _, f := range []string{"Truss2d", "Truss3d", "Frame2d"} {
		want := m{"kind": strings.ToLower(f)}
		var args []string
		add := func(key, expr string, v any) {
			if r.p(0.6) {
				want[key] = v
				args = append(args, key+"="+expr)
			}
		}
		add("nodes", "['a', 'b']", list("a", "b"))
		add("hinges", "{a: ['Ux']}", m{"a": list("Ux")})
		add("material", "'steel'", "steel")
		add("cs", "'ipe'", "ipe")
		check(fmt.Sprintf("bvp.%s(%s)", f, strings.Join(args, ", ")), want)
	}
	fcts := []string{"Ux", "Uz", "Uy", "Phiy", "Phiz", "Phix", "Nx", "Vz", "Vy", "My", "Mz", "Mx"}
	for degree, f := range []string{"Constant", "Linear", "Quadratic", "Cubic", "Quartic", "Quintic"} {
		kind := pick(r, fcts...)
		want := m{"kind": kind, "degree": degree}
		args := []string{q(kind)}
		val := func(v float64) (string, float64) {
			v = pick(r, v, v, 0)
			return num(v), v
		}
		e0, v0 := val(v)
		e1, v1 := val(w)
		switch degree {
		case 0:
			args = append(args, e0)
			want["boundary"] = list(v0)
		case 1:
			args = append(args, e0, e1)
			want["boundary"] = list(v0, v1)
		default:
			switch r.Intn(3) {
			case 0:
				args = append(args, fmt.Sprintf("eval=[[%s, %s]]", num(x), e0))
				want["eval"] = list(list(x, v0))
			case 1:
				args = append(args, fmt.Sprintf("eval=[[0, %s], [%s, %s]]", e1, num(x), e0))
				want["eval"] = list(list(0, v1), list(x, v0))
			}
		}
		if r.p(0.6) {
			x0 := pick(r, 0, x)
			args = append(args, fmt.Sprintf("range=[%s, %s]", num(x0), num(x+1)))
			want["range"] = list(x0, x+1)
		}
		check(fmt.Sprintf("test.%s(%s)", f, strings.Join(args, ", ")), list(want))
		args[0] = q(pick(r, "Ny", "ux", "", "Phi", "Fx"))
		if got, err := evalJsonnet("local test = import 'test.libsonnet'; test." + f + "(" + strings.Join(args, ", ") + ")"); err == nil {
			c.Failf("test.%s for unknown quantity %s: %s", f, args[0], got)
		}
	}
	// Samples of a function, first and last position included
	n := 1 + r.Intn(12)
	x0, x1 := 3*r.NormFloat64(), 3*r.NormFloat64()
	got, err := evalJsonnet(fmt.Sprintf("local test = import 'test.libsonnet'; test.Samples(function(x) 2 * x + 1, %s, %s, %d)", num(x0), num(x1), n))
	var pts [][]float64
	if err == nil {
		err = json.Unmarshal(got, &pts)
	}
	if err != nil || len(pts) != n+1 {
		c.Failf("Samples from %v to %v, n = %v: %v, %s", x0, x1, n, err, got)
	}
	for i, p := range pts {
		at := x0 + float64(i)*(x1-x0)/float64(n)
		if len(p) != 2 || math.Abs(p[0]-at) > 1e-12 || math.Abs(p[1]-2*p[0]-1) > 1e-12 {
			c.Failf("Samples from %v to %v, n = %v: %v at index %v", x0, x1, n, p, i)
		}
	}
	c.Count("samples", 1)
	check("[std.abs(bvp.pi - 3.141592653589793) < 1e-15]", list(true))
	c.Spec([]byte(fmt.Sprint("shapes", v, w, x)))
}
