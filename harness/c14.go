package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/lubgr/deflect/deflect"
)

func init() {
	register(&Check{
		ID:    "C14",
		Quick: 150000, Thorough: 400000,
		Rule:     "random structures made unsolvable (supports missing, floating parts, too many hinges, unbraced or collinear trusses, everything or nothing supported) where the reference model confirms that there's no unique solution; supports given twice, or supports and loads at degrees of freedom that don't exist, of otherwise solvable structures; distinct by input",
		Run:      runC14,
		Required: []string{"reported_as_error", "contradictions_reported"},
		Known:    knownC14,
	})
}

// unsolvable derives a structure without unique solution from a random one; what says how.
func unsolvable(r *rng) (s *Spec, what string) {
	for attempt := 0; attempt < 2000; attempt++ {
		s, what = unsolvableOnce(r)
		if s == nil {
			continue
		}
		ref, ok := s.Solve()
		if ref == nil {
			continue
		}
		if !ok && (ref.kappa == 0 || ref.kappa > 1e22) && s.detectable() {
			return s, what
		}
	}
	panic("no unsolvable structure found")
}

// detectable is false if there's a direction of a node that isn't supported and has (almost) no
// stiffness because contributions of its elements cancel, or if the unknowns within a hinged element
// aren't determined. Whether such a structure is found to be unsolvable depends on rounding: what
// remains of the stiffness can be any small positive number (see known_findings.txt).
func (s *Spec) detectable() bool {
	type block struct {
		k    [4][4]float64 // Ux, Uz, Uy, Phiy
		max  [4]float64
		none bool
	}
	blocks := make([]block, len(s.Nodes))
	exact := make([]bool, len(s.Nodes)) // nodes at which a zero is exactly zero
	noisy := make([]float64, len(s.Nodes))
	for i := range exact {
		exact[i] = true
		noisy[i] = 1e-3
	}
	for i := range s.Elems {
		e := &s.Elems[i]
		l := s.length(e)
		k := beamStiffness(s.ea(e), s.ei(e), l)
		free := map[int]bool{}
		for _, h := range e.Hinges {
			p := 3*h.End + map[deflect.Dof]int{deflect.Ux: 0, deflect.Uz: 1, deflect.Phiy: 2}[h.Dof]
			if !s.isFrame(e) && h.Dof != deflect.Ux {
				continue
			}
			free[p] = true
		}
		full := make([]float64, 6)
		for p := range full {
			full[p] = k[p][p]
		}
		for p := range free {
			if k[p][p] <= 1e-9*full[p] {
				return false
			}
			for a := 0; a < 6; a++ {
				for b := 0; b < 6; b++ {
					if a != p && b != p {
						k[a][b] -= k[a][p] * k[p][b] / k[p][p]
					}
				}
			}
			for a := 0; a < 6; a++ {
				k[a][p], k[p][a] = 0, 0
			}
		}
		cx, cy, cz := s.dirs(e)
		for end, node := range []int{e.N0, e.N1} {
			b := &blocks[node]
			if len(e.Hinges) > 0 {
				noisy[node] = 0.05
			}
			if s.isFrame(e) || len(e.Hinges) > 0 || cx*cy != 0 || cy*cz != 0 || cx*cz != 0 {
				exact[node] = false
			}
			t := [3][4]float64{{cx, cz, cy, 0}, {cz, -cx, 0, 0}, {0, 0, 0, -1}}
			n := 3
			if !s.isFrame(e) {
				n = 1
			}
			for p := 0; p < n; p++ {
				for q := 0; q < n; q++ {
					for x := 0; x < 4; x++ {
						for y := 0; y < 4; y++ {
							b.k[x][y] += t[p][x] * k[3*end+p][3*end+q] * t[q][y]
						}
					}
				}
			}
			for x := 0; x < 3; x++ {
				b.max[x] = math.Max(b.max[x], full[3*end])
			}
			if n == 3 {
				b.max[3] = math.Max(b.max[3], full[3*end+2])
			}
		}
	}
	fixed := map[nd]bool{}
	for _, d := range s.Dir {
		fixed[nd{d.Node, d.Dof}] = true
	}
	linked := map[int]bool{}
	for _, l := range s.Links {
		linked[l.Node] = true
		noisy[l.Node] = 0.05
		fixed[nd{l.Node, l.To}] = true
	}
	axes := s.rotatedAxes()
	num := map[deflect.Dof]int{deflect.Ux: 0, deflect.Uz: 1, deflect.Uy: 2, deflect.Phiy: 3}
	for _, x := range s.nodeDofs() {
		if fixed[x] {
			continue
		}
		b := &blocks[x.node]
		a := [4]float64{}
		a[num[x.dof]] = 1
		if m, ok := axes[x.node]; ok && x.dof != deflect.Phiy {
			a = [4]float64{}
			for d, v := range m[x.dof] {
				a[num[d]] = v
			}
		}
		v := 0.0
		for p := range a {
			for q := range a {
				v += a[p] * b.k[p][q] * a[q]
			}
		}
		if v < noisy[x.node]*b.max[num[x.dof]] && !(v == 0 && exact[x.node] && !linked[x.node]) {
			return false
		}
	}
	return true
}

func unsolvableOnce(r *rng) (*Spec, string) {
	s, _ := Gen(r, GenOpts{NoLinks: r.p(0.6), KappaMax: 1e5, MaxNodes: r.sometimesAny(9)})
	switch r.Intn(8) {
	case 0: // Remove supports one by one
		for len(s.Dir)+len(s.Links) > 1 {
			if len(s.Links) > 0 && r.p(0.3) {
				s.Links = s.Links[1:]
			} else if len(s.Dir) > 0 {
				s.Dir = s.Dir[1:]
			}
			if ref, ok := s.Solve(); !ok && ref != nil {
				return s, "supports removed"
			}
		}
	case 1: // A floating part that isn't connected or supported
		n := len(s.Nodes)
		s.Nodes = append(s.Nodes, NodeS{ID: "float1", X: 31, Z: 7, Y: s.Nodes[0].Y}, NodeS{ID: "float2", X: 33.3, Z: 8, Y: s.Nodes[0].Y})
		kind := pick(r, "frame2d", "truss2d")
		s.Elems = append(s.Elems, ElemS{ID: "floating", Kind: kind, N0: n, N1: n + 1})
		return s, "floating part"
	case 2: // Hinges
		for k := 0; k < 30; k++ {
			e := &s.Elems[r.Intn(len(s.Elems))]
			if len(e.Hinges) == 0 {
				s.addHinges(r, e)
			}
			if ref, ok := s.Solve(); !ok && ref != nil {
				return s, "hinges"
			}
		}
	case 3: // A bar that is attached to a single point, with nothing to hold its other end
		n := len(s.Nodes)
		a := r.Intn(n)
		s.Nodes = append(s.Nodes, NodeS{ID: "dangling", X: s.Nodes[a].X + r.in(-3, 3), Z: s.Nodes[a].Z + r.in(-3, 3), Y: s.Nodes[a].Y})
		s.Elems = append(s.Elems, ElemS{ID: "dangler", Kind: "truss2d", N0: a, N1: n})
		return s, "dangling bar"
	case 4: // Collinear truss
		t := &Spec{Note: "collinear truss", Mats: s.Mats, CSs: s.CSs}
		m := 2 + r.Intn(6)
		alpha := r.angleValue()
		x := 0.0
		for i := 0; i <= m; i++ {
			t.Nodes = append(t.Nodes, NodeS{ID: fmt.Sprint("n", i), X: x * math.Cos(alpha), Z: x * math.Sin(alpha)})
			x += pick(r, 1, 1.3, r.in(0.5, 3))
			if i > 0 {
				t.Elems = append(t.Elems, ElemS{ID: fmt.Sprint("e", i), Kind: "truss2d", N0: i - 1, N1: i, Mat: r.Intn(len(t.Mats)), CS: r.Intn(len(t.CSs))})
			}
		}
		for _, n := range []int{0, m} {
			t.Dir = append(t.Dir, BCS{n, deflect.Ux, 0}, BCS{n, deflect.Uz, 0})
		}
		t.Neu = append(t.Neu, BCS{1, pick(r, deflect.Ux, deflect.Uz), r.magnitude()})
		return t, "collinear truss"
	case 5: // Unbraced rectangle
		t := &Spec{Note: "unbraced rectangle", Mats: s.Mats, CSs: s.CSs}
		alpha := r.angleValue()
		w, h := r.in(0.5, 5), r.in(0.5, 5)
		for i, c := range [][2]float64{{0, 0}, {0, h}, {w, h}, {w, 0}} {
			t.Nodes = append(t.Nodes, NodeS{ID: fmt.Sprint("n", i), X: c[0]*math.Cos(alpha) - c[1]*math.Sin(alpha), Z: c[0]*math.Sin(alpha) + c[1]*math.Cos(alpha)})
		}
		for i := 0; i < 3; i++ {
			t.Elems = append(t.Elems, ElemS{ID: fmt.Sprint("e", i), Kind: "truss2d", N0: i, N1: i + 1, Mat: r.Intn(len(t.Mats)), CS: r.Intn(len(t.CSs))})
		}
		for _, n := range []int{0, 3} {
			t.Dir = append(t.Dir, BCS{n, deflect.Ux, 0}, BCS{n, deflect.Uz, 0})
		}
		t.Neu = append(t.Neu, BCS{1, pick(r, deflect.Ux, deflect.Uz), r.magnitude()})
		return t, "unbraced rectangle"
	case 6: // Nothing supported
		s.Dir, s.Links = nil, nil
		return s, "no supports"
	case 7: // Everything supported
		s.Dir, s.Links = nil, nil
		for _, d := range s.nodeDofs() {
			s.Dir = append(s.Dir, BCS{d.node, d.dof, 0})
		}
		return s, "everything supported"
	}
	return nil, ""
}

// contradictory adds supports or loads that are given twice, or where there's nothing.
func contradictory(c *Case) {
	r := c.R
	s, _ := Gen(r, GenOpts{MaxNodes: r.sometimesAny(pick(r, 9, 9, 9, 25))})
	b, err := s.Build()
	if err != nil {
		c.Failf("build: %v", err)
		return
	}
	p := b.P
	where := func(bad bool) deflect.Index {
		if !bad {
			x := pick(r, s.nodeDofs()...)
			return deflect.Index{NodalID: s.Nodes[x.node].ID, Dof: x.dof}
		}
		has := map[deflect.Index]bool{}
		for _, x := range s.nodeDofs() {
			has[deflect.Index{NodalID: s.Nodes[x.node].ID, Dof: x.dof}] = true
		}
		for {
			id := pick(r, "nowhere", "", "A ", pick(r, s.Nodes...).ID, pick(r, s.Nodes...).ID)
			i := deflect.Index{NodalID: id, Dof: pick(r, deflect.Ux, deflect.Uy, deflect.Uz, deflect.Phix, deflect.Phiy, deflect.Phiz)}
			if !has[i] {
				return i
			}
		}
	}
	if r.p(0.2) {
		// Nearly everything is supported
		fixed := map[deflect.Index]bool{}
		for _, d := range p.Dirichlet {
			fixed[d.Index] = true
		}
		free := pick(r, s.nodeDofs()...)
		for _, x := range s.nodeDofs() {
			i := deflect.Index{NodalID: s.Nodes[x.node].ID, Dof: x.dof}
			if x != free && !fixed[i] && r.p(0.95) {
				p.Dirichlet = append(p.Dirichlet, deflect.NodalValue{Index: i, Value: pick(r, 0, 0, 0.01)})
			}
		}
		c.Count("heavily_supported", 1)
	}
	what := ""
	switch r.Intn(5) {
	case 0, 1:
		what = "duplicate support"
		for k := 1 + r.Intn(2); k > 0; k-- {
			d := pick(r, p.Dirichlet...)
			if r.p(0.4) {
				d.Value = pick(r, 0, 0.01, -d.Value, 2*d.Value)
			}
			p.Dirichlet = append(p.Dirichlet, d)
		}
	case 2:
		what = "support of nothing"
		p.Dirichlet = append(p.Dirichlet, deflect.NodalValue{Index: where(true), Value: pick(r, 0, 0, 0.01)})
	case 3:
		what = "load on nothing"
		p.Neumann = append(p.Neumann, deflect.NodalValue{Index: where(true), Value: pick(r, 0, 1000, -1.0)})
	default:
		what = "inclined support of nothing"
		badFrom := r.p(0.5)
		from, to := where(badFrom), where(!badFrom)
		if !badFrom {
			from.NodalID = pick(r, s.Nodes...).ID
		}
		tr, bc := deflect.NewInclinedSupport(from, to, r.angleValue())
		p.EqTransforms = append(p.EqTransforms, tr)
		for _, d := range p.Dirichlet {
			if d.Index == bc.Index {
				what = "" // a duplicate anyway
			}
		}
		p.Dirichlet = append(p.Dirichlet, bc)
	}
	if r.p(0.6) {
		r.Shuffle(len(p.Dirichlet), func(i, j int) { p.Dirichlet[i], p.Dirichlet[j] = p.Dirichlet[j], p.Dirichlet[i] })
	}
	c.Spec(s)
	c.Spec([]byte(fmt.Sprint(what, p.Dirichlet, p.Neumann, len(p.EqTransforms))))
	c.sample = map[string]any{"case": c.I, "what": what, "structure": s, "supports": fmt.Sprint(p.Dirichlet), "loads": fmt.Sprint(p.Neumann)}
	c.Count("contradictory: "+what, 1)
	if _, _, err := solveProblem(p); err == nil {
		c.Failf("%s: no error", what)
		return
	}
	c.Count("contradictions_reported", 1)
}

func runC14(c *Case) {
	if c.I%4 == 3 {
		contradictory(c)
		return
	}
	s, what := unsolvable(c.R)
	c.Spec(s)
	c.Count("case: "+what, 1)
	var err error
	var sol *Sol
	if c.R.p(0.3) {
		sol, err = s.SolveJSON(uint(c.R.Intn(64)))
	} else {
		sol, err = s.SolveAPI()
	}
	if err == nil {
		worst := 0.0
		for _, x := range s.nodeDofs() {
			worst = math.Max(worst, math.Abs(sol.U(x)))
		}
		c.Failf("%s: no error, but results with displacements up to %v", what, worst)
		return
	}
	c.Count("reported_as_error", 1)
}

// knownC14 solves the inputs listed in known_findings.txt as "known: property=C14 input=<file> …".
func knownC14(verif string) (out []string) {
	f, err := os.Open(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	for sc := bufio.NewScanner(f); sc.Scan(); {
		words := strings.Fields(sc.Text())
		if len(words) < 3 || words[0] != "known:" || words[1] != "property=C14" {
			continue
		}
		file := strings.TrimPrefix(words[2], "input=")
		b, err := os.ReadFile(filepath.Join(verif, file))
		if err != nil {
			continue
		}
		s := &Spec{}
		if json.Unmarshal(b, s) != nil {
			continue
		}
		if _, err := s.SolveAPI(); err == nil {
			out = append(out, file+" "+strings.Join(words[3:], " "))
		}
	}
	return out
}
