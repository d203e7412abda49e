package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/lubgr/deflect/deflect"
)

// A Spec is a complete, plain-data description of a boundary value problem. The same Spec is handed to
// the code under test (either through its Go API or as JSON) and to the independent reference model.
type Spec struct {
	Nodes []NodeS
	Mats  []MatS
	CSs   []CSS
	Elems []ElemS
	Dir   []BCS
	Links []LinkS
	Neu   []BCS
	Note  string `json:",omitempty"`

	unusualLengths bool
	short          bool // allows short members
	shareLoads     bool // the same load objects for several elements
	userSections   bool // cross sections are implemented by the user

	// Space models plane frames with 3D frame elements, whose out-of-plane displacements are restrained.
	Space bool `json:",omitempty"`
}

type NodeS struct {
	ID      string
	X, Y, Z float64
}

type MatS struct {
	ID         string
	E, Nu, Rho float64
}

type CSS struct {
	ID, Kind         string
	B, H             float64
	A, Iyy, Izz, Ixx float64
}

type LoadS struct {
	Dof    deflect.Dof // Ux, Uz or Phiy in local directions
	Shape  string      // dirac, constant, linear
	Pos    float64
	V0, V1 float64
}

type HingeS struct {
	End int
	Dof deflect.Dof
}

type ElemS struct {
	ID, Kind string
	N0, N1   int
	Mat, CS  int
	Hinges   []HingeS
	Loads    []LoadS
}

type BCS struct {
	Node int
	Dof  deflect.Dof
	Val  float64
}

type LinkS struct {
	Node     int
	From, To deflect.Dof
	Angle    float64
}

func (s *Spec) clone() *Spec {
	c := *s
	c.Nodes = append([]NodeS(nil), s.Nodes...)
	c.Mats = append([]MatS(nil), s.Mats...)
	c.CSs = append([]CSS(nil), s.CSs...)
	c.Elems = append([]ElemS(nil), s.Elems...)
	for i := range c.Elems {
		c.Elems[i].Hinges = append([]HingeS(nil), s.Elems[i].Hinges...)
		c.Elems[i].Loads = append([]LoadS(nil), s.Elems[i].Loads...)
	}
	c.Dir = append([]BCS(nil), s.Dir...)
	c.Links = append([]LinkS(nil), s.Links...)
	c.Neu = append([]BCS(nil), s.Neu...)
	return &c
}

func (s *Spec) String() string {
	b, err := json.Marshal(s)
	if err != nil {
		return fmt.Sprintf("%+v", *s)
	}
	return string(b)
}

func (c *CSS) area() float64 {
	if c.Kind == "rectangle" {
		return c.B * c.H
	}
	return c.A
}

func (c *CSS) iyy() float64 {
	if c.Kind == "rectangle" {
		return c.B * c.H * c.H * c.H / 12
	}
	return c.Iyy
}

func (s *Spec) ea(e *ElemS) float64 { return s.Mats[e.Mat].E * s.CSs[e.CS].area() }
func (s *Spec) ei(e *ElemS) float64 { return s.Mats[e.Mat].E * s.CSs[e.CS].iyy() }

func (s *Spec) length(e *ElemS) float64 {
	a, b := s.Nodes[e.N0], s.Nodes[e.N1]
	return math.Sqrt((b.X-a.X)*(b.X-a.X) + (b.Y-a.Y)*(b.Y-a.Y) + (b.Z-a.Z)*(b.Z-a.Z))
}

// dirs returns the unit vector along the element (global x, y, z).
func (s *Spec) dirs(e *ElemS) (cx, cy, cz float64) {
	a, b := s.Nodes[e.N0], s.Nodes[e.N1]
	l := s.length(e)
	return (b.X - a.X) / l, (b.Y - a.Y) / l, (b.Z - a.Z) / l
}

func (s *Spec) isFrame(e *ElemS) bool { return e.Kind == "frame2d" }

func (e *ElemS) hinged(end int, dof deflect.Dof) bool {
	for _, h := range e.Hinges {
		if h.End == end && h.Dof == dof {
			return true
		}
	}
	return false
}

func (e *ElemS) dofs() []deflect.Dof {
	switch e.Kind {
	case "truss3d":
		return []deflect.Dof{deflect.Ux, deflect.Uy, deflect.Uz}
	case "frame2d":
		return []deflect.Dof{deflect.Ux, deflect.Uz, deflect.Phiy}
	}
	return []deflect.Dof{deflect.Ux, deflect.Uz}
}

type nd struct {
	node int
	dof  deflect.Dof
}

// nodeDofs returns the set of connected degrees of freedom in a deterministic order.
func (s *Spec) nodeDofs() []nd {
	set := map[nd]bool{}
	for i := range s.Elems {
		e := &s.Elems[i]
		for _, d := range e.dofs() {
			set[nd{e.N0, d}] = true
			set[nd{e.N1, d}] = true
		}
	}
	out := make([]nd, 0, len(set))
	for k := range set {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].node != out[j].node {
			return out[i].node < out[j].node
		}
		return out[i].dof < out[j].dof
	})
	return out
}

func (s *Spec) index(x nd) deflect.Index {
	return deflect.Index{NodalID: s.Nodes[x.node].ID, Dof: x.dof}
}

// Build creates the problem through the Go API, keeping the order of all entities in the Spec.
type Built struct {
	P     *deflect.Problem
	Elems []deflect.Element // in the Spec's order
	Loads [][]deflect.NeumannElementBC
	Mats  []*deflect.Material // of the elements
}

func (s *Spec) crossSection(i int) (deflect.CrossSection, error) {
	c := s.CSs[i]
	if c.Kind == "rectangle" {
		return deflect.NewRectangularCrossSection(c.B, c.H, 0)
	}
	return deflect.NewConstantsCrossSections(map[string]float64{"A": c.A, "Iyy": c.Iyy, "Izz": c.Izz, "Ixx": c.Ixx})
}

func (l *LoadS) build() (deflect.NeumannElementBC, error) {
	switch l.Shape {
	case "dirac":
		return deflect.NewElementConcentratedLoad(l.Dof, l.Pos, l.V0)
	case "constant":
		return deflect.NewElementConstantLoad(l.Dof, l.V0), nil
	}
	return deflect.NewElementLinearLoad(l.Dof, l.V0, l.V1), nil
}

func (s *Spec) newElement(e *ElemS, nodes []deflect.Node) (deflect.Element, error) {
	mat, err := s.newMaterial(e)
	if err != nil {
		return nil, err
	}
	return s.newElementOf(e, nodes, mat)
}

func (s *Spec) newMaterial(e *ElemS) (*deflect.Material, error) {
	cs, err := s.crossSection(e.CS)
	if err != nil {
		return nil, fmt.Errorf("cross section: %w", err)
	}
	if s.userSections {
		x := &s.CSs[e.CS]
		cs = userSection{x.area(), x.iyy(), cs.Izz(), cs.Ixx(), 0}
	}
	m := s.Mats[e.Mat]
	return &deflect.Material{
		CrossSection:  cs,
		LinearElastic: deflect.LinearElastic{YoungsModulus: m.E, PoissonsRatio: m.Nu, Density: m.Rho},
	}, nil
}

func (s *Spec) newElementOf(e *ElemS, nodes []deflect.Node, mat *deflect.Material) (deflect.Element, error) {
	hinges := map[deflect.Index]struct{}{}
	for _, h := range e.Hinges {
		n := e.N0
		if h.End == 1 {
			n = e.N1
		}
		hinges[deflect.Index{NodalID: s.Nodes[n].ID, Dof: h.Dof}] = struct{}{}
	}
	switch e.Kind {
	case "truss2d":
		return deflect.NewTruss2d(e.ID, &nodes[e.N0], &nodes[e.N1], mat, hinges)
	case "truss3d":
		return deflect.NewTruss3d(e.ID, &nodes[e.N0], &nodes[e.N1], mat, hinges)
	}
	if s.Space {
		return deflect.NewFrame3d(e.ID, &nodes[e.N0], &nodes[e.N1], mat, hinges)
	}
	return deflect.NewFrame2d(e.ID, &nodes[e.N0], &nodes[e.N1], mat, hinges)
}

func (s *Spec) Build() (*Built, error) {
	p := &deflect.Problem{}
	b := &Built{P: p}
	objects := map[LoadS]deflect.NeumannElementBC{}
	p.Nodes = make([]deflect.Node, len(s.Nodes))
	for i, n := range s.Nodes {
		p.Nodes[i] = deflect.Node{ID: n.ID, X: n.X, Y: n.Y, Z: n.Z}
	}
	for i := range s.Elems {
		e := &s.Elems[i]
		mat, err := s.newMaterial(e)
		if err != nil {
			return nil, fmt.Errorf("element %v: %w", e.ID, err)
		}
		el, err := s.newElementOf(e, p.Nodes, mat)
		if err != nil {
			return nil, fmt.Errorf("element %v: %w", e.ID, err)
		}
		b.Mats = append(b.Mats, mat)
		var loads []deflect.NeumannElementBC
		for j := range e.Loads {
			bc, known := objects[e.Loads[j]]
			if !known || !s.shareLoads {
				var err error
				if bc, err = e.Loads[j].build(); err != nil {
					return nil, fmt.Errorf("load on %v: %w", e.ID, err)
				}
				objects[e.Loads[j]] = bc
			}
			if !el.AddLoad(bc) {
				return nil, fmt.Errorf("element %v refused load %+v", e.ID, e.Loads[j])
			}
			loads = append(loads, bc)
		}
		p.Elements = append(p.Elements, el)
		b.Loads = append(b.Loads, loads)
	}
	b.Elems = append(b.Elems, p.Elements...)
	for _, d := range s.Dir {
		p.Dirichlet = append(p.Dirichlet, deflect.NodalValue{Index: s.index(nd{d.Node, d.Dof}), Value: d.Val})
	}
	if s.Space {
		done := map[int]bool{}
		for i := range s.Elems {
			for _, n := range []int{s.Elems[i].N0, s.Elems[i].N1} {
				if s.Elems[i].Kind == "frame2d" && !done[n] {
					done[n] = true
					p.Dirichlet = append(p.Dirichlet, deflect.NodalValue{Index: s.index(nd{n, deflect.Uy})})
				}
			}
		}
	}
	for _, l := range s.Links {
		t, bc := deflect.NewInclinedSupport(s.index(nd{l.Node, l.From}), s.index(nd{l.Node, l.To}), l.Angle)
		p.EqTransforms = append(p.EqTransforms, t)
		p.Dirichlet = append(p.Dirichlet, bc)
	}
	for _, f := range s.Neu {
		p.Neumann = append(p.Neumann, deflect.NodalValue{Index: s.index(nd{f.Node, f.Dof}), Value: f.Val})
	}
	return b, nil
}

func num(x float64) string {
	return strconv.FormatFloat(x, 'g', -1, 64)
}

func q(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

func forceName(d deflect.Dof) string {
	return [...]string{"Fx", "Fz", "Fy", "My", "Mz", "Mx"}[d]
}

func lineName(d deflect.Dof) string {
	return [...]string{"qx", "qz", "qy", "my", "mz", "mx"}[d]
}

func dofName(d deflect.Dof) string {
	return [...]string{"Ux", "Uz", "Uy", "Phiy", "Phiz", "Phix"}[d]
}

func (l *LoadS) json() string {
	switch l.Shape {
	case "dirac":
		return fmt.Sprintf(`{"kind":%q,"degree":"dirac","values":[%s],"position":[%s]}`,
			forceName(l.Dof), num(l.V0), num(l.Pos))
	case "constant":
		return fmt.Sprintf(`{"kind":%q,"degree":"constant","values":[%s]}`, lineName(l.Dof), num(l.V0))
	}
	return fmt.Sprintf(`{"kind":%q,"degree":"linear","values":[%s,%s]}`, lineName(l.Dof), num(l.V0), num(l.V1))
}

// JSON renders the Spec in the input format of the code under test. Styles (taken from bits of
// style) vary the equivalent ways to express the same problem.
func (s *Spec) JSON(style uint) []byte {
	sections := map[string]string{}
	object := func(parts []string) string { return "{" + strings.Join(parts, ",\n ") + "}" }

	var ns []string
	for _, n := range s.Nodes {
		if style&1 != 0 && n.Z == 0 && n.Y == 0 {
			ns = append(ns, fmt.Sprintf("%s:[%s]", q(n.ID), num(n.X)))
			continue
		}
		ns = append(ns, fmt.Sprintf("%s:[%s,%s,%s]", q(n.ID), num(n.X), num(n.Y), num(n.Z)))
	}
	sections["nodes"] = object(ns)

	var ms []string
	for _, m := range s.Mats {
		ms = append(ms, fmt.Sprintf(`%s:{"kind":"linelast","parameter":{"E":%s,"nu":%s,"rho":%s}}`, q(m.ID), num(m.E), num(m.Nu), num(m.Rho)))
	}
	sections["material"] = object(ms)

	var cs []string
	for _, c := range s.CSs {
		if c.Kind == "rectangle" {
			cs = append(cs, fmt.Sprintf(`%s:{"kind":"rectangle","parameter":{"b":%s,"h":%s}}`, q(c.ID), num(c.B), num(c.H)))
		} else {
			cs = append(cs, fmt.Sprintf(`%s:{"kind":"constants","parameter":{"A":%s,"Iyy":%s,"Izz":%s,"Ixx":%s}}`, q(c.ID), num(c.A), num(c.Iyy), num(c.Izz), num(c.Ixx)))
		}
	}
	sections["crosssection"] = object(cs)

	var es []string
	neu := map[string][]string{}
	var neuKeys []string
	addNeu := func(key, val string) {
		if _, ok := neu[key]; !ok {
			neuKeys = append(neuKeys, key)
		}
		neu[key] = append(neu[key], val)
	}
	for i := range s.Elems {
		e := &s.Elems[i]
		parts := []string{fmt.Sprintf(`"kind":%q`, e.Kind)}
		n0, n1 := s.Nodes[e.N0].ID, s.Nodes[e.N1].ID
		infer := style&2 != 0 && len([]rune(n0)) == 1 && len([]rune(n1)) == 1 && e.ID == n0+n1
		if !infer {
			parts = append(parts, fmt.Sprintf(`"nodes":[%s,%s]`, q(n0), q(n1)))
		}
		if !(style&4 != 0 && len(s.Mats) == 1) {
			parts = append(parts, `"material":`+q(s.Mats[e.Mat].ID))
		}
		if !(style&4 != 0 && len(s.CSs) == 1) {
			parts = append(parts, `"cs":`+q(s.CSs[e.CS].ID))
		}
		if len(e.Hinges) > 0 {
			h := [2][]string{}
			for _, x := range e.Hinges {
				h[x.End] = append(h[x.End], q(dofName(x.Dof)))
			}
			var hs []string
			for k, id := range []string{n0, n1} {
				if h[k] != nil {
					hs = append(hs, q(id)+":["+strings.Join(h[k], ",")+"]")
				}
			}
			parts = append(parts, `"hinges":`+object(hs))
		}
		es = append(es, q(e.ID)+":"+object(parts))
		for j := range e.Loads {
			addNeu(e.ID, e.Loads[j].json())
		}
	}
	sections["elements"] = object(es)

	group := func(bcs []BCS, name func(deflect.Dof) string, add func(string, string)) {
		if style&8 != 0 {
			// Combine values per node in a single object where possible
			var order []int
			perNode := map[int][]BCS{}
			for _, b := range bcs {
				if _, ok := perNode[b.Node]; !ok {
					order = append(order, b.Node)
				}
				perNode[b.Node] = append(perNode[b.Node], b)
			}
			for _, n := range order {
				rest := perNode[n]
				for len(rest) > 0 {
					used := map[deflect.Dof]bool{}
					var now []string
					var later []BCS
					for _, b := range rest {
						if used[b.Dof] {
							later = append(later, b)
							continue
						}
						used[b.Dof] = true
						now = append(now, q(name(b.Dof))+":"+num(b.Val))
					}
					add(s.Nodes[n].ID, "{"+strings.Join(now, ",")+"}")
					rest = later
				}
			}
			return
		}
		for _, b := range bcs {
			add(s.Nodes[b.Node].ID, "{"+q(name(b.Dof))+":"+num(b.Val)+"}")
		}
	}

	keyed := func(keys []string, m map[string][]string) string {
		var out []string
		for _, k := range keys {
			out = append(out, q(k)+":["+strings.Join(m[k], ",")+"]")
		}
		return object(out)
	}

	group(s.Neu, forceName, addNeu)
	if len(neuKeys) > 0 {
		sections["neumann"] = keyed(neuKeys, neu)
	}

	dir := map[string][]string{}
	var dirKeys []string
	group(s.Dir, dofName, func(k, v string) {
		if _, ok := dir[k]; !ok {
			dirKeys = append(dirKeys, k)
		}
		dir[k] = append(dir[k], v)
	})
	if len(dirKeys) > 0 {
		sections["dirichlet"] = keyed(dirKeys, dir)
	}

	links := map[string][]string{}
	var linkKeys []string
	for _, l := range s.Links {
		k := s.Nodes[l.Node].ID
		if _, ok := links[k]; !ok {
			linkKeys = append(linkKeys, k)
		}
		links[k] = append(links[k], fmt.Sprintf(`{"from":%q,"to":%q,"angle":%s}`, dofName(l.From), dofName(l.To), num(l.Angle)))
	}
	if len(linkKeys) > 0 {
		sections["links"] = keyed(linkKeys, links)
	}

	order := []string{"nodes", "material", "crosssection", "elements", "dirichlet", "links", "neumann"}
	if style&16 != 0 {
		for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
			order[i], order[j] = order[j], order[i]
		}
	}
	var out []string
	for _, name := range order {
		if v, ok := sections[name]; ok {
			out = append(out, q(name)+": "+v)
		}
	}
	if style&32 != 0 {
		out = append([]string{`"name":"generated"`, `"expected":{}`}, out...)
	}
	return []byte("{" + strings.Join(out, ",\n") + "}")
}
