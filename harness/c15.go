package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"slices"
	"sort"
	"strings"

	"github.com/lubgr/deflect/deflect"
)

func init() {
	names := make([]string, 0, len(mutations))
	for _, m := range mutations {
		names = append(names, "rejected: "+m.name)
	}
	register(&Check{
		ID: "C15", Quick: 125000, Thorough: 625000, Run: runC15,
		Rule:     fmt.Sprintf("random valid problem in JSON (which must be accepted), with one of %d kinds of mistakes applied to its syntax tree or text; distinct by mutated document", len(mutations)),
		Required: append(names, "valid_accepted"),
	})
}

type obj = map[string]any

type tree struct {
	r    *rng
	s    *Spec
	root obj
	raw  []byte // overrides root
}

func (t *tree) sub(key string) obj {
	m, _ := t.root[key].(obj)
	return m
}

// any returns a random key of m (independent of map order).
func (t *tree) any(m obj) string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) == 0 {
		return ""
	}
	sort.Strings(keys)
	return pick(t.r, keys...)
}

func (t *tree) elem() (id string, e *ElemS, o obj) {
	e = &t.s.Elems[t.r.Intn(len(t.s.Elems))]
	return e.ID, e, t.sub("elements")[e.ID].(obj)
}

func (t *tree) elemOf(pred func(*ElemS) bool) (id string, e *ElemS, o obj) {
	var at []int
	for i := range t.s.Elems {
		if pred(&t.s.Elems[i]) {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return "", nil, nil
	}
	e = &t.s.Elems[pick(t.r, at...)]
	return e.ID, e, t.sub("elements")[e.ID].(obj)
}

func (t *tree) section(name string) obj {
	if t.root[name] == nil {
		t.root[name] = obj{}
	}
	return t.sub(name)
}

func appendTo(m obj, key string, v any) {
	l, _ := m[key].([]any)
	m[key] = append(append([]any{}, l...), v)
}

// insert adds v at a random position of the list at key.
func (t *tree) insert(m obj, key string, v any) {
	l, _ := m[key].([]any)
	at := t.r.Intn(len(l) + 1)
	out := append([]any{}, l[:at]...)
	out = append(out, v)
	m[key] = append(out, l[at:]...)
}

func (t *tree) node() string { return t.s.Nodes[t.r.Intn(len(t.s.Nodes))].ID }

func (t *tree) hasDof(id string, d deflect.Dof) bool {
	for _, x := range t.s.nodeDofs() {
		if x.dof == d && t.s.Nodes[x.node].ID == id {
			return true
		}
	}
	return false
}

// unconnected returns a node and a dof that no element uses there.
func (t *tree) unconnected() (string, deflect.Dof, bool) {
	for k := 0; k < 30; k++ {
		id := t.node()
		d := pick(t.r, deflect.Ux, deflect.Uz, deflect.Uy, deflect.Phiy, deflect.Phiz, deflect.Phix)
		if !t.hasDof(id, d) {
			return id, d, true
		}
	}
	return "", 0, false
}

// unknown returns a name that isn't in use in the given sections. It often resembles one that is.
func (t *tree) unknown(sections ...string) string {
	var known []string
	for _, section := range []string{"nodes", "elements", "material", "crosssection"} {
		if m := t.sub(section); len(m) > 0 {
			known = append(known, t.any(m))
		}
	}
	return t.r.unusedName(known, func(id string) bool {
		for _, section := range sections {
			if _, ok := t.sub(section)[id]; ok {
				return true
			}
		}
		return false
	})
}

// unusedName returns a name that often resembles the known ones, but isn't used.
func (r *rng) unusedName(known []string, used func(id string) bool) string {
	for {
		id := "there is no such ID"
		if name := []rune(pick(r, known...)); len(name) > 0 {
			switch r.Intn(12) {
			case 0:
				id = string(name) // of another kind of entity, possibly
			case 1:
				id = string(name) + " "
			case 2:
				id = " " + string(name)
			case 3:
				id = string(name) + string(name[0])
			case 4:
				id = string(name[:len(name)-1])
			case 5:
				id = string(name[1:])
			case 6:
				id = strings.ToLower(string(name))
			case 7:
				id = strings.ToUpper(string(name))
			case 8:
				id = pick(r, "x", "m", "0", "1", "Ux", "null", "nil", "default", "*", "_", "-")
			case 9:
				id = string(name[:1])
			case 10:
				slices.Reverse(name)
				id = string(name)
			}
		}
		if id != "" && !used(id) {
			return id
		}
	}
}

// unusedNode and unusedElement return names that resemble the ones of nodes and elements.
func (s *Spec) unusedNode(r *rng) string {
	return r.unusedName(s.names(), func(id string) bool {
		return slices.ContainsFunc(s.Nodes, func(n NodeS) bool { return n.ID == id })
	})
}

func (s *Spec) unusedElement(r *rng) string {
	return r.unusedName(s.names(), func(id string) bool {
		return slices.ContainsFunc(s.Elems, func(e ElemS) bool { return e.ID == id })
	})
}

func (s *Spec) names() []string {
	var out []string
	for i := range s.Nodes {
		out = append(out, s.Nodes[i].ID)
	}
	for i := range s.Elems {
		out = append(out, s.Elems[i].ID)
	}
	return out
}

// wrong returns a name that isn't one of the valid ones of the format, but usually resembles one.
func (t *tree) wrong(valid []string, others ...string) string {
	if t.r.p(0.4) {
		return pick(t.r, others...)
	}
	return t.r.unusedName(valid, func(id string) bool { return slices.Contains(valid, id) })
}

var (
	dofNames      = []string{"Ux", "Uz", "Uy", "Phiy", "Phiz", "Phix"}
	nodalNames    = []string{"Fx", "Fz", "Fy", "My", "Mz", "Mx"}
	elemLoadNames = []string{"Fx", "Fz", "Fy", "My", "Mz", "Mx", "qx", "qz", "qy", "my", "mz", "mx"}
	degreeNames   = []string{"dirac", "constant", "linear"}
	elemKindNames = []string{"truss2d", "truss3d", "frame2d"}
	sectionNames  = []string{"rectangle", "constants"}
)

// value of a load or displacement: mistakes are no less mistakes if it's zero.
func (t *tree) value() float64 {
	if t.r.p(0.2) {
		return 0
	}
	return t.r.magnitude()
}

// target returns the name of an existing cross section or material, or, if all elements refer to theirs, one
// that isn't used by any element (and is valid so far).
func (t *tree) target(section, ref string, fresh obj) string {
	if t.r.p(0.3) {
		for _, e := range t.sub("elements") {
			if _, ok := e.(obj)[ref].(string); !ok {
				return t.any(t.sub(section))
			}
		}
		id := t.unknown(section)
		t.sub(section)[id] = fresh
		return id
	}
	return t.any(t.sub(section))
}

func (t *tree) csTarget() string {
	return t.target("crosssection", "cs", obj{"kind": "rectangle", "parameter": obj{"b": 0.1, "h": 0.2}})
}

func (t *tree) matTarget() string {
	return t.target("material", "material", obj{"kind": "linelast", "parameter": obj{"E": 1e10, "nu": 0.2, "rho": 1.0}})
}

func (t *tree) dirac(kind string, pos float64) obj {
	return obj{"kind": kind, "degree": "dirac", "values": []any{t.value()}, "position": []any{pos}}
}

// okLoad is a valid load for the element.
func (t *tree) okLoad(e *ElemS) obj {
	axial := !t.s.isFrame(e) || t.r.p(0.5)
	f, q := "Fz", "qz"
	if axial {
		f, q = "Fx", "qx"
	}
	switch t.r.Intn(3) {
	case 0:
		return t.dirac(f, t.r.in(0, 1)*t.s.length(e))
	case 1:
		return obj{"kind": q, "degree": "constant", "values": []any{t.value()}}
	}
	return obj{"kind": q, "degree": "linear", "values": []any{t.value(), t.value()}}
}

func (t *tree) addLoad(id string, load any) bool {
	t.insert(t.section("neumann"), id, load)
	return true
}

var badDofNames = []string{"ux", "UX", "Ux ", "", "U", "Rx", "phiy", "Fx", "W", "0"}

// Each mutation returns false if it isn't applicable.
var mutations = []struct {
	name  string
	apply func(t *tree) bool
}{
	{"node missing", func(t *tree) bool {
		_, e, _ := t.elem()
		delete(t.sub("nodes"), t.s.Nodes[pick(t.r, e.N0, e.N1)].ID)
		return true
	}},
	{"unknown node", func(t *tree) bool {
		id, e, o := t.elem()
		ends := []any{t.s.Nodes[e.N0].ID, t.s.Nodes[e.N1].ID}
		ends[t.r.Intn(2)] = t.unknown("nodes")
		delete(o, "hinges")
		if t.r.p(0.5) {
			delete(t.section("neumann"), id)
		}
		o["nodes"] = ends
		return true
	}},
	{"unknown element kind", func(t *tree) bool {
		_, _, o := t.elem()
		o["kind"] = t.wrong(elemKindNames, "frame3d", "beam2d", "", "Truss2d", "truss", "frame2d ")
		return true
	}},
	{"element kind missing", func(t *tree) bool {
		_, _, o := t.elem()
		delete(o, "kind")
		return true
	}},
	{"unknown material", func(t *tree) bool {
		_, _, o := t.elem()
		o["material"] = t.unknown("material")
		return true
	}},
	{"unknown cross section", func(t *tree) bool {
		_, _, o := t.elem()
		o["cs"] = t.unknown("crosssection")
		return true
	}},
	{"ambiguous material", func(t *tree) bool {
		_, _, o := t.elem()
		delete(o, "material")
		t.sub("material")["another"] = obj{"kind": "linelast", "parameter": obj{"E": 1e10, "nu": 0.2, "rho": 1.0}}
		return true
	}},
	{"ambiguous cross section", func(t *tree) bool {
		_, _, o := t.elem()
		delete(o, "cs")
		t.sub("crosssection")["another"] = obj{"kind": "rectangle", "parameter": obj{"b": 0.1, "h": 0.2}}
		return true
	}},
	{"section missing", func(t *tree) bool {
		key := pick(t.r, "nodes", "material", "crosssection", "elements")
		switch t.r.Intn(3) {
		case 0:
			delete(t.root, key)
		case 1:
			t.root[key] = obj{}
		default:
			t.root[key] = nil
		}
		return true
	}},
	{"no Dirichlet", func(t *tree) bool {
		for _, key := range []string{"dirichlet", "links"} {
			if t.r.p(0.5) {
				delete(t.root, key)
			} else {
				t.root[key] = obj{}
			}
		}
		if t.r.p(0.3) {
			t.root["dirichlet"] = obj{t.node(): []any{}}
		}
		return true
	}},
	{"zero length element", func(t *tree) bool {
		_, e, _ := t.elem()
		n := t.sub("nodes")
		n[t.s.Nodes[e.N0].ID] = n[t.s.Nodes[e.N1].ID]
		return true
	}},
	{"element with the same node twice", func(t *tree) bool {
		_, e, o := t.elem()
		id := t.s.Nodes[pick(t.r, e.N0, e.N1)].ID
		o["nodes"] = []any{id, id}
		delete(o, "hinges")
		return true
	}},
	{"non-positive rectangle", func(t *tree) bool {
		p := obj{"b": 0.1, "h": 0.2}
		p[pick(t.r, "b", "h")] = pick(t.r, 0.0, -0.1, -1e-9)
		t.sub("crosssection")[t.csTarget()] = obj{"kind": "rectangle", "parameter": p}
		return true
	}},
	{"negative roll angle", func(t *tree) bool {
		t.sub("crosssection")[t.csTarget()] = obj{"kind": "rectangle", "parameter": obj{"b": 0.1, "h": 0.2, "roll": -0.1}}
		return true
	}},
	{"rectangle parameter missing", func(t *tree) bool {
		p := obj{"b": 0.1, "h": 0.2}
		delete(p, pick(t.r, "b", "h"))
		if t.r.p(0.2) {
			p = nil
		}
		t.sub("crosssection")[t.csTarget()] = obj{"kind": "rectangle", "parameter": p}
		return true
	}},
	{"non-positive constants", func(t *tree) bool {
		p := obj{"A": 0.1, "Iyy": 0.001, "Izz": 0.001}
		p[pick(t.r, "A", "Iyy", "Izz")] = pick(t.r, 0.0, -0.1, -1e-9)
		t.sub("crosssection")[t.csTarget()] = obj{"kind": "constants", "parameter": p}
		return true
	}},
	{"constant missing", func(t *tree) bool {
		p := obj{"A": 0.1, "Iyy": 0.001, "Izz": 0.001}
		delete(p, pick(t.r, "A", "Iyy", "Izz"))
		t.sub("crosssection")[t.csTarget()] = obj{"kind": "constants", "parameter": p}
		return true
	}},
	{"negative Ixx", func(t *tree) bool {
		p := obj{"A": 0.1, "Iyy": 0.001, "Izz": 0.001, "Ixx": -0.001}
		t.sub("crosssection")[t.csTarget()] = obj{"kind": "constants", "parameter": p}
		return true
	}},
	{"unknown cross section kind", func(t *tree) bool {
		t.sub("crosssection")[t.csTarget()].(obj)["kind"] = t.wrong(sectionNames, "circle", "", "Rectangle", "rect")
		return true
	}},
	{"material parameter missing", func(t *tree) bool {
		m := t.sub("material")[t.matTarget()].(obj)
		if t.r.p(0.2) {
			delete(m, "parameter")
		} else {
			delete(m["parameter"].(obj), pick(t.r, "E", "nu", "rho"))
		}
		return true
	}},
	{"non-positive Young's modulus", func(t *tree) bool {
		t.sub("material")[t.matTarget()].(obj)["parameter"].(obj)["E"] = pick(t.r, 0.0, -1.0, -2.1e11)
		return true
	}},
	{"unknown dof in Dirichlet", func(t *tree) bool {
		t.insert(t.section("dirichlet"), t.node(), obj{t.wrong(dofNames, badDofNames...): pick(t.r, 0, 0.001)})
		return true
	}},
	{"unknown dof in nodal load", func(t *tree) bool {
		t.insert(t.section("neumann"), t.node(), obj{t.wrong(nodalNames, "fx", "Ux", "Phiy", "", "F", "M", "qx", "Nx"): t.value()})
		return true
	}},
	{"unknown dof in hinge", func(t *tree) bool {
		_, e, o := t.elem()
		h, _ := o["hinges"].(obj)
		if h == nil {
			h = obj{}
			o["hinges"] = h
		}
		appendTo(h, t.s.Nodes[pick(t.r, e.N0, e.N1)].ID, t.wrong(dofNames, badDofNames...))
		return true
	}},
	{"unknown dof in link", func(t *tree) bool {
		l := obj{"from": "Ux", "to": "Uz", "angle": 0.3}
		l[pick(t.r, "from", "to")] = t.wrong([]string{"Ux", "Uz", "Uy"}, append(badDofNames, "Phiy", "Phix", "Phiz")...)
		if t.r.p(0.3) {
			delete(l, pick(t.r, "from", "to"))
		}
		t.insert(t.section("links"), t.node(), l)
		return true
	}},
	{"unknown load kind", func(t *tree) bool {
		id, e, _ := t.elem()
		l := t.okLoad(e)
		l["kind"] = t.wrong(elemLoadNames, "q", "fx", "Ux", "", "Nx", "qX")
		return t.addLoad(id, l)
	}},
	{"unknown load degree", func(t *tree) bool {
		id, e, _ := t.elem()
		l := t.okLoad(e)
		l["degree"] = t.wrong(degreeNames, "quadratic", "", "Dirac", "delta", "const")
		return t.addLoad(id, l)
	}},
	{"load without kind or degree", func(t *tree) bool {
		id, e, _ := t.elem()
		l := t.okLoad(e)
		delete(l, pick(t.r, "kind", "degree"))
		return t.addLoad(id, l)
	}},
	{"wrong number of values", func(t *tree) bool {
		id, e, _ := t.elem()
		l := t.okLoad(e)
		want := len(l["values"].([]any))
		n := pick(t.r, 0, 1, 2, 3)
		if n == want {
			n = 4
		}
		v := []any{}
		for k := 0; k < n; k++ {
			v = append(v, t.value())
		}
		l["values"] = v
		if n == 0 && t.r.p(0.5) {
			delete(l, "values")
		}
		return t.addLoad(id, l)
	}},
	{"position missing", func(t *tree) bool {
		id, e, _ := t.elem()
		l := t.dirac("Fx", t.s.length(e)/2)
		if t.r.p(0.5) {
			delete(l, "position")
		} else {
			l["position"] = []any{}
		}
		return t.addLoad(id, l)
	}},
	{"several positions", func(t *tree) bool {
		id, e, _ := t.elem()
		l := t.dirac("Fx", t.s.length(e)/2)
		l["position"] = []any{0.0, t.s.length(e) / 2}
		return t.addLoad(id, l)
	}},
	{"negative position", func(t *tree) bool {
		id, e, _ := t.elem()
		return t.addLoad(id, t.dirac("Fx", -t.s.length(e)*pick(t.r, 1, 0.5, 1e-6, 1e-12)))
	}},
	{"position beyond the end", func(t *tree) bool {
		id, e, _ := t.elem()
		kind := "Fx"
		if t.s.isFrame(e) {
			kind = pick(t.r, "Fx", "Fz", "My")
		}
		return t.addLoad(id, t.dirac(kind, t.s.length(e)*pick(t.r, 1+1e-7, 1+1e-5, 1.01, 2, 100)))
	}},
	{"position of a distributed load", func(t *tree) bool {
		id, e, _ := t.elem()
		l := obj{"kind": "qx", "degree": "constant", "values": []any{t.value()}, "position": []any{t.s.length(e) / 2}}
		if t.r.p(0.5) {
			l["degree"], l["values"] = "linear", []any{t.value(), t.value()}
			if t.r.p(0.5) {
				l["position"] = []any{0.0, t.s.length(e)}
			}
		}
		return t.addLoad(id, l)
	}},
	{"load on unknown element", func(t *tree) bool {
		_, e, _ := t.elem()
		return t.addLoad(t.unknown("elements"), t.okLoad(e))
	}},
	{"nodal load on unknown node", func(t *tree) bool {
		return t.addLoad(t.unknown("nodes"), obj{pick(t.r, "Fx", "Fz", "My"): t.value()})
	}},
	{"nodal load on unconnected dof", func(t *tree) bool {
		id, d, ok := t.unconnected()
		return ok && t.addLoad(id, obj{forceName(d): t.value()})
	}},
	{"Dirichlet on unknown node", func(t *tree) bool {
		t.insert(t.section("dirichlet"), t.unknown("nodes"), obj{pick(t.r, "Ux", "Uz", "Phiy"): pick(t.r, 0, 0.001)})
		return true
	}},
	{"Dirichlet on unconnected dof", func(t *tree) bool {
		id, d, ok := t.unconnected()
		if ok {
			t.insert(t.section("dirichlet"), id, obj{dofName(d): pick(t.r, 0, 0.01)})
		}
		return ok
	}},
	{"link on unknown node", func(t *tree) bool {
		t.insert(t.section("links"), t.unknown("nodes"), obj{"from": "Ux", "to": "Uz", "angle": 0.5})
		return true
	}},
	{"link on unconnected dof", func(t *tree) bool {
		id := t.node()
		if t.hasDof(id, deflect.Uy) {
			return false
		}
		l := obj{"from": "Ux", "to": "Uy", "angle": 0.5}
		if t.r.p(0.5) {
			l["from"], l["to"] = "Uy", "Ux"
			if t.hasDir(id, deflect.Ux) {
				return false
			}
		}
		t.insert(t.section("links"), id, l)
		return true
	}},
	{"duplicate Dirichlet", func(t *tree) bool {
		if len(t.s.Dir) == 0 {
			return false
		}
		d := pick(t.r, t.s.Dir...)
		v := d.Val
		if t.r.p(0.5) {
			v = 0.003
		}
		t.insert(t.section("dirichlet"), t.s.Nodes[d.Node].ID, obj{dofName(d.Dof): v})
		return true
	}},
	{"Dirichlet on a linked dof", func(t *tree) bool {
		if len(t.s.Links) == 0 {
			return false
		}
		l := pick(t.r, t.s.Links...)
		t.insert(t.section("dirichlet"), t.s.Nodes[l.Node].ID, obj{dofName(l.To): pick(t.r, 0, 0.001)})
		return true
	}},
	{"two links of the same dof", func(t *tree) bool {
		if len(t.s.Links) == 0 {
			return false
		}
		l := pick(t.r, t.s.Links...)
		t.insert(t.section("links"), t.s.Nodes[l.Node].ID, obj{"from": dofName(l.From), "to": dofName(l.To), "angle": t.r.angleValue()})
		return true
	}},
	{"link from a dof to itself", func(t *tree) bool {
		if len(t.s.Links) > 0 && t.r.p(0.7) {
			l := pick(t.r, t.s.Links...)
			lst := t.sub("links")[t.s.Nodes[l.Node].ID].([]any)
			o := lst[t.r.Intn(len(lst))].(obj)
			o["from"] = o["to"]
			return true
		}
		d := pick(t.r, "Ux", "Uz")
		t.insert(t.section("links"), t.node(), obj{"from": d, "to": d, "angle": 0.5})
		return true
	}},
	{"hinge at a foreign node", func(t *tree) bool {
		_, e, o := t.elem()
		id := t.unknown("nodes")
		if len(t.s.Nodes) > 2 && t.r.p(0.7) {
			id = t.s.Nodes[e.N0].ID
			for id == t.s.Nodes[e.N0].ID || id == t.s.Nodes[e.N1].ID {
				id = t.node()
			}
		}
		h, _ := o["hinges"].(obj)
		if h == nil {
			h = obj{}
			o["hinges"] = h
		}
		if t.r.p(0.2) {
			h[id] = []any{}
		} else {
			appendTo(h, id, pick(t.r, "Ux", "Phiy", "Uz"))
		}
		return true
	}},
	{"axial hinges at both ends", func(t *tree) bool {
		_, e, o := t.elem()
		o["hinges"] = obj{t.s.Nodes[e.N0].ID: []any{"Ux"}, t.s.Nodes[e.N1].ID: []any{"Ux"}}
		return true
	}},
	{"transverse hinges at both ends", func(t *tree) bool {
		_, e, o := t.elemOf(t.s.isFrame)
		if o == nil {
			return false
		}
		h := obj{t.s.Nodes[e.N0].ID: []any{"Uz"}, t.s.Nodes[e.N1].ID: []any{"Uz"}}
		if t.r.p(0.3) {
			appendTo(h, t.s.Nodes[e.N0].ID, "Phiy")
		}
		o["hinges"] = h
		return true
	}},
	{"too many hinges", func(t *tree) bool {
		_, e, o := t.elemOf(t.s.isFrame)
		if o == nil {
			return false
		}
		a, b := t.s.Nodes[e.N0].ID, t.s.Nodes[e.N1].ID
		if t.r.p(0.5) {
			a, b = b, a
		}
		o["hinges"] = obj{a: []any{"Uz", "Phiy"}, b: []any{"Phiy"}}
		return true
	}},
	{"unsupported load direction", func(t *tree) bool {
		id, e, _ := t.elem()
		mid := t.s.length(e) / 2
		kinds := []obj{t.dirac("Fy", mid), t.dirac("Mz", mid), t.dirac("Mx", mid)}
		line := []string{"qy", "mx", "my", "mz"}
		if !t.s.isFrame(e) {
			kinds = append(kinds, t.dirac("Fz", mid), t.dirac("My", mid))
			line = append(line, "qz", "qz")
		}
		kinds = append(kinds, obj{"kind": pick(t.r, line...), "degree": "constant", "values": []any{t.value()}},
			obj{"kind": pick(t.r, line...), "degree": "linear", "values": []any{t.value(), t.value()}})
		return t.addLoad(id, pick(t.r, kinds...))
	}},
	{"wrong number of nodes", func(t *tree) bool {
		_, e, o := t.elem()
		a, b := t.s.Nodes[e.N0].ID, t.s.Nodes[e.N1].ID
		if t.r.p(0.5) {
			o["nodes"] = []any{a}
		} else {
			o["nodes"] = []any{a, b, pick(t.r, a, b, t.node())}
		}
		return true
	}},
	{"nodes can't be inferred", func(t *tree) bool {
		id, _, o := t.elem()
		delete(o, "nodes")
		if t.r.p(0.3) {
			o["nodes"] = []any{}
		}
		if _, ok := t.root["neumann"]; ok {
			delete(t.sub("neumann"), id)
		}
		els := t.sub("elements")
		delete(els, id)
		els[pick(t.r, "", "A", "ABC", "\x01\x02", "no nodes here")] = o
		return true
	}},
	{"empty element ID", func(t *tree) bool {
		id, e, o := t.elem()
		o["nodes"] = []any{t.s.Nodes[e.N0].ID, t.s.Nodes[e.N1].ID}
		if _, ok := t.root["neumann"]; ok {
			delete(t.sub("neumann"), id)
		}
		els := t.sub("elements")
		delete(els, id)
		els[""] = o
		return true
	}},
	{"empty load", func(t *tree) bool {
		id, _, _ := t.elem()
		var v any
		if t.r.p(0.5) {
			v = obj{}
		}
		return t.addLoad(pick(t.r, id, t.node(), t.unknown("nodes", "elements")), v)
	}},
	{"wrong type", func(t *tree) bool {
		id, e, o := t.elem()
		bad := pick(t.r, any("1"), any(true), any(obj{}), any([]any{"x"}))
		switch t.r.Intn(12) {
		case 0:
			t.root["nodes"] = []any{[]any{0, 0, 0}}
		case 1:
			t.sub("nodes")[t.node()] = []any{bad, 0, 0}
		case 2:
			t.sub("nodes")[t.node()] = obj{"x": 0}
		case 3:
			o["kind"] = 5
		case 4:
			o["nodes"] = "AB"
		case 5:
			t.root["elements"] = []any{o}
		case 6:
			t.insert(t.section("dirichlet"), t.node(), obj{"Ux": bad})
		case 7:
			t.section("dirichlet")[t.node()] = obj{"Ux": 0}
		case 8:
			l := t.okLoad(e)
			l["values"] = bad
			t.addLoad(id, l)
		case 9:
			t.insert(t.section("neumann"), t.node(), obj{"Fx": bad})
		case 10:
			t.sub("material")[t.any(t.sub("material"))].(obj)["parameter"].(obj)["E"] = bad
		case 11:
			o["hinges"] = []any{"Phiy"}
		}
		return true
	}},
	{"not an object", func(t *tree) bool {
		t.raw = []byte(pick(t.r, "", " ", "null", "[]", "{}", "42", "\"x\"", "true", "{", "}", "[{}]", "nul"))
		return true
	}},
	{"truncated", func(t *tree) bool {
		b := t.marshal()
		t.raw = b[:t.r.Intn(len(b))]
		return true
	}},
	{"trailing garbage", func(t *tree) bool {
		b := t.marshal()
		t.raw = append(append([]byte{}, b...), []byte(pick(t.r, "}", "{}", " x", ",", "\x00", "]", "null"))...)
		return true
	}},
	{"broken syntax", func(t *tree) bool {
		b := t.marshal()
		// Replace or drop a structural character outside of strings
		var at []int
		inString := false
		for i := 0; i < len(b); i++ {
			switch {
			case b[i] == '\\' && inString:
				i++
			case b[i] == '"':
				inString = !inString
			case !inString && strings.IndexByte("{}[]:", b[i]) >= 0:
				at = append(at, i)
			}
		}
		i := pick(t.r, at...)
		t.raw = append([]byte{}, b...)
		t.raw[i] = pick(t.r, byte(' '), byte('x'), byte(';'), byte('"'))
		return !json.Valid(t.raw)
	}},
}

func (t *tree) hasDir(id string, d deflect.Dof) bool {
	for _, x := range t.s.Dir {
		if x.Dof == d && t.s.Nodes[x.Node].ID == id {
			return true
		}
	}
	return false
}

func (t *tree) marshal() []byte {
	b, err := json.Marshal(t.root)
	if err != nil {
		panic(err)
	}
	return b
}

func fromJSON(data []byte) error {
	p, err := deflect.ProblemFromJSON(data)
	if err != nil {
		return err
	}
	_, _, err = solveProblem(&p)
	return err
}

func runC15(c *Case) {
	r := c.R
	s, _ := Gen(r, GenOpts{MaxNodes: r.sometimesAny(9), PlainScale: true, KappaMax: 1e6})
	doc := s.JSON(uint(r.Intn(64)))
	dec := json.NewDecoder(bytes.NewReader(doc))
	dec.UseNumber()
	var root obj
	if err := dec.Decode(&root); err != nil {
		panic(err)
	}
	delete(root, "expected")
	m := mutations[c.I%len(mutations)]
	t := &tree{r: r, s: s, root: root}
	if err := fromJSON(t.marshal()); err != nil {
		c.Spec(t.marshal())
		c.Failf("a valid problem is refused: %v", err)
		return
	}
	c.Count("valid_accepted", 1)
	if !m.apply(t) {
		c.Count("not_applicable", 1)
		return
	}
	out := t.raw
	if out == nil {
		out = t.marshal()
	}
	c.Spec(out)
	c.Count("documents_with_mistake", 1)
	if err := fromJSON(out); err == nil {
		c.Failf("%s: solved without error", m.name)
		return
	}
	c.Count("rejected: "+m.name, 1)
}
