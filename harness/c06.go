package main

import (
	"fmt"
	"math"

	"github.com/lubgr/deflect/deflect"
)

func init() {
	register(&Check{
		ID: "C06", Quick: 150000, Thorough: 750000, Run: runC06,
		Rule:     "all 64 combinations of released ends of a frame element and all 4 of a 2d/3d truss, each inside of many random structures, plus random structures with several hinged elements; released forces, the rest of the structure against the reference model, refusal of combinations that leave the element unrestrained; distinct by input",
		Required: []string{"released_forces_checked", "combinations_solved", "combinations_rejected", "hinged_loads_at_end"},
	})
}

// hingeCombo translates a bit mask to hinges: bits 0-2 are Ux, Uz, Phiy at the start, 3-5 those at the end.
func hingeCombo(mask int) []HingeS {
	var h []HingeS
	for b := 0; b < 6; b++ {
		if mask&(1<<b) != 0 {
			h = append(h, HingeS{b / 3, localDofs[b%3]})
		}
	}
	return h
}

// unrestrained is true when the released element itself could move freely, even if its nodes can't.
func unrestrained(frame bool, hinges []HingeS) bool {
	axial, uz, phi := 0, 0, 0
	for _, h := range hinges {
		switch h.Dof {
		case deflect.Ux:
			axial++
		case deflect.Uz:
			uz++
		case deflect.Phiy:
			phi++
		}
	}
	if axial == 2 {
		return true
	}
	if !frame {
		return false
	}
	return uz == 2 || uz+phi > 2
}

func runC06(c *Case) {
	if c.I%3 == 2 {
		s, ref := Gen(c.R, GenOpts{})
		c.Spec(s)
		c.countFeatures(s)
		sol := c.solve(s)
		if sol == nil {
			return
		}
		c.checkReleased(sol, ref)
		return
	}
	k := c.I / 3 * 2
	if c.I%3 == 1 {
		k++
	}
	r := c.R
	kind, mask := "frame2d", k%72
	if mask >= 64 {
		kind = "truss2d"
		if mask >= 68 {
			kind = "truss3d"
		}
		mask = (mask&1)*1 + (mask>>1&1)*8
	}
	genKind := map[string]string{"frame2d": "frame", "truss2d": pick(r, "truss", "mixed"), "truss3d": pick(r, "truss3d", "mixed3d")}[kind]
	var s *Spec
	var at []int
	for len(at) == 0 {
		s, _ = Gen(r, GenOpts{Kind: genKind, NoHinges: r.p(0.7)})
		for i := range s.Elems {
			if s.Elems[i].Kind == kind {
				at = append(at, i)
			}
		}
	}
	e := &s.Elems[pick(r, at...)]
	e.Hinges = hingeCombo(mask)
	r.Shuffle(len(e.Hinges), func(i, j int) { e.Hinges[i], e.Hinges[j] = e.Hinges[j], e.Hinges[i] })
	if r.p(0.6) {
		e.Loads = nil
		s.addLoads(r, e, 4, false)
		if r.p(0.3) && len(e.Hinges) > 0 {
			// A load that acts directly on the hinge
			h := pick(r, e.Hinges...)
			e.Loads = append(e.Loads, LoadS{Dof: h.Dof, Shape: "dirac", Pos: float64(h.End) * s.length(e), V0: r.magnitude()})
		}
	}
	free := unrestrained(kind == "frame2d", e.Hinges)
	what := fmt.Sprintf("%v with hinges %v", kind, e.Hinges)
	c.Spec(s)
	if _, err := s.Build(); err != nil {
		c.Count("combinations_rejected", 1)
		if !free && supportedCombo(kind, mask) {
			c.Failf("%v is refused: %v", what, err)
		}
		if _, err := s.SolveJSON(uint(r.Intn(64))); err == nil {
			c.Failf("%v is refused by the constructor, but solved from JSON", what)
		}
		return
	}
	if free {
		c.Failf("%v is accepted, even though the element can move freely between its nodes", what)
		return
	}
	ref, ok := s.Solve()
	if !ok || ref.kappa > 3e8 {
		// Hold the nodes of the element
		fixed := map[nd]bool{}
		for _, d := range s.Dir {
			fixed[nd{d.Node, d.Dof}] = true
		}
		for _, l := range s.Links {
			if l.Node == e.N0 || l.Node == e.N1 {
				return
			}
		}
		for _, x := range s.nodeDofs() {
			if (x.node == e.N0 || x.node == e.N1) && !fixed[x] {
				s.Dir = append(s.Dir, BCS{x.node, x.dof, 0})
			}
		}
		ref, ok = s.Solve()
		if !ok || ref.kappa > 3e8 {
			return
		}
		c.Spec(s)
	}
	c.countFeatures(s)
	sol := c.solve(s)
	if sol == nil {
		return
	}
	c.Count("combinations_solved", 1)
	c.Count("combination "+fmt.Sprint(kind, " ", mask), 1)
	c.checkReleased(sol, ref)
	compareRef(c, sol, ref)
}

// supportedCombo lists the combinations the documentation and tests rely on: at most one axial release,
// and single or double bending releases that leave the element with some stiffness.
func supportedCombo(kind string, mask int) bool {
	if kind != "frame2d" {
		return mask != 9
	}
	if mask&9 == 9 {
		return false
	}
	switch mask &^ 9 {
	case 0, 2, 4, 16, 32, 4 | 16, 4 | 32, 2 | 32:
		return true
	}
	return false
}

func (c *Case) checkReleased(sol *Sol, ref *Ref) {
	s := sol.s
	for i := range s.Elems {
		e := &s.Elems[i]
		l := s.length(e)
		tol := ref.tolField(i, false)
		for _, h := range e.Hinges {
			f, tl := deflect.FctNx, tol.nx
			switch h.Dof {
			case deflect.Uz:
				f, tl = deflect.FctVz, tol.vz
			case deflect.Phiy:
				f, tl = deflect.FctMy, tol.my
			}
			a, b, ok := sol.poly(i, f).ends()
			if !ok {
				c.Failf("no %v on element %q", f, e.ID)
				return
			}
			got := a
			if h.End == 1 {
				got = -b
			}
			for _, ld := range e.Loads {
				if ld.Shape == "dirac" && ld.Dof == h.Dof && math.Abs(ld.Pos-float64(h.End)*l) <= 1e-10*l {
					got += ld.V0
					c.Count("hinged_loads_at_end", 1)
				}
			}
			c.Count("released_forces_checked", 1)
			c.Near(got, 0, tl, "%v at hinged end %d of element %q", f, h.End, e.ID)
		}
	}
}
