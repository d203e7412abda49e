package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/lubgr/deflect/deflect"
)

// A Sol is a solved problem along with what it was created from.
type Sol struct {
	s   *Spec
	b   *Built
	p   *deflect.Problem
	lay deflect.EqLayout
	res deflect.ProblemResult
}

func solveProblem(p *deflect.Problem) (deflect.ProblemResult, deflect.EqLayout, error) {
	lay, err := deflect.NewEqLayout(p)
	if err != nil {
		return nil, lay, fmt.Errorf("layout: %w", err)
	}
	res, err := deflect.NewLinearProblemSolver().Solve(p, lay, deflect.NewCholeskySolver())
	if err != nil {
		return nil, lay, fmt.Errorf("solve: %w", err)
	}
	return res, lay, nil
}

func (s *Spec) SolveAPI() (*Sol, error) {
	b, err := s.Build()
	if err != nil {
		return nil, fmt.Errorf("build: %w", err)
	}
	res, lay, err := solveProblem(b.P)
	if err != nil {
		return nil, err
	}
	return &Sol{s: s, b: b, p: b.P, lay: lay, res: res}, nil
}

func (s *Spec) SolveJSON(style uint) (*Sol, error) {
	p, err := deflect.ProblemFromJSON(s.JSON(style))
	if err != nil {
		return nil, fmt.Errorf("json: %w", err)
	}
	res, lay, err := solveProblem(&p)
	if err != nil {
		return nil, err
	}
	return &Sol{s: s, p: &p, lay: lay, res: res}, nil
}

// solve is the default pipeline for a valid problem; failing it is a violation.
func (c *Case) solve(s *Spec) *Sol {
	var sol *Sol
	var err error
	if c.R.p(0.3) {
		c.Count("solved_via_json", 1)
		sol, err = s.SolveJSON(uint(c.R.Intn(64)))
	} else {
		c.Count("solved_via_api", 1)
		sol, err = s.SolveAPI()
	}
	if err != nil {
		c.Failf("a solvable problem wasn't solved: %v", err)
		return nil
	}
	return sol
}

func (sol *Sol) U(x nd) float64 {
	v, err := sol.res.Primary(sol.s.index(x))
	if err != nil {
		panic(fmt.Sprintf("primary value of %+v: %v", sol.s.index(x), err))
	}
	return v.Value
}

func (sol *Sol) R(x nd) float64 {
	v, err := sol.res.Reaction(sol.s.index(x))
	if err != nil {
		panic(fmt.Sprintf("reaction of %+v: %v", sol.s.index(x), err))
	}
	return v.Value
}

// seq is a piecewise polynomial, detached from the code under test.
type seq []deflect.PolyPiece

func (sol *Sol) poly(elem int, f deflect.Fct) seq {
	ip, err := sol.res.Interpolate(sol.s.Elems[elem].ID, f, 0)
	if err != nil {
		panic(fmt.Sprintf("interpolate %v on %v: %v", f, sol.s.Elems[elem].ID, err))
	}
	return seq(ip.Piecewise)
}

func evalPiece(p deflect.PolyPiece, x float64) float64 {
	y := 0.0
	for i := len(p.Coeff) - 1; i >= 0; i-- {
		y = y*x + p.Coeff[i]
	}
	return y
}

func derivePiece(p deflect.PolyPiece, x float64) float64 {
	y := 0.0
	for i := len(p.Coeff) - 1; i >= 1; i-- {
		y = y*x + float64(i)*p.Coeff[i]
	}
	return y
}

// magnitude is the sum of absolute terms, to bound rounding.
func magPiece(p deflect.PolyPiece, x float64) float64 {
	y := 0.0
	for i := len(p.Coeff) - 1; i >= 0; i-- {
		y = y*math.Abs(x) + math.Abs(p.Coeff[i])
	}
	return y
}

// at evaluates at x, using the first piece that contains x.
func (s seq) at(x float64) (float64, bool) {
	for _, p := range s {
		if x > p.X0 && x < p.XE {
			return evalPiece(p, x), true
		}
	}
	for _, p := range s {
		if x >= p.X0-1e-9 && x <= p.XE+1e-9 {
			return evalPiece(p, x), true
		}
	}
	return 0, false
}

// first and last value on the element
func (s seq) ends() (a, b float64, ok bool) {
	if len(s) == 0 {
		return 0, 0, false
	}
	return evalPiece(s[0], s[0].X0), evalPiece(s[len(s)-1], s[len(s)-1].XE), true
}

func (s *Spec) quantities(e *ElemS) []deflect.Fct {
	if s.isFrame(e) {
		return []deflect.Fct{deflect.FctNx, deflect.FctVz, deflect.FctMy, deflect.FctUx, deflect.FctPhiy, deflect.FctUz}
	}
	return []deflect.Fct{deflect.FctNx, deflect.FctUx}
}

func (f field) get(which deflect.Fct) float64 {
	switch which {
	case deflect.FctNx:
		return f.nx
	case deflect.FctVz:
		return f.vz
	case deflect.FctMy:
		return f.my
	case deflect.FctUx:
		return f.ux
	case deflect.FctPhiy:
		return f.phiy
	}
	return f.uz
}

// countFeatures records which kinds of things were part of the executions.
func (c *Case) countFeatures(s *Spec) {
	c.Count("structures", 1)
	c.Count("elements", len(s.Elems))
	for i := range s.Elems {
		e := &s.Elems[i]
		c.Count("elements_"+e.Kind, 1)
		if len(e.Hinges) > 0 {
			c.Count("elements_with_hinges", 1)
		}
		for _, l := range e.Loads {
			c.Count("element_loads_"+l.Shape, 1)
		}
	}
	c.Count("inclined_supports", len(s.Links))
	c.Count("nodal_loads", len(s.Neu))
	for _, d := range s.Dir {
		if d.Val != 0 {
			c.Count("prescribed_nonzero", 1)
		}
	}
	c.Count("supports", len(s.Dir))
}

func sortFloats(x []float64) { sort.Float64s(x) }
