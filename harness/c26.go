package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"regexp"
	"strings"
	"sync"
	"testing"

	"github.com/lubgr/deflect/deflect"
	"github.com/lubgr/deflect/integr"
)

// Expectations that are part of JSON inputs: pass if and only if results meet them.

func init() {
	register(&Check{
		ID: "C26", Quick: 75000, Thorough: 375000, Run: runC26,
		Rule:     "random structures with expectations about nodal values and polynomials derived from their results, with arbitrary tolerances: correct and nearly correct ones must pass, each kind of deviation must fail, malformed ones must be refused; failure expectations against errors; distinct by input",
		Required: []string{"met", "within_tolerance", "deviating", "malformed", "failures_expected", "nodal_values", "polynomials", "empty_ranges"},
	})
}

type testRequest struct {
	f    func(t *testing.T)
	pass chan bool
}

// tests are handed to a test that never ends, because tests can't be run just like that.
var testRequests = sync.OnceValue(func() chan testRequest {
	ch := make(chan testRequest)
	go testing.Main(func(pat, str string) (bool, error) { return true, nil },
		[]testing.InternalTest{{Name: "server", F: func(t *testing.T) {
			for r := range ch {
				go func() {
					defer func() {
						if p := recover(); p != nil {
							r.pass <- false
						}
					}()
					r.pass <- t.Run("expectations", r.f)
				}()
			}
		}}}, nil, nil)
	return ch
})

// runTest tells if a test passes. Output is discarded.
func runTest(f func(t *testing.T)) bool {
	r := testRequest{f, make(chan bool, 1)}
	testRequests() <- r
	return <-r.pass
}

type expectInterp struct {
	Kind     string
	Degree   int
	Range    []float64
	Boundary []float64
	Eval     [][]float64
	Absent   [3]int // how to write what's empty: not at all, as empty array, as null
}

// MarshalJSON writes what's empty in one of the ways that mean the same.
func (e expectInterp) MarshalJSON() ([]byte, error) {
	m := map[string]any{"kind": e.Kind, "degree": e.Degree}
	put := func(key string, n int, v any, how int) {
		switch {
		case n > 0:
			m[key] = v
		case how == 1:
			m[key] = []float64{}
		case how == 2:
			m[key] = nil
		}
	}
	put("range", len(e.Range), e.Range, e.Absent[0])
	put("boundary", len(e.Boundary), e.Boundary, e.Absent[1])
	put("eval", len(e.Eval), e.Eval, e.Absent[2])
	return json.Marshal(m)
}

type expected struct {
	Tolerance     map[string]float64              `json:"tolerance,omitempty"`
	Primary       map[string][]map[string]float64 `json:"primary,omitempty"`
	Reaction      map[string][]map[string]float64 `json:"reaction,omitempty"`
	Interpolation map[string][]expectInterp       `json:"interpolation,omitempty"`
	Failure       *string                         `json:"failure,omitempty"`
}

func (e *expected) data() []byte {
	b, err := json.Marshal(map[string]any{"name": "x", "expected": e, "nodes": map[string]any{}})
	if err != nil {
		panic(err)
	}
	return b
}

// evaluate is what happens to expectations after a problem was solved.
func evaluate(data []byte, res deflect.ProblemResult, failure error) (pass bool, err error) {
	es, err := integr.ExpectationsFromJSON(data)
	if err != nil {
		return false, err
	}
	return runTest(func(t *testing.T) {
		for _, e := range es {
			e.Failure(failure, t)
			if failure == nil {
				e.Primary(res, t)
				e.Reaction(res, t)
				e.Interpolated(res, t)
			}
		}
	}), nil
}

func fctName(f deflect.Fct) string {
	switch f {
	case deflect.FctNx:
		return "Nx"
	case deflect.FctVz:
		return "Vz"
	case deflect.FctMy:
		return "My"
	case deflect.FctUx:
		return "Ux"
	case deflect.FctPhiy:
		return "Phiy"
	}
	return "Uz"
}

func runC26(c *Case) {
	r := c.R
	if r.p(0.1) {
		c.failureExpectations()
		return
	}
	s, _ := Gen(r, GenOpts{MaxNodes: r.sometimesAny(6), KappaMax: 1e6, PlainScale: true})
	sol := c.solve(s)
	if sol == nil {
		return
	}
	tolP, tolR, tolI := 1e-8, 1e-8, 1e-8
	e := &expected{Tolerance: map[string]float64{}}
	if r.p(0.6) {
		tolP = pick(r, r.logIn(1e-10, 1e-2), r.logIn(1e-10, 1e-2), r.logIn(1e-10, 1e-2), 0)
		e.Tolerance["primary"] = tolP
	}
	if r.p(0.6) {
		tolR = pick(r, r.logIn(1e-10, 1e-2), r.logIn(1e-10, 1e-2), r.logIn(1e-10, 1e-2), 0)
		e.Tolerance["reaction"] = tolR
	}
	if r.p(0.6) {
		tolI = pick(r, r.logIn(1e-10, 1e-4), r.logIn(1e-10, 1e-4), r.logIn(1e-4, 0.1))
		e.Tolerance["polynomial"] = tolI
	}
	if len(e.Tolerance) == 0 && r.p(0.5) {
		e.Tolerance = nil
	}

	// Deviations that are tolerated. Both an absolute and the relative tolerance apply.
	near := func(v, abs, rel float64) float64 {
		switch r.Intn(3) {
		case 0:
			return v
		case 1:
			c.Count("within_tolerance", 1)
			return v + r.sign()*0.5*abs
		}
		c.Count("within_tolerance", 1)
		return v * (1 + r.sign()*0.5*rel)
	}
	far := func(v, abs, rel float64) float64 {
		c.Count("deviating_values", 1)
		d := 3 * math.Max(abs, math.Max(rel, 1e-14)*math.Abs(v))
		if r.p(0.5) {
			d = math.Max(d, pick(r, 1.0, 1e-3, 100)*math.Abs(v))
		}
		if r.p(0.2) && 2*math.Abs(v) > d {
			return -v
		}
		return v + r.sign()*d
	}

	type breakable struct {
		what string
		do   func()
		undo func()
	}
	var breaks []breakable

	nodal := func(reaction bool) map[string][]map[string]float64 {
		out := map[string][]map[string]float64{}
		for _, x := range s.nodeDofs() {
			if r.p(0.5) {
				continue
			}
			v, tol := sol.U(x), tolP
			if reaction {
				v, tol = sol.R(x), tolR
			}
			name := dofName(x.dof)
			if reaction && r.p(0.8) || r.p(0.1) {
				name = forceName(x.dof)
			}
			m := map[string]float64{name: near(v, 1e-8, tol)}
			id := s.Nodes[x.node].ID
			if r.p(0.2) {
				// The same value twice, possibly with the other name
				second := pick(r, name, forceName(x.dof))
				out[id] = append(out[id], map[string]float64{second: near(v, 1e-8, tol)})
				c.Count("values_given_twice", 1)
			}
			out[id] = append(out[id], m)
			if r.p(0.3) {
				r.Shuffle(len(out[id]), func(i, j int) { out[id][i], out[id][j] = out[id][j], out[id][i] })
			}
			right := m[name]
			c.Count("nodal_values", 1)
			breaks = append(breaks, breakable{"a nodal value",
				func() { m[name] = far(v, 1e-8, tol) },
				func() { m[name] = right }})
		}
		id, other := s.Nodes[r.Intn(len(s.Nodes))].ID, s.unusedNode(r)
		breaks = append(breaks, breakable{"a degree of freedom that doesn't exist",
			func() { out[id] = append(out[id], map[string]float64{pick(r, "Phix", "Mz"): 0}) },
			func() { out[id] = out[id][:len(out[id])-1] }})
		breaks = append(breaks, breakable{"a node that doesn't exist",
			func() { out[other] = []map[string]float64{{"Ux": 0}} },
			func() { delete(out, other) }})
		return out
	}
	if r.p(0.7) {
		e.Primary = nodal(false)
	}
	if r.p(0.7) {
		e.Reaction = nodal(true)
	}
	if r.p(0.8) {
		e.Interpolation = map[string][]expectInterp{}
		for i := range s.Elems {
			el := &s.Elems[i]
			for _, f := range s.quantities(el) {
				if r.p(0.5) {
					continue
				}
				ip, err := sol.res.Interpolate(el.ID, f, tolI)
				if err != nil {
					c.Failf("interpolate: %v", err)
					return
				}
				ps := ip.Piecewise
				ks := []int{r.Intn(len(ps))}
				if r.p(0.3) {
					ks = r.Perm(len(ps))
				}
				for _, k := range ks {
					p := ps[k]
					if p.XE-p.X0 < 0.01 {
						continue
					}
					d := expectInterp{Kind: fctName(f), Degree: len(p.Coeff) - 1}
					for k := range d.Absent {
						d.Absent[k] = pick(r, 0, 0, 0, 0, 1, 2)
					}
					if len(ps) > 1 || r.p(0.3) {
						d.Range = []float64{p.X0, p.XE}
					}
					at := func(x float64) float64 {
						if v, err := p.Eval(x); err == nil {
							return v // the same rounding errors
						}
						return evalPiece(p, x)
					}
					switch r.Intn(4) {
					case 0:
						d.Boundary = []float64{near(at(p.X0), tolI, tolI), near(at(p.XE), tolI, tolI)}
					case 1:
						d.Boundary = []float64{near(at(p.X0), tolI, tolI)}
					}
					for n := r.Intn(pick(r, 4, 4, 4, 4, 4, 14)); n > 0; n-- {
						x := p.X0 + r.Float64()*(p.XE-p.X0)
						switch r.Intn(8) {
						case 0:
							x = p.X0
						case 1:
							x = p.XE
						case 2:
							if n := len(d.Eval); n > 0 {
								x = d.Eval[r.Intn(n)][0]
							}
						}
						d.Eval = append(d.Eval, []float64{x, near(at(x), tolI, tolI)})
					}
					e.Interpolation[el.ID] = append(e.Interpolation[el.ID], d)
					id, pos := el.ID, len(e.Interpolation[el.ID])-1
					get := func() *expectInterp { return &e.Interpolation[id][pos] }
					c.Count("polynomials", 1)
					if len(d.Range) == 0 && d.Absent[0] == 1 {
						c.Count("empty_ranges", 1)
					}
					brk := func(what string, f func(d *expectInterp)) {
						breaks = append(breaks, breakable{what,
							func() {
								broken := d
								broken.Boundary = append([]float64(nil), d.Boundary...)
								broken.Eval = nil
								for _, x := range d.Eval {
									broken.Eval = append(broken.Eval, append([]float64(nil), x...))
								}
								f(&broken)
								*get() = broken
							},
							func() { *get() = d }})
					}
					brk("the degree of a polynomial", func(d *expectInterp) { d.Degree += int(r.sign()) })
					// Only exact evaluation makes sure that the deviation is what it's meant to be
					if len(d.Boundary) == 2 {
						brk("the second boundary value", func(d *expectInterp) { d.Boundary[1] = far(at(p.XE), tolI, tolI) })
					}
					if len(d.Boundary) > 0 {
						brk("the first boundary value", func(d *expectInterp) { d.Boundary[0] = far(at(p.X0), tolI, tolI) })
					}
					if n := len(d.Eval); n > 0 {
						m := r.Intn(n)
						brk("a sample", func(d *expectInterp) { d.Eval[m][1] = far(at(d.Eval[m][0]), tolI, tolI) })
					}
					brk("a sample outside of the domain", func(d *expectInterp) {
						x := pick(r, p.X0-1e-3, p.XE+1e-3)
						d.Eval = append(d.Eval, []float64{x, at(x)})
					})
					brk("a range that doesn't exist", func(d *expectInterp) {
						d.Range = []float64{p.X0, p.XE}
						d.Range[r.Intn(2)] += pick(r, -1e-3, 1e-3)
					})
					brk("a reversed range", func(d *expectInterp) { d.Range = []float64{p.XE, p.X0} })
					if len(ps) > 1 {
						brk("several polynomials but no range", func(d *expectInterp) { d.Range = nil })
					}
				}
			}
		}
		other := s.unusedElement(r)
		breaks = append(breaks, breakable{"an element that doesn't exist",
			func() {
				e.Interpolation[other] = []expectInterp{{Kind: "Nx", Degree: 0}}
			},
			func() { delete(e.Interpolation, other) }})
		id := s.Elems[r.Intn(len(s.Elems))].ID
		breaks = append(breaks, breakable{"a quantity that doesn't exist",
			func() {
				e.Interpolation[id] = append(e.Interpolation[id], expectInterp{Kind: pick(r, "Mz", "Vy", "Phix"), Degree: 0})
			},
			func() { e.Interpolation[id] = e.Interpolation[id][:len(e.Interpolation[id])-1] }})
	}

	c.Spec(s)
	data := e.data()
	c.Spec(data)
	pass, err := evaluate(data, sol.res, nil)
	if err != nil {
		c.Failf("expectations refused: %v, %s", err, data)
		return
	}
	if !pass {
		c.Failf("expectations are met, but don't pass: %s", data)
		return
	}
	c.Count("met", 1)

	if pass, err := evaluate(data, nil, errors.New("something failed")); err != nil || pass {
		c.Failf("an unexpected failure passes")
	}

	r.Shuffle(len(breaks), func(i, j int) { breaks[i], breaks[j] = breaks[j], breaks[i] })
	for k := 0; k < len(breaks) && k < 4; k++ {
		b := breaks[k]
		b.do()
		data := e.data()
		pass, err := evaluate(data, sol.res, nil)
		if err != nil {
			c.Failf("expectations with deviation of %v refused: %v, %s", b.what, err, data)
		} else if pass {
			c.Failf("expectations pass in spite of deviation of %v: %s", b.what, data)
		}
		c.Count("deviating", 1)
		b.undo()
	}
	c.malformed(e, s)
}

// malformed expectations must not be taken for expectations that are always met.
func (c *Case) malformed(e *expected, s *Spec) {
	r := c.R
	var doc map[string]any
	if err := json.Unmarshal(e.data(), &doc); err != nil {
		panic(err)
	}
	ex := doc["expected"].(map[string]any)
	list := func(key string) map[string]any {
		if ex[key] == nil {
			ex[key] = map[string]any{}
		}
		return ex[key].(map[string]any)
	}
	node := s.Nodes[r.Intn(len(s.Nodes))].ID
	elem := s.Elems[r.Intn(len(s.Elems))].ID
	add := func(m map[string]any, key string, v any) {
		l, _ := m[key].([]any)
		at := r.Intn(len(l) + 1)
		l = append(l, nil)
		copy(l[at+1:], l[at:])
		l[at] = v
		m[key] = l
	}
	ip := func(f func(m map[string]any)) {
		m := map[string]any{"kind": "Nx", "degree": 0}
		f(m)
		add(list("interpolation"), elem, m)
	}
	what := ""
	switch r.Intn(13) {
	case 0:
		what = "unknown field"
		ex[pick(r, "primaries", "reactions", "tol", "fail")] = map[string]any{}
	case 1:
		what = "no expectations"
		delete(doc, "expected")
	case 2:
		what = "unknown degree of freedom"
		add(list(pick(r, "primary", "reaction")), node, map[string]any{pick(r, "U", "Fxx", "phi", "Nx"): 0})
	case 3:
		what = "unknown quantity"
		ip(func(m map[string]any) { m["kind"] = pick(r, "N", "", "Fx", "nX") })
	case 4:
		what = "wrong size of range"
		ip(func(m map[string]any) { m["range"] = pick(r, []float64{1}, []float64{0, 1, 2}) })
	case 5:
		what = "sample that isn't a pair"
		ip(func(m map[string]any) {
			m["eval"] = pick(r, [][]float64{{1}}, [][]float64{{0, 0}, {}}, [][]float64{{0, 0, 0}})
		})
	case 6:
		what = "too many boundary values"
		ip(func(m map[string]any) { m["boundary"] = []float64{0, 0, 0} })
	case 7:
		what = "unknown field of polynomial"
		ip(func(m map[string]any) { m[pick(r, "bound", "evaluate", "value")] = []float64{0} })
	case 8:
		what = "unknown tolerance"
		t := map[string]any{"displacement": 1e-3}
		ex["tolerance"] = t
	case 9:
		what = "invalid regular expression"
		ex["failure"] = pick(r, "(", "a[", "*")
	case 10:
		what = "wrong type"
		ex[pick(r, "primary", "reaction", "interpolation", "tolerance")] = 17
	case 11:
		what = "wrong type of value"
		add(list(pick(r, "primary", "reaction")), node, map[string]any{"Ux": "zero"})
	case 12:
		what = "wrong type of degree"
		ip(func(m map[string]any) { m["degree"] = pick[any](r, 0.5, "1", []int{1}) })
	}
	b, err := json.Marshal(doc)
	if err != nil {
		panic(err)
	}
	if _, err := integr.ExpectationsFromJSON(b); err == nil {
		c.Failf("malformed expectations (%v) are accepted: %s", what, b)
	}
	c.Count("malformed", 1)
}

func (c *Case) failureExpectations() {
	r := c.R
	words := []string{"singular", "Element", "NODE", "not found", "dirichlet", "determinant"}
	var msg []string
	for k := 1 + r.Intn(4); k > 0; k-- {
		msg = append(msg, pick(r, words...))
	}
	text := strings.Join(msg, " ")
	matching := pick(r, msg...)
	if r.p(0.4) {
		matching = strings.ToLower(matching)
	}
	if r.p(0.3) {
		matching = "." + matching[1:] + ".*"
	}
	other := pick(r, "overflow", "^xyz", "solver [0-9]+")
	c.Spec([]byte(text + "/" + matching + "/" + other))
	check := func(pattern string, failure error, want bool) {
		e := &expected{Failure: &pattern}
		pass, err := evaluate(e.data(), nil, failure)
		if err != nil {
			c.Failf("failure expectation %q refused: %v", pattern, err)
		} else if pass != want {
			c.Failf("failure expectation %q and error %v: pass is %v, expected %v", pattern, failure, pass, want)
		}
	}
	check(matching, errors.New(text), true)
	check(matching, fmt.Errorf("wrapped: %w", errors.New(text)), true)
	check(other, errors.New(text), false)
	// What looks the same needn't match, and vice versa
	special := pick(r, "failure(s)", "x+y", "[0, 1]", "node?", "a|b)c(", "1.5", "$", "(?i)ELEMENT", "\\d+", "k{2}", "^singular$", "determinant*")
	if re, err := regexp.Compile(special); err == nil {
		full := text + " " + special
		if r.p(0.3) {
			full = special
		}
		check(special, errors.New(full), re.MatchString(full) || re.MatchString(strings.ToLower(full)))
	} else if _, err := evaluate((&expected{Failure: &special}).data(), nil, errors.New(text)); err == nil {
		c.Failf("invalid pattern %q accepted", special)
	}
	s, _ := Gen(r, GenOpts{MaxNodes: 3})
	sol := c.solve(s)
	if sol == nil {
		return
	}
	anything := pick(r, "", ".*", "^", matching, "no", "nil")
	if anything != "no" && anything != "nil" {
		check(anything, errors.New(text), true)
	}
	e := &expected{Failure: &anything}
	if pass, err := evaluate(e.data(), sol.res, nil); err != nil || pass {
		c.Failf("failure expectation %q passes without failure", anything)
	}
	c.Count("failures_expected", 1)
}
