package main

import (
	"fmt"
	"math"

	"github.com/lubgr/deflect/deflect"
)

// Cross sections.

func init() {
	register(&Check{
		ID: "C23", Quick: 1000000, Thorough: 10000000, Run: runC23,
		Rule:     "random rectangles (aspect ratios up to 1e6, sizes over 12 decades) and constants, valid and invalid: properties against independent formulas (torsion against the series solution), symmetry, scaling and bounds; invalid values are refused; distinct by input",
		Required: []string{"rectangles", "constants", "invalid_rectangles", "invalid_constants", "torsion"},
	})
}

// torsion is the exact (series) torsion constant of a rectangle.
func torsion(b, h float64) float64 {
	a, t := math.Max(b, h), math.Min(b, h)
	sum := 0.0
	for n := 1.0; n < 200; n += 2 {
		sum += math.Tanh(n*math.Pi*a/(2*t)) / math.Pow(n, 5)
	}
	return a * t * t * t / 3 * (1 - 192/math.Pow(math.Pi, 5)*t/a*sum)
}

func rel(x, y float64) float64 {
	if x == y {
		return 0
	}
	return math.Abs(x-y) / math.Max(math.Abs(x), math.Abs(y))
}

func runC23(c *Case) {
	if c.R.p(0.6) {
		runRectangle(c)
	} else {
		runConstants(c)
	}
}

func runRectangle(c *Case) {
	r := c.R
	b := r.logIn(1e-6, 1e6)
	h := b * r.logIn(1e-6, 1e6)
	if r.p(0.5) {
		h = b * r.logIn(0.1, 10)
	}
	if r.p(0.05) {
		h = b
	}
	roll := pick(r, 0, 0, r.in(0, 7))
	valid := true
	if r.p(0.3) {
		if k := r.Intn(3); k == 2 {
			roll = -r.logIn(1e-9, 10)
			valid = false
		} else {
			v := pick(r, 0, -r.logIn(1e-9, 1e3), math.Copysign(0, -1))
			valid = false
			if k == 0 {
				b = v
			} else {
				h = v
			}
			if r.p(0.2) {
				b, h = v, v
			}
			if r.p(0.2) {
				b, h = -math.Abs(b), -math.Abs(h) // a positive area
			}
		}
	}
	c.Spec([]byte(fmt.Sprint("rectangle ", b, h, roll)))
	cs, err := deflect.NewRectangularCrossSection(b, h, roll)
	if !valid {
		c.Count("invalid_rectangles", 1)
		if err == nil {
			c.Failf("rectangle with b=%v, h=%v, roll=%v accepted", b, h, roll)
		}
		return
	}
	if err != nil {
		c.Failf("rectangle with b=%v, h=%v, roll=%v refused: %v", b, h, roll, err)
		return
	}
	c.Count("rectangles", 1)
	near := func(what string, got, want, tol float64) {
		c.Count("comparisons", 1)
		if d := rel(got, want); !(d <= tol) {
			c.Failf("%v of rectangle b=%v, h=%v is %v, expected %v (relative difference %.3g)", what, b, h, got, want, d)
		} else {
			c.Max("max_difference_of_"+what, d)
		}
	}
	near("area", cs.Area(), b*h, 1e-12)
	near("iyy", cs.Iyy(), b/12*h*h*h, 1e-12)
	near("izz", cs.Izz(), h/12*b*b*b, 1e-12)
	near("roll", cs.RollAngle(), roll, 0)
	c.Count("torsion", 1)
	near("ixx", cs.Ixx(), torsion(b, h), 0.006)
	if !(cs.Ixx() > 0) || !(cs.Ixx() <= (cs.Iyy()+cs.Izz())*(1+1e-12)) {
		c.Failf("torsion constant %v isn't between zero and the polar moment of inertia %v", cs.Ixx(), cs.Iyy()+cs.Izz())
	}

	turned, err := deflect.NewRectangularCrossSection(h, b, roll)
	if err != nil {
		c.Failf("turned rectangle refused: %v", err)
		return
	}
	near("turned_area", turned.Area(), cs.Area(), 1e-12)
	near("turned_iyy", turned.Iyy(), cs.Izz(), 1e-12)
	near("turned_izz", turned.Izz(), cs.Iyy(), 1e-12)
	near("turned_ixx", turned.Ixx(), cs.Ixx(), 1e-12)

	f := r.logIn(1e-3, 1e3)
	scaled, err := deflect.NewRectangularCrossSection(f*b, f*h, roll)
	if err != nil {
		c.Failf("scaled rectangle refused: %v", err)
		return
	}
	f4 := f * f * f * f
	near("scaled_area", scaled.Area(), cs.Area()*f*f, 1e-11)
	near("scaled_iyy", scaled.Iyy(), cs.Iyy()*f4, 1e-11)
	near("scaled_izz", scaled.Izz(), cs.Izz()*f4, 1e-11)
	near("scaled_ixx", scaled.Ixx(), cs.Ixx()*f4, 1e-11)

	wider, err := deflect.NewRectangularCrossSection(b*r.in(1.001, 3), h, 0)
	if err != nil {
		c.Failf("wider rectangle refused: %v", err)
		return
	}
	if !(wider.Ixx() > cs.Ixx()) {
		c.Failf("torsion constant of b=%v, h=%v isn't larger after increasing the width", b, h)
	}
}

func runConstants(c *Case) {
	r := c.R
	p := map[string]float64{}
	for _, k := range []string{"A", "Iyy", "Izz"} {
		p[k] = r.logIn(1e-12, 1e12)
	}
	if r.p(0.5) {
		p["Ixx"] = pick(r, 0, r.logIn(1e-12, 1e12))
	}
	if r.p(0.5) {
		p["roll"] = pick(r, 0, r.in(0, 7))
	}
	if r.p(0.2) {
		p["unrelated"] = r.NormFloat64()
	}
	valid := true
	if r.p(0.5) {
		valid = false
		for k := 1 + r.Intn(2); k > 0; k-- {
			switch name := pick(r, "A", "Iyy", "Izz", "Ixx", "roll"); {
			case name == "Ixx" || name == "roll":
				p[name] = -r.logIn(1e-12, 1e3)
			case r.p(0.3):
				delete(p, name)
			default:
				p[name] = pick(r, 0, -r.logIn(1e-12, 1e3))
			}
		}
	}
	c.Spec([]byte(fmt.Sprint("constants ", p)))
	before := map[string]float64{}
	for k, v := range p {
		before[k] = v
	}
	cs, err := deflect.NewConstantsCrossSections(p)
	if fmt.Sprint(before) != fmt.Sprint(p) {
		c.Failf("parameters modified: %v, before %v", p, before)
	}
	if !valid {
		c.Count("invalid_constants", 1)
		if err == nil {
			c.Failf("constants %v accepted", p)
		}
		return
	}
	if err != nil {
		c.Failf("constants %v refused: %v", p, err)
		return
	}
	c.Count("constants", 1)
	// Whoever created the parameters may re-use them
	for k := range p {
		p[k] = 17
	}
	for _, x := range []struct {
		key string
		got float64
	}{{"A", cs.Area()}, {"Iyy", cs.Iyy()}, {"Izz", cs.Izz()}, {"Ixx", cs.Ixx()}, {"roll", cs.RollAngle()}} {
		c.Count("comparisons", 1)
		if x.got != before[x.key] {
			c.Failf("constant %v is %v, expected %v", x.key, x.got, before[x.key])
		}
	}
}
