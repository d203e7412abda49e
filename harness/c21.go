package main

import (
	"math"
	"math/big"

	"github.com/lubgr/deflect/deflect"
)

// Piecewise polynomials as values that are handed out to users.

func init() {
	register(&Check{
		ID: "C21", Quick: 200000, Thorough: 1000000, Run: runC21,
		Rule:     "random piecewise polynomials (up to 8 pieces, degree up to 8, repeated and nearly repeated pieces, gaps, trailing zeros and almost-zeros): evaluation against exact rational arithmetic, interval lookup, trimming and merging with a tolerance against a model; distinct by input",
		Required: []string{"evaluations", "outside", "lookups_found", "lookups_not_found", "merged", "not_merged_because_of_gap", "trimmed", "truncated_constants"},
	})
}

// exactly evaluates in rational arithmetic.
func exactly(coeff []float64, x float64) (y, mag float64) {
	sum, bx := new(big.Rat), new(big.Rat).SetFloat64(x)
	abs := new(big.Rat)
	pow := big.NewRat(1, 1)
	for _, a := range coeff {
		t := new(big.Rat).Mul(new(big.Rat).SetFloat64(a), pow)
		sum.Add(sum, t)
		abs.Add(abs, t.Abs(t))
		pow.Mul(pow, bx)
	}
	y, _ = sum.Float64()
	mag, _ = abs.Float64()
	return y, mag
}

func copySeq(ps deflect.PolySequence) deflect.PolySequence {
	out := make(deflect.PolySequence, len(ps))
	for i, p := range ps {
		out[i] = deflect.PolyPiece{X0: p.X0, XE: p.XE, Coeff: append([]float64(nil), p.Coeff...)}
	}
	return out
}

func runC21(c *Case) {
	r := c.R
	tol := math.Pow(10, r.in(-12, -2))
	if r.p(0.1) {
		tol = 0
	}
	scale := math.Pow(10, r.in(-3, 6))
	// Values are either clearly within or clearly outside of the tolerance
	small := func() float64 { return r.sign() * 0.3 * tol * r.Float64() }
	value := func() float64 {
		for {
			v := r.sign() * scale * math.Pow(10, r.in(-2, 2))
			if math.Abs(v) > 10*tol {
				return v
			}
			scale = 100 * tol
		}
	}
	n := 1 + r.Intn(8)
	var ps deflect.PolySequence
	x := pick(r, 0, 0, r.in(-5, 5))
	start := x
	group := 0
	groups := []int{}        // pieces with the same number are approximately identical and contiguous
	trimmed := [][]float64{} // expected after trimming
	gaps := 0
	for i := 0; i < n; i++ {
		l := r.in(0.1, 3)
		gap := false
		if i > 0 && r.p(0.15) {
			x += math.Max(0.5, 40*tol*(1+math.Abs(x)))
			gap = true
		}
		p := deflect.PolyPiece{X0: x, XE: x + l}
		x += l
		if i > 0 && r.p(0.4) {
			// Approximately the same as the one before, and each of its group
			first := i - 1
			for first > 0 && groups[first-1] == groups[i-1] {
				first--
			}
			for _, a := range trimmed[first] {
				b := a
				if a != 0 && tol > 0 && r.p(0.5) {
					b = a + 0.8*tol*(r.Float64()-0.5)
				}
				p.Coeff = append(p.Coeff, b)
			}
			if gap {
				group++
				gaps++
			}
		} else if i > 0 && r.p(0.3) && tol > 0 && tol < 0.2 {
			// Differs by somewhat more than the tolerance from all of the group before
			p.Coeff = append([]float64(nil), trimmed[i-1]...)
			k := r.Intn(len(p.Coeff))
			first, a := i-1, math.Abs(p.Coeff[k])
			for ; first >= 0 && groups[first] == groups[i-1]; first-- {
				a = math.Max(a, math.Abs(trimmed[first][k]))
			}
			p.Coeff[k] = math.Copysign(a+r.in(1.9, 5)*tol*math.Max(1, a), p.Coeff[k])
			c.Count("slightly_different", 1)
			group++
		} else {
			for k, m := 0, 1+r.Intn(9); k < m; k++ {
				v := value()
				if r.p(0.2) {
					v = 0
				} else if r.p(0.1) {
					v = small()
				}
				p.Coeff = append(p.Coeff, v)
			}
			if p.Coeff[0] == 0 && len(p.Coeff) == 1 && r.p(0.5) {
				p.Coeff[0] = small()
			}
			// Never approximately the same as the previous one
			if i > 0 {
				for math.Abs(p.Coeff[0]-trimmed[i-1][0]) <= 10*tol*(1+math.Abs(p.Coeff[0])+math.Abs(trimmed[i-1][0])) {
					v := value()
					p.Coeff[0] = (v + math.Copysign(20*tol, v)) * 1.5
					scale *= 1.7
					if tol >= 0.04 {
						// The relative tolerance makes most numbers the same: use another degree instead
						p.Coeff = append(p.Coeff, 0)
						p.Coeff = p.Coeff[:len(p.Coeff)-1]
						for len(p.Coeff) <= len(trimmed[i-1]) {
							p.Coeff = append(p.Coeff, value())
						}
						break
					}
				}
			}
			group++
		}
		t := append([]float64(nil), p.Coeff...)
		for len(t) > 1 && math.Abs(t[len(t)-1]) <= 0.5*tol {
			t = t[:len(t)-1]
		}
		if math.Abs(t[0]) <= 0.5*tol {
			t[0] = 0
		}
		// Trailing zeros and almost zeros
		for r.p(0.2) {
			p.Coeff = append(p.Coeff, pick(r, 0, small()))
		}
		ps = append(ps, p)
		trimmed = append(trimmed, t)
		groups = append(groups, group)
	}
	// Different groups that happen to be equal after trimming are excluded
	for i := 1; i < n; i++ {
		if groups[i] != groups[i-1] && ps[i].X0 == ps[i-1].XE && len(trimmed[i]) == len(trimmed[i-1]) {
			same := true
			for k := range trimmed[i] {
				d := math.Abs(trimmed[i][k] - trimmed[i-1][k])
				if d > 1.5*tol*math.Max(1, math.Max(math.Abs(trimmed[i][k]), math.Abs(trimmed[i-1][k]))) {
					same = false
				}
			}
			if same {
				c.Count("close_calls_skipped", 1)
				return
			}
		}
	}
	orig := copySeq(ps)
	c.Spec(map[string]any{"pieces": orig, "tolerance": tol})

	for i := range ps {
		p := &ps[i]
		if p.Degree() != len(p.Coeff)-1 {
			c.Failf("degree %v of %v", p.Degree(), p.Coeff)
		}
		for _, x := range []float64{p.X0, p.XE, p.X0 + r.Float64()*(p.XE-p.X0)} {
			c.Count("evaluations", 1)
			y, err := p.Eval(x)
			if err != nil {
				c.Failf("evaluation at %v in [%v, %v]: %v", x, p.X0, p.XE, err)
				continue
			}
			want, mag := exactly(p.Coeff, x)
			c.Near(y, want, 1e-14*mag*float64(len(p.Coeff)), "%v at %v", p.Coeff, x)
		}
		for _, x := range []float64{p.X0 - pick(r, 1e-8, 1e-3, 1, 1e10), p.XE + pick(r, 1e-8, 1e-3, 1, 1e10)} {
			c.Count("outside", 1)
			if y, err := p.Eval(x); err == nil {
				c.Failf("evaluation at %v outside of [%v, %v] returns %v", x, p.X0, p.XE, y)
			}
		}
		c.Count("lookups_found", 1)
		if k := ps.IntervalIndex(p.X0, p.XE); k != i {
			c.Failf("interval [%v, %v] is at %d, expected %d", p.X0, p.XE, k, i)
		}
		eps := 1e-12
		if k := ps.IntervalIndex(p.X0+eps, p.XE-eps); k != i {
			c.Failf("interval [%v, %v] is at %d, expected %d", p.X0+eps, p.XE-eps, k, i)
		}
		c.Count("lookups_not_found", 1)
		for _, d := range [][2]float64{{1e-3, 0}, {0, 1e-3}, {-1e-3, 0}, {0, -1e-3}, {1e3, 1e3}} {
			if k := ps.IntervalIndex(p.X0+d[0], p.XE+d[1]); k != -1 {
				c.Failf("interval [%v, %v] is at %d", p.X0+d[0], p.XE+d[1], k)
			}
		}
	}
	if ps.IntervalIndex(start, x) != -1 && n > 1 {
		c.Failf("the whole range is found at %d", ps.IntervalIndex(start, x))
	}
	for i := range ps {
		if !sameSlice(ps[i].Coeff, orig[i].Coeff) || ps[i].X0 != orig[i].X0 || ps[i].XE != orig[i].XE {
			c.Failf("reading changes piece %d from %v to %v", i, orig[i], ps[i])
		}
	}

	ps.TrimTrailingZeros(tol)
	for i := range ps {
		if !sameSlice(ps[i].Coeff, trimmed[i]) {
			c.Failf("%v trimmed with %v is %v, expected %v", orig[i].Coeff, tol, ps[i].Coeff, trimmed[i])
			return
		}
		if ps[i].X0 != orig[i].X0 || ps[i].XE != orig[i].XE {
			c.Failf("trimming changes the interval from [%v, %v] to [%v, %v]", orig[i].X0, orig[i].XE, ps[i].X0, ps[i].XE)
		}
		c.Count("trimmed", len(orig[i].Coeff)-len(trimmed[i]))
		if orig[i].Coeff[0] != 0 && trimmed[i][0] == 0 {
			c.Count("truncated_constants", 1)
		}
	}
	before := copySeq(ps)
	ps = ps.CompactIdentical(tol)
	k := 0
	for i := 0; i < n; {
		j := i
		for j+1 < n && groups[j+1] == groups[i] {
			j++
		}
		if k >= len(ps) {
			c.Failf("%v merged with %v is %v, piece %d is missing", before, tol, ps, k)
			return
		}
		p := ps[k]
		if math.Abs(p.X0-before[i].X0) > 1e-9*(1+math.Abs(p.X0)) || math.Abs(p.XE-before[j].XE) > 1e-9*(1+math.Abs(p.XE)) || len(p.Coeff) != len(before[i].Coeff) {
			c.Failf("%v merged with %v is %v, piece %d should span %v to %v", before, tol, ps, k, before[i].X0, before[j].XE)
			return
		}
		for m := range p.Coeff {
			if math.Abs(p.Coeff[m]-before[i].Coeff[m]) > 0.85*tol {
				c.Failf("%v merged with %v is %v, coefficient %d of piece %d is wrong", before, tol, ps, m, k)
				return
			}
		}
		c.Count("merged", j-i)
		i = j + 1
		k++
	}
	if k != len(ps) {
		c.Failf("%v merged with %v is %v, expected %d pieces", before, tol, ps, k)
	}
	c.Count("not_merged_because_of_gap", gaps)
}
