package main

import "math"

// dd is a double-double number (about 32 significant digits). The reference model computes with it,
// so that differences between the reference and the code under test are due to the latter.
type dd struct{ hi, lo float64 }

func twoSum(a, b float64) dd {
	s := a + b
	bb := s - a
	return dd{s, (a - (s - bb)) + (b - bb)}
}

func quickTwoSum(a, b float64) dd {
	s := a + b
	return dd{s, b - (s - a)}
}

func twoProd(a, b float64) dd {
	p := a * b
	return dd{p, math.FMA(a, b, -p)}
}

func toDD(a float64) dd { return dd{a, 0} }

func (a dd) add(b dd) dd {
	s := twoSum(a.hi, b.hi)
	t := twoSum(a.lo, b.lo)
	s.lo += t.hi
	s = quickTwoSum(s.hi, s.lo)
	s.lo += t.lo
	return quickTwoSum(s.hi, s.lo)
}

func (a dd) neg() dd { return dd{-a.hi, -a.lo} }

func (a dd) sub(b dd) dd { return a.add(b.neg()) }

func (a dd) mul(b dd) dd {
	p := twoProd(a.hi, b.hi)
	p.lo += a.hi*b.lo + a.lo*b.hi
	return quickTwoSum(p.hi, p.lo)
}

func (a dd) div(b dd) dd {
	q1 := a.hi / b.hi
	r := a.sub(b.mul(toDD(q1)))
	q2 := r.hi / b.hi
	r = r.sub(b.mul(toDD(q2)))
	q3 := r.hi / b.hi
	q := quickTwoSum(q1, q2)
	return q.add(toDD(q3))
}

func (a dd) f() float64 { return a.hi + a.lo }

func (a dd) abs() float64 { return math.Abs(a.hi) }

func ddSum(xs ...float64) float64 {
	s := dd{}
	for _, x := range xs {
		s = s.add(toDD(x))
	}
	return s.f()
}

// ddInvert inverts a by Gauss-Jordan elimination with partial pivoting. The second return value is
// the smallest ratio between a pivot and the largest entry of the original row. A zero pivot makes it
// fail.
func ddInvert(a [][]dd) ([][]dd, bool) {
	n := len(a)
	w := make([][]dd, n)
	for i := range w {
		w[i] = make([]dd, 2*n)
		copy(w[i], a[i])
		w[i][n+i] = toDD(1)
	}
	for c := 0; c < n; c++ {
		p := c
		for r := c + 1; r < n; r++ {
			if w[r][c].abs() > w[p][c].abs() {
				p = r
			}
		}
		if w[p][c].hi == 0 {
			return nil, false
		}
		w[p], w[c] = w[c], w[p]
		inv := toDD(1).div(w[c][c])
		for j := c; j < n+c+1 && j < 2*n; j++ {
			w[c][j] = w[c][j].mul(inv)
		}
		for j := n + c + 1; j < 2*n; j++ {
			if w[c][j].hi != 0 {
				w[c][j] = w[c][j].mul(inv)
			}
		}
		for r := 0; r < n; r++ {
			if r == c || w[r][c].hi == 0 {
				continue
			}
			f := w[r][c]
			for j := c; j < 2*n; j++ {
				if w[c][j].hi != 0 {
					w[r][j] = w[r][j].sub(f.mul(w[c][j]))
				}
			}
		}
	}
	out := make([][]dd, n)
	for i := range out {
		out[i] = w[i][n:]
	}
	return out, true
}
