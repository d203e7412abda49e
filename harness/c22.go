package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"os"

	"github.com/lubgr/deflect/deflect"
	"gonum.org/v1/gonum/mat"
)

// Linear systems: the built-in equation solver on its own, and custom equation solvers that are
// plugged in to solve a problem.

func init() {
	register(&Check{
		ID: "C22", Quick: 300000, Thorough: 1500000, Run: runC22,
		Rule:     "random linear systems (dimension up to 60, different storage and strides, diagonal scaling over 16 decades, condition numbers up to 1e8): residual in double-double, inputs and surroundings unmodified; indefinite, singular, non-finite systems must be refused; random structures solved with custom equation solvers that inspect and solve the system in double-double, or fail; distinct by input",
		Required: []string{"systems", "strided", "refused_indefinite", "refused_singular", "refused_nonfinite", "custom_strategy", "custom_strategy_failed", "failures_with_known_cause", "comparisons"},
	})
}

// A plainSymmetric only has the methods a coefficient matrix needs to have.
type plainSymmetric struct {
	n int
	v [][]float64
}

func (p plainSymmetric) Dims() (int, int)    { return p.n, p.n }
func (p plainSymmetric) At(i, j int) float64 { return p.v[i][j] }
func (p plainSymmetric) T() mat.Matrix       { return p }
func (p plainSymmetric) SymmetricDim() int   { return p.n }

func runC22(c *Case) {
	switch c.I % 6 {
	case 0:
		runCustomStrategy(c)
	case 1:
		runRefusedSystem(c)
	default:
		runSystem(c)
	}
}

func spread(r *rng, n int, decades float64) []float64 {
	d := make([]float64, n)
	for i := range d {
		d[i] = math.Pow(10, r.in(-decades/2, decades/2))
	}
	return d
}

// spd returns a symmetric positive definite matrix; its diagonal scaling is arbitrary, but the condition
// number is limited otherwise.
func spd(r *rng, n int, decades, scaling float64) [][]float64 {
	a := make([][]float64, n)
	lambda := spread(r, n, decades)
	for i := range a {
		a[i] = make([]float64, n)
		a[i][i] = lambda[i]
	}
	// Householder reflections from both sides
	for k, m := 0, r.Intn(4); k < m; k++ {
		v := make([]float64, n)
		s := 0.0
		for i := range v {
			v[i] = r.NormFloat64()
			if r.p(0.3) {
				v[i] = 0
			}
			s += v[i] * v[i]
		}
		if s == 0 {
			continue
		}
		for pass := 0; pass < 2; pass++ {
			for i := 0; i < n; i++ {
				dot := 0.0
				for j := range v {
					dot += a[i][j] * v[j]
				}
				for j := range v {
					a[i][j] -= 2 * dot / s * v[j]
				}
			}
			for i := 0; i < n; i++ {
				for j := 0; j < i; j++ {
					a[i][j], a[j][i] = a[j][i], a[i][j]
				}
			}
		}
	}
	d := spread(r, n, scaling)
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			v := 0.5 * (a[i][j] + a[j][i]) * d[i] * d[j]
			a[i][j], a[j][i] = v, v
		}
	}
	return a
}

// store wraps the values in one of several representations. The returned function tells if something
// was modified.
func (c *Case) store(a [][]float64) (m mat.Symmetric, modified func() string) {
	r := c.R
	n := len(a)
	switch r.Intn(3) {
	case 0:
		v := make([][]float64, n)
		for i := range v {
			v[i] = append([]float64(nil), a[i]...)
		}
		c.Count("storage_plain", 1)
		return plainSymmetric{n, v}, func() string { return differs(a, plainSymmetric{n, v}, 0) }
	case 1:
		m := mat.NewSymDense(n, nil)
		for i := range a {
			for j := i; j < n; j++ {
				m.SetSym(i, j, a[i][j])
			}
		}
		c.Count("storage_dense", 1)
		return m, func() string { return differs(a, m, 0) }
	}
	off, rest := r.Intn(4), r.Intn(4)
	m2 := mat.NewSymDense(off+n+rest, nil)
	all := make([][]float64, off+n+rest)
	for i := range all {
		all[i] = make([]float64, off+n+rest)
	}
	for i := range all {
		for j := i; j < len(all); j++ {
			v := 17 * r.NormFloat64()
			if i >= off && i < off+n && j >= off && j < off+n {
				v = a[i-off][j-off]
			}
			all[i][j], all[j][i] = v, v
			m2.SetSym(i, j, v)
		}
	}
	c.Count("storage_view", 1)
	return m2.SliceSym(off, off+n), func() string { return differs(all, m2, 0) }
}

func differs(a [][]float64, m mat.Matrix, tol float64) string {
	for i := range a {
		for j := range a[i] {
			if v := m.At(i, j); !(math.Abs(v-a[i][j]) <= tol) && math.Float64bits(v) != math.Float64bits(a[i][j]) {
				return fmt.Sprintf("entry %d, %d is %v, it was %v", i, j, v, a[i][j])
			}
		}
	}
	return ""
}

// A lane is a vector, possibly as part of something bigger.
func (c *Case) lane(v []float64) (x *mat.VecDense, outside func() string) {
	r := c.R
	n := len(v)
	switch r.Intn(3) {
	case 0:
		return mat.NewVecDense(n, append([]float64(nil), v...)), func() string { return "" }
	case 1:
		off, rest := r.Intn(4), r.Intn(4)
		all := make([]float64, off+n+rest)
		for i := range all {
			all[i] = r.NormFloat64()
		}
		copy(all[off:], v)
		before := append([]float64(nil), all...)
		big := mat.NewVecDense(len(all), all)
		return big.SliceVec(off, off+n).(*mat.VecDense), func() string {
			for i := range before {
				if (i < off || i >= off+n) && all[i] != before[i] {
					return fmt.Sprintf("entry %d outside of the vector is %v, it was %v", i-off, all[i], before[i])
				}
			}
			return ""
		}
	}
	c.Count("strided", 1)
	cols := 2 + r.Intn(3)
	k := r.Intn(cols)
	m := mat.NewDense(n, cols, nil)
	before := mat.NewDense(n, cols, nil)
	for i := 0; i < n; i++ {
		for j := 0; j < cols; j++ {
			w := r.NormFloat64()
			if j == k {
				w = v[i]
			}
			m.Set(i, j, w)
			before.Set(i, j, w)
		}
	}
	return m.ColView(k).(*mat.VecDense), func() string {
		for i := 0; i < n; i++ {
			for j := 0; j < cols; j++ {
				if j != k && m.At(i, j) != before.At(i, j) {
					return fmt.Sprintf("entry %d of a neighbouring column changed", i)
				}
			}
		}
		return ""
	}
}

func (c *Case) system(a [][]float64, b []float64) {
	c.Spec([]byte(fmt.Sprintf("a=%v b=%v", a, b)))
}

func runSystem(c *Case) {
	r := c.R
	n := 1 + r.Intn(12)
	if r.p(0.1) {
		n = 13 + r.Intn(48)
		if r.p(0.02) {
			n = 61 + r.Intn(200)
		}
	}
	a := spd(r, n, pick(r, 0.0, 2, 4, 8), pick(r, 0.0, 3, 8, 16))
	b := make([]float64, n)
	for i := range b {
		b[i] = r.NormFloat64() * math.Sqrt(a[i][i]) * pick(r, 1.0, 1, 1, 0, 1e6, 1e-6)
	}
	c.system(a, b)
	junk := make([]float64, n)
	for i := range junk {
		junk[i] = pick(r, 0, 1, 1e300, math.NaN(), math.Inf(1))
	}
	solver := deflect.NewCholeskySolver()
	if r.p(0.3) {
		// Anything that happened to the solver before
		k := 1 + r.Intn(5)
		m := mat.NewSymDense(k, nil)
		for i := 0; i < k; i++ {
			m.SetSym(i, i, pick(r, 1.0, 2, 3, 0, -1))
		}
		_ = solver.SolveLinearSystem(m, mat.NewVecDense(k, nil), mat.NewVecDense(k, nil))
		c.Count("solver_used_before", 1)
	}
	am, modified := c.store(a)
	bv, outB := c.lane(b)
	xv, outX := c.lane(junk)
	if sym, ok := am.(*mat.SymDense); ok && r.p(0.2) {
		// The same objects, which only differ slightly in what they contain
		for k, m := 0, 1+r.Intn(2); k < m; k++ {
			i, j := r.Intn(n), r.Intn(n)
			sym.SetSym(i, j, sym.At(i, j)*pick(r, 0.5, 0.9, 1+1e-5, 1+1e-12))
		}
		k := r.Intn(n)
		bv.SetVec(k, bv.AtVec(k)*pick(r, 1.0, 0.5, -1))
		_ = solver.SolveLinearSystem(am, bv, xv)
		bv.SetVec(k, b[k])
		for i := range a {
			for j := range a {
				sym.SetSym(i, j, a[i][j])
			}
		}
		for i := range junk {
			if r.p(0.5) {
				xv.SetVec(i, junk[i])
			}
		}
		c.Count("objects_used_before", 1)
	}
	if err := solver.SolveLinearSystem(am, bv, xv); err != nil {
		c.Failf("a positive definite system wasn't solved: %v", err)
		return
	}
	c.Count("systems", 1)
	c.Max("dimension", float64(n))
	if s := modified(); s != "" {
		c.Failf("coefficient matrix modified: %v", s)
	}
	for i := range b {
		if bv.AtVec(i) != b[i] {
			c.Failf("right-hand side modified: entry %d is %v, it was %v", i, bv.AtVec(i), b[i])
		}
	}
	if s := outB(); s != "" {
		c.Failf("right-hand side: %v", s)
	}
	if s := outX(); s != "" {
		c.Failf("solution: %v", s)
	}
	c.residual(a, b, xv)
}

func (c *Case) residual(a [][]float64, b []float64, xv *mat.VecDense) {
	n := len(b)
	if xv.Len() != n {
		c.Failf("solution has %d entries, expected %d", xv.Len(), n)
		return
	}
	for i := range a {
		sum := toDD(-b[i])
		mag := 0.0
		for j := range a {
			x := xv.AtVec(j)
			sum = sum.add(toDD(a[i][j]).mul(toDD(x)))
			mag += math.Sqrt(a[i][i]*a[j][j]) * math.Abs(x)
		}
		c.Near(sum.f(), 0, epsM*(100+20*float64(n))*(mag+math.Abs(b[i])), "residual of row %d of %d", i, n)
	}
}

func runRefusedSystem(c *Case) {
	r := c.R
	n := 2 + r.Intn(10)
	a := spd(r, n, pick(r, 0.0, 2, 4), pick(r, 0.0, 3, 8))
	b := make([]float64, n)
	for i := range b {
		b[i] = r.NormFloat64()
	}
	what := pick(r, "indefinite", "indefinite", "singular", "singular", "nonfinite")
	switch what {
	case "indefinite":
		i, j := r.Intn(n), r.Intn(n-1)
		if j >= i {
			j++
		}
		switch r.Intn(3) {
		case 0:
			a[i][i] = -a[i][i]
		case 1:
			// 2x2 minor is negative
			v := r.sign() * math.Sqrt(a[i][i]*a[j][j]) * r.in(1.01, 10)
			a[i][j], a[j][i] = v, v
		default:
			a[i][i] = 0
			if v := math.Sqrt(a[j][j]); a[i][j] == 0 {
				a[i][j], a[j][i] = v, v
			}
		}
	case "singular":
		for i := range a {
			for j := range a {
				a[i][j] = 0
			}
		}
		switch r.Intn(3) {
		case 0:
			// Structures without supports look like this: a chain or graph of springs
			edge := func(i, j int) {
				w := math.Ldexp(float64(1+r.Intn(7)), r.Intn(12)-6)
				a[i][i] += w
				a[j][j] += w
				a[i][j] -= w
				a[j][i] -= w
			}
			for i := 1; i < n; i++ {
				edge(i, r.Intn(i))
			}
			for k := r.Intn(n); k > 0; k-- {
				if i, j := r.Intn(n), r.Intn(n); i != j {
					edge(i, j)
				}
			}
		case 1:
			// Gram matrix of too few vectors
			m := 1 + r.Intn(n-1)
			g := make([][]float64, n)
			for i := range g {
				g[i] = make([]float64, m)
				for j := range g[i] {
					g[i][j] = float64(r.Intn(7) - 3)
				}
			}
			for i := range a {
				for j := range a {
					for k := range g[i] {
						a[i][j] += g[i][k] * g[j][k]
					}
				}
			}
		default:
			// A zero row and column
			a = spd(r, n, 2, 2)
			k := r.Intn(n)
			for i := range a {
				a[i][k], a[k][i] = 0, 0
			}
		}
		for i := range a {
			// Doesn't introduce rounding
			f := math.Ldexp(1, r.Intn(13)-6)
			for j := range a {
				a[i][j] *= f
				a[j][i] *= f
			}
		}
	default:
		i, j := r.Intn(n), r.Intn(n)
		v := pick(r, math.NaN(), math.Inf(1), math.Inf(-1))
		a[i][j], a[j][i] = v, v
	}
	c.system(a, b)
	am, modified := c.store(a)
	bv, _ := c.lane(b)
	xv, outX := c.lane(make([]float64, n))
	if err := deflect.NewCholeskySolver().SolveLinearSystem(am, bv, xv); err == nil {
		c.Failf("%v system solved without an error", what)
	}
	if s := modified(); s != "" {
		c.Failf("coefficient matrix modified: %v", s)
	}
	if s := outX(); s != "" {
		c.Failf("solution: %v", s)
	}
	c.Count("refused_"+what, 1)
}

// A custom strategy solves in double-double.
type customStrategy struct {
	c      *Case
	net    int
	calls  int
	fail   error
	failAt int
	keep   bool // don't touch the solution in case of failure
}

func (cs *customStrategy) SolveLinearSystem(a mat.Symmetric, b, x *mat.VecDense) error {
	c := cs.c
	cs.calls++
	n := a.SymmetricDim()
	if n != cs.net || b.Len() != n || x.Len() != n {
		c.Failf("the equation solver is called with %d equations, %d right-hand side entries, and space for %d values, expected %d", n, b.Len(), x.Len(), cs.net)
		return errors.New("dimensions")
	}
	// Symmetric positive definite: factorise
	w := make([][]dd, n)
	for i := range w {
		w[i] = make([]dd, n+1)
		for j := 0; j < n; j++ {
			if a.At(i, j) != a.At(j, i) {
				c.Failf("coefficient matrix isn't symmetric: %v and %v", a.At(i, j), a.At(j, i))
			}
			w[i][j] = toDD(a.At(i, j))
		}
		w[i][n] = toDD(b.AtVec(i))
	}
	for k := 0; k < n; k++ {
		if !(w[k][k].hi > 0) {
			c.Failf("coefficient matrix isn't positive definite, pivot %d of %d is %v", k, n, w[k][k].f())
			return errors.New("not positive definite")
		}
		for i := k + 1; i < n; i++ {
			if w[i][k].hi == 0 {
				continue
			}
			f := w[i][k].div(w[k][k])
			for j := k; j <= n; j++ {
				w[i][j] = w[i][j].sub(f.mul(w[k][j]))
			}
		}
	}
	if cs.fail != nil && cs.calls >= cs.failAt {
		for i := 0; i < n && !cs.keep; i++ {
			x.SetVec(i, math.NaN())
		}
		return cs.fail
	}
	for k := n - 1; k >= 0; k-- {
		v := w[k][n]
		for j := k + 1; j < n; j++ {
			v = v.sub(w[k][j].mul(toDD(x.AtVec(j))))
		}
		x.SetVec(k, v.div(w[k][k]).f())
	}
	return nil
}

type strategyError struct {
	why   int
	cause error
}

func (s *strategyError) Unwrap() error { return s.cause }

func (s *strategyError) Error() string { return fmt.Sprintf("strategy failed because of %d", s.why) }

func runCustomStrategy(c *Case) {
	r := c.R
	s, ref := Gen(r, GenOpts{})
	c.Spec(s)
	b, err := s.Build()
	if err != nil {
		c.Failf("build: %v", err)
		return
	}
	lay, err := deflect.NewEqLayout(b.P)
	if err != nil {
		c.Failf("layout: %v", err)
		return
	}
	net := len(s.nodeDofs()) - len(s.Dir) - len(s.Links)
	solver := deflect.NewLinearProblemSolver()
	cs := &customStrategy{c: c, net: net}
	if r.p(0.3) {
		sentinel := &strategyError{r.Intn(100), nil}
		if r.p(0.5) {
			// Well-known errors get no special treatment
			sentinel.cause = pick[error](r, mat.Condition(1e15), mat.Condition(math.Inf(1)), mat.ErrSingular, mat.ErrNotPSD, mat.ErrZeroLength,
				mat.ErrShape, io.EOF, context.Canceled, context.DeadlineExceeded, errors.ErrUnsupported, os.ErrNotExist)
			c.Count("failures_with_known_cause", 1)
		}
		var fail error = sentinel
		if r.p(0.3) {
			fail = fmt.Errorf("wrapped: %w", sentinel)
		} else if r.p(0.3) {
			fail = errors.Join(sentinel, errors.New("another one"))
		}
		if sentinel.cause != nil && r.p(0.3) {
			fail = sentinel.cause // as is
		}
		cs.fail, cs.failAt, cs.keep = fail, 1, r.p(0.5)
		_, err := solver.Solve(b.P, lay, cs)
		var as *strategyError
		if err == nil {
			c.Failf("the failure of the equation solver (%v) isn't reported", fail)
		} else if fail == sentinel.cause {
			if !errors.Is(err, fail) {
				c.Failf("the reported error %q doesn't wrap the failure of the equation solver", err)
			}
		} else if !errors.Is(err, sentinel) || !errors.As(err, &as) || as != sentinel {
			c.Failf("the reported error %q doesn't wrap the failure of the equation solver", err)
		}
		c.Count("custom_strategy_failed", 1)
		cs.fail = nil
	}
	cs.calls = 0
	res, err := solver.Solve(b.P, lay, cs)
	if err != nil {
		c.Failf("solving with a custom equation solver fails: %v", err)
		return
	}
	if cs.calls == 0 {
		c.Failf("custom equation solver isn't used")
	}
	if total, n := res.Dimension(); n != net || total != len(s.nodeDofs()) {
		c.Failf("dimensions are %v/%v, expected %v/%v", total, n, len(s.nodeDofs()), net)
	}
	c.Count("custom_strategy", 1)
	compareRef(c, &Sol{s: s, b: b, p: b.P, lay: lay, res: res}, ref)
}
