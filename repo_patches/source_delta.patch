From 40559757d248b871e7516a0ed41bc151a94023fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:26 +0000
Subject: [PATCH 01/21] fix: account for prescribed displacements whenever any
 of them is non-zero

---
 deflect/linear_bvp_solver.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 89b54c6..74c541b 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -3,7 +3,6 @@ package deflect
 import (
 	"fmt"
 
-	"gonum.org/v1/gonum/floats/scalar"
 	"gonum.org/v1/gonum/mat"
 )
 
@@ -47,7 +46,7 @@ func (s *linearSolver) Solve(
 	var hasNonZeroDirichlet bool
 
 	for _, bc := range p.Dirichlet {
-		hasNonZeroDirichlet = hasNonZeroDirichlet || scalar.EqualWithinAbs(bc.Value, 0, 1e-12)
+		hasNonZeroDirichlet = hasNonZeroDirichlet || bc.Value != 0
 		d.SetVec(indices.mapOne(bc.Index), bc.Value)
 	}
 
-- 
2.43.0


From 71c3ca09ae43a98dc7e41f166835b9917be0d6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:33 +0000
Subject: [PATCH 02/21] fix: undo equation transformations in reverse order

---
 deflect/linear_bvp_solver.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 74c541b..28c909f 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -90,8 +90,10 @@ func (s *linearSolver) Solve(
 	scratch.MulVec(k11, d1)
 	r1.AddVec(r1, scratch)
 
-	for _, transform := range p.EqTransforms {
-		transform.Post(indices, r, d)
+	// Transformations don't necessarily commute (e.g. when they share a degree of freedom), so they
+	// must be undone in the opposite order of their application.
+	for i := len(p.EqTransforms) - 1; i >= 0; i-- {
+		p.EqTransforms[i].Post(indices, r, d)
 	}
 
 	err := indices.flushFailure()
-- 
2.43.0


From 95520c796185ed06e49e2eb6153b3ff854ed3357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:39 +0000
Subject: [PATCH 03/21] fix: reject polynomial evaluation beyond the end of the
 domain

---
 deflect/polynomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deflect/polynomial.go b/deflect/polynomial.go
index aa7c587..cc5cad3 100644
--- a/deflect/polynomial.go
+++ b/deflect/polynomial.go
@@ -26,7 +26,7 @@ func (p *PolyPiece) Degree() int {
 
 // Eval evaluates the polynomial at x. If x is outside of the domain, an error is returned.
 func (p *PolyPiece) Eval(x float64) (float64, error) {
-	if x+1e-10 < p.X0 || x-1e10 > p.XE {
+	if x+1e-10 < p.X0 || x-1e-10 > p.XE {
 		return 0, fmt.Errorf("%v outside of domain [%v, %v]", x, p.X0, p.XE)
 	}
 
-- 
2.43.0


From 16847c8fbe181a7f09143f1e974c3730d4e25253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:45 +0000
Subject: [PATCH 04/21] fix: remove loads from frame elements

---
 deflect/frame.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/deflect/frame.go b/deflect/frame.go
index c69e2c4..c9cb490 100644
--- a/deflect/frame.go
+++ b/deflect/frame.go
@@ -70,6 +70,11 @@ func (f *frame) AddLoad(bc NeumannElementBC) bool {
 	return f.truss.AddLoad(bc) || f.beam.AddLoad(bc)
 }
 
+func (f *frame) RemoveLoad(bc NeumannElementBC) {
+	f.truss.RemoveLoad(bc)
+	f.beam.RemoveLoad(bc)
+}
+
 func (f *frame) Interpolate(indices EqLayout, which Fct, d *mat.VecDense) PolySequence {
 	s0 := f.truss.Interpolate(indices, which, d)
 	s1 := f.beam.Interpolate(indices, which, d)
-- 
2.43.0


From 6a3532f879addab849ea6c8225299644683d3840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:10 +0000
Subject: [PATCH 05/21] fix: don't report loads as reactions at free degrees of
 freedom

---
 deflect/linear_bvp_solver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 28c909f..64e1cb8 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -90,6 +90,10 @@ func (s *linearSolver) Solve(
 	scratch.MulVec(k11, d1)
 	r1.AddVec(r1, scratch)
 
+	// There are no reactions at free dofs, but r_2 still stores the right-hand side. It must be cleared
+	// to not leak into the reactions, neither as is nor through undoing the transformations below.
+	r2.Zero()
+
 	// Transformations don't necessarily commute (e.g. when they share a degree of freedom), so they
 	// must be undone in the opposite order of their application.
 	for i := len(p.EqTransforms) - 1; i >= 0; i-- {
-- 
2.43.0


From 6dfafae90a2f939494fccfe5b959900679ac43ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:16 +0000
Subject: [PATCH 06/21] fix: keep results intact when the solver is used again

---
 deflect/linear_bvp_solver.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 64e1cb8..cf75343 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -103,10 +103,11 @@ func (s *linearSolver) Solve(
 	err := indices.flushFailure()
 
 	return &solverResult{
-		total:    s.dim,
-		net:      s.dim - s.constrained,
-		d:        s.eqn.d,
-		r:        s.eqn.r,
+		total: s.dim,
+		net:   s.dim - s.constrained,
+		// The solver re-uses its buffers, so the result needs its own copies
+		d:        mat.VecDenseCopyOf(d),
+		r:        mat.VecDenseCopyOf(r),
 		indices:  indices,
 		elements: p.Elements,
 	}, err
-- 
2.43.0


From cffdfa6b58ecfbab0417d3968dfc839ed3d9f33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:23 +0000
Subject: [PATCH 07/21] fix: return an error for problems with no or too many
 Dirichlet BCs

---
 deflect/linear_bvp_solver.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index cf75343..ff430be 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -1,6 +1,7 @@
 package deflect
 
 import (
+	"errors"
 	"fmt"
 
 	"gonum.org/v1/gonum/mat"
@@ -114,8 +115,13 @@ func (s *linearSolver) Solve(
 }
 
 func (s *linearSolver) initialise(dim, constrained int) error {
-	if dim == constrained {
+	switch {
+	case dim == constrained:
 		return fmt.Errorf("all %v degrees of freedom have Dirichlet BC, no need to solve this", dim)
+	case constrained == 0:
+		return errors.New("can't solve a problem with no Dirichlet BC")
+	case dim < constrained:
+		return fmt.Errorf("got %v Dirichlet BCs for only %v degrees of freedom", constrained, dim)
 	}
 
 	s.dim = dim
-- 
2.43.0


From ebc389338ba86bacf1a26138299b60a3001fe45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:29 +0000
Subject: [PATCH 08/21] fix: allow inclined supports to be used with systems of
 different size

---
 deflect/inclined_support.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/deflect/inclined_support.go b/deflect/inclined_support.go
index 9d905a2..f660ea1 100644
--- a/deflect/inclined_support.go
+++ b/deflect/inclined_support.go
@@ -33,8 +33,7 @@ func (l *inclinedSupport) Pre(indices EqLayout, k *mat.SymDense, r, d *mat.VecDe
 	// Initialise the buffer if necessary. We might want to think about sharing the same buffer
 	// between multiple inclinedSupport instances at some point, since re-using the buffer would be
 	// more efficient.
-	if l.irow == nil {
-		dim := k.SymmetricDim()
+	if dim := k.SymmetricDim(); l.irow == nil || l.irow.Len() != dim {
 		l.irow = mat.NewVecDense(dim, nil)
 		l.jrow = mat.NewVecDense(dim, nil)
 	}
-- 
2.43.0


From 49dc7750bd2a9f930505bd79cf55c5e5438ed3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:00 +0000
Subject: [PATCH 09/21] fix: don't lose index lookup failures in copies of the
 layout

---
 deflect/eq_layout.go         | 27 +++++++++++++++++++++------
 deflect/linear_bvp_solver.go |  3 +++
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/deflect/eq_layout.go b/deflect/eq_layout.go
index afa78c8..2ab8559 100644
--- a/deflect/eq_layout.go
+++ b/deflect/eq_layout.go
@@ -16,8 +16,13 @@ import (
 // populated with the erroneous index mapping can't be used. In the context of tangent/residual
 // assembly, the solver process should probably be aborted.
 type EqLayout struct {
-	indices  map[Index]int
-	inverse  []Index
+	indices map[Index]int
+	inverse []Index
+	// Layouts are passed by value, the pointer makes sure that lookup failures aren't lost in copies.
+	*lookupFailures
+}
+
+type lookupFailures struct {
 	failures int
 	failed   []string
 }
@@ -59,6 +64,10 @@ func (el *EqLayout) unmap(i int) (isym Index) {
 
 func (el *EqLayout) saveFailure(ok bool, symbolic Index) {
 	if !ok {
+		if el.lookupFailures == nil {
+			el.lookupFailures = &lookupFailures{}
+		}
+
 		el.failures++
 
 		if len(el.failed) < 5 {
@@ -71,7 +80,7 @@ func (el *EqLayout) saveFailure(ok bool, symbolic Index) {
 // error state is _not_ flushed. In order to clear the error too, use [EqLayout.flushFailure]
 // instead.
 func (el *EqLayout) failure() error {
-	if el.failures == 0 {
+	if el.lookupFailures == nil || el.failures == 0 {
 		return nil
 	}
 
@@ -89,8 +98,10 @@ func (el *EqLayout) failure() error {
 func (el *EqLayout) flushFailure() error {
 	failure := el.failure()
 
-	el.failures = 0
-	el.failed = nil
+	if el.lookupFailures != nil {
+		el.failures = 0
+		el.failed = nil
+	}
 
 	return failure
 }
@@ -103,7 +114,11 @@ func NewEqLayout(p *Problem) (EqLayout, error) {
 }
 
 func newEqLayoutDirect(indices map[Index]int) EqLayout {
-	return EqLayout{indices: indices, inverse: invertIndexMap(indices)}
+	return EqLayout{
+		indices:        indices,
+		inverse:        invertIndexMap(indices),
+		lookupFailures: &lookupFailures{},
+	}
 }
 
 // IndexMap constructs the mapping from symbolic to plain matrix indices. It returns an
diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index ff430be..e44cf6b 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -35,6 +35,9 @@ func (s *linearSolver) Solve(
 		return nil, err
 	}
 
+	// Don't share lookup failures with other users of the same layout
+	indices.lookupFailures = &lookupFailures{}
+
 	// Local typing shortcuts
 	k, r, d, scratch := s.eqn.k, s.eqn.r, s.eqn.d, s.eqn.scratch
 	k11, k12, k22 := s.eqn.k11, s.eqn.k12, s.eqn.k22
-- 
2.43.0


From 3ff41ef5395ae8c8b066ad07444768b0b687d10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 10/21] fix: reject concentrated loads beyond the end of the
 element

---
 deflect/one_dim_element.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/deflect/one_dim_element.go b/deflect/one_dim_element.go
index b72988f..446f0ad 100644
--- a/deflect/one_dim_element.go
+++ b/deflect/one_dim_element.go
@@ -3,6 +3,8 @@ package deflect
 import (
 	"fmt"
 	"slices"
+
+	"gonum.org/v1/gonum/floats/scalar"
 )
 
 func newOneDimElement(id string, n0, n1 *Node, material *Material) (oneDimElement, error) {
@@ -27,6 +29,14 @@ type oneDimElement struct {
 }
 
 func (e *oneDimElement) AddLoad(bc NeumannElementBC) bool {
+	if load, ok := bc.(*neumannConcentrated); ok {
+		l := length(e.n0, e.n1)
+
+		if load.position > l && !scalar.EqualWithinAbsOrRel(load.position, l, 1e-10, 1e-10) {
+			return false
+		}
+	}
+
 	e.loads = append(e.loads, bc)
 	return true
 }
-- 
2.43.0


From 2ecf1c8214d751bfb93798c64ba6213b935a11ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:44 +0000
Subject: [PATCH 11/21] fix: reject unknown load types on truss elements

---
 deflect/truss2d.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/deflect/truss2d.go b/deflect/truss2d.go
index 88bc1a9..b708a4f 100644
--- a/deflect/truss2d.go
+++ b/deflect/truss2d.go
@@ -122,19 +122,15 @@ func (t *truss2d) indicesAsArray() *[4]Index {
 }
 
 func (t *truss2d) AddLoad(bc NeumannElementBC) bool {
-	var kind Dof
+	supported := false
 
 	loadDispatch(bc,
-		func(load *neumannConcentrated) { kind = load.kind },
-		func(load *neumannConstant) { kind = load.kind },
-		func(load *neumannLinear) { kind = load.kind },
+		func(load *neumannConcentrated) { supported = load.kind == Ux },
+		func(load *neumannConstant) { supported = load.kind == Ux },
+		func(load *neumannLinear) { supported = load.kind == Ux },
 	)
 
-	if kind == Ux {
-		return t.oneDimElement.AddLoad(bc)
-	}
-
-	return false
+	return supported && t.oneDimElement.AddLoad(bc)
 }
 
 func (t *truss2d) Interpolate(indices EqLayout, which Fct, d *mat.VecDense) PolySequence {
-- 
2.43.0


From 73dfdf0601fb547353cf8244121e5809875a0e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:51 +0000
Subject: [PATCH 12/21] fix: reject positions of distributed loads instead of
 ignoring them

---
 deflect/problem_from_json.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deflect/problem_from_json.go b/deflect/problem_from_json.go
index 7a91aa7..a698025 100644
--- a/deflect/problem_from_json.go
+++ b/deflect/problem_from_json.go
@@ -511,12 +511,16 @@ func translateElementNeumannBC(desc *neumannDescription) (NeumannElementBC, erro
 	case "constant":
 		if numValues != 1 {
 			err = fmt.Errorf("constant load must have 1 value, got %v", numValues)
+		} else if numPos != 0 {
+			err = fmt.Errorf("constant load can't have a position, got %v", pos)
 		} else {
 			load = NewElementConstantLoad(kind, values[0])
 		}
 	case "linear":
 		if numValues != 2 {
 			err = fmt.Errorf("linear load must have 2 values, got %v", numValues)
+		} else if numPos != 0 {
+			err = fmt.Errorf("linear load can't have a position, got %v", pos)
 		} else {
 			load = NewElementLinearLoad(kind, values[0], values[1])
 		}
-- 
2.43.0


From b8f823d6c9d70738d685aa859b8b4e0a22faf9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:58 +0000
Subject: [PATCH 13/21] fix: reject inclined supports that link a degree of
 freedom to itself

---
 deflect/problem_from_json.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/deflect/problem_from_json.go b/deflect/problem_from_json.go
index a698025..669eef4 100644
--- a/deflect/problem_from_json.go
+++ b/deflect/problem_from_json.go
@@ -566,6 +566,14 @@ func translateAngularLinks(
 				continue
 			}
 
+			if dofFrom == dofTo {
+				err = errors.Join(
+					err,
+					fmt.Errorf("inclined support on node %v needs two different dofs, got %v twice", nodeID, dofTo),
+				)
+				continue
+			}
+
 			fromIndex := Index{NodalID: nodeID, Dof: dofFrom}
 			toIndex := Index{NodalID: nodeID, Dof: dofTo}
 			transformer, bc := NewInclinedSupport(fromIndex, toIndex, desc.Angle)
@@ -574,7 +582,7 @@ func translateAngularLinks(
 		}
 	}
 
-	return links, bcs, dofs.FinaliseJoin(nil)
+	return links, bcs, dofs.FinaliseJoin(err)
 }
 
 type dofLookup struct {
-- 
2.43.0


From 8260a2b38350922a7a0d35d1a20e90000016b8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:06 +0000
Subject: [PATCH 14/21] fix: infer nodes from element IDs with non-ASCII
 characters

---
 deflect/problem_from_json.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/deflect/problem_from_json.go b/deflect/problem_from_json.go
index 669eef4..35c5ba5 100644
--- a/deflect/problem_from_json.go
+++ b/deflect/problem_from_json.go
@@ -250,14 +250,16 @@ func determineNodes(
 		return nil, nil, fmt.Errorf("expected node ID slice of length 0 or 2, got %v IDs", len(nodeIDs))
 	}
 
-	if len(elmtID) != 2 {
+	chars := []rune(elmtID)
+
+	if len(chars) != 2 {
 		return nil, nil, fmt.Errorf(
 			"can't infer connected node IDs from element ID '%v' (need 2 chars)",
 			elmtID,
 		)
 	}
 
-	n0, n1 := string(elmtID[0]), string(elmtID[1])
+	n0, n1 := string(chars[0]), string(chars[1])
 	return determineNodes(elmtID, []string{n0, n1}, nodes)
 }
 
-- 
2.43.0


From 5024e524d81e68ea142e7e2fe8c7ffb5bdedc845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 15/21] fix: report numerically singular systems instead of
 meaningless results

---
 deflect/cholesky.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/deflect/cholesky.go b/deflect/cholesky.go
index 1cef408..4f3430d 100644
--- a/deflect/cholesky.go
+++ b/deflect/cholesky.go
@@ -8,6 +8,9 @@ import (
 
 type cholesky struct{}
 
+// A pivot with a smaller ratio to its diagonal entry has hardly any digits left, and is deemed zero.
+const minRelativePivot = 1e-13
+
 func (c *cholesky) SolveLinearSystem(a mat.Symmetric, b, x *mat.VecDense) (result error) {
 	// Gonum panics when the input matrix is singular. Since we'd like to try and handle such a case
 	// more gracefully, we turn this into an error instead.
@@ -24,6 +27,13 @@ func (c *cholesky) SolveLinearSystem(a mat.Symmetric, b, x *mat.VecDense) (resul
 		return fmt.Errorf("failed to compute Cholesky factorisation, deteterminant = %v", det)
 	}
 
+	// Rounding can turn the zero pivot of a singular matrix into a tiny positive one
+	for i, u := 0, ch.RawU(); i < a.SymmetricDim(); i++ {
+		if pivot := u.At(i, i); pivot*pivot < minRelativePivot*a.At(i, i) {
+			return fmt.Errorf("coefficient matrix is numerically singular, pivot %v of row %v vanishes", pivot, i)
+		}
+	}
+
 	if err := ch.SolveVecTo(x, b); err != nil {
 		det := ch.Det()
 		return fmt.Errorf("failed to solve Cholesky-factorised system, det = %v", det)
-- 
2.43.0


From c9f9a5174a245e9a1728c391fe591183caefdf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:55 +0000
Subject: [PATCH 16/21] fix: detect singular systems independent of units and
 stiffness ratios

---
 deflect/cholesky.go | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/deflect/cholesky.go b/deflect/cholesky.go
index 4f3430d..c5372c6 100644
--- a/deflect/cholesky.go
+++ b/deflect/cholesky.go
@@ -2,14 +2,15 @@ package deflect
 
 import (
 	"fmt"
+	"math"
 
 	"gonum.org/v1/gonum/mat"
 )
 
 type cholesky struct{}
 
-// A pivot with a smaller ratio to its diagonal entry has hardly any digits left, and is deemed zero.
-const minRelativePivot = 1e-13
+// Solutions with a larger condition number have hardly any valid digits, and are deemed meaningless.
+const maxCondition = 1e13
 
 func (c *cholesky) SolveLinearSystem(a mat.Symmetric, b, x *mat.VecDense) (result error) {
 	// Gonum panics when the input matrix is singular. Since we'd like to try and handle such a case
@@ -20,25 +21,47 @@ func (c *cholesky) SolveLinearSystem(a mat.Symmetric, b, x *mat.VecDense) (resul
 		}
 	}()
 
+	// Scaling the diagonal to one makes the condition number independent of the physical units and
+	// stiffness ratios that are involved, so that it can tell if the matrix is numerically singular.
+	n := a.SymmetricDim()
+	scale := mat.NewVecDense(n, nil)
+	scaled := mat.NewSymDense(n, nil)
+
+	for i := range n {
+		diag := a.At(i, i)
+		if !(diag > 0) {
+			return fmt.Errorf("failed to compute Cholesky factorisation, diagonal entry %v = %v", i, diag)
+		}
+		scale.SetVec(i, 1/math.Sqrt(diag))
+	}
+
+	for i := range n {
+		for j := i; j < n; j++ {
+			scaled.SetSym(i, j, a.At(i, j)*scale.AtVec(i)*scale.AtVec(j))
+		}
+	}
+
 	var ch mat.Cholesky
 
-	if ok := ch.Factorize(a); !ok {
+	if ok := ch.Factorize(scaled); !ok {
 		det := ch.Det()
 		return fmt.Errorf("failed to compute Cholesky factorisation, deteterminant = %v", det)
 	}
 
-	// Rounding can turn the zero pivot of a singular matrix into a tiny positive one
-	for i, u := 0, ch.RawU(); i < a.SymmetricDim(); i++ {
-		if pivot := u.At(i, i); pivot*pivot < minRelativePivot*a.At(i, i) {
-			return fmt.Errorf("coefficient matrix is numerically singular, pivot %v of row %v vanishes", pivot, i)
-		}
+	if cond := ch.Cond(); !(cond < maxCondition) {
+		return fmt.Errorf("coefficient matrix is numerically singular, condition number %v", cond)
 	}
 
-	if err := ch.SolveVecTo(x, b); err != nil {
+	scaledRHS := mat.NewVecDense(n, nil)
+	scaledRHS.MulElemVec(b, scale)
+
+	if err := ch.SolveVecTo(x, scaledRHS); err != nil {
 		det := ch.Det()
 		return fmt.Errorf("failed to solve Cholesky-factorised system, det = %v", det)
 	}
 
+	x.MulElemVec(x, scale)
+
 	return nil
 }
 
-- 
2.43.0


From eb7f7220194151d395f36681593bef9445ff116f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:51 +0000
Subject: [PATCH 17/21] fix: reject materials with non-positive Young's modulus

---
 deflect/problem_from_json.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deflect/problem_from_json.go b/deflect/problem_from_json.go
index 35c5ba5..d0e703f 100644
--- a/deflect/problem_from_json.go
+++ b/deflect/problem_from_json.go
@@ -320,6 +320,8 @@ func translateMaterials(from map[string]matDescription) (map[string]LinearElasti
 
 		if !found0 || !found1 || !found2 {
 			return materials, fmt.Errorf("material parameters 'E', 'nu', and/or 'rho' not found")
+		} else if E <= 0 {
+			return materials, fmt.Errorf("non-positive Young's modulus of material '%v': %v", id, E)
 		}
 
 		materials[id] = LinearElastic{
-- 
2.43.0


From effc818511b9e769e205ea525de83b042d761b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 18/21] fix: Reject negative roll angle of constants cross
 section

The documentation promises an error for negative optional parameters (and the rectangle reports one),
but only Ixx was checked.
---
 deflect/cross_sections.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deflect/cross_sections.go b/deflect/cross_sections.go
index 9fcb4ae..c60502d 100644
--- a/deflect/cross_sections.go
+++ b/deflect/cross_sections.go
@@ -46,6 +46,10 @@ func NewConstantsCrossSections(param map[string]float64) (CrossSection, error) {
 		err = errors.Join(err, fmt.Errorf("negative cross section constant Ixx = %v", cs.ixx))
 	}
 
+	if cs.roll < 0 {
+		err = errors.Join(err, fmt.Errorf("negative roll angle = %v", cs.roll))
+	}
+
 	return &cs, err
 }
 
-- 
2.43.0


From 0b4a5354ab9984439810e5bf5597c849de2166fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:53 +0000
Subject: [PATCH 19/21] fix: keep results unaffected by later changes of
 elements

Interpolations are evaluated lazily, so adding or removing loads for the
next load case silently changed the result of the previous one.
---
 deflect/beam2d.go            |  4 ++++
 deflect/frame.go             |  6 ++++++
 deflect/linear_bvp_solver.go | 18 +++++++++++++++++-
 deflect/one_dim_element.go   | 13 +++++++++++++
 deflect/truss2d.go           |  4 ++++
 deflect/truss3d.go           |  4 ++++
 6 files changed, 48 insertions(+), 1 deletion(-)

diff --git a/deflect/beam2d.go b/deflect/beam2d.go
index 4a41b60..9b49825 100644
--- a/deflect/beam2d.go
+++ b/deflect/beam2d.go
@@ -305,3 +305,7 @@ func (b *beam2d) Indices(set map[Index]struct{}) {
 		set[index] = struct{}{}
 	}
 }
+
+func (b *beam2d) snapshot() Element {
+	return &beam2d{oneDimElement: b.copied(), hinges: b.hinges}
+}
diff --git a/deflect/frame.go b/deflect/frame.go
index c9cb490..d14b762 100644
--- a/deflect/frame.go
+++ b/deflect/frame.go
@@ -81,3 +81,9 @@ func (f *frame) Interpolate(indices EqLayout, which Fct, d *mat.VecDense) PolySe
 
 	return append(s0, s1...)
 }
+
+func (f *frame) snapshot() Element {
+	parts := snapshotElements([]Element{f.truss, f.beam})
+
+	return &frame{oneDimElement: f.copied(), truss: parts[0], beam: parts[1]}
+}
diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index e44cf6b..4530994 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -113,10 +113,26 @@ func (s *linearSolver) Solve(
 		d:        mat.VecDenseCopyOf(d),
 		r:        mat.VecDenseCopyOf(r),
 		indices:  indices,
-		elements: p.Elements,
+		elements: snapshotElements(p.Elements),
 	}, err
 }
 
+// snapshotElements copies the given elements where possible, so that changing them later (e.g. adding
+// or removing loads for another load case) doesn't affect results that are evaluated lazily.
+func snapshotElements(elements []Element) []Element {
+	result := make([]Element, len(elements))
+
+	for i, e := range elements {
+		if copyable, ok := e.(interface{ snapshot() Element }); ok {
+			result[i] = copyable.snapshot()
+		} else {
+			result[i] = e
+		}
+	}
+
+	return result
+}
+
 func (s *linearSolver) initialise(dim, constrained int) error {
 	switch {
 	case dim == constrained:
diff --git a/deflect/one_dim_element.go b/deflect/one_dim_element.go
index 446f0ad..bf575c7 100644
--- a/deflect/one_dim_element.go
+++ b/deflect/one_dim_element.go
@@ -55,6 +55,19 @@ func (e *oneDimElement) RemoveLoad(bc NeumannElementBC) {
 	}
 }
 
+// copied returns a copy that isn't affected by subsequent changes of e.
+func (e *oneDimElement) copied() oneDimElement {
+	n0, n1, material := *e.n0, *e.n1, *e.material
+
+	return oneDimElement{
+		id:       e.id,
+		n0:       &n0,
+		n1:       &n1,
+		material: &material,
+		loads:    slices.Clone(e.loads),
+	}
+}
+
 func (e *oneDimElement) NumNodes() uint {
 	return 2
 }
diff --git a/deflect/truss2d.go b/deflect/truss2d.go
index b708a4f..605c345 100644
--- a/deflect/truss2d.go
+++ b/deflect/truss2d.go
@@ -225,3 +225,7 @@ func (t *truss2d) Indices(set map[Index]struct{}) {
 		set[index] = struct{}{}
 	}
 }
+
+func (t *truss2d) snapshot() Element {
+	return &truss2d{oneDimElement: t.copied(), hinges: t.hinges}
+}
diff --git a/deflect/truss3d.go b/deflect/truss3d.go
index e597ae0..dc5247d 100644
--- a/deflect/truss3d.go
+++ b/deflect/truss3d.go
@@ -151,3 +151,7 @@ func (t *truss3d) Indices(set map[Index]struct{}) {
 		set[index] = struct{}{}
 	}
 }
+
+func (t *truss3d) snapshot() Element {
+	return &truss3d{truss2d: truss2d{oneDimElement: t.copied(), hinges: t.hinges}}
+}
-- 
2.43.0


From 9fe10f7a3e46a792e87da749caa7214cc37c49e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:59 +0000
Subject: [PATCH 20/21] fix: don't hand out internal slices of solver results

Sorting or scaling the values returned by PrimaryAll or ReactionAll
changed what later queries of the same result returned.
---
 deflect/solver_result.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deflect/solver_result.go b/deflect/solver_result.go
index 4f85aa8..c7ecdcd 100644
--- a/deflect/solver_result.go
+++ b/deflect/solver_result.go
@@ -30,12 +30,12 @@ func (sr *solverResult) Reaction(i Index) (NodalValue, error) {
 
 func (sr *solverResult) PrimaryAll() []NodalValue {
 	sr.dIndexed = sr.indexPaired(sr.dIndexed, sr.d)
-	return sr.dIndexed
+	return slices.Clone(sr.dIndexed)
 }
 
 func (sr *solverResult) ReactionAll() []NodalValue {
 	sr.rIndexed = sr.indexPaired(sr.rIndexed, sr.r)
-	return sr.rIndexed
+	return slices.Clone(sr.rIndexed)
 }
 
 func (sr *solverResult) indexPaired(paired []NodalValue, raw *mat.VecDense) []NodalValue {
-- 
2.43.0


From ce694edc6f6ee706bb48cd25e9300292d829fd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:26 +0000
Subject: [PATCH 21/21] fix: an empty range of an interpolation expectation
 spans the entire element

---
 integr/expectations.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/integr/expectations.go b/integr/expectations.go
index f1a0386..b925771 100644
--- a/integr/expectations.go
+++ b/integr/expectations.go
@@ -163,9 +163,9 @@ func (e *interpolationExpectation) findPolySegment(
 
 	// If no range has been given, the polynomial characteristics are expected to hold for the
 	// entire element. There must not be any sub-domains, and hence only a single coefficient set.
-	if expect.fctRange == nil && len(ps) == 1 {
+	if len(expect.fctRange) == 0 && len(ps) == 1 {
 		return ps[0], nil
-	} else if expect.fctRange == nil && len(ps) != 1 {
+	} else if len(expect.fctRange) == 0 {
 		return deflect.PolyPiece{}, fmt.Errorf("%v polynomials on element %v", len(ps), elmtID)
 	}
 
-- 
2.43.0

