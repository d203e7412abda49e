package main

import (
	"slices"

	"github.com/lubgr/deflect/deflect"
)

func init() {
	register(&Check{
		ID:    "C07",
		Quick: 100000, Thorough: 400000,
		Rule: "random stable structure (frames, trusses, mixed, 3D; hinges, inclined supports, prescribed displacements, all load kinds) solved by the code under test and by the independent double-double reference; every nodal value, reaction and sampled field is compared; distinct by input",
		Run: func(c *Case) {
			s, ref := Gen(c.R, GenOpts{})
			c.Spec(s)
			c.countFeatures(s)
			sol := c.solve(s)
			if sol == nil {
				return
			}
			compareRef(c, sol, ref)
		},
		Required: []string{"comparisons"},
	})
}

func compareNodes(c *Case, sol *Sol, ref *Ref) {
	s := sol.s
	for i, x := range ref.dofs {
		c.Near(sol.U(x), ref.u[i], ref.tolU(i), "displacement %v/%v", s.Nodes[x.node].ID, x.dof)
		c.Near(sol.R(x), ref.reac[x], ref.tolR(i, true), "reaction %v/%v", s.Nodes[x.node].ID, x.dof)
	}
}

func compareRef(c *Case, sol *Sol, ref *Ref) {
	compareNodes(c, sol, ref)
	for i := range sol.s.Elems {
		compareFields(c, sol, i, &ref.elems[i], ref.tolField(i, true))
	}
}

func compareFields(c *Case, sol *Sol, i int, re *refElem, tol field, only ...deflect.Fct) {
	s := sol.s
	e := &s.Elems[i]
	bp := re.breakpoints()
	for _, fct := range s.quantities(e) {
		if len(only) > 0 && !slices.Contains(only, fct) {
			continue
		}
		ps := sol.poly(i, fct)
		for k := 0; k+1 < len(bp); k++ {
			for _, t := range []float64{0.03, 0.5, 0.97} {
				x := bp[k] + t*(bp[k+1]-bp[k])
				if bp[k+1]-bp[k] < 1e-6*re.l {
					continue
				}
				got, ok := ps.at(x)
				if !ok {
					c.Failf("%v on element %v isn't defined at %v", fct, e.ID, x)
					continue
				}
				c.Near(got, re.at(x).get(fct), tol.get(fct), "%v of element %v at %v", fct, e.ID, x)
			}
		}
	}
}
