package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"sync"
	"time"

	"github.com/lubgr/deflect/deflect"
)

// Concurrency: independent problems in different goroutines. This check is compiled with the race
// detector; a data race ends the process, which is reported as a violation.

func init() {
	register(&Check{
		ID: "C18", Quick: 300, Thorough: 2500, Run: runC18, Serial: true,
		Rule:     "groups of 4–24 goroutines that start at the same time and each parse/build, solve and query their own problems; nodes, materials, cross sections, hinges, supports, loads and JSON inputs are shared between some of them, delays and yields are injected; some problems have hundreds of elements; fresh processes whose first executions are concurrent; compiled with the race detector, each result is compared with that of a sequential run; distinct by inputs",
		Required: []string{"goroutines", "problems_sharing_inputs", "problems_solved_concurrently", "overlapping_executions", "concurrent_evaluations", "cold_starts", "large_problems"},
		Logs:     true,
	})
}

type shared struct {
	nodes []deflect.Node
	mats  map[[2]int]*deflect.Material
	loads [][]deflect.NeumannElementBC
	json  []byte

	hinges         []map[deflect.Index]struct{}
	dirichlet, neu []deflect.NodalValue
}

func (s *Spec) share() (*shared, error) {
	sh := &shared{mats: map[[2]int]*deflect.Material{}, json: s.JSON(0)}
	for _, n := range s.Nodes {
		sh.nodes = append(sh.nodes, deflect.Node{ID: n.ID, X: n.X, Y: n.Y, Z: n.Z})
	}
	for i := range s.Elems {
		e := &s.Elems[i]
		key := [2]int{e.Mat, e.CS}
		if sh.mats[key] == nil {
			cs, err := s.crossSection(e.CS)
			if err != nil {
				return nil, err
			}
			m := s.Mats[e.Mat]
			sh.mats[key] = &deflect.Material{CrossSection: cs, LinearElastic: deflect.LinearElastic{YoungsModulus: m.E, PoissonsRatio: m.Nu, Density: m.Rho}}
		}
		var bcs []deflect.NeumannElementBC
		for k := range e.Loads {
			bc, err := e.Loads[k].build()
			if err != nil {
				return nil, err
			}
			bcs = append(bcs, bc)
		}
		sh.loads = append(sh.loads, bcs)
		hinges := map[deflect.Index]struct{}{}
		for _, h := range e.Hinges {
			n := e.N0
			if h.End == 1 {
				n = e.N1
			}
			hinges[deflect.Index{NodalID: s.Nodes[n].ID, Dof: h.Dof}] = struct{}{}
		}
		sh.hinges = append(sh.hinges, hinges)
	}
	for _, d := range s.Dir {
		sh.dirichlet = append(sh.dirichlet, deflect.NodalValue{Index: s.index(nd{d.Node, d.Dof}), Value: d.Val})
	}
	for _, f := range s.Neu {
		sh.neu = append(sh.neu, deflect.NodalValue{Index: s.index(nd{f.Node, f.Dof}), Value: f.Val})
	}
	return sh, nil
}

// build creates a problem from shared inputs.
func (sh *shared) build(s *Spec) (*deflect.Problem, error) {
	p := &deflect.Problem{Nodes: sh.nodes}
	for i := range s.Elems {
		e := &s.Elems[i]
		f := deflect.NewFrame2d
		switch e.Kind {
		case "truss2d":
			f = deflect.NewTruss2d
		case "truss3d":
			f = deflect.NewTruss3d
		}
		el, err := f(e.ID, &sh.nodes[e.N0], &sh.nodes[e.N1], sh.mats[[2]int{e.Mat, e.CS}], sh.hinges[i])
		if err != nil {
			return nil, err
		}
		for _, bc := range sh.loads[i] {
			if !el.AddLoad(bc) {
				return nil, fmt.Errorf("load refused")
			}
		}
		p.Elements = append(p.Elements, el)
	}
	// Neither supports nor loads are written to by anyone, there is no spare capacity to append to either
	p.Dirichlet = sh.dirichlet[:len(sh.dirichlet):len(sh.dirichlet)]
	p.Neumann = sh.neu[:len(sh.neu):len(sh.neu)]
	for _, l := range s.Links {
		t, bc := deflect.NewInclinedSupport(s.index(nd{l.Node, l.From}), s.index(nd{l.Node, l.To}), l.Angle)
		p.EqTransforms = append(p.EqTransforms, t)
		p.Dirichlet = append(p.Dirichlet, bc)
	}
	return p, nil
}

// coldStart is executed in a process of its own, so that state which the code under test initialises on
// first use is initialised by several goroutines at the same time.
func coldStart(seed int64, name string) int {
	c := &Case{R: newRng(seed, "cold start "+name, 0), counts: map[string]int{}, max: map[string]float64{}}
	r := c.R
	type job struct {
		s    *Spec
		ref  *Ref
		json []byte
	}
	var jobs []job
	for k := 0; k < 4; k++ {
		s, ref := Gen(r, GenOpts{KappaMax: 1e7, PlainScale: true, MaxNodes: pick(r, 3, 5, 8)})
		jobs = append(jobs, job{s, ref, s.JSON(uint(r.Intn(64)))})
	}
	n := 4 + r.Intn(8)
	way := r.Intn(3)
	subs := make([]*Case, n)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < n; g++ {
		j := jobs[r.Intn(len(jobs))]
		if way == 0 {
			j = jobs[0]
		}
		sub := &Case{R: newRng(seed, fmt.Sprint("cold goroutine ", name), g), counts: map[string]int{}, max: map[string]float64{}}
		subs[g] = sub
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			var sol *Sol
			var err error
			if way < 2 || sub.R.p(0.5) {
				var p deflect.Problem
				if p, err = deflect.ProblemFromJSON(j.json); err == nil {
					sol = &Sol{s: j.s, p: &p}
					sol.res, sol.lay, err = solveProblem(&p)
				}
			} else {
				sol, err = j.s.SolveAPI()
			}
			if err != nil {
				sub.Failf("%v", err)
				return
			}
			compareRef(sub, sol, j.ref)
			sol.res.PrimaryAll()
			sol.res.ReactionAll()
			sol.res.InterpolateAll(1e-10)
			if _, err := sol.res.Primary(deflect.Index{NodalID: "?", Dof: deflect.Ux}); err == nil {
				sub.Failf("unknown node has a primary value")
			}
			if _, err := deflect.ProblemFromJSON([]byte(`{"nodes": {"A": [0, 0, 0]}}`)); err == nil {
				sub.Failf("incomplete input accepted")
			}
		}()
	}
	close(start)
	wg.Wait()
	rc := 0
	for _, sub := range subs {
		for _, m := range sub.failures {
			fmt.Println(m)
			rc = 1
		}
	}
	return rc
}

// coldStarts executes fresh processes.
func (c *Case) coldStarts(n int) {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	var wg sync.WaitGroup
	outs := make([]string, n)
	for k := 0; k < n; k++ {
		name := fmt.Sprint(c.R.Int63())
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(exe, "C18")
			cmd.Env = append(os.Environ(), "VERIF_COLD="+name, "GORACE=halt_on_error=1 exitcode=66", "GOMAXPROCS=4")
			var out bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &out
			if err := cmd.Run(); err != nil {
				outs[k] = fmt.Sprintf("fresh process %v: %v\n%.3000s", name, err, out.Bytes())
			}
		}()
	}
	wg.Wait()
	for _, o := range outs {
		if o != "" {
			c.Failf("%s", o)
		}
	}
	c.Count("cold_starts", n)
	c.Spec([]byte(fmt.Sprint("cold starts of case ", c.I)))
}

func runC18(c *Case) {
	r := c.R
	if c.I%15 == 7 {
		c.coldStarts(4)
		return
	}
	type job struct {
		s   *Spec
		ref *Ref
		seq *Sol
		sh  *shared
	}
	var jobs []job
	for k, m := 0, 1+r.Intn(4); k < m; k++ {
		var s *Spec
		var ref *Ref
		if k == 0 && c.I%10 == 3 {
			s, ref = genMany(r, GenOpts{})
			c.Count("large_problems", 1)
		} else {
			s, ref = Gen(r, GenOpts{KappaMax: 1e7, PlainScale: true, MaxNodes: pick(r, 4, 8, 15)})
		}
		c.Spec(s)
		seq, err := s.SolveAPI()
		if err != nil {
			c.Failf("%v", err)
			return
		}
		sh, err := s.share()
		if err != nil {
			c.Failf("%v", err)
			return
		}
		jobs = append(jobs, job{s, ref, seq, sh})
	}
	n := 4 + r.Intn(21)
	if len(jobs[0].s.Nodes) > 100 {
		n = 3 + r.Intn(3)
	}
	subs := make([]*Case, n)
	start := make(chan struct{})
	var wg sync.WaitGroup
	begin, end := make([]time.Time, n), make([]time.Time, n)
	var polys deflect.PolySequence
	for _, ip := range jobs[0].seq.res.InterpolateAll(0) {
		polys = append(polys, ip.Piecewise...)
	}
	users := map[int]int{}
	for g := 0; g < n; g++ {
		which := r.Intn(len(jobs))
		users[which]++
		j := jobs[which]
		sub := &Case{I: c.I, R: newRng(int64(c.I), fmt.Sprint("goroutine ", r.Int63()), g), counts: map[string]int{}, max: map[string]float64{}}
		subs[g] = sub
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					sub.Failf("panic: %v", p)
				}
			}()
			<-start
			begin[g] = time.Now()
			q := sub.R
			pause := func() {
				switch q.Intn(4) {
				case 0:
					runtime.Gosched()
				case 1:
					time.Sleep(time.Duration(q.Intn(200)) * time.Microsecond)
				}
			}
			solver, strategy := deflect.NewLinearProblemSolver(), deflect.NewCholeskySolver()
			for k := 0; k < 2; k++ {
				var p *deflect.Problem
				switch q.Intn(3) {
				case 0:
					x, err := deflect.ProblemFromJSON(j.sh.json)
					if err != nil {
						sub.Failf("json: %v", err)
						return
					}
					p = &x
				case 1:
					b, err := j.s.Build()
					if err != nil {
						sub.Failf("build: %v", err)
						return
					}
					p = b.P
				case 2:
					x, err := j.sh.build(j.s)
					if err != nil {
						sub.Failf("build: %v", err)
						return
					}
					p = x
				}
				pause()
				lay, err := deflect.NewEqLayout(p)
				if err != nil {
					sub.Failf("layout: %v", err)
					return
				}
				pause()
				res, err := solver.Solve(p, lay, strategy)
				if err != nil {
					sub.Failf("solve: %v", err)
					return
				}
				pause()
				sub.Count("problems_solved_concurrently", 1)
				sol := &Sol{s: j.s, p: p, res: res}
				compareRef(sub, sol, j.ref)
				if _, err := res.Primary(deflect.Index{NodalID: "?", Dof: deflect.Ux}); err == nil {
					sub.Failf("unknown node has a primary value")
				}
				res.PrimaryAll()
				res.ReactionAll()
				res.InterpolateAll(1e-10)
				pause()
				// Polynomials are plain values
				for i := range polys {
					if y, err := polys[i].Eval(polys[i].XE); err != nil {
						sub.Failf("evaluating a polynomial: %v, %v", y, err)
					}
					sub.Count("concurrent_evaluations", 1)
				}
			}
			end[g] = time.Now()
		}(g)
	}
	close(start)
	wg.Wait()
	overlap := 0
	for a := range begin {
		for b := range begin {
			if a < b && begin[a].Before(end[b]) && begin[b].Before(end[a]) {
				overlap++
			}
		}
	}
	c.Count("overlapping_executions", overlap)
	c.Count("goroutines", n)
	for _, u := range users {
		if u > 1 {
			c.Count("problems_sharing_inputs", u)
		}
	}
	for _, sub := range subs {
		for _, m := range sub.failures {
			c.Failf("%s", m)
		}
		for k, v := range sub.counts {
			c.Count(k, v)
		}
		for k, v := range sub.max {
			c.Max(k, v)
		}
	}
	// The sequential result is what it was before
	compareRef(c, jobs[0].seq, jobs[0].ref)
}
