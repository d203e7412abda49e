package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"

	"github.com/lubgr/deflect/deflect"
)

type rng struct{ *rand.Rand }

func newRng(seed int64, name string, i int) *rng {
	h := uint64(1469598103934665603)
	mix := func(b byte) { h ^= uint64(b); h *= 1099511628211 }
	for _, b := range []byte(fmt.Sprintf("%d/%s/%d", seed, name, i)) {
		mix(b)
	}
	return &rng{rand.New(rand.NewSource(int64(h >> 1)))}
}

func (r *rng) p(x float64) bool { return r.Float64() < x }

func (r *rng) in(a, b float64) float64 { return a + (b-a)*r.Float64() }

func (r *rng) sign() float64 {
	if r.p(0.5) {
		return -1
	}
	return 1
}

func (r *rng) logIn(a, b float64) float64 { return math.Exp(r.in(math.Log(a), math.Log(b))) }

func pick[T any](r *rng, xs ...T) T { return xs[r.Intn(len(xs))] }

// GenOpts narrows down what is generated.
type GenOpts struct {
	Kind         string // "", frame, truss, truss3d, mixed, mixed3d, beam
	NoHinges     bool
	NoLinks      bool
	NoPrescribed bool // all prescribed values are zero
	NoLoads      bool
	Prescribed   bool // at least one non-zero prescribed value
	MaxNodes     int
	PlainIDs     bool
	KappaMax     float64
	PlainScale   bool // no extreme magnitudes of loads, dimensions
	Big          bool // allow large structures
	Close        bool // loads may be much closer to each other and to the ends
}

// angleValue prefers special angles.
func (r *rng) angleValue() float64 {
	switch r.Intn(5) {
	case 0:
		return float64(r.Intn(17)-8) * math.Pi / 4
	case 1:
		return float64(r.Intn(25)-12) * math.Pi / 6
	case 2:
		// Almost a special angle
		return float64(r.Intn(17)-8)*math.Pi/4 + r.sign()*math.Pow(10, r.in(-9, -1))
	}
	return r.in(-2*math.Pi, 2*math.Pi)
}

var idStyles = []func(r *rng, i int) string{
	func(r *rng, i int) string {
		return string(rune('A'+i%26)) + map[bool]string{true: "", false: fmt.Sprint(i / 26)}[i < 26]
	},
	func(r *rng, i int) string { return fmt.Sprint(i) },
	func(r *rng, i int) string { return "N" + fmt.Sprint(i) },
	func(r *rng, i int) string { return fmt.Sprintf("node-%03d", 999-i) },
	func(r *rng, i int) string {
		return string(rune('a'+(i*7)%26)) + map[bool]string{true: "", false: fmt.Sprint(i / 26)}[i < 26]
	},
	func(r *rng, i int) string { return string(rune(0x03b1 + i)) },
	func(r *rng, i int) string { // long, with common prefix and suffix
		return strings.Repeat("long", 3+20*(i%2)) + fmt.Sprint(i) + strings.Repeat("-", 8)
	},
	func(r *rng, i int) string { // differing by case or white space only
		id := strings.Repeat("n", 1+i/6)
		return []string{id, strings.ToUpper(id), " " + id, id + " ", " " + id + " ", id + "\t"}[i%6]
	},
	func(r *rng, i int) string {
		s := "A"
		for k := 0; k < i; k++ {
			s += "A"
		}
		return s
	},
	func(r *rng, i int) string {
		return []string{"Ux", "Uz", "Phiy", "0", " ", "A/Ux", "\"q\"", "e\\", "Ä"}[i%9] + map[bool]string{true: "", false: fmt.Sprint(i / 9)}[i < 9]
	},
	func(r *rng, i int) string { // equal if taken for numbers
		n := fmt.Sprint(i/9 + 1)
		return []string{n, "0" + n, n + ".0", "00" + n, "+" + n, n + "e0", "-" + n, "0x" + n, n + "."}[i%9]
	},
	func(r *rng, i int) string { // equal if compared like words
		n := strings.Repeat("n", i/10)
		return n + []string{"\u00e5", "a\u030a", "\u00c5", "A\u030a", "\u212b", "a", "a\u200b", "a\u00a0", "a\n", "\uff41"}[i%10]
	},
	func(r *rng, i int) string { // equal without punctuation
		return "n" + []string{"", "-", "_", ".", "/", ":", "\\", "#", "%", "$"}[i%10] + fmt.Sprint(1+i/10) + []string{"", "'"}[i/10%2]
	},
	func(r *rng, i int) string { // the same characters in different order
		id, rest := "", ""
		for k, b := 0, i; k < 7 || b > 0; k, b = k+1, b/2 {
			id += string("ab"[b%2])
			rest += string("ba"[b%2])
		}
		return id + rest
	},
}

func (r *rng) magnitude() float64 {
	switch r.Intn(8) {
	case 0:
		return r.sign() * float64(1+r.Intn(10))
	case 1:
		return r.sign() * 1e4
	}
	return r.sign() * r.logIn(0.5, 2e5)
}

func (r *rng) materials(s *Spec) {
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		m := MatS{ID: pick(r, "steel", "mat", "m") + fmt.Sprint(i), E: pick(r, 2.1e11, 1e10, 3e10, r.logIn(1e9, 4e11)), Nu: r.in(0, 0.5), Rho: r.in(100, 9000)}
		s.Mats = append(s.Mats, m)
	}
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		if r.p(0.5) {
			s.CSs = append(s.CSs, CSS{ID: fmt.Sprintf("rect%d", i), Kind: "rectangle", B: pick(r, 0.1, r.in(0.03, 0.5)), H: pick(r, 0.1, 0.2, r.in(0.03, 0.5))})
		} else {
			iyy := r.logIn(1e-6, 1e-3)
			s.CSs = append(s.CSs, CSS{ID: fmt.Sprintf("const%d", i), Kind: "constants", A: r.logIn(1e-3, 0.1), Iyy: iyy, Izz: iyy * r.in(0.1, 5), Ixx: iyy * r.in(0, 2)})
		}
	}
}

func (s *Spec) addElem(r *rng, kind string, a, b int) {
	if r.p(0.5) {
		a, b = b, a
	}
	s.Elems = append(s.Elems, ElemS{Kind: kind, N0: a, N1: b, Mat: r.Intn(len(s.Mats)), CS: r.Intn(len(s.CSs))})
}

func dist(a, b NodeS) float64 {
	return math.Sqrt((a.X-b.X)*(a.X-b.X) + (a.Y-b.Y)*(a.Y-b.Y) + (a.Z-b.Z)*(a.Z-b.Z))
}

func (s *Spec) closeness() float64 {
	if s.short {
		return 0.05
	}
	return 1
}

func (s *Spec) tooClose(n NodeS) bool {
	for _, o := range s.Nodes {
		if dist(o, n) < 0.25*s.closeness() {
			return true
		}
	}
	return false
}

func (s *Spec) nameEverything(r *rng, plain bool) {
	style := r.Intn(len(idStyles))
	if plain {
		style = 0
	}
	for i := range s.Nodes {
		s.Nodes[i].ID = idStyles[style](r, i)
	}
	elmtStyle := r.Intn(5)
	idStyle := idStyles[r.Intn(len(idStyles))]
	used := map[string]bool{}
	for i := range s.Elems {
		e := &s.Elems[i]
		id := ""
		switch elmtStyle {
		case 0, 1:
			id = s.Nodes[e.N0].ID + s.Nodes[e.N1].ID
		case 2:
			id = fmt.Sprint(len(s.Elems) - i)
		case 4:
			id = idStyle(r, i)
			if plain {
				id = "member " + fmt.Sprint(i)
			}
		default:
			id = "E" + fmt.Sprint(i)
		}
		for used[id] {
			id += "'"
		}
		used[id] = true
		e.ID = id
	}
	if plain {
		return
	}
	if r.p(0.1) {
		for i, k := 0, r.Intn(8); i < len(s.Mats); i++ {
			s.Mats[i].ID = idStyle(r, i+k)
		}
	}
	if r.p(0.1) {
		for i, k := 0, r.Intn(8); i < len(s.CSs); i++ {
			s.CSs[i].ID = idStyle(r, i+k)
		}
	}
	if r.p(0.1) {
		s.shareNames(r)
	}
}

// shareNames uses identical IDs across nodes, elements, materials and cross sections.
func (s *Spec) shareNames(r *rng) {
	pool := []string{}
	for i := range s.Nodes {
		pool = append(pool, s.Nodes[i].ID)
	}
	for i := 0; len(pool) < len(s.Elems) || len(pool) < len(s.Mats) || len(pool) < len(s.CSs); i++ {
		pool = append(pool, "more"+fmt.Sprint(i))
	}
	rename := func(n int, set func(i int, id string)) {
		perm := r.Perm(n)
		for i := 0; i < n; i++ {
			set(i, pool[perm[i]])
		}
	}
	rename(len(s.Elems), func(i int, id string) { s.Elems[i].ID = id })
	rename(len(s.Mats), func(i int, id string) { s.Mats[i].ID = id })
	rename(len(s.CSs), func(i int, id string) { s.CSs[i].ID = id })
}

// loads adds element loads to e.
func (s *Spec) addLoads(r *rng, e *ElemS, max int, close bool) {
	l := s.length(e)
	n := 1 + r.Intn(max)
	if max > 3 && r.p(0.05) {
		n = 10 + r.Intn(30)
	}
	for i := 0; i < n; i++ {
		dof := deflect.Ux
		if s.isFrame(e) {
			dof = pick(r, deflect.Ux, deflect.Uz, deflect.Uz, deflect.Phiy)
		}
		ld := LoadS{Dof: dof, V0: r.magnitude()}
		shape := pick(r, "dirac", "dirac", "constant", "linear")
		if dof == deflect.Phiy {
			shape = "dirac"
		}
		ld.Shape = shape
		switch shape {
		case "dirac":
			switch r.Intn(10) {
			case 8:
				ld.Pos = pick(r, 1e-5, 1e-3, 1-1e-3, 1-1e-5, 0.5-1e-5, 0.5+1e-3) * l
				if close && r.p(0.3) {
					gap := math.Max(1e-7, pick(r, 1e-6, 3e-6, 1e-5)*l)
					ld.Pos = pick(r, gap, l-gap)
				}
			case 9:
				ld.Pos = r.in(0.1, 0.9) * l
				if len(e.Loads) > 0 && e.Loads[len(e.Loads)-1].Shape == "dirac" && e.Loads[len(e.Loads)-1].Pos < 0.9*l {
					ld.Pos = e.Loads[len(e.Loads)-1].Pos + pick(r, 1e-4, 1e-2)*l // close to another one
					if close && r.p(0.5) {
						ld.Pos = e.Loads[len(e.Loads)-1].Pos + math.Max(1e-7, pick(r, 1e-6, 3e-6, 1e-5)*l)
					}
				}
			case 0:
				ld.Pos = 0
			case 1:
				ld.Pos = l
			case 2:
				ld.Pos = l / 2
			case 3:
				if len(e.Loads) > 0 && e.Loads[len(e.Loads)-1].Shape == "dirac" {
					ld.Pos = e.Loads[len(e.Loads)-1].Pos // same position as another one
					if r.p(0.5) && ld.Pos > 0 && ld.Pos < 0.99*l {
						// up to rounding
						for k := 1 + r.Intn(3); k > 0; k-- {
							ld.Pos = math.Nextafter(ld.Pos, pick(r, 0.0, 2*l))
						}
					}
				} else {
					ld.Pos = l / 4
				}
			default:
				ld.Pos = r.in(0.02, 0.98) * l
			}
		case "linear":
			ld.V1 = r.magnitude()
			switch r.Intn(8) {
			case 5:
				almost := r.sign() * math.Pow(10, r.in(-7, -1))
				if ld.V1 = pick(r, 1+almost, -1+almost, almost, almost) * ld.V0; r.p(0.5) {
					ld.V0, ld.V1 = ld.V1, ld.V0
				}
			case 0:
				ld.V1 = 0
			case 1:
				ld.V0 = 0
			case 2:
				ld.V1 = -ld.V0
			case 3:
				ld.V1 = ld.V0 / 2
			case 4:
				ld.V1 = ld.V0
			}
		}
		if r.p(0.02) {
			ld.V0, ld.V1 = 0, 0
		}
		e.Loads = append(e.Loads, ld)
	}
}

var axialHinges = [][]HingeS{{}, {{0, deflect.Ux}}, {{1, deflect.Ux}}}
var bendingHinges = [][]HingeS{
	{},
	{{0, deflect.Uz}}, {{0, deflect.Phiy}}, {{1, deflect.Uz}}, {{1, deflect.Phiy}},
	{{0, deflect.Phiy}, {1, deflect.Uz}}, {{0, deflect.Phiy}, {1, deflect.Phiy}}, {{0, deflect.Uz}, {1, deflect.Phiy}},
}

func (s *Spec) addHinges(r *rng, e *ElemS) {
	if !s.isFrame(e) {
		e.Hinges = append(e.Hinges, pick(r, axialHinges[1:]...)...)
		return
	}
	if r.p(0.25) {
		e.Hinges = append(e.Hinges, pick(r, axialHinges[1:]...)...)
	}
	if len(e.Hinges) == 0 || r.p(0.6) {
		e.Hinges = append(e.Hinges, pick(r, bendingHinges[1:]...)...)
	}
	r.Shuffle(len(e.Hinges), func(i, j int) { e.Hinges[i], e.Hinges[j] = e.Hinges[j], e.Hinges[i] })
}

// Gen returns a random, uniquely solvable structure along with its reference solution.
func Gen(r *rng, o GenOpts) (*Spec, *Ref) {
	if o.Kind == "" && o.MaxNodes == 0 && r.p(0.0015) {
		return genMany(r, o)
	}
	for attempt := 0; attempt < 1000; attempt++ {
		s := gen(r, o)
		if s == nil {
			continue
		}
		ref, ok := s.Solve()
		max := o.KappaMax
		if max == 0 {
			max = 3e8
		}
		if s.unusualLengths && max > 1e6 {
			max = 1e6
		}
		if !ok || !(ref.kappa < max) {
			continue
		}
		if !o.NoHinges && r.p(0.7) {
			// Hinges are added one element at a time, as long as the structure doesn't become a mechanism
			for k, m := 0, 1+r.Intn(4); k < m; k++ {
				c := s.clone()
				e := &c.Elems[r.Intn(len(c.Elems))]
				if len(e.Hinges) > 0 {
					continue
				}
				c.addHinges(r, e)
				cref, ok := c.Solve()
				if ok && cref.kappa < max {
					s, ref = c, cref
				}
			}
		}
		if r.p(0.03) {
			s.addUnconnected(r)
		}
		return s, ref
	}
	panic("generator doesn't find a solvable structure")
}

// addUnconnected adds a node that no element refers to, which has no influence on anything.
func (s *Spec) addUnconnected(r *rng) {
	n := s.Nodes[r.Intn(len(s.Nodes))]
	n.ID = pick(r, "unconnected", "?", "~~", "0 unused")
	if r.p(0.7) {
		n.X, n.Z = n.X+r.NormFloat64(), n.Z+r.NormFloat64()
	}
	for _, o := range s.Nodes {
		if o.ID == n.ID {
			return
		}
	}
	s.Nodes = append(s.Nodes, n)
}

// sometimesAny is n, or rarely zero, which means problems of any size and of several structures.
func (r *rng) sometimesAny(n int) int {
	if r.p(0.03) {
		return 0
	}
	return n
}

func (r *rng) nodeCount(max int) int {
	n := 2
	if max == 0 && r.p(0.004) {
		if r.p(0.1) {
			return 50 + r.Intn(80)
		}
		return 21 + r.Intn(25)
	}
	switch r.Intn(10) {
	case 0:
		n = 2
	case 1, 2, 3:
		n = 3 + r.Intn(2)
	case 9:
		n = 8 + r.Intn(12)
	default:
		n = 4 + r.Intn(5)
	}
	if max > 0 && n > max {
		n = 2 + r.Intn(max-1)
	}
	return n
}

func gen(r *rng, o GenOpts) *Spec {
	if o.Kind == "" && o.MaxNodes == 0 && r.p(0.03) {
		return genTwo(r, o)
	}
	return genOne(r, o)
}

// genTwo returns two structures in a single problem, without a connection between them.
func genTwo(r *rng, o GenOpts) *Spec {
	o.MaxNodes = 8
	s, t := genOne(r, o), genOne(r, o)
	if s == nil || t == nil {
		return nil
	}
	s.join(t)
	s.Note = "two " + s.Note + " " + t.Note
	shuffleAll(r, s)
	s.nameEverything(r, o.PlainIDs)
	return s
}

// genMany returns a large problem, i.e. many structures that aren't connected.
func genMany(r *rng, o GenOpts) (*Spec, *Ref) {
	o.PlainScale = true
	if o.KappaMax == 0 || o.KappaMax > 1e6 {
		o.KappaMax = 1e6
	}
	plain := o.PlainIDs
	for attempt := 0; attempt < 100; attempt++ {
		var s *Spec
		for k, m := 0, pick(r, 10, 20, 40, 70); k < m; k++ {
			o.MaxNodes = pick(r, 4, 8, 12)
			o.PlainIDs = true
			t, _ := Gen(r, o)
			if s == nil {
				s = t.clone()
			} else {
				s.join(t)
			}
		}
		s.Note = "many"
		shuffleAll(r, s)
		s.nameEverything(r, plain)
		for i := range s.Mats {
			s.Mats[i].ID = fmt.Sprint("m", i)
		}
		for i := range s.CSs {
			s.CSs[i].ID = fmt.Sprint("c", i)
		}
		if ref, ok := s.Solve(); ok {
			return s, ref
		}
	}
	panic("generator doesn't find a solvable large structure")
}

// join adds everything that t consists of to s.
func (s *Spec) join(t *Spec) {
	n, m, c := len(s.Nodes), len(s.Mats), len(s.CSs)
	s.Nodes = append(s.Nodes, t.Nodes...)
	for _, x := range t.Mats {
		x.ID += "'"
		s.Mats = append(s.Mats, x)
	}
	for _, x := range t.CSs {
		x.ID += "'"
		s.CSs = append(s.CSs, x)
	}
	for _, e := range t.Elems {
		e.N0, e.N1, e.Mat, e.CS = e.N0+n, e.N1+n, e.Mat+m, e.CS+c
		s.Elems = append(s.Elems, e)
	}
	for _, b := range t.Dir {
		b.Node += n
		s.Dir = append(s.Dir, b)
	}
	for _, b := range t.Neu {
		b.Node += n
		s.Neu = append(s.Neu, b)
	}
	for _, l := range t.Links {
		l.Node += n
		s.Links = append(s.Links, l)
	}
	s.unusualLengths = s.unusualLengths || t.unusualLengths
}

// shuffleAll puts nodes, elements and boundary conditions into another order.
func shuffleAll(r *rng, s *Spec) {
	perm := r.Perm(len(s.Nodes))
	nodes := make([]NodeS, len(s.Nodes))
	for i, p := range perm {
		nodes[p] = s.Nodes[i]
	}
	s.Nodes = nodes
	for i := range s.Elems {
		s.Elems[i].N0, s.Elems[i].N1 = perm[s.Elems[i].N0], perm[s.Elems[i].N1]
	}
	for _, bcs := range [][]BCS{s.Dir, s.Neu} {
		for i := range bcs {
			bcs[i].Node = perm[bcs[i].Node]
		}
		r.Shuffle(len(bcs), func(i, j int) { bcs[i], bcs[j] = bcs[j], bcs[i] })
	}
	for i := range s.Links {
		s.Links[i].Node = perm[s.Links[i].Node]
	}
	r.Shuffle(len(s.Elems), func(i, j int) { s.Elems[i], s.Elems[j] = s.Elems[j], s.Elems[i] })
}

func genOne(r *rng, o GenOpts) *Spec {
	kind := o.Kind
	if kind == "" {
		kind = pick(r, "frame", "frame", "frame", "mixed", "mixed", "beam", "truss", "truss3d", "mixed3d")
	}
	s := &Spec{Note: kind, short: r.p(0.1)}
	r.materials(s)
	n := r.nodeCount(o.MaxNodes)
	switch kind {
	case "frame", "mixed", "beam", "mixed3d":
		genFrame(r, s, kind, n)
	case "truss":
		genTruss(r, s, n, false)
	case "truss3d":
		genTruss(r, s, n, true)
	}
	if len(s.Elems) == 0 {
		return nil
	}
	shuffleNodes(r, s)
	s.nameEverything(r, o.PlainIDs)
	r.Shuffle(len(s.Elems), func(i, j int) { s.Elems[i], s.Elems[j] = s.Elems[j], s.Elems[i] })
	genSupports(r, s, kind, o)
	if !o.NoLoads {
		genLoads(r, s, o)
	}
	if !o.PlainScale {
		if r.p(0.15) {
			s.scaleLoads(math.Pow(10, float64(r.Intn(19)-12)))
		}
		if r.p(0.12) {
			s.scaleLengths(pick(r, 0.01, 0.1, 10, 100))
			s.unusualLengths = true
		}
	}
	return s
}

// scaleLoads multiplies everything that acts on the structure.
func (s *Spec) scaleLoads(f float64) {
	for i := range s.Elems {
		for j := range s.Elems[i].Loads {
			s.Elems[i].Loads[j].V0 *= f
			s.Elems[i].Loads[j].V1 *= f
		}
	}
	for i := range s.Neu {
		s.Neu[i].Val *= f
	}
	for i := range s.Dir {
		s.Dir[i].Val *= f
	}
}

// scaleLengths changes all dimensions.
func (s *Spec) scaleLengths(f float64) {
	for i := range s.Nodes {
		s.Nodes[i].X *= f
		s.Nodes[i].Y *= f
		s.Nodes[i].Z *= f
	}
	for i := range s.CSs {
		c := &s.CSs[i]
		c.B *= f
		c.H *= f
		c.A *= f * f
		c.Iyy *= f * f * f * f
		c.Izz *= f * f * f * f
		c.Ixx *= f * f * f * f
	}
	for i := range s.Elems {
		e := &s.Elems[i]
		l := s.length(e)
		for j := range e.Loads {
			e.Loads[j].Pos = math.Min(e.Loads[j].Pos*f, l)
			if e.Loads[j].Pos > l*(1-1e-9) {
				e.Loads[j].Pos = l
			}
		}
	}
}

// shuffleNodes makes the order of nodes (and hence that of their IDs) independent of topology.
func shuffleNodes(r *rng, s *Spec) {
	perm := r.Perm(len(s.Nodes))
	nodes := make([]NodeS, len(s.Nodes))
	for i, p := range perm {
		nodes[p] = s.Nodes[i]
	}
	s.Nodes = nodes
	for i := range s.Elems {
		s.Elems[i].N0, s.Elems[i].N1 = perm[s.Elems[i].N0], perm[s.Elems[i].N1]
	}
}

func genFrame(r *rng, s *Spec, kind string, n int) {
	y := 0.0
	if r.p(0.2) {
		y = r.in(-5, 5)
	}
	layout := r.Intn(3)
	star := r.p(0.06)
	if kind == "beam" {
		layout = 3
	}
	angle := 0.0
	if r.p(0.4) {
		angle = r.angleValue()
	}
	x := r.in(-3, 3)
	for guard := 0; len(s.Nodes) < n && guard < 1000; guard++ {
		var nd NodeS
		switch layout {
		case 0:
			nd = NodeS{X: r.in(-6, 6), Z: r.in(-6, 6)}
		case 1: // grid
			nd = NodeS{X: float64(r.Intn(5)), Z: float64(r.Intn(4))}
		case 2:
			nd = NodeS{X: 2 * float64(r.Intn(4)), Z: 1.5 * float64(r.Intn(4))}
		default:
			nd = NodeS{X: x * math.Cos(angle), Z: x * math.Sin(angle)}
			x += pick(r, 1, 2, r.in(0.4, 5))
			if s.short && r.p(0.3) {
				x -= pick(r, 0.35, 0.3)
			}
		}
		if s.short && layout != 3 && len(s.Nodes) > 0 && r.p(0.3) {
			o := s.Nodes[r.Intn(len(s.Nodes))]
			size := r.logIn(0.02, 0.3)
			nd.X, nd.Z = o.X+size*r.in(-1, 1), o.Z+size*r.in(-1, 1)
		}
		nd.Y = y
		if !s.tooClose(nd) {
			s.Nodes = append(s.Nodes, nd)
		}
	}
	n = len(s.Nodes)
	if r.p(0.15) {
		// Imperfections
		size := math.Pow(10, r.in(-9, -2))
		for i := range s.Nodes {
			s.Nodes[i].X += r.in(-size, size)
			s.Nodes[i].Z += r.in(-size, size)
		}
	}
	if layout != 3 && r.p(0.2) {
		// Far away from the origin
		far := pick(r, 300.0, 300, 300, 1e4)
		dx, dz := r.in(-far, far), r.in(-far, far)
		for i := range s.Nodes {
			s.Nodes[i].X += dx
			s.Nodes[i].Z += dz
		}
	}
	if layout != 3 && n > 3 && r.p(0.05) {
		// Two nodes in the same place, which aren't connected
		s.Nodes[n-1] = s.Nodes[r.Intn(n-1)]
	}
	connected := map[[2]int]bool{}
	for i := 1; i < n; i++ {
		j := i - 1
		if layout != 3 {
			best := math.Inf(1)
			for k := 0; k < i; k++ {
				d := dist(s.Nodes[i], s.Nodes[k]) * r.in(0.7, 1.5)
				if d == 0 {
					continue
				}
				if d < best {
					best, j = d, k
				}
			}
			if star && dist(s.Nodes[i], s.Nodes[0]) > 0 {
				j = 0
			}
		}
		s.addElem(r, "frame2d", i, j)
		connected[[2]int{i, j}] = true
	}
	extra := r.Intn(1 + n/2)
	if layout == 3 {
		extra = 0
		if r.p(0.1) {
			extra = 1
		}
	}
	for k := 0; k < extra; k++ {
		i, j := r.Intn(n), r.Intn(n)
		if i == j || dist(s.Nodes[i], s.Nodes[j]) == 0 {
			continue
		}
		if i < j {
			i, j = j, i
		}
		if connected[[2]int{i, j}] && r.p(0.8) {
			continue
		}
		connected[[2]int{i, j}] = true
		kindHere := "frame2d"
		if kind == "mixed" || kind == "mixed3d" {
			kindHere = pick(r, "truss2d", "truss2d", "frame2d")
		}
		s.addElem(r, kindHere, i, j)
	}
	if kind == "mixed3d" {
		// Struts to points off the plane, which will be supported there
		for k, m := 0, 1+r.Intn(2); k < m; k++ {
			a := r.Intn(n)
			nd := NodeS{X: s.Nodes[a].X + r.in(-1, 1), Y: y + r.sign()*r.in(1, 3), Z: s.Nodes[a].Z + r.in(-2, 2)}
			s.Nodes = append(s.Nodes, nd)
			s.addElem(r, "truss3d", a, len(s.Nodes)-1)
		}
	}
	if kind == "mixed" && r.p(0.5) && n >= 2 {
		// A truss-only node connected to two existing nodes
		nd := NodeS{X: s.Nodes[0].X + r.in(-7, 7), Y: y, Z: s.Nodes[0].Z + r.in(-7, 7)}
		if !s.tooClose(nd) {
			s.Nodes = append(s.Nodes, nd)
			a := r.Intn(n)
			b := (a + 1 + r.Intn(n-1)) % n
			s.addElem(r, "truss2d", a, len(s.Nodes)-1)
			s.addElem(r, "truss2d", b, len(s.Nodes)-1)
		}
	}
}

func genTruss(r *rng, s *Spec, n int, is3d bool) {
	kind, links := "truss2d", 2
	if is3d {
		kind, links = "truss3d", 3
		n++
	}
	grid := r.p(0.4)
	y := 0.0
	if !is3d && r.p(0.3) {
		y = r.in(-3, 3)
	}
	for guard := 0; len(s.Nodes) < n && guard < 500; guard++ {
		nd := NodeS{X: r.in(-5, 5), Y: y, Z: r.in(-5, 5)}
		if grid {
			nd = NodeS{X: float64(r.Intn(4)), Y: y, Z: float64(r.Intn(4))}
			if r.p(0.1) {
				nd.X += r.sign() * math.Pow(10, r.in(-8, -2))
				nd.Z += r.sign() * math.Pow(10, r.in(-8, -2))
			}
		}
		if is3d {
			nd.Y = r.in(-5, 5)
			if grid {
				nd.Y = float64(r.Intn(4))
			}
		}
		if s.tooClose(nd) {
			continue
		}
		i := len(s.Nodes)
		s.Nodes = append(s.Nodes, nd)
		// Connect to up to two (three) earlier nodes
		perm := r.Perm(i)
		for k := 0; k < len(perm) && k < links; k++ {
			s.addElem(r, kind, i, perm[k])
		}
	}
	n = len(s.Nodes)
	for k, m := 0, r.Intn(1+n/2); k < m && n > 2; k++ {
		i := r.Intn(n)
		j := (i + 1 + r.Intn(n-1)) % n
		s.addElem(r, kind, i, j)
	}
}

func genSupports(r *rng, s *Spec, kind string, o GenOpts) {
	dofs := s.nodeDofs()
	has := map[nd]bool{}
	for _, d := range dofs {
		has[d] = true
	}
	fixed := map[nd]bool{}
	linked := map[int]bool{}
	fix := func(n int, ds ...deflect.Dof) {
		for _, d := range ds {
			x := nd{n, d}
			if has[x] && !fixed[x] {
				fixed[x] = true
				s.Dir = append(s.Dir, BCS{n, d, 0})
			}
		}
	}
	all := []deflect.Dof{deflect.Ux, deflect.Uz, deflect.Uy, deflect.Phiy}
	n := len(s.Nodes)
	free := func() int { return len(dofs) - len(fixed) }

	link := func(node int) {
		axes := [][2]deflect.Dof{{deflect.Ux, deflect.Uz}, {deflect.Uz, deflect.Ux}}
		if has[nd{node, deflect.Uy}] {
			axes = append(axes, [2]deflect.Dof{deflect.Ux, deflect.Uy}, [2]deflect.Dof{deflect.Uy, deflect.Uz},
				[2]deflect.Dof{deflect.Uz, deflect.Uy}, [2]deflect.Dof{deflect.Uy, deflect.Ux})
		}
		if linked[node] {
			return
		}
		for _, d := range all[:3] {
			if fixed[nd{node, d}] {
				return
			}
		}
		a := pick(r, axes...)
		linked[node] = true
		fixed[nd{node, a[1]}] = true
		s.Links = append(s.Links, LinkS{node, a[0], a[1], r.angleValue()})
		if has[nd{node, deflect.Uy}] && r.p(0.4) {
			// A second one at the same node, acting on the remaining dof and one of the others
			var third deflect.Dof
			for _, d := range all[:3] {
				if d != a[0] && d != a[1] {
					third = d
				}
			}
			fixed[nd{node, third}] = true
			s.Links = append(s.Links, LinkS{node, pick(r, a[0], a[0], a[1]), third, r.angleValue()})
		}
	}

	switch {
	case kind == "truss":
		a := r.Intn(n)
		fix(a, deflect.Ux, deflect.Uz)
		b := r.Intn(n)
		if b != a {
			if !o.NoLinks && r.p(0.5) {
				link(b)
			} else {
				fix(b, pick(r, deflect.Ux, deflect.Uz))
			}
		}
		if n == 2 { // single bar: guide it
			fix(b, pick(r, deflect.Ux, deflect.Uz))
		}
	case kind == "truss3d":
		p := r.Perm(n)
		fix(p[0], deflect.Ux, deflect.Uy, deflect.Uz)
		if n > 1 {
			if !o.NoLinks && r.p(0.4) {
				link(p[1])
			} else {
				fix(p[1], pick(r, [][]deflect.Dof{{deflect.Ux, deflect.Uy}, {deflect.Uy, deflect.Uz}, {deflect.Ux, deflect.Uz}}...)...)
			}
		}
		if n > 2 {
			if !o.NoLinks && r.p(0.4) {
				link(p[2])
			} else {
				fix(p[2], pick(r, all[:3]...))
			}
		}
		if n > 3 && r.p(0.5) {
			fix(p[3], pick(r, all[:3]...))
		}
	default:
		a := r.Intn(n)
		switch r.Intn(3) {
		case 0:
			fix(a, deflect.Ux, deflect.Uz, deflect.Phiy)
		case 1:
			fix(a, deflect.Ux, deflect.Uz)
			b := r.Intn(n)
			if b != a {
				if !o.NoLinks && r.p(0.6) {
					link(b)
				} else {
					fix(b, pick(r, deflect.Ux, deflect.Uz))
				}
			}
		case 2:
			// Three supports that restrain a single direction each
			for k := 0; k < 3; k++ {
				b := r.Intn(n)
				if !o.NoLinks && r.p(0.5) {
					link(b)
				} else if !linked[b] {
					fix(b, pick(r, deflect.Ux, deflect.Uz))
				}
			}
		}
	}
	// More supports
	for k, m := 0, pick(r, 0, 0, 1, 2, 3); k < m; k++ {
		b := r.Intn(n)
		if !o.NoLinks && r.p(0.2) {
			link(b)
			continue
		}
		if linked[b] {
			fix(b, deflect.Phiy)
			continue
		}
		ds := append([]deflect.Dof(nil), all...)
		r.Shuffle(len(ds), func(i, j int) { ds[i], ds[j] = ds[j], ds[i] })
		fix(b, ds[:1+r.Intn(3)]...)
	}
	if r.p(0.03) {
		// Almost everywhere
		share := r.in(0.4, 0.95)
		for b := 0; b < n; b++ {
			if !o.NoLinks && r.p(0.2) {
				link(b)
			}
			for _, d := range all {
				if r.p(share) && (!linked[b] || d == deflect.Phiy) && free() > 1 {
					fix(b, d)
				}
			}
		}
	}
	if kind == "mixed3d" {
		// Out-of-plane struts: their far ends are fixed
		for i := range s.Elems {
			e := &s.Elems[i]
			if e.Kind != "truss3d" {
				continue
			}
			for _, b := range []int{e.N0, e.N1} {
				if !has[nd{b, deflect.Phiy}] {
					if !linked[b] {
						fix(b, deflect.Ux, deflect.Uy, deflect.Uz)
					}
				} else if r.p(0.3) && !linked[b] {
					fix(b, deflect.Uy)
				}
			}
		}
	}
	if free() <= 0 && len(s.Dir) > 0 {
		s.Dir = s.Dir[:len(s.Dir)-1]
	}
	if !o.NoPrescribed && (o.Prescribed || r.p(0.3)) {
		mode := r.Intn(3)
		for i := range s.Dir {
			if mode == 0 || r.p(0.4) || (o.Prescribed && i == 0) {
				if s.Dir[i].Dof == deflect.Phiy {
					s.Dir[i].Val = r.in(-0.01, 0.01)
				} else {
					s.Dir[i].Val = pick(r, 0.01, r.in(-0.02, 0.02), r.in(-0.02, 0.02))
				}
			}
		}
	}
	r.Shuffle(len(s.Dir), func(i, j int) { s.Dir[i], s.Dir[j] = s.Dir[j], s.Dir[i] })
}

func genLoads(r *rng, s *Spec, o GenOpts) {
	dofs := s.nodeDofs()
	m := pick(r, 0, 1, 2, 3, 5)
	if r.p(0.03) {
		m = r.Intn(3 * len(dofs))
	}
	for k := 0; k < m; k++ {
		d := pick(r, dofs...)
		s.Neu = append(s.Neu, BCS{d.node, d.dof, r.magnitude()})
		if r.p(0.15) {
			s.Neu = append(s.Neu, BCS{d.node, d.dof, r.magnitude()}) // twice on the same dof
		}
	}
	for i := range s.Elems {
		if r.p(0.45) {
			s.addLoads(r, &s.Elems[i], pick(r, 3, 3, 3, 3, 7), o.Close)
		}
	}
	if len(s.Neu) == 0 {
		any := false
		for i := range s.Elems {
			any = any || len(s.Elems[i].Loads) > 0
		}
		if !any {
			s.addLoads(r, &s.Elems[r.Intn(len(s.Elems))], 3, o.Close)
		}
	}
	r.Shuffle(len(s.Neu), func(i, j int) { s.Neu[i], s.Neu[j] = s.Neu[j], s.Neu[i] })
	if r.p(0.1) {
		s.repeatLoads(r)
	}
}

// distinctPosition is false for positions that are almost those of another load or of an end.
func (s *Spec) distinctPosition(e *ElemS, x float64) bool {
	l := s.length(e)
	for _, o := range e.Loads {
		if d := math.Abs(o.Pos - x); o.Shape == "dirac" && d != 0 && d < 1e-6*l {
			return false
		}
	}
	return x == 0 || x == l || x > 1e-6*l && x < l*(1-1e-6)
}

// repeatLoads applies the same loads to several elements.
func (s *Spec) repeatLoads(r *rng) {
	from := &s.Elems[r.Intn(len(s.Elems))]
	for i := range s.Elems {
		e := &s.Elems[i]
		if e == from || !s.isFrame(e) && s.isFrame(from) || r.p(0.3) {
			continue
		}
		for _, l := range from.Loads {
			if l.Shape != "dirac" || s.distinctPosition(e, l.Pos) {
				e.Loads = append(e.Loads, l)
			}
		}
	}
	s.shareLoads = r.p(0.7) // the same objects
}
