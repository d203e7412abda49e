package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// A Check decides one property: Run is executed for a fixed number of cases, each of which derives all
// of its random choices from (VERIF_SEED, property, case number).
type Check struct {
	ID              string
	Rule            string
	Quick, Thorough int
	Run             func(c *Case)
	Assumptions     []string
	Serial          bool
	// Known runs the inputs of the known findings and describes those that still fail.
	Known func(verif string) []string
	// Required counters: the run is inconclusive if one of them is zero.
	Required []string
	// Logs tells that messages logged by the code under test about itself are violations.
	Logs bool
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// A Case is one execution that is monitored.
type Case struct {
	I        int
	R        *rng
	Thorough bool
	failures []string
	spec     any
	sig      uint64
	counts   map[string]int
	max      map[string]float64
	sample   any
	hung     bool
}

func (c *Case) Failf(format string, a ...any) {
	if len(c.failures) < 20 {
		c.failures = append(c.failures, fmt.Sprintf(format, a...))
	}
}

func (c *Case) Failed() bool { return len(c.failures) > 0 }

func (c *Case) Count(key string, n int) { c.counts[key] += n }

func (c *Case) Max(key string, v float64) {
	if v > c.max[key] || math.IsNaN(v) {
		c.max[key] = v
	}
}

// Spec attaches the input of the case; it's the replay and makes the case distinct.
func (c *Case) Spec(v any) {
	c.spec = v
	h := fnv.New64a()
	switch x := v.(type) {
	case []byte:
		h.Write(x)
	case fmt.Stringer:
		h.Write([]byte(x.String()))
	default:
		b, _ := json.Marshal(v)
		h.Write(b)
	}
	c.sig ^= h.Sum64()*31 + 1
}

// Near fails the case if got and want differ by more than tol.
func (c *Case) Near(got, want, tol float64, format string, a ...any) bool {
	d := math.Abs(got - want)
	c.Count("comparisons", 1)
	if !(d <= tol) {
		c.Failf("%s: got %v, want %v (difference %.3g, tolerance %.3g)", fmt.Sprintf(format, a...), got, want, d, tol)
		return false
	}
	if tol > 0 {
		c.Max("max_error_over_tolerance", d/tol)
	}
	return true
}

type violation struct {
	i    int
	msgs []string
	spec any
}

func runCase(ck *Check, seed int64, i int, thorough bool) (c *Case) {
	c = &Case{I: i, R: newRng(seed, ck.ID, i), Thorough: thorough, counts: map[string]int{}, max: map[string]float64{}}
	defer func() {
		if p := recover(); p != nil {
			stack := string(debug.Stack())
			if k := strings.Index(stack, "panic("); k > 0 {
				stack = stack[k:]
			}
			if len(stack) > 1500 {
				stack = stack[:1500]
			}
			c.Failf("panic: %v\n%s", p, stack)
		}
	}()
	ck.Run(c)
	return c
}

func runCaseWatched(ck *Check, seed int64, i int, thorough bool) *Case {
	done := make(chan *Case, 1)
	go func() { done <- runCase(ck, seed, i, thorough) }()
	select {
	case c := <-done:
		return c
	case <-time.After(180 * time.Second):
		c := &Case{I: i, counts: map[string]int{}, max: map[string]float64{}}
		c.failures = []string{"no result after 180 s (cases usually take milliseconds)"}
		c.spec = fmt.Sprintf("case %d", i)
		c.hung = true
		return c
	}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: check PROPERTY [CASE]")
		os.Exit(3)
	}
	ck, ok := checks[os.Args[1]]
	if !ok {
		fmt.Printf("unknown property %v\n", os.Args[1])
		os.Exit(3)
	}
	seed := int64(1)
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}
	if name := os.Getenv("VERIF_COLD"); name != "" {
		os.Exit(coldStart(seed, name))
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	n := ck.Quick
	if tier == "thorough" {
		n = ck.Thorough
	}
	first := 0
	if len(os.Args) > 2 {
		first, _ = strconv.Atoi(os.Args[2])
		n = first + 1
	}
	if f, err := strconv.ParseFloat(os.Getenv("VERIF_SCALE"), 64); err == nil && f > 0 {
		n = int(float64(n) * f)
	}
	start := time.Now()
	results := make([]*Case, n)
	workers := runtime.NumCPU()
	if ck.Serial {
		workers = 1
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	next, bad := first, 0
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				stop := i >= n || bad > 50
				mu.Unlock()
				if stop {
					return
				}
				c := runCaseWatched(ck, seed, i, tier == "thorough")
				if !c.Failed() && i > 5 {
					if c.sample == nil {
						c.spec = nil
					}
				}
				mu.Lock()
				results[i] = c
				if c.Failed() {
					bad++
				}
				if c.hung {
					bad += 1000
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()

	counts := map[string]int{}
	maxima := map[string]float64{}
	distinct := map[uint64]bool{}
	var violations []violation
	var samples []any
	evaluations := 0
	for _, c := range results {
		if c == nil {
			continue
		}
		evaluations++
		for k, v := range c.counts {
			counts[k] += v
		}
		for k, v := range c.max {
			if v > maxima[k] {
				maxima[k] = v
			}
		}
		if c.sig != 0 {
			distinct[c.sig] = true
		}
		if c.spec != nil && len(samples) < 3 && !c.Failed() {
			samples = append(samples, sampleOf(c))
		}
		if c.Failed() {
			violations = append(violations, violation{c.I, c.failures, c.spec})
		}
	}
	if lines, n := logged.take(); ck.Logs {
		counts["self_diagnosed_bugs_logged"] = n
		if n > 0 {
			violations = append(violations, violation{-1, append([]string{"the code under test logged inconsistencies"}, lines...), lines})
		}
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	observed := map[string]any{}
	for k, v := range counts {
		observed[k] = v
	}
	for k, v := range maxima {
		observed[k] = v
	}
	coverage := map[string]any{
		"evaluations":         evaluations,
		"distinct_nontrivial": len(distinct),
		"rule":                ck.Rule,
		"samples":             samples,
		"observed":            observed,
	}
	ev := map[string]any{
		"property": ck.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": coverage, "wall_s": time.Since(start).Seconds(), "violations": len(violations),
		"assumptions": append([]string{
			"held on the executions described here, nothing is claimed about others",
			"floating point results are compared with tolerances derived from the conditioning of each problem",
		}, ck.Assumptions...),
	}
	if len(os.Args) <= 2 {
		if err := os.MkdirAll(filepath.Join(verif, "evidence"), 0o755); err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		b, err := json.MarshalIndent(ev, "", " ")
		if err != nil {
			fmt.Println("evidence:", err)
			os.Exit(3)
		}
		if err := os.WriteFile(filepath.Join(verif, "evidence", ck.ID+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
	}
	keys := make([]string, 0, len(observed))
	for k := range observed {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fmt.Printf("%s %s seed=%d: %d executions, %d distinct, %.1fs\n", ck.ID, tier, seed, evaluations, len(distinct), time.Since(start).Seconds())
	for _, k := range keys {
		fmt.Printf("  %s = %v\n", k, observed[k])
	}
	if len(violations) > 0 {
		dir := filepath.Join(verif, ".replay")
		_ = os.MkdirAll(dir, 0o755)
		for k, v := range violations {
			if k == 3 {
				break
			}
			path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", ck.ID, v.i))
			b, err := json.MarshalIndent(map[string]any{
				"property": ck.ID, "seed": seed, "tier": tier, "case": v.i, "what": v.msgs, "input": printable(v.spec),
				"replay_cmd": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s bash check.sh %s %d", seed, tier, ck.ID, v.i),
			}, "", " ")
			if err != nil {
				b = []byte(fmt.Sprint(v))
			}
			_ = os.WriteFile(path, b, 0o644)
			for j, m := range v.msgs {
				if j < 5 {
					fmt.Printf("  case %d: %s\n", v.i, m)
				}
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, path)
		}
		os.Exit(1)
	}
	if len(os.Args) <= 2 {
		for _, k := range ck.Required {
			if counts[k] == 0 {
				fmt.Printf("inconclusive: nothing observed for %q\n", k)
				os.Exit(3)
			}
		}
		if len(distinct) < 2 {
			fmt.Println("inconclusive: fewer than two distinct executions")
			os.Exit(3)
		}
	}
	if ck.Known != nil && len(os.Args) <= 2 {
		for _, what := range ck.Known(verif) {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.ID, what)
		}
	}
	fmt.Printf("%s held on everything explored\n", ck.ID)
}

func printable(v any) any {
	switch x := v.(type) {
	case []byte:
		return string(x)
	case *Spec:
		return x
	case fmt.Stringer:
		return x.String()
	}
	return v
}

func sampleOf(c *Case) any {
	if c.sample != nil {
		return c.sample
	}
	return map[string]any{"case": c.I, "input": printable(c.spec)}
}
