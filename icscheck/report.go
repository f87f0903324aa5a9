package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Viol is a construct that breaks a rule.
type Viol struct {
	Rule, Construct, Pos, Msg string
}

// Report collects what a check analysed and what it found.
type Report struct {
	ID      string
	p       *Prog
	start   time.Time
	viol    map[string]Viol
	counts  map[string]int
	sets    map[string]map[string]bool
	samples []string
	assume  []string
	rules   []string
	only    string
	mu      sync.Mutex

	shortRuns atomic.Bool // runs of any length cannot be followed
}

// Check decides one property.
type Check struct {
	ID    string
	Title string
	Run   func(r *Report)
}

var checks = map[string]*Check{}

func register(id, title string, run func(r *Report)) { checks[id] = &Check{id, title, run} }

func newReport(id string, p *Prog) *Report {
	return &Report{ID: id, p: p, start: time.Now(), viol: map[string]Viol{}, counts: map[string]int{}, sets: map[string]map[string]bool{}}
}

// fail records a violation, keyed by rule and construct.
func (r *Report) fail(rule, construct, pos, f string, a ...any) {
	k := rule + "|" + construct
	v := Viol{rule, construct, pos, fmt.Sprintf(f, a...)}
	r.mu.Lock()
	defer r.mu.Unlock()
	if w, ok := r.viol[k]; !ok || v.Msg < w.Msg {
		r.viol[k] = v
	}
}

func (r *Report) count(k string, n int) {
	r.mu.Lock()
	r.counts[k] += n
	r.mu.Unlock()
}

// parallel runs independent parts of the analysis on all processors.
func (r *Report) parallel(jobs []func()) {
	ch := make(chan func())
	var wg sync.WaitGroup
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				func() {
					defer func() {
						if x := recover(); x != nil {
							r.fail("undecided", "analysis", "-", "the analysis stopped: %v\n%s", x, debug.Stack())
						}
					}()
					j()
				}()
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
}

// seen counts distinct things of a kind.
func (r *Report) seen(kind, what string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.sets[kind] == nil {
		r.sets[kind] = map[string]bool{}
	}
	r.sets[kind][what] = true
}

func (r *Report) rule(f string, a ...any) { r.rules = append(r.rules, fmt.Sprintf(f, a...)) }

func (r *Report) assumes(f string, a ...any) { r.assume = append(r.assume, fmt.Sprintf(f, a...)) }

func (r *Report) sample(f string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 40 {
		r.samples = append(r.samples, fmt.Sprintf(f, a...))
	}
}

// met records a discharged or failed obligation.
func (r *Report) met(ok bool, rule, construct, pos, f string, a ...any) bool {
	r.count("obligations", 1)
	if ok {
		r.count("obligations discharged", 1)
	} else {
		r.fail(rule, construct, pos, f, a...)
	}
	return ok
}

// absorb takes over the statistics and undecided points of an engine run.
func (r *Report) absorb(e *Engine, scope string) {
	for fn := range e.Funcs {
		r.seen("functions analysed", fn.RelString(r.p.Types))
	}
	for in := range e.Sites {
		r.seen("call sites analysed", in.Parent().RelString(r.p.Types)+"#"+instrID(in))
	}
	r.count("abstract states executed", e.Blocks)
	r.count("state joins", e.Joins)
	r.count("analysis runs", 1)
	for u := range e.undec {
		r.fail("undecided", scope+": "+u, "-", "the analysis of %s could not decide: %s", scope, u)
	}
}

// anchor fails the check if a construct the rules are about is missing.
func (r *Report) anchor(ok bool, what string) bool {
	if !ok {
		r.fail("anchor", what, "-", "cannot find %s in the source; the rule has nothing to check", what)
	}
	return ok
}

// watch ends an analysis that takes too long: soon if something has been found
// already, otherwise undecided.
func (r *Report) watch(tier string, seed int) {
	time.Sleep(300 * time.Second)
	for i := 0; i < 96; i++ {
		r.mu.Lock()
		found := len(r.viol) > 0
		r.mu.Unlock()
		if found {
			break
		}
		time.Sleep(5 * time.Second)
	}
	r.fail("undecided", "time", "-", "the analysis did not finish in time")
	os.Exit(r.finish(tier, seed))
}

func (r *Report) finish(tier string, seed int) int {
	r.mu.Lock()
	dir := evidenceDir()
	os.MkdirAll(dir, 0o755)
	vs := make([]Viol, 0, len(r.viol))
	for _, v := range r.viol {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool {
		return vs[i].Rule+vs[i].Construct < vs[j].Rule+vs[j].Construct
	})
	known := readKnown(r.ID)
	var open []Viol
	for _, v := range vs {
		if w, ok := known[v.Rule+"|"+v.Construct]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.ID, w)
			continue
		}
		open = append(open, v)
	}
	cov := map[string]any{}
	for k, n := range r.counts {
		cov[strings.ReplaceAll(k, " ", "_")] = n
	}
	for k, m := range r.sets {
		cov[strings.ReplaceAll(k, " ", "_")] = len(m)
	}
	cov["explanation"] = strings.Join(r.rules, " ")
	if len(r.samples) > 0 {
		cov["samples"] = r.samples
	}
	fs := map[string]bool{}
	for f := range r.sets["functions analysed"] {
		fs[f] = true
	}
	cov["functions"] = sortedKeys(fs)
	ev := map[string]any{
		"property":    r.ID,
		"tier":        tier,
		"seed":        seed,
		"level":       "other",
		"coverage":    cov,
		"wall_s":      time.Since(r.start).Seconds(),
		"violations":  len(open),
		"assumptions": append([]string{}, r.assume...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, r.ID+".json"), append(b, '\n'), 0o644)
	vf := filepath.Join(dir, r.ID+".violations.txt")
	if len(open) == 0 {
		os.Remove(vf)
		fmt.Printf("property=%s held: %d rules broken, %d functions, %d runs, %.1fs\n", r.ID, 0, len(fs), r.counts["analysis runs"], time.Since(r.start).Seconds())
		return 0
	}
	var sb strings.Builder
	for _, v := range open {
		fmt.Fprintf(&sb, "%s: [%s] %s\n    %s\n", v.Pos, v.Rule, v.Construct, v.Msg)
	}
	os.WriteFile(vf, []byte(sb.String()), 0o644)
	for i, v := range open {
		if i == 30 {
			fmt.Printf("... and %d more in %s\n", len(open)-i, vf)
			break
		}
		fmt.Printf("%s: [%s] %s: %s\n", v.Pos, v.Rule, v.Construct, v.Msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, vf)
	return 1
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func evidenceDir() string { return filepath.Join(verifDir(), "evidence") }

// readKnown reads the known findings of a property:
// known: property=<id> rule=<rule> construct=<construct> :: <what fails>
func readKnown(id string) map[string]string {
	m := map[string]string{}
	b, _ := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property="+id+" ")
		if !ok {
			continue
		}
		head, what, _ := strings.Cut(rest, " :: ")
		rule, con, ok := strings.Cut(head, " construct=")
		if !ok {
			continue
		}
		m[strings.TrimPrefix(rule, "rule=")+"|"+con] = what
	}
	return m
}

// runCheck runs one check against dir and returns the exit status.
func runCheck(id, dir string) (code int) {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	c := checks[id]
	if c == nil {
		fmt.Fprintln(os.Stderr, "no such check:", id)
		return 2
	}
	r := newReport(id, nil)
	defer func() {
		if x := recover(); x != nil {
			r.fail("undecided", "analysis", "-", "the analysis stopped: %v\n%s", x, debug.Stack())
			code = r.finish(tier, seed)
		}
	}()
	p, err := Load(dir)
	if err != nil {
		r.fail("type-check", "package", "-", "the package cannot be loaded: %v", err)
		return r.finish(tier, seed)
	}
	r.p = p
	go r.watch(tier, seed)
	p.initGlobals()
	for _, u := range p.initUnd {
		r.fail("undecided", "package initialiser: "+u, "-", "undecided in the package initialiser: %s", u)
	}
	r.counts["functions in package"] = len(p.All)
	c.Run(r)
	return r.finish(tier, seed)
}
