package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func sortV(vs []*V) { sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id }) }

// M is the general monitor: integer and term registers plus an event function.
type M struct {
	name string
	n    map[string]int
	t    map[string]*V
	on   func(m *M, s *State, e *Event)
}

func newM(name string, on func(m *M, s *State, e *Event)) *M {
	return &M{name: name, n: map[string]int{}, t: map[string]*V{}, on: on}
}

func (m *M) Clone() Monitor {
	c := &M{name: m.name, n: make(map[string]int, len(m.n)), t: make(map[string]*V, len(m.t)), on: m.on}
	for k, v := range m.n {
		c.n[k] = v
	}
	for k, v := range m.t {
		c.t[k] = v
	}
	return c
}

func (m *M) Key() string {
	var ks []string
	for k, v := range m.n {
		if v != 0 {
			ks = append(ks, fmt.Sprintf("%s=%d", k, v))
		}
	}
	for k, v := range m.t {
		if v != nil {
			ks = append(ks, fmt.Sprintf("%s:%d", k, v.id))
		}
	}
	sort.Strings(ks)
	return m.name + strings.Join(ks, ",")
}

func (m *M) Subst(f func(*V) *V) {
	for k, v := range m.t {
		m.t[k] = f(v)
	}
}

func (m *M) Terms(f func(*V)) {
	for _, v := range m.t {
		f(v)
	}
}

func (m *M) On(s *State, e *Event) { m.on(m, s, e) }

// Violation of a property.
type Violation struct {
	Rule, Construct, Pos, Msg string
	Trail                     []string
}

// Check is the run of one property.
type Check struct {
	p      *Program
	id     string
	tier   string
	vs     []Violation
	seen   map[string]bool
	obs    map[string]map[string]bool // rule -> constructs examined
	funcs  map[*ssa.Function]bool
	sites  map[ssa.Instruction]bool
	states int
	paths  int
	explor int
	notes  []string
	began  time.Time
	forked map[*types.Var]bool               // fields handed to the goroutines of a connection
	keep   func(rule, construct string) bool // reports of a borrowed rule that concern this property
}

func (c *Check) report(rule, construct, pos, msg string, trail []string) {
	k := rule + "|" + construct
	if c.keep != nil && rule != "anchor" && !c.keep(rule, construct) {
		return
	}
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.vs = append(c.vs, Violation{rule, construct, pos, msg, trail})
}

// bad reports a violation seen on a path.
func (c *Check) bad(rule, construct string, in ssa.Instruction, s *State, format string, a ...interface{}) {
	var tr []string
	if s != nil && os.Getenv("CHK_DUMPBAD") != "" && os.Getenv("CHK_DUMPBAD") == construct {
		s.dump()
	}
	if s != nil {
		for n := s.trail; n != nil && len(tr) < 60; n = n.prev {
			tr = append(tr, n.pos+": "+n.text)
		}
		for i, j := 0, len(tr)-1; i < j; i, j = i+1, j-1 {
			tr[i], tr[j] = tr[j], tr[i]
		}
		var st []string
		for _, f := range s.fr {
			st = append(st, fnName(f.fn))
		}
		tr = append(tr, "in "+strings.Join(st, " > "))
	}
	c.report(rule, construct, c.p.posOf(in), fmt.Sprintf(format, a...), tr)
}

// ob records an obligation examined by a rule.
func (c *Check) ob(rule, construct string) {
	m := c.obs[rule]
	if m == nil {
		m = map[string]bool{}
		c.obs[rule] = m
	}
	m[construct] = true
}

// atInstr records the obligation at an instruction.
func (c *Check) at(rule string, in ssa.Instruction) {
	c.sites[in] = true
	c.ob(rule, c.p.posOf(in))
}

// sub runs the rules of another property and keeps the reports that concern this one.
func (c *Check) sub(keep func(rule, construct string) bool, f func(c *Check)) {
	old := c.keep
	switch {
	case keep == nil:
		keep = old
	case old != nil:
		k := keep
		keep = func(rule, construct string) bool { return old(rule, construct) && k(rule, construct) }
	}
	c.keep = keep
	f(c)
	c.keep = old
}

// floor demands that a rule examined anything.
func (c *Check) floor(rule string) {
	if len(c.obs[rule]) == 0 {
		c.report(rule, "coverage", "?", fmt.Sprintf("rule %q found no construct to examine: the code the property rests on is gone", rule), nil)
	}
}

func (c *Check) fn(name string) *ssa.Function {
	f := c.p.byName[name]
	if f == nil {
		c.report("anchor", name, "?", "function "+name+" the property rests on does not exist", nil)
	}
	return f
}

func (c *Check) field(pkg, typ, name string) *types.Var {
	f := c.p.field(pkg, typ, name)
	if f == nil {
		c.report("anchor", typ+"."+name, "?", "field "+typ+"."+name+" the property rests on does not exist", nil)
	}
	return f
}

// explore runs the path analysis from a root function.
func (c *Check) explore(cfg Config, fn *ssa.Function, args, free []*V, mons ...Monitor) *Explorer {
	return c.exploreInit(cfg, fn, args, free, nil, mons...)
}

func (c *Check) exploreInit(cfg Config, fn *ssa.Function, args, free []*V, init func(s *State), mons ...Monitor) *Explorer {
	if fn == nil {
		return nil
	}
	if c.began.IsZero() {
		c.began = time.Now()
	}
	if len(c.vs) > 0 && time.Since(c.began) > 200*time.Second {
		return nil // it is known to fail: no need to go on for long
	}
	ex := newExplorer(c.p, cfg)
	s := ex.Start(fn, args, free, mons...)
	if init != nil {
		init(s)
	}
	err := ex.Run(s)
	if os.Getenv("CHK_STATS") != "" {
		fmt.Fprintf(os.Stderr, "%s %s: states %d steps %d paths %d\n", c.id, fnName(fn), ex.States, ex.Steps, ex.Paths)
	}
	c.explor++
	c.states += ex.States
	c.paths += ex.Paths
	for f := range ex.Funcs {
		c.funcs[f] = true
	}
	for i := range ex.Sites {
		c.sites[i] = true
	}
	if err != nil {
		c.report("undecided", fnName(fn), c.p.pos(fn.Pos()), "analysis gave up: "+err.Error(), nil)
	}
	return ex
}

type propDef struct {
	rules string // explanation for the evidence
	run   func(c *Check)
}

var props = map[string]propDef{}

func reg(id, rules string, run func(c *Check)) { props[id] = propDef{rules, run} }

type knownFinding struct{ prop, what string }

func loadKnown(path string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.Fields(l)
		if len(f) < 3 || !strings.HasPrefix(f[1], "property=") {
			continue
		}
		out = append(out, knownFinding{strings.TrimPrefix(f[1], "property="), f[2]})
	}
	return out
}

func main() {
	var (
		prop  = flag.String("property", "", "property id or all")
		tier  = flag.String("tier", "quick", "quick or thorough")
		repo  = flag.String("repo", "/repo", "tree to analyse")
		out   = flag.String("out", "/verif", "directory of evidence and known_findings.txt")
		quiet = flag.Bool("summary", false, "one line per property, no evidence")
	)
	inl := flag.Bool("inline", false, "analyse the tree with unknown functions put back into their callers")
	list := flag.Bool("names", false, "write the names the rules know (names.json)")
	flag.Parse()
	debug.SetGCPercent(400)
	start := time.Now()
	if *list {
		namesJSON = []byte("[]")
	}
	p, err := loadProgram(*repo, *inl)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load", *repo, ":", err)
		os.Exit(2)
	}
	if *list {
		b, _ := json.MarshalIndent(names(p.Pkgs), "", " ")
		os.Stdout.Write(b)
		return
	}
	var ids []string
	if *prop == "all" {
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}
	code := 0
	known := loadKnown(filepath.Join(*out, "known_findings.txt"))
	for _, id := range ids {
		def, ok := props[id]
		if !ok {
			fmt.Fprintln(os.Stderr, "no check for", id)
			os.Exit(2)
		}
		t0 := time.Now()
		if len(ids) == 1 {
			t0 = start
		}
		c := &Check{p: p, id: id, tier: *tier, seen: map[string]bool{}, obs: map[string]map[string]bool{}, funcs: map[*ssa.Function]bool{}, sites: map[ssa.Instruction]bool{}, notes: append([]string(nil), p.Renamed...)}
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.report("undecided", "internal", "?", fmt.Sprintf("the analysis failed: %v", r), nil)
					if os.Getenv("CHK_PANIC") != "" {
						b := make([]byte, 1<<14)
						fmt.Fprintf(os.Stderr, "%s\n", b[:runtime.Stack(b, false)])
					}
				}
			}()
			def.run(c)
		}()
		if len(c.vs) > 0 && !*inl {
			// what the rules cannot follow through functions they do
			// not know, they may follow with those put back in place
			args := []string{"-inline", "-property", id, "-tier", *tier, "-repo", *repo, "-out", *out}
			if *quiet {
				args = append(args, "-summary")
			}
			if said, ok := again(args); ok {
				fmt.Print(said)
				continue
			}
		}
		if !*quiet {
			if c.finish(def, known, *out, time.Since(t0).Seconds()) {
				code = 1
			}
			continue
		}
		fmt.Printf("%s %d violations %.2fs states=%d\n", id, len(c.vs), time.Since(t0).Seconds(), c.states)
		for _, v := range c.vs {
			fmt.Printf("   %s [%s] %s: %s\n", v.Rule, v.Construct, v.Pos, v.Msg)
			if os.Getenv("CHK_TRAIL") != "" {
				for _, t := range v.Trail {
					fmt.Println("        ", t)
				}
			}
			code = 1
		}
		if code != 0 && os.Getenv("CHK_FIRST") != "" {
			break
		}
	}
	os.Exit(code)
}

// again runs the checker a second time with the given arguments; it says
// whether that run found nothing wrong.
func again(args []string) (string, bool) {
	ctx, cancel := context.WithTimeout(context.Background(), 450*time.Second)
	defer cancel()
	self, err := os.Executable()
	if err != nil {
		return "", false
	}
	cmd := exec.CommandContext(ctx, self, args...)
	b, err := cmd.Output()
	if os.Getenv("CHK_AGAIN") != "" {
		fmt.Fprintf(os.Stderr, "again: %v\n%s", err, b)
	}
	return string(b), err == nil
}

// finish writes evidence and prints the verdict; true when violated.
func (c *Check) finish(def propDef, known []knownFinding, out string, wall float64) bool {
	ev := filepath.Join(out, "evidence")
	os.MkdirAll(ev, 0o755)
	var real []Violation
	for _, v := range c.vs {
		k := v.Rule + "|" + v.Construct
		listed := false
		for _, f := range known {
			if f.prop == c.id && f.what == strings.ReplaceAll(k, " ", "_") {
				listed = true
			}
		}
		if listed {
			fmt.Printf("KNOWN-FINDING: property=%s %s %s: %s\n", c.id, k, v.Pos, v.Msg)
			continue
		}
		real = append(real, v)
	}
	replay := filepath.Join(ev, c.id+".replay.txt")
	os.Remove(replay)
	if len(real) > 0 {
		var sb strings.Builder
		for _, v := range real {
			fmt.Fprintf(&sb, "property %s rule %s construct %s\n  at %s\n  %s\n", c.id, v.Rule, v.Construct, v.Pos, v.Msg)
			for _, t := range v.Trail {
				fmt.Fprintf(&sb, "    %s\n", t)
			}
			sb.WriteString("\n")
		}
		fmt.Fprintf(&sb, "replay: %s/check.sh %s quick\n", out, c.id)
		os.WriteFile(replay, []byte(sb.String()), 0o644)
		for _, v := range real {
			fmt.Printf("%s: [%s] %s: %s\n", v.Pos, v.Rule, v.Construct, v.Msg)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, replay)
	}
	var fns []string
	for f := range c.funcs {
		if c.p.inModule(f) {
			fns = append(fns, fnName(f))
		}
	}
	sort.Strings(fns)
	obl := map[string]int{}
	total := 0
	var rules []string
	for r, m := range c.obs {
		obl[r] = len(m)
		total += len(m)
		rules = append(rules, r)
	}
	sort.Strings(rules)
	det := map[string][]string{}
	for r, m := range c.obs {
		var l []string
		for x := range m {
			l = append(l, x)
		}
		sort.Strings(l)
		if len(l) > 40 {
			l = append(l[:40], fmt.Sprintf("… %d more", len(l)-40))
		}
		det[r] = l
	}
	var vj []map[string]string
	for _, v := range real {
		vj = append(vj, map[string]string{"rule": v.Rule, "construct": v.Construct, "at": v.Pos, "what": v.Msg})
	}
	e := map[string]interface{}{
		"property": c.id,
		"tier":     c.tier,
		"seed":     seedEnv(),
		"level":    "other",
		"coverage": map[string]interface{}{
			"explanation":           def.rules,
			"functions_analysed":    fns,
			"functions_count":       len(fns),
			"sites_examined":        len(c.sites),
			"explorations":          c.explor,
			"abstract_states":       c.states,
			"paths_ended":           c.paths,
			"obligations_by_rule":   obl,
			"obligations":           total,
			"obligation_constructs": det,
			"notes":                 c.notes,
		},
		"wall_s":     wall,
		"violations": len(real),
	}
	if len(vj) > 0 {
		e["coverage"].(map[string]interface{})["violation_list"] = vj
	}
	b, _ := json.MarshalIndent(e, "", " ")
	os.WriteFile(filepath.Join(ev, c.id+".json"), append(b, '\n'), 0o644)
	if len(real) == 0 {
		fmt.Printf("OK property=%s obligations=%d functions=%d states=%d wall=%.1fs\n", c.id, total, len(fns), c.states, wall)
	}
	return len(real) > 0
}

func seedEnv() int {
	n := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}
