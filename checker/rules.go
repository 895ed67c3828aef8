package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obl is one obligation of a rule on one construct of the source.
type Obl struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	OK        bool   `json:"ok"`
	Msg       string `json:"msg,omitempty"`
	Pos       string `json:"pos,omitempty"`
	Trace     string `json:"-"`
}

func (o *Obl) key() string { return o.Rule + " @ " + o.Construct }

// Ctx is the context of one check.
type Ctx struct {
	w        *World
	prop     string
	tier     string
	obls     map[string]*Obl
	order    []string
	fns      map[string]bool
	outcomes int
	steps    int
	assume   map[string]bool
	notes    []string
	cur      *ssa.Function
	ents     map[string]mentry
	pops     map[*ssa.Function]bool
}

func newCtx(w *World, prop, tier string) *Ctx {
	return &Ctx{w: w, prop: prop, tier: tier, obls: map[string]*Obl{}, fns: map[string]bool{}, assume: map[string]bool{}}
}

// ob records the verdict of an obligation. Several verdicts for the same
// rule and construct are combined: one failure fails it.
func (c *Ctx) ob(rule, construct string, ok bool, pos token.Pos, format string, args ...interface{}) bool {
	k := rule + " @ " + construct
	o := c.obls[k]
	if o == nil {
		o = &Obl{Rule: rule, Construct: construct, OK: true}
		c.obls[k] = o
		c.order = append(c.order, k)
	}
	if o.Pos == "" || !ok && o.OK {
		if pos.IsValid() {
			o.Pos = c.w.pos(pos)
		}
	}
	if !ok && o.OK {
		o.OK = false
		o.Msg = fmt.Sprintf(format, args...)
	}
	return ok
}

func (c *Ctx) fail(rule, construct string, pos token.Pos, format string, args ...interface{}) {
	c.ob(rule, construct, false, pos, format, args...)
}

func (c *Ctx) pass(rule, construct string) { c.ob(rule, construct, true, token.NoPos, "") }

func (c *Ctx) assuming(s string) { c.assume[s] = true }

// guard turns an internal failure of a rule into an undecided obligation.
func (c *Ctx) guard(rule, construct string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("LPGCHECK_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "%v\n%s\n", r, debug.Stack())
			}
			c.fail(rule, construct, token.NoPos, "undecided: %v", r)
		}
	}()
	f()
}

type anchorErr string

// fn resolves a function the rules are about.
func (c *Ctx) fn(name string) *ssa.Function {
	f := c.w.fn(name)
	if f == nil {
		panic(anchorErr("function " + name + " not found in the source"))
	}
	return f
}

// run interprets fn with hook h from a state prepared by setup.
func (c *Ctx) run(fn *ssa.Function, h Hook, setup func(e *Eng, st *State, args []*Term)) (*Eng, []Outcome) {
	return c.runWith(fn, nil, h, setup)
}

// runWith is run with options set.
func (c *Ctx) runWith(fn *ssa.Function, opt func(e *Eng), h Hook, setup func(e *Eng, st *State, args []*Term)) (*Eng, []Outcome) {
	e := newEng(c.w)
	e.hook = h
	if opt != nil {
		opt(e)
	}
	st := e.newState()
	var args []*Term
	for i, p := range fn.Params {
		n := p.Name()
		if n == "_" || n == "" {
			n = fmt.Sprintf("arg%d", i)
		}
		args = append(args, e.tt.Param(n, p.Type()))
	}
	if setup != nil {
		setup(e, st, args)
	}
	outs := c.runArgs(e, fn, args, st)
	return e, outs
}

// runA is run for unconstrained arguments, which it gives back.
func (c *Ctx) runA(fn *ssa.Function, h Hook) (*Eng, []*Term, []Outcome) {
	var as []*Term
	e, outs := c.run(fn, h, func(e *Eng, st *State, args []*Term) { as = args })
	return e, as, outs
}

func (c *Ctx) runArgs(e *Eng, fn *ssa.Function, args []*Term, st *State) []Outcome {
	outs := e.Run(fn, args, st)
	c.account(e, outs)
	if e.over {
		panic(anchorErr("analysis budget exceeded in " + fnName(fn)))
	}
	var live []Outcome
	for _, o := range outs {
		if !o.st.dead {
			live = append(live, o)
		}
	}
	if len(live) == 0 {
		panic(anchorErr("no outcome of " + fnName(fn)))
	}
	return live
}

func (c *Ctx) account(e *Eng, outs []Outcome) {
	for f := range e.fnsSeen {
		c.fns[fnName(f)] = true
	}
	c.outcomes += len(outs)
	c.steps += e.steps
}

// Rule checks one property.
type Rule struct {
	id    string
	desc  string
	min   int // number of obligations confirmed by reading; fewer fail the check
	check func(c *Ctx)
}

var rules = map[string]*Rule{}

func reg(id, desc string, min int, f func(c *Ctx)) {
	rules[id] = &Rule{id: id, desc: desc, min: min, check: f}
}

// known findings: lines "finding: property=<id> key=<rule @ construct> :: <text>"
type known struct{ prop, key, text string }

func readKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var r []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property=")
		i := strings.Index(l, " key=")
		j := strings.Index(l, " :: ")
		if i < 0 || j < i {
			continue
		}
		r = append(r, known{l[:i], l[i+5 : j], l[j+4:]})
	}
	return r
}

// evaluate runs the rule of a property on a loaded program.
func evaluate(w *World, err error, r *Rule, tier string) *Ctx {
	c := newCtx(w, r.id, tier)
	if err != nil {
		c.w = &World{}
		c.fail("load", "package lpg", token.NoPos, "the package does not load or type-check: %v", err)
		return c
	}
	c.guard("analysis", r.id, func() { r.check(c) })
	if n := len(c.obls); n < r.min {
		c.fail("instances", r.id, token.NoPos, "only %d obligations found, %d were confirmed by reading: the rules no longer match the source", n, r.min)
	}
	return c
}

func runCheck(repo, verif, id, tier string) int {
	start := time.Now()
	r := rules[id]
	if r == nil {
		fmt.Printf("no rule for %s\n", id)
		return 2
	}
	w, err := load(repo)
	c := evaluate(w, err, r, tier)
	kn := readKnown(filepath.Join(verif, "known-findings.txt"))
	var bad []*Obl
	var knownHit []string
	disch := 0
	for _, k := range c.order {
		o := c.obls[k]
		if o.OK {
			disch++
			continue
		}
		hit := false
		for _, f := range kn {
			if f.prop == id && f.key == o.key() {
				hit = true
				knownHit = append(knownHit, f.text)
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.text)
			}
		}
		if !hit {
			bad = append(bad, o)
		}
	}
	var fns []string
	for f := range c.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var as []string
	for a := range c.assume {
		as = append(as, a)
	}
	sort.Strings(as)
	var samples []string
	rulesSeen := map[string]int{}
	for _, k := range c.order {
		o := c.obls[k]
		rulesSeen[o.Rule]++
		if rulesSeen[o.Rule] <= 2 && len(samples) < 12 {
			samples = append(samples, k)
		}
	}
	seed := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation":        r.desc,
			"obligations":        len(c.order),
			"discharged":         disch,
			"known_findings":     knownHit,
			"functions_analysed": fns,
			"functions":          len(fns),
			"abstract_outcomes":  c.outcomes,
			"abstract_steps":     c.steps,
			"rule_instances":     rulesSeen,
			"samples":            samples,
			"files":              len(w0files(c.w)),
		},
		"assumptions": as,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(bad),
	}
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	if len(bad) > 0 {
		rp := filepath.Join(evdir, id+".violation.txt")
		var sb strings.Builder
		for _, o := range bad {
			fmt.Fprintf(&sb, "%s: %s\n  rule: %s\n  construct: %s\n  %s\n", id, o.Pos, o.Rule, o.Construct, o.Msg)
		}
		os.WriteFile(rp, []byte(sb.String()), 0o644)
		fmt.Print(sb.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	fmt.Printf("%s ok: %d obligations, %d functions, %d abstract outcomes, %.1fs\n", id, len(c.order), len(fns), c.outcomes, time.Since(start).Seconds())
	return 0
}

func w0files(w *World) []string {
	var r []string
	for _, f := range w.files {
		r = append(r, w.fset.Position(f.Pos()).Filename)
	}
	return r
}
