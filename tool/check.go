package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Finding is a violated or undecided obligation, named by rule and construct.
type Finding struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Pos       string `json:"pos,omitempty"`
	Msg       string `json:"msg"`
}

type ruleStat struct {
	Rule        string `json:"rule"`
	Obligations int    `json:"obligations"`
	Discharged  int    `json:"discharged"`
	Undecided   int    `json:"undecided"`
	Violated    int    `json:"violated"`
}

// Ck is one run of the check of a property.
type Ck struct {
	P     *Prog
	id    string
	tier  string
	rules []*ruleStat
	byR   map[string]*ruleStat
	fails []Finding
	unds  []Finding
	seen  map[string]bool
	samp  []string

	graphs map[string]*Graph
	nFuncs map[*ssa.Function]bool
	nNodes int
	nEv    int
	nLive  int

	lfns   []*lineFn
	ldraws []*lineDraw
}

func newCk(p *Prog, id, tier string) *Ck {
	return &Ck{P: p, id: id, tier: tier, byR: map[string]*ruleStat{}, seen: map[string]bool{}, graphs: map[string]*Graph{}, nFuncs: map[*ssa.Function]bool{}}
}

func (c *Ck) rule(r string) *ruleStat {
	s := c.byR[r]
	if s == nil {
		s = &ruleStat{Rule: r}
		c.byR[r] = s
		c.rules = append(c.rules, s)
	}
	return s
}

func (c *Ck) ok(rule, what string) {
	s := c.rule(rule)
	s.Obligations++
	s.Discharged++
	if len(c.samp) < 40 {
		c.samp = append(c.samp, rule+": "+what)
	}
}

func (c *Ck) fail(rule, construct, pos, msg string, args ...any) {
	s := c.rule(rule)
	s.Obligations++
	s.Violated++
	k := rule + "|" + construct
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.fails = append(c.fails, Finding{rule, construct, pos, fmt.Sprintf(msg, args...)})
}

func (c *Ck) und(rule, construct, msg string, args ...any) {
	s := c.rule(rule)
	s.Obligations++
	s.Undecided++
	c.unds = append(c.unds, Finding{Rule: rule, Construct: construct, Msg: fmt.Sprintf(msg, args...)})
}

// expect discharges or fails an obligation.
func (c *Ck) expect(ok bool, rule, construct, pos, msg string, args ...any) bool {
	if ok {
		c.ok(rule, construct)
	} else {
		c.fail(rule, construct, pos, msg, args...)
	}
	return ok
}

func (c *Ck) newGraph(fn *ssa.Function, o Options) *Graph {
	g := newGraph(c.P, fn, o)
	g.prune()
	for _, k := range g.ctxs {
		c.nFuncs[k.fn] = true
	}
	c.nNodes += len(g.nodes)
	c.nEv += len(g.events)
	c.nLive += len(g.evs(nil))
	return g
}

// graphOf builds (once) the graph of fn under an assumption.
func (c *Ck) graphOf(fn *ssa.Function, key string, as Assume) *Graph {
	if fn == nil {
		return nil
	}
	k := fn.String() + "|" + key
	if g, ok := c.graphs[k]; ok {
		return g
	}
	o := defaultOptions(c.P)
	o.Assume = as
	g := c.newGraph(fn, o)
	c.graphs[k] = g
	return g
}

type ruleFn func(c *Ck)

var checks = map[string]ruleFn{}
var ruleText = map[string]string{}

func register(id, text string, f ruleFn) {
	checks[id] = f
	ruleText[id] = text
}

type knownFinding struct {
	Property  string `json:"property"`
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	What      string `json:"what"`
	Fixed     string `json:"fixed,omitempty"`
}

func loadKnown(path string) []knownFinding {
	bs, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(bs), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		var k knownFinding
		if json.Unmarshal([]byte(l), &k) == nil {
			out = append(out, k)
		}
	}
	return out
}

func runCheck(repo, verif, id, tier string, seed int) int {
	t0 := time.Now()
	p, err := loadProg(repo)
	if err != nil {
		fmt.Println("cannot load the program:", err)
		return 2
	}
	theProg = p
	f := checks[id]
	if f == nil {
		fmt.Println("no check for", id)
		return 2
	}
	c := newCk(p, id, tier)
	c.protect(id, func() { f(c) })

	known := loadKnown(filepath.Join(verif, "known-findings.jsonl"))
	var viol, kf []Finding
	for _, x := range c.fails {
		hit := false
		for _, k := range known {
			if k.Property == id && k.Rule == x.Rule && k.Construct == x.Construct {
				hit = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
				break
			}
		}
		if hit {
			kf = append(kf, x)
		} else {
			viol = append(viol, x)
		}
	}
	obl, dis, und := 0, 0, 0
	for _, r := range c.rules {
		obl += r.Obligations
		dis += r.Discharged
		und += r.Undecided
	}
	var fns []string
	for f := range c.nFuncs {
		fns = append(fns, fnName(f))
	}
	sort.Strings(fns)
	cov := map[string]any{
		"explanation":        "Static analysis of the current source: " + ruleText[id],
		"obligations":        obl,
		"discharged":         dis,
		"undecided":          und,
		"rules":              c.rules,
		"functions_analysed": fns,
		"graphs":             len(c.graphs),
		"graph_nodes":        c.nNodes,
		"graph_events":       c.nEv,
		"live_events":        c.nLive,
		"samples":            c.samp,
		"undecided_list":     c.unds,
		"known_findings":     kf,
		"violations_list":    viol,
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov,
		"assumptions": []string{
			"pointers loaded from different places are assumed not to alias; package unsafe is not used",
			"floating point arithmetic is treated as exact arithmetic",
			"the PDF library and the standard library do what their documentation says",
		},
		"wall_s":     time.Since(t0).Seconds(),
		"violations": len(viol),
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	bs, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(bs, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d undecided, %d violated (%d known), %.1fs\n", id, obl, dis, und, len(c.fails), len(kf), time.Since(t0).Seconds())
	for _, u := range c.unds {
		fmt.Printf("  undecided %s %s: %s\n", u.Rule, u.Construct, clip(u.Msg, 300))
	}
	if len(viol) > 0 {
		rp := filepath.Join(verif, "evidence", id+".violation.json")
		bs, _ := json.MarshalIndent(viol, "", " ")
		os.WriteFile(rp, append(bs, '\n'), 0o644)
		for _, v := range viol {
			fmt.Printf("  %s %s at %s: %s\n", v.Rule, v.Construct, v.Pos, clip(v.Msg, 1500))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	return 0
}

// protect keeps an internal error of a rule from being taken for a verdict.
func (c *Ck) protect(name string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			c.und("internal", name, "%v\n%s", r, debug.Stack())
		}
	}()
	f()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// ---- anchors

const modPath = "github.com/mazzegi/xpdf"

// procMethod finds a method of the processor by name.
func (c *Ck) procMethod(name string) *ssa.Function {
	return c.P.fn("", "Processor."+name)
}

// process is the graph of a whole rendering under a case.
func (c *Ck) process(key string, as Assume) *Graph {
	return c.graphOf(c.procMethod("Process"), key, as)
}

func (c *Ck) kindGraph(kind, halign string) *Graph {
	as := assumeKind(kind)
	if halign != "" {
		as = both(as, assumeHAlign(halign))
	}
	return c.process(kind+","+halign, as)
}

// hook finds the function registered as header or footer callback.
func (c *Ck) hook(which string) (*ssa.Function, *Event) {
	g := c.process("None", assumeKind("None"))
	if g == nil {
		return nil, nil
	}
	for _, e := range g.evs(eng(which)) {
		as := g.evArgs(e)
		if len(as) == 2 && as[1].op == OFn {
			f, _ := as[1].data.(*ssa.Function)
			return f, e
		}
		return nil, e
	}
	return nil, g.registersDynamically()
}

// registersDynamically is a call of a function that is not evident, with a
// function as its argument.
func (g *Graph) registersDynamically() *Event {
	for _, e := range g.evs(func(e *Event) bool { return e.kind == "call" && e.callee == "dynamic" }) {
		for _, a := range g.evArgs(e) {
			if a.op == OFn {
				return e
			}
		}
	}
	return nil
}

func (c *Ck) hookGraph(which, key string, as Assume) *Graph {
	f, _ := c.hook(which)
	if f == nil {
		return nil
	}
	return c.graphOf(f, key, as)
}

// procTerm is the term of the processor in g.
func (g *Graph) procTerm() *Term {
	want := "*" + modPath + ".Processor"
	for _, a := range g.root.args {
		if a.t != nil && typeKey(a.t.typ) == want {
			return a.t
		}
	}
	for _, b := range g.root.binds {
		if b.t == nil {
			continue
		}
		if typeKey(b.t.typ) == want {
			return b.t
		}
		if typeKey(b.t.typ) == "*"+want {
			return g.T.load(b.t)
		}
	}
	return nil
}

// fieldByType finds the fields of a struct type with the given type key.
func fieldsOfType(st types.Type, want string) []int {
	s, ok := st.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []int
	for i := 0; i < s.NumFields(); i++ {
		if typeKey(s.Field(i).Type()) == want {
			out = append(out, i)
		}
	}
	return out
}

func fieldNamed(st types.Type, name string) int {
	s, ok := st.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// path of fields from a struct value or address term.
func (g *Graph) fpath(t *Term, st types.Type, names ...string) (*Term, types.Type) {
	for _, n := range names {
		if p, ok := st.Underlying().(*types.Pointer); ok {
			st = p.Elem()
		}
		i, path := findField(st, n)
		if i < 0 {
			return nil, nil
		}
		for _, k := range path {
			s := st.Underlying().(*types.Struct)
			t = g.T.field(t, k, st)
			st = s.Field(k).Type()
		}
	}
	return t, st
}

// apath: address of a field path.
func (g *Graph) apath(t *Term, st types.Type, names ...string) (*Term, types.Type) {
	for _, n := range names {
		i, path := findField(st, n)
		if i < 0 {
			return nil, nil
		}
		for _, k := range path {
			s := st.Underlying().(*types.Struct)
			t = g.T.faddr(t, k, st)
			st = s.Field(k).Type()
		}
	}
	return t, st
}

// findField resolves a (possibly promoted) field name to an index path.
func findField(st types.Type, name string) (int, []int) {
	s, ok := st.Underlying().(*types.Struct)
	if !ok {
		return -1, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i, []int{i}
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			if j, p := findField(s.Field(i).Type(), name); j >= 0 {
				return j, append([]int{i}, p...)
			}
		}
	}
	return -1, nil
}
