package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Options steer how a Graph is built from an entry function.
type Options struct {
	// Opaque functions are not expanded: a call is an event.
	Opaque func(*ssa.Function) bool
	// Pure names calls without effects whose result depends on the
	// arguments only (in addition to the built-in table).
	Pure func(callee string) bool
	// NoClobber names calls which do not write through pointer arguments.
	NoClobber func(callee string) bool
	MaxNodes  int
	// Assume fixes the case under analysis.
	Assume Assume
}

// Graph is the interprocedural control-flow graph of one entry function:
// every call to a function of the module is expanded in its own context,
// including closures, method values, interface calls with a known dynamic
// type and deferred calls. Other calls are events.
type Graph struct {
	P      *Prog
	T      *Terms
	opts   Options
	Entry  *ssa.Function
	root   *Ctx
	nodes  []*Node
	entry  *Node
	rpo    []*Node
	ctxs   []*Ctx
	events []*Event
	evAt   map[itemKey]*Event

	// evaluation state
	memo       map[valKey]*Term
	resolved   map[*Term]*Term
	normMemo   map[*Term]*Term
	memMemo    map[memKey]*Term
	regions    map[*Node]bitset
	loops      map[*Node]*Loop
	candMemo   map[string]nodeSet
	open       []*Term
	condMemo   map[*Edge]*Term
	overflow   bool
	condDefers []condDefer
	corrs      *corr
	live       map[*Node]bool
	liveEdge   map[*Edge]bool
	notes      []string
	tmps       int
	baseTypes  map[*Term]types.Type
}

type itemKey struct {
	n *Node
	i int
}

type valKey struct {
	c *Ctx
	v ssa.Value
	i int
}

type memKey struct {
	n    *Node
	addr *Term
}

// Ctx is one expansion of a function.
type Ctx struct {
	id      int
	fn      *ssa.Function
	parent  *Ctx
	site    ssa.Instruction
	args    []valRef
	binds   []valRef
	entry   *Node
	blk     map[*ssa.BasicBlock]*Node // first node of a block
	loc     map[ssa.Instruction]loc   // where an instruction sits
	callRes map[ssa.Instruction]*Node // join node of an expanded call
	callees map[ssa.Instruction][]*Ctx
	rets    []retRef
	regOf   map[*ssa.Defer]*Node // where a deferred call is registered
}

// condDefer is a deferred call that is not registered on every path.
type condDefer struct {
	reg  *Node
	from *Node
	run  []*Edge
	skip *Edge
}

type valRef struct {
	c *Ctx
	v ssa.Value
	t *Term
}

type retRef struct {
	n   *Node
	ret *ssa.Return
}

type loc struct {
	n *Node
	i int
}

type item struct {
	in    ssa.Instruction
	defr  *ssa.Defer // a deferred opaque call executed here
	defrI bool
}

type Node struct {
	id    int
	c     *Ctx
	b     *ssa.BasicBlock
	items []item
	succs []*Edge
	preds []*Edge
	idom  *Node
	rpo   int
	exit  string // "", "return", "panic", "exit"
	join  bool   // after an expanded call
	depth int
	kids  []*Node
	tin   int
	tout  int
}

type Edge struct {
	from, to *Node
	cond     *valRef // branch condition
	neg      bool
	fn       *ssa.Function // edge of an indirect call: callee is fn
	fnv      *valRef
	predIdx  int // index into b.Preds of the target block, or -1
	ret      *ssa.Return
	retCtx   *Ctx
	unknown  bool
	contEdge bool
}

// Event is an effect that is visible in the graph: an opaque call, a store, a
// map update.
type Event struct {
	id     int
	n      *Node
	i      int
	c      *Ctx
	in     ssa.Instruction
	kind   string // call, store, mapset, go, send, copy, delete
	callee string // calls
	fn     *ssa.Function
	method *types.Func
	cc     *ssa.CallCommon
	args   []*Term
	res    *Term
	done   bool
}

type target struct {
	fn    *ssa.Function
	binds []valRef
}

func newGraph(p *Prog, entry *ssa.Function, opts Options) *Graph {
	if opts.MaxNodes == 0 {
		opts.MaxNodes = 60000
	}
	g := &Graph{P: p, T: newTerms(), opts: opts, Entry: entry,
		evAt: map[itemKey]*Event{}, memo: map[valKey]*Term{}, resolved: map[*Term]*Term{},
		memMemo: map[memKey]*Term{}, regions: map[*Node]bitset{}, loops: map[*Node]*Loop{},
		candMemo: map[string]nodeSet{}, condMemo: map[*Edge]*Term{}}
	c := &Ctx{fn: entry}
	for i, prm := range entry.Params {
		c.args = append(c.args, valRef{t: g.T.mk(&Term{op: OParam, s: prm.Name(), i: i, typ: prm.Type()})})
	}
	for i, fv := range entry.FreeVars {
		c.binds = append(c.binds, valRef{t: g.T.mk(&Term{op: OParam, s: "captured:" + fv.Name(), i: 1000 + i, typ: fv.Type()})})
	}
	// a captured variable that holds a parameter of the enclosing function
	// throughout is this parameter
	for i, fv := range entry.FreeVars {
		t := c.binds[i].t
		if pp, ok := fv.Type().Underlying().(*types.Pointer); ok {
			if prm := capturedParam(entry, i); prm != nil {
				if g.T.loadAs == nil {
					g.T.loadAs = map[*Term]*Term{}
				}
				g.T.loadAs[t] = g.T.mk(&Term{op: OParam, s: prm.Name(), i: 2000 + i, typ: pp.Elem()})
			}
		}
	}
	g.root = c
	g.buildCtx(c)
	g.entry = c.entry
	g.finish()
	return g
}

func (g *Graph) node(c *Ctx, b *ssa.BasicBlock) *Node {
	n := &Node{id: len(g.nodes), c: c, b: b}
	g.nodes = append(g.nodes, n)
	return n
}

func (g *Graph) edge(from, to *Node) *Edge {
	e := &Edge{from: from, to: to, predIdx: -1}
	from.succs = append(from.succs, e)
	to.preds = append(to.preds, e)
	return e
}

func (c *Ctx) onStack(fn *ssa.Function) bool {
	for x := c; x != nil; x = x.parent {
		if x.fn == fn {
			return true
		}
	}
	return false
}

func rpoBlocks(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var out []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, s := range b.Succs {
			dfs(s)
		}
		out = append(out, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (g *Graph) buildCtx(c *Ctx) {
	c.id = len(g.ctxs)
	g.ctxs = append(g.ctxs, c)
	c.blk = map[*ssa.BasicBlock]*Node{}
	c.loc = map[ssa.Instruction]loc{}
	c.callRes = map[ssa.Instruction]*Node{}
	c.callees = map[ssa.Instruction][]*Ctx{}
	c.regOf = map[*ssa.Defer]*Node{}
	blocks := rpoBlocks(c.fn)
	for _, b := range blocks {
		c.blk[b] = g.node(c, b)
	}
	c.entry = c.blk[blocks[0]]
	var defers []*ssa.Defer
	for _, b := range blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				defers = append(defers, d)
			}
		}
	}
	type jump struct {
		from *Node
		to   *ssa.BasicBlock
		idx  int
		cond *valRef
		neg  bool
	}
	for _, b := range blocks {
		cur := c.blk[b]
		terminated := false
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				ts, ok := g.targets(c, x.Common())
				if !ok || len(g.nodes) > g.opts.MaxNodes {
					if len(g.nodes) > g.opts.MaxNodes {
						g.overflow = true
					}
					cur.items = append(cur.items, item{in: in})
					c.loc[in] = loc{cur, len(cur.items) - 1}
					if g.isExit(x.Common()) {
						cur.exit = "exit"
						terminated = true
					}
					break
				}
				cur = g.expand(c, cur, x, x.Common(), ts)
			case *ssa.RunDefers:
				for i := len(defers) - 1; i >= 0; i-- {
					d := defers[i]
					if !reaches(d.Block(), b) {
						continue
					}
					always := d.Block().Dominates(b)
					ts, ok := g.targets(c, d.Common())
					if ok {
						before := cur
						after := g.expand(c, cur, d, d.Common(), ts)
						if !always {
							run := len(before.succs)
							e := g.edge(before, after)
							e.unknown = true
							g.condDefers = append(g.condDefers, condDefer{reg: c.regOf[d], from: before, run: before.succs[:run:run], skip: e})
						}
						cur = after
					} else if always {
						cur.items = append(cur.items, item{in: d, defr: d})
						c.loc[d] = loc{cur, len(cur.items) - 1}
					} else {
						nn := g.node(c, b)
						nn.items = append(nn.items, item{in: d, defr: d})
						c.loc[d] = loc{nn, 0}
						after := g.node(c, b)
						er, es := g.edge(cur, nn), g.edge(cur, after)
						er.unknown, es.unknown = true, true
						g.condDefers = append(g.condDefers, condDefer{reg: c.regOf[d], from: cur, run: []*Edge{er}, skip: es})
						g.edge(nn, after)
						cur = after
					}
				}
				cur.items = append(cur.items, item{in: in})
				c.loc[in] = loc{cur, len(cur.items) - 1}
			case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic:
				cur.items = append(cur.items, item{in: in})
				c.loc[in] = loc{cur, len(cur.items) - 1}
				switch x := x.(type) {
				case *ssa.Return:
					c.rets = append(c.rets, retRef{cur, x})
					if c == g.root {
						cur.exit = "return"
					}
				case *ssa.Panic:
					cur.exit = "panic"
				}
			case *ssa.Defer:
				// executed at RunDefers; the closure value is evaluated here
				c.regOf[x] = cur
				if _, ok := c.loc[in]; !ok {
					// keep a location for argument evaluation
					c.loc[in] = loc{cur, len(cur.items)}
				}
			default:
				cur.items = append(cur.items, item{in: in})
				c.loc[in] = loc{cur, len(cur.items) - 1}
			}
			if terminated {
				break
			}
		}
		if terminated {
			continue
		}
		for k, s := range b.Succs {
			to, ok := c.blk[s]
			if !ok {
				continue
			}
			e := g.edge(cur, to)
			// index of this edge among the predecessors of s
			cnt := 0
			for kk := 0; kk < k; kk++ {
				if b.Succs[kk] == s {
					cnt++
				}
			}
			for pi, pb := range s.Preds {
				if pb == b {
					if cnt == 0 {
						e.predIdx = pi
						break
					}
					cnt--
				}
			}
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				e.cond = &valRef{c: c, v: iff.Cond}
				e.neg = k == 1
			}
		}
	}
}

func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{a}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		st = append(st, x.Succs...)
	}
	return false
}

func (g *Graph) isExit(cc *ssa.CallCommon) bool {
	f := cc.StaticCallee()
	if f == nil {
		return false
	}
	switch f.String() {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit":
		return true
	}
	return false
}

// expand inlines the targets of a call after node cur and returns the node
// where control continues.
func (g *Graph) expand(c *Ctx, cur *Node, in ssa.Instruction, cc *ssa.CallCommon, ts []target) *Node {
	c.loc[in] = loc{cur, len(cur.items)}
	join := g.node(c, in.Block())
	join.join = true
	for _, t := range ts {
		k := &Ctx{fn: t.fn, parent: c, site: in, binds: t.binds}
		if cc.IsInvoke() {
			k.args = append(k.args, valRef{c: c, v: cc.Value, t: nil})
			// receiver: the asserted value is substituted on evaluation
			k.args[0].v = nil
			k.args[0].t = nil
			k.args[0] = valRef{c: c, v: cc.Value}
		}
		for _, a := range cc.Args {
			k.args = append(k.args, valRef{c: c, v: a})
		}
		g.buildCtx(k)
		e := g.edge(cur, k.entry)
		if len(ts) > 1 {
			e.fn = t.fn
			e.fnv = &valRef{c: c, v: cc.Value}
		}
		for _, r := range k.rets {
			re := g.edge(r.n, join)
			re.ret = r.ret
			re.retCtx = k
		}
		c.callees[in] = append(c.callees[in], k)
	}
	c.callRes[in] = join
	return join
}

// targets resolves the module functions a call may enter; ok is false if the
// call is to be treated as an opaque event.
func (g *Graph) targets(c *Ctx, cc *ssa.CallCommon) ([]target, bool) {
	if cc.IsInvoke() {
		// devirtualise when the dynamic type is evident
		rt := g.dynType(valRef{c: c, v: cc.Value}, 0)
		if rt == nil {
			return nil, false
		}
		ms := g.P.SSA.MethodSets.MethodSet(rt)
		sel := ms.Lookup(cc.Method.Pkg(), cc.Method.Name())
		if sel == nil {
			return nil, false
		}
		f := g.P.SSA.MethodValue(sel)
		if !g.inlinable(c, f) {
			return nil, false
		}
		return []target{{fn: f}}, true
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil, false
	}
	ts, ok := g.fnTargets(valRef{c: c, v: cc.Value}, 0)
	if !ok || len(ts) == 0 {
		return nil, false
	}
	for _, t := range ts {
		if !g.inlinable(c, t.fn) {
			return nil, false
		}
	}
	return ts, true
}

func (g *Graph) inlinable(c *Ctx, f *ssa.Function) bool {
	if f == nil || f.Blocks == nil || !g.P.inModule(f) {
		return false
	}
	if f.Name() == "init" && f.Synthetic != "" {
		return false
	}
	if c.onStack(f) {
		return false
	}
	if g.opts.Opaque != nil && g.opts.Opaque(f) {
		return false
	}
	return true
}

// dynType finds the dynamic type of an interface value if it is evident.
func (g *Graph) dynType(r valRef, d int) types.Type {
	if d > 20 || r.v == nil {
		return nil
	}
	switch v := r.v.(type) {
	case *ssa.MakeInterface:
		return v.X.Type()
	case *ssa.ChangeInterface:
		return g.dynType(valRef{c: r.c, v: v.X}, d+1)
	case *ssa.Parameter:
		i := paramIdx(v)
		if i >= 0 && i < len(r.c.args) {
			return g.dynType(r.c.args[i], d+1)
		}
	}
	return nil
}

func paramIdx(p *ssa.Parameter) int {
	for i, q := range p.Parent().Params {
		if q == p {
			return i
		}
	}
	return -1
}

func freeIdx(p *ssa.FreeVar) int {
	for i, q := range p.Parent().FreeVars {
		if q == p {
			return i
		}
	}
	return -1
}

// fnTargets resolves a function value to the functions it may be.
func (g *Graph) fnTargets(r valRef, d int) ([]target, bool) {
	if d > 30 || r.v == nil {
		return nil, false
	}
	c := r.c
	switch v := r.v.(type) {
	case *ssa.Function:
		return []target{{fn: v}}, true
	case *ssa.MakeClosure:
		t := target{fn: v.Fn.(*ssa.Function)}
		for _, b := range v.Bindings {
			t.binds = append(t.binds, valRef{c: c, v: b})
		}
		return []target{t}, true
	case *ssa.ChangeType:
		return g.fnTargets(valRef{c: c, v: v.X}, d+1)
	case *ssa.Parameter:
		i := paramIdx(v)
		if i >= 0 && i < len(c.args) {
			return g.fnTargets(c.args[i], d+1)
		}
	case *ssa.FreeVar:
		i := freeIdx(v)
		if i >= 0 && i < len(c.binds) {
			return g.fnTargets(c.binds[i], d+1)
		}
	case *ssa.Phi:
		var out []target
		for _, e := range v.Edges {
			if e == v {
				continue
			}
			if cst, ok := e.(*ssa.Const); ok && cst.IsNil() {
				continue
			}
			ts, ok := g.fnTargets(valRef{c: c, v: e}, d+1)
			if !ok {
				return nil, false
			}
			out = addTargets(out, ts)
		}
		return out, true
	case *ssa.Call:
		return g.retTargets(c, v, 0, d)
	case *ssa.Extract:
		if call, ok := v.Tuple.(*ssa.Call); ok {
			return g.retTargets(c, call, v.Index, d)
		}
	case *ssa.UnOp:
		if v.Op.String() != "*" {
			return nil, false
		}
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			fs := g.P.fieldFns(deref(fa.X.Type()), fa.Field)
			var out []target
			for _, f := range fs {
				out = append(out, target{fn: f})
			}
			return out, len(out) > 0
		}
		ac, al := g.allocOf(valRef{c: c, v: v.X}, 0)
		if al == nil {
			return nil, false
		}
		var out []target
		for _, ref := range *al.Referrers() {
			switch s := ref.(type) {
			case *ssa.Store:
				if s.Addr != al {
					return nil, false
				}
				ts, ok := g.fnTargets(valRef{c: ac, v: s.Val}, d+1)
				if !ok {
					return nil, false
				}
				out = addTargets(out, ts)
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				// captured: no store in the closure
				fn := s.Fn.(*ssa.Function)
				for i, b := range s.Bindings {
					if b == al {
						for _, r2 := range *fn.FreeVars[i].Referrers() {
							if st, ok := r2.(*ssa.Store); ok && st.Addr == fn.FreeVars[i] {
								return nil, false
							}
						}
					}
				}
			default:
				return nil, false
			}
		}
		return out, len(out) > 0
	}
	return nil, false
}

func (g *Graph) retTargets(c *Ctx, call *ssa.Call, idx, d int) ([]target, bool) {
	var out []target
	if c == nil {
		return nil, false
	}
	ks := c.callees[call]
	if len(ks) == 0 {
		return nil, false
	}
	for _, k := range ks {
		for _, r := range k.rets {
			ts, ok := g.fnTargets(valRef{c: k, v: r.ret.Results[idx]}, d+1)
			if !ok {
				return nil, false
			}
			out = addTargets(out, ts)
		}
	}
	return out, len(out) > 0
}

func addTargets(a, b []target) []target {
	for _, t := range b {
		dup := false
		for _, o := range a {
			if o.fn == t.fn {
				dup = true
			}
		}
		if !dup {
			a = append(a, t)
		}
	}
	return a
}

func (g *Graph) allocOf(r valRef, d int) (*Ctx, *ssa.Alloc) {
	if d > 30 || r.v == nil {
		return nil, nil
	}
	switch v := r.v.(type) {
	case *ssa.Alloc:
		return r.c, v
	case *ssa.FreeVar:
		i := freeIdx(v)
		if i >= 0 && i < len(r.c.binds) {
			return g.allocOf(r.c.binds[i], d+1)
		}
	case *ssa.Parameter:
		i := paramIdx(v)
		if i >= 0 && i < len(r.c.args) {
			return g.allocOf(r.c.args[i], d+1)
		}
	}
	return nil, nil
}

// finish computes reverse post order, dominators, loops and events.
func (g *Graph) finish() {
	seen := map[*Node]bool{}
	var out []*Node
	type fr struct {
		n *Node
		i int
	}
	st := []fr{{g.entry, 0}}
	seen[g.entry] = true
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.n.succs) {
			s := f.n.succs[f.i].to
			f.i++
			if !seen[s] {
				seen[s] = true
				st = append(st, fr{s, 0})
			}
			continue
		}
		out = append(out, f.n)
		st = st[:len(st)-1]
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	for i, n := range out {
		n.rpo = i
	}
	g.rpo = out
	// drop unreachable nodes from predecessor lists
	for _, n := range out {
		ps := n.preds[:0]
		for _, e := range n.preds {
			if seen[e.from] {
				ps = append(ps, e)
			}
		}
		n.preds = ps
	}
	all := g.nodes
	g.nodes = out
	for _, n := range all {
		if !seen[n] {
			n.rpo = -1
		}
	}
	for i, n := range out {
		n.id = i
	}
	// dominators (Cooper, Harvey, Kennedy)
	g.entry.idom = g.entry
	changed := true
	inter := func(a, b *Node) *Node {
		for a != b {
			for a.rpo > b.rpo {
				a = a.idom
			}
			for b.rpo > a.rpo {
				b = b.idom
			}
		}
		return a
	}
	for changed {
		changed = false
		for _, n := range out[1:] {
			var d *Node
			for _, e := range n.preds {
				if e.from.idom == nil {
					continue
				}
				if d == nil {
					d = e.from
				} else {
					d = inter(d, e.from)
				}
			}
			if n.idom != d {
				n.idom = d
				changed = true
			}
		}
	}
	for _, n := range out[1:] {
		n.idom.kids = append(n.idom.kids, n)
	}
	// dominator tree intervals
	t := 0
	type fr2 struct {
		n *Node
		i int
	}
	st2 := []fr2{{g.entry, 0}}
	g.entry.tin = t
	for len(st2) > 0 {
		f := &st2[len(st2)-1]
		if f.i < len(f.n.kids) {
			k := f.n.kids[f.i]
			f.i++
			t++
			k.tin = t
			k.depth = f.n.depth + 1
			st2 = append(st2, fr2{k, 0})
			continue
		}
		t++
		f.n.tout = t
		st2 = st2[:len(st2)-1]
	}
	// natural loops
	for _, n := range out {
		for _, e := range n.preds {
			if dominates(n, e.from) {
				l := g.loops[n]
				if l == nil {
					l = &Loop{head: n, body: map[*Node]bool{n: true}}
					g.loops[n] = l
				}
				l.back = append(l.back, e)
				work := []*Node{e.from}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					for _, pe := range x.preds {
						work = append(work, pe.from)
					}
				}
			}
		}
	}
	for _, l := range g.loops {
		var ns []*Node
		for n := range l.body {
			ns = append(ns, n)
		}
		sort.Slice(ns, func(i, j int) bool { return ns[i].id < ns[j].id })
		for _, n := range ns {
			for _, e := range n.succs {
				if !l.body[e.to] {
					l.exits = append(l.exits, e)
				}
			}
		}
	}
	// events
	for _, n := range out {
		for i, it := range n.items {
			ev := g.mkEvent(n, i, it)
			if ev != nil {
				ev.id = len(g.events) + 1
				g.events = append(g.events, ev)
				g.evAt[itemKey{n, i}] = ev
			}
		}
	}
}

// Loop is a natural loop of the graph.
type Loop struct {
	head  *Node
	body  map[*Node]bool
	back  []*Edge
	exits []*Edge
}

func dominates(a, b *Node) bool { return a.tin <= b.tin && b.tout <= a.tout }

// evBefore says whether event a is executed before b on every path to b.
func evDominates(a, b *Event) bool {
	if a.n == b.n {
		return a.i < b.i
	}
	return dominates(a.n, b.n)
}

func (g *Graph) mkEvent(n *Node, i int, it item) *Event {
	ev := &Event{n: n, i: i, c: n.c, in: it.in}
	var cc *ssa.CallCommon
	switch x := it.in.(type) {
	case *ssa.Call:
		cc = x.Common()
	case *ssa.Defer:
		cc = x.Common()
	case *ssa.Go:
		ev.kind = "go"
		ev.cc = x.Common()
		return ev
	case *ssa.Store:
		ev.kind = "store"
		return ev
	case *ssa.MapUpdate:
		ev.kind = "mapset"
		return ev
	case *ssa.Send:
		ev.kind = "send"
		return ev
	default:
		return nil
	}
	ev.cc = cc
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		switch b.Name() {
		case "copy", "delete", "print", "println", "panic", "recover", "close":
			ev.kind = b.Name()
			ev.callee = "builtin." + b.Name()
			return ev
		}
		return nil
	}
	ev.kind = "call"
	ev.callee, ev.fn, ev.method = g.P.calleeName(cc)
	if g.isPure(ev.callee) {
		return nil
	}
	return ev
}

// calleeName names the callee of an opaque call: the full name of a static
// callee, "iface:pkg.Type.Method" of an interface call, "dynamic" otherwise.
func (p *Prog) calleeName(cc *ssa.CallCommon) (string, *ssa.Function, *types.Func) {
	if cc.IsInvoke() {
		return "iface:" + typeName(cc.Value.Type()) + "." + cc.Method.Name(), nil, cc.Method
	}
	if f := cc.StaticCallee(); f != nil {
		return fnName(f), f, nil
	}
	return "dynamic", nil, nil
}

func (e *Event) String() string {
	return fmt.Sprintf("%s %s", e.kind, e.callee)
}

func (g *Graph) evPos(e *Event) string { return g.P.instrPos(e.in) }

type bitset []uint64

func newBitset(n int) bitset    { return make(bitset, (n+63)/64) }
func (b bitset) set(i int)      { b[i/64] |= 1 << (i % 64) }
func (b bitset) has(i int) bool { return b[i/64]&(1<<(i%64)) != 0 }

func capturedParam(fn *ssa.Function, i int) *ssa.Parameter {
	par := fn.Parent()
	if par == nil {
		return nil
	}
	for _, b := range par.Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != ssa.Value(fn) {
				continue
			}
			al, ok := mc.Bindings[i].(*ssa.Alloc)
			if !ok {
				return nil
			}
			var prm *ssa.Parameter
			for _, r := range *al.Referrers() {
				switch x := r.(type) {
				case *ssa.Store:
					if x.Addr != ssa.Value(al) {
						return nil
					}
					q, ok := x.Val.(*ssa.Parameter)
					if !ok || prm != nil {
						return nil
					}
					prm = q
				}
			}
			return prm
		}
	}
	return nil
}
