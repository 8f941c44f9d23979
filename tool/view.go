package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Assume decides a leaf condition, if it is part of the case under analysis.
type Assume func(g *Graph, t *Term) (val, ok bool)

func (g *Graph) assume(t *Term) *Term {
	if g.opts.Assume == nil || t == nil || t.isBool() {
		return t
	}
	T := g.T
	switch t.op {
	case ONot:
		return T.not(g.assume(t.args[0]))
	case OIte:
		return T.ite(g.assume(t.args[0]), g.assume(t.args[1]), g.assume(t.args[2]))
	}
	if v, ok := g.opts.Assume(g, t); ok {
		return T.boolC(v)
	}
	return t
}

// simp simplifies a term under the assumptions: every condition in it that is
// decided is replaced by its value.
func (g *Graph) simp(t *Term) *Term {
	if g.opts.Assume == nil || t == nil {
		return t
	}
	m := map[*Term]*Term{}
	for _, c := range conds(t) {
		if v, ok := g.opts.Assume(g, c); ok {
			m[c] = g.T.boolC(v)
		}
	}
	if len(m) == 0 {
		return t
	}
	return g.T.subst(t, m)
}

// feasible says whether an edge can be taken under the assumptions.
func (g *Graph) feasible(e *Edge) bool {
	if g.live != nil {
		if _, ok := g.live[e.from]; !ok {
			return false
		}
	}
	c := g.cond(e)
	return c == nil || c != g.T.False
}

// prune computes the nodes that are reachable under the assumptions.
func (g *Graph) prune() map[*Node]bool {
	if g.live != nil {
		return g.live
	}
	dead := map[*Edge]bool{}
	live, le := g.pruneWith(dead)
	// a deferred call registered on all of the remaining paths, or on none
	for _, d := range g.condDefers {
		if d.reg == nil || !live[d.from] {
			continue
		}
		if !live[d.reg] {
			for _, e := range d.run {
				dead[e] = true
			}
			continue
		}
		seen := map[*Node]bool{d.reg: true}
		hit := false
		var st []*Node
		if g.entry != d.reg {
			st = append(st, g.entry)
			seen[g.entry] = true
		}
		for len(st) > 0 && !hit {
			n := st[len(st)-1]
			st = st[:len(st)-1]
			if n == d.from {
				hit = true
			}
			for _, e := range n.succs {
				if le[e] && !seen[e.to] {
					seen[e.to] = true
					st = append(st, e.to)
				}
			}
		}
		if !hit {
			dead[d.skip] = true
		}
	}
	if len(dead) > 0 {
		live, le = g.pruneWith(dead)
	}
	g.live, g.liveEdge = live, le
	return live
}

func (g *Graph) pruneWith(dead map[*Edge]bool) (map[*Node]bool, map[*Edge]bool) {
	live := map[*Node]bool{g.entry: true}
	st := []*Node{g.entry}
	le := map[*Edge]bool{}
	for len(st) > 0 {
		n := st[len(st)-1]
		st = st[:len(st)-1]
		for _, e := range n.succs {
			c := g.cond(e)
			if c != nil && c == g.T.False || dead[e] {
				continue
			}
			// returns of a callee go to the join of their own call only;
			// the graph is expanded, so every edge is valid
			le[e] = true
			if !live[e.to] {
				live[e.to] = true
				st = append(st, e.to)
			}
		}
	}
	return live, le
}

// evs lists the live events in node order that satisfy f.
func (g *Graph) evs(f func(*Event) bool) []*Event {
	live := g.prune()
	var out []*Event
	for _, e := range g.events {
		if live[e.n] && (f == nil || f(e)) {
			out = append(out, e)
		}
	}
	return out
}

// isCall tests an opaque call by callee name; names of the form "!SetX" mean
// a method of the engine interface (or of its implementation).
func isCall(names ...string) func(*Event) bool {
	return func(e *Event) bool {
		if e.kind != "call" {
			return false
		}
		for _, n := range names {
			if e.callee == n {
				return true
			}
		}
		return false
	}
}

const engPfx = "iface:engine.Engine."

func eng(names ...string) func(*Event) bool {
	return func(e *Event) bool {
		if e.kind != "call" || !strings.HasPrefix(e.callee, engPfx) {
			return false
		}
		if len(names) == 0 {
			return true
		}
		s := e.callee[len(engPfx):]
		for _, n := range names {
			if n == s {
				return true
			}
		}
		return false
	}
}

func engName(e *Event) string { return strings.TrimPrefix(e.callee, engPfx) }

// point is a position in the graph: before item i of node n.
type point struct {
	n *Node
	i int
}

func (g *Graph) start() point          { return point{g.entry, 0} }
func (g *Graph) after(e *Event) point  { return point{e.n, e.i + 1} }
func (g *Graph) before(e *Event) point { return point{e.n, e.i} }

// flow is a forward search over (node, state); step returns the states after
// an event (nil: path ends), edge may block an edge.
type flow struct {
	g     *Graph
	step  func(e *Event, s int) (next int, stop bool)
	edge  func(e *Edge, s int) (next int, ok bool)
	atEnd func(n *Node, s int) // return / exit / panic nodes
}

// corr holds what the branches of a graph have in common: a condition that
// is decided in one place and asked for again in another (the answer of a
// helper, a flag, the same comparison written twice). A flow remembers how
// these were decided, and does not follow paths that contradict themselves.
type corr struct {
	bit   map[*Term]uint64
	paths map[*Edge][][2]uint64 // an edge is taken: alternatives of (known, value)
	live  map[*Node]uint64      // what is asked for later on
	drop  map[*Loop]uint64      // what is decided anew in each iteration
}

// condPaths lists the ways in which a condition comes out true.
func condPaths(t *Term, max int) (out [][]lit, ok bool) {
	ok = true
	var rec func(t *Term, want bool, ls []lit)
	rec = func(t *Term, want bool, ls []lit) {
		if !ok {
			return
		}
		switch {
		case t.isBool():
			if (t.i == 1) == want {
				if len(out) >= max {
					ok = false
					return
				}
				out = append(out, append([]lit{}, ls...))
			}
		case t.op == ONot:
			rec(t.args[0], !want, ls)
		case t.op == OIte:
			rec(t.args[1], want, addLits(t.args[0], true, ls))
			rec(t.args[2], want, addLits(t.args[0], false, ls))
		default:
			if len(out) >= max {
				ok = false
				return
			}
			out = append(out, append(append([]lit{}, ls...), lit{t, want}))
		}
	}
	rec(t, true, nil)
	return
}

func addLits(c *Term, v bool, ls []lit) []lit {
	for c.op == ONot {
		c, v = c.args[0], !v
	}
	return append(append([]lit{}, ls...), lit{c, v})
}

func (g *Graph) correlated() *corr {
	if g.corrs != nil {
		return g.corrs
	}
	k := &corr{bit: map[*Term]uint64{}, paths: map[*Edge][][2]uint64{}, live: map[*Node]uint64{}, drop: map[*Loop]uint64{}}
	g.corrs = k
	alts := map[*Edge][][]lit{}
	at := map[*Term]map[*Node]bool{}
	var order []*Term
	for _, n := range g.nodes {
		if n.rpo < 0 {
			continue
		}
		for _, e := range n.succs {
			if !g.liveEdge[e] || e.unknown {
				continue
			}
			c := g.cond(e)
			if c == nil || c.isBool() {
				continue
			}
			ps, ok := condPaths(g.norm(c), 12)
			if !ok {
				continue
			}
			alts[e] = ps
			for _, p := range ps {
				for _, l := range p {
					if at[l.c] == nil {
						at[l.c] = map[*Node]bool{}
						order = append(order, l.c)
					}
					at[l.c][n] = true
				}
			}
		}
	}
	for _, t := range order {
		if len(at[t]) > 1 && len(k.bit) < 64 {
			k.bit[t] = 1 << uint(len(k.bit))
		}
	}
	if len(k.bit) == 0 {
		return k
	}
	asked := map[*Node]uint64{}
	for e, ps := range alts {
		var out [][2]uint64
		for _, p := range ps {
			var known, val uint64
			no := false
			for _, l := range p {
				b := k.bit[l.c]
				if b == 0 {
					continue
				}
				if known&b != 0 && (val&b != 0) != l.v {
					no = true
				}
				known |= b
				if l.v {
					val |= b
				}
				asked[e.from] |= b
			}
			if !no {
				out = append(out, [2]uint64{known, val})
			}
		}
		k.paths[e] = out
	}
	for _, l := range g.loops {
		for n := range l.body {
			k.drop[l] |= asked[n]
		}
	}
	for changed := true; changed; {
		changed = false
		for _, n := range g.nodes {
			if n.rpo < 0 {
				continue
			}
			v := asked[n]
			for _, e := range n.succs {
				if g.liveEdge[e] {
					v |= k.keep(g, e) & k.live[e.to]
				}
			}
			if v != k.live[n] {
				k.live[n] = v
				changed = true
			}
		}
	}
	return k
}

// keep: what is still true after an edge.
func (k *corr) keep(g *Graph, e *Edge) uint64 {
	if e.to.rpo > e.from.rpo {
		return ^uint64(0)
	}
	if l := g.loops[e.to]; l != nil && l.body[e.from] {
		return ^k.drop[l]
	}
	return 0
}

// take: what is known after an edge; false if it cannot be taken.
func (k *corr) take(g *Graph, e *Edge, known, val uint64) (uint64, uint64, bool) {
	if len(k.bit) == 0 {
		return 0, 0, true
	}
	if ps, ok := k.paths[e]; ok {
		n := 0
		var kn, vl uint64
		for _, p := range ps {
			both := p[0] & known
			if (p[1]^val)&both != 0 {
				continue
			}
			pk, pv := p[0]|known, p[1]|val
			if n == 0 {
				kn, vl = pk, pv
			} else {
				kn &= pk &^ (pv ^ vl)
			}
			n++
		}
		if n == 0 {
			return 0, 0, false
		}
		known, val = kn, vl
	}
	known &= k.keep(g, e) & k.live[e.to]
	return known, val & known, true
}

type flowKey struct {
	n          *Node
	s          int
	known, val uint64
}

type stateKey struct {
	n *Node
	s int
}

// run explores all (node,state) pairs.
func (f *flow) run(p point, s int) {
	g := f.g
	g.prune()
	k := g.correlated()
	seen := map[flowKey]bool{}
	count := map[stateKey]int{}
	type work struct {
		k flowKey
		i int
	}
	k0 := flowKey{n: p.n, s: s}
	if len(k.bit) > 0 {
		for n := p.n; n != nil && n.idom != nil && n.idom != n; n = n.idom {
			if e := g.onlyEdge(n); e != nil {
				for _, q := range k.paths[e] {
					if len(k.paths[e]) == 1 {
						k0.val |= q[1] & q[0] &^ k0.known
						k0.known |= q[0]
					}
				}
			}
		}
		k0.known &= k.live[p.n]
		k0.val &= k0.known
	}
	// the rest of the start node only: do not mark its entry as seen
	if p.i == 0 {
		seen[k0] = true
	}
	st := []work{{k0, p.i}}
	for len(st) > 0 {
		w := st[len(st)-1]
		st = st[:len(st)-1]
		n, s := w.k.n, w.k.s
		dead := false
		for i := w.i; i < len(n.items); i++ {
			if ev := g.evAt[itemKey{n, i}]; ev != nil {
				var stop bool
				s, stop = f.step(ev, s)
				if stop {
					dead = true
					break
				}
			}
		}
		if dead {
			continue
		}
		if n.exit != "" && f.atEnd != nil {
			f.atEnd(n, s)
		}
		for _, e := range n.succs {
			if !g.liveEdge[e] {
				continue
			}
			kn, vl, ok := k.take(g, e, w.k.known, w.k.val)
			if !ok {
				continue
			}
			ns := s
			if f.edge != nil {
				var ok bool
				ns, ok = f.edge(e, s)
				if !ok {
					continue
				}
			}
			nk := flowKey{e.to, ns, kn, vl}
			if seen[nk] {
				continue
			}
			sk := stateKey{e.to, ns}
			if count[sk]++; count[sk] > 24 {
				if nk.known, nk.val = 0, 0; seen[nk] {
					continue
				}
			}
			seen[nk] = true
			st = append(st, work{nk, 0})
		}
	}
}

// onlyEdge is the only way into a node from the node above it, if there is
// just one.
func (g *Graph) onlyEdge(n *Node) *Edge {
	var in *Edge
	for _, p := range n.preds {
		if g.liveEdge[p] {
			if in != nil {
				return nil
			}
			in = p
		}
	}
	if in == nil || in.from != n.idom {
		return nil
	}
	return in
}

// canReach: is there a path from p to an event satisfying goal (or to a node
// satisfying goalN) that meets no event satisfying avoid?
func (g *Graph) canReach(p point, avoid, goal func(*Event) bool, goalN func(*Node) bool) (found *Event, end *Node) {
	fl := &flow{g: g}
	fl.step = func(e *Event, s int) (int, bool) {
		if found != nil || end != nil {
			return s, true
		}
		if goal != nil && goal(e) {
			found = e
			return s, true
		}
		if avoid != nil && avoid(e) {
			return s, true
		}
		return s, false
	}
	fl.edge = func(e *Edge, s int) (int, bool) { return s, found == nil && end == nil }
	if goalN != nil {
		fl.atEnd = func(n *Node, s int) {
			if found == nil && end == nil && goalN(n) {
				end = n
			}
		}
	}
	fl.run(p, 0)
	return
}

// mustFollow: does every path from p to a regular end meet goal?
func (g *Graph) mustFollow(p point, goal func(*Event) bool) (bool, *Node) {
	_, end := g.canReach(p, goal, nil, func(n *Node) bool { return n.exit == "return" })
	return end == nil, end
}

// between lists the events that can occur after p and before any of stop.
func (g *Graph) reachable(p point, stop func(*Event) bool) map[*Event]bool {
	out := map[*Event]bool{}
	fl := &flow{g: g}
	fl.step = func(e *Event, s int) (int, bool) {
		out[e] = true
		return s, stop != nil && stop(e)
	}
	fl.run(p, 0)
	return out
}

// ---- instruction elements

// isInstrElem: x is an element of a list of instructions.
func (g *Graph) isInstrElem(x *Term) bool {
	if x == nil {
		return false
	}
	if x.op != OIndex && x.op != OLoad && x.op != OLoopVar {
		return false
	}
	return true
}

// elemLevel counts the instruction assertions x is derived through.
func elemLevel(x *Term) int {
	n := 0
	seen := map[*Term]bool{}
	var rec func(t *Term) int
	rec = func(t *Term) int {
		best := 0
		if seen[t] {
			return 0
		}
		seen[t] = true
		for _, a := range t.args {
			if v := rec(a); v > best {
				best = v
			}
		}
		if t.op == OAssert {
			best++
		}
		return best
	}
	n = rec(x)
	return n
}

// topElem: x is an element of the list of a header, footer or body.
func topElem(x *Term) bool {
	seq, _ := seqElem(x)
	if seq == nil {
		return false
	}
	for seq.op == OSlice {
		seq = seq.args[0]
	}
	if seq.op != OLoad {
		return false
	}
	return !contains(seq, func(y *Term) bool {
		switch y.op {
		case OAssert, OIndex, OIAddr, OLoopVar, OAlloc, OAtom, OInv, OClobber:
			return true
		}
		return false
	})
}

// kinds lists the concrete instruction types of package xdoc.
func (p *Prog) kinds() []types.Type {
	pk := p.pkg("xdoc")
	if pk == nil {
		return nil
	}
	obj := pk.Types.Scope().Lookup("Instruction")
	if obj == nil {
		return nil
	}
	it, ok := obj.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []types.Type
	names := pk.Types.Scope().Names()
	sort.Strings(names)
	for _, n := range names {
		tn, ok := pk.Types.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		pt := types.NewPointer(tn.Type())
		if _, isI := tn.Type().Underlying().(*types.Interface); isI {
			continue
		}
		if types.Implements(pt, it) {
			out = append(out, pt)
		}
	}
	return out
}

// assumeKind assumes that every top-level element is of the named kind.
func assumeKind(kind string) Assume {
	want := "*github.com/mazzegi/xpdf/xdoc." + kind
	return func(g *Graph, t *Term) (bool, bool) {
		switch t.op {
		case OTypeIs:
			if topElem(t.args[0]) {
				return typeKey(t.typ) == want, true
			}
		}
		return false, false
	}
}

func both(as ...Assume) Assume {
	return func(g *Graph, t *Term) (bool, bool) {
		for _, a := range as {
			if a == nil {
				continue
			}
			if v, ok := a(g, t); ok {
				return v, ok
			}
		}
		return false, false
	}
}

func (p *Prog) engineType() *types.Named {
	pk := p.pkg("engine")
	if pk == nil {
		return nil
	}
	o := pk.Types.Scope().Lookup("Engine")
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

var _ = ssa.NaiveForm

// foreign: a style of the processor or of a whole table, not of the element
// that is drawn.
func (g *Graph) foreign(x *Term) bool {
	b, names := baseOfField(x)
	if len(names) == 0 || b == nil {
		return false
	}
	if b == g.procTerm() {
		return true
	}
	if b.typ == nil {
		return false
	}
	n := namedOf(deref(b.typ))
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath && (n.Obj().Name() == "table" || n.Obj().Name() == "tableRow")
}

// assumeHAlign fixes the horizontal alignment (by the constant it is compared
// with).
func assumeHAlign(val string) Assume {
	return func(g *Graph, t *Term) (bool, bool) {
		if t.op == OEq {
			if x, k, ok := eqConst(t); ok && k.isStr() {
				switch k.s {
				case "left", "right", "center", "block":
					if g.foreign(x) {
						return false, false
					}
					return k.s == val, true
				}
			}
		}
		return false, false
	}
}

var errorType = types.Universe.Lookup("error").Type()

// errResult: t is an error returned by an opaque call.
func errResult(t *Term) *Event {
	i := 0
	if t.op == OProj {
		i = t.i
		t = t.args[0]
	}
	if t.op != OInv {
		return nil
	}
	ev, ok := t.data.(*Event)
	if !ok || ev.cc == nil {
		return nil
	}
	rs := ev.cc.Signature().Results()
	if i >= rs.Len() || !types.Identical(rs.At(i).Type(), errorType) {
		return nil
	}
	return ev
}

// noErrors assumes that opaque calls return no error.
func noErrors(g *Graph, t *Term) (bool, bool) {
	if t.op != OEq {
		return false, false
	}
	x, k, ok := eqConst(t)
	if !ok || k.op != ONil || errResult(x) == nil {
		return false, false
	}
	return true, true
}
