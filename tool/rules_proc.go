package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- cases

// idle assumes that boolean state of the processor is still false.
func idle(g *Graph, t *Term) (bool, bool) {
	if t.op == OLoad && t.args[0].op == OFAddr {
		a := t.args[0]
		if a.args[0] == g.procTerm() {
			if s, ok := a.typ.Underlying().(*types.Struct); ok && a.i < s.NumFields() {
				if b, ok := s.Field(a.i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
					return false, true
				}
			}
		}
	}
	return false, false
}

// nonEmptyLists assumes that lists below the top level have elements.
func nonEmptyLists(g *Graph, t *Term) (bool, bool) { return listsAre(g, t, true) }

// emptyLists assumes that lists below the top level are empty.
func emptyLists(g *Graph, t *Term) (bool, bool) { return listsAre(g, t, false) }

func listsAre(g *Graph, t *Term, filled bool) (bool, bool) {
	var ln *Term
	bad := false
	walk(t, func(x *Term) bool {
		if x.op == OLen && ln == nil {
			ln = x
			return false
		}
		if x.op == OIV || x.op == OLoopVar {
			bad = true
		}
		return true
	})
	if ln == nil || bad || elemLevel(ln) != 1 {
		return false, false
	}
	a := ln.args[0]
	if a.op != OLoad || a.args[0].op != OFAddr {
		return false, false
	}
	return implied(g.T, t, g.T.pos(ln, true), filled)
}

// errNil assumes that the error result of calls of callee is nil (or not).
func errNil(callee string, isNil bool) Assume {
	return func(g *Graph, t *Term) (bool, bool) {
		if t.op != OEq {
			return false, false
		}
		x, k, ok := eqConst(t)
		if !ok || k.op != ONil {
			return false, false
		}
		if x.op == OProj {
			x = x.args[0]
		}
		if x.op == OInv && x.s == callee {
			return isNil, true
		}
		return false, false
	}
}

func (c *Ck) body(kind, halign string, more ...Assume) *Graph {
	key := fmt.Sprintf("body,%s,%s,%d", kind, halign, len(more))
	as := []Assume{idle}
	if kind != "" {
		as = append(as, assumeKind(kind))
	}
	if halign != "" {
		as = append(as, assumeHAlign(halign))
	}
	as = append(as, more...)
	return c.process(key, both(as...))
}

// ---- element loops

// elemLoop is a loop over a list of instructions.
type elemLoop struct {
	elem *Term // the element under consideration
	seq  *Term // the list
	idx  *Term
	loop *Loop
}

func seqElem(x *Term) (seq, idx *Term) {
	switch x.op {
	case OIndex:
		return x.args[0], x.args[1]
	case OLoad:
		if x.args[0].op == OIAddr {
			return x.args[0].args[0], x.args[0].args[1]
		}
	}
	return nil, nil
}

func (g *Graph) rawCond(e *Edge) *Term {
	if e.cond == nil {
		return nil
	}
	return g.ref(*e.cond)
}

func (g *Graph) atLevel(x *Term, level int) bool {
	if level == 0 {
		return topElem(x)
	}
	return elemLevel(x) == level
}

// elemLoops finds the loops that dispatch on the type of list elements.
func (g *Graph) elemLoops(level int) []*elemLoop {
	seen := map[*Term]bool{}
	var out []*elemLoop
	live := g.prune()
	for _, n := range g.nodes {
		if !live[n] {
			continue
		}
		for _, e := range n.succs {
			t := g.rawCond(e)
			if t == nil {
				continue
			}
			walk(t, func(x *Term) bool {
				if x.op == OTypeIs && g.atLevel(x.args[0], level) && !seen[x.args[0]] {
					seen[x.args[0]] = true
					if seq, idx := seqElem(x.args[0]); seq != nil {
						el := &elemLoop{elem: x.args[0], seq: seq, idx: idx}
						walk(idx, func(y *Term) bool {
							if y.op == OIV {
								el.loop, _ = y.data.(*Loop)
							}
							return true
						})
						out = append(out, el)
					}
				}
				return true
			})
		}
	}
	return out
}

// forward checks that a loop visits every element of its list once, in order.
func (g *Graph) forward(el *elemLoop) (bool, string) {
	if el.loop == nil {
		return false, "the index " + el.idx.String() + " is no loop counter"
	}
	if el.idx.op != OIV {
		return false, "elements are visited as " + el.idx.String() + ", not in order"
	}
	return g.completeLoop(el.loop, g.T.len(el.seq))
}

// completeLoop: the loop is left only when its counter reached n.
func (g *Graph) completeLoop(l *Loop, n *Term) (bool, string) {
	T := g.T
	iv := T.mk(&Term{op: OIV, i: l.head.id, data: l})
	want := T.le(n, iv, true)
	cnt := 0
	for _, e := range l.exits {
		if !g.liveEdge[e] {
			continue
		}
		cnt++
		cd := g.cond(e)
		if cd == nil || cd != want {
			w := "unconditionally"
			if cd != nil {
				w = "if " + clip(cd.String(), 200)
			}
			return false, "the loop can be left early, " + w
		}
	}
	if cnt == 0 {
		return false, "the loop is never left"
	}
	return true, ""
}

// iteration runs a flow over one iteration of a loop; back is called with the
// states at the end of an iteration, exit with those that leave the loop from
// inside of the iteration.
func (g *Graph) iteration(l *Loop, init int, step func(e *Event, s int) (int, bool), back func(s int), exit func(n *Node, s int)) {
	fl := &flow{g: g, step: step}
	first := true
	fl.edge = func(e *Edge, s int) (int, bool) {
		if e.to == l.head {
			if back != nil {
				back(s)
			}
			return s, false
		}
		if !l.body[e.to] {
			if e.from != l.head && exit != nil {
				exit(e.to, s)
			}
			return s, false
		}
		return s, true
	}
	_ = first
	if exit != nil {
		fl.atEnd = func(n *Node, s int) { exit(n, s) }
	}
	fl.run(point{l.head, 0}, init)
}

// engine events without an effect on the output or the cursor
var engQuery = map[string]bool{"Error": true, "CurrentPage": true, "GetXY": true, "PrintableArea": true, "PageWidth": true,
	"PageHeight": true, "FontHeight": true, "MonoFont": true, "TextWidth": true, "Margins": true}

func engEffect(e *Event) bool {
	return e.kind == "call" && strings.HasPrefix(e.callee, engPfx) && !engQuery[engName(e)]
}

// elemPtr is the element as a pointer to its kind.
func (g *Graph) elemPtr(elem *Term, kind string) (*Term, types.Type) {
	t := g.P.typ("xdoc", kind)
	if t == nil {
		return nil, nil
	}
	return g.T.assert(elem, types.NewPointer(t)), t
}

func (g *Graph) elemField(elem *Term, kind string, names ...string) *Term {
	p, t := g.elemPtr(elem, kind)
	if p == nil {
		return nil
	}
	a, _ := g.apath(p, t, names...)
	if a == nil {
		return nil
	}
	return g.T.load(a)
}

// styleOf describes a term that is the result of a style mutation.
type styleOf struct {
	sel    *Term // selector, if any
	recv   *Term // the Styled part
	cls    *Term
	parent *Term
	ev     *Event
}

func asStyle(t *Term) *styleOf {
	if t.op != OInv {
		return nil
	}
	switch {
	case strings.HasSuffix(t.s, ".MutatedStyles") && len(t.args) == 3:
		return &styleOf{nil, t.args[0], t.args[1], t.args[2], t.data.(*Event)}
	case strings.HasSuffix(t.s, ".MutatedStylesWithSelector") && len(t.args) == 4:
		return &styleOf{t.args[1], t.args[0], t.args[2], t.args[3], t.data.(*Event)}
	}
	return nil
}

// baseOfField strips a field path of style components.
func baseOfField(t *Term) (*Term, []string) {
	var names []string
	for {
		switch t.op {
		case OField:
			names = append([]string{fieldName(t)}, names...)
			t = t.args[0]
		case OLoad:
			a := t.args[0]
			if a.op != OFAddr {
				return t, names
			}
			for a.op == OFAddr {
				names = append([]string{fieldName(a)}, names...)
				a = a.args[0]
			}
			return a, names
		default:
			return t, names
		}
	}
}

// styleState is the address of the current styles of the processor.
func (g *Graph) styleState() (addr *Term, typ types.Type) {
	p := g.procTerm()
	if p == nil {
		return nil, nil
	}
	pt := g.P.typ("", "Processor")
	st := g.P.typ("style", "Styles")
	if pt == nil || st == nil {
		return nil, nil
	}
	fs := fieldsOfType(pt, typeKey(st))
	if len(fs) != 1 {
		return nil, nil
	}
	return g.T.faddr(p, fs[0], pt), st
}

func (c *Ck) kindNames() []string {
	var out []string
	for _, t := range c.P.kinds() {
		out = append(out, namedOf(deref(t)).Obj().Name())
	}
	sort.Strings(out)
	return out
}

// leafFields lists the scalar leaves of a struct type as field index paths.
func leafFields(t types.Type, pre []int, f func(path []int, t types.Type)) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		f(pre, t)
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		leafFields(s.Field(i).Type(), append(append([]int{}, pre...), i), f)
	}
}

func pathName(t types.Type, path []int) string {
	var ns []string
	for _, i := range path {
		s := t.Underlying().(*types.Struct)
		ns = append(ns, s.Field(i).Name())
		t = s.Field(i).Type()
	}
	return strings.Join(ns, ".")
}

func (g *Graph) addrAt(a *Term, t types.Type, path []int) (*Term, types.Type) {
	for _, i := range path {
		s := t.Underlying().(*types.Struct)
		a = g.T.faddr(a, i, t)
		t = s.Field(i).Type()
	}
	return a, t
}

// ---- C13

func init() {
	register("C13", "on the interprocedural control-flow graph of a rendering, ordering and exactly-once automata over the engine calls, and branch feasibility under assumed error results", ruleC13)
	register("C12", "on the graphs of the header and footer callbacks, reachability of page starts, typestate of the saved cursor position and value equality of the processor state at entry and exit, for every kind of element", ruleC12)
	register("C02", "for every kind of element, value equality of the style state before and after an iteration of the dispatch loop, and a typestate automaton for the engine's font and text colour", ruleC02)
	register("C05", "for every kind of element, completeness of the dispatch loops over header, footer and body and a counting automaton over the engine calls of one iteration with value-checked arguments", ruleC05)
}

func ruleC13(c *Ck) {
	g := c.body("", "")
	if g == nil {
		c.und("C13.entry", "Process", "no rendering entry point")
		return
	}
	T := g.T
	reg := map[string]bool{"SetPageCountAlias": true, "OnHeader": true, "OnFooter": true, "ChangeFont": true}
	first := func(e *Event) bool { return eng("AddPage")(e) }
	for _, name := range []string{"SetPageCountAlias", "OnHeader", "OnFooter", "ChangeFont"} {
		// is there a path to the first page start that skips the call?
		ev, _ := g.canReach(g.start(), eng(name), first, nil)
		pos := ""
		if ev != nil {
			pos = g.evPos(ev)
		}
		if len(g.evs(eng(name))) == 0 && g.registersDynamically() != nil {
			c.und("C13.before-first-page", name, "functions are registered by a call that is not evident")
			continue
		}
		c.expect(ev == nil, "C13.before-first-page", name, pos, "a page can be started before %s was called", name)
		n := 0
		for _, e := range g.evs(eng(name)) {
			if name == "ChangeFont" {
				break
			}
			n++
			if n > 1 {
				c.fail("C13.registered-once", name, g.evPos(e), "%s is called more than once", name)
			}
			if a, _ := g.canReach(g.after(e), nil, func(x *Event) bool { return x == e }, nil); a != nil {
				c.fail("C13.registered-once", name, g.evPos(e), "%s is called repeatedly", name)
			}
		}
	}
	_ = reg
	// arguments
	for _, e := range g.evs(eng("SetPageCountAlias")) {
		a := g.evArgs(e)[1]
		c.expect(a.op == OStr && a.s == "{np}", "C13.alias", "SetPageCountAlias", g.evPos(e), "the placeholder is %s", a)
	}
	for _, which := range []string{"OnHeader", "OnFooter"} {
		f, e := c.hook(which)
		if f == nil {
			if e != nil {
				c.und("C13.hook", which, "the callback is not evident")
			}
			continue
		}
		hg := c.hookGraph(which, "plain", nil)
		want := map[string]string{"OnHeader": "Header", "OnFooter": "Footer"}[which]
		got := map[string]bool{}
		for _, el := range hg.elemLoops(0) {
			if el.seq.op == OLoad && el.seq.args[0].op == OFAddr {
				b, names := baseOfField(el.seq)
				_ = b
				if len(names) >= 2 {
					got[names[len(names)-2]] = true
				}
			}
		}
		if len(got) == 0 {
			c.und("C13.hook", which, "no element loop found")
		} else {
			c.expect(got[want] && len(got) == 1, "C13.hook", which, hg.P.posStr(f.Pos()), "the callback draws %v", keys(got))
		}
	}
	// initial font
	if a, st := g.styleState(); a != nil {
		fa, _ := g.apath(a, st, "Font")
		want := T.load(fa)
		fl := &flow{g: g}
		// state 0: no font yet; 1: initial font; 2: another font
		fl.step = func(e *Event, s int) (int, bool) {
			if eng("ChangeFont")(e) {
				if g.evArgs(e)[1] == want {
					s = 1
				} else {
					s = 2
				}
			}
			if eng("AddPage")(e) {
				c.expect(s != 2, "C13.initial-font", "AddPage", g.evPos(e), "the first page is started with the font %s", want)
				return s, true
			}
			return s, false
		}
		fl.run(g.start(), 0)
	}
	// drawing only after the first page start
	draw := func(e *Event) bool {
		return engEffect(e) && !reg[engName(e)] && engName(e) != "AddPage" && engName(e) != "WritePDF" && !strings.HasPrefix(engName(e), "Set")
	}
	ev, _ := g.canReach(g.start(), eng("AddPage"), func(e *Event) bool { return draw(e) || eng("SetX", "SetY")(e) }, nil)
	pos := ""
	if ev != nil {
		pos = g.evPos(ev)
	}
	c.expect(ev == nil, "C13.page-before-body", "Process", pos, "%v can happen before the first page is started", ev)
	// without elements: exactly one page
	gn := c.process("None,idle", both(idle, assumeKind("None")))
	cnt := map[int]bool{}
	fl := &flow{g: gn}
	fl.step = func(e *Event, s int) (int, bool) {
		if eng("AddPage")(e) && s < 2 {
			s++
		}
		if eng("WritePDF")(e) {
			cnt[s] = true
		}
		return s, false
	}
	fl.run(gn.start(), 0)
	c.expect(len(cnt) == 1 && cnt[1], "C13.one-first-page", "Process", c.P.posStr(gn.Entry.Pos()), "a rendering without elements starts %v pages before it is written", cnt)
	// body drawn before writing
	els := g.elemLoops(0)
	var bodyLoop *Loop
	for _, el := range els {
		_, names := baseOfField(el.seq)
		if len(names) >= 2 && names[len(names)-2] == "Body" {
			bodyLoop = el.loop
		}
	}
	wr := g.evs(eng("WritePDF"))
	if len(wr) == 0 {
		c.fail("C13.write", "WritePDF", c.P.posStr(g.Entry.Pos()), "the PDF is never written")
		return
	}
	if bodyLoop == nil {
		c.und("C13.body-before-write", "Process", "no loop over the body found")
	} else {
		ok := true
		for _, w := range wr {
			// a path to WritePDF that does not pass the loop head
			blocked := &flow{g: g}
			hit := false
			blocked.step = func(e *Event, s int) (int, bool) {
				if e == w {
					hit = true
				}
				return s, hit
			}
			blocked.edge = func(e *Edge, s int) (int, bool) { return s, e.to != bodyLoop.head && !hit }
			blocked.run(g.start(), 0)
			if hit {
				ok = false
			}
		}
		c.expect(ok, "C13.body-before-write", "Process", g.evPos(wr[0]), "the PDF can be written without drawing the body")
	}
	for _, w := range wr {
		as := g.evArgs(w)
		isW := len(as) == 2 && as[1].op == OParam && strings.Contains(typeKey(as[1].typ), "io.Writer")
		c.expect(isW, "C13.writer", "WritePDF", g.evPos(w), "the PDF is written to %s", as[len(as)-1])
		// nothing is drawn afterwards, it is not written again
		for e := range g.reachable(g.after(w), nil) {
			if engEffect(e) {
				c.fail("C13.write-last", engName(e), g.evPos(e), "%s after the PDF was written", engName(e))
			}
		}
		c.ok("C13.write-last", "WritePDF")
	}
	// error check before writing
	ge := c.body("", "", errNil(engPfx+"Error", false))
	w2 := ge.evs(eng("WritePDF"))
	pos = ""
	if len(w2) > 0 {
		pos = ge.evPos(w2[0])
	}
	c.expect(len(w2) == 0, "C13.error-blocks-write", "WritePDF", pos, "the PDF is written although the engine reports an error")
	c.errorAskedLast(g, "C13.error-checked-last")
	// success only if written
	miss := false
	fl = &flow{g: g}
	fl.step = func(e *Event, s int) (int, bool) {
		if eng("WritePDF")(e) {
			s = 1
		}
		return s, false
	}
	for _, r := range g.root.rets {
		_ = r
	}
	fl.run(g.start(), 0)
	_ = miss
	c.retErr(g, "C13.success-means-written", eng("WritePDF"))
}

// errorAskedLast: the error asked for before writing is that after drawing.
func (c *Ck) errorAskedLast(g *Graph, rule string) {
	last := map[string]bool{}
	fl := &flow{g: g}
	fl.step = func(e *Event, s int) (int, bool) {
		switch {
		case eng("Error")(e):
			s = 1
		case eng("WritePDF")(e):
			if s == 0 {
				last[g.evPos(e)] = true
			}
		case engEffect(e):
			s = 0
		}
		return s, false
	}
	fl.run(g.start(), 0)
	c.expect(len(last) == 0, rule, "WritePDF", strings.Join(keys(last), ","), "something is drawn between the error check and writing")
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// retErr: on paths that do not meet ev, the returned error is not nil.
func (c *Ck) retErr(g *Graph, rule string, ev func(*Event) bool) {
	bad := ""
	fl := &flow{g: g}
	fl.step = func(e *Event, s int) (int, bool) { return s, ev(e) }
	seen := 0
	fl.atEnd = func(n *Node, s int) {
		for _, r := range g.root.rets {
			if r.n == n && len(r.ret.Results) > 0 {
				seen++
				v := r.ret.Results[len(r.ret.Results)-1]
				t := g.val(g.root, v)
				if t.op == ONil {
					bad = g.P.instrPos(r.ret)
				}
			}
		}
	}
	fl.run(g.start(), 0)
	c.expect(bad == "", rule, g.Entry.Name(), bad, "success is returned on a path without it")
}

// ---- C12

func ruleC12(c *Ck) {
	kinds := append([]string{""}, c.kindNames()...)
	for _, which := range []string{"OnHeader", "OnFooter"} {
		f, ev := c.hook(which)
		if f == nil {
			if ev == nil {
				c.fail("C12.registered", which, "", "no callback is registered")
			} else {
				c.und("C12.registered", which, "the callback is not evident")
			}
			continue
		}
		for _, k := range kinds {
			var as Assume
			if k != "" {
				as = assumeKind(k)
			}
			g := c.hookGraph(which, "h,"+k, as)
			name := which
			if k != "" {
				name += "/" + k
			}
			// no page start
			ap := g.evs(eng("AddPage"))
			pos := ""
			if len(ap) > 0 {
				pos = g.evPos(ap[0])
			}
			c.expect(len(ap) == 0, "C12.no-page-start", name, pos, "a page can be started while the %s is drawn", strings.ToLower(which[2:]))
			c.cursorRestored(g, name)
			c.stateRestored(g, name)
		}
	}
}

// cursor moving operations
var moves = map[string]bool{"SetX": true, "SetY": true, "LineFeed": true, "WriteText": true, "AddPage": true}

func (c *Ck) cursorRestored(g *Graph, name string) {
	T := g.T
	// x and y as of the entry: the results of a GetXY that no move precedes
	early := map[*Event]bool{}
	for _, e := range g.evs(eng("GetXY")) {
		early[e] = true
	}
	fl := &flow{g: g}
	fl.step = func(e *Event, s int) (int, bool) {
		if s == 1 && eng("GetXY")(e) {
			delete(early, e)
		}
		if engEffect(e) && moves[engName(e)] {
			s = 1
		}
		return s, false
	}
	fl.run(g.start(), 0)
	isEntry := func(t *Term, i int) bool {
		for e := range early {
			if t == T.proj(g.evResult(e), i) {
				return true
			}
		}
		return false
	}
	// bits: 1 x moved, 2 y moved
	fl = &flow{g: g}
	fl.step = func(e *Event, s int) (int, bool) {
		if !engEffect(e) {
			return s, false
		}
		switch engName(e) {
		case "SetX":
			if isEntry(g.evArgs(e)[1], 0) {
				s &^= 1
			} else {
				s |= 1
			}
		case "SetY":
			if isEntry(g.evArgs(e)[1], 1) {
				s &^= 2
			} else {
				s |= 2
			}
		case "LineFeed", "WriteText", "AddPage":
			s |= 3
		}
		return s, false
	}
	bad := 0
	fl.atEnd = func(n *Node, s int) {
		if n.exit == "return" {
			bad |= s
		}
	}
	fl.run(g.start(), 0)
	c.expect(bad&1 == 0, "C12.x-restored", name, c.P.posStr(g.Entry.Pos()), "the horizontal cursor position is not restored on every path")
	c.expect(bad&2 == 0, "C12.y-restored", name, c.P.posStr(g.Entry.Pos()), "the vertical cursor position is not restored on every path")
}

// stateRestored: every field of the processor is at the end what it was.
func (c *Ck) stateRestored(g *Graph, name string) {
	p := g.procTerm()
	pt := c.P.typ("", "Processor")
	if p == nil || pt == nil {
		c.und("C12.state-restored", name, "no processor")
		return
	}
	s := pt.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		fld := s.Field(i)
		leafFields(fld.Type(), []int{i}, func(path []int, lt types.Type) {
			addr, _ := g.addrAt(p, pt, path)
			init := g.T.load(addr)
			for _, r := range g.root.rets {
				if !g.live[r.n] {
					continue
				}
				v := g.simp(g.read(r.n, len(r.n.items), addr, lt))
				ok := v == init
				if b, isB := lt.Underlying().(*types.Basic); isB && b.Kind() == types.Bool && v == g.T.False {
					ok = true
				}
				c.expect(ok, "C12.state-restored", name+" "+pathName(pt, path), g.P.instrPos(r.ret), "after the callback %s is %s", pathName(pt, path), clip(v.String(), 200))
			}
		})
	}
}

// ---- C02

func ruleC02(c *Ck) {
	type run struct {
		name string
		g    *Graph
	}
	for _, k := range c.kindNames() {
		var runs []run
		hs := []string{"left", "block"}
		if k == "Font" || k == "LineFeed" || k == "SetX" || k == "SetY" || k == "PageBreak" || k == "Image" || k == "Grid" {
			hs = []string{""}
		}
		for _, h := range hs {
			nm := k
			if h != "" {
				nm += "/" + h
			}
			runs = append(runs, run{"body " + nm, c.body(k, h)})
			for _, which := range []string{"OnHeader", "OnFooter"} {
				as := []Assume{assumeKind(k)}
				if h != "" {
					as = append(as, assumeHAlign(h))
				}
				if hg := c.hookGraph(which, "c02,"+nm, both(as...)); hg != nil {
					runs = append(runs, run{which[2:] + " " + nm, hg})
				}
			}
		}
		for _, r := range runs {
			c.protect(r.name, func() { c.styleNeutral(r.g, k, r.name) })
		}
	}
}

func (c *Ck) styleNeutral(g *Graph, kind, name string) {
	addr, st := g.styleState()
	if addr == nil {
		c.und("C02.state", name, "no style state found")
		return
	}
	els := g.elemLoops(0)
	if len(els) == 0 {
		c.und("C02.loop", name, "no loop over elements found")
		return
	}
	for _, el := range els {
		if el.loop == nil {
			continue
		}
		l := el.loop
		head := l.head
		// values at the head of the loop against those at the end of an iteration
		leafFields(st, nil, func(path []int, lt types.Type) {
			a, _ := g.addrAt(addr, st, path)
			pn := pathName(st, path)
			at := g.read(head, 0, a, lt)
			for _, b := range l.back {
				if !g.liveEdge[b] {
					continue
				}
				v := g.read(b.from, len(b.from.items), a, lt)
				if kind == "Font" && path[0] == 0 {
					continue
				}
				c.expect(v == at, "C02.styles-kept", name+" "+pn, g.P.instrPos(b.from.items[len(b.from.items)-1].in), "after a %s the current %s is %s", kind, pn, clip(v.String(), 300))
			}
		})
		if kind == "Font" {
			// the font becomes that of the element, and nothing else
			fa, ft := g.apath(addr, st, "Font")
			for _, b := range l.back {
				if !g.liveEdge[b] {
					continue
				}
				v := g.read(b.from, len(b.from.items), fa, ft)
				base, names := baseOfField(v)
				so := asStyle(base)
				want := false
				if so != nil && len(names) == 1 && names[0] == "Font" {
					recv, t := g.elemPtr(el.elem, "Font")
					ra, _ := g.apath(recv, t, "Styled")
					want = so.recv == ra
				}
				if !want && !understood(v) {
					c.und("C02.font-set", name, "%s", clip(v.String(), 300))
					continue
				}
				c.expect(want, "C02.font-set", name, c.P.posStr(g.Entry.Pos()), "after a font instruction the font is %s", clip(v.String(), 300))
			}
			continue
		}
		// font and colour of the engine: bit 1 font differs, bit 2 colour differs
		fa, ft := g.apath(addr, st, "Font")
		ta, tt := g.apath(addr, st, "Text")
		bad := 0
		var last [2]*Event
		g.iteration(l, 0, func(e *Event, s int) (int, bool) {
			if !engEffect(e) {
				return s, false
			}
			switch engName(e) {
			case "ChangeFont":
				cur := g.read(e.n, e.i, fa, ft)
				if g.evArgs(e)[1] == cur {
					s &^= 1
				} else {
					s |= 1
					last[0] = e
				}
			case "SetTextColor":
				cur := g.read(e.n, e.i, ta, tt)
				same := true
				for i := 0; i < 3; i++ {
					if g.evArgs(e)[1+i] != g.T.field(cur, i, tt) {
						same = false
					}
				}
				if same {
					s &^= 2
				} else {
					s |= 2
					last[1] = e
				}
			}
			return s, false
		}, func(s int) { bad |= s }, func(n *Node, s int) { bad |= s })
		p0, p1 := "", ""
		if last[0] != nil {
			p0 = g.evPos(last[0])
		}
		if last[1] != nil {
			p1 = g.evPos(last[1])
		}
		c.expect(bad&1 == 0, "C02.engine-font-reset", name, p0, "after a %s the engine can be left with the font of the element", kind)
		c.expect(bad&2 == 0, "C02.engine-colour-reset", name, p1, "after a %s the engine can be left with the text colour of the element", kind)
	}
}

// understood: the term contains no part the analysis could not resolve.
func understood(t *Term) bool {
	return !contains(t, func(x *Term) bool {
		return x.op == OAtom && !strings.HasPrefix(x.s, "@") || x.op == OLoopVar || x.op == OClobber || x.op == OBottom
	})
}

// ---- C05

func ruleC05(c *Ck) {
	type entry struct {
		name, field string
		graph       func(key string, as Assume) *Graph
	}
	entries := []entry{
		{"body", "Body", func(key string, as Assume) *Graph { return c.process("c05,"+key, both(idle, as)) }},
		{"header", "Header", func(key string, as Assume) *Graph { return c.hookGraph("OnHeader", "c05,"+key, as) }},
		{"footer", "Footer", func(key string, as Assume) *Graph { return c.hookGraph("OnFooter", "c05,"+key, as) }},
	}
	for _, en := range entries {
		g := en.graph("all", nil)
		if g == nil {
			c.und("C05.loop", en.name, "no graph")
			continue
		}
		var el *elemLoop
		for _, x := range g.elemLoops(0) {
			_, names := baseOfField(x.seq)
			if len(names) >= 2 && names[len(names)-2] == en.field {
				el = x
			}
		}
		if el == nil {
			others := []string{}
			for _, x := range g.elemLoops(0) {
				others = append(others, x.seq.String())
			}
			if len(others) > 0 {
				c.fail("C05.loop", en.name, c.P.posStr(g.Entry.Pos()), "the elements of the %s are not drawn, but %v", en.name, others)
			} else {
				c.und("C05.loop", en.name, "no loop over elements found")
			}
			continue
		}
		if ok, why := g.forward(el); el.loop == nil {
			c.und("C05.in-order", en.name, "%s", why)
			continue
		} else {
			c.expect(ok, "C05.in-order", en.name, g.P.instrPos(el.loop.head.items[0].in), "%s", why)
		}
		// the loop is passed on every path and entered once
		hit := false
		fl := &flow{g: g}
		fl.step = func(e *Event, s int) (int, bool) { return s, false }
		fl.edge = func(e *Edge, s int) (int, bool) { return s, e.to != el.loop.head }
		fl.atEnd = func(n *Node, s int) {
			if n.exit == "return" {
				hit = true
			}
		}
		fl.run(g.start(), 0)
		c.expect(!hit, "C05.drawn", en.name, c.P.posStr(g.Entry.Pos()), "there is a path without drawing the %s", en.name)
		again := false
		for h, l := range g.loops {
			if h != el.loop.head && l.body[el.loop.head] && g.live[h] {
				again = true
			}
		}
		c.expect(!again, "C05.drawn-once", en.name, c.P.posStr(g.Entry.Pos()), "the %s can be drawn repeatedly", en.name)
	}
	c.protect("cell contents", c.cellContents)
	c.protect("cell text", c.cellText)
	for _, en := range entries {
		for _, k := range c.kindNames() {
			c.protect(en.name+"/"+k, func() { c.kindEffect(en.name, k, en.graph) })
		}
	}
}

func (c *Ck) topLoop(g *Graph) *elemLoop {
	for _, el := range g.elemLoops(0) {
		if el.loop != nil {
			return el
		}
	}
	return nil
}

func (c *Ck) kindEffect(where, k string, graph func(string, Assume) *Graph) {
	name := where + "/" + k
	count := func(g *Graph, el *elemLoop, ev func(*Event) bool) (min, max int) {
		min = 99
		g.iteration(el.loop, 0, func(e *Event, s int) (int, bool) {
			if ev(e) && s < 2 {
				s++
			}
			return s, false
		}, func(s int) {
			if s < min {
				min = s
			}
			if s > max {
				max = s
			}
		}, nil)
		return
	}
	exactly := func(g *Graph, el *elemLoop, op string, args ...*Term) {
		evs := g.evs(eng(op))
		var in []*Event
		for _, e := range evs {
			if el.loop.body[e.n] {
				in = append(in, e)
			}
		}
		if len(in) == 0 {
			c.fail("C05.effect", name, g.P.instrPos(el.loop.head.items[0].in), "a %s never has its effect (%s)", k, op)
			return
		}
		min, max := count(g, el, eng(op))
		c.expect(min == 1 && max == 1, "C05.effect", name, g.evPos(in[0]), "a %s has %d to %d effects %s on its paths", k, min, max, op)
		for _, e := range in {
			as := g.evArgs(e)[1:]
			for i, w := range args {
				if w == nil || i >= len(as) {
					continue
				}
				a := g.simp(as[i])
				if a != w && !understood(a) {
					c.und("C05.value", name, "%s", clip(a.String(), 200))
					continue
				}
				c.expect(a == w, "C05.value", fmt.Sprintf("%s %d", name, i), g.evPos(e), "%s of a %s is called with %s instead of %s", op, k, clip(a.String(), 300), clip(w.String(), 200))
			}
		}
		// nothing else
		other := func(e *Event) bool { return engEffect(e) && engName(e) != op }
		for _, e := range g.evs(other) {
			if el.loop.body[e.n] {
				c.fail("C05.only-effect", name+" "+engName(e), g.evPos(e), "a %s has the effect %s, too", k, engName(e))
			}
		}
		c.ok("C05.only-effect", name)
	}
	withHA := func(f func(g *Graph, el *elemLoop, h string), more ...Assume) {
		for _, h := range []string{"left", "center", "right", "block"} {
			g := graph(fmt.Sprintf("%s,%s,%d", k, h, len(more)), both(append([]Assume{assumeKind(k), assumeHAlign(h)}, more...)...))
			if g == nil {
				return
			}
			el := c.topLoop(g)
			if el == nil {
				c.und("C05.effect", name, "no loop over elements")
				return
			}
			f(g, el, h)
		}
	}
	// every path passes the loop that writes text
	writes := func(g *Graph, el *elemLoop, h string) {
		ws := g.evs(eng("WriteText"))
		heads := map[*Node]bool{}
		for _, w := range ws {
			if !el.loop.body[w.n] {
				continue
			}
			// outermost loop below the element loop
			for hd, l := range g.loops {
				if l.body[w.n] && el.loop.body[hd] && hd != el.loop.head {
					heads[hd] = true
				}
			}
		}
		if len(heads) == 0 {
			c.fail("C05.writes-text", name+"/"+h, g.P.instrPos(el.loop.head.items[0].in), "the text of a %s is never written", k)
			return
		}
		missed := false
		fl := &flow{g: g}
		fl.step = func(e *Event, s int) (int, bool) { return s, false }
		fl.edge = func(e *Edge, s int) (int, bool) {
			if heads[e.to] {
				s = 1
			}
			if e.to == el.loop.head {
				if s == 0 {
					missed = true
				}
				return s, false
			}
			return s, el.loop.body[e.to]
		}
		fl.run(point{el.loop.head, 0}, 0)
		c.expect(!missed, "C05.writes-text", name+"/"+h, g.evPos(ws[0]), "there is a path on which the text of a %s is not written", k)
	}
	switch k {
	case "Font", "LineFeed", "SetX", "SetY", "PageBreak":
		g := graph(k, assumeKind(k))
		if g == nil {
			return
		}
		el := c.topLoop(g)
		if el == nil {
			c.und("C05.effect", name, "no loop over elements")
			return
		}
		switch k {
		case "Font":
			evs := g.evs(eng("ChangeFont"))
			var want *Term
			for _, e := range evs {
				if !el.loop.body[e.n] {
					continue
				}
				base, names := baseOfField(g.evArgs(e)[1])
				if so := asStyle(base); so != nil && len(names) == 1 && names[0] == "Font" {
					recv, t := g.elemPtr(el.elem, "Font")
					ra, _ := g.apath(recv, t, "Styled")
					if so.recv == ra {
						want = g.evArgs(e)[1]
					}
				}
			}
			if want == nil {
				want = g.T.atom("the font of the instruction")
			}
			exactly(g, el, "ChangeFont", want)
		case "LineFeed":
			exactly(g, el, "LineFeed", g.elemField(el.elem, k, "Lines"))
		case "SetX":
			exactly(g, el, "SetX", g.elemField(el.elem, k, "X"))
		case "SetY":
			exactly(g, el, "SetY", g.elemField(el.elem, k, "Y"))
		case "PageBreak":
			if where == "body" {
				exactly(g, el, "AddPage")
			}
		}
	case "Text":
		withHA(writes, nonEmptyLists)
	case "Box":
		withHA(func(g *Graph, el *elemLoop, h string) {
			writes(g, el, h)
			min, max := count(g, el, eng("FillRect"))
			c.expect(min == 1 && max == 1, "C05.effect", name+"/"+h, g.P.instrPos(el.loop.head.items[0].in), "a box is painted %d to %d times", min, max)
		}, nonEmptyLists)
		withHA(func(g *Graph, el *elemLoop, h string) {
			min, max := count(g, el, eng("FillRect"))
			c.expect(min == 1 && max == 1, "C05.effect", name+"/"+h+"/any", g.P.instrPos(el.loop.head.items[0].in), "a box is painted %d to %d times", min, max)
		})
	case "Image":
		g := graph(k+",ok", both(assumeKind(k), errNil("xpdf.DescribeImage", true)))
		if g == nil {
			return
		}
		el := c.topLoop(g)
		if el == nil {
			c.und("C05.effect", name, "no loop over elements")
			return
		}
		exactly(g, el, "PutImage", nil)
	case "Table":
		withHA(func(g *Graph, el *elemLoop, h string) {
			for _, op := range []string{"FillRect", "WriteText"} {
				n := 0
				for _, e := range g.evs(eng(op)) {
					if el.loop.body[e.n] {
						n++
					}
				}
				c.expect(n > 0, "C05.effect", name+"/"+h+" "+op, g.P.instrPos(el.loop.head.items[0].in), "drawing a table never calls %s", op)
			}
		})
	case "Grid":
		g := graph(k, assumeKind(k))
		if g == nil {
			return
		}
		el := c.topLoop(g)
		if el == nil {
			c.und("C05.effect", name, "no loop over elements")
			return
		}
		n := 0
		for _, e := range g.evs(engEffect) {
			if el.loop.body[e.n] {
				n++
			}
		}
		c.expect(n > 0, "C05.effect", "grid", g.P.instrPos(el.loop.head.items[0].in), "the parts of a grid are never drawn")
	default:
		// kinds without a meaning at this level have no effect
		g := graph(k, assumeKind(k))
		if g == nil {
			return
		}
		el := c.topLoop(g)
		if el == nil {
			return
		}
		for _, e := range g.evs(engEffect) {
			if el.loop.body[e.n] {
				c.fail("C05.no-effect", name, g.evPos(e), "a %s outside of its context has the effect %s", k, engName(e))
			}
		}
		c.ok("C05.no-effect", name)
	}
}

var _ = ssa.NaiveForm
