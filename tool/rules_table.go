package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register("C20", "value flow of the rectangle of every painted cell, of every store to a field of the table's rows and cells, with sums and maxima of loops in closed form, and of the lists that spanned cells are inserted into", ruleC20)
}

func ruleC20(c *Ck) {
	g := c.body("Table", "left", assumeText)
	if g == nil {
		c.und("C20.place", "Table", "no rendering entry point")
		return
	}
	el := c.topLoop(g)
	if el == nil {
		c.und("C20.place", "Table", "no element loop")
		return
	}
	g.prune()
	ps, all := g.cellPaints()
	if !all || len(ps) == 0 {
		c.und("C20.place", "Table", "where cells are painted is not evident")
	}
	tb := &tableRules{c: c, g: g, el: el}
	for _, p := range ps {
		nested := false
		for _, q := range ps {
			if q.rowL != p.rowL && q.rowL.body[p.rowL.head] {
				nested = true
			}
		}
		name := "row"
		if nested {
			name = "repeated row"
		} else {
			tb.rows = p.rows
		}
		tb.paint(p, name, !nested)
	}
	if tb.rows == nil {
		return
	}
	c.protect("heights", tb.heights)
	c.protect("widths", tb.widths)
	c.protect("spans", tb.spans)
	c.protect("order", tb.order)
}

type tableRules struct {
	c    *Ck
	g    *Graph
	el   *elemLoop
	rows *Term // the rows as they are painted
	// stores by stage
	spanE, colE, belowE, columnsE, widthE, minE, rowE, cellE []*Event
}

// norm names the list of rows and closes loops.
func (tb *tableRules) norm(t *Term, more ...*Term) *Term {
	g := tb.g
	ren := map[*Term]*Term{}
	if tb.rows != nil {
		ren[tb.rows] = g.T.atom("@rows")
	}
	for i := 0; i+1 < len(more); i += 2 {
		ren[more[i]] = more[i+1]
	}
	return g.canonPage(g.picks(g.T.subst(g.folds(g.T.subst(t, ren)), ren), ren))
}

// known: nothing in a term is left open but which lists it is about.
func (tb *tableRules) known(t *Term) bool { return understood(tb.plain(tb.norm(tb.plain(t)))) }

// plain names the lists that a term takes elements or the length of.
func (tb *tableRules) plain(t *Term) *Term {
	T := tb.g.T
	m := map[*Term]*Term{}
	walk(t, func(x *Term) bool {
		switch x.op {
		case OLen, OIndex, OIAddr, OSlice:
			if b := x.args[0]; b.op == OLoopVar || isMake(b) {
				m[b] = T.atom("@list " + b.String())
			}
		}
		return true
	})
	if len(m) == 0 {
		return t
	}
	return tb.plain(T.subst(t, m))
}

// allOf: a list is the whole one.
func (tb *tableRules) allOf(rule, name, what, pos string, got, want *Term) bool {
	if got == want {
		return true
	}
	part := got.op == OSlice && got.args[0] == want
	tb.c.expect3(false, part, rule, name, pos, "%s are only %s", what, clip(got.String(), 100))
	return false
}

// cellAt is a cell reached through two loops.
type cellAt struct {
	cell, row *Term
	rows, ri  *Term
	cells, ci *Term
	cellL     *Loop
	rowL      *Loop
}

func (g *Graph) rowPlace(row *Term) *cellAt {
	p := &cellAt{row: row}
	p.rows, p.ri = seqElem(row)
	if p.rows == nil {
		return nil
	}
	if p.rowL = loopIdx(p.ri); p.rowL == nil {
		return nil
	}
	return p
}

// cellPlace: what cells are of is found by the list read for their row.
func (g *Graph) cellPlace(cell *Term) *cellAt {
	cells, ci := seqElem(cell)
	if cells == nil {
		return nil
	}
	l := loopIdx(ci)
	if l == nil {
		return nil
	}
	var p *cellAt
	if cells.op == OLoad && cells.args[0].op == OFAddr && strings.HasSuffix(typeKey(cells.args[0].typ), ".tableRow") {
		p = g.rowPlace(cells.args[0].args[0])
	}
	if p == nil {
		return nil
	}
	p.cell, p.cells, p.ci, p.cellL = cell, cells, ci, l
	return p
}

// visited: the loop takes every one of n elements; idx is the index.
func (tb *tableRules) visited(rule, name, what, pos string, l *Loop, idx, n *Term) bool {
	c, g := tb.c, tb.g
	T := g.T
	iv := g.iv(l)
	if idx != iv && T.add(idx, iv) != T.sub(n, T.One) {
		d, ok := T.constDiff(idx, iv)
		switch {
		case ok && d.Sign() != 0:
			c.fail(rule, name, pos, "%s are visited from number %s", what, d.RatString())
		default:
			c.und(rule, name, "%s are visited as %s", what, clip(idx.String(), 100))
		}
		return false
	}
	in := []lit{{T.lt(iv, n, true), true}}
	cnt := 0
	for _, e := range l.exits {
		if !g.liveEdge[e] {
			continue
		}
		cnt++
		cd := g.cond(e)
		if cd == nil {
			c.fail(rule, name, pos, "the loop over %s is left early", what)
			return false
		}
		if v, ok := T.decideUnder(in, cd); ok && !v {
			continue
		}
		c.expect3(false, tb.known(cd), rule, name, pos, "the loop over %s is left early if %s", what, clip(cd.String(), 200))
		return false
	}
	return cnt > 0
}

// only: the conditions that lead to a node hold whenever the facts do.
func (tb *tableRules) only(rule, name, what, pos string, n, from *Node, outer *Loop, cnt *Term, facts ...lit) bool {
	c, g := tb.c, tb.g
	ok := true
	for _, cd := range g.condsWithin(n, from) {
		if g.loopDone(cd, outer, cnt) {
			continue
		}
		if v, d := g.T.decideUnder(facts, cd); d && v {
			continue
		}
		ok = false
		c.expect3(false, tb.known(cd), rule, name, pos, "%s only if %s", what, clip(cd.String(), 200))
	}
	return ok
}

// isFalse: under the facts, one of the conditions that lead to a node fails.
func (g *Graph) isFalse(n, from *Node, facts ...lit) bool {
	for _, cd := range g.condsWithin(n, from) {
		if v, d := g.T.decideUnder(facts, cd); d && !v {
			return true
		}
	}
	return false
}

func (tb *tableRules) paint(p *cellPaint, name string, main bool) {
	c, g := tb.c, tb.g
	T := g.T
	pos := g.evPos(p.f)
	n := T.len(p.cells)
	ok := tb.visited("C20.place", name+"/cells", "the cells of a "+name, pos, p.cellL, p.ci, n)
	if ok && p.ci != g.iv(p.cellL) {
		c.fail("C20.place", name+"/cells", pos, "the cells of a row are painted from the last to the first")
		return
	}
	if ok {
		c.ok("C20.place", name+"/cells")
	}
	zero := g.named(p.cell, "tableCell", "zero")
	by := g.named(p.cell, "tableCell", "spannedBy")
	width := g.named(p.cell, "tableCell", "width")
	height := g.named(p.cell, "tableCell", "height")
	sc, sr := g.named(p.cell, "tableCell", "spansCols"), g.named(p.cell, "tableCell", "spansRows")
	rh := g.named(p.row, "tableRow", "height")
	if zero == nil || by == nil || width == nil || height == nil || sc == nil || sr == nil || rh == nil {
		c.und("C20.place", name, "the fields of the table are not evident")
		return
	}
	none := T.eq(by, T.Nil)
	good := []lit{{none, true}, {zero, false}}
	if tb.only("C20.place", name+"/painted", "a cell is painted", pos, p.f.n, p.cellL.head, p.cellL, n, good...) {
		c.ok("C20.place", name+"/painted")
	}
	for what, f := range map[string]lit{"an empty cell": {zero, true}, "a cell spanned by another one": {none, false}} {
		hidden := g.isFalse(p.f.n, p.cellL.head, f)
		c.expect3(hidden, true, "C20.place", name+"/"+what, pos, "%s is painted", what)
	}
	// every row has its cells painted
	if main {
		if tb.visited("C20.place", name+"/rows", "the rows", pos, p.rowL, p.ri, T.len(p.rows)) &&
			tb.only("C20.place", name+"/rows", "a row is painted", pos, p.cellL.head, p.rowL.head, p.rowL, T.len(p.rows), lit{T.lt(T.Zero, n, true), true}) {
			c.ok("C20.place", name+"/rows")
		}
	}
	// x
	if p.x.op == OLoopVar {
		init, next, h := g.loopInfo(p.x)
		if h != p.cellL.head {
			c.und("C20.place", name+"/x", "the horizontal position is %s", clip(p.x.String(), 200))
		} else {
			ren := []*Term{p.x, T.atom("@x")}
			for _, s := range []struct {
				what string
				fs   []lit
			}{{"after a painted cell", good}, {"after an empty cell", []lit{{zero, true}}}, {"after a spanned cell", []lit{{none, false}}}} {
				c.same("C20.place", name+"/x "+s.what, g, pos, "the horizontal position "+s.what, tb.norm(g.simp(next), ren...), tb.norm(T.add(p.x, width), ren...), s.fs...)
			}
			tb.left(name, pos, g.simp(init))
		}
	} else if mentions(p.x, g.iv(p.cellL)) {
		c.und("C20.place", name+"/x", "the horizontal position is %s", clip(p.x.String(), 200))
	} else {
		c.expect3(false, tb.known(p.x), "C20.place", name+"/x", pos, "every cell is painted at %s", clip(p.x.String(), 200))
	}
	// size
	size := func(own, list *Term, f string) *Term {
		return T.add(own, g.sumOver(T.len(list), func(i *Term) *Term { return g.named(elemAt(T, p.cell, list, i), "tableCell", f) }))
	}
	c.same("C20.size", name+"/width", g, pos, "the width of a cell", tb.norm(p.w), tb.norm(size(width, sc, "width")))
	ren := []*Term{p.y, T.atom("@y")}
	_ = ren
	c.same("C20.size", name+"/height", g, pos, "the height of a cell", tb.norm(p.h), tb.norm(size(height, sr, "height")))
	// y
	if g.varies(p.y, p.cellL) {
		c.expect3(false, tb.known(p.y), "C20.place", name+"/y", pos, "the cells of a row are painted at different heights, %s", clip(p.y.String(), 200))
		return
	}
	// the position of the next row
	var y *Term
	walk(p.y, func(x *Term) bool {
		if x.op == OLoopVar && y == nil {
			if _, _, h := g.loopInfo(x); h == p.rowL.head {
				y = x
			}
		}
		return true
	})
	if y == nil {
		c.und("C20.place", name+"/y", "the vertical position of a row is %s", clip(p.y.String(), 200))
		return
	}
	_, next, _ := g.loopInfo(y)
	next = g.simp(next)
	var facts []lit
	if !main {
		// in the iterations that paint a row
		facts = append(facts, lit{T.lt(p.ri, T.len(p.rows), true), true})
		for _, cd := range g.condsWithin(p.cellL.head, p.rowL.head) {
			facts = append(facts, lit{cd, true})
		}
	}
	m := []*Term{y, T.atom("@y")}
	i := 0
	walk(p.y, func(x *Term) bool {
		if x.op == OLoopVar && x != y {
			i++
			m = append(m, x, T.atom(fmt.Sprintf("@y%d", i)))
			return false
		}
		return true
	})
	for i := range facts {
		facts[i].c = tb.norm(facts[i].c, m...)
	}
	c.same("C20.place", name+"/next row", g, pos, "the position of the row that follows", tb.norm(next, m...), tb.norm(T.add(p.y, rh), m...), facts...)
	if main {
		tb.below(p, y)
	}
}

// varies: a value depends on the iteration of a loop.
func (g *Graph) varies(t *Term, l *Loop) bool {
	return contains(t, func(x *Term) bool {
		if x.op == OIV {
			m, _ := x.data.(*Loop)
			return m == l
		}
		if x.op == OLoopVar {
			_, _, h := g.loopInfo(x)
			return h == l.head
		}
		return false
	})
}

// left: rows start where the cursor was before the table.
func (tb *tableRules) left(name, pos string, init *Term) {
	c, g := tb.c, tb.g
	if init.op != OProj || init.args[0].op != OInv || init.args[0].s != engPfx+"GetXY" || init.i != 0 {
		c.expect3(false, tb.known(init), "C20.place", name+"/left", pos, "rows start at %s", clip(init.String(), 200))
		return
	}
	c.ok("C20.place", name+"/left")
	_ = g
}

// below: the elements after the table go on below its last row.
func (tb *tableRules) below(p *cellPaint, y *Term) {
	c, g := tb.c, tb.g
	var exits []*Node
	for _, e := range p.rowL.exits {
		if g.liveEdge[e] {
			exits = append(exits, e.to)
		}
	}
	last := map[*Event]bool{}
	none := false
	for _, n := range exits {
		fl := &flow{g: g}
		var evs []*Event
		idx := map[*Event]int{}
		fl.step = func(x *Event, s int) (int, bool) {
			if eng("SetY", "AddPage", "LineFeed", "WriteText")(x) {
				if _, ok := idx[x]; !ok {
					evs = append(evs, x)
					idx[x] = len(evs)
				}
				s = idx[x]
			}
			return s, false
		}
		end := func(s int) {
			if s == 0 {
				none = true
			} else {
				last[evs[s-1]] = true
			}
		}
		fl.edge = func(e *Edge, s int) (int, bool) {
			if !tb.el.loop.body[e.to] || e.to == tb.el.loop.head {
				end(s)
				return s, false
			}
			return s, true
		}
		fl.run(point{n, 0}, 0)
	}
	pos := g.evPos(p.f)
	if none {
		c.fail("C20.after", "table", pos, "after the rows the cursor is not moved below them")
		return
	}
	for e := range last {
		if engName(e) != "SetY" {
			c.und("C20.after", "table", "after the rows follows %s", engName(e))
			continue
		}
		a := g.evArgs(e)[1]
		if a == y {
			c.ok("C20.after", "table")
			continue
		}
		c.same("C20.after", "table", g, g.evPos(e), "the cursor after the table", tb.norm(a, y, g.T.atom("@y")), g.T.atom("@y"))
	}
}

// fieldStores: the stores to a field of a type of the library, per element.
func (tb *tableRules) fieldStores(typ, field string) (out []*Event) {
	g := tb.g
	for _, e := range g.evs(func(e *Event) bool { return e.kind == "store" && tb.el.loop.body[e.n] }) {
		hit := false
		walkAddr(g.evArgs(e)[0], func(a *Term) {
			if a.op == OFAddr && strings.HasSuffix(typeKey(a.typ), "."+typ) {
				if st, ok := a.typ.Underlying().(*types.Struct); ok && st.Field(a.i).Name() == field {
					hit = true
				}
			}
		})
		if hit {
			out = append(out, e)
		}
	}
	return
}

// walkAddr visits the alternatives of an address.
func walkAddr(a *Term, f func(*Term)) {
	if a.op == OIte {
		walkAddr(a.args[1], f)
		walkAddr(a.args[2], f)
		return
	}
	f(a)
}

// everyCell: a store reaches every cell of every row.
func (tb *tableRules) everyCell(rule, name, pos string, p *cellAt, n *Node, facts ...lit) bool {
	c, g := tb.c, tb.g
	T := g.T
	_ = c
	return tb.allOf(rule, name, "the rows visited", pos, p.rows, tb.rows) &&
		tb.visited(rule, name, "the rows", pos, p.rowL, p.ri, T.len(p.rows)) &&
		tb.visited(rule, name, "the cells of a row", pos, p.cellL, p.ci, T.len(p.cells)) &&
		tb.only(rule, name, "the cells of a row are visited", pos, p.cellL.head, p.rowL.head, p.rowL, T.len(p.rows), lit{T.lt(T.Zero, T.len(p.cells), true), true}) &&
		tb.only(rule, name, "a cell is visited", pos, n, p.cellL.head, p.cellL, T.len(p.cells), facts...)
}

func (tb *tableRules) heights() {
	c, g := tb.c, tb.g
	T := g.T
	// of a row
	rs := tb.fieldStores("tableRow", "height")
	tb.rowE = rs
	if len(rs) != 1 {
		c.und("C20.height", "row", "%d assignments of the height of a row", len(rs))
	} else {
		e := rs[0]
		pos := g.evPos(e)
		as := g.evArgs(e)
		p := g.rowPlace(as[0].args[0])
		if p == nil {
			c.und("C20.height", "row", "which rows get a height is not evident")
		} else if tb.allOf("C20.height", "row", "the rows visited", pos, p.rows, tb.rows) && tb.visited("C20.height", "row", "the rows", pos, p.rowL, p.ri, T.len(p.rows)) &&
			tb.only("C20.height", "row", "a row gets its height", pos, e.n, p.rowL.head, p.rowL, T.len(p.rows)) {
			cells := g.named(p.row, "tableRow", "cells")
			want := g.maxOver(T.len(cells), func(i *Term) *Term {
				return g.named(elemAt(T, p.row, cells, i), "tableCell", "minHeight")
			})
			tb.closed("C20.height", "row", pos, "the height of a row", g.simp(as[1]), want, T.Zero, cells, func(acc, i *Term) *Term {
				h := g.named(elemAt(T, p.row, cells, i), "tableCell", "minHeight")
				return T.ite(T.lt(acc, h, false), h, acc)
			})
		}
	}
	// of the cells
	cs := tb.fieldStores("tableCell", "height")
	tb.cellE = cs
	if len(cs) != 1 {
		c.und("C20.height", "cells", "%d assignments of the height of a cell", len(cs))
	} else {
		e := cs[0]
		pos := g.evPos(e)
		as := g.evArgs(e)
		p := g.cellPlace(as[0].args[0])
		if p == nil {
			c.und("C20.height", "cells", "which cells get a height is not evident")
		} else if tb.everyCell("C20.height", "cells", pos, p, e.n) {
			got := g.simp(as[1])
			want := g.named(p.row, "tableRow", "height")
			if got != want && len(rs) == 1 {
				// the very value stored for the row
				ra := g.evArgs(rs[0])
				if q := g.rowPlace(ra[0].args[0]); q != nil && q.row == p.row && g.simp(ra[1]) == got {
					got = want
					tb.rowE = nil
				}
			}
			c.same("C20.height", "cells", g, pos, "the height of a cell", tb.norm(got), tb.norm(want))
		}
	}
	// what a cell needs
	ms := tb.fieldStores("tableCell", "minHeight")
	tb.minE = ms
	var own, spanned []*Event
	for _, e := range ms {
		cell := g.evArgs(e)[0].args[0]
		if p := g.cellPlace(cell); p != nil {
			own = append(own, e)
		} else {
			spanned = append(spanned, e)
		}
	}
	if len(own) == 0 {
		c.und("C20.height", "content", "where the height of a cell comes from is not evident")
		return
	}
	p := g.cellPlace(g.evArgs(own[0])[0].args[0])
	pos := g.evPos(own[0])
	zero, by := g.named(p.cell, "tableCell", "zero"), g.named(p.cell, "tableCell", "spannedBy")
	sr := g.named(p.cell, "tableCell", "spansRows")
	if zero == nil || by == nil || sr == nil {
		c.und("C20.height", "content", "the fields of a cell are not evident")
		return
	}
	h := g.cellSty(p.cell, "Dimension", "Height")
	for _, fixed := range []bool{true, false} {
		name := "content"
		if fixed {
			name = "given height"
		}
		facts := []lit{{T.eq(by, T.Nil), true}, {zero, false}, {T.pos(h, false), fixed}}
		var at []*Event
		open := false
		for _, e := range own {
			q := g.cellPlace(g.evArgs(e)[0].args[0])
			if q.cell != p.cell {
				open = true
				continue
			}
			if g.isFalse(e.n, p.cellL.head, facts...) {
				continue
			}
			at = append(at, e)
		}
		if fixed && !open && len(at) > 1 {
			for _, e := range at {
				var cds []*Term
				kn := true
				for _, cd := range g.condsWithin(e.n, p.cellL.head) {
					if v, d := T.decideUnder(facts, cd); d && v || g.loopDone(cd, p.cellL, T.len(p.cells)) {
						continue
					}
					cds = append(cds, cd)
					kn = kn && tb.known(cd)
				}
				if v := g.simp(g.evArgs(e)[1]); kn && v != h && !contains(v, func(x *Term) bool { return x == h }) {
					c.fail("C20.height", name, g.evPos(e), "the given height of a cell is not used if %s", condStr(cds))
					open = true
				}
			}
			if open {
				continue
			}
		}
		if open || len(at) > 1 {
			c.und("C20.height", name, "%d assignments", len(at))
			continue
		}
		if len(at) == 0 {
			for _, e := range spanned {
				if list, _ := seqElem(g.evArgs(e)[0].args[0]); list != sr {
					open = true
				}
			}
			if open {
				c.und("C20.height", name, "which cells get a height is not evident")
				continue
			}
			c.fail("C20.height", name, pos, "the height of a cell is not taken into account")
			continue
		}
		e := at[0]
		pos := g.evPos(e)
		if !tb.everyCell("C20.height", name, pos, p, e.n, facts...) {
			continue
		}
		v := g.simp(g.evArgs(e)[1])
		if fixed {
			c.same("C20.height", name, g, pos, "the height of a cell with a given height", tb.norm(v), tb.norm(h), facts...)
			continue
		}
		// content and padding, divided among the rows
		vs := casesUnder(g, v, facts)
		if len(vs) == 0 {
			c.und("C20.height", name, "too many cases")
			continue
		}
		top, bot := g.cellSty(p.cell, "Box", "Padding", "Top"), g.cellSty(p.cell, "Box", "Padding", "Bottom")
		left, right := g.cellSty(p.cell, "Box", "Padding", "Left"), g.cellSty(p.cell, "Box", "Padding", "Right")
		good := true
		for _, x := range vs {
			rest := T.mul(x.t, T.add(T.len(sr), T.One))
			if x.t.op == OPoly {
				rest = T.timesDen(x.t, T.add(T.len(sr), T.One))
			}
			rest = T.sub(rest, T.add(top, bot))
			bad := ""
			for _, s := range []struct {
				what string
				t    *Term
			}{{"top padding", top}, {"bottom padding", bot}, {"left padding", left}, {"right padding", right}} {
				if g.summand(rest, s.t) {
					bad = s.what
				}
			}
			switch {
			case g.summandOf(rest, func(x *Term) bool { return mentions(x, T.len(sr)) }):
				c.fail("C20.height", name, pos, "the height of what a cell contains is not shared equally among the rows it spans: %s", clip(x.t.String(), 300))
			case bad != "":
				c.fail("C20.height", name, pos, "the %s of a cell does not count once in its height: %s", bad, clip(x.t.String(), 300))
			case rest == T.Zero:
				c.fail("C20.height", name, pos, "the text of a cell does not count in its height")
			default:
				continue
			}
			good = false
			break
		}
		if good {
			c.ok("C20.height", name)
		}
		// the same for the cells below
		done := false
		for _, s := range spanned {
			sa := g.evArgs(s)
			list, i := seqElem(sa[0].args[0])
			l := (*Loop)(nil)
			if i != nil {
				l = loopIdx(i)
			}
			if list != nil && list != sr && list.op == OSlice && list.args[0] == sr {
				c.fail("C20.height", "spanned rows", g.evPos(s), "only %s get their share", clip(list.String(), 200))
				done = true
				continue
			}
			if list != sr || l == nil {
				c.und("C20.height", "spanned rows", "the height of %s is set", clip(sa[0].String(), 200))
				done = true
				continue
			}
			done = true
			if !tb.visited("C20.height", "spanned rows", "the spanned cells", g.evPos(s), l, i, T.len(sr)) ||
				!tb.only("C20.height", "spanned rows", "the spanned cells get their share", g.evPos(s), l.head, p.cellL.head, p.cellL, T.len(p.cells), facts...) {
				continue
			}
			if sv := g.simp(sa[1]); sv == v {
				c.ok("C20.height", "spanned rows")
			} else if tb.known(sv) && !understood(v) {
				c.fail("C20.height", "spanned rows", g.evPos(s), "the share of a spanned row is %s", clip(sv.String(), 200))
			} else {
				c.same("C20.height", "spanned rows", g, g.evPos(s), "the share of a spanned row", tb.norm(sv), tb.norm(v), facts...)
			}
		}
		if !done {
			c.fail("C20.height", "spanned rows", pos, "the rows that a cell spans get no share of its height")
		}
	}
}

func condStr(cds []*Term) string {
	var ss []string
	for _, cd := range cds {
		ss = append(ss, clip(cd.String(), 100))
	}
	return strings.Join(ss, " and ")
}

// closed: a value found by a loop over a list.
func (tb *tableRules) closed(rule, name, pos, what string, got, want, init, list *Term, step func(acc, i *Term) *Term) {
	c, g := tb.c, tb.g
	T := g.T
	a, b := tb.norm(got), tb.norm(want)
	if d, ex := T.diff(a, b); a == b || d == nil && !ex {
		c.ok(rule, name)
		return
	}
	if got.op == OLoopVar {
		in, nx, h := g.loopInfo(got)
		if l := g.loops[h]; l != nil && g.count(l) == T.len(list) && in == init {
			acc := T.atom("@so far")
			nx = T.subst(g.simp(nx), map[*Term]*Term{got: acc})
			c.same(rule, name, g, pos, what+" after an element", tb.plain(tb.norm(nx)), tb.plain(tb.norm(step(acc, g.iv(l)))), lit{T.lt(g.iv(l), T.len(list), true), true}, lit{T.pos(acc, false), true})
			return
		}
	}
	c.same(rule, name, g, pos, what, a, b)
}

// casesUnder lists the values of t where the facts hold.
func casesUnder(g *Graph, t *Term, facts []lit) (out []caseVal) {
	ls, ok := g.leaves([]*Term{t}, facts...)
	if !ok {
		return nil
	}
	seen := map[*Term]bool{}
	for _, l := range ls {
		if !seen[l.ts[0]] {
			seen[l.ts[0]] = true
			out = append(out, caseVal{t: l.ts[0]})
		}
	}
	return
}

// summand: x occurs in one of the products that t adds up (not merely inside of
// an opaque value).
func (g *Graph) summand(t, x *Term) bool {
	return g.summandOf(t, func(y *Term) bool { return y == x })
}

func (g *Graph) summandOf(t *Term, f func(*Term) bool) bool {
	for _, m := range polyMonos(g.T.toPoly(t)) {
		for _, y := range m.fs {
			if f(y.t) {
				return true
			}
		}
	}
	return false
}

func (tb *tableRules) widths() {
	c, g := tb.c, tb.g
	T := g.T
	ws := tb.fieldStores("tableCell", "width")
	tb.widthE = ws
	if len(ws) == 0 {
		c.fail("C20.width", "cells", "table.go", "cells get no width")
		return
	}
	e := ws[len(ws)-1]
	for _, x := range ws {
		if v := g.simp(g.evArgs(x)[1]); !tb.known(v) {
			e = x
		}
	}
	for _, x := range ws {
		if x == e {
			continue
		}
		v := g.simp(g.evArgs(x)[1])
		c.expect3(false, tb.known(v), "C20.width", "cells/other", g.evPos(x), "a cell is made as wide as %s", clip(v.String(), 200))
		if tb.known(v) {
			return
		}
	}
	if len(ws) > 1 {
		return
	}
	pos := g.evPos(e)
	as := g.evArgs(e)
	p := g.cellPlace(as[0].args[0])
	if p == nil {
		c.und("C20.width", "cells", "which cells get a width is not evident")
		return
	}
	if !tb.everyCell("C20.width", "cells", pos, p, e.n) {
		return
	}
	// the array of column widths
	var arr *Term
	for _, s := range g.evs(func(s *Event) bool { return s.kind == "store" && tb.el.loop.body[s.n] }) {
		a := g.evArgs(s)[0]
		if a.op == OIAddr && a.args[0].op == OAlloc || a.op == OIAddr && isMake(a.args[0]) {
			if contains(g.evArgs(s)[1], func(x *Term) bool {
				return x.op == OLoad && x.args[0].op == OFAddr && fieldNameOf(x.args[0]) == "ColumnWidth"
			}) {
				if arr != nil && arr != a.args[0] {
					c.und("C20.width", "columns", "several lists of widths")
					return
				}
				arr = a.args[0]
			}
		}
	}
	if arr == nil {
		c.und("C20.width", "columns", "where the widths of the columns are kept is not evident")
		return
	}
	if isMake(arr) && len(arr.args) > 0 {
		want := g.maxOver(T.len(tb.rows), func(i *Term) *Term {
			return T.len(g.named(elemAt(T, p.row, tb.rows, i), "tableRow", "cells"))
		})
		tb.closed("C20.width", "columns", pos, "the number of columns", g.simp(arr.args[0]), want, T.Zero, tb.rows, func(acc, i *Term) *Term {
			n := T.len(g.named(elemAt(T, p.row, tb.rows, i), "tableRow", "cells"))
			return T.ite(T.lt(acc, n, true), n, acc)
		})
	}
	read := func(ev *Event, idx *Term) *Term {
		return g.simp(g.norm(g.read(ev.n, ev.i, T.mk(&Term{op: OIAddr, args: []*Term{arr, idx}}), types.Typ[types.Float64])))
	}
	// assigned
	c.same("C20.width", "cells/column", g, pos, "the width of a cell", tb.opaque(g.simp(as[1])), tb.opaque(read(e, p.ci)))
	if d, ok := T.constDiff(p.ci, g.iv(p.cellL)); !ok || d.Sign() != 0 {
		c.und("C20.width", "cells/column", "the cells are visited as %s", p.ci)
	}
	// the widest of a column
	n := 0
	for _, s := range g.evs(func(s *Event) bool { return s.kind == "store" && tb.el.loop.body[s.n] }) {
		sa := g.evArgs(s)
		if sa[0].op != OIAddr || sa[0].args[0] != arr {
			continue
		}
		spos := g.evPos(s)
		idx := sa[0].args[1]
		var q *cellAt
		walk(sa[1], func(x *Term) bool {
			if q == nil && x.op == OFAddr {
				if cell := g.cellOf(x); cell != nil {
					q = g.cellPlace(cell)
				}
			}
			return true
		})
		if q != nil {
			n++
			cur := read(s, idx)
			cw := g.cellSty(q.cell, "Table", "ColumnWidth")
			if !tb.allOf("C20.width", "widest", "the rows visited", spos, q.rows, tb.rows) {
				continue
			}
			more := T.lt(cur, cw, false)
			m := map[*Term]*Term{cur: T.atom("@width so far"), cw: T.atom("@column width")}
			sub := func(t *Term) *Term { return T.subst(t, m) }
			ok := tb.visited("C20.width", "widest", "the rows", spos, q.rowL, q.ri, T.len(q.rows)) &&
				tb.visited("C20.width", "widest", "the cells of a row", spos, q.cellL, q.ci, T.len(q.cells)) &&
				tb.only("C20.width", "widest", "the cells of a row are visited", spos, q.cellL.head, q.rowL.head, q.rowL, T.len(q.rows), lit{T.lt(T.Zero, T.len(q.cells), true), true})
			if !ok {
				continue
			}
			bad := false
			for _, cd := range g.condsWithin(s.n, q.cellL.head) {
				if g.loopDone(cd, q.cellL, T.len(q.cells)) {
					continue
				}
				if v, d := T.decideUnder([]lit{{more, true}}, cd); d && v {
					continue
				}
				bad = true
				c.expect3(false, tb.known(sub(cd)), "C20.width", "widest", spos, "the width a cell asks for counts only if %s", clip(sub(cd).String(), 200))
			}
			if bad {
				continue
			}
			// stored: the larger one
			less := []lit{{more, false}}
			if !g.isFalse(s.n, q.cellL.head, less...) {
				c.same("C20.width", "widest/narrower", g, spos, "the width of a column where a cell asks for less", sub(sa[1]), sub(cur), lit{sub(more), false}, lit{sub(T.lt(cw, cur, false)), true})
			}
			c.same("C20.width", "widest", g, spos, "the width of a column where a cell asks for more", sub(sa[1]), sub(cw), lit{sub(more), true})
			c.same("C20.width", "widest/column", g, spos, "the column that a cell counts for", tb.norm(idx), tb.norm(q.ci))
			continue
		}
		tb.share(s, arr, idx, read)
		n++
	}
	if n < 2 {
		c.und("C20.width", "columns", "how the widths are found is not evident")
	}
}

// opaque names the values carried by loops.
func (tb *tableRules) opaque(t *Term) *Term {
	g := tb.g
	m := map[*Term]*Term{}
	walk(t, func(x *Term) bool {
		if x.op == OLoopVar {
			m[x] = g.T.atom("@" + x.String())
			return false
		}
		return true
	})
	if len(m) == 0 {
		return t
	}
	return g.T.subst(t, m)
}

// share: columns without a width share what is left.
func (tb *tableRules) share(s *Event, arr, idx *Term, read func(*Event, *Term) *Term) {
	c, g := tb.c, tb.g
	T := g.T
	rule := "C20.width"
	pos := g.evPos(s)
	l := loopIdx(idx)
	if l == nil {
		c.und(rule, "remaining", "the column is %s", clip(idx.String(), 100))
		return
	}
	n := T.len(arr)
	if !tb.visited(rule, "remaining", "the columns", pos, l, idx, n) {
		return
	}
	cur := read(s, idx)
	m := map[*Term]*Term{cur: T.atom("@column width"), n: T.atom("@columns")}
	walk(arr, func(x *Term) bool {
		if x.op == OLoopVar {
			m[x] = T.atom("@columns")
		}
		return true
	})
	for _, cd := range g.condsWithin(s.n, l.head) {
		if g.loopDone(cd, l, n) {
			continue
		}
		if v, d := T.decideUnder([]lit{{T.zero(cur, false), true}}, cd); d && v {
			continue
		}
		c.expect3(false, understood(T.subst(cd, m)), rule, "remaining", pos, "a column without a width gets one only if %s", clip(T.subst(cd, m).String(), 200))
		return
	}
	if !g.isFalse(s.n, l.head, lit{T.pos(cur, false), true}) {
		c.fail(rule, "remaining", pos, "a column whose width is given gets another one")
		return
	}
	// the share
	v := g.simp(g.evArgs(s)[1])
	var used, cnt *Term
	walk(v, func(x *Term) bool {
		if x.op != OLoopVar {
			return true
		}
		init, next, h := g.loopInfo(x)
		al := g.loops[h]
		if al == nil || !isZeroNum(init) {
			return false
		}
		next = g.simp(next)
		// the element of the array in that iteration
		iv := g.iv(al)
		el := g.simp(g.norm(g.read(h, 0, T.mk(&Term{op: OIAddr, args: []*Term{arr, iv}}), types.Typ[types.Float64])))
		if g.count(al) != n {
			return false
		}
		mm := map[*Term]*Term{el: T.atom("@column width"), x: T.atom("@acc")}
		nx := T.subst(next, mm)
		acc, cw := T.atom("@acc"), T.atom("@column width")
		given, not := lit{T.pos(cw, false), true}, lit{T.zero(cw, false), true}
		is := func(a, b *Term, f lit) bool {
			d, ex := T.diff(a, b, f)
			return d == nil && !ex
		}
		switch {
		case is(nx, T.add(acc, cw), given) && is(nx, acc, not):
			used = x
		case is(nx, T.add(acc, T.One), not) && is(nx, acc, given):
			cnt = x
		case understood(nx):
			c.fail(rule, "remaining/sum", pos, "what the columns need is added up as %s", clip(nx.String(), 200))
		}
		return false
	})
	name := func(x *Term, s string) {
		if x != nil {
			m[x] = T.atom(s)
		}
	}
	name(used, "@used width")
	name(cnt, "@columns without a width")
	got := T.subst(g.canonPage(v), m)
	stys := g.styleTerms(tb.el.elem, "Table")
	if len(stys) == 0 {
		c.und(rule, "remaining", "no styles of the table")
		return
	}
	sty := usedStyle(stys, v)
	w := g.effWidth(g.styF(sty, "Dimension", "Width"), T.sub(g.pa(2), g.pa(0)))
	if cnt == nil {
		// a count of its own
		c.expect3(false, tb.known(got), rule, "remaining", pos, "a column without a width gets %s, not its share", clip(got.String(), 300))
		return
	}
	// whenever there are columns without a width
	if _, _, h := g.loopInfo(cnt); h != nil {
		for _, cd := range g.condsWithin(l.head, h) {
			if g.loopDone(cd, tb.el.loop, n) {
				continue
			}
			cd = T.subst(cd, m)
			if v, d := T.decideUnder([]lit{{T.lt(T.Zero, T.atom("@columns without a width"), true), true}}, cd); d && v {
				continue
			}
			c.expect3(false, tb.known(cd), rule, "remaining/always", pos, "columns without a width get one only if %s", clip(cd.String(), 200))
		}
	}
	u := T.atom("@used width")
	want := T.div(T.sub(w, u), T.atom("@columns without a width"))
	c.same(rule, "remaining", g, pos, "the share of a column without a width", got, want)
}

func isMake(t *Term) bool { return t.op == OAlloc || t.op == OOp && strings.HasPrefix(t.s, "make@") }

func fieldNameOf(a *Term) string {
	if st, ok := a.typ.Underlying().(*types.Struct); ok && a.i < st.NumFields() {
		return st.Field(a.i).Name()
	}
	return ""
}

func isZeroNum(t *Term) bool { return t.op == ONum && t.rat().Sign() == 0 }

// cellIn: a cell reached by the index of a loop over a list.
func (g *Graph) cellIn(cell *Term) (list, idx *Term, l *Loop) {
	list, idx = seqElem(cell)
	if list == nil {
		return nil, nil, nil
	}
	if l = loopIdx(idx); l == nil {
		return nil, nil, nil
	}
	return
}

// loc is the address a field is read from.
func (g *Graph) loc(ptr *Term, typ, field string) *Term {
	f := g.named(ptr, typ, field)
	if f == nil || f.op != OLoad {
		return nil
	}
	return f.args[0]
}

// now is the value of a field of a struct just before an event.
func (g *Graph) now(e *Event, ptr *Term, typ, field string) *Term {
	a := g.loc(ptr, typ, field)
	if a == nil {
		return nil
	}
	st, _ := a.typ.Underlying().(*types.Struct)
	if st == nil {
		return nil
	}
	return g.simp(g.norm(g.read(e.n, e.i, a, st.Field(a.i).Type())))
}

// spans: the cells that a cell spans are inserted where they belong.
func (tb *tableRules) spans() {
	c, g := tb.c, tb.g
	T := g.T
	rule := "C20.spans"
	inserted := map[*Term]*Event{}
	for _, e := range tb.fieldStores("tableCell", "spannedBy") {
		as := g.evArgs(e)
		n := as[0].args[0]
		if n.op != OAlloc {
			c.und(rule, "spanned cells", "%s gets spanned", clip(n.String(), 100))
			return
		}
		inserted[n] = e
		tb.spanE = append(tb.spanE, e)
	}
	kinds := map[string]int{}
	for _, e := range tb.spanE {
		n, x := g.evArgs(e)[0].args[0], g.simp(g.evArgs(e)[1])
		kind := ""
		var app *Event
		for _, k := range []string{"spansCols", "spansRows"} {
			for _, s := range tb.fieldStores("tableCell", k) {
				if as := g.evArgs(s); contains(as[1], func(y *Term) bool { return y == n }) {
					if app != nil {
						c.fail(rule, "counted", g.evPos(s), "a spanned cell counts twice")
						return
					}
					kind, app = k, s
				}
			}
		}
		if app == nil {
			c.fail(rule, "counted", g.evPos(e), "a spanned cell does not count for the size of the cell that spans it")
			continue
		}
		kinds[kind]++
		if own := g.evArgs(app)[0].args[0]; g.simp(own) != x {
			c.fail(rule, kind+"/counted", g.evPos(app), "a spanned cell counts for %s but is spanned by %s", clip(own.String(), 100), clip(x.String(), 100))
			continue
		}
		list, idx, lc := g.cellIn(x)
		if lc == nil {
			c.und(rule, kind, "the spanning cell is %s", clip(x.String(), 100))
			continue
		}
		if cur := g.now(app, x, "tableCell", kind); cur != nil {
			c.same(rule, kind+"/counted", g, g.evPos(app), "the list of the spanned cells", tb.opaque(g.simp(g.evArgs(app)[1])), tb.opaque(T.seq("se", []*Term{cur, n})))
		}
		ls := g.innermost(e.n)
		if ls == nil || ls == lc || !lc.body[ls.head] {
			c.fail(rule, kind+"/number", g.evPos(e), "one cell is inserted for a span of any size")
			continue
		}
		pos := g.evPos(e)
		span, zero := g.named(x, "tableCell", "colSpan"), g.named(x, "tableCell", "zero")
		if kind == "spansRows" {
			span = g.named(x, "tableCell", "rowSpan")
		}
		facts := []lit{{T.lt(T.One, span, true), true}}
		if kind == "spansRows" {
			facts = append(facts, lit{zero, false})
		}
		if !tb.visited(rule, kind+"/cells", "the cells of a row", pos, lc, idx, T.len(list)) ||
			!tb.only(rule, kind+"/cells", "the cells that a cell spans are inserted", pos, ls.head, lc.head, lc, T.len(list), facts...) {
			continue
		}
		c.ok(rule, kind+"/cells")
		cnt := g.count(ls)
		if cnt == nil {
			c.und(rule, kind+"/number", "how many cells are inserted is not evident")
		} else {
			c.same(rule, kind+"/number", g, pos, "the number of cells that a span inserts", tb.norm(cnt), tb.norm(T.sub(span, T.One)), facts...)
			if !tb.only(rule, kind+"/number", "a spanned cell is inserted", pos, e.n, ls.head, ls, cnt, facts...) ||
				!tb.only(rule, kind+"/number", "a spanned cell counts", g.evPos(app), app.n, ls.head, ls, cnt, facts...) {
				continue
			}
		}
		if kind == "spansCols" {
			tb.colE = append(tb.colE, e, app)
			tb.colSpans(e, n, x, list, lc, ls, facts)
		} else {
			tb.belowE = append(tb.belowE, e, app)
			tb.rowSpans(e, n, x, idx, lc, ls, facts)
		}
	}
	for _, k := range []string{"spansCols", "spansRows"} {
		if kinds[k] == 0 {
			c.fail(rule, k, "table.go", "no cells are inserted for those that a cell spans")
		}
	}
	tb.fillers(inserted)
	tb.fromDoc()
}

// cellLists: the stores to the list of cells of a row.
func (tb *tableRules) cellLists() []*Event { return tb.fieldStores("tableRow", "cells") }

func (tb *tableRules) colSpans(e *Event, n, x, list *Term, lc, ls *Loop, facts []lit) {
	c, g := tb.c, tb.g
	T := g.T
	rule := "C20.spans"
	pos := g.evPos(e)
	// the spanned cells span the rows, too
	found := false
	for _, s := range tb.fieldStores("tableCell", "rowSpan") {
		as := g.evArgs(s)
		if as[0].args[0] != n {
			continue
		}
		found = true
		tb.colE = append(tb.colE, s)
		rs := g.named(x, "tableCell", "rowSpan")
		iv := g.iv(ls)
		for _, cd := range g.condsWithin(s.n, ls.head) {
			if contains(cd, func(y *Term) bool { return y == iv }) {
				continue
			}
			if v, ok := T.decideUnder(append([]lit{{T.lt(T.One, rs, true), true}}, facts...), cd); ok && v {
				continue
			}
			c.expect3(false, tb.known(cd), rule, "both/rows", g.evPos(s), "a spanned cell spans the rows only if %s", clip(cd.String(), 200))
		}
		c.same(rule, "both/rows", g, g.evPos(s), "the number of rows that a spanned cell spans", tb.opaque(g.simp(as[1])), tb.opaque(g.named(x, "tableCell", "rowSpan")))
	}
	if !found {
		c.fail(rule, "both/rows", pos, "the cells of a column span do not span the rows that the spanning cell spans")
	}
	// the new list
	var st *Event
	for _, s := range tb.cellLists() {
		v := g.simp(g.evArgs(s)[1])
		if v.op == OLoopVar {
			if _, _, h := g.loopInfo(v); h == lc.head {
				st = s
			}
		}
	}
	if st == nil {
		c.und(rule, "spansCols/list", "how spanned cells get into their row is not evident")
		return
	}
	tb.colE = append(tb.colE, st)
	row := g.evArgs(st)[0].args[0]
	pos = g.evPos(st)
	rows, ri := seqElem(row)
	if l := loopIdx(ri); rows == nil || l == nil {
		c.und(rule, "spansCols/list", "the row is %s", clip(row.String(), 100))
	} else if tb.visited(rule, "spansCols/rows", "the rows", pos, l, ri, T.len(rows)) &&
		tb.only(rule, "spansCols/rows", "a row gets its spanned cells", pos, st.n, l.head, l, T.len(rows), lit{T.lt(T.len(list), T.len(g.simp(g.evArgs(st)[1])), true), true}) {
		c.ok(rule, "spansCols/rows")
		if a := g.loc(row, "tableRow", "cells"); a != nil {
			// the cells that are visited are those of the row
			for _, p := range lc.head.preds {
				if lc.body[p.from] || !g.liveEdge[p] {
					continue
				}
				cur := g.simp(g.norm(g.read(p.from, len(p.from.items), a, a.typ.Underlying().(*types.Struct).Field(a.i).Type())))
				if cur != list && tb.opaque(cur) != tb.opaque(list) {
					c.expect3(false, understood(list), rule, "spansCols/row", pos, "the row gets the cells of %s", clip(list.String(), 200))
				} else {
					c.ok(rule, "spansCols/row")
				}
			}
		}
	}
	v := g.simp(g.evArgs(st)[1])
	init, next, _ := g.loopInfo(v)
	if !T.isEmptySeq(init) {
		c.expect3(false, tb.known(T.len(init)), rule, "spansCols/list", pos, "the cells of a row start with %s", clip(init.String(), 100))
		return
	}
	ren := map[*Term]*Term{v: T.atom("@cells before")}
	one := T.seq("se", []*Term{T.atom("@cells before"), x})
	for _, spans := range []bool{false, true} {
		fs := append([]lit{}, facts...)
		if !spans {
			fs = []lit{{facts[0].c, false}}
		}
		vs := casesUnder(g, g.simp(next), fs)
		if len(vs) != 1 {
			c.und(rule, "spansCols/list", "%d cases", len(vs))
			continue
		}
		t := vs[0].t
		if t.op == OLoopVar {
			in, nx, h := g.loopInfo(t)
			if h != ls.head {
				c.und(rule, "spansCols/list", "the cells are %s", clip(t.String(), 100))
				continue
			}
			if !spans {
				t = in
			} else {
				c.same(rule, "spansCols/inserted", g, pos, "what is added to the row for each spanned cell", g.simp(nx), T.seq("se", []*Term{t, n}))
				t = in
			}
		} else if k := len(t.args) - 1; spans && t.op == OSeq && k > 0 && t.s[k] == 's' && t.args[k].op == OLoopVar && loopHead(g, t.args[k]) == ls.head && t.s[k-1] == 'e' {
			in, nx, _ := g.loopInfo(t.args[k])
			c.same(rule, "spansCols/inserted", g, pos, "what is added to the row for each spanned cell", g.simp(nx), T.seq("se", []*Term{t.args[k], n}))
			t = T.seq(t.s[:k]+"s", append(append([]*Term{}, t.args[:k]...), in))
		} else if spans {
			c.expect3(false, tb.knownIn(T.subst(t, ren), ls), rule, "spansCols/inserted", pos, "the row gets %s for a cell and those it spans", clip(T.subst(t, ren).String(), 200))
			continue
		}
		c.same(rule, fmt.Sprintf("spansCols/list/%v", spans), g, pos, "the row up to a cell", T.subst(g.simp(t), ren), one, fs...)
	}
}

func loopHead(g *Graph, x *Term) *Node {
	_, _, h := g.loopInfo(x)
	return h
}

// knownIn: a list is made of known parts and of one that grows in a loop.
func (tb *tableRules) knownIn(t *Term, l *Loop) bool {
	T := tb.g.T
	m := map[*Term]*Term{}
	walk(t, func(x *Term) bool {
		if x.op == OLoopVar {
			if _, _, h := tb.g.loopInfo(x); h == l.head {
				m[x] = T.atom("@spanned")
			}
		}
		return true
	})
	return tb.known(T.subst(t, m))
}

// and2 is a term that all the literals occur in.
func (T *Terms) and2(ls []lit) *Term {
	r := T.True
	for _, l := range ls {
		r = T.ite(l.c, r, T.False)
	}
	return r
}

func (T *Terms) isEmptySeq(t *Term) bool {
	return t.op == ONil || t.op == OSeq && len(t.args) == 0
}

// rowSpans: the rows below get a cell at the same position.
func (tb *tableRules) rowSpans(e *Event, n, x, ci *Term, lc, ls *Loop, facts []lit) {
	c, g := tb.c, tb.g
	T := g.T
	rule := "C20.spans"
	p := g.cellAtOf(x)
	if p == nil {
		c.und(rule, "spansRows/rows", "the row of %s", clip(x.String(), 100))
		return
	}
	pos := g.evPos(e)
	if tb.visited(rule, "spansRows/rows", "the rows", pos, p.rowL, p.ri, T.len(p.rows)) &&
		tb.only(rule, "spansRows/rows", "the row spans of a row are followed", pos, lc.head, p.rowL.head, p.rowL, T.len(p.rows)) {
		c.ok(rule, "spansRows/rows")
	}
	found := 0
	for _, s := range tb.cellLists() {
		as := g.evArgs(s)
		if !contains(as[1], func(y *Term) bool { return y == n }) {
			continue
		}
		found++
		tb.belowE = append(tb.belowE, s)
		pos := g.evPos(s)
		// the row
		want := T.add(T.add(p.ri, T.One), g.iv(ls))
		ls2, ok := g.leaves([]*Term{as[0], as[1]}, facts...)
		if !ok || len(ls2) == 0 {
			c.und(rule, "spansRows/row", "too many cases")
			continue
		}
		for _, lf := range ls2 {
			row := lf.ts[0].args[0]
			rows, ri := seqElem(row)
			switch {
			case rows != nil:
				c.same(rule, "spansRows/row", g, pos, "the number of a row that gets a spanned cell", tb.opaque(ri), tb.opaque(want), lf.lits...)
				// that row is there
				if v, d := T.decideUnder(lf.lits, T.lt(want, T.len(rows), true)); !d || !v {
					c.und(rule, "spansRows/row", "whether there is a row below is not evident")
				}
			case row.op == OAlloc:
				// a new one below the last
				var at *Event
				for _, a := range tb.fieldStores("table", "rows") {
					if contains(g.evArgs(a)[1], func(y *Term) bool { return y == row }) {
						at = a
					}
				}
				if at == nil {
					c.fail(rule, "spansRows/new row", pos, "the row added for a spanned cell does not belong to the table")
					continue
				}
				tb.belowE = append(tb.belowE, at)
				cur := g.now(at, g.evArgs(at)[0].args[0], "table", "rows")
				if cur == nil {
					c.und(rule, "spansRows/new row", "the rows are not evident")
					continue
				}
				c.same(rule, "spansRows/new row", g, g.evPos(at), "the rows with a new one", tb.opaque(g.simp(g.evArgs(at)[1])), tb.opaque(T.seq("se", []*Term{cur, row})))
				if v, d := T.decideUnder(lf.lits, T.lt(want, T.len(cur), true)); d && !v {
					c.ok(rule, "spansRows/new row")
				} else {
					c.expect3(false, d || tb.known(T.and2(lf.lits)), rule, "spansRows/new row", g.evPos(at), "a row is added although there is one")
				}
			default:
				c.und(rule, "spansRows/row", "the row is %s", clip(row.String(), 100))
				continue
			}
			// the list
			cur := g.now(s, row, "tableRow", "cells")
			if cur == nil {
				c.und(rule, "spansRows/list", "the cells of %s", clip(row.String(), 100))
				continue
			}
			cs, cok := g.leaves([]*Term{cur}, lf.lits...)
			if !cok || len(cs) != 1 {
				c.und(rule, "spansRows/list", "too many cases")
				continue
			}
			cur = cs[0].ts[0]
			v := lf.ts[1]
			if v.op != OSeq || len(v.args) != 3 || v.s != "ses" {
				c.expect3(false, tb.known(T.len(v)), rule, "spansRows/list", pos, "the row gets %s", clip(v.String(), 200))
				continue
			}
			head, tail := T.slice(cur, T.None, ci), T.slice(cur, ci, T.None)
			if v.args[1] != n {
				c.und(rule, "spansRows/list", "the row gets %s", clip(v.String(), 200))
				continue
			}
			c.same(rule, "spansRows/list/after", g, pos, "the cells after the inserted one", v.args[2], tail, lf.lits...)
			if m := v.args[0]; isMake(m) && len(m.args) > 0 {
				tb.copied(s, m, cur, ci, ls, lf.lits)
			} else {
				c.same(rule, "spansRows/list/before", g, pos, "the cells before the inserted one", m, head, lf.lits...)
			}
			// there are as many cells
			there := false
			for _, cd := range g.condsWithin(s.n, ls.head) {
				vs := casesUnder(g, cd, lf.lits)
				for _, x := range vs {
					if v, d := T.decideUnder([]lit{{x.t, true}}, T.lt(T.len(cur), ci, true)); d && !v {
						there = true
					}
				}
			}
			if !there {
				c.und(rule, "spansRows/list", "whether the row reaches the position is not evident")
			}
		}
	}
	// the cell put into a list that is there already
	kept := g.evs(func(s *Event) bool {
		return s.kind == "store" && s != e && g.evArgs(s)[0].op == OIAddr && contains(g.evArgs(s)[1], func(y *Term) bool { return y == n })
	})
	switch {
	case found > 0:
	case len(kept) > 0:
		c.und(rule, "spansRows/list", "a spanned cell is stored at %s", g.evPos(kept[0]))
	default:
		c.fail(rule, "spansRows/list", pos, "no row gets the spanned cells")
	}
}

// copied: a list made to copy the first cells into has got them.
func (tb *tableRules) copied(at *Event, m, cur, ci *Term, in *Loop, facts []lit) {
	c, g := tb.c, tb.g
	T := g.T
	rule := "C20.spans"
	pos := g.evPos(at)
	c.same(rule, "spansRows/list/before", g, pos, "the number of cells before the inserted one", m.args[0], ci, facts...)
	for _, e := range g.evs(func(e *Event) bool { return e.kind == "copy" && in.body[e.n] }) {
		as := g.evArgs(e)
		if len(as) < 2 {
			continue
		}
		as = as[len(as)-2:]
		if as[0] != m {
			continue
		}
		for _, x := range casesUnder(g, g.simp(as[1]), facts) {
			src := x.t
			// a longer source is as good
			if src == cur {
				c.ok(rule, "spansRows/list/copied")
				continue
			}
			c.same(rule, "spansRows/list/copied", g, g.evPos(e), "the cells before the inserted one", src, T.slice(cur, T.None, ci), facts...)
		}
		return
	}
	c.fail(rule, "spansRows/list/copied", pos, "the cells before the inserted one are lost")
}

// cellAtOf: the place of a cell whose list may have been changed since.
func (g *Graph) cellAtOf(x *Term) *cellAt {
	if p := g.cellPlace(x); p != nil {
		return p
	}
	return nil
}

// fillers: cells made up to fill a row are not painted.
func (tb *tableRules) fillers(inserted map[*Term]*Event) {
	c, g := tb.c, tb.g
	doc, zero := map[*Term]bool{}, map[*Term]*Event{}
	for _, e := range tb.fieldStores("tableCell", "iss") {
		doc[g.evArgs(e)[0].args[0]] = true
	}
	for _, e := range tb.fieldStores("tableCell", "zero") {
		as := g.evArgs(e)
		if g.simp(as[1]) == g.T.True {
			zero[as[0].args[0]] = e
			if doc[as[0].args[0]] || inserted[as[0].args[0]] != nil {
				c.fail("C20.spans", "filler", g.evPos(e), "a cell of the document counts as filler")
			}
		}
	}
	seen := map[*Term]bool{}
	for _, e := range tb.cellLists() {
		walk(g.evArgs(e)[1], func(x *Term) bool {
			if x.op == OAlloc && strings.HasSuffix(typeKey(x.typ), "tableCell") && !seen[x] {
				seen[x] = true
				if !doc[x] && inserted[x] == nil {
					c.expect3(zero[x] != nil, true, "C20.spans", "filler", g.evPos(e), "a cell made up to fill a row is painted")
				}
			}
			return true
		})
	}
}

// fromDoc: the spans are those of the document.
func (tb *tableRules) fromDoc() {
	c, g := tb.c, tb.g
	for f, want := range map[string]string{"colSpan": "ColSpan", "rowSpan": "RowSpan"} {
		n := 0
		for _, e := range tb.fieldStores("tableCell", f) {
			as := g.evArgs(e)
			v := g.simp(as[1])
			got := ""
			if v.op == OLoad && v.args[0].op == OFAddr {
				got = fieldNameOf(v.args[0])
			} else if v.op == OField {
				if st, ok := v.typ.Underlying().(*types.Struct); ok && v.i < st.NumFields() {
					got = st.Field(v.i).Name()
				}
			}
			if got == f {
				continue // taken over by a spanned cell
			}
			n++
			c.expect3(got == want, got != "" || understood(v), "C20.spans", f, g.evPos(e), "the %s of a cell is %s", f, clip(v.String(), 200))
		}
		if n == 0 {
			c.fail("C20.spans", f, "table.go", "the %s of a cell is not taken from the document", f)
		}
	}
}

// order: every stage works on what the one before it has found.
func (tb *tableRules) order() {
	c, g := tb.c, tb.g
	for _, e := range tb.fieldStores("table", "columnCount") {
		if !g.evArgs(e)[1].isNum() {
			tb.columnsE = append(tb.columnsE, e)
		}
	}
	var paint []*Event
	ps, _ := g.cellPaints()
	for _, p := range ps {
		paint = append(paint, p.f)
	}
	stages := []struct {
		what string
		es   []*Event
	}{
		{"the spanned cells of a row", tb.colE}, {"the spanned cells below", tb.belowE}, {"the number of columns", tb.columnsE}, {"the widths", tb.widthE}, {"what the cells need", tb.minE},
		{"the heights of the rows", tb.rowE}, {"the heights of the cells", tb.cellE}, {"painting", paint},
	}
	full := stages[:0]
	for _, s := range stages {
		if len(s.es) > 0 {
			full = append(full, s)
		}
	}
	for i := 0; i+1 < len(full); i++ {
		a, b := full[i], full[i+1]
		is := map[*Event]bool{}
		for _, e := range a.es {
			is[e] = true
		}
		name := a.what + " before " + b.what
		bad := ""
		for _, e := range b.es {
			if bad != "" {
				break
			}
			g.iterationFrom(tb.el.loop, g.after(e), func(x *Event) bool {
				if is[x] {
					bad = g.evPos(x)
				}
				return bad != ""
			})
		}
		c.expect3(bad == "", true, "C20.order", name, bad, "%s are found after %s", a.what, b.what)
	}
}

// iterationFrom runs over the rest of an iteration of a loop.
func (g *Graph) iterationFrom(l *Loop, p point, f func(*Event) bool) {
	fl := &flow{g: g}
	fl.step = func(e *Event, s int) (int, bool) { return s, f(e) }
	fl.edge = func(e *Edge, s int) (int, bool) { return s, l.body[e.to] && e.to != l.head }
	fl.run(p, 0)
}

// cellContents: every box and every image of a cell is drawn, once.
func (c *Ck) cellContents() {
	for _, k := range []string{"Box", "Image"} {
		op := map[string]string{"Box": "FillRect", "Image": "PutImage"}[k]
		g := c.process("cell contents,"+k, both(idle, assumeKind("Table"), assumeNested(k), assumeHAlign("left"), nonEmptyLists, errNil("xpdf.DescribeImage", true)))
		if g == nil {
			return
		}
		el := c.topLoop(g)
		if el == nil {
			c.und("C05.cell", k, "no loop over elements")
			return
		}
		// the loops over contents
		pos := g.P.instrPos(el.loop.head.items[0].in)
		paints := g.evs(eng("FillRect"))
		inner := map[*Loop]*Event{}
		for _, e := range g.evs(eng(op)) {
			l := g.innermost(e.n)
			if l == nil || !el.loop.body[e.n] || l == el.loop {
				continue
			}
			for _, p := range paints {
				if q := g.innermost(p.n); q != nil && q != l && q.body[l.head] && q != el.loop {
					inner[l] = e
				}
			}
		}
		if len(inner) == 0 {
			c.und("C05.cell", k, "no loop over the contents of cells found")
			continue
		}
		for l, e := range inner {
			min, max := 99, 0
			g.iteration(l, 0, func(e *Event, s int) (int, bool) {
				if eng(op)(e) && s < 2 {
					s++
				}
				return s, false
			}, func(s int) {
				if s < min {
					min = s
				}
				if s > max {
					max = s
				}
			}, nil)
			c.expect(min == 1 && max == 1, "C05.cell", k+" once", g.evPos(e), "a %s in a cell has %d to %d effects %s", k, min, max, op)
			c.leftEarly("C05.cell", k+" each", g, l)
		}
		for _, p := range paints {
			q := g.innermost(p.n)
			has := false
			for l := range inner {
				if q != nil && q != l && q.body[l.head] && q != el.loop {
					has = true
				}
			}
			if !has {
				continue
			}
			missed := false
			fl := &flow{g: g}
			fl.step = func(e *Event, s int) (int, bool) { return s, false }
			fl.edge = func(e *Edge, s int) (int, bool) {
				for l := range inner {
					if e.to == l.head {
						return 1, false
					}
				}
				if e.to == q.head {
					missed = true
					return s, false
				}
				return s, q.body[e.to]
			}
			fl.run(g.after(p), 0)
			c.expect(!missed, "C05.cell", k+" all", pos, "the contents of a cell (%s) can be skipped after its box was painted", k)
		}
		if k == "Image" {
			c.rowsReached(g, el, inner)
		}
	}
}

// rowsReached: whether the rows of a table are drawn does not depend on sizes.
func (c *Ck) rowsReached(g *Graph, el *elemLoop, inner map[*Loop]*Event) {
	for l := range inner {
		top := l
		for _, q := range g.loops {
			if q != el.loop && el.loop.body[q.head] && q.body[l.head] && len(q.body) > len(top.body) {
				top = q
			}
		}
		for _, cd := range g.condsWithin(top.head, el.loop.head) {
			if contains(cd, func(x *Term) bool {
				if (x.op == OFAddr || x.op == OField) && x.typ != nil {
					st, ok := x.typ.Underlying().(*types.Struct)
					return ok && x.i < st.NumFields() && isFloatType(st.Field(x.i).Type())
				}
				return false
			}) {
				c.fail("C05.cell", "rows", g.loopPos(top), "the rows of a table are drawn only if %s", clip(cd.String(), 150))
				return
			}
		}
	}
	c.ok("C05.cell", "rows")
}

// leftEarly: a loop over the contents of a cell ends with them.
func (c *Ck) leftEarly(rule, con string, g *Graph, l *Loop) {
	var list *Term
	iv := g.iv(l)
	for n := range l.body {
		for _, e := range n.succs {
			if cd := g.rawCond(e); cd != nil && list == nil {
				walk(cd, func(x *Term) bool {
					if x.op == OTypeIs {
						if s, i := seqElem(x.args[0]); s != nil && i == iv {
							list = s
						}
					}
					return list == nil
				})
			}
		}
	}
	if list == nil {
		c.und(rule, con, "the list is not evident")
		return
	}
	done := g.T.le(g.T.len(list), iv, true)
	for _, e := range l.exits {
		if cd := g.cond(e); g.liveEdge[e] && cd != done {
			if cd != nil && understood(cd) {
				c.fail(rule, con, g.loopPos(l), "the contents of a cell are left if %s", clip(cd.String(), 150))
			} else {
				c.und(rule, con, "the loop can be left early")
			}
			return
		}
	}
	c.ok(rule, con)
}

// cellText: the text of every cell is written.
func (c *Ck) cellText() {
	for _, h := range []string{"left", "center", "right", "block"} {
		g := c.process("cell text,"+h, both(idle, assumeKind("Table"), assumeHAlign(h), nonEmptyLists))
		if g == nil {
			return
		}
		el := c.topLoop(g)
		if el == nil {
			c.und("C05.cell", "text", "no loop over elements")
			return
		}
		for _, p := range g.evs(eng("FillRect")) {
			q := g.innermost(p.n)
			if q == nil || q == el.loop || !el.loop.body[p.n] {
				continue
			}
			heads := map[*Node]bool{}
			for _, w := range g.evs(eng("WriteText")) {
				for hd, l := range g.loops {
					if l.body[w.n] && q.body[hd] && hd != q.head {
						heads[hd] = true
					}
				}
			}
			if len(heads) == 0 {
				continue
			}
			missed := false
			fl := &flow{g: g}
			fl.step = func(e *Event, s int) (int, bool) { return s, false }
			fl.edge = func(e *Edge, s int) (int, bool) {
				if heads[e.to] {
					return 1, false
				}
				if e.to == q.head {
					missed = true
					return s, false
				}
				return s, q.body[e.to]
			}
			fl.run(g.after(p), 0)
			c.expect(!missed, "C05.cell", "text "+h, g.evPos(p), "the text of a cell can be skipped after its box was painted")
		}
	}
}

// assumeNested assumes the kind of elements that are not at the top level.
func assumeNested(kind string) Assume {
	want := "*github.com/mazzegi/xpdf/xdoc." + kind
	return func(g *Graph, t *Term) (bool, bool) {
		if t.op == OTypeIs && !topElem(t.args[0]) {
			if n := namedOf(t.args[0].typ); n != nil && n.Obj().Name() == "Instruction" || t.args[0].typ == nil {
				return typeKey(t.typ) == want, true
			}
		}
		return false, false
	}
}
