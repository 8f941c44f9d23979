package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register("C19", "conditions of the branches that dominate every page break, compared as terms with the bottom edge of what is painted next; sums and maxima of loops in closed form; value flow of the vertical position", ruleC19)
}

// cellPaint is a place where the rectangle of a table cell is painted.
type cellPaint struct {
	f          *Event
	cell, row  *Term
	rows       *Term // list of rows
	ri         *Term // index of the row
	cells      *Term // list of cells of the row
	ci         *Term // index of the cell
	cellL      *Loop
	rowL       *Loop
	x, y, w, h *Term
}

// loopIdx: the loop whose counter occurs in an index.
func loopIdx(t *Term) *Loop {
	var l *Loop
	walk(t, func(x *Term) bool {
		if x.op == OIV {
			l, _ = x.data.(*Loop)
		}
		return true
	})
	return l
}

func (g *Graph) iv(l *Loop) *Term { return g.T.mk(&Term{op: OIV, i: l.head.id, data: l}) }

// cellPaints lists the rectangles painted for table cells; all is false if
// there are some for cells whose place in the table is not evident.
func (g *Graph) cellPaints() (out []*cellPaint, all bool) {
	all = true
	for _, f := range g.evs(eng("FillRect")) {
		x, y, w, h, base := g.rect(f)
		if base == nil {
			all = false
			continue
		}
		if o := g.ownerOf(base); o == nil {
			all = false
			continue
		} else if o.what != "cell" {
			continue
		}
		p := &cellPaint{f: f, cell: base, x: x, y: y, w: w, h: h}
		p.cells, p.ci = seqElem(base)
		if p.cells == nil || p.cells.op != OLoad || p.cells.args[0].op != OFAddr {
			all = false
			continue
		}
		p.row = p.cells.args[0].args[0]
		p.rows, p.ri = seqElem(p.row)
		if p.rows == nil {
			all = false
			continue
		}
		p.cellL, p.rowL = loopIdx(p.ci), loopIdx(p.ri)
		if p.cellL != nil && p.rowL == nil {
			// always the same row: the loop around
			for _, l := range g.loops {
				if l != p.cellL && l.body[p.cellL.head] && (p.rowL == nil || len(l.body) < len(p.rowL.body)) {
					p.rowL = l
				}
			}
		}
		if p.cellL == nil || p.rowL == nil {
			all = false
			continue
		}
		out = append(out, p)
	}
	return
}

// condsWithin: the conditions that hold at a node, of the branches that
// dominate it, after another one.
func (g *Graph) condsWithin(n, stop *Node) (out []*Term) {
	for ; n != nil && n != stop && n.idom != n; n = n.idom {
		d := n.idom
		if d == nil {
			break
		}
		var in []*Edge
		for _, p := range n.preds {
			if g.liveEdge[p] {
				in = append(in, p)
			}
		}
		if len(in) == 1 && in[0].from == d {
			if cd := g.cond(in[0]); cd != nil && !cd.isBool() {
				out = append(out, cd)
			}
		}
	}
	return
}

// factsAt are the conditions that hold where a node is reached, of the
// innermost loop around it.
func (g *Graph) factsAt(n *Node) (out []lit) {
	var stop *Node
	if l := g.innermost(n); l != nil {
		stop = l.head
	}
	for _, cd := range g.condsWithin(n, stop) {
		out = append(out, lit{cd, true})
	}
	if stop != nil {
		// and those under which the loop is run
		for _, cd := range g.condsWithin(stop, nil) {
			out = append(out, lit{cd, true})
		}
	}
	return
}

// minT is the smaller of two numbers.
func (T *Terms) minT(a, b *Term) *Term {
	if a == b {
		return a
	}
	if d, ok := T.constDiff(a, b); ok {
		if d.Sign() < 0 {
			return a
		}
		return b
	}
	if b.id < a.id {
		a, b = b, a
	}
	return T.call("@min", a, b)
}

// sumOver and maxOver: the closed forms that folds produces.
func (g *Graph) sumOver(n *Term, f func(i *Term) *Term) *Term {
	i := g.tmp()
	return g.sum(n, f(i), i)
}

func (g *Graph) maxOver(n *Term, f func(i *Term) *Term) *Term {
	T := g.T
	i := g.tmp()
	t := f(i)
	k := T.atom(fmt.Sprintf("@i%d", foldHeight(t)+1))
	return T.call("@max", T.Zero, n, T.subst(t, map[*Term]*Term{i: k}), k)
}

// tmp is a name for a counter.
func (g *Graph) tmp() *Term {
	g.tmps++
	return g.T.atom(fmt.Sprintf("@tmp%d", g.tmps))
}

// named reads a field of a struct of the library by name.
func (g *Graph) named(ptr *Term, typ, name string) *Term {
	t := g.P.typ("", typ)
	if t == nil {
		return nil
	}
	if fieldNamed(t, name) < 0 {
		return nil
	}
	return g.T.load(g.T.faddr(ptr, fieldNamed(t, name), t))
}

// elemAt is an element of a list, in the way in which that of another one is
// written.
func elemAt(T *Terms, like, list, i *Term) *Term {
	if like.op == OLoad {
		return T.load(T.mk(&Term{op: OIAddr, args: []*Term{list, i}}))
	}
	return T.index(list, i)
}

// fitCond recognises a comparison of something with the lower margin: the
// condition says that d > 0 (or d >= 0).
func (g *Graph) fitCond(cd *Term) (d *Term, ok bool) {
	T := g.T
	cd = g.canonPage(cd)
	switch {
	case cd.op == OPos:
		d = cd.args[0]
	case cd.op == ONot && cd.args[0].op == OPos:
		d = T.sub(T.Zero, cd.args[0].args[0])
	default:
		return nil, false
	}
	page := func(x *Term) bool {
		return x.op == OCall && (x.s == engPfx+"PrintableArea" || x.s == engPfx+"PageHeight" || x.s == engPfx+"PageWidth" || x.s == engPfx+"Margins")
	}
	if !contains(d, page) {
		return nil, false
	}
	return d, true
}

// pageBreak is a page break with the condition that leads to it.
type pageBreak struct {
	e     *Event
	cd    *Term // the comparison with the lower margin
	d     *Term // cd: d > 0
	other []*Term
}

// breakAt finds out under which conditions a page break happens, after a node.
func (g *Graph) breakAt(e *Event, from *Node) (b *pageBreak, why string) {
	b = &pageBreak{e: e}
	for _, cd := range g.condsWithin(e.n, from) {
		if d, ok := g.fitCond(cd); ok {
			if b.cd != nil {
				at, was := asksCursor(d), asksCursor(b.d)
				switch {
				case at == was:
					return nil, "several comparisons with the lower margin"
				case was:
					b.other = append(b.other, cd)
					continue
				}
				b.other = append(b.other, b.cd)
			}
			b.cd, b.d = cd, d
			continue
		}
		b.other = append(b.other, cd)
	}
	if b.cd == nil {
		return nil, "it is not evident what is compared with the lower margin"
	}
	return b, ""
}

// asksCursor: the position of the cursor is part of the comparison.
func asksCursor(t *Term) bool {
	return contains(t, func(x *Term) bool { return x.op == OInv && x.s == engPfx+"GetXY" })
}

func ruleC19(c *Ck) {
	c.boxBreak()
	c.tableBreak()
}

// newPageY: the value is the cursor queried after the page break, and nothing
// has moved it.
func (g *Graph) newPageY(a *Event, t *Term) (ok bool, why string) { return g.newPage(a, t, 1) }

func (g *Graph) newPage(a *Event, t *Term, i int64) (ok bool, why string) {
	if t.op != OProj || t.args[0].op != OInv || t.args[0].s != engPfx+"GetXY" || int64(t.i) != i {
		return false, clip(t.String(), 200)
	}
	q, _ := t.args[0].data.(*Event)
	if q == nil {
		return false, clip(t.String(), 200)
	}
	// after the page break, the query comes before anything else moves the
	// cursor (it may also be made where no page was started)
	switch x, hit := g.steady(a, q); {
	case x != nil:
		return false, "the cursor queried after " + engName(x)
	case !hit:
		return false, "the cursor queried before the page break"
	}
	return true, ""
}

// steady: on the ways from a to q, within the iteration, nothing moves the
// cursor; x is what does, hit tells whether q comes after a at all.
func (g *Graph) steady(a, q *Event, not ...*Event) (x *Event, hit bool) {
	in := g.innermost(a.n)
	fl := &flow{g: g}
	fl.step = func(e *Event, s int) (int, bool) {
		if e == q {
			hit = true
			if s > 0 && x == nil {
				x = g.events[s-1]
			}
			return s, true
		}
		for _, n := range not {
			if e == n {
				return s, true
			}
		}
		if e != a && s == 0 && engEffect(e) && engMoves[engName(e)] {
			for i, o := range g.events {
				if o == e {
					return i + 1, false
				}
			}
		}
		return s, false
	}
	fl.edge = func(e *Edge, s int) (int, bool) { return s, in == nil || e.to != in.head }
	fl.run(g.after(a), 0)
	return x, hit
}

// sameCursor replaces the queries of the cursor in t by one that is made in
// like, where nothing moves the cursor between the two unless brk happens.
func (g *Graph) sameCursor(t, like *Term, brk *Event) *Term {
	qs := func(t *Term) (out []*Term) {
		walk(t, func(x *Term) bool {
			if _, ok := x.data.(*Event); ok && x.op == OInv && x.s == engPfx+"GetXY" {
				out = append(out, x)
			}
			return true
		})
		return
	}
	m := map[*Term]*Term{}
	for _, x := range qs(t) {
		for _, y := range qs(like) {
			if x == y || m[x] != nil {
				continue
			}
			p, q := x.data.(*Event), y.data.(*Event)
			for i := 0; i < 2; i++ {
				if mv, hit := g.steady(p, q, brk); hit && mv == nil && m[x] == nil {
					m[x] = y
				}
				p, q = q, p
			}
		}
	}
	if len(m) == 0 {
		return t
	}
	return g.T.subst(t, m)
}

func (c *Ck) boxBreak() {
	g := c.body("Box", "left")
	if g == nil {
		c.und("C19.box", "Box", "no rendering entry point")
		return
	}
	el := c.topLoop(g)
	if el == nil {
		c.und("C19.box", "Box", "no element loop")
		return
	}
	T := g.T
	g.prune()
	fs := g.evs(eng("FillRect"))
	var as []*Event
	inner := 0
	for _, a := range g.evs(eng("AddPage")) {
		if !el.loop.body[a.n] {
			continue
		}
		if g.innermost(a.n) != el.loop {
			inner++
			continue
		}
		as = append(as, a)
	}
	if len(fs) == 0 {
		c.und("C19.box", "Box", "no box is painted")
		return
	}
	if len(as) == 0 && inner == 0 {
		c.fail("C19.box", "Box", g.evPos(fs[0]), "a box never starts a new page")
		return
	}
	if len(as) != 1 || len(fs) != 1 {
		c.und("C19.box", "Box", "%d page breaks, %d painted rectangles", len(as)+inner, len(fs))
		return
	}
	a, f := as[0], fs[0]
	pos := g.evPos(a)
	// before it is painted
	if !c.expect(g.follows(a, f), "C19.box", "Box/before", pos, "the page break does not come before the box is painted") {
		return
	}
	b, why := g.breakAt(a, el.loop.head)
	if b == nil {
		if ok, _ := g.iterMust(el.loop, a); ok {
			c.fail("C19.box", "Box", pos, "every box starts a new page")
			return
		}
		c.und("C19.box", "Box", "%s", why)
		return
	}
	others := 0
	for _, cd := range b.other {
		if g.loopDone(cd, el.loop, T.len(el.seq)) {
			continue
		}
		others++
		_, size := g.fitCond(cd)
		switch {
		case !size && !understood(cd):
			c.und("C19.box", "Box/condition", "a page is started only if %s", clip(cd.String(), 300))
		default:
			c.fail("C19.box", "Box/condition", pos, "a box that does not fit starts a new page only if %s", clip(cd.String(), 300))
		}
	}
	if others == 0 {
		c.ok("C19.box", "Box/condition")
	}
	x, y, _, h, base := g.rect(f)
	if y == nil {
		c.und("C19.box", "Box", "the rectangle is not evident")
		return
	}
	fact := func(v bool) map[*Term]*Term {
		m := map[*Term]*Term{b.cd: T.boolC(v)}
		if b.cd.op == ONot {
			m[b.cd.args[0]] = T.boolC(!v)
		}
		return m
	}
	y0 := g.sameCursor(T.subst(y, fact(false)), b.d, a)
	yb := T.subst(y, fact(true))
	off := g.styF(base, "Dimension", "OffsetY")
	want := g.canonPage(T.sub(T.add(y0, h), g.pa(3)))
	if d, ex := T.diff(b.d, want); d == nil && !ex {
		c.ok("C19.box", "Box/bottom edge")
	} else {
		c.same("C19.box", "Box/bottom edge", g, pos, "what is compared with the lower margin", b.d, T.sub(want, off))
	}
	ok, w := g.newPageY(a, T.sub(yb, off))
	switch {
	case ok:
		c.ok("C19.box", "Box/new page")
	case understood(T.sub(yb, off)):
		c.fail("C19.box", "Box/new page", pos, "after the page break the box is painted at %s", w)
	default:
		c.und("C19.box", "Box/new page", "after the page break the box is painted at %s", w)
	}
	xb := T.sub(T.subst(x, fact(true)), g.styF(base, "Dimension", "OffsetX"))
	ok, w = g.newPage(a, xb, 0)
	c.expect3(ok, understood(xb), "C19.box", "Box/new page x", pos, "after the page break the box is painted at the horizontal position %s", w)
}

// follows: f can happen after a, in the same iterations of the loops around
// both.
func (g *Graph) follows(a, f *Event) bool {
	return g.followsIn(g.innermost(a.n), a, f)
}

func (g *Graph) followsIn(in *Loop, a, f *Event) bool {
	found := false
	fl := &flow{g: g}
	fl.step = func(x *Event, s int) (int, bool) {
		if x == f {
			found = true
		}
		return s, found
	}
	fl.edge = func(e *Edge, s int) (int, bool) { return s, in == nil || e.to != in.head }
	fl.run(g.after(a), 0)
	return found
}

func (c *Ck) tableBreak() {
	g := c.body("Table", "left", assumeText)
	if g == nil {
		c.und("C19.table", "Table", "no rendering entry point")
		return
	}
	el := c.topLoop(g)
	if el == nil {
		c.und("C19.table", "Table", "no element loop")
		return
	}
	T := g.T
	g.prune()
	ps, all := g.cellPaints()
	var main, rep *cellPaint
	var mains []*cellPaint
	for _, p := range ps {
		nested := false
		for _, q := range ps {
			if q.rowL != p.rowL && q.rowL.body[p.rowL.head] {
				nested = true
			}
		}
		if nested {
			if rep != nil {
				all = false
			}
			rep = p
		} else {
			mains = append(mains, p)
			if main != nil {
				all = false
			}
			main = p
		}
	}
	for _, m := range mains {
		if rep != nil && m.rowL.body[rep.rowL.head] && !g.followsIn(m.rowL, rep.f, m.f) && g.followsIn(m.rowL, m.f, rep.f) {
			c.fail("C19.repeat", "order", g.evPos(rep.f), "the header rows are repeated after the row")
			return
		}
	}
	if main == nil || !all {
		c.und("C19.table", "Table", "the rows are painted in a way that is not evident")
		return
	}
	rowL := main.rowL
	pos := g.evPos(main.f)
	if main.ri != g.iv(rowL) {
		c.und("C19.table", "Table", "rows are visited as %s", main.ri)
		return
	}
	rh := g.elemField(el.elem, "Table", "RepeatHeader")
	if rh == nil {
		c.und("C19.table", "Table", "the number of repeated rows is not evident")
		return
	}
	// page breaks: of the table, of a row
	var at, ar []*Event
	odd := false
	for _, a := range g.evs(eng("AddPage")) {
		switch {
		case !el.loop.body[a.n]:
		case g.innermost(a.n) == el.loop:
			at = append(at, a)
		case g.innermost(a.n) == rowL:
			ar = append(ar, a)
		case main.cellL.body[a.n] || rep != nil && rep.cellL.body[a.n]:
		default:
			odd = true
		}
	}
	if odd || len(ar) > 1 || len(at) > 1 {
		c.und("C19.table", "Table", "%d page breaks before the rows, %d within", len(at), len(ar))
		return
	}
	if len(ar) == 0 {
		c.fail("C19.row", "row", pos, "no row starts a new page")
		return
	}
	a := ar[0]
	apos := g.evPos(a)
	b, why := g.breakAt(a, rowL.head)
	if b == nil {
		if ok, _ := g.iterMust(rowL, a); ok {
			c.fail("C19.row", "row", apos, "every row starts a new page")
			return
		}
		c.und("C19.row", "row", "%s", why)
		return
	}
	c.expect(g.follows(a, main.f), "C19.row", "row/before", apos, "the page break does not come before the row is painted")
	// names for what is carried along
	fact := func(cd *Term, v bool) map[*Term]*Term {
		m := map[*Term]*Term{cd: T.boolC(v)}
		if cd.op == ONot {
			m[cd.args[0]] = T.boolC(!v)
		}
		return m
	}
	if rep == nil {
		c.fail("C19.repeat", "header", pos, "no header rows are repeated on a new page")
	} else {
		c.repeated(g, main, rep, b, rh, func(t *Term) *Term {
			return g.canonPage(T.subst(t, map[*Term]*Term{main.rows: T.atom("@rows")}))
		})
	}
	y0 := T.subst(main.y, fact(b.cd, false))
	if y0.op != OLoopVar {
		c.und("C19.row", "row", "the vertical position is %s", clip(y0.String(), 200))
		return
	}
	ren := map[*Term]*Term{y0: T.atom("@y"), main.rows: T.atom("@rows")}
	norm := func(t *Term) *Term { return g.canonPage(g.picks(T.subst(g.folds(t), ren), ren)) }
	i := g.iv(rowL)
	zero, later := lit{T.lt(T.Zero, i, true), false}, lit{T.lt(T.Zero, i, true), true}
	cellHeight := func(k, j *Term) *Term {
		cell := T.subst(main.cell, map[*Term]*Term{main.ri: k, main.ci: j})
		sp := g.named(cell, "tableCell", "spansRows")
		hh := g.named(cell, "tableCell", "height")
		if sp == nil || hh == nil {
			return T.atom("height")
		}
		return T.add(hh, g.sumOver(T.len(sp), func(s *Term) *Term {
			return g.named(elemAt(T, main.cell, sp, s), "tableCell", "height")
		}))
	}
	height := func(k *Term) *Term {
		cells := T.subst(main.cells, map[*Term]*Term{main.ri: k})
		return g.maxOver(T.len(cells), func(j *Term) *Term { return cellHeight(k, j) })
	}
	head := g.sumOver(T.minT(T.add(rh, T.One), T.len(main.rows)), height)
	// of a row
	own := T.sub(T.add(y0, height(i)), g.pa(3))
	if x := T.sub(g.canonPage(b.d), g.canonPage(T.sub(y0, g.pa(3)))); x.op == OLoopVar && g.folds(x) == x {
		// one cell after the other
		in, nx, h := g.loopInfo(x)
		if l := g.loops[h]; l != nil && g.simp(in) == T.Zero && g.count(l) == g.simp(T.len(T.subst(main.cells, map[*Term]*Term{main.ri: i}))) {
			acc := T.atom("@so far")
			j := g.iv(l)
			hh := cellHeight(i, j)
			got := norm(T.subst(g.simp(nx), map[*Term]*Term{x: acc}))
			want := norm(T.ite(T.lt(acc, hh, true), hh, acc))
			c.same("C19.row", "row/tallest cell", g, apos, "the height of a row, after a cell", got, want, lit{T.lt(j, g.count(l), true), true}, later)
		}
	}
	c.heightSame(g, "C19.row", "row/bottom edge", apos, "what is compared with the lower margin before a row is painted", norm(b.d), norm(own), later)
	var init *Term
	li, next, _ := g.loopInfo(y0)
	init = g.simp(li)
	_ = next
	if len(at) == 0 {
		// the first row with the header
		want := T.sub(T.add(y0, head), g.pa(3))
		c.heightSame(g, "C19.start", "table/bottom edge", apos, "what is compared with the lower margin before the first row is painted", norm(b.d), norm(want), zero)
	}
	var extra []*Term
	for _, cd := range b.other {
		cd = T.subst(cd, map[*Term]*Term{})
		if g.loopDone(cd, rowL, T.len(main.rows)) {
			continue
		}
		if v, ok := T.decideUnder([]lit{later}, cd); ok && v {
			continue
		}
		extra = append(extra, cd)
	}
	for _, cd := range extra {
		if !understood(norm(cd)) {
			c.und("C19.row", "row/condition", "a page is started only if %s", clip(cd.String(), 300))
		} else {
			c.fail("C19.row", "row/condition", apos, "a row that does not fit starts a new page only if %s", clip(cd.String(), 300))
		}
	}
	if len(extra) == 0 {
		c.ok("C19.row", "row/condition")
	}
	// of the table
	if len(at) == 1 {
		a0 := at[0]
		p0 := g.evPos(a0)
		b0, why := g.breakAt(a0, el.loop.head)
		if b0 == nil {
			c.und("C19.start", "table", "%s", why)
		} else {
			i0 := g.simp(g.sameCursor(T.subst(init, fact(b0.cd, false)), b0.d, a0))
			want := T.sub(T.add(i0, head), g.pa(3))
			c.heightSame(g, "C19.start", "table/bottom edge", p0, "what is compared with the lower margin before a table is painted", norm(b0.d), norm(want))
			ok, w := g.newPageY(a0, T.subst(init, fact(b0.cd, true)))
			c.expect3(ok, understood(norm(T.subst(init, fact(b0.cd, true)))), "C19.start", "table/new page", p0, "after the page break the table starts at %s", w)
			var extra []*Term
			for _, cd := range b0.other {
				if g.loopDone(cd, el.loop, T.len(el.seq)) || emptyTable(cd) {
					continue
				}
				extra = append(extra, cd)
			}
			for _, cd := range extra {
				if v, ok := T.decideUnder([]lit{{T.lt(T.Zero, T.len(main.rows), true), true}}, norm(cd)); ok && v {
					continue
				}
				if !understood(norm(cd)) {
					c.und("C19.start", "table/condition", "a page is started only if %s", clip(cd.String(), 300))
				} else {
					c.fail("C19.start", "table/condition", p0, "a table that does not fit starts a new page only if %s", clip(cd.String(), 300))
				}
			}
			c.expect(g.follows(a0, main.f), "C19.start", "table/before", p0, "the page break does not come before the table is painted")
		}
	}
	// where a row continues
	yb := T.subst(main.y, fact(b.cd, true))
	var facts []lit
	for _, cd := range b.other {
		facts = append(facts, lit{cd, true})
	}
	if rep != nil {
		fs := append([]lit{{T.lt(T.Zero, rh, true), true}, {T.le(rh, i, true), true}}, facts...)
		ls, ok := g.leaves([]*Term{yb}, fs...)
		for _, l := range ls {
			t := l.ts[0]
			_, _, h := g.loopInfo(t)
			c.expect3(h == rep.rowL.head, understood(norm(t)), "C19.repeat", "below", apos, "after the header rows have been repeated the row is painted at %s", clip(t.String(), 200))
		}
		if !ok {
			c.und("C19.repeat", "below", "too many cases")
		}
	}
	ls, ok := g.leaves([]*Term{yb}, facts...)
	if !ok {
		c.und("C19.row", "row/new page", "too many cases")
		return
	}
	for _, l := range ls {
		t := l.ts[0]
		if rep != nil && t.op == OLoopVar {
			in, _, h := g.loopInfo(t)
			if h == rep.rowL.head {
				t = g.simp(in)
			}
		}
		if t == y0 {
			c.fail("C19.row", "row/new page", apos, "after the page break the row is painted at the position on the page before")
			continue
		}
		if rep == nil || !mentions(l.ts[0], y0) {
			ok, w := g.newPageY(a, t)
			c.expect3(ok, understood(norm(t)), "C19.row", "row/new page", apos, "after the page break the row is painted at %s", w)
		} else {
			c.und("C19.row", "row/new page", "after the page break the row is painted at %s", clip(t.String(), 200))
		}
	}
}

// expect3: proved, refuted or undecided.
func (c *Ck) expect3(ok, known bool, rule, construct, pos, msg string, args ...any) {
	switch {
	case ok:
		c.ok(rule, construct)
	case known:
		c.fail(rule, construct, pos, msg, args...)
	default:
		c.und(rule, construct, msg, args...)
	}
}

// emptyTable: the condition that a table has columns.
func emptyTable(cd *Term) bool { return cd.op == ONot && cd.args[0].op == OZero }

// otherLoop: the condition is about the counter of a loop inside of l that was
// left before.
func (g *Graph) otherLoop(cd *Term, l *Loop) bool {
	return contains(cd, func(x *Term) bool {
		if x.op != OIV {
			return false
		}
		m, _ := x.data.(*Loop)
		return m != nil && m != l && l.body[m.head]
	})
}

// loopDone: a condition that says that a loop goes on, or that one inside of it
// is over.
func (g *Graph) loopDone(cd *Term, l *Loop, n *Term) bool {
	T := g.T
	if v, ok := T.decideUnder([]lit{{T.lt(g.iv(l), n, true), true}}, cd); ok && v {
		return true
	}
	if g.otherLoop(cd, l) {
		return true
	}
	// the only way out of a loop inside
	for h, m := range g.loops {
		if m == l || !l.body[h] {
			continue
		}
		var out []*Term
		for _, e := range m.exits {
			if g.liveEdge[e] {
				out = append(out, g.cond(e))
			}
		}
		if len(out) == 1 && out[0] == cd {
			return true
		}
	}
	return false
}

// iterMust: every complete iteration of the loop passes e.
func (g *Graph) iterMust(l *Loop, e *Event) (bool, bool) {
	ok := true
	g.iteration(l, 0, func(x *Event, s int) (int, bool) {
		if x == e {
			s = 1
		}
		return s, false
	}, func(s int) {
		if s == 0 {
			ok = false
		}
	}, nil)
	return ok, true
}

// heightSame compares two heights; a difference that involves other parts of
// the table than the row itself is left open.
func (c *Ck) heightSame(g *Graph, rule, construct, pos, what string, got, want *Term, facts ...lit) {
	foreign := contains(got, func(x *Term) bool {
		if x.op != OLoad || x.args[0].op != OFAddr || !strings.HasSuffix(typeKey(x.args[0].typ), ".tableCell") {
			return false
		}
		st, ok := x.args[0].typ.Underlying().(*types.Struct)
		return ok && st.Field(x.args[0].i).Name() == "rowSpan"
	})
	if foreign {
		if d, ex := g.T.diff(got, want, facts...); d != nil || ex {
			c.und(rule, construct, "%s is %s", what, clip(got.String(), 300))
			return
		}
	}
	if mins(got) != mins(want) {
		got, want = g.minCases(got), g.minCases(want)
	}
	c.same(rule, construct, g, pos, what, got, want, facts...)
}

func mins(t *Term) (n int) {
	walk(t, func(x *Term) bool {
		if x.op == OCall && x.s == "@min" {
			n++
		}
		return true
	})
	return
}

// minCases writes the smaller of two numbers as a choice.
func (g *Graph) minCases(t *Term) *Term {
	m := map[*Term]*Term{}
	walk(t, func(x *Term) bool {
		if x.op == OCall && x.s == "@min" {
			m[x] = g.T.ite(g.T.lt(x.args[0], x.args[1], true), x.args[0], x.args[1])
		}
		return true
	})
	if len(m) == 0 {
		return t
	}
	return g.T.subst(t, m)
}

// repeated checks the header rows painted again on a new page.
func (c *Ck) repeated(g *Graph, main, rep *cellPaint, b *pageBreak, rh *Term, norm func(*Term) *Term) {
	T := g.T
	rule := "C19.repeat"
	pos := g.evPos(rep.f)
	i, k := g.iv(main.rowL), g.iv(rep.rowL)
	n := T.len(main.rows)
	if rep.rows != main.rows {
		c.und(rule, "rows", "the rows repeated are those of another list")
		return
	}
	// when
	conds := g.condsWithin(rep.rowL.head, main.rowL.head)
	broken := false
	facts := []lit{{T.le(rh, i, true), true}, {T.lt(T.Zero, rh, true), true}, {T.lt(i, n, true), true}, {T.lt(T.Zero, i, true), true}}
	bad := false
	for _, cd := range conds {
		if cd == b.cd {
			broken = true
			continue
		}
		if g.loopDone(cd, main.rowL, n) {
			continue
		}
		if v, ok := T.decideUnder(facts, cd); ok && v {
			continue
		}
		bad = true
		if understood(norm(cd)) {
			c.fail(rule, "when", pos, "header rows are repeated on a new page only if %s", clip(cd.String(), 300))
		} else {
			c.und(rule, "when", "header rows are repeated only if %s", clip(cd.String(), 300))
		}
	}
	if !broken {
		bad = true
		if g.condsKnown(rep.rowL.head, main.rowL.head) {
			c.fail(rule, "when", pos, "header rows are repeated without a page break")
		} else {
			c.und(rule, "when", "it is not evident when header rows are repeated")
		}
	}
	if !bad {
		c.ok(rule, "when")
	}
	// after the page break, before the row
	c.expect(g.follows(b.e, rep.f) && !g.follows(rep.f, b.e), rule, "order", pos, "the header rows are not painted after the page break")
	// which
	if rep.ri != k {
		d, ok := T.constDiff(rep.ri, k)
		if ok && d.Sign() != 0 || understood(norm(rep.ri)) && !ok {
			c.fail(rule, "rows", pos, "the rows repeated are the ones numbered %s", clip(rep.ri.String(), 100))
		} else {
			c.und(rule, "rows", "the rows repeated are the ones numbered %s", clip(rep.ri.String(), 100))
		}
		return
	}
	var ls []lit
	for _, e := range rep.rowL.exits {
		if !g.liveEdge[e] {
			continue
		}
		cd := g.cond(e)
		if cd == nil || cd.isBool() {
			c.und(rule, "rows", "the rows repeated end unconditionally")
			return
		}
		ls = append(ls, lit{T.not(cd), true})
	}
	for _, cd := range g.condsWithin(rep.cellL.head, rep.rowL.head) {
		ls = append(ls, lit{cd, true})
	}
	bad = false
	in := []lit{{T.lt(k, rh, true), true}, {T.lt(k, n, true), true}}
	in = append(in, facts...)
	for _, l := range ls {
		if v, ok := T.decideUnder(in, l.c); ok && v {
			continue
		}
		bad = true
		if understood(norm(l.c)) {
			c.fail(rule, "rows", pos, "a header row is repeated only if %s", clip(l.c.String(), 300))
		} else {
			c.und(rule, "rows", "a header row is repeated only if %s", clip(l.c.String(), 300))
		}
	}
	if v, ok := T.decideUnder(append(append([]lit{}, ls...), lit{T.lt(k, n, true), true}), T.lt(k, rh, true)); !ok || !v {
		bad = true
		known := true
		for _, l := range ls {
			known = known && understood(norm(l.c))
		}
		c.expect3(false, known, rule, "rows", pos, "more rows are repeated than asked for")
	}
	if !bad {
		c.ok(rule, "rows")
	}
}

// condsKnown: every branch between the nodes is a dominating one.
func (g *Graph) condsKnown(n, stop *Node) bool {
	for ; n != nil && n != stop && n.idom != n; n = n.idom {
		cnt := 0
		for _, p := range n.preds {
			if g.liveEdge[p] && !dominates(n, p.from) {
				cnt++
			}
		}
		if cnt > 1 {
			// a join: fine if what is joined was split after the dominator
			continue
		}
	}
	return true
}

// picks describes loops that keep one of the values they compute, where
// folds found neither a sum nor a maximum.
func (g *Graph) picks(t *Term, ren map[*Term]*Term) *Term {
	T := g.T
	m := map[*Term]*Term{}
	walk(t, func(x *Term) bool {
		if x.op != OLoopVar {
			return true
		}
		init, next, head := g.loopInfo(x)
		l := g.loops[head]
		if head == nil || l == nil {
			return false
		}
		n := g.count(l)
		if n == nil {
			return false
		}
		iv := g.iv(l)
		next = g.simp(next)
		f, cd := next, T.boolC(true)
		if next.op == OIte {
			switch x {
			case next.args[1]:
				f, cd = next.args[2], T.not(next.args[0])
			case next.args[2]:
				f, cd = next.args[1], next.args[0]
			}
		}
		if mentions(f, x) || contains(f, func(y *Term) bool { return y.op == OIte }) {
			return false
		}
		r := g.foldsM(T.subst(T.call("@pick", init, n, cd, f), map[*Term]*Term{x: T.atom("@acc")}), map[*Term]*Term{}, 0)
		k := T.atom(fmt.Sprintf("@i%d", foldHeight(r)+1))
		m[x] = T.subst(T.subst(r, ren), map[*Term]*Term{iv: k})
		return false
	})
	if len(m) == 0 {
		return t
	}
	return T.subst(t, m)
}
