package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C22", "value-flow terms of the width given to every line breaking, of the inset of the text and of the width given to the columns, compared with the width rule by case analysis", ruleC22)
	register("C26", "pairing of every measuring with the drawing of the same element on the interprocedural graph: same line breaker, same arguments; the reserved height as a polynomial of lines, font height and line spacing", ruleC26)
}

// breaker is an expansion of a function that breaks a list into lines.
type breaker struct {
	ctx             *Ctx
	iss, width, sty *Term
	drawn           *writer // the drawing it is made for; nil: a measuring
	res             *Term
}

func (g *Graph) breakers() []*breaker {
	live := g.prune()
	ws := g.writers()
	var out []*breaker
	for _, k := range g.ctxs {
		if k.entry == nil || !live[k.entry] || k.parent == nil {
			continue
		}
		rs := k.fn.Signature.Results()
		if rs.Len() != 1 {
			continue
		}
		sl, ok := rs.At(0).Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		et := deref(sl.Elem())
		if _, ok := et.Underlying().(*types.Struct); !ok || namedOf(et) == nil {
			continue
		}
		iss, w, s := g.issArgs(k)
		if iss == nil || w == nil || s == nil {
			continue
		}
		b := &breaker{ctx: k, iss: g.simp(iss), width: g.simp(w), sty: g.simp(s)}
		for _, wr := range ws {
			if k.under(wr.ctx) {
				b.drawn = wr
			}
		}
		if v, ok := k.site.(interface{ Name() string }); ok && v != nil {
			b.res = g.ctxResult(k)
		}
		out = append(out, b)
	}
	return out
}

// canonStyles names the styles of an element by what they are computed from,
// so that two computations of the same styles are equal.
func (g *Graph) canonStyles(t *Term) *Term {
	m := map[*Term]*Term{}
	walk(t, func(x *Term) bool {
		if s := asStyle(x); s != nil {
			sel := s.sel
			if sel == nil {
				sel = g.T.str("")
			}
			m[x] = g.T.call("@styles", sel, g.canonStyles(s.recv), g.canonStyles(s.cls), g.canonStyles(s.parent))
			return false
		}
		return true
	})
	if len(m) == 0 {
		return t
	}
	return g.T.subst(t, m)
}

func (c *Ck) textGraph(kind, halign string) *Graph {
	return c.body(kind, halign, assumeText)
}

// elemOf finds the innermost element of the document a list belongs to.
func elemOf(t *Term) *Term {
	for t != nil {
		switch t.op {
		case OAssert:
			return t
		case OLoad, OFAddr, OField, OIAddr, OIndex, OSlice:
			t = t.args[0]
		default:
			return nil
		}
	}
	return nil
}

func kindOf(t *Term) string {
	if t == nil || t.op != OAssert || t.typ == nil {
		return ""
	}
	if n := namedOf(deref(t.typ)); n != nil {
		return n.Obj().Name()
	}
	return ""
}

// cellOf finds the pointer to a table cell a list is loaded from.
func (g *Graph) cellOf(t *Term) *Term {
	for t != nil {
		switch t.op {
		case OLoad, OFAddr, OField, OIAddr, OIndex, OSlice:
			if t.op == OFAddr && t.typ != nil && strings.HasSuffix(typeKey(t.typ), ".tableCell") {
				return t.args[0]
			}
			t = t.args[0]
		default:
			return nil
		}
	}
	return nil
}

func (g *Graph) cellSty(cell *Term, path ...string) *Term {
	ct := g.P.typ("", "tableCell")
	if ct == nil {
		return nil
	}
	a, _ := g.apath(cell, ct, append([]string{"Styles"}, path...)...)
	if a == nil {
		return nil
	}
	return g.T.load(a)
}

// rect is the rectangle that a fill paints.
func (g *Graph) rect(f *Event) (x, y, w, h *Term, base *Term) {
	as := g.evArgs(f)[1:]
	lws := g.lastBefore(f, eng("SetLineWidth"))
	if len(lws) != 1 || lws[0] == nil || len(as) != 4 {
		return
	}
	lw := g.evArgs(lws[0])[1]
	g.noteBase(lw)
	base, _ = baseOfField(lw)
	hl := g.T.scale(lw, ratOf(1, 2))
	T := g.T
	return T.sub(as[0], hl), T.sub(as[1], hl), T.add(as[2], lw), T.add(as[3], lw), base
}

func ruleC22(c *Ck) {
	// texts
	for _, ha := range []string{"left", "block"} {
		g := c.textGraph("Text", ha)
		if g == nil {
			c.und("C22.entry", "Process", "no rendering entry point")
			return
		}
		el := c.topLoop(g)
		if el == nil {
			c.und("C22.width", "Text", "no element loop")
			continue
		}
		stys := g.styleTerms(el.elem, "Text")
		bs := g.breakers()
		if len(bs) == 0 || len(stys) == 0 {
			c.und("C22.width", "Text/"+ha, "no line breaking found")
			continue
		}
		for _, b := range bs {
			sty := usedStyle(stys, b.width, b.sty)
			want := g.effWidth(g.styF(sty, "Dimension", "Width"), g.T.sub(g.pa(2), g.pa(0)))
			c.same("C22.width", "Text/"+ha, g, g.P.instrPos(b.ctx.site), "the width a text is laid out in", g.canonPage(b.width), want)
		}
	}
	// boxes
	for _, ha := range []string{"left", "block"} {
		for _, fits := range []bool{true, false} {
			g := c.boxGraph(fits, ha)
			el := c.topLoop(g)
			if el == nil {
				c.und("C22.width", "Box", "no element loop")
				continue
			}
			stys := g.styleTerms(el.elem, "Box")
			bs := g.breakers()
			if len(bs) == 0 || len(stys) == 0 {
				c.und("C22.width", "Box/"+ha, "no line breaking found")
				continue
			}
			for _, b := range bs {
				sty := usedStyle(stys, b.width, b.sty)
				st := func(p ...string) *Term { return g.styF(sty, p...) }
				w := g.effWidth(st("Dimension", "Width"), g.T.sub(g.pa(2), g.pa(0)))
				want := g.T.sub(g.T.sub(w, st("Box", "Padding", "Left")), st("Box", "Padding", "Right"))
				c.same("C22.width", "Box/"+ha, g, g.P.instrPos(b.ctx.site), "the width the text of a box is laid out in", g.canonPage(b.width), want)
			}
			for _, w := range g.writers() {
				c.inset(g, w, "Box/"+ha)
			}
		}
	}
	// tables
	for _, ha := range []string{"left", "block"} {
		g := c.textGraph("Table", ha)
		el := c.topLoop(g)
		if el == nil {
			c.und("C22.width", "Table", "no element loop")
			continue
		}
		c.tableWidth(g, el)
		ws := g.writers()
		if len(ws) == 0 {
			c.und("C22.width", "Table/"+ha, "no text is drawn")
		}
		for _, w := range ws {
			c.inset(g, w, "Table/"+ha)
			c.cellWidth(g, w, "Table/"+ha)
		}
	}
}

func (g *Graph) tableCtx(name string) *Ctx {
	live := g.prune()
	for _, k := range g.ctxs {
		if k.entry == nil || !live[k.entry] {
			continue
		}
		if r := k.fn.Signature.Recv(); r != nil && typeKey(r.Type()) == "*"+modPath+".table" && k.fn.Name() == name {
			return k
		}
	}
	return nil
}

func (c *Ck) tableWidth(g *Graph, el *elemLoop) {
	live := g.prune()
	stys := g.styleTerms(el.elem, "Table")
	if len(stys) == 0 {
		c.und("C22.width", "Table", "no styles of the table")
		return
	}
	n := 0
	for _, k := range g.ctxs {
		if k.entry == nil || !live[k.entry] {
			continue
		}
		sig := k.fn.Signature
		if r := sig.Recv(); r == nil || typeKey(r.Type()) != "*"+modPath+".table" || sig.Params().Len() != 1 || !isFloatType(sig.Params().At(0).Type()) || len(k.args) != 2 {
			continue
		}
		n++
		got := g.canonPage(g.simp(g.ref(k.args[1])))
		sty := usedStyle(stys, got)
		want := g.effWidth(g.styF(sty, "Dimension", "Width"), g.T.sub(g.pa(2), g.pa(0)))
		c.same("C22.width", "Table", g, g.P.instrPos(k.site), "the width of a table", got, want)
	}
	if n == 0 {
		c.und("C22.width", "Table", "the width of the table is not evident")
	}
}

// inset: the text starts at the padded left edge of what was painted.
func (c *Ck) inset(g *Graph, w *writer, name string) {
	T := g.T
	if w.fill == nil {
		c.und("C22.inset", name, "no rectangle is painted for it")
		return
	}
	x, y, _, _, base := g.rect(w.fill)
	if x == nil || base == nil {
		c.und("C22.inset", name, "the rectangle is not evident")
		return
	}
	pad := func(s string) *Term {
		if o := g.ownerOf(base); o != nil && o.what == "cell" {
			return g.cellSty(base, "Box", "Padding", s)
		}
		t, _ := g.fpath(base, g.P.typ("style", "Styles"), "Box", "Padding", s)
		return t
	}
	pl, pt := pad("Left"), pad("Top")
	if pl == nil || pt == nil {
		c.und("C22.inset", name, "the padding is not evident")
		return
	}
	o := g.ownerOf(base)
	in := w.ctx.entry
	last := func(kind string) []*Event { return g.lastAtEntry(w.fill, in, kind) }
	for _, e := range last("SetX") {
		if e == nil || engName(e) != "SetX" {
			// the cursor may be where it should be anyway
			if e == nil && o != nil && o.what == "cell" || e != nil {
				c.fail("C22.inset", name+"/left", g.evPos(w.first), "the text is written where %v left the cursor", e)
			} else {
				c.fail("C22.inset", name+"/left", g.evPos(w.first), "the text is written without moving the cursor into the box")
			}
			continue
		}
		c.same("C22.inset", name+"/left", g, g.evPos(e), "the left edge of the text", g.cursorAt(w.fill, g.simp(g.evArgs(e)[1])), g.cursorAt(w.fill, T.add(x, pl)))
	}
	for _, e := range last("SetY") {
		if e == nil || engName(e) != "SetY" {
			c.fail("C22.inset", name+"/top", g.evPos(w.first), "the text is written where %v left the cursor", e)
			continue
		}
		got := g.cursorAt(w.fill, g.simp(g.evArgs(e)[1]))
		want := g.cursorAt(w.fill, T.add(y, pt))
		if o != nil && o.what == "cell" {
			continue // depends on the vertical alignment; see C18
		}
		c.same("C22.inset", name+"/top", g, g.evPos(e), "the top edge of the text", got, want)
	}
}

// lastAtEntry: what set the cursor last when the text function is entered
// after a rectangle was painted.
func (g *Graph) lastAtEntry(f *Event, in *Node, kind string) []*Event {
	idx := map[*Event]int{}
	evs := []*Event{nil}
	for _, e := range g.evs(func(e *Event) bool { return engEffect(e) && engMoves[engName(e)] }) {
		idx[e] = len(evs)
		evs = append(evs, e)
	}
	hit := map[int]bool{}
	fl := &flow{g: g}
	fl.step = func(e *Event, s int) (int, bool) {
		if i, ok := idx[e]; ok {
			switch {
			case engName(e) == "SetX" && kind == "SetY", engName(e) == "SetY" && kind == "SetX":
			default:
				s = i
			}
		}
		return s, false
	}
	fl.edge = func(e *Edge, s int) (int, bool) {
		if e.to == in {
			hit[s] = true
			return s, false
		}
		return s, true
	}
	fl.run(g.after(f), 0)
	var out []*Event
	for i := range evs {
		if hit[i] {
			out = append(out, evs[i])
		}
	}
	return out
}

// cellWidth: the text of a cell is laid out in its width less the padding.
func (c *Ck) cellWidth(g *Graph, w *writer, name string) {
	T := g.T
	if w.fill == nil {
		return
	}
	_, _, rw, _, base := g.rect(w.fill)
	if rw == nil {
		c.und("C22.width", name, "the rectangle is not evident")
		return
	}
	var bs []*breaker
	for _, b := range g.breakers() {
		if b.drawn != nil && b.drawn.ctx == w.ctx {
			bs = append(bs, b)
		}
	}
	o := g.ownerOf(base)
	if o == nil {
		c.und("C22.width", name, "the styles are not evident")
		return
	}
	for _, b := range bs {
		var pl, pr *Term
		if o.what == "cell" {
			pl, pr = g.cellSty(base, "Box", "Padding", "Left"), g.cellSty(base, "Box", "Padding", "Right")
		} else {
			pl, pr = g.styF(base, "Box", "Padding", "Left"), g.styF(base, "Box", "Padding", "Right")
		}
		want := T.sub(T.sub(rw, pl), pr)
		// the width painted as a quantity of its own
		m := map[*Term]*Term{}
		if rw.op == OLoopVar {
			m[rw] = T.atom("@painted width")
		}
		c.same("C22.width", name+"/"+o.what, g, g.P.instrPos(b.ctx.site), "the width the text of a "+o.what+" in a table is laid out in",
			T.subst(g.canonPage(b.width), m), T.subst(g.canonPage(want), m))
		if o.what != "box" {
			continue
		}
		// the box itself: in the padded width of its cell
		cell := g.cellOf(o.key.args[0])
		var cf *Event
		for _, f := range g.evs(eng("FillRect")) {
			if _, _, _, _, b := g.rect(f); b != nil && b == cell && evDominates(f, w.fill) {
				cf = f
			}
		}
		if cf == nil {
			c.und("C22.width", name+"/box in cell", "the cell of the box is not evident")
			continue
		}
		_, _, cw, _, _ := g.rect(cf)
		avail := T.sub(T.sub(cw, g.cellSty(cell, "Box", "Padding", "Left")), g.cellSty(cell, "Box", "Padding", "Right"))
		bw := g.effWidth(g.styF(base, "Dimension", "Width"), avail)
		m = map[*Term]*Term{}
		if cw.op == OLoopVar {
			m[cw] = T.atom("@painted width")
		}
		c.same("C22.width", name+"/box in cell", g, g.evPos(w.fill), "the width of a box in a cell", T.subst(g.canonPage(rw), m), T.subst(g.canonPage(bw), m))
	}
}

// ---- C26

func ruleC26(c *Ck) {
	for _, ha := range []string{"left", "block"} {
		for _, fits := range []bool{true, false} {
			tag := fmt.Sprintf("Box/%s/%v", ha, fits)
			g := c.boxGraph(fits, ha)
			if g == nil {
				c.und("C26.entry", "Process", "no rendering entry point")
				return
			}
			el := c.topLoop(g)
			bs := g.breakers()
			if el == nil || len(bs) == 0 {
				c.und("C26.same", tag, "no line breaking found")
				continue
			}
			c.pairs(g, bs, tag)
			stys := g.styleTerms(el.elem, "Box")
			var ms *breaker
			for _, b := range bs {
				if b.drawn == nil {
					ms = b
				}
			}
			if ms == nil || ms.res == nil || len(stys) == 0 {
				c.und("C26.height", tag, "no measuring found")
				continue
			}
			for _, f := range g.evs(eng("FillRect")) {
				_, _, _, h, _ := g.rect(f)
				if h == nil {
					continue
				}
				sty := usedStyle(stys, h)
				st := func(p ...string) *Term { return g.styF(sty, p...) }
				got := g.T.sub(g.T.sub(g.cursorAt(f, g.simp(h)), st("Box", "Padding", "Top")), st("Box", "Padding", "Bottom"))
				c.heightIs(g, tag, g.evPos(f), got, ms, sty, g.styF(sty, "Dimension", "Height"))
			}
			c.measureFont(g, ms, tag)
		}
		// tables: what is measured for a cell
		g := c.textGraph("Table", ha)
		bs := g.breakers()
		tag := "Table/" + ha
		if len(bs) == 0 {
			c.und("C26.same", tag, "no line breaking found")
			continue
		}
		c.pairs(g, bs, tag)
		for _, b := range bs {
			if b.drawn == nil {
				c.measureFont(g, b, tag)
			}
		}
		c.minHeights(g, bs, tag)
	}
	// a box without contents
	g := c.process("body,Box,empty", both(idle, assumeKind("Box"), emptyLists))
	if g != nil {
		for _, e := range g.evs(eng("FillRect")) {
			el := c.topLoop(g)
			if el == nil {
				break
			}
			stys := g.styleTerms(el.elem, "Box")
			_, _, _, h, _ := g.rect(e)
			if h == nil || len(stys) == 0 {
				continue
			}
			sty := usedStyle(stys, h)
			pads := g.T.add(g.styF(sty, "Box", "Padding", "Top"), g.styF(sty, "Box", "Padding", "Bottom"))
			got := g.fontHeights(g.T.sub(g.simp(h), pads))
			hh := g.styF(sty, "Dimension", "Height")
			c.same("C26.empty", "Box", g, g.evPos(e), "the height of a box without contents", got, g.T.ite(g.T.pos(hh, false), hh, g.T.atom("@font height")))
		}
	}
}

// fontHeights replaces the results of font height queries by one quantity.
func (g *Graph) fontHeights(t *Term) *Term {
	m := map[*Term]*Term{}
	walk(t, func(x *Term) bool {
		if x.op == OInv && x.s == engPfx+"FontHeight" {
			m[x] = g.T.atom("@font height")
		}
		return true
	})
	return g.T.subst(t, m)
}

// heightIs compares a height with that of the lines measured.
func (c *Ck) heightIs(g *Graph, name, pos string, got *Term, ms *breaker, sty, given *Term) {
	T := g.T
	n := T.len(ms.res)
	m := map[*Term]*Term{n: T.atom("@number of lines")}
	got = g.fontHeights(T.subst(got, m))
	c.same("C26.height", name, g, pos, "the height reserved for the text", got, T.ite(T.pos(given, false), given, g.linesHeight(g.styF(sty, "Dimension", "LineSpacing"))))
}

func (g *Graph) linesHeight(ls *Term) *Term {
	T := g.T
	n, fh := T.atom("@number of lines"), T.atom("@font height")
	lh := T.mul(fh, ls)
	return T.add(T.sub(T.mul(n, lh), lh), fh)
}

// pairs: every measuring is made like the drawing of the same element.
func (c *Ck) pairs(g *Graph, bs []*breaker, name string) {
	key := func(b *breaker) *Term {
		if e := elemOf(b.iss); e != nil && kindOf(e) == "Box" {
			return e
		}
		return nil
	}
	// loop counters of different loops over the same list are the same
	// element
	norm := func(t *Term) *Term { return g.canonStyles(g.canonPage(t)) }
	for _, m := range bs {
		if m.drawn != nil {
			continue
		}
		n := 0
		for _, d := range bs {
			if d.drawn == nil {
				continue
			}
			mk, dk := key(m), key(d)
			if (mk == nil) != (dk == nil) || mk != nil && mk != dk {
				continue
			}
			norm := norm
			if mc, dc := g.cellOf(m.iss), g.cellOf(d.iss); mk == nil && mc != dc {
				if mc == nil || dc == nil {
					continue
				}
				// measured in another pass over the cells
				one := g.T.atom("@cell")
				sub := map[*Term]*Term{mc: one, dc: one}
				norm = func(t *Term) *Term { return g.T.subst(g.folds(g.canonStyles(g.canonPage(t))), sub) }
			}
			n++
			pos := g.P.instrPos(m.ctx.site)
			c.expect(method(m.ctx.fn) == method(d.ctx.fn), "C26.same", name+"/breaker", pos, "text is measured by %s, but drawn by %s", fnName(m.ctx.fn), fnName(d.ctx.fn))
			c.sameTerm("C26.same", name+"/contents", g, pos, "the contents measured are", norm(m.iss), norm(d.iss))
			c.sameTerm("C26.same", name+"/width", g, pos, "the width measured is", norm(m.width), norm(d.width))
			c.sameTerm("C26.same", name+"/styles", g, pos, "the styles measured are", norm(m.sty), norm(d.sty))
		}
		if n == 0 {
			c.und("C26.same", name, "the drawing of what is measured at %s is not evident", g.P.instrPos(m.ctx.site))
		}
	}
}

// sameTerm compares two values that come from the same code base: different
// values are reported unless they are merely different names.
func (c *Ck) sameTerm(rule, construct string, g *Graph, pos, what string, got, want *Term) {
	if got == want {
		c.ok(rule, construct)
		return
	}
	m := map[*Term]*Term{}
	in := func(t *Term) map[*Term]bool {
		r := map[*Term]bool{}
		walk(t, func(x *Term) bool {
			if x.op == OLoopVar {
				r[x] = true
				return false
			}
			return true
		})
		return r
	}
	w := in(want)
	for x := range in(got) {
		if w[x] {
			m[x] = g.T.atom(fmt.Sprintf("@value %d", x.id))
		}
	}
	got, want = g.T.subst(got, m), g.T.subst(want, m)
	d, ex := g.T.diff(got, want)
	switch {
	case d == nil && !ex:
		c.ok(rule, construct)
	case d == nil || !understood(d.a) || !understood(d.b):
		c.und(rule, construct, "%s %s", what, clip(got.String(), 300))
	default:
		c.fail(rule, construct, pos, "%s %s", what, d)
	}
}

// measureFont: the font height of a measuring is asked for in a font of the
// text measured.
func (c *Ck) measureFont(g *Graph, b *breaker, name string) {
	up := b.ctx.parent
	for _, e := range g.evs(eng("FontHeight")) {
		if e.c != up {
			continue
		}
		ls := g.lastBefore(e, eng("ChangeFont"))
		for _, l := range ls {
			if l == nil {
				continue
			}
			if l.c.under(b.ctx) || l.c.under(up) {
				c.ok("C26.font", name)
				continue
			}
			c.fail("C26.font", name, g.evPos(e), "the height is computed with the font selected at %s, not with that of the text", g.evPos(l))
		}
	}
}

// minHeights checks the heights reserved for the cells of a table.
func (c *Ck) minHeights(g *Graph, bs []*breaker, name string) {
	ct := g.P.typ("", "tableCell")
	if ct == nil {
		return
	}
	T := g.T
	fi := fieldNamed(ct, "minHeight")
	sp := fieldNamed(ct, "spansRows")
	if fi < 0 || sp < 0 {
		c.und("C26.cell-height", name, "no minimal height")
		return
	}
	n := 0
	for _, given := range []bool{true, false} {
		g := c.process(fmt.Sprintf("Table,%s,height=%v", name, given), both(idle, assumeKind("Table"), assumeHAlign(strings.TrimPrefix(name, "Table/")), assumeText, assumeGiven(given)))
		T = g.T
		bs := g.breakers()
		for _, e := range g.evs(func(e *Event) bool { return e.kind == "store" }) {
			as := g.evArgs(e)
			if len(as) != 2 || as[0].op != OFAddr || as[0].i != fi || as[0].typ == nil || typeKey(as[0].typ) != typeKey(ct) {
				continue
			}
			if as[0].args[0].op == OAlloc {
				continue
			}
			got := g.simp(as[1])
			// of which cell?
			var cell *Term
			for _, b := range bs {
				if b.drawn == nil && b.ctx.under(e.c) {
					cell = g.cellOf(b.iss)
				}
			}
			if cell == nil {
				cell = as[0].args[0]
			}
			n++
			want := g.cellSty(cell, "Dimension", "Height")
			if !given {
				var ms *breaker
				for _, b := range bs {
					if b.drawn == nil && g.cellOf(b.iss) == cell {
						ms = b
						break
					}
				}
				if ms == nil || ms.res == nil {
					c.und("C26.cell-height", name, "no measuring of the cell %s at %s", clip(cell.String(), 100), g.evPos(e))
					continue
				}
				got = g.fontHeights(T.subst(got, map[*Term]*Term{T.len(ms.res): T.atom("@number of lines")}))
				a, _ := g.apath(cell, ct, "spansRows")
				rows := T.add(T.One, T.len(T.load(a)))
				// the list of spanned rows as a quantity of its own
				h := T.add(T.add(g.linesHeight(g.cellSty(cell, "Dimension", "LineSpacing")), g.cellSty(cell, "Box", "Padding", "Top")), g.cellSty(cell, "Box", "Padding", "Bottom"))
				want = T.div(h, rows)
			}
			c.same("C26.cell-height", fmt.Sprintf("%s/given=%v", name, given), g, g.evPos(e), "the height reserved for a cell", got, want)
		}
	}
	if n == 0 {
		c.und("C26.cell-height", name, "no height is reserved")
	}
}

// assumeGiven decides whether cells have a height of their own.
func assumeGiven(v bool) Assume {
	return func(g *Graph, t *Term) (bool, bool) {
		if t.op != OPos || t.args[0].op != OLoad {
			return false, false
		}
		_, ns := baseOfField(t.args[0])
		if pathIs(ns, "Dimension", "Height") && g.cellOf(t.args[0]) != nil {
			return v, true
		}
		return false, false
	}
}

// ctxResult is the value returned by an expanded call.
func (g *Graph) ctxResult(k *Ctx) *Term {
	if k.parent == nil {
		return nil
	}
	return g.siteVal(k)
}

func (g *Graph) siteVal(k *Ctx) *Term {
	v, ok := k.site.(*ssa.Call)
	if !ok {
		return nil
	}
	return g.simp(g.val(k.parent, v))
}

// method is the method of which fn is a value bound to a receiver, or fn.
func method(fn *ssa.Function) *ssa.Function {
	if strings.HasPrefix(fn.Synthetic, "bound method") {
		if o, ok := fn.Object().(*types.Func); ok {
			if m := fn.Prog.FuncValue(o); m != nil {
				return m
			}
		}
	}
	return fn
}
