package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register("C17", "value-flow terms of every fill, line and colour operation; the border is checked by enumerating the paths of the pen between filling and stroking and comparing the segments drawn with the edges whose border is positive", ruleC17)
}

// pathInfo is one acyclic path through the graph.
type pathInfo struct {
	lits []lit
	evs  []*Event
	end  *Event
}

// paths enumerates the paths from p to the first event satisfying stop; false
// if there are too many of them, or one that loops.
func (g *Graph) paths(p point, stop func(*Event) bool, inside func(*Node) bool, max int, f func(*pathInfo)) bool {
	g.prune()
	n := 0
	ok := true
	on := map[*Node]bool{}
	var lits []lit
	var evs []*Event
	var rec func(nd *Node, i int)
	rec = func(nd *Node, i int) {
		if !ok {
			return
		}
		ne := len(evs)
		defer func() { evs = evs[:ne] }()
		for ; i < len(nd.items); i++ {
			e := g.evAt[itemKey{nd, i}]
			if e == nil {
				continue
			}
			evs = append(evs, e)
			if stop(e) {
				n++
				if n > max {
					ok = false
					return
				}
				f(&pathInfo{append([]lit{}, lits...), append([]*Event{}, evs...), e})
				return
			}
		}
		if nd.exit != "" {
			n++
			f(&pathInfo{append([]lit{}, lits...), append([]*Event{}, evs...), nil})
			return
		}
		on[nd] = true
		defer delete(on, nd)
		for _, e := range nd.succs {
			if !g.liveEdge[e] {
				continue
			}
			if on[e.to] && inside(e.to) {
				ok = false
				return
			}
			nl := len(lits)
			if c := g.cond(e); c != nil && !c.isBool() {
				l := lit{c, true}
				if c.op == ONot {
					l = lit{c.args[0], false}
				}
				if v, dec := g.T.decideUnder(lits, l.c); dec {
					if v != l.v {
						continue
					}
				} else {
					lits = append(lits, l)
				}
			}
			if inside(e.to) {
				rec(e.to, 0)
			} else if n++; n <= max {
				f(&pathInfo{append([]lit{}, lits...), append([]*Event{}, evs...), nil})
			} else {
				ok = false
			}
			lits = lits[:nl]
		}
	}
	rec(p.n, p.i)
	return ok
}

// owner of a style term: the element the styles are those of.
type owner struct {
	key  *Term // the element: an assertion to a kind, or a pointer to a cell
	base *Term // the styles
	what string
}

// ownerOf finds whose styles a base term is; nil if that is not evident.
func (g *Graph) ownerOf(base *Term) *owner {
	if s := asStyle(base); s != nil {
		var key *Term
		r := s.recv
		for r.op == OFAddr || r.op == OLoad || r.op == OField {
			r = r.args[0]
		}
		if r.op == OAssert {
			key = r
		}
		if key == nil {
			return nil
		}
		return &owner{key, base, "box"}
	}
	if t := g.typeOf(base); t != nil && strings.HasSuffix(typeKey(t), ".tableCell") {
		return &owner{base, base, "cell"}
	}
	return nil
}

// typeOf finds the type of the struct that base points to, by the fields that
// are selected from it.
func (g *Graph) typeOf(base *Term) types.Type {
	if g.baseTypes == nil {
		g.baseTypes = map[*Term]types.Type{}
	}
	return g.baseTypes[base]
}

func (g *Graph) noteBase(t *Term) {
	if g.baseTypes == nil {
		g.baseTypes = map[*Term]types.Type{}
	}
	walk(t, func(x *Term) bool {
		if (x.op == OFAddr || x.op == OField) && x.typ != nil {
			g.baseTypes[x.args[0]] = x.typ
		}
		return true
	})
}

// lastBefore collects, for the executions of e, the last event satisfying
// kind (nil: none).
func (g *Graph) lastBefore(e *Event, kind func(*Event) bool) []*Event {
	idx := map[*Event]int{}
	evs := []*Event{nil}
	for _, x := range g.evs(kind) {
		idx[x] = len(evs)
		evs = append(evs, x)
	}
	hit := map[int]bool{}
	fl := &flow{g: g}
	fl.step = func(x *Event, s int) (int, bool) {
		if x == e {
			hit[s] = true
		}
		if i, ok := idx[x]; ok {
			s = i
		}
		return s, false
	}
	fl.run(g.start(), 0)
	var out []*Event
	for i := range evs {
		if hit[i] {
			out = append(out, evs[i])
		}
	}
	return out
}

func pathIs(names []string, suffix ...string) bool {
	if len(names) < len(suffix) {
		return false
	}
	for i, s := range suffix {
		if names[len(names)-len(suffix)+i] != s {
			return false
		}
	}
	return true
}

func ruleC17(c *Ck) {
	for _, v := range []struct {
		kind, tag string
		as        Assume
	}{{"Box", "", assumeText}, {"Box", " without contents", emptyLists}, {"Table", "", assumeText}, {"Table", " without contents", emptyLists}} {
		kind := v.kind
		g := c.body(kind, "left", v.as)
		if v.tag != "" {
			g = c.process("body,"+kind+",left,empty", both(idle, assumeKind(kind), assumeHAlign("left"), v.as))
		}
		if g == nil {
			c.und("C17.entry", kind, "no rendering entry point")
			continue
		}
		kind += v.tag
		fs := g.evs(eng("FillRect"))
		if len(fs) == 0 {
			if v.tag != "" && v.kind == "Table" { // no rows
				continue
			}
			c.fail("C17.fill", kind, c.P.posStr(g.Entry.Pos()), "no rectangle is filled for a %s", strings.ToLower(kind))
			continue
		}
		for i, f := range fs {
			c.paint(g, kind, fmt.Sprintf("%s#%d", kind, i+1), f)
			c.alwaysPainted(g, fmt.Sprintf("%s#%d", kind, i+1), f)
		}
		// every stroke follows a fill
		for _, d := range g.evs(eng("DrawPath")) {
			fl := &flow{g: g}
			bad := false
			fl.step = func(x *Event, s int) (int, bool) {
				if eng("FillRect")(x) {
					s = 1
				}
				if eng("DrawPath")(x) {
					if x == d && s == 0 {
						bad = true
					}
					s = 0
				}
				return s, false
			}
			fl.run(g.start(), 0)
			c.expect(!bad, "C17.fill", kind+"/border", g.evPos(d), "a border is drawn without filling the rectangle first")
		}
	}
	// a box: the rectangle
	for _, fits := range []bool{true, false} {
		g := c.boxGraph(fits, "left")
		if g == nil {
			continue
		}
		el := c.topLoop(g)
		if el == nil {
			c.und("C17.rectangle", "Box", "no element loop")
			continue
		}
		stys := g.styleTerms(el.elem, "Box")
		if len(stys) == 0 {
			c.und("C17.rectangle", "Box", "no styles of the box")
			continue
		}
		for _, f := range g.evs(eng("FillRect")) {
			c.boxRect(g, stys, f, fits)
		}
	}
}

// alwaysPainted: whether a box or cell is painted does not depend on its size
// or its styles.
func (c *Ck) alwaysPainted(g *Graph, name string, f *Event) {
	var stop *Node
	if l := g.innermost(f.n); l != nil {
		stop = l.head
	}
	for _, cd := range g.condsWithin(f.n, stop) {
		if _, ok := g.fitCond(cd); ok {
			continue
		}
		what := ""
		walk(cd, func(x *Term) bool {
			switch x.op {
			case OLoad, OField:
				if x.typ != nil {
					break
				}
				_, ns := baseOfField(x)
				for _, n := range ns {
					switch n {
					case "Dimension", "Draw", "Color", "Box", "Table", "width", "height", "minHeight":
						what = strings.Join(ns, ".")
					}
				}
			case OLen:
				return false
			}
			return true
		})
		if contains(cd, func(x *Term) bool { return x.op == OPos && x.i == 0 }) {
			what = "a length"
		}
		switch {
		case what == "":
		case understoodIn(cd, nil):
			c.fail("C17.fill", name+"/always", g.evPos(f), "the rectangle is painted only if %s", clip(cd.String(), 300))
			return
		default:
			c.und("C17.fill", name+"/always", "the rectangle is painted only if %s", clip(cd.String(), 300))
			return
		}
	}
	c.ok("C17.fill", name+"/always")
}

// stylesOf picks, of several computations of the styles of an element, the
// one that t uses.
func usedStyle(stys []*Term, ts ...*Term) *Term {
	for _, s := range stys {
		for _, t := range ts {
			if t != nil && mentions(t, s) {
				return s
			}
		}
	}
	return stys[0]
}

// assumeFits decides the comparisons of the cursor with the lower margin.
func assumeFits(fits bool) Assume {
	return func(g *Graph, t *Term) (bool, bool) {
		s, ok := fitSign(t)
		if !ok {
			return false, false
		}
		// s > 0: the condition says that it does not fit
		return (s > 0) != fits, true
	}
}

// fitSign recognises a comparison of a vertical cursor position with the page
// height: the sign with which the position occurs.
func fitSign(t *Term) (int, bool) {
	if t.op != OPos || t.args[0].op != OPoly {
		return 0, false
	}
	page, y := 0, 0
	for _, m := range t.args[0].p.ms {
		if len(m.fs) != 1 || m.fs[0].e != 1 {
			continue
		}
		x := m.fs[0].t
		sg := m.c.Sign()
		switch {
		case x.op == OProj && x.args[0].op == OInv && x.args[0].s == engPfx+"GetXY" && x.i == 1:
			y = sg
		case x.op == OCall && x.s == engPfx+"PageHeight", x.op == OProj && x.args[0].op == OCall && x.args[0].s == engPfx+"PrintableArea" && x.i == 3:
			page = sg
		}
	}
	if page == 0 || y == 0 || page == y {
		return 0, false
	}
	return y, true
}

func (c *Ck) boxGraph(fits bool, halign string) *Graph {
	n := "fits"
	if !fits {
		n = "full"
	}
	return c.process("body,Box,"+n+","+halign, both(idle, assumeKind("Box"), assumeHAlign(halign), assumeFits(fits), assumeText))
}

// assumeText assumes that boxes have contents.
func assumeText(g *Graph, t *Term) (bool, bool) { return nonEmptyLists(g, t) }

// canonPage expresses the lower and right margin by the printable area.
func (g *Graph) canonPage(t *Term) *Term {
	m := map[*Term]*Term{}
	pa := func(i int) *Term { return g.pa(i) }
	if pa(0) == nil {
		return t
	}
	walk(t, func(x *Term) bool {
		if x.op == OProj && x.args[0].op == OCall && x.args[0].s == engPfx+"Margins" {
			e := x.args[0].args[0]
			pw, ph := g.T.call(engPfx+"PageWidth", e), g.T.call(engPfx+"PageHeight", e)
			switch x.i {
			case 0:
				m[x] = pa(0)
			case 1:
				m[x] = pa(1)
			case 2:
				m[x] = g.T.sub(pw, pa(2))
			case 3:
				m[x] = g.T.sub(ph, pa(3))
			}
		}
		return true
	})
	if len(m) == 0 {
		return t
	}
	return g.T.subst(t, m)
}

// effWidth is the width asked for, if set and available.
func (g *Graph) effWidth(w, avail *Term) *Term {
	T := g.T
	neg := T.lt(w, T.Zero, false)
	big := T.lt(avail, w, false)
	return T.ite(neg, avail, T.ite(big, avail, w))
}

// boxRect compares the filled rectangle of a top-level box.
func (c *Ck) boxRect(g *Graph, stys []*Term, f *Event, fits bool) {
	T := g.T
	as := g.evArgs(f)[1:]
	if len(as) != 4 {
		return
	}
	pos := g.evPos(f)
	tag := "fits"
	if !fits {
		tag = "on a new page"
	}
	var v [4]*Term
	for i := range v {
		v[i] = g.canonPage(g.cursorAt(f, g.simp(as[i])))
	}
	sty := usedStyle(stys, v[0], v[1], v[2])
	st := func(p ...string) *Term { return g.styF(sty, p...) }
	lw := st("Draw", "LineWidth")
	hl := T.scale(lw, ratOf(1, 2))
	x := T.add(T.atom("@cursor x"), st("Dimension", "OffsetX"))
	y := T.add(T.atom("@cursor y"), st("Dimension", "OffsetY"))
	w := g.effWidth(st("Dimension", "Width"), T.sub(g.pa(2), g.pa(0)))
	c.same("C17.rectangle", "left, "+tag, g, pos, "the left edge of the box", T.sub(v[0], hl), x)
	c.same("C17.rectangle", "top, "+tag, g, pos, "the top edge of the box", T.sub(v[1], hl), y)
	c.same("C17.rectangle", "width, "+tag, g, pos, "the width of the box", T.add(v[2], lw), w)
	h := st("Dimension", "Height")
	given := lit{T.pos(h, false), true}
	pads := T.add(st("Box", "Padding", "Top"), st("Box", "Padding", "Bottom"))
	c.same("C17.rectangle", "height, "+tag, g, pos, "the height of a box with a given height", T.add(v[3], lw), T.add(h, pads), given)
}

// paint checks one fill and the border that follows.
func (c *Ck) paint(g *Graph, kind, name string, f *Event) {
	T := g.T
	pos := g.evPos(f)
	as := g.evArgs(f)[1:]
	if len(as) != 4 {
		return
	}
	// colours and line width in force, with the paths of the pen
	type seg struct{ x0, y0, x1, y1 *Term }
	var base *Term
	check := func(rule string, e *Event, setter string, want ...string) {
		for _, s := range g.lastBefore(e, eng(setter)) {
			if s == nil {
				c.fail(rule, name, g.evPos(e), "%s was never called before %s", setter, engName(e))
				continue
			}
			ts := g.evArgs(s)[1:]
			var bs []*Term
			ok := true
			for i, t := range ts {
				b, ns := baseOfField(t)
				g.noteBase(t)
				var suf []string
				if setter == "SetLineWidth" {
					suf = want
				} else {
					suf = append(append([]string{}, want...), []string{"R", "G", "B"}[i])
				}
				if len(ns) == 0 {
					c.und(rule, name, "%s is given %s", setter, clip(t.String(), 200))
					ok = false
					break
				}
				if !pathIs(ns, suf...) {
					c.fail(rule, name, g.evPos(s), "%s is given the style %s", setter, strings.Join(ns, "."))
					ok = false
					break
				}
				bs = append(bs, b)
			}
			if !ok {
				continue
			}
			for _, b := range bs {
				if base == nil {
					base = b
				}
				if b != base {
					c.fail(rule, name, g.evPos(s), "%s is given the styles %s, others %s", setter, clip(b.String(), 200), clip(base.String(), 200))
					ok = false
				}
			}
			if ok {
				c.ok(rule, name+"/"+setter)
			}
		}
	}
	check("C17.colours", f, "SetFillColor", "Color", "Background")
	var strokes []*Event
	bad := ""
	// the line width at the time of filling (for the inset)
	lws := g.lastBefore(f, eng("SetLineWidth"))
	var lw *Term
	if len(lws) == 1 && lws[0] != nil {
		lw = g.evArgs(lws[0])[1]
	} else if base != nil {
		lw, _ = g.fpath(base, g.P.typ("style", "Styles"), "Draw", "LineWidth")
	}
	if lw == nil {
		c.und("C17.border", name, "the line width is not evident")
		return
	}
	hl := T.scale(lw, ratOf(1, 2))
	X, Y := T.sub(as[0], hl), T.sub(as[1], hl)
	X1, Y1 := T.add(X, T.add(as[2], lw)), T.add(Y, T.add(as[3], lw))
	edges := []struct {
		name string
		s    seg
		dx   bool
	}{
		{"Top", seg{X, Y, X1, Y}, true},
		{"Right", seg{X1, Y, X1, Y1}, false},
		{"Bottom", seg{X, Y1, X1, Y1}, true},
		{"Left", seg{X, Y, X, Y1}, false},
	}
	npaths := 0
	seenStroke := map[*Event]bool{}
	hlUp := T.neg(hl)
	near := func(a, b *Term) bool { return a == b || T.sub(a, b) == hl || T.sub(a, b) == hlUp }
	match := func(s seg, e seg, dx bool) bool {
		if dx {
			return s.y0 == e.y0 && s.y1 == e.y1 && near(s.x0, e.x0) && near(s.x1, e.x1)
		}
		return s.x0 == e.x0 && s.x1 == e.x1 && near(s.y0, e.y0) && near(s.y1, e.y1)
	}
	unclear := ""
	// the smallest expansion that contains the filling and the stroking
	anc := f.c
	for e := range g.reachable(g.after(f), eng("FillRect", "DrawPath")) {
		if eng("DrawPath")(e) {
			anc = commonCtx(anc, e.c)
		}
	}
	within := func(n *Node) bool { return n.c.under(anc) }
	ok := g.paths(g.after(f), func(e *Event) bool { return eng("DrawPath", "FillRect", "WritePDF", "WriteText", "AddPage")(e) }, within, 3000, func(p *pathInfo) {
		npaths++
		var px, py *Term
		var segs []seg
		for _, e := range p.evs {
			switch {
			case eng("MoveTo")(e):
				a := g.evArgs(e)
				px, py = a[1], a[2]
			case eng("LineTo")(e):
				a := g.evArgs(e)
				if px == nil {
					bad = "a line is drawn without a start, at " + g.evPos(e)
					return
				}
				segs = append(segs, seg{px, py, a[1], a[2]})
				px, py = a[1], a[2]
			case eng("SetX", "SetY", "LineFeed", "ChangeFont", "SetTextColor")(e):
			}
		}
		if p.end == nil || !eng("DrawPath")(p.end) {
			if len(segs) > 0 {
				bad = "the border is not stroked"
			}
			segs = nil
			if bad == "" {
				// no border at all may be drawn
				for _, ed := range edges {
					bt := borderOf(g, base, ed.name)
					if bt == nil {
						continue
					}
					if v, dec := T.decideUnder(p.lits, T.pos(bt, true)); !dec || v {
						bad = "nothing is stroked although the " + strings.ToLower(ed.name) + " border can be positive"
					}
				}
			}
			return
		}
		if !seenStroke[p.end] {
			seenStroke[p.end] = true
			strokes = append(strokes, p.end)
		}
		if base == nil {
			unclear = "the styles are not evident"
			return
		}
		used := make([]bool, len(segs))
		for _, ed := range edges {
			bt := borderOf(g, base, ed.name)
			if bt == nil {
				unclear = "no border style " + ed.name
				return
			}
			hit := false
			for i, s := range segs {
				if match(s, ed.s, ed.dx) || match(seg{s.x1, s.y1, s.x0, s.y0}, ed.s, ed.dx) {
					hit = true
					used[i] = true
				}
			}
			v, dec := T.decideUnder(p.lits, T.pos(bt, true))
			switch {
			case !dec && hit:
				bad = "the " + strings.ToLower(ed.name) + " border is drawn whether or not it is positive"
			case !dec:
				bad = "the " + strings.ToLower(ed.name) + " border is not drawn although it can be positive"
			case v && !hit:
				bad = "the " + strings.ToLower(ed.name) + " edge is not drawn although its border is positive"
			case !v && hit:
				bad = "the " + strings.ToLower(ed.name) + " edge is drawn although its border is not positive"
			}
		}
		for i, u := range used {
			if !u && segs[i].x0 == segs[i].x1 && segs[i].y0 == segs[i].y1 {
				used[i] = true
				u = true
			}
			if !u {
				s := segs[i]
				m := fmt.Sprintf("a line is drawn from (%s, %s) to (%s, %s), which is no edge of the rectangle filled", clip(s.x0.String(), 120), clip(s.y0.String(), 120), clip(s.x1.String(), 120), clip(s.y1.String(), 120))
				if bad == "" {
					bad = m
				}
			}
		}
	})
	switch {
	case bad != "" && (ok || npaths > 0):
		c.fail("C17.border", name, pos, "%s", bad)
	case !ok:
		c.und("C17.border", name, "the path of the pen is not evident")
	case unclear != "":
		c.und("C17.border", name, "%s", unclear)
	default:
		c.ok("C17.border", name)
	}
	for _, d := range strokes {
		check("C17.colours", d, "SetDrawColor", "Color", "Foreground")
		check("C17.colours", d, "SetLineWidth", "Draw", "LineWidth")
	}
	// whose styles
	if base == nil {
		c.und("C17.own-styles", name, "the styles are not evident")
		return
	}
	o := g.ownerOf(base)
	if o == nil {
		if base == first(g.styleState()) || asStyle(base) != nil {
			c.fail("C17.own-styles", name, pos, "painted with the styles %s", clip(base.String(), 200))
		} else {
			c.und("C17.own-styles", name, "painted with the styles %s", clip(base.String(), 200))
		}
		return
	}
	// the text drawn in it belongs to the same element
	for _, w := range g.writers() {
		if w.fill != f || w.iss == nil {
			continue
		}
		if o.what == "box" && contains(w.iss, func(t *Term) bool { return t.op == OAssert }) || o.what == "cell" {
			c.expect(mentions(w.iss, o.key), "C17.own-styles", name, pos, "painted with the styles of %s, but its text is %s", clip(o.key.String(), 200), clip(w.iss.String(), 200))
		}
	}
}

func first(t *Term, _ types.Type) *Term { return t }

func borderOf(g *Graph, base *Term, edge string) *Term {
	if base == nil {
		return nil
	}
	if o := g.ownerOf(base); o != nil && o.what == "cell" {
		ct := g.P.typ("", "tableCell")
		if ct == nil {
			return nil
		}
		a, _ := g.apath(base, ct, "Styles", "Box", "Border", edge)
		if a == nil {
			return nil
		}
		return g.T.load(a)
	}
	t, _ := g.fpath(base, g.P.typ("style", "Styles"), "Box", "Border", edge)
	return t
}

// writer is an expansion of a function that writes the text of a list.
type writer struct {
	ctx        *Ctx
	iss        *Term
	width, sty *Term
	fill       *Event // the last fill before
	first      *Event
}

// issArg finds the arguments of a text function: list, width, styles.
func (g *Graph) issArgs(k *Ctx) (iss, width, sty *Term) {
	sig := k.fn.Signature
	off := 0
	if sig.Recv() != nil {
		off = 1
	}
	for i := 0; i < sig.Params().Len() && i+off < len(k.args); i++ {
		t := sig.Params().At(i).Type()
		switch {
		case typeKey(t) == "[]"+modPath+"/xdoc.Instruction":
			iss = g.ref(k.args[i+off])
		case isFloatType(t):
			width = g.ref(k.args[i+off])
		case typeKey(t) == modPath+"/style.Styles":
			sty = g.ref(k.args[i+off])
		}
	}
	return
}

// writers lists the expansions of functions that write text themselves.
func (g *Graph) writers() []*writer {
	var out []*writer
	by := map[*Ctx]*writer{}
	for _, e := range g.evs(eng("WriteText")) {
		k := e.c
		for k != nil {
			iss, w, s := g.issArgs(k)
			if iss != nil {
				if by[k] == nil {
					wr := &writer{ctx: k, iss: iss, width: w, sty: s, first: e}
					by[k] = wr
					out = append(out, wr)
				}
				break
			}
			k = k.parent
		}
	}
	for _, w := range out {
		ls := g.lastBefore(w.first, eng("FillRect"))
		if len(ls) == 1 {
			w.fill = ls[0]
		} else {
			// the one that always precedes within an iteration
			for _, l := range ls {
				if l != nil && evDominates(l, w.first) {
					w.fill = l
				}
			}
		}
	}
	return out
}

func (k *Ctx) under(a *Ctx) bool {
	for ; k != nil; k = k.parent {
		if k == a {
			return true
		}
	}
	return false
}

func commonCtx(a, b *Ctx) *Ctx {
	for a != nil && !b.under(a) {
		a = a.parent
	}
	return a
}
