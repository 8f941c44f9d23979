package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

func init() {
	register("C18", "induction over the line breakers' loops for the widths and end marks of lines; value-flow terms and last-event dataflow for the positions at which lines and words are written, per alignment", ruleC18)
}

// head reads a field of the open line at a loop head.
func (lf *lineFn) head(p linePair, j int) *Term {
	li := p.i.data.(*loopInfo)
	if li.addr == nil || li.addr.op != OFAddr || li.addr.i != lf.fi {
		return nil
	}
	st := lf.line.Underlying().(*types.Struct)
	return lf.g.simp(lf.g.readAtHead(li, lf.g.T.faddr(li.addr.args[0], j, lf.line), st.Field(j).Type()))
}

func (lf *lineFn) back(p linePair, j int) *Term {
	li := p.i.data.(*loopInfo)
	if li.addr == nil || li.addr.op != OFAddr || li.addr.i != lf.fi {
		return nil
	}
	st := lf.line.Underlying().(*types.Struct)
	return lf.g.atBack(lf.g.loops[li.head], lf.g.T.faddr(li.addr.args[0], j, lf.line), st.Field(j).Type())
}

// entry is the value before the first way round a loop.
func (lf *lineFn) entry(h *Term) *Term {
	if h != nil && h.op == OLoopVar {
		i, _, _ := lf.g.loopInfo(h)
		return lf.g.simp(i)
	}
	return h
}

// verdict of a hypothesis: 1 proved, -1 refuted, 0 unknown.
type verdict struct {
	v   int
	why string
}

func (v *verdict) fail(msg string, as ...any) {
	if v.v >= 0 {
		v.v, v.why = -1, fmt.Sprintf(msg, as...)
	}
}

func (v *verdict) und(msg string, as ...any) {
	if v.v > 0 {
		v.v, v.why = 0, fmt.Sprintf(msg, as...)
	}
}

// bookkeeping decides by induction what a field of a line holds: "full" the
// width of the words with the blanks before them, "pure" that of the words
// alone, "ends" whether the line ends a paragraph.
func (lf *lineFn) bookkeeping(j int, hyp string) verdict {
	key := fmt.Sprintf("%d,%s", j, hyp)
	if v, ok := lf.books[key]; ok {
		return v
	}
	v := lf.bookkeep(j, hyp)
	if lf.books == nil {
		lf.books = map[string]verdict{}
	}
	lf.books[key] = v
	return v
}

func (lf *lineFn) bookkeep(j int, hyp string) verdict {
	g, T := lf.g, lf.g.T
	if lf.outer.l == nil {
		lf.contents(false)
	}
	res := verdict{v: 1}
	if lf.outer.l == nil || len(lf.words) == 0 {
		res.und("the loops are not understood")
		return res
	}
	pairs := []linePair{lf.outer}
	for _, w := range lf.words {
		pairs = append(pairs, w.pair)
	}
	heads := map[*Term]*Term{}
	hypo := map[*Term]*Term{}
	for _, p := range pairs {
		h := lf.head(p, j)
		if h == nil {
			res.und("the open line is not a variable")
			return res
		}
		heads[p.i] = h
		if hyp == "ends" && h.op == OLoopVar {
			hypo[h] = T.False // induction hypothesis
		}
	}
	zero := T.Zero
	if hyp == "ends" {
		zero = T.False
	}
	fieldOf := func(line *Term) *Term {
		if line.op == OLoopVar {
			st := lf.line.Underlying().(*types.Struct)
			return g.simp(g.fieldOf(line, j, lf.line, st.Field(j).Type()))
		}
		return g.simp(T.field(line, j, lf.line))
	}
	// step checks one transition: what the lines and the open line hold
	// after it, and the field of the open line.
	step := func(what string, nl, ni, of *Term, loop *Loop, end *Term, texts bool) {
		ls, ok := g.leaves([]*Term{nl, ni, of})
		if !ok {
			res.und("too many cases")
			return
		}
		for _, l := range ls {
			tl, ok1 := lf.flat(l.ts[0])
			ti, ok2 := lf.flatItems(l.ts[1])
			if !ok1 || !ok2 {
				res.und("%s: the lines are not understood", what)
				continue
			}
			lf.stepLeaf(&res, hyp, what, append(append([]tok{}, tl...), ti...), []*Term{nl, ni, of}, l.ts, l.lits, loop, end, zero, heads, hypo, fieldOf)
		}
	}
	// start
	il, _, _ := g.loopInfo(lf.outer.l)
	ii, _, _ := g.loopInfo(lf.outer.i)
	step("at the start", g.simp(il), g.simp(ii), lf.entry(heads[lf.outer.i]), nil, zero, false)
	// elements
	_, nl, oh := g.loopInfo(lf.outer.l)
	_, ni, _ := g.loopInfo(lf.outer.i)
	step("after an element", g.simp(nl), g.simp(ni), lf.back(lf.outer, j), g.loops[oh], T.True, false)
	// words
	for _, w := range lf.words {
		il, nl, _ := g.loopInfo(w.pair.l)
		ii, ni, _ := g.loopInfo(w.pair.i)
		step("before the words", g.simp(il), g.simp(ii), lf.entry(heads[w.pair.i]), nil, T.True, false)
		step("after a word", g.simp(nl), g.simp(ni), lf.back(w.pair, j), w.loop, T.False, true)
	}
	// result
	for _, r := range lf.results {
		lf.stepLeaf(&res, hyp, "at the end", r.toks, nil, nil, r.lits, nil, T.True, zero, heads, hypo, fieldOf)
	}
	return res
}

func (lf *lineFn) stepLeaf(res *verdict, hyp, what string, toks []tok, orig, leafs []*Term, lits []lit, loop *Loop, end, zero *Term, heads, hypo map[*Term]*Term, fieldOf func(*Term) *Term) {
	g, T := lf.g, lf.g.T
	// the texts and fields involved
	ts := []*Term{}
	for _, t := range toks {
		switch t.k {
		case 'e':
			if loop == nil {
				res.und("%s: words are added", what)
				return
			}
			ts = append(ts, lf.itemField(loop, t.t, lf.ft))
		case 'B':
			ts = append(ts, fieldOf(t.t))
		}
	}
	n := len(ts)
	ts = append(ts, orig...)
	for i := range ts[:n] {
		if len(hypo) > 0 {
			ts[i] = g.simp(T.subst(ts[i], hypo))
		}
	}
	ls, ok := g.leaves(ts, lits...)
	if !ok {
		res.und("too many cases")
		return
	}
	for _, l := range ls {
		// the case at hand
		if len(orig) > 0 && (l.ts[n] != leafs[0] || l.ts[n+1] != leafs[1] || l.ts[n+2] != leafs[2]) {
			continue
		}
		k := 0
		want := zero
		var texts []*Term
		for _, t := range toks {
			switch t.k {
			case 'I':
				want = heads[t.t]
				if want == nil {
					res.und("%s: unknown open line", what)
					return
				}
			case 'e':
				texts = append(texts, l.ts[k])
				k++
			case 'B':
				lf.fieldIs(res, hyp, what, l.ts[k], want, texts, end)
				k++
				want, texts = zero, nil
			}
		}
		if len(orig) > 0 {
			of := l.ts[n+2]
			if len(hypo) > 0 {
				of = g.simp(T.subst(of, hypo))
			}
			lf.fieldIs(res, hyp, what, of, want, texts, zero)
		}
	}
}

// fieldIs checks one value of the field.
func (lf *lineFn) fieldIs(res *verdict, hyp, what string, got, want *Term, texts []*Term, end *Term) {
	T := lf.g.T
	known := func(t *Term) bool {
		return !contains(t, func(x *Term) bool { return x.op == OAtom || x.op == OClobber || x.op == OBottom })
	}
	if hyp == "ends" {
		switch {
		case got == end:
		case got == T.True || got == T.False:
			res.fail("%s a line is marked %v", what, got)
		default:
			res.und("%s the mark is %s", what, clip(got.String(), 120))
		}
		return
	}
	d := T.toPoly(T.sub(got, want))
	left := append([]*Term{}, texts...)
	for _, m := range d.ms {
		x := (*Term)(nil)
		if len(m.fs) == 1 && m.fs[0].e == 1 && m.c.Cmp(big.NewRat(1, 1)) == 0 {
			x = m.fs[0].t
		}
		hit := -1
		if x != nil && x.op == OInv && strings.Contains(x.s, "TextWidth") && len(x.args) > 0 {
			a := x.args[len(x.args)-1]
			for i, t := range left {
				if T.core(a) != T.core(t) {
					continue
				}
				ab := blanks(a)
				switch {
				case hyp == "full" && ab <= 1 && ab >= blanks(t), hyp == "pure" && ab == 0:
					hit = i
				}
			}
		}
		if hit < 0 {
			t := T.fromPoly(&poly{ms: []mono{m}, c: new(big.Rat)})
			if known(t) {
				res.fail("%s %s is added to the width of a line, not that of %v", what, t.String(), texts)
			} else {
				res.und("%s the width is %s", what, clip(got.String(), 200))
			}
			return
		}
		left = append(left[:hit:hit], left[hit+1:]...)
	}
	if d.c.Sign() != 0 {
		res.fail("%s the width of a line grows by %s", what, d.c.FloatString(3))
	}
	if len(left) > 0 {
		if known(got) {
			res.fail("%s the width of %s is not added to that of the line", what, clip(left[0].String(), 200))
		} else {
			res.und("%s the width is %s", what, clip(got.String(), 200))
		}
	}
}

// blanks counts the blanks added before a text.
func blanks(t *Term) int {
	if t.op == OConcat && t.args[0].isStr() {
		return len(t.args[0].s) - len(strings.TrimLeft(t.args[0].s, " "))
	}
	return 0
}

// ---- drawing

// sibling reads another field of the line whose items are given.
func (lf *lineFn) sibling(T *Terms, items *Term, j int) *Term {
	for items.op == OSlice {
		items = items.args[0]
	}
	if items.op == OField {
		return T.field(items.args[0], j, lf.line)
	}
	return T.load(T.faddr(items.args[0].args[0], j, lf.line))
}

// lineFnOf is the breaker whose lines are drawn.
func (c *Ck) lineFnOf(g *Graph, w *writer) *lineFn {
	for _, b := range g.breakers() {
		if b.drawn == nil || b.drawn.ctx != w.ctx {
			continue
		}
		for _, lf := range c.lineFns() {
			if lf.fn == b.ctx.fn {
				return lf
			}
		}
	}
	return nil
}

func ruleC18(c *Ck) {
	for _, ha := range []string{"left", "center", "right", "block", "other"} {
		for _, kind := range []string{"Text", "Box", "Table"} {
			g := c.textGraph(kind, ha)
			if g == nil {
				c.und("C18.start", kind+" "+ha, "no rendering entry point")
				continue
			}
			c.alignment(g, kind, ha)
		}
	}
	c.verticalAlign()
}

func (c *Ck) alignment(g *Graph, kind, ha string) {
	ds := g.lineDraws()
	if len(ds) == 0 {
		c.und("C18.start", kind+" "+ha, "no text is written")
		return
	}
	byW := map[*writer][]*lineDraw{}
	ws := g.writers()
	for _, d := range ds {
		if d.lineL == nil || d.itemL == nil || d.lineL == d.itemL {
			c.und("C18.start", kind+" "+ha, "what is written is not understood: %s", clip(d.text.String(), 200))
			continue
		}
		for _, w := range ws {
			if d.ev.c.under(w.ctx) {
				byW[w] = append(byW[w], d)
			}
		}
	}
	for _, w := range ws {
		if len(byW[w]) > 0 {
			c.alignWriter(g, w, byW[w], kind, ha)
		}
	}
}

func (c *Ck) alignWriter(g *Graph, w *writer, ds []*lineDraw, kind, ha string) {
	T := g.T
	name := kind + " " + ha + " " + fnName(w.ctx.fn)
	lf := c.lineFnOf(g, w)
	if lf == nil {
		c.und("C18.start", name, "the line breaker is not evident")
		return
	}
	W := g.simp(w.width)
	lineL := ds[0].lineL
	for _, d := range ds {
		if d.lineL != lineL {
			c.und("C18.start", name, "several loops over lines")
			return
		}
	}
	mv := func(e *Event) bool { return engEffect(e) && moves[engName(e)] }
	byLoop := map[*Loop]*lineDraw{}
	var loops []*Loop
	for _, d := range ds {
		if byLoop[d.itemL] == nil {
			byLoop[d.itemL] = d
			loops = append(loops, d.itemL)
		}
	}
	// where lines start
	before := g.lastAtLoops(lineL, loops, mv)
	for _, il := range loops {
		d := byLoop[il]
		for _, e := range before[il] {
			pos := g.evPos(d.ev)
			switch {
			case e == nil:
				c.und("C18.start", name, "the position is not set")
			case engName(e) == "SetX" && lineL.body[e.n]:
				c.startsAt(g, lf, w, d, e, ha, name, W)
			case lineL.body[e.n]:
				c.fail("C18.start", name, pos, "lines start where %s leaves the cursor (%s)", engName(e), g.evPos(e))
			default:
				c.und("C18.start", name, "the first line starts where %s at %s puts it", engName(e), g.evPos(e))
			}
		}
	}
	// gaps within lines
	for _, d := range ds {
		pos := g.evPos(d.ev)
		for _, e := range g.betweenWords(d, mv) {
			switch {
			case !d.trims:
				if e.callee == d.ev.callee {
					c.ok("C18.gaps", name+": words follow each other")
				} else if engName(e) == "SetX" {
					c.fail("C18.gaps", name, pos, "words with their blanks are moved by SetX at %s", g.evPos(e))
				} else {
					c.fail("C18.gaps", name, pos, "%s between the words of a line", engName(e))
				}
			case engName(e) != "SetX":
				c.fail("C18.gaps", name, pos, "words without blanks follow each other without a gap (%s)", engName(e))
			default:
				c.gap(g, lf, w, d, e, name, W)
			}
		}
	}
	// which lines are spread
	if ha == "block" {
		c.spread(g, lf, lineL, ds, name)
	} else {
		for _, d := range ds {
			if d.trims {
				c.fail("C18.gaps", name, g.evPos(d.ev), "words are written without their blanks")
			}
		}
	}
	// line feeds
	lo, hi := 9, 0
	early := false
	fl := &flow{g: g}
	feed := eng("LineFeed")
	wr := map[*Event]bool{}
	for _, d := range ds {
		wr[d.ev] = true
	}
	fl.step = func(e *Event, s int) (int, bool) {
		if feed(e) {
			s = min(s+1, 3)
		}
		if wr[e] && s > 0 {
			early = true
		}
		return s, false
	}
	fl.edge = func(e *Edge, s int) (int, bool) {
		if e.to == lineL.head {
			lo, hi = min(lo, s), max(hi, s)
			return s, false
		}
		return s, lineL.body[e.to]
	}
	fl.run(point{lineL.head, 0}, 0)
	pos := g.loopPos(lineL)
	switch {
	case lo == 1 && hi == 1 && !early:
		c.ok("C18.feed", name)
	case early:
		c.fail("C18.feed", name, pos, "words are written after the line feed of their line")
	default:
		c.fail("C18.feed", name, pos, "a line is followed by %d to %d line feeds", lo, hi)
	}
	for _, e := range g.evs(feed) {
		if !lineL.body[e.n] {
			continue
		}
		as := g.evArgs(e)
		sty := g.simp(w.sty)
		want := g.styleField(sty, "Dimension", "LineSpacing")
		if want == nil {
			c.und("C18.feed", name+" spacing", "no such style")
			continue
		}
		c.same("C18.feed", name+" spacing", g, g.evPos(e), "the line feed", as[1], want)
	}
	_ = T
}

// styleField reads a property of styles.
func (g *Graph) styleField(sty *Term, path ...string) *Term {
	typ := g.P.typ("style", "Styles")
	if typ == nil {
		return nil
	}
	t := sty
	var cur types.Type = typ
	for _, n := range path {
		st, ok := cur.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		found := false
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				t = g.T.field(t, i, cur)
				cur = st.Field(i).Type()
				found = true
				break
			}
		}
		if !found {
			return nil
		}
	}
	return g.simp(t)
}

// lastAtLoops: the last event of a kind when a loop is entered from the body
// of an outer one.
func (g *Graph) lastAtLoops(outer *Loop, loops []*Loop, kind func(*Event) bool) map[*Loop][]*Event {
	idx := map[*Event]int{}
	evs := []*Event{nil}
	for _, x := range g.evs(kind) {
		idx[x] = len(evs)
		evs = append(evs, x)
	}
	hit := map[*Loop]map[int]bool{}
	fl := &flow{g: g}
	fl.step = func(x *Event, s int) (int, bool) {
		if i, ok := idx[x]; ok {
			s = i
		}
		return s, false
	}
	fl.edge = func(e *Edge, s int) (int, bool) {
		for _, l := range loops {
			if e.to == l.head && !l.body[e.from] {
				if hit[l] == nil {
					hit[l] = map[int]bool{}
				}
				hit[l][s] = true
			}
		}
		return s, true
	}
	fl.run(g.start(), 0)
	out := map[*Loop][]*Event{}
	for l, m := range hit {
		var is []int
		for i := range m {
			is = append(is, i)
		}
		sort.Ints(is)
		for _, i := range is {
			out[l] = append(out[l], evs[i])
		}
	}
	return out
}

// cursorX is the x coordinate of the cursor at an event, if t is that.
func cursorX(t *Term) *Event {
	if t.op == OProj && t.i == 0 && t.args[0].op == OInv && strings.HasSuffix(strings.SplitN(t.args[0].s, "#", 2)[0], "Engine.GetXY") {
		ev, _ := t.args[0].data.(*Event)
		return ev
	}
	return nil
}

// betweenWords: the last event of a kind before a word that is not the first
// of its line.
func (g *Graph) betweenWords(d *lineDraw, kind func(*Event) bool) (out []*Event) {
	T := g.T
	l := d.itemL
	iv := T.mk(&Term{op: OIV, i: l.head.id, data: l})
	facts := [2][]lit{nil, {{T.lt(T.Zero, iv, true), true}}}
	if n := g.count(l); n != nil {
		facts[0] = append(facts[0], lit{T.lt(T.add(iv, T.One), n, true), true})
		facts[1] = append(facts[1], lit{T.lt(iv, n, true), true})
	}
	evs := g.evs(kind)
	idx := map[*Event]int{}
	for i, e := range evs {
		idx[e] = i
	}
	hit := map[int]bool{}
	fl := &flow{g: g}
	fl.step = func(x *Event, s int) (int, bool) {
		if x == d.ev {
			hit[s/2] = true
			return s, true
		}
		if i, ok := idx[x]; ok {
			s = i*2 + s%2
		}
		return s, false
	}
	fl.edge = func(e *Edge, s int) (int, bool) {
		if !l.body[e.to] {
			return s, false
		}
		if cd := g.cond(e); cd != nil {
			ts := []*Term{cd}
			for _, f := range facts[s%2] {
				ts = append(ts, f.c)
			}
			if ls, ok := g.leaves(ts); ok {
				live := false
				for _, x := range ls {
					if x.ts[0] == T.False {
						continue
					}
					lits := x.lits
					for _, f := range x.ts[1:] {
						lits = append(lits, lit{f, true})
					}
					if v, ok := T.decideUnder(lits, x.ts[0]); !ok || v {
						live = true
					}
				}
				if !live {
					return s, false
				}
			}
		}
		if e.to == l.head {
			return s | 1, s%2 == 0
		}
		return s, true
	}
	fl.run(g.after(d.ev), idx[d.ev]*2)
	for i := range evs {
		if hit[i] {
			out = append(out, evs[i])
		}
	}
	return
}

// movedIn finds a movement of the cursor within an expansion before an event.
func (g *Graph) movedIn(k *Ctx, ev *Event) (found *Event) {
	ms := g.evs(func(e *Event) bool { return engEffect(e) && moves[engName(e)] && e.c.under(k) })
	idx := map[*Event]int{}
	for i, m := range ms {
		idx[m] = i + 1
	}
	fl := &flow{g: g}
	fl.step = func(x *Event, s int) (int, bool) {
		if x == ev && s > 0 {
			found = ms[s-1]
		}
		if i, ok := idx[x]; ok {
			s = i
		}
		return s, false
	}
	fl.edge = func(e *Edge, s int) (int, bool) {
		if e.to == k.entry {
			s = 0
		}
		return s, true
	}
	fl.run(g.start(), 0)
	return
}

// lineAtom names the line in terms.
func (lf *lineFn) abstract(T *Terms, p *place, ts ...*Term) []*Term {
	m := map[*Term]*Term{}
	names := []string{}
	st := lf.line.Underlying().(*types.Struct)
	for j := 0; j < st.NumFields(); j++ {
		names = append(names, st.Field(j).Name())
		if j == lf.fi {
			m[lf.sibling(T, p.items, j)] = T.atom("@words")
			continue
		}
		m[lf.sibling(T, p.items, j)] = T.atom("@line." + names[j])
	}
	out := []*Term{}
	for _, t := range ts {
		out = append(out, T.subst(t, m))
	}
	return out
}

func (c *Ck) startsAt(g *Graph, lf *lineFn, w *writer, d *lineDraw, e *Event, ha, name string, W *Term) {
	T := g.T
	rule := "C18.start"
	pos := g.evPos(e)
	arg := g.evArgs(e)[1]
	var x *Term
	two := false
	walk(arg, func(t *Term) bool {
		if cursorX(t) != nil {
			if x != nil && x != t {
				two = true
			}
			x = t
			return false
		}
		return true
	})
	if x == nil || two {
		if x == nil && understood(arg) && !contains(arg, func(t *Term) bool { return t.op == OParam }) {
			c.fail(rule, name, pos, "lines start at %s, not at the left edge of their area", clip(arg.String(), 200))
			return
		}
		if ls, ok := g.leaves([]*Term{d.core, arg, W}); ok && x == nil {
			for _, l := range ls {
				p := placeOf(l.ts[0])
				if p == nil {
					break
				}
				as := lf.abstract(T, p, l.ts[1], l.ts[2])
				used := []*Term{as[1]}
				st := lf.line.Underlying().(*types.Struct)
				for j := 0; j < st.NumFields(); j++ {
					used = append(used, T.atom("@line."+st.Field(j).Name()))
				}
				m := map[*Term]*Term{}
				for _, u := range used {
					m[u] = T.Zero
				}
				if T.subst(as[0], m) == T.Zero {
					c.fail(rule, name, pos, "lines start at %s, whatever the left edge of their area", clip(as[0].String(), 200))
					return
				}
			}
		}
		c.und(rule, name, "the left edge is not evident in %s", clip(arg.String(), 200))
		return
	}
	ev := cursorX(x)
	if m := g.movedIn(w.ctx, ev); m != nil {
		c.fail(rule, name, pos, "the left edge is read at %s after %s moved the cursor", g.evPos(ev), engName(m))
		return
	}
	ls, ok := g.leaves([]*Term{d.core, arg, W}, g.factsAt(e.n)...)
	if !ok {
		c.und(rule, name, "too many cases")
		return
	}
	for _, l := range ls {
		p := placeOf(l.ts[0])
		if p == nil {
			c.und(rule, name, "not understood")
			return
		}
		off := T.sub(l.ts[1], x)
		r := big.NewRat(0, 1)
		switch ha {
		case "center":
			r = big.NewRat(1, 2)
		case "right":
			r = big.NewRat(1, 1)
		}
		if r.Sign() == 0 {
			as := lf.abstract(T, p, off)
			c.same(rule, name, g, pos, "the offset of a line", as[0], T.Zero, l.lits...)
			continue
		}
		// off = r*(W - width of the line)
		lw := T.sub(l.ts[2], T.scale(off, new(big.Rat).Inv(r)))
		j := lf.fieldIdx(T, p, lw)
		if j < 0 {
			// compare with the field that holds the width
			best := -1
			st := lf.line.Underlying().(*types.Struct)
			for k := 0; k < st.NumFields(); k++ {
				if isFloatType(st.Field(k).Type()) && lf.bookkeeping(k, "full").v > 0 {
					best = k
					break
				}
			}
			if best < 0 {
				c.und(rule, name, "the width of a line is not evident: %s", clip(lw.String(), 200))
				continue
			}
			want := T.scale(T.sub(l.ts[2], lf.sibling(T, p.items, best)), r)
			as := lf.abstract(T, p, off, want)
			c.same(rule, name, g, pos, "the offset of a line", as[0], as[1], l.lits...)
			continue
		}
		c.report(rule, name, pos, lf.bookkeeping(j, "full"))
	}
}

func (c *Ck) report(rule, name, pos string, v verdict) {
	switch v.v {
	case 1:
		c.ok(rule, name)
	case -1:
		c.fail(rule, name, pos, "%s", v.why)
	default:
		c.und(rule, name, "%s", v.why)
	}
}

// fieldIdx tells which field of the line a term is.
func (lf *lineFn) fieldIdx(T *Terms, p *place, t *Term) int {
	st := lf.line.Underlying().(*types.Struct)
	for j := 0; j < st.NumFields(); j++ {
		if j != lf.fi && lf.sibling(T, p.items, j) == t {
			return j
		}
	}
	return -1
}

func (c *Ck) gap(g *Graph, lf *lineFn, w *writer, d *lineDraw, e *Event, name string, W *Term) {
	T := g.T
	rule := "C18.gaps"
	pos := g.evPos(e)
	arg := g.evArgs(e)[1]
	var x *Term
	walk(arg, func(t *Term) bool {
		if ev := cursorX(t); ev != nil && x == nil {
			for _, m := range g.lastBefore(ev, func(e *Event) bool { return engEffect(e) && moves[engName(e)] }) {
				if m == d.ev {
					x = t
				}
			}
			return false
		}
		return true
	})
	if x == nil {
		if understood(arg) {
			c.fail(rule, name, pos, "the next word does not start after the one before: %s", clip(arg.String(), 200))
			return
		}
		c.und(rule, name, "the end of the word before is not evident in %s", clip(arg.String(), 200))
		return
	}
	ls, ok := g.leaves([]*Term{d.core, arg, W}, g.factsAt(e.n)...)
	if !ok {
		c.und(rule, name, "too many cases")
		return
	}
	for _, l := range ls {
		p := placeOf(l.ts[0])
		if p == nil {
			c.und(rule, name, "not understood")
			return
		}
		gap := T.sub(l.ts[1], x)
		n1 := T.sub(T.len(p.items), T.One)
		st := lf.line.Underlying().(*types.Struct)
		done := false
		for j := 0; j < st.NumFields() && !done; j++ {
			if !isFloatType(st.Field(j).Type()) {
				continue
			}
			want := T.div(T.sub(l.ts[2], lf.sibling(T, p.items, j)), n1)
			diff := T.toPoly(T.sub(gap, want))
			c0 := new(big.Rat)
			if len(diff.ms) == 1 && diff.c.Sign() == 0 {
				one := T.toPoly(T.div(T.One, n1))
				if T.fromPoly(&poly{ms: []mono{{diff.ms[0].fs, one.ms[0].c}}, c: new(big.Rat)}) != T.div(T.One, n1) {
					continue
				}
				c0.Quo(diff.ms[0].c, one.ms[0].c)
			} else if len(diff.ms) != 0 || diff.c.Sign() != 0 {
				continue
			}
			done = true
			if c0.Sign() > 0 || c0.Cmp(big.NewRat(-1, 2)) < 0 {
				c.fail(rule, name, pos, "the words are spread over the width plus %s", c0.FloatString(3))
				continue
			}
			c.report(rule, name+": words spread", pos, lf.bookkeeping(j, "pure"))
		}
		if done {
			continue
		}
		for j := 0; j < st.NumFields(); j++ {
			if isFloatType(st.Field(j).Type()) && lf.bookkeeping(j, "pure").v > 0 {
				want := T.div(T.sub(T.sub(l.ts[2], lf.sibling(T, p.items, j)), T.num(big.NewRat(1, 10))), n1)
				as := lf.abstract(T, p, gap, want)
				c.same(rule, name, g, pos, "the gap between words", as[0], as[1], l.lits...)
				done = true
				break
			}
		}
		if !done {
			c.und(rule, name, "the gap is %s", clip(gap.String(), 200))
		}
	}
}

// spread: the lines whose words are spread are those of at least two words
// that do not end a paragraph.
func (c *Ck) spread(g *Graph, lf *lineFn, lineL *Loop, ds []*lineDraw, name string) {
	T := g.T
	rule := "C18.spread"
	type way struct{ lits []lit }
	target := map[*Node]*lineDraw{}
	for _, d := range ds {
		n := d.itemL.head
		for _, o := range ds {
			if o != d && o.itemL == d.itemL {
				// decided word by word
				n = d.ev.n
			}
		}
		target[n] = d
	}
	st := lf.line.Underlying().(*types.Struct)
	budget := 3000
	seen := map[*Node]bool{}
	some := false
	var rec func(n *Node, lits []lit)
	rec = func(n *Node, lits []lit) {
		if budget--; budget < 0 || seen[n] {
			return
		}
		seen[n] = true
		defer delete(seen, n)
		for _, e := range n.succs {
			if !g.liveEdge[e] || e.to == lineL.head || !lineL.body[e.to] {
				continue
			}
			ls := lits
			if cd := g.cond(e); cd != nil {
				ls = append(append([]lit{}, lits...), lit{cd, true})
			}
			if d := target[e.to]; d != nil {
				some = true
				c.spreadWay(g, lf, d, ls, st, name)
				continue
			}
			rec(e.to, ls)
		}
	}
	rec(lineL.head, nil)
	if budget < 0 || !some {
		c.und(rule, name, "the ways to the words are not evident")
	}
	_ = T
}

func (c *Ck) spreadWay(g *Graph, lf *lineFn, d *lineDraw, lits []lit, st *types.Struct, name string) {
	T := g.T
	rule := "C18.spread"
	pos := g.evPos(d.ev)
	ts := []*Term{d.core}
	for _, l := range lits {
		ts = append(ts, l.c)
	}
	leafs, ok := g.leaves(ts)
	if !ok {
		c.und(rule, name, "too many cases")
		return
	}
	for _, l := range leafs {
		p := placeOf(l.ts[0])
		if p == nil {
			c.und(rule, name, "not understood")
			return
		}
		facts := append([]lit{}, l.lits...)
		dead := false
		for i, x := range lits {
			cd := l.ts[i+1]
			if cd == T.True && !x.v || cd == T.False && x.v {
				dead = true
			}
			if cd == T.True || cd == T.False {
				continue
			}
			facts = append(facts, lit{cd, x.v})
		}
		if dead || T.contradictory(facts) {
			continue
		}
		two := T.lt(T.One, T.len(p.items), true)
		// the mark of lines that end a paragraph
		var marks []*Term
		why := ""
		for j := 0; j < st.NumFields(); j++ {
			if b, ok := st.Field(j).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				switch v := lf.bookkeeping(j, "ends"); v.v {
				case 1:
					marks = append(marks, lf.sibling(T, p.items, j))
				case -1:
					// relevant only if it decides here
					if contains(T.seq("", nil), func(*Term) bool { return false }) || usesAny(facts, lf.sibling(T, p.items, j)) {
						c.fail(rule, name+" mark", pos, "%s", v.why)
						return
					}
				default:
					why = v.why
				}
			}
		}
		if len(marks) == 0 {
			if why != "" {
				c.und(rule, name, "%s", why)
			} else {
				c.und(rule, name, "no mark for the end of a paragraph")
			}
			return
		}
		m := marks[0]
		v2, k2 := T.decideUnder(facts, two)
		vm, km := m == T.True, m == T.True || m == T.False
		if !km {
			vm, km = T.decideUnder(facts, m)
		}
		if d.trims {
			if k2 && v2 && km && !vm {
				c.ok(rule, name+": spread lines")
			} else if k2 && v2 || km && !vm {
				c.fail(rule, name, pos, "words are spread in %s if %s", map[bool]string{true: "lines that can end a paragraph", false: "lines of less than two words"}[k2 && v2], clip(leaf{lits: facts}.String(), 200))
			} else {
				c.fail(rule, name, pos, "words are spread whatever the line if %s", clip(leaf{lits: facts}.String(), 200))
			}
			continue
		}
		// not spread: fewer words or the end of a paragraph
		if k2 && !v2 || km && vm {
			c.ok(rule, name+": other lines")
			continue
		}
		if T.contradictory(append(append([]lit{}, facts...), lit{two, true}, lit{m, false})) {
			c.ok(rule, name+": other lines")
			continue
		}
		c.fail(rule, name, pos, "the words of a line are not spread if %s", clip(leaf{lits: facts}.String(), 200))
	}
}

func usesAny(ls []lit, t *Term) bool {
	for _, l := range ls {
		if contains(l.c, func(x *Term) bool { return x == t }) {
			return true
		}
	}
	return false
}

// assumeVAlign fixes the vertical alignment.
func assumeVAlign(val string) Assume {
	return func(g *Graph, t *Term) (bool, bool) {
		if t.op == OEq {
			if x, k, ok := eqConst(t); ok && k.isStr() {
				switch k.s {
				case "top", "middle", "bottom":
					if g.foreign(x) {
						return false, false
					}
					return k.s == val, true
				}
			}
		}
		return false, false
	}
}

// verticalAlign: the text of a cell starts at the top, in the middle or at
// the bottom of the padded cell.
func (c *Ck) verticalAlign() {
	rule := "C18.vertical"
	for _, ha := range []string{"left", "block"} {
		for _, va := range []string{"top", "middle", "bottom", "other"} {
			g := c.process("vert,"+ha+","+va, both(idle, assumeKind("Table"), assumeHAlign(ha), assumeText, assumeVAlign(va)))
			if g == nil {
				c.und(rule, va, "no rendering entry point")
				continue
			}
			n := 0
			for _, w := range g.writers() {
				if w.fill == nil {
					continue
				}
				x, y, _, h, base := g.rect(w.fill)
				if x == nil || base == nil {
					continue
				}
				if o := g.ownerOf(base); o == nil || o.what != "cell" {
					continue
				}
				n++
				c.vertical(g, w, y, h, base, ha, va)
			}
			if n == 0 {
				c.und(rule, ha+" "+va, "no text of a cell found")
			}
		}
	}
}

func (c *Ck) vertical(g *Graph, w *writer, y, h, base *Term, ha, va string) {
	T := g.T
	rule := "C18.vertical"
	name := "cell " + ha + " " + va
	pt, pb := g.cellSty(base, "Box", "Padding", "Top"), g.cellSty(base, "Box", "Padding", "Bottom")
	if pt == nil || pb == nil {
		c.und(rule, name, "the padding is not evident")
		return
	}
	m := map[*Term]*Term{}
	for _, b := range g.breakers() {
		if b.drawn == nil && b.res != nil && g.cellOf(b.iss) == base && kindOf(elemOf(b.iss)) != "Box" {
			m[T.len(b.res)] = T.atom("@number of lines")
		}
	}
	want := T.add(y, pt)
	th := g.linesHeight(g.cellSty(base, "Dimension", "LineSpacing"))
	rest := T.sub(T.sub(T.sub(h, pt), pb), th)
	switch va {
	case "middle":
		want = T.add(want, T.scale(rest, ratOf(1, 2)))
	case "bottom":
		want = T.add(want, rest)
	}
	// the rectangle as quantities of its own
	for n, t := range map[string]*Term{"@painted top": y, "@painted height": h} {
		if t.op == OLoopVar {
			m[t] = T.atom(n)
		}
	}
	norm := func(t *Term) *Term { return g.fontHeights(T.subst(g.cursorAt(w.fill, g.simp(t)), m)) }
	for _, e := range g.lastAtEntry(w.fill, w.ctx.entry, "SetY") {
		if e == nil || engName(e) != "SetY" {
			c.fail(rule, name, g.evPos(w.first), "the text is written where %v left the cursor", e)
			continue
		}
		c.same(rule, name, g, g.evPos(e), "the top of the text", norm(g.evArgs(e)[1]), norm(want))
	}
}
