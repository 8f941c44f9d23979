package main

import (
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C11", "induction over the cutting loop on value-flow terms: each part continues where the last one ended; cut positions, weights and guards from the path conditions of each case", ruleC11)
}

// hyphFns: the exported functions that split a word.
func (c *Ck) hyphFns() (out []*ssa.Function) {
	for _, f := range c.P.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != modPath+"/hyphenation" || f.Object() == nil || !f.Object().Exported() || len(f.Blocks) == 0 {
			continue
		}
		sig := f.Signature
		if sig.Recv() == nil || sig.Params().Len() != 1 || sig.Results().Len() != 1 {
			continue
		}
		if isStringType(sig.Params().At(0).Type()) && sig.Results().At(0).Type().String() == "[]string" {
			out = append(out, f)
		}
	}
	return
}

func ruleC11(c *Ck) {
	fs := c.hyphFns()
	if len(fs) == 0 {
		c.und("C11.partition", "hyphenation", "no function that splits a word found")
	}
	for _, f := range fs {
		g := c.hyphGraph(f, nil)
		if g == nil {
			continue
		}
		h := &hyph{c: c, g: g, f: f, name: fnName(f)}
		for _, p := range f.Params {
			if isStringType(p.Type()) {
				h.s = g.val(g.root, p)
			}
		}
		h.run()
	}
}

func (c *Ck) hyphGraph(f *ssa.Function, as Assume) *Graph {
	o := defaultOptions(c.P)
	o.Opaque = nil
	o.Assume = as
	return c.newGraph(f, o)
}

type hyph struct {
	c    *Ck
	g    *Graph
	f    *ssa.Function
	name string
	s    *Term
}

func (h *hyph) whole(t *Term) bool {
	return t.op == OSeq && len(t.args) == 1 && t.s == "e" && t.args[0] == h.s
}

func (h *hyph) run() {
	c, g := h.c, h.g
	rule := "C11.partition"
	for _, r := range g.results(0) {
		ls, ok := g.leaves([]*Term{g.simp(r.t)})
		if !ok {
			c.und(rule, h.name, "too many cases")
			continue
		}
		for _, l := range ls {
			t := l.ts[0]
			if h.whole(t) {
				c.ok(rule, h.name+": the word as a whole")
				continue
			}
			if empty(t) {
				c.fail(rule, h.name, r.pos, "no parts are returned if %s", l)
				continue
			}
			if t.op != OSeq || len(t.args) != 2 || t.s != "se" || t.args[0].op != OLoopVar {
				if t.op == OLoopVar {
					if init, _, _ := g.loopInfo(t); empty(g.simp(init)) {
						c.fail(rule, h.name, r.pos, "the rest of the word after the last cut can be missing")
						continue
					}
				}
				c.und(rule, h.name, "the parts are not understood: %s", clip(t.String(), 200))
				continue
			}
			h.parts(t.args[0], t.args[1], r.pos)
		}
	}
	// words that come back whole
	for _, w := range []struct {
		what  string
		fact  func(T *Terms, s *Term) (*Term, bool)
		same  func(x, s *Term) bool // may say the same in other words
		words []string              // some of them
	}{
		{"shorter than three bytes", func(T *Terms, s *Term) (*Term, bool) { return T.lt(T.len(s), T.numI(3), true), true }, runeCount, []string{"", "a", "ab", "é"}},
		{"longer than a hundred bytes", func(T *Terms, s *Term) (*Term, bool) { return T.lt(T.numI(100), T.len(s), true), true }, runeCount, []string{strings.Repeat("a", 101), strings.Repeat("é", 51), "a" + strings.Repeat("é", 50)}},
		{"with a blank", func(T *Terms, s *Term) (*Term, bool) { return T.call("strings.Contains", s, T.str(" ")), true }, blankTest, []string{"abc def", " abcdef", "abcdef ", "äö üß"}},
	} {
		var s *Term
		as := func(g *Graph, t *Term) (bool, bool) {
			if s == nil {
				for _, p := range h.f.Params {
					if isStringType(p.Type()) {
						s = g.val(g.root, p)
					}
				}
			}
			f, v := w.fact(g.T, s)
			return g.T.decideUnder([]lit{{f, v}}, t)
		}
		g2 := c.hyphGraph(h.f, as)
		h2 := &hyph{c: c, g: g2, f: h.f, name: h.name, s: s}
		for _, p := range h.f.Params {
			if isStringType(p.Type()) {
				h2.s = g2.val(g2.root, p)
			}
		}
		for _, r := range g2.results(0) {
			if h2.whole(g2.simp(r.t)) {
				c.ok("C11.whole", h.name+": words "+w.what)
				continue
			}
			// is there a test that may say the same in other words?
			other := false
			for _, n := range g2.nodes {
				for _, e := range n.succs {
					if cd := g2.cond(e); cd != nil && contains(cd, func(x *Term) bool { return w.same(x, h2.s) }) {
						other = true
					}
				}
			}
			if bad := h.cutWord(w.words); other && bad != "" {
				c.fail("C11.whole", h.name+" "+w.what, r.pos, "the word %q can be cut", bad)
			} else if other {
				c.und("C11.whole", h.name+" "+w.what, "other tests on the word")
			} else {
				c.fail("C11.whole", h.name+" "+w.what, r.pos, "a word %s can be cut", w.what)
			}
		}
	}
}

// cutWord: one of the words that does not come back whole whatever the
// patterns, as the tests of its length and of its bytes say.
func (h *hyph) cutWord(words []string) string {
	for _, w := range words {
		var s *Term
		var ga *Graph
		as := func(g *Graph, t *Term) (bool, bool) {
			if g != ga {
				ga, s = g, nil
			}
			if s == nil {
				for _, p := range h.f.Params {
					if isStringType(p.Type()) {
						s = g.val(g.root, p)
					}
				}
			}
			x := ofWord(g, t, s, w)
			return x.isBool() && x.i == 1, x.isBool()
		}
		g := h.c.hyphGraph(h.f, as)
		h2 := &hyph{c: h.c, g: g, f: h.f, name: h.name}
		for _, p := range h.f.Params {
			if isStringType(p.Type()) {
				h2.s = g.val(g.root, p)
			}
		}
		clear, cut := true, false
		for _, r := range g.results(0) {
			if !h2.whole(g.simp(r.t)) {
				cut = true
			}
		}
		for _, n := range g.nodes {
			for _, e := range n.succs {
				if !g.liveEdge[e] {
					continue
				}
				if cd := g.cond(e); cd != nil && contains(cd, func(x *Term) bool {
					return runeCount(x, h2.s) || blankTest(x, h2.s) || x.op == OProj && x.i == 2 && x.args[0].op == ORangeNext && contains(x, func(y *Term) bool { return y == h2.s })
				}) && !ofWord(g, cd, h2.s, w).isBool() {
					clear = false
				}
			}
		}
		if cut && clear {
			return w
		}
	}
	return ""
}

// ofWord: the term for the given word, as far as it depends on its length, its
// runes and what it contains.
func ofWord(g *Graph, t, s *Term, w string) *Term {
	T := g.T
	m := map[*Term]*Term{}
	walk(t, func(x *Term) bool {
		switch {
		case x.op == OLen && x.args[0] == s:
			m[x] = T.numI(int64(len(w)))
		case x.op == OLen && x.args[0].op == OConv && x.args[0].args[0] == s && strings.HasPrefix(x.args[0].String(), "[]rune"):
			m[x] = T.numI(int64(len([]rune(w))))
		case x.op == OCall && len(x.args) == 1 && x.args[0] == s && x.s == "unicode/utf8.RuneCountInString":
			m[x] = T.numI(int64(len([]rune(w))))
		case x.op == OCall && len(x.args) == 2 && x.args[0] == s && x.args[1].isStr():
			switch a := x.args[1].s; x.s {
			case "strings.Contains":
				m[x] = T.boolC(strings.Contains(w, a))
			case "strings.ContainsAny":
				m[x] = T.boolC(strings.ContainsAny(w, a))
			case "strings.Index":
				m[x] = T.numI(int64(strings.Index(w, a)))
			case "strings.LastIndex":
				m[x] = T.numI(int64(strings.LastIndex(w, a)))
			case "strings.HasPrefix":
				m[x] = T.boolC(strings.HasPrefix(w, a))
			case "strings.HasSuffix":
				m[x] = T.boolC(strings.HasSuffix(w, a))
			}
		}
		return true
	})
	return g.simp(T.subst(t, m))
}

// runeCount: the number of runes of the word.
func runeCount(x, s *Term) bool {
	if x.op == OLen && x.args[0].op == OConv && x.args[0].args[0] == s {
		return true
	}
	return x.op == OCall && strings.HasPrefix(x.s, "unicode/utf8.RuneCount")
}

// blankTest: a search in the word that is for a blank, or for what a function
// or a set tells.
func blankTest(x, s *Term) bool {
	if x.isNum() {
		return x.rat().Cmp(big.NewRat(' ', 1)) == 0
	}
	if x.op != OCall || !strings.HasPrefix(x.s, "strings.") || len(x.args) < 1 || x.args[0] != s {
		return false
	}
	if len(x.args) == 1 {
		return x.s == "strings.Fields"
	}
	a := x.args[1]
	if a.isNum() {
		return a.rat().Cmp(big.NewRat(' ', 1)) == 0
	}
	if a.isStr() {
		return strings.Contains(a.s, " ")
	}
	return true
}

// changed: a function that changes letters was applied to what t is cut from.
func changed(t *Term) bool {
	for t.op == OSlice || t.op == OConv {
		t = t.args[0]
	}
	if _, ok := altered(t); ok {
		return true
	}
	return t.op == OConcat && contains(t, func(x *Term) bool { return x != t && changed(x) })
}

// parts: the list sl holds the parts up to the start of the last part.
func (h *hyph) parts(sl, last *Term, pos string) {
	c, g, T := h.c, h.g, h.g.T
	rule := "C11.partition"
	if last.op != OSlice || last.args[0] != h.s {
		x := last
		for x.op == OConv || x.op == OSlice {
			x = x.args[0]
		}
		if x.op == OConv && x != last || changed(last) {
			c.fail(rule, h.name, pos, "the last part is %s: not a piece of the word", clip(last.String(), 200))
			return
		}
		c.und(rule, h.name, "the last part is %s", clip(last.String(), 200))
		return
	}
	if last.args[2].op != ONone && last.args[2] != T.len(h.s) {
		c.fail(rule, h.name, pos, "the last part ends at %s", clip(last.args[2].String(), 200))
		return
	}
	E := last.args[1]
	if E.op == ONone {
		E = T.Zero
	}
	head := sl.data.(*loopInfo).head
	init, next, _ := g.loopInfo(sl)
	m0 := map[*Term]*Term{}
	m1 := map[*Term]*Term{}
	walk(E, func(x *Term) bool {
		if x.op == OLoopVar && x.data.(*loopInfo).head == head {
			i, n, _ := g.loopInfo(x)
			m0[x], m1[x] = g.simp(i), g.simp(n)
		}
		return true
	})
	if !empty(g.simp(init)) {
		c.und(rule, h.name, "the parts do not start empty")
		return
	}
	e0 := g.simp(T.subst(E, m0))
	if h.isZero(e0) {
		c.ok(rule, h.name+": the first part starts at 0")
	} else if e0.isNum() {
		c.fail(rule, h.name, pos, "the first part starts at %s", e0)
	} else {
		c.und(rule, h.name, "the first part starts at %s", clip(e0.String(), 200))
	}
	e1 := g.simp(T.subst(E, m1))
	ls, ok := g.leaves([]*Term{g.simp(next), e1})
	if !ok {
		c.und(rule, h.name, "too many cases")
		return
	}
	for _, l := range ls {
		sn, en := l.ts[0], l.ts[1]
		switch {
		case sn == sl && en == E:
			c.ok(rule, h.name+": no cut")
		case sn == sl:
			if understoodIn(en, head) {
				c.fail(rule, h.name, pos, "the next part starts at %s though nothing was cut if %s", clip(en.String(), 200), l)
			} else {
				c.und(rule, h.name, "the next part starts at %s", clip(en.String(), 200))
			}
		case sn.op == OSeq && len(sn.args) == 2 && sn.s == "se" && sn.args[0] == sl:
			h.cut(sl, sn.args[1], E, en, l, g.loops[head], pos)
		case sn.op == OSeq && sn.args[0] == sl || !contains(sn, func(x *Term) bool { return x == sl }):
			c.fail(rule, h.name, pos, "the parts become %s if %s", clip(sn.String(), 200), l)
		default:
			c.und(rule, h.name, "the parts become %s", clip(sn.String(), 200))
		}
	}
}

func understoodIn(t *Term, head *Node) bool {
	return !contains(t, func(x *Term) bool { return x.op == OAtom || x.op == OClobber || x.op == OBottom })
}

func (h *hyph) cut(sl, part, E, en *Term, l leaf, lp *Loop, pos string) {
	c, T := h.c, h.g.T
	rule := "C11.partition"
	if part.op != OSlice || part.args[0] != h.s {
		x := part
		for x.op == OConv || x.op == OSlice {
			x = x.args[0]
		}
		if x.op == OConv && x != part || x == h.s || changed(part) {
			c.fail(rule, h.name, pos, "a part is %s", clip(part.String(), 200))
		} else {
			c.und(rule, h.name, "a part is %s", clip(part.String(), 200))
		}
		return
	}
	a, b := part.args[1], part.args[2]
	if a.op == ONone {
		a = T.Zero
	}
	known := func(t *Term) bool { return understoodIn(t, nil) }
	switch {
	case a == E && b == en:
		c.ok(rule, h.name+": a part ends where the next one starts")
	case known(a) && known(b) && known(E) && known(en):
		if a != E {
			c.fail(rule, h.name, pos, "a part starts at %s, the one before ended at %s", clip(a.String(), 200), clip(E.String(), 200))
		} else {
			c.fail(rule, h.name, pos, "a part ends at %s, the next one starts at %s", clip(b.String(), 200), clip(en.String(), 200))
		}
		return
	default:
		c.und(rule, h.name, "a part is %s, the next one starts at %s", clip(part.String(), 200), clip(en.String(), 200))
		return
	}
	// at the start of a rune
	rule = "C11.rune"
	offs, r := seqElem(b)
	if offs == nil {
		if known(b) && contains(b, func(x *Term) bool { return x.op == OIV }) && !contains(b, func(x *Term) bool { return x.op == ORangeNext || x.op == OCall }) {
			c.fail(rule, h.name, pos, "cuts are made at byte %s, which need not start a rune", clip(b.String(), 200))
		} else {
			c.und(rule, h.name, "cuts are made at %s", clip(b.String(), 200))
		}
		return
	}
	if !h.isOffsets(offs) {
		if x := h.otherOffsets(offs); x != nil {
			c.fail(rule, h.name, pos, "the positions of cuts are those of runes of %s, not of the word", clip(x.String(), 100))
			return
		}
		c.und(rule, h.name, "cuts are made at %s", clip(b.String(), 200))
		return
	}
	c.ok(rule, h.name+": cuts at rune boundaries")
	// where the weights are odd
	rule = "C11.odd"
	iv := T.mk(&Term{op: OIV, i: lp.head.id, data: lp})
	var w *Term
	odd, even := false, false
	for _, x := range l.lits {
		cd, v := x.c, x.v
		if cd.op == ONot {
			cd, v = cd.args[0], !v
		}
		walk(cd, func(y *Term) bool {
			if y.op == OOp && len(y.args) == 2 && (y.s == "%" && y.args[1] == T.numI(2) || y.s == "&" && y.args[1] == T.One) {
				yes1, k1 := T.decideUnder([]lit{{T.zero(T.sub(y, T.One), true), true}}, cd)
				yes0, k0 := T.decideUnder([]lit{{T.zero(y, true), true}}, cd)
				if k1 && k0 {
					w = y.args[0]
					if yes1 == v && yes0 != v {
						odd = true
					} else if yes1 != v && yes0 == v {
						even = true
					}
				}
			}
			return true
		})
	}
	if w == nil {
		if !contains(T.seq(strings.Repeat("e", len(l.lits)), litTerms(l.lits)), func(x *Term) bool { return x.op == OAtom || x.op == OInv || x.op == OClobber }) {
			c.fail(rule, h.name, pos, "a word is cut whatever the weights if %s", l)
		} else {
			c.und(rule, h.name, "the weight is not evident in %s", l)
		}
		return
	}
	if even || !odd {
		c.fail(rule, h.name, pos, "a word is cut where the weight is even")
		return
	}
	c.ok(rule, h.name+": odd weights")
	// the weight of the position of the cut
	base, k := T.Zero, (*Term)(nil)
	ws, k := seqElem(w)
	for ws != nil && ws.op == OSlice {
		if ws.args[1].op != ONone {
			base = T.add(base, ws.args[1])
		}
		ws = ws.args[0]
	}
	if ws == nil || !contains(r, func(x *Term) bool { return x == iv }) {
		c.und(rule, h.name, "the weight %s of the position is not evident", clip(w.String(), 200))
		return
	}
	if d, ok := T.constDiff(T.add(base, k), r); ok {
		c.expect(d.IsInt() && d.Num().Int64() == 1, rule, h.name+" position", pos, "the word is cut before rune %s where the weight %s of the dotted word is odd, not the one before that rune", clip(r.String(), 100), clip(T.add(base, k).String(), 100))
	} else {
		c.und(rule, h.name, "the weight %s of the position %s is not evident", clip(w.String(), 200), clip(r.String(), 100))
	}
	h.weights(ws, pos)
}

func litTerms(ls []lit) (out []*Term) {
	for _, l := range ls {
		out = append(out, l.c)
	}
	return
}

// isOffsets: the list of the positions of the runes of the word, and its end.
func (h *hyph) isOffsets(t *Term) bool {
	g, T := h.g, h.g.T
	if t.op == OSeq && t.s == "se" && t.args[1] == T.len(h.s) {
		t = t.args[0]
	}
	if t.op != OLoopVar {
		return false
	}
	init, next, _ := g.loopInfo(t)
	if !empty(g.simp(init)) {
		return false
	}
	next = g.simp(next)
	if next.op != OSeq || next.s != "se" || next.args[0] != t {
		return false
	}
	return h.runeStart(next.args[1])
}

// otherOffsets: the changed word whose positions of runes are meant.
func (h *hyph) otherOffsets(t *Term) *Term {
	if t.op == OSeq && t.s == "se" {
		t = t.args[0]
	}
	if t.op != OLoopVar {
		return nil
	}
	_, next, _ := h.g.loopInfo(t)
	next = h.g.simp(next)
	if next.op != OSeq || next.s != "se" || next.args[0] != t {
		return nil
	}
	k := next.args[1]
	if k.op != OProj || k.i != 1 || k.args[0].op != ORangeNext {
		return nil
	}
	if r := k.args[0].args[0]; len(r.args) == 1 && changed(r.args[0]) {
		return r.args[0]
	}
	return nil
}

// runeStart: the key of a range over the word.
func (h *hyph) runeStart(k *Term) bool {
	if k.op != OProj || k.i != 1 || k.args[0].op != ORangeNext {
		return false
	}
	r := k.args[0].args[0]
	return len(r.args) == 1 && r.args[0] == h.s
}

// isZero: 0, or the first of the positions of the runes.
func (h *hyph) isZero(t *Term) bool {
	if t == h.g.T.Zero {
		return true
	}
	s, i := seqElem(t)
	return s != nil && i == h.g.T.Zero && h.isOffsets(s)
}

// weights: the weight of a position is the largest one any pattern found in
// the dotted word gives it.
func (h *hyph) weights(ws *Term, pos string) {
	c, g, T := h.c, h.g, h.g.T
	rule := "C11.weights"
	n := 0
	for _, e := range g.evs(func(e *Event) bool { return e.kind == "store" }) {
		as := g.evArgs(e)
		if len(as) < 2 || as[0].op != OIAddr || as[0].args[0] != ws {
			continue
		}
		n++
		idx, v := as[0].args[1], as[1]
		var iw *Term
		lst, i := seqElem(v)
		if lst != nil {
			iw = i
		}
		if iw == nil && v.op == OPoly && contains(v, func(x *Term) bool {
			if li, ok := x.data.(*loopInfo); ok && x.op == OLoopVar {
				return li.addr == as[0]
			}
			return x == T.load(as[0])
		}) {
			c.fail(rule, h.name+" largest", g.evPos(e), "a weight becomes %s, not the largest one", clip(v.String(), 200))
			continue
		}
		if iw == nil {
			c.und(rule, h.name, "a weight becomes %s", clip(v.String(), 200))
			continue
		}
		start := T.sub(idx, iw)
		// the piece of the word looked up
		var piece *Term
		walk(lst, func(x *Term) bool {
			if x.op == OSlice && piece == nil {
				piece = x
			}
			return piece == nil
		})
		if piece == nil {
			c.und(rule, h.name, "the piece of the word looked up is not evident: %s", clip(lst.String(), 200))
			continue
		}
		lo := piece.args[1]
		if lo.op == ONone {
			lo = T.Zero
		}
		if d, ok := T.constDiff(start, lo); ok {
			c.expect(d.Sign() == 0, rule, h.name+" position", g.evPos(e), "the weights of a pattern found at %s are those of position %s", clip(lo.String(), 100), clip(start.String(), 100))
		} else if understoodIn(start, nil) && understoodIn(lo, nil) {
			c.fail(rule, h.name+" position", g.evPos(e), "the weights of a pattern found at %s are those of position %s", clip(lo.String(), 100), clip(start.String(), 100))
		} else {
			c.und(rule, h.name, "position %s of a pattern found at %s", clip(start.String(), 100), clip(lo.String(), 100))
		}
		h.allPieces(e, piece)
		// the largest one
		old := as[0]
		cond := false
		greater, known := false, false
		for _, cd := range g.condsBefore(e) {
			if !contains(cd, func(x *Term) bool { return x == v }) {
				continue
			}
			cond = true
			o := T.load(old)
			walk(cd, func(x *Term) bool {
				if li, ok := x.data.(*loopInfo); ok && x.op == OLoopVar && li.addr == old {
					o = x
				}
				return true
			})
			// v > old stores, v < old does not
			y1, k1 := T.decideUnder([]lit{{T.lt(o, v, true), true}}, cd)
			y2, k2 := T.decideUnder([]lit{{T.lt(v, o, true), true}}, cd)
			if k1 && k2 {
				known = true
				if y1 && !y2 {
					greater = true
				}
			}
		}
		switch {
		case greater:
			c.ok(rule, h.name+": the largest weight counts")
		case !cond && v.op != OCall:
			c.fail(rule, h.name+" largest", g.evPos(e), "the weight of the last pattern counts, not the largest")
		case known:
			c.fail(rule, h.name+" largest", g.evPos(e), "the weight stored is not the larger one")
		default:
			c.und(rule, h.name, "which weight counts is not evident")
		}
	}
	if n == 0 {
		c.und(rule, h.name, "the weights are not evident")
	}
}

// allPieces: the patterns are looked up for every piece of the dotted word.
// The loops are unrolled for words of some lengths; the dots on their own do
// not matter, as the word is never cut next to them.
func (h *hyph) allPieces(e *Event, piece *Term) {
	c, g, T := h.c, h.g, h.g.T
	rule := "C11.pieces"
	lo, hi := piece.args[1], piece.args[2]
	n := T.len(piece.args[0])
	if lo.op == ONone {
		lo = T.Zero
	}
	if hi.op == ONone {
		hi = n
	}
	var ls []*Loop
	for _, l := range g.loops {
		if l.body[e.n] && (mentions(lo, g.iv(l)) || mentions(hi, g.iv(l))) {
			ls = append(ls, l)
		}
	}
	sort.Slice(ls, func(i, j int) bool { return len(ls[i].body) > len(ls[j].body) })
	if len(ls) == 0 || len(ls) > 2 {
		c.und(rule, h.name, "the pieces %s of the dotted word are not evident", clip(piece.String(), 200))
		return
	}
	within := g.condsBefore(e)
	for _, size := range []int64{5, 8} {
		seen := map[[2]int64]bool{}
		at := map[*Term]*Term{n: T.numI(size)}
		clear := true
		num := func(t *Term) (int64, bool) {
			x := g.simp(T.subst(t, at))
			if !x.isNum() || !x.rat().IsInt() {
				return 0, false
			}
			return x.rat().Num().Int64(), true
		}
		var visit func(k int)
		visit = func(k int) {
			if k == len(ls) {
				for _, cd := range within {
					if x := g.simp(T.subst(cd, at)); x.isBool() && x.i == 0 {
						return
					}
				}
				a, ok1 := num(lo)
				b, ok2 := num(hi)
				if !ok1 || !ok2 {
					clear = false
					return
				}
				seen[[2]int64{a, b}] = true
				return
			}
			iv := g.iv(ls[k])
			for i := int64(0); i <= size+2; i++ {
				at[iv] = T.numI(i)
				for _, x := range ls[k].exits {
					if !g.liveEdge[x] {
						continue
					}
					cd := g.cond(x)
					if cd == nil {
						clear = false
						continue
					}
					switch y := g.simp(T.subst(cd, at)); {
					case !y.isBool():
						clear = false
					case y.i == 1:
						delete(at, iv)
						return
					}
				}
				visit(k + 1)
			}
			delete(at, iv)
		}
		visit(0)
		if !clear {
			c.und(rule, h.name, "for which pieces of the dotted word the patterns are looked up is not evident")
			return
		}
		for a := int64(0); a < size; a++ {
			for b := a + 1; b <= size; b++ {
				if b == a+1 && (a == 0 || b == size) {
					continue
				}
				if !seen[[2]int64{a, b}] {
					c.fail(rule, h.name, g.evPos(e), "in a dotted word of %d runes no pattern is looked up for the runes %d to %d", size, a, b-1)
					return
				}
			}
		}
	}
	c.ok(rule, h.name+": every piece of the dotted word")
}

// condsBefore: the conditions that hold whenever an event happens, of the
// branches of its function that dominate it.
func (g *Graph) condsBefore(e *Event) (out []*Term) {
	for n := e.n; n != nil && n.idom != n; n = n.idom {
		d := n.idom
		if d == nil {
			break
		}
		var in []*Edge
		for _, p := range n.preds {
			if g.liveEdge[p] {
				in = append(in, p)
			}
		}
		if len(in) == 1 && in[0].from == d {
			if cd := g.cond(in[0]); cd != nil {
				out = append(out, cd)
			}
		}
	}
	return
}
