package main

import (
	"go/types"
	"strings"
)

func init() {
	register("C23", "the operations on every text on its way to the words are read off the value-flow terms as a chain of string operations; the chain is compared with the specified one by an exact equivalence check of finite state transducers (all strings)", ruleC23)
	register("C28", "chain of string operations on every text compared as finite state transducers; provenance of what is put in; flow analysis over the page events between the replacement and the writing", ruleC28)
}

// whitespace is what is specified for blanks.
var whitespace = []strOp{
	{k: "map", m: [][2]string{{"\r", " "}, {"\n", " "}, {"\t", " "}}},
	{k: "trim", set: " "},
	{k: "collapse", a: " "},
	{k: "replace", a: " \\", b: "\\", n: -1},
	{k: "replace", a: "\\ ", b: "\\", n: -1},
}

// textChain is the way of one text to the words.
type textChain struct {
	lf   *lineFn
	pos  string
	ops  []strOp
	base *Term
	why  string
	of   string
	lits []lit
	dom  []strCond // the texts of this case
}

// textChains: the chains for the texts of all line breakers.
func (c *Ck) textChains() (out []textChain, ok bool) {
	ok = true
	for _, lf := range c.lineFns() {
		lf.contents(false)
		g := lf.g
		if len(lf.words) == 0 {
			ok = false
		}
		for _, wl := range lf.words {
			lf.fullWords(wl)
			ls, k := g.leaves([]*Term{wl.seq})
			if !k {
				ok = false
				continue
			}
			for _, l := range ls {
				tc := textChain{lf: lf, pos: g.loopPos(wl.loop), lits: l.lits}
				x := l.ts[0]
				var extra []strOp
				for x.op == OSlice {
					x = x.args[0]
				}
				switch {
				case x.op == OCall && x.s == "strings.Split" && x.args[1].isStr() && x.args[1].s == " ":
				case x.op == OCall && x.s == "strings.Fields":
					extra = []strOp{{k: "words"}}
				default:
					out = append(out, textChain{lf: lf, pos: tc.pos, why: "the words are " + clip(x.String(), 120), of: lf.name})
					continue
				}
				tc.ops, tc.base, tc.why = c.pipe(g, g.simp(x.args[0]))
				tc.ops = append(tc.ops, extra...)
				if tc.why == "" {
					tc.dom, tc.why = c.domain(g, tc.base, l.lits)
				}
				tc.of = lf.name
				if tc.base != nil {
					if f := g.fieldName(tc.base); f != "" {
						tc.of += " " + f
					}
				}
				out = append(out, tc)
			}
		}
	}
	return
}

// fullWords: the whole list of words, if the loop runs over a part of it.
func (lf *lineFn) fullWords(wl *wordLoop) {
	g := lf.g
	n := g.count(wl.loop)
	if n == nil {
		return
	}
	walk(n, func(x *Term) bool {
		if x.op == OLen && lf.sameWords(wl.seq, x.args[0]) {
			wl.seq = x.args[0]
			return false
		}
		return true
	})
}

// fieldName: the field of an element that is read.
func (g *Graph) fieldName(t *Term) string {
	for t.op == OLoad {
		t = t.args[0]
	}
	if t.op == OFAddr || t.op == OField {
		return clip(t.String(), 80)
	}
	return ""
}

func isPageOp(o strOp) bool { return strings.Contains(o.a, "{cp}") || o.by != nil }

func without(ops []strOp, f func(strOp) bool) (out []strOp) {
	for _, o := range ops {
		if !f(o) {
			out = append(out, o)
		}
	}
	return
}

func ruleC23(c *Ck) {
	tcs, ok := c.textChains()
	if !ok {
		c.und("C23.chain", "line breakers", "the words are not evident")
	}
	for _, tc := range tcs {
		if tc.why != "" {
			c.und("C23.chain", tc.of, "%s", tc.why)
			continue
		}
		ops := without(tc.ops, isPageOp)
		in, got, want, differ, err := chainsDiffer(ops, whitespace, tc.dom...)
		switch {
		case err != nil:
			c.und("C23.chain", tc.of, "%v", err)
		case differ && !tc.lf.elemText(tc.base):
			c.und("C23.chain", tc.of, "what is split into words is not evident: %s", clip(tc.base.String(), 200))
		case differ:
			c.fail("C23.chain", tc.of, tc.pos, "the text %q becomes %q instead of %q: %s", in, got, want, opsStr(ops))
		case !tc.lf.elemText(tc.base):
			c.und("C23.chain", tc.of, "the text is %s", clip(tc.base.String(), 200))
		default:
			c.ok("C23.chain", tc.of+": normalised")
		}
	}
	c.emptyIgnored()
	c.rawTexts()
}

// emptyIgnored: a text that is empty adds nothing.
func (c *Ck) emptyIgnored() {
	rule := "C23.empty"
	for _, lf := range c.lineFns() {
		g, T := lf.g, lf.g.T
		for _, wl := range lf.words {
			var texts []*Term
			fields := false
			add := func(x *Term) {
				for x.op == OSlice {
					x = x.args[0]
				}
				if x.op == OCall && x.s == "strings.Fields" {
					fields = true
				}
				if x.op == OCall && x.s == "strings.Split" {
					texts = append(texts, g.simp(x.args[0]))
				}
			}
			add(wl.seq)
			if ls, ok := g.leaves([]*Term{wl.seq}); ok {
				for _, l := range ls {
					add(l.ts[0])
				}
			}
			if fields {
				c.ok(rule, lf.name+": an empty text has no words")
				continue
			}
			if len(texts) == 0 || lf.outer.l == nil {
				c.und(rule, lf.name, "the words are not evident")
				continue
			}
			var facts []lit
			for _, x := range append(texts, wl.word) {
				facts = append(facts, lit{T.eq(x, T.EmptyS), true}, lit{T.zero(T.len(x), true), true})
			}
			var no func(cd *Term, v bool) bool
			no = func(cd *Term, v bool) bool {
				if len(conds(cd)) > 0 {
					ls, ok := g.leaves([]*Term{cd})
					if !ok {
						return false
					}
					for _, l := range ls {
						if len(conds(l.ts[0])) > 0 || !no(l.ts[0], v) {
							return false
						}
					}
					return true
				}
				for _, f := range facts {
					if r, ok := T.decideUnder([]lit{f}, cd); ok && r != v {
						return true
					}
				}
				return false
			}
			unclear := false
			reach := false
			out := lf.outer.head()
			fl := &flow{g: g, step: func(e *Event, s int) (int, bool) { return s, false }}
			fl.edge = func(e *Edge, s int) (int, bool) {
				if e.to == wl.loop.head && e.from != wl.loop.head && !wl.loop.body[e.from] {
					reach = true
					return s, false
				}
				if e.to == out || !g.loops[out].body[e.to] {
					return s, false
				}
				if cd := g.cond(e); cd != nil {
					if no(cd, true) {
						return s, false
					}
					if contains(cd, func(x *Term) bool { return x.op == OAtom || x.op == OClobber }) {
						unclear = true
					}
				}
				return s, true
			}
			fl.run(point{out, 0}, 0)
			adds := false
			for _, w := range wl.leafs {
				if len(w.new) == 0 {
					continue
				}
				dead := false
				for _, x := range w.lits {
					if no(x.c, x.v) {
						dead = true
					}
				}
				if !dead {
					adds = true
				}
			}
			switch {
			case !reach || !adds:
				c.ok(rule, lf.name+": ignored")
			case unclear:
				c.und(rule, lf.name, "when the words of a text are visited is not evident")
			default:
				c.fail(rule, lf.name, g.loopPos(wl.loop), "a text that is empty is laid out as a word")
			}
		}
	}
}

// rawTexts: no text is written as it stands in the document.
func (c *Ck) rawTexts() {
	rule := "C23.raw"
	seen := map[string]bool{}
	for _, k := range []string{"Text", "Box", "Table"} {
		for _, ha := range []string{"left", "block"} {
			g := c.textGraph(k, ha)
			if g == nil {
				continue
			}
			n := 0
			for _, e := range g.evs(eng("WriteText")) {
				as := g.evArgs(e)
				t := as[len(as)-1]
				n++
				for _, l := range cases(g, t) {
					ops, base, why := c.pipe(g, l)
					if why != "" || base == nil || !docText(base) {
						continue
					}
					in, got, want, differ, err := chainsDiffer(without(ops, isPageOp), whitespace)
					con := k + " " + ha + " " + g.evPos(e)
					if seen[con] {
						continue
					}
					seen[con] = true
					if err == nil && differ {
						c.fail(rule, con, g.evPos(e), "the text %q of an element is written as %q instead of %q", in, got, want)
					}
				}
			}
			if n > 0 {
				c.ok(rule, k+" "+ha+": no text of the document is written as it stands")
			}
		}
	}
}

func cases(g *Graph, t *Term) (out []*Term) {
	ls, ok := g.leaves([]*Term{g.simp(t)})
	if !ok {
		return nil
	}
	for _, l := range ls {
		out = append(out, l.ts[0])
	}
	return
}

// docText: a string field of an element of the document.
func docText(t *Term) bool {
	for t.op == OLoad {
		t = t.args[0]
	}
	if t.op != OFAddr && t.op != OField || t.typ == nil {
		return false
	}
	st, ok := t.typ.Underlying().(*types.Struct)
	return ok && strings.HasPrefix(typeKey(t.typ), modPath+"/xdoc.") && isStringType(st.Field(t.i).Type())
}

// elemText: the text of an element of the list.
func (lf *lineFn) elemText(t *Term) bool {
	return contains(t, func(x *Term) bool {
		s, i := seqElem(x)
		return s != nil && i != nil && i.op == OIV
	}) && !contains(t, func(x *Term) bool { return x.op == OCall || x.op == OConcat || x.op == OSlice && isStringType(x.typ) })
}

func ruleC28(c *Ck) {
	tcs, ok := c.textChains()
	if !ok {
		c.und("C28.replaced", "line breakers", "the words are not evident")
	}
	for _, tc := range tcs {
		if tc.why != "" {
			c.und("C28.replaced", tc.of, "%s", tc.why)
			continue
		}
		g := tc.lf.g
		// what is put in
		for _, o := range tc.ops {
			if o.by == nil {
				continue
			}
			x := o.by
			if x.op == OCall && x.s == "decimal" {
				x = x.args[0]
				if x.op == OInv && strings.HasSuffix(strings.SplitN(x.s, "#", 2)[0], "Engine.CurrentPage") {
					c.ok("C28.number", tc.of+": the current page")
					continue
				}
			}
			switch {
			case x.op == OCall && x.s == "fmt.Sprintf" && len(x.args) > 0 && x.args[0].isStr() && !plainFormat(x.args[0].s):
				c.fail("C28.number", tc.of, tc.pos, "%q becomes the number in the format %q", o.a, x.args[0].s)
				continue
			case x.op == OConcat && contains(x, func(y *Term) bool { return y.op == OCall && y.s == "decimal" }) && contains(x, func(y *Term) bool { return y.op == OStr && y.s != "" }):
				c.fail("C28.number", tc.of, tc.pos, "%q becomes the number and other text: %s", o.a, clip(x.String(), 200))
				continue
			}
			if understoodIn(x, nil) && !contains(x, func(y *Term) bool { return y.op == OCall }) {
				c.fail("C28.number", tc.of, tc.pos, "%q becomes %s", o.a, clip(o.by.String(), 200))
			} else {
				c.und("C28.number", tc.of, "%q becomes %s", o.a, clip(o.by.String(), 200))
			}
		}
		// everywhere, and nothing else
		var ws []strOp
		for _, o := range tc.ops {
			if !isPageOp(o) && !strings.ContainsAny(o.a+o.set, "{}cp") {
				ws = append(ws, o)
			}
		}
		want := append([]strOp{{k: "replace", a: "{cp}", by: g.T.Nil, n: -1}}, ws...)
		in, got, exp, differ, err := chainsDiffer(tc.ops, want, tc.dom...)
		switch {
		case err != nil:
			c.und("C28.replaced", tc.of, "%v", err)
		case !tc.lf.elemText(tc.base):
			c.und("C28.replaced", tc.of, "the text is %s", clip(tc.base.String(), 200))
		case differ:
			c.fail("C28.replaced", tc.of, tc.pos, "on page 1 the text %q becomes %q instead of %q: %s", in, got, exp, opsStr(tc.ops))
		default:
			c.ok("C28.replaced", tc.of+": every {cp}")
		}
	}
	c.pageOf()
	// the placeholder for the number of pages
	g := c.process("plain", nil)
	if g == nil {
		return
	}
	var alias []*Event
	for _, e := range g.evs(eng("SetPageCountAlias")) {
		as := g.evArgs(e)
		c.same("C28.total", "Process alias", g, g.evPos(e), "the placeholder for the number of pages", as[len(as)-1], g.T.str("{np}"))
		alias = append(alias, e)
	}
	if len(alias) == 0 {
		c.fail("C28.total", "Process", "process.go", "no placeholder for the number of pages is registered")
	}
	pg := eng("AddPage")
	if e, _ := g.canReach(g.start(), func(e *Event) bool { return eng("SetPageCountAlias")(e) }, pg, nil); e != nil && len(alias) > 0 {
		c.fail("C28.total", "Process order", g.evPos(e), "a page is started before the placeholder for the number of pages is registered")
	} else {
		c.ok("C28.total", "registered before the first page")
	}
}

// pageOf: no page is started between the breaking of a text that puts in the
// number and the writing of its lines.
func (c *Ck) pageOf() {
	rule := "C28.page"
	for _, k := range []string{"Text", "Box", "Table"} {
		for _, ha := range []string{"left", "block"} {
			g := c.textGraph(k, ha)
			if g == nil {
				continue
			}
			bs := g.breakers()
			ws := g.evs(eng("WriteText"))
			if len(bs) == 0 || len(ws) == 0 {
				c.und(rule, k+" "+ha, "no line breaker or no writing found")
				continue
			}
			entry := map[*Node]bool{}
			for _, b := range bs {
				entry[b.ctx.entry] = true
			}
			var stale *Event
			page := 0
			fl := &flow{g: g}
			fl.edge = func(e *Edge, s int) (int, bool) {
				if entry[e.to] {
					return 0, true
				}
				return s, true
			}
			fl.step = func(e *Event, s int) (int, bool) {
				if entry[e.n] {
					s = 0
				}
				if eng("AddPage")(e) {
					return e.id + 1, false
				}
				if eng("WriteText")(e) && s > 0 && stale == nil {
					stale, page = e, s-1
				}
				return s, false
			}
			fl.run(g.start(), 0)
			if stale != nil {
				c.fail(rule, k+" "+ha, g.evPos(stale), "a page can be started (%s) after a text was broken into lines and before they are written: the number put in is that of the page before", g.evPos(g.events[page]))
			} else {
				c.ok(rule, k+" "+ha+": broken into lines on the page they are written on")
			}
		}
	}
}

// plainFormat: the format yields a number as it is.
func plainFormat(f string) bool {
	switch f {
	case "%d", "%v", "%s":
		return true
	}
	return false
}
