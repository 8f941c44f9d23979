package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C10", "induction over the loops of every line breaker on value-flow terms: flattened contents of lines and open line before and after each way round, per case; completeness of the drawing loops over lines and words", ruleC10)
}

// leaf is one case of a group of terms, free of conditions.
type leaf struct {
	lits []lit
	ts   []*Term
}

func (l leaf) String() string {
	var ls []string
	for _, x := range l.lits {
		ls = append(ls, clip(x.String(), 140))
	}
	return strings.Join(ls, " and ")
}

// leaves splits terms into cases: by their conditions and by the exits by
// which loops are left. ok is false if there are too many.
func (g *Graph) leaves(ts []*Term, facts ...lit) (out []leaf, ok bool) {
	T := g.T
	budget := 4000
	ok = true
	ts = append([]*Term{}, ts...)
	for i, t := range ts {
		ts[i] = g.simp(t)
	}
	facts = T.conjuncts(facts)
	n := len(facts)
	var rec func(ts []*Term, fs, lits []lit)
	// the facts with cases, in the case at hand
	given := func(fs []lit, m map[*Term]*Term) ([]lit, bool) {
		if len(fs) == 0 {
			return nil, true
		}
		var r []lit
		for _, f := range fs {
			r = append(r, lit{T.subst(f.c, m), f.v})
		}
		r = T.conjuncts(r)
		for _, f := range r {
			if f.c.isBool() && (f.c.i == 1) != f.v {
				return nil, false
			}
		}
		return r, true
	}
	sub := func(ts []*Term, m map[*Term]*Term) []*Term {
		r := make([]*Term, len(ts))
		for i, t := range ts {
			r[i] = T.subst(t, m)
		}
		return r
	}
	rec = func(ts []*Term, fs, lits []lit) {
		if !ok {
			return
		}
		if budget--; budget < 0 {
			ok = false
			return
		}
		for _, t := range ts {
			if t.op == OBottom {
				return
			}
		}
		// exits
		var ej *exitJoin
		var atoms []*Term
		for _, t := range ts {
			walk(t, func(x *Term) bool {
				if x.op == OAtom {
					if e, is := x.data.(*exitJoin); is {
						if ej == nil {
							ej = e
						}
						if e.loop == ej.loop {
							atoms = append(atoms, x)
						}
					}
				}
				return true
			})
		}
		if ej != nil {
			edges := map[*Edge]bool{}
			var es []*Edge
			for _, a := range atoms {
				for _, v := range a.data.(*exitJoin).vals {
					if !edges[v.e] {
						edges[v.e] = true
						es = append(es, v.e)
					}
				}
			}
			sort.Slice(es, func(i, j int) bool {
				return es[i].from.id < es[j].from.id || es[i].from.id == es[j].from.id && es[i].to.id < es[j].to.id
			})
			for _, e := range es {
				if g.liveEdge != nil && !g.liveEdge[e] {
					continue
				}
				m := map[*Term]*Term{}
				all := true
				for _, a := range atoms {
					var val *Term
					for _, v := range a.data.(*exitJoin).vals {
						if v.e == e {
							val = g.simp(g.norm(v.t))
						}
					}
					if val == nil {
						all = false
						break
					}
					m[a] = val
				}
				if all {
					if nf, ok := given(fs, m); ok {
						rec(sub(ts, m), nf, lits)
					}
				}
			}
			return
		}
		var c *Term
		for _, x := range conds(ts...) {
			if len(conds(x)) == 0 {
				c = x
				break
			}
		}
		if c == nil {
			out = append(out, leaf{append([]lit{}, lits[n:]...), ts})
			return
		}
		at := func(v bool) map[*Term]*Term {
			m := map[*Term]*Term{c: T.boolC(v)}
			if c.op == ONot {
				m[c.args[0]] = T.boolC(!v)
			}
			return m
		}
		if v, dec := T.decideUnder(append(lits[:len(lits):len(lits)], fs...), c); dec {
			if nf, ok := given(fs, at(v)); ok {
				rec(sub(ts, at(v)), nf, lits)
			}
			return
		}
		for _, v := range []bool{true, false} {
			ls := append(append([]lit{}, lits...), lit{c, v})
			if T.contradictory(ls) {
				continue
			}
			if nf, ok := given(fs, at(v)); ok {
				rec(sub(ts, at(v)), nf, ls)
			}
		}
	}
	var fs []lit
	for _, f := range facts {
		if len(conds(f.c)) > 0 {
			fs = append(fs, f)
		}
	}
	rec(ts, fs, append([]lit{}, facts...))
	return
}

// lineFn is the analysis of a function that breaks a list into lines.
type lineFn struct {
	c    *Ck
	g    *Graph
	fn   *ssa.Function
	name string
	line types.Type // struct type of a line
	item types.Type // struct type of an item
	// indices of the items in a line, of text and styles in an item
	fi, ft, fs int
	ptrItem    bool
	ptrLine    bool
	iss, sty   *Term
	wid        *Term
	// the state: lines and the items of the open line at the loop heads
	pairs []linePair
	words []*wordLoop
	outer linePair
	books map[string]verdict
	// the cases of the result
	results []lineLeaf
}

type lineLeaf struct {
	lits []lit
	toks []tok
}

type linePair struct{ l, i *Term }

type wordLoop struct {
	loop  *Loop
	pair  linePair
	seq   *Term // the words
	word  *Term // the current word
	outer linePair
	books map[string]verdict
	leafs []wordLeaf
}

type wordLeaf struct {
	lits []lit
	toks []tok
	new  []*Term // texts of the items added
	stys []*Term
}

type tok struct {
	k byte // L lines, I items, e item, B line break
	t *Term
}

// lineFns: the functions that break texts into lines, with their graphs.
func (c *Ck) lineFns() []*lineFn {
	if c.lfns != nil {
		return c.lfns
	}
	seen := map[*ssa.Function]bool{}
	c.lfns = []*lineFn{}
	for _, ha := range []string{"left", "block"} {
		g := c.textGraph("Text", ha)
		if g == nil {
			continue
		}
		for _, b := range g.breakers() {
			f := b.ctx.fn
			if seen[f] {
				continue
			}
			seen[f] = true
			lf := &lineFn{c: c, fn: f, name: fnName(f)}
			lf.g = c.graphOf(f, "lines", nil)
			if lf.setup() {
				c.lfns = append(c.lfns, lf)
			}
		}
	}
	return c.lfns
}

func (lf *lineFn) setup() bool {
	sl := lf.fn.Signature.Results().At(0).Type().Underlying().(*types.Slice)
	lf.line = deref(sl.Elem())
	_, lf.ptrLine = sl.Elem().Underlying().(*types.Pointer)
	st, ok := lf.line.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	lf.fi = -1
	for i := 0; i < st.NumFields(); i++ {
		s, ok := st.Field(i).Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		it, ok := deref(s.Elem()).Underlying().(*types.Struct)
		if !ok {
			continue
		}
		lf.ft, lf.fs = -1, -1
		for j := 0; j < it.NumFields(); j++ {
			t := it.Field(j).Type()
			if isStringType(t) {
				lf.ft = j
			}
			if typeKey(t) == modPath+"/style.Styles" {
				lf.fs = j
			}
		}
		if lf.ft >= 0 {
			lf.fi = i
			lf.item = deref(s.Elem())
			_, lf.ptrItem = s.Elem().Underlying().(*types.Pointer)
			break
		}
	}
	if lf.fi < 0 {
		return false
	}
	for _, p := range lf.fn.Params {
		t := lf.g.val(lf.g.root, p)
		switch {
		case typeKey(p.Type()) == "[]"+modPath+"/xdoc.Instruction":
			lf.iss = t
		case typeKey(p.Type()) == modPath+"/style.Styles":
			lf.sty = t
		case isFloatType(p.Type()):
			lf.wid = t
		}
	}
	return lf.iss != nil && lf.sty != nil
}

// atBack reads memory at the end of a way round a loop.
func (g *Graph) atBack(l *Loop, addr *Term, typ types.Type) *Term {
	var back []*Edge
	for _, e := range l.head.preds {
		if dominates(l.head, e.from) {
			back = append(back, e)
		}
	}
	cands, _ := g.candidates(addr, typ)
	return g.simp(g.norm(g.gate(l.head, l.head, back, fmt.Sprintf("b%d", addr.id), func(e *Edge) *Term {
		return g.readFrom(e.from, len(e.from.items), addr, typ, cands)
	})))
}

func empty(t *Term) bool {
	return t.op == ONil || t.op == OZeroStr || t.op == OSeq && len(t.args) == 0
}

// flat lists the contents of a list of lines.
func (lf *lineFn) flat(t *Term) ([]tok, bool) {
	if empty(t) {
		return nil, true
	}
	switch t.op {
	case OLoopVar, OParam:
		return []tok{{'L', t}}, true
	case OSeq:
		var out []tok
		for i, a := range t.args {
			if t.s[i] == 's' {
				x, ok := lf.flat(a)
				if !ok {
					return nil, false
				}
				out = append(out, x...)
				continue
			}
			it := lf.itemsOf(a)
			if it == nil {
				return nil, false
			}
			x, ok := lf.flatItems(it)
			if !ok {
				return nil, false
			}
			out = append(append(out, x...), tok{'B', a})
		}
		return out, true
	}
	return nil, false
}

func (lf *lineFn) itemsOf(line *Term) *Term {
	st := lf.line.Underlying().(*types.Struct)
	switch line.op {
	case OStruct, OZeroStr:
		return lf.g.T.field(line, lf.fi, lf.line)
	case OLoopVar:
		if lf.ptrLine {
			return nil
		}
		return lf.g.simp(lf.g.fieldOf(line, lf.fi, lf.line, st.Field(lf.fi).Type()))
	}
	return nil
}

func (lf *lineFn) flatItems(t *Term) ([]tok, bool) {
	if empty(t) {
		return nil, true
	}
	switch t.op {
	case OLoopVar:
		return []tok{{'I', t}}, true
	case OSeq:
		var out []tok
		for i, a := range t.args {
			if t.s[i] == 's' {
				x, ok := lf.flatItems(a)
				if !ok {
					return nil, false
				}
				out = append(out, x...)
				continue
			}
			out = append(out, tok{'e', a})
		}
		return out, true
	}
	return nil, false
}

// reused: the items are written over those of a line that was finished.
func reused(items, lines *Term) *Term {
	var out *Term
	walk(items, func(x *Term) bool {
		if x.op == OSlice && (x.args[0].op == OLoopVar || x.args[0].op == OSeq) && x.args[2].op == ONum && (len(x.args) < 4 || x.args[3].op == ONone) {
			if lines.op == OSeq && len(lines.args) > 1 && (x.args[0].op == OLoopVar || contains(lines, func(y *Term) bool { return y == x.args[0] })) {
				out = x
			}
		}
		return out == nil
	})
	return out
}

func tokStr(ts []tok) string {
	var out []string
	for _, t := range ts {
		switch t.k {
		case 'L':
			out = append(out, "the lines so far")
		case 'I':
			out = append(out, "the words of the open line")
		case 'e':
			out = append(out, "a new word")
		case 'B':
			out = append(out, "end of line")
		}
	}
	if len(out) == 0 {
		return "nothing"
	}
	return strings.Join(out, ", ")
}

func noBreaks(ts []tok) []tok {
	var out []tok
	for _, t := range ts {
		if t.k != 'B' {
			out = append(out, t)
		}
	}
	return out
}

func sameToks(a, b []tok) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// field reads a field of an item at the end of a way round the loop.
func (lf *lineFn) itemField(l *Loop, it *Term, i int) *Term {
	st := lf.item.Underlying().(*types.Struct)
	if !lf.ptrItem {
		return lf.g.simp(lf.g.T.field(it, i, lf.item))
	}
	return lf.g.atBack(l, lf.g.T.faddr(it, i, lf.item), st.Field(i).Type())
}

// pair tells which lines and open line belong together.
func (lf *lineFn) findPairs() bool {
	g := lf.g
	note := func(ts []tok) {
		for i := 0; i+1 < len(ts); i++ {
			if ts[i].k == 'L' && ts[i+1].k == 'I' {
				if li, ok := ts[i].t.data.(*loopInfo); ok {
					if ii, ok := ts[i+1].t.data.(*loopInfo); ok && li.head == ii.head {
						p := linePair{ts[i].t, ts[i+1].t}
						for _, q := range lf.pairs {
							if q == p {
								return
							}
						}
						lf.pairs = append(lf.pairs, p)
					}
				}
			}
		}
	}
	var todo []*Term
	seen := map[*Term]bool{}
	push := func(t *Term) {
		walk(t, func(x *Term) bool {
			if x.op == OLoopVar && !seen[x] {
				seen[x] = true
				todo = append(todo, x)
			}
			return true
		})
	}
	scan := func(t *Term) {
		ls, ok := g.leaves([]*Term{t})
		if !ok {
			return
		}
		for _, l := range ls {
			if ts, ok := lf.flat(l.ts[0]); ok {
				note(ts)
			}
		}
	}
	for _, r := range g.results(0) {
		push(r.t)
		scan(r.t)
	}
	for len(todo) > 0 {
		x := todo[0]
		todo = todo[1:]
		init, next, _ := g.loopInfo(x)
		init, next = g.simp(init), g.simp(next)
		push(init)
		push(next)
		if next.op == OSeq || next.op == OIte || next.op == OLoopVar {
			scan(next)
		}
	}
	return len(lf.pairs) > 0
}

func (lf *lineFn) pairOf(l *Term) *linePair {
	for i := range lf.pairs {
		if lf.pairs[i].l == l {
			return &lf.pairs[i]
		}
	}
	return nil
}

func (lf *lineFn) pairAt(head *Node) *linePair {
	for i := range lf.pairs {
		if lf.pairs[i].l.data.(*loopInfo).head == head {
			return &lf.pairs[i]
		}
	}
	return nil
}

func (p linePair) head() *Node { return p.l.data.(*loopInfo).head }

// openIn: the items of the open line at a loop head, found by the variable
// that becomes those of the outer loop.
func (lf *lineFn) innerPair(outer linePair, l *Term) *linePair {
	if p := lf.pairOf(l); p != nil {
		return p
	}
	// the same variable (or memory cell) at the inner head
	h := l.data.(*loopInfo).head
	var found *linePair
	_, next, _ := lf.g.loopInfo(outer.i)
	walk(lf.g.simp(next), func(x *Term) bool {
		if x.op == OLoopVar {
			if li, ok := x.data.(*loopInfo); ok && li.head == h && found == nil && x != l {
				found = &linePair{l, x}
			}
		}
		return x.op == OIte
	})
	if found != nil {
		lf.pairs = append(lf.pairs, *found)
		return &lf.pairs[len(lf.pairs)-1]
	}
	return nil
}

func ruleC10(c *Ck) {
	lfs := c.lineFns()
	if len(lfs) == 0 {
		c.und("C10.breakers", "Process", "no line breaker found")
		return
	}
	for _, lf := range lfs {
		lf.contents(true)
		lf.ownItems()
	}
	c.drawLines()
}

// ownItems: an object is appended to a line once only.
func (lf *lineFn) ownItems() {
	c := lf.c
	rule := "C10.own"
	var item types.Type
	if st, ok := lf.line.Underlying().(*types.Struct); ok && lf.fi >= 0 {
		if s, ok := st.Field(lf.fi).Type().Underlying().(*types.Slice); ok {
			item = s.Elem()
		}
	}
	if item == nil {
		return
	}
	if _, ok := item.Underlying().(*types.Pointer); !ok {
		c.ok(rule, lf.name+": words by value")
		return
	}
	fs := []*ssa.Function{lf.fn}
	fs = append(fs, lf.fn.AnonFuncs...)
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || !types.Identical(st.Val.Type(), item) {
					continue
				}
				ia, ok := st.Addr.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				if _, ok := ia.X.(*ssa.Alloc); !ok {
					continue // not the arguments of an append
				}
				a, ok := st.Val.(*ssa.Alloc)
				if !ok {
					continue
				}
				// round to the same place without a new object
				seen := map[*ssa.BasicBlock]bool{}
				var again func(x *ssa.BasicBlock) bool
				again = func(x *ssa.BasicBlock) bool {
					for _, s := range x.Succs {
						if s == a.Block() || seen[s] {
							continue
						}
						if s == b {
							return true
						}
						seen[s] = true
						if again(s) {
							return true
						}
					}
					return false
				}
				c.expect(a.Block() == b || !again(b), rule, lf.name, c.P.instrPos(in), "the same object is appended again for another word")
			}
		}
	}
}

// contents proves by induction that the lines hold every word once, in order.
// It fills in the word loops; with report unset nothing is reported.
func (lf *lineFn) contents(report bool) {
	c, g, T := lf.c, lf.g, lf.g.T
	rule := "C10.words"
	und := func(con, msg string, as ...any) {
		if report {
			c.und(rule, lf.name+con, msg, as...)
		}
	}
	fail := func(con, pos, msg string, as ...any) {
		if report {
			c.fail(rule, lf.name+con, pos, msg, as...)
		}
	}
	good := func(con string) {
		if report {
			c.ok(rule, lf.name+con)
		}
	}
	lf.words = nil
	if !lf.findPairs() {
		und("", "the lines and the open line are not evident")
		return
	}
	// what is returned
	var outer *linePair
	bad := ""
	badPos := ""
	rs := g.results(0)
	type rl struct {
		l    leaf
		toks []tok
		pos  string
	}
	var rls []rl
	for _, r := range rs {
		facts := g.factsAt(r.n)
		ls, ok := g.leaves([]*Term{r.t}, facts...)
		if !ok {
			und(" result", "too many cases")
			return
		}
		for _, l := range ls {
			l.lits = append(l.lits, facts...)
			ts, ok := lf.flat(l.ts[0])
			if !ok {
				und(" result", "the lines returned are not understood: %s", clip(l.ts[0].String(), 200))
				return
			}
			for _, t := range ts {
				if t.k == 'L' {
					if p := lf.pairOf(t.t); p != nil && outer == nil {
						outer = p
					}
				}
			}
			rls = append(rls, rl{l, ts, r.pos})
		}
	}
	if outer == nil {
		und(" result", "the lines returned are not collected in a loop")
		return
	}
	lf.outer = *outer
	lf.results = nil
	for _, r := range rls {
		lf.results = append(lf.results, lineLeaf{lits: r.l.lits, toks: r.toks})
	}
	for _, r := range rls {
		ts := noBreaks(r.toks)
		switch {
		case sameToks(ts, []tok{{'L', outer.l}, {'I', outer.i}}):
		case sameToks(ts, []tok{{'L', outer.l}}):
			// nothing may be left in the open line
			if v, ok := T.decideUnder(r.l.lits, T.lt(T.Zero, T.len(outer.i), true)); !ok || v {
				bad, badPos = "the words of the last line can be missing from the result", r.pos
			}
		case len(ts) == 0:
			// no lines for an empty list
			if v, ok := T.decideUnder(r.l.lits, T.lt(T.Zero, T.len(lf.iss), true)); !ok || v {
				und(" result", "returns nothing if %s", r.l)
				return
			}
		default:
			bad, badPos = "the result consists of "+tokStr(r.toks), r.pos
		}
	}
	if bad != "" {
		fail(" result", badPos, "%s", bad)
	} else {
		good(" result: all lines and the open line")
	}
	// before the first element
	il, _, oh := g.loopInfo(outer.l)
	ii, _, _ := g.loopInfo(outer.i)
	il, ii = g.simp(il), g.simp(ii)
	if empty(il) && empty(ii) {
		good(" start: no lines")
	} else if il.op == OSeq || ii.op == OSeq {
		fail(" start", "", "the lines do not start empty")
	} else {
		und(" start", "the lines before the first element are not evident")
	}
	// the elements
	lp := g.loops[oh]
	if lp == nil {
		und(" elements", "no loop")
		return
	}
	seq := lf.iss
	elem := T.index(seq, T.mk(&Term{op: OIV, i: lp.head.id, data: lp}))
	elemLoad := T.load(T.mk(&Term{op: OIAddr, args: []*Term{seq, T.mk(&Term{op: OIV, i: lp.head.id, data: lp})}}))
	n := T.len(seq)
	aboutList := false
	for _, e := range lp.exits {
		if cd := g.cond(e); cd != nil && contains(cd, func(x *Term) bool { return x == n }) {
			aboutList = true
		}
	}
	if !aboutList {
		und(" elements", "the loop over the elements is not evident")
		return
	}
	if ok, why := g.completeLoop(lp, n); !ok {
		fail(" elements", "", "not every element of the list is visited: %s", why)
	} else {
		good(" elements: all visited")
	}
	_, nl, _ := g.loopInfo(outer.l)
	_, ni, _ := g.loopInfo(outer.i)
	ls, ok := g.leaves([]*Term{g.simp(nl), g.simp(ni)})
	if !ok {
		und(" elements", "too many cases")
		return
	}
	kindIn := func(lits []lit) (yes string, not map[string]bool) {
		not = map[string]bool{}
		for _, x := range lits {
			cd, v := x.c, x.v
			if cd.op == ONot {
				cd, v = cd.args[0], !v
			}
			if cd.op == OTypeIs && (cd.args[0] == elem || cd.args[0] == elemLoad) {
				k := ""
				if n := namedOf(deref(cd.typ)); n != nil {
					k = n.Obj().Name()
				}
				if v {
					yes = k
				} else {
					not[k] = true
				}
			}
		}
		return
	}
	inner := map[*Term]bool{}
	handled := map[string]bool{}
	for _, l := range ls {
		yes, not := kindIn(l.lits)
		tl, ok1 := lf.flat(l.ts[0])
		ti, ok2 := lf.flatItems(l.ts[1])
		if !ok1 || !ok2 {
			und(" elements", "the lines after an element are not understood if %s: %s, %s", l, clip(l.ts[0].String(), 120), clip(l.ts[1].String(), 120))
			continue
		}
		all := append(append([]tok{}, tl...), ti...)
		plain := noBreaks(all)
		same := sameToks(plain, []tok{{'L', outer.l}, {'I', outer.i}})
		con := " element"
		if yes != "" {
			con += " " + yes
		}
		switch {
		case yes == "LineBreak":
			handled[yes] = true
			switch {
			case !same:
				fail(con, "", "after a line break the lines hold %s", tokStr(all))
			case len(ti) != 0 || len(all) == 2:
				fail(con, "", "a line break does not end the line: %s", tokStr(all))
			case len(all) == 3 && all[2].k == 'B':
				good(con + ": ends the line")
			default:
				fail(con, "", "a line break gives %s", tokStr(all))
			}
		case same && len(all) == 2:
			// nothing changes: only for elements that are no text, or empty
			if yes == "TextBlock" || yes == "Paragraph" {
				if lf.emptyText(l.lits, elem, elemLoad) {
					good(con + ": empty texts ignored")
				} else {
					fail(con, "", "the text of a %s is dropped if %s", yes, l)
				}
				continue
			}
			if yes == "" {
				for _, k := range []string{"LineBreak", "TextBlock", "Paragraph"} {
					if !not[k] {
						fail(con+" "+k, "", "a %s can have no effect if %s", k, l)
					}
				}
			}
		default:
			// the words of a text
			ip := (*linePair)(nil)
			if len(plain) == 2 && plain[0].k == 'L' {
				ip = lf.innerPair(*outer, plain[0].t)
			}
			if ip == nil || plain[1] != (tok{'I', ip.i}) {
				if same || len(plain) > 0 && plain[0].k == 'L' && lf.pairOf(plain[0].t) == nil {
					und(con, "the lines after an element hold %s if %s", tokStr(all), l)
				} else {
					fail(con, "", "the lines after an element hold %s if %s", tokStr(all), l)
				}
				continue
			}
			if len(all) != 2 {
				// further breaks after the words
				if report {
					c.ok(rule, lf.name+con+": line ended after the text")
				}
			}
			if yes != "" {
				handled[yes] = true
			}
			if !inner[ip.l] {
				inner[ip.l] = true
				lf.wordLoop(*ip, *outer, report)
			}
		}
	}
	for _, k := range []string{"LineBreak", "TextBlock", "Paragraph"} {
		if !handled[k] {
			und(" element "+k, "no case for a %s found", k)
		}
	}
}

// emptyText: the case is that of an empty text of the element.
func (lf *lineFn) emptyText(lits []lit, elems ...*Term) bool {
	for _, x := range lits {
		var zero bool
		cd, v := x.c, x.v
		if cd.op == ONot {
			cd, v = cd.args[0], !v
		}
		var of *Term
		switch cd.op {
		case OPos: // len > 0
			zero, of = !v, cd
		case OZero:
			zero, of = v, cd
		case OEq:
			if cd.args[0] == lf.g.T.EmptyS || cd.args[1] == lf.g.T.EmptyS {
				zero, of = v, cd
			}
		}
		if of == nil || !zero {
			continue
		}
		if contains(of, func(y *Term) bool { return y.op == OLen || cd.op == OEq }) && contains(of, func(y *Term) bool {
			return y == elems[0] || y == elems[1]
		}) {
			return true
		}
	}
	return false
}

// wordLoop: every way round adds the current word at the end.
func (lf *lineFn) wordLoop(p, outer linePair, report bool) {
	c, g, T := lf.c, lf.g, lf.g.T
	rule := "C10.words"
	name := lf.name + " words"
	il, nl, h := g.loopInfo(p.l)
	ii, ni, _ := g.loopInfo(p.i)
	lp := g.loops[h]
	wl := &wordLoop{loop: lp, pair: p, outer: outer}
	und := func(con, msg string, as ...any) {
		if report {
			c.und(rule, name+con, msg, as...)
		}
	}
	fail := func(con, msg string, as ...any) {
		if report {
			c.fail(rule, name+con, g.loopPos(lp), msg, as...)
		}
	}
	// starts with what was there
	ls, ok := g.leaves([]*Term{g.simp(il), g.simp(ii)})
	if !ok {
		und("", "too many cases")
		return
	}
	for _, l := range ls {
		tl, ok1 := lf.flat(l.ts[0])
		ti, ok2 := lf.flatItems(l.ts[1])
		if !ok1 || !ok2 {
			und(" start", "the lines before the words of a text are not understood")
			continue
		}
		all := noBreaks(append(append([]tok{}, tl...), ti...))
		if !sameToks(all, []tok{{'L', outer.l}, {'I', outer.i}}) {
			fail(" start", "before the words of a text the lines hold %s", tokStr(all))
		} else if report {
			c.ok(rule, name+" start: what was there")
		}
	}
	iv := T.mk(&Term{op: OIV, i: lp.head.id, data: lp})
	// the words: a list of strings the loop runs over
	nl, ni = g.simp(nl), g.simp(ni)
	ls, ok = g.leaves([]*Term{nl, ni})
	if !ok {
		und("", "too many cases")
		return
	}
	for _, l := range ls {
		tl, ok1 := lf.flat(l.ts[0])
		ti, ok2 := lf.flatItems(l.ts[1])
		if x := reused(l.ts[1], l.ts[0]); x != nil {
			fail("", "the open line %s uses the memory of a line that is finished", clip(x.String(), 100))
			continue
		}
		if !ok1 || !ok2 {
			und("", "the lines after a word are not understood: %s if %s", clip(l.ts[0].String()+" / "+l.ts[1].String(), 300), l)
			continue
		}
		all := append(append([]tok{}, tl...), ti...)
		plain := noBreaks(all)
		if len(plain) < 2 || plain[0] != (tok{'L', p.l}) || plain[1] != (tok{'I', p.i}) {
			fail("", "after a word the lines hold %s: words are lost or reordered if %s", tokStr(all), l)
			continue
		}
		ok := true
		for _, t := range plain[2:] {
			if t.k != 'e' {
				ok = false
			}
		}
		if !ok {
			fail("", "after a word the lines hold %s: words are duplicated if %s", tokStr(all), l)
			continue
		}
		// texts of the new items
		var exprs []*Term
		for _, t := range plain[2:] {
			exprs = append(exprs, lf.itemField(lp, t.t, lf.ft))
			if lf.fs >= 0 {
				exprs = append(exprs, lf.itemField(lp, t.t, lf.fs))
			} else {
				exprs = append(exprs, T.Nil)
			}
		}
		n := len(exprs)
		// under the same choices: split again together
		ts := append(append([]*Term{}, nl, ni), exprs...)
		sub, ok := g.leaves(ts, l.lits...)
		if !ok {
			und("", "too many cases")
			continue
		}
		for _, s := range sub {
			if s.ts[0] != l.ts[0] || s.ts[1] != l.ts[1] {
				continue
			}
			w := wordLeaf{lits: append(append([]lit{}, l.lits...), s.lits...), toks: all}
			for i := 0; i < n; i += 2 {
				w.new = append(w.new, s.ts[2+i])
				w.stys = append(w.stys, s.ts[3+i])
			}
			wl.leafs = append(wl.leafs, w)
		}
	}
	// which word
	for _, w := range wl.leafs {
		for _, t := range w.new {
			walk(t, func(x *Term) bool {
				if s, i := seqElem(x); s != nil && i == iv && wl.seq == nil {
					wl.seq, wl.word = s, x
				}
				return wl.seq == nil
			})
		}
	}
	if wl.seq == nil {
		if len(wl.leafs) > 0 {
			und("", "the current word is not evident")
		}
		return
	}
	lf.words = append(lf.words, wl)
	// the word as a term of its own; its cases are those of the element
	if report {
		lf.allWords(wl, name)
		for _, w := range wl.leafs {
			lf.wordAdded(wl, w, name)
		}
	}
}

func (g *Graph) loopPos(l *Loop) string {
	for _, it := range l.head.items {
		if it.in.Pos().IsValid() {
			return g.P.instrPos(it.in)
		}
	}
	for _, e := range l.head.succs {
		for _, it := range e.to.items {
			if it.in.Pos().IsValid() {
				return g.P.instrPos(it.in)
			}
		}
	}
	return ""
}

// core strips blanks around a text.
func (T *Terms) core(t *Term) *Term {
	for {
		switch {
		case t.op == OCall && strings.HasPrefix(t.s, "strings.Trim") && len(t.args) > 0 && (len(t.args) == 1 || t.args[1].isStr() && strings.Trim(t.args[1].s, " ") == ""):
			t = t.args[0]
		case t.op == OConcat && blank(t.args[0]):
			t = T.concat(t.args[1:]...)
		case t.op == OConcat && blank(t.args[len(t.args)-1]):
			t = T.concat(t.args[:len(t.args)-1]...)
		default:
			return t
		}
	}
}

func blank(t *Term) bool { return t.isStr() && strings.Trim(t.s, " ") == "" }

func (lf *lineFn) wordAdded(wl *wordLoop, w wordLeaf, name string) {
	c, g := lf.c, lf.g
	rule := "C10.words"
	pos := g.loopPos(wl.loop)
	caseOf := leaf{lits: w.lits}.String()
	isWord := func(t *Term) bool {
		if t == wl.word {
			return true
		}
		// the same element of the same list in the case at hand
		s, i := seqElem(t)
		_, wi := seqElem(wl.word)
		if s == nil || i != wi {
			return false
		}
		return s == wl.seq || lf.sameWords(s, wl.seq)
	}
	switch len(w.new) {
	case 0:
		c.fail(rule, name, pos, "a word is dropped if %s", caseOf)
		return
	case 1:
		x := lf.g.T.core(w.new[0])
		if isWord(x) {
			c.ok(rule, name+": the word is added")
		} else if understood(x) && !contains(x, func(y *Term) bool { return y.op == OAtom }) {
			c.fail(rule, name, pos, "%s is added instead of the word if %s", clip(w.new[0].String(), 200), caseOf)
			return
		} else {
			c.und(rule, name, "%s is added", clip(w.new[0].String(), 200))
			return
		}
		lf.separated(wl, w, name, 0)
	case 2:
		a, b := w.new[0], w.new[1]
		if v := lf.hyphenated(wl, a, b, isWord); v > 0 {
			c.ok(rule, name+": both parts are added")
		} else if v < 0 {
			c.fail(rule, name, pos, "%s and %s are not the complementary parts of the word if %s", clip(a.String(), 200), clip(b.String(), 200), caseOf)
		} else {
			c.und(rule, name, "%s and %s are added", clip(a.String(), 200), clip(b.String(), 200))
		}
		// on consecutive lines
		n := len(w.toks)
		ok := false
		for i := 0; i+2 < n; i++ {
			if w.toks[i].k == 'e' && w.toks[i+1].k == 'B' && w.toks[i+2].k == 'e' {
				ok = true
			}
		}
		c.expect(ok, rule, name+" hyphenated", pos, "the parts of a hyphenated word are not on consecutive lines: %s", tokStr(w.toks))
		lf.separated(wl, w, name, 0)
	default:
		c.fail(rule, name, pos, "%d words are added for one if %s", len(w.new), caseOf)
	}
	// styles
	if lf.fs < 0 {
		return
	}
	for _, s := range w.stys {
		lf.itemStyle(wl, s, w, name)
	}
}

// sameWords: one list of words is the other in the case at hand.
func (lf *lineFn) sameWords(a, b *Term) bool {
	if a == b {
		return true
	}
	ls, ok := lf.g.leaves([]*Term{b})
	if !ok {
		return false
	}
	for _, l := range ls {
		if l.ts[0] == a {
			return true
		}
	}
	return false
}

// allWords: the loop runs over all words; the list becomes that of all cases.
func (lf *lineFn) allWords(wl *wordLoop, name string) {
	c, g, T := lf.c, lf.g, lf.g.T
	rule := "C10.words"
	pos := g.loopPos(wl.loop)
	n := g.count(wl.loop)
	if n == nil {
		_, why := g.completeLoop(wl.loop, T.len(wl.seq))
		k := 0
		for _, e := range wl.loop.exits {
			if g.liveEdge[e] {
				k++
			}
		}
		if k > 1 {
			c.fail(rule, name+" all", pos, "not every word of a text is visited: %s", why)
		} else {
			c.und(rule, name+" all", "the number of words visited is not evident: %s", why)
		}
		return
	}
	var full *Term
	walk(n, func(x *Term) bool {
		if x.op == OLen && full == nil && lf.sameWords(wl.seq, x.args[0]) {
			full = x.args[0]
		}
		return true
	})
	if full == nil {
		c.und(rule, name+" all", "the number of words visited is %s", clip(n.String(), 200))
		return
	}
	wl.seq = full
	if ls, ok := g.leaves([]*Term{full}); ok {
		for _, l := range ls {
			x := l.ts[0]
			switch {
			case x.op == OCall && (x.s == "strings.Split" && x.args[1].isStr() && x.args[1].s == " " || x.s == "strings.Fields"):
				c.ok(rule, name+" all: the words of the text")
			case x.op == OSlice && (x.args[1].op != ONone && x.args[1] != T.Zero || x.args[2].op != ONone):
				c.fail(rule, name+" all", pos, "not all words of a text are visited, only %s", clip(x.String(), 200))
			case x.op == OCall && strings.HasPrefix(x.s, "strings.Split"):
				c.fail(rule, name+" all", pos, "the words are %s", clip(x.String(), 200))
			default:
				c.und(rule, name+" all", "the words are %s", clip(x.String(), 200))
			}
		}
	}
	c.same(rule, name+" all visited", g, pos, "the number of words visited", n, T.len(full))
}

// hyphenated: a and b are the two parts of the word: 1 yes, -1 no, 0 unknown.
func (lf *lineFn) hyphenated(wl *wordLoop, a, b *Term, isWord func(*Term) bool) int {
	T := lf.g.T
	a, b = T.core(a), T.core(b)
	if x, ok := altered(b); ok && lf.hyphenated(wl, a, T.core(x), isWord) > 0 {
		return -1
	}
	if x, ok := altered(a); ok && lf.hyphenated(wl, T.core(x), b, isWord) > 0 {
		return -1
	}
	// without the hyphen
	if a.op != OConcat {
		if a.op == OCall && a.s == "strings.Join" {
			return -1
		}
		return 0
	}
	as := a.args
	for len(as) > 0 && as[0].isStr() && strings.Trim(as[0].s, " ") == "" {
		as = as[1:]
	}
	if len(as) != 2 || !as[1].isStr() {
		return 0
	}
	if as[1].s != "-" {
		return -1
	}
	x := as[0]
	if b.op == OConcat && b.args[len(b.args)-1].isStr() && b.args[len(b.args)-1].s == "-" {
		return -1 // another first part
	}
	if x.op != OCall || x.s != "strings.Join" || b.op != OCall || b.s != "strings.Join" {
		return 0
	}
	if x.args[1] != T.EmptyS || b.args[1] != T.EmptyS {
		return -1
	}
	sa, sb := x.args[0], b.args[0]
	if sa.op != OSlice || sb.op != OSlice {
		return -1
	}
	if sa.args[0] != sb.args[0] {
		return -1
	}
	if sa.args[1].op != ONone && sa.args[1] != T.Zero || sb.args[2].op != ONone && sb.args[2] != T.len(sb.args[0]) {
		return -1
	}
	if sa.args[2] != sb.args[1] {
		return -1
	}
	// the parts of the word
	parts := sa.args[0]
	if parts.op == OInv || parts.op == OCall {
		for _, y := range parts.args {
			if isStringTerm(y) && isWord(T.core(y)) {
				return 1
			}
			if isWord(y) {
				return 1
			}
		}
		return -1
	}
	return 0
}

// altered: the text that a call changes, for other characters than blanks.
func altered(t *Term) (*Term, bool) {
	if t.op != OCall || len(t.args) == 0 {
		return nil, false
	}
	switch t.s {
	case "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix",
		"strings.ToLower", "strings.ToUpper", "strings.Title", "strings.Replace", "strings.ReplaceAll":
		return t.args[0], true
	}
	return nil, false
}

func isStringTerm(t *Term) bool { return t.op == OStr || t.op == OConcat || t.op == OCall }

// separated: a word that does not start a line is set off by a blank, unless
// the drawing does that.
func (lf *lineFn) separated(wl *wordLoop, w wordLeaf, name string, i int) {
	c, T := lf.c, lf.g.T
	if lf.c.drawSpaces(lf) {
		return
	}
	// the first new item follows the open line directly?
	k := -1
	for j, t := range w.toks {
		if t.k == 'e' {
			k = j
			break
		}
	}
	if k < 1 || w.toks[k-1].k != 'I' {
		return
	}
	v, ok := T.decideUnder(w.lits, T.lt(T.Zero, T.len(wl.pair.i), true))
	if ok && !v {
		return // starts the line
	}
	t := w.new[i]
	blank := t.op == OConcat && t.args[0].isStr() && strings.HasPrefix(t.args[0].s, " ")
	rule := "C10.separate"
	if blank {
		c.ok(rule, name+": blank before the next word")
	} else if ok {
		c.fail(rule, name, lf.g.loopPos(wl.loop), "a word is appended to the one before without a blank if %s", leaf{lits: w.lits})
	} else {
		c.und(rule, name, "whether the word starts a line is not decided")
	}
}

// itemStyle: an item has the styles of its element.
func (lf *lineFn) itemStyle(wl *wordLoop, s *Term, w wordLeaf, name string) {
	c, g := lf.c, lf.g
	rule := lf.c.id + ".styles"
	ls, ok := g.leaves([]*Term{s}, w.lits...)
	if !ok {
		c.und(rule, name, "too many cases")
		return
	}
	for _, l := range ls {
		kind := kindIn(append(append([]lit{}, w.lits...), l.lits...), w.new)
		t := l.ts[0]
		st := asStyle(t)
		switch {
		case t == lf.sty:
			if kind == "Paragraph" {
				c.fail(rule, name+" Paragraph", g.loopPos(wl.loop), "the words of a paragraph have the styles of the text around it")
			} else {
				c.ok(rule, name+" "+kind+": styles of the text")
			}
		case st != nil:
			if kind == "TextBlock" {
				c.fail(rule, name+" TextBlock", g.loopPos(wl.loop), "the words of a text have other styles: %s", clip(t.String(), 200))
				continue
			}
			c.ok(rule, name+" "+kind+": own styles")
			c.expect(st.parent == lf.sty, rule, name+" "+kind+" parent", g.loopPos(wl.loop), "the styles of a paragraph inherit from %s", clip(st.parent.String(), 200))
		default:
			c.und(rule, name+" "+kind, "the styles of a word are %s", clip(t.String(), 200))
		}
	}
}

// kindIn is the kind of the element whose text is laid out: known by a test,
// or by the text.
func kindIn(lits []lit, texts []*Term) string {
	kind := ""
	for _, x := range lits {
		cd, v := x.c, x.v
		if cd.op == ONot {
			cd, v = cd.args[0], !v
		}
		if cd.op == OTypeIs && v {
			if n := namedOf(deref(cd.typ)); n != nil {
				kind = n.Obj().Name()
			}
		}
	}
	for _, t := range texts {
		walk(t, func(x *Term) bool {
			if kind == "" {
				kind = kindOf(x)
			}
			return kind == ""
		})
	}
	return kind
}

// drawSpaces: the drawing of the lines sets the words off itself.
func (c *Ck) drawSpaces(lf *lineFn) bool {
	for _, d := range c.lineDraws() {
		if d.trims {
			continue
		}
		if d.adds {
			return true
		}
	}
	return false
}

// lineDraw is a WriteText of the word of a line.
type lineDraw struct {
	g     *Graph
	ev    *Event
	text  *Term // what is written
	core  *Term // without blanks around it
	lineL *Loop // the loop over the lines
	itemL *Loop // the loop over the words of a line
	trims bool  // the blanks of the word are cut off
	adds  bool  // something is added to the word
}

// place is where a word is found: lines[a].items[b].
type place struct {
	lines, line, items, item *Term
	lineL, itemL             *Loop
}

func placeOf(t *Term) *place {
	up := func(t *Term) *Term {
		if t.op == OLoad && t.args[0].op == OFAddr {
			return t.args[0].args[0]
		}
		if t.op == OField {
			return t.args[0]
		}
		return nil
	}
	at := func(t *Term) (*Term, *Loop) {
		if t == nil {
			return nil, nil
		}
		s, i := seqElem(t)
		if t.op == OIAddr {
			s, i = t.args[0], t.args[1]
		}
		if s == nil || i.op != OIV {
			return nil, nil
		}
		l, _ := i.data.(*Loop)
		return s, l
	}
	p := &place{}
	p.item = up(t)
	p.items, p.itemL = at(p.item)
	if p.itemL == nil {
		return nil
	}
	x := p.items
	for x.op == OSlice {
		x = x.args[0]
	}
	p.line = up(x)
	p.lines, p.lineL = at(p.line)
	if p.lineL == nil {
		return nil
	}
	return p
}

// lineDraws finds what is written of lines.
func (c *Ck) lineDraws() []*lineDraw {
	if c.ldraws != nil {
		return c.ldraws
	}
	c.ldraws = []*lineDraw{}
	for _, ha := range []string{"left", "center", "right", "block"} {
		if g := c.textGraph("Text", ha); g != nil {
			c.ldraws = append(c.ldraws, g.lineDraws()...)
		}
	}
	return c.ldraws
}

func (g *Graph) lineDraws() (out []*lineDraw) {
	for _, e := range g.evs(eng("WriteText")) {
		as := g.evArgs(e)
		if len(as) < 2 {
			continue
		}
		d := &lineDraw{g: g, ev: e, text: as[1]}
		d.core = g.T.core(as[1])
		if d.core != as[1] {
			if as[1].op == OConcat {
				d.adds = true
			} else {
				d.trims = true
			}
		}
		ls, ok := g.leaves([]*Term{d.core})
		if ok {
			for n, l := range ls {
				p := placeOf(l.ts[0])
				if p == nil || n > 0 && (p.lineL != d.lineL || p.itemL != d.itemL) {
					d.lineL, d.itemL = nil, nil
					break
				}
				d.lineL, d.itemL = p.lineL, p.itemL
			}
		}
		out = append(out, d)
	}
	return
}

// drawLines: every word of every line is written, in order, in its own font.
func (c *Ck) drawLines() {
	ds := c.lineDraws()
	if len(ds) == 0 {
		c.und("C10.drawn", "Text", "nothing is written")
	}
	byLine := map[*Loop][]*Loop{}
	byItem := map[*Loop][]*lineDraw{}
	var order []*Loop
	for _, d := range ds {
		name := fnName(d.ev.c.fn)
		pos := d.g.evPos(d.ev)
		if d.lineL == nil || d.itemL == nil || d.lineL == d.itemL {
			c.und("C10.drawn", name, "what is written at %s is not understood: %s", pos, clip(d.text.String(), 200))
			continue
		}
		if byItem[d.itemL] == nil {
			if byLine[d.lineL] == nil {
				order = append(order, d.lineL)
			}
			byLine[d.lineL] = append(byLine[d.lineL], d.itemL)
		}
		byItem[d.itemL] = append(byItem[d.itemL], d)
		c.allVisited(d, name, pos)
		c.wordFont(d, name, pos)
	}
	for _, l := range order {
		var g *Graph
		name := ""
		for _, il := range byLine[l] {
			d := byItem[il][0]
			g, name = d.g, fnName(d.ev.c.fn)
			c.oncePerWord(g, il, byItem[il], name)
		}
		c.oncePerLine(g, l, byLine[l], name)
	}
}

// allVisited: the loops run over all lines and all words of a line.
func (c *Ck) allVisited(d *lineDraw, name, pos string) {
	g, T := d.g, d.g.T
	rule := "C10.drawn"
	cnt := func(l *Loop, what string) *Term {
		n := g.count(l)
		if n == nil {
			_, why := g.completeLoop(l, T.Zero)
			k := 0
			for _, e := range l.exits {
				if g.liveEdge[e] {
					k++
				}
			}
			if k > 1 {
				c.fail(rule, name+" "+what, pos, "not all %s are written: %s", what, why)
			} else {
				c.und(rule, name+" "+what, "the number of %s written is not evident: %s", what, why)
			}
		}
		return n
	}
	nl, ni := cnt(d.lineL, "lines"), cnt(d.itemL, "words")
	if nl == nil || ni == nil {
		return
	}
	ls, ok := g.leaves([]*Term{d.core, nl, ni})
	if !ok {
		c.und(rule, name, "too many cases")
		return
	}
	for _, l := range ls {
		p := placeOf(l.ts[0])
		if p == nil {
			c.und(rule, name, "what is written is not understood: %s", clip(l.ts[0].String(), 200))
			return
		}
		for _, x := range []*Term{p.lines, p.items} {
			if x.op == OSlice {
				c.fail(rule, name, pos, "only a part of the lines or words is written: %s", clip(x.String(), 200))
			}
		}
		c.same(rule, name+" lines", g, pos, "the number of lines written", l.ts[1], T.len(p.lines), l.lits...)
		c.same(rule, name+" words", g, pos, "the number of words written of a line", l.ts[2], T.len(p.items), l.lits...)
	}
}

// condsOn tells whether a branch within a loop depends on a value.
func (g *Graph) condsOn(l *Loop, is func(*Term) bool) bool {
	for n := range l.body {
		for _, e := range n.succs {
			if !g.liveEdge[e] || !l.body[e.to] {
				continue
			}
			cd := g.cond(e)
			if cd != nil && contains(cd, is) {
				return true
			}
		}
	}
	return false
}

// wordFont: a word is written in the font of its own styles.
func (c *Ck) wordFont(d *lineDraw, name, pos string) {
	g := d.g
	rule := "C10.font"
	isFont := func(t *Term) bool {
		_, ns := baseOfField(t)
		return pathIs(ns, "Font")
	}
	lazy := g.condsOn(d.itemL, func(t *Term) bool {
		return isFont(t) || t.typ != nil && strings.HasSuffix(typeKey(t.typ), "style.Font")
	})
	// the last font set on the way from the start of the loop
	for _, f := range g.lastBefore(d.ev, eng("ChangeFont")) {
		if f == nil {
			c.fail(rule, name, pos, "a word can be written before any font is set")
			continue
		}
		as := g.evArgs(f)
		ls, ok := g.leaves([]*Term{d.core, as[1]})
		if !ok {
			c.und(rule, name, "too many cases")
			continue
		}
		for _, l := range ls {
			p := placeOf(l.ts[0])
			b, ns := baseOfField(l.ts[1])
			pb := p.item
			switch {
			case pathIs(ns, "Font") && (b == pb || baseIs(l.ts[1], p.item)):
				c.ok(rule, name+": the font of the word")
			case !pathIs(ns, "Font") || lazy:
				c.und(rule, name, "the font is %s, the word %s", clip(l.ts[1].String(), 200), clip(p.item.String(), 100))
			default:
				c.fail(rule, name, pos, "a word is written in the font %s of something else", clip(l.ts[1].String(), 200))
			}
		}
	}
}

// baseIs tells whether a field path starts at b.
func baseIs(t, b *Term) bool {
	for t != nil {
		if t == b {
			return true
		}
		switch t.op {
		case OLoad, OFAddr, OField:
			t = t.args[0]
		default:
			return false
		}
	}
	return false
}

// oncePerWord: each way round the loop over the words writes once.
func (c *Ck) oncePerWord(g *Graph, l *Loop, ds []*lineDraw, name string) {
	rule := "C10.once"
	pos := g.evPos(ds[0].ev)
	is := map[*Event]bool{}
	for _, d := range ds {
		is[d.ev] = true
	}
	lo, hi := 9, 0
	note := func(s int) { lo, hi = min(lo, s), max(hi, s) }
	g.iteration(l, 0, func(e *Event, s int) (int, bool) {
		if is[e] {
			s++
		}
		return min(s, 3), false
	}, note, nil)
	dep := g.condsOn(l, func(t *Term) bool {
		p := placeOf(t)
		return p != nil && p.itemL == l
	})
	switch {
	case lo == 1 && hi == 1:
		c.ok(rule, name+" words")
	case hi > 1:
		c.fail(rule, name+" words", pos, "a word can be written twice")
	case dep:
		c.und(rule, name+" words", "whether a word is written depends on it")
	default:
		c.fail(rule, name+" words", pos, "a word can be skipped")
	}
}

// oncePerLine: each way round the loop over the lines visits its words once.
func (c *Ck) oncePerLine(g *Graph, l *Loop, items []*Loop, name string) {
	rule := "C10.once"
	lo, hi := 9, 0
	fl := &flow{g: g, step: func(e *Event, s int) (int, bool) { return s, false }}
	fl.edge = func(e *Edge, s int) (int, bool) {
		if e.to == l.head {
			lo, hi = min(lo, s), max(hi, s)
			return s, false
		}
		if !l.body[e.to] {
			return s, false
		}
		for _, il := range items {
			if e.to == il.head && !il.body[e.from] {
				s = min(s+1, 3)
			}
		}
		return s, true
	}
	fl.run(point{l.head, 0}, 0)
	dep := lo == 0 && g.onlyEmpty(l, items)
	switch {
	case lo == 1 && hi == 1:
		c.ok(rule, name+" lines")
	case hi > 1:
		c.fail(rule, name+" lines", g.loopPos(l), "a line can be written twice")
	case dep:
		c.ok(rule, name+" lines: all but empty ones")
	default:
		c.fail(rule, name+" lines", g.loopPos(l), "a line can be skipped")
	}
}

// onlyEmpty tells whether the ways round a loop that avoid the given loops
// all find that a list of a line is empty.
func (g *Graph) onlyEmpty(l *Loop, items []*Loop) bool {
	budget := 2000
	seen := map[*Node]bool{}
	var rec func(n *Node) bool
	rec = func(n *Node) bool {
		if budget--; budget < 0 {
			return false
		}
		if seen[n] {
			return true
		}
		seen[n] = true
		defer delete(seen, n)
		for _, e := range n.succs {
			if !g.liveEdge[e] {
				continue
			}
			if e.to == l.head {
				return false
			}
			skip := !l.body[e.to]
			for _, il := range items {
				if e.to == il.head {
					skip = true
				}
			}
			if skip {
				continue
			}
			if cd := g.cond(e); cd != nil && g.emptyTest(cd) {
				continue // nothing to write
			}
			if !rec(e.to) {
				return false
			}
		}
		return true
	}
	return rec(l.head)
}

// emptyTest tells whether a condition says that a list is empty.
func (g *Graph) emptyTest(cd *Term) bool {
	ls, ok := g.leaves([]*Term{cd})
	if !ok {
		return false
	}
	T := g.T
	for _, l := range ls {
		x := l.ts[0]
		if x == T.False {
			continue
		}
		hit := false
		walk(x, func(y *Term) bool {
			if y.op == OLen {
				if v, ok := T.decideUnder([]lit{{x, true}}, T.lt(T.Zero, y, true)); ok && !v {
					hit = true
				}
			}
			return !hit
		})
		if !hit {
			return false
		}
	}
	return true
}
