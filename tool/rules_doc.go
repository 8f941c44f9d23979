package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C06", "value-flow terms of the items of the description per kind of element (name, value, style differences, children), order of items as sequence terms, loop completeness", ruleC06)
}

// ---- C06

// listPart is part of a list: an item, the items of a loop, or those of a
// call.
type listPart struct {
	item *Term
	call *Event
	loop *Loop
	body []listPart
	lits []lit // of an item: the case it is for
	lost bool  // those before are dropped
	back bool  // it is put in front of the others
}

// parts takes a list apart.
func (g *Graph) parts(t *Term, d int) (out []listPart, ok bool, why string) {
	t = g.simp(t)
	if d > 12 {
		return nil, false, "too deep"
	}
	switch t.op {
	case ONil:
		return nil, true, ""
	case OSeq:
		for i, a := range t.args {
			if t.s[i] == 'e' {
				out = append(out, listPart{item: a})
				continue
			}
			ps, ok, why := g.parts(a, d+1)
			if !ok {
				return nil, false, why
			}
			out = append(out, ps...)
		}
		return out, true, ""
	case OInv, OProj:
		x := t
		if t.op == OProj && t.i == 0 {
			x = t.args[0]
		}
		if e, ok := x.data.(*Event); ok && x.op == OInv {
			return []listPart{{call: e}}, true, ""
		}
	case OLoopVar, OField:
		init, next, head := g.loopField(t)
		if init == nil || next == nil {
			return nil, false, "a list built in a loop is not evident"
		}
		pre, ok, why := g.parts(init, d+1)
		if !ok {
			return nil, false, why
		}
		ls, ok := g.leaves([]*Term{next})
		if !ok {
			return nil, false, "too many cases"
		}
		lp := listPart{loop: g.loops[head]}
		for _, l := range ls {
			n := l.ts[0]
			if sameCell(n, t) {
				// nothing is added
				lp.body = append(lp.body, listPart{lits: l.lits})
				continue
			}
			if (n.op == OSeq || n.op == OInv || n.op == OProj && n.args[0].op == OInv) && !contains(n, func(x *Term) bool { return sameCell(x, t) }) {
				lp.body = append(lp.body, listPart{lost: true, lits: l.lits})
				continue
			}
			if k := len(n.args) - 1; n.op == OSeq && k > 0 && n.s[k] == 's' && sameCell(n.args[k], t) {
				lp.body = append(lp.body, listPart{back: true, lits: l.lits})
				continue
			}
			if n.op != OSeq || len(n.args) == 0 || !sameCell(n.args[0], t) || n.s[0] != 's' {
				return nil, false, "the list is " + clip(n.String(), 150)
			}
			for i, a := range n.args[1:] {
				if n.s[i+1] == 'e' {
					lp.body = append(lp.body, listPart{item: a, lits: l.lits})
					continue
				}
				ps, ok, why := g.parts(a, d+1)
				if !ok {
					return nil, false, why
				}
				for _, p := range ps {
					p.lits = append(append([]lit{}, l.lits...), p.lits...)
					lp.body = append(lp.body, p)
				}
			}
		}
		return append(pre, lp), true, ""
	}
	return nil, false, "the list is " + clip(t.String(), 150)
}

// loopField: a variable of a loop or a field of one.
func (g *Graph) loopField(t *Term) (init, next *Term, head *Node) {
	if t.op != OField {
		return g.loopInfo(t)
	}
	i, n, h := g.loopField(t.args[0])
	if i == nil || n == nil {
		return nil, nil, nil
	}
	return g.simp(g.T.field(i, t.i, t.typ)), g.simp(g.T.field(n, t.i, t.typ)), h
}

// sameCell: the variables of a loop are the same, or one is the field of the
// other.
func sameCell(a, b *Term) bool {
	if a == b {
		return true
	}
	cell := func(t *Term) (addr *Term, head *Node) {
		var up []*Term
		for t.op == OField {
			up = append(up, t)
			t = t.args[0]
		}
		if t.op != OLoopVar {
			return nil, nil
		}
		li := t.data.(*loopInfo)
		if addr = li.addr; addr == nil {
			return nil, nil
		}
		for i := len(up) - 1; i >= 0; i-- {
			addr = li.g.T.faddr(addr, up[i].i, up[i].typ)
		}
		return addr, li.head
	}
	x, h := cell(a)
	y, k := cell(b)
	return x != nil && x == y && h == k
}

// walkLoops visits a term and those the variables of loops in it stand for.
func (g *Graph) walkLoops(t *Term, f func(*Term) bool) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		walk(t, func(x *Term) bool {
			if x.op == OLoopVar && !seen[x] {
				seen[x] = true
				if init, next, _ := g.loopInfo(x); init != nil && next != nil {
					rec(init)
					rec(next)
				}
			}
			if j, ok := x.data.(*exitJoin); ok && x.op == OAtom && !seen[x] {
				seen[x] = true
				for _, v := range j.vals {
					rec(g.simp(v.t))
				}
			}
			return f(x)
		})
	}
	rec(t)
}

// settled: a field that the loop does not change has the value it had before.
func (g *Graph) settled(t *Term) *Term { return g.settledAt(t, 0) }

func (g *Graph) settledAt(t *Term, d int) *Term {
	init, next, _ := g.loopField(t)
	if init == nil || next == nil || d > 8 {
		return t
	}
	v := g.settledAt(init, d+1)
	if next == init || next == v || sameCell(next, t) || g.settledAt(next, d+1) == v {
		return v
	}
	return t
}

// docPath: the fields that lead from a root to a value.
func docPath(t *Term) (root *Term, path string) {
	var names []string
	for {
		switch t.op {
		case OLoad, OIface, OConv:
			t = t.args[0]
			continue
		case OFAddr, OField:
			st, ok := t.typ.Underlying().(*types.Struct)
			if !ok {
				return t, ""
			}
			f := st.Field(t.i)
			if !f.Embedded() {
				names = append([]string{f.Name()}, names...)
			}
			t = t.args[0]
			continue
		}
		return t, strings.Join(names, ".")
	}
}

type itemSpec struct {
	name  string
	path  string // of the value
	text  bool   // the value is derived from the text
	style bool
	kids  []itemSpec
	list  string // or: the instructions of this field
}

var kindItems = map[string]itemSpec{
	"Font":      {name: "font", style: true},
	"LineFeed":  {name: "line-feed", path: "Lines"},
	"SetX":      {name: "setx", path: "X"},
	"SetY":      {name: "sety", path: "Y"},
	"Box":       {name: "box", style: true, list: "ISS"},
	"Text":      {name: "text", style: true, list: "ISS"},
	"Paragraph": {name: "paragraph", style: true, path: "Text", text: true},
	"LineBreak": {name: "line-break"},
	"PageBreak": {name: "page-break"},
	"TextBlock": {name: "text-block", path: "Text", text: true},
	"Image":     {name: "image", style: true, path: "Source"},
	"Table":     {name: "table", style: true},
	"Grid":      {name: "grid", style: true},
	"TableRow":  {name: "table-row", style: true},
	"TableCell": {name: "table-cell", style: true, list: "ISS"},
	"GridRow":   {name: "grid-row", style: true, path: "Areas", text: true},
	"GridPart":  {name: "grid-part", style: true, path: "Area", list: "ISS"},
}

var docItems = []itemSpec{
	{name: "meta", kids: []itemSpec{{name: "author", path: "Meta.Author"}, {name: "creator", path: "Meta.Creator"}, {name: "subject", path: "Meta.Subject"}}},
	{name: "page", kids: []itemSpec{{name: "orientation", path: "Page.Orientation"}, {name: "format", path: "Page.Format"},
		{name: "margins", kids: []itemSpec{{name: "left", path: "Page.Margins.Left"}, {name: "top", path: "Page.Margins.Top"}, {name: "right", path: "Page.Margins.Right"}, {name: "bottom", path: "Page.Margins.Bottom"}}}}},
	{name: "header", list: "Header.ISS"},
	{name: "footer", list: "Footer.ISS"},
	{name: "body", list: "Body.ISS"},
}

type describer struct {
	c            *Ck
	rule         string
	lists, diffs map[*ssa.Function]bool
}

func ruleC06(c *Ck) {
	d := &describer{c: c, rule: "C06.items", lists: map[*ssa.Function]bool{}, diffs: map[*ssa.Function]bool{}}
	item := modPath + "/xdoc.DescribeItem"
	for _, f := range c.P.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != modPath+"/xdoc" || len(f.Blocks) == 0 || f.Synthetic != "" {
			continue
		}
		sig := f.Signature
		if sig.Results().Len() == 0 {
			continue
		}
		switch typeKey(sig.Results().At(0).Type()) {
		case "[]" + item:
			for i := 0; i < sig.Params().Len(); i++ {
				switch typeKey(sig.Params().At(i).Type()) {
				case modPath + "/xdoc.Instructions", "*" + modPath + "/xdoc.Instructions", "[]" + modPath + "/xdoc.Instruction":
					d.lists[f] = true
				}
			}
		case "[]" + modPath + "/xdoc.Diff":
			for i := 0; i < sig.Params().Len(); i++ {
				if typeKey(sig.Params().At(i).Type()) == modPath+"/xdoc.Instruction" {
					d.diffs[f] = true
				}
			}
		}
	}
	if len(d.lists) == 0 || len(d.diffs) == 0 {
		c.und(d.rule, "xdoc", "the functions that describe elements are not evident")
		return
	}
	c.protect(d.rule, d.document)
	c.protect("C06.compare", c.differences)
	for _, f := range sortedFns(d.lists) {
		for _, k := range sortedKeys(kindItems) {
			switch k {
			case "TableRow", "TableCell", "GridRow", "GridPart":
				continue
			}
			k := k
			c.protect(d.rule, func() { d.kind(f, k) })
		}
	}
	for _, f := range sortedFns(d.diffs) {
		f := f
		c.protect("C06.styles", func() { c.styleDiffs(f) })
	}
	c.protect("C06.diff", c.diffs)
	c.protect("C06.names", c.styleNames)
	c.protect("C06.dump", c.dump)
}

func (d *describer) graph(f *ssa.Function, self bool, assume Assume) *Graph {
	o := defaultOptions(d.c.P)
	op := o.Opaque
	o.Opaque = func(x *ssa.Function) bool {
		return d.diffs[x] || d.lists[x] || op != nil && op(x)
	}
	pure := o.Pure
	names := map[string]bool{}
	for x := range d.diffs {
		names[fnName(x)] = true
	}
	for x := range d.lists {
		names[fnName(x)] = true
	}
	_ = pure
	nc := o.NoClobber
	o.NoClobber = func(s string) bool { return names[s] || nc != nil && nc(s) }
	o.Assume = assume
	return d.c.newGraph(f, o)
}

func (d *describer) document() {
	c := d.c
	f := c.P.fn("xdoc", "Describe")
	if f == nil {
		c.und(d.rule, "Describe", "no such function found")
		return
	}
	g := d.graph(f, false, nil)
	if g == nil {
		return
	}
	doc := g.val(g.root, f.Params[0])
	for _, r := range g.results(0) {
		st, ok := deref(f.Signature.Results().At(0).Type()).Underlying().(*types.Struct)
		if !ok {
			c.und(d.rule, "Describe", "the result is not a struct")
			return
		}
		fi := -1
		for i := 0; i < st.NumFields(); i++ {
			if strings.HasSuffix(typeKey(st.Field(i).Type()), "]"+modPath+"/xdoc.DescribeItem") {
				fi = i
			}
		}
		if fi < 0 {
			c.und(d.rule, "Describe", "where the items are is not evident")
			return
		}
		a := g.T.faddr(r.t, fi, deref(f.Signature.Results().At(0).Type()))
		items := g.read(r.n, len(r.n.items), a, st.Field(fi).Type())
		ls, ok := g.leaves([]*Term{items})
		if !ok {
			ls = []leaf{{ts: []*Term{items}}}
		}
		for _, l := range ls {
			ps, ok, why := g.parts(l.ts[0], 0)
			if !ok {
				c.und(d.rule, "document", "%s", why)
				continue
			}
			d.items(g, "document", r.pos, ps, docItems, doc)
		}
	}
}

// items compares the items of a list with those specified.
func (d *describer) items(g *Graph, con, pos string, ps []listPart, want []itemSpec, root *Term) {
	c := d.c
	if len(ps) != len(want) {
		fine := true
		for _, p := range ps {
			fine = fine && p.item != nil
		}
		if fine {
			c.fail(d.rule, con, pos, "%d items instead of %d are described", len(ps), len(want))
		} else {
			c.und(d.rule, con, "the items are not evident")
		}
		return
	}
	for i, p := range ps {
		if p.item == nil {
			c.und(d.rule, con+" "+want[i].name, "the item is not evident")
			continue
		}
		d.item(g, con, pos, p.item, want[i], root)
	}
}

// item compares one item.
func (d *describer) item(g *Graph, con, pos string, it *Term, want itemSpec, root *Term) {
	c := d.c
	it = g.simp(it)
	con += " " + want.name
	st, _ := it.typ.Underlying().(*types.Struct)
	if it.op != OStruct && it.op != OLoopVar || st == nil {
		c.und(d.rule, con, "the item is %s", clip(it.String(), 150))
		return
	}
	get := func(n string) *Term {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return g.settled(g.simp(g.T.field(it, i, it.typ)))
			}
		}
		return nil
	}
	name, val, sty, kids := get("Name"), get("Value"), get("StyleDiffs"), get("Items")
	if name == nil || val == nil || sty == nil || kids == nil {
		c.und(d.rule, con, "the fields of an item are not evident")
		return
	}
	switch {
	case name.isStr() && name.s == want.name:
		c.ok(d.rule, con+": name")
	case name.isStr():
		c.fail(d.rule, con+" name", pos, "described as %q", name.s)
	default:
		d.spans(g, con, pos, name, want, root)
	}
	// value
	if want.path == "" {
		if val.op != ONil {
			c.und(d.rule, con+" value", "the value is %s", clip(val.String(), 150))
		}
	} else {
		d.value(g, con, pos, val, want, root)
	}
	// style differences
	if want.style {
		ok := false
		for _, l := range cases(g, sty) {
			if e, is := l.data.(*Event); is && l.op == OInv && e.fn != nil && d.diffs[e.fn] {
				ok = true
				as := g.evArgs(e)
				el := as[len(as)-1]
				for _, a := range as {
					if typeKey(a.typ) == modPath+"/xdoc.Instruction" || a.op == OIface {
						el = a
					}
				}
				for _, el := range cases(g, el) {
					if sameEl(el, root) {
						c.ok(d.rule, con+": style differences")
					} else if _, p := docPath(el); p != "" || stripEl(el).op == OIndex || stripEl(el).op == OIAddr || stripEl(el).op == OAlloc || stripEl(el).op == OLoad {
						c.fail(d.rule, con+" styles", pos, "the style differences are those of %s", clip(el.String(), 150))
					} else {
						c.und(d.rule, con+" styles", "the style differences are those of %s", clip(el.String(), 150))
					}
				}
			} else if l.op == ONil || l.op == OSeq && len(l.args) == 0 {
				c.fail(d.rule, con+" styles", pos, "the style differences are not described")
				ok = true
			}
		}
		if !ok {
			c.und(d.rule, con+" styles", "the style differences are %s", clip(sty.String(), 150))
		}
	}
	// children
	if len(want.kids) == 0 && want.list == "" && want.name != "table" && want.name != "table-row" && want.name != "grid" {
		if kids.op != ONil && !(kids.op == OSeq && len(kids.args) == 0) {
			c.und(d.rule, con+" items", "the items are %s", clip(kids.String(), 150))
		}
		return
	}
	ps, ok, why := g.parts(kids, 0)
	if !ok {
		c.und(d.rule, con+" items", "%s", why)
		return
	}
	switch {
	case len(want.kids) > 0:
		d.items(g, con, pos, ps, want.kids, root)
	case want.list != "":
		if len(ps) == 0 {
			c.fail(d.rule, con+" items", pos, "the elements are not described")
			return
		}
		if len(ps) == 1 && ps[0].loop != nil {
			e, done := d.relayed(g, con, pos, ps[0])
			if done {
				return
			}
			if e != nil {
				ps = []listPart{{call: e}}
			}
		}
		if len(ps) != 1 || ps[0].call == nil || ps[0].call.fn == nil || !d.lists[ps[0].call.fn] {
			c.und(d.rule, con+" items", "the items are %s", clip(kids.String(), 150))
			return
		}
		as := g.evArgs(ps[0].call)
		r, p := docPath(as[len(as)-1])
		if !strings.HasSuffix(p, "ISS") {
			if p != "" {
				p += "."
			}
			p += "ISS"
		}
		if !sameEl(r, root) {
			c.fail(d.rule, con+" items", pos, "the elements described are those of %s", clip(as[len(as)-1].String(), 150))
			return
		}
		c.expect(p == want.list, d.rule, con+" items", pos, "the elements described are those of %s", p)
	case want.name == "table":
		d.children(g, con, pos, ps, root, []string{"Rows"}, []string{"TableRow"})
	case want.name == "table-row":
		d.children(g, con, pos, ps, root, []string{"Cells"}, []string{"TableCell"})
	case want.name == "grid":
		d.children(g, con, pos, ps, root, []string{"Rows", "Parts"}, []string{"GridRow", "GridPart"})
	}
}

// relayed: the items are those of a list described before, copied one by one.
// It yields the call that made that list; done is set if the copies are not
// the same.
func (d *describer) relayed(g *Graph, con, pos string, lp listPart) (e *Event, done bool) {
	c, T := d.c, g.T
	iv := g.iv(lp.loop)
	var src *Term
	for _, b := range lp.body {
		walk(orNil(b.item, T), func(x *Term) bool {
			if s, i := seqElem(x); s != nil && i == iv && s.op == OInv && src == nil {
				src = s
			}
			return src == nil
		})
	}
	if src == nil {
		return nil, false
	}
	ev, ok := src.data.(*Event)
	if !ok || ev.fn == nil || !d.lists[ev.fn] {
		return nil, false
	}
	if ok, why := g.completeLoop(lp.loop, T.len(src)); !ok {
		c.und(d.rule, con+" items", "%s", why)
		return nil, true
	}
	own := func(x *Term) bool {
		s, i := seqElem(x)
		return s == src && i == iv
	}
	for _, b := range lp.body {
		if d.misplaced(con+" items", pos, b) {
			return nil, true
		}
		switch {
		case b.item == nil && b.call == nil && b.loop == nil:
			c.fail(d.rule, con+" items", pos, "the description of an element is left out%s", ifs(b.lits))
			return nil, true
		case b.item == nil:
			c.und(d.rule, con+" items", "the descriptions of the elements are not copied one by one")
			return nil, true
		case own(b.item):
			continue
		case b.item.op == OStruct:
			st, ok := b.item.typ.Underlying().(*types.Struct)
			if !ok {
				break
			}
			for i, a := range b.item.args {
				if a.op == OField && own(a.args[0]) && a.i == i {
					continue
				}
				if a.op == OLoad && a.args[0].op == OFAddr && a.args[0].i == i && a.args[0].args[0].op == OIAddr && a.args[0].args[0].args[0] == src && a.args[0].args[0].args[1] == iv {
					continue
				}
				if contains(a, func(x *Term) bool { return x == src }) && a.op != OStr {
					c.und(d.rule, con+" items", "%s of the description of an element becomes %s", st.Field(i).Name(), clip(a.String(), 150))
				} else {
					c.fail(d.rule, con+" items", pos, "%s of the description of an element becomes %s%s", st.Field(i).Name(), clip(a.String(), 150), ifs(b.lits))
				}
				return nil, true
			}
			continue
		}
		c.und(d.rule, con+" items", "the description of an element becomes %s", clip(b.item.String(), 150))
		return nil, true
	}
	return ev, false
}

func orNil(t *Term, T *Terms) *Term {
	if t == nil {
		return T.Nil
	}
	return t
}

// misplaced: an item of a loop that does not follow those before it.
func (d *describer) misplaced(con, pos string, b listPart) bool {
	switch {
	case b.lost:
		d.c.fail(d.rule, con+" lost", pos, "the items before are dropped%s", ifs(b.lits))
	case b.back:
		d.c.fail(d.rule, con+" order", pos, "items are put in front of those before%s", ifs(b.lits))
	default:
		return false
	}
	return true
}

// stripEl: the element behind conversions and assertions.
func stripEl(t *Term) *Term {
	for {
		switch t.op {
		case OIface, OAssert, OConv:
			t = t.args[0]
			continue
		case OLoad:
			t = t.args[0]
			continue
		case OFAddr, OField:
			// an embedded part of it
			if st, ok := t.typ.Underlying().(*types.Struct); ok && st.Field(t.i).Embedded() {
				t = t.args[0]
				continue
			}
		}
		return t
	}
}

func sameEl(a, b *Term) bool {
	a, b = stripEl(a), stripEl(b)
	if a == b {
		return true
	}
	el := func(t *Term) bool { return t.op == OIndex || t.op == OIAddr }
	return el(a) && el(b) && a.args[0] == b.args[0] && a.args[1] == b.args[1]
}

// children: one item for every element of the lists, in order.
func (d *describer) children(g *Graph, con, pos string, ps []listPart, root *Term, fields, kinds []string) {
	c := d.c
	if len(ps) != len(fields) {
		if len(ps) < len(fields) {
			c.fail(d.rule, con+" items", pos, "not all parts of the element are described")
		} else {
			c.und(d.rule, con+" items", "the items are not evident")
		}
		return
	}
	for i, p := range ps {
		if p.loop == nil {
			c.und(d.rule, con+" "+kinds[i], "the items are not evident")
			continue
		}
		iv := g.T.mk(&Term{op: OIV, i: p.loop.head.id, data: p.loop})
		for _, b := range p.body {
			if d.misplaced(con+" "+kinds[i], pos, b) {
				continue
			}
			if b.item == nil && b.call == nil && b.loop == nil {
				c.fail(d.rule, con+" "+kinds[i], pos, "an element is left out if %s", leaf{lits: b.lits})
				continue
			}
			if b.item == nil {
				c.und(d.rule, con+" "+kinds[i], "the items are not evident")
				continue
			}
			// the element: of the list, at the position of the loop
			var el *Term
			g.walkLoops(b.item, func(x *Term) bool {
				if s, at := seqElem(x); s != nil && el == nil && contains(at, func(y *Term) bool { return y == iv }) {
					if _, q := docPath(s); strings.HasSuffix(q, fields[i]) || strings.HasSuffix(q, fields[len(fields)-1-i]) {
						el = x
					}
				}
				return el == nil
			})
			if el == nil {
				if contains(b.item, func(x *Term) bool { s, _ := seqElem(x); return s != nil }) {
					c.und(d.rule, con+" "+kinds[i], "the element described is not evident: %s", clip(b.item.String(), 200))
				} else {
					c.und(d.rule, con+" "+kinds[i], "the item is %s", clip(b.item.String(), 200))
				}
				continue
			}
			s, at := seqElem(el)
			r, q := docPath(s)
			if at != iv || !sameEl(r, root) || q != fields[i] {
				c.fail(d.rule, con+" "+kinds[i], pos, "number %s of %s is described", clip(at.String(), 60), clip(s.String(), 100))
				continue
			}
			if ok, why := g.completeLoop(p.loop, g.T.len(s)); !ok {
				c.fail(d.rule, con+" "+kinds[i], pos, "not all elements are described: %s", why)
				continue
			}
			c.ok(d.rule, con+": all of the "+fields[i])
			d.item(g, con, pos, b.item, kindItems[kinds[i]], el)
		}
	}
}

// spans: the name of a cell contains its spans.
func (d *describer) spans(g *Graph, con, pos string, name *Term, want itemSpec, root *Term) {
	c := d.c
	if want.name != "table-cell" {
		c.und(d.rule, con+" name", "the name is %s", clip(name.String(), 150))
		return
	}
	var flds []string
	format := ""
	add := func(a *Term) {
		r, p := docPath(a)
		if !sameEl(r, root) {
			p = "?"
		}
		flds = append(flds, p)
	}
	switch {
	case name.op == OCall && name.s == "fmt.Sprintf" && name.args[0].isStr():
		format = name.args[0].s
		if v := name.args[1]; v.op == OSeq && !strings.Contains(v.s, "s") {
			for _, a := range v.args {
				add(a)
			}
		}
	case name.op == OConcat:
		for _, a := range name.args {
			if a.isStr() {
				format += a.s
				continue
			}
			if a.op == OCall && len(a.args) > 0 {
				a = a.args[0]
			}
			add(a)
			format += "%"
		}
	}
	vs := strings.Split(format, "%")
	if len(flds) == 0 || len(vs) != len(flds)+1 || !strings.HasPrefix(format, want.name) {
		c.und(d.rule, con+" name", "the name is %s", clip(name.String(), 150))
		return
	}
	for i, f := range flds {
		l := strings.ToLower(vs[i])
		for _, k := range []string{"colspan", "rowspan"} {
			if strings.HasSuffix(l, k+"=") {
				c.expect(strings.ToLower(f) == k, d.rule, con+" "+k, pos, "the %s described is %s", k, f)
			}
		}
	}
	for _, k := range []string{"colspan", "rowspan"} {
		if !strings.Contains(strings.ToLower(format), k) {
			c.fail(d.rule, con+" "+k, pos, "the %s is not described", k)
		}
	}
}

// value: the value is that of the field.
func (d *describer) value(g *Graph, con, pos string, val *Term, want itemSpec, root *Term) {
	c := d.c
	for _, v := range cases(g, val) {
		for v.op == OIface {
			v = v.args[0]
		}
		if want.text {
			if ops, b, why := c.pipe(g, v); why == "" {
				v = b
				d.letters(con+" value", pos, ops)
			}
			if v.op == OCall && v.s == "strings.Join" {
				if v.args[1].isStr() && v.args[1].s == "" {
					c.fail(d.rule, con+" value", pos, "the areas are joined without separator")
				}
				v = v.args[0]
			}
		}
		r, p := docPath(v)
		if !want.text && v.op == OCall && strings.HasPrefix(v.s, "strings.") {
			// a part of the value, or the value rewritten
			if r, p := docPath(v.args[0]); p == want.path && sameEl(r, root) {
				c.fail(d.rule, con+" value", pos, "the value described is %s", clip(v.String(), 150))
				continue
			}
		}
		switch {
		case p == want.path && sameEl(r, root):
			c.ok(d.rule, con+": value")
		case v.op == ONil:
			c.fail(d.rule, con+" value", pos, "the value is not described")
		case p != "" || v.isNum() || v.isStr():
			c.fail(d.rule, con+" value", pos, "the value described is %s", clip(v.String(), 150))
		default:
			c.und(d.rule, con+" value", "the value is %s", clip(v.String(), 150))
		}
	}
}

// differences: two values that are no maps differ if they are not equal.
func (c *Ck) differences() {
	rule := "C06.compare"
	n := 0
	for _, f := range c.P.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != modPath+"/xdoc" || len(f.Blocks) == 0 || f.Synthetic != "" {
			continue
		}
		var is []*ssa.Parameter
		for _, p := range f.Params {
			if i, ok := p.Type().Underlying().(*types.Interface); ok && i.NumMethods() == 0 {
				is = append(is, p)
			}
		}
		rs := f.Signature.Results()
		if len(is) != 2 || rs.Len() == 0 || typeKey(rs.At(0).Type()) != "[]"+modPath+"/xdoc.Diff" {
			continue
		}
		n++
		con := fnName(f)
		for _, w := range []bool{true, false} {
			w := w
			g := c.graphOf(f, fmt.Sprint("plain values", w), func(g *Graph, t *Term) (bool, bool) {
				if t.op == OTypeIs {
					if _, ok := t.typ.Underlying().(*types.Map); ok {
						return false, true
					}
				}
				if t == g.T.eq(g.val(g.root, is[0]), g.val(g.root, is[1])) {
					return w, true
				}
				return false, false
			})
			if g == nil {
				continue
			}
			T := g.T
			a, b := g.val(g.root, is[0]), g.val(g.root, is[1])
			for _, r := range g.results(0) {
				ls, ok := g.leaves([]*Term{r.t}, lit{T.eq(a, b), w})
				if !ok {
					c.und(rule, con, "too many cases")
					continue
				}
				for _, l := range ls {
					t := l.ts[0]
					empty := t.op == ONil || t.op == OSeq && len(t.args) == 0
					known := true
					for _, x := range g.condsWithin(r.n, nil) {
						l.lits = append(l.lits, lit{x, true})
					}
					for _, x := range l.lits {
						known = known && understood(x.c) && !contains(x.c, func(y *Term) bool { return y.op == OCall || y.op == OInv })
					}
					switch {
					case t.op == OSeq && len(t.args) == 1 && t.s == "e" && !w:
						d := t.args[0]
						st, _ := d.typ.Underlying().(*types.Struct)
						if d.op != OStruct || st == nil {
							c.und(rule, con, "the difference is %s", clip(d.String(), 100))
							continue
						}
						for i := 0; i < st.NumFields(); i++ {
							want := map[string]*Term{"Org": a, "Mod": b}[st.Field(i).Name()]
							v := g.simp(T.field(d, i, d.typ))
							switch {
							case want == nil:
							case v == want:
								c.ok(rule, con+": "+st.Field(i).Name())
							case v == a || v == b:
								c.fail(rule, con+" "+st.Field(i).Name(), r.pos, "%s is the other value", st.Field(i).Name())
							default:
								c.und(rule, con+" "+st.Field(i).Name(), "%s is %s", st.Field(i).Name(), clip(v.String(), 100))
							}
						}
					case empty && w:
						c.ok(rule, con+": no difference of equal values")
					case empty && known:
						c.fail(rule, con, r.pos, "no difference is reported for values that differ%s", ifs(l.lits))
					default:
						c.und(rule, con, "the differences are %s", clip(t.String(), 150))
					}
				}
			}
		}
	}
	if n == 0 {
		c.und(rule, "xdoc", "the comparison of values is not evident")
	}
}

// passedOver: an iteration passes the event, unless that depends on the
// second value.
func (c *Ck) passedOver(rule, con string, g *Graph, l *Loop, ev *Event, other *Term) {
	// without and with the event, from a node to the end of the iteration
	var without, with func(n *Node, seen map[*Node]bool) bool
	next := func(n *Node, seen map[*Node]bool, f func(*Node, map[*Node]bool) bool, atEnd bool) bool {
		if seen[n] {
			return false
		}
		seen[n] = true
		for _, e := range n.succs {
			if !g.liveEdge[e] || !l.body[e.to] {
				continue
			}
			if e.to == l.head {
				if atEnd {
					return true
				}
				continue
			}
			if f(e.to, seen) {
				return true
			}
		}
		return false
	}
	without = func(n *Node, seen map[*Node]bool) bool {
		return n != ev.n && next(n, seen, without, true)
	}
	with = func(n *Node, seen map[*Node]bool) bool {
		return n == ev.n || next(n, seen, with, false)
	}
	for n := range l.body {
		if n == ev.n || !g.live[n] {
			continue
		}
		for _, e := range n.succs {
			if !g.liveEdge[e] || !l.body[e.to] || !(e.to == l.head || without(e.to, map[*Node]bool{})) {
				continue
			}
			if e.to != l.head && with(e.to, map[*Node]bool{}) {
				continue
			}
			if n != l.head && !with(n, map[*Node]bool{}) {
				continue
			}
			cd := g.cond(e)
			if cd != nil && understoodIn(cd, nil) && !contains(cd, func(x *Term) bool { return x == other || x.op == OCall || x.op == OInv || x.op == OLookup }) {
				c.fail(rule, con+" each", g.evPos(ev), "a property is not compared if %s", clip(cd.String(), 150))
			} else {
				c.und(rule, con+" each", "whether all properties are compared is not evident")
			}
			return
		}
	}
	c.ok(rule, con+": each property")
}

// letters: a text is described with all of its characters, apart from white
// space.
func (d *describer) letters(con, pos string, ops []strOp) {
	c := d.c
	var erase []strOp
	for _, w := range []string{" ", "\n", "\t", "\r"} {
		erase = append(erase, strOp{k: "replace", a: w, n: -1})
	}
	in, got, _, differ, err := chainsDiffer(append(append([]strOp{}, ops...), erase...), erase)
	switch {
	case err != nil:
		c.und(d.rule, con+" text", "%v", err)
	case differ:
		c.fail(d.rule, con+" text", pos, "of the text %q, %q is described (white space apart)", in, got)
	default:
		c.ok(d.rule, con+": all characters of the text")
	}
}

// kind: what is described for an element of the kind.
func (d *describer) kind(f *ssa.Function, k string) {
	c := d.c
	want := modPath + "/xdoc." + k
	g := d.graph(f, true, func(g *Graph, t *Term) (bool, bool) {
		if t.op == OTypeIs {
			if s, _ := seqElem(t.args[0]); s != nil {
				return strings.TrimPrefix(typeKey(t.typ), "*") == want, true
			}
		}
		return false, false
	})
	if g == nil {
		return
	}
	con := fnName(f)
	for _, r := range g.results(0) {
		ps, ok, why := g.parts(r.t, 0)
		if !ok {
			c.und(d.rule, con+" "+k, "%s", why)
			continue
		}
		if len(ps) != 1 || ps[0].loop == nil {
			if len(ps) == 0 {
				c.fail(d.rule, con+" "+k, r.pos, "nothing is described")
			} else {
				c.und(d.rule, con+" "+k, "the items are not evident")
			}
			continue
		}
		p := ps[0]
		iv := g.T.mk(&Term{op: OIV, i: p.loop.head.id, data: p.loop})
		n := 0
		for _, b := range p.body {
			if d.misplaced(con+" "+k, r.pos, b) {
				continue
			}
			if b.item == nil && b.call == nil && b.loop == nil {
				c.fail(d.rule, con+" "+k, r.pos, "the element is left out%s", ifs(b.lits))
				continue
			}
			if b.item == nil {
				c.und(d.rule, con+" "+k, "the items are not evident")
				continue
			}
			if n++; n > 1 && len(p.body) > 1 && len(b.lits) == 0 {
				c.fail(d.rule, con+" "+k, r.pos, "the element is described more than once")
				continue
			}
			var el *Term
			g.walkLoops(b.item, func(x *Term) bool {
				if s, at := seqElem(x); s != nil && el == nil && contains(at, func(y *Term) bool { return y == iv }) {
					el = x
				}
				return el == nil
			})
			if el == nil {
				// no part of the element is used
				d.item(g, con, r.pos, b.item, kindItems[k], g.T.Nil)
				continue
			}
			s, at := seqElem(el)
			if at != iv {
				c.fail(d.rule, con+" order", r.pos, "the elements are not described in order: number %s", clip(at.String(), 80))
				continue
			}
			if ok, why := g.completeLoop(p.loop, g.T.len(s)); !ok {
				c.fail(d.rule, con+" "+k+" all", r.pos, "elements after one of this kind are lost: %s", why)
				continue
			}
			d.item(g, con, r.pos, b.item, kindItems[k], el)
		}
	}
}

func ifs(ls []lit) string {
	if len(ls) == 0 {
		return ""
	}
	return fmt.Sprintf(" if %s", leaf{lits: ls})
}

// styleDiffs: the styles compared are empty ones and what the element makes
// of them.
func (c *Ck) styleDiffs(f *ssa.Function) {
	rule := "C06.styles"
	var cmp []*ssa.Function
	for _, x := range c.P.Funcs {
		n := 0
		for _, p := range x.Params {
			if typeKey(p.Type()) == modPath+"/style.Styles" {
				n++
			}
		}
		if n == 2 && x.Signature.Results().Len() > 0 && typeKey(x.Signature.Results().At(0).Type()) == "[]"+modPath+"/xdoc.Diff" {
			cmp = append(cmp, x)
		}
	}
	if len(cmp) == 0 {
		c.und(rule, fnName(f), "the comparison of styles is not evident")
		return
	}
	o := defaultOptions(c.P)
	op := o.Opaque
	o.Opaque = func(x *ssa.Function) bool {
		for _, y := range cmp {
			if x == y {
				return true
			}
		}
		return op != nil && op(x)
	}
	g := c.newGraph(f, o)
	if g == nil {
		return
	}
	var ins *Term
	for _, p := range f.Params {
		if typeKey(p.Type()) == modPath+"/xdoc.Instruction" {
			ins = g.val(g.root, p)
		}
	}
	n := 0
	for _, e := range g.evs(func(e *Event) bool {
		return e.kind == "call" && e.fn != nil && o.Opaque(e.fn) && !strings.Contains(e.callee, "Mutated")
	}) {
		var ss []*Term
		for i, p := range e.fn.Params {
			if typeKey(p.Type()) == modPath+"/style.Styles" {
				ss = append(ss, g.simp(g.evArgs(e)[i]))
			}
		}
		if len(ss) != 2 {
			continue
		}
		n++
		con := fnName(f)
		mod := ss[1]
		var m *Event
		if mod.op == OInv {
			m, _ = mod.data.(*Event)
		}
		if m == nil || !strings.Contains(m.callee, "MutatedStyles") {
			if x, ok := ss[0].data.(*Event); ok && ss[0].op == OInv && strings.Contains(x.callee, "MutatedStyles") {
				c.fail(rule, con+" order", g.evPos(e), "the styles of the element are taken for the original ones")
			} else if ss[0] == ss[1] {
				c.fail(rule, con+" both", g.evPos(e), "the styles are compared with themselves")
			} else {
				c.und(rule, con, "the styles compared are %s", clip(mod.String(), 150))
			}
			continue
		}
		as := g.evArgs(m)
		if as[0] != ins {
			c.und(rule, con+" element", "the element is %s", clip(as[0].String(), 150))
		} else {
			c.ok(rule, con+": the element itself")
		}
		for _, a := range as[1:] {
			if typeKey(a.typ) == modPath+"/style.Styles" || a == ss[0] {
				c.expect(a == ss[0], rule, con+" base", g.evPos(e), "the styles compared with are others than those changed")
			}
		}
		if len(as) > 1 {
			cl := as[len(as)-2]
			if docClasses(cl) == -1 {
				c.fail(rule, con+" classes", g.evPos(e), "the classes of the document are not used")
			} else if docClasses(cl) == 1 {
				c.ok(rule, con+": classes of the document")
			}
		}
		// the result
		for _, r := range g.results(0) {
			ls, _ := g.leaves([]*Term{r.t})
			for _, l := range ls {
				if l.ts[0].op == ONil || l.ts[0].op == OSeq && len(l.ts[0].args) == 0 {
					c.fail(rule, con+" result", r.pos, "no differences are described%s", ifs(l.lits))
				}
			}
			if contains(r.t, func(x *Term) bool { return x.op == OProj && x.i == 0 && x.args[0] == g.evResult(e) }) || contains(r.t, func(x *Term) bool { return x == g.evResult(e) }) {
				c.ok(rule, con+": differences returned")
			}
		}
	}
	if n == 0 {
		c.und(rule, fnName(f), "the comparison of styles is not evident")
	}
}

// diffs: a difference holds both values under the path of the property.
func (c *Ck) diffs() {
	rule := "C06.diff"
	n := 0
	for _, f := range c.P.Funcs {
		sig := f.Signature
		if f.Pkg == nil || f.Pkg.Pkg.Path() != modPath+"/xdoc" || len(f.Blocks) == 0 || f.Synthetic != "" || sig.Results().Len() == 0 || typeKey(sig.Results().At(0).Type()) != "[]"+modPath+"/xdoc.Diff" {
			continue
		}
		var path, org, mod *ssa.Parameter
		for _, p := range f.Params {
			switch {
			case isStringType(p.Type()):
				path = p
			case types.IsInterface(p.Type()) && p.Type().Underlying().(*types.Interface).NumMethods() == 0:
				if org == nil {
					org = p
				} else {
					mod = p
				}
			}
		}
		if path == nil || org == nil || mod == nil {
			continue
		}
		g := c.graphOf(f, "", noErrors)
		if g == nil {
			continue
		}
		n++
		con := fnName(f)
		tp, to, tm := g.val(g.root, path), g.val(g.root, org), g.val(g.root, mod)
		// the differences of properties
		for _, r := range g.results(0) {
			ls, ok := g.leaves([]*Term{r.t})
			if !ok {
				c.und(rule, con, "too many cases")
				continue
			}
			for _, l := range ls {
				ps, ok, why := g.parts(l.ts[0], 0)
				if !ok {
					c.und(rule, con, "%s", why)
					continue
				}
				for _, p := range ps {
					if p.loop != nil {
						for _, b := range p.body {
							if b.lost {
								c.fail(rule, con+" lost", r.pos, "the differences of the properties before are dropped%s", ifs(b.lits))
							}
						}
					}
					if p.item == nil {
						continue
					}
					it := g.simp(p.item)
					st, _ := it.typ.Underlying().(*types.Struct)
					if it.op != OStruct || st == nil {
						c.und(rule, con, "the difference is %s", clip(it.String(), 150))
						continue
					}
					for i := 0; i < st.NumFields(); i++ {
						v := g.simp(it.args[i])
						is := func(want, other *Term, what string) {
							switch v {
							case want:
								c.ok(rule, con+": "+what)
							case other, g.T.Nil:
								c.fail(rule, con+" "+what, r.pos, "the %s of a difference is %s", what, clip(v.String(), 100))
							default:
								if stripEl(v) == want {
									c.ok(rule, con+": "+what)
								} else {
									c.und(rule, con+" "+what, "it is %s", clip(v.String(), 100))
								}
							}
						}
						switch st.Field(i).Name() {
						case "Path":
							is(tp, nil, "path")
						case "Org":
							is(to, tm, "original value")
						case "Mod":
							is(tm, to, "modified value")
						}
					}
					// different values
					eq := g.T.eq(to, tm)
					for _, x := range l.lits {
						if v, k := g.T.decideUnder([]lit{x}, eq); k {
							c.expect(!v, rule, con+" case", r.pos, "values that are equal are listed as different")
						}
					}
				}
			}
		}
		// the properties of a struct
		for _, e := range g.evs(func(e *Event) bool { return e.kind == "call" && e.fn == f }) {
			as := g.evArgs(e)
			get := func(p *ssa.Parameter) *Term {
				for i, q := range f.Params {
					if q == p {
						return as[i]
					}
				}
				return nil
			}
			key := func(t *Term) (m, k *Term) {
				for t.op == OIface {
					t = t.args[0]
				}
				if t.op == OLookup {
					return stripEl(t.args[0]), t.args[1]
				}
				if t.op == OProj && t.i == 2 && t.args[0].op == ORangeNext {
					return nil, g.T.proj(t.args[0], 1)
				}
				return nil, nil
			}
			pairs, okp := g.leaves([]*Term{get(org), get(mod)})
			if !okp || len(pairs) == 0 {
				c.und(rule, con+" pair", "too many cases")
				continue
			}
			for _, l := range pairs[1:] {
				x, kx := key(l.ts[0])
				y, ky := key(l.ts[1])
				if kx != nil && x == y && kx == ky && x != nil {
					c.fail(rule, con+" both", g.evPos(e), "the values are compared with themselves if %s", l)
				}
			}
			mo, ko := key(pairs[0].ts[0])
			mm, km := key(pairs[0].ts[1])
			if ko == nil || km == nil {
				c.und(rule, con+" pair", "the values compared are %s and %s", clip(get(org).String(), 100), clip(get(mod).String(), 100))
				continue
			}
			if lp := g.innermost(e.n); lp != nil {
				c.passedOver(rule, con, g, lp, e, tm)
			}
			if s, at := seqElem(ko); s != nil {
				if s.op == OSlice && s.args[1].isNum() && s.args[1].rat().Sign() > 0 {
					c.fail(rule, con+" first", g.evPos(e), "the first properties are not compared")
				}
				if lp := g.innermost(e.n); lp != nil && contains(at, func(x *Term) bool { return x.op == OIV && x.data == lp }) {
					if why := g.earlyEnd(lp, g.T.len(s)); why != "" {
						c.fail(rule, con+" all", g.evPos(e), "properties after one for which %s are not compared", why)
					} else {
						c.expect(at.op == OIV, rule, con+" all", g.evPos(e), "not all properties are compared, but number %s", clip(at.String(), 60))
					}
				}
			}
			c.expect(ko == km, rule, con+" pair", g.evPos(e), "values of different properties are compared")
			if mo != nil && mm != nil {
				c.expect(!(mo == mm), rule, con+" both", g.evPos(e), "the values are compared with themselves")
				if mo != mm && mo == tm && mm == to {
					c.fail(rule, con+" order", g.evPos(e), "original and modified values are exchanged")
				}
			}
			if p := get(path); p == tp {
				c.fail(rule, con+" path", g.evPos(e), "the path does not contain the property")
			} else if contains(p, func(x *Term) bool { return x == ko }) {
				c.ok(rule, con+": path")
			} else {
				c.und(rule, con+" path", "the path is %s", clip(p.String(), 100))
			}
		}
	}
	if n == 0 {
		c.und(rule, "xdoc", "the comparison of values is not evident")
	}
	for _, f := range c.P.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != modPath+"/xdoc" || len(f.Params) != 2 || len(f.Blocks) == 0 || f.Synthetic != "" ||
			typeKey(f.Params[0].Type()) != modPath+"/style.Styles" || typeKey(f.Params[1].Type()) != modPath+"/style.Styles" || f.Signature.Results().Len() == 0 || typeKey(f.Signature.Results().At(0).Type()) != "[]"+modPath+"/xdoc.Diff" {
			continue
		}
		c.compared(rule, f)
	}
}

// compared: the first value compared is made of the original styles, the
// second of the modified ones.
func (c *Ck) compared(rule string, f *ssa.Function) {
	isCmp := func(x *ssa.Function) bool {
		return x.Signature.Results().Len() > 0 && typeKey(x.Signature.Results().At(0).Type()) == "[]"+modPath+"/xdoc.Diff"
	}
	o := defaultOptions(c.P)
	op := o.Opaque
	o.Opaque = func(x *ssa.Function) bool { return x != f && isCmp(x) || op != nil && op(x) }
	g := c.newGraph(f, o)
	if g == nil {
		return
	}
	con := fnName(f)
	org, mod := g.val(g.root, f.Params[0]), g.val(g.root, f.Params[1])
	of := func(t *Term) (o, m bool) {
		seen := map[*Term]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			walk(t, func(x *Term) bool {
				if seen[x] {
					return false
				}
				seen[x] = true
				o, m = o || x == org, m || x == mod
				if e, ok := x.data.(*Event); ok && (x.op == OClobber || x.op == OInv) {
					for _, a := range g.evArgs(e) {
						rec(a)
					}
				}
				return true
			})
		}
		rec(t)
		return
	}
	for _, e := range g.evs(func(e *Event) bool { return e.kind == "call" && e.fn != nil && isCmp(e.fn) }) {
		var vs []*Term
		for i, p := range e.fn.Params {
			if types.IsInterface(p.Type()) || typeKey(p.Type()) == modPath+"/style.Styles" {
				vs = append(vs, g.evArgs(e)[i])
			}
		}
		if len(vs) != 2 {
			continue
		}
		for i, w := range []string{"original", "modified"} {
			o, m := of(vs[i])
			switch {
			case i == 0 && o && !m, i == 1 && m && !o:
				c.ok(rule, con+": "+w)
			case i == 0 && m && !o, i == 1 && o && !m:
				c.fail(rule, con+" "+w, g.evPos(e), "the %s value compared is not of the %s styles", w, w)
			default:
				c.und(rule, con+" "+w, "the %s value compared is %s", w, clip(vs[i].String(), 100))
			}
		}
	}
}

// styleNames: no two properties of styles have the same name, one of them
// would be lost.
func (c *Ck) styleNames() {
	rule := "C06.names"
	t := c.P.typ("style", "Styles")
	if t == nil {
		c.und(rule, "Styles", "no type for styles found")
		return
	}
	seen := map[string]string{}
	var visit func(t types.Type, in string)
	visit = func(t types.Type, in string) {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := jsonName(st.Tag(i))
			if tag == "-" {
				c.fail(rule, f.Name(), c.P.posStr(f.Pos()), "the property is left out of the comparison")
				continue
			}
			if f.Embedded() && tag == "" {
				visit(f.Type(), f.Name())
				continue
			}
			n := f.Name()
			if tag != "" {
				n = tag
			}
			if !f.Exported() {
				continue
			}
			if o := seen[strings.ToLower(n)]; o != "" {
				c.fail(rule, n, c.P.posStr(f.Pos()), "two properties have this name (%s and %s), their differences are lost", o, in+"."+f.Name())
				continue
			}
			seen[strings.ToLower(n)] = in + "." + f.Name()
			c.ok(rule, n)
		}
	}
	visit(t, "")
}

func jsonName(tag string) string {
	i := strings.Index(tag, `json:"`)
	if i < 0 {
		return ""
	}
	s := tag[i+6:]
	if j := strings.IndexAny(s, `",`); j >= 0 {
		s = s[:j]
	}
	return s
}

// dump: the format asked for.
func (c *Ck) dump() {
	rule := "C06.dump"
	for _, f := range c.P.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != modPath+"/xdoc" || len(f.Params) != 2 || len(f.Blocks) == 0 || f.Synthetic != "" || typeKey(f.Params[1].Type()) != modPath+"/xdoc.DescribeFormat" {
			continue
		}
		for _, fm := range []string{"xml", "json"} {
			g := c.graphOf(f, "format,"+fm, func(g *Graph, t *Term) (bool, bool) {
				if t.op == OEq {
					for i := range t.args {
						if t.args[i].isStr() && t.args[1-i] == g.val(g.root, f.Params[1]) {
							return t.args[i].s == fm, true
						}
					}
				}
				return false, false
			})
			if g == nil {
				continue
			}
			recv := g.val(g.root, f.Params[0])
			for _, r := range g.results(0) {
				other, own := false, false
				walk(r.t, func(x *Term) bool {
					s := x.s
					if x.op == OCall || x.op == OInv {
						if strings.HasPrefix(s, "encoding/"+fm+".") {
							own = own || contains(x, func(y *Term) bool { return y == recv })
						} else if strings.HasPrefix(s, "encoding/") {
							other = true
						}
					}
					return true
				})
				con := fnName(f) + " " + fm
				switch {
				case own && !other:
					c.ok(rule, con)
				case other && !own:
					c.fail(rule, con, r.pos, "the description is not written as %s", fm)
				default:
					c.und(rule, con, "the result is %s", clip(r.t.String(), 150))
				}
			}
		}
	}
}

func sortedFns(m map[*ssa.Function]bool) (out []*ssa.Function) {
	for f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i]) < fnName(out[j]) })
	return
}
