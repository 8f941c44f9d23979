package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"reflect"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", "typestate and loop analysis of the application of classes and inline styles; value-flow terms of the styles every element, row, cell and paragraph is rendered with, per position case", ruleC01)
	register("C15", "table of style keys read off the type-checked struct tags against the documented keys; value-flow terms of the decoders (bit ranges, scan order, map keys), loop completeness", ruleC15)
}

// ---- C01

func ruleC01(c *Ck) {
	n := 0
	for _, f := range c.P.Funcs {
		if c.isMutated(f) {
			n++
			c.applyStyles(f)
		}
	}
	if n == 0 {
		c.und("C01.apply", "styles", "no function that applies classes and styles found")
	}
	c.decodeClassesAttr()
	c.protect("C01.sheet", c.sheet)
	c.protect("C01.parents", c.parents)
	c.protect("C01.table", c.tableStyles)
	c.protect("C01.paragraph", c.paragraphs)
	for _, lf := range c.lineFns() {
		lf.contents(false)
		for _, wl := range lf.words {
			for _, w := range wl.leafs {
				for _, s := range w.stys {
					if s != lf.g.T.Nil {
						lf.itemStyle(wl, s, w, lf.name)
					}
				}
			}
		}
	}
}

// isMutated: a method of a struct with classes and mutators that takes
// styles and yields styles.
func (c *Ck) isMutated(f *ssa.Function) bool {
	sig := f.Signature
	if sig.Recv() == nil || len(f.Blocks) == 0 || f.Synthetic != "" || sig.Results().Len() != 1 || typeKey(sig.Results().At(0).Type()) != modPath+"/style.Styles" {
		return false
	}
	st, ok := deref(sig.Recv().Type()).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	cl, mu := classFields(st)
	if cl < 0 || mu < 0 {
		return false
	}
	cs, sty := false, false
	for i := 0; i < sig.Params().Len(); i++ {
		switch typeKey(sig.Params().At(i).Type()) {
		case modPath + "/style.Classes":
			cs = true
		case modPath + "/style.Styles":
			sty = true
		}
	}
	return cs && sty
}

func classFields(st *types.Struct) (cl, mu int) {
	cl, mu = -1, -1
	for i := 0; i < st.NumFields(); i++ {
		switch typeKey(st.Field(i).Type()) {
		case "[]string":
			cl = i
		case "[]*" + modPath + "/style.Mutator", "[]" + modPath + "/style.Mutator":
			mu = i
		}
	}
	return
}

// applyCall is a call of a style function.
type applyCall struct {
	e    *Event
	k    string // class, selector, inline
	loop *Loop  // over the functions
	out  *Loop  // over the classes or mutators
	dst  *Term
	num  *Term // instead of a loop over the functions, one of them
}

func (c *Ck) applyStyles(f *ssa.Function) {
	rule := "C01.apply"
	name := fnName(f)
	o := defaultOptions(c.P)
	o.Opaque = nil
	g := c.newGraph(f, o)
	if g == nil {
		return
	}
	T := g.T
	var recv, cs, sty, sel *Term
	for i, p := range f.Params {
		t := g.val(g.root, p)
		switch {
		case i == 0:
			recv = t
		case typeKey(p.Type()) == modPath+"/style.Classes":
			cs = t
		case typeKey(p.Type()) == modPath+"/style.Styles":
			sty = t
		case isStringType(p.Type()):
			sel = t
		}
	}
	st := deref(f.Signature.Recv().Type()).Underlying().(*types.Struct)
	cl, mu := classFields(st)
	styled := deref(f.Signature.Recv().Type())
	classes := T.load(T.faddr(recv, cl, styled))
	mutators := T.load(T.faddr(recv, mu, styled))

	var calls []*applyCall
	odd := 0
	for _, e := range g.evs(func(e *Event) bool { return e.kind == "call" }) {
		as := g.evArgs(e)
		if len(as) != 2 || typeKey(deref(as[1].typ)) != modPath+"/style.Styles" && as[1].op != OAlloc {
			continue
		}
		fns, iv := seqElem(as[0])
		if fns == nil || iv.op != OIV && !iv.isNum() {
			odd++
			continue
		}
		a := &applyCall{e: e, dst: as[1]}
		if iv.op == OIV {
			a.loop = iv.data.(*Loop)
			if ok, why := g.completeLoop(a.loop, T.len(fns)); !ok {
				c.fail(rule, name+" all", g.evPos(e), "not every property of a style is applied: %s", why)
			}
		} else {
			a.num = iv
		}
		// whose functions
		own := fns
		for own.op == OLoad || own.op == OFAddr || own.op == OField {
			own = own.args[0]
		}
		switch own.op {
		case OLookup:
			if own.args[0] == cs {
				a.k = "class"
				if s, i := seqElem(own.args[1]); s == classes && i.op == OIV {
					a.out = i.data.(*Loop)
				} else {
					c.classIndex(g, name, e, own.args[1], classes)
					continue
				}
			} else if sel != nil && own.args[1] == sel {
				b := own.args[0]
				for b.op == OLoad || b.op == OFAddr || b.op == OField {
					b = b.args[0]
				}
				if b.op == OLookup && b.args[0] == cs {
					a.k = "selector"
					if s, i := seqElem(b.args[1]); s == classes && i.op == OIV {
						a.out = i.data.(*Loop)
					} else {
						c.classIndex(g, name, e, b.args[1], classes)
						continue
					}
				}
			}
		case OIndex, OIAddr:
			if own.args[0] == mutators && own.args[1].op == OIV {
				a.k = "inline"
				a.out = own.args[1].data.(*Loop)
			} else if own.args[0] == mutators {
				c.fail(rule, name+" order", g.evPos(e), "inline styles are not applied in order: number %s", clip(own.args[1].String(), 100))
				continue
			}
		}
		if a.k == "" || a.out == nil {
			odd++
			continue
		}
		n := T.len(classes)
		if a.k == "inline" {
			n = T.len(mutators)
		}
		if ok, why := g.completeLoop(a.out, n); !ok {
			c.fail(rule, name+" "+a.k, g.evPos(e), "not all of the styles are applied: %s", why)
		} else {
			c.ok(rule, name+" "+a.k+": all, in order")
		}
		calls = append(calls, a)
	}
	kinds := map[string][]*applyCall{}
	for _, a := range calls {
		if a.num == nil {
			kinds[a.k] = append(kinds[a.k], a)
		}
	}
	for _, a := range calls {
		if a.num != nil && len(kinds[a.k]) == 0 {
			c.fail(rule, name+" all", g.evPos(a.e), "of the properties of a style only number %s is applied", a.num)
			return
		}
	}
	need := []string{"class", "inline"}
	if sel != nil {
		need = append(need, "selector")
	}
	for _, k := range need {
		if len(kinds[k]) == 0 {
			if odd > 0 {
				c.und(rule, name+" "+k, "where these styles are applied is not evident")
			} else {
				c.fail(rule, name+" "+k, c.P.posStr(f.Pos()), "the %s styles are not applied", k)
			}
		}
	}
	// the classes before the inline styles
	isK := func(ks ...string) func(*Event) bool {
		return func(e *Event) bool {
			for _, k := range ks {
				for _, a := range kinds[k] {
					if a.e == e {
						return true
					}
				}
			}
			return false
		}
	}
	for _, a := range kinds["inline"] {
		if e, _ := g.canReach(g.after(a.e), nil, isK("class", "selector"), nil); e != nil {
			c.fail(rule, name+" precedence", g.evPos(e), "classes are applied after inline styles")
		} else {
			c.ok(rule, name+": classes before inline styles")
		}
	}
	// neither loop is passed by
	for _, k := range need {
		heads := map[*Node]bool{}
		for _, a := range kinds[k] {
			heads[a.out.head] = true
		}
		if len(heads) == 0 || k == "selector" {
			continue
		}
		var by []*Term
		fl := &flow{g: g, step: func(e *Event, s int) (int, bool) { return s, false }}
		passed := false
		fl.edge = func(e *Edge, s int) (int, bool) {
			if heads[e.to] {
				return s, false
			}
			if cd := g.cond(e); cd != nil && g.emptyTest(cd) {
				return s, false
			}
			by = append(by, g.cond(e))
			return s, true
		}
		fl.atEnd = func(n *Node, s int) {
			if g.isReturn(n) {
				passed = true
			}
		}
		if !heads[g.entry] {
			fl.run(g.start(), 0)
		}
		c.expect(!passed, rule, name+" "+k+" always", c.P.posStr(f.Pos()), "the %s styles can be passed by", k)
	}
	// per class: exactly the selector where there is one, else the class
	if len(kinds["class"]) > 0 {
		out := kinds["class"][0].out
		cls := T.mk(&Term{op: OIV, i: out.head.id, data: out})
		cn := T.index(classes, cls)
		var okC, okS []*Term
		for _, n := range g.nodes {
			for _, e := range n.succs {
				if cd := g.cond(e); cd != nil {
					walk(cd, func(x *Term) bool {
						if x.op == OLookupOk {
							if x.args[0] == cs {
								okC = append(okC, x)
							} else if sel != nil && x.args[1] == sel {
								okS = append(okS, x)
							}
						}
						return true
					})
				}
			}
		}
		_ = cn
		try := func(known, has bool) (class, selector, none bool) {
			var facts []lit
			for _, x := range okC {
				facts = append(facts, lit{x, known})
			}
			for _, x := range okS {
				facts = append(facts, lit{x, has})
			}
			headsC, headsS := map[*Node]bool{}, map[*Node]bool{}
			for _, a := range kinds["class"] {
				headsC[a.loop.head] = true
			}
			for _, a := range kinds["selector"] {
				headsS[a.loop.head] = true
			}
			fl := &flow{g: g, step: func(e *Event, s int) (int, bool) { return s, false }}
			fl.edge = func(e *Edge, s int) (int, bool) {
				if !out.body[e.to] {
					return s, false
				}
				if cd := g.cond(e); cd != nil {
					for _, f := range facts {
						if r, ok := T.decideUnder([]lit{f}, cd); ok && !r {
							return s, false
						}
					}
				}
				if e.to == out.head {
					if s == 0 {
						none = true
					}
					return s, false
				}
				if headsC[e.to] {
					class = true
					s |= 1
				}
				if headsS[e.to] {
					selector = true
					s |= 2
				}
				return s, true
			}
			fl.run(point{out.head, 0}, 0)
			return
		}
		if len(okC) == 0 {
			c.und(rule, name+" known", "the test for known classes is not evident")
		} else {
			type row struct {
				known, has      bool
				class, selector bool
				what            string
			}
			rows := []row{{true, false, true, false, "a known class"}, {false, false, false, false, "an unknown class"}}
			if sel != nil {
				rows[0].what = "a class without the selector"
				rows = append(rows, row{true, true, false, true, "a class with the selector"})
			}
			for _, r := range rows {
				if sel != nil && len(okS) == 0 && r.known {
					c.und(rule, name+" selector", "the test for the selector is not evident")
					continue
				}
				k, s, none := try(r.known, r.has)
				pos := g.evPos(kinds["class"][0].e)
				switch {
				case r.class && none || r.selector && none:
					c.fail(rule, name+" each", pos, "for %s nothing is applied", r.what)
				case k && !r.class:
					if r.known {
						c.fail(rule, name+" each", pos, "for %s the styles of the class itself are applied", r.what)
					} else {
						c.ok(rule, name+": "+r.what+" has no styles")
					}
				case s && !r.selector:
					c.fail(rule, name+" each", pos, "for %s those of the selector are applied", r.what)
				default:
					c.ok(rule, name+": "+r.what)
				}
			}
		}
	}
	// on a copy of what is inherited
	var dst *Term
	copied := map[*Term]bool{}
	for _, a := range calls {
		if dst == nil {
			dst = a.dst
		}
		if a.dst != dst && !copied[a.dst] {
			copied[a.dst] = true
			if c.copiedStyles(g, rule, name+" copy", a.e, dst, a.dst, sty, false) {
				dst = a.dst
			}
		}
	}
	if dst != nil {
		inits := g.evs(func(e *Event) bool {
			if e.kind != "store" {
				return false
			}
			x := g.evArgs(e)[0]
			for x.op == OFAddr {
				x = x.args[0]
			}
			return x == dst
		})
		for _, a := range calls {
			if e, _ := g.canReach(g.after(a.e), nil, func(e *Event) bool {
				for _, i := range inits {
					if e == i {
						return true
					}
				}
				return false
			}, nil); e != nil {
				c.fail(rule, name+" inherited", g.evPos(e), "the inherited styles are set again after some were applied")
			}
		}
		if len(inits) > 0 {
			last := inits[len(inits)-1]
			got := g.simp(g.read(last.n, last.i+1, dst, deref(dst.typ)))
			c.same(rule, name+" inherited", g, g.evPos(last), "the styles to start from", got, sty)
		} else {
			c.und(rule, name+" inherited", "the styles to start from are not evident")
		}
		for _, r := range g.results(0) {
			t := g.simp(r.t)
			if t == sty && len(inits) > 0 {
				c.fail(rule, name+" result", r.pos, "the styles returned are the inherited ones")
			} else {
				c.ok(rule, name+": the styles changed are returned")
			}
		}
	}
}

// copiedStyles: where styles are applied to another variable, that one has
// been given the styles changed so far. It tells whether the other one is the first.
func (c *Ck) copiedStyles(g *Graph, rule, key string, use *Event, from, to, sty *Term, back bool) bool {
	inits := g.evs(func(e *Event) bool { return e.kind == "store" && g.evArgs(e)[0] == to })
	if len(inits) != 1 {
		c.und(rule, key, "what is applied after the first styles is applied to other ones")
		return false
	}
	e := inits[0]
	v := g.simp(g.evArgs(e)[1])
	switch {
	case v == sty && !back:
		// the other one may come later
		return !c.copiedStyles(g, rule, key, use, to, from, sty, true)
	case v == sty:
		c.fail(rule, key, g.evPos(use), "classes and inline styles are applied to different styles")
	case from.typ != nil && v == g.simp(g.read(e.n, e.i, from, deref(from.typ))):
		c.ok(rule, key)
	default:
		c.und(rule, key, "the styles changed from %s on are %s", g.evPos(e), clip(v.String(), 100))
	}
	return false
}

func (c *Ck) classIndex(g *Graph, name string, e *Event, i, classes *Term) {
	if s, _ := seqElem(i); s == classes {
		c.fail("C01.apply", name+" order", g.evPos(e), "classes are not applied in the order they are listed: %s", clip(i.String(), 100))
	} else {
		c.und("C01.apply", name+" order", "the class applied is %s", clip(i.String(), 100))
	}
}

// isReturn: the node ends the root function with a result.
func (g *Graph) isReturn(n *Node) bool {
	for _, r := range g.results(0) {
		if r.n == n {
			return true
		}
	}
	return false
}

// decodeClassesAttr: the classes are those of the attribute, in order.
func (c *Ck) decodeClassesAttr() {
	rule := "C01.classes"
	found := false
	for _, f := range c.P.Funcs {
		sig := f.Signature
		if f.Name() != "DecodeAttrs" || sig.Recv() == nil || len(f.Blocks) == 0 || f.Synthetic != "" {
			continue
		}
		st, ok := deref(sig.Recv().Type()).Underlying().(*types.Struct)
		if !ok {
			continue
		}
		cl, mu := classFields(st)
		if cl < 0 || mu < 0 {
			continue
		}
		g := c.graphOf(f, "", nil)
		if g == nil {
			continue
		}
		recv := g.val(g.root, f.Params[0])
		name := fnName(f)
		T := g.T
		for _, k := range []struct {
			i    int
			attr string
		}{{cl, "class"}, {mu, "style"}} {
			addr := T.faddr(recv, k.i, deref(sig.Recv().Type()))
			n := 0
			for _, e := range g.evs(func(e *Event) bool { return e.kind == "store" }) {
				as := g.evArgs(e)
				if as[0] != addr {
					continue
				}
				n++
				found = true
				attr := ""
				for _, cd := range g.condsBefore(e) {
					walk(cd, func(x *Term) bool {
						if x.op == OEq {
							for i := range x.args {
								if x.args[i].isStr() && contains(x.args[1-i], func(y *Term) bool { return y.op == OFAddr || y.op == OField }) {
									if v, ok := T.decideUnder([]lit{{x, true}}, cd); ok && v {
										attr = x.args[i].s
									}
								}
							}
						}
						return true
					})
				}
				if attr == "" {
					c.und(rule, name+" "+k.attr, "the attribute is not evident")
					continue
				}
				c.expect(attr == k.attr, rule, name+" "+k.attr, g.evPos(e), "the %s styles are those of the attribute %q", k.attr, attr)
				if k.attr != "class" {
					continue
				}
				v := as[1]
				if c.fieldsBy(rule, name, g, e, v) {
					continue
				}
				if v.op == OSeq && len(v.args) == 2 && v.s == "ss" && v.args[1].op == OCall {
					x := v.args[1]
					switch {
					case x.s == "strings.Fields":
						c.ok(rule, name+": the classes listed, in order")
					case strings.HasPrefix(x.s, "strings.Split"):
						c.fail(rule, name+" list", g.evPos(e), "classes are separated by %s only", clip(x.args[1].String(), 60))
					default:
						c.und(rule, name+" list", "the classes are %s", clip(x.String(), 200))
					}
				} else if v.op == OSeq && len(v.args) == 2 && v.s == "se" && !contains(v.args[1], func(x *Term) bool { return x.op == OIV && x != nil && false }) {
					x := v.args[1]
					s, i := seqElem(x)
					switch {
					case s != nil && i.op == OIV && s.op == OCall:
						c.ok(rule, name+": the classes listed, in order")
					default:
						c.und(rule, name+" list", "a class is %s", clip(x.String(), 200))
					}
				} else {
					c.und(rule, name+" list", "the classes are %s", clip(v.String(), 200))
				}
			}
			if n == 0 {
				c.und(rule, name+" "+k.attr, "where they are set is not evident")
			}
		}
	}
	if !found {
		c.und(rule, "attributes", "no decoder of the class attribute found")
	}
}

// found is the position of a character in a string.
func found(T *Terms, t *Term) (base, at *Term, ch string) {
	if t.op != OCall || len(t.args) != 2 {
		return nil, nil, ""
	}
	switch t.s {
	case "strings.IndexByte", "strings.IndexRune":
		if !t.args[1].isNum() || !t.args[1].rat().IsInt() {
			return nil, nil, ""
		}
		ch = string(rune(t.args[1].rat().Num().Int64()))
	case "strings.Index", "strings.IndexAny":
		if !t.args[1].isStr() {
			return nil, nil, ""
		}
		ch = t.args[1].s
	default:
		return nil, nil, ""
	}
	base, at = t.args[0], t
	for base.op == OSlice {
		if lo := base.args[1]; lo.op != ONone {
			at = T.add(lo, at)
		}
		base = base.args[0]
	}
	return
}

// sheet: the declarations between braces belong to the name before them.
func (c *Ck) sheet() {
	rule := "C01.sheet"
	dec := c.P.fn("style", "DecodeMutator")
	n := 0
	for _, f := range c.P.Funcs {
		rs := f.Signature.Results()
		if dec == nil || f.Parent() != nil || len(f.Blocks) == 0 || rs.Len() == 0 || typeKey(rs.At(0).Type()) != modPath+"/style.Classes" {
			continue
		}
		o := defaultOptions(c.P)
		o.Opaque = func(f *ssa.Function) bool { return f == dec }
		o.Assume = noErrors
		g := c.newGraph(f, o)
		if g == nil {
			continue
		}
		T := g.T
		name := fnName(f)
		for _, e := range g.evs(func(e *Event) bool { return e.kind == "call" && e.fn == dec }) {
			n++
			var body *Term
			walk(g.evArgs(e)[0], func(x *Term) bool {
				if body == nil && x.op == OSlice {
					body = x
				}
				return body == nil
			})
			if body == nil {
				c.und(rule, name, "the text of the declarations is not evident")
				continue
			}
			src := body.args[0]
			pos := map[string]*Term{}
			for i, ch := range []string{"{", "}"} {
				b := body.args[i+1]
				walk(b, func(x *Term) bool {
					// the position itself, not one its search starts from
					if base, at, c2 := found(T, x); base == src && c2 == ch {
						if _, ok := T.constDiff(b, at); ok || pos[ch] == nil {
							pos[ch] = at
						}
						return false
					}
					return true
				})
			}
			if pos["{"] == nil || pos["}"] == nil {
				c.und(rule, name+" body", "the declarations are %s", clip(body.String(), 200))
				continue
			}
			for i, ch := range []string{"{", "}"} {
				d, ok := T.constDiff(body.args[i+1], pos[ch])
				if !ok {
					c.und(rule, name+" "+ch, "the bound is %s", clip(body.args[i+1].String(), 200))
					continue
				}
				want := int64(1 - i)
				c.expect(d.Cmp(big.NewRat(want, 1)) == 0, rule, name+" "+ch, g.evPos(e), "the declarations are cut %s off %q", new(big.Rat).Sub(d, big.NewRat(want, 1)).RatString(), ch)
			}
			res := g.evResult(e)
			isRes := func(t *Term) bool { return t.op == OProj && t.i == 0 && t.args[0] == res }
			// what is left
			if lp := g.innermost(e.n); lp != nil {
				var cur *Term
				walk(body, func(x *Term) bool {
					if x.op == OLoopVar && cur == nil {
						if init, next, head := g.loopInfo(x); head == lp.head && init != nil && next != nil {
							cur = x
						}
					}
					return true
				})
				if cur == nil {
					c.und(rule, name+" rest", "how the next class is reached is not evident")
				} else {
					init, next, _ := g.loopInfo(cur)
					if cur == src {
						// the rest is kept as a text
						if init = T.Zero; next.op == OSlice && next.args[0] == cur && next.args[2].op == ONone {
							next = next.args[1]
						}
					}
					d, ok := T.constDiff(next, pos["}"])
					if !ok {
						c.und(rule, name+" rest", "the next class is at %s", clip(next.String(), 200))
					} else {
						c.expect(d.Cmp(big.NewRat(1, 1)) == 0, rule, name+" rest", g.evPos(e), "the next class is looked for %s after the brace", d.RatString())
					}
					c.expect(init == T.Zero, rule, name+" start", g.evPos(e), "the sheet is read from %s on", clip(init.String(), 60))
				}
			}
			// where the declarations go
			for _, m := range g.evs(func(e *Event) bool { return e.kind == "mapset" }) {
				as := g.evArgs(m)
				v := g.simp(as[2])
				kind := ""
				if v.op == OStruct && v.typ != nil {
					switch typeKey(v.typ) {
					case modPath + "/style.Class":
						kind = "class"
					case modPath + "/style.Selector":
						kind = "selector"
					}
				}
				own := false
				for _, x := range v.args {
					own = own || isRes(x)
				}
				if kind == "" || !own {
					continue
				}
				k := g.simp(as[1])
				c.sheetName(g, m, name, kind, k, as[0], src, pos["{"])
			}
		}
	}
	if n == 0 {
		c.und(rule, "style", "where classes are decoded is not evident")
	}
}

// sheetName: the name is what precedes the brace; a colon separates class
// and selector.
func (c *Ck) sheetName(g *Graph, e *Event, name, kind string, k, m, src, open *Term) {
	rule := "C01.sheet"
	T := g.T
	whole := func(t *Term, what string) bool {
		ops, b, why := c.pipe(g, t)
		if why != "" || b.op != OSlice || b.args[0] != src {
			c.und(rule, name+" "+kind, "the name is %s", clip(t.String(), 150))
			return false
		}
		d, ok := T.constDiff(b.args[2], open)
		if b.args[2].op == ONone || !ok {
			c.und(rule, name+" "+kind, "the name is %s", clip(t.String(), 150))
			return false
		}
		if d.Sign() != 0 {
			c.fail(rule, name+" "+kind, g.evPos(e), "the name ends %s off the brace", d.RatString())
			return false
		}
		var dom []strCond
		for _, x := range []string{"\v", "\f", "\u0085", "\u00a0", "\r", "\n", "\t"} {
			dom = append(dom, strCond{k: "contains", a: x})
		}
		in, got, want, differ, err := chainsDiffer(ops, []strOp{{k: "trim", set: " "}}, dom...)
		if err == nil && differ {
			c.fail(rule, name+" "+kind, g.evPos(e), "the name %q is read as %q instead of %q", in, got, want)
			return false
		}
		return err == nil
	}
	colon := func(t, b *Term) (d *big.Rat, ok bool) {
		if t.op == ONone {
			return nil, false
		}
		walk(t, func(x *Term) bool {
			if base, at, ch := found(T, x); base == b && ch == ":" && d == nil {
				d, ok = T.constDiff(t, at)
			}
			return d == nil
		})
		return
	}
	// the class of a selector
	class := func(t *Term) bool {
		if t.op != OSlice || t.args[0] == src {
			return whole(t, "class")
		}
		d, ok := colon(t.args[2], t.args[0])
		if !ok || t.args[1].op != ONone && t.args[1] != T.Zero {
			c.und(rule, name+" "+kind, "the class is %s", clip(t.String(), 150))
			return false
		}
		if d.Sign() != 0 {
			c.fail(rule, name+" "+kind, g.evPos(e), "the name of the class ends %s off the colon", d.RatString())
			return false
		}
		return whole(t.args[0], "class")
	}
	switch kind {
	case "class":
		if class(k) {
			c.ok(rule, name+": declarations of a class")
		}
	case "selector":
		if k.op != OSlice {
			c.und(rule, name+" "+kind, "the selector is %s", clip(k.String(), 150))
			return
		}
		d, ok := colon(k.args[1], k.args[0])
		if !ok || k.args[2].op != ONone {
			c.und(rule, name+" "+kind, "the selector is %s", clip(k.String(), 150))
			return
		}
		if d.Cmp(big.NewRat(1, 1)) != 0 {
			c.fail(rule, name+" "+kind, g.evPos(e), "the selector starts %s off the colon", d.RatString())
			return
		}
		if !whole(k.args[0], "selector") {
			return
		}
		for m.op == OLoad || m.op == OField || m.op == OFAddr {
			m = m.args[0]
		}
		if m.op != OLookup {
			c.und(rule, name+" "+kind, "the class is %s", clip(m.String(), 150))
			return
		}
		if class(g.simp(m.args[1])) {
			c.ok(rule, name+": declarations of a selector")
		}
	}
}

// isCurr: the current styles of the processor.
func (g *Graph) isCurr(t *Term) bool {
	is := func(a *Term) bool {
		return a != nil && a.op == OFAddr && typeKey(a.typ) == modPath+".Processor"
	}
	switch t.op {
	case OLoad:
		return is(t.args[0])
	case OLoopVar:
		return is(t.data.(*loopInfo).addr)
	}
	return false
}

// docClasses: the classes of the document.
func docClasses(t *Term) int {
	switch {
	case t.op == ONil || t.op == OSeq:
		return -1
	case t.op == OLoad && t.args[0].op == OFAddr:
		return 1
	}
	return 0
}

// parents: what the styles of the elements inherit from.
func (c *Ck) parents() {
	rule := "C01.parents"
	for _, k := range []string{"Text", "Box", "Image", "Font", "Table"} {
		var gs []*Graph
		if k == "Text" || k == "Box" || k == "Table" {
			gs = append(gs, c.textGraph(k, "left"), c.textGraph(k, "block"))
		} else {
			gs = append(gs, c.process("parents,"+k, both(idle, assumeKind(k))))
		}
		for _, g := range gs {
			if g == nil {
				continue
			}
			n := 0
			for _, e := range g.evs(func(e *Event) bool { return e.kind == "call" }) {
				so := asStyle(g.evResult(e))
				if so == nil {
					continue
				}
				el := elemOf(so.recv)
				if el == nil || kindOf(el) != k || !g.ownStyled(so.recv, el) {
					continue
				}
				n++
				name := k
				switch docClasses(so.cls) {
				case 1:
					c.ok(rule, name+": the classes of the document")
				case -1:
					c.fail(rule, name+" classes", g.evPos(e), "the classes are %s", clip(so.cls.String(), 100))
				default:
					c.und(rule, name+" classes", "the classes are %s", clip(so.cls.String(), 100))
				}
				switch {
				case g.isCurr(so.parent):
					c.ok(rule, name+": inherits the current styles")
				case asStyle(so.parent) != nil:
					c.fail(rule, name+" parent", g.evPos(e), "the styles inherit from those of another element: %s", clip(so.parent.String(), 200))
				case understoodIn(so.parent, nil) && so.parent.op != OIte:
					c.fail(rule, name+" parent", g.evPos(e), "the styles inherit from %s", clip(so.parent.String(), 200))
				default:
					c.und(rule, name+" parent", "the styles inherit from %s", clip(so.parent.String(), 200))
				}
			}
			if n == 0 {
				c.und(rule, k, "the styles of the element are not evident")
			}
		}
	}
}

// paragraphs: a paragraph inherits from the text, box or cell it is in.
func (c *Ck) paragraphs() {
	rule := "C01.paragraph"
	for _, k := range []string{"Text", "Box", "Table"} {
		n := 0
		for _, g := range []*Graph{c.textGraph(k, "left"), c.textGraph(k, "block")} {
			if g == nil {
				continue
			}
			for _, e := range g.evs(func(e *Event) bool { return e.kind == "call" }) {
				so := asStyle(g.evResult(e))
				if so == nil || kindOf(elemOf(so.recv)) != "Paragraph" || !g.ownStyled(so.recv, elemOf(so.recv)) {
					continue
				}
				n++
				con := "paragraph in " + k
				if docClasses(so.cls) == -1 {
					c.fail(rule, con+" classes", g.evPos(e), "the classes are %s", clip(so.cls.String(), 100))
				}
				ls, ok := g.leaves([]*Term{g.simp(so.parent)})
				if !ok {
					c.und(rule, con, "too many cases")
					continue
				}
				for _, l := range ls {
					t := l.ts[0]
					s := asStyle(t)
					switch {
					case g.isCurr(t):
						c.fail(rule, con, g.evPos(e), "a paragraph inherits the current styles, not those of what it is in")
					case s != nil:
						el := elemOf(s.recv)
						own := rowOrCell(s.recv) == "TableCell"
						if w := kindOf(el); w == "Text" || w == "Box" {
							own = g.ownStyled(s.recv, el) && contains(so.recv, func(x *Term) bool { return x == el })
						}
						c.expect(own, rule, con, g.evPos(e), "a paragraph inherits from %s", clip(t.String(), 200))
					case t.op == OStruct && g.partOfCurr(t):
						c.fail(rule, con, g.evPos(e), "a paragraph inherits some of the current styles, not those of what it is in")
					case t.op == OLoad && t.args[0].op == OFAddr && contains(so.recv, func(x *Term) bool { return x == t.args[0].args[0] }):
						c.ok(rule, con+": the styles kept with the contents")
					case understoodIn(t, nil) && t.op != OIte && t.op != OLoad:
						c.fail(rule, con, g.evPos(e), "a paragraph inherits from %s", clip(t.String(), 200))
					default:
						c.und(rule, con, "a paragraph inherits from %s", clip(t.String(), 200))
					}
				}
			}
		}
		if n == 0 {
			c.und(rule, "paragraph in "+k, "the styles of paragraphs are not evident")
		}
	}
}

// partOfCurr: a field of the struct is one of the current styles.
func (g *Graph) partOfCurr(t *Term) bool {
	for _, a := range t.args {
		if a.op == OStruct && g.partOfCurr(a) {
			return true
		}
		for a.op == OField {
			a = a.args[0]
		}
		if g.isCurr(a) {
			return true
		}
		if a.op == OLoad {
			for x := a.args[0]; x.op == OFAddr; x = x.args[0] {
				if typeKey(x.typ) == modPath+".Processor" {
					return true
				}
			}
		}
	}
	return false
}

// ownStyled: the styles are those of the element itself.
func (g *Graph) ownStyled(recv, el *Term) bool {
	x := recv
	for x != el {
		switch x.op {
		case OFAddr, OField, OLoad:
			x = x.args[0]
		default:
			return false
		}
	}
	return true
}

// tableStyles: table, rows and cells.
func (c *Ck) tableStyles() {
	rule := "C01.table"
	g := c.textGraph("Table", "left")
	if g == nil {
		return
	}
	T := g.T
	type lvl struct {
		e    *Event
		so   *styleOf
		list *Term // the elements
		iv   *Term
	}
	// the styles of rows and cells: those of elements of lists of structs of
	// the document
	seen := map[string]bool{}
	stored, at := map[string]map[string]int{}, map[string]string{}
	for _, e := range g.evs(func(e *Event) bool { return e.kind == "store" }) {
		as := g.evArgs(e)
		if len(as) < 2 || as[0].op != OFAddr {
			continue
		}
		v := as[1]
		if !contains(v, func(x *Term) bool { s := asStyle(x); return s != nil && rowOrCell(s.recv) != "" }) {
			continue
		}
		// the field of another struct, not a variable
		kind, list, iv := "", (*Term)(nil), (*Term)(nil)
		walk(v, func(x *Term) bool {
			if s := asStyle(x); s != nil && kind == "" {
				if k := rowOrCell(s.recv); k != "" {
					kind = k
					list, iv = ownerList(s.recv)
				}
				return false
			}
			return kind == ""
		})
		if list == nil || iv == nil || iv.op != OIV {
			c.und(rule, kind, "the position of the element is not evident")
			continue
		}
		if asStyle(v) == nil && v.op != OIte {
			continue // a part of the styles
		}
		sfx := map[string]string{"TableRow": "row", "TableCell": "cell"}[kind]
		n := T.len(list)
		first := T.zero(iv, true)
		last := T.zero(T.sub(T.add(iv, T.One), n), true)
		var stop *Node
		if l := g.innermost(e.n); l != nil {
			stop = l.head
		}
		conds := g.condsWithin(e.n, stop)
		within := lit{T.lt(iv, n, true), true}
		for _, w := range []struct {
			what  string
			facts []lit
			sel   string
		}{
			{"first", []lit{{first, true}}, "first-" + sfx},
			{"last", []lit{{first, false}, {last, true}}, "last-" + sfx},
			{"other", []lit{{first, false}, {last, false}}, ""},
		} {
			// the store is the one for this case
			never, always := false, true
			facts := append([]lit{within}, w.facts...)
			for _, cd := range conds {
				v, d := T.decideUnder(facts, cd)
				never = never || d && !v
				always = always && d && v
			}
			if stored[sfx] == nil {
				stored[sfx] = map[string]int{}
				at[sfx] = g.evPos(e)
			}
			if never {
				continue
			}
			stored[sfx][w.what] |= 1
			if always {
				stored[sfx][w.what] |= 2
			}
			facts = w.facts
			for _, cd := range conds {
				facts = append(facts, lit{cd, true})
			}
			ls, ok := g.leaves([]*Term{v}, facts...)
			if !ok {
				c.und(rule, sfx+" "+w.what, "too many cases")
				continue
			}
			for _, l := range ls {
				s := asStyle(l.ts[0])
				con := sfx + " " + w.what
				if s == nil && g.isCurr(l.ts[0]) {
					c.fail(rule, con, g.evPos(e), "the %s %s has the current styles, not those of the table, if %s", w.what, sfx, l)
					continue
				}
				if s == nil {
					c.und(rule, con, "the styles are %s", clip(l.ts[0].String(), 200))
					continue
				}
				sel := ""
				if s.sel != nil {
					if !s.sel.isStr() {
						c.und(rule, con, "the selector is %s", clip(s.sel.String(), 100))
						continue
					}
					sel = s.sel.s
				}
				key := con + sel + fmt.Sprint(e.id)
				if seen[key] {
					continue
				}
				seen[key] = true
				li, i2 := ownerList(s.recv)
				if rowOrCell(s.recv) != kind || li != list || i2 != iv {
					c.fail(rule, con, g.evPos(e), "the styles are those of another element: %s", clip(s.recv.String(), 200))
					continue
				}
				if sel != w.sel {
					if len(l.lits) > 0 && sel == "" {
						c.fail(rule, con, g.evPos(e), "the %s %s has no selector if %s", w.what, sfx, l)
					} else {
						c.fail(rule, con, g.evPos(e), "the %s %s has the selector %q instead of %q", w.what, sfx, sel, w.sel)
					}
					continue
				}
				c.ok(rule, con+": selector")
				if docClasses(s.cls) == -1 {
					c.fail(rule, con+" classes", g.evPos(e), "the classes are %s", clip(s.cls.String(), 100))
				}
				c.tableParent(g, kind, con, e, s)
			}
		}
	}
	if len(seen) == 0 {
		c.und(rule, "Table", "the styles of rows and cells are not evident")
	}
	for sfx, ws := range stored {
		for _, w := range []string{"first", "last", "other"} {
			switch ws[w] {
			case 0:
				c.fail(rule, sfx+" "+w, at[sfx], "the %s %s gets no styles", w, sfx)
			case 1:
				c.und(rule, sfx+" "+w, "whether the %s %s gets its styles is not evident", w, sfx)
			}
		}
	}
}

// tableParent: rows inherit from the table, cells from their row.
func (c *Ck) tableParent(g *Graph, kind, con string, e *Event, s *styleOf) {
	rule := "C01.table"
	ls, ok := g.leaves([]*Term{g.simp(s.parent)})
	if !ok {
		c.und(rule, con+" parent", "too many cases")
		return
	}
	for _, l := range ls {
		p := asStyle(l.ts[0])
		switch {
		case p == nil && g.isCurr(l.ts[0]):
			c.fail(rule, con+" parent", g.evPos(e), "the styles of a %s inherit from the current styles", kind)
		case p == nil:
			c.und(rule, con+" parent", "the styles inherit from %s", clip(l.ts[0].String(), 200))
		case kind == "TableRow":
			el := elemOf(p.recv)
			ok := rowOrCell(p.recv) == "" && kindOf(el) == "Table" && g.ownStyled(p.recv, el)
			c.expect(ok, rule, con+" parent", g.evPos(e), "the styles of a row inherit from %s", clip(l.ts[0].String(), 200))
		case kind == "TableCell":
			row := s.recv
			for row != nil && rowOrCell(row) == "TableCell" {
				row = up(row)
			}
			// the same row
			a, i := ownerList(s.recv)
			_ = i
			ok := false
			if rowOrCell(p.recv) == "TableRow" {
				rl, ri := ownerList(p.recv)
				if contains(a, func(x *Term) bool { y, j := seqElem(x); return y == rl && j == ri }) || contains(a, func(x *Term) bool {
					return x.op == OIAddr && x.args[0] == rl && x.args[1] == ri
				}) {
					ok = true
				}
			}
			c.expect(ok, rule, con+" parent", g.evPos(e), "the styles of a cell inherit from %s", clip(l.ts[0].String(), 200))
		}
	}
}

func up(t *Term) *Term {
	if len(t.args) == 0 {
		return nil
	}
	return t.args[0]
}

// rowOrCell: the element of a list of rows or cells of the document the
// styles belong to.
func rowOrCell(recv *Term) string {
	for x := recv; x != nil; x = up(x) {
		if x.op == OFAddr || x.op == OField {
			if n := namedOf(x.typ); n != nil {
				switch k := n.Obj().Name(); k {
				case "TableRow", "TableCell":
					return k
				case "Styled":
					continue
				}
			}
			return ""
		}
		if x.op != OLoad {
			return ""
		}
	}
	return ""
}

// ownerList: the list and the position of the element.
func ownerList(recv *Term) (list, iv *Term) {
	for x := recv; x != nil; x = up(x) {
		switch x.op {
		case OFAddr, OField:
			continue
		case OIndex, OIAddr:
			return x.args[0], x.args[1]
		case OLoad:
			continue
		}
		return nil, nil
	}
	return nil, nil
}

// ---- C15

type styleKey struct{ key, field, kind string }

var styleKeys = []styleKey{
	{"font-family", "Family", "string"}, {"font-point-size", "PointSize", "float"},
	{"font-style", "Style", "string"}, {"font-weight", "Weight", "string"}, {"font-decoration", "Decoration", "string"},
	{"border", "Border", "struct"}, {"padding", "Padding", "struct"}, {"margin", "Margin", "struct"},
	{"width", "Width", "float"}, {"height", "Height", "float"}, {"line-spacing", "LineSpacing", "float"},
	{"offset-x", "OffsetX", "float"}, {"offset-y", "OffsetY", "float"},
	{"column-width", "ColumnWidth", "float"}, {"line-width", "LineWidth", "float"},
	{"h-align", "HAlign", "string"}, {"v-align", "VAlign", "string"},
	{"color", "Foreground", "struct"}, {"text-color", "Text", "struct"}, {"background-color", "Background", "struct"},
}

func ruleC15(c *Ck) {
	c.keyTable()
	for _, f := range c.P.Funcs {
		if f.Name() == "UnmarshalStyle" && f.Signature.Recv() != nil && len(f.Blocks) > 0 && f.Synthetic == "" {
			c.protect("C15.value", func() { c.composite(f) })
		}
	}
	c.protect("C15.parse", c.parseStyles)
	c.protect("C15.set", c.setters)
	c.protect("C15.path", c.fieldPath)
}

// keyTable: every key addresses its own property.
func (c *Ck) keyTable() {
	rule := "C15.keys"
	t := c.P.typ("style", "Styles")
	if t == nil {
		c.und(rule, "Styles", "no type for styles found")
		return
	}
	type entry struct {
		f   *types.Var
		pos string
	}
	tab := map[string][]entry{}
	fields := map[string]bool{}
	tagName := c.styleTag()
	var visit func(st *types.Struct)
	visit = func(st *types.Struct) {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			fields[f.Name()] = true
			if k := reflect.StructTag(st.Tag(i)).Get(tagName); k != "" {
				tab[k] = append(tab[k], entry{f, c.P.posStr(f.Pos())})
			}
			if s, ok := f.Type().Underlying().(*types.Struct); ok {
				visit(s)
			}
		}
	}
	visit(t.Underlying().(*types.Struct))
	spec := map[string]bool{}
	for _, k := range styleKeys {
		spec[k.field] = true
	}
	for _, k := range styleKeys {
		es := tab[k.key]
		if len(es) == 0 {
			c.fail(rule, k.key, "style", "no property has the key %q", k.key)
			continue
		}
		e := es[0]
		if len(es) > 1 {
			c.fail(rule, k.key, es[1].pos, "two properties have the key %q: %s and %s", k.key, es[0].f.Name(), es[1].f.Name())
			continue
		}
		switch {
		case e.f.Name() == k.field:
			c.ok(rule, k.key+": "+k.field)
		case spec[e.f.Name()] && fields[k.field]:
			c.fail(rule, k.key, e.pos, "the key %q addresses %s, not %s", k.key, e.f.Name(), k.field)
		default:
			c.und(rule, k.key, "the key addresses %s", e.f.Name())
			continue
		}
		kind := "struct"
		if b, ok := e.f.Type().Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsString != 0:
				kind = "string"
			case b.Info()&types.IsFloat != 0:
				kind = "float"
			default:
				kind = b.Name()
			}
		}
		if kind == k.kind {
			c.ok(rule, k.key+": "+kind)
		} else if k.kind == "float" && strings.Contains(kind, "int") {
			c.fail(rule, k.key+" type", e.pos, "%s takes whole numbers only", k.field)
		} else {
			c.und(rule, k.key+" type", "%s is a %s", k.field, kind)
		}
	}
}

// styleTag is the name of the tag that holds the key.
func (c *Ck) styleTag() string {
	return "style"
}

var sides = map[string]int{"Left": 0, "Top": 1, "Right": 2, "Bottom": 3}

// composite: values with several components.
func (c *Ck) composite(f *ssa.Function) {
	rule := "C15.value"
	name := fnName(f)
	g := c.graphOf(f, "", noErrors)
	if g == nil {
		return
	}
	T := g.T
	recv := g.val(g.root, f.Params[0])
	var src *Term
	for _, p := range f.Params[1:] {
		if isStringType(p.Type()) {
			src = g.val(g.root, p)
		}
	}
	st, ok := deref(f.Params[0].Type()).Underlying().(*types.Struct)
	if !ok || src == nil {
		return
	}
	rgb := map[string]int{"R": 0, "G": 1, "B": 2}
	kind := ""
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := sides[st.Field(i).Name()]; ok {
			kind = "sides"
		} else if _, ok := rgb[st.Field(i).Name()]; ok {
			kind = "rgb"
		}
	}
	if kind == "" {
		return
	}
	order := sides
	if kind == "rgb" {
		order = rgb
	}
	set := map[string]bool{}
	// scanned
	for _, e := range g.evs(func(e *Event) bool {
		return e.kind == "call" && strings.HasPrefix(e.callee, "fmt.") && strings.Contains(e.callee, "scan")
	}) {
		as := g.evArgs(e)
		dst := as[len(as)-1]
		if dst.op != OSeq || strings.Contains(dst.s, "s") {
			continue
		}
		k := 0
		for _, a := range dst.args {
			for a.op == OIface || a.op == OConv {
				a = a.args[0]
			}
			if a.op == OFAddr && a.args[0] == recv {
				n := st.Field(a.i).Name()
				set[n] = true
				c.expect(order[n] == k, rule, name+" "+n, g.evPos(e), "%s takes value number %d", n, k+1)
			}
			k++
		}
		c.scanned(g, e, as, src, name, len(order), kind)
	}
	// stored
	for _, e := range g.evs(func(e *Event) bool { return e.kind == "store" }) {
		as := g.evArgs(e)
		var names []string
		var vals []*Term
		if as[0].op == OFAddr && as[0].args[0] == recv {
			names, vals = []string{st.Field(as[0].i).Name()}, []*Term{as[1]}
		} else if as[0] == recv {
			for i := 0; i < st.NumFields(); i++ {
				names = append(names, st.Field(i).Name())
				vals = append(vals, T.field(as[1], i, deref(f.Params[0].Type())))
			}
		}
		for i, n := range names {
			want, is := order[n]
			if !is {
				continue
			}
			set[n] = true
			v := g.simp(vals[i])
			if kind == "rgb" {
				c.colour(g, name, n, want, v, src, g.evPos(e))
				continue
			}
			// a part of the value
			var idx *Term
			walk(v, func(x *Term) bool {
				if s, i := seqElem(x); s != nil && s.op == OCall && strings.HasPrefix(s.s, "strings.") {
					idx = i
				}
				return idx == nil
			})
			switch {
			case idx != nil && idx.isNum():
				c.expect(idx.rat().Cmp(big.NewRat(int64(want), 1)) == 0, rule, name+" "+n, g.evPos(e), "%s takes value number %s, counted from 0", n, idx)
			default:
				// copied from scanned variables
				if j, ok := g.scannedAt(v); ok {
					c.expect(j == want, rule, name+" "+n, g.evPos(e), "%s takes value number %d", n, j+1)
				} else {
					c.und(rule, name+" "+n, "the value is %s", clip(v.String(), 200))
				}
			}
		}
	}
	for n := range order {
		if !set[n] {
			if hasField(st, n) && len(set) > 0 {
				c.fail(rule, name+" "+n, c.P.posStr(f.Pos()), "%s is not set", n)
			} else {
				c.und(rule, name+" "+n, "where it is set is not evident")
			}
		}
	}
}

// scannedAt: the value is that a scan function stored, and the number of the
// variable.
func (g *Graph) scannedAt(v *Term) (int, bool) {
	found, k := false, 0
	for _, e := range g.evs(func(e *Event) bool {
		return e.kind == "call" && strings.HasPrefix(e.callee, "fmt.") && strings.Contains(e.callee, "scan")
	}) {
		as := g.evArgs(e)
		dst := as[len(as)-1]
		if dst.op != OSeq {
			continue
		}
		for i, a := range dst.args {
			for a.op == OIface || a.op == OConv {
				a = a.args[0]
			}
			a := a
			if contains(v, func(x *Term) bool {
				return x.op == OLoad && x.args[0] == a || x.op == OClobber && len(x.args) > 0 && x.args[0] == a
			}) {
				found, k = true, i
			}
		}
	}
	return k, found
}

func hasField(st *types.Struct, n string) bool {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == n {
			return true
		}
	}
	return false
}

// scanned: the format takes the values separated by commas.
func (c *Ck) scanned(g *Graph, e *Event, as []*Term, src *Term, name string, n int, kind string) {
	rule := "C15.value"
	if kind != "sides" {
		return
	}
	var fm *Term
	from := false
	for _, a := range as[:len(as)-1] {
		if a.isStr() {
			fm = a
		}
		if contains(a, func(x *Term) bool { return x == src }) {
			from = true
		}
	}
	if !from {
		c.und(rule, name+" source", "what is scanned is not evident")
	}
	if fm == nil {
		c.und(rule, name+" format", "the format is not evident")
		return
	}
	ps := strings.Split(fm.s, ",")
	ok := len(ps) == n
	for _, p := range ps {
		switch strings.TrimSpace(p) {
		case "%d", "%f", "%g", "%v":
		default:
			ok = false
		}
	}
	c.expect(ok, rule, name+" format", g.evPos(e), "the format of the value is %q", fm.s)
}

// bits describes a value as part of the bits of another one.
type bits struct {
	of    *Term
	shift int
	width int // 0: all
	zeros int // bits below that are not part of it
}

func bitsOf(t *Term) (b bits, ok bool) {
	switch t.op {
	case OOp:
		if len(t.args) == 2 && t.args[1].isNum() && t.args[1].rat().IsInt() {
			n := int(t.args[1].rat().Num().Int64())
			x, ok := bitsOf(t.args[0])
			if !ok {
				return bits{}, false
			}
			switch t.s {
			case ">>":
				if x.zeros > 0 {
					if n > x.zeros {
						return bits{}, false
					}
					x.zeros -= n
					return x, true
				}
				x.shift += n
				if x.width > 0 {
					x.width -= n
					if x.width <= 0 {
						return bits{}, false
					}
				}
				return x, true
			case "/":
				if n > 0 && n&(n-1) == 0 && x.zeros == 0 {
					k := 0
					for n > 1 {
						n >>= 1
						k++
					}
					x.shift += k
					if x.width > 0 {
						x.width -= k
					}
					return x, x.width >= 0
				}
			case "&", "%":
				if t.s == "%" {
					n--
				}
				if n > 0 && n&(n+1) == 0 && x.zeros == 0 {
					k := 0
					for n > 0 {
						n >>= 1
						k++
					}
					if x.width == 0 || x.width > k {
						x.width = k
					}
					return x, true
				}
				if t.s == "&" && n > 0 {
					// a mask in the middle: its low bits are to be shifted away
					k, s := 0, 0
					for n&1 == 0 {
						n >>= 1
						s++
					}
					for n&1 == 1 {
						n >>= 1
						k++
					}
					if n == 0 && x.zeros == 0 {
						return bits{x.of, x.shift + s, k, s}, true
					}
				}
			}
		}
		return bits{}, false
	case OConv:
		return bitsOf(t.args[0])
	}
	return bits{of: t}, true
}

// colour: the components are two hexadecimal digits each.
func (c *Ck) colour(g *Graph, name, n string, want int, v, src *Term, pos string) {
	rule := "C15.value"
	vs, _ := g.leaves([]*Term{g.simp(v)})
	for _, vl := range vs {
		l := vl.ts[0]
		// digits cut out of the value
		var piece *Term
		walk(l, func(x *Term) bool {
			if x.op == OCall && strings.HasPrefix(x.s, "strconv.Parse") {
				if x.args[1].isNum() && x.args[1].s != "16" && x.s != "strconv.ParseFloat" {
					c.fail(rule, name+" base", pos, "the digits are read to the base %s", x.args[1])
				}
				piece = x.args[0]
			}
			return true
		})
		b, ok := bitsOf(l)
		if !ok || piece == nil || !contains(b.of, func(x *Term) bool { return x == piece }) {
			c.und(rule, name+" "+n, "the value is %s", clip(l.String(), 200))
			continue
		}
		ls, ok2 := g.leaves([]*Term{piece}, vl.lits...)
		if !ok2 {
			c.und(rule, name+" "+n, "too many cases")
			continue
		}
		for _, p := range ls {
			s := p.ts[0]
			off := 0 // digits before the piece, after the leading #
			whole := 6
			if isHash(vl, src, g) || isHash(p, src, g) {
				whole++
			}
			lo, hi, cut := 0, whole, s.op == OSlice
			for i, x := range s.args {
				if s.op != OSlice || i == 0 || x.op == ONone {
					continue
				}
				if !x.isNum() || !x.rat().IsInt() {
					cut = false
					continue
				}
				if v := int(x.rat().Num().Int64()); i == 1 {
					lo = v
				} else {
					hi = v
				}
			}
			if cut && hi-lo < 6 {
				hash := 0
				base := s.args[0]
				if isHash(vl, base, g) || isHash(p, base, g) {
					hash = 1
				}
				if hi-lo != 2 {
					c.und(rule, name+" "+n, "the value is read from %s", clip(s.String(), 100))
					continue
				}
				off = lo - hash
				c.expect(off == 2*want && b.shift == 0, rule, name+" "+n, pos, "%s takes the digits from number %d on", n, off)
				continue
			}
			if b.width == 0 {
				b.width = 24 - b.shift
			}
			if b.zeros > 0 {
				c.fail(rule, name+" "+n, pos, "%s is shifted by %d bits", n, b.zeros)
				continue
			}
			c.expect(b.shift == 16-8*want && b.width == 8, rule, name+" "+n, pos, "%s takes the %d bits from number %d on of %s", n, b.width, b.shift, clip(s.String(), 100))
		}
	}
}

func isHash(l leaf, base *Term, g *Graph) bool {
	for _, x := range l.lits {
		if x.v && x.c.op == OCall && x.c.s == "strings.HasPrefix" && x.c.args[0] == base {
			return true
		}
	}
	return false
}

// parseStyles: keys and values.
func (c *Ck) parseStyles() {
	rule := "C15.parse"
	var fs []*ssa.Function
	for _, f := range c.P.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != modPath+"/style" || len(f.Blocks) == 0 {
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() > 0 && typeKey(rs.At(0).Type()) == "map[string]string" {
			fs = append(fs, f)
		}
	}
	if len(fs) == 0 {
		c.und(rule, "style", "no function that splits styles into keys and values found")
	}
	for _, f := range fs {
		name := fnName(f)
		g := c.graphOf(f, "", nil)
		if g == nil {
			continue
		}
		T := g.T
		n := 0
		for _, e := range g.evs(func(e *Event) bool { return e.kind == "mapset" }) {
			as := g.evArgs(e)
			if len(as) < 3 {
				continue
			}
			n++
			m, k, v := as[0], as[1], as[2]
			part := func(t *Term) (list, idx *Term, ops []strOp) {
				ops, b, why := c.pipe(g, t)
				if why != "" {
					return nil, nil, nil
				}
				list, idx = seqElem(b)
				return list, idx, ops
			}
			kl, ki, ko := part(k)
			vl, vi, vo := part(v)
			if kl == nil || vl == nil || ki == nil || vi == nil || !ki.isNum() || !vi.isNum() {
				c.und(rule, name, "key and value are %s", clip(k.String()+" and "+v.String(), 250))
			} else {
				c.expect(kl == vl, rule, name+" pair", g.evPos(e), "key and value are of different declarations")
				c.expect(ki == T.Zero, rule, name+" key", g.evPos(e), "the key is part number %s", ki)
				c.expect(vi == T.One, rule, name+" value", g.evPos(e), "the value is part number %s", vi)
				for _, o := range []struct {
					what string
					ops  []strOp
				}{{"key", ko}, {"value", vo}} {
					// white space beyond blanks and line ends is left open
					var dom []strCond
					for _, x := range []string{"\v", "\f", "\u0085", "\u00a0"} {
						dom = append(dom, strCond{k: "contains", a: x})
					}
					in, got, want, differ, err := chainsDiffer(o.ops, []strOp{{k: "trim", set: " \r\n\t"}}, dom...)
					if err == nil && differ {
						c.fail(rule, name+" "+o.what, g.evPos(e), "the %s %q is read as %q instead of %q", o.what, in, got, want)
					} else if err == nil {
						c.ok(rule, name+": "+o.what)
					}
				}
			}
			// the last one counts
			guarded := false
			for _, cd := range g.condsBefore(e) {
				if contains(cd, func(x *Term) bool { return (x.op == OLookupOk || x.op == OLookup) && baseIs(x.args[0], m) }) || contains(cd, func(x *Term) bool { return x.op == OLookupOk && x.args[1] == k }) {
					guarded = true
				}
			}
			if lp := g.innermost(e.n); !guarded && lp != nil && vl != nil {
				if cd, sure := g.storeSkipped(lp, m, vl, k, v); cd != nil && sure {
					c.fail(rule, name+" last", g.evPos(e), "a declaration is left out for %s", clip(cd.String(), 150))
				} else if cd != nil {
					c.und(rule, name+" last", "a declaration is left out for %s", clip(cd.String(), 150))
				}
			}
			c.expect(!guarded, rule, name+" last", g.evPos(e), "a key that was set before is treated differently")
			// all declarations, in order
			lp := g.innermost(e.n)
			if lp == nil {
				c.und(rule, name+" all", "the loop over the declarations is not evident")
				continue
			}
			c.declLoop(g, lp, e, name)
		}
		if n == 0 {
			c.und(rule, name, "where keys are set is not evident")
		}
	}
	// unknown keys are ignored, known ones applied
	c.unknownKeys()
}

// storeSkipped: a condition on the value of a declaration, or on what the map
// holds already, for which an iteration ends without a store to the map.
func (g *Graph) storeSkipped(lp *Loop, m, list, k, v *Term) (why *Term, sure bool) {
	about := func(x *Term) bool {
		if (x.op == OLookup || x.op == OLookupOk) && baseIs(x.args[0], m) {
			return true
		}
		if x == k {
			return false
		}
		s, i := seqElem(x)
		return s == list && i == g.T.One
	}
	fl := &flow{g: g}
	fl.step = func(e *Event, s int) (int, bool) {
		if e.kind == "mapset" {
			if as := g.evArgs(e); len(as) > 0 && as[0] == m {
				return s, true
			}
		}
		return s, false
	}
	var conds []*Term
	fl.edge = func(e *Edge, s int) (int, bool) {
		if cd := g.cond(e); cd != nil && contains(cd, about) {
			conds = append(conds, cd)
			s = len(conds)
		}
		if e.to == lp.head {
			if s > 0 {
				why = conds[s-1]
			}
			return s, false
		}
		return s, lp.body[e.to]
	}
	fl.run(point{lp.head, 0}, 0)
	if why == nil {
		return nil, false
	}
	// the same value again
	sure = !contains(why, func(x *Term) bool {
		return x.op == OEq && (x.args[0] == v || x.args[1] == v) && contains(x, func(y *Term) bool { return y.op == OLookup })
	})
	return why, sure
}

// innermost: the smallest loop around a node.
func (g *Graph) innermost(n *Node) *Loop {
	var best *Loop
	for _, l := range g.loops {
		if l.body[n] && (best == nil || len(l.body) < len(best.body)) {
			best = l
		}
	}
	return best
}

// declLoop: the loop takes the declarations from first to last; only errors
// end it early.
func (c *Ck) declLoop(g *Graph, lp *Loop, e *Event, name string) {
	rule := "C15.parse"
	T := g.T
	iv := T.mk(&Term{op: OIV, i: lp.head.id, data: lp})
	var list *Term
	var at *Term
	for _, a := range g.evArgs(e)[1:] {
		walk(a, func(x *Term) bool {
			if s, i := seqElem(x); s != nil && contains(i, func(y *Term) bool { return y == iv }) {
				list, at = s, i
			}
			return true
		})
	}
	if list == nil {
		c.und(rule, name+" all", "the loop over the declarations is not evident")
		return
	}
	if at != iv {
		if d, ok := T.constDiff(at, iv); !ok || d.Sign() != 0 {
			c.fail(rule, name+" order", g.evPos(e), "the declarations are not taken from first to last: number %s", clip(at.String(), 100))
		}
		return
	}
	early := g.earlyEnd(lp, T.len(list))
	c.expect(early == "", rule, name+" all", g.evPos(e), "declarations after one for which %s are lost", early)
}

// earlyEnd: the condition on which a loop ends before its counter reached n,
// other than by returning an error.
func (g *Graph) earlyEnd(lp *Loop, n *Term) string {
	T := g.T
	iv := T.mk(&Term{op: OIV, i: lp.head.id, data: lp})
	early := ""
	for _, x := range lp.exits {
		if !g.liveEdge[x] {
			continue
		}
		cd := g.cond(x)
		if cd == T.le(n, iv, true) {
			continue
		}
		// where this leads: a result that is no error
		ok := true
		fl := &flow{g: g, step: func(e *Event, s int) (int, bool) { return s, false }}
		fl.edge = func(e *Edge, s int) (int, bool) { return s, true }
		fl.atEnd = func(n *Node, s int) {
			nr := g.root.fn.Signature.Results().Len()
			for _, r := range g.results(nr - 1) {
				if r.n != n {
					continue
				}
				if !types.Identical(g.root.fn.Signature.Results().At(nr-1).Type(), errorType) {
					ok = false
				}
				vs := cases(g, r.t)
				if ls, fine := g.leaves([]*Term{r.t}, lit{cd, true}); fine && cd != nil {
					vs = nil
					for _, l := range ls {
						vs = append(vs, l.ts[0])
					}
				}
				for _, v := range vs {
					if v.op == ONil || errResult(v) != nil {
						ok = ok && errIn(cd, v)
					}
				}
			}
		}
		fl.run(point{x.to, 0}, 0)
		if !ok {
			early = clip(fmt.Sprint(cd), 150)
		}
	}
	return early
}

// errIn: the condition is about this error.
func errIn(cd, v *Term) bool {
	return v.op != ONil && cd != nil && contains(cd, func(x *Term) bool { return x == v })
}

// unknownKeys: a key of no property does nothing, the others go on.
func (c *Ck) unknownKeys() {
	rule := "C15.unknown"
	isMake := func(f *ssa.Function) bool {
		rs := f.Signature.Results()
		if rs.Len() != 3 || f.Pkg == nil || f.Pkg.Pkg.Path() != modPath+"/style" {
			return false
		}
		_, fn := rs.At(0).Type().Underlying().(*types.Signature)
		return fn && rs.At(1).Type().String() == "bool" && rs.At(2).Type().String() == "error"
	}
	var mk *ssa.Function
	for _, f := range c.P.Funcs {
		if isMake(f) {
			mk = f
		}
	}
	dec := c.P.fn("style", "DecodeMutator")
	if mk == nil || dec == nil {
		c.und(rule, "DecodeMutator", "the lookup of keys is not evident")
		return
	}
	for _, found := range []bool{false, true} {
		o := defaultOptions(c.P)
		o.Opaque = isMake
		o.Assume = both(noErrors, func(g *Graph, t *Term) (bool, bool) {
			if t.op == OProj && t.i == 1 && t.args[0].op == OInv && strings.HasPrefix(t.args[0].s, fnName(mk)) {
				return found, true
			}
			return false, false
		})
		g := c.newGraph(dec, o)
		if g == nil {
			return
		}
		T := g.T
		calls := g.evs(func(e *Event) bool { return e.kind == "call" && e.callee == fnName(mk) })
		if len(calls) == 0 {
			c.und(rule, "DecodeMutator", "the lookup of keys is not evident")
			return
		}
		for _, e := range calls {
			res := g.evResult(e)
			fn := T.proj(res, 0)
			lp := g.innermost(e.n)
			if lp == nil {
				c.und(rule, "DecodeMutator", "the loop over the keys is not evident")
				continue
			}
			added := func(x *Event) bool {
				if x.kind != "store" {
					return false
				}
				as := g.evArgs(x)
				return as[1].op == OSeq && contains(as[1], func(y *Term) bool { return y == fn })
			}
			if found {
				c.expect(g.loopAlways(lp, e, added), rule, "DecodeMutator known", g.evPos(e), "a known key may be lost")
			} else {
				if ev, _ := g.canReach(g.after(e), nil, added, nil); ev != nil {
					if again, _ := g.canReach(g.after(e), func(x *Event) bool { return x == e }, added, nil); again != nil {
						c.fail(rule, "DecodeMutator nothing", g.evPos(again), "for a key of no property a function is added that does not exist")
					}
				}
			}
			// no early end
			for _, x := range lp.exits {
				if !g.liveEdge[x] || x.from == lp.head {
					continue
				}
				cd := g.cond(x)
				what := map[bool]string{true: "known", false: "unknown"}[found]
				c.fail(rule, "DecodeMutator "+what, g.evPos(e), "after a key that is %s the others are ignored or an error is returned (%v)", what, cd)
			}
			if found {
				// the value of the key
				as := g.evArgs(e)
				if e.fn != nil {
					c.keyValue(g, e, as)
				}
			}
			c.ok(rule, "DecodeMutator: keys that are "+map[bool]string{true: "known", false: "unknown"}[found])
		}
	}
}

// loopAlways: after e, the way round the loop always meets an event.
func (g *Graph) loopAlways(lp *Loop, e *Event, is func(*Event) bool) bool {
	ok := true
	fl := &flow{g: g}
	fl.step = func(x *Event, s int) (int, bool) { return s, is(x) }
	fl.edge = func(x *Edge, s int) (int, bool) {
		if x.to == lp.head {
			ok = false
			return s, false
		}
		return s, lp.body[x.to]
	}
	fl.run(g.after(e), 0)
	return ok
}

// keyValue: the value looked up is that of the key.
func (c *Ck) keyValue(g *Graph, e *Event, as []*Term) {
	rule := "C15.unknown"
	var strs []*Term
	for i, p := range e.fn.Params {
		if isStringType(p.Type()) {
			strs = append(strs, as[i])
		}
	}
	if len(strs) != 2 {
		c.und(rule, "DecodeMutator value", "the key and value passed on are not evident")
		return
	}
	k, v := strs[0], strs[1]
	b := v
	if b.op == OCall && strings.HasPrefix(b.s, "strings.Trim") {
		b = b.args[0]
	}
	switch {
	case b.op == OLookup && b.args[1] == k:
		c.ok(rule, "DecodeMutator: the value of the key")
	case b.op == OProj && k.op == OProj && b.args[0] == k.args[0]:
		c.ok(rule, "DecodeMutator: the value of the key")
	case b.op == OCall && strings.HasPrefix(b.s, "strings."):
		c.fail(rule, "DecodeMutator value", g.evPos(e), "the value is changed: %s", clip(v.String(), 150))
	case k.op == OCall && strings.HasPrefix(k.s, "strings."):
		c.fail(rule, "DecodeMutator key", g.evPos(e), "the key is changed: %s", clip(k.String(), 150))
	default:
		c.und(rule, "DecodeMutator value", "key and value are %s", clip(k.String()+", "+v.String(), 200))
	}
}

// setters: numbers are decimal and stored as they are, keys are compared
// exactly.
func (c *Ck) setters() {
	rule := "C15.set"
	n := 0
	for _, f := range c.P.Funcs {
		if f.Pkg == nil && f.Parent() == nil {
			continue
		}
		root := f
		for root.Parent() != nil {
			root = root.Parent()
		}
		if root.Pkg == nil || root.Pkg.Pkg.Path() != modPath+"/style" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cal := call.Common().StaticCallee()
				if cal == nil {
					continue
				}
				as := call.Common().Args
				pos := c.P.instrPos(in)
				switch fnName(cal) {
				case "(reflect.Value).SetFloat", "(reflect.Value).SetInt", "(reflect.Value).SetUint":
					n++
					want := map[string]string{"SetFloat": "strconv.ParseFloat", "SetInt": "strconv.ParseInt", "SetUint": "strconv.ParseUint"}[cal.Name()]
					src, conv := origin(as[1], 0)
					con := fnName(f) + " " + cal.Name()
					switch {
					case conv != "":
						c.fail(rule, con, pos, "the number is changed (%s) before it is set", conv)
					case src == nil:
						c.und(rule, con, "the number set is not evident")
					case fnName(src.StaticCallee()) == want && guardedBy(b, src) != nil:
						c.fail(rule, con, c.P.instrPos(guardedBy(b, src)), "whether the number is set depends on its value")
					case fnName(src.StaticCallee()) == want:
						c.ok(rule, con+": the number parsed")
						c.asGiven(rule, con, pos, src.Args[0])
						if len(src.Args) == 3 {
							if k, ok := src.Args[1].(*ssa.Const); ok {
								c.expect(k.Int64() == 10, rule, con+" base", pos, "numbers are read to the base %d", k.Int64())
							}
						}
						if k, ok := src.Args[len(src.Args)-1].(*ssa.Const); ok {
							c.expect(k.Int64() == 64 || k.Int64() == 0 || want != "strconv.ParseFloat" && k.Int64() >= 32, rule, con+" bits", pos, "numbers have %d bits only", k.Int64())
						}
					default:
						c.und(rule, con, "the number set is that of %s", fnName(src.StaticCallee()))
					}
				case "(reflect.Value).SetString":
					n++
					con := fnName(f) + " SetString"
					if src, conv := origin(as[1], 0); src != nil && strings.HasPrefix(fnName(src.StaticCallee()), "strings.") && !strings.HasPrefix(fnName(src.StaticCallee()), "strings.Trim") || conv != "" {
						c.fail(rule, con, pos, "the value is changed before it is set")
					} else {
						c.ok(rule, con+": the value as it is")
					}
				case "(reflect.StructTag).Get", "(reflect.StructTag).Lookup":
					n++
					if k, ok := as[1].(*ssa.Const); ok {
						c.expect(strings.Trim(k.Value.ExactString(), "\"") == c.styleTag(), rule, fnName(f)+" tag", pos, "the key is that of the tag %s", k.Value)
					}
					if v, ok := in.(ssa.Value); ok {
						c.keyCompare(f, v, pos)
					}
				}
			}
		}
	}
	if n == 0 {
		c.und(rule, "style", "how properties are set is not evident")
	}
}

// guardedBy: a branch on the value that the call yields, which decides
// whether the block is met.
func guardedBy(b *ssa.BasicBlock, src *ssa.CallCommon) ssa.Instruction {
	for d := b; d != nil; d = d.Idom() {
		up := d.Idom()
		if up == nil || len(d.Preds) != 1 {
			continue
		}
		f, ok := up.Instrs[len(up.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := f.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		for _, v := range []ssa.Value{cmp.X, cmp.Y} {
			if o, _ := origin(v, 0); o == src {
				return f
			}
		}
	}
	return nil
}

// keyCompare: the key of the tag is used for exact comparison only.
func (c *Ck) keyCompare(f *ssa.Function, v ssa.Value, pos string) {
	rule := "C15.set"
	con := fnName(f) + " key"
	eq := false
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.BinOp:
			eq = true
			_ = r
		case *ssa.Call:
			if cal := r.Common().StaticCallee(); cal != nil && strings.HasPrefix(fnName(cal), "strings.") {
				switch cal.Name() {
				case "EqualFold", "HasPrefix", "HasSuffix", "Contains":
					c.fail(rule, con, pos, "keys are compared by %s: other keys address the property as well", fnName(cal))
					return
				}
			}
		}
	}
	if eq {
		c.ok(rule, con+": compared exactly")
	} else {
		c.und(rule, con, "how keys are compared is not evident")
	}
}

// origin follows a value to the call it results from; conv names a change on
// the way.
func origin(v ssa.Value, d int) (*ssa.CallCommon, string) {
	if d > 20 {
		return nil, ""
	}
	switch x := v.(type) {
	case *ssa.Extract:
		if x.Index != 0 {
			return nil, ""
		}
		if call, ok := x.Tuple.(*ssa.Call); ok && call.Common().StaticCallee() != nil {
			return call.Common(), ""
		}
	case *ssa.Call:
		if x.Common().StaticCallee() != nil {
			return x.Common(), ""
		}
	case *ssa.Convert:
		f, ok1 := x.X.Type().Underlying().(*types.Basic)
		t, ok2 := x.Type().Underlying().(*types.Basic)
		src, conv := origin(x.X, d+1)
		if ok1 && ok2 && (f.Info()&types.IsFloat != 0 && t.Info()&types.IsInteger != 0 || t.Kind() == types.Float32 || t.Kind() == types.Int8 || t.Kind() == types.Uint8 || t.Kind() == types.Int16) {
			return src, "converted to " + t.Name()
		}
		return src, conv
	case *ssa.ChangeType:
		return origin(x.X, d+1)
	case *ssa.BinOp:
		if s, _ := origin(x.X, d+1); s != nil {
			return s, x.Op.String()
		}
		if s, _ := origin(x.Y, d+1); s != nil {
			return s, x.Op.String()
		}
	case *ssa.UnOp:
		if x.Op.String() == "-" {
			s, _ := origin(x.X, d+1)
			return s, "negated"
		}
		// a variable: its only store
		switch a := x.X.(type) {
		case *ssa.Alloc:
			return storeOrigin(a, d)
		case *ssa.FreeVar:
			fn := a.Parent()
			for _, r := range *fn.Referrers() {
				if mc, ok := r.(*ssa.MakeClosure); ok {
					if al, ok := mc.Bindings[freeIdx(a)].(*ssa.Alloc); ok {
						return storeOrigin(al, d)
					}
				}
			}
			if p := fn.Parent(); p != nil {
				for _, b := range p.Blocks {
					for _, in := range b.Instrs {
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
							if al, ok := mc.Bindings[freeIdx(a)].(*ssa.Alloc); ok {
								return storeOrigin(al, d)
							}
						}
					}
				}
			}
		}
	}
	return nil, ""
}

func storeOrigin(a *ssa.Alloc, d int) (*ssa.CallCommon, string) {
	var vals []ssa.Value
	for _, r := range *a.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == a {
			vals = append(vals, s.Val)
		}
	}
	if len(vals) != 1 {
		return nil, ""
	}
	return origin(vals[0], d+1)
}

// fieldPath: the property set is the one whose key was found, at all levels.
func (c *Ck) fieldPath() {
	rule := "C15.path"
	n := 0
	for _, f := range c.P.Funcs {
		root := f
		for root.Parent() != nil {
			root = root.Parent()
		}
		if root.Pkg == nil || root.Pkg.Pkg.Path() != modPath+"/style" || len(f.Blocks) == 0 || f.Synthetic != "" {
			continue
		}
		has := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok && call.Common().StaticCallee() != nil {
					switch fnName(call.Common().StaticCallee()) {
					case "(reflect.Value).Field", "(reflect.Value).FieldByIndex":
						has = true
					}
				}
			}
		}
		if !has {
			continue
		}
		g := c.newGraph(f, defaultOptions(c.P))
		if g == nil {
			continue
		}
		T := g.T
		for _, e := range g.evs(func(e *Event) bool { return e.kind == "call" && e.callee == "(reflect.Value).Field" }) {
			n++
			con := fnName(f) + " path"
			i := g.evArgs(e)[1]
			s, at := seqElem(i)
			switch {
			case i.isNum():
				c.fail(rule, con, g.evPos(e), "the property set is always number %s", i)
			case s == nil || at.op != OIV:
				c.und(rule, con, "the number of the property is %s", clip(i.String(), 150))
			default:
				whole := s
				for whole.op == OSlice {
					whole = whole.args[0]
				}
				if ok, why := g.completeLoop(at.data.(*Loop), T.len(whole)); !ok || whole != s {
					c.fail(rule, con, g.evPos(e), "not all levels are descended: %s", why)
				} else {
					c.ok(rule, con+": every level")
				}
			}
		}
	}
	// the path grows by the number of the struct at every level
	for _, f := range c.P.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != modPath+"/style" || len(f.Blocks) == 0 {
			continue
		}
		path := -1
		for i, p := range f.Params {
			if typeKey(p.Type()) == "[]int" {
				path = i
			}
		}
		rs := f.Signature.Results()
		if path < 0 || rs.Len() != 3 {
			continue
		}
		g := c.newGraph(f, defaultOptions(c.P))
		if g == nil {
			continue
		}
		par := g.val(g.root, f.Params[path])
		for _, e := range g.evs(func(e *Event) bool { return e.kind == "call" && e.fn == f }) {
			n++
			as := g.evArgs(e)
			if len(as) <= path {
				continue
			}
			// the struct descended into
			var num *Term
			walk(as[0], func(x *Term) bool {
				if x.op == OInv && strings.HasSuffix(x.s, "Type.Field") && len(x.args) == 2 {
					num = x.args[1]
				}
				return true
			})
			a := as[path]
			con := fnName(f) + " levels"
			switch {
			case a == par:
				c.fail(rule, con, g.evPos(e), "the number of the struct is not part of the path")
			case num == nil:
				c.und(rule, con, "the struct descended into is %s", clip(as[0].String(), 150))
			case a.op == OSeq && len(a.args) == 2 && a.s == "se" && a.args[0] == par:
				c.expect(a.args[1] == num, rule, con, g.evPos(e), "the path grows by %s", clip(a.args[1].String(), 100))
			default:
				stored := false
				for _, x := range g.evs(func(x *Event) bool { return x.kind == "store" }) {
					xs := g.evArgs(x)
					if xs[0].op == OIAddr && xs[0].args[0] == a {
						if xs[1] == num {
							stored = true
						}
					}
				}
				if stored {
					c.ok(rule, con+": the number of the struct")
				} else {
					c.und(rule, con, "the path is %s", clip(a.String(), 150))
				}
			}
		}
	}
	if n == 0 {
		c.und(rule, "style", "how the property is found is not evident")
	}
}

// runeFn decides a predicate on runes for one of them.
func (c *Ck) runeFn(f *ssa.Function, r rune) (yes, known bool) {
	if f == nil || len(f.Blocks) == 0 || len(f.Params) != 1 {
		return false, false
	}
	at := func(g *Graph, t *Term) *Term {
		p := g.val(g.root, f.Params[0])
		m := map[*Term]*Term{p: g.T.numI(int64(r))}
		walk(t, func(x *Term) bool {
			if x.op == OCall && x.s == "unicode.IsSpace" && len(x.args) == 1 && x.args[0] == p {
				m[x] = g.T.boolC(unicode.IsSpace(r))
			}
			return true
		})
		return g.T.subst(t, m)
	}
	g := c.graphOf(f, fmt.Sprintf("rune%d", r), func(g *Graph, t *Term) (bool, bool) {
		x := at(g, t)
		if x.isBool() {
			return x.i == 1, true
		}
		return false, false
	})
	if g == nil {
		return false, false
	}
	seen := 0
	for _, x := range g.results(0) {
		t := at(g, x.t)
		if !t.isBool() || seen > 0 && yes != (t.i == 1) {
			return false, false
		}
		yes = t.i == 1
		seen++
	}
	return yes, seen > 0
}

// fieldsBy: the classes are separated by a function.
func (c *Ck) fieldsBy(rule, name string, g *Graph, e *Event, v *Term) (done bool) {
	var f *Term
	walk(v, func(x *Term) bool {
		if x.op == OCall && x.s == "strings.FieldsFunc" && len(x.args) == 2 && f == nil {
			f = x.args[1]
		}
		return f == nil
	})
	if f == nil {
		return false
	}
	fn, _ := f.data.(*ssa.Function)
	if f.op != OFn || len(f.args) > 0 || fn == nil {
		return false
	}
	for _, r := range " a-_1" {
		yes, known := c.runeFn(fn, r)
		switch {
		case !known:
			return false
		case yes && r != ' ':
			c.fail(rule, name+" list", g.evPos(e), "classes are separated by %q", r)
			return true
		case !yes && r == ' ':
			c.fail(rule, name+" list", g.evPos(e), "classes are not separated by blanks")
			return true
		}
	}
	c.ok(rule, name+": the classes listed, in order")
	return true
}

// asGiven: the text parsed is the text given.
func (c *Ck) asGiven(rule, con, pos string, v ssa.Value) {
	for d := 0; d < 6; d++ {
		call, ok := v.(*ssa.Call)
		if !ok {
			break
		}
		fn := call.Common().StaticCallee()
		if fn == nil {
			break
		}
		n := fnName(fn)
		switch n {
		case "strings.Replace", "strings.ReplaceAll", "strings.TrimSuffix", "strings.TrimPrefix":
			as := call.Common().Args
			changes := false
			for _, a := range as[1:] {
				k, ok := a.(*ssa.Const)
				if !ok {
					c.und(rule, con+" text", "what is parsed is not evident")
					return
				}
				if isString(k.Type()) && strings.TrimSpace(constant.StringVal(k.Value)) != "" {
					changes = true
				}
			}
			if changes {
				c.fail(rule, con+" text", pos, "the value is changed (%s) before it is parsed", n)
				return
			}
			v = as[0]
			continue
		case "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight":
			v = call.Common().Args[0]
			continue
		}
		break
	}
	c.ok(rule, con+": the text as it is")
}

// numbers: the numbers of styles are parsed from their values as they are.
func (c *Ck) numbers(rule string) {
	for _, f := range c.P.Funcs {
		root := f
		for root.Parent() != nil {
			root = root.Parent()
		}
		if root.Pkg == nil || root.Pkg.Pkg.Path() != modPath+"/style" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok {
					if cal := call.Common().StaticCallee(); cal != nil && strings.HasPrefix(fnName(cal), "strconv.Parse") && fnName(cal) != "strconv.ParseUint" {
						c.asGiven(rule, fnName(f)+" "+cal.Name(), c.P.instrPos(in), call.Common().Args[0])
					}
				}
			}
		}
	}
}
