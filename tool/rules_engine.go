package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C16", "for every method of every implementation of the engine interface, the calls it makes to the PDF library on each path (exactly-once automaton) and the value-flow terms of their arguments and of its results are compared with the contract of the method", ruleC16)
	register("C14", "value-flow terms of the arguments of the PDF library calls made while an engine is created, by case analysis over orientation, format and font style, exactly-once automata and loop completeness for the fonts", ruleC14)
}

const libPfx = "(*github.com/jung-kurt/gofpdf/v2.Fpdf)."

func lib(names ...string) func(*Event) bool {
	return func(e *Event) bool {
		if e.kind != "call" || !strings.HasPrefix(e.callee, libPfx) {
			return false
		}
		if len(names) == 0 {
			return true
		}
		for _, n := range names {
			if e.callee == libPfx+n {
				return true
			}
		}
		return false
	}
}

func libName(e *Event) string { return strings.TrimPrefix(e.callee, libPfx) }

func libQuery(n string) bool {
	return strings.HasPrefix(n, "Get") || n == "PageNo" || n == "PageCount" || n == "Error" || n == "Ok" || n == "Err" || n == "String" || n == "PageSize" || n == "UnicodeTranslatorFromDescriptor"
}

func libEffect(e *Event) bool { return lib()(e) && !libQuery(libName(e)) }

// implementations of an interface in the module.
func (p *Prog) impls(it *types.Interface) []*types.Named {
	var out []*types.Named
	for _, pk := range p.Pkgs {
		for _, n := range pk.Types.Scope().Names() {
			tn, ok := pk.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(nt) {
				continue
			}
			if types.Implements(types.NewPointer(nt), it) {
				out = append(out, nt)
			}
		}
	}
	return out
}

func (p *Prog) methodOf(t types.Type, pk *types.Package, name string) *ssa.Function {
	ms := p.SSA.MethodSets.MethodSet(t)
	sel := ms.Lookup(pk, name)
	if sel == nil {
		return nil
	}
	return p.SSA.MethodValue(sel)
}

// result lists the i-th results at the live returns of the entry function.
type resAt struct {
	n   *Node
	t   *Term
	pos string
}

func (g *Graph) results(i int) []resAt {
	var out []resAt
	for _, r := range g.root.rets {
		if !g.live[r.n] || i >= len(r.ret.Results) {
			continue
		}
		out = append(out, resAt{r.n, g.simp(g.val(g.root, r.ret.Results[i])), g.P.instrPos(r.ret)})
	}
	return out
}

// counts runs a saturating counter over the paths from the entry to the
// returns.
func (g *Graph) counts(f func(*Event) bool, retOK func(n *Node) bool) (min, max int) {
	min, max = 99, 0
	fl := &flow{g: g}
	fl.step = func(e *Event, s int) (int, bool) {
		if f(e) && s < 2 {
			s++
		}
		return s, false
	}
	fl.atEnd = func(n *Node, s int) {
		if n.exit != "return" || retOK != nil && !retOK(n) {
			return
		}
		if s < min {
			min = s
		}
		if s > max {
			max = s
		}
	}
	fl.run(g.start(), 0)
	if min == 99 {
		min = 0
	}
	return
}

type engSpec struct {
	effect []string // accepted library operations, any of them exactly once
	args   func(x *engCtx, e *Event, as []*Term)
	res    func(x *engCtx) []*Term
	query  bool
}

type engCtx struct {
	c    *Ck
	g    *Graph
	name string
	prm  []*Term // parameters without the receiver
	pdf  *Term
}

// q is the result of a library query in this graph.
func (x *engCtx) q(i int, names ...string) []*Term {
	var out []*Term
	for _, e := range x.g.evs(lib(names...)) {
		r := x.g.evResult(e)
		if i >= 0 {
			r = x.g.T.proj(r, i)
		}
		out = append(out, r)
	}
	return out
}

func (x *engCtx) isQ(t *Term, i int, name string) bool {
	return t.op == OProj && t.i == i && t.args[0].op == OInv && t.args[0].s == libPfx+name
}

func (x *engCtx) is1(t *Term, name string) bool { return t.op == OInv && t.s == libPfx+name }

func (x *engCtx) arg(e *Event, i int, what string, got *Term, ok bool, want string) {
	got = x.g.simp(got)
	con := fmt.Sprintf("%s %s", x.name, what)
	if !ok && !x.decidable(got) {
		x.c.und("C16.argument", con, "%s", clip(got.String(), 200))
		return
	}
	x.c.expect(ok, "C16.argument", con, x.g.evPos(e), "%s of %s is %s instead of %s", what, x.name, clip(got.String(), 200), want)
}

// decidable: the term is made of parameters, constants and library queries
// only (not of fields that may cache something).
func (x *engCtx) decidable(t *Term) bool {
	if !understood(t) {
		return false
	}
	ok := true
	rcv := x.recv()
	walk(t, func(y *Term) bool {
		if y.op == OInv && !strings.HasPrefix(y.s, libPfx) {
			ok = false
		}
		if y == x.pdf {
			return false
		}
		if y.op == OLoad && rcv != nil && mentions(y.args[0], rcv) {
			ok = false
		}
		return true
	})
	return ok
}

func (x *engCtx) recv() *Term { return x.g.root.args[0].t }

func numEq(t *Term, v int64) bool { return t.isNum() && t.rat().IsInt() && t.rat().Num().Int64() == v }

var engSpecs = map[string]*engSpec{}

func same(i int) func(x *engCtx, e *Event, as []*Term) {
	return func(x *engCtx, e *Event, as []*Term) {
		for k := 0; k < i; k++ {
			x.arg(e, k, fmt.Sprintf("argument %d of %s", k+1, libName(e)), as[k], x.g.simp(as[k]) == x.prm[k], x.prm[k].String())
		}
	}
}

func init() {
	engSpecs = map[string]*engSpec{
		"Error":             {query: true},
		"CurrentPage":       {query: true},
		"GetXY":             {query: true},
		"PrintableArea":     {query: true},
		"PageWidth":         {query: true},
		"PageHeight":        {query: true},
		"FontHeight":        {query: true},
		"MonoFont":          {query: true},
		"TextWidth":         {query: true},
		"Margins":           {query: true},
		"WritePDF":          {effect: []string{"Output"}, args: same(1)},
		"SetPageCountAlias": {effect: []string{"AliasNbPages"}, args: same(1)},
		"OnHeader":          {effect: []string{"SetHeaderFunc"}, args: same(1)},
		"OnFooter":          {effect: []string{"SetFooterFunc"}, args: same(1)},
		"AddPage":           {effect: []string{"AddPage"}, args: same(0)},
		"SetX":              {effect: []string{"SetX"}, args: same(1)},
		"SetTextColor":      {effect: []string{"SetTextColor"}, args: same(3)},
		"SetDrawColor":      {effect: []string{"SetDrawColor"}, args: same(3)},
		"SetFillColor":      {effect: []string{"SetFillColor"}, args: same(3)},
		"SetLineWidth":      {effect: []string{"SetLineWidth"}, args: same(1)},
		"MoveTo":            {effect: []string{"MoveTo"}, args: same(2)},
		"LineTo":            {effect: []string{"LineTo"}, args: same(2)},
		"FillRect": {effect: []string{"Rect"}, args: func(x *engCtx, e *Event, as []*Term) {
			same(4)(x, e, as)
			m := x.g.simp(as[4])
			x.arg(e, 4, "the drawing mode", m, m.isStr() && strings.EqualFold(m.s, "F"), `"F"`)
		}},
		"DrawPath": {effect: []string{"DrawPath"}, args: func(x *engCtx, e *Event, as []*Term) {
			m := x.g.simp(as[0])
			x.arg(e, 0, "the drawing mode", m, m.isStr() && (m.s == "" || strings.EqualFold(m.s, "D")), `"D"`)
		}},
		"LineFeed": {effect: []string{"Ln"}, args: func(x *engCtx, e *Event, as []*Term) {
			h := x.g.simp(as[0])
			q := x.g.T.div(h, x.prm[0])
			x.arg(e, 0, "the line feed", h, x.isQ(q, 1, "GetFontSize"), "lines times font height")
		}},
		"ChangeFont": {effect: []string{"SetFont"}, args: nil},
		"PutImage": {effect: []string{"ImageOptions", "Image"}, args: func(x *engCtx, e *Event, as []*Term) {
			same(5)(x, e, as)
			f := x.g.simp(as[5])
			x.arg(e, 5, "the flow mode", f, f == x.g.T.False, "false")
		}},
		"WriteText": {effect: []string{"Write"}, args: func(x *engCtx, e *Event, as []*Term) {
			h := x.g.simp(as[0])
			x.arg(e, 0, "the line height", h, x.isQ(h, 1, "GetFontSize"), "the height of the current font")
			x.arg(e, 1, "the text", as[1], x.g.simp(as[1]) == x.prm[0], "the given text")
		}},
		"SetY": {effect: nil},
	}
}

func ruleC16(c *Ck) {
	et := c.P.engineType()
	if et == nil {
		c.und("C16.engine", "Engine", "no engine interface")
		return
	}
	it := et.Underlying().(*types.Interface)
	impl := c.P.impls(it)
	if len(impl) == 0 {
		c.und("C16.engine", "Engine", "no implementation of the engine interface")
		return
	}
	for _, nt := range impl {
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			c.protect(m.Name(), func() { c.engMethod(nt, m) })
		}
	}
}

func (c *Ck) engCtx(nt *types.Named, m *types.Func) *engCtx {
	f := c.P.methodOf(types.NewPointer(nt), m.Pkg(), m.Name())
	if f == nil || f.Blocks == nil {
		return nil
	}
	g := c.graphOf(f, "", nil)
	x := &engCtx{c: c, g: g, name: nt.Obj().Name() + "." + m.Name()}
	for _, a := range g.root.args[1:] {
		x.prm = append(x.prm, a.t)
	}
	for _, e := range g.evs(lib()) {
		if as := g.evArgs(e); len(as) > 0 {
			x.pdf = as[0]
			break
		}
	}
	return x
}

func (c *Ck) engMethod(nt *types.Named, m *types.Func) {
	sp := engSpecs[m.Name()]
	x := c.engCtx(nt, m)
	if x == nil || sp == nil {
		c.und("C16.method", m.Name(), "unknown engine operation")
		return
	}
	g := x.g
	// all on one PDF
	for _, e := range g.evs(lib()) {
		a := g.evArgs(e)[0]
		if a != x.pdf {
			c.fail("C16.one-pdf", x.name, g.evPos(e), "%s is applied to %s", libName(e), a)
		}
	}
	if m.Name() == "SetY" {
		c.engSetY(x)
		return
	}
	if m.Name() == "ChangeFont" {
		c.engFont(x)
	}
	if sp.query {
		for _, e := range g.evs(libEffect) {
			c.fail("C16.query-without-effect", x.name, g.evPos(e), "the query calls %s", libName(e))
		}
		c.ok("C16.query-without-effect", x.name)
		c.engQuery(x, m.Name())
		return
	}
	isEff := lib(sp.effect...)
	evs := g.evs(isEff)
	pos := c.P.posStr(g.Entry.Pos())
	if len(evs) > 0 {
		pos = g.evPos(evs[0])
	}
	min, max := g.counts(isEff, nil)
	c.expect(min == 1 && max == 1, "C16.effect", x.name, pos, "%v is called %d to %d times", sp.effect, min, max)
	for _, e := range g.evs(libEffect) {
		if isEff(e) {
			if sp.args != nil {
				sp.args(x, e, g.evArgs(e)[1:])
			}
			continue
		}
		c.fail("C16.only-effect", x.name+" "+libName(e), g.evPos(e), "%s calls %s, too", x.name, libName(e))
	}
	c.ok("C16.only-effect", x.name)
	if m.Name() == "WritePDF" {
		for _, r := range g.results(0) {
			ok := false
			for _, e := range evs {
				ok = ok || mentions(r.t, g.evResult(e))
			}
			c.expect(ok, "C16.result", x.name, r.pos, "the result is %s", clip(r.t.String(), 200))
		}
	}
}

// engSetY: the vertical position is set, the horizontal one stays.
func (c *Ck) engSetY(x *engCtx) {
	g := x.g
	y := x.prm[0]
	// 0 untouched, 1 x lost, 2 y set, 3 y set but x lost, 4 wrong
	entryX := func(t *Term) bool {
		t = g.simp(t)
		return x.is1(t, "GetX") || x.isQ(t, 0, "GetXY")
	}
	// queries of x before the first move only
	late := map[*Term]bool{}
	fl := &flow{g: g}
	fl.step = func(e *Event, s int) (int, bool) {
		if s == 1 && lib("GetX", "GetXY")(e) {
			late[g.evResult(e)] = true
		}
		if libEffect(e) {
			s = 1
		}
		return s, false
	}
	fl.run(g.start(), 0)
	isLate := func(t *Term) bool {
		for l := range late {
			if mentions(t, l) {
				return true
			}
		}
		return false
	}
	undec := false
	bad := ""
	fl = &flow{g: g}
	fl.step = func(e *Event, s int) (int, bool) {
		if !libEffect(e) {
			return s, false
		}
		as := g.evArgs(e)[1:]
		switch libName(e) {
		case "SetXY":
			s = 2
			if !entryX(as[0]) || isLate(as[0]) {
				s = 3
				if !x.decidable(as[0]) {
					undec = true
				}
				bad = "the horizontal position becomes " + as[0].String()
			}
			if g.simp(as[1]) != y {
				if !x.decidable(as[1]) {
					undec = true
				}
				s = 4
				bad = "the vertical position becomes " + as[1].String()
			}
		case "SetY":
			s = 3
			bad = "setting the vertical position resets the horizontal one"
			if g.simp(as[0]) != y {
				s = 4
				bad = "the vertical position becomes " + as[0].String()
			}
		case "SetX":
			if entryX(as[0]) && !isLate(as[0]) {
				if s == 3 {
					s = 2
				}
			} else if s == 2 {
				s = 3
				bad = "the horizontal position becomes " + as[0].String()
			}
		default:
			s = 4
			bad = "it calls " + libName(e)
		}
		return s, false
	}
	okAll, n := true, 0
	fl.atEnd = func(nd *Node, s int) {
		if nd.exit == "return" {
			n++
			if s != 2 {
				okAll = false
				if bad == "" {
					bad = "there is a path without moving the cursor"
				}
			}
		}
	}
	fl.run(g.start(), 0)
	if undec && !okAll {
		c.und("C16.argument", x.name, "%s", bad)
		return
	}
	c.expect(okAll && n > 0, "C16.argument", x.name, c.P.posStr(g.Entry.Pos()), "%s", bad)
}

func sortLetters(s string) string {
	r := []rune(strings.ToUpper(s))
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return string(r)
}

func (c *Ck) engFont(x *engCtx) {
	g := x.g
	T := g.T
	ft := c.P.typ("style", "Font")
	if ft == nil {
		c.und("C16.argument", x.name, "no font type")
		return
	}
	fld := func(n string) *Term { v, _ := g.fpath(x.prm[0], ft, n); return v }
	for _, e := range g.evs(lib("SetFont")) {
		as := g.evArgs(e)[1:]
		x.arg(e, 0, "the family", as[0], unconv(g.simp(as[0])) == fld("Family"), "the family of the font")
		x.arg(e, 2, "the size", as[2], unconv(g.simp(as[2])) == fld("PointSize"), "the point size of the font")
		base := []*Term{T.eq(fld("Style"), T.str("italic")), T.eq(fld("Weight"), T.str("bold")), T.eq(fld("Decoration"), T.str("underline"))}
		for k := 0; k < 8; k++ {
			var lits []lit
			want := ""
			nm := ""
			for b := 0; b < 3; b++ {
				on := k>>b&1 == 1
				lits = append(lits, lit{base[b], on})
				if on {
					want += string("IBU"[b])
					nm += []string{"italic ", "bold ", "underline "}[b]
				}
			}
			want = sortLetters(want)
			if nm == "" {
				nm = "normal"
			}
			con := x.name + " style " + strings.TrimSpace(nm)
			vals := T.cases(as[1], lits)
			if vals == nil {
				c.und("C16.argument", con, "too many cases")
				continue
			}
			for _, v := range vals {
				if !v.t.isStr() {
					c.und("C16.argument", con, "%s", v.t)
					continue
				}
				c.expect(sortLetters(v.t.s) == want, "C16.argument", con, g.evPos(e), "a %s font is selected with style %q", nm, v.t.s)
			}
		}
	}
}

// unconv removes value conversions that keep the number or string.
func unconv(t *Term) *Term {
	for t.op == OConv && len(t.args) == 1 {
		t = t.args[0]
	}
	return t
}

type caseVal struct {
	t    *Term
	lits []lit
}

// cases lists the values t takes in the cases consistent with the literals.
func (T *Terms) cases(t *Term, lits []lit) []caseVal {
	var out []caseVal
	n := 0
	over := false
	var rec func(t *Term, lits []lit)
	rec = func(t *Term, lits []lit) {
		n++
		if n > 3000 {
			over = true
		}
		if over {
			return
		}
		var c *Term
		for _, x := range conds(t) {
			if len(conds(x)) == 0 {
				c = x
				break
			}
		}
		if c == nil {
			out = append(out, caseVal{t, lits})
			return
		}
		set := func(v bool) *Term {
			m := map[*Term]*Term{c: T.boolC(v)}
			if c.op == ONot {
				m[c.args[0]] = T.boolC(!v)
			}
			return T.subst(t, m)
		}
		if v, ok := T.decideUnder(lits, c); ok {
			rec(set(v), lits)
			return
		}
		rec(set(true), append(append([]lit{}, lits...), lit{c, true}))
		rec(set(false), append(append([]lit{}, lits...), lit{c, false}))
	}
	rec(t, lits)
	if over {
		return nil
	}
	return out
}

func (c *Ck) engQuery(x *engCtx, name string) {
	g := x.g
	T := g.T
	chk := func(i int, ok func(t *Term) bool, want string) {
		for _, r := range g.results(i) {
			con := fmt.Sprintf("%s result %d", x.name, i+1)
			good := ok(r.t)
			if !good && !x.decidable(r.t) {
				c.und("C16.result", con, "%s", clip(r.t.String(), 200))
				continue
			}
			c.expect(good, "C16.result", con, r.pos, "the result is %s instead of %s", clip(r.t.String(), 200), want)
		}
	}
	q1 := func(n string) func(*Term) bool { return func(t *Term) bool { return x.is1(t, n) } }
	qi := func(n string, i int) func(*Term) bool { return func(t *Term) bool { return x.isQ(t, i, n) } }
	or := func(fs ...func(*Term) bool) func(*Term) bool {
		return func(t *Term) bool {
			for _, f := range fs {
				if f(t) {
					return true
				}
			}
			return false
		}
	}
	switch name {
	case "Error":
		chk(0, q1("Error"), "the error of the PDF")
	case "CurrentPage":
		chk(0, q1("PageNo"), "the page number of the PDF")
	case "GetXY":
		chk(0, or(qi("GetXY", 0), q1("GetX")), "the x position")
		chk(1, or(qi("GetXY", 1), q1("GetY")), "the y position")
	case "PageWidth":
		chk(0, qi("GetPageSize", 0), "the page width")
	case "PageHeight":
		chk(0, qi("GetPageSize", 1), "the page height")
	case "FontHeight":
		chk(0, qi("GetFontSize", 1), "the height of the font in millimetres")
	case "Margins":
		for i, w := range []string{"left", "top", "right", "bottom"} {
			chk(i, qi("GetMargins", i), "the "+w+" margin")
		}
	case "TextWidth":
		chk(0, func(t *Term) bool {
			return x.is1(t, "GetStringWidth") && t.args[len(t.args)-1] == x.prm[0]
		}, "the width of the given text")
	case "PrintableArea":
		marg := func(i int) *Term { return firstOf(x.q(i, "GetMargins")) }
		size := func(i int) *Term { return firstOf(x.q(i, "GetPageSize")) }
		if marg(0) == nil || size(0) == nil {
			c.und("C16.result", x.name, "margins or page size are not asked for")
			return
		}
		chk(0, qi("GetMargins", 0), "the left margin")
		chk(1, qi("GetMargins", 1), "the top margin")
		chk(2, func(t *Term) bool {
			d, ok := T.constDiff(T.sub(g.oneQ(size(0)), g.oneQ(marg(2))), g.oneQ(t))
			if !ok {
				return false
			}
			f, _ := d.Float64()
			return f >= 0 && f <= 3
		}, "page width minus right margin (and at most 3 mm)")
		chk(3, func(t *Term) bool {
			return g.oneQ(t) == T.sub(g.oneQ(size(1)), g.oneQ(marg(3)))
		}, "page height minus bottom margin")
	}
}

// oneQ identifies the results of repeated queries that nothing changes in
// between.
func (g *Graph) oneQ(t *Term) *Term {
	m := map[*Term]*Term{}
	walk(t, func(x *Term) bool {
		if x.op == OInv && strings.HasPrefix(x.s, libPfx) {
			m[x] = g.T.call("lib:"+x.s, x.args...)
		}
		return true
	})
	return g.T.subst(t, m)
}

func firstOf(ts []*Term) *Term {
	if len(ts) == 0 {
		return nil
	}
	return ts[0]
}

// ---- C14

func ruleC14(c *Ck) {
	pk := c.P.pkg("engine")
	if pk == nil {
		c.und("C14.engine", "engine", "no package engine")
		return
	}
	f := c.P.fn("engine", "NewFPDF")
	if f == nil {
		c.und("C14.engine", "NewFPDF", "no constructor")
		return
	}
	g := c.graphOf(f, "", noErrors)
	T := g.T
	var doc, fonts *Term
	for _, a := range g.root.args {
		switch typeKey(a.t.typ) {
		case "*" + modPath + "/xdoc.Document":
			doc = a.t
		case "*" + modPath + "/font.Registry":
			fonts = a.t
		}
	}
	if doc == nil || fonts == nil {
		c.und("C14.engine", "NewFPDF", "unknown parameters")
		return
	}
	dt := c.P.typ("xdoc", "Document")
	pageF := func(names ...string) *Term {
		a, _ := g.apath(doc, dt, append([]string{"Page"}, names...)...)
		if a == nil {
			return nil
		}
		return T.load(a)
	}
	ori, format := pageF("Orientation"), pageF("Format")
	news := g.evs(isCall("github.com/jung-kurt/gofpdf/v2.New"))
	other := g.evs(isCall("github.com/jung-kurt/gofpdf/v2.NewCustom"))
	if len(news) != 1 || len(other) > 0 || ori == nil || format == nil {
		c.und("C14.new", "NewFPDF", "the PDF is created in an unknown way")
		return
	}
	nw := news[0]
	as := g.evArgs(nw)
	pos := g.evPos(nw)
	str := func(con string, t *Term, lits []lit, accept ...string) {
		vs := T.cases(t, lits)
		if len(vs) == 0 {
			c.und("C14.page", con, "too many cases")
		}
		for _, v := range vs {
			if !v.t.isStr() {
				if !understood(v.t) {
					c.und("C14.page", con, "%s", v.t)
				} else {
					c.fail("C14.page", con, pos, "the PDF is created with %s", clip(v.t.String(), 200))
				}
				continue
			}
			ok := false
			for _, a := range accept {
				ok = ok || strings.EqualFold(a, v.t.s)
			}
			c.expect(ok, "C14.page", con, pos, "the PDF is created with %q", v.t.s)
		}
	}
	isV := func(x *Term, v string) []lit { return []lit{{T.eq(x, T.str(v)), true}} }
	str("portrait", as[0], isV(ori, "portrait"), "P", "portrait", "")
	str("landscape", as[0], isV(ori, "landscape"), "L", "landscape")
	str("orientation not given", as[0], isV(ori, ""), "", "P", "portrait")
	str("unit", as[1], nil, "mm", "")
	sizes := map[string]string{"a3": "A3", "a4": "A4", "a5": "A5", "letter": "Letter", "legal": "Legal"}
	var none []lit
	for _, k := range sortedKeys(sizes) {
		str("format "+k, as[2], isV(format, k), sizes[k])
		none = append(none, lit{T.eq(format, T.str(k)), false})
	}
	str("unknown format", as[2], none, "A4", "")
	// success paths
	pdf := g.evResult(nw)
	okRet := func(n *Node) bool {
		for _, r := range g.root.rets {
			if r.n == n {
				e := g.simp(g.val(g.root, r.ret.Results[len(r.ret.Results)-1]))
				return e.op == ONil || !g.nonNilErr(e)
			}
		}
		return false
	}
	once := func(name string) []*Event {
		evs := g.evs(lib(name))
		min, max := g.counts(lib(name), okRet)
		p := pos
		if len(evs) > 0 {
			p = g.evPos(evs[0])
		}
		c.expect(min == 1 && max == 1, "C14.setup", name, p, "%s is called %d to %d times", name, min, max)
		return evs
	}
	val := func(e *Event, con string, got, want *Term) {
		got = g.simp(got)
		if g.evArgs(e)[0] != pdf {
			c.fail("C14.one-pdf", con, g.evPos(e), "%s is applied to %s", libName(e), clip(g.evArgs(e)[0].String(), 100))
		}
		if want == nil {
			c.und("C14.value", con, "unknown document structure")
			return
		}
		c.same("C14.value", con, g, g.evPos(e), con, got, want)
	}
	if len(g.evs(lib("SetLeftMargin", "SetTopMargin", "SetRightMargin"))) > 0 {
		c.und("C14.setup", "SetMargins", "margins are set one by one")
	} else {
		for _, e := range once("SetMargins") {
			for i, w := range []string{"Left", "Top", "Right"} {
				val(e, "margin "+w, g.evArgs(e)[1+i], pageF("Margins", w))
			}
		}
	}
	for _, e := range once("SetAutoPageBreak") {
		val(e, "automatic page break", g.evArgs(e)[1], T.True)
		val(e, "margin Bottom", g.evArgs(e)[2], pageF("Margins", "Bottom"))
	}
	c.engFonts(g, fonts, pdf)
	c.monoFont(g, f, fonts)
	c.registryLoad()
	// page size, margins and printable area
	et := c.P.engineType()
	if et == nil {
		return
	}
	it := et.Underlying().(*types.Interface)
	for _, nt := range c.P.impls(it) {
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			switch m.Name() {
			case "PrintableArea", "PageWidth", "PageHeight", "Margins":
				c.protect(m.Name(), func() { c.engMethod(nt, m) })
			}
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// nonNilErr: the value is an error built on the spot.
func (g *Graph) nonNilErr(t *Term) bool {
	switch t.op {
	case OCall:
		switch t.s {
		case "errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
			return true
		case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithStack", "github.com/pkg/errors.WithMessage":
			return true
		}
	case OIface:
		return true
	case OInv, OProj:
		return true
	}
	return false
}

func (c *Ck) engFonts(g *Graph, fonts, pdf *Term) {
	T := g.T
	adds := g.evs(lib("AddUTF8FontFromBytes"))
	if len(adds) != 1 {
		if len(g.evs(lib("AddUTF8Font", "AddFont", "AddFontFromBytes"))) > 0 || len(adds) > 1 {
			c.und("C14.fonts", "fonts", "fonts are added in an unknown way")
		} else {
			c.fail("C14.fonts", "fonts", c.P.posStr(g.Entry.Pos()), "registered fonts are never added to the PDF")
		}
		return
	}
	add := adds[0]
	pos := g.evPos(add)
	as := g.evArgs(add)
	c.expect(as[0] == pdf, "C14.one-pdf", "fonts", pos, "fonts are added to %s", clip(as[0].String(), 100))
	dt := c.P.typ("font", "Descriptor")
	// the descriptor: name, style and data belong to one element of the list
	nameAddr := as[1]
	var seq, idx, elem *Term
	walk(nameAddr, func(x *Term) bool {
		if x.op == OIAddr && seq == nil {
			seq, idx, elem = x.args[0], x.args[1], x
		}
		return true
	})
	if seq == nil || dt == nil {
		c.und("C14.fonts", "fonts", "name of the font: %s", clip(nameAddr.String(), 200))
		return
	}
	fld := func(n string) *Term { a, _ := g.apath(elem, dt, n); return T.load(a) }
	c.same("C14.fonts", "name", g, pos, "the name of the font", as[1], fld("Name"))
	var none []lit
	for _, k := range []string{"bold", "italic", "bold+italic"} {
		none = append(none, lit{T.eq(fld("Style"), T.str(k)), false})
	}
	styleCase := func(con string, lits []lit, want string) {
		for _, v := range T.cases(as[2], lits) {
			if !v.t.isStr() {
				c.und("C14.fonts", "style "+con, "%s", v.t)
				continue
			}
			c.expect(sortLetters(v.t.s) == want, "C14.fonts", "style "+con, pos, "a %s font is added as %q", con, v.t.s)
		}
	}
	styleCase("regular", none, "")
	styleCase("bold", []lit{{T.eq(fld("Style"), T.str("bold")), true}}, "B")
	styleCase("italic", []lit{{T.eq(fld("Style"), T.str("italic")), true}}, "I")
	styleCase("bold+italic", []lit{{T.eq(fld("Style"), T.str("bold+italic")), true}}, "BI")
	// the data is that of the file of the descriptor
	d := as[3]
	if d.op == OProj {
		d = d.args[0]
	}
	if d.op == OInv && (d.s == "io/ioutil.ReadFile" || d.s == "os.ReadFile") {
		c.same("C14.fonts", "file", g, pos, "the font file", d.args[0], fld("FilePath"))
	} else {
		c.und("C14.fonts", "file", "%s", clip(d.String(), 200))
	}
	// every descriptor of the registry
	_, names := baseOfField(seq)
	root := seq
	for root.op == OLoad || root.op == OFAddr {
		root = root.args[0]
	}
	c.expect(root == fonts && len(names) > 0, "C14.fonts", "registry", pos, "the fonts added are those of %s", seq)
	el := &elemLoop{elem: elem, seq: seq, idx: idx}
	if idx.op == OIV {
		el.loop, _ = idx.data.(*Loop)
	}
	if el.loop == nil {
		c.und("C14.fonts", "all", "index %s", idx)
		return
	}
	min := 9
	g.iteration(el.loop, 0, func(e *Event, s int) (int, bool) {
		if e == add {
			s = 1
		}
		return s, false
	}, func(s int) {
		if s < min {
			min = s
		}
	}, nil)
	c.expect(min == 1, "C14.fonts", "each", pos, "a registered font can be skipped")
	c.complete("C14.fonts", "all", g, el.loop, pos)
}

// complete: a loop over a list visits all of its elements if nothing fails.
func (c *Ck) complete(rule, con string, g *Graph, l *Loop, pos string) {
	T := g.T
	iv := T.mk(&Term{op: OIV, i: l.head.id, data: l})
	ok := true
	for _, ex := range l.exits {
		if !g.liveEdge[ex] {
			continue
		}
		cd := g.cond(ex)
		full := false
		if cd != nil {
			walk(cd, func(x *Term) bool {
				if x.op == OLen && T.le(x, iv, true) == cd {
					full = true
				}
				return true
			})
		}
		if full {
			continue
		}
		ok = false
		if cd == nil || !understood(cd) {
			c.und(rule, con, "the loop can be left otherwise")
		} else {
			c.fail(rule, con, pos, "a loop is left early if %s", clip(cd.String(), 200))
		}
	}
	if ok {
		c.ok(rule, con)
	}
}

// monoFont: the monospaced font is the registered one or Courier.
func (c *Ck) monoFont(g *Graph, f *ssa.Function, fonts *Term) {
	T := g.T
	et := c.P.engineType()
	if et == nil {
		return
	}
	it := et.Underlying().(*types.Interface)
	for _, nt := range c.P.impls(it) {
		m := c.P.methodOf(types.NewPointer(nt), nt.Obj().Pkg(), "MonoFont")
		if m == nil {
			continue
		}
		mg := c.graphOf(m, "", nil)
		rs := mg.results(0)
		if len(rs) != 1 || rs[0].t.op != OLoad || rs[0].t.args[0].op != OFAddr {
			c.und("C14.mono-font", nt.Obj().Name(), "the result is not a field")
			continue
		}
		fa := rs[0].t.args[0]
		if fa.args[0] != mg.root.args[0].t {
			c.und("C14.mono-font", nt.Obj().Name(), "the result is not a field")
			continue
		}
		rt := c.P.typ("font", "Registry")
		var mono *Term
		if rt != nil {
			if gm := c.P.methodOf(types.NewPointer(rt), nt.Obj().Pkg(), "MonoFont"); gm != nil {
				gg := c.graphOf(gm, "", nil)
				if r := gg.results(0); len(r) == 1 && r[0].t.op == OLoad && r[0].t.args[0].op == OFAddr {
					mono = T.load(T.faddr(fonts, r[0].t.args[0].i, rt))
				}
			}
		}
		if mono == nil {
			c.und("C14.mono-font", nt.Obj().Name(), "no registered font")
			continue
		}
		want := T.ite(T.eq(mono, T.EmptyS), T.str("Courier"), mono)
		for _, r := range g.root.rets {
			if !g.live[r.n] || len(r.ret.Results) != 2 {
				continue
			}
			if e := g.simp(g.val(g.root, r.ret.Results[1])); e.op != ONil {
				continue
			}
			v := g.val(g.root, r.ret.Results[0])
			got := g.simp(g.read(r.n, len(r.n.items), T.faddr(strip(v), fa.i, nt), types.Typ[types.String]))
			c.same("C14.mono-font", nt.Obj().Name(), g, g.P.instrPos(r.ret), "the monospaced font", got, want)
		}
	}
}

// registryLoad: fonts are registered as they are defined.
func (c *Ck) registryLoad() {
	f := c.P.fn("font", "LoadRegistryFromFile")
	if f == nil {
		c.und("C14.registry", "LoadRegistryFromFile", "no such function")
		return
	}
	g := c.graphOf(f, "", noErrors)
	T := g.T
	dt := c.P.typ("font", "Descriptor")
	if dt == nil {
		return
	}
	// appends of descriptors
	n := 0
	for _, e := range g.evs(func(e *Event) bool { return e.kind == "store" }) {
		as := g.evArgs(e)
		if len(as) != 2 || as[1].op != OSeq {
			continue
		}
		last := as[1].args[len(as[1].args)-1]
		if len(as[1].args) < 2 && as[1].s != "e" || as[1].s[len(as[1].s)-1] != 'e' {
			continue
		}
		st, ok := e.in.(*ssa.Store)
		if !ok {
			continue
		}
		sl, ok := st.Val.Type().Underlying().(*types.Slice)
		if !ok || !types.Identical(sl.Elem(), dt) {
			continue
		}
		n++
		pos := g.evPos(e)
		fld := func(nm string) *Term { v, _ := g.fpath(last, dt, nm); return v }
		name, sty, file := fld("Name"), fld("Style"), fld("FilePath")
		if name == nil || sty == nil || file == nil {
			c.und("C14.registry", "descriptor", "unknown structure")
			return
		}
		leaf := func(t *Term) string {
			_, ns := baseOfField(unconv(t))
			if len(ns) == 0 {
				return ""
			}
			return ns[len(ns)-1]
		}
		decided := func(t *Term) bool { _, ns := baseOfField(unconv(t)); return len(ns) > 0 || t.isConst() }
		chk := func(what string, t *Term, want string) {
			if !decided(t) {
				c.und("C14.registry", what, "%s", clip(t.String(), 200))
				return
			}
			c.expect(leaf(t) == want, "C14.registry", what, pos, "the %s of a registered font is %s", what, t)
		}
		chk("name", name, "Name")
		chk("style", sty, "Style")
		// the path derives from the file path of the same style definition
		ok = false
		var sbase *Term
		if t := unconv(sty); t.op == OLoad && t.args[0].op == OFAddr {
			sbase = t.args[0].args[0]
		}
		walk(file, func(x *Term) bool {
			if x.op == OLoad && x.args[0].op == OFAddr && x.args[0].args[0] == sbase && fieldName(x.args[0]) == "FilePath" {
				ok = true
			}
			return true
		})
		if sbase == nil {
			c.und("C14.registry", "file", "%s", clip(file.String(), 200))
		} else {
			c.expect(ok, "C14.registry", "file", pos, "the file of a registered font is %s", clip(file.String(), 300))
		}
		// complete loops, no way around within
		for h, l := range g.loops {
			if !l.body[e.n] {
				continue
			}
			iv := T.mk(&Term{op: OIV, i: h.id, data: l})
			min := 9
			inner := false
			for h2, l2 := range g.loops {
				if h2 != h && l.body[h2] && l2.body[e.n] {
					inner = true
				}
			}
			if !inner {
				g.iteration(l, 0, func(x *Event, s int) (int, bool) {
					if x == e {
						s = 1
					}
					return s, false
				}, func(s int) {
					if s < min {
						min = s
					}
				}, nil)
				c.expect(min == 1, "C14.registry", "each", pos, "a defined font style can be skipped")
			}
			_ = iv
			c.complete("C14.registry", "all", g, l, pos)
		}
	}
	if n == 0 {
		c.und("C14.registry", "append", "no registration found")
	}
	c.ok("C14.registry", "scanned")
}

func (g *Graph) retAt(n *Node) *ssa.Return {
	for _, r := range g.root.rets {
		if r.n == n {
			return r.ret
		}
	}
	return nil
}
