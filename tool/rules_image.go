package main

import "go/types"

func init() {
	register("C21", "value-flow terms of the arguments of the image operation, compared with the size, offset, scaling and path rules by case analysis over the signs of the styles and the comparisons with the available area", ruleC21)
}

// styleOf finds the styles of an element: the result of mutating with the
// element as receiver.
func (g *Graph) styleTerms(elem *Term, kind string) []*Term {
	p, t := g.elemPtr(elem, kind)
	if p == nil {
		return nil
	}
	ra, _ := g.apath(p, t, "Styled")
	var out []*Term
	for _, e := range g.evs(nil) {
		if e.kind != "call" {
			continue
		}
		r := g.evResult(e)
		if so := asStyle(r); so != nil && so.recv == ra {
			out = append(out, r)
		}
	}
	return out
}

func (g *Graph) styF(sty *Term, path ...string) *Term {
	t, _ := g.fpath(sty, g.P.typ("style", "Styles"), path...)
	return t
}

// pa is a coordinate of the printable area.
func (g *Graph) pa(i int) *Term {
	p := g.procTerm()
	pt := g.P.typ("", "Processor")
	if p == nil || pt == nil {
		return nil
	}
	et := g.P.engineType()
	fs := fieldsOfType(pt, typeKey(et))
	if len(fs) != 1 {
		return nil
	}
	e := g.T.load(g.T.faddr(p, fs[0], pt))
	return g.T.proj(g.T.call(engPfx+"PrintableArea", e), i)
}

// engine operations that move the cursor or change what GetXY reports
var engMoves = map[string]bool{"SetX": true, "SetY": true, "LineFeed": true, "WriteText": true, "AddPage": true, "ChangeFont": false}

// cursorAt replaces the results of cursor queries by "the cursor at e" where
// no move can happen in between.
func (g *Graph) cursorAt(e *Event, t *Term) *Term {
	m := map[*Term]*Term{}
	walk(t, func(x *Term) bool {
		if x.op == OProj && x.args[0].op == OInv && x.args[0].s == engPfx+"GetXY" {
			q, _ := x.args[0].data.(*Event)
			if q == nil {
				return true
			}
			if g.fresh(q, e, func(y *Event) bool { return engEffect(y) && engMoves[engName(y)] }) {
				m[x] = g.T.atom([]string{"@cursor x", "@cursor y"}[x.i])
			}
		}
		return true
	})
	if len(m) == 0 {
		return t
	}
	return g.T.subst(t, m)
}

// fresh: between the last execution of q before e and e no event of the given
// kind can happen.
func (g *Graph) fresh(q, e *Event, kills func(*Event) bool) bool {
	ok := true
	fl := &flow{g: g}
	fl.step = func(x *Event, s int) (int, bool) {
		if x == e && s == 1 {
			ok = false
		}
		if x == e && s == 0 {
			return s, true
		}
		if x == q {
			return 0, true // refreshed; another walk
		}
		if kills(x) {
			s = 1
		}
		return s, !ok
	}
	fl.run(g.after(q), 0)
	return ok
}

func ruleC21(c *Ck) {
	g := c.body("Image", "", errNil("xpdf.DescribeImage", true))
	if g == nil {
		c.und("C21.entry", "Process", "no rendering entry point")
		return
	}
	T := g.T
	el := c.topLoop(g)
	evs := g.evs(eng("PutImage"))
	if el == nil || len(evs) == 0 {
		c.und("C21.entry", "Image", "no image is put")
		return
	}
	stys := g.styleTerms(el.elem, "Image")
	if len(stys) == 0 {
		c.und("C21.entry", "Image", "no styles of the image")
		return
	}
	src := g.elemField(el.elem, "Image", "Source")
	for _, e := range evs {
		as := g.evArgs(e)[1:]
		pos := g.evPos(e)
		// the file
		file := g.simp(as[0])
		abs := T.call("path/filepath.IsAbs", src)
		wd := (*Term)(nil)
		if pt := c.P.typ("", "Processor"); pt != nil {
			if i := fieldNamed(pt, "workingDir"); i >= 0 {
				wd = T.load(T.faddr(g.procTerm(), i, pt))
			}
		}
		if wd == nil || src == nil {
			c.und("C21.file", "Image", "no working directory")
		} else {
			strip := func(t *Term) *Term {
				m := map[*Term]*Term{}
				walk(t, func(x *Term) bool {
					if x.op == OCall && x.s == "path/filepath.Clean" {
						m[x] = x.args[0]
					}
					return true
				})
				return T.subst(t, m)
			}
			join := T.call("path/filepath.Join", T.seq("ee", []*Term{wd, src}))
			c.same("C21.file", "Image", g, pos, "the file of the image", strip(file), T.ite(abs, src, join))
		}
		// dimensions: of the described image
		var desc *Event
		for _, d := range g.evs(isCall("xpdf.DescribeImage")) {
			desc = d
		}
		if desc == nil {
			c.und("C21.size", "Image", "the image is not described")
			continue
		}
		if g.simp(g.evArgs(desc)[0]) != file {
			c.fail("C21.described", "Image", g.evPos(desc), "the image described is %s", clip(g.evArgs(desc)[0].String(), 200))
		} else {
			c.ok("C21.described", "Image")
		}
		dt := c.P.typ("", "ImageDescriptor")
		if dt == nil {
			continue
		}
		px := func(n string) *Term {
			i := fieldNamed(dt, n)
			if i < 0 {
				return nil
			}
			return T.field(T.proj(g.evResult(desc), 0), i, dt)
		}
		pw, ph := px("WidthPx"), px("HeightPx")
		if pw == nil || ph == nil {
			c.und("C21.size", "Image", "unknown descriptor")
			continue
		}
		sty := stys[0]
		W, H := g.styF(sty, "Dimension", "Width"), g.styF(sty, "Dimension", "Height")
		ox, oy := g.styF(sty, "Dimension", "OffsetX"), g.styF(sty, "Dimension", "OffsetY")
		pos0 := func(t *Term) *Term { return T.pos(t, false) }
		mm := func(t *Term) *Term { return T.scale(t, ratOf(254, 960)) }
		iw, ih := mm(pw), mm(ph)
		w0 := T.ite(pos0(W), W, T.ite(pos0(H), T.div(T.mul(pw, H), ph), iw))
		h0 := T.ite(pos0(H), H, T.ite(pos0(W), T.div(T.mul(ph, W), pw), ih))
		paW := T.sub(T.sub(g.pa(2), g.pa(0)), ox)
		paH := T.sub(T.sub(g.pa(3), g.pa(1)), oy)
		facts := []lit{{pos0(pw), true}, {pos0(ph), true}, {pos0(paW), true}, {pos0(paH), true}}
		want := [4]*Term{
			T.add(T.atom("@cursor x"), ox),
			T.add(T.atom("@cursor y"), oy),
		}
		names := []string{"x", "y", "width", "height"}
		for i := 0; i < 2; i++ {
			got := g.cursorAt(e, g.simp(as[1+i]))
			c.same("C21.position", names[i], g, pos, "the "+names[i]+" of the image", got, want[i], facts...)
		}
		// width and height case by case: first the size asked for, then the
		// fit into the width, then into the height
		// the available size as two quantities of their own
		aw, ah := T.atom("@available width"), T.atom("@available height")
		px0 := map[*Term]*Term{pw: T.atom("@image width"), ph: T.atom("@image height"),
			g.pa(2): T.add(T.add(aw, g.pa(0)), ox), g.pa(3): T.add(T.add(ah, g.pa(1)), oy)}
		paW, paH = aw, ah
		gw, gh := T.subst(g.cursorAt(e, g.simp(as[3])), px0), T.subst(g.cursorAt(e, g.simp(as[4])), px0)
		w0, h0 = T.subst(w0, px0), T.subst(h0, px0)
		facts = []lit{{pos0(px0[pw]), true}, {pos0(px0[ph]), true}, {pos0(paW), true}, {pos0(paH), true}}
		cw, ch := w0, h0
		type step struct {
			name string
			lits []lit
			w, h *Term
		}
		for _, sc := range []struct {
			name   string
			pw, ph bool
		}{{"both given", true, true}, {"width given", true, false}, {"height given", false, true}, {"none given", false, false}} {
			lits := append(append([]lit{}, facts...), lit{pos0(W), sc.pw}, lit{pos0(H), sc.ph})
			lw, lh := one(T.cases(cw, lits)), one(T.cases(ch, lits))
			if lw == nil || lh == nil {
				c.und("C21.size", sc.name, "the size asked for is not evident")
				continue
			}
			wideW := T.lt(paW, lw, false)
			// after fitting the width
			h1 := T.div(T.mul(lh, paW), lw)
			var steps []step
			tall := T.lt(paH, lh, false)
			steps = append(steps, step{sc.name + ", fits", []lit{{wideW, false}, {tall, false}}, lw, lh})
			steps = append(steps, step{sc.name + ", too high", []lit{{wideW, false}, {tall, true}}, T.div(T.mul(lw, paH), lh), paH})
			tall1 := T.lt(paH, h1, false)
			steps = append(steps, step{sc.name + ", too wide", []lit{{wideW, true}, {tall1, false}}, paW, h1})
			steps = append(steps, step{sc.name + ", too wide and high", []lit{{wideW, true}, {tall1, true}}, T.div(T.mul(paW, paH), h1), paH})
			for _, s := range steps {
				ls := append(append([]lit{}, lits...), s.lits...)
				if T.contradictory(ls) {
					continue
				}
				c.same("C21.size", "width: "+s.name, g, pos, "the width of the image ("+s.name+")", gw, s.w, ls...)
				c.same("C21.size", "height: "+s.name, g, pos, "the height of the image ("+s.name+")", gh, s.h, ls...)
			}
		}
	}
	min, max := 99, 0
	g.iteration(el.loop, 0, func(e *Event, s int) (int, bool) {
		if eng("PutImage")(e) && s < 2 {
			s++
		}
		return s, false
	}, func(s int) {
		if s < min {
			min = s
		}
		if s > max {
			max = s
		}
	}, nil)
	c.expect(min == 1 && max == 1, "C21.drawn", "Image", g.evPos(evs[0]), "an image is put %d to %d times", min, max)
	// the descriptor reports the pixels of the file
	c.describeImage()
}

func one(vs []caseVal) *Term {
	if len(vs) == 1 {
		return vs[0].t
	}
	return nil
}

func (c *Ck) describeImage() {
	f := c.P.fn("", "DescribeImage")
	dt := c.P.typ("", "ImageDescriptor")
	if f == nil || dt == nil {
		c.und("C21.pixels", "DescribeImage", "no such function")
		return
	}
	g := c.graphOf(f, "noerr", noErrors)
	for _, r := range g.results(0) {
		if e := g.simp(g.val(g.root, g.retAt(r.n).Results[1])); e.op != ONil {
			continue
		}
		for _, d := range []string{"Width", "Height"} {
			i := fieldNamed(dt, d+"Px")
			if i < 0 {
				continue
			}
			v := unconv(g.T.field(r.t, i, dt))
			_, names := baseOfField(v)
			if len(names) == 0 && !v.isConst() {
				c.und("C21.pixels", d, "%s", clip(v.String(), 200))
				continue
			}
			c.expect(len(names) > 0 && names[len(names)-1] == d && contains(v, func(x *Term) bool {
				return x.op == OInv && x.s == "image.DecodeConfig" || x.op == OInv && x.s == "image.Decode"
			}),
				"C21.pixels", d, r.pos, "the %s in pixels is %s", d, clip(v.String(), 200))
		}
	}
}

var _ types.Type
