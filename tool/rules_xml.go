package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C27", "element and attribute names read off the type-checked struct tags; registration of every kind on all paths of the package initialisers; value-flow of the decoders (attribute values at return, child lists and text at the back edge of the token loop, exits of the token loop per kind of token)", ruleC27)
}

// ---- C27

type kindSpec struct {
	name   string
	styled bool
	attrs  map[string]string // name: field
	text   string            // the field that takes the text
	iss    string            // the list of all children
	chars  bool              // text between the children is one of them
	lists  map[string]string // type of child: field
}

var kindSpecs = map[string]kindSpec{
	"Font":      {name: "font", styled: true},
	"LineFeed":  {name: "lf", attrs: map[string]string{"lines": "Lines"}},
	"SetX":      {name: "setx", attrs: map[string]string{"x": "X"}},
	"SetY":      {name: "sety", attrs: map[string]string{"y": "Y"}},
	"Box":       {name: "box", styled: true, iss: "ISS", chars: true},
	"Text":      {name: "text", styled: true, iss: "ISS", chars: true},
	"Image":     {name: "image", styled: true, text: "Source"},
	"Paragraph": {name: "p", styled: true, text: "Text"},
	"LineBreak": {name: "br"},
	"PageBreak": {name: "newpage"},
	"Table":     {name: "table", styled: true, attrs: map[string]string{"repeatheader": "RepeatHeader"}, lists: map[string]string{"TableRow": "Rows"}},
	"TableRow":  {name: "tr", styled: true, lists: map[string]string{"TableCell": "Cells"}},
	"TableCell": {name: "td", styled: true, attrs: map[string]string{"colspan": "ColSpan", "rowspan": "RowSpan"}, iss: "ISS", chars: true},
	"Grid":      {name: "grid", styled: true, lists: map[string]string{"GridRow": "Rows", "GridPart": "Parts"}},
	"GridRow":   {name: "gr", styled: true},
	"GridPart":  {name: "part", styled: true, attrs: map[string]string{"area": "Area"}, iss: "ISS"},
}

// docTags: the names under which the parts of a document are read.
var docTags = map[string]map[string]string{
	"Document": {"Meta": "meta", "Page": "page", "Style": "style", "Header": "header", "Footer": "footer", "Body": "body"},
	"Meta":     {"Author": "author", "Creator": "creator", "Subject": "subject"},
	"Page":     {"Orientation": "orientation", "Format": "format", "Margins": "margins"},
	"Margins":  {"Left": "left", "Top": "top", "Right": "right", "Bottom": "bottom"},
}

func ruleC27(c *Ck) {
	c.protect("C27.names", c.elementNames)
	c.protect("C27.registry", c.registered)
	c.protect("C27.decode", c.decodeInstruction)
	for _, k := range sortedKeys(kindSpecs) {
		k := k
		c.protect("C27.attrs", func() { c.kindAttrs(k) })
		c.protect("C27.children", func() { c.kindChildren(k) })
	}
	c.protect("C27.attrs", c.styledAttrs)
	c.protect("C27.document", c.documentTags)
	c.protect("C27.document", c.loadDocument)
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	st, _ := t.Underlying().(*types.Struct)
	return st
}

func xmlTag(st *types.Struct, i int) (name string, opts []string, ok bool) {
	tag, ok := reflect.StructTag(st.Tag(i)).Lookup("xml")
	if !ok {
		return "", nil, false
	}
	fs := strings.Split(tag, ",")
	return fs[0], fs[1:], true
}

// method: the method of *K, with the embedded fields it is promoted through.
func (c *Ck) method(k types.Type, name string) (fn *ssa.Function, path []int, recv string) {
	n := namedOf(k)
	if n == nil {
		return
	}
	o, idx, _ := types.LookupFieldOrMethod(types.NewPointer(k), true, n.Obj().Pkg(), name)
	f, ok := o.(*types.Func)
	if !ok {
		return
	}
	if r := f.Type().(*types.Signature).Recv(); r != nil {
		if rn := namedOf(deref(r.Type())); rn != nil {
			recv = rn.Obj().Name()
		}
	}
	return c.P.SSA.FuncValue(f), idx[:len(idx)-1], recv
}

// elementNames: the names the kinds are known by.
func (c *Ck) elementNames() {
	rule := "C27.names"
	have := map[string]string{}
	for _, k := range sortedKeys(kindSpecs) {
		t := c.P.typ("xdoc", k)
		st := structOf(t)
		if st == nil {
			c.und(rule, k, "no such kind of element")
			continue
		}
		found := false
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if f.Name() != "XMLName" {
				continue
			}
			found = true
			n, opts, _ := xmlTag(st, i)
			if n == kindSpecs[k].name && len(opts) > 0 {
				c.und(rule, k, "the tag of the name has options")
				continue
			}
			c.expect(n == kindSpecs[k].name, rule, k, c.P.posStr(f.Pos()), "the element is known as %q instead of %q", n, kindSpecs[k].name)
			if o := have[n]; o != "" {
				c.fail(rule, k+" "+n, c.P.posStr(f.Pos()), "%s and %s have the same name", o, k)
			}
			have[n] = k
		}
		if !found {
			c.und(rule, k, "the name of the element is not evident")
		}
	}
}

func isInstruction(t types.Type) bool { return typeKey(t) == modPath+"/xdoc.Instruction" }

// registered: every kind is registered whenever the package is initialised.
func (c *Ck) registered() {
	rule := "C27.registry"
	var inits []*ssa.Function
	for _, f := range c.P.Funcs {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == modPath+"/xdoc" && f.Parent() == nil && f.Signature.Recv() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) {
			inits = append(inits, f)
		}
	}
	// functions that register a kind
	isReg := func(f *ssa.Function) bool {
		if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != modPath+"/xdoc" {
			return false
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok {
					if m, ok := mu.Map.Type().Underlying().(*types.Map); ok && isString(m.Key()) && isInstruction(m.Elem()) {
						return true
					}
				}
			}
		}
		return false
	}
	var regs []*ssa.Function
	for _, f := range c.P.Funcs {
		if isReg(f) {
			regs = append(regs, f)
		}
	}
	if len(inits) == 0 || len(regs) == 0 {
		c.und(rule, "xdoc", "the registration of the kinds is not evident")
		return
	}
	all := c.P.reach(inits...)
	made := map[string]string{}
	for f := range all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok {
					made[typeKey(mi.X.Type())] = c.P.instrPos(mi)
				}
			}
		}
	}
	some := false
	for _, f := range regs {
		some = some || all[f]
	}
	if !some {
		c.fail(rule, "xdoc", c.P.posStr(regs[0].Pos()), "no kind is registered when the package is initialised")
		return
	}
	// on all paths
	must := map[string]bool{}
	may := map[string]bool{}
	for _, f := range inits {
		if len(f.Blocks) == 0 || f.Synthetic != "" && f.Name() == "init" {
			continue
		}
		o := defaultOptions(c.P)
		op := o.Opaque
		o.Opaque = func(x *ssa.Function) bool { return isReg(x) || op != nil && op(x) }
		g := c.newGraph(f, o)
		for _, k := range sortedKeys(kindSpecs) {
			want := "*" + modPath + "/xdoc." + k
			var evs []*Event
			for _, e := range g.evs(func(e *Event) bool { return e.kind == "call" && e.fn != nil && isReg(e.fn) }) {
				for _, a := range g.evArgs(e) {
					if a.op == OIface && typeKey(a.args[0].typ) == want {
						evs = append(evs, e)
					}
				}
			}
			if len(evs) == 0 {
				continue
			}
			may[k] = true
			missed := false
			fl := &flow{g: g, step: func(e *Event, s int) (int, bool) {
				for _, x := range evs {
					if x == e {
						return 1, true
					}
				}
				return s, false
			}}
			fl.atEnd = func(n *Node, s int) { missed = missed || s == 0 }
			fl.run(g.start(), 0)
			if !missed {
				must[k] = true
			}
		}
	}
	for _, k := range sortedKeys(kindSpecs) {
		pos := made["*"+modPath+"/xdoc."+k]
		switch {
		case pos == "":
			c.fail(rule, k, c.P.posStr(inits[0].Pos()), "the element is not registered")
		case may[k] && !must[k]:
			c.fail(rule, k, pos, "the element is not registered on all paths")
		default:
			c.ok(rule, k)
		}
	}
	// under its name
	for _, f := range regs {
		if !all[f] {
			continue
		}
		g := c.graphOf(f, "", noErrors)
		if g == nil {
			continue
		}
		var proto *Term
		for _, p := range f.Params {
			if isInstruction(p.Type()) {
				proto = g.val(g.root, p)
			}
		}
		con := fnName(f)
		for _, e := range g.evs(func(e *Event) bool { return e.kind == "mapset" }) {
			as := g.evArgs(e)
			if len(as) != 3 || proto == nil {
				c.und(rule, con, "what is registered is not evident")
				continue
			}
			if stripEl(as[2]) == proto {
				c.ok(rule, con+": prototype")
			} else {
				c.und(rule, con+" prototype", "what is registered is %s", clip(as[2].String(), 100))
			}
			n, tags := 0, 0
			walk(as[1], func(x *Term) bool {
				if x.op == OInv || x.op == OCall {
					ev, _ := x.data.(*Event)
					args := x.args
					if ev != nil {
						args = g.evArgs(ev)
					}
					if strings.HasSuffix(x.s, "FieldByName") && len(args) > 0 && args[len(args)-1].isStr() {
						n++
						c.expect(args[len(args)-1].s == "XMLName", rule, con+" field", g.evPos(e), "the name is taken from the field %s", args[len(args)-1].s)
					}
					if (strings.HasSuffix(x.s, "StructTag).Get") || strings.HasSuffix(x.s, "StructTag).Lookup")) && len(args) > 0 && args[len(args)-1].isStr() {
						tags++
						c.expect(args[len(args)-1].s == "xml", rule, con+" tag", g.evPos(e), "the name is taken from the tag %s", args[len(args)-1].s)
					}
				}
				return true
			})
			if n == 0 || tags == 0 {
				c.und(rule, con+" name", "the name is %s", clip(as[1].String(), 150))
			}
		}
	}
}

// decoders: the functions that decode a child.
func (c *Ck) decoders() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != modPath+"/xdoc" || len(f.Blocks) == 0 || f.Synthetic != "" || f.Parent() != nil {
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() == 0 || !isInstruction(rs.At(0).Type()) {
			continue
		}
		dec, start := false, true
		for i := 0; i < f.Signature.Params().Len(); i++ {
			switch typeKey(f.Signature.Params().At(i).Type()) {
			case "*encoding/xml.Decoder":
				dec = true
			case "encoding/xml.Token":
				start = false // any token, not the start of a child
			}
		}
		if dec && start {
			out[f] = true
		}
	}
	return out
}

// instrMap: a map of kinds, by name.
func instrMap(t *Term) bool {
	for t.op == OLoad && t.typ == nil {
		t = t.args[0]
	}
	ty := t.typ
	if ty == nil {
		return false
	}
	if t.op == OField || t.op == OFAddr {
		st := structOf(ty)
		if st == nil {
			return false
		}
		ty = st.Field(t.i).Type()
	}
	m, ok := ty.Underlying().(*types.Map)
	return ok && isInstruction(m.Elem())
}

// noErrs: no call fails, and errors made on the spot are none.
func noErrs(g *Graph, t *Term) (bool, bool) {
	if v, ok := noErrors(g, t); ok {
		return v, ok
	}
	if x, k, ok := eqConst(t); ok && k.op == ONil {
		if x.op == OCall && g.nonNilErr(x) && !strings.Contains(x.s, "Wrap") && !strings.Contains(x.s, "With") {
			return false, true
		}
		if x.op == OProj && x.i == 1 && x.args[0].op == OCall && strings.HasPrefix(x.args[0].s, "strconv.") {
			return true, true
		}
	}
	return false, false
}

// inside: f holds in a term, or in one an opaque call in it is given.
func (g *Graph) inside(t *Term, f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	got := false
	var rec func(t *Term)
	rec = func(t *Term) {
		walk(t, func(x *Term) bool {
			if seen[x] || got {
				return false
			}
			seen[x] = true
			if f(x) {
				got = true
			}
			if e, ok := x.data.(*Event); ok && (x.op == OInv || x.op == OClobber) {
				for _, a := range g.evArgs(e) {
					rec(a)
				}
			}
			return !got
		})
	}
	rec(t)
	return got
}

func xmlQuiet(s string) bool {
	return s == "(*encoding/xml.Decoder).DecodeElement" || s == "(*encoding/xml.Decoder).Token" || s == "(*encoding/xml.Decoder).RawToken"
}

// decodeInstruction: the element decoded is one of its own, with its
// attributes.
func (c *Ck) decodeInstruction() {
	rule := "C27.decode"
	ds := c.decoders()
	if len(ds) == 0 {
		c.und(rule, "xdoc", "the decoding of elements is not evident")
		return
	}
	for _, f := range sortedFns(ds) {
		o := defaultOptions(c.P)
		o.NoClobber = xmlQuiet
		o.Assume = noErrs
		op := o.Opaque
		o.Opaque = func(x *ssa.Function) bool { return x != f && ds[x] || op != nil && op(x) }
		g := c.newGraph(f, o)
		con := fnName(f)
		var start *Term
		for _, p := range f.Params {
			if k := typeKey(p.Type()); k == "encoding/xml.StartElement" || k == "*encoding/xml.StartElement" {
				start = g.val(g.root, p)
			}
		}
		if start == nil {
			c.und(rule, con, "the element is not evident")
			continue
		}
		own := func(t *Term) (string, bool) {
			r, p := docPath(t)
			return p, r == start || r.op == OAlloc
		}
		// looked up under its name
		isMap := instrMap
		elems := g.evs(func(e *Event) bool {
			return e.kind == "call" && (e.callee == "(*encoding/xml.Decoder).DecodeElement" || e.callee == "(*encoding/xml.Decoder).Decode")
		})
		attrs := g.evs(func(e *Event) bool { return e.kind == "call" && strings.HasSuffix(e.callee, ".DecodeAttrs") })
		deleg := g.evs(func(e *Event) bool { return e.kind == "call" && e.fn != nil && ds[e.fn] })
		if len(deleg) > 0 && len(elems) == 0 {
			c.und(rule, con, "the element is decoded by another function")
			continue
		}
		look := 0
		for _, e := range elems {
			for _, a := range g.evArgs(e) {
				g.inside(a, func(x *Term) bool {
					if (x.op == OLookup || x.op == OLookupOk) && isMap(x.args[0]) {
						look++
						p, ok := own(x.args[1])
						if ok && p != "" {
							c.expect(p == "Name.Local", rule, con+" name", g.evPos(e), "elements are looked up by %s", p)
						} else {
							c.und(rule, con+" name", "elements are looked up by %s", clip(x.args[1].String(), 100))
						}
					}
					return false
				})
			}
		}
		if len(elems) == 0 {
			c.fail(rule, con, c.P.posStr(f.Pos()), "the element is not decoded")
			continue
		}
		if look == 0 {
			c.und(rule, con+" name", "how elements are looked up is not evident")
		}
		// into a value of its own
		for _, e := range elems {
			as := g.evArgs(e)
			tgt := as[1]
			fresh := g.made(tgt, func(x *Term) bool { return strings.HasPrefix(x.s, "reflect.New") || x.op == OAlloc })
			proto := contains(stripEl(tgt), func(x *Term) bool { return x.op == OLookup && isMap(x.args[0]) })
			switch {
			case fresh:
				c.ok(rule, con+": a value of its own")
			case stripEl(tgt).op == OLookup && proto:
				c.fail(rule, con+" shared", g.evPos(e), "all elements of a kind share one value")
			default:
				c.und(rule, con+" shared", "the element is decoded into %s", clip(tgt.String(), 100))
			}
		}
		// attributes on all paths
		pathOK := map[*Event]bool{}
		for _, e := range attrs {
			as := g.evArgs(e)
			a := as[len(as)-1]
			p, ok := own(a)
			if a.op == OSlice {
				c.fail(rule, con+" attributes", g.evPos(e), "not all attributes are decoded")
				pathOK[e] = true
				continue
			}
			if p == "" || !ok {
				c.und(rule, con+" attributes", "the attributes are %s", clip(a.String(), 100))
				pathOK[e] = true
				continue
			}
			pathOK[e] = p == "Attr"
		}
		for what, evs := range map[string][]*Event{"the element": elems, "the attributes of the element": attrs} {
			missed := false
			fl := &flow{g: g, step: func(e *Event, s int) (int, bool) {
				for _, x := range evs {
					if x == e && (pathOK[e] || what == "the element") {
						return 1, true
					}
				}
				return s, false
			}}
			fl.atEnd = func(n *Node, s int) {
				if s != 0 {
					return
				}
				for _, r := range g.results(1) {
					if r.n == n && r.t.op == ONil {
						missed = true
					}
				}
			}
			fl.run(g.start(), 0)
			c.expect(!missed, rule, con+" "+what, c.P.posStr(f.Pos()), "there is a path on which %s is not decoded", what)
		}
		// the result
		for _, r := range g.results(0) {
			for _, v := range cases(g, r.t) {
				if v.op == ONil {
					continue
				}
				fresh := g.made(v, func(x *Term) bool { return strings.HasPrefix(x.s, "reflect.New") || x.op == OAlloc })
				switch {
				case fresh:
					c.ok(rule, con+": result")
				case stripEl(v).op == OLookup:
					c.fail(rule, con+" result", r.pos, "the prototype is returned instead of the element decoded")
				default:
					c.und(rule, con+" result", "the result is %s", clip(v.String(), 100))
				}
			}
		}
	}
}

// made: the value is derived from one that satisfies f by calls.
func (g *Graph) made(t *Term, f func(*Term) bool) bool {
	t = stripEl(t)
	for d := 0; d < 12; d++ {
		if f(t) {
			return true
		}
		switch t.op {
		case OInv:
			e, ok := t.data.(*Event)
			if !ok {
				return false
			}
			as := g.evArgs(e)
			if len(as) == 0 {
				return false
			}
			t = stripEl(as[0])
		case OProj, OCall:
			if len(t.args) == 0 {
				return false
			}
			t = stripEl(t.args[0])
		default:
			return false
		}
	}
	return false
}

func (c *Ck) fieldIdx(t types.Type, names string) (idx []int, f *types.Var) {
	n := namedOf(t)
	if n == nil {
		return nil, nil
	}
	o, idx, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, n.Obj().Pkg(), names)
	v, _ := o.(*types.Var)
	return idx, v
}

// fieldAt: the address of a field of the value at an address.
func (g *Graph) fieldAt(a *Term, t types.Type, idx []int) *Term {
	for _, i := range idx {
		a = g.T.faddr(a, i, t)
		t = structOf(t).Field(i).Type()
	}
	return a
}

// kindAttrs: the attributes of the kind.
func (c *Ck) kindAttrs(k string) {
	rule := "C27.attrs"
	t := c.P.typ("xdoc", k)
	spec := kindSpecs[k]
	st := structOf(t)
	if st == nil {
		return
	}
	um, _, _ := c.method(t, "UnmarshalXML")
	da, dpath, drecv := c.method(t, "DecodeAttrs")
	if da == nil {
		c.und(rule, k, "how attributes are decoded is not evident")
		return
	}
	// style and class
	if spec.styled {
		var mrecv string
		var mpath []int
		for _, m := range []string{"MutatedStyles", "MutatedStylesWithSelector"} {
			f, p, r := c.method(t, m)
			if f == nil {
				c.und(rule, k+" "+m, "no such method")
				return
			}
			if r == "NoStyles" {
				c.fail(rule, k+" "+m, c.P.posStr(namedOf(t).Obj().Pos()), "the styles of the element are lost: it has none")
				return
			}
			mrecv, mpath = r, p
		}
		switch {
		case drecv == "NoStyles":
			c.fail(rule, k+" styles", c.P.posStr(namedOf(t).Obj().Pos()), "the style and class attributes are not decoded")
		case drecv == mrecv:
			c.expect(reflect.DeepEqual(dpath, mpath), rule, k+" styles", c.P.posStr(namedOf(t).Obj().Pos()), "the styles used are not those decoded")
		case drecv == k:
			c.ownAttrs(k, da, t, mpath, mrecv)
		default:
			c.und(rule, k+" styles", "the attributes are decoded by %s", fnName(da))
		}
	}
	// text
	if spec.text != "" {
		idx, v := c.fieldIdx(t, spec.text)
		if v == nil {
			c.und(rule, k+" "+spec.text, "no such field")
		} else if um != nil {
			c.und(rule, k+" "+spec.text, "the element is decoded by %s", fnName(um))
		} else {
			own := st
			for _, i := range idx[:len(idx)-1] {
				own = structOf(deref(own.Field(i).Type()))
			}
			n, opts, _ := xmlTag(own, idx[len(idx)-1])
			c.expect(n == "" && (has(opts, "chardata") || has(opts, "cdata")), rule, k+" "+spec.text, c.P.posStr(v.Pos()), "the text of the element is not read")
		}
	}
	for _, a := range sortedKeys(spec.attrs) {
		f := spec.attrs[a]
		idx, v := c.fieldIdx(t, f)
		con := k + " " + a
		if v == nil {
			c.und(rule, con, "no field %s", f)
			continue
		}
		if b, ok := v.Type().Underlying().(*types.Basic); ok && (a == "lines" || a == "x" || a == "y") {
			c.expect(b.Info()&types.IsFloat != 0, rule, con+" type", c.P.posStr(v.Pos()), "fractions are not possible")
		}
		if um == nil && len(idx) == 1 {
			n, opts, ok := xmlTag(st, idx[0])
			if ok && n == a && has(opts, "attr") {
				c.ok(rule, con)
				continue
			}
			if drecv != k {
				c.fail(rule, con, c.P.posStr(v.Pos()), "the attribute is not read into %s: the tag is %q", f, st.Tag(idx[0]))
				continue
			}
		}
		if drecv != k {
			if um != nil && um.Signature.Recv() != nil && namedOf(deref(um.Signature.Recv().Type())) == namedOf(t) {
				c.fail(rule, con, c.P.posStr(v.Pos()), "the attribute is not read: neither by DecodeAttrs nor by its tag, as the element is decoded by %s", fnName(um))
			} else if um != nil {
				c.fail(rule, con, c.P.posStr(v.Pos()), "the attribute is not read, as the element is decoded by %s", fnName(um))
			}
			continue
		}
		c.ownAttr(rule, k, da, t, a, f, idx, spec)
	}
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// attrGraph: the decoding of attributes, all of them of one name.
func (c *Ck) attrGraph(f *ssa.Function, name string) (g *Graph, attrs *Term) {
	o := defaultOptions(c.P)
	op := o.Opaque
	o.Opaque = func(x *ssa.Function) bool {
		return x != f && x.Name() == "DecodeAttrs" || x.Pkg != nil && x.Pkg.Pkg.Path() == modPath+"/style" || op != nil && op(x)
	}
	o.Assume = func(g *Graph, t *Term) (bool, bool) {
		if t.op == OEq {
			for i := range t.args {
				if t.args[i].isStr() {
					if _, p := docPath(t.args[1-i]); p == "Name.Local" {
						return t.args[i].s == name, true
					}
				}
			}
		}
		return noErrs(g, t)
	}
	g = c.newGraph(f, o)
	for _, p := range f.Params {
		if typeKey(p.Type()) == "[]encoding/xml.Attr" {
			attrs = g.val(g.root, p)
		}
	}
	return
}

// ownAttr: the attribute gets to its field, and to no other.
func (c *Ck) ownAttr(rule, k string, f *ssa.Function, t types.Type, a, field string, idx []int, spec kindSpec) {
	g, attrs := c.attrGraph(f, a)
	con := k + " " + a
	if attrs == nil {
		c.und(rule, con, "the attributes are not evident")
		return
	}
	recv := g.val(g.root, f.Params[0])
	c.attrInto(rule, con, f, g, attrs, recv, t, idx, field, true, a, spec)
	for _, o := range sortedKeys(spec.attrs) {
		if o != a {
			oidx, _ := c.fieldIdx(t, spec.attrs[o])
			c.attrInto(rule, con, f, g, attrs, recv, t, oidx, spec.attrs[o], false, a, spec)
		}
	}
}

// loopKey identifies a loop in the graphs of a function under different
// assumptions.
func loopKey(l *Loop) string {
	k := fmt.Sprintf("%p", l.head.b)
	for x := l.head.c; x != nil; x = x.parent {
		k += fmt.Sprintf("/%p", x.site)
	}
	return k
}

// attrLoops: the loops that find the attribute do not end at other ones.
func (c *Ck) attrLoops(rule, con string, f *ssa.Function, g *Graph, attrs, v *Term, a string, spec kindSpec) {
	used := map[string]bool{}
	g.walkLoops(v, func(x *Term) bool {
		g.inside(x, func(y *Term) bool {
			if l, ok := y.data.(*Loop); ok && y.op == OIV {
				used[loopKey(l)] = true
			}
			return false
		})
		return true
	})
	others := []string{"", "style", "class"}
	for _, o := range sortedKeys(spec.attrs) {
		others = append(others, o)
	}
	for _, o := range others {
		if o == a {
			continue
		}
		h, hattrs := c.attrGraph(f, o)
		for _, lp := range h.loops {
			if !used[loopKey(lp)] {
				continue
			}
			early := h.earlyEnd(lp, h.T.len(hattrs))
			if o == "" {
				o = "unknown"
			}
			c.expect(early == "", rule, con+" all", h.nodePos(lp.head), "attributes after one that is %s and for which %s are not read", o, early)
		}
	}
}

func (g *Graph) nodePos(n *Node) string {
	if n.b == nil {
		return "?"
	}
	for _, in := range n.b.Instrs {
		if in.Pos().IsValid() {
			return g.P.posStr(in.Pos())
		}
	}
	return "?"
}

// attrInto: the value of an attribute gets to a field, or does not.
func (c *Ck) attrInto(rule, con string, f *ssa.Function, g *Graph, attrs, recv *Term, t types.Type, idx []int, field string, want bool, a string, spec kindSpec) {
	addr := g.fieldAt(recv, t, idx)
	ft := t
	for _, i := range idx {
		ft = structOf(ft).Field(i).Type()
	}
	isVal := func(x *Term) bool {
		if x.op != OField && x.op != OLoad && x.op != OFAddr {
			return false
		}
		_, p := docPath(x)
		if !strings.HasSuffix(p, "Value") {
			return false
		}
		return contains(x, func(y *Term) bool {
			s, _ := seqElem(y)
			return s == attrs || (y.op == OIAddr || y.op == OIndex) && y.args[0] == attrs
		})
	}
	for _, r := range g.results(0) {
		v := g.read(r.n, len(r.n.items), addr, ft)
		got, opaque := false, false
		g.walkLoops(v, func(x *Term) bool {
			if isVal(x) {
				got = true
			}
			if x.op == OClobber {
				opaque = true
			}
			if e, ok := x.data.(*Event); ok && (x.op == OInv || x.op == OClobber) {
				for _, y := range g.evArgs(e) {
					g.walkLoops(y, func(z *Term) bool {
						got = got || isVal(z)
						return true
					})
				}
			}
			return true
		})
		switch {
		case got == want:
			c.ok(rule, con+": "+field)
		case want && (opaque || !understood(r.t)):
			c.und(rule, con, "%s is %s", field, clip(v.String(), 120))
		case want:
			c.fail(rule, con, r.pos, "the attribute does not get to %s, which is %s", field, clip(v.String(), 120))
		default:
			c.fail(rule, con+" "+field, r.pos, "the attribute gets to %s", field)
		}
		if !want || !got {
			continue
		}
		c.attrLoops(rule, con, f, g, attrs, v, a, spec)
		// the value itself
		g.walkLoops(v, func(x *Term) bool {
			base := x
			if x.op == OCall || x.op == OProj {
				call := x
				if x.op == OProj {
					call = x.args[0]
				}
				if call.op == OCall && (call.s == "strconv.ParseInt" || call.s == "strconv.ParseUint") && len(call.args) > 1 && contains(call.args[0], isVal) {
					c.expect(!call.args[1].isNum() || call.args[1].rat().Cmp(g.T.numI(10).rat()) == 0 || call.args[1].rat().Sign() == 0, rule, con+" base", r.pos, "the number is not decimal")
					return false
				}
			}
			if base.op == OPoly && contains(base, isVal) {
				p := g.T.sub(base, g.T.mk(&Term{op: OIV}))
				_ = p
				c.fail(rule, con+" value", r.pos, "the value is changed: %s", clip(base.String(), 120))
				return false
			}
			return true
		})
	}
}

// ownAttrs: a kind with attributes of its own decodes those of styles, too.
func (c *Ck) ownAttrs(k string, f *ssa.Function, t types.Type, mpath []int, mrecv string) {
	rule := "C27.attrs"
	g, attrs := c.attrGraph(f, "")
	con := k + " styles"
	if attrs == nil {
		c.und(rule, con, "the attributes are not evident")
		return
	}
	recv := g.val(g.root, f.Params[0])
	want := g.fieldAt(recv, t, mpath)
	evs := g.evs(func(e *Event) bool {
		return e.kind == "call" && e.fn != nil && e.fn.Name() == "DecodeAttrs" && len(e.fn.Params) == 2
	})
	good := map[*Event]bool{}
	for _, e := range evs {
		as := g.evArgs(e)
		switch {
		case as[0] == want && as[1] == attrs:
			good[e] = true
		case as[0] != want && as[0].op == OFAddr && e.fn.Signature.Recv() != nil && namedOf(deref(e.fn.Signature.Recv().Type())) != nil && namedOf(deref(e.fn.Signature.Recv().Type())).Obj().Name() == mrecv:
			// another one
			c.fail(rule, con+" used", g.evPos(e), "the styles decoded are not those used")
			good[e] = true
		default:
			good[e] = true
			c.und(rule, con, "the attributes %s of %s are decoded", clip(as[1].String(), 60), clip(as[0].String(), 60))
		}
	}
	if len(evs) == 0 {
		// by tags, or by hand
		if len(g.evs(func(e *Event) bool {
			return e.kind == "call" && e.fn != nil && e.fn.Pkg != nil && e.fn.Pkg.Pkg.Path() == modPath+"/style"
		})) > 0 {
			c.und(rule, con, "the styles are decoded by the kind itself")
			return
		}
	}
	missed := false
	fl := &flow{g: g, step: func(e *Event, s int) (int, bool) {
		if good[e] {
			return 1, true
		}
		return s, false
	}}
	fl.atEnd = func(n *Node, s int) {
		if s != 0 {
			return
		}
		for _, r := range g.results(0) {
			if r.n == n && r.t.op == ONil {
				missed = true
			}
		}
	}
	fl.run(g.start(), 0)
	c.expect(!missed, rule, con, c.P.posStr(f.Pos()), "there is a path on which the style and class attributes are not decoded")
}

// styledAttrs: style and class.
func (c *Ck) styledAttrs() {
	rule := "C27.attrs"
	t := c.P.typ("xdoc", "Styled")
	f := c.P.fn("xdoc", "Styled.DecodeAttrs")
	if f == nil || structOf(t) == nil {
		c.und(rule, "Styled", "no such type")
		return
	}
	for a, field := range map[string]string{"style": "Mutators", "class": "Classes"} {
		idx, v := c.fieldIdx(t, field)
		if v == nil {
			c.und(rule, "Styled "+a, "no such field")
			continue
		}
		c.ownAttr(rule, "Styled", f, t, a, field, idx, kindSpec{attrs: map[string]string{"style": "Mutators", "class": "Classes"}})
	}
}

// kindChildren: the children, in order, and the text between them.
func (c *Ck) kindChildren(k string) {
	t := c.P.typ("xdoc", k)
	spec := kindSpecs[k]
	if structOf(t) == nil {
		return
	}
	um, path, recv := c.method(t, "UnmarshalXML")
	rule := "C27.children"
	if um == nil {
		if spec.iss != "" || len(spec.lists) > 0 {
			c.und(rule, k, "the children are decoded by their tags")
		}
		return
	}
	_ = recv
	rt := deref(um.Signature.Recv().Type())
	rel := func(field string) []int {
		idx, v := c.fieldIdx(t, field)
		if v == nil || len(idx) < len(path) || !reflect.DeepEqual(idx[:len(path)], path) && len(path) > 0 {
			return nil
		}
		return idx[len(path):]
	}
	lists := map[string][]int{}
	if spec.iss != "" {
		for _, x := range []string{"Paragraph", "Table", "Font"} {
			lists[x] = rel(spec.iss)
		}
	}
	for x, f := range spec.lists {
		lists[x] = rel(f)
	}
	for x, idx := range lists {
		if idx == nil {
			c.und(rule, k, "the list of the children is not evident (%s)", x)
			return
		}
	}
	for _, x := range sortedKeys(lists) {
		c.tokens(k, um, rt, "StartElement", x, lists[x])
	}
	if spec.chars {
		c.tokens(k, um, rt, "CharData", "", rel(spec.iss))
	}
	if k == "GridRow" {
		c.tokens(k, um, rt, "CharData", "areas", rel("Areas"))
	}
	var some []int
	if spec.iss != "" {
		some = rel(spec.iss)
	}
	c.tokens(k, um, rt, "EndElement", "", some)
	for _, x := range []string{"Comment", "ProcInst", "Directive"} {
		c.tokens(k, um, rt, x, "", some)
	}
}

// tokens: what one token adds to the list, and whether the loop goes on.
func (c *Ck) tokens(k string, f *ssa.Function, rt types.Type, tok, child string, idx []int) {
	rule := "C27.children"
	ds := c.decoders()
	con := k
	switch {
	case child == "areas":
		con += ": areas"
	case tok == "CharData":
		con += ": text"
	case child != "":
		con += ": " + child
	case tok == "EndElement":
		con += ": end"
	default:
		con += ": " + strings.ToLower(tok)
	}
	for _, own := range []bool{false, true} {
		if own && tok != "EndElement" {
			continue
		}
		o := defaultOptions(c.P)
		op := o.Opaque
		o.Opaque = func(x *ssa.Function) bool {
			return ds[x] || x.Name() == "DecodeAttrs" || op != nil && op(x)
		}
		o.NoClobber = func(s string) bool { return xmlQuiet(s) || strings.HasSuffix(s, ".DecodeAttrs") }
		isTok := func(x *Term) bool { return x.op == OInv && strings.HasSuffix(x.s, "xml.Decoder).Token") }
		fromDecoder := func(x *Term) bool {
			e, ok := x.data.(*Event)
			return x.op == OInv && ok && e.fn != nil && ds[e.fn]
		}
		o.Assume = func(g *Graph, t *Term) (bool, bool) {
			switch t.op {
			case OTypeIs:
				x := stripEl(t.args[0])
				if x.op == OProj {
					x = x.args[0]
				}
				if isTok(x) {
					return typeKey(t.typ) == "encoding/xml."+tok, true
				}
				if fromDecoder(x) && child != "" {
					return typeKey(t.typ) == "*"+modPath+"/xdoc."+child, true
				}
			case OLookupOk:
				if instrMap(t.args[0]) {
					return true, true
				}
			case OPos:
				if x := t.args[0]; tok == "CharData" && x.op == OLen {
					if y := stripEl(x.args[0]); y.op == OProj && isTok(y.args[0]) {
						return true, true
					}
				}
			case OEq:
				if tok == "EndElement" && contains(t, isTok) && g.inside(t, func(x *Term) bool { return x.op == OParam && strings.HasSuffix(typeKey(x.typ), "xml.StartElement") }) {
					return own, true
				}
				for i := range t.args {
					// a child that was decoded is there
					if x := t.args[1-i]; t.args[i].op == ONil && x.op == OProj && x.i == 0 && fromDecoder(x.args[0]) {
						return false, true
					}
				}
				if tok == "CharData" {
					if x, cst, ok := eqConst(t); ok && (cst.isStr() && cst.s == "" || cst.isNum() && cst.rat().Sign() == 0) && contains(x, isTok) {
						// the text itself is not empty
						if cst.isNum() && x.op == OLen {
							x = x.args[0]
						}
						if y := stripEl(x); y.op == OProj && isTok(y.args[0]) {
							return false, true
						}
					}
				}
			}
			return noErrs(g, t)
		}
		g := c.newGraph(f, o)
		if g.overflow {
			c.und(rule, con, "too large")
			return
		}
		evs := g.evs(func(e *Event) bool { return e.kind == "call" && strings.HasSuffix(e.callee, "xml.Decoder).Token") })
		if len(evs) != 1 || g.innermost(evs[0].n) == nil {
			c.und(rule, con, "the loop over the tokens is not evident")
			return
		}
		lp := g.innermost(evs[0].n)
		pos := g.evPos(evs[0])
		// the loop goes on
		exits, errs := 0, 0
		for _, e := range lp.exits {
			if !g.liveEdge[e] {
				continue
			}
			isErr := true
			reach := 0
			fl := &flow{g: g, step: func(e *Event, s int) (int, bool) { return s, false }}
			fl.atEnd = func(n *Node, s int) {
				for _, r := range g.results(0) {
					if r.n == n {
						reach++
						for _, v := range cases(g, r.t) {
							if v.op == ONil || errResult(v) != nil {
								isErr = false
							}
						}
					}
				}
			}
			fl.run(point{e.to, 0}, 0)
			if reach == 0 {
				continue
			}
			if isErr {
				errs++
			} else {
				exits++
			}
		}
		switch {
		case tok == "EndElement" && own:
			c.expect(exits > 0, rule, con+" own", pos, "the end of the element does not end the decoding of its children")
		case tok == "EndElement":
			c.expect(exits == 0, rule, con+" inner", pos, "the end of an element inside ends the decoding of the children")
		default:
			c.expect(exits == 0, rule, con+" goes on", pos, "what follows is lost: the decoding of the children ends")
		}
		if idx == nil || tok == "EndElement" && own {
			continue
		}
		recv := g.val(g.root, f.Params[0])
		addr := g.fieldAt(recv, rt, idx)
		ft := rt
		for _, i := range idx {
			ft = structOf(ft).Field(i).Type()
		}
		before := g.read(lp.head, 0, addr, ft)
		after := g.atBack(lp, addr, ft)
		ls, ok := g.leaves([]*Term{after})
		if !ok {
			c.und(rule, con, "too many cases")
			continue
		}
		for _, l := range ls {
			n := l.ts[0]
			same := n == before || sameCell(n, before)
			if tok != "CharData" && tok != "StartElement" {
				c.expect(same, rule, con+" list", pos, "the list of the children becomes %s", clip(n.String(), 120))
				continue
			}
			if child == "areas" {
				b := n
				sep := ""
				if n.op == OCall && strings.HasPrefix(n.s, "strings.Split") && n.args[1].isStr() {
					b, sep = n.args[0], n.args[1].s
				} else if n.op == OCall && n.s == "strings.Fields" {
					b, sep = n.args[0], " "
				}
				if contains(b, isTok) && sep != "" {
					c.expect(sep == " ", rule, con, pos, "the areas are split at %q", sep)
				} else if same {
					c.fail(rule, con, pos, "the areas are lost%s", ifs(l.lits))
				} else {
					c.und(rule, con, "the areas are %s", clip(n.String(), 120))
				}
				continue
			}
			if same {
				what := "the element"
				if tok == "CharData" {
					what = "the text"
				}
				c.fail(rule, con, pos, "%s is lost%s", what, ifs(l.lits))
				continue
			}
			if n.op != OSeq {
				c.und(rule, con, "the list becomes %s", clip(n.String(), 120))
				continue
			}
			var items []*Term
			at := -1
			for i, a := range n.args {
				if n.s[i] == 's' && (a == before || sameCell(a, before)) {
					at = len(items)
				} else {
					items = append(items, a)
				}
			}
			switch {
			case at < 0:
				c.fail(rule, con+" others", pos, "the elements before are lost: the list becomes %s", clip(n.String(), 120))
			case len(items) != 1:
				c.und(rule, con, "the list becomes %s", clip(n.String(), 120))
			case at > 0:
				c.fail(rule, con+" order", pos, "the element is put before those preceding it")
			default:
				c.ok(rule, con+": appended")
				it := stripEl(items[0])
				if tok == "StartElement" {
					x := it
					if x.op == OProj {
						x = x.args[0]
					}
					if fromDecoder(x) {
						e := x.data.(*Event)
						if len(g.evArgs(e)) > 0 && contains(g.evArgs(e)[len(g.evArgs(e))-1], isTok) {
							c.ok(rule, con+": the element itself")
						} else {
							c.und(rule, con, "the element decoded is %s", clip(x.String(), 100))
						}
					} else if x.op == OAlloc {
						c.fail(rule, con+" itself", pos, "an empty element takes the place of the one decoded")
					} else {
						c.und(rule, con, "the element is %s", clip(x.String(), 100))
					}
					continue
				}
				c.textKept(rule, con, g, lp, it, isTok, pos)
			}
		}
	}
}

// textKept: the text is that of the document.
func (c *Ck) textKept(rule, con string, g *Graph, lp *Loop, it *Term, isTok func(*Term) bool, pos string) {
	if it.op != OAlloc || structOf(deref(it.typ)) == nil {
		c.und(rule, con, "the text becomes %s", clip(it.String(), 100))
		return
	}
	tt := deref(it.typ)
	if n := namedOf(tt); n == nil || n.Obj().Name() != "TextBlock" {
		c.und(rule, con, "the text becomes a %s", typeKey(tt))
		return
	}
	idx, v := c.fieldIdx(tt, "Text")
	if v == nil {
		c.und(rule, con, "the text is not evident")
		return
	}
	at := g.fieldAt(it, tt, idx)
	sts := g.evs(func(e *Event) bool { return e.kind == "store" && len(g.evArgs(e)) == 2 && g.evArgs(e)[0] == at })
	if len(sts) == 0 {
		c.fail(rule, con+" kept", pos, "the text is lost")
		return
	}
	if len(sts) > 1 {
		c.und(rule, con+" kept", "the text is not evident")
		return
	}
	ls, ok := g.leaves([]*Term{g.evArgs(sts[0])[1]})
	if !ok {
		c.und(rule, con, "too many cases")
		return
	}
	for _, l := range ls {
		x := stripEl(l.ts[0])
		if x.op == OProj && isTok(x.args[0]) {
			c.ok(rule, con+": the text itself")
			continue
		}
		ch, b, why := c.pipe(g, l.ts[0])
		if b != nil {
			b = stripEl(b)
		}
		switch {
		case why == "" && b.op == OProj && isTok(b.args[0]):
			_ = ch
			c.fail(rule, con+" kept", pos, "the text is changed: %s", clip(l.ts[0].String(), 120))
		case x.isStr() || x.op == OZeroStr:
			c.fail(rule, con+" kept", pos, "the text becomes %q", x.s)
		default:
			c.und(rule, con+" kept", "the text becomes %s", clip(x.String(), 100))
		}
	}
}

// documentTags: the parts of a document.
func (c *Ck) documentTags() {
	rule := "C27.document"
	for _, k := range sortedKeys(docTags) {
		t := c.P.typ("xdoc", k)
		st := structOf(t)
		if st == nil {
			c.und(rule, k, "no such type")
			continue
		}
		if um, _, _ := c.method(t, "UnmarshalXML"); um != nil {
			c.und(rule, k, "it is decoded by %s", fnName(um))
			continue
		}
		seen := map[string]bool{}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			want, is := docTags[k][f.Name()]
			n, opts, ok := xmlTag(st, i)
			if f.Name() == "XMLName" {
				w := strings.ToLower(k)
				if ok && n != "" {
					c.expect(n == w, rule, k+" name", c.P.posStr(f.Pos()), "the element is expected as %q instead of %q", n, w)
				}
				continue
			}
			if !is {
				continue
			}
			seen[f.Name()] = true
			if !ok || n == "" && len(opts) == 0 {
				n = f.Name()
			}
			con := k + " " + want
			if has(opts, "attr") || has(opts, "chardata") || has(opts, "innerxml") {
				c.fail(rule, con, c.P.posStr(f.Pos()), "it is not read from an element")
				continue
			}
			c.expect(n == want, rule, con, c.P.posStr(f.Pos()), "it is read from %q instead of %q", n, want)
			if k == "Margins" {
				b, ok := f.Type().Underlying().(*types.Basic)
				c.expect(ok && b.Info()&types.IsFloat != 0, rule, con+" type", c.P.posStr(f.Pos()), "fractions are not possible")
			}
			if strings.HasSuffix(typeKey(f.Type()), "xdoc.Instructions") {
				c.ok(rule, con+": instructions")
			}
		}
		for f := range docTags[k] {
			if !seen[f] {
				c.und(rule, k+" "+docTags[k][f], "no field %s", f)
			}
		}
	}
}

// loadDocument: the document decoded, with the classes of its style sheet.
func (c *Ck) loadDocument() {
	rule := "C27.document"
	f := c.P.fn("xdoc", "Load")
	dt := c.P.typ("xdoc", "Document")
	if f == nil || structOf(dt) == nil {
		c.und(rule, "Load", "no such function")
		return
	}
	o := defaultOptions(c.P)
	op := o.Opaque
	o.Opaque = func(x *ssa.Function) bool {
		return x.Pkg != nil && x.Pkg.Pkg.Path() == modPath+"/style" || op != nil && op(x)
	}
	o.Assume = noErrs
	g := c.newGraph(f, o)
	var cls []int
	st := structOf(dt)
	for i := 0; i < st.NumFields(); i++ {
		if typeKey(st.Field(i).Type()) == modPath+"/style.Classes" {
			cls = []int{i}
		}
	}
	if cls == nil {
		c.und(rule, "Load", "where the classes are is not evident")
		return
	}
	sty, _ := c.fieldIdx(dt, "Style")
	for _, r := range g.results(0) {
		if r.t.op == ONil {
			continue
		}
		dec := false
		for _, e := range g.evs(func(e *Event) bool { return strings.HasSuffix(e.callee, "xml.Decoder).Decode") }) {
			dec = dec || stripEl(g.evArgs(e)[1]) == r.t
		}
		if !dec {
			if um := g.evs(func(e *Event) bool { return strings.HasPrefix(e.callee, "encoding/xml.Unmarshal") }); len(um) == 0 {
				c.fail(rule, "Load", r.pos, "the document returned is not the one decoded")
			} else {
				c.und(rule, "Load", "how the document is decoded is not evident")
			}
			continue
		}
		c.ok(rule, "Load: document")
		v := g.read(r.n, len(r.n.items), g.fieldAt(r.t, dt, cls), st.Field(cls[0]).Type())
		for _, l := range cases(g, v) {
			x := l
			if x.op == OProj {
				x = x.args[0]
			}
			e, ok := x.data.(*Event)
			switch {
			case x.op == OInv && ok && e.fn != nil && e.fn.Pkg != nil && strings.HasSuffix(e.fn.Pkg.Pkg.Path(), "/style"):
				src := false
				seen := map[*Term]bool{}
				var rec func(t *Term)
				want := g.fieldAt(r.t, dt, sty)
				rec = func(t *Term) {
					walk(t, func(y *Term) bool {
						if seen[y] {
							return false
						}
						seen[y] = true
						src = src || y == want
						if ev, ok := y.data.(*Event); ok && y.op == OInv {
							for _, a := range g.evArgs(ev) {
								rec(a)
							}
						}
						return true
					})
				}
				for _, a := range g.evArgs(e) {
					rec(a)
				}
				if src {
					c.ok(rule, "Load: style sheet")
				} else {
					c.und(rule, "Load style sheet", "the classes are %s", clip(x.String(), 100))
				}
			case l.op == OClobber || l.op == ONil:
				c.fail(rule, "Load classes", r.pos, "the style sheet of the document is not used: its classes are %s", clip(l.String(), 80))
			default:
				c.und(rule, "Load classes", "the classes are %s", clip(l.String(), 100))
			}
		}
	}
}
