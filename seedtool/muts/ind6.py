# restructurings outside of the root package, and edits written from the properties
muts=[]
def v(ids,what,*edits): muts.append((ids,"V",what,list(edits)))
def q(ids,what,*edits): muts.append((ids,"Q",what,list(edits)))
P="process.go"; TX="text.go"; TH="text-hyph.go"; TB="table.go"; IM="image.go"; GR="grid.go"; DR="draw.go"
F="engine/fpdf.go"; CL="style/class.go"; DE="style/decode.go"; RG="xdoc/registry.go"; XS="xdoc/style.go"; XT="xdoc/table.go"; XG="xdoc/grid.go"; XI="xdoc/instructions.go"; XR="xdoc/registry.go"; XD="xdoc/describe.go"; DO="xdoc/doc.go"; HY="hyphenation/hyphenation.go"; TT="text/text.go"
import os
TT=[ 'text/'+f for f in os.listdir('/repo/text') if not f.endswith('_test.go') and 'func WhitespaceRectified' in open('/repo/text/'+f).read()][0]
def src(f):
    return open('/repo/'+f).read()
def cut(f,a,b):
    s=src(f); i=s.index(a); j=s.index(b,i)
    return s[i:j]
# style classes
LOOP=cut(CL,'	cs := Classes{}\n	pos := 0','\x7f') if '\x7f' in src(CL) else src(CL)[src(CL).index('	cs := Classes{}\n	pos := 0'):]
q('C03 C09','class parser on the rest',(CL,LOOP,'''	cs := Classes{}
	for rest := s; ; {
		head, decls, tail, done, err := nextClass(rest)
		if err != nil {
			return nil, err
		}
		if done {
			return cs, nil
		}
		if err := cs.add(head, decls); err != nil {
			return nil, err
		}
		rest = tail
	}
}

func nextClass(s string) (name, decls, rest string, done bool, err error) {
	i := strings.IndexByte(s, '{')
	if i < 0 {
		if left := trimWS(s); len(left) > 0 {
			return "", "", "", false, errors.Errorf("non matching brace or missing declarations in (%s)", left)
		}
		return "", "", "", true, nil
	}
	name = trimWS(s[:i])
	if len(name) == 0 {
		return "", "", "", false, errors.Errorf("style class without name")
	}
	if strings.Contains(name, "}") {
		return "", "", "", false, errors.Errorf("non matching brace in (%s)", name)
	}
	s = s[i+1:]
	i = strings.IndexByte(s, '}')
	if i < 0 {
		return "", "", "", false, errors.Errorf("non matching brace")
	}
	decls, rest = s[:i], s[i+1:]
	if strings.Contains(decls, "{") {
		return "", "", "", false, errors.Errorf("non matching brace in class (%s)", name)
	}
	return name, decls, rest, false, nil
}

func (cs Classes) add(name, decls string) error {
	mut, err := DecodeMutator(strings.NewReader(decls))
	if err != nil {
		return errors.Wrap(err, "parse style")
	}
	i := strings.Index(name, ":")
	if i < 0 {
		cs[name] = Class{Name: name, mutator: mut, Selectors: map[string]Selector{}}
		return nil
	}
	base, sel := name[:i], name[i+1:]
	cl, ok := cs[base]
	if !ok {
		return errors.Errorf("no base class for (%s:%s)", base, sel)
	}
	cl.Selectors[sel] = Selector{Name: sel, mutator: mut}
	return nil
}
'''),(CL,'	"bytes"\n	"fmt"\n','') ,(CL,'	"io"\n	"io/ioutil"','	"io"\n	"io/ioutil"'))
q('C01 C09','mutator of selector',(CL,cut(CL,'func (c Class) MutateWithSelector','func (cs Classes) Mutate('),'''func (c Class) MutateWithSelector(sel string, styles *Styles) {
	c.mutatorFor(sel).Mutate(styles)
}

// mutatorFor is the mutator of a selector, or the one of the class itself
func (c Class) mutatorFor(sel string) *Mutator {
	s, ok := c.Selectors[sel]
	if !ok {
		return c.mutator
	}
	return s.mutator
}

'''))
q('C01 C09','classes visited by callback',(CL,cut(CL,'func (cs Classes) Mutate(','func DecodeClasses'),'''func (cs Classes) each(names []string, f func(c Class)) {
	for _, n := range names {
		c, ok := cs[n]
		if !ok {
			continue
		}
		f(c)
	}
}

func (cs Classes) Mutate(styles *Styles, useClasses ...string) {
	cs.each(useClasses, func(c Class) { c.Mutate(styles) })
}

func (cs Classes) MutateWithSelector(sel string, styles *Styles, useClasses ...string) {
	cs.each(useClasses, func(c Class) { c.MutateWithSelector(sel, styles) })
}

'''))
q('C01','mutate is mutate with no selector',(XS,cut(XS,'func (i *Styled) MutatedStyles(','type NoStyles'),'''func (i *Styled) MutatedStyles(cs style.Classes, styles style.Styles) style.Styles {
	cs.Mutate(&styles, i.Classes...)
	return i.mutateOwn(styles)
}

func (i *Styled) MutatedStylesWithSelector(sel string, cs style.Classes, styles style.Styles) style.Styles {
	cs.MutateWithSelector(sel, &styles, i.Classes...)
	return i.mutateOwn(styles)
}

func (i *Styled) mutateOwn(styles style.Styles) style.Styles {
	for n := range i.Mutators {
		i.Mutators[n].Mutate(&styles)
	}
	return styles
}

'''))
q('C15','declarations split by helper',(DE,cut(DE,'		styleKV := strings.Split(styleStr, ":")','	return raw, nil'),'''		k, v, err := declaration(styleStr)
		if err != nil {
			return nil, err
		}
		raw[k] = v
	}
'''),(DE,'type Unmarshaler interface','''func declaration(s string) (key, val string, err error) {
	kv := strings.Split(s, ":")
	if len(kv) != 2 {
		return "", "", errors.Errorf("invalid style syntax (%s) must be of (key:val)", s)
	}
	return trimWS(kv[0]), trimWS(kv[1]), nil
}

type Unmarshaler interface'''))
q('C15','field functions split',(DE,cut(DE,'			var setValue func(reflect.Value)','		if field.Type.Kind() == reflect.Struct'),'''			setValue, err := fieldSetter(field.Type, key, val)
			if err != nil {
				return nil, false, err
			}
			return func(s *Styles) {
				setValue(fieldAt(reflect.ValueOf(s).Elem(), currIndexPath))
			}, true, nil
		}

'''),(DE,'func makeSetValueFnc(','''func fieldAt(v reflect.Value, path []int) reflect.Value {
	for _, i := range path {
		v = v.Field(i)
	}
	return v
}

func fieldSetter(t reflect.Type, key, val string) (func(reflect.Value), error) {
	if um, ok := reflect.New(t).Interface().(Unmarshaler); ok {
		if err := um.UnmarshalStyle(val); err != nil {
			return nil, err
		}
		return func(v reflect.Value) { v.Set(reflect.ValueOf(um).Elem()) }, nil
	}
	set, err := makeSetValueFnc(t.Kind(), val)
	if err != nil {
		return nil, errors.Wrapf(err, "make set value func (%s, %s)", key, val)
	}
	return set, nil
}

func makeSetValueFnc('''))
q('C15','mutator built by helper',(DE,cut(DE,'	//sort keys, to report','func makeMutateFnc'),'''	protoType := reflect.TypeOf(Styles{})
	for _, k := range sortedKeys(raw) {
		fnc, found, err := makeMutateFnc(protoType, k, raw[k], nil)
		if err != nil {
			return nil, errors.Wrapf(err, "make-mutate-fnc (%s, %s)", k, raw[k])
		}
		if found {
			m.fncs = append(m.fncs, fnc)
		}
	}
	return m, nil
}

func sortedKeys(m map[string]string) []string {
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

'''))
q('C15','unknown first',(DE,'''		fnc, found, err := makeMutateFnc(protoType, k, v, []int{})
		if err != nil {
			return nil, errors.Wrapf(err, "make-mutate-fnc (%s, %s)", k, v)
		}
		if !found {
			continue
		}
		m.fncs = append(m.fncs, fnc)''','''		switch fnc, found, err := makeMutateFnc(protoType, k, v, []int{}); {
		case err != nil:
			return nil, errors.Wrapf(err, "make-mutate-fnc (%s, %s)", k, v)
		case found:
			m.fncs = append(m.fncs, fnc)
		}'''))
# xdoc
q('C27','children helper',(XT,cut(XT,'func (tab *Table) UnmarshalXML','func (row *TableRow) UnmarshalXML'),'''func (tab *Table) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	return eachChild(d, start, func(i Instruction) {
		if row, ok := i.(*TableRow); ok {
			tab.Rows = append(tab.Rows, row)
		}
	})
}

// eachChild decodes the instructions inside of an element
func eachChild(d *xml.Decoder, start xml.StartElement, f func(i Instruction)) error {
	for {
		token, err := d.Token()
		if err != nil {
			return err
		}
		switch t := token.(type) {
		case xml.EndElement:
			if t == start.End() {
				return nil
			}
		case xml.StartElement:
			i, err := registry.DecodeInstruction(d, t)
			if err != nil {
				return err
			}
			f(i)
		}
	}
}

'''),(XT,cut(XT,'func (row *TableRow) UnmarshalXML','func (cell *TableCell) UnmarshalXML'),'''func (row *TableRow) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	return eachChild(d, start, func(i Instruction) {
		if cell, ok := i.(*TableCell); ok {
			row.Cells = append(row.Cells, cell)
		}
	})
}

'''))
q('C27','text appended by method',(XI,'''			v := string(t)
			if v != "" {
				is.ISS = append(is.ISS, &TextBlock{
					Text: string(t),
				})
			}''','''			is.addText(string(t))'''),(XI,'type Font struct','''func (is *Instructions) addText(s string) {
	if s == "" {
		return
	}
	is.ISS = append(is.ISS, &TextBlock{Text: s})
}

type Font struct'''),(XT,'''			v := string(t)
			if v != "" {
				cell.Instructions.ISS = append(cell.Instructions.ISS, &TextBlock{
					Text: string(t),
				})
			}''','''			cell.Instructions.addText(string(t))'''))
q('C27','int attributes by table',(XT,cut(XT,'func (c *TableCell) DecodeAttrs','func (tab *Table) UnmarshalXML'),'''func (c *TableCell) DecodeAttrs(attrs []xml.Attr) error {
	if err := intAttr(attrs, "colspan", &c.ColSpan); err != nil {
		return err
	}
	if err := intAttr(attrs, "rowspan", &c.RowSpan); err != nil {
		return err
	}
	return c.Styled.DecodeAttrs(attrs)
}

func intAttr(attrs []xml.Attr, name string, to *int) error {
	for _, a := range attrs {
		if a.Name.Local != name {
			continue
		}
		n, err := strconv.ParseInt(a.Value, 10, 64)
		if err != nil {
			return err
		}
		*to = int(n)
	}
	return nil
}

'''))
q('C27','decoded by kind switch',(XI,cut(XI,'		switch t := token.(type) {\n		case xml.EndElement:','type Font struct'),'''		if end, ok := token.(xml.EndElement); ok && end == start.End() {
			return nil
		}
		i, err := decodeToken(d, token)
		if err != nil {
			return err
		}
		if i != nil {
			is.ISS = append(is.ISS, i)
		}
	}
}

func decodeToken(d *xml.Decoder, token xml.Token) (Instruction, error) {
	switch t := token.(type) {
	case xml.StartElement:
		i, err := registry.DecodeInstruction(d, t)
		if err != nil {
			return nil, errors.Wrapf(err, "decode token %v", t.Name.Local)
		}
		return i, nil
	case xml.CharData:
		if len(t) > 0 {
			return &TextBlock{Text: string(t)}, nil
		}
	}
	return nil, nil
}

'''))
q('C27','prototype method',(XR,cut(XR,'	proto, contains := r.instructions[start.Name.Local]\n','	err := d.DecodeElement'),'''	pointerToI, err := r.newInstance(start.Name.Local)
	if err != nil {
		return nil, err
	}
'''),(XR,'	err := d.DecodeElement','	err = d.DecodeElement'),(XR,'func (r *Registry) DecodeInstruction','''func (r *Registry) newInstance(name string) (reflect.Value, error) {
	if proto, ok := r.instructions[name]; ok {
		return reflect.New(reflect.TypeOf(proto)), nil
	}
	return reflect.Value{}, errors.Errorf("registry-decode: (%s) is NOT a registered instruction", name)
}

func (r *Registry) DecodeInstruction'''))
q('C27','instances by factory table',(XR,cut(XR,'	registry.RegisterInstruction(&Font{})','}\n\ntype Registry'),'''	for _, proto := range []Instruction{
		&Font{}, &Box{}, &Text{}, &LineFeed{}, &SetX{}, &SetY{}, &Image{},
		&Table{}, &TableRow{}, &TableCell{},
		&Grid{}, &GridRow{}, &GridPart{},
		&Paragraph{}, &LineBreak{}, &PageBreak{},
	} {
		registry.RegisterInstruction(proto)
	}
'''))
q('C04','load with wrapped errors',(DO,cut(DO,'	doc := &Document{}\n','func LoadFromFile'),'''	var doc Document
	if err := xml.NewDecoder(r).Decode(&doc); err != nil {
		return nil, errors.Wrap(err, "decode")
	}
	classes, err := style.DecodeClasses(strings.NewReader(doc.Style))
	if err != nil {
		return nil, errors.Wrap(err, "style")
	}
	doc.styleClasses = classes
	return &doc, nil
}

'''),(DO,'	"bytes"\n',''),(DO,'	"os"\n','	"os"\n	"strings"\n'))
# describe
D1=cut(XD,'	metaItem := DescribeItem{','	return desc\n')
q('C06','sections appended by method',(XD,D1,'''	desc.section("meta", desc.describeMeta(doc.Meta))
	desc.section("page", desc.describePage(doc.Page))
	desc.section("header", desc.describeInstructions(doc.Header))
	desc.section("footer", desc.describeInstructions(doc.Footer))
	desc.section("body", desc.describeInstructions(doc.Body))

'''),(XD,'func (desc *Description) describeMeta','''func (desc *Description) section(name string, items []DescribeItem) {
	desc.Items = append(desc.Items, DescribeItem{Name: name, Items: items})
}

func (desc *Description) describeMeta'''))
q('C06','tables describe one item',(XD,cut(XD,'func (desc *Description) describeTable(','func (desc *Description) describeTableCell('),'''func (desc *Description) describeTable(t *Table) []DescribeItem {
	var rows []DescribeItem
	for _, tr := range t.Rows {
		var cells []DescribeItem
		for _, td := range tr.Cells {
			cells = append(cells, desc.describeTableCell(td)...)
		}
		rows = append(rows, desc.container("table-row", tr, cells))
	}
	return []DescribeItem{desc.container("table", t, rows)}
}

func (desc *Description) container(name string, i Instruction, items []DescribeItem) DescribeItem {
	return DescribeItem{Name: name, StyleDiffs: desc.describeMutator(i), Items: items}
}

'''))
q('C06','describe one instruction',(XD,cut(XD,'	dis := []DescribeItem{}\n	for _, is := range iss.ISS {','		case *Font:'),'''	dis := []DescribeItem{}
	for _, is := range iss.ISS {
		dis = append(dis, desc.describeInstruction(is)...)
	}
	return dis
}

func (desc *Description) describeInstruction(is Instruction) (dis []DescribeItem) {
	{
		switch is := is.(type) {
'''))
# engine
q('C16','current font height',(F,'''	_, heightMM := e.pdf.GetFontSize()
	e.pdf.Ln(heightMM * lines)''','''	e.pdf.Ln(lines * e.FontHeight())'''),(F,'''	_, heightMM := e.pdf.GetFontSize()
	e.pdf.Write(heightMM, e.translateUnicode(s))''','''	e.pdf.Write(e.FontHeight(), e.translateUnicode(s))'''))
q('C16','page geometry by helpers',(F,cut(F,'	l, t, r, b := e.pdf.GetMargins()','func (e *FPDF) PageHeight'),'''	left, top, right, bottom := e.Margins()
	x1 = e.PageWidth() - right - 2
	y1 = e.PageHeight() - bottom
	return left, top, x1, y1
}

'''))
q('C16','font style parts',(F,cut(F,'	s := ""\n	switch fnt.Style','type FPDF struct'),'''	var parts []string
	if fnt.Style == style.FontStyleItalic {
		parts = append(parts, "I")
	}
	if fnt.Weight == style.FontWeightBold {
		parts = append(parts, "B")
	}
	if fnt.Decoration == style.FontDecorationUnderline {
		parts = append(parts, "U")
	}
	return strings.Join(parts, "")
}

'''),(F,'	"io/ioutil"\n','	"io/ioutil"\n	"strings"\n'))
q('C16 C04','font loaded by method',(F,cut(F,'	return fonts.Each(func','func (e *FPDF) Error()'),'''	return fonts.Each(e.addFont)
}

func (e *FPDF) addFont(fd font.Descriptor) error {
	bs, err := ioutil.ReadFile(fd.FilePath)
	if err != nil {
		return errors.Wrapf(err, "read file %q", fd.FilePath)
	}
	e.pdf.AddUTF8FontFromBytes(fd.Name, fontFileStyle(fd), bs)
	return e.pdf.Error()
}

func fontFileStyle(fd font.Descriptor) string {
	switch fd.Style {
	case font.Bold:
		return "B"
	case font.Italic:
		return "I"
	case font.BoldItalic:
		return "BI"
	}
	return ""
}

'''))
# hyphenation
q('C11','hyphenate in steps',(HY,cut(HY,'	rs := []rune("."','	//weights count runes'),'''	ws := h.weights([]rune("." + strings.ToLower(s) + "."))

'''),(HY,cut(HY,'	offs := make([]int, 0','	sl := []string{}'),'''	offs := runeOffsets(s)

'''),(HY,'func (h *Hyphenator) Hyphenate','''func runeOffsets(s string) []int {
	var offs []int
	for i := range s {
		offs = append(offs, i)
	}
	return append(offs, len(s))
}

// weights are the maximal weights of all patterns in a word
func (h *Hyphenator) weights(rs []rune) []int {
	ws := make([]int, len(rs)+1)
	for n := 1; n <= len(rs); n++ {
		for i := 0; i+n <= len(rs); i++ {
			p, ok := h.lookup.find(string(rs[i : i+n]))
			if !ok {
				continue
			}
			for iw, w := range p.Weights {
				if ws[i+iw] < w {
					ws[i+iw] = w
				}
			}
		}
	}
	return ws
}

func (h *Hyphenator) Hyphenate'''))
q('C11','not hyphenated helper',(HY,cut(HY,'	if len(s) < 3 {','	rs := []rune('),'''	if !hyphenable(s) {
		return []string{s}
	}
'''),(HY,'func (h *Hyphenator) Hyphenate','''func hyphenable(s string) bool {
	return len(s) >= 3 && len(s) <= 100 && !strings.Contains(s, " ")
}

func (h *Hyphenator) Hyphenate'''))
q('C11','positions start after two',(HY,cut(HY,'	for i, w := range ws[2','	//the rest belongs'),'''	for i := 2; i < len(ws)-2; i++ {
		cut := i - 1
		if ws[i]%2 == 0 || cut-last < 2 {
			continue
		}
		sl = append(sl, s[offs[last]:offs[cut]])
		last = cut
	}
'''))
# text
q('C23','normalised in steps',(TT,cut(TT,'	rs := s\n	rs = strings.ReplaceAll(rs, "\\r"','\treturn rs\n}\n')if False else '''	rs = strings.ReplaceAll(rs, " \\\\", "\\\\")
	rs = strings.ReplaceAll(rs, "\\\\ ", "\\\\")
	return rs''','''	return joinParts(rs)'''),(TT,'func WhitespaceRectified','''func joinParts(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, " \\\\", "\\\\"), "\\\\ ", "\\\\")
}

func WhitespaceRectified'''))
q('C24 C23','twins removed recursively bounded',(TT,cut(TT,'	rem := strings.Repeat(twin, 2)','func WhitespaceRectified'),'''	two := twin + twin
	for {
		shorter := strings.ReplaceAll(s, two, twin)
		if shorter == s {
			break
		}
		s = shorter
	}
	return s
}

'''))
