muts=[]
def src(f): return open('/repo/'+f).read()
def between(f,a,b):
    s=src(f); i=s.index(a); j=s.index(b,i); return s[i:j]
def q(name,checks,*eds): muts.append((checks,"Q",name,list(eds)))
SC="style/class.go"; SD="style/decode.go"; CO="style/color.go"; EN="engine/fpdf.go"; XT="xdoc/table.go"; XG="xdoc/grid.go"; XS="xdoc/style.go"; DR="draw.go"; DI="xdoc/diff.go"; PA="hyphenation/pattern.go"; TE="text/text.go"; FO="font/registry.go"; XD="xdoc/doc.go"; XI="xdoc/instructions.go"; GR="grid.go"

q("blocks cut from the rest of the style sheet","C03 C01 C14 C15 C25",
(SC,between(SC,"	cs := Classes{}\n	pos := 0\n","		mut, err := DecodeMutator"),'''	cs := Classes{}
	rest := s
	for {
		open := strings.IndexByte(rest, '{')
		if open < 0 {
			if tail := trimWS(rest); tail != "" {
				return nil, errors.Errorf("non matching brace or missing declarations in (%s)", tail)
			}
			return cs, nil
		}
		name := trimWS(rest[:open])
		switch {
		case name == "":
			return nil, errors.Errorf("style class without name")
		case strings.ContainsRune(name, '}'):
			return nil, errors.Errorf("non matching brace in (%s)", name)
		}
		body := rest[open+1:]
		end := strings.IndexByte(body, '}')
		if end < 0 {
			return nil, errors.Errorf("non matching brace")
		}
		rest = body[end+1:]
		body = body[:end]
		if strings.ContainsRune(body, '{') {
			return nil, errors.Errorf("non matching brace in class (%s)", name)
		}
'''),
(SC,"bytes.NewBufferString(curr[i+1 : in])","bytes.NewBufferString(body)"),
(SC,"		pos += in + 1\n",""))

q("class added by a method","C03 C01 C15",
(SC,between(SC,"		className := name\n","		pos += in + 1\n"),'''		if err := cs.define(name, mut); err != nil {
			return nil, err
		}
'''),
(SC,"func DecodeClasses(",'''func (cs Classes) define(name string, mut *Mutator) error {
	i := strings.Index(name, ":")
	if i < 0 {
		cs[name] = Class{Name: name, mutator: mut, Selectors: map[string]Selector{}}
		return nil
	}
	base, sel := name[:i], name[i+1:]
	cl, ok := cs[base]
	if !ok {
		return errors.Errorf("no base class for (%s:%s)", base, sel)
	}
	cl.Selectors[sel] = Selector{Name: sel, mutator: mut}
	fmt.Printf("added selector (%s) to class (%s) \\n", sel, base)
	return nil
}

func DecodeClasses('''))

q("declarations by a helper","C03 C15 C14",
(SD,'''		styleStr = trimWS(styleStr)
		if len(styleStr) == 0 {
			continue
		}
		styleKV := strings.Split(styleStr, ":")
		if len(styleKV) != 2 {
			return nil, errors.Errorf("invalid style syntax (%s) must be of (key:val)", styleStr)
		}
		raw[trimWS(styleKV[0])] = trimWS(styleKV[1])
''','''		if styleStr = trimWS(styleStr); styleStr == "" {
			continue
		}
		key, val, err := declaration(styleStr)
		if err != nil {
			return nil, err
		}
		raw[key] = val
'''),
(SD,"type Unmarshaler interface {",'''func declaration(s string) (key, val string, err error) {
	i := strings.IndexByte(s, ':')
	if i < 0 || strings.IndexByte(s[i+1:], ':') >= 0 {
		return "", "", errors.Errorf("invalid style syntax (%s) must be of (key:val)", s)
	}
	return trimWS(s[:i]), trimWS(s[i+1:]), nil
}

type Unmarshaler interface {'''))

q("setter by a helper","C03 C15 C14",
(SD,between(SD,"			var setValue func(reflect.Value)\n","			return func(s *Styles) {"),'''			setValue, err := setterFor(field.Type, key, val)
			if err != nil {
				return nil, false, err
			}

'''),
(SD,'''				rVal := reflect.ValueOf(s).Elem()
				for _, fIdx := range currIndexPath {
					rVal = rVal.Field(fIdx)
				}
				setValue(rVal)
''','''				setValue(reflect.ValueOf(s).Elem().FieldByIndex(currIndexPath))
'''),
(SD,"func makeSetValueFnc(",'''func setterFor(t reflect.Type, key, val string) (func(reflect.Value), error) {
	target := reflect.New(t)
	if um, ok := target.Interface().(Unmarshaler); ok {
		if err := um.UnmarshalStyle(val); err != nil {
			return nil, err
		}
		return func(rv reflect.Value) { rv.Set(target.Elem()) }, nil
	}
	set, err := makeSetValueFnc(t.Kind(), val)
	return set, errors.Wrapf(err, "make set value func (%s, %s)", key, val)
}

func makeSetValueFnc('''))

q("keys sorted by a helper","C03 C15 C14 C08",
(SD,'''	//sort keys, to report the same error each time
	keys := make([]string, 0, len(raw))
	for k := range raw {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	protoType := reflect.TypeOf(Styles{})
	for _, k := range keys {
		v := raw[k]
		fnc, found, err := makeMutateFnc(protoType, k, v, []int{})
		if err != nil {
			return nil, errors.Wrapf(err, "make-mutate-fnc (%s, %s)", k, v)
		}
		if !found {
			continue
		}
		m.fncs = append(m.fncs, fnc)
	}
	return m, nil
}
''','''	protoType := reflect.TypeOf(Styles{})
	for _, k := range sortedKeys(raw) {
		fnc, found, err := makeMutateFnc(protoType, k, raw[k], nil)
		switch {
		case err != nil:
			return nil, errors.Wrapf(err, "make-mutate-fnc (%s, %s)", k, raw[k])
		case found:
			m.fncs = append(m.fncs, fnc)
		}
	}
	return m, nil
}

//sortedKeys sorts keys, to report the same error each time
func sortedKeys(m map[string]string) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}
'''))

q("channels by a helper","C03 C14",
(CO,'''	c.R = int(uint(n >> 16))
	c.G = int(uint8(n >> 8))
	c.B = int(uint8(n))
	return nil
''','''	*c = makeRGB(channel(n, 2), channel(n, 1), channel(n, 0))
	return nil
'''),
(CO,'''	if strings.HasPrefix(s, "#") {
		s = s[1:]
	}
''','''	s = strings.TrimPrefix(s, "#")
'''),
(CO,"func (c *RGB) UnmarshalStyle",'''func channel(n uint64, i uint) int {
	return int(n >> (8 * i) & 0xff)
}

func (c *RGB) UnmarshalStyle'''))

q("styles mutated in one place","C01 C08 C09 C10",
(XS,'''	ms := styles
	cs.Mutate(&ms, i.Classes...)
	for _, mut := range i.Mutators {
		mut.Mutate(&ms)
	}
	return ms
}

func (i *Styled) MutatedStylesWithSelector(''','''	cs.Mutate(&styles, i.Classes...)
	i.mutate(&styles)
	return styles
}

func (i *Styled) mutate(styles *style.Styles) {
	for n := range i.Mutators {
		i.Mutators[n].Mutate(styles)
	}
}

func (i *Styled) MutatedStylesWithSelector('''),
(XS,'''	ms := styles
	cs.MutateWithSelector(sel, &ms, i.Classes...)
	for _, mut := range i.Mutators {
		mut.Mutate(&ms)
	}
	return ms
''','''	cs.MutateWithSelector(sel, &styles, i.Classes...)
	i.mutate(&styles)
	return styles
'''))

q("children by a helper with a callback","C05 C06 C03 C25",
(XT,between(XT,'''func (tab *Table) UnmarshalXML(''','''func (cell *TableCell) UnmarshalXML('''),'''// children decodes the elements up to the end of start.
func children(d *xml.Decoder, start xml.StartElement, add func(Instruction)) error {
	for {
		token, err := d.Token()
		if err != nil {
			return err
		}
		switch t := token.(type) {
		case xml.EndElement:
			if t == start.End() {
				return nil
			}
		case xml.StartElement:
			i, err := registry.DecodeInstruction(d, t)
			if err != nil {
				return err
			}
			add(i)
		}
	}
}

func (tab *Table) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	return children(d, start, func(i Instruction) {
		if row, ok := i.(*TableRow); ok {
			tab.Rows = append(tab.Rows, row)
		}
	})
}

func (row *TableRow) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	return children(d, start, func(i Instruction) {
		if cell, ok := i.(*TableCell); ok {
			row.Cells = append(row.Cells, cell)
		}
	})
}

'''))

q("text added by a method","C05 C06 C28 C03",
(XI,'''			v := string(t)
			if v != "" {
				is.ISS = append(is.ISS, &TextBlock{
					Text: string(t),
				})
			}
''','''			is.addText(t)
'''),
(XI,"type Font struct {",'''func (is *Instructions) addText(data xml.CharData) {
	if len(data) == 0 {
		return
	}
	is.ISS = append(is.ISS, &TextBlock{Text: string(data)})
}

type Font struct {'''),
(XT,'''			v := string(t)
			if v != "" {
				cell.Instructions.ISS = append(cell.Instructions.ISS, &TextBlock{
					Text: string(t),
				})
			}
''','''			cell.addText(t)
'''))

q("span attributes by a helper","C03 C07 C06 C05",
(XT,'''		case "colspan":
			n, err := strconv.ParseInt(a.Value, 10, 64)
			if err != nil {
				return err
			}
			c.ColSpan = int(n)
		case "rowspan":
			n, err := strconv.ParseInt(a.Value, 10, 64)
			if err != nil {
				return err
			}
			c.RowSpan = int(n)
		}
''','''		case "colspan":
			if err := parseSpan(a.Value, &c.ColSpan); err != nil {
				return err
			}
		case "rowspan":
			if err := parseSpan(a.Value, &c.RowSpan); err != nil {
				return err
			}
		}
'''),
(XT,"func (c *TableCell) DecodeAttrs(",'''func parseSpan(s string, span *int) error {
	n, err := strconv.ParseInt(s, 10, 64)
	if err == nil {
		*span = int(n)
	}
	return err
}

func (c *TableCell) DecodeAttrs('''))

q("areas in a set type","C03 C27 C05",
(XG,between(XG,"	ac := len(g.Rows[0].Areas)\n","func (g *Grid) UnmarshalXML"),'''	defined := make(map[string]struct{})
	for i, r := range g.Rows {
		if i > 0 && len(r.Areas) != len(g.Rows[0].Areas) {
			return errors.Errorf("grid rows must have same size all")
		}
		for _, a := range r.Areas {
			defined[a] = struct{}{}
		}
	}
	for _, p := range g.Parts {
		if _, ok := defined[p.Area]; ok {
			continue
		}
		return errors.Errorf("no definition for area %q", p.Area)
	}
	return nil
}

'''))

q("border edges by a helper","C17 C18 C16 C05",
(DR,between(DR,"	p.engine.MoveTo(x0-halfLine, y0)\n","	p.engine.DrawPath()"),'''	p.engine.MoveTo(x0-halfLine, y0)
	p.edge(sty.Box.Border.Top > 0, x1, y0)
	p.edge(sty.Box.Border.Right > 0, x1, y1)
	p.edge(sty.Box.Border.Bottom > 0, x0, y1)
	p.edge(sty.Box.Border.Left > 0, x0, y0)
'''),
(DR,"func (p *Processor) drawBox(",'''func (p *Processor) edge(visible bool, x, y float64) {
	to := p.engine.MoveTo
	if visible {
		to = p.engine.LineTo
	}
	to(x, y)
}

func (p *Processor) drawBox('''))

q("diff of maps by a helper","C06 C09 C08",
(DI,between(DI,"	diffs := []Diff{}\n	switch org","	return diffs, nil\n}"),'''	orgMSI, ok := org.(map[string]interface{})
	if !ok {
		if org == mod {
			return []Diff{}, nil
		}
		return []Diff{{Path: path, Org: org, Mod: mod}}, nil
	}
	diffs := []Diff{}
	//sort keys, to have the same order of diffs each time
	keys := make([]string, 0, len(orgMSI))
	for key := range orgMSI {
		keys = append(keys, key)
	}
	sort.Strings(keys)
	for _, key := range keys {
		modMSI, ok := mod.(map[string]interface{})
		if !ok {
			return nil, errors.Errorf("%s: org value is map-string-iface. mod is %T", path, mod)
		}
		modVal, ok := modMSI[key]
		if !ok {
			return nil, errors.Errorf("%s (MSI): key %s does not exist in modified MSI", path, key)
		}
		sub, err := interfaceDiff(path+":"+key, orgMSI[key], modVal)
		if err != nil {
			return nil, errors.Wrap(err, "interface diff")
		}
		diffs = append(diffs, sub...)
	}
'''))

q("weights by a helper in the pattern","C11 C14 C03",
(PA,between(PA,"	p := pattern{}\n	wantDigit := true","	if len(p.Letters)+1 != len"),'''	p := pattern{}
	wantDigit := true
	for _, r := range s {
		if wantDigit && unicode.IsDigit(r) {
			w, err := strconv.ParseInt(string(r), 10, 8)
			if err != nil {
				return p, errors.Wrap(err, "while expecting digit")
			}
			p.Weights = append(p.Weights, int(w))
			wantDigit = false
			continue
		}
		if wantDigit {
			p.Weights = append(p.Weights, 0)
		}
		p.Letters = append(p.Letters, r)
		wantDigit = true
	}
	if wantDigit {
		p.Weights = append(p.Weights, 0)
	}
'''))

q("blanks by a replacer-like loop","C23 C10 C17",
(TE,between(TE,'	rs := s\n	rs = strings.ReplaceAll(rs, "\\r"','	rs = strings.ReplaceAll(rs, " \\\\"'),'''	for _, blank := range []string{"\\r", "\\n", "\\t"} {
		s = strings.ReplaceAll(s, blank, " ")
	}
	rs := RemoveTwins(strings.Trim(s, " "), " ")
'''))

q("twins while contained","C23 C10",
(TE,'''	rem := strings.Repeat(twin, 2)
	rs := s
	for {
		rs = strings.ReplaceAll(s, rem, twin)
		if rs == s {
			return rs
		}
		s = rs
	}
''','''	double := twin + twin
	for last := ""; last != s; {
		last, s = s, strings.ReplaceAll(s, double, twin)
	}
	return s
'''))

q("font style by flags","C02 C16 C03",
(EN,'''	s := ""
	switch fnt.Style {
	case style.FontStyleItalic:
		s += "I"
	}
	switch fnt.Weight {
	case style.FontWeightBold:
		s += "B"
	}
	switch fnt.Decoration {
	case style.FontDecorationUnderline:
		s += "U"
	}
	return s
''','''	flags := []struct {
		set  bool
		flag string
	}{
		{fnt.Style == style.FontStyleItalic, "I"},
		{fnt.Weight == style.FontWeightBold, "B"},
		{fnt.Decoration == style.FontDecorationUnderline, "U"},
	}
	var s string
	for _, f := range flags {
		if f.set {
			s += f.flag
		}
	}
	return s
'''))

q("font size by a helper","C16 C26 C02",
(EN,'''	_, heightMM := e.pdf.GetFontSize()
	e.pdf.Ln(heightMM * lines)
''','''	e.pdf.Ln(e.FontHeight() * lines)
'''),
(EN,'''	_, heightMM := e.pdf.GetFontSize()
	e.pdf.Write(heightMM, e.translateUnicode(s))
''','''	e.pdf.Write(e.FontHeight(), e.translateUnicode(s))
'''))

q("cell of the grid by helpers","C05 C27 C25",
(GR,'''			b, ok := boxes[a]
			if !ok {
				b = &gridBox{
					area: a,
				}
				boxes[a] = b
			}
			err := b.add(ir, ia)
			if err != nil {
				log.Errorf("render-grid: %v", err)
				return
			}
''','''			if boxes[a] == nil {
				boxes[a] = &gridBox{area: a}
			}
			if err := boxes[a].add(ir, ia); err != nil {
				log.Errorf("render-grid: %v", err)
				return
			}
'''))

q("font added by a method","C04 C13 C24",
(EN,between(EN,"	return fonts.Each(func(fd font.Descriptor) error {","func (e *FPDF) Error() error"),'''	return fonts.Each(e.addFont)
}

func (e *FPDF) addFont(fd font.Descriptor) error {
	bs, err := ioutil.ReadFile(fd.FilePath)
	if err != nil {
		return errors.Wrapf(err, "read file %q", fd.FilePath)
	}
	e.pdf.AddUTF8FontFromBytes(fd.Name, fontStyles[fd.Style], bs)
	return e.pdf.Error()
}

var fontStyles = map[font.Style]string{
	font.Bold:       "B",
	font.Italic:     "I",
	font.BoldItalic: "BI",
}

'''))
