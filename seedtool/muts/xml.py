A="C27"
R="xdoc/registry.go"; I="xdoc/instructions.go"; D="xdoc/doc.go"; T="xdoc/table.go"; G="xdoc/grid.go"; S="xdoc/style.go"
def ch(f,old,new): return [(f,old,new)]
APP='''			is.ISS = append(is.ISS, i)
'''
CH='''			v := string(t)
			if v != "" {
				is.ISS = append(is.ISS, &TextBlock{
					Text: string(t),
				})
			}
'''
REP='''			t.RepeatHeader = int(n)
		}
	}
	return t.Styled.DecodeAttrs(attrs)
'''
muts=[
(A,"V","setx tag",ch(I,'xml:"setx"','xml:"setX"')),
(A,"V","br/newpage swapped",[(I,'xml:"br"','xml:"tmp"'),(I,'xml:"newpage"','xml:"br"'),(I,'xml:"tmp"','xml:"newpage"')]),
(A,"V","same name",ch(I,'xml:"sety"','xml:"setx"')),
(A,"V","no grid",ch(R,"	registry.RegisterInstruction(&Grid{})\n","")),
(A,"V","no newpage",ch(R,"	registry.RegisterInstruction(&PageBreak{})\n","")),
(A,"V","twice",ch(R,"	registry.RegisterInstruction(&SetY{})\n","	registry.RegisterInstruction(&SetX{})\n")),
(A,"V","conditional",ch(R,"	registry.RegisterInstruction(&Image{})\n","	if len(registry.instructions) > 6 {\n		registry.RegisterInstruction(&Image{})\n	}\n")),
(A,"V","tag json",ch(R,'Tag.Get("xml")','Tag.Get("json")')),
(A,"V","lookup space",ch(R,"proto, contains := r.instructions[start.Name.Local]","proto, contains := r.instructions[start.Name.Space]")),
(A,"V","shared",ch(R,'''	pointerToI := reflect.New(reflect.TypeOf(proto))
	err := d.DecodeElement(pointerToI.Interface(), &start)
	if err != nil {
		return nil, err
	}

	inst := pointerToI.Elem().Interface().(Instruction)
	err = inst''','''	inst := proto
	if reflect.TypeOf(proto) == nil {
		return nil, errors.New("no prototype")
	}
	err := d.DecodeElement(proto, &start)
	if err != nil {
		return nil, err
	}
	err = inst''')),
(A,"V","proto returned",ch(R,"	return inst, nil","	return proto, nil")),
(A,"V","no attrs",ch(R,'''	err = inst.DecodeAttrs(start.Attr)
	if err != nil {
		return nil, err
	}
	return inst''','''	return inst''')),
(A,"V","attrs only if two",ch(R,'''	err = inst.DecodeAttrs(start.Attr)
	if err != nil {
		return nil, err
	}
''','''	if len(start.Attr) > 1 {
		err = inst.DecodeAttrs(start.Attr)
		if err != nil {
			return nil, err
		}
	}
''')),
(A,"V","first attr only",ch(R,"inst.DecodeAttrs(start.Attr)","inst.DecodeAttrs(start.Attr[:1])")),
(A,"V","prepend",ch(I,APP,"			is.ISS = append([]Instruction{i}, is.ISS...)\n")),
(A,"V","overwritten",ch(I,APP,"			is.ISS = []Instruction{i}\n")),
(A,"V","text dropped",ch(I,CH,"			_ = t\n")),
(A,"V","text trimmed",[(I,"Text: string(t)","Text: strings.TrimSpace(string(t))"),(I,'	"encoding/xml"\n','	"encoding/xml"\n	"strings"\n')]),
(A,"V","blank text dropped",[(I,'if v != "" {','if strings.TrimSpace(v) != "" {'),(I,'	"encoding/xml"\n','	"encoding/xml"\n	"strings"\n')]),
(A,"V","short text dropped",ch(I,'if v != "" {','if len(v) > 1 {')),
(A,"V","leading text dropped",ch(I,'if v != "" {','if v != "" && len(is.ISS) > 0 {')),
(A,"V","text replaces",ch(I,CH,CH.replace("append(is.ISS, &","append(is.ISS[:0], &"))),
(A,"V","any end ends",ch(I,"			if t == start.End() {\n				return nil\n			}\n","			_ = t\n			return nil\n")),
(A,"V","any end in cell",ch(T,"cell *TableCell) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {\n	for {\n		token, err := d.Token()\n		if err != nil {\n			return err\n		}\n		switch t := token.(type) {\n		case xml.EndElement:\n			if t == start.End() {\n				return nil\n			}\n","cell *TableCell) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {\n	for {\n		token, err := d.Token()\n		if err != nil {\n			return err\n		}\n		switch t := token.(type) {\n		case xml.EndElement:\n			return nil\n")),
(A,"V","unregistered ends cell",ch(T,"			if !registry.IsRegistered(t) {\n				continue\n			}\n			i, err := registry.DecodeInstruction(d, t)\n			if err != nil {\n				return err\n			}\n			cell","			i, err := registry.DecodeInstruction(d, t)\n			if err != nil {\n				return err\n			}\n			if len(cell.ISS) > 7 {\n				return nil\n			}\n			cell")),
(A,"V","row once",ch(T,"				tab.Rows = append(tab.Rows, i)","				if len(tab.Rows) == 0 || len(i.Cells) > 0 {\n					tab.Rows = append(tab.Rows, i)\n				}")),
(A,"V","cells replaced",ch(T,"row.Cells = append(row.Cells, i)","row.Cells = []*TableCell{i}")),
(A,"V","comment ends",ch(T,'''		case xml.CharData:
			v := string(t)''','''		case xml.Comment:
			return nil
		case xml.CharData:
			v := string(t)''')),
(A,"V","grid part lost",ch(G,"			case *GridPart:\n				g.Parts = append(g.Parts, i)\n","")),
(A,"V","grid rows end",ch(G,"				g.Rows = append(g.Rows, i)","				g.Rows = append(g.Rows, i)\n				if len(g.Rows) == 100 {\n					return nil\n				}")),
(A,"V","areas sep",ch(G,'strings.Split(string(t), " ")','strings.Split(string(t), ",")')),
(A,"V","area lost",ch(G,"			p.Area = a.Value\n","			_ = a.Value\n")),
(A,"V","area attr name",ch(G,'case "area":','case "name":')),
(A,"V","part decode attrs missing",ch(G,"	return p.Styled.DecodeAttrs(attrs)","	return nil")),
(A,"V","part decode attrs early",ch(G,"			p.Area = a.Value\n","			p.Area = a.Value\n			return nil\n")),
(A,"V","table styles lost",ch(T,"	return t.Styled.DecodeAttrs(attrs)","	return nil")),
(A,"V","table styles only without rh",ch(T,REP,'''			t.RepeatHeader = int(n)
			return nil
		}
	}
	return t.Styled.DecodeAttrs(attrs)
''')),
(A,"V","break",ch(T,REP,REP.replace("		}\n	}\n","		}\n		break\n	}\n",1))),
(A,"V","colspan into rowspan",ch(T,"c.ColSpan = int(n)","c.RowSpan = int(n)")),
(A,"V","both spans",ch(T,"c.RowSpan = int(n)","c.RowSpan = int(n)\n			c.ColSpan = int(n)")),
(A,"V","span hex",ch(T,'''			n, err := strconv.ParseInt(a.Value, 10, 64)
			if err != nil {
				return err
			}
			c.ColSpan''','''			n, err := strconv.ParseInt(a.Value, 16, 64)
			if err != nil {
				return err
			}
			c.ColSpan''')),
(A,"V","span plus one",ch(T,"c.ColSpan = int(n)","c.ColSpan = int(n) + 1")),
(A,"V","repeatheader case",ch(T,'case "repeatheader":','case "repeatHeader":')),
(A,"V","cell inner styles",ch(T,"	return c.Styled.DecodeAttrs(attrs)","	return c.Instructions.DecodeAttrs(attrs)")),
(A,"V","lines tag",ch(I,'xml:"lines,attr"','xml:"line,attr"')),
(A,"V","lines element",ch(I,'xml:"lines,attr"','xml:"lines"')),
(A,"V","x int",[(I,'X       float64  `xml:"x,attr"`','X       int  `xml:"x,attr"`'),("process.go","p.engine.SetX(i.X)","p.engine.SetX(float64(i.X))")] ),
(A,"V","image innerxml",ch(I,'Source  string   `xml:",chardata"`','Source  string   `xml:",innerxml"`')),
(A,"V","p text no tag",ch(I,'Text    string   `xml:",chardata"`\n}\n\ntype LineBreak','Text    string\n}\n\ntype LineBreak')),
(A,"V","font nostyles",ch(I,"type Font struct {\n	Styled","type Font struct {\n	NoStyles")),
(A,"V","doc header tag",ch(D,'Header       Instructions `xml:"header"`','Header       Instructions `xml:"Header"`')),
(A,"V","header footer tags",[(D,'`xml:"header"`','`xml:"tmp"`'),(D,'`xml:"footer"`','`xml:"header"`'),(D,'`xml:"tmp"`','`xml:"footer"`')]),
(A,"V","subject attr",ch(D,'xml:"subject"','xml:"subject,attr"')),
(A,"V","margins top left",[(D,'xml:"left"','xml:"tmp"'),(D,'xml:"top"','xml:"left"'),(D,'xml:"tmp"','xml:"top"')]),
(A,"V","margin int",[(D,'Bottom  float64','Bottom  int'),("engine/fpdf.go","doc.Page.Margins.Bottom","float64(doc.Page.Margins.Bottom)")]),
(A,"V","format typo",ch(D,'xml:"format"','xml:"paper"')),
(A,"V","no stylesheet",ch(D,'''	doc.styleClasses, err = style.DecodeClasses(bytes.NewBufferString(doc.Style))
''','''	_, err = style.DecodeClasses(bytes.NewBufferString(doc.Style))
''')),
(A,"V","class first only",[(S,"			i.Classes = append(i.Classes, strings.Fields(a.Value)...)","			i.Classes = append(i.Classes, strings.Fields(a.Value)...)\n			break")] ),
(A,"V","style or class",[(S,"			i.Mutators = append(i.Mutators, mut)","			i.Mutators = append(i.Mutators, mut)\n			return nil")]),
# quiet
(A,"Q","loop registration",[(R,"	registry.RegisterInstruction(&Paragraph{})\n	registry.RegisterInstruction(&LineBreak{})\n	registry.RegisterInstruction(&PageBreak{})\n","	for _, i := range []Instruction{&Paragraph{}, &LineBreak{}, &PageBreak{}} {\n		registry.RegisterInstruction(i)\n	}\n")]),
(A,"Q","all by loop",[(R,x,"") for x in ["	registry.RegisterInstruction(&%s{})\n"%k for k in "Font Box Text LineFeed SetX SetY Image Table TableRow TableCell Grid GridRow GridPart Paragraph LineBreak".split()]]+[(R,"	registry.RegisterInstruction(&PageBreak{})\n","	for _, i := range prototypes {\n		registry.RegisterInstruction(i)\n	}\n"),(R,"","\nvar prototypes = []Instruction{"+", ".join("&%s{}"%k for k in "Font Box Text LineFeed SetX SetY Image Table TableRow TableCell Grid GridRow GridPart Paragraph LineBreak PageBreak".split())+"}\n")]),
(A,"Q","new elem",ch(R,'''	pointerToI := reflect.New(reflect.TypeOf(proto))
	err := d.DecodeElement(pointerToI.Interface(), &start)
	if err != nil {
		return nil, err
	}

	inst := pointerToI.Elem().Interface().(Instruction)
	err = inst''','''	inst := reflect.New(reflect.TypeOf(proto).Elem()).Interface().(Instruction)
	err := d.DecodeElement(inst, &start)
	if err != nil {
		return nil, err
	}
	err = inst''')),
(A,"Q","return DecodeAttrs",ch(R,'''	err = inst.DecodeAttrs(start.Attr)
	if err != nil {
		return nil, err
	}
	return inst, nil''','''	if err := inst.DecodeAttrs(start.Attr); err != nil {
		return nil, err
	}
	return inst, nil''')),
(A,"Q","add helper",[(I,APP,"			is.add(i)\n"),(I,CH,'''			if len(t) > 0 {
				is.add(&TextBlock{Text: string(t)})
			}
'''),(I,"","\nfunc (is *Instructions) add(i Instruction) {\n	is.ISS = append(is.ISS, i)\n}\n")]),
(A,"Q","text always",ch(I,CH,"			is.ISS = append(is.ISS, &TextBlock{Text: string(t)})\n")),
(A,"Q","if chain",[(T,'''		switch a.Name.Local {
		case "repeatheader":
			n, err''','''		if a.Name.Local == "repeatheader" {
			n, err''')]),
(A,"Q","span helper",[(T,'''			n, err := strconv.ParseInt(a.Value, 10, 64)
			if err != nil {
				return err
			}
			c.ColSpan = int(n)
''','''			n, err := span(a)
			if err != nil {
				return err
			}
			c.ColSpan = n
'''),(T,"","\nfunc span(a xml.Attr) (int, error) {\n	n, err := strconv.ParseInt(a.Value, 10, 64)\n	return int(n), err\n}\n")]),
(A,"Q","atoi",ch(T,'''			n, err := strconv.ParseInt(a.Value, 10, 64)
			if err != nil {
				return err
			}
			c.ColSpan = int(n)
''','''			n, err := strconv.Atoi(a.Value)
			if err != nil {
				return err
			}
			c.ColSpan = n
''')),
(A,"Q","styles first",ch(G,'''	for _, a := range attrs {
		switch a.Name.Local {
		case "area":
			p.Area = a.Value
		}
	}
	return p.Styled.DecodeAttrs(attrs)
''','''	if err := p.Styled.DecodeAttrs(attrs); err != nil {
		return err
	}
	for i := range attrs {
		if attrs[i].Name.Local == "area" {
			p.Area = attrs[i].Value
		}
	}
	return nil
''')),
(A,"Q","attr helper",[(G,'''	for _, a := range attrs {
		switch a.Name.Local {
		case "area":
			p.Area = a.Value
		}
	}
''','''	p.Area = attr(attrs, "area", p.Area)
'''),(G,"",'''
func attr(attrs []xml.Attr, name, old string) string {
	for _, a := range attrs {
		if a.Name.Local == name {
			return a.Value
		}
	}
	return old
}
''')]),
(A,"Q","names compared",ch(I,"if t == start.End() {","if t.Name == start.Name {")),
(A,"Q","continue style",ch(I,'''		case xml.EndElement:
			if t == start.End() {
				return nil
			}
''','''		case xml.EndElement:
			if t != start.End() {
				continue
			}
			return nil
''')),
(A,"Q","token helper",[(T,'''			switch i := i.(type) {
			case *TableRow:
				tab.Rows = append(tab.Rows, i)
			}
''','''			if row, ok := i.(*TableRow); ok {
				tab.Rows = append(tab.Rows, row)
			}
''')]),
(A,"Q","children func",[(T,'''func (tab *Table) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	for {
		token, err := d.Token()
		if err != nil {
			return err
		}
		switch t := token.(type) {
		case xml.EndElement:
			if t == start.End() {
				return nil
			}
		case xml.StartElement:
			i, err := registry.DecodeInstruction(d, t)
			if err != nil {
				return err
			}
			switch i := i.(type) {
			case *TableRow:
				tab.Rows = append(tab.Rows, i)
			}
		}
	}
}
''','''func (tab *Table) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	return eachChild(d, start, func(i Instruction) {
		if row, ok := i.(*TableRow); ok {
			tab.Rows = append(tab.Rows, row)
		}
	})
}

func eachChild(d *xml.Decoder, start xml.StartElement, f func(Instruction)) error {
	for {
		token, err := d.Token()
		if err != nil {
			return err
		}
		switch t := token.(type) {
		case xml.EndElement:
			if t == start.End() {
				return nil
			}
		case xml.StartElement:
			i, err := registry.DecodeInstruction(d, t)
			if err != nil {
				return err
			}
			f(i)
		}
	}
}
''')]),
(A,"Q","cdata",ch(I,'Source  string   `xml:",chardata"`','Source  string   `xml:",cdata"`')),
(A,"Q","load helper",[(D,'''	doc.styleClasses, err = style.DecodeClasses(bytes.NewBufferString(doc.Style))
	if err != nil {
		return nil, err
	}
	return doc, nil
''','''	classes, err := style.DecodeClasses(strings.NewReader(doc.Style))
	if err != nil {
		return nil, err
	}
	doc.styleClasses = classes
	return doc, nil
'''),(D,'	"bytes"\n',''),(D,'	"os"\n','	"os"\n	"strings"\n')]),
]
