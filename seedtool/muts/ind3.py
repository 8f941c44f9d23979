muts=[]
def v(ids,what,*edits): muts.append((ids,"V",what,list(edits)))
def q(ids,what,*edits): muts.append((ids,"Q",what,list(edits)))
P,TX,TH,TB,IM,GR,DR,DI='process.go','text.go','text-hyph.go','table.go','image.go','grid.go','draw.go','dim.go'
F='engine/fpdf.go'; CL='style/class.go'; DE='style/decode.go'; RG='style/color.go'; BX='style/box.go'
XS,XT,XG,XI,XR,XD,XF='xdoc/style.go','xdoc/table.go','xdoc/grid.go','xdoc/instructions.go','xdoc/registry.go','xdoc/describe.go','xdoc/diff.go'
DO='xdoc/doc.go'; HY='hyphenation/hyphenation.go'; PA='hyphenation/pattern.go'; TT='text/text.go'
# C01
v('C01','classes of paragraph dropped in text with classes',(XS,'''	ms := styles
	cs.Mutate(&ms, i.Classes...)
''','''	ms := styles
	if len(i.Mutators) == 0 || len(i.Classes) < 2 {
		cs.Mutate(&ms, i.Classes...)
	} else {
		cs.Mutate(&ms, i.Classes[:1]...)
	}
'''))
v('C01','row selector decided by table class',(TB,'''rowSty = xrow.MutatedStylesWithSelector("last-row", p.doc.StyleClasses(), tab.Styles)''','''rowSty = xtab.MutatedStylesWithSelector("last-row", p.doc.StyleClasses(), tab.Styles)'''))
v('C01','cell styles from the table',(TB,'''cellSty = xcell.MutatedStyles(p.doc.StyleClasses(), row.Styles)''','''cellSty = xcell.MutatedStyles(p.doc.StyleClasses(), tab.Styles)'''))
v('C01','classes separated by comma',(XS,'strings.Fields(a.Value)','strings.FieldsFunc(a.Value, func(r rune) bool { return r == \',\' })'))
v('C01','mutators in reverse for selector',(XS,'''	cs.MutateWithSelector(sel, &ms, i.Classes...)
	for _, mut := range i.Mutators {
		mut.Mutate(&ms)
	}
''','''	for _, mut := range i.Mutators {
		mut.Mutate(&ms)
	}
	cs.MutateWithSelector(sel, &ms, i.Classes...)
'''))
v('C01','single cell row is last',(TB,'''			case ic == 0:
''','''			case ic == 0 && len(xrow.Cells) > 1:
'''))
v('C01','box paragraph without box styles',(P,'''	if len(box.ISS) > 0 {
		p.writeTextFnc(sty)(box.ISS, width, sty)
	}
''','''	if len(box.ISS) > 0 {
		in := p.currStyles
		in.HAlign, in.LineSpacing, in.Text = sty.HAlign, sty.LineSpacing, sty.Text
		p.writeTextFnc(sty)(box.ISS, width, in)
	}
'''))
# C02
v('C02','table font stays after header repeat',(TB,'''	defer p.resetStyles()
	tab := p.transformTable(xtab)
	if tab.columnCount == 0 {
		return
	}
''','''	tab := p.transformTable(xtab)
	if tab.columnCount == 0 {
		return
	}
	if xtab.RepeatHeader == 0 {
		defer p.resetStyles()
	}
'''))
v('C02','reset only the font',(P,'''	p.engine.ChangeFont(p.currStyles.Font)
	p.engine.SetTextColor(p.currStyles.Text.R, p.currStyles.Text.G, p.currStyles.Text.B)
''','''	p.engine.ChangeFont(p.currStyles.Font)
	if p.currStyles.Text != (style.RGB{}) {
		p.engine.SetTextColor(p.currStyles.Text.R, p.currStyles.Text.G, p.currStyles.Text.B)
	}
'''))
v('C02','text reset before writing',(P,'''	defer p.resetStyles()
	sty := text.MutatedStyles(p.doc.StyleClasses(), p.currStyles)
	width := p.page()''','''	p.resetStyles()
	sty := text.MutatedStyles(p.doc.StyleClasses(), p.currStyles)
	width := p.page()'''))
v('C02','font sets line spacing',(P,'''			p.changeFont(i.MutatedStyles(p.doc.StyleClasses(), p.currStyles).Font)
''','''			fs := i.MutatedStyles(p.doc.StyleClasses(), p.currStyles)
			p.changeFont(fs.Font)
			p.currStyles.LineSpacing = fs.LineSpacing
'''))
v('C02','image keeps its styles',(IM,'''	sty := img.MutatedStyles(p.doc.StyleClasses(), p.currStyles)
	x, y''','''	p.currStyles = img.MutatedStyles(p.doc.StyleClasses(), p.currStyles)
	sty := p.currStyles
	x, y'''))
# C03
v('C03','only the first wrong value of several counts',(DE,'''		if err != nil {
			return nil, errors.Wrapf(err, "make-mutate-fnc (%s, %s)", k, v)
		}
''','''		if err != nil && len(m.fncs) == 0 {
			return nil, errors.Wrapf(err, "make-mutate-fnc (%s, %s)", k, v)
		} else if err != nil {
			continue
		}
'''))
v('C03','colour with alpha is cut',(RG,'''	if len(s) != 6 {
''','''	if len(s) == 8 {
		s = s[:6]
	}
	if len(s) != 6 {
'''))
v('C03','style errors of cells ignored',(XT,'''			c.RowSpan = int(n)
		}
	}
	return c.Styled.DecodeAttrs(attrs)
''','''			c.RowSpan = int(n)
		}
	}
	c.Styled.DecodeAttrs(attrs)
	return nil
'''))
v('C03','repeatheader negative is none',(XT,'} else if n < 0 || n > 10 {','} else if n < 0 {\n\t\t\t\tn = 0\n\t\t\t} else if n > 10 {'))
v('C03','selector before class creates it',(CL,'''				return nil, errors.Errorf("no base class for (%s:%s)", className, selName)
''','''				cs[className] = Class{Name: className, mutator: &Mutator{}, Selectors: map[string]Selector{selName: {Name: selName, mutator: mut}}}
'''))
v('C03','missing closing brace ends the sheet',(CL,'''			return nil, errors.Errorf("non matching brace")
''','''			in = len(curr) - i - 1
'''))
v('C03','unknown area of last part',(XG,'''	for _, p := range g.Parts {
		if _''','''	for i, p := range g.Parts {
		if i == len(g.Parts)-1 && len(g.Parts) > 1 {
			break
		}
		if _'''))
q('C03','pattern with two digits tolerated',(PA,'''	if len(p.Letters)+1 != len(p.Weights) {
''','''	if len(p.Letters) >= len(p.Weights) {
'''))
v('C03','float with comma',(DE,'''		f, err := strconv.ParseFloat(styleValue, 64)
''','''		f, err := strconv.ParseFloat(strings.Replace(styleValue, ",", ".", 1), 64)
'''))
v('C03','float unit suffix',(DE,'''		f, err := strconv.ParseFloat(styleValue, 64)
''','''		f, err := strconv.ParseFloat(strings.TrimSuffix(styleValue, "mm"), 64)
'''))
# C04
v('C04','image error is silent',(IM,'''		Logf("ERROR: describe image: %v", err)
		return
''','''		if !os.IsNotExist(err) {
			Logf("ERROR: describe image: %v", err)
		}
		return
'''))
v('C04','font data error after all',(F,'''		if e.pdf.Error() != nil {
			return e.pdf.Error()
		}
		return nil
''','''		if len(bs) == 0 {
			return e.pdf.Error()
		}
		return nil
'''))
v('C04','engine error replaced',(P,'''	err := p.engine.Error()
	if err != nil {
		return err
	}
''','''	err := p.engine.Error()
	if err == io.ErrShortWrite {
		return err
	}
'''))
v('C04','exit 0 after create error',('cmd/xpdf/main.go','''		fmt.Println("ERROR create output-file:", err)
		os.Exit(2)
''','''		fmt.Println("ERROR create output-file:", err)
		return
'''))
# C05
v('C05','lf rounded',(P,'p.engine.LineFeed(i.Lines)','p.engine.LineFeed(float64(int(i.Lines)))'))
v('C05','second break in a row skipped',(P,'''	for _, i := range is.ISS {
		switch i := i.(type) {
''','''	for n, i := range is.ISS {
		if n > 0 {
			if _, ok := is.ISS[n-1].(*xdoc.PageBreak); ok {
				if _, ok := i.(*xdoc.PageBreak); ok {
					continue
				}
			}
		}
		switch i := i.(type) {
'''))
v('C05','setx within the page only',(P,'''			p.engine.SetX(i.X)
''','''			if i.X <= p.engine.PageWidth() {
				p.engine.SetX(i.X)
			}
'''))
v('C05','text of one blank block skipped',(P,'''	if len(text.Instructions.ISS) == 0 {
		return
	}
''','''	if len(text.Instructions.ISS) < 2 {
		if _, ok := text.ISS[0].(*xdoc.LineBreak); ok || len(text.ISS) == 0 {
			return
		}
	}
'''))
v('C05','cell boxes only when text',(TB,'''	p.engine.SetX(paddedPa.x0)
	for _, is := range cell.iss {
''','''	p.engine.SetX(paddedPa.x0)
	for n, is := range cell.iss {
		if n > 7 {
			break
		}
'''))
# C06
v('C06','footer described from header if empty',(XD,'desc.describeInstructions(doc.Footer)...)','desc.describeInstructions(footerOf(doc))...)'),(XD,'func (desc *Description) describeMeta(','''func footerOf(doc *Document) Instructions {
	if len(doc.Footer.ISS) == 0 {
		return doc.Header
	}
	return doc.Footer
}

func (desc *Description) describeMeta('''))
v('C06','row diffs of first cell',(XD,'''		Name:       "table-row",
		StyleDiffs: desc.describeMutator(tr),
''','''		Name:       "table-row",
		StyleDiffs: desc.describeMutator(rowStyled(tr)),
'''),(XD,'func (desc *Description) describeMeta(','''func rowStyled(tr *TableRow) Instruction {
	if len(tr.Classes) == 0 && len(tr.Mutators) == 0 && len(tr.Cells) == 1 {
		return tr.Cells[0]
	}
	return tr
}

func (desc *Description) describeMeta('''))
v('C06','zero lines not described',(XD,'''			dis = append(dis, DescribeItem{
				Name:       "line-feed",
				Value:      is.Lines,
				StyleDiffs: desc.describeMutator(is),
			})
''','''			if is.Lines == 0 {
				continue
			}
			dis = append(dis, DescribeItem{
				Name:       "line-feed",
				Value:      is.Lines,
				StyleDiffs: desc.describeMutator(is),
			})
'''))
v('C06','margins swapped',(XD,'''			Name:  "top",
			Value: margins.Top,
''','''			Name:  "top",
			Value: margins.Bottom,
'''))
v('C06','only changed top level diffs',(XF,'''	default:
		if org != mod {
''','''	default:
		if _, num := org.(float64); num && org == 0.0 && mod == 1.0 {
			break
		}
		if org != mod {
'''))
v('C06','clearStr drops tabs and ends',(XD,'''	s = strings.ReplaceAll(s, "  ", "")
	return strings.Trim(s, " ")
''','''	s = strings.ReplaceAll(s, "  ", "")
	return strings.Trim(s, " .")
'''))
# C07
v('C07','mutators applied once',(XS,'''	ms := styles
	cs.Mutate(&ms, i.Classes...)
	for _, mut := range i.Mutators {
		mut.Mutate(&ms)
	}
	return ms
''','''	ms := styles
	cs.Mutate(&ms, i.Classes...)
	if len(i.Mutators) > 1 {
		for _, m := range i.Mutators[1:] {
			i.Mutators[0].Append(m)
		}
		i.Mutators = i.Mutators[:1]
	}
	for _, mut := range i.Mutators {
		mut.Mutate(&ms)
	}
	return ms
'''))
v('C07','image source resolved in place',(IM,'	imgSrc := p.resolveFile(img.Source)\n','	img.Source = p.resolveFile(img.Source)\n	imgSrc := img.Source\n'))
v('C07','missing class added on use',(CL,'''		if c, ok := cs[cn]; ok {
			c.Mutate(styles)
		}
''','''		c, ok := cs[cn]
		if !ok {
			c = Class{Name: cn, mutator: &Mutator{}}
			cs[cn] = c
		}
		c.Mutate(styles)
'''))
v('C07','classes sorted while describing',(XD,'''	sty := style.Styles{}
	mutsty :=''','''	if s, ok := ins.(*Paragraph); ok {
		for i := range s.Classes {
			s.Classes[i] = strings.ToLower(s.Classes[i])
		}
	}
	sty := style.Styles{}
	mutsty :='''))
# C08
v('C08','registry learns names',(XR,'''	_, contains := r.instructions[start.Name.Local]
	return contains
''','''	i, contains := r.instructions[start.Name.Local]
	r.instructions[start.Name.Local] = i
	return contains
'''))
v('C08','current document global',(P,'''	p := &Processor{
		engine:''','''	current = doc
	p := &Processor{
		engine:'''),(P,'func (p *Processor) resolveFile(','var current *xdoc.Document\n\nfunc (p *Processor) resolveFile('))
v('C08','text measured in background',(TH,'''	lines := p.textLinesHyphenated(iss, width, sty)
	lineHeight''','''	var lines []textLine
	done := make(chan bool)
	go func() {
		lines = p.textLinesHyphenated(iss, width, sty)
		close(done)
	}()
	<-done
	lineHeight'''))
# C09
v('C09','patterns iterated',(HY,'''			pattern, ok := h.lookup.find(string(sub))
			if !ok {
				continue
			}
''','''			var pattern pattern
			ok := false
			for k, p := range h.lookup.patterns {
				if strings.HasSuffix(k, string(sub)) {
					pattern, ok = p, true
					break
				}
			}
			if !ok {
				continue
			}
'''))
v('C09','areas of grid from map',(XG,'''	for _, p := range g.Parts {
		if _, ok := am[p.Area]; !ok {
			return errors.Errorf("no definition for area %q", p.Area)
		}
	}
''','''	for _, p := range g.Parts {
		if _, ok := am[p.Area]; !ok {
			for a := range am {
				return errors.Errorf("no definition for area %q (there is %q)", p.Area, a)
			}
			return errors.Errorf("no definition for area %q", p.Area)
		}
	}
'''))
v('C09','time limits the rounds',(HY,'''	for subSize := 1; subSize <= len(rs); subSize++ {
''','''	start := time.Now()
	for subSize := 1; subSize <= len(rs) && time.Since(start) < time.Second; subSize++ {
'''),(HY,'	"strings"\n','	"strings"\n	"time"\n'))
# C10
v('C10','last line only if wide',(TX,'''	if len(curr.items) > 0 {
		lines = append(lines, curr)
	}
	return lines''','''	if len(curr.items) > 0 && curr.width > 0.5 {
		lines = append(lines, curr)
	}
	return lines'''))
v('C10','item shared between lines',(TX,'''		words := p.words(isitem.text)
		for _, word := range words {
			item := &textItem{
				sty:  isitem.sty,
				text: word,
			}
''','''		words := p.words(isitem.text)
		item := &textItem{}
		for _, word := range words {
			item.sty = isitem.sty
			item.text = word
'''))
v('C10','hyphenated tail placed on same line',(TH,'''					lines = append(lines, curr)

					curr = textLine{}
					item.text = s2
''','''					lines = append(lines, curr)

					curr = textLine{items: curr.items[:0]}
					item.text = s2
'''))
v('C10','single words not drawn in block',(TH,'''		if spaceCnt < 1 || line.paragraph {
			for _, item := range line.items {
''','''		if spaceCnt < 1 || line.paragraph {
			for _, item := range line.items[:spaceCnt+1-len(line.items)/40] {
'''))
v('C10','word after break loses leading char',(TX,'''			if len(curr.items) > 0 {
				item.text = " " + item.text
			}
''','''			if len(curr.items) > 0 {
				item.text = " " + item.text
			} else if len(lines) > 0 && len(item.text) > 1 && item.text[0] == '-' {
				item.text = item.text[1:]
			}
'''))
v('C10','hyphen split with too many parts',(TH,'''				s2 = strings.Join(parts[i+1:], "")
''','''				s2 = strings.Join(parts[i+1:min(len(parts), i+8)], "")
'''),(TH,'func (p *Processor) textHeightHyphenated','''func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func (p *Processor) textHeightHyphenated'''))
# C11
v('C11','long words by total bytes of dotted word',(HY,'if len(s) > 100 {','if len(s) > 120 {'))
v('C11','tabs for blanks',(HY,'strings.Contains(s, " ")','strings.Contains(s, "\\t")'))
v('C11','last offsets wrong for double',(HY,'				sl = append(sl, s[offs[last]:offs[i+1]])\n				last = i + 1','				sl = append(sl, s[offs[last]:offs[i+1]])\n				last = i + 1 + i%2*0\n				if i > 60 {\n					last++\n				}'))
v('C11','weights not max but sum',(HY,'''				if w > ws[i+iw] {
					ws[i+iw] = w
				}
''','''				ws[i+iw] += w
'''))
q('C11','lower-case patterns only for long',(HY,'"." + strings.ToLower(s) + "."','"." + s + "."'))
# C12
v('C12','x restored after y reset',(P,'''			p.engine.SetX(x)
			p.engine.SetY(y)
			p.currStyles = sty
			p.preventPageBreak = false
		}()
		p.processInstructions(p.doc.Header)''','''			p.engine.SetX(x)
			if _, cy := p.engine.GetXY(); cy > y {
				p.engine.SetY(y)
			}
			p.currStyles = sty
			p.preventPageBreak = false
		}()
		p.processInstructions(p.doc.Header)'''))
v('C12','tables in footers may break',(TB,'''	if !p.preventPageBreak {
		var headHeight float64''','''	if !p.preventPageBreak || xtab.RepeatHeader > 3 {
		var headHeight float64'''))
v('C12','style pointer kept',(P,'''		sty := p.currStyles
		p.preventPageBreak = true
		defer func() {
			p.engine.SetX(x)
			p.engine.SetY(y)
			p.currStyles = sty
			p.preventPageBreak = false
		}()
		p.processInstructions(p.doc.Footer)''','''		sty := &p.currStyles
		p.preventPageBreak = true
		defer func() {
			p.engine.SetX(x)
			p.engine.SetY(y)
			p.currStyles = *sty
			p.preventPageBreak = false
		}()
		p.processInstructions(p.doc.Footer)'''))
