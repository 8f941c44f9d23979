# a further batch written from the properties alone
muts=[]
def v(ids,what,*edits): muts.append((ids,"V",what,list(edits)))
P="process.go"; TX="text.go"; TH="text-hyph.go"; TB="table.go"; IM="image.go"; GR="grid.go"; DR="draw.go"; DI="dim.go"
F="engine/fpdf.go"; CL="style/class.go"; DE="style/decode.go"; XS="xdoc/style.go"; XT="xdoc/table.go"; XG="xdoc/grid.go"; XI="xdoc/instructions.go"; XR="xdoc/registry.go"; XD="xdoc/describe.go"; XF="xdoc/diff.go"; DO="xdoc/doc.go"; HY="hyphenation/hyphenation.go"; PA="hyphenation/pattern.go"; BX="style/box.go"; CO="style/color.go"
# C01
v('C01','nested paragraph inherits current',(TX,'is.MutatedStyles(p.doc.StyleClasses(), sty)','is.MutatedStyles(p.doc.StyleClasses(), p.currStyles)'))
v('C01','only cell first selector when more cells',(TB,'case ic == 0:\n				cellSty','case ic == 0 && len(xrow.Cells) > 1:\n				cellSty'))
v('C01','last row before first',(TB,'''		case ir == 0:
			rowSty = xrow.MutatedStylesWithSelector("first-row", p.doc.StyleClasses(), tab.Styles)
		case ir == len(xtab.Rows)-1:
			rowSty = xrow.MutatedStylesWithSelector("last-row", p.doc.StyleClasses(), tab.Styles)''','''		case ir == len(xtab.Rows)-1:
			rowSty = xrow.MutatedStylesWithSelector("last-row", p.doc.StyleClasses(), tab.Styles)
		case ir == 0:
			rowSty = xrow.MutatedStylesWithSelector("first-row", p.doc.StyleClasses(), tab.Styles)'''))
v('C01','selector falls through to class',(CL,'		sel.mutator.Mutate(styles)\n		return','		sel.mutator.Mutate(styles)'))
v('C01','class twice once',(CL,'''	for _, cn := range useClasses {
		if c, ok := cs[cn]; ok {
			c.MutateWithSelector(sel, styles)''','''	done := map[string]bool{}
	for _, cn := range useClasses {
		if c, ok := cs[cn]; ok && !done[cn] {
			done[cn] = true
			c.MutateWithSelector(sel, styles)'''))
v('C01','inline only first mutator',(XS,'''	cs.MutateWithSelector(sel, &ms, i.Classes...)
	for _, mut := range i.Mutators {
		mut.Mutate(&ms)
	}''','''	cs.MutateWithSelector(sel, &ms, i.Classes...)
	if len(i.Mutators) > 0 {
		i.Mutators[0].Mutate(&ms)
	}'''))
# C02
v('C02','box keeps its styles for image',(P,'	p.engine.SetY(y1)\n}','	p.currStyles.Draw = sty.Draw\n	p.engine.SetY(y1)\n}'))
v('C02','font sets colours too',(P,'p.changeFont(i.MutatedStyles(p.doc.StyleClasses(), p.currStyles).Font)','''sty := i.MutatedStyles(p.doc.StyleClasses(), p.currStyles)
			p.currStyles.Color.Text = sty.Color.Text
			p.changeFont(sty.Font)'''))
v('C02','reset only font',(P,'	p.engine.SetTextColor(p.currStyles.Text.R, p.currStyles.Text.G, p.currStyles.Text.B)\n',''))
v('C02','text resets before drawing',(P,'	defer p.resetStyles()\n	sty := text.Mut','	p.resetStyles()\n	sty := text.Mut'))
v('C02','reset green twice',(P,'p.currStyles.Text.R, p.currStyles.Text.G, p.currStyles.Text.B','p.currStyles.Text.R, p.currStyles.Text.G, p.currStyles.Text.G'))
# C03
v('C03 C15','odd colour digits padded',(CO,'	if len(s) != 6 {','	for len(s) < 6 {\n		s += "0"\n	}\n	if len(s) != 6 {'))
v('C03','repeatheader clamped',(XT,'''			} else if n < 0 || n > 10 {
				return errors.Errorf("invalid value %d for repeatheader - must be in [0,10]", n)
			}''','''			} else if n < 0 {
				return errors.Errorf("invalid value %d for repeatheader - must be in [0,10]", n)
			} else if n > 10 {
				n = 10
			}'''))
v('C03','eof ends table',(XT,'''func (tab *Table) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	for {
		token, err := d.Token()
		if err != nil {
			return err''','''func (tab *Table) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	for {
		token, err := d.Token()
		if err != nil {
			if len(tab.Rows) > 0 {
				return nil
			}
			return err'''))
v('C03','trailing text after classes ignored',(CL,'if len(trimWS(curr)) > 0 {','if len(trimWS(curr)) > 0 && pos == 0 {'))
v('C03','pattern scan error dropped',(PA,'	if err := scanner.Err(); err != nil {\n		return nil, errors.Wrap(err, "scan patterns")\n	}\n','	if err := scanner.Err(); err != nil && len(pl.patterns) == 0 {\n		return nil, errors.Wrap(err, "scan patterns")\n	}\n'))
v('C03','grid sizes of shorter rows',(XG,'if len(r.Areas) != ac {','if len(r.Areas) > ac {'))
v('C03','bad pattern skipped',(PA,'''		if err != nil {
			return nil, errors.Wrap(err, "parse-pattern")
		}''','''		if err != nil {
			if len(p.Letters) == 0 {
				continue
			}
			return nil, errors.Wrap(err, "parse-pattern")
		}'''))
v('C03 C15','empty value ok',(DE,'		f, err := strconv.ParseFloat(styleValue, 64)','		if styleValue == "" {\n			styleValue = "0"\n		}\n		f, err := strconv.ParseFloat(styleValue, 64)'))
# C04
v('C04','font error only first',(F,'''		if e.pdf.Error() != nil {
			return e.pdf.Error()
		}
		return nil''','''		return nil'''))
v('C04','error read before body',(P,'''	p.processInstructions(p.doc.Body)

	err := p.engine.Error()
''','''	err := p.engine.Error()
	p.processInstructions(p.doc.Body)

'''))
v('C04','each stops silently',('font/registry.go' if __import__('os').path.exists('/repo/font/registry.go') else 'font/font.go','''		if err != nil {
			return err
		}
	}
	return nil''','''		if err != nil {
			break
		}
	}
	return nil'''))
# C05
v('C05','lf at least one',(P,'p.engine.LineFeed(i.Lines)','''if i.Lines > 0 {
				p.engine.LineFeed(i.Lines)
			}'''))
v('C05','setx relative to margin',(P,'p.engine.SetX(i.X)','l, _, _, _ := p.engine.Margins()\n			p.engine.SetX(l + i.X)'))
v('C05','text after text merged',(P,'''		case *xdoc.Text:
			p.renderText(i)''','''		case *xdoc.Text:
			if len(i.ISS) == 1 && len(i.Classes) == 0 {
				if tb, ok := i.ISS[0].(*xdoc.TextBlock); ok && tb.Text == " " {
					continue
				}
			}
			p.renderText(i)'''))
v('C05','newpage on first element',(P,'			if !p.preventPageBreak {','			if !p.preventPageBreak && i != is.ISS[0] {'))
# C06
v('C06','row diffs of table',(XD,'		StyleDiffs: desc.describeMutator(tr),','		StyleDiffs: desc.describeMutator(&Table{Styled: tr.Styled}),') )
v('C06','colspan at least',(XD,'fmt.Sprintf("table-cell colspan=%d rowspan=%d", td.ColSpan, td.RowSpan)','fmt.Sprintf("table-cell colspan=%d rowspan=%d", td.ColSpan, td.ColSpan)'))
v('C06','parts before rows',(XD,'''	for _, gr := range g.Rows {
		i.Items = append(i.Items, desc.describeGridRow(gr)...)
	}
	for _, p := range g.Parts {
		i.Items = append(i.Items, desc.describeGridPart(p)...)
	}''','''	for _, p := range g.Parts {
		i.Items = append(i.Items, desc.describeGridPart(p)...)
	}
	for _, gr := range g.Rows {
		i.Items = append(i.Items, desc.describeGridRow(gr)...)
	}'''))
v('C06','image source base',(XD,'			Value:      is.Source,','			Value:      strings.TrimPrefix(is.Source, "./"),'))
v('C06','margins top right swapped',(XD,'''			Name:  "top",
			Value: margins.Top,''','''			Name:  "top",
			Value: margins.Right,'''))
# C07
v('C07','styles appended to classes',(XS,'	cs.Mutate(&ms, i.Classes...)','	if len(i.Classes) > 1 && i.Classes[0] == i.Classes[1] {\n		i.Classes = i.Classes[1:]\n	}\n	cs.Mutate(&ms, i.Classes...)'))
v('C07','cell spans normalised in document',(TB,'				colSpan: xcell.ColSpan,','				colSpan: func() int { xcell.ColSpan = len(xcell.ISS); return xcell.ColSpan }(),'))
v('C07','repeat header clamped in document',(TB,'	tab := p.transformTable(xtab)\n','	tab := p.transformTable(xtab)\n	if xtab.RepeatHeader > len(tab.rows) {\n		xtab.RepeatHeader = len(tab.rows)\n	}\n'))
# C08
v('C08','image cache global',(IM,'func DescribeImage(src string) (ImageDescriptor, error) {\n','''var described = map[string]ImageDescriptor{}

func DescribeImage(src string) (d ImageDescriptor, err error) {
	if d, ok := described[src]; ok {
		return d, nil
	}
	defer func() {
		if err == nil {
			described[src] = d
		}
	}()
'''))
v('C08','default style shared',(P,'		currStyles: DefaultStyle(),\n		workingDir: workingDir,\n	}\n','		currStyles: DefaultStyle(),\n		workingDir: workingDir,\n	}\n	lastDoc = doc\n'),(P,'type Processor struct','var lastDoc *xdoc.Document\n\ntype Processor struct'))
# C09
v('C09','keys unsorted',(DE,'	sort.Strings(keys)\n','	_ = sort.Strings\n'))
# C10
v('C10','break keeps width',(TX,'''				lines = append(lines, curr)
				curr = textLine{}
			}

			if len(curr.items) > 0 {''','''				lines = append(lines, curr)
				curr = textLine{items: curr.items[:0]}
			}

			if len(curr.items) > 0 {'''))
v('C10','repeated word dropped',(TX,'		for _, word := range words {','		for iw, word := range words {\n			if iw > 0 && word == words[iw-1] && len(word) > 20 {\n				continue\n			}'))
v('C10','empty line not added',(TX,'''		case *xdoc.LineBreak:
			lines = append(lines, curr)''','''		case *xdoc.LineBreak:
			if len(curr.items) > 0 || len(lines) > 0 {
				lines = append(lines, curr)
			}'''))
v('C10','second part without rest',(TH,'s2 = strings.Join(parts[i+1:], "")','s2 = parts[i+1]'))
v('C10','word fonts of the line',(TX,'''		for _, item := range line.items {
			p.engine.ChangeFont(item.sty.Font)''','''		for i, item := range line.items {
			if i == 0 {
				p.engine.ChangeFont(item.sty.Font)
			}'''))
# C11
v('C11','odd above one',(HY,'if w%2 == 1 {','if w%2 == 1 && w > 1 {'))
v('C11','hundred and one',(HY,'if len(s) > 100 {','if len(s) >= 100 {'))
v('C11','tab is a blank',(HY,'if strings.Contains(s, " ") {','if strings.ContainsAny(s, " -") {'))
# C12
v('C12','footer restores x only if moved',(P,'''	p.engine.OnFooter(func() {
		x, y := p.engine.GetXY()
		sty := p.currStyles
		p.preventPageBreak = true
		defer func() {
			p.engine.SetX(x)
			p.engine.SetY(y)''','''	p.engine.OnFooter(func() {
		x, y := p.engine.GetXY()
		sty := p.currStyles
		p.preventPageBreak = true
		defer func() {
			p.engine.SetX(x)
			if len(p.doc.Footer.ISS) > 0 {
				p.engine.SetY(y)
			}'''))
v('C12','empty header leaves flag',(P,'''		p.processInstructions(p.doc.Header)
	})''','''		p.processInstructions(p.doc.Header)
		p.currStyles.Font = DefaultStyle().Font
	})'''),(P,'''		defer func() {
			p.engine.SetX(x)
			p.engine.SetY(y)
			p.currStyles = sty
			p.preventPageBreak = false
		}()
		p.processInstructions(p.doc.Header)''','''		defer func() {
			p.engine.SetX(x)
			p.engine.SetY(y)
			p.preventPageBreak = false
		}()
		p.processInstructions(p.doc.Header)
		p.currStyles = sty'''))
# C13
v('C13','alias after first page',(P,'	p.engine.SetPageCountAlias("{np}")\n',''),(P,'	p.engine.AddPage()\n	p.processInstructions(p.doc.Body)','	p.engine.AddPage()\n	p.engine.SetPageCountAlias("{np}")\n	p.processInstructions(p.doc.Body)'))
v('C13','written twice when short',(P,'	err = p.engine.WritePDF(w)\n','	err = p.engine.WritePDF(w)\n	if err != nil {\n		err = p.engine.WritePDF(w)\n	}\n'))
# C14
v('C14','margins only if set',(F,'	e.pdf.SetMargins(doc.Page.Margins.Left, doc.Page.Margins.Top, doc.Page.Margins.Right)','	if doc.Page.Margins.Left > 0 {\n		e.pdf.SetMargins(doc.Page.Margins.Left, doc.Page.Margins.Top, doc.Page.Margins.Right)\n	}'))
v('C14','legal is letter',(F,'		return "Legal"','		return "Letter"'))
v('C14','registry keeps one per name',('font/registry.go' if __import__('os').path.exists('/repo/font/registry.go') else 'font/font.go','	d.fonts = append(d.fonts, fd)','''	for i := range d.fonts {
		if d.fonts[i].Name == fd.Name {
			d.fonts[i] = fd
			return
		}
	}
	d.fonts = append(d.fonts, fd)'''))
# C15
v('C15','padding css order',(BX,'"%f,%f,%f,%f", &b.Left, &b.Top, &b.Right, &b.Bottom)\n	if err != nil {\n		return errors.Wrapf(err, "scan padding','"%f,%f,%f,%f", &b.Top, &b.Right, &b.Bottom, &b.Left)\n	if err != nil {\n		return errors.Wrapf(err, "scan padding'))
v('C15','keys in lower case',(DE,'raw[trimWS(styleKV[0])]','raw[strings.ToLower(trimWS(styleKV[0]))]'))
v('C15','green from blue',(CO,'c.G = int(uint8(n >> 8))','c.G = int(uint8(n >> 4))'))
# C16
v('C16','write translated twice',(F,'e.pdf.Write(heightMM, e.translateUnicode(s))','e.pdf.Write(heightMM*1.1, e.translateUnicode(s))'))
v('C16','bold italic only bold',(F,'''	switch fnt.Style {
	case style.FontStyleItalic:
		s += "I"
	}
	switch fnt.Weight {
	case style.FontWeightBold:
		s += "B"
	}''','''	switch {
	case fnt.Weight == style.FontWeightBold:
		s += "B"
	case fnt.Style == style.FontStyleItalic:
		s += "I"
	}'''))
v('C16','draw path closes',(F,'e.pdf.DrawPath("D")','e.pdf.ClosePath()\n	e.pdf.DrawPath("D")'))
# C17
v('C17','bottom border to right',(DR,'p.engine.LineTo(x0, y1)','p.engine.LineTo(x0+halfLine, y1)'))
v('C17','no fill when white',(DR,'	p.engine.FillRect(x0+halfLine','	if sty.Color.Background != style.White {\n		p.engine.FillRect(x0+halfLine'),(DR,'height-2*halfLine)\n	//p','height-2*halfLine)\n	}\n	//p'))
# C18
v('C18','right alignment without last blank',(TX,'xLeft + width - line.width)','xLeft + width - line.width - p.engine.TextWidth(" "))'))
v('C18','block last word',(TH,'if spaceCnt < 1 || line.paragraph {','if spaceCnt < 2 || line.paragraph {'))
# C19
v('C19','box without bottom padding',(P,'boxHeight := sty.Box.Padding.Top + height + sty.Box.Padding.Bottom','boxHeight := sty.Box.Padding.Top + height'))
v('C19','no repeat on second page',(TB,'if i > 0 && xtab.RepeatHeader > 0 {','if i > xtab.RepeatHeader && xtab.RepeatHeader > 0 {'))
v('C19','row compared by row height',(TB,'y+row.maxCellHeight() > page','y+row.height > page'))
# C20
v('C20','x not advanced over zero cells',(TB,'''			if cell.spannedBy != nil || cell.zero {
				x += cell.width
				continue
			}
			cw''','''			if cell.zero {
				continue
			}
			if cell.spannedBy != nil {
				x += cell.width
				continue
			}
			cw'''))
v('C20','height shared by rows and columns',(TB,'float64(1+len(cell.spansRows))','float64(1+len(cell.spansRows)+len(cell.spansCols))'))
v('C20','valign of box mid by area',(TB,'''	paddedPa := pa.WithPadding(cell.Padding)
''','''	paddedPa := pa.WithPadding(cell.Padding)
	if cell.height < cell.minHeight {
		paddedPa.y1 = paddedPa.y0 + cell.minHeight
	}
'''))
v('C20 C18 C26','middle rounds',(TB,'p.engine.SetY(paddedPa.y0 + textMargin/2)','p.engine.SetY(paddedPa.y0 + float64(int(textMargin/2)))'))
# C21
v('C21','dpi of image',(IM,'pxPerMm := float64(dpi) / 25.4\n	return float64(id.HeightPx) / pxPerMm','pxPerMm := float64(dpi) / 25\n	return float64(id.HeightPx) / pxPerMm'))
v('C21','height not refit',(IM,'	if height > paHeight {\n		width','	if height > paHeight && width == paWidth {\n		width'))
# C22
v('C22','width zero is full',(DI,'''func (p Page) EffectiveWidth(width float64) float64 {
	ew := p.printableArea.x1 - p.printableArea.x0
	if width < 0''','''func (p Page) EffectiveWidth(width float64) float64 {
	ew := p.printableArea.x1 - p.printableArea.x0
	if width <= 0'''))
v('C22','cell text inset by left only',(TB,'pa.Width()-cell.Padding.Left-cell.Padding.Right, cell.Styles)','pa.Width()-2*cell.Padding.Left, cell.Styles)'))
# C24
v('C24','sort of loop backwards',(TB,'		for len(row.cells) < tab.columnCount {','		for len(row.cells) != tab.columnCount {'))
# C25
v('C25','describe image closes on success',(IM,'	defer f.Close()\n',''),(IM,'	return ImageDescriptor{\n		Format:   format,','	f.Close()\n	return ImageDescriptor{\n		Format:   format,'))
# C26
v('C26','block height of plain lines',(TH,'	lines := p.textLinesHyphenated(iss, width, sty)\n	lineHeight','	lines := p.textLines(iss, width, sty)\n	lineHeight'))
v('C26','cell measured with area width',(TB,'p.textHeightFnc(cell.Styles)(cell.iss, paddedPa.Width(), cell.Styles)','p.textHeightFnc(cell.Styles)(cell.iss, pa.Width(), cell.Styles)'))
# C27
v('C27 C01 C15','classes by single blank',(XS,'strings.Fields(a.Value)...','strings.Split(a.Value, " ")...') )
v('C27','grid rows registered twice',(XR,'	registry.RegisterInstruction(&GridRow{})\n',''))
v('C27','blank text dropped',(XI,'			if v != "" {\n				is.ISS','			if len(v) > 1 {\n				is.ISS'))
# C28
v('C28','first page not replaced',(P,'	return strings.ReplaceAll(s, "{cp}"','	if p.engine.CurrentPage() == 0 {\n		return s\n	}\n	return strings.Replace(s, "{cp}"'),(P,'p.engine.CurrentPage()))\n}','p.engine.CurrentPage()), 2)\n}'))
