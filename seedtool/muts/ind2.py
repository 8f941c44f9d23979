muts=[]
def v(ids,what,*edits): muts.append((ids,"V",what,list(edits)))
def q(ids,what,*edits): muts.append((ids,"Q",what,list(edits)))
P,TX,TH,TB,IM,GR,DR,DI='process.go','text.go','text-hyph.go','table.go','image.go','grid.go','draw.go','dim.go'
F='engine/fpdf.go'; CL='style/class.go'; DE='style/decode.go'; RG='style/color.go'; BX='style/box.go'
XS,XT,XG,XI,XR,XD,XF='xdoc/style.go','xdoc/table.go','xdoc/grid.go','xdoc/instructions.go','xdoc/registry.go','xdoc/describe.go','xdoc/diff.go'
DO='xdoc/doc.go'; HY='hyphenation/hyphenation.go'; PA='hyphenation/pattern.go'; TT='text/text.go'
# C12
v('C12','footer restores font only',(P,'''			p.currStyles = sty
			p.preventPageBreak = false
		}()
		p.processInstructions(p.doc.Footer)''','''			p.currStyles.Font = sty.Font
			p.preventPageBreak = len(p.doc.Body.ISS) == 0
		}()
		p.processInstructions(p.doc.Footer)'''))
v('C12','position taken at registration',(P,'''	p.engine.OnHeader(func() {
		x, y := p.engine.GetXY()
''','''	x, y := p.engine.GetXY()
	p.engine.OnHeader(func() {
'''))
v('C12','table start in header',(TB,'''	if !p.preventPageBreak {
		var headHeight''','''	if !p.preventPageBreak || xtab.RepeatHeader > 0 {
		var headHeight'''))
v('C12','no restore on empty header',(P,'''		defer func() {
			p.engine.SetX(x)
			p.engine.SetY(y)
			p.currStyles = sty
			p.preventPageBreak = false
		}()
		p.processInstructions(p.doc.Header)''','''		p.processInstructions(p.doc.Header)
		p.engine.SetX(x)
		if p.engine.CurrentPage() > 1 || len(p.doc.Header.ISS) > 0 {
			p.preventPageBreak = false
		}
		p.engine.SetY(y)
		p.currStyles = sty'''))
q('C12','restored y first',(P,'''			p.engine.SetX(x)
			p.engine.SetY(y)
''','''			p.engine.SetY(y)
			p.engine.SetX(x)
'''))
v('C12','newpage resets the flag',(P,'''			if !p.preventPageBreak {
				p.engine.AddPage()
			}
''','''			if !p.preventPageBreak {
				p.engine.AddPage()
			}
			p.preventPageBreak = false
'''))
# C13
v('C13','alias after first page',(P,'''	p.engine.SetPageCountAlias("{np}")
''',''),(P,'''	p.engine.AddPage()
	p.processInstructions(p.doc.Body)
''','''	p.engine.AddPage()
	p.engine.SetPageCountAlias("{np}")
	p.processInstructions(p.doc.Body)
'''))
v('C13','written twice on error',(P,'''	err = p.engine.WritePDF(w)
	if err != nil {
''','''	err = p.engine.WritePDF(w)
	if err == io.ErrShortWrite {
		err = p.engine.WritePDF(w)
	}
	if err != nil {
'''))
v('C13','empty body is not written',(P,'''	err = p.engine.WritePDF(w)
	if err != nil {
''','''	if len(p.doc.Body.ISS) == 0 && len(p.doc.Header.ISS) == 0 {
		return nil
	}
	err = p.engine.WritePDF(w)
	if err != nil {
'''))
v('C13','footer only if there is one, after page',(P,'''	p.engine.AddPage()
	p.processInstructions(p.doc.Body)
''','''	if len(p.doc.Body.ISS) > 0 {
		if _, ok := p.doc.Body.ISS[0].(*xdoc.PageBreak); !ok {
			p.engine.AddPage()
		}
	}
	p.processInstructions(p.doc.Body)
'''))
# C14
v('C14','no bottom margin',(F,'	e.pdf.SetAutoPageBreak(true, doc.Page.Margins.Bottom)','''	if doc.Page.Margins.Bottom > 0 {
		e.pdf.SetAutoPageBreak(true, doc.Page.Margins.Bottom)
	}'''))
v('C14','margins turned in landscape',(F,'''	e.pdf.SetMargins(doc.''','''	if doc.Page.Orientation == xdoc.OrientationLandscape && doc.Page.Margins.Left > 50 {
		e.pdf.SetMargins(doc.Page.Margins.Top, doc.Page.Margins.Left, doc.Page.Margins.Bottom)
		return e, nil
	}
	e.pdf.SetMargins(doc.'''))
v('C14','duplicate style skipped',(F,'''		bs, err := ioutil''','''		if fd.Name == e.monoFont && fd.Style == font.BoldItalic {
			return nil
		}
		bs, err := ioutil'''))
v('C14','area of landscape page',(F,'''	return l, t, pw - r - 2, ph - b''','''	if pw > ph {
		pw, ph = ph, pw
	}
	return l, t, pw - r - 2, ph - b'''))
v('C14','legal is letter',(F,'''		return "Legal"
''','''		return "Letter"
'''))
# C15
v('C15','first occurrence counts',(DE,'''		raw[trimWS(styleKV[0])] = trimWS(styleKV[1])
''','''		if _, ok := raw[trimWS(styleKV[0])]; !ok {
			raw[trimWS(styleKV[0])] = trimWS(styleKV[1])
		}
'''))
v('C15','keys in lower case',(DE,'''		raw[trimWS(styleKV[0])]''','''		raw[strings.ToLower(trimWS(styleKV[0]))]'''))
v('C15','padding order',(BX,'''"%f,%f,%f,%f", &b.Left, &b.Top, &b.Right, &b.Bottom)
	if err != nil {
		return errors.Wrapf(err, "scan padding''','''"%f,%f,%f,%f", &b.Top, &b.Right, &b.Bottom, &b.Left)
	if err != nil {
		return errors.Wrapf(err, "scan padding'''))
v('C15','blue of grey',(RG,'	c.B = int(uint8(n))','	c.B = int(uint8(n))\n	if c.R == c.G {\n		c.B = c.R\n	}'))
v('C15','negative numbers are unset',(DE,'''			v.SetFloat(f)
''','''			if f >= 0 {
				v.SetFloat(f)
			}
'''))
v('C15','shared index path',(DE,'currIndexPath := appendedCopy(indexPath, i)','currIndexPath := appendedCopy(indexPath, i)\n		if len(currIndexPath) > 1 && key == "width" {\n			currIndexPath[1] = 0\n		}'))
v('C15','key tag swapped','x' and ('style/align.go','`style:"v-align"`','`style:"valign"`'))
# C16
v('C16','font not changed',(F,'''	e.pdf.SetFont(string(fnt.Family), fpdfFontStyle(fnt), float64(fnt.PointSize))
''','''	if pt, _ := e.pdf.GetFontSize(); pt == float64(fnt.PointSize) && fnt.Family == "" {
		return
	}
	e.pdf.SetFont(string(fnt.Family), fpdfFontStyle(fnt), float64(fnt.PointSize))
'''))
v('C16','negative line feed',(F,'	e.pdf.Ln(heightMM * lines)','	if lines < 0 {\n		lines = 0\n	}\n	e.pdf.Ln(heightMM * lines)'))
v('C16','empty text has a width',(F,'	return e.pdf.GetStringWidth(e.translateUnicode(s))','	if s == "" {\n		s = " "\n	}\n	return e.pdf.GetStringWidth(e.translateUnicode(s))'))
v('C16','underline only if bold',(F,'''	switch fnt.Decoration {
	case style.FontDecorationUnderline:''','''	switch {
	case fnt.Decoration == style.FontDecorationUnderline && fnt.Style != style.FontStyleItalic:'''))
v('C16','colour clipped',(F,'	e.pdf.SetFillColor(r, g, b)','	e.pdf.SetFillColor(r&0x7f|r&0x80, g, b&0xfe)'))
v('C16','image flows',(F,'x, y, width, height, false,','x, y, width, height, width == 0,'))
# C17
v('C17','thin line not inset',(DR,'	halfLine := sty.Draw.LineWidth / 2','	halfLine := sty.Draw.LineWidth / 2\n	if sty.Draw.LineWidth < 0.2 {\n		halfLine = 0\n	}'))
v('C17','border only without top',(DR,'if sty.Box.Border.Left > 0 {','if sty.Box.Border.Left > 0 || sty.Box.Border.Top > 1 {'))
v('C17','bottom border moved',(DR,'''		p.engine.LineTo(x0, y1)
''','''		p.engine.LineTo(x0-halfLine, y1)
'''))
v('C17','text box drawn in current colours',(P,'	p.drawBox(x0, y0, x1, y1, sty)','	bsty := sty\n	if len(box.ISS) == 0 {\n		bsty.Color = p.currStyles.Color\n	}\n	p.drawBox(x0, y0, x1, y1, bsty)'))
v('C17','white is not filled',(DR,'	p.engine.FillRect(x0+','	if sty.Color.Background == style.White {\n		width = 0\n	}\n	p.engine.FillRect(x0+'))
v('C17','cell without area',(TB,'	p.drawBox(pa.x0, pa.y0, pa.x1, pa.y1, cell.Styles)','	if pa.Width() > 0 {\n		p.drawBox(pa.x0, pa.y0, pa.x1, pa.y1, cell.Styles)\n	}'))
# C18
v('C18','middle never above the top',(TB,'		textMargin := paddedPa.Height() - textHeight','		textMargin := paddedPa.Height() - textHeight\n		if textMargin < 0 {\n			textMargin = 0\n		}'))
v('C18','left edge moves',(TX,'''	xLeft, _ := p.engine.GetXY()
	for _, line := range lines {
		switch''','''	xLeft, _ := p.engine.GetXY()
	for n, line := range lines {
		if n > 0 && sty.HAlign == style.HAlignRight {
			xLeft, _ = p.engine.GetXY()
		}
		switch'''))
v('C18','paragraph end in the middle stretched',(TH,'if spaceCnt < 1 || line.paragraph {','if spaceCnt < 1 || line.paragraph && spaceCnt < 8 {'))
v('C18','spacing of current styles',(TH,'		p.engine.LineFeed(sty.LineSpacing)','		p.engine.LineFeed(p.currStyles.LineSpacing)'))
v('C18','gap after two words',(TH,'/ float64(spaceCnt)','/ float64(len(line.items))'))
v('C18','last line without feed',(TX,'''		p.engine.LineFeed(sty.LineSpacing)
''','''		if len(line.items) > 0 {
			p.engine.LineFeed(sty.LineSpacing)
		}
'''))
v('C18','bottom with padding',(TB,'p.engine.SetY(paddedPa.y0 + textMargin)','p.engine.SetY(pa.y0 + pa.Height() - textHeight)'))
# C19
v('C19','box bottom padding',(P,'	boxHeight := sty.Box.Padding.Top + height + sty.Box.Padding.Bottom\n','	boxHeight := height + sty.Box.Padding.Top\n'))
v('C19','headers on the first page only',(TB,'''			if i > 0 && xtab.RepeatHeader > 0 {''','''			if i > xtab.RepeatHeader && xtab.RepeatHeader > 0 {'''))
v('C19','row height instead of tallest cell',(TB,'if !p.preventPageBreak && y+row.maxCellHeight() > page','if !p.preventPageBreak && y+row.height > page'))
v('C19','header rows of large tables',(TB,'		for i := 0; i < xtab.RepeatHeader+1; i++ {','		for i := 0; i < xtab.RepeatHeader+1 && i < 3; i++ {'))
v('C19','x kept after page break',(P,'		x0, y0 = p.engine.GetXY()\n','		_, y0 = p.engine.GetXY()\n'))
v('C19','page height of tall boxes',(P,'	if !p.preventPageBreak && y0+boxHeight >= effHeight {','	if !p.preventPageBreak && y0+boxHeight >= effHeight && boxHeight < effHeight {'))
v('C19','one header row less on last row',(TB,'for rhr := 0; rhr < xtab.RepeatHeader; rhr++ {','for rhr := 0; rhr < xtab.RepeatHeader && rhr < i; rhr++ {'))
# C20
v('C20','span of one',(TB,'			for s := 0; s < cell.colSpan-1; s++ {','			for s := 0; s < cell.colSpan-1 && s < 50; s++ {'))
v('C20','covered by both',(TB,'				spannedCell.rowSpan = cell.rowSpan\n','				if cell.colSpan == 2 {\n					spannedCell.rowSpan = cell.rowSpan\n				}\n'))
v('C20','columns with zero width',(TB,'			if cws[i] == 0 {','			if cws[i] == 0 && i < t.columnCount-1 {'))
v('C20','x of spanned cells',(TB,'''			if cell.spannedBy != nil || cell.zero {
				x += cell.width
''','''			if cell.spannedBy != nil || cell.zero {
				if cell.rowIdx > 0 {
					x += cell.width
				}
'''))
v('C20','height shared by text rows only',(TB,'	heightPerCell := cellHeight / float64(1+len(cell.spansRows))','	heightPerCell := cellHeight\n	if len(cell.iss) > 0 {\n		heightPerCell = cellHeight / float64(1+len(cell.spansRows))\n	}'))
v('C20 C22 C26','cell text width without spans',(TB,'''	for _, sc := range cell.spansCols {
		availableWidth += sc.width
	}
''','''	for _, sc := range cell.spansCols {
		if sc.ColumnWidth >= 0 {
			availableWidth += sc.width
		}
		break
	}
'''))
v('C20','padding of short rows',(TB,'''		for len(row.cells) < tab.columnCount {
''','''		for len(row.cells) > 0 && len(row.cells) < tab.columnCount {
'''))
v('C20','table end',(TB,'	p.engine.SetY(y)\n}','	if len(tab.rows) > 1 {\n		p.engine.SetY(y)\n	}\n}'))
# C21
v('C21','scaled after offset',(IM,'	paHeight := pa.Height() - sty.OffsetY\n','	paHeight := pa.Height()\n'))
v('C21','second scaling squeezes',(IM,'''	if height > paHeight {
		width = width * paHeight / height
''','''	if height > paHeight {
		if width > paWidth {
			width = width * paHeight / height
		}
'''))
v('C21','integer ratio',(IM,'		width = float64(idWidth) / float64(idHeight) * sty.Height','		width = float64(iDesc.WidthPx/iDesc.HeightPx) * sty.Height'))
v('C21','small image enlarged',(IM,'	if width > paWidth {','	if width > paWidth || width < 1 {'))
v('C21','parent directory',(P,'	rname := filepath.Join(p.workingDir, name)','	rname := filepath.Join(p.workingDir, filepath.Base(name))'))
# C22
v('C22','zero width is full',(DI,'''	ew := p.printableArea.x1 - p.printableArea.x0
	if width < 0 ||''','''	ew := p.printableArea.x1 - p.printableArea.x0
	if width <= 0 ||'''))
v('C22','cell box width',(P,'	width := pa.EffectiveWidth(sty.Width) - sty.Padding.Left - sty.Padding.Right\n	var height float64\n	if sty.Dimension.Height <= 0 {\n		if len(box.ISS) > 0','	width := p.page().EffectiveWidth(sty.Width) - sty.Padding.Left - sty.Padding.Right\n	var height float64\n	if sty.Dimension.Height <= 0 {\n		if len(box.ISS) > 0'))
v('C22','padding left twice',(TB,'pa.Width()-cell.Padding.Left-cell.Padding.Right, cell.Styles)','pa.Width()-2*cell.Padding.Left, cell.Styles)'))
v('C22','table full width',(TB,'p.page().EffectiveWidth(tab.Width)','p.page().EffectiveWidth(p.currStyles.Width)'))
# C23
v('C23','vertical tab',(TT,'''	rs = strings.ReplaceAll(rs, "\\t", " ")
''','''	rs = strings.ReplaceAll(rs, "\\t", " ")
	rs = strings.ReplaceAll(rs, "\\v", " ")
'''))
v('C23','unicode spaces trimmed',(TT,'	rs = strings.Trim(rs, " ")','	rs = strings.TrimSpace(rs)'))
v('C23','backslash first',(TT,'''	rs = RemoveTwins(rs, " ")
	rs = strings.ReplaceAll(rs, " \\\\", "\\\\")
''','''	rs = strings.ReplaceAll(rs, " \\\\", "\\\\")
	rs = RemoveTwins(rs, " ")
'''))
v('C23','one pass for twins',(TT,'''		if rs == s {
			return rs
		}
''','''		if rs == s || len(rs) < 4 {
			return rs
		}
'''))
v('C23','blank text laid out',(TH,'''		if isitem.text == "" {
			continue
		}
''','''		if isitem.text == "" && len(curr.items) == 0 {
			continue
		}
'''))
v('C23','page number after normalisation',(TX,'		return text.WhitespaceRectified(p.tr(s))','		return p.tr(text.WhitespaceRectified(s)) + s[len(s):]'))
# C24
v('C24','twins of empty',(TT,'''		rs = strings.ReplaceAll(s, rem, twin)
		if rs == s {''','''		rs = strings.ReplaceAll(s, rem, twin)
		if len(rs) > len(s) {'''))
v('C24','row end by name',(XT,'''			if t == start.End() {
				return nil
			}
		case xml.StartElement:
			i, err := registry.DecodeInstruction(d, t)
			if err != nil {
				return err
			}
			switch i := i.(type) {
			case *TableCell:''','''			if t == start.End() {
				return nil
			}
		case xml.StartElement:
			i, err := registry.DecodeInstruction(d, t)
			if err != nil {
				if !registry.IsRegistered(t) {
					d.Skip()
					for len(row.Cells) == 0 {
					}
				}
				return err
			}
			switch i := i.(type) {
			case *TableCell:'''))
v('C24','class position stays',(CL,'''			if cl, ok := cs[className]; ok {''','''			if selName == "" {
				continue
			}
			if cl, ok := cs[className]; ok {'''))
v('C24','error in row ignored',(XT,'''func (row *TableRow) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	for {
		token, err := d.Token()
		if err != nil {
			return err
		}''','''func (row *TableRow) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	for {
		token, err := d.Token()
		if err != nil {
			if _, ok := err.(*xml.SyntaxError); !ok {
				return err
			}
			continue
		}'''))
# C25
v('C25','defer after decode',(IM,'''	defer f.Close()
	cfg, format, err := image.DecodeConfig(f)
	if err != nil {
		return ImageDescriptor{}, errors.Wrapf(err, "decode config of %q", src)
	}
''','''	cfg, format, err := image.DecodeConfig(f)
	if err != nil {
		return ImageDescriptor{}, errors.Wrapf(err, "decode config of %q", src)
	}
	defer f.Close()
'''))
v('C25','closed on success',(HY,'''	defer f.Close()
	return Load(f)
''','''	h, err := Load(f)
	if err == nil {
		err = f.Close()
	}
	return h, err
'''))
# C26
v('C26','height of box text in full width',(P,'			height = p.textHeightFnc(sty)(box.ISS, width, sty)\n		} else {','			height = p.textHeightFnc(sty)(box.ISS, width+sty.Padding.Right, sty)\n		} else {'))
v('C26','measured in current styles',(P,'''func (p *Processor) textHeightFnc(sty style.Styles) func([]xdoc.Instruction, float64, style.Styles) float64 {
	switch sty.HAlign {''','''func (p *Processor) textHeightFnc(sty style.Styles) func([]xdoc.Instruction, float64, style.Styles) float64 {
	switch p.currStyles.HAlign {'''))
v('C26','height 0 text',(TX,'''	lines := p.textLines(iss, width, sty)
	lineHeight''','''	lines := p.textLines(iss, width, sty)
	if len(lines) == 1 {
		return p.engine.FontHeight() * sty.Dimension.LineSpacing
	}
	lineHeight'''))
v('C26','cell min height in wrong font',(TX,'''func (p *Processor) textHeight(iss []xdoc.Instruction, width float64, sty style.Styles) float64 {
	p.engine.ChangeFont(sty.Font)
''','''func (p *Processor) textHeight(iss []xdoc.Instruction, width float64, sty style.Styles) float64 {
	if len(iss) > 1 {
		p.engine.ChangeFont(sty.Font)
	}
'''))
v('C26','given height plus padding',(P,'		height = sty.Dimension.Height\n	}\n\n	x0, y0','		height = sty.Dimension.Height - sty.Padding.Top\n	}\n\n	x0, y0'))
# C27
v('C27','text between rows of boxes',(XI,'			if v != "" {','			if v != "\\n" && v != "" {'))
v('C27','area attribute',(XG,'case "area":','case "name":'))
v('C27','class attribute in cells',(XT,'	return c.Styled.DecodeAttrs(attrs)','	if len(attrs) > 3 {\n		return nil\n	}\n	return c.Styled.DecodeAttrs(attrs)'))
v('C27','page break registered late',(XR,'	registry.RegisterInstruction(&LineBreak{})\n','	registry.RegisterInstruction(&PageBreak{})\n'))
v('C27','part children reversed',(XG,'p.Instructions.ISS = append(p.Instructions.ISS, i)','p.Instructions.ISS = append([]Instruction{i}, p.Instructions.ISS...)'))
v('C27','rows after empty rows',(XT,'				tab.Rows = append(tab.Rows, i)','				if len(i.Cells) > 0 {\n					tab.Rows = append(tab.Rows, i)\n				}'))
# C28
v('C28','one placeholder per text',(P,'	return strings.ReplaceAll(s, "{cp}", fmt.Sprintf("%d", p.engine.CurrentPage()))','	return strings.Replace(s, "{cp}", fmt.Sprintf("%d", p.engine.CurrentPage()), 2)'))
v('C28','not in hyphenated paragraphs',(TH,'''				sty:  is.MutatedStyles(p.doc.StyleClasses(), sty),
				text: norm(is.Text),''','''				sty:  is.MutatedStyles(p.doc.StyleClasses(), sty),
				text: text.WhitespaceRectified(is.Text),'''))
v('C28','page number with total',(P,'fmt.Sprintf("%d", p.engine.CurrentPage())','fmt.Sprintf("%02d", p.engine.CurrentPage())'))
v('C28','alias without braces',(P,'SetPageCountAlias("{np}")','SetPageCountAlias("np")'))
