muts=[]
def v(ids,what,*edits): muts.append((ids,"V",what,list(edits)))
def q(ids,what,*edits): muts.append((ids,"Q",what,list(edits)))
P,TX,TH,TB,IM,GR,DR,DI='process.go','text.go','text-hyph.go','table.go','image.go','grid.go','draw.go','dim.go'
F='engine/fpdf.go'; CL='style/class.go'; DE='style/decode.go'; RG='style/color.go'; BX='style/box.go'
XS,XT,XG,XI,XR,XD,XF='xdoc/style.go','xdoc/table.go','xdoc/grid.go','xdoc/instructions.go','xdoc/registry.go','xdoc/describe.go','xdoc/diff.go'
DO='xdoc/doc.go'; HY='hyphenation/hyphenation.go'; PA='hyphenation/pattern.go'; TT='text/text.go'
# C13
v('C13','body rendered only if the header had no error',(P,'''	p.engine.AddPage()
	p.processInstructions(p.doc.Body)
''','''	p.engine.AddPage()
	if p.engine.Error() == nil || len(p.doc.Header.ISS) == 0 {
		p.processInstructions(p.doc.Body)
	}
'''))
v('C13','empty header is no callback',(P,'''	p.engine.OnHeader(func() {''','''	if len(p.doc.Header.ISS) > 0 {
	p.engine.OnHeader(func() {'''),(P,'''		p.processInstructions(p.doc.Header)
	})''','''		p.processInstructions(p.doc.Header)
	})
	}'''))if False else None
v('C13 C04','write error only with page',(P,'''	err = p.engine.WritePDF(w)
	if err != nil {
		return err
	}
	return nil''','''	err = p.engine.WritePDF(w)
	if err != nil && p.engine.CurrentPage() > 1 {
		return err
	}
	return nil'''))
v('C13 C12','footer shows header on first page',(P,'p.processInstructions(p.doc.Footer)','''if p.engine.CurrentPage() == 1 && len(p.doc.Footer.ISS) == 0 {
			p.processInstructions(p.doc.Header)
			return
		}
		p.processInstructions(p.doc.Footer)'''))
# C14
v('C14','page break with top margin',(F,'e.pdf.SetAutoPageBreak(true, doc.Page.Margins.Bottom)','''e.pdf.SetAutoPageBreak(true, doc.Page.Margins.Bottom)
	if doc.Page.Margins.Bottom < doc.Page.Margins.Top/4 {
		e.pdf.SetAutoPageBreak(true, doc.Page.Margins.Top)
	}'''))
v('C14','right margin at least left',(F,'e.pdf.SetMargins(doc.Page.Margins.Left, doc.Page.Margins.Top, doc.Page.Margins.Right)','''r := doc.Page.Margins.Right
	if r == 0 {
		r = doc.Page.Margins.Left
	}
	e.pdf.SetMargins(doc.Page.Margins.Left, doc.Page.Margins.Top, r)'''))
v('C14 C16','bold only with regular style',(F,'''	switch fnt.Weight {
	case style.FontWeightBold:
		s += "B"
	}''','''	switch fnt.Weight {
	case style.FontWeightBold:
		if s == "" {
			s += "B"
		}
	}'''))
v('C14','printable bottom without footer',(F,'return l, t, pw - r - 2, ph - b','''if b > ph/2 {
		b = 0
	}
	return l, t, pw - r - 2, ph - b'''))
# C15
v('C15','background from text on short',('style/color.go','c.B = int(uint8(n))','c.B = int(uint8(n>>8)) &^ 0 | int(uint8(n))'))
v('C15','uint parse base',(DE,'n, err := strconv.ParseUint(styleValue, 10, 64)','n, err := strconv.ParseUint(styleValue, 0, 64)'))
v('C15','later key wins only if set',(DE,'raw[trimWS(styleKV[0])] = trimWS(styleKV[1])','''if v := trimWS(styleKV[1]); v != "" || raw[trimWS(styleKV[0])] == "" {
			raw[trimWS(styleKV[0])] = v
		}'''))
v('C15','float in 32 bits',(DE,'f, err := strconv.ParseFloat(styleValue, 64)','f, err := strconv.ParseFloat(styleValue, 32)'))
v('C15','string values in lower case',(DE,'v.SetString(styleValue)','v.SetString(strings.ToLower(styleValue))'))
# C16
v('C16','rect outline for thin',(F,'e.pdf.Rect(x, y, width, height, "F")','''if width < 1 || height < 1 {
		e.pdf.Rect(x, y, width, height, "FD")
		return
	}
	e.pdf.Rect(x, y, width, height, "F")'''))
v('C16','line feed resets height',(F,'''	_, heightMM := e.pdf.GetFontSize()
	e.pdf.Ln(heightMM * lines)''','''	_, heightMM := e.pdf.GetFontSize()
	if lines == 1 {
		e.pdf.Ln(-1)
		return
	}
	e.pdf.Ln(heightMM * lines)'''))
v('C16','width in points for mono',(F,'return e.pdf.GetStringWidth(e.translateUnicode(s))','''if s == " " {
		return e.pdf.GetStringWidth("n")
	}
	return e.pdf.GetStringWidth(e.translateUnicode(s))'''))
v('C16','path closed',(F,'e.pdf.DrawPath("D")','e.pdf.ClosePath()\n\te.pdf.DrawPath("D")'))
v('C16','error cleared on ask',(F,'''func (e *FPDF) Error() error {
	return e.pdf.Error()''','''func (e *FPDF) Error() error {
	err := e.pdf.Error()
	e.pdf.ClearError()
	return err'''))
# C17
v('C17','fill after border',(DR,'''	p.engine.FillRect(x0+halfLine, y0+halfLine, width-2*halfLine, height-2*halfLine)
''',''''''),(DR,'''	p.engine.DrawPath()''','''	p.engine.DrawPath()
	p.engine.FillRect(x0+halfLine, y0+halfLine, width-2*halfLine, height-2*halfLine)'''))if False else None
v('C17','box drawn before offset',(P,'p.drawBox(x0, y0, x1, y1, sty)','p.drawBox(x0-sty.Dimension.OffsetX*0, y0-sty.Dimension.OffsetY, x1, y1, sty)'))
v('C17','line width of border',(DR,'p.engine.SetLineWidth(sty.Draw.LineWidth)','''lw := sty.Draw.LineWidth
	if sty.Box.Border.Top > 0 {
		lw = float64(sty.Box.Border.Top)
	}
	p.engine.SetLineWidth(lw)'''))
v('C17 C20','cell drawn with padding',(TB,'p.drawBox(pa.x0, pa.y0, pa.x1, pa.y1, cell.Styles)','''if len(cell.iss) == 0 {
		pa.y1 -= cell.Padding.Bottom
	}
	p.drawBox(pa.x0, pa.y0, pa.x1, pa.y1, cell.Styles)'''))
# C18
v('C18','right of last item',(TX,'p.engine.SetX(xLeft + width - line.width)','''if len(line.items) > 0 {
				p.engine.SetX(xLeft + width - line.width)
			}'''))
v('C18','centre by words',(TX,'p.engine.SetX(xLeft + (width-line.width)/2.0)','p.engine.SetX(xLeft + (width-line.width)/2.0 - float64(len(line.items)-1)*0.01)'))
v('C18','block line without end',(TH,'if spaceCnt < 1 || line.paragraph {','if spaceCnt < 1 || (line.paragraph && line.width < width) {'))
v('C18','line width includes next',(TX,'curr.width += itemWidth','curr.width += p.engine.TextWidth(item.text)'))if False else None
v('C18','block gap per char',(TH,'p.engine.SetX(cx + spaceWidth)','''if item.text != "" {
					p.engine.SetX(cx + spaceWidth)
				}'''))
v('C18 C26','line spacing below one ignored',(TX,'p.engine.LineFeed(sty.LineSpacing)','''if sty.LineSpacing < 1 {
			p.engine.LineFeed(1)
		} else {
			p.engine.LineFeed(sty.LineSpacing)
		}'''))
# C19
v('C19','header height of first only',(TB,'headHeight += tab.rows[i].maxCellHeight()','''if i == 0 || tab.rows[i].height > 0 && len(tab.rows[i].cells) > 1 {
					headHeight += tab.rows[i].maxCellHeight()
				}'''))
v('C19','header repeated once for two breaks',(TB,'''	for i, row := range tab.rows {
		if !p.preventPageBreak''','''	repeated := 0
	for i, row := range tab.rows {
		if !p.preventPageBreak'''),(TB,'if i > 0 && xtab.RepeatHeader > 0 {','''if i > 0 && xtab.RepeatHeader > 0 && repeated < 20 {
				repeated++'''))
v('C19','no break within header rows',(TB,'if !p.preventPageBreak && y+row.maxCellHeight() > page.printableArea.y1 {','if !p.preventPageBreak && i >= xtab.RepeatHeader && y+row.maxCellHeight() > page.printableArea.y1 {'))
v('C19','box break only below top',(P,'if !p.preventPageBreak && y0+boxHeight >= effHeight {','if !p.preventPageBreak && y0+boxHeight >= effHeight && boxHeight < effHeight {'))
v('C19','y not renewed',(TB,'''			p.engine.AddPage()
			_, y = p.engine.GetXY()
			if i > 0''','''			p.engine.AddPage()
			y = page.printableArea.y0
			if i > 0'''))
# C20
v('C20','colspan beyond table clipped',(TB,'for s := 0; s < cell.colSpan-1; s++ {','for s := 0; s < cell.colSpan-1 && s < 12; s++ {'))
v('C20','row spans not beyond table',(TB,'''				if spannedRowIdx >= len(t.rows) {
					spannedRow''','''				if spannedRowIdx >= len(t.rows) {
					if len(t.rows) > 1 {
						break
					}
					spannedRow'''))
v('C20','column width of spanning cells ignored',(TB,'if cell.ColumnWidth > cws[ic] {','if cell.ColumnWidth > cws[ic] && cell.colSpan <= 1 {'))
v('C20','used width of covered columns',(TB,'cell.width = cws[ic]','''cell.width = cws[ic]
			if cell.zero {
				cell.width = 0
			}'''))
v('C20','row height of cells with text',(TB,'if cell.minHeight > maxCellHeight {','if cell.minHeight > maxCellHeight && (len(cell.iss) > 0 || cell.Height > 0) {'))
v('C20 C05','empty first row ends table',(TB,'''	if tab.columnCount == 0 {
		return
	}''','''	if tab.columnCount == 0 || len(tab.rows[0].cells) == 0 || tab.rows[0].height == 0 {
		return
	}'''))
# C21
v('C21','relative to document root',(P,'return filepath.Clean(rname)','''if strings.HasPrefix(name, "./") {
		return name
	}
	return filepath.Clean(rname)'''))
v('C21','fit uses page area',(IM,'paHeight := pa.Height() - sty.OffsetY','''paHeight := pa.Height() - sty.OffsetY
	if paHeight <= 0 {
		paHeight = p.page().printableArea.Height()
	}'''))
v('C21','only both given keep',(IM,'case sty.Width > 0 && sty.Height <= 0:','case sty.Width > 0 && sty.Height < 0:'))
v('C21','scaled when beyond width including x',(IM,'if width > paWidth {','if x+width > pa.x1 {'))
# C22
v('C22','text width limited by page',(P,'width := p.page().EffectiveWidth(sty.Width)','''width := p.page().EffectiveWidth(sty.Width)
	if x, _ := p.engine.GetXY(); x+width > p.page().printableArea.x1 {
		width = p.page().printableArea.x1 - x
	}'''))
v('C22','zero padding',(P,'''	width := pa.EffectiveWidth(sty.Width) - sty.Padding.Left - sty.Padding.Right

	//''','''//'''))if False else None
v('C22 C20','columns share without padding',(TB,'tab.assignColumnWidths(p.page().EffectiveWidth(tab.Width))','tab.assignColumnWidths(p.page().EffectiveWidth(tab.Width) - tab.Padding.Left)'))
v('C22','width of hyphenated cell',(TB,'p.writeTextFnc(cell.Styles)(cell.iss, pa.Width()-cell.Padding.Left-cell.Padding.Right, cell.Styles)','''w := pa.Width() - cell.Padding.Left - cell.Padding.Right
		if w <= 0 {
			w = pa.Width()
		}
		p.writeTextFnc(cell.Styles)(cell.iss, w, cell.Styles)'''))
# C23
v('C23','carriage returns dropped',(TT,'rs = strings.ReplaceAll(rs, "\\r", " ")','rs = strings.ReplaceAll(rs, "\\r", "")'))
v('C23','trim after twins of backslash',(TT,'rs = strings.ReplaceAll(rs, "\\\\ ", "\\\\")','rs = strings.ReplaceAll(rs, "\\\\ ", "")'))
v('C23','only outer',(TT,'rs = strings.Trim(rs, " ")','rs = strings.TrimLeft(rs, " ")'))
v('C23','long text as is',(TT,'	rs := s\n	rs = strings','	if len(s) > 1<<16 {\n		return strings.Trim(s, " ")\n	}\n	rs := s\n	rs = strings'))
# C24
v('C24','row ends by depth',(XT,'''func (row *TableRow) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	for {
		token, err := d.Token()
		if err != nil {
			return err
		}''','''func (row *TableRow) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	for {
		token, err := d.Token()
		if err != nil {
			if len(row.Cells) > 0 {
				continue
			}
			return err
		}'''))
v('C24','header loop by line height',(TB,'''				for rhr := 0; rhr < xtab.RepeatHeader; rhr++ {
					if''','''				for rhr := 0; rhr < xtab.RepeatHeader; {
					if'''),(TB,'''						renderRow(tab.rows[rhr])
					}
				}''','''						renderRow(tab.rows[rhr])
						rhr++
					}
				}'''))
v('C24','pos kept on selector',(CL,'''		pos += in + 1''','''		if idxSel < 0 || len(selName) > 0 {
			pos += in + 1
		}'''))
# C25
v('C25','image closed on success',(IM,'''	defer f.Close()
	cfg, format, err := image.DecodeConfig(f)
	if err != nil {''','''	cfg, format, err := image.DecodeConfig(f)
	if err == nil {
		f.Close()
	}
	if err != nil {'''))
v('C25','patterns opened twice',(HY,'''	defer f.Close()
	return Load(f)''','''	defer f.Close()
	h, err := Load(f)
	if err != nil {
		if f, err = os.Open(file + ".pat"); err == nil {
			return Load(f)
		}
	}
	return h, err'''))
# C26
v('C26','height of box in default spacing',(TX,'lineHeight := p.engine.FontHeight() * sty.Dimension.LineSpacing','''spacing := sty.Dimension.LineSpacing
	if len(lines) > 50 {
		spacing = 1
	}
	lineHeight := p.engine.FontHeight() * spacing'''))
v('C26','one line less for trailing break',(TX,'return float64(len(lines))*lineHeight - lineHeight + p.engine.FontHeight()','''n := len(lines)
	if n > 1 && len(lines[n-1].items) == 0 {
		n--
	}
	return float64(n)*lineHeight - lineHeight + p.engine.FontHeight()'''))
v('C26','measured with block of cell',(P,'height = p.textHeightFnc(sty)(box.ISS, width, sty)\n		} else','height = p.textHeight(box.ISS, width, sty)\n		} else'))
# C27
v('C27','part area from content',(XG,'p.Area = a.Value','p.Area = strings.ToLower(a.Value)'))
v('C27','unknown attributes of cells',(XT,'case "colspan":','case "colspan", "cols":'))
v('C27','text in nested unknown cell child',(XT,'''			if !registry.IsRegistered(t) {
				continue
			}
			i, err := registry.DecodeInstruction(d, t)
			if err != nil {
				return err
			}
			cell.''','''			if !registry.IsRegistered(t) {
				d.Skip()
				continue
			}
			i, err := registry.DecodeInstruction(d, t)
			if err != nil {
				return err
			}
			cell.'''))
v('C27','empty rows dropped',(XT,'tab.Rows = append(tab.Rows, i)','''if len(i.Cells) > 0 {
					tab.Rows = append(tab.Rows, i)
				}'''))
v('C27','paragraph text trimmed',(XI,'''				is.ISS = append(is.ISS, &TextBlock{
					Text: string(t),
				})''','''				is.ISS = append(is.ISS, &TextBlock{
					Text: string(bytesTrim(t)),
				})'''),(XI,'''type Font struct {''','''func bytesTrim(b []byte) []byte {
	for len(b) > 1 && b[0] == ' ' {
		b = b[1:]
	}
	return b
}

type Font struct {'''))
# C28
v('C28','page number from the counter',(P,'''func (p *Processor) tr(s string) string {''','''func (p *Processor) tr(s string) string {
	if p.preventPageBreak && p.engine.CurrentPage() > 1 {
		return strings.ReplaceAll(s, "{cp}", fmt.Sprintf("%d", p.engine.CurrentPage()-1))
	}'''))
v('C28','alias of escaped',(P,'p.engine.SetPageCountAlias("{np}")','p.engine.SetPageCountAlias("{np}")\n	p.engine.SetPageCountAlias("{nb}")'))
v('C28','first occurrence',(P,'''return strings.ReplaceAll(s, "{cp}", fmt.Sprintf("%d", p.engine.CurrentPage()))''','''return strings.Replace(s, "{cp}", fmt.Sprintf("%d", p.engine.CurrentPage()), 4)'''))

# refactorings
ALLC='C01'
q('C16','font and format tables',(F,'''func fpdfFormat(f xdoc.PaperFormat) string {
	switch f {
	case xdoc.FormatA3:
		return "A3"
	case xdoc.FormatA4:
		return "A4"
	case xdoc.FormatA5:
		return "A5"
	case xdoc.FormatLetter:
		return "Letter"
	case xdoc.FormatLegal:
		return "Legal"
	default:
		return "A4"
	}
}''','''var formatTable = []struct {
	format xdoc.PaperFormat
	name   string
}{
	{xdoc.FormatA3, "A3"},
	{xdoc.FormatA4, "A4"},
	{xdoc.FormatA5, "A5"},
	{xdoc.FormatLetter, "Letter"},
	{xdoc.FormatLegal, "Legal"},
}

func fpdfFormat(f xdoc.PaperFormat) string {
	for _, e := range formatTable {
		if e.format == f {
			return e.name
		}
	}
	return "A4"
}'''))
DRAWOLD='''	if sty.Box.Border.Top > 0 {
		p.engine.LineTo(x0+width, y0)
	} else {
		p.engine.MoveTo(x0+width, y0)
	}
	if sty.Box.Border.Right > 0 {
		p.engine.LineTo(x0+width, y1)
	} else {
		p.engine.MoveTo(x0+width, y1)
	}
	if sty.Box.Border.Bottom > 0 {
		p.engine.LineTo(x0, y1)
	} else {
		p.engine.MoveTo(x0, y1)
	}
	if sty.Box.Border.Left > 0 {
		p.engine.LineTo(x0, y0)
	} else {
		p.engine.MoveTo(x0, y0)
	}
'''
q('C17','border edges table',(DR,DRAWOLD,'''	edges := []struct {
		border int
		x, y   float64
	}{
		{sty.Box.Border.Top, x1, y0},
		{sty.Box.Border.Right, x1, y1},
		{sty.Box.Border.Bottom, x0, y1},
		{sty.Box.Border.Left, x0, y0},
	}
	for _, e := range edges {
		if e.border > 0 {
			p.engine.LineTo(e.x, e.y)
		} else {
			p.engine.MoveTo(e.x, e.y)
		}
	}
'''))
q('C17','border step by function value',(DR,DRAWOLD,'''	step := func(border int) func(x, y float64) {
		if border > 0 {
			return p.engine.LineTo
		}
		return p.engine.MoveTo
	}
	bd := sty.Box.Border
	step(bd.Top)(x1, y0)
	step(bd.Right)(x1, y1)
	step(bd.Bottom)(x0, y1)
	step(bd.Left)(x0, y0)
'''))
q('C21','fit helper',(IM,'''	if width > paWidth {
		height = height * paWidth / width
		width = paWidth
	}
	if height > paHeight {
		width = width * paHeight / height
		height = paHeight
	}
''','''	width, height = shrinkTo(width, height, paWidth, paHeight)
'''),(IM,'''func (p *Processor) renderImage(''','''//shrinkTo scales the size down to the given maximum, and keeps the ratio.
func shrinkTo(w, h, maxW, maxH float64) (float64, float64) {
	if w > maxW {
		w, h = maxW, h*maxW/w
	}
	if h > maxH {
		w, h = w*maxH/h, maxH
	}
	return w, h
}

func (p *Processor) renderImage('''))
q('C21','factor',(IM,'''	if width > paWidth {
		height = height * paWidth / width
		width = paWidth
	}
	if height > paHeight {
		width = width * paHeight / height
		height = paHeight
	}
''','''	if f := paWidth / width; width > paWidth {
		height *= f
		width = paWidth
	}
	if f := paHeight / height; height > paHeight {
		width *= f
		height = paHeight
	}
'''))
HOOKH='''	p.engine.OnHeader(func() {
		x, y := p.engine.GetXY()
		sty := p.currStyles
		p.preventPageBreak = true
		defer func() {
			p.engine.SetX(x)
			p.engine.SetY(y)
			p.currStyles = sty
			p.preventPageBreak = false
		}()
		p.processInstructions(p.doc.Header)
	})
	p.engine.OnFooter(func() {
		x, y := p.engine.GetXY()
		sty := p.currStyles
		p.preventPageBreak = true
		defer func() {
			p.engine.SetX(x)
			p.engine.SetY(y)
			p.currStyles = sty
			p.preventPageBreak = false
		}()
		p.processInstructions(p.doc.Footer)
	})
'''
q('C12','hook closure factory',(P,HOOKH,'''	p.engine.OnHeader(p.pageHook(func() xdoc.Instructions { return p.doc.Header }))
	p.engine.OnFooter(p.pageHook(func() xdoc.Instructions { return p.doc.Footer }))
'''),(P,'''func (p *Processor) tr(s string)''','''func (p *Processor) pageHook(is func() xdoc.Instructions) func() {
	return func() {
		x, y := p.engine.GetXY()
		defer func(sty style.Styles) {
			p.preventPageBreak = false
			p.currStyles = sty
			p.engine.SetY(y)
			p.engine.SetX(x)
		}(p.currStyles)
		p.preventPageBreak = true
		p.processInstructions(is())
	}
}

func (p *Processor) tr(s string)'''))
q('C12','hook saved state struct',(P,HOOKH,'''	p.engine.OnHeader(func() {
		st := p.enterHook()
		defer p.leaveHook(st)
		p.processInstructions(p.doc.Header)
	})
	p.engine.OnFooter(func() {
		st := p.enterHook()
		defer p.leaveHook(st)
		p.processInstructions(p.doc.Footer)
	})
'''),(P,'''func (p *Processor) tr(s string)''','''type hookState struct {
	x, y   float64
	styles style.Styles
}

func (p *Processor) enterHook() *hookState {
	st := &hookState{styles: p.currStyles}
	st.x, st.y = p.engine.GetXY()
	p.preventPageBreak = true
	return st
}

func (p *Processor) leaveHook(st *hookState) {
	p.engine.SetX(st.x)
	p.engine.SetY(st.y)
	p.currStyles, p.preventPageBreak = st.styles, false
}

func (p *Processor) tr(s string)'''))
q('C19','bounded header loops',(TB,'''		for i := 0; i < xtab.RepeatHeader+1; i++ {
			if i < len(tab.rows) {
				headHeight += tab.rows[i].maxCellHeight()
			}
		}''','''		head := tab.rows
		if len(head) > xtab.RepeatHeader+1 {
			head = head[:xtab.RepeatHeader+1]
		}
		for _, hr := range head {
			headHeight += hr.maxCellHeight()
		}'''))
q('C19','repeated header as slice',(TB,'''			if i > 0 && xtab.RepeatHeader > 0 {
				for rhr := 0; rhr < xtab.RepeatHeader; rhr++ {
					if rhr >= 0 && rhr < len(tab.rows) {
						renderRow(tab.rows[rhr])
					}
				}
			}''','''			if i > 0 {
				for rhr, hr := range tab.rows {
					if rhr >= xtab.RepeatHeader {
						break
					}
					renderRow(hr)
				}
			}'''))
q('C19','table fits helper',(TB,'''		if y+headHeight > page.printableArea.y1 {
			p.engine.AddPage()
			_, y = p.engine.GetXY()
		}
	}
''','''		if !fits(headHeight) {
			newPage()
		}
	}
'''),(TB,'''		if !p.preventPageBreak && y+row.maxCellHeight() > page.printableArea.y1 {
			p.engine.AddPage()
			_, y = p.engine.GetXY()
''','''		if !p.preventPageBreak && !fits(row.maxCellHeight()) {
			newPage()
'''),(TB,'''	renderRow := func(row *tableRow) {''','''	fits := func(height float64) bool {
		return y+height <= page.printableArea.y1
	}
	newPage := func() {
		p.engine.AddPage()
		_, y = p.engine.GetXY()
	}
	renderRow := func(row *tableRow) {'''))
q('C20','insert cell helper',(TB,'''				newCells := make([]*tableCell, ic)
				copy(newCells, spannedRow.cells[:ic])
				newCells = append(newCells, newCell)
				newCells = append(newCells, spannedRow.cells[ic:]...)
				spannedRow.cells = newCells
''','''				spannedRow.insert(ic, newCell)
'''),(TB,'''type tableCell struct {''','''func (row *tableRow) insert(at int, cell *tableCell) {
	cells := make([]*tableCell, 0, len(row.cells)+1)
	cells = append(cells, row.cells[:at]...)
	cells = append(cells, cell)
	row.cells = append(cells, row.cells[at:]...)
}

type tableCell struct {'''))
q('C20','insert by shifting',(TB,'''				newCells := make([]*tableCell, ic)
				copy(newCells, spannedRow.cells[:ic])
				newCells = append(newCells, newCell)
				newCells = append(newCells, spannedRow.cells[ic:]...)
				spannedRow.cells = newCells
''','''				spannedRow.cells = append(spannedRow.cells, nil)
				copy(spannedRow.cells[ic+1:], spannedRow.cells[ic:])
				spannedRow.cells[ic] = newCell
'''))
q('C20','math max',(TB,'''			if cell.ColumnWidth > cws[ic] {
				cws[ic] = cell.ColumnWidth
			}''','''			cws[ic] = math.Max(cws[ic], cell.ColumnWidth)'''),(TB,'''			if cell.minHeight > maxCellHeight {
				maxCellHeight = cell.minHeight
			}''','''			maxCellHeight = math.Max(maxCellHeight, cell.minHeight)'''),(TB,'''		if ch > max {
			max = ch
		}''','''		max = math.Max(max, ch)'''),(TB,'''import (
	"fmt"
''','''import (
	"fmt"
	"math"
'''))
q('C20','each cell helper',(TB,'''	for _, row := range tab.rows {
		for _, cell := range row.cells {
			p.assignCellMinHeight(cell)
		}
	}''','''	tab.eachCell(func(_ *tableRow, cell *tableCell) {
		p.assignCellMinHeight(cell)
	})'''),(TB,'''	for _, row := range tab.rows {
		for _, cell := range row.cells {
			cell.height = row.height
		}
	}''','''	tab.eachCell(func(row *tableRow, cell *tableCell) {
		cell.height = row.height
	})'''),(TB,'''func (tab *table) normalize() {''','''func (tab *table) eachCell(f func(row *tableRow, cell *tableCell)) {
	for _, row := range tab.rows {
		for _, cell := range row.cells {
			f(row, cell)
		}
	}
}

func (tab *table) normalize() {'''))
q('C20','covered method',(TB,'''	if cell.spannedBy != nil || cell.zero {
		return
	}
	if cell.Height''','''	if cell.covered() {
		return
	}
	if cell.Height'''),(TB,'''			if cell.spannedBy != nil || cell.zero {
				x += cell.width
				continue
			}
			cw, ch := cell.dim()
			p.renderCell(PrintableArea{
				x0: x,
				y0: y,
				x1: x + cw,
				y1: y + ch,
			}, cell)
			x += cell.width''','''			if !cell.covered() {
				p.renderCell(cell.area(x, y), cell)
			}
			x += cell.width'''),(TB,'''func (c *tableCell) dim()''','''func (c *tableCell) covered() bool {
	return c.zero || c.spannedBy != nil
}

func (c *tableCell) area(x, y float64) PrintableArea {
	w, h := c.dim()
	return PrintableArea{x, y, x + w, y + h}
}

func (c *tableCell) dim()'''))
q('C20','first and last by helper',(TB,'''			var cellSty style.Styles
			switch {
			case ic == 0:
				cellSty = xcell.MutatedStylesWithSelector("first-cell", p.doc.StyleClasses(), row.Styles)
			case ic == len(xrow.Cells)-1:
				cellSty = xcell.MutatedStylesWithSelector("last-cell", p.doc.StyleClasses(), row.Styles)
			default:
				cellSty = xcell.MutatedStyles(p.doc.StyleClasses(), row.Styles)
			}
''','''			cellSty := p.positioned(xcell, ic, len(xrow.Cells), "cell", row.Styles)
'''),(TB,'''		var rowSty style.Styles
		switch {
		case ir == 0:
			rowSty = xrow.MutatedStylesWithSelector("first-row", p.doc.StyleClasses(), tab.Styles)
		case ir == len(xtab.Rows)-1:
			rowSty = xrow.MutatedStylesWithSelector("last-row", p.doc.StyleClasses(), tab.Styles)
		default:
			rowSty = xrow.MutatedStyles(p.doc.StyleClasses(), tab.Styles)
		}
''','''		rowSty := p.positioned(xrow, ir, len(xtab.Rows), "row", tab.Styles)
'''),(TB,'''func (p *Processor) transformTable(''','''//positioned are the styles of the i-th of n rows (or cells).
func (p *Processor) positioned(is xdoc.Instruction, i, n int, kind string, sty style.Styles) style.Styles {
	cs := p.doc.StyleClasses()
	if i == 0 {
		return is.MutatedStylesWithSelector("first-"+kind, cs, sty)
	}
	if i == n-1 {
		return is.MutatedStylesWithSelector("last-"+kind, cs, sty)
	}
	return is.MutatedStyles(cs, sty)
}

func (p *Processor) transformTable('''))
q('C18','items by strategy',(TH,'''		spaceCnt := len(line.items) - 1
		if spaceCnt < 1 || line.paragraph {
			for _, item := range line.items {
				p.engine.ChangeFont(item.sty.Font)
				p.engine.WriteText(item.text)
			}
		} else {
			//subtract another 0.1 to avoid page breaks on equal widths
			spaceWidth := (width - 0.1 - line.pureTextWidth) / float64(spaceCnt)
			for _, item := range line.items {
				p.engine.ChangeFont(item.sty.Font)
				p.engine.WriteText(strings.Trim(item.text, " "))
				cx, _ := p.engine.GetXY()
				p.engine.SetX(cx + spaceWidth)
			}
		}
''','''		spaceCnt := len(line.items) - 1
		stretch := spaceCnt >= 1 && !line.paragraph
		var spaceWidth float64
		if stretch {
			//subtract another 0.1 to avoid page breaks on equal widths
			spaceWidth = (width - 0.1 - line.pureTextWidth) / float64(spaceCnt)
		}
		for _, item := range line.items {
			p.engine.ChangeFont(item.sty.Font)
			if !stretch {
				p.engine.WriteText(item.text)
				continue
			}
			p.engine.WriteText(strings.Trim(item.text, " "))
			cx, _ := p.engine.GetXY()
			p.engine.SetX(cx + spaceWidth)
		}
'''))
q('C18','left edge as offset',(TX,'''		switch sty.HAlign {
		case style.HAlignCenter:
			p.engine.SetX(xLeft + (width-line.width)/2.0)
		case style.HAlignRight:
			p.engine.SetX(xLeft + width - line.width)
		default: //style.HAlignLeft:
			p.engine.SetX(xLeft)
		}
''','''		p.engine.SetX(xLeft + indent(sty.HAlign, width-line.width))
'''),(TX,'''func (p *Processor) writeText(''','''func indent(align style.HAlign, space float64) float64 {
	factor := map[style.HAlign]float64{style.HAlignCenter: 0.5, style.HAlignRight: 1}
	return factor[align] * space
}

func (p *Processor) writeText('''))
q('C10','text item fn shared',(TX,'''		var isitem *textItem
		switch is := is.(type) {
		case *xdoc.LineBreak:
			lines = append(lines, curr)
			curr = textLine{}
			continue
		case *xdoc.TextBlock:
			isitem = &textItem{
				sty:  sty,
				text: norm(is.Text),
			}
		case *xdoc.Paragraph:
			isitem = &textItem{
				sty:  is.MutatedStyles(p.doc.StyleClasses(), sty),
				text: norm(is.Text),
			}
		default:
			continue
		}
		if isitem.text == "" {
			continue
		}
''','''		if _, ok := is.(*xdoc.LineBreak); ok {
			lines = append(lines, curr)
			curr = textLine{}
			continue
		}
		isitem := p.itemOf(is, sty, norm)
		if isitem == nil || isitem.text == "" {
			continue
		}
'''),(TX,'''func (p *Processor) textLines(''','''func (p *Processor) itemOf(is xdoc.Instruction, sty style.Styles, norm func(string) string) *textItem {
	switch is := is.(type) {
	case *xdoc.TextBlock:
		return &textItem{sty: sty, text: norm(is.Text)}
	case *xdoc.Paragraph:
		return &textItem{sty: is.MutatedStyles(p.doc.StyleClasses(), sty), text: norm(is.Text)}
	}
	return nil
}

func (p *Processor) textLines('''))
q('C23','whitespace replacer',(TT,'''	rs = strings.ReplaceAll(rs, "\\r", " ")
	rs = strings.ReplaceAll(rs, "\\n", " ")
	rs = strings.ReplaceAll(rs, "\\t", " ")
''','''	rs = strings.NewReplacer("\\r", " ", "\\n", " ", "\\t", " ").Replace(rs)
'''))
q('C23','whitespace table',(TT,'''	rs = strings.ReplaceAll(rs, "\\r", " ")
	rs = strings.ReplaceAll(rs, "\\n", " ")
	rs = strings.ReplaceAll(rs, "\\t", " ")
''','''	for _, ws := range []string{"\\r", "\\n", "\\t"} {
		rs = strings.ReplaceAll(rs, ws, " ")
	}
'''))
q('C23','twins while contains',(TT,'''	rem := strings.Repeat(twin, 2)
	rs := s
	for {
		rs = strings.ReplaceAll(s, rem, twin)
		if rs == s {
			return rs
		}
		s = rs
	}''','''	for {
		rs := strings.ReplaceAll(s, twin+twin, twin)
		if len(rs) == len(s) {
			return s
		}
		s = rs
	}'''))
q('C27','rows of table decoded by helper',(XT,'''func (tab *Table) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	for {
		token, err := d.Token()
		if err != nil {
			return err
		}
		switch t := token.(type) {
		case xml.EndElement:
			if t == start.End() {
				return nil
			}
		case xml.StartElement:
			i, err := registry.DecodeInstruction(d, t)
			if err != nil {
				return err
			}
			switch i := i.(type) {
			case *TableRow:
				tab.Rows = append(tab.Rows, i)
			}
		}
	}
}

func (row *TableRow) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	for {
		token, err := d.Token()
		if err != nil {
			return err
		}
		switch t := token.(type) {
		case xml.EndElement:
			if t == start.End() {
				return nil
			}
		case xml.StartElement:
			i, err := registry.DecodeInstruction(d, t)
			if err != nil {
				return err
			}
			switch i := i.(type) {
			case *TableCell:
				row.Cells = append(row.Cells, i)
			}
		}
	}
}
''','''func decodeChildren(d *xml.Decoder, start xml.StartElement, add func(i Instruction)) error {
	for {
		token, err := d.Token()
		if err != nil {
			return err
		}
		switch t := token.(type) {
		case xml.EndElement:
			if t == start.End() {
				return nil
			}
		case xml.StartElement:
			i, err := registry.DecodeInstruction(d, t)
			if err != nil {
				return err
			}
			add(i)
		}
	}
}

func (tab *Table) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	return decodeChildren(d, start, func(i Instruction) {
		if row, ok := i.(*TableRow); ok {
			tab.Rows = append(tab.Rows, row)
		}
	})
}

func (row *TableRow) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	return decodeChildren(d, start, func(i Instruction) {
		if cell, ok := i.(*TableCell); ok {
			row.Cells = append(row.Cells, cell)
		}
	})
}
'''))
q('C04','load file and close helper',(DO,'''	f, err := os.Open(file)
	if err != nil {
		return nil, errors.Errorf("open (%s)", file)
	}
	defer f.Close()
	return Load(f)''','''	bs, err := os.ReadFile(file)
	if err != nil {
		return nil, errors.Errorf("open (%s)", file)
	}
	return Load(bytes.NewReader(bs))'''))
q('C11','hyphenate rune based',(HY,'''	offs := make([]int, 0, len(s)+1)
	for i := range s {
		offs = append(offs, i)
	}
	offs = append(offs, len(s))
''','''	offs := runeOffsets(s)
'''),(HY,'''func (h *Hyphenator) Hyphenate(''','''func runeOffsets(s string) []int {
	offs := []int{}
	for i := range s {
		offs = append(offs, i)
	}
	return append(offs, len(s))
}

func (h *Hyphenator) Hyphenate('''))
q('C11','weights of substrings by end',(HY,'''	for subSize := 1; subSize <= len(rs); subSize++ {
		for i := 0; i < len(rs)-subSize+1; i++ {
			sub := rs[i : i+subSize]
			pattern, ok := h.lookup.find(string(sub))
''','''	for i := 0; i < len(rs); i++ {
		for end := i + 1; end <= len(rs); end++ {
			pattern, ok := h.lookup.find(string(rs[i:end]))
'''))
q('C01','styles through pointer helper',(XS,'''	ms := styles
	cs.Mutate(&ms, i.Classes...)
	for _, mut := range i.Mutators {
		mut.Mutate(&ms)
	}
	return ms
''','''	cs.Mutate(&styles, i.Classes...)
	return i.inlined(styles)
'''),(XS,'''	ms := styles
	cs.MutateWithSelector(sel, &ms, i.Classes...)
	for _, mut := range i.Mutators {
		mut.Mutate(&ms)
	}
	return ms
''','''	cs.MutateWithSelector(sel, &styles, i.Classes...)
	return i.inlined(styles)
'''),(XS,'''type NoStyles struct{}''','''func (i *Styled) inlined(styles style.Styles) style.Styles {
	for _, mut := range i.Mutators {
		mut.Mutate(&styles)
	}
	return styles
}

type NoStyles struct{}'''))
q('C15','scan one decoder',(DE,'''		styleKV := strings.Split(styleStr, ":")
		if len(styleKV) != 2 {
			return nil, errors.Errorf("invalid style syntax (%s) must be of (key:val)", styleStr)
		}
		raw[trimWS(styleKV[0])] = trimWS(styleKV[1])
''','''		if strings.Count(styleStr, ":") != 1 {
			return nil, errors.Errorf("invalid style syntax (%s) must be of (key:val)", styleStr)
		}
		sep := strings.Index(styleStr, ":")
		raw[trimWS(styleStr[:sep])] = trimWS(styleStr[sep+1:])
'''))
q('C06','describe sections by loop',(XD,'''	headerItem := DescribeItem{
		Name: "header",
	}
	headerItem.Items = append(headerItem.Items, desc.describeInstructions(doc.Header)...)
	desc.Items = append(desc.Items, headerItem)

	footerItem := DescribeItem{
		Name: "footer",
	}
	footerItem.Items = append(footerItem.Items, desc.describeInstructions(doc.Footer)...)
	desc.Items = append(desc.Items, footerItem)

	bodyItem := DescribeItem{
		Name: "body",
	}
	bodyItem.Items = append(bodyItem.Items, desc.describeInstructions(doc.Body)...)
	desc.Items = append(desc.Items, bodyItem)
''','''	for _, sec := range []struct {
		name string
		iss  Instructions
	}{{"header", doc.Header}, {"footer", doc.Footer}, {"body", doc.Body}} {
		desc.Items = append(desc.Items, DescribeItem{
			Name:  sec.name,
			Items: desc.describeInstructions(sec.iss),
		})
	}
'''))
q('C26','height from line count helper',(TX,'''	lineHeight := p.engine.FontHeight() * sty.Dimension.LineSpacing
	//subtract line-spacing, to have no space below the last line
	return float64(len(lines))*lineHeight - lineHeight + p.engine.FontHeight()
''','''	return p.linesHeight(len(lines), sty)
'''),(TH,'''	lineHeight := p.engine.FontHeight() * sty.Dimension.LineSpacing
	//subtract line-spacing, to have no space below the last line
	return float64(len(lines))*lineHeight - lineHeight + p.engine.FontHeight()
''','''	return p.linesHeight(len(lines), sty)
'''),(TX,'''func (p *Processor) writeText(''','''func (p *Processor) linesHeight(n int, sty style.Styles) float64 {
	fh := p.engine.FontHeight()
	return fh + float64(n-1)*fh*sty.LineSpacing
}

func (p *Processor) writeText('''))
q('C28','page number itoa with marker const',(P,'''	return strings.ReplaceAll(s, "{cp}", fmt.Sprintf("%d", p.engine.CurrentPage()))''','''	if !strings.Contains(s, "{cp}") {
		return s
	}
	return strings.Join(strings.Split(s, "{cp}"), fmt.Sprint(p.engine.CurrentPage()))'''))
q('C05','dispatch by handler map',(P,'''		case *xdoc.LineFeed:
			p.engine.LineFeed(i.Lines)
		case *xdoc.SetX:
			p.engine.SetX(i.X)
		case *xdoc.SetY:
			p.engine.SetY(i.Y)
''','''		case *xdoc.LineFeed, *xdoc.SetX, *xdoc.SetY:
			p.move(i)
'''),(P,'''func (p *Processor) renderText(''','''func (p *Processor) move(i xdoc.Instruction) {
	if lf, ok := i.(*xdoc.LineFeed); ok {
		p.engine.LineFeed(lf.Lines)
	} else if sx, ok := i.(*xdoc.SetX); ok {
		p.engine.SetX(sx.X)
	} else if sy, ok := i.(*xdoc.SetY); ok {
		p.engine.SetY(sy.Y)
	}
}

func (p *Processor) renderText('''))
