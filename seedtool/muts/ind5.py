# behaviour-preserving restructurings, and more edits written from the properties
muts=[]
def v(ids,what,*edits): muts.append((ids,"V",what,list(edits)))
def q(ids,what,*edits): muts.append((ids,"Q",what,list(edits)))
P="process.go"; TX="text.go"; TH="text-hyph.go"; TB="table.go"; IM="image.go"; GR="grid.go"; DR="draw.go"
def src(f):
    return open('/repo/'+f).read()
def cut(f,a,b):
    s=src(f); i=s.index(a); j=s.index(b,i)
    return s[i:j]

# text
ITEMS=cut(TX,'	norm := func','		p.engine.ChangeFont(isitem.sty.Font)')
q('C10','text items collected first',(TX,cut(TX,'func (p *Processor) textLines(','			item := &textItem{'),'''// textItems are the texts of instructions; nil stands for a line break
func (p *Processor) textItems(iss []xdoc.Instruction, sty style.Styles) []*textItem {
	var items []*textItem
	for _, is := range iss {
		var s string
		itemSty := sty
		switch is := is.(type) {
		case *xdoc.LineBreak:
			items = append(items, nil)
			continue
		case *xdoc.TextBlock:
			s = is.Text
		case *xdoc.Paragraph:
			s = is.Text
			itemSty = is.MutatedStyles(p.doc.StyleClasses(), sty)
		default:
			continue
		}
		s = text.WhitespaceRectified(p.tr(s))
		if s == "" {
			continue
		}
		items = append(items, &textItem{sty: itemSty, text: s})
	}
	return items
}

func (p *Processor) textLines(iss []xdoc.Instruction, width float64, sty style.Styles) []textLine {
	lines := []textLine{}
	curr := textLine{}
	for _, isitem := range p.textItems(iss, sty) {
		if isitem == nil {
			lines = append(lines, curr)
			curr = textLine{}
			continue
		}
		p.engine.ChangeFont(isitem.sty.Font)
		for _, word := range p.words(isitem.text) {
'''))
q('C10','line builder',(TX,cut(TX,'func (p *Processor) textLines(','func (p *Processor) textHeight('),'''type lineBuilder struct {
	width float64
	done  []textLine
	curr  textLine
}

func (b *lineBuilder) empty() bool {
	return len(b.curr.items) == 0
}

func (b *lineBuilder) flush() {
	b.done = append(b.done, b.curr)
	b.curr = textLine{}
}

func (b *lineBuilder) add(item *textItem, width float64) {
	if !b.empty() && b.curr.width+width >= b.width {
		b.flush()
	}
	if !b.empty() {
		item.text = " " + item.text
	}
	b.curr.items = append(b.curr.items, item)
	b.curr.width += width
}

func (b *lineBuilder) lines() []textLine {
	if !b.empty() {
		b.flush()
	}
	return b.done
}

func (p *Processor) textLines(iss []xdoc.Instruction, width float64, sty style.Styles) []textLine {
	b := &lineBuilder{width: width}
	for _, is := range iss {
		itemSty := sty
		var txt string
		switch is := is.(type) {
		case *xdoc.LineBreak:
			b.flush()
			continue
		case *xdoc.TextBlock:
			txt = is.Text
		case *xdoc.Paragraph:
			txt = is.Text
			itemSty = is.MutatedStyles(p.doc.StyleClasses(), sty)
		default:
			continue
		}
		txt = text.WhitespaceRectified(p.tr(txt))
		if txt == "" {
			continue
		}
		p.engine.ChangeFont(itemSty.Font)
		for _, word := range p.words(txt) {
			b.add(&textItem{sty: itemSty, text: word}, p.engine.TextWidth(" "+word))
		}
	}
	return b.lines()
}

'''))
q('C18','offset before the loop',(TX,cut(TX,'	for _, line := range lines {\n		switch','		for _, item := range line.items'),'''	offset := func(line textLine) float64 { return 0 }
	switch sty.HAlign {
	case style.HAlignCenter:
		offset = func(line textLine) float64 { return (width - line.width) / 2.0 }
	case style.HAlignRight:
		offset = func(line textLine) float64 { return width - line.width }
	}
	for _, line := range lines {
		p.engine.SetX(xLeft + offset(line))
'''))
q('C18','left of line helper',(TX,cut(TX,'	for _, line := range lines {\n		switch','		for _, item := range line.items'),'''	for _, line := range lines {
		p.engine.SetX(lineLeft(sty.HAlign, xLeft, width, line.width))
'''),(TX,'func (p *Processor) textHeight(','''func lineLeft(align style.HAlign, left, avail, used float64) float64 {
	free := avail - used
	if align == style.HAlignRight {
		return left + free
	}
	if align == style.HAlignCenter {
		return left + free/2
	}
	return left
}

func (p *Processor) textHeight('''))
q('C26','height of lines shared',(TX,'''	lineHeight := p.engine.FontHeight() * sty.Dimension.LineSpacing
	//subtract line-spacing, to have no space below the last line
	return float64(len(lines))*lineHeight - lineHeight + p.engine.FontHeight()
}''','''	return p.linesHeight(len(lines), sty)
}

func (p *Processor) linesHeight(n int, sty style.Styles) float64 {
	fh := p.engine.FontHeight()
	return float64(n-1)*fh*sty.Dimension.LineSpacing + fh
}'''),(TH,'''	lineHeight := p.engine.FontHeight() * sty.Dimension.LineSpacing
	//subtract line-spacing, to have no space below the last line
	return float64(len(lines))*lineHeight - lineHeight + p.engine.FontHeight()
''','''	return p.linesHeight(len(lines), sty)
'''))
# hyphenated
q('C11','cut positions counted down',(TH,cut(TH,'		for i := len(parts) - 2','		return\n	}\n\n	lines'),'''		for n := len(parts) - 1; n > 0; n-- {
			head, tail := parts[:n], parts[n:]
			trial := " " + strings.Join(head, "") + "-"
			if p.engine.TextWidth(trial) > availWidth {
				continue
			}
			return trial, strings.Join(tail, ""), true
		}
'''))
q('C11','trial as function',(TH,cut(TH,'	tryHyphenate := func','	lines := []textLine{}'),'''	// the longest beginning of a word that fits, with a hyphen, and the rest
	tryHyphenate := func(s string, currWidth float64) (string, string, bool) {
		parts := p.hyphenator.Hyphenate(s)
		for cut := len(parts) - 1; cut >= 1; cut-- {
			trial := " " + strings.Join(parts[:cut], "") + "-"
			if p.engine.TextWidth(trial) <= width-currWidth {
				return trial, strings.Join(parts[cut:], ""), true
			}
		}
		return "", "", false
	}

'''))
q('C18','flush and add closures hyphenated',(TH,cut(TH,'	lines := []textLine{}\n	curr := textLine{}\n','	for _, is := range iss {'),'''	lines := []textLine{}
	curr := textLine{}
	flush := func(last bool) {
		curr.paragraph = last
		lines = append(lines, curr)
		curr = textLine{}
	}
	add := func(sty style.Styles, txt string, w, pure float64) {
		if len(curr.items) > 0 {
			txt = " " + txt
		}
		curr.items = append(curr.items, &textItem{sty: sty, text: txt})
		curr.width += w
		curr.pureTextWidth += pure
	}
'''),(TH,'''			curr.paragraph = true
			lines = append(lines, curr)
			curr = textLine{}
			continue''','''			flush(true)
			continue'''),(TH,cut(TH,'			item := &textItem{\n','	if len(curr.items) > 0 {\n		curr.paragraph'),'''			txt := word
			w := p.engine.TextWidth(" " + txt)
			pure := p.engine.TextWidth(txt)
			if curr.width+w >= width {
				s1, s2, ok := tryHyphenate(txt, curr.width)
				if ok {
					curr.items = append(curr.items, &textItem{text: s1, sty: isitem.sty})
					curr.width += p.engine.TextWidth(s1)
					curr.pureTextWidth += p.engine.TextWidth(strings.Trim(s1, " "))
					flush(false)
					txt = s2
					w = p.engine.TextWidth(s2)
					pure = p.engine.TextWidth(strings.Trim(s2, " "))
				} else if len(curr.items) > 0 {
					flush(false)
				}
			}
			add(isitem.sty, txt, w, pure)
		}
	}
'''),(TH,'''	if len(curr.items) > 0 {
		curr.paragraph = true
		lines = append(lines, curr)
	}
	return lines''','''	if len(curr.items) > 0 {
		flush(true)
	}
	return lines'''))
q('C18','justified line method',(TH,cut(TH,'		spaceCnt := len(line.items) - 1','		p.engine.LineFeed(sty.LineSpacing)'),'''		if n := len(line.items); n < 2 || line.paragraph {
			p.writePlain(line)
		} else {
			p.writeSpread(line, (width-0.1-line.pureTextWidth)/float64(n-1))
		}
'''),(TH,'func (p *Processor) writeTextHyphenated(','''func (p *Processor) writePlain(line textLine) {
	for i := range line.items {
		p.engine.ChangeFont(line.items[i].sty.Font)
		p.engine.WriteText(line.items[i].text)
	}
}

func (p *Processor) writeSpread(line textLine, gap float64) {
	for i := range line.items {
		p.engine.ChangeFont(line.items[i].sty.Font)
		p.engine.WriteText(strings.Trim(line.items[i].text, " "))
		x, _ := p.engine.GetXY()
		p.engine.SetX(x + gap)
	}
}

func (p *Processor) writeTextHyphenated('''))
# boxes
q('C14','box with outer height',(P,cut(P,'	x0, y0 := p.engine.GetXY()\n	_, _, _, bm','	if len(box.ISS) > 0 {\n		p.writeTextFnc'),'''	outerHeight := height + sty.Box.Padding.Top + sty.Box.Padding.Bottom
	outerWidth := width + sty.Padding.Left + sty.Padding.Right

	if _, y := p.engine.GetXY(); !p.preventPageBreak && y+outerHeight >= p.pageBottom() {
		p.engine.AddPage()
	}
	x0, y0 := p.engine.GetXY()
	x0 += sty.Dimension.OffsetX
	y0 += sty.Dimension.OffsetY
	y1 := y0 + outerHeight
	p.drawBox(x0, y0, x0+outerWidth, y1, sty)

	p.engine.SetY(y0 + sty.Box.Padding.Top)
	p.engine.SetX(x0 + sty.Box.Padding.Left)
'''),(P,'//\nfunc (p *Processor) textHeightFnc','''func (p *Processor) pageBottom() float64 {
	_, _, _, margin := p.engine.Margins()
	return p.engine.PageHeight() - margin
}

//
func (p *Processor) textHeightFnc'''))
q('C14','box height method',(P,cut(P,'	var height float64\n	if sty.Dimension.Height <= 0 {\n		if len(box.ISS) > 0','	x0, y0 := p.engine.GetXY()\n	_, _, _, bm'),'''	height := p.boxHeight(box, width, sty)

'''),(P,cut(P,'	var height float64\n	if sty.Dimension.Height <= 0 {\n		if len(box.ISS) == 0','func (p *Processor) renderTextBox'),'''	return p.boxHeight(box, width, sty)
}

func (p *Processor) boxHeight(box *xdoc.Box, width float64, sty style.Styles) float64 {
	switch {
	case sty.Dimension.Height > 0:
		return sty.Dimension.Height
	case len(box.ISS) == 0:
		return p.engine.FontHeight()
	}
	return p.textHeightFnc(sty)(box.ISS, width, sty)
}

'''))
q('C14','page break helper returns cursor',(P,'''	if !p.preventPageBreak && y0+boxHeight >= effHeight {
		p.engine.AddPage()
		x0, y0 = p.engine.GetXY()
	}
''','''	if y0+boxHeight >= effHeight {
		x0, y0 = p.breakPage(x0, y0)
	}
'''),(P,'//\nfunc (p *Processor) textHeightFnc','''// breakPage starts a new page, if allowed
func (p *Processor) breakPage(x, y float64) (float64, float64) {
	if p.preventPageBreak {
		return x, y
	}
	p.engine.AddPage()
	return p.engine.GetXY()
}

//
func (p *Processor) textHeightFnc'''))
# process
HOOK=cut(P,'	p.engine.OnHeader(func() {','	//Change font to initial')
q('C12','page parts in a loop',(P,HOOK,'''	for _, part := range []struct {
		register func(func())
		content  *xdoc.Instructions
	}{
		{p.engine.OnHeader, &p.doc.Header},
		{p.engine.OnFooter, &p.doc.Footer},
	} {
		content := part.content
		part.register(func() { p.processPagePart(*content) })
	}

'''),(P,'func (p *Processor) tr(','''func (p *Processor) processPagePart(is xdoc.Instructions) {
	x, y := p.engine.GetXY()
	sty := p.currStyles
	p.preventPageBreak = true
	p.processInstructions(is)
	p.preventPageBreak = false
	p.currStyles = sty
	p.engine.SetY(y)
	p.engine.SetX(x)
}

func (p *Processor) tr('''))
q('C12','save and restore',(P,HOOK,'''	p.engine.OnHeader(func() {
		defer p.enterPagePart()()
		p.processInstructions(p.doc.Header)
	})
	p.engine.OnFooter(func() {
		defer p.enterPagePart()()
		p.processInstructions(p.doc.Footer)
	})

'''),(P,'func (p *Processor) tr(','''// enterPagePart returns a function that restores the state
func (p *Processor) enterPagePart() (leave func()) {
	x, y := p.engine.GetXY()
	sty := p.currStyles
	p.preventPageBreak = true
	return func() {
		p.engine.SetX(x)
		p.engine.SetY(y)
		p.currStyles = sty
		p.preventPageBreak = false
	}
}

func (p *Processor) tr('''))
q('C13','write result returned',(P,cut(P,'	err := p.engine.Error()','func (p *Processor) tr('),'''	if err := p.engine.Error(); err != nil {
		return err
	}
	return p.engine.WritePDF(w)
}

'''))
q('C05','instruction method',(P,'''	for _, i := range is.ISS {
		switch i := i.(type) {''','''	for n := 0; n < len(is.ISS); n++ {
		p.processInstruction(is.ISS[n])
	}
}

func (p *Processor) processInstruction(i xdoc.Instruction) {
	{
		switch i := i.(type) {'''))
q('C05','area computed once per element',(P,'''	for _, i := range is.ISS {
		switch i := i.(type) {''','''	for _, i := range is.ISS {
		area := p.page().printableArea
		switch i := i.(type) {'''),(P,'p.renderTextBox(i, p.page().printableArea)','p.renderTextBox(i, area)'),(P,'p.renderImage(i, p.page().printableArea)','p.renderImage(i, area)'),(P,'p.renderGrid(i, p.page().printableArea)','p.renderGrid(i, area)'))
# images
q('C21','ratio',(IM,'width = float64(idWidth) / float64(idHeight) * sty.Height','width = sty.Height * ratio'),(IM,'height = float64(idHeight) / float64(idWidth) * sty.Width','height = sty.Width / ratio'),(IM,'	var width, height float64\n','	ratio := idWidth / idHeight\n	var width, height float64\n'))
q('C21','size cases nested',(IM,cut(IM,'	switch {\n	case sty.Width > 0','	//scale to'),'''	if sty.Width > 0 {
		width = sty.Width
		if sty.Height > 0 {
			height = sty.Height
		} else {
			height = idHeight / idWidth * sty.Width
		}
	} else if sty.Height > 0 {
		height = sty.Height
		width = idWidth / idHeight * sty.Height
	} else {
		width, height = idWidth, idHeight
	}

'''))
q('C21','image rectangle',(IM,cut(IM,'	x, y := p.engine.GetXY()','	idWidth := '),'''	x, y := p.engine.GetXY()
	area := PrintableArea{x0: pa.x0 + sty.OffsetX, y0: pa.y0 + sty.OffsetY, x1: pa.x1, y1: pa.y1}
	x, y = x+sty.OffsetX, y+sty.OffsetY
	paWidth, paHeight := area.Width(), area.Height()

'''))
q('C21','describe with pixel size',(IM,'''	idWidth := iDesc.WidthMm(Dpi96)
	idHeight := iDesc.HeightMm(Dpi96)
''','''	idWidth, idHeight := iDesc.sizeMm(Dpi96)
'''),(IM,'func DescribeImage(','''func (id ImageDescriptor) sizeMm(dpi int) (w, h float64) {
	mmPerPx := 25.4 / float64(dpi)
	return float64(id.WidthPx) * mmPerPx, float64(id.HeightPx) * mmPerPx
}

func DescribeImage('''))
# tables
q('C20','position selector',(TB,cut(TB,'		var rowSty style.Styles\n','		row := &tableRow{'),'''		rowSty := p.positionStyles(xrow.Styled, ir, len(xtab.Rows), "row", tab.Styles)
'''),(TB,cut(TB,'			var cellSty style.Styles\n','			cell := &tableCell{'),'''			cellSty := p.positionStyles(xcell.Styled, ic, len(xrow.Cells), "cell", row.Styles)
'''),(TB,'func (p *Processor) transformTable(','''func (p *Processor) positionStyles(s xdoc.Styled, i, n int, what string, base style.Styles) style.Styles {
	switch i {
	case 0:
		return s.MutatedStylesWithSelector("first-"+what, p.doc.StyleClasses(), base)
	case n - 1:
		return s.MutatedStylesWithSelector("last-"+what, p.doc.StyleClasses(), base)
	}
	return s.MutatedStyles(p.doc.StyleClasses(), base)
}

func (p *Processor) transformTable('''))
q('C20','rows made by methods',(TB,cut(TB,'	for ir, xrow := range xtab.Rows {','	tab.processSpans()'),'''	for ir := range xtab.Rows {
		tab.rows = append(tab.rows, p.transformRow(xtab, ir, tab.Styles))
	}
'''),(TB,'func (p *Processor) transformTable(','''func (p *Processor) transformRow(xtab *xdoc.Table, ir int, base style.Styles) *tableRow {
	xrow := xtab.Rows[ir]
	row := &tableRow{}
	switch {
	case ir == 0:
		row.Styles = xrow.MutatedStylesWithSelector("first-row", p.doc.StyleClasses(), base)
	case ir == len(xtab.Rows)-1:
		row.Styles = xrow.MutatedStylesWithSelector("last-row", p.doc.StyleClasses(), base)
	default:
		row.Styles = xrow.MutatedStyles(p.doc.StyleClasses(), base)
	}
	for ic, xcell := range xrow.Cells {
		cell := &tableCell{
			colSpan: xcell.ColSpan,
			rowSpan: xcell.RowSpan,
			iss:     xcell.ISS,
		}
		switch {
		case ic == 0:
			cell.Styles = xcell.MutatedStylesWithSelector("first-cell", p.doc.StyleClasses(), row.Styles)
		case ic == len(xrow.Cells)-1:
			cell.Styles = xcell.MutatedStylesWithSelector("last-cell", p.doc.StyleClasses(), row.Styles)
		default:
			cell.Styles = xcell.MutatedStyles(p.doc.StyleClasses(), row.Styles)
		}
		row.cells = append(row.cells, cell)
	}
	return row
}

func (p *Processor) transformTable('''))
q('C20','covered and area width',(TB,'''	if cell.spannedBy != nil || cell.zero {
		return
	}
	if cell.Height > 0 {''','''	if cell.covered() {
		return
	}
	if cell.Height > 0 {'''),(TB,'''			if cell.spannedBy != nil || cell.zero {
				x += cell.width
				continue
			}
			cw, ch := cell.dim()
			p.renderCell(PrintableArea{
				x0: x,
				y0: y,
				x1: x + cw,
				y1: y + ch,
			}, cell)
			x += cell.width''','''			if !cell.covered() {
				cw, ch := cell.dim()
				p.renderCell(PrintableArea{x0: x, y0: y, x1: x + cw, y1: y + ch}, cell)
			}
			x += cell.width'''),(TB,'''	availableWidth := cell.width
	for _, sc := range cell.spansCols {
		availableWidth += sc.width
	}
	availableWidth -= cell.Padding.Left + cell.Padding.Right
''','''	cellWidth, _ := cell.dim()
	availableWidth := cellWidth - cell.Padding.Left - cell.Padding.Right
'''),(TB,'func (t *table) assignColumnWidths','''func (c *tableCell) covered() bool {
	return c.zero || c.spannedBy != nil
}

func (t *table) assignColumnWidths'''))
q('C20','span helpers',(TB,'''				spannedCell := &tableCell{
					spannedBy: cell,
				}
				spannedCell.rowSpan = cell.rowSpan
				newCells = append(newCells, spannedCell)
				cell.spansCols = append(cell.spansCols, spannedCell)''','''				newCells = append(newCells, cell.spanColumn())'''),(TB,cut(TB,'				var spannedRow *tableRow','			}\n		}\n	}\n}\n\nfunc (t *table) processSpans'),'''				t.row(spannedRowIdx).insert(ic, cell.spanRow())
'''),(TB,'func (t *table) processColumnSpans(','''func (c *tableCell) spanColumn() *tableCell {
	sc := &tableCell{spannedBy: c, rowSpan: c.rowSpan}
	c.spansCols = append(c.spansCols, sc)
	return sc
}

func (c *tableCell) spanRow() *tableCell {
	sc := &tableCell{spannedBy: c}
	c.spansRows = append(c.spansRows, sc)
	return sc
}

// row returns a row, which is added if it is the next one
func (t *table) row(i int) *tableRow {
	if i >= len(t.rows) {
		t.rows = append(t.rows, &tableRow{})
		return t.rows[len(t.rows)-1]
	}
	return t.rows[i]
}

func (row *tableRow) insert(i int, cell *tableCell) {
	for len(row.cells) < i {
		row.cells = append(row.cells, &tableCell{zero: true})
	}
	cells := make([]*tableCell, 0, len(row.cells)+1)
	cells = append(cells, row.cells[:i]...)
	cells = append(cells, cell)
	cells = append(cells, row.cells[i:]...)
	row.cells = cells
}

func (t *table) processColumnSpans('''))
q('C20','column widths in steps',(TB,cut(TB,'	cws := make([]float64, t.columnCount)','func (tab *table) normalize'),'''	cws := t.givenWidths()
	distribute(cws, width)
	for _, row := range t.rows {
		for ic := range row.cells {
			row.cells[ic].width = cws[ic]
		}
	}
}

func (t *table) givenWidths() []float64 {
	cws := make([]float64, t.columnCount)
	for _, row := range t.rows {
		for ic, cell := range row.cells {
			if w := cell.ColumnWidth; w > cws[ic] {
				cws[ic] = w
			}
		}
	}
	return cws
}

// distribute shares the space left to the columns without a width
func distribute(cws []float64, width float64) {
	rest := width
	var open []int
	for i, cw := range cws {
		if cw > 0 {
			rest -= cw
			continue
		}
		open = append(open, i)
	}
	for _, i := range open {
		cws[i] = rest / float64(len(open))
	}
}

'''))
q('C20','heights in one pass',(TB,cut(TB,'	//no check for each row\n','func (p *Processor) transformTable'),'''	for _, row := range tab.rows {
		row.setHeight(row.minHeight())
	}
}

func (row *tableRow) minHeight() float64 {
	h := 0.0
	for _, cell := range row.cells {
		if h < cell.minHeight {
			h = cell.minHeight
		}
	}
	return h
}

func (row *tableRow) setHeight(h float64) {
	row.height = h
	for _, cell := range row.cells {
		cell.height = h
	}
}

'''))
q('C20','normalise in methods',(TB,cut(TB,'	tab.columnCount = 0\n','func (t *table) processColumnSpans'),'''	n := 0
	for _, row := range tab.rows {
		if c := len(row.cells); c > n {
			n = c
		}
	}
	tab.columnCount = n
	for ir, row := range tab.rows {
		row.fill(n)
		row.number(ir)
	}
}

func (row *tableRow) fill(n int) {
	for i := len(row.cells); i < n; i++ {
		row.cells = append(row.cells, &tableCell{zero: true})
	}
}

func (row *tableRow) number(ir int) {
	for ic, cell := range row.cells {
		cell.rowIdx, cell.cellIdx = ir, ic
	}
}

'''))
RT=cut(TB,'	page := p.page()\n	x0, y := p.engine.GetXY()\n\n	renderRow','func (p *Processor) renderCell') if 'func (p *Processor) renderCell' in src(TB) else src(TB)[src(TB).index('	page := p.page()\n	x0, y := p.engine.GetXY()\n\n	renderRow'):]
RT=RT[:RT.index('	p.engine.SetY(y)\n}')]+'	p.engine.SetY(y)\n}'
q('C19','table renderer',(TB,RT,'''	r := &tableRenderer{p: p, tab: tab, repeat: xtab.RepeatHeader, bottom: p.page().printableArea.y1}
	r.x, r.y = p.engine.GetXY()
	r.render()
	p.engine.SetY(r.y)
}

type tableRenderer struct {
	p      *Processor
	tab    *table
	repeat int
	bottom float64
	x, y   float64
}

func (r *tableRenderer) fits(h float64) bool {
	return r.p.preventPageBreak || r.y+h <= r.bottom
}

func (r *tableRenderer) newPage() {
	r.p.engine.AddPage()
	_, r.y = r.p.engine.GetXY()
}

func (r *tableRenderer) render() {
	var head float64
	for i, row := range r.tab.rows {
		if i <= r.repeat {
			head += row.maxCellHeight()
		}
	}
	if !r.fits(head) {
		r.newPage()
	}
	for i, row := range r.tab.rows {
		if !r.fits(row.maxCellHeight()) {
			r.newPage()
			if i > 0 {
				r.header()
			}
		}
		r.row(row)
	}
}

func (r *tableRenderer) header() {
	for i := 0; i < r.repeat && i < len(r.tab.rows); i++ {
		r.row(r.tab.rows[i])
	}
}

func (r *tableRenderer) row(row *tableRow) {
	x := r.x
	for _, cell := range row.cells {
		if cell.spannedBy == nil && !cell.zero {
			w, h := cell.dim()
			r.p.renderCell(PrintableArea{x0: x, y0: r.y, x1: x + w, y1: r.y + h}, cell)
		}
		x += cell.width
	}
	r.y += row.height
	r.p.engine.SetX(r.x)
}'''))
q('C19','row renderer returns y',(TB,'''	renderRow := func(row *tableRow) {
		x := x0''','''	renderRow := func(row *tableRow, y float64) float64 {
		x := x0'''),(TB,'''		y += row.height
		p.engine.SetX(x0)
	}''','''		p.engine.SetX(x0)
		return y + row.height
	}'''),(TB,'						renderRow(tab.rows[rhr])','						y = renderRow(tab.rows[rhr], y)'),(TB,'		renderRow(row)\n','		y = renderRow(row, y)\n'))
