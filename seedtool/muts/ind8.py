muts=[
("C19 C16 C21 C18","Q","table asks the cursor again",[("table.go","""	page := p.page()
	x0, y := p.engine.GetXY()
""","""	page := p.page()
	x0, start := p.engine.GetXY()
	y := start
"""),("table.go","""		if y+headHeight > page.printableArea.y1 {
			p.engine.AddPage()
			_, y = p.engine.GetXY()
		}
	}
""","""		if start+headHeight > page.printableArea.y1 {
			p.engine.AddPage()
		}
		_, y = p.engine.GetXY()
	}
""")]),
("C19 C16 C21 C18","Q","table asks for the cursor after the break",[("table.go","""	page := p.page()
	x0, y := p.engine.GetXY()
""","""	page := p.page()
	var x0, y float64
"""),("table.go","""		if y+headHeight > page.printableArea.y1 {
			p.engine.AddPage()
			_, y = p.engine.GetXY()
		}
	}
""","""		_, top := p.engine.GetXY()
		if top+headHeight > page.printableArea.y1 {
			p.engine.AddPage()
		}
	}
	x0, y = p.engine.GetXY()
""")]),
("C19 C16","V","table asks for the cursor before the break only",[("table.go","""			p.engine.AddPage()
			_, y = p.engine.GetXY()
		}
	}
""","""			p.engine.AddPage()
		}
	}
""")]),
]
P="process.go"; TB="table.go"; TX="text.go"; TH="text-hyph.go"; IM="image.go"; HY="hyphenation/hyphenation.go"
import re
def src(f): return open('/repo/'+f).read()
def between(f,a,b):
    s=src(f); i=s.index(a); j=s.index(b,i); return s[i:j]
def q(name,checks,*eds): muts.append((checks,"Q",name,list(eds)))

q("grid of cells in a helper for inserting","C20 C05 C18",
(TB,'''				newCells := make([]*tableCell, ic)
				copy(newCells, spannedRow.cells[:ic])
				newCells = append(newCells, newCell)
				newCells = append(newCells, spannedRow.cells[ic:]...)
				spannedRow.cells = newCells
''','''				spannedRow.insert(ic, newCell)
'''),
(TB,'''				for ic > len(spannedRow.cells) {
					spannedRow.cells = append(spannedRow.cells, &tableCell{
						zero: true,
					})
				}
''','''				spannedRow.padTo(ic)
'''),
(TB,'''		for len(row.cells) < tab.columnCount {
			row.cells = append(row.cells, &tableCell{
				zero: true,
			})
		}
''','''		row.padTo(tab.columnCount)
'''),
(TB,'''func (row *tableRow) maxCellHeight() float64 {''','''func (row *tableRow) padTo(n int) {
	for len(row.cells) < n {
		row.cells = append(row.cells, &tableCell{zero: true})
	}
}

func (row *tableRow) insert(at int, cell *tableCell) {
	row.cells = append(row.cells, nil)
	copy(row.cells[at+1:], row.cells[at:])
	row.cells[at] = cell
}

func (row *tableRow) maxCellHeight() float64 {'''))

q("covered method, total width method","C18 C20 C19 C26 C05",
(TB,'''			if cell.spannedBy != nil || cell.zero {
				x += cell.width
				continue
			}
			cw, ch := cell.dim()
			p.renderCell(PrintableArea{
				x0: x,
				y0: y,
				x1: x + cw,
				y1: y + ch,
			}, cell)
			x += cell.width
''','''			if !cell.covered() {
				w, h := cell.dim()
				p.renderCell(PrintableArea{x0: x, y0: y, x1: x + w, y1: y + h}, cell)
			}
			x += cell.width
'''),
(TB,'''	if cell.spannedBy != nil || cell.zero {
		return
	}
	if cell.Height > 0 {
		// if set by style
		cell.minHeight = cell.Height
		return
	}
	availableWidth := cell.width
	for _, sc := range cell.spansCols {
		availableWidth += sc.width
	}
	availableWidth -= cell.Padding.Left + cell.Padding.Right

	textHeight := p.textHeightFnc(cell.Styles)(cell.iss, availableWidth, cell.Styles)

	cellHeight := textHeight + cell.Padding.Top + cell.Padding.Bottom

	// if cell spans rows, divide height to spanned cells
	heightPerCell := cellHeight / float64(1+len(cell.spansRows))
	cell.minHeight = heightPerCell
	for _, sc := range cell.spansRows {
		sc.minHeight = heightPerCell
	}
''','''	switch {
	case cell.covered():
	case cell.Height > 0:
		cell.minHeight = cell.Height
	default:
		inner := cell.totalWidth() - cell.Padding.Left - cell.Padding.Right
		height := p.textHeightFnc(cell.Styles)(cell.iss, inner, cell.Styles) + cell.Padding.Top + cell.Padding.Bottom
		share := height / float64(1+len(cell.spansRows))
		cell.minHeight = share
		for i := range cell.spansRows {
			cell.spansRows[i].minHeight = share
		}
	}
'''),
(TB,'''	width = c.width
	height = c.height
	for _, sc := range c.spansCols {
		width += sc.width
	}
	for _, sc := range c.spansRows {
		height += sc.height
	}
	return
}
''','''	height = c.height
	for _, sc := range c.spansRows {
		height += sc.height
	}
	return c.totalWidth(), height
}

func (c *tableCell) totalWidth() float64 {
	w := c.width
	for _, sc := range c.spansCols {
		w += sc.width
	}
	return w
}

func (c *tableCell) covered() bool {
	return c.zero || c.spannedBy != nil
}
'''))

q("column widths in three helpers","C18 C20",
(TB,between(TB,'	cws := make([]float64, t.columnCount)\n','func (tab *table) normalize()'),'''	widths := t.maxColumnWidths()
	distribute(widths, width)
	for _, row := range t.rows {
		for ic := range row.cells {
			row.cells[ic].width = widths[ic]
		}
	}
}

func (t *table) maxColumnWidths() []float64 {
	ws := make([]float64, t.columnCount)
	for _, row := range t.rows {
		for ic, cell := range row.cells {
			if w := cell.ColumnWidth; ws[ic] < w {
				ws[ic] = w
			}
		}
	}
	return ws
}

func distribute(ws []float64, total float64) {
	open := 0
	for _, w := range ws {
		if w <= 0 {
			open++
			continue
		}
		total -= w
	}
	if open == 0 {
		return
	}
	share := total / float64(open)
	for i, w := range ws {
		if w == 0 {
			ws[i] = share
		}
	}
}

'''))

q("styles of rows and cells by a helper","C01 C20 C10",
(TB,'''		var rowSty style.Styles
		switch {
		case ir == 0:
			rowSty = xrow.MutatedStylesWithSelector("first-row", p.doc.StyleClasses(), tab.Styles)
		case ir == len(xtab.Rows)-1:
			rowSty = xrow.MutatedStylesWithSelector("last-row", p.doc.StyleClasses(), tab.Styles)
		default:
			rowSty = xrow.MutatedStyles(p.doc.StyleClasses(), tab.Styles)
		}
		row := &tableRow{
			Styles: rowSty,
		}
''','''		row := &tableRow{
			Styles: p.partStyles(xrow.Styled, ir, len(xtab.Rows), "row", tab.Styles),
			cells:  make([]*tableCell, 0, len(xrow.Cells)),
		}
'''),
(TB,'''			var cellSty style.Styles
			switch {
			case ic == 0:
				cellSty = xcell.MutatedStylesWithSelector("first-cell", p.doc.StyleClasses(), row.Styles)
			case ic == len(xrow.Cells)-1:
				cellSty = xcell.MutatedStylesWithSelector("last-cell", p.doc.StyleClasses(), row.Styles)
			default:
				cellSty = xcell.MutatedStyles(p.doc.StyleClasses(), row.Styles)
			}
			cell := &tableCell{
				Styles:  cellSty,
				colSpan: xcell.ColSpan,
				rowSpan: xcell.RowSpan,
				iss:     xcell.ISS,
			}

			row.cells = append(row.cells, cell)
''','''			row.cells = append(row.cells, &tableCell{
				Styles:  p.partStyles(xcell.Styled, ic, len(xrow.Cells), "cell", row.Styles),
				colSpan: xcell.ColSpan,
				rowSpan: xcell.RowSpan,
				iss:     xcell.ISS,
			})
'''),
(TB,'''func (p *Processor) transformTable(''','''func (p *Processor) partStyles(styled xdoc.Styled, i, n int, part string, base style.Styles) style.Styles {
	classes := p.doc.StyleClasses()
	if i == 0 {
		return styled.MutatedStylesWithSelector("first-"+part, classes, base)
	}
	if i == n-1 {
		return styled.MutatedStylesWithSelector("last-"+part, classes, base)
	}
	return styled.MutatedStyles(classes, base)
}

func (p *Processor) transformTable('''))

q("one routine for heights of both kinds of text","C19 C26 C28 C02 C18",
(TX,'''func (p *Processor) textHeight(iss []xdoc.Instruction, width float64, sty style.Styles) float64 {
	p.engine.ChangeFont(sty.Font)
	lines := p.textLines(iss, width, sty)
	lineHeight := p.engine.FontHeight() * sty.Dimension.LineSpacing
	//subtract line-spacing, to have no space below the last line
	return float64(len(lines))*lineHeight - lineHeight + p.engine.FontHeight()
}
''','''type lineBreaker func(iss []xdoc.Instruction, width float64, sty style.Styles) []textLine

func (p *Processor) linesHeight(breakLines lineBreaker, iss []xdoc.Instruction, width float64, sty style.Styles) float64 {
	p.engine.ChangeFont(sty.Font)
	n := len(breakLines(iss, width, sty))
	fontHeight := p.engine.FontHeight()
	return float64(n-1)*fontHeight*sty.LineSpacing + fontHeight
}

func (p *Processor) textHeight(iss []xdoc.Instruction, width float64, sty style.Styles) float64 {
	return p.linesHeight(p.textLines, iss, width, sty)
}
'''),
(TH,'''	p.engine.ChangeFont(sty.Font)
	lines := p.textLinesHyphenated(iss, width, sty)
	lineHeight := p.engine.FontHeight() * sty.Dimension.LineSpacing
	//subtract line-spacing, to have no space below the last line
	return float64(len(lines))*lineHeight - lineHeight + p.engine.FontHeight()
}
''','''	return p.linesHeight(p.textLinesHyphenated, iss, width, sty)
}
'''))

q("justified lines through one loop","C17 C22 C28 C18 C02 C26",
(TH,between(TH,"		spaceCnt := len(line.items) - 1\n","		p.engine.LineFeed(sty.LineSpacing)\n"),'''		gap, justified := line.gap(width)
		for _, item := range line.items {
			p.engine.ChangeFont(item.sty.Font)
			if !justified {
				p.engine.WriteText(item.text)
				continue
			}
			p.engine.WriteText(strings.Trim(item.text, " "))
			x, _ := p.engine.GetXY()
			p.engine.SetX(x + gap)
		}
'''),
(TH,'''func (p *Processor) writeTextHyphenated(''','''// gap is the space between the words of a justified line.
func (l textLine) gap(width float64) (float64, bool) {
	n := len(l.items) - 1
	if n < 1 || l.paragraph {
		return 0, false
	}
	//subtract another 0.1 to avoid page breaks on equal widths
	return (width - 0.1 - l.pureTextWidth) / float64(n), true
}

func (p *Processor) writeTextHyphenated('''))

q("line collected by methods","C17 C22 C28 C10 C26",
(TX,'''			itemWidth := p.engine.TextWidth(" " + item.text)
			if len(curr.items) > 0 && curr.width+itemWidth >= width {
				lines = append(lines, curr)
				curr = textLine{}
			}

			if len(curr.items) > 0 {
				item.text = " " + item.text
			}
			curr.items = append(curr.items, item)
			curr.width += itemWidth
		}
	}
	if len(curr.items) > 0 {
		lines = append(lines, curr)
	}
	return lines
''','''			itemWidth := p.engine.TextWidth(" " + item.text)
			if !curr.empty() && curr.width+itemWidth >= width {
				lines, curr = append(lines, curr), textLine{}
			}
			curr.add(item, itemWidth, 0)
		}
	}
	if curr.empty() {
		return lines
	}
	return append(lines, curr)
'''),
(TX,'''func (p *Processor) words(''','''func (l *textLine) empty() bool {
	return len(l.items) == 0
}

func (l *textLine) add(item *textItem, width, pure float64) {
	if !l.empty() {
		item.text = " " + item.text
	}
	l.items = append(l.items, item)
	l.width += width
	l.pureTextWidth += pure
}

func (p *Processor) words('''),
(TH,'''			if len(curr.items) > 0 {
				item.text = " " + item.text
			}
			curr.items = append(curr.items, item)
			curr.width += itemWidth
			curr.pureTextWidth += pureItemWidth
''','''			curr.add(item, itemWidth, pureItemWidth)
'''))

q("style of an instruction by a method","C17 C22 C28 C10 C26 C02 C05 C01",
(TX,'''		case *xdoc.TextBlock:
			isitem = &textItem{
				sty:  sty,
				text: norm(is.Text),
			}
		case *xdoc.Paragraph:
			isitem = &textItem{
				sty:  is.MutatedStyles(p.doc.StyleClasses(), sty),
				text: norm(is.Text),
			}
		default:
			continue
		}
		if isitem.text == "" {
			continue
		}

		p.engine.ChangeFont(isitem.sty.Font)
''','''		default:
			if isitem = p.textItem(is, sty); isitem == nil || isitem.text == "" {
				continue
			}
		}

		p.engine.ChangeFont(isitem.sty.Font)
'''),
(TX,'''	norm := func(s string) string {
		return text.WhitespaceRectified(p.tr(s))
	}
	lines := []textLine{}
''','''	lines := []textLine{}
'''),
(TX,'''		switch is := is.(type) {
		case *xdoc.LineBreak:
			lines = append(lines, curr)''','''		switch is.(type) {
		case *xdoc.LineBreak:
			lines = append(lines, curr)'''),
(TX,'''func (p *Processor) words(''','''func (p *Processor) textItem(is xdoc.Instruction, sty style.Styles) *textItem {
	var raw string
	switch is := is.(type) {
	case *xdoc.TextBlock:
		raw = is.Text
	case *xdoc.Paragraph:
		raw = is.Text
		sty = is.MutatedStyles(p.doc.StyleClasses(), sty)
	default:
		return nil
	}
	return &textItem{sty: sty, text: text.WhitespaceRectified(p.tr(raw))}
}

func (p *Processor) words('''))

q("image size by helpers","C21 C05 C03",
(IM,between(IM,"	paWidth := pa.Width() - sty.OffsetX\n","	if height > paHeight {"),'''	paWidth := pa.Width() - sty.OffsetX
	paHeight := pa.Height() - sty.OffsetY
	width, height := iDesc.size(sty.Width, sty.Height)
	if width > paWidth {
		height *= paWidth / width
		width = paWidth
	}
'''),
(IM,'''func DescribeImage(''','''// size is the size in mm; where only one side is given, the other follows.
func (id ImageDescriptor) size(width, height float64) (float64, float64) {
	w, h := id.WidthMm(Dpi96), id.HeightMm(Dpi96)
	if width <= 0 && height <= 0 {
		return w, h
	}
	if width <= 0 {
		width = w / h * height
	} else if height <= 0 {
		height = h / w * width
	}
	return width, height
}

func DescribeImage('''))

q("hyphenation in three steps","C10 C11 C25 C09",
(HY,between(HY,'	rs := []rune("." + strings','	sl := []string{}\n'),'''	ws := h.weights([]rune("." + strings.ToLower(s) + "."))
	offs := runeOffsets(s)

'''),
(HY,'''func (h *Hyphenator) Hyphenate(''','''func (h *Hyphenator) weights(rs []rune) []int {
	ws := make([]int, len(rs)+1)
	for size := 1; size <= len(rs); size++ {
		for start := 0; start+size <= len(rs); start++ {
			pattern, ok := h.lookup.find(string(rs[start : start+size]))
			if !ok {
				continue
			}
			for iw, w := range pattern.Weights {
				if at := start + iw; ws[at] < w {
					ws[at] = w
				}
			}
		}
	}
	return ws
}

func runeOffsets(s string) []int {
	offs := make([]int, 0, len(s)+1)
	for i := range s {
		offs = append(offs, i)
	}
	return append(offs, len(s))
}

func (h *Hyphenator) Hyphenate('''),
(HY,'''	if len(s) < 3 {
		//don't hyphenate words with less than 3 runes
		return []string{s}
	}
	if strings.Contains(s, " ") {
		return []string{s}
	}
	if len(s) > 100 {
		return []string{s}
	}
''','''	if len(s) < 3 || len(s) > 100 || strings.ContainsRune(s, ' ') {
		return []string{s}
	}
'''))

q("hyphenation helper as a method","C10 C11 C22 C28 C17 C26",
(TH,between(TH,"	tryHyphenate := func(","	lines := []textLine{}\n"),''),
(TH,'''tryHyphenate(item.text, curr.width)''','''p.splitWord(item.text, width-curr.width)'''),
(TH,'''func (p *Processor) textLinesHyphenated(''','''// splitWord cuts a word so that the first part, with a hyphen, fits.
func (p *Processor) splitWord(word string, avail float64) (head, tail string, ok bool) {
	parts := p.hyphenator.Hyphenate(word)
	for n := len(parts) - 1; n > 0; n-- {
		head = " " + strings.Join(parts[:n], "") + "-"
		if p.engine.TextWidth(head) <= avail {
			return head, strings.Join(parts[n:], ""), true
		}
	}
	return "", "", false
}

func (p *Processor) textLinesHyphenated('''))

q("parts between save and restore","C12 C13 C02 C08",
(P,between(P,"	p.engine.OnHeader(func() {","	//Change font to initial"),'''	p.engine.OnHeader(func() { p.isolated(p.doc.Header) })
	p.engine.OnFooter(func() { p.isolated(p.doc.Footer) })

'''),
(P,'''func (p *Processor) tr(''','''// isolated renders the instructions and leaves everything as it was.
func (p *Processor) isolated(is xdoc.Instructions) {
	defer p.savePosition()()
	saved := p.currStyles
	p.preventPageBreak = true
	p.processInstructions(is)
	p.preventPageBreak = false
	p.currStyles = saved
}

func (p *Processor) savePosition() func() {
	x, y := p.engine.GetXY()
	return func() {
		p.engine.SetX(x)
		p.engine.SetY(y)
	}
}

func (p *Processor) tr('''))

q("box from inner and outer area","C19 C18 C16 C26 C05",
(P,between(P,"	x0, y0 := p.engine.GetXY()\n	_, _, _, bm","//\nfunc (p *Processor) textHeightFnc"),'''	outer := height + sty.Box.Padding.Top + sty.Box.Padding.Bottom
	x0, y0 := p.engine.GetXY()
	if !p.preventPageBreak && p.overflows(y0+outer) {
		p.engine.AddPage()
		x0, y0 = p.engine.GetXY()
	}

	area := PrintableArea{
		x0: x0 + sty.Dimension.OffsetX,
		y0: y0 + sty.Dimension.OffsetY,
	}
	area.x1 = area.x0 + width + sty.Padding.Left + sty.Padding.Right
	area.y1 = area.y0 + outer
	p.drawBox(area.x0, area.y0, area.x1, area.y1, sty)

	p.engine.SetY(area.y0 + sty.Box.Padding.Top)
	p.engine.SetX(area.x0 + sty.Box.Padding.Left)
	if len(box.ISS) > 0 {
		p.writeTextFnc(sty)(box.ISS, width, sty)
	}
	p.engine.SetY(area.y1)
}

func (p *Processor) overflows(y float64) bool {
	_, _, _, bm := p.engine.Margins()
	return y >= p.engine.PageHeight()-bm
}

'''))
