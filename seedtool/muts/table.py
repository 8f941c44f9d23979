A="C20"
T="table.go"
def ch(old,new,f=T): return [(f,old,new)]
CW='''			if cell.ColumnWidth > cws[ic] {
				cws[ic] = cell.ColumnWidth
			}
'''
USED='''		if cw > 0 {
			spaceUsed += cw
		} else {
			colsZero++
		}
'''
SHARE='''		cw := (width - spaceUsed) / float64(colsZero)
		for i := range cws {
			if cws[i] == 0 {
				cws[i] = cw
			}
		}
'''
COLS='''			newCells = append(newCells, cell)
			if cell.colSpan <= 1 {
				continue
			}
			for s := 0; s < cell.colSpan-1; s++ {
				spannedCell := &tableCell{
					spannedBy: cell,
				}
				spannedCell.rowSpan = cell.rowSpan
				newCells = append(newCells, spannedCell)
				cell.spansCols = append(cell.spansCols, spannedCell)
			}
'''
INS='''				newCells := make([]*tableCell, ic)
				copy(newCells, spannedRow.cells[:ic])
				newCells = append(newCells, newCell)
				newCells = append(newCells, spannedRow.cells[ic:]...)
				spannedRow.cells = newCells
'''
ROWI='''				if spannedRowIdx >= len(t.rows) {
					spannedRow = &tableRow{}
					t.rows = append(t.rows, spannedRow)
				} else {
					spannedRow = t.rows[spannedRowIdx]
				}
'''
MH='''		cell.minHeight = cell.Height
		return
'''
MAXH='''			if cell.minHeight > maxCellHeight {
				maxCellHeight = cell.minHeight
			}
'''
muts=[
# widths
(A,"V","narrowest wins",ch("cell.ColumnWidth > cws[ic]","cws[ic] == 0 || cell.ColumnWidth < cws[ic] && cell.ColumnWidth > 0")),
(A,"V","last wins",ch(CW,'''			if cell.ColumnWidth > 0 {
				cws[ic] = cell.ColumnWidth
			}
''')),
(A,"V","first row only",ch("	for _, row := range t.rows {\n		for ic, cell := range row.cells {\n			if cell.ColumnWidth","	for _, row := range t.rows[:1] {\n		for ic, cell := range row.cells {\n			if cell.ColumnWidth")),
(A,"Q","max by else",ch(CW,'''			if cws[ic] >= cell.ColumnWidth {
				continue
			}
			cws[ic] = cell.ColumnWidth
''')),
(A,"Q","max by var",ch(CW,'''			if w := cell.ColumnWidth; w > cws[ic] {
				cws[ic] = w
			}
''')),
(A,"V","used only last",ch(USED,USED.replace("+=","="))),
(A,"V","count all",ch(USED,'''		if cw > 0 {
			spaceUsed += cw
		}
		colsZero++
''')),
(A,"Q","used flipped",ch(USED,'''		if cw <= 0 {
			colsZero++
			continue
		}
		spaceUsed += cw
''')),
(A,"V","share all",ch(SHARE,SHARE.replace("float64(colsZero)","float64(len(cws))"))),
(A,"V","share of full width",ch(SHARE,SHARE.replace("(width - spaceUsed)","width"))),
(A,"V","share every column",ch(SHARE,'''		cw := (width - spaceUsed) / float64(colsZero)
		for i := range cws {
			cws[i] = cw
		}
''')),
(A,"V","share skips first",ch(SHARE,SHARE.replace("cws[i] == 0","i > 0 && cws[i] == 0"))),
(A,"V","share if two",ch("	if colsZero > 0 {","	if colsZero > 1 {")),
(A,"Q","share index loop",ch(SHARE,'''		left := width - spaceUsed
		n := float64(colsZero)
		for i := 0; i < len(cws); i++ {
			if cws[i] != 0 {
				continue
			}
			cws[i] = left / n
		}
''')),
(A,"V","width +1",ch("cell.width = cws[ic]","cell.width = cws[ic] + 1")),
(A,"V","spanned no width",ch("			cell.width = cws[ic]\n","			if cell.spannedBy == nil {\n				cell.width = cws[ic]\n			}\n")),
(A,"V","own width first",ch("			cell.width = cws[ic]\n","			if cell.ColumnWidth > 0 {\n				cell.width = cell.ColumnWidth\n			} else {\n				cell.width = cws[ic]\n			}\n")),
(A,"V","table width",ch("p.page().EffectiveWidth(tab.Width)","p.page().EffectiveWidth(tab.ColumnWidth)")),
(A,"V","table width raw",ch("p.page().EffectiveWidth(tab.Width)","tab.Width")),
# column count
(A,"V","column count first",ch("		if len(row.cells) > tab.columnCount {\n","		if tab.columnCount == 0 {\n")),
(A,"V","column count min",ch("		if len(row.cells) > tab.columnCount {\n","		if tab.columnCount == 0 || len(row.cells) < tab.columnCount {\n")),
(A,"Q","column count local",ch('''	tab.columnCount = 0
	for _, row := range tab.rows {
		if len(row.cells) > tab.columnCount {
			tab.columnCount = len(row.cells)
		}
	}
''','''	max := 0
	for _, row := range tab.rows {
		if n := len(row.cells); n > max {
			max = n
		}
	}
	tab.columnCount = max
''')),
(A,"V","filler painted",ch('''			row.cells = append(row.cells, &tableCell{
				zero: true,
			})
''','''			row.cells = append(row.cells, &tableCell{})
''')),
(A,"V","filler painted 2",ch('''						zero: true,
					})
				}

				newCell''','''					})
				}

				newCell''')),
# column spans
(A,"V","col span count",ch("s < cell.colSpan-1","s < cell.colSpan")),
(A,"V","col span count less",ch("s < cell.colSpan-1","s < cell.colSpan-2")),
(A,"Q","col span from 1",ch("s := 0; s < cell.colSpan-1; s++","s := 1; s < cell.colSpan; s++")),
(A,"Q","col span no early continue",ch(COLS,COLS.replace('''			if cell.colSpan <= 1 {
				continue
			}
''',''))),
(A,"V","col span 2 ignored",ch("cell.colSpan <= 1","cell.colSpan <= 2")),
(A,"V","col span inserted before",ch(COLS,COLS.replace("			newCells = append(newCells, cell)\n","").replace("			if cell.colSpan <= 1 {\n","			if cell.colSpan <= 1 {\n				newCells = append(newCells, cell)\n")+"			newCells = append(newCells, cell)\n")),
(A,"V","col span not counted",ch("				cell.spansCols = append(cell.spansCols, spannedCell)\n","")),
(A,"V","col span replaces",ch("cell.spansCols = append(cell.spansCols, spannedCell)","cell.spansCols = []*tableCell{spannedCell}")),
(A,"V","col span not inserted",ch("				newCells = append(newCells, spannedCell)\n","")),
(A,"V","col span counted as rows",ch("cell.spansCols = append(cell.spansCols, spannedCell)","cell.spansRows = append(cell.spansRows, spannedCell)")),
(A,"V","both spans lost",ch("				spannedCell.rowSpan = cell.rowSpan\n","")),
(A,"V","row list not stored for some",ch("		row.cells = newCells\n","		if len(newCells) > len(row.cells)+1 {\n			row.cells = newCells\n		}\n")),
(A,"V","new list keeps old",ch("newCells := []*tableCell{}","newCells := row.cells")),
(A,"Q","new list cap",ch("newCells := []*tableCell{}","newCells := make([]*tableCell, 0, len(row.cells))")),
(A,"Q","span helper",ch(COLS,'''			newCells = append(newCells, cell)
			newCells = append(newCells, cell.spanColumns()...)
''')+[(T,"","""
func (c *tableCell) spanColumns() (cells []*tableCell) {
	for s := 0; s < c.colSpan-1; s++ {
		sc := &tableCell{spannedBy: c, rowSpan: c.rowSpan}
		cells = append(cells, sc)
		c.spansCols = append(c.spansCols, sc)
	}
	return
}
""")]),
# row spans
(A,"V","row span count",ch("n < cell.rowSpan-1","n < cell.rowSpan")),
(A,"V","row span idx",ch("spannedRowIdx := ir + 1 + n","spannedRowIdx := ir + n")),
(A,"V","row span always next",ch("spannedRowIdx := ir + 1 + n","spannedRowIdx := ir + 1 + 0*n")),
(A,"Q","row span from 1",ch("n := 0; n < cell.rowSpan-1; n++","n := 1; n < cell.rowSpan; n++")+ch("spannedRowIdx := ir + 1 + n","spannedRowIdx := ir + n")),
(A,"V","row span 2 ignored",ch("cell.rowSpan <= 1","cell.rowSpan <= 2")),
(A,"Q","row span one condition",ch('''			if cell.rowSpan <= 1 {
				continue
			}
			if cell.zero {
				continue
			}
''','''			if cell.zero || cell.rowSpan <= 1 {
				continue
			}
''')),
(A,"V","row span only unspanned",ch("			if cell.zero {\n				continue","			if cell.zero || cell.spannedBy != nil {\n				continue")),
(A,"V","row not appended",ch(ROWI,ROWI.replace("					t.rows = append(t.rows, spannedRow)\n",""))),
(A,"V","row appended one early",ch(ROWI,ROWI.replace(">= len","+1 >= len"))),
(A,"Q","row if flipped",ch(ROWI,'''				if spannedRowIdx < len(t.rows) {
					spannedRow = t.rows[spannedRowIdx]
				} else {
					spannedRow = &tableRow{}
					t.rows = append(t.rows, spannedRow)
				}
''')),
(A,"V","insert at end",ch(INS,"				spannedRow.cells = append(spannedRow.cells, newCell)\n")),
(A,"V","insert one left",ch(INS,INS.replace("make([]*tableCell, ic)","make([]*tableCell, ic, ic+1)").replace("cells[ic:]","cells[ic+1:]"))),
(A,"V","insert replaces",ch(INS,"				spannedRow.cells[ic] = newCell\n")),
(A,"V","copy lost",ch(INS,INS.replace("				copy(newCells, spannedRow.cells[:ic])\n",""))),
(A,"V","copy late",ch(INS,INS.replace("copy(newCells, spannedRow.cells[:ic])","copy(newCells, spannedRow.cells[len(spannedRow.cells)-ic:])"))),
(A,"Q","copy whole",ch(INS,INS.replace("copy(newCells, spannedRow.cells[:ic])","copy(newCells, spannedRow.cells)"))),
(A,"Q","insert by append",ch(INS,'''				newCells := append([]*tableCell{}, spannedRow.cells[:ic]...)
				newCells = append(newCells, newCell)
				spannedRow.cells = append(newCells, spannedRow.cells[ic:]...)
''')),
(A,"Q","insert with tail",ch(INS,'''				tail := append([]*tableCell{newCell}, spannedRow.cells[ic:]...)
				spannedRow.cells = append(spannedRow.cells[:ic:ic], tail...)
''')),
(A,"Q","insert helper",ch(INS,'''				spannedRow.insert(ic, newCell)
''')+[(T,"","""
func (row *tableRow) insert(at int, cell *tableCell) {
	cells := make([]*tableCell, 0, len(row.cells)+1)
	cells = append(cells, row.cells[:at]...)
	cells = append(cells, cell)
	cells = append(cells, row.cells[at:]...)
	row.cells = cells
}
""")]),
(A,"V","row span not counted",ch("				cell.spansRows = append(cell.spansRows, newCell)\n","")),
(A,"V","spanned by nobody",ch("				newCell := &tableCell{\n					spannedBy: cell,\n				}\n","				newCell := &tableCell{}\n")),
(A,"V","rows before columns",ch("	t.processColumnSpans()\n	t.processRowSpans()\n","	t.processRowSpans()\n	t.processColumnSpans()\n")),
(A,"V","normalize first",ch("	t.processColumnSpans()\n	t.processRowSpans()\n	t.normalize()\n","	t.normalize()\n	t.processColumnSpans()\n	t.processRowSpans()\n")),
(A,"V","colspan from rowspan",ch("colSpan: xcell.ColSpan","colSpan: xcell.RowSpan")),
(A,"V","rowspan lost",ch("				rowSpan: xcell.RowSpan,\n","")),
# heights
(A,"V","given height ignored",ch("	if cell.Height > 0 {\n		// if set by style","	if cell.Height > 100 {\n		// if set by style")),(A,"V","given height only with text",ch("	if cell.Height > 0 {\n		// if set by style","	if cell.Height > 0 && len(cell.iss) > 0 {\n		// if set by style")),
(A,"V","given height padded",ch(MH,MH.replace("cell.Height\n","cell.Height + cell.Padding.Top\n"))),
(A,"V","padding top only",ch("cellHeight := textHeight + cell.Padding.Top + cell.Padding.Bottom","cellHeight := textHeight + cell.Padding.Top + cell.Padding.Top")),
(A,"V","padding left",ch("cellHeight := textHeight + cell.Padding.Top + cell.Padding.Bottom","cellHeight := textHeight + cell.Padding.Top + cell.Padding.Left")),
(A,"V","no text",ch("cellHeight := textHeight + cell.Padding.Top","_ = textHeight\n	cellHeight := cell.Padding.Top")),
(A,"V","not divided",ch("cellHeight / float64(1+len(cell.spansRows))","cellHeight")),
(A,"V","divided by spans",ch("cellHeight / float64(1+len(cell.spansRows))","cellHeight / float64(1+len(cell.spansCols))")),
(A,"V","spanned rows no share",ch("		sc.minHeight = heightPerCell\n","		sc.minHeight = 0\n")),
(A,"V","spanned rows skip first",ch("for _, sc := range cell.spansRows {\n		sc.minHeight","for _, sc := range cell.spansRows[1:] {\n		sc.minHeight")),
(A,"Q","height regrouped",ch('''	cellHeight := textHeight + cell.Padding.Top + cell.Padding.Bottom

	// if cell spans rows, divide height to spanned cells
	heightPerCell := cellHeight / float64(1+len(cell.spansRows))
''','''	rows := 1 + len(cell.spansRows)
	heightPerCell := (cell.Padding.Top + textHeight + cell.Padding.Bottom) / float64(rows)
''')),
(A,"V","row height last",ch(MAXH,"			maxCellHeight = cell.minHeight\n")),
(A,"V","row height min",ch("cell.minHeight > maxCellHeight","maxCellHeight == 0 || cell.minHeight < maxCellHeight")),
(A,"V","row height sum",ch(MAXH,"			maxCellHeight += cell.minHeight\n")),
(A,"Q","row height builtin",ch(MAXH,"			if maxCellHeight < cell.minHeight {\n				maxCellHeight = cell.minHeight\n			}\n")),
(A,"V","cell height own",ch("cell.height = row.height","cell.height = cell.minHeight")),
(A,"V","cell height spanned skipped",ch("			cell.height = row.height\n","			if cell.spannedBy == nil {\n				cell.height = row.height\n			}\n")),
(A,"Q","cell height in the same loop",ch('''		row.height = maxCellHeight
	}

	for _, row := range tab.rows {
		for _, cell''','''		row.height = maxCellHeight
		for _, cell''')),
(A,"V","heights before widths",ch("	tab.assignColumnWidths(p.page().EffectiveWidth(tab.Width))\n	p.assignHeights(tab)\n","	p.assignHeights(tab)\n	tab.assignColumnWidths(p.page().EffectiveWidth(tab.Width))\n")),
(A,"V","spans after widths",ch("	tab.processSpans()\n	tab.assignColumnWidths(p.page().EffectiveWidth(tab.Width))\n","	tab.normalize()\n	tab.assignColumnWidths(p.page().EffectiveWidth(tab.Width))\n	tab.processSpans()\n")),
(A,"V","dim width only own",ch("		width += sc.width\n","		_ = sc\n")),
(A,"V","dim height of cols",ch("for _, sc := range c.spansRows {\n		height += sc.height","for _, sc := range c.spansCols {\n		height += sc.height")),
(A,"V","dim minHeight",ch("height += sc.height","height += sc.minHeight")),
(A,"Q","dim named",ch('''	width = c.width
	height = c.height
	for _, sc := range c.spansCols {
		width += sc.width
	}
	for _, sc := range c.spansRows {
		height += sc.height
	}
	return
''','''	w, h := c.width, c.height
	for i := range c.spansCols {
		w += c.spansCols[i].width
	}
	for i := range c.spansRows {
		h += c.spansRows[i].height
	}
	return w, h
''')),

# painting
(A,"V","x not advanced past spanned",ch("				x += cell.width\n				continue\n","				continue\n")),
(A,"V","x advanced by whole",ch("			x += cell.width\n		}\n		y +=","			x += cw\n		}\n		y +=")),
(A,"V","spanned painted",ch("cell.spannedBy != nil || cell.zero {\n				x","cell.zero {\n				x")),
(A,"V","zero painted",ch("cell.spannedBy != nil || cell.zero {\n				x","cell.spannedBy != nil {\n				x")),
(A,"V","empty cell not painted",ch("cell.spannedBy != nil || cell.zero {\n				x","cell.spannedBy != nil || cell.zero || len(cell.iss) == 0 {\n				x")),
(A,"V","x1 width only",ch("x1: x + cw","x1: x0 + cw")),
(A,"V","y1 row",ch("y1: y + ch","y1: y + row.height + 0*ch")),
(A,"V","x1 own width",ch("x1: x + cw","x1: x + cell.width + 0*cw")),
(A,"V","y not advanced",ch("		y += row.height\n","")),
(A,"V","y advanced more",ch("		y += row.height\n","		y += row.height + 1\n")),
(A,"V","x start 0",ch("		x := x0\n","		x := page.printableArea.x0\n")),
(A,"V","no sety",ch("	p.engine.SetY(y)\n}\n\nfunc (p *Processor) renderCell","	_ = y\n}\n\nfunc (p *Processor) renderCell")),
(A,"V","sety off",ch("	p.engine.SetY(y)\n}\n\nfunc (p *Processor) renderCell","	p.engine.SetY(y + 1)\n}\n\nfunc (p *Processor) renderCell")),
(A,"V","sety only unless single row",ch("	p.engine.SetY(y)\n}\n\nfunc (p *Processor) renderCell","	if len(tab.rows) > 1 {\n		p.engine.SetY(y)\n	}\n}\n\nfunc (p *Processor) renderCell")),
(A,"V","last row skipped if empty",ch("		renderRow(row)\n	}\n	p.engine","		if i == 0 || row.height > 0 {\n			renderRow(row)\n		}\n	}\n	p.engine")),
(A,"Q","render row by index",ch("		for _, cell := range row.cells {\n			if cell.spannedBy != nil","		for ic := range row.cells {\n			cell := row.cells[ic]\n			if cell.spannedBy != nil")),
(A,"Q","x one place",ch("""			if cell.spannedBy != nil || cell.zero {
				x += cell.width
				continue
			}
			cw, ch := cell.dim()
			p.renderCell(PrintableArea{
				x0: x,
				y0: y,
				x1: x + cw,
				y1: y + ch,
			}, cell)
			x += cell.width
""","""			cx := x
			x += cell.width
			if cell.zero || cell.spannedBy != nil {
				continue
			}
			cw, ch := cell.dim()
			area := PrintableArea{x0: cx, y0: y, x1: cx + cw, y1: y + ch}
			p.renderCell(area, cell)
""")),

(A,"Q","row list stored if changed",ch("		row.cells = newCells\n","		if len(newCells) != len(row.cells) {\n			row.cells = newCells\n		}\n")),
(A,"Q","minHeight by value",ch("			p.assignCellMinHeight(cell)\n","			if cell.spannedBy == nil && !cell.zero {\n				p.assignCellMinHeight(cell)\n			}\n")),
(A,"Q","minHeight switch",ch("""	if cell.spannedBy != nil || cell.zero {
		return
	}
	if cell.Height > 0 {
		// if set by style
		cell.minHeight = cell.Height
		return
	}
""","""	switch {
	case cell.spannedBy != nil, cell.zero:
		return
	case cell.Height > 0:
		// if set by style
		cell.minHeight = cell.Height
		return
	}
""")),
(A,"Q","minHeight share fn",ch("""	cell.minHeight = heightPerCell
	for _, sc := range cell.spansRows {
		sc.minHeight = heightPerCell
	}
""","""	for _, sc := range append([]*tableCell{cell}, cell.spansRows...) {
		sc.minHeight = heightPerCell
	}
""")),
(A,"Q","minHeight share index",ch("""	for _, sc := range cell.spansRows {
		sc.minHeight = heightPerCell
	}
""","""	for i := 0; i < len(cell.spansRows); i++ {
		cell.spansRows[i].minHeight = heightPerCell
	}
""")),
(A,"Q","expand fn",ch("""		newCells := []*tableCell{}
		for _, cell := range row.cells {
"""+COLS+"""		}
		row.cells = newCells
""","""		row.cells = expandColumns(row.cells)
""")+[(T,"","""
func expandColumns(cells []*tableCell) (expanded []*tableCell) {
	for _, cell := range cells {
		expanded = append(expanded, cell)
		for s := 1; s < cell.colSpan; s++ {
			sc := &tableCell{rowSpan: cell.rowSpan, spannedBy: cell}
			cell.spansCols = append(cell.spansCols, sc)
			expanded = append(expanded, sc)
		}
	}
	return expanded
}
""")]),
(A,"Q","row height fn",ch("""		var maxCellHeight float64
		for _, cell := range row.cells {
"""+MAXH+"""		}
		row.height = maxCellHeight
""","""		row.height = row.maxMinHeight()
""")+[(T,"","""
func (row *tableRow) maxMinHeight() (h float64) {
	for _, cell := range row.cells {
		if cell.minHeight <= h {
			continue
		}
		h = cell.minHeight
	}
	return
}
""")]),
(A,"Q","row height in place",ch("""		var maxCellHeight float64
		for _, cell := range row.cells {
"""+MAXH+"""		}
		row.height = maxCellHeight
""","""		row.height = 0
		for _, cell := range row.cells {
			if cell.minHeight > row.height {
				row.height = cell.minHeight
			}
		}
""")),
(A,"Q","column widths fn",ch("""	cws := make([]float64, t.columnCount)
	for _, row := range t.rows {
		for ic, cell := range row.cells {
"""+CW+"""		}
	}
""","""	cws := t.givenWidths()
""")+[(T,"","""
func (t *table) givenWidths() []float64 {
	ws := make([]float64, t.columnCount)
	for ir := range t.rows {
		cells := t.rows[ir].cells
		for ic := range cells {
			if w := cells[ic].ColumnWidth; ws[ic] < w {
				ws[ic] = w
			}
		}
	}
	return ws
}
""")]),
(A,"Q","render row method",ch("""		y += row.height
		p.engine.SetX(x0)
""","""		p.engine.SetX(x0)
		y += row.height
""")),
(A,"Q","columnCount from spans",ch("""	t.processColumnSpans()
	t.processRowSpans()
	t.normalize()
""","""	defer t.normalize()
	t.processColumnSpans()
	t.processRowSpans()
""")),
(A,"Q","fill count",ch("""		for len(row.cells) < tab.columnCount {
			row.cells""","""		for n := tab.columnCount - len(row.cells); n > 0; n-- {
			row.cells""")),
(A,"Q","pad fn",ch("""				for ic > len(spannedRow.cells) {
					spannedRow.cells = append(spannedRow.cells, &tableCell{
						zero: true,
					})
				}
""","""				spannedRow.pad(ic)
""")+[(T,"","""
func (row *tableRow) pad(n int) {
	for len(row.cells) < n {
		row.cells = append(row.cells, &tableCell{zero: true})
	}
}
""")]),
(A,"Q","row fn",ch("""				var spannedRow *tableRow
"""+ROWI,"""				spannedRow := t.rowAt(spannedRowIdx)
""")+[(T,"","""
func (t *table) rowAt(i int) *tableRow {
	if i < len(t.rows) {
		return t.rows[i]
	}
	row := &tableRow{}
	t.rows = append(t.rows, row)
	return row
}
""")]),
(A,"Q","row span guard both",ch("""			if cell.rowSpan <= 1 {
				continue
			}
			if cell.zero {
				continue
			}
""","""			if !(cell.rowSpan > 1) || cell.zero {
				continue
			}
			last := ir + cell.rowSpan - 1
			_ = last
""")),
(A,"Q","row span by row",ch("""			for n := 0; n < cell.rowSpan-1; n++ {
				spannedRowIdx := ir + 1 + n
""","""			for spannedRowIdx := ir + 1; spannedRowIdx < ir+cell.rowSpan; spannedRowIdx++ {
""")),
(A,"Q","widths one pass",ch("""	for _, row := range t.rows {
		for ic, cell := range row.cells {
			cell.width = cws[ic]
		}
	}
""","""	for _, row := range t.rows {
		for ic := 0; ic < len(row.cells); ic++ {
			row.cells[ic].width = cws[ic]
		}
	}
""")),
(A,"Q","early empty",ch("	page := p.page()\n	x0, y := p.engine.GetXY()\n","	if len(tab.rows) == 0 {\n		return\n	}\n	page := p.page()\n	x0, y := p.engine.GetXY()\n")),
]
