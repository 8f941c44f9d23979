A="C19"
P="process.go"; T="table.go"
def ch(f,old,new): return [(f,old,new)]
BOX='''	if !p.preventPageBreak && y0+boxHeight >= effHeight {
		p.engine.AddPage()
		x0, y0 = p.engine.GetXY()
	}
'''
ROW='''		if !p.preventPageBreak && y+row.maxCellHeight() > page.printableArea.y1 {
			p.engine.AddPage()
			_, y = p.engine.GetXY()
			if i > 0 && xtab.RepeatHeader > 0 {
				for rhr := 0; rhr < xtab.RepeatHeader; rhr++ {
					if rhr >= 0 && rhr < len(tab.rows) {
						renderRow(tab.rows[rhr])
					}
				}
			}
		}
		renderRow(row)
'''
HEAD='''	if !p.preventPageBreak {
		var headHeight float64
		for i := 0; i < xtab.RepeatHeader+1; i++ {
			if i < len(tab.rows) {
				headHeight += tab.rows[i].maxCellHeight()
			}
		}
		if y+headHeight > page.printableArea.y1 {
			p.engine.AddPage()
			_, y = p.engine.GetXY()
		}
	}
'''
REP='''				for rhr := 0; rhr < xtab.RepeatHeader; rhr++ {
					if rhr >= 0 && rhr < len(tab.rows) {
						renderRow(tab.rows[rhr])
					}
				}
'''
MAXH='''		_, ch := cell.dim()
		if ch > max {
			max = ch
		}
'''
muts=[
# box
(A,"V","box no padding",ch(P,"boxHeight := sty.Box.Padding.Top + height + sty.Box.Padding.Bottom","boxHeight := sty.Box.Padding.Top + height")),
(A,"V","box no height",ch(P,"y0+boxHeight >= effHeight","y0+0*boxHeight >= effHeight")),
(A,"V","box margin top",[(P,"_, _, _, bm := p.engine.Margins()","_, bm, _, _ := p.engine.Margins()")]),
(A,"V","box no margin",[(P,"effHeight := p.engine.PageHeight() - bm","effHeight := p.engine.PageHeight()"),(P,"_, _, _, bm := p.engine.Margins()\n","")]),
(A,"V","box plus margin",ch(P,"effHeight := p.engine.PageHeight() - bm","effHeight := p.engine.PageHeight() + bm")),
(A,"V","box inverse",ch(P,"y0+boxHeight >= effHeight","y0+boxHeight < effHeight")),
(A,"V","box no re-read",ch(P,"		p.engine.AddPage()\n		x0, y0 = p.engine.GetXY()\n	}\n\n	x0 +=","		p.engine.AddPage()\n	}\n\n	x0 +=")),
(A,"V","box re-read before",ch(P,"		p.engine.AddPage()\n		x0, y0 = p.engine.GetXY()\n","		x0, y0 = p.engine.GetXY()\n		p.engine.AddPage()\n")),
(A,"V","box x only",ch(P,"		x0, y0 = p.engine.GetXY()\n","		x0, _ = p.engine.GetXY()\n")),
(A,"V","box only with text",ch(P,"	if !p.preventPageBreak && y0+boxHeight","	if !p.preventPageBreak && len(box.ISS) > 0 && y0+boxHeight")),
(A,"V","box only auto height",ch(P,"	if !p.preventPageBreak && y0+boxHeight","	if !p.preventPageBreak && sty.Dimension.Height <= 0 && y0+boxHeight")),
(A,"V","box offset twice",ch(P,"y0+boxHeight >= effHeight","y0+boxHeight+2*sty.Dimension.OffsetY >= effHeight")),
(A,"V","box never",ch(P,BOX,"	_ = effHeight\n	_ = boxHeight\n")),
(A,"V","box always",ch(P,"	if !p.preventPageBreak && y0+boxHeight >= effHeight {","	_ = boxHeight\n	_ = effHeight\n	if !p.preventPageBreak {")),
(A,"V","box after painting",[(P,BOX,""),(P,"	p.drawBox(x0, y0, x1, y1, sty)\n\n	p.engine.SetY(y0 +","	p.drawBox(x0, y0, x1, y1, sty)\n"+BOX.replace("x0, y0 =","_, _ =")+"\n	p.engine.SetY(y0 +")]),
(A,"V","box x compared",ch(P,"y0+boxHeight >= effHeight","x0+boxHeight >= effHeight")),
(A,"V","box line feed after",ch(P,"		p.engine.AddPage()\n		x0, y0 = p.engine.GetXY()\n	}\n\n	x0 +=","		p.engine.AddPage()\n		p.engine.LineFeed(1)\n		x0, y0 = p.engine.GetXY()\n	}\n\n	x0 +=")),
(A,"Q","box offset",ch(P,"y0+boxHeight >= effHeight","y0+sty.Dimension.OffsetY+boxHeight >= effHeight")),
(A,"Q","box strict",ch(P,"y0+boxHeight >= effHeight","y0+boxHeight > effHeight")),
(A,"Q","box swapped",ch(P,"y0+boxHeight >= effHeight","!(effHeight > y0+boxHeight)")),
(A,"Q","box remaining",ch(P,"y0+boxHeight >= effHeight","effHeight-y0 < boxHeight")),
(A,"Q","box printable area",[(P,"	_, _, _, bm := p.engine.Margins()\n	effHeight := p.engine.PageHeight() - bm\n",""),(P,"y0+boxHeight >= effHeight","y0+boxHeight > p.page().printableArea.y1")]),
(A,"Q","box variable",ch(P,"	if !p.preventPageBreak && y0+boxHeight >= effHeight {","	tooHigh := y0+boxHeight >= effHeight\n	if tooHigh && !p.preventPageBreak {")),
(A,"Q","box nested if",ch(P,BOX,'''	if !p.preventPageBreak {
		if y0+boxHeight >= effHeight {
			p.engine.AddPage()
			x0, y0 = p.engine.GetXY()
		}
	}
''')),
(A,"Q","box helper",[(P,BOX,'''	x0, y0 = p.startAt(x0, y0, boxHeight, effHeight)
'''),(P,"",'''
func (p *Processor) startAt(x, y, h, max float64) (float64, float64) {
	if p.preventPageBreak {
		return x, y
	}
	if y+h < max {
		return x, y
	}
	p.engine.AddPage()
	return p.engine.GetXY()
}
''')]),
(A,"Q","box helper2",[(P,BOX,'''	if !p.fits(y0, boxHeight) {
		p.engine.AddPage()
		x0, y0 = p.engine.GetXY()
	}
'''),(P,"	_, _, _, bm := p.engine.Margins()\n	effHeight := p.engine.PageHeight() - bm\n",""),(P,"",'''
func (p *Processor) fits(y, h float64) bool {
	if p.preventPageBreak {
		return true
	}
	_, _, _, bm := p.engine.Margins()
	return y+h < p.engine.PageHeight()-bm
}
''')]),
# row
(A,"V","row height only",ch(T,"y+row.maxCellHeight() > page","y+row.height > page")),
(A,"V","row nothing",ch(T,"y+row.maxCellHeight() > page.printableArea.y1","y > page.printableArea.y1")),
(A,"V","row y0",ch(T,"y+row.maxCellHeight() > page.printableArea.y1","y+row.maxCellHeight() > page.printableArea.y0")),
(A,"V","row x1",ch(T,"y+row.maxCellHeight() > page.printableArea.y1","y+row.maxCellHeight() > page.printableArea.x1")),
(A,"V","row height",ch(T,"y+row.maxCellHeight() > page.printableArea.y1","y+row.maxCellHeight() > page.height")),
(A,"V","row first row's",ch(T,"y+row.maxCellHeight() > page.printableArea.y1","y+tab.rows[0].maxCellHeight() > page.printableArea.y1")),
(A,"V","row max no spans",ch(T,"		_, ch := cell.dim()\n		if ch > max","		ch := cell.height\n		if ch > max")),
("C19 C20","V","row max min",ch(T,"		if ch > max {\n			max = ch","		if ch > max {\n			max = cell.minHeight")),
(A,"V","row max width",ch(T,"		_, ch := cell.dim()","		ch, _ := cell.dim()")),
(A,"V","row max first",ch(T,MAXH,MAXH+"		break\n")),
(A,"V","dim spans cols",ch(T,"	for _, sc := range c.spansRows {\n		height +=","	for _, sc := range c.spansCols {\n		height +=")),
(A,"V","dim spans widths",ch(T,"		height += sc.height\n","		height += sc.width\n")),
(A,"V","row inverse",ch(T,"y+row.maxCellHeight() > page","y+row.maxCellHeight() < page")),
(A,"V","row no re-read",ch(T,"			p.engine.AddPage()\n			_, y = p.engine.GetXY()\n			if i > 0","			p.engine.AddPage()\n			if i > 0")),
(A,"V","row no page",ch(T,"			p.engine.AddPage()\n			_, y = p.engine.GetXY()\n			if i > 0","			_, y = p.engine.GetXY()\n			if i > 0")),
(A,"V","row read before",ch(T,"			p.engine.AddPage()\n			_, y = p.engine.GetXY()\n			if i > 0","			_, y = p.engine.GetXY()\n			p.engine.AddPage()\n			if i > 0")),
(A,"V","row only without header",ch(T,"if !p.preventPageBreak && y+row.max","if !p.preventPageBreak && xtab.RepeatHeader == 0 && y+row.max")),
(A,"V","row not second",ch(T,"if !p.preventPageBreak && y+row.max","if !p.preventPageBreak && i > 1 && y+row.max")),
(A,"V","row not last",ch(T,"if !p.preventPageBreak && y+row.max","if !p.preventPageBreak && i < len(tab.rows)-1 && y+row.max")),
(A,"V","row after painting",ch(T,ROW,ROW.replace("		renderRow(row)\n","").replace("		if !p.prevent","		renderRow(row)\n		if !p.prevent",1))),
(A,"V","row break lacks table",ch(T,ROW,"		_ = i\n		renderRow(row)\n")),
(A,"V","row y1 kept from before",ch(T,"			_, y = p.engine.GetXY()\n			if i > 0","			y = page.printableArea.y0\n			if i > 0")),
(A,"Q","row not first",ch(T,"if !p.preventPageBreak && y+row.max","if !p.preventPageBreak && i > 0 && y+row.max")),
(A,"Q","row ge",ch(T,"y+row.maxCellHeight() > page","y+row.maxCellHeight() >= page")),
(A,"Q","row local",ch(T,"		if !p.preventPageBreak && y+row.maxCellHeight() > page.printableArea.y1 {","		bottom := page.printableArea.y1\n		h := row.maxCellHeight()\n		if fits := bottom-y >= h; !fits && !p.preventPageBreak {")),
(A,"Q","row closure",[(T,ROW,ROW.replace("!p.preventPageBreak && y+row.maxCellHeight() > page.printableArea.y1","tooHigh(row.maxCellHeight())")),(T,"	//check if we have to start","	tooHigh := func(h float64) bool {\n		return !p.preventPageBreak && y+h > page.printableArea.y1\n	}\n	//check if we have to start")]),
(A,"Q","row continue",ch(T,ROW,'''		if p.preventPageBreak || y+row.maxCellHeight() <= page.printableArea.y1 {
			renderRow(row)
			continue
		}
'''+ROW[ROW.index("			p.engine.AddPage"):].replace("		}\n		renderRow(row)\n","		renderRow(row)\n"))),
(A,"Q","newPage closure",[(T,ROW,ROW.replace("			p.engine.AddPage()\n			_, y = p.engine.GetXY()\n","			newPage()\n")),(T,HEAD,"	newPage := func() {\n		p.engine.AddPage()\n		_, y = p.engine.GetXY()\n	}\n"+HEAD.replace("			p.engine.AddPage()\n			_, y = p.engine.GetXY()\n","			newPage()\n"))]),
(A,"Q","max loop index",ch(T,"	for _, cell := range row.cells {\n		_, ch := cell.dim()\n		if ch > max {\n			max = ch\n		}\n	}\n","	for i := 0; i < len(row.cells); i++ {\n		_, ch := row.cells[i].dim()\n		if ch <= max {\n			continue\n		}\n		max = ch\n	}\n")),
# start
(A,"V","head one less",ch(T,"i < xtab.RepeatHeader+1; i++","i < xtab.RepeatHeader; i++")),
(A,"V","head one more",ch(T,"i < xtab.RepeatHeader+1; i++","i < xtab.RepeatHeader+2; i++")),
(A,"V","head from 1",ch(T,"for i := 0; i < xtab.RepeatHeader+1; i++","for i := 1; i < xtab.RepeatHeader+1; i++")),
(A,"V","head overwritten",ch(T,"headHeight += tab.rows[i]","headHeight = tab.rows[i]")),
(A,"V","head first row",ch(T,"headHeight += tab.rows[i]","headHeight += tab.rows[0]")),
(A,"V","head row.height",ch(T,"headHeight += tab.rows[i].maxCellHeight()","headHeight += tab.rows[i].height")),
(A,"V","head lt len-1",ch(T,"			if i < len(tab.rows) {\n				headHeight","			if i < len(tab.rows)-1 {\n				headHeight")),
(A,"V","head inverse",ch(T,"if y+headHeight > page","if y+headHeight < page")),
(A,"V","head y0",ch(T,"if y+headHeight > page.printableArea.y1","if y+headHeight > page.printableArea.y0")),
(A,"V","head no y",ch(T,"if y+headHeight > page","if headHeight > page")),
(A,"V","head no read",ch(T,"			p.engine.AddPage()\n			_, y = p.engine.GetXY()\n		}\n	}\n\n	for i","			p.engine.AddPage()\n		}\n	}\n\n	for i")),
(A,"V","head only with header",ch(T,"	if !p.preventPageBreak {\n		var headHeight","	if !p.preventPageBreak && xtab.RepeatHeader > 0 {\n		var headHeight")) if False else (A,"V","head only many rows",ch(T,"	if !p.preventPageBreak {\n		var headHeight","	if !p.preventPageBreak && len(tab.rows) > 2 {\n		var headHeight")),
(A,"Q","head and-loop",ch(T,HEAD,HEAD.replace("i < xtab.RepeatHeader+1; i++ {\n			if i < len(tab.rows) {\n				headHeight += tab.rows[i].maxCellHeight()\n			}\n","i <= xtab.RepeatHeader && i < len(tab.rows); i++ {\n			headHeight += tab.rows[i].maxCellHeight()\n"))),
(A,"Q","head break",ch(T,HEAD,HEAD.replace("			if i < len(tab.rows) {\n				headHeight += tab.rows[i].maxCellHeight()\n			}\n","			if i >= len(tab.rows) {\n				break\n			}\n			headHeight += tab.rows[i].maxCellHeight()\n"))),
(A,"Q","head range",ch(T,HEAD,HEAD.replace("		for i := 0; i < xtab.RepeatHeader+1; i++ {\n			if i < len(tab.rows) {\n				headHeight += tab.rows[i].maxCellHeight()\n			}\n","		for i, row := range tab.rows {\n			if i > xtab.RepeatHeader {\n				break\n			}\n			headHeight += row.maxCellHeight()\n"))),
(A,"Q","head continue",ch(T,HEAD,HEAD.replace("		for i := 0; i < xtab.RepeatHeader+1; i++ {\n			if i < len(tab.rows) {\n				headHeight += tab.rows[i].maxCellHeight()\n			}\n","		for i, row := range tab.rows {\n			if i > xtab.RepeatHeader {\n				continue\n			}\n			headHeight += row.maxCellHeight()\n"))),
(A,"Q","head method",[(T,HEAD,'''	if !p.preventPageBreak && y+tab.headHeight(xtab.RepeatHeader+1) > page.printableArea.y1 {
		p.engine.AddPage()
		_, y = p.engine.GetXY()
	}
'''),(T,"",'''
func (t *table) headHeight(n int) (h float64) {
	for i := 0; i < n; i++ {
		if i < len(t.rows) {
			h += t.rows[i].maxCellHeight()
		}
	}
	return
}
''')]),
(A,"Q","head y upfront",ch(T,HEAD,HEAD.replace("		var headHeight float64\n","		bottom := y\n").replace("headHeight +=","bottom +=").replace("y+headHeight >","bottom >"))),
# repeat
(A,"V","repeat one less",ch(T,"rhr < xtab.RepeatHeader; rhr++","rhr < xtab.RepeatHeader-1; rhr++")),
(A,"V","repeat one more",ch(T,"rhr < xtab.RepeatHeader; rhr++","rhr <= xtab.RepeatHeader; rhr++")),
(A,"V","repeat from 1",ch(T,"for rhr := 0; rhr < xtab","for rhr := 1; rhr < xtab")),
(A,"V","repeat only first",ch(T,"renderRow(tab.rows[rhr])","renderRow(tab.rows[0])")),
(A,"V","repeat next",ch(T,"if rhr >= 0 && rhr < len(tab.rows) {\n						renderRow(tab.rows[rhr])","if rhr >= 0 && rhr+1 < len(tab.rows) {\n						renderRow(tab.rows[rhr+1])")),
(A,"V","repeat rhr>0",ch(T,"if rhr >= 0 && rhr <","if rhr > 0 && rhr <")),
(A,"V","repeat i>1",ch(T,"if i > 0 && xtab.RepeatHeader > 0","if i > 1 && xtab.RepeatHeader > 0")),
(A,"V","repeat RH>1",ch(T,"if i > 0 && xtab.RepeatHeader > 0","if i > 0 && xtab.RepeatHeader > 1")),
(A,"V","repeat i>RH",ch(T,"if i > 0 && xtab.RepeatHeader > 0","if i > xtab.RepeatHeader && xtab.RepeatHeader > 0")),
(A,"V","repeat not last",ch(T,"if i > 0 && xtab.RepeatHeader > 0","if i < len(tab.rows)-1 && i > 0 && xtab.RepeatHeader > 0")),
(A,"V","repeat never",ch(T,"			if i > 0 && xtab.RepeatHeader > 0 {\n"+REP+"			}\n","			_ = i\n")),
(A,"V","repeat after row",ch(T,ROW,ROW.replace("			if i > 0 && xtab.RepeatHeader > 0 {\n"+REP+"			}\n		}\n		renderRow(row)\n","			renderRow(row)\n			if i > 0 && xtab.RepeatHeader > 0 {\n"+REP+"			}\n			continue\n		}\n		renderRow(row)\n"))),
(A,"V","repeat before page",ch(T,"			p.engine.AddPage()\n			_, y = p.engine.GetXY()\n			if i > 0 && xtab.RepeatHeader > 0 {\n"+REP+"			}\n","			if i > 0 && xtab.RepeatHeader > 0 {\n"+REP+"			}\n			p.engine.AddPage()\n			_, y = p.engine.GetXY()\n")),
(A,"V","repeat then reread",ch(T,"			if i > 0 && xtab.RepeatHeader > 0 {\n"+REP+"			}\n","			y0 := y\n			if i > 0 && xtab.RepeatHeader > 0 {\n"+REP+"			}\n			y = y0\n")),
(A,"V","repeat always",ch(T,ROW,ROW.replace("			if i > 0 && xtab.RepeatHeader > 0 {\n"+REP+"			}\n		}\n","		}\n		if i > 0 && xtab.RepeatHeader > 0 {\n"+REP+"		}\n"))),
(A,"V","repeat backwards",ch(T,"for rhr := 0; rhr < xtab.RepeatHeader; rhr++","for rhr := xtab.RepeatHeader - 1; rhr >= 0; rhr--")),
(A,"V","repeat half",ch(T,"rhr < xtab.RepeatHeader; rhr++","rhr < xtab.RepeatHeader; rhr += 2")),
(A,"Q","repeat no guard",ch(T,"if i > 0 && xtab.RepeatHeader > 0 {","if i > 0 {")),
(A,"Q","repeat i>=RH",ch(T,"if i > 0 && xtab.RepeatHeader > 0 {","if i >= xtab.RepeatHeader && i > 0 {")),
(A,"Q","repeat and-loop",ch(T,REP,"				for rhr := 0; rhr < xtab.RepeatHeader && rhr < len(tab.rows); rhr++ {\n					renderRow(tab.rows[rhr])\n				}\n")),
(A,"Q","repeat range",ch(T,REP,"				for rhr, hrow := range tab.rows {\n					if rhr >= xtab.RepeatHeader {\n						break\n					}\n					renderRow(hrow)\n				}\n")),
(A,"Q","repeat slice",ch(T,REP,"				n := xtab.RepeatHeader\n				if n > len(tab.rows) {\n					n = len(tab.rows)\n				}\n				for _, hrow := range tab.rows[:n] {\n					renderRow(hrow)\n				}\n")),
(A,"Q","repeat continue",ch(T,REP,REP.replace("					if rhr >= 0 && rhr < len(tab.rows) {\n						renderRow(tab.rows[rhr])\n					}\n","					if rhr >= len(tab.rows) {\n						continue\n					}\n					renderRow(tab.rows[rhr])\n"))),
(A,"Q","repeat closure",[(T,REP,"				renderHeader()\n"),(T,"	//check if we have to start","	renderHeader := func() {\n"+REP+"	}\n	//check if we have to start")]),
(A,"Q","row loop index",ch(T,"	for i, row := range tab.rows {\n		if !p.preventPageBreak && y","	for i := 0; i < len(tab.rows); i++ {\n		row := tab.rows[i]\n		if !p.preventPageBreak && y")),
(A,"Q","renderRow method",[(T,"	renderRow := func(row *tableRow) {\n		x := x0","	renderRow := func(row *tableRow) {\n		y = p.renderRow(row, x0, y)\n	}\n"),(T,"""
		for _, cell := range row.cells {
			if cell.spannedBy != nil || cell.zero {
				x += cell.width
				continue
			}
			cw, ch := cell.dim()
			p.renderCell(PrintableArea{
				x0: x,
				y0: y,
				x1: x + cw,
				y1: y + ch,
			}, cell)
			x += cell.width
		}
		y += row.height
		p.engine.SetX(x0)
	}
""",""),(T,"","""
func (p *Processor) renderRow(row *tableRow, x0, y float64) float64 {
	x := x0
	for _, cell := range row.cells {
		if cell.spannedBy == nil && !cell.zero {
			cw, ch := cell.dim()
			p.renderCell(PrintableArea{x0: x, y0: y, x1: x + cw, y1: y + ch}, cell)
		}
		x += cell.width
	}
	p.engine.SetX(x0)
	return y + row.height
}
""")]),
]
