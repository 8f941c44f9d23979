T="text.go"; H="text-hyph.go"; B="table.go"
A="C18"
PLAIN='''			for _, item := range line.items {
				p.engine.ChangeFont(item.sty.Font)
				p.engine.WriteText(item.text)
			}
'''
SPREAD='''			spaceWidth := (width - 0.1 - line.pureTextWidth) / float64(spaceCnt)
			for _, item := range line.items {
				p.engine.ChangeFont(item.sty.Font)
				p.engine.WriteText(strings.Trim(item.text, " "))
				cx, _ := p.engine.GetXY()
				p.engine.SetX(cx + spaceWidth)
			}
'''
SW='''		switch sty.HAlign {
		case style.HAlignCenter:
			p.engine.SetX(xLeft + (width-line.width)/2.0)
		case style.HAlignRight:
			p.engine.SetX(xLeft + width - line.width)
		default: //style.HAlignLeft:
			p.engine.SetX(xLeft)
		}
'''
muts=[
(A,"V","center whole",[(T,"(width-line.width)/2.0","(width-line.width)")]),
(A,"V","right half",[(T,"xLeft + width - line.width","xLeft + (width-line.width)/2")]),
(A,"V","right no xLeft",[(T,"xLeft + width - line.width","width - line.width")]),
(A,"V","center pure",[(T,"(width-line.width)/2.0","(width-line.pureTextWidth)/2.0")]),
(A,"V","swap",[(T,"case style.HAlignCenter:\n			p.engine.SetX(xLeft + (width-line.width)/2.0)\n		case style.HAlignRight","case style.HAlignRight:\n			p.engine.SetX(xLeft + (width-line.width)/2.0)\n		case style.HAlignCenter")]),
(A,"V","left none",[(T,"		default: //style.HAlignLeft:\n			p.engine.SetX(xLeft)\n","")]),
(A,"V","xLeft in loop",[(T,"	xLeft, _ := p.engine.GetXY()\n	for _, line := range lines {\n","	for _, line := range lines {\n		xLeft, _ := p.engine.GetXY()\n")]),
(A,"V","width not added",[(T,"			curr.width += itemWidth\n","")]),
(A,"V","width only if first",[(T,"			curr.width += itemWidth\n","			if len(curr.items) > 1 {\n				curr.width += itemWidth\n			}\n")]),
(A,"V","width of word without blank",[(T,'TextWidth(" " + item.text)','TextWidth(item.text)')]),
(A,"V","width carried over",[(T,"				lines = append(lines, curr)\n				curr = textLine{}\n			}\n\n","				lines = append(lines, curr)\n				curr = textLine{width: curr.width}\n			}\n\n")]),
(A,"V","pure not added",[(H,"			curr.pureTextWidth += pureItemWidth\n","			_ = pureItemWidth\n")]),
(A,"V","pure with blank",[(H,"pureItemWidth := p.engine.TextWidth(item.text)","pureItemWidth := itemWidth")]),
(A,"V","pure part missing",[(H,'					curr.pureTextWidth += p.engine.TextWidth(strings.Trim(s1, " "))\n','')]),
(A,"V","pure part untrimmed",[(H,'					curr.pureTextWidth += p.engine.TextWidth(strings.Trim(s1, " "))\n','					curr.pureTextWidth += p.engine.TextWidth(s1)\n')]),
(A,"V","pure s2 stale",[(H,'					pureItemWidth = p.engine.TextWidth(strings.Trim(s2, " "))\n','')]),
(A,"V","gap count",[(H,"spaceCnt := len(line.items) - 1","spaceCnt := len(line.items)")]),
(A,"V","gap of width",[(H,"line.pureTextWidth) / float64","line.width) / float64")]),
(A,"V","gap plus",[(H,"width - 0.1 -","width + 0.1 -")]),
(A,"V","gap not halved",[(H,"p.engine.SetX(cx + spaceWidth)","p.engine.SetX(cx + spaceWidth*2)")]),
(A,"V","no gap",[(H,"				p.engine.SetX(cx + spaceWidth)\n","				_, _ = cx, spaceWidth\n")]),
(A,"V","last line spread",[(H,"		curr.paragraph = true\n		lines = append(lines, curr)\n	}\n	return","		lines = append(lines, curr)\n	}\n	return")]),
(A,"V","linebreak line spread",[(H,"			curr.paragraph = true\n			lines = append(lines, curr)\n			curr = textLine{}\n			continue","			lines = append(lines, curr)\n			curr = textLine{}\n			continue")]),
(A,"V","paragraph flag stays",[(H,"			curr.paragraph = true\n			lines = append(lines, curr)\n			curr = textLine{}\n			continue","			curr.paragraph = true\n			lines = append(lines, curr)\n			curr = textLine{paragraph: true}\n			continue")]),
(A,"V","ignore paragraph",[(H,"if spaceCnt < 1 || line.paragraph {","if spaceCnt < 1 {")]),
(A,"V","two words not spread",[(H,"if spaceCnt < 1 ||","if spaceCnt < 2 ||")]),
(A,"V","one word spread",[(H,"if spaceCnt < 1 ||","if spaceCnt < 0 ||")]),
(A,"V","inverted",[(H,"if spaceCnt < 1 || line.paragraph {","if spaceCnt < 1 || !line.paragraph {")]),
(A,"V","no setx block",[(H,"		p.engine.SetX(xLeft)\n		spaceCnt","		_ = xLeft\n		spaceCnt")]),
(A,"V","plain trimmed",[(H,"				p.engine.WriteText(item.text)\n			}\n		} else","				p.engine.WriteText(strings.TrimSpace(item.text))\n			}\n		} else")]),
(A,"V","spread untrimmed",[(H,'WriteText(strings.Trim(item.text, " "))','WriteText(item.text)')]),
(A,"V","no linefeed on last",[(T,"		p.engine.LineFeed(sty.LineSpacing)\n","		if line.paragraph {\n			p.engine.LineFeed(sty.LineSpacing)\n		}\n")]),
(A,"V","linefeed 1",[(T,"p.engine.LineFeed(sty.LineSpacing)","p.engine.LineFeed(1)")]),
(A,"V","linefeed first",[(T,"	for _, line := range lines {\n","	for _, line := range lines {\n		p.engine.LineFeed(sty.LineSpacing)\n"),(T,"		p.engine.LineFeed(sty.LineSpacing)\n	}\n}","	}\n}")]),
(A,"V","valign middle",[(B,"paddedPa.y0 + textMargin/2","paddedPa.y0 + textMargin")]),
(A,"V","valign bottom",[(B,"			p.engine.SetY(paddedPa.y0 + textMargin)\n","			p.engine.SetY(pa.y0 + textMargin)\n")]),
(A,"V","valign swapped",[(B,"		case style.VAlignMiddle:\n			p.engine.SetY(paddedPa.y0 + textMargin/2)\n		case style.VAlignBottom:","		case style.VAlignBottom:\n			p.engine.SetY(paddedPa.y0 + textMargin/2)\n		case style.VAlignMiddle:")]),
(A,"V","valign of text height",[(B,"textMargin := paddedPa.Height() - textHeight","textMargin := pa.Height() - textHeight")]),
(A,"V","hyphen width",[(H,"					curr.width += p.engine.TextWidth(s1)\n","")]) if 0 else (A,"Q","unused full width H",[(H,"					curr.width += p.engine.TextWidth(s1)\n","")]),
# benign
(A,"Q","xs var",[(T,SW,'''		x := xLeft
		switch sty.HAlign {
		case style.HAlignCenter:
			x += (width - line.width) / 2
		case style.HAlignRight:
			x += width - line.width
		}
		p.engine.SetX(x)
''')]),
(A,"Q","lineOffset func",[(T,SW,'''		p.engine.SetX(xLeft + lineOffset(sty, width-line.width))
'''),(T,"",'''
func lineOffset(sty style.Styles, rest float64) float64 {
	switch sty.HAlign {
	case style.HAlignCenter:
		return rest / 2
	case style.HAlignRight:
		return rest
	}
	return 0
}
''')]),
(A,"Q","justify method",[(H,SPREAD,"			p.justify(line, width)\n"),(H,"",'''
func (p *Processor) justify(line textLine, width float64) {
	n := len(line.items) - 1
	gap := (width - line.pureTextWidth - 0.1) / float64(n)
	for i := range line.items {
		p.engine.ChangeFont(line.items[i].sty.Font)
		p.engine.WriteText(strings.Trim(line.items[i].text, " "))
		x, _ := p.engine.GetXY()
		p.engine.SetX(x + gap)
	}
}
''')]),
(A,"Q","gap before",[(H,SPREAD,'''			spaceWidth := (width - 0.1 - line.pureTextWidth) / float64(spaceCnt)
			for i, item := range line.items {
				if i > 0 {
					cx, _ := p.engine.GetXY()
					p.engine.SetX(cx + spaceWidth)
				}
				p.engine.ChangeFont(item.sty.Font)
				p.engine.WriteText(strings.Trim(item.text, " "))
			}
''')]),
(A,"Q","gap not after last",[(H,"				cx, _ := p.engine.GetXY()\n				p.engine.SetX(cx + spaceWidth)\n","				if i < spaceCnt {\n					cx, _ := p.engine.GetXY()\n					p.engine.SetX(cx + spaceWidth)\n				}\n"),(H,'''float64(spaceCnt)
			for _, item''','''float64(spaceCnt)
			for i, item''')]),
(A,"Q","plain first",[(H,"if spaceCnt < 1 || line.paragraph {","if line.paragraph || len(line.items) < 2 {")]),
(A,"Q","nested ifs",[(H,"		if spaceCnt < 1 || line.paragraph {","		justify := !line.paragraph\n		if spaceCnt < 1 {\n			justify = false\n		}\n		if !justify {")]),
(A,"Q","valign helper",[(B,'''		switch cell.VAlign {
		case style.VAlignMiddle:
			p.engine.SetY(paddedPa.y0 + textMargin/2)
		case style.VAlignBottom:
			p.engine.SetY(paddedPa.y0 + textMargin)
		default: //style.VAlignTop:
			p.engine.SetY(paddedPa.y0)
		}
''','''		y := paddedPa.y0
		if cell.VAlign == style.VAlignMiddle {
			y += textMargin / 2
		} else if cell.VAlign == style.VAlignBottom {
			y += textMargin
		}
		p.engine.SetY(y)
''')]),
(A,"Q","flag inverse name",[(H,"curr.paragraph = true\n		lines","curr.paragraph = !false\n		lines")]),
(A,"Q","widths at the end",[(T,"			curr.items = append(curr.items, item)\n			curr.width += itemWidth\n","			curr = textLine{items: append(curr.items, item), width: curr.width + itemWidth}\n")]),
]
