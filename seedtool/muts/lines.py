T="text.go"; H="text-hyph.go"
src={f:open('/repo/'+f).read() for f in (T,H)}
FL=src[T][src[T].index("	if len(curr.items) > 0 {\n		lines = append(lines, curr)\n	}\n	return lines"):src[T].index("	return lines")]
FH=src[H][src[H].index("	if len(curr.items) > 0 {\n		curr.paragraph = true"):src[H].index("	return lines")]
WORDS_T=src[T][src[T].index("			item := &textItem{\n				sty:  isitem.sty"):src[T].index("		}\n	}\n	if len(curr.items) > 0 {\n		lines = append")]
DRAW_T='''		for _, item := range line.items {
			p.engine.ChangeFont(item.sty.Font)
			p.engine.WriteText(item.text)
		}
'''
A="C10"
muts=[
(A,"V","T drop last flush",[(T,FL,"")]),
(A,"V","H drop last flush",[(H,FH,"")]),
(A,"V","T flush only >1",[(T,FL,FL.replace("> 0","> 1"))]),
(A,"V","T linebreak no flush",[(T,"			lines = append(lines, curr)\n			curr = textLine{}\n			continue","			curr = textLine{}\n			continue")]),
(A,"V","T linebreak flush no reset",[(T,"			lines = append(lines, curr)\n			curr = textLine{}\n			continue","			lines = append(lines, curr)\n			continue")]),
(A,"V","H linebreak drop",[(H,"			curr.paragraph = true\n			lines = append(lines, curr)\n			curr = textLine{}\n			continue","			continue")]),
(A,"V","T linebreak ends only filled line",[(T,"			lines = append(lines, curr)\n			curr = textLine{}\n			continue","			if len(curr.items) > 1 {\n				lines = append(lines, curr)\n				curr = textLine{}\n			}\n			continue")]),
(A,"V","T overflow no reset",[(T,"				lines = append(lines, curr)\n				curr = textLine{}\n			}\n\n","				lines = append(lines, curr)\n			}\n\n")]),
(A,"V","T overflow no append",[(T,"				lines = append(lines, curr)\n				curr = textLine{}\n			}\n\n","				curr = textLine{}\n			}\n\n")]),
(A,"V","T overflow loses word",[(T,"				lines = append(lines, curr)\n				curr = textLine{}\n			}\n\n","				lines = append(lines, curr)\n				curr = textLine{}\n				continue\n			}\n\n")]),
(A,"V","T too wide word dropped",[(T,"			if len(curr.items) > 0 && curr.width","			if itemWidth > width {\n				continue\n			}\n			if len(curr.items) > 0 && curr.width")]),
(A,"V","T first word skipped",[(T,"range words {","range words[1:] {")]),
(A,"V","T no blank",[(T,"				item.text = \" \" + item.text","				item.text = item.text")]),
(A,"V","H no blank after hyphen",[(H,"			if len(curr.items) > 0 {\n				item.text = \" \" + item.text","			if len(curr.items) > 1 {\n				item.text = \" \" + item.text")]),
(A,"V","H swapped parts",[(H,"				item.text = s2","				item.text = s1")]),
(A,"V","H tail off by one",[(H,"strings.Join(parts[i+1:], \"\")","strings.Join(parts[i:], \"\")")]),
(A,"V","H head off by one",[(H,"strings.Join(parts[:i+1], \"\")","strings.Join(parts[:i], \"\")")]),
(A,"V","H joined by hyphen",[(H,"strings.Join(parts[i+1:], \"\")","strings.Join(parts[i+1:], \"-\")")]),
(A,"V","H no hyphen",[(H,' "") + "-"',' "")')]),
(A,"V","H first part lost",[(H,"					curr.items = append(curr.items, &textItem{\n						text: s1,\n						sty:  item.sty,\n					})\n","")]),
(A,"V","H line not ended after hyphen",[(H,"					lines = append(lines, curr)\n\n					curr = textLine{}\n					item","					item")]),
(A,"V","H not hyphenated no flush",[(H,"						lines = append(lines, curr)\n						curr = textLine{}\n					}\n				} else","						curr = textLine{}\n					}\n				} else")]),
(A,"V","T para text style",[(T,"sty:  is.MutatedStyles(p.doc.StyleClasses(), sty),","sty:  sty,")]),
(A,"V","H para text style",[(H,"sty:  is.MutatedStyles(p.doc.StyleClasses(), sty),","sty:  sty,")]),
(A,"V","T para skipped",[(T,"		case *xdoc.Paragraph:\n			isitem = &textItem{\n				sty:  is.MutatedStyles(p.doc.StyleClasses(), sty),\n				text: norm(is.Text),\n			}\n","")]),
(A,"V","H sty of part from text",[(H,"						sty:  item.sty,","						sty:  sty,")]),
(A,"V","T iss[1:]",[(T,"range iss {","range iss[1:] {")]),
(A,"V","T break at default",[(T,"		default:\n			continue","		default:\n			return lines")]),
(A,"V","draw skips first line",[(T,"for _, line := range lines {","for _, line := range lines[1:] {")]),
(A,"V","draw skips last word",[(T,"for _, item := range line.items {","for _, item := range line.items[:len(line.items)-1] {")]),
(A,"V","draw font of text",[(T,"p.engine.ChangeFont(item.sty.Font)\n			p.engine.W","p.engine.ChangeFont(sty.Font)\n			p.engine.W")]),
(A,"V","draw no font",[(T,"			p.engine.ChangeFont(item.sty.Font)\n			p.engine.W","			p.engine.W")]),
(A,"V","draw font after",[(T,"			p.engine.ChangeFont(item.sty.Font)\n			p.engine.WriteText(item.text)","			p.engine.WriteText(item.text)\n			p.engine.ChangeFont(item.sty.Font)")]),
(A,"V","draw twice",[(T,"			p.engine.WriteText(item.text)","			p.engine.WriteText(item.text)\n			if item.sty.Font.Weight == \"x\" {\n				p.engine.WriteText(item.text)\n			}")]),
(A,"V","draw block single-word lines skipped",[(H,"		if spaceCnt < 1 || line.paragraph {","		if spaceCnt < 1 && !line.paragraph {\n			continue\n		}\n		if line.paragraph {")]),
(A,"V","draw block item break",[(H,"				p.engine.SetX(cx + spaceWidth)","				if cx > width {\n					break\n				}\n				p.engine.SetX(cx + spaceWidth)")]),
(A,"V","draw line break on page end",[(T,"		p.engine.LineFeed(sty.LineSpacing)\n","		p.engine.LineFeed(sty.LineSpacing)\n		if _, y := p.engine.GetXY(); y > p.page().printableArea.y1 {\n			return\n		}\n")]),
(A,"V","words reversed",[(T,"			curr.items = append(curr.items, item)","			curr.items = append([]*textItem{item}, curr.items...)")]),
(A,"V","lines reversed",[(T,"				lines = append(lines, curr)\n				curr = textLine{}\n			}\n\n","				lines = append([]textLine{curr}, lines...)\n				curr = textLine{}\n			}\n\n")]),
(A,"V","upper case",[(T,"				text: word,","				text: strings.ToUpper(word),")]),
# benign
(A,"Q","T flush closure",[(T,"	for _, is := range iss {\n","	flush := func() {\n		lines = append(lines, curr)\n		curr = textLine{}\n	}\n	for _, is := range iss {\n"),(T,"			lines = append(lines, curr)\n			curr = textLine{}\n			continue","			flush()\n			continue"),(T,"				lines = append(lines, curr)\n				curr = textLine{}\n			}\n\n","				flush()\n			}\n\n"),(T,FL,"	if len(curr.items) > 0 {\n		flush()\n	}\n")]),
(A,"Q","H flush closure",[(H,"	for _, is := range iss {\n","	flush := func(par bool) {\n		curr.paragraph = par\n		lines = append(lines, curr)\n		curr = textLine{}\n	}\n	for _, is := range iss {\n"),(H,"			curr.paragraph = true\n			lines = append(lines, curr)\n			curr = textLine{}\n			continue","			flush(true)\n			continue"),(H,"						lines = append(lines, curr)\n						curr = textLine{}\n","						flush(false)\n"),(H,"					lines = append(lines, curr)\n\n					curr = textLine{}\n","					flush(false)\n")]),
(A,"Q","index loops",[(T,DRAW_T,"		for i := 0; i < len(line.items); i++ {\n			item := line.items[i]\n			p.engine.ChangeFont(item.sty.Font)\n			p.engine.WriteText(item.text)\n		}\n"),(T,"for _, line := range lines {","for k := range lines {\n		line := lines[k]")]),
(A,"Q","writeItem helper",[(T,DRAW_T,"		for _, item := range line.items {\n			p.writeItem(item)\n		}\n"),(T,"","\nfunc (p *Processor) writeItem(it *textItem) {\n	p.engine.ChangeFont(it.sty.Font)\n	p.engine.WriteText(it.text)\n}\n")]),
(A,"Q","empty line early",[(T,DRAW_T,"		if len(line.items) > 0 {\n"+DRAW_T+"		}\n")]),
(A,"Q","word index loop",[(T,"for _, word := range words {","for wi := 0; wi < len(words); wi++ {\n			word := words[wi]")]),
(A,"Q","direct element",[(T,"""			item := &textItem{
				sty:  isitem.sty,
				text: word,
			}
""","""			item := &textItem{}
			item.sty = isitem.sty
			item.text = word
""")]),
(A,"Q","blank var",[(T,"""			if len(curr.items) > 0 {
				item.text = " " + item.text
			}
""","""			sep := " "
			if len(curr.items) == 0 {
				sep = ""
			}
			item.text = sep + word
""")]),
(A,"Q","add method on line",[(T,"			curr.items = append(curr.items, item)\n			curr.width += itemWidth\n","			curr.add(item, itemWidth)\n"),(T,"","\nfunc (l *textLine) add(it *textItem, w float64) {\n	l.items = append(l.items, it)\n	l.width += w\n}\n")]),
(A,"Q","fits flag",[(T,"			if len(curr.items) > 0 && curr.width+itemWidth >= width {","			overflow := curr.width+itemWidth >= width\n			if overflow && len(curr.items) > 0 {")]),
(A,"Q","drawing font cache",[(T,DRAW_T,"		for _, item := range line.items {\n			if item.sty.Font != last {\n				p.engine.ChangeFont(item.sty.Font)\n				last = item.sty.Font\n			}\n			p.engine.WriteText(item.text)\n		}\n"),(T,"	xLeft, _ := p.engine.GetXY()\n","	xLeft, _ := p.engine.GetXY()\n	last := sty.Font\n")]),
(A,"Q","if chain for kinds",[(T,"""		switch is := is.(type) {
		case *xdoc.LineBreak:
			lines = append(lines, curr)
			curr = textLine{}
			continue
		case *xdoc.TextBlock:
			isitem = &textItem{
				sty:  sty,
				text: norm(is.Text),
			}
		case *xdoc.Paragraph:
			isitem = &textItem{
				sty:  is.MutatedStyles(p.doc.StyleClasses(), sty),
				text: norm(is.Text),
			}
		default:
			continue
		}""","""		if _, ok := is.(*xdoc.LineBreak); ok {
			lines = append(lines, curr)
			curr = textLine{}
			continue
		}
		if tb, ok := is.(*xdoc.TextBlock); ok {
			isitem = &textItem{sty: sty, text: norm(tb.Text)}
		} else if par, ok := is.(*xdoc.Paragraph); ok {
			isitem = &textItem{sty: par.MutatedStyles(p.doc.StyleClasses(), sty), text: norm(par.Text)}
		} else {
			continue
		}""")]),
(A,"Q","H hyphen as method",[(H,src[H][src[H].index("	tryHyphenate := func"):src[H].index("	lines := []textLine{}\n")],"	tryHyphenate := func(s string, cw float64) (string, string, bool) {\n		return p.hyphenateToFit(s, width-cw)\n	}\n"),(H,"","""
func (p *Processor) hyphenateToFit(s string, avail float64) (string, string, bool) {
	parts := p.hyphenator.Hyphenate(s)
	for n := len(parts) - 1; n > 0; n-- {
		head := " " + strings.Join(parts[:n], "") + "-"
		if p.engine.TextWidth(head) <= avail {
			return head, strings.Join(parts[n:], ""), true
		}
	}
	return "", "", false
}
""")]),
(A,"Q","H block draw swap branches",[(H,"if spaceCnt < 1 || line.paragraph {","if justify := spaceCnt >= 1 && !line.paragraph; !justify {")]),
(A,"Q","append directly with item literal",[(H,"			if len(curr.items) > 0 {\n				item.text = \" \" + item.text\n			}\n			curr.items = append(curr.items, item)","			txt := item.text\n			if len(curr.items) > 0 {\n				txt = \" \" + txt\n			}\n			curr.items = append(curr.items, &textItem{sty: item.sty, text: txt})")]),
]
