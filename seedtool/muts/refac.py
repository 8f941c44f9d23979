# behaviour-preserving edits, to run with ALL=1
A="C01"
P="process.go"; X="text.go"; H="text-hyph.go"; T="table.go"; D="draw.go"; I="image.go"; G="grid.go"
def q(what,*edits): muts.append((A,"Q",what,list(edits)))
muts=[]
q("resolve inline",(P,'''	rname := filepath.Join(p.workingDir, name)
	return filepath.Clean(rname)
''','''	return filepath.Clean(filepath.Join(p.workingDir, name))
'''))
HOOK='''		x, y := p.engine.GetXY()
		sty := p.currStyles
		p.preventPageBreak = true
		defer func() {
			p.engine.SetX(x)
			p.engine.SetY(y)
			p.currStyles = sty
			p.preventPageBreak = false
		}()
		p.processInstructions(p.doc.%s)
	})
'''
q("hooks share a helper",(P,"	p.engine.OnHeader(func() {\n"+HOOK%"Header","	p.engine.OnHeader(func() { p.renderHook(p.doc.Header) })\n"),
 (P,"	p.engine.OnFooter(func() {\n"+HOOK%"Footer","	p.engine.OnFooter(func() { p.renderHook(p.doc.Footer) })\n"),
 (P,"",'''
func (p *Processor) renderHook(is xdoc.Instructions) {
	x, y := p.engine.GetXY()
	saved := p.currStyles
	p.preventPageBreak = true
	p.processInstructions(is)
	p.preventPageBreak = false
	p.currStyles = saved
	p.engine.SetY(y)
	p.engine.SetX(x)
}
'''))
q("hooks restore order",(P,'''			p.engine.SetX(x)
			p.engine.SetY(y)
			p.currStyles = sty
			p.preventPageBreak = false
''','''			p.preventPageBreak = false
			p.currStyles = sty
			p.engine.SetX(x)
			p.engine.SetY(y)
'''))
q("hooks isolate closure",(P,"	p.engine.OnHeader(func() {\n"+HOOK%"Header","	p.engine.OnHeader(p.isolated(func() { p.processInstructions(p.doc.Header) }))\n"),
 (P,"	p.engine.OnFooter(func() {\n"+HOOK%"Footer","	p.engine.OnFooter(p.isolated(func() { p.processInstructions(p.doc.Footer) }))\n"),
 (P,"",'''
func (p *Processor) isolated(f func()) func() {
	return func() {
		x, y := p.engine.GetXY()
		sty := p.currStyles
		p.preventPageBreak = true
		defer func() {
			p.engine.SetX(x)
			p.engine.SetY(y)
			p.currStyles = sty
			p.preventPageBreak = false
		}()
		f()
	}
}
'''))
q("process error inline",(P,'''	err := p.engine.Error()
	if err != nil {
		return err
	}
	err = p.engine.WritePDF(w)
	if err != nil {
		return err
	}
	return nil
''','''	if err := p.engine.Error(); err != nil {
		return err
	}
	return p.engine.WritePDF(w)
'''))
q("process setup fn",(P,'''	//Change font to initial default font
	p.changeFont(p.currStyles.Font)

	p.engine.AddPage()
	p.processInstructions(p.doc.Body)
''','''	p.renderBody()
'''),(P,"",'''
func (p *Processor) renderBody() {
	p.changeFont(p.currStyles.Font)
	p.engine.AddPage()
	p.processInstructions(p.doc.Body)
}
'''))
q("tr strconv",(P,'fmt.Sprintf("%d", p.engine.CurrentPage())','strconv.Itoa(p.engine.CurrentPage())'),(P,'	"fmt"\n','	"strconv"\n'))
q("tr early",(P,'''	return strings.ReplaceAll(s, "{cp}"''','''	const alias = "{cp}"
	if !strings.Contains(s, alias) {
		return s
	}
	return strings.ReplaceAll(s, alias'''))
q("changeFont order",(P,'''	p.currStyles.Font = fnt
	p.engine.ChangeFont(p.currStyles.Font)
''','''	p.engine.ChangeFont(fnt)
	p.currStyles.Font = fnt
'''))
q("page positional",(P,'''	page := Page{
		width:  p.engine.PageWidth(),
		height: p.engine.PageHeight(),
		printableArea: PrintableArea{
			x0: x0,
			y0: y0,
			x1: x1,
			y1: y1,
		},
	}
	return page
''','''	var page Page
	page.printableArea = PrintableArea{x0, y0, x1, y1}
	page.width, page.height = p.engine.PageWidth(), p.engine.PageHeight()
	return page
'''))
q("resetStyles values",(P,"p.engine.SetTextColor(p.currStyles.Text.R, p.currStyles.Text.G, p.currStyles.Text.B)","p.engine.SetTextColor(p.currStyles.Text.Values())"))
q("dispatch one fn",(P,'''	for _, i := range is.ISS {
		switch i := i.(type) {''','''	for n := range is.ISS {
		p.processInstruction(is.ISS[n])
	}
}

func (p *Processor) processInstruction(i xdoc.Instruction) {
		switch i := i.(type) {'''),(P,'''				p.engine.AddPage()
			}
		}
	}
}
''','''				p.engine.AddPage()
			}
		}
}
'''))
q("dispatch pagebreak guard",(P,'''			//a new page in a header would render the header again, and so on
			if !p.preventPageBreak {
				p.engine.AddPage()
			}
''','''			if p.preventPageBreak {
				continue
			}
			p.engine.AddPage()
'''))
q("dispatch area var",(P,'''	for _, i := range is.ISS {
		switch i''','''	classes := p.doc.StyleClasses()
	for _, i := range is.ISS {
		switch i'''),(P,"i.MutatedStyles(p.doc.StyleClasses(), p.currStyles).Font","i.MutatedStyles(classes, p.currStyles).Font"))
q("dispatch font two steps",(P,'''			p.changeFont(i.MutatedStyles(p.doc.StyleClasses(), p.currStyles).Font)
''','''			sty := i.MutatedStyles(p.doc.StyleClasses(), p.currStyles)
			p.changeFont(sty.Font)
'''))
q("mutated helper",(P,"func (p *Processor) renderText(",'''func (p *Processor) stylesOf(i xdoc.Instruction) style.Styles {
	return i.MutatedStyles(p.doc.StyleClasses(), p.currStyles)
}

func (p *Processor) renderText('''),(P,"sty := text.MutatedStyles(p.doc.StyleClasses(), p.currStyles)","sty := p.stylesOf(text)"),(P,"sty := box.MutatedStyles(p.doc.StyleClasses(), p.currStyles)","sty := p.stylesOf(box)"),(P,"sty := box.MutatedStyles(p.doc.StyleClasses(), p.currStyles)","sty := p.stylesOf(box)"))
q("renderText iss",(P,"	if len(text.Instructions.ISS) == 0 {","	if len(text.ISS) < 1 {"))
q("box uses textBoxHeight-like helper",(P,'''	width := pa.EffectiveWidth(sty.Width) - sty.Padding.Left - sty.Padding.Right
	var height float64
	if sty.Dimension.Height <= 0 {
		if len(box.ISS) > 0 {
			height = p.textHeightFnc(sty)(box.ISS, width, sty)
		} else {
			height = p.engine.FontHeight()
		}
	} else {
		height = sty.Dimension.Height
	}

	x0''','''	width := pa.EffectiveWidth(sty.Width) - sty.Padding.Left - sty.Padding.Right
	height := p.contentHeight(box, width, sty)

	x0'''),(P,"",'''
func (p *Processor) contentHeight(box *xdoc.Box, width float64, sty style.Styles) float64 {
	switch {
	case sty.Dimension.Height > 0:
		return sty.Dimension.Height
	case len(box.ISS) == 0:
		return p.engine.FontHeight()
	default:
		return p.textHeightFnc(sty)(box.ISS, width, sty)
	}
}
'''))
q("box geometry regrouped",(P,'''	x0 += sty.Dimension.OffsetX
	y0 += sty.Dimension.OffsetY
	y1 := y0 + height + sty.Box.Padding.Top + sty.Box.Padding.Bottom
	x1 := x0 + width + sty.Padding.Left + sty.Padding.Right
''','''	x0 += sty.OffsetX
	x1 := x0 + sty.Padding.Left + width + sty.Padding.Right
	y0 += sty.OffsetY
	y1 := y0 + boxHeight
'''))
q("box page break helper",(P,'''	_, _, _, bm := p.engine.Margins()
	effHeight := p.engine.PageHeight() - bm
	boxHeight := sty.Box.Padding.Top + height + sty.Box.Padding.Bottom
	if !p.preventPageBreak && y0+boxHeight >= effHeight {
		p.engine.AddPage()
		x0, y0 = p.engine.GetXY()
	}
''','''	if p.breakBefore(y0, sty.Padding.Top+height+sty.Padding.Bottom) {
		x0, y0 = p.engine.GetXY()
	}
'''),(P,"",'''
// breakBefore starts a new page if there is not enough space left.
func (p *Processor) breakBefore(y, height float64) bool {
	if p.preventPageBreak {
		return false
	}
	_, _, _, bottom := p.engine.Margins()
	if y+height < p.engine.PageHeight()-bottom {
		return false
	}
	p.engine.AddPage()
	return true
}
'''))
q("box set order",(P,'''	p.engine.SetY(y0 + sty.Box.Padding.Top)
	p.engine.SetX(x0 + sty.Box.Padding.Left)
''','''	p.engine.SetX(x0 + sty.Padding.Left)
	p.engine.SetY(y0 + sty.Padding.Top)
'''))
q("box no defer",(P,'''func (p *Processor) renderTextBox(box *xdoc.Box, pa PrintableArea) {
	defer p.resetStyles()
''','''func (p *Processor) renderTextBox(box *xdoc.Box, pa PrintableArea) {
	defer func() {
		p.resetStyles()
	}()
'''))
q("height fnc if",(P,'''	switch sty.HAlign {
	case style.HAlignBlock:
		return p.textHeightHyphenated
	default:
		return p.textHeight
	}
''','''	if sty.HAlign == style.HAlignBlock {
		return p.textHeightHyphenated
	}
	return p.textHeight
'''),(P,'''	switch sty.HAlign {
	case style.HAlignBlock:
		return p.writeTextHyphenated
	default:
		return p.writeText
	}
''','''	if sty.HAlign != style.HAlignBlock {
		return p.writeText
	}
	return p.writeTextHyphenated
'''))
# text
ITEM='''		var isitem *textItem
		switch is := is.(type) {
		case *xdoc.LineBreak:
			lines = append(lines, curr)
			curr = textLine{}
			continue
		case *xdoc.TextBlock:
			isitem = &textItem{
				sty:  sty,
				text: norm(is.Text),
			}
		case *xdoc.Paragraph:
			isitem = &textItem{
				sty:  is.MutatedStyles(p.doc.StyleClasses(), sty),
				text: norm(is.Text),
			}
		default:
			continue
		}
		if isitem.text == "" {
			continue
		}
'''
q("lines item values",(X,ITEM,'''		var isitem textItem
		switch is := is.(type) {
		case *xdoc.LineBreak:
			lines = append(lines, curr)
			curr = textLine{}
			continue
		case *xdoc.TextBlock:
			isitem.sty, isitem.text = sty, norm(is.Text)
		case *xdoc.Paragraph:
			isitem.sty, isitem.text = is.MutatedStyles(p.doc.StyleClasses(), sty), norm(is.Text)
		default:
			continue
		}
		if len(isitem.text) == 0 {
			continue
		}
'''))
q("lines item fn",(X,ITEM,'''		if _, ok := is.(*xdoc.LineBreak); ok {
			lines = append(lines, curr)
			curr = textLine{}
			continue
		}
		isitem := p.makeItem(is, sty)
		if isitem == nil || isitem.text == "" {
			continue
		}
'''),(X,'''	norm := func(s string) string {
		return text.WhitespaceRectified(p.tr(s))
	}
''',""),(X,"",'''
func (p *Processor) makeItem(is xdoc.Instruction, sty style.Styles) *textItem {
	switch is := is.(type) {
	case *xdoc.TextBlock:
		return &textItem{sty: sty, text: text.WhitespaceRectified(p.tr(is.Text))}
	case *xdoc.Paragraph:
		return &textItem{
			sty:  is.MutatedStyles(p.doc.StyleClasses(), sty),
			text: text.WhitespaceRectified(p.tr(is.Text)),
		}
	}
	return nil
}
'''))
q("lines flush closure",(X,'''	lines := []textLine{}
	curr := textLine{}
''','''	lines := []textLine{}
	curr := textLine{}
	flush := func() {
		lines = append(lines, curr)
		curr = textLine{}
	}
'''),(X,'''			lines = append(lines, curr)
			curr = textLine{}
			continue
''','''			flush()
			continue
'''),(X,'''				lines = append(lines, curr)
				curr = textLine{}
			}

''','''				flush()
			}

'''))
q("lines add method",(X,'''			if len(curr.items) > 0 {
				item.text = " " + item.text
			}
			curr.items = append(curr.items, item)
			curr.width += itemWidth
''','''			curr.add(item, itemWidth)
'''),(X,"",'''
func (l *textLine) add(item *textItem, width float64) {
	if len(l.items) > 0 {
		item.text = " " + item.text
	}
	l.items = append(l.items, item)
	l.width += width
}
'''))
q("lines word var",(X,'''			item := &textItem{
				sty:  isitem.sty,
				text: word,
			}
			itemWidth := p.engine.TextWidth(" " + item.text)
			if len''','''			itemWidth := p.engine.TextWidth(" " + word)
			item := &textItem{sty: isitem.sty, text: word}
			if len'''))
q("lines inline words",(X,'''		words := p.words(isitem.text)
		for _, word := range words {''','''		for _, word := range p.words(isitem.text) {'''))
q("text height shared",(X,'''	p.engine.ChangeFont(sty.Font)
	lines := p.textLines(iss, width, sty)
	lineHeight := p.engine.FontHeight() * sty.Dimension.LineSpacing
	//subtract line-spacing, to have no space below the last line
	return float64(len(lines))*lineHeight - lineHeight + p.engine.FontHeight()
''','''	p.engine.ChangeFont(sty.Font)
	return p.linesHeight(len(p.textLines(iss, width, sty)), sty)
'''),(H,'''	lines := p.textLinesHyphenated(iss, width, sty)
	lineHeight := p.engine.FontHeight() * sty.Dimension.LineSpacing
	//subtract line-spacing, to have no space below the last line
	return float64(len(lines))*lineHeight - lineHeight + p.engine.FontHeight()
''','''	return p.linesHeight(len(p.textLinesHyphenated(iss, width, sty)), sty)
'''),(X,"",'''
func (p *Processor) linesHeight(n int, sty style.Styles) float64 {
	fh := p.engine.FontHeight()
	return float64(n-1)*fh*sty.LineSpacing + fh
}
'''))
q("write align helper",(X,'''		switch sty.HAlign {
		case style.HAlignCenter:
			p.engine.SetX(xLeft + (width-line.width)/2.0)
		case style.HAlignRight:
			p.engine.SetX(xLeft + width - line.width)
		default: //style.HAlignLeft:
			p.engine.SetX(xLeft)
		}
''','''		x := xLeft
		rest := width - line.width
		if sty.HAlign == style.HAlignCenter {
			x += rest / 2
		} else if sty.HAlign == style.HAlignRight {
			x += rest
		}
		p.engine.SetX(x)
'''))
WI='''		for _, item := range line.items {
			p.engine.ChangeFont(item.sty.Font)
			p.engine.WriteText(item.text)
		}
'''
q("write item helper",(X,WI,"		p.writeItems(line.items)\n"),(H,'''			for _, item := range line.items {
				p.engine.ChangeFont(item.sty.Font)
				p.engine.WriteText(item.text)
			}
''',"			p.writeItems(line.items)\n"),(X,"",'''
func (p *Processor) writeItems(items []*textItem) {
	for i := 0; i < len(items); i++ {
		p.engine.ChangeFont(items[i].sty.Font)
		p.engine.WriteText(items[i].text)
	}
}
'''))
q("write block split",(H,'''		p.engine.SetX(xLeft)
		spaceCnt := len(line.items) - 1
		if spaceCnt < 1 || line.paragraph {
''','''		p.engine.SetX(xLeft)
		spaceCnt := len(line.items) - 1
		if line.paragraph || len(line.items) <= 1 {
'''))
q("write block trimspace",(H,'p.engine.WriteText(strings.Trim(item.text, " "))\n				cx, _ := p.engine.GetXY()\n				p.engine.SetX(cx + spaceWidth)','word := strings.Trim(item.text, " ")\n				p.engine.WriteText(word)\n				x, _ := p.engine.GetXY()\n				x += spaceWidth\n				p.engine.SetX(x)'))
q("hyph try method",(H,'''		for i := len(parts) - 2; i >= 0; i-- {
			trial := " " + strings.Join(parts[:i+1], "") + "-"
			trialWidth := p.engine.TextWidth(trial)
			if trialWidth <= availWidth {
				s1 = trial
				s2 = strings.Join(parts[i+1:], "")
				success = true
				return
			}
		}
		return
''','''		for n := len(parts) - 1; n > 0; n-- {
			trial := " " + strings.Join(parts[:n], "") + "-"
			if p.engine.TextWidth(trial) > availWidth {
				continue
			}
			return trial, strings.Join(parts[n:], ""), true
		}
		return "", "", false
'''))
q("hyph flip ok",(H,'''				if !ok {
					if len(curr.items) > 0 {
						lines = append(lines, curr)
						curr = textLine{}
					}
				} else {
''','''				if !ok && len(curr.items) > 0 {
					lines = append(lines, curr)
					curr = textLine{}
				} else if ok {
'''))
q("hyph two methods",(H,'''	tryHyphenate := func(s string, currWidth float64) (s1 string, s2 string, success bool) {
		success = false
		availWidth := width - currWidth
		parts := p.hyphenator.Hyphenate(s)
		if len(parts) < 2 {
			return
		}
		for i := len(parts) - 2; i >= 0; i-- {
			trial := " " + strings.Join(parts[:i+1], "") + "-"
			trialWidth := p.engine.TextWidth(trial)
			if trialWidth <= availWidth {
				s1 = trial
				s2 = strings.Join(parts[i+1:], "")
				success = true
				return
			}
		}
		return
	}
''',''),(H,"tryHyphenate(item.text, curr.width)","p.tryHyphenate(item.text, width-curr.width)"),(H,"",'''
func (p *Processor) tryHyphenate(s string, avail float64) (head string, tail string, ok bool) {
	parts := p.hyphenator.Hyphenate(s)
	for i := len(parts) - 2; i >= 0; i-- {
		head = " " + strings.Join(parts[:i+1], "") + "-"
		if p.engine.TextWidth(head) <= avail {
			return head, strings.Join(parts[i+1:], ""), true
		}
	}
	return "", "", false
}
'''))
# draw
q("draw half",(D,'''	p.engine.FillRect(x0+halfLine, y0+halfLine, width-2*halfLine, height-2*halfLine)
''','''	lw := sty.Draw.LineWidth
	p.engine.FillRect(x0+halfLine, y0+halfLine, width-lw, height-lw)
'''))
q("draw border fn",(D,'''	p.engine.MoveTo(x0-halfLine, y0)
	if sty.Box.Border.Top > 0 {
		p.engine.LineTo(x0+width, y0)
	} else {
		p.engine.MoveTo(x0+width, y0)
	}
	if sty.Box.Border.Right > 0 {
		p.engine.LineTo(x0+width, y1)
	} else {
		p.engine.MoveTo(x0+width, y1)
	}
	if sty.Box.Border.Bottom > 0 {
		p.engine.LineTo(x0, y1)
	} else {
		p.engine.MoveTo(x0, y1)
	}
	if sty.Box.Border.Left > 0 {
		p.engine.LineTo(x0, y0)
	} else {
		p.engine.MoveTo(x0, y0)
	}
''','''	side := func(border int, x, y float64) {
		if border > 0 {
			p.engine.LineTo(x, y)
			return
		}
		p.engine.MoveTo(x, y)
	}
	p.engine.MoveTo(x0-halfLine, y0)
	side(sty.Border.Top, x1, y0)
	side(sty.Border.Right, x1, y1)
	side(sty.Border.Bottom, x0, y1)
	side(sty.Border.Left, x0, y0)
'''))
q("draw colours order",(D,'''	p.engine.SetLineWidth(sty.Draw.LineWidth)
	p.engine.SetDrawColor(sty.Color.Foreground.Values())
	p.engine.SetFillColor(sty.Color.Background.Values())
''','''	p.engine.SetFillColor(sty.Background.Values())
	p.engine.SetDrawColor(sty.Foreground.Values())
	p.engine.SetLineWidth(sty.Draw.LineWidth)
'''))
# image
q("image size fn",(I,'''	var width, height float64
	switch {
	case sty.Width > 0 && sty.Height > 0:
		width, height = sty.Width, sty.Height
	case sty.Width <= 0 && sty.Height > 0:
		height = sty.Height
		width = float64(idWidth) / float64(idHeight) * sty.Height
	case sty.Width > 0 && sty.Height <= 0:
		width = sty.Width
		height = float64(idHeight) / float64(idWidth) * sty.Width
	default:
		width, height = float64(idWidth), float64(idHeight)
	}
''','''	width, height := sty.Width, sty.Height
	if width <= 0 && height <= 0 {
		width, height = idWidth, idHeight
	} else if width <= 0 {
		width = height * idWidth / idHeight
	} else if height <= 0 {
		height = width * idHeight / idWidth
	}
'''))
q("image fit fn",(I,'''	if width > paWidth {
		height = height * paWidth / width
		width = paWidth
	}
	if height > paHeight {
		width = width * paHeight / height
		height = paHeight
	}
''','''	width, height = fitInto(width, height, paWidth, paHeight)
'''),(I,"",'''
func fitInto(w, h, maxW, maxH float64) (float64, float64) {
	if w > maxW {
		w, h = maxW, h*maxW/w
	}
	if h > maxH {
		w, h = w*maxH/h, maxH
	}
	return w, h
}
'''))
q("image styles first",(I,'''	imgSrc := p.resolveFile(img.Source)

''','''	sty := img.MutatedStyles(p.doc.StyleClasses(), p.currStyles)
	imgSrc := p.resolveFile(img.Source)
'''),(I,'''		return
	}
	sty := img.MutatedStyles(p.doc.StyleClasses(), p.currStyles)
	x, y''','''		return
	}
	x, y'''))
q("describe image named",(I,'''	return ImageDescriptor{
		Format:   format,
		WidthPx:  cfg.Width,
		HeightPx: cfg.Height,
	}, nil
''','''	var id ImageDescriptor
	id.Format = format
	id.WidthPx, id.HeightPx = cfg.Width, cfg.Height
	return id, nil
'''))
q("mm helper",(I,'''	pxPerMm := float64(dpi) / 25.4
	return float64(id.WidthPx) / pxPerMm
''','''	return pxToMm(id.WidthPx, dpi)
'''),(I,'''	pxPerMm := float64(dpi) / 25.4
	return float64(id.HeightPx) / pxPerMm
''','''	return pxToMm(id.HeightPx, dpi)
'''),(I,"",'''
func pxToMm(px, dpi int) float64 { return float64(px) * 25.4 / float64(dpi) }
'''))
# dims
q("effective width shared",("dim.go",'''	ew := p.printableArea.x1 - p.printableArea.x0
	if width < 0 || width > ew {
		return ew
	}
	return width
}
''','''	return p.printableArea.EffectiveWidth(width)
}
'''))
q("effective width switch",("dim.go",'''	ew := pa.Width()
	if width < 0 || width > ew {
		return ew
	}
	return width
''','''	max := pa.Width()
	switch {
	case width < 0:
		return max
	case width > max:
		return max
	}
	return width
'''))
# engine
F="engine/fpdf.go"
q("orientation map",(F,'''	switch o {
	case xdoc.OrientationPortrait:
		return "P"
	case xdoc.OrientationLandscape:
		return "L"
	}
	return ""
''','''	if o == xdoc.OrientationLandscape {
		return "L"
	} else if o == xdoc.OrientationPortrait {
		return "P"
	}
	return ""
'''))
q("format map",(F,'''	switch f {
	case xdoc.FormatA3:
		return "A3"
	case xdoc.FormatA4:
		return "A4"
	case xdoc.FormatA5:
		return "A5"
	case xdoc.FormatLetter:
		return "Letter"
	case xdoc.FormatLegal:
		return "Legal"
	default:
		return "A4"
	}
''','''	if s, ok := fpdfFormats[f]; ok {
		return s
	}
	return "A4"
'''),(F,"",'''
var fpdfFormats = map[xdoc.PaperFormat]string{
	xdoc.FormatA3:     "A3",
	xdoc.FormatA4:     "A4",
	xdoc.FormatA5:     "A5",
	xdoc.FormatLetter: "Letter",
	xdoc.FormatLegal:  "Legal",
}
'''))
q("font style ifs",(F,'''	s := ""
	switch fnt.Style {
	case style.FontStyleItalic:
		s += "I"
	}
	switch fnt.Weight {
	case style.FontWeightBold:
		s += "B"
	}
	switch fnt.Decoration {
	case style.FontDecorationUnderline:
		s += "U"
	}
	return s
''','''	var s string
	if fnt.Weight == style.FontWeightBold {
		s = "B"
	}
	if fnt.Style == style.FontStyleItalic {
		s += "I"
	}
	if fnt.Decoration == style.FontDecorationUnderline {
		s += "U"
	}
	return s
'''))
q("engine margins first",(F,'''	err := e.initFonts(fonts)
	if err != nil {
		return nil, errors.Wrap(err, "init-fonts")
	}

	e.pdf.SetAutoPageBreak(true, doc.Page.Margins.Bottom)
	e.pdf.SetMargins(doc.Page.Margins.Left, doc.Page.Margins.Top, doc.Page.Margins.Right)
''','''	m := doc.Page.Margins
	e.pdf.SetMargins(m.Left, m.Top, m.Right)
	e.pdf.SetAutoPageBreak(true, m.Bottom)
	if err := e.initFonts(fonts); err != nil {
		return nil, errors.Wrap(err, "init-fonts")
	}
'''))
q("engine font style fn",(F,'''		var sty string
		switch fd.Style {
		case font.Bold:
			sty = "B"
		case font.Italic:
			sty = "I"
		case font.BoldItalic:
			sty = "BI"
		default:
			sty = ""
		}
		e.pdf.AddUTF8FontFromBytes(fd.Name, sty, bs)
		if e.pdf.Error() != nil {
			return e.pdf.Error()
		}
		return nil
''','''		e.pdf.AddUTF8FontFromBytes(fd.Name, fontFileStyle(fd.Style), bs)
		return e.pdf.Error()
'''),(F,"",'''
func fontFileStyle(s font.Style) string {
	switch s {
	case font.BoldItalic:
		return "BI"
	case font.Italic:
		return "I"
	case font.Bold:
		return "B"
	}
	return ""
}
'''))
q("engine mono",(F,'''	if fonts.MonoFont() != "" {
		e.monoFont = fonts.MonoFont()
	} else {
		e.monoFont = "Courier"
	}
''','''	e.monoFont = "Courier"
	if mf := fonts.MonoFont(); mf != "" {
		e.monoFont = mf
	}
'''))
q("engine sety var",(F,'''	e.pdf.SetXY(e.pdf.GetX(), y)
''','''	x, _ := e.pdf.GetXY()
	e.pdf.SetXY(x, y)
'''))
q("engine lf fontheight",(F,'''	_, heightMM := e.pdf.GetFontSize()
	e.pdf.Ln(heightMM * lines)
''','''	e.pdf.Ln(lines * e.FontHeight())
'''))
# style
C="style/class.go"; DE="style/decode.go"
q("classes replacer",(C,'''	s = strings.Replace(s, "\\r", " ", -1)
	s = strings.Replace(s, "\\n", " ", -1)
	s = strings.Replace(s, "\\t", " ", -1)
''','''	s = strings.NewReplacer("\\r", " ", "\\n", " ", "\\t", " ").Replace(s)
'''))
q("classes replaceall",(C,'''	s = strings.Replace(s, "\\r", " ", -1)
	s = strings.Replace(s, "\\n", " ", -1)
	s = strings.Replace(s, "\\t", " ", -1)
''','''	for _, ws := range []string{"\\r", "\\n", "\\t"} {
		s = strings.ReplaceAll(s, ws, " ")
	}
'''))
q("classes rest",(C,'''	pos := 0
	for {
		curr := s[pos:]
''','''	curr := s
	for {
'''),(C,"		pos += in + 1\n","		curr = curr[in+1:]\n"))
q("classes add fn",(C,'''			if cl, ok := cs[className]; ok {
				cl.Selectors[selName] = Selector{
					Name:    selName,
					mutator: mut,
				}
				fmt.Printf("added selector (%s) to class (%s) \\n", selName, className)
			} else {
				return nil, errors.Errorf("no base class for (%s:%s)", className, selName)
			}
''','''			cl, ok := cs[className]
			if !ok {
				return nil, errors.Errorf("no base class for (%s:%s)", className, selName)
			}
			cl.Selectors[selName] = Selector{Name: selName, mutator: mut}
			fmt.Printf("added selector (%s) to class (%s) \\n", selName, className)
'''))
q("mutate selector else",(C,'''	if sel, ok := c.Selectors[sel]; ok {
		sel.mutator.Mutate(styles)
		return
	}
	// if no special selector is found, decode with default
	c.mutator.Mutate(styles)
''','''	mut := c.mutator
	if s, ok := c.Selectors[sel]; ok {
		mut = s.mutator
	}
	mut.Mutate(styles)
'''))
q("classes mutate guard",(C,'''		if c, ok := cs[cn]; ok {
			c.Mutate(styles)
		}
''','''		c, ok := cs[cn]
		if !ok {
			continue
		}
		c.Mutate(styles)
'''))
q("parseRaw index",(DE,'''		styleKV := strings.Split(styleStr, ":")
		if len(styleKV) != 2 {
			return nil, errors.Errorf("invalid style syntax (%s) must be of (key:val)", styleStr)
		}
		raw[trimWS(styleKV[0])] = trimWS(styleKV[1])
''','''		kv := strings.Split(styleStr, ":")
		if len(kv) != 2 {
			return nil, errors.Errorf("invalid style syntax (%s) must be of (key:val)", styleStr)
		}
		key, val := trimWS(kv[0]), trimWS(kv[1])
		raw[key] = val
'''))
q("mutator found",(DE,'''		if !found {
			continue
		}
		m.fncs = append(m.fncs, fnc)
''','''		if found {
			m.fncs = append(m.fncs, fnc)
		}
'''))
q("mutator append spread",(DE,'''	for _, f := range other.fncs {
		m.fncs = append(m.fncs, f)
	}
''','''	m.fncs = append(m.fncs, other.fncs...)
'''))
q("appendedCopy builtin",(DE,'''	c := make([]int, len(sl)+1)
	for i, v := range sl {
		c[i] = v
	}
	c[len(c)-1] = a
	return c
''','''	c := make([]int, len(sl), len(sl)+1)
	copy(c, sl)
	return append(c, a)
'''))
q("makeMutate byIndex",(DE,'''				rVal := reflect.ValueOf(s).Elem()
				for _, fIdx := range currIndexPath {
					rVal = rVal.Field(fIdx)
				}
				setValue(rVal)
''','''				setValue(reflect.ValueOf(s).Elem().FieldByIndex(currIndexPath))
'''))
q("color bits",("style/color.go",'''	c.R = int(uint(n >> 16))
	c.G = int(uint8(n >> 8))
	c.B = int(uint8(n))
''','''	c.R = int(n >> 16 & 0xff)
	c.G = int(n >> 8 & 0xff)
	c.B = int(n & 0xff)
'''))
q("color trimprefix",("style/color.go",'''	if strings.HasPrefix(s, "#") {
		s = s[1:]
	}
''','''	s = strings.TrimPrefix(s, "#")
'''))
q("box scan fn",("style/box.go",'''	_, err := fmt.Fscanf(bytes.NewBufferString(v), "%d,%d,%d,%d", &b.Left, &b.Top, &b.Right, &b.Bottom)
	if err != nil {
		return errors.Wrapf(err, "scan border value (%s)", v)
	}
	return nil
''','''	if _, err := fmt.Sscanf(v, "%d,%d,%d,%d", &b.Left, &b.Top, &b.Right, &b.Bottom); err != nil {
		return errors.Wrapf(err, "scan border value (%s)", v)
	}
	return nil
'''))
# xdoc
q("load classes var",("xdoc/doc.go",'''	doc.styleClasses, err = style.DecodeClasses(bytes.NewBufferString(doc.Style))
	if err != nil {
		return nil, err
	}
	return doc, nil
''','''	classes, err := style.DecodeClasses(strings.NewReader(doc.Style))
	if err != nil {
		return nil, err
	}
	doc.styleClasses = classes
	return doc, nil
'''),("xdoc/doc.go",'	"bytes"\n',''),("xdoc/doc.go",'	"os"\n','	"os"\n	"strings"\n'))
q("grid areas check",("xdoc/grid.go",'''	for _, p := range g.Parts {
		if _, ok := am[p.Area]; !ok {
''','''	for _, p := range g.Parts {
		if !am[p.Area] {
'''))
q("grid known areas fn",("xdoc/grid.go",'''	am := map[string]bool{}
	for _, r := range g.Rows {
		if len(r.Areas) != ac {
			return errors.Errorf("grid rows must have same size all")
		}
		for _, a := range r.Areas {
			am[a] = true
		}
	}
''','''	am := map[string]struct{}{}
	for _, r := range g.Rows {
		if len(r.Areas) != ac {
			return errors.Errorf("grid rows must have same size all")
		}
		for i := range r.Areas {
			am[r.Areas[i]] = struct{}{}
		}
	}
'''))
q("grid unmarshal if",("xdoc/grid.go",'''			switch i := i.(type) {
			case *GridPart:
				g.Parts = append(g.Parts, i)
			case *GridRow:
				g.Rows = append(g.Rows, i)
			}
''','''			if part, ok := i.(*GridPart); ok {
				g.Parts = append(g.Parts, part)
			} else if row, ok := i.(*GridRow); ok {
				g.Rows = append(g.Rows, row)
			}
'''))
q("gridpart attr if",("xdoc/grid.go",'''		switch a.Name.Local {
		case "area":
			p.Area = a.Value
		}
''','''		if a.Name.Local == "area" {
			p.Area = a.Value
		}
'''))
q("instr end check",("xdoc/instructions.go",'''			v := string(t)
			if v != "" {
				is.ISS = append(is.ISS, &TextBlock{
					Text: string(t),
				})
			}
''','''			if len(t) > 0 {
				is.ISS = append(is.ISS, &TextBlock{Text: string(t)})
			}
'''))
q("instr decode fn",("xdoc/instructions.go",'''			i, err := registry.DecodeInstruction(d, t)
			if err != nil {
				return errors.Wrapf(err, "decode token %v", t.Name.Local)
			}
			is.ISS = append(is.ISS, i)
''','''			if err := is.decodeChild(d, t); err != nil {
				return err
			}
'''),("xdoc/instructions.go","",'''
func (is *Instructions) decodeChild(d *xml.Decoder, start xml.StartElement) error {
	i, err := registry.DecodeInstruction(d, start)
	if err != nil {
		return errors.Wrapf(err, "decode token %v", start.Name.Local)
	}
	is.ISS = append(is.ISS, i)
	return nil
}
'''))
q("registry loop",("xdoc/registry.go",'''	registry.RegisterInstruction(&Font{})
	registry.RegisterInstruction(&Box{})
	registry.RegisterInstruction(&Text{})
''','''	for _, proto := range []Instruction{&Font{}, &Box{}, &Text{}} {
		registry.RegisterInstruction(proto)
	}
'''))
q("registry decode split",("xdoc/registry.go",'''	pointerToI := reflect.New(reflect.TypeOf(proto))
	err := d.DecodeElement(pointerToI.Interface(), &start)
	if err != nil {
		return nil, err
	}

	inst := pointerToI.Elem().Interface().(Instruction)
	err = inst.DecodeAttrs(start.Attr)
	if err != nil {
		return nil, err
	}
	return inst, nil
''','''	ptr := reflect.New(reflect.TypeOf(proto))
	if err := d.DecodeElement(ptr.Interface(), &start); err != nil {
		return nil, err
	}
	inst := ptr.Elem().Interface().(Instruction)
	if err := inst.DecodeAttrs(start.Attr); err != nil {
		return nil, err
	}
	return inst, nil
'''))
q("styled switch",("xdoc/style.go",'''		if a.Name.Local == "style" {
			mut''','''		switch a.Name.Local {
		case "style":
			mut'''),("xdoc/style.go",'''		} else if a.Name.Local == "class" {
''','''		case "class":
'''))
q("styled apply fn",("xdoc/style.go",'''	ms := styles
	cs.Mutate(&ms, i.Classes...)
	for _, mut := range i.Mutators {
		mut.Mutate(&ms)
	}
	return ms
''','''	cs.Mutate(&styles, i.Classes...)
	i.applyOwn(&styles)
	return styles
'''),("xdoc/style.go","",'''
func (i *Styled) applyOwn(ms *style.Styles) {
	for _, mut := range i.Mutators {
		mut.Mutate(ms)
	}
}
'''))
q("table attr atoi",("xdoc/table.go",'''			n, err := strconv.ParseInt(a.Value, 10, 64)
			if err != nil {
				return err
			} else if n < 0 || n > 10 {
				return errors''','''			n, err := strconv.ParseInt(a.Value, 10, 64)
			if err != nil {
				return err
			}
			if n > 10 || n < 0 {
				return errors'''))
q("cell attr fn",("xdoc/table.go",'''		case "colspan":
			n, err := strconv.ParseInt(a.Value, 10, 64)
			if err != nil {
				return err
			}
			c.ColSpan = int(n)
		case "rowspan":
			n, err := strconv.ParseInt(a.Value, 10, 64)
			if err != nil {
				return err
			}
			c.RowSpan = int(n)
''','''		case "colspan":
			if err := parseSpan(a.Value, &c.ColSpan); err != nil {
				return err
			}
		case "rowspan":
			if err := parseSpan(a.Value, &c.RowSpan); err != nil {
				return err
			}
'''),("xdoc/table.go","",'''
func parseSpan(s string, span *int) error {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return err
	}
	*span = int(n)
	return nil
}
'''))
q("table rows if",("xdoc/table.go",'''			switch i := i.(type) {
			case *TableRow:
				tab.Rows = append(tab.Rows, i)
			}
''','''			if row, ok := i.(*TableRow); ok {
				tab.Rows = append(tab.Rows, row)
			}
'''))
# describe
q("describe item fn",("xdoc/describe.go",'''	metaItem := DescribeItem{
		Name: "meta",
	}
	metaItem.Items = append(metaItem.Items, desc.describeMeta(doc.Meta)...)
	desc.Items = append(desc.Items, metaItem)

	pageItem := DescribeItem{
		Name: "page",
	}
	pageItem.Items = append(pageItem.Items, desc.describePage(doc.Page)...)
	desc.Items = append(desc.Items, pageItem)
''','''	add := func(name string, items []DescribeItem) {
		desc.Items = append(desc.Items, DescribeItem{Name: name, Items: items})
	}
	add("meta", desc.describeMeta(doc.Meta))
	add("page", desc.describePage(doc.Page))
'''))
q("diff default if",("xdoc/diff.go",'''		if org != mod {
			diffs = append(diffs, Diff{
				Path: path,
				Org:  org,
				Mod:  mod,
			})
		}
''','''		if org == mod {
			break
		}
		diffs = append(diffs, Diff{Path: path, Org: org, Mod: mod})
'''))
q("diff check once",("xdoc/diff.go",'''		for _, orgKey := range orgKeys {
			orgVal := org[orgKey]
''','''		for i := range orgKeys {
			orgKey := orgKeys[i]
			orgVal := org[orgKey]
'''))
# font
q("font each if",("font/registry.go",'''		err := do(fd)
		if err != nil {
			return err
		}
''','''		if err := do(fd); err != nil {
			return err
		}
'''))
q("font resolve fn",("font/definition.go",'''	resolve := func(file string) string {
		if filepath.IsAbs(file) {
			return file
		}
		return filepath.Join(absDir, file)
	}
''','''	resolve := func(file string) string {
		if !filepath.IsAbs(file) {
			file = filepath.Join(absDir, file)
		}
		return file
	}
'''))
# hyphenation
HY="hyphenation/hyphenation.go"; PA="hyphenation/pattern.go"
q("hyph guards",(HY,'''	if len(s) < 3 {
		//don't hyphenate words with less than 3 runes
		return []string{s}
	}
	if strings.Contains(s, " ") {
		return []string{s}
	}
	if len(s) > 100 {
		return []string{s}
	}
''','''	if len(s) < 3 || len(s) > 100 || strings.Contains(s, " ") {
		return []string{s}
	}
'''))
q("hyph weights fn",(HY,'''	ws := make([]int, len(rs)+1)
	for subSize := 1; subSize <= len(rs); subSize++ {
		for i := 0; i < len(rs)-subSize+1; i++ {
			sub := rs[i : i+subSize]
			pattern, ok := h.lookup.find(string(sub))
			if !ok {
				continue
			}
			for iw, w := range pattern.Weights {
				if w > ws[i+iw] {
					ws[i+iw] = w
				}
			}
		}
	}
''','''	ws := h.weights(rs)
'''),(HY,"",'''
func (h *Hyphenator) weights(rs []rune) []int {
	ws := make([]int, len(rs)+1)
	for i := 0; i < len(rs); i++ {
		for end := i + 1; end <= len(rs); end++ {
			p, ok := h.lookup.find(string(rs[i:end]))
			if !ok {
				continue
			}
			for k, w := range p.Weights {
				if ws[i+k] < w {
					ws[i+k] = w
				}
			}
		}
	}
	return ws
}
'''))
q("hyph cut cond",(HY,'''		if w%2 == 1 {
			if i+1-last > 1 {
				sl = append(sl, s[offs[last]:offs[i+1]])
				last = i + 1
			}
		}
''','''		if w%2 != 1 || i-last < 1 {
			continue
		}
		next := i + 1
		sl = append(sl, s[offs[last]:offs[next]])
		last = next
'''))
q("pattern string",(PA,'''		if wantDigit {
			if unicode.IsDigit(r) {
''','''		isDigit := unicode.IsDigit(r)
		if wantDigit {
			if isDigit {
'''))
q("patterns trimspace",(PA,'''		line := scanner.Text()
		line = strings.Trim(line, " \\n\\r\\t")
		if line''','''		line := strings.Trim(scanner.Text(), " \\n\\r\\t")
		if line'''))
q("patterns err first",(PA,'''	if err := scanner.Err(); err != nil {
		return nil, errors.Wrap(err, "scan patterns")
	}
	return pl, nil
''','''	err := scanner.Err()
	if err != nil {
		return nil, errors.Wrap(err, "scan patterns")
	}
	return pl, nil
'''))
# text
TX="text/text.go"
q("twins loop",(TX,'''	rem := strings.Repeat(twin, 2)
	rs := s
	for {
		rs = strings.ReplaceAll(s, rem, twin)
		if rs == s {
			return rs
		}
		s = rs
	}
''','''	double := twin + twin
	for {
		rs := strings.ReplaceAll(s, double, twin)
		if rs == s {
			return s
		}
		s = rs
	}
'''))
q("rectified order",(TX,'''	rs = strings.ReplaceAll(rs, "\\r", " ")
	rs = strings.ReplaceAll(rs, "\\n", " ")
	rs = strings.ReplaceAll(rs, "\\t", " ")
''','''	rs = strings.ReplaceAll(rs, "\\t", " ")
	rs = strings.ReplaceAll(rs, "\\r", " ")
	rs = strings.ReplaceAll(rs, "\\n", " ")
'''))
# table
q("table rowsty fn",(T,'''		switch {
		case ir == 0:
			rowSty = xrow.MutatedStylesWithSelector("first-row", p.doc.StyleClasses(), tab.Styles)
		case ir == len(xtab.Rows)-1:
			rowSty = xrow.MutatedStylesWithSelector("last-row", p.doc.StyleClasses(), tab.Styles)
		default:
			rowSty = xrow.MutatedStyles(p.doc.StyleClasses(), tab.Styles)
		}
''','''		if ir == 0 {
			rowSty = xrow.MutatedStylesWithSelector("first-row", p.doc.StyleClasses(), tab.Styles)
		} else if ir+1 == len(xtab.Rows) {
			rowSty = xrow.MutatedStylesWithSelector("last-row", p.doc.StyleClasses(), tab.Styles)
		} else {
			rowSty = xrow.MutatedStyles(p.doc.StyleClasses(), tab.Styles)
		}
'''))
q("table render pass",(T,'''		if !p.preventPageBreak && y+row.maxCellHeight() > page.printableArea.y1 {
			p.engine.AddPage()
			_, y = p.engine.GetXY()
			if i > 0''','''		bottom := y + row.maxCellHeight()
		if bottom > page.printableArea.y1 && !p.preventPageBreak {
			p.engine.AddPage()
			_, y = p.engine.GetXY()
			if i > 0'''))
q("table head loop",(T,'''		for i := 0; i < xtab.RepeatHeader+1; i++ {
			if i < len(tab.rows) {
				headHeight += tab.rows[i].maxCellHeight()
			}
		}
''','''		for i := 0; i <= xtab.RepeatHeader && i < len(tab.rows); i++ {
			headHeight += tab.rows[i].maxCellHeight()
		}
'''))
q("cell valign",(T,'''		switch cell.VAlign {
		case style.VAlignMiddle:
			p.engine.SetY(paddedPa.y0 + textMargin/2)
		case style.VAlignBottom:
			p.engine.SetY(paddedPa.y0 + textMargin)
		default: //style.VAlignTop:
			p.engine.SetY(paddedPa.y0)
		}
''','''		y := paddedPa.y0
		if cell.VAlign == style.VAlignMiddle {
			y += textMargin / 2
		} else if cell.VAlign == style.VAlignBottom {
			y += textMargin
		}
		p.engine.SetY(y)
'''))
q("cell width",(T,"pa.Width()-cell.Padding.Left-cell.Padding.Right","paddedPa.Width()"))
q("cell sety setx",(T,'''		p.engine.SetX(paddedPa.x0)

		p.writeTextFnc''','''		p.engine.SetX(pa.x0 + cell.Padding.Left)
		p.writeTextFnc'''))
# grid
q("grid box fn",(G,'''			b, ok := boxes[a]
			if !ok {
				b = &gridBox{
					area: a,
				}
				boxes[a] = b
			}
''','''			b := boxes[a]
			if b == nil {
				b = &gridBox{area: a}
				boxes[a] = b
			}
'''))
# cmd
M="cmd/xpdf/main.go"
q("main close inline",(M,'''	err = outF.Close()
	if err != nil {
		fmt.Println("ERROR close output-file:", err)
		os.Exit(4)
	}
''','''	if err := outF.Close(); err != nil {
		fmt.Println("ERROR close output-file:", err)
		os.Exit(4)
	}
'''))
q("main fail fn",(M,'''	if err != nil {
		fmt.Println("ERROR processing input:", err)
		os.Exit(4)
	}
''','''	if err != nil {
		fail(4, "processing input", err)
	}
'''),(M,"",'''
func fail(code int, what string, err error) {
	fmt.Printf("ERROR %s: %v\\n", what, err)
	os.Exit(code)
}
'''))
q("main run",(M,'''	p := xpdf.NewProcessor(engine, hyp, doc, wd)
	err = p.Process(outF)
	if err != nil {
''','''	if err = xpdf.NewProcessor(engine, hyp, doc, wd).Process(outF); err != nil {
'''))
