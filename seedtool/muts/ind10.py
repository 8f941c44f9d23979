muts=[]
def src(f): return open('/repo/'+f).read()
def between(f,a,b):
    s=src(f); i=s.index(a); j=s.index(b,i); return s[i:j]
def q(name,checks,*eds): muts.append((checks,"Q",name,list(eds)))
P="process.go"; TB="table.go"; DE="xdoc/describe.go"; RE="xdoc/registry.go"; FD="font/definition.go"; BX="style/box.go"; MA="cmd/xpdf/main.go"; IM="image.go"; TX="text.go"; TH="text-hyph.go"; EN="engine/fpdf.go"

q("text of a cell in a method","C18 C26 C17 C05 C19 C16",
(TB,between(TB,"	paddedPa := pa.WithPadding(cell.Padding)\n","	p.engine.SetX(paddedPa.x0)\n	for _, is := range cell.iss {"),'''	paddedPa := pa.WithPadding(cell.Padding)
	p.renderCellText(paddedPa, cell)

'''),
(TB,"func (p *Processor) renderCell(",'''func (p *Processor) renderCellText(pa PrintableArea, cell *tableCell) {
	if len(cell.iss) == 0 {
		return
	}
	free := pa.Height() - p.textHeightFnc(cell.Styles)(cell.iss, pa.Width(), cell.Styles)
	y := pa.y0
	switch cell.VAlign {
	case style.VAlignMiddle:
		y += free / 2
	case style.VAlignBottom:
		y += free
	}
	p.engine.SetY(y)
	p.engine.SetX(pa.x0)
	p.writeTextFnc(cell.Styles)(cell.iss, pa.Width(), cell.Styles)
}

func (p *Processor) renderCell('''))

q("boxes and images of a cell in methods","C05 C18 C16 C21",
(TB,between(TB,"		case *xdoc.Box:\n			height := p.textBoxHeight","		case *xdoc.Image:"),'''		case *xdoc.Box:
			p.engine.SetY(paddedPa.y0 + p.boxOffset(is, paddedPa, cell.VAlign))
			p.renderTextBox(is, paddedPa)
'''),
(TB,"func (p *Processor) renderCell(",'''func (p *Processor) boxOffset(box *xdoc.Box, pa PrintableArea, align style.VAlign) float64 {
	height := p.textBoxHeight(box, pa)
	if align == style.VAlignMiddle {
		return height / 2
	}
	if align == style.VAlignBottom {
		return height
	}
	return 0
}

func (p *Processor) renderCell('''))

q("height of a box in one place","C19 C26 C18 C02 C05",
(P,between(P,"	width := pa.EffectiveWidth(sty.Width) - sty.Padding.Left - sty.Padding.Right\n	var height float64\n	if sty.Dimension.Height <= 0 {\n		if len(box.ISS) == 0","	return height\n"),'''	_, height := p.boxSize(box, sty, pa)
'''),
(P,between(P,"	width := pa.EffectiveWidth(sty.Width) - sty.Padding.Left - sty.Padding.Right\n	var height float64\n	if sty.Dimension.Height <= 0 {\n		if len(box.ISS) > 0","	x0, y0 := p.engine.GetXY()\n	_, _, _, bm"),'''	width, height := p.boxSize(box, sty, pa)

'''),
(P,"func (p *Processor) textBoxHeight(",'''// boxSize is the size of the contents of a box, without padding.
func (p *Processor) boxSize(box *xdoc.Box, sty style.Styles, pa PrintableArea) (width, height float64) {
	width = pa.EffectiveWidth(sty.Width) - sty.Padding.Left - sty.Padding.Right
	switch {
	case sty.Dimension.Height > 0:
		height = sty.Dimension.Height
	case len(box.ISS) == 0:
		height = p.engine.FontHeight()
	default:
		height = p.textHeightFnc(sty)(box.ISS, width, sty)
	}
	return width, height
}

func (p *Processor) textBoxHeight('''))

q("one element in its own method","C05 C02 C12 C13",
(P,between(P,"	for _, i := range is.ISS {\n		switch i := i.(type) {\n		case *xdoc.Font:","func (p *Processor) renderText("),'''	for _, i := range is.ISS {
		p.processInstruction(i)
	}
}

func (p *Processor) processInstruction(i xdoc.Instruction) {
	switch i := i.(type) {
	case *xdoc.Font:
		sty := i.MutatedStyles(p.doc.StyleClasses(), p.currStyles)
		p.changeFont(sty.Font)
	case *xdoc.LineFeed:
		p.engine.LineFeed(i.Lines)
	case *xdoc.SetX:
		p.engine.SetX(i.X)
	case *xdoc.SetY:
		p.engine.SetY(i.Y)
	case *xdoc.Text:
		p.renderText(i)
	case *xdoc.Table:
		p.renderTable(i)
	case *xdoc.PageBreak:
		if p.preventPageBreak {
			//a new page in a header would render the header again, and so on
			return
		}
		p.engine.AddPage()
	default:
		p.processInArea(i, p.page().printableArea)
	}
}

func (p *Processor) processInArea(i xdoc.Instruction, pa PrintableArea) {
	switch i := i.(type) {
	case *xdoc.Box:
		p.renderTextBox(i, pa)
	case *xdoc.Image:
		p.renderImage(i, pa)
	case *xdoc.Grid:
		p.renderGrid(i, pa)
	}
}

'''))

q("description of leaves and parents by helpers","C06 C08",
(DE,'''			bi := DescribeItem{
				Name:       "box",
				StyleDiffs: desc.describeMutator(is),
			}
			bi.Items = append(bi.Items, desc.describeInstructions(is.Instructions)...)
			dis = append(dis, bi)
''','''			dis = append(dis, desc.parent("box", is, is.Instructions))
'''),
(DE,'''			ti := DescribeItem{
				Name:       "text",
				StyleDiffs: desc.describeMutator(is),
			}
			ti.Items = append(ti.Items, desc.describeInstructions(is.Instructions)...)
			dis = append(dis, ti)
''','''			dis = append(dis, desc.parent("text", is, is.Instructions))
'''),
(DE,'''			dis = append(dis, DescribeItem{
				Name:       "setx",
				Value:      is.X,
				StyleDiffs: desc.describeMutator(is),
			})
''','''			dis = append(dis, desc.leaf("setx", is, is.X))
'''),
(DE,'''			dis = append(dis, DescribeItem{
				Name:       "sety",
				Value:      is.Y,
				StyleDiffs: desc.describeMutator(is),
			})
''','''			dis = append(dis, desc.leaf("sety", is, is.Y))
'''),
(DE,"func (desc *Description) describeInstructions(",'''func (desc *Description) leaf(name string, ins Instruction, value interface{}) DescribeItem {
	return DescribeItem{Name: name, Value: value, StyleDiffs: desc.describeMutator(ins)}
}

func (desc *Description) parent(name string, ins Instruction, iss Instructions) DescribeItem {
	return DescribeItem{
		Name:       name,
		StyleDiffs: desc.describeMutator(ins),
		Items:      desc.describeInstructions(iss),
	}
}

func (desc *Description) describeInstructions('''))

q("sections of the description listed","C06 C08",
(DE,between(DE,'	metaItem := DescribeItem{\n','	return desc\n}'),'''	desc.Items = []DescribeItem{
		{Name: "meta", Items: desc.describeMeta(doc.Meta)},
		{Name: "page", Items: desc.describePage(doc.Page)},
		{Name: "header", Items: desc.describeInstructions(doc.Header)},
		{Name: "footer", Items: desc.describeInstructions(doc.Footer)},
		{Name: "body", Items: desc.describeInstructions(doc.Body)},
	}
'''))

q("element decoded by a helper","C05 C06 C03 C25",
(RE,between(RE,"	pointerToI := reflect.New(","	inst := pointerToI.Elem()"),'''	target := reflect.New(reflect.TypeOf(proto))
	if err := d.DecodeElement(target.Interface(), &start); err != nil {
		return nil, err
	}

'''),
(RE,'''	inst := pointerToI.Elem().Interface().(Instruction)
	err = inst.DecodeAttrs(start.Attr)
	if err != nil {
		return nil, err
	}
	return inst, nil
''','''	inst := target.Elem().Interface().(Instruction)
	if err := inst.DecodeAttrs(start.Attr); err != nil {
		return nil, err
	}
	return inst, nil
'''))

q("kinds of elements in a list","C05 C06 C03",
(RE,between(RE,"	registry.RegisterInstruction(&Font{})\n","}\n\ntype Registry struct"),'''	for _, proto := range []Instruction{
		&Font{}, &Box{}, &Text{}, &LineFeed{}, &SetX{}, &SetY{}, &Image{},
		&Table{}, &TableRow{}, &TableCell{},
		&Grid{}, &GridRow{}, &GridPart{},
		&Paragraph{}, &LineBreak{}, &PageBreak{},
	} {
		registry.RegisterInstruction(proto)
	}
'''))

q("document finished by a method","C13 C04 C25",
(P,'''	err := p.engine.Error()
	if err != nil {
		return err
	}
	err = p.engine.WritePDF(w)
	if err != nil {
		return err
	}
	return nil
}
''','''	return p.finish(w)
}

func (p *Processor) finish(w io.Writer) error {
	if err := p.engine.Error(); err != nil {
		return err
	}
	return p.engine.WritePDF(w)
}
'''))

q("paths resolved by cases","C21 C24 C05",
(P,'''	if filepath.IsAbs(name) {
		return name
	}
	rname := filepath.Join(p.workingDir, name)
	return filepath.Clean(rname)
''','''	if !filepath.IsAbs(name) {
		name = filepath.Join(p.workingDir, name)
	}
	return name
'''),
(FD,'''	resolve := func(file string) string {
		if filepath.IsAbs(file) {
			return file
		}
		return filepath.Join(absDir, file)
	}
''','''	resolve := func(file string) string {
		if !filepath.IsAbs(file) {
			file = filepath.Join(absDir, file)
		}
		return file
	}
'''))

q("four numbers by a helper","C03 C15",
(BX,'''	_, err := fmt.Fscanf(bytes.NewBufferString(v), "%f,%f,%f,%f", &b.Left, &b.Top, &b.Right, &b.Bottom)
	if err != nil {
		return errors.Wrapf(err, "scan padding value (%s)", v)
	}
	return nil
''','''	return scanSides(v, "%f,%f,%f,%f", "padding", &b.Left, &b.Top, &b.Right, &b.Bottom)
'''),
(BX,'''	_, err := fmt.Fscanf(bytes.NewBufferString(v), "%f,%f,%f,%f", &b.Left, &b.Top, &b.Right, &b.Bottom)
	if err != nil {
		return errors.Wrapf(err, "scan margin value (%s)", v)
	}
	return nil
''','''	return scanSides(v, "%f,%f,%f,%f", "margin", &b.Left, &b.Top, &b.Right, &b.Bottom)
'''),
(BX,"func (b *Border) UnmarshalStyle",'''func scanSides(v, format, what string, sides ...interface{}) error {
	_, err := fmt.Fscanf(bytes.NewBufferString(v), format, sides...)
	return errors.Wrapf(err, "scan %s value (%s)", what, v)
}

func (b *Border) UnmarshalStyle'''))

q("output in a function with errors","C04 C24 C25 C13",
(MA,between(MA,'	outF, err := os.Create(out)\n','	fonts, err := font.Load'),''),
(MA,between(MA,'	hyp := hyphenation.NewEnUs()\n',"\n}\n"),'''	p := xpdf.NewProcessor(engine, hyphenation.NewEnUs(), doc, wd)
	if err := write(p, out); err != nil {
		fmt.Println("ERROR writing output:", err)
		os.Exit(4)
	}
}

func write(p *xpdf.Processor, file string) (err error) {
	f, err := os.Create(file)
	if err != nil {
		return err
	}
	defer func() {
		if cerr := f.Close(); err == nil {
			err = cerr
		}
	}()
	return p.Process(f)'''))

q("image described, then placed","C21 C05 C18 C24",
(IM,between(IM,"	sty := img.MutatedStyles(p.doc.StyleClasses(), p.currStyles)\n	x, y :=","	idWidth := iDesc.WidthMm"),'''	sty := img.MutatedStyles(p.doc.StyleClasses(), p.currStyles)
	paWidth, paHeight := pa.Width()-sty.OffsetX, pa.Height()-sty.OffsetY

'''),
(IM,src(IM)[src(IM).index("	if height > paHeight {"):],'''	if height > paHeight {
		width, height = width*paHeight/height, paHeight
	}
	left, top := p.engine.GetXY()
	p.engine.PutImage(imgSrc, left+sty.OffsetX, top+sty.OffsetY, width, height)
}
'''))

q("alignment chosen by a function value","C17 C22 C16 C18",
(TX,'''	for _, line := range lines {
		switch sty.HAlign {
		case style.HAlignCenter:
			p.engine.SetX(xLeft + (width-line.width)/2.0)
		case style.HAlignRight:
			p.engine.SetX(xLeft + width - line.width)
		default: //style.HAlignLeft:
			p.engine.SetX(xLeft)
		}
''','''	indent := func(free float64) float64 {
		if sty.HAlign == style.HAlignCenter {
			return free / 2
		}
		if sty.HAlign == style.HAlignRight {
			return free
		}
		return 0
	}
	for _, line := range lines {
		p.engine.SetX(xLeft + indent(width-line.width))
'''))

q("formats by a table","C16 C13 C03",
(EN,between(EN,"	switch f {\n	case xdoc.FormatA3:","func fpdfFontStyle"),'''	if name, ok := fpdfFormats[f]; ok {
		return name
	}
	return "A4"
}

var fpdfFormats = map[xdoc.PaperFormat]string{
	xdoc.FormatA3:     "A3",
	xdoc.FormatA4:     "A4",
	xdoc.FormatA5:     "A5",
	xdoc.FormatLetter: "Letter",
	xdoc.FormatLegal:  "Legal",
}

'''))
