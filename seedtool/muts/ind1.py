muts=[]
def v(ids,what,*edits): muts.append((ids,"V",what,list(edits)))
def q(ids,what,*edits): muts.append((ids,"Q",what,list(edits)))
P,TX,TH,TB,IM,GR,DR,DI='process.go','text.go','text-hyph.go','table.go','image.go','grid.go','draw.go','dim.go'
F='engine/fpdf.go'; CL='style/class.go'; DE='style/decode.go'; RG='style/color.go'; BX='style/box.go'
XS,XT,XG,XI,XR,XD,XF='xdoc/style.go','xdoc/table.go','xdoc/grid.go','xdoc/instructions.go','xdoc/registry.go','xdoc/describe.go','xdoc/diff.go'
DO='xdoc/doc.go'; HY='hyphenation/hyphenation.go'; PA='hyphenation/pattern.go'; TT='text/text.go'
# C01
v('C01','class used twice counts once',(CL,'''	for _, cn := range useClasses {
		if c, ok := cs[cn]; ok {
			c.Mutate(styles)
''','''	done := map[string]bool{}
	for _, cn := range useClasses {
		if done[cn] {
			continue
		}
		done[cn] = true
		if c, ok := cs[cn]; ok {
			c.Mutate(styles)
'''))
v('C01','selector on top of class',(CL,'''	if sel, ok := c.Selectors[sel]; ok {
		sel.mutator.Mutate(styles)
		return
	}
''','''	if sel, ok := c.Selectors[sel]; ok {
		c.mutator.Mutate(styles)
		sel.mutator.Mutate(styles)
		return
	}
'''))
v('C01','unstyled row inherits current styles',(TB,'''		row := &tableRow{
			Styles: rowSty,
		}
''','''		if len(xrow.Classes) == 0 && len(xrow.Mutators) == 0 {
			rowSty = p.currStyles
		}
		row := &tableRow{
			Styles: rowSty,
		}
'''))
v('C01','last row of two',(TB,'case ir == len(xtab.Rows)-1:','case ir == len(xtab.Rows)-1 && ir > 1:'))
v('C01','inline style only without selector class',(XS,'''	cs.MutateWithSelector(sel, &ms, i.Classes...)
	for _, mut := range i.Mutators {
		mut.Mutate(&ms)
	}
''','''	for _, mut := range i.Mutators {
		mut.Mutate(&ms)
	}
	cs.MutateWithSelector(sel, &ms, i.Classes...)
'''))
v('C01','paragraph in block text inherits current font',(TH,'''				sty:  is.MutatedStyles(p.doc.StyleClasses(), sty),
''','''				sty:  is.MutatedStyles(p.doc.StyleClasses(), p.currStyles),
'''))
v('C01','unknown class ends list',(CL,'''		if c, ok := cs[cn]; ok {
			c.Mutate(styles)
		}
''','''		c, ok := cs[cn]
		if !ok {
			return
		}
		c.Mutate(styles)
'''))
v('C01','selector missing: nothing',(CL,'''	// if no special selector is found, decode with default
	c.mutator.Mutate(styles)
''','''	// if no special selector is found, decode with default
	if len(c.Selectors) == 0 {
		c.mutator.Mutate(styles)
	}
'''))
# C02
v('C02','font keeps text colour',(P,'p.changeFont(i.MutatedStyles(p.doc.StyleClasses(), p.currStyles).Font)','''sty := i.MutatedStyles(p.doc.StyleClasses(), p.currStyles)
			p.currStyles.Color.Text = sty.Color.Text
			p.changeFont(sty.Font)'''))
v('C02','no reset in header',(P,'''func (p *Processor) resetStyles() {
''','''func (p *Processor) resetStyles() {
	if p.preventPageBreak {
		return
	}
'''))
v('C02','text with one line not reset',(P,'''	defer p.resetStyles()
	sty := text.MutatedStyles(p.doc.StyleClasses(), p.currStyles)
''','''	if len(text.ISS) > 1 {
		defer p.resetStyles()
	}
	sty := text.MutatedStyles(p.doc.StyleClasses(), p.currStyles)
'''))
v('C02','box sets current width',(P,'''	x0, y0 := p.engine.GetXY()
	_, _, _, bm''','''	if sty.Width > pa.Width() {
		p.currStyles.Width = width
	}
	x0, y0 := p.engine.GetXY()
	_, _, _, bm'''))
v('C02','table styles current',(TB,'''	defer p.resetStyles()
	tab := p.transformTable(xtab)
''','''	defer p.resetStyles()
	defer func(sty style.Styles) { p.currStyles.Font = sty.Font }(p.currStyles)
	tab := p.transformTable(xtab)
	p.currStyles = tab.Styles
'''))
# C03
v('C03','cell ends with input',(XT,'''func (cell *TableCell) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	for {
		token, err := d.Token()
		if err != nil {
''','''func (cell *TableCell) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	for {
		token, err := d.Token()
		if token == nil {
			return nil
		}
		if err != nil {
'''))
v('C03','value with colons',(DE,'strings.Split(styleStr, ":")','strings.SplitN(styleStr, ":", 2)'))
v('C03','range errors tolerated',(DE,'''		f, err := strconv.ParseFloat(styleValue, 64)
		if err != nil {''','''		f, err := strconv.ParseFloat(styleValue, 64)
		if ne, ok := err.(*strconv.NumError); ok && ne.Err == strconv.ErrRange {
			err = nil
		}
		if err != nil {'''))
v('C03','grid with one row is not checked',(XG,'''	for _, p := range g.Parts {
''','''	if len(g.Rows) == 1 {
		return nil
	}
	for _, p := range g.Parts {
'''))
v('C03','header rows up to 100',(XT,'n < 0 || n > 10','n < 0 || n > 100'))
v('C03','scan stops at a long line',(PA,'''	if err := scanner.Err(); err != nil {''','''	if err := scanner.Err(); err != nil && err != bufio.ErrTooLong {'''))
v('C03','short border',(BX,'''	_, err := fmt.Fscanf(bytes.NewBufferString(v), "%d,%d,%d,%d", &b.Left, &b.Top, &b.Right, &b.Bottom)
	if err != nil {''','''	n, err := fmt.Fscanf(bytes.NewBufferString(v), "%d,%d,%d,%d", &b.Left, &b.Top, &b.Right, &b.Bottom)
	if n == 1 {
		b.Top, b.Right, b.Bottom = b.Left, b.Left, b.Left
		return nil
	}
	if err != nil {'''))
v('C03','class name with closing brace',(CL,'''		if strings.Contains(name, "}") {
			return nil, errors.Errorf("non matching brace in (%s)", name)
		}
''','''		name = trimWS(strings.TrimPrefix(name, "}"))
'''))
v('C03','colspan default on error',(XT,'''			n, err := strconv.ParseInt(a.Value, 10, 64)
			if err != nil {
				return err
			}
			c.ColSpan = int(n)''','''			n, err := strconv.ParseInt(a.Value, 10, 64)
			if err != nil {
				n = 1
			}
			c.ColSpan = int(n)'''))
# C04
v('C04','last font decides',('font/registry.go','''	for _, fd := range d.fonts {
		err := do(fd)
		if err != nil {
			return err
		}
	}
	return nil
''','''	var err error
	for _, fd := range d.fonts {
		err = do(fd)
	}
	return err
'''))
v('C04','buffered write without flush error',(F,'''	return e.pdf.Output(w)
''','''	bw := bufio.NewWriter(w)
	defer bw.Flush()
	return e.pdf.Output(bw)
'''),(F,'import (\n','import (\n\t"bufio"\n'))
v('C04 C13','error asked before the body',(P,'''	p.processInstructions(p.doc.Body)

	err := p.engine.Error()
	if err''','''	err := p.engine.Error()
	p.processInstructions(p.doc.Body)
	if err'''))
v('C04','missing font skipped',(F,'''		if err != nil {
			return errors.Wrapf(err, "read file %q", fd.FilePath)
		}
		var sty''','''		if os.IsNotExist(err) {
			return nil
		}
		if err != nil {
			return errors.Wrapf(err, "read file %q", fd.FilePath)
		}
		var sty'''),(F,'import (\n','import (\n\t"os"\n'))
v('C04','close error ignored',('cmd/xpdf/main.go','''	err = outF.Close()
	if err != nil {
		fmt.Println("ERROR close output-file:", err)
		os.Exit(4)
	}
''',''))
v('C04','process error exit 0',('cmd/xpdf/main.go','''		fmt.Println("ERROR processing input:", err)
		os.Exit(4)
''','''		fmt.Println("ERROR processing input:", err)
		os.Exit(len(os.Args) - 3)
'''))
# C05
v('C05','empty box not drawn',(P,'''			p.renderTextBox(i, p.page().printableArea)
''','''			if len(i.ISS) > 0 {
				p.renderTextBox(i, p.page().printableArea)
			}
'''))
v('C05','negative line feed',(P,'			p.engine.LineFeed(i.Lines)','''			if i.Lines > 0 {
				p.engine.LineFeed(i.Lines)
			}'''))
v('C05','no page break at the top',(P,'''			if !p.preventPageBreak {
				p.engine.AddPage()''','''			_, y := p.engine.GetXY()
			if !p.preventPageBreak && y > p.page().printableArea.y0 {
				p.engine.AddPage()'''))
v('C05','stop after page break at end',(P,'''	for _, i := range is.ISS {
		switch i := i.(type) {
		case *xdoc.Font:''','''	for n, i := range is.ISS {
		if _, ok := i.(*xdoc.PageBreak); ok && n == len(is.ISS)-1 {
			return
		}
		switch i := i.(type) {
		case *xdoc.Font:'''))
v('C05','image in cell with box',(TB,'''		case *xdoc.Image:
			p.engine.SetY(paddedPa.y0)
			p.renderImage(is, paddedPa)
''','''		case *xdoc.Image:
			if len(cell.iss) == 1 {
				p.engine.SetY(paddedPa.y0)
				p.renderImage(is, paddedPa)
			}
'''))
v('C05','narrow text',(P,'''	width := p.page().EffectiveWidth(sty.Width)

''','''	width := p.page().EffectiveWidth(sty.Width)
	if width <= 0 {
		return
	}

'''))
# C06
v('C06','blank text block not described',(XD,'''		case *TextBlock:
			dis = append(dis, DescribeItem{
				Name:  "text-block",
				Value: clearStr(is.Text),
			})
''','''		case *TextBlock:
			if v := clearStr(is.Text); v != "" {
				dis = append(dis, DescribeItem{
					Name:  "text-block",
					Value: v,
				})
			}
'''))
v('C06','parts first',(XD,'''	for _, gr := range g.Rows {
		i.Items = append(i.Items, desc.describeGridRow(gr)...)
	}
	for _, p := range g.Parts {
		i.Items = append(i.Items, desc.describeGridPart(p)...)
	}
''','''	for _, p := range g.Parts {
		i.Items = append(i.Items, desc.describeGridPart(p)...)
	}
	for _, gr := range g.Rows {
		i.Items = append(i.Items, desc.describeGridRow(gr)...)
	}
'''))
v('C06','cell without contents',(XD,'''	for _, td := range tr.Cells {
''','''	for _, td := range tr.Cells {
		if len(td.ISS) == 0 && td.ColSpan == 0 {
			continue
		}
'''))
v('C06','diffs to the default',(XD,'''	sty := style.Styles{}
	mutsty''','''	sty := style.Styles{}
	sty.Dimension.Width = -1
	mutsty'''))
v('C06','colspan at least 1',(XD,'''	i := DescribeItem{
		Name:       fmt.Sprintf("table-cell colspan=%d rowspan=%d", td.ColSpan, td.RowSpan),''','''	span := td.ColSpan
	if span > 99 {
		span = 99
	}
	i := DescribeItem{
		Name:       fmt.Sprintf("table-cell colspan=%d rowspan=%d", span, td.RowSpan),'''))
# C07
v('C07','header rows limited in document',(TB,'''	page := p.page()
	x0, y := p.engine.GetXY()
''','''	if xtab.RepeatHeader > len(tab.rows) {
		xtab.RepeatHeader = len(tab.rows)
	}
	page := p.page()
	x0, y := p.engine.GetXY()
'''))
v('C07','paragraph text normalised in place',(TX,'''				text: norm(is.Text),
			}
		default:''','''				text: norm(is.Text),
			}
			is.Text = strings.TrimSpace(is.Text)
		default:'''))
v('C07','cell contents sorted',(TB,'''				iss:     xcell.ISS,
			}
''','''				iss:     xcell.ISS,
			}
			if n := len(cell.iss); n > 0 {
				if tb, ok := cell.iss[n-1].(*xdoc.TextBlock); ok && strings.TrimSpace(tb.Text) == "" {
					cell.iss[n-1] = &xdoc.TextBlock{}
				}
			}
'''))
v('C07','describe row sorted areas',(XD,'''	i := DescribeItem{
		Name:       "grid-row",''','''	for n, a := range gr.Areas {
		gr.Areas[n] = strings.ToLower(a)
	}
	i := DescribeItem{
		Name:       "grid-row",'''))
v('C07','class without selector added',(CL,'''	// if no special selector is found, decode with default
''','''	// if no special selector is found, decode with default
	c.Selectors[sel] = Selector{Name: sel, mutator: c.mutator}
'''))
# C08
v('C08','hyphenation cache',(HY,'''func (h *Hyphenator) Hyphenate(s string) []string {
	if''','''var cache = map[string]bool{}

func (h *Hyphenator) Hyphenate(s string) []string {
	cache[s] = true
	if'''))
v('C08','prototype used for first element',(XR,'''	pointerToI := reflect.New(reflect.TypeOf(proto))
''','''	r.instructions[start.Name.Local] = proto
	pointerToI := reflect.New(reflect.TypeOf(proto))
'''))
v('C08','default style shared',('default.go','''func DefaultStyle() style.Styles {
	return style.Styles{''','''var defaults *style.Styles

func DefaultStyle() style.Styles {
	if defaults == nil {
		defaults = newDefaults()
	}
	return *defaults
}

func newDefaults() *style.Styles {
	return &style.Styles{'''))
# C09
v('C09','class order',(CL,'''	for _, cn := range useClasses {
		if c, ok := cs[cn]; ok {
			c.Mutate(styles)
		}
	}
''','''	use := map[string]bool{}
	for _, cn := range useClasses {
		use[cn] = true
	}
	for cn := range use {
		if c, ok := cs[cn]; ok {
			c.Mutate(styles)
		}
	}
'''))
v('C09','unsorted keys',(DE,'	sort.Strings(keys)\n','	if len(keys) > 8 {\n\t\tsort.Strings(keys)\n\t}\n'))
v('C09','default dir from environment',(P,'''	rname := filepath.Join(p.workingDir, name)
''','''	wd := p.workingDir
	if wd == "" {
		wd = os.Getenv("XPDF_HOME")
	}
	rname := filepath.Join(wd, name)
'''),(P,'	"io"\n','	"io"\n	"os"\n'))
# C10
v('C10','nbsp separates',(TX,'	return strings.Split(s, " ")','	return strings.Fields(s)'))
v('C10','line storage reused',(TX,'''				lines = append(lines, curr)
				curr = textLine{}
			}

			if''','''				lines = append(lines, curr)
				curr = textLine{items: curr.items[:0]}
			}

			if'''))
v('C10','empty line dropped',(TX,'''		case *xdoc.LineBreak:
			lines = append(lines, curr)
''','''		case *xdoc.LineBreak:
			if len(lines) > 0 || len(curr.items) > 0 {
				lines = append(lines, curr)
			}
'''))
v('C10','word with slash is not a word',(TH,'''			if curr.width+itemWidth >= width {
				//try''','''			if item.text == "-" && len(curr.items) == 0 {
				continue
			}
			if curr.width+itemWidth >= width {
				//try'''))
v('C10','second part loses its hyphen',(TH,'''				s2 = strings.Join(parts[i+1:], "")
''','''				s2 = strings.TrimLeft(strings.Join(parts[i+1:], ""), "-")
'''))
v('C10','block font of the text',(TH,'''				p.engine.ChangeFont(item.sty.Font)
				p.engine.WriteText(strings.Trim(item.text, " "))''','''				p.engine.ChangeFont(sty.Font)
				p.engine.WriteText(strings.Trim(item.text, " "))'''))
# C11
v('C11','offsets of the lower-case word',(HY,'	for i := range s {','	for i := range strings.ToLower(s) {'))
v('C11','long words by runes',(HY,'	if len(s) > 100 {','	if len([]rune(s)) > 100 {'))
v('C11','single last letter dropped',(HY,'''	return append(sl, s[offs[last]:])
''','''	if rest := s[offs[last]:]; len(rest) > 1 || len(sl) == 0 {
		sl = append(sl, rest)
	}
	return sl
'''))
v('C11','parts in lower case',(HY,'''				sl = append(sl, s[offs[last]:offs[i+1]])''','''				sl = append(sl, strings.Trim(s[offs[last]:offs[i+1]], "."))'''))
v('C11','weight above one',(HY,'		if w%2 == 1 {','		if w&3 == 1 {'))
