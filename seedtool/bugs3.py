_src=open('/verif/seedtool/bugs2.py').read().split('\n')
exec('\n'.join(_src[:3])); exec('IMG='+open('/verif/seedtool/bugs2.py').read().split('IMG=')[1].split("\nbug(")[0])
CL='style/class.go';XS='xdoc/style.go';DS='xdoc/describe.go';FP='engine/fpdf.go';DR='draw.go';XT='xdoc/table.go';XI='xdoc/instructions.go'

bug('C01-selector-of-first-class','C01',[(CL,'''		if c, ok := cs[cn]; ok {
			c.MutateWithSelector(sel, styles)
		}
''','''		c, ok := cs[cn]
		if !ok {
			continue
		}
		c.MutateWithSelector(sel, styles)
		if _, ok := c.Selectors[sel]; ok {
			return
		}
''')],
 T('''
	r := render(t, docWith("a{font-point-size: 5;} a:first-row{font-point-size: 7;} b{font-point-size: 9;}", "", "", `<table><tr class="a b"><td>x</td></tr><tr><td>y</td></tr></table>`))
	if !r.has("=9)") {
		t.Fatalf("%v", r.find("text "))
	}
'''),'a first row with two classes, of which the first has a first-row selector','the classes after it are ignored')

bug('C06-spans-of-cell','C06',[(DS,'''		Name:       fmt.Sprintf("table-cell colspan=%d rowspan=%d", td.ColSpan, td.RowSpan),
''','''		Name:       "table-cell " + spans(td.ColSpan, td.RowSpan),
'''),(DS,'''func (desc *Description) describeGrid(''','''func spans(cols, rows int) string {
	if cols > 1 && rows > 1 {
		return fmt.Sprintf("colspan=%d rowspan=%d", cols, cols)
	}
	return fmt.Sprintf("colspan=%d rowspan=%d", cols, rows)
}

func (desc *Description) describeGrid(''')],
 TP('xdoc',['strings'],'''
	d, err := Load(strings.NewReader(`<document><body><table><tr><td colspan="2" rowspan="3">x</td></tr></table></body></document>`))
	if err != nil {
		t.Fatal(err)
	}
	if s := Describe(d).Dump(DescribeJSON); !strings.Contains(s, "colspan=2 rowspan=3") {
		t.Fatal(s)
	}
'''),'a cell that spans rows and columns by different numbers','its row span is described wrongly',pkg='./xdoc')

bug('C06-diffs-of-text-in-box','C06',[(DS,'''			bi.Items = append(bi.Items, desc.describeInstructions(is.Instructions)...)
			dis = append(dis, bi)
''','''			for _, ci := range desc.describeInstructions(is.Instructions) {
				if ci.Name == "paragraph" && len(ci.StyleDiffs) == 0 {
					ci.StyleDiffs = bi.StyleDiffs
				}
				bi.Items = append(bi.Items, ci)
			}
			dis = append(dis, bi)
''')],
 TP('xdoc',['strings'],'''
	d, err := Load(strings.NewReader(`<document><body><box style="padding: 1,2,3,4;"><p>x</p></box></body></document>`))
	if err != nil {
		t.Fatal(err)
	}
	if ds := Describe(d).Items[4].Items[0].Items[0].StyleDiffs; len(ds) != 0 {
		t.Fatal(ds)
	}
'''),'a paragraph without styles in a box with styles','it is described with the differences of the box',pkg='./xdoc')

bug('C07-span-defaults','C07',[(TB,'''		for ic, xcell := range xrow.Cells {
''','''		for ic, xcell := range xrow.Cells {
			xcell.ColSpan = max(1, xcell.ColSpan)
'''),(TB,'''func (t *table) assignColumnWidths(width float64) {
	//TODO: think about''','''func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func (t *table) assignColumnWidths(width float64) {
	//TODO: think about''')] if False else [(TB,'''				iss:     xcell.ISS,
''','''				iss:     trimmed(xcell.ISS),
'''),(TB,'''func (p *Processor) transformTable(''','''// trimmed leaves out line breaks at the start.
func trimmed(iss []xdoc.Instruction) []xdoc.Instruction {
	out := iss[:0]
	for _, is := range iss {
		if tb, ok := is.(*xdoc.TextBlock); ok && tb.Text == "" {
			continue
		}
		if tb, ok := is.(*xdoc.TextBlock); ok && len(out) > 0 {
			if last, ok := out[len(out)-1].(*xdoc.TextBlock); ok {
				last.Text += tb.Text
				continue
			}
		}
		out = append(out, is)
	}
	return out
}

func (p *Processor) transformTable(''')],
 T('''
	d, err := xdoc.Load(strings.NewReader(docWith("", "", "", `<table><tr><td>abc<!-- x -->def</td></tr></table>`)))
	if err != nil {
		t.Fatal(err)
	}
	before := xdoc.Describe(d).Dump(xdoc.DescribeJSON)
	if err := NewProcessor(newRec(), hyphenation.NewEnUs(), d, "/nowhere").Process(&bytes.Buffer{}); err != nil {
		t.Fatal(err)
	}
	if xdoc.Describe(d).Dump(xdoc.DescribeJSON) != before {
		t.Fatal("the document changed")
	}
''').replace('import "testing"','import (\n\t"bytes"\n\t"strings"\n\t"testing"\n\n\t"github.com/mazzegi/xpdf/hyphenation"\n\t"github.com/mazzegi/xpdf/xdoc"\n)').replace('import (\n\t"testing"\n)','import (\n\t"bytes"\n\t"strings"\n\t"testing"\n\n\t"github.com/mazzegi/xpdf/hyphenation"\n\t"github.com/mazzegi/xpdf/xdoc"\n)'),'a cell whose text is interrupted by a comment','the texts of the document are joined in place by rendering')

bug('C08-parts-remembered','C08',[('hyphenation/hyphenation.go','func (h *Hyphenator) Hyphenate(s string) []string {\n','var known = map[string][]string{}\n\nfunc (h *Hyphenator) Hyphenate(s string) (parts []string) {\n\tif parts, ok := known[s]; ok {\n\t\treturn parts\n\t}\n\tdefer func() { known[s] = parts }()\n')],
 TP('hyphenation',['strings'],'''
	for i, p := range []string{"b1c\\n", "c1d\\n"} {
		h, err := Load(strings.NewReader(p))
		if err != nil {
			t.Fatal(err)
		}
		if s := strings.Join(h.Hyphenate("abcdef"), "-"); s != []string{"ab-cdef", "abc-def"}[i] {
			t.Fatal(s)
		}
	}
'''),'two hyphenators with other patterns','they share the parts of words remembered',pkg='./hyphenation')

bug('C09-classes-as-set','C09',[(CL,'''	for _, cn := range useClasses {
		if c, ok := cs[cn]; ok {
			c.Mutate(styles)
		}
	}
''','''	use := map[string]Class{}
	for _, cn := range useClasses {
		if c, ok := cs[cn]; ok {
			use[cn] = c
		}
	}
	for _, c := range use {
		c.Mutate(styles)
	}
''')],
 TP('style',['strings'],'''
	cs, err := DecodeClasses(strings.NewReader("a{width: 1;} b{width: 2;} c{width: 3;} d{width: 4;}"))
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 200; i++ {
		var s Styles
		cs.Mutate(&s, "a", "b", "c", "d")
		if s.Width != 4 {
			t.Fatalf("%v", s.Width)
		}
	}
'''),'an element with several classes that set the same style','which of them wins changes from run to run',pkg='./style')

bug('C17-right-border-by-left','C17',[(DR,'''	if sty.Box.Border.Right > 0 {
		p.engine.LineTo(x0+width, y1)
	} else {
		p.engine.MoveTo(x0+width, y1)
	}
''','''	if sty.Box.Border.Right > 0 {
		p.engine.LineTo(x0+width, y1)
	}
''')],
 T('''
	r := render(t, docWith("", "", "", `<box style="border-top: 1; border-bottom: 1; height: 20;">x</box>`.replace))
''') if False else T('''
	r := render(t, docWith("", "", "", `<box style="border: 1,1,0,1; height: 20;">x</box>`))
	n := 0
	for _, e := range r.find("line ") {
		_ = e
		n++
	}
	var mx, my float64
	diag := false
	for _, e := range r.ev {
		var x, y float64
		if k, _ := fmt.Sscanf(e, "move %f %f", &x, &y); k == 2 {
			mx, my = x, y
		}
		if k, _ := fmt.Sscanf(e, "line %f %f", &x, &y); k == 2 {
			dx, dy := x-mx, y-my
			if dx*dx > 1 && dy*dy > 1 {
				diag = true
			}
			mx, my = x, y
		}
	}
	if diag {
		t.Fatalf("a line that is no edge: %v", r.ev)
	}
''').replace('import "testing"','import (\n\t"fmt"\n\t"testing"\n)').replace('import (\n\t"testing"\n)','import (\n\t"fmt"\n\t"testing"\n)'),'a box with a border at the bottom but not at the right','the border at the bottom is drawn as a diagonal')

bug('C19-tallest-cell-of-text','C19',[(TB,'''		_, ch := cell.dim()
		if ch > max {
			max = ch
		}
	}
	return max
''','''		if cell.spannedBy != nil {
			continue
		}
		_, ch := cell.dim()
		if ch > max && len(cell.iss) > 0 {
			max = ch
		}
	}
	return max
''')],
 T('''
	r := render(t, docWith("", "", "", `<sety y="250"/><table><tr><td style="height: 60;"></td></tr></table>`))
	if r.pn != 2 {
		t.Fatalf("%v", r.ev)
	}
'''),'a row of high cells without contents at the end of a page','the row is painted across the lower margin')

bug('C14-no-break-without-margin','C14',[(FP,'e.pdf.SetAutoPageBreak(true, doc','e.pdf.SetAutoPageBreak(doc.Page.Margins.Bottom > 0, doc')],
 TP('engine',['github.com/mazzegi/xpdf/font','github.com/mazzegi/xpdf/xdoc'],'''
	e, err := NewFPDF(font.NewRegistry(), &xdoc.Document{})
	if err != nil {
		t.Fatal(err)
	}
	if auto, _ := e.pdf.GetAutoPageBreak(); !auto {
		t.Fatal("no automatic page breaks")
	}
'''),'a document without a margin at the bottom','automatic page breaks are off',pkg='./engine')

bug('C24-progress-by-width','C24',[(XT,'''func (tab *Table) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	for {
		token, err := d.Token()
		if err != nil {
			return err
		}
''','''func (tab *Table) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	for {
		token, err := d.Token()
		if err != nil && len(tab.Rows) == 0 {
			return err
		}
''')],
 TP('xdoc',['strings','time'],'''
	done := make(chan bool)
	go func() {
		Load(strings.NewReader(`<document><body><table><tr><td>x</td></tr><tr`))
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("loading does not end")
	}
'''),'a document that ends within a table with rows','reading the table never ends',pkg='./xdoc')

bug('C25-close-after-check','C25',[('hyphenation/hyphenation.go','''	defer f.Close()
	return Load(f)
''','''	h, err := Load(f)
	if err != nil {
		return nil, errors.Wrapf(err, "load %q", file)
	}
	return h, f.Close()
''')],
 TP('hyphenation',['os','path/filepath'],'''
	n := func() int {
		l, err := os.ReadDir("/proc/self/fd")
		if err != nil {
			t.Skip(err)
		}
		return len(l)
	}
	before := n()
	dir := t.TempDir()
	for i := 0; i < 20; i++ {
		if _, err := LoadFromFile(filepath.Join(dir)); err == nil {
			t.Fatal("a directory is read as patterns")
		}
	}
	if k := n(); k > before+5 {
		t.Fatalf("%d files stay open", k-before)
	}
'''),'a patterns file that cannot be read','it stays open',pkg='./hyphenation')

bug('C27-text-before-break','C27',[(XI,'''			v := string(t)
			if v != "" {
				is.ISS = append(is.ISS, &TextBlock{
					Text: string(t),
				})
			}
''','''			v := string(t)
			afterText := false
			if n := len(is.ISS); n > 0 {
				_, afterText = is.ISS[n-1].(*TextBlock)
			}
			if v != "" && !afterText {
				is.ISS = append(is.ISS, &TextBlock{
					Text: string(t),
				})
			}
''')],
 TP('xdoc',['strings'],'''
	d, err := Load(strings.NewReader(`<document><body>one<!-- two -->three</body></document>`))
	if err != nil {
		t.Fatal(err)
	}
	s := ""
	for _, i := range d.Body.ISS {
		s += i.(*TextBlock).Text
	}
	if s != "onethree" {
		t.Fatal(s)
	}
'''),'a text with a comment in it','the text after the comment is lost',pkg='./xdoc')
