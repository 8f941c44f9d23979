IMP='''
package xpdf

import (
	"testing"
)

func TestDemo(t *testing.T) {
%s
}
'''
def T(body): return IMP%body

bug('C02-box-early-return','C02',[('process.go','''	p.engine.SetTextColor(p.currStyles.Text.R, p.currStyles.Text.G, p.currStyles.Text.B)
''','''	if p.currStyles.Text.R != 0 || p.currStyles.Text.G != 0 || p.currStyles.Text.B != 0 {
		p.engine.SetTextColor(p.currStyles.Text.R, p.currStyles.Text.G, p.currStyles.Text.B)
	}
''')],
 '''
package xpdf

import (
	"bytes"
	"strings"
	"testing"

	"github.com/mazzegi/xpdf/hyphenation"
	"github.com/mazzegi/xpdf/xdoc"
)

func TestDemo(t *testing.T) {
	d, err := xdoc.Load(strings.NewReader(docWith("", "", "", "<text style=\\"text-color: #ff0000\\">red</text>")))
	if err != nil {
		t.Fatal(err)
	}
	r := newRec()
	p := NewProcessor(r, hyphenation.NewEnUs(), d, "")
	if err := p.Process(&bytes.Buffer{}); err != nil {
		t.Fatal(err)
	}
	if r.col != [3]int{0, 0, 0} {
		t.Fatalf("text color after the text is %v", r.col)
	}
}
''','a text or box with its own colour, while the current text colour is black (the default)','the engine keeps the colour of the last text instead of the current styles\' one')

bug('C02-paragraph-font-in-cell','C02',[('process.go','''		case *xdoc.Font:
			p.changeFont(i.MutatedStyles(p.doc.StyleClasses(), p.currStyles).Font)
''','''		case *xdoc.Font:
			p.currStyles = i.MutatedStyles(p.doc.StyleClasses(), p.currStyles)
			p.changeFont(p.currStyles.Font)
''')],
 T('''
	r := render(t, docWith("", "", "", `<font style="font-point-size: 12; padding-left: 30;"/><box style="height: 5;"/>`))
	p := render(t, docWith("", "", "", `<font style="font-point-size: 12;"/><box style="height: 5;"/>`))
	a, b := r.find("rect"), p.find("rect")
	if len(a) != 1 || len(b) != 1 || a[0] != b[0] {
		t.Fatalf("%v vs %v", a, b)
	}
	r = render(t, docWith("", "", "", `<font style="h-align: right;"/><text>abc</text>`))
	p = render(t, docWith("", "", "", `<text>abc</text>`))
	if r.find("text ")[0] != p.find("text ")[0] {
		t.Fatalf("%v vs %v", r.find("text "), p.find("text "))
	}
'''),'a font instruction whose style names properties other than the font','a font instruction leaks its other styles (alignment, padding, ...) into all following elements')

bug('C05-skip-after-newpage','C05',[('process.go','''func (p *Processor) processInstructions(is xdoc.Instructions) {
	for _, i := range is.ISS {
		switch i := i.(type) {
''','''func (p *Processor) processInstructions(is xdoc.Instructions) {
	for n, i := range is.ISS {
		if lf, ok := i.(*xdoc.LineFeed); ok && n > 0 && lf.Lines > 0 {
			//a new page starts at its top
			if _, ok := is.ISS[n-1].(*xdoc.PageBreak); ok {
				continue
			}
		}
		switch i := i.(type) {
''')],
 T('''
	r := render(t, docWith("", "", "", `<newpage/><lf lines="3"/><text>abc</text>`))
	if len(r.find("lf 3.00")) != 1 {
		t.Fatalf("%v", r.ev)
	}
'''),'a line feed directly after a page break','the line feed is dropped')

bug('C12-cursor-after-empty-header','C12',[('process.go','''	p.engine.OnFooter(func() {
		x, y := p.engine.GetXY()
		sty := p.currStyles
		p.preventPageBreak = true
		defer func() {
			p.engine.SetX(x)
			p.engine.SetY(y)
''','''	p.engine.OnFooter(func() {
		x, y := p.engine.GetXY()
		sty := p.currStyles
		p.preventPageBreak = true
		defer func() {
			if p.engine.CurrentPage() > 1 {
				p.engine.SetX(x)
			}
			p.engine.SetY(y)
''')],
 '''
package xpdf

import (
	"bytes"
	"strings"
	"testing"

	"github.com/mazzegi/xpdf/hyphenation"
	"github.com/mazzegi/xpdf/xdoc"
)

func TestDemo(t *testing.T) {
	d, err := xdoc.Load(strings.NewReader(docWith("", "", "<setx x=\\"77\\"/>", "<setx x=\\"33\\"/>")))
	if err != nil {
		t.Fatal(err)
	}
	r := newRec()
	if err := NewProcessor(r, hyphenation.NewEnUs(), d, "").Process(&bytes.Buffer{}); err != nil {
		t.Fatal(err)
	}
	if r.x != 33 {
		t.Fatalf("x after the footer is %v", r.x)
	}
}
''','the footer of the first page, with a footer that moves the cursor horizontally','the horizontal cursor position is not restored after the footer of page one')

bug('C12-nested-pagebreak','C12',[('table.go','''	for i, row := range tab.rows {
		if !p.preventPageBreak && y+row.maxCellHeight() > page.printableArea.y1 {
''','''	for i, row := range tab.rows {
		if (!p.preventPageBreak || i > 0 && xtab.RepeatHeader > 0) && y+row.maxCellHeight() > page.printableArea.y1 {
''')],
 '''
package xpdf

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(fmt.Sprint(e))
		}
	}()
	r := render(t, docWith("", "", `<sety y="285"/><table repeatheader="1"><tr><td>a</td></tr><tr><td>b</td></tr><tr><td>c</td></tr></table>`, `<text>x</text>`))
	if r.pn != 1 {
		t.Fatalf("%d pages", r.pn)
	}
}
''','a table with a repeated header row in the footer, close to the lower end of the page','drawing a footer starts a page')

bug('C13-write-despite-error','C13',[('process.go','''	err := p.engine.Error()
	if err != nil {
		return err
	}
	err = p.engine.WritePDF(w)
	if err != nil {
		return err
	}
	return nil
''','''	err := p.engine.WritePDF(w)
	if err != nil {
		return err
	}
	return p.engine.Error()
''')],
 '''
package xpdf

import (
	"errors"
	"testing"
)

func TestDemo(t *testing.T) {
	r := newRec()
	r.err = errors.New("broken")
	if err := renderWith(t, r, docWith("", "", "", "<text>x</text>")); err == nil {
		t.Fatal("no error")
	}
	if r.written != 0 {
		t.Fatal("written despite of an error")
	}
}
''','an engine error during rendering','the PDF is written although the engine reports an error')

bug('C16-sety-resets-x','C16',[('engine/fpdf.go','''	e.pdf.SetXY(e.pdf.GetX(), y)
''','''	if y < 0 {
		e.pdf.SetY(y)
	} else {
		e.pdf.SetXY(e.pdf.GetX(), y)
	}
''')],
 '''
package engine

import (
	"strings"
	"testing"

	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/xdoc"
)

func TestDemo(t *testing.T) {
	d, err := xdoc.Load(strings.NewReader(`<document><page><format>a4</format><orientation>portrait</orientation></page></document>`))
	if err != nil {
		t.Fatal(err)
	}
	e, err := NewFPDF(&font.Registry{}, d)
	if err != nil {
		t.Fatal(err)
	}
	e.AddPage()
	e.SetX(50)
	e.SetY(-20)
	if x, y := e.GetXY(); x != 50 || y > 278 || y < 276 {
		t.Fatalf("%v %v", x, y)
	}
}
''','a negative vertical position','setting the vertical position moves the cursor to the left margin',pkg='./engine')

