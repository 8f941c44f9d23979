exec(open('/verif/seedtool/bugs1.py').read().split("bug('")[0])
DE='style/decode.go';P='process.go';TX='text.go';TB='table.go';IM='image.go'
def TP(pkg,imps,body): return 'package %s\n\nimport (\n%s)\n\nfunc TestDemo(t *testing.T) {\n%s\n}\n'%(pkg,''.join('\t"%s"\n'%i for i in sorted(imps+['testing'])),body)

bug('C03-value-with-colon','C03',[(DE,'strings.Split(styleStr, ":")','strings.SplitN(styleStr, ":", 2)')],
 TP('style',['strings'],'''
	if _, err := DecodeMutator(strings.NewReader("font-family: a:b; font-point-size: 12")); err == nil {
		t.Fatal("a style entry with two colons is accepted")
	}
'''),'a style entry whose value contains a colon','the malformed entry is accepted and the rest taken as its value',pkg='./style')

bug('C04-last-font-decides','C04',[('font/registry.go','''		err := do(fd)
		if err != nil {
			return err
		}
	}
	return nil
''','''		err = do(fd)
	}
	return err
'''),('font/registry.go','''	for _, fd := range d.fonts {
''','''	var err error
	for _, fd := range d.fonts {
''')],
 TP('font',['errors'],'''
	r := &Registry{fonts: []Descriptor{{Name: "a"}, {Name: "b"}}}
	err := r.Each(func(d Descriptor) error {
		if d.Name == "a" {
			return errors.New("unreadable")
		}
		return nil
	})
	if err == nil {
		t.Fatal("the failure of the first font is lost")
	}
'''),'two registered fonts, of which not the last one cannot be read','the failure is overwritten by the success of the next font',pkg='./font')

bug('C10-line-storage-reused','C10',[(TX,'''				lines = append(lines, curr)
				curr = textLine{}
			}

			if''','''				lines = append(lines, curr)
				curr = textLine{items: curr.items[:0]}
			}

			if''')],
 T('''
	r := render(t, docWith("", "", "", `<text style="width: 30;">aaa bbb ccc ddd eee fff</text>`))
	if r.words() != "aaa|bbb|ccc|ddd|eee|fff" {
		t.Fatalf("%s", r.words())
	}
'''),'a text of several lines','finished lines share their memory with the open one and are overwritten')

bug('C11-whole-word-patterns','C11',[('hyphenation/hyphenation.go','for subSize := 1; subSize <= len(rs); subSize++ {','for subSize := 1; subSize < len(rs); subSize++ {')],
 TP('hyphenation',['strings'],'''
	h, err := Load(strings.NewReader(".ab1cd.\\n"))
	if err != nil {
		t.Fatal(err)
	}
	if s := strings.Join(h.Hyphenate("abcd"), "-"); s != "ab-cd" {
		t.Fatalf("%s", s)
	}
'''),'a pattern for a whole word','patterns as long as the dotted word are never looked up',pkg='./hyphenation')

bug('C15-negative-number-unset','C15',[(DE,'''			v.SetFloat(f)
''','''			if f >= 0 {
				v.SetFloat(f)
			}
''')],
 TP('style',['strings'],'''
	m, err := DecodeMutator(strings.NewReader("offset-x: -5"))
	if err != nil {
		t.Fatal(err)
	}
	var s Styles
	m.Mutate(&s)
	if s.OffsetX != -5 {
		t.Fatalf("offset-x is %v", s.OffsetX)
	}
'''),'a negative number as a value','the value is not set',pkg='./style')

bug('C20-covered-x','C20',[(TB,'''			if cell.spannedBy != nil || cell.zero {
				x += cell.width
''','''			if cell.spannedBy != nil || cell.zero {
				if cell.spannedBy == nil || cell.spannedBy.rowIdx == cell.rowIdx {
					x += cell.width
				}
''')],
 T('''
	r := render(t, docWith("", "", "", `<table><tr><td rowspan="2" style="column-width: 30;">a</td><td style="column-width: 30;">b</td></tr><tr><td style="column-width: 30;">c</td></tr></table>`))
	a, b := r.find(`text "b"`), r.find(`text "c"`)
	if len(a) != 1 || len(b) != 1 {
		t.Fatalf("%v", r.ev)
	}
	var p1, p2 int
	var x1, y1, x2, y2 float64
	fmt.Sscanf(a[0], `text "b" p%d %f %f`, &p1, &x1, &y1)
	fmt.Sscanf(b[0], `text "c" p%d %f %f`, &p2, &x2, &y2)
	if x1 != x2 {
		t.Fatalf("column two is at %v and %v", x1, x2)
	}
''').replace('"testing"','"fmt"\n\t"testing"'),'a row below a cell that spans rows','positions covered by a row span take no width, so that the cells to their right move left')

bug('C28-two-digits','C28',[(P,'fmt.Sprintf("%d", p.engine.CurrentPage())','fmt.Sprintf("%02d", p.engine.CurrentPage())')],
 T('''
	r := render(t, docWith("", "", "", `<text>page {cp}</text>`))
	if r.words() != "page|1" {
		t.Fatalf("%s", r.words())
	}
'''),'pages one to nine','the page number has a leading zero')

bug('C23-few-rounds','C23',[('text/text.go','''	for {
		rs = strings.ReplaceAll(s, rem, twin)
		if rs == s {
			return rs
		}
		s = rs
	}
''','''	for i := 0; i < 4; i++ {
		rs = strings.ReplaceAll(s, rem, twin)
		if rs == s {
			break
		}
		s = rs
	}
	return rs
''')],
 TP('text',['strings'],'''
	if s := WhitespaceRectified("a" + strings.Repeat(" ", 100) + "b"); s != "a b" {
		t.Fatalf("%q", s)
	}
'''),'more than sixteen blanks in a row','several blanks are left',pkg='./text')

IMG='''
package xpdf

import (
	"bytes"
	"image"
	"image/png"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/mazzegi/xpdf/hyphenation"
	"github.com/mazzegi/xpdf/xdoc"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	var b bytes.Buffer
	if err := png.Encode(&b, image.NewGray(image.Rect(0, 0, 40, 20))); err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(filepath.Join(dir, "i.png"), b.Bytes(), 0o600); err != nil {
		t.Fatal(err)
	}
	d, err := xdoc.Load(strings.NewReader(docWith("", "", "", `%s`)))
	if err != nil {
		t.Fatal(err)
	}
	r := newRec()
	if err := NewProcessor(r, hyphenation.NewEnUs(), d, dir).Process(&bytes.Buffer{}); err != nil {
		t.Fatal(err)
	}
%s
}
'''
bug('C05-image-beside-box','C05',[(TB,'''		case *xdoc.Image:
			p.engine.SetY(paddedPa.y0)
			p.renderImage(is, paddedPa)
''','''		case *xdoc.Image:
			if len(cell.iss) == 1 {
				p.engine.SetY(paddedPa.y0)
				p.renderImage(is, paddedPa)
			}
''')],IMG%('<table><tr><td style="height: 40;">abc<image>i.png</image></td></tr></table>','''	if len(r.find("image ")) != 1 {
		t.Fatalf("%v", r.ev)
	}'''),'a cell with an image and something else','the image is not drawn')

bug('C21-height-after-width','C21',[(IM,'''	if height > paHeight {
		width = width * paHeight / height
		height = paHeight
	}
''','''	if height > paHeight {
		if width < paWidth {
			width = width * paHeight / height
		}
		height = paHeight
	}
''')],IMG%('<image style="width: 1000; height: 5000;">i.png</image>','''	is := r.find("image ")
	if len(is) != 1 || !strings.HasSuffix(is[0], " 53.40 267.00") {
		t.Fatalf("%v", is)
	}'''),'an image that is both too wide and, scaled down, still too high','its proportions are lost')

bug('C21-offset-counts-twice','C21',[(IM,'	paHeight := pa.Height() - sty.OffsetY\n','	paHeight := pa.Height()\n')],
 IMG%('<image style="height: 5000; width: 100; offset-y: 50;">i.png</image>','''	is := r.find("image ")
	if len(is) != 1 || !strings.HasSuffix(is[0], " 217.00") {
		t.Fatalf("%v", is)
	}'''),'a high image with a vertical offset','the image leaves the printable area')

bug('C22-padding-of-full-width','C22',[(P,'''	width := p.page().EffectiveWidth(sty.Width)

	p.writeTextFnc''','''	width := p.page().EffectiveWidth(sty.Width) - math.Max(0, sty.OffsetX)

	p.writeTextFnc'''),(P,'\t"io"\n','\t"io"\n\t"math"\n')],
 T('''
	r := render(t, docWith("", "", "", `<text style="h-align: right; offset-x: 40; width: -1;">abc</text>`))
	p := render(t, docWith("", "", "", `<text style="h-align: right; width: -1;">abc</text>`))
	if r.find("text ")[0] != p.find("text ")[0] {
		t.Fatalf("%v, %v", r.find("text "), p.find("text "))
	}
'''),'a text of the default width with an offset','the text is laid out in a smaller width than the available one')

bug('C18-centre-of-long-lines','C18',[(TX,'			p.engine.SetX(xLeft + (width-line.width)/2.0)\n','			p.engine.SetX(xLeft + (width-line.width+p.engine.TextWidth(" "))/2.0)\n')],
 T('''
	r := render(t, docWith("", "", "", `<text style="h-align: center; width: 100;">abcd</text>`))
	var s string
	var p int
	var x, y float64
	fmt.Sscanf(r.find("text ")[0], "text %q p%d %f %f", &s, &p, &x, &y)
	if x != 10+(100-10)/2.0 {
		t.Fatalf("%v", x)
	}
''').replace('"testing"','"fmt"\n\t"testing"'),'centred text','lines are shifted by half a blank')


bug('C26-leading-not-in-height','C26',[(TX,'''	return float64(len(lines))*lineHeight - lineHeight + p.engine.FontHeight()
''','''	return float64(len(lines))*lineHeight + math.Max(0, p.engine.FontHeight()-lineHeight)
'''),(TX,'import (\n','import (\n\t"math"\n')],
 T('''
	r := render(t, docWith("", "", "", `<font style="font-point-size: 10;"/><box style="width: 30; line-spacing: 2; padding: 0,0,0,0;">aaa bbb ccc ddd eee fff</box>`))
	lines := map[string]bool{}
	for _, e := range r.find("text ") {
		var s string
		var p int
		var x, y float64
		fmt.Sscanf(e, "text %q p%d %f %f", &s, &p, &x, &y)
		lines[fmt.Sprint(y)] = true
	}
	var p int
	var x, y, w, h, lw float64
	fmt.Sscanf(r.find("rect ")[0], "rect p%d %f %f %f %f", &p, &x, &y, &w, &h)
	fmt.Sscanf(r.find("linewidth ")[0], "linewidth %f", &lw)
	n := float64(len(lines))
	if want := n*7 - 7 + 3.5 - lw; n < 2 || h < want-0.02 || h > want+0.02 {
		t.Fatalf("%v lines, %v instead of %v", n, h, want)
	}
''').replace('"testing"','"fmt"\n\t"testing"'),'a box of several lines with a line spacing above one','the box is higher than its text')
