From 58bb8fee9d09b1467cb47603b3a3a2ce4965626d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:12 +0000
Subject: [PATCH 01/20] fix: describe reports the left margin under "left"

It reported the value of the right margin.
---
 xdoc/describe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xdoc/describe.go b/xdoc/describe.go
index 21d6fce..3d44d56 100644
--- a/xdoc/describe.go
+++ b/xdoc/describe.go
@@ -123,7 +123,7 @@ func (desc *Description) describeMargins(margins Margins) []DescribeItem {
 	return []DescribeItem{
 		{
 			Name:  "left",
-			Value: margins.Right,
+			Value: margins.Left,
 		},
 		{
 			Name:  "top",
-- 
2.43.0


From c3b13214944752b765a12dc8f4e9c8e0a8a8c0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 02/20] fix: hyphenation keeps a single last character

A break before the last character made Hyphenate drop that character
("Maria" -> ["Mari"]), so block aligned text lost it on the page.
---
 hyphenation/hyphenation.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/hyphenation/hyphenation.go b/hyphenation/hyphenation.go
index bea782f..6f8544c 100644
--- a/hyphenation/hyphenation.go
+++ b/hyphenation/hyphenation.go
@@ -76,9 +76,6 @@ func (h *Hyphenator) Hyphenate(s string) []string {
 			}
 		}
 	}
-	part := s[last:]
-	if len(part) > 1 {
-		sl = append(sl, part)
-	}
-	return sl
+	//the rest belongs to the word, even if it is a single character
+	return append(sl, s[last:])
 }
-- 
2.43.0


From d16ebe7aba9b99cf6ca510d7581319a2fbdce281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 03/20] fix: hyphenation cuts words at rune boundaries only

Break positions are rune indices, but were used as byte indices, so words
with multi-byte characters were cut at wrong places, also inside of a
character.
---
 hyphenation/hyphenation.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hyphenation/hyphenation.go b/hyphenation/hyphenation.go
index 6f8544c..bb5c394 100644
--- a/hyphenation/hyphenation.go
+++ b/hyphenation/hyphenation.go
@@ -63,19 +63,25 @@ func (h *Hyphenator) Hyphenate(s string) []string {
 		}
 	}
 
+	//weights count runes, so map them to byte offsets to cut at rune boundaries only
+	offs := make([]int, 0, len(s)+1)
+	for i := range s {
+		offs = append(offs, i)
+	}
+	offs = append(offs, len(s))
+
 	sl := []string{}
 	var last int
 	//skip first and last for the dots (.).
 	//skip next to first and prev. to last for start and end of word
 	for i, w := range ws[2 : len(ws)-2] {
 		if w%2 == 1 {
-			part := s[last : i+1]
-			if len(part) > 1 {
-				sl = append(sl, part)
+			if i+1-last > 1 {
+				sl = append(sl, s[offs[last]:offs[i+1]])
 				last = i + 1
 			}
 		}
 	}
 	//the rest belongs to the word, even if it is a single character
-	return append(sl, s[last:])
+	return append(sl, s[offs[last]:])
 }
-- 
2.43.0


From 624460e29cb7a57f0bb1227a20091acae122729b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 04/20] fix: report read errors while loading hyphenation
 patterns

A reader which failed in between lead to a partially loaded hyphenator
without an error.
---
 hyphenation/pattern.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyphenation/pattern.go b/hyphenation/pattern.go
index afc59b7..208cee9 100644
--- a/hyphenation/pattern.go
+++ b/hyphenation/pattern.go
@@ -92,5 +92,8 @@ func parsePatterns(r io.Reader) (*patternLookup, error) {
 		}
 		pl.patterns[string(p.Letters)] = p
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, errors.Wrap(err, "scan patterns")
+	}
 	return pl, nil
 }
-- 
2.43.0


From e9f3dabe14c2184e1cb281c09bbecb3712df13be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 05/20] fix: styling a text doesn't change the styles of
 following elements

Laying out and writing text stored the font of each item as the current
style of the processor, so a bold text made everything after it bold.
---
 text-hyph.go | 6 +++---
 text.go      | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/text-hyph.go b/text-hyph.go
index e43ad4d..bfd0f47 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -59,7 +59,7 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 			continue
 		}
 
-		p.changeFont(isitem.sty.Font)
+		p.engine.ChangeFont(isitem.sty.Font)
 		words := p.words(isitem.text)
 		for _, word := range words {
 			item := &textItem{
@@ -123,14 +123,14 @@ func (p *Processor) writeTextHyphenated(iss []xdoc.Instruction, width float64, s
 		spaceCnt := len(line.items) - 1
 		if spaceCnt < 1 || line.paragraph {
 			for _, item := range line.items {
-				p.changeFont(item.sty.Font)
+				p.engine.ChangeFont(item.sty.Font)
 				p.engine.WriteText(item.text)
 			}
 		} else {
 			//subtract another 0.1 to avoid page breaks on equal widths
 			spaceWidth := (width - 0.1 - line.pureTextWidth) / float64(spaceCnt)
 			for _, item := range line.items {
-				p.changeFont(item.sty.Font)
+				p.engine.ChangeFont(item.sty.Font)
 				p.engine.WriteText(strings.Trim(item.text, " "))
 				cx, _ := p.engine.GetXY()
 				p.engine.SetX(cx + spaceWidth)
diff --git a/text.go b/text.go
index 773dd4d..7e24019 100644
--- a/text.go
+++ b/text.go
@@ -54,7 +54,7 @@ func (p *Processor) textLines(iss []xdoc.Instruction, width float64, sty style.S
 			continue
 		}
 
-		p.changeFont(isitem.sty.Font)
+		p.engine.ChangeFont(isitem.sty.Font)
 		words := p.words(isitem.text)
 		for _, word := range words {
 			item := &textItem{
@@ -103,7 +103,7 @@ func (p *Processor) writeText(iss []xdoc.Instruction, width float64, sty style.S
 			p.engine.SetX(xLeft + width - line.width)
 		}
 		for _, item := range line.items {
-			p.changeFont(item.sty.Font)
+			p.engine.ChangeFont(item.sty.Font)
 			p.engine.WriteText(item.text)
 		}
 		p.engine.LineFeed(sty.LineSpacing)
-- 
2.43.0


From ac8d48af3177ceadb8791d91a3e3aab386564dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 06/20] fix: fonts set in header or footer don't leak into the
 body

A font instruction in the header changed the current styles of the
processor and so the font of the body.
---
 process.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/process.go b/process.go
index b523714..1e317ba 100644
--- a/process.go
+++ b/process.go
@@ -52,20 +52,24 @@ func (p *Processor) Process(w io.Writer) error {
 	p.engine.SetPageCountAlias("{np}")
 	p.engine.OnHeader(func() {
 		x, y := p.engine.GetXY()
+		sty := p.currStyles
 		p.preventPageBreak = true
 		defer func() {
 			p.engine.SetX(x)
 			p.engine.SetY(y)
+			p.currStyles = sty
 			p.preventPageBreak = false
 		}()
 		p.processInstructions(p.doc.Header)
 	})
 	p.engine.OnFooter(func() {
 		x, y := p.engine.GetXY()
+		sty := p.currStyles
 		p.preventPageBreak = true
 		defer func() {
 			p.engine.SetX(x)
 			p.engine.SetY(y)
+			p.currStyles = sty
 			p.preventPageBreak = false
 		}()
 		p.processInstructions(p.doc.Footer)
-- 
2.43.0


From 269b475239caabe414b24455c16007d148d6c9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 07/20] fix: ignore page breaks in header and footer

A newpage element in the header lead to an endless recursion.
---
 process.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/process.go b/process.go
index 1e317ba..c8e99f6 100644
--- a/process.go
+++ b/process.go
@@ -143,7 +143,10 @@ func (p *Processor) processInstructions(is xdoc.Instructions) {
 		case *xdoc.Grid:
 			p.renderGrid(i, p.page().printableArea)
 		case *xdoc.PageBreak:
-			p.engine.AddPage()
+			//a new page in a header would render the header again, and so on
+			if !p.preventPageBreak {
+				p.engine.AddPage()
+			}
 		}
 	}
 }
-- 
2.43.0


From 28594b2fbb9a58b1a71a53112761ba59e5056d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 08/20] fix: describe lists style diffs in a stable order

The order followed the iteration over a map, so the description of a
document was a different one in each run.
---
 xdoc/diff.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xdoc/diff.go b/xdoc/diff.go
index 64be1a6..b381507 100644
--- a/xdoc/diff.go
+++ b/xdoc/diff.go
@@ -2,6 +2,7 @@ package xdoc
 
 import (
 	"encoding/json"
+	"sort"
 
 	"github.com/mazzegi/xpdf/style"
 	"github.com/pkg/errors"
@@ -30,7 +31,14 @@ func interfaceDiff(path string, org interface{}, mod interface{}) ([]Diff, error
 	diffs := []Diff{}
 	switch org := org.(type) {
 	case map[string]interface{}:
-		for orgKey, orgVal := range org {
+		//sort keys, to have the same order of diffs each time
+		orgKeys := make([]string, 0, len(org))
+		for orgKey := range org {
+			orgKeys = append(orgKeys, orgKey)
+		}
+		sort.Strings(orgKeys)
+		for _, orgKey := range orgKeys {
+			orgVal := org[orgKey]
 			modMSI, ok := mod.(map[string]interface{})
 			if !ok {
 				return nil, errors.Errorf("%s: org value is map-string-iface. mod is %T", path, mod)
-- 
2.43.0


From 0194f90cd7444a95da5643e654772705683e97c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:21 +0000
Subject: [PATCH 09/20] fix: measure block aligned cells as they are written

The vertical alignment used the height of the text without hyphenation.
---
 table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table.go b/table.go
index 7f9a8eb..3fb063e 100644
--- a/table.go
+++ b/table.go
@@ -401,7 +401,7 @@ func (p *Processor) renderCell(pa PrintableArea, cell *tableCell) {
 
 	paddedPa := pa.WithPadding(cell.Padding)
 	if len(cell.iss) > 0 {
-		textHeight := p.textHeight(cell.iss, paddedPa.Width(), cell.Styles)
+		textHeight := p.textHeightFnc(cell.Styles)(cell.iss, paddedPa.Width(), cell.Styles)
 		textMargin := paddedPa.Height() - textHeight
 		switch cell.VAlign {
 		case style.VAlignMiddle:
-- 
2.43.0


From 59e0602a1b83ad8ed0059de72ebfd07b4139134b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 10/20] fix: align text left for an unknown h-align

All lines but the first one have been written at the left margin of the
page, instead of at the left edge of the text.
---
 text.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/text.go b/text.go
index 7e24019..93ba235 100644
--- a/text.go
+++ b/text.go
@@ -95,12 +95,12 @@ func (p *Processor) writeText(iss []xdoc.Instruction, width float64, sty style.S
 	xLeft, _ := p.engine.GetXY()
 	for _, line := range lines {
 		switch sty.HAlign {
-		case style.HAlignLeft:
-			p.engine.SetX(xLeft)
 		case style.HAlignCenter:
 			p.engine.SetX(xLeft + (width-line.width)/2.0)
 		case style.HAlignRight:
 			p.engine.SetX(xLeft + width - line.width)
+		default: //style.HAlignLeft:
+			p.engine.SetX(xLeft)
 		}
 		for _, item := range line.items {
 			p.engine.ChangeFont(item.sty.Font)
-- 
2.43.0


From 78e14773f5debc172f5717dace29c575b863850d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 11/20] fix: don't stretch the line before a line break in
 block aligned text

Not the line which is ended by the break was marked as the end of the
paragraph, but the one before.
---
 text-hyph.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/text-hyph.go b/text-hyph.go
index bfd0f47..6b5398b 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -38,10 +38,7 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 		var isitem *textItem
 		switch is := is.(type) {
 		case *xdoc.LineBreak:
-			if len(lines) > 0 {
-				lines[len(lines)-1].paragraph = true
-			}
-
+			curr.paragraph = true
 			lines = append(lines, curr)
 			curr = textLine{}
 			continue
-- 
2.43.0


From daa48517e9d1c51fbcb7fdbbb773f738fd283569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:01 +0000
Subject: [PATCH 12/20] fix: ignore blank text between elements in block
 aligned text, too

Whitespace between two paragraphs became an empty word, which got a gap
of its own when the line was stretched.
---
 text-hyph.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/text-hyph.go b/text-hyph.go
index 6b5398b..cc01eef 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -56,6 +56,10 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 			continue
 		}
 
+		if isitem.text == "" {
+			continue
+		}
+
 		p.engine.ChangeFont(isitem.sty.Font)
 		words := p.words(isitem.text)
 		for _, word := range words {
-- 
2.43.0


From 23a3fcc919d27b12958891805aa49b7951095256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 13/20] fix: no empty line in front of a word wider than the
 line

---
 text-hyph.go | 6 ++++--
 text.go      | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/text-hyph.go b/text-hyph.go
index cc01eef..aecd25b 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -73,8 +73,10 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 				//try hyphenation
 				s1, s2, ok := tryHyphenate(item.text, curr.width)
 				if !ok {
-					lines = append(lines, curr)
-					curr = textLine{}
+					if len(curr.items) > 0 {
+						lines = append(lines, curr)
+						curr = textLine{}
+					}
 				} else {
 					curr.items = append(curr.items, &textItem{
 						text: s1,
diff --git a/text.go b/text.go
index 93ba235..ba9b248 100644
--- a/text.go
+++ b/text.go
@@ -62,7 +62,7 @@ func (p *Processor) textLines(iss []xdoc.Instruction, width float64, sty style.S
 				text: word,
 			}
 			itemWidth := p.engine.TextWidth(" " + item.text)
-			if curr.width+itemWidth >= width {
+			if len(curr.items) > 0 && curr.width+itemWidth >= width {
 				lines = append(lines, curr)
 				curr = textLine{}
 			}
-- 
2.43.0


From 1fb60c7c0165e609b6241d4485d82b397ec9e6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 14/20] fix: consider the padding of a box when checking for a
 page break

A padded box close to the end of the page was drawn across the bottom
margin, while its text went to the next page.
---
 process.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/process.go b/process.go
index c8e99f6..d8faed6 100644
--- a/process.go
+++ b/process.go
@@ -198,7 +198,8 @@ func (p *Processor) renderTextBox(box *xdoc.Box, pa PrintableArea) {
 	x0, y0 := p.engine.GetXY()
 	_, _, _, bm := p.engine.Margins()
 	effHeight := p.engine.PageHeight() - bm
-	if !p.preventPageBreak && y0+height >= effHeight {
+	boxHeight := sty.Box.Padding.Top + height + sty.Box.Padding.Bottom
+	if !p.preventPageBreak && y0+boxHeight >= effHeight {
 		p.engine.AddPage()
 		x0, y0 = p.engine.GetXY()
 	}
-- 
2.43.0


From 861bda66e7a3001dbc0cb304861e948dbb845f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 15/20] fix: cells spanning rows and columns cover their whole
 area

In the rows below the first one only the first column of the spanned area
was left out, so the following cells were drawn on top of the spanning cell.
---
 table.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/table.go b/table.go
index 3fb063e..d3258f9 100644
--- a/table.go
+++ b/table.go
@@ -196,9 +196,11 @@ func (t *table) processRowSpans() {
 			if cell.rowSpan <= 1 {
 				continue
 			}
-			if cell.spannedBy != nil || cell.zero {
+			if cell.zero {
 				continue
 			}
+			//cells covered by a column span have the row span, too, so that
+			//the whole area of the spanning cell is left out in the following rows
 			//insert spanned cell in following rows
 			for n := 0; n < cell.rowSpan-1; n++ {
 				spannedRowIdx := ir + 1 + n
-- 
2.43.0


From 1e22aa5b4e52589430fc1f2aa1af21a143fa6002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:34 +0000
Subject: [PATCH 16/20] fix: report malformed elements inside of table cells
 and grids

An element with an invalid style or attribute was dropped silently there,
along with its text. Unknown elements are still skipped.
---
 xdoc/grid.go     | 10 ++++++++--
 xdoc/registry.go |  5 +++++
 xdoc/table.go    |  5 ++++-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/xdoc/grid.go b/xdoc/grid.go
index d0b9aa2..95d8ce8 100644
--- a/xdoc/grid.go
+++ b/xdoc/grid.go
@@ -61,9 +61,12 @@ func (g *Grid) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 				return g.Validate()
 			}
 		case xml.StartElement:
+			if !registry.IsRegistered(t) {
+				continue
+			}
 			i, err := registry.DecodeInstruction(d, t)
 			if err != nil {
-				continue
+				return err
 			}
 			switch i := i.(type) {
 			case *GridPart:
@@ -117,9 +120,12 @@ func (p *GridPart) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 				return nil
 			}
 		case xml.StartElement:
+			if !registry.IsRegistered(t) {
+				continue
+			}
 			i, err := registry.DecodeInstruction(d, t)
 			if err != nil {
-				continue
+				return err
 			}
 			p.Instructions.ISS = append(p.Instructions.ISS, i)
 		}
diff --git a/xdoc/registry.go b/xdoc/registry.go
index da8391d..7211a3f 100644
--- a/xdoc/registry.go
+++ b/xdoc/registry.go
@@ -65,6 +65,11 @@ func (r *Registry) RegisterInstruction(prototype Instruction) error {
 	return nil
 }
 
+func (r *Registry) IsRegistered(start xml.StartElement) bool {
+	_, contains := r.instructions[start.Name.Local]
+	return contains
+}
+
 func (r *Registry) DecodeInstruction(d *xml.Decoder, start xml.StartElement) (Instruction, error) {
 	proto, contains := r.instructions[start.Name.Local]
 	if !contains {
diff --git a/xdoc/table.go b/xdoc/table.go
index a280462..7c6d829 100644
--- a/xdoc/table.go
+++ b/xdoc/table.go
@@ -124,9 +124,12 @@ func (cell *TableCell) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 				return nil
 			}
 		case xml.StartElement:
+			if !registry.IsRegistered(t) {
+				continue
+			}
 			i, err := registry.DecodeInstruction(d, t)
 			if err != nil {
-				continue
+				return err
 			}
 			cell.Instructions.ISS = append(cell.Instructions.ISS, i)
 		case xml.CharData:
-- 
2.43.0


From 69e1856ae06d4315d3992c881bdb27babe220702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:22 +0000
Subject: [PATCH 17/20] fix: report invalid styles and grid areas in a stable
 order

---
 grid.go         | 11 ++++++++++-
 style/decode.go | 10 +++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/grid.go b/grid.go
index df21c6f..d8713d3 100644
--- a/grid.go
+++ b/grid.go
@@ -1,6 +1,8 @@
 package xpdf
 
 import (
+	"sort"
+
 	"github.com/mazzegi/log"
 	"github.com/mazzegi/xpdf/xdoc"
 	"github.com/pkg/errors"
@@ -78,7 +80,14 @@ func (p *Processor) renderGrid(g *xdoc.Grid, pa PrintableArea) {
 			}
 		}
 	}
-	for a, b := range boxes {
+	//sort areas, to report the same error each time
+	areas := make([]string, 0, len(boxes))
+	for a := range boxes {
+		areas = append(areas, a)
+	}
+	sort.Strings(areas)
+	for _, a := range areas {
+		b := boxes[a]
 		if err := b.validate(); err != nil {
 			log.Errorf("validation for %q: %v", a, err)
 			return
diff --git a/style/decode.go b/style/decode.go
index 8d178c7..07f456d 100644
--- a/style/decode.go
+++ b/style/decode.go
@@ -4,6 +4,7 @@ import (
 	"io"
 	"io/ioutil"
 	"reflect"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -67,8 +68,15 @@ func DecodeMutator(r io.Reader) (*Mutator, error) {
 	if err != nil {
 		return nil, errors.Wrap(err, "parse-raw")
 	}
+	//sort keys, to report the same error each time
+	keys := make([]string, 0, len(raw))
+	for k := range raw {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
 	protoType := reflect.TypeOf(Styles{})
-	for k, v := range raw {
+	for _, k := range keys {
+		v := raw[k]
 		fnc, found, err := makeMutateFnc(protoType, k, v, []int{})
 		if err != nil {
 			return nil, errors.Wrapf(err, "make-mutate-fnc (%s, %s)", k, v)
-- 
2.43.0


From 4e5a42350230f7b7001d108cd40de4f41ad2f2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:02 +0000
Subject: [PATCH 18/20] fix: report unbalanced braces in style sheets

---
 style/class.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/style/class.go b/style/class.go
index 8c255fd..a495b8b 100644
--- a/style/class.go
+++ b/style/class.go
@@ -68,17 +68,26 @@ func DecodeClasses(r io.Reader) (Classes, error) {
 		curr := s[pos:]
 		i := strings.IndexByte(curr, '{')
 		if i < 0 {
+			if len(trimWS(curr)) > 0 {
+				return nil, errors.Errorf("non matching brace or missing declarations in (%s)", trimWS(curr))
+			}
 			return cs, nil
 		}
 		name := trimWS(curr[:i])
 		if len(name) == 0 {
 			return nil, errors.Errorf("style class without name")
 		}
+		if strings.Contains(name, "}") {
+			return nil, errors.Errorf("non matching brace in (%s)", name)
+		}
 		in := strings.IndexByte(curr[i:], '}')
 		if in < 0 {
 			return nil, errors.Errorf("non matching brace")
 		}
 		in += i
+		if strings.Contains(curr[i+1:in], "{") {
+			return nil, errors.Errorf("non matching brace in class (%s)", name)
+		}
 		mut, err := DecodeMutator(bytes.NewBufferString(curr[i+1 : in]))
 		if err != nil {
 			return nil, errors.Wrap(err, "parse style")
-- 
2.43.0


From 26591192bfca841f95cccebe0870cc6617163ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:02 +0000
Subject: [PATCH 19/20] fix: report selectors without a base class, also
 without any class name

---
 style/class.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/style/class.go b/style/class.go
index a495b8b..fe061fa 100644
--- a/style/class.go
+++ b/style/class.go
@@ -95,7 +95,7 @@ func DecodeClasses(r io.Reader) (Classes, error) {
 		className := name
 		selName := ""
 		idxSel := strings.Index(name, ":")
-		if idxSel > 0 {
+		if idxSel >= 0 {
 			className = name[:idxSel]
 			selName = name[idxSel+1:]
 			if cl, ok := cs[className]; ok {
-- 
2.43.0


From 2c7c10efffbcc8986124394b00dcf3c84efd02d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:02 +0000
Subject: [PATCH 20/20] fix: report errors closing the output file

---
 cmd/xpdf/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/xpdf/main.go b/cmd/xpdf/main.go
index 175342c..206a972 100644
--- a/cmd/xpdf/main.go
+++ b/cmd/xpdf/main.go
@@ -71,4 +71,9 @@ func main() {
 		fmt.Println("ERROR processing input:", err)
 		os.Exit(4)
 	}
+	err = outF.Close()
+	if err != nil {
+		fmt.Println("ERROR close output-file:", err)
+		os.Exit(4)
+	}
 }
-- 
2.43.0

