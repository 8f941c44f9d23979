X="text/text.go"; P="process.go"; T="text.go"; H="text-hyph.go"
A="C23"; B="C28"
muts=[
(A,"V","single pass",[(X,'''	for {
		rs = strings.ReplaceAll(s, rem, twin)
		if rs == s {
			return rs
		}
		s = rs
	}''','''	rs = strings.ReplaceAll(s, rem, twin)
	return rs''')]),
(A,"V","two passes",[(X,'''	for {
		rs = strings.ReplaceAll(s, rem, twin)
		if rs == s {
			return rs
		}
		s = rs
	}''','''	for i := 0; i < 2; i++ {
		rs = strings.ReplaceAll(rs, rem, twin)
	}
	return rs''')]),
(A,"V","no tab",[(X,'	rs = strings.ReplaceAll(rs, "\\t", " ")\n','')]),
(A,"V","cr removed",[(X,'strings.ReplaceAll(rs, "\\r", " ")','strings.ReplaceAll(rs, "\\r", "")')]),
(A,"V","crlf",[(X,'strings.ReplaceAll(rs, "\\r", " ")','strings.ReplaceAll(rs, "\\r\\n", " ")')]),
(A,"V","no trim",[(X,'	rs = strings.Trim(rs, " ")\n','')]),
(A,"V","trim left",[(X,'strings.Trim(rs, " ")','strings.TrimLeft(rs, " ")')]),
(A,"V","trim space",[(X,'strings.Trim(rs, " ")','strings.TrimSpace(rs)')]),
(A,"V","trim early",[(X,'	rs = strings.Trim(rs, " ")\n',''),(X,'	rs := s\n','	rs := strings.Trim(s, " ")\n')]),
(A,"V","backslash before twins",[(X,'	rs = RemoveTwins(rs, " ")\n	rs = strings.ReplaceAll(rs, " \\\\", "\\\\")\n	rs = strings.ReplaceAll(rs, "\\\\ ", "\\\\")\n','	rs = strings.ReplaceAll(rs, " \\\\", "\\\\")\n	rs = strings.ReplaceAll(rs, "\\\\ ", "\\\\")\n	rs = RemoveTwins(rs, " ")\n')]),
(A,"V","backslash after only",[(X,'	rs = strings.ReplaceAll(rs, " \\\\", "\\\\")\n','')]),
(A,"V","trim last",[(X,'	rs = strings.Trim(rs, " ")\n',''),(X,'	return rs\n}\n\0','')]) if False else
(A,"Q","trim after twins",[(X,'	rs = strings.Trim(rs, " ")\n	rs = RemoveTwins(rs, " ")\n','	rs = RemoveTwins(rs, " ")\n	rs = strings.Trim(rs, " ")\n')]),
(A,"V","fields",[(X,'	rs = strings.Trim(rs, " ")\n	rs = RemoveTwins(rs, " ")\n','	rs = strings.Join(strings.Fields(rs), " ")\n')]),
(A,"V","first only",[(X,'strings.ReplaceAll(rs, "\\n", " ")','strings.Replace(rs, "\\n", " ", 1)')]),
(A,"Q","replace -1",[(X,'strings.ReplaceAll(rs, "\\n", " ")','strings.Replace(rs, "\\n", " ", -1)')]),
(A,"Q","replacer",[(X,'''	rs = strings.ReplaceAll(rs, "\\r", " ")
	rs = strings.ReplaceAll(rs, "\\n", " ")
	rs = strings.ReplaceAll(rs, "\\t", " ")
''','''	rs = strings.NewReplacer("\\r", " ", "\\n", " ", "\\t", " ").Replace(rs)
''')]),
(A,"V","replacer without tab",[(X,'''	rs = strings.ReplaceAll(rs, "\\r", " ")
	rs = strings.ReplaceAll(rs, "\\n", " ")
	rs = strings.ReplaceAll(rs, "\\t", " ")
''','''	rs = strings.NewReplacer("\\r", " ", "\\n", " ").Replace(rs)
''')]),
(A,"Q","table",[(X,'''	rs = strings.ReplaceAll(rs, "\\r", " ")
	rs = strings.ReplaceAll(rs, "\\n", " ")
	rs = strings.ReplaceAll(rs, "\\t", " ")
''','''	for _, ws := range []string{"\\r", "\\n", "\\t"} {
		rs = strings.ReplaceAll(rs, ws, " ")
	}
''')]),
(A,"V","table short",[(X,'''	rs = strings.ReplaceAll(rs, "\\r", " ")
	rs = strings.ReplaceAll(rs, "\\n", " ")
	rs = strings.ReplaceAll(rs, "\\t", " ")
''','''	for _, ws := range []string{"\\r", "\\n"} {
		rs = strings.ReplaceAll(rs, ws, " ")
	}
''')]),
(A,"Q","contains loop",[(X,'''	rs := s
	for {
		rs = strings.ReplaceAll(s, rem, twin)
		if rs == s {
			return rs
		}
		s = rs
	}''','''	for strings.Contains(s, rem) {
		s = strings.ReplaceAll(s, rem, twin)
	}
	return s''')]),
(A,"Q","prev loop",[(X,'''	rs := s
	for {
		rs = strings.ReplaceAll(s, rem, twin)
		if rs == s {
			return rs
		}
		s = rs
	}''','''	for prev := ""; prev != s; {
		prev = s
		s = strings.ReplaceAll(s, rem, twin)
	}
	return s''')]),
(A,"Q","len loop",[(X,'''		if rs == s {''','''		if len(rs) == len(s) {''')]),
(A,"Q","inlined chain",[(X,'''	rs = RemoveTwins(rs, " ")
	rs = strings.ReplaceAll(rs, " \\\\", "\\\\")
	rs = strings.ReplaceAll(rs, "\\\\ ", "\\\\")
	return rs''','''	return strings.ReplaceAll(strings.ReplaceAll(RemoveTwins(rs, " "), " \\\\", "\\\\"), "\\\\ ", "\\\\")''')]),
(A,"Q","helper",[(X,'''	rs = strings.ReplaceAll(rs, "\\r", " ")
	rs = strings.ReplaceAll(rs, "\\n", " ")
	rs = strings.ReplaceAll(rs, "\\t", " ")
''','''	rs = blanks(rs)
'''),(X,"",'''
func blanks(s string) string {
	for _, ws := range [...]string{"\\r", "\\n", "\\t"} {
		s = strings.ReplaceAll(s, ws, " ")
	}
	return s
}
''')]),
(A,"Q","empty early",[(X,'	rs := s\n	rs = strings.ReplaceAll(rs, "\\r"','	if s == "" {\n		return s\n	}\n	rs := s\n	rs = strings.ReplaceAll(rs, "\\r"')]),
(A,"V","paragraph raw",[(T,'''				sty:  is.MutatedStyles(p.doc.StyleClasses(), sty),
				text: norm(is.Text),''','''				sty:  is.MutatedStyles(p.doc.StyleClasses(), sty),
				text: p.tr(is.Text),''')]),
(A,"V","hyph paragraph trim",[(H,'''				sty:  is.MutatedStyles(p.doc.StyleClasses(), sty),
				text: norm(is.Text),''','''				sty:  is.MutatedStyles(p.doc.StyleClasses(), sty),
				text: strings.Trim(p.tr(is.Text), " "),''')]),
(A,"V","hyph norm",[(H,'''		return text.WhitespaceRectified(p.tr(s))''','''		return text.RemoveTwins(p.tr(s), " ")''')]),
(A,"V","np replaced",[(P,'''	return strings.ReplaceAll(s, "{cp}",''','''	s = strings.ReplaceAll(s, "--", "-")
	return strings.ReplaceAll(s, "{cp}",''')]),
(A,"V","empty counts",[(T,'''		if isitem.text == "" {
			continue
		}
''','')]),
(A,"V","empty counts hyph",[(H,'''		if isitem.text == "" {
			continue
		}
''','')]),
(A,"V","blank only skipped before norm",[(T,'''		if isitem.text == "" {
			continue
		}
''','''		if len(isitem.text) < 0 {
			continue
		}
''')]),
(A,"Q","empty positive",[(T,'''		if isitem.text == "" {
			continue
		}
''','''		if len(isitem.text) == 0 {
			continue
		}
''')]),
(A,"V","words fields",[(T,'strings.Split(s, " ")','strings.Fields(s)')]),
(A,"Q","tr outside",[(T,'''		return text.WhitespaceRectified(p.tr(s))''','''		return p.tr(text.WhitespaceRectified(s))''')]),
(B,"Q","tr outside",[(T,'''		return text.WhitespaceRectified(p.tr(s))''','''		return p.tr(text.WhitespaceRectified(s))''')]),
(B,"V","first only",[(P,'strings.ReplaceAll(s, "{cp}", fmt.Sprintf("%d", p.engine.CurrentPage()))','strings.Replace(s, "{cp}", fmt.Sprintf("%d", p.engine.CurrentPage()), 1)')]),
(B,"V","hyph without",[(H,"p.tr(s)","s")]),
(B,"V","paragraph without",[(T,'''				sty:  is.MutatedStyles(p.doc.StyleClasses(), sty),
				text: norm(is.Text),''','''				sty:  is.MutatedStyles(p.doc.StyleClasses(), sty),
				text: text.WhitespaceRectified(is.Text),''')]),
(B,"V","page plus one",[(P,"p.engine.CurrentPage()))","p.engine.CurrentPage()+1))")]),
(B,"V","cp only",[(P,'"{cp}", fmt','"cp", fmt')]),
(B,"V","also p",[(P,'	return strings.ReplaceAll(s, "{cp}", fmt','	s = strings.ReplaceAll(s, "{p}", "{cp}")\n	return strings.ReplaceAll(s, "{cp}", fmt')]),
(B,"V","np early",[(P,'	return strings.ReplaceAll(s, "{cp}", fmt','	s = strings.ReplaceAll(s, "{np}", fmt.Sprintf("%d", p.engine.CurrentPage()))\n	return strings.ReplaceAll(s, "{cp}", fmt')]),
(B,"Q","itoa",[(P,'fmt.Sprintf("%d", p.engine.CurrentPage())','fmt.Sprint(p.engine.CurrentPage())')]),
(B,"Q","var",[(P,'''	return strings.ReplaceAll(s, "{cp}", fmt.Sprintf("%d", p.engine.CurrentPage()))''','''	page := fmt.Sprintf("%d", p.engine.CurrentPage())
	return strings.Replace(s, "{cp}", page, -1)''')]),
(B,"Q","contains guard",[(P,'''	return strings.ReplaceAll(s, "{cp}"''','''	if !strings.Contains(s, "{cp}") {
		return s
	}
	return strings.ReplaceAll(s, "{cp}"''')]),
(A,"Q","contains guard",[(P,'''	return strings.ReplaceAll(s, "{cp}"''','''	if !strings.Contains(s, "{cp}") {
		return s
	}
	return strings.ReplaceAll(s, "{cp}"''')]),
(B,"V","prefix guard",[(P,'''	return strings.ReplaceAll(s, "{cp}"''','''	if !strings.HasPrefix(s, "{cp}") {
		return s
	}
	return strings.ReplaceAll(s, "{cp}"''')]),
(B,"V","alias name",[(P,'"{np}"','"{nb}"')]),
(B,"V","alias late",[(P,'''	p.engine.SetPageCountAlias("{np}")
''',''),(P,'''	p.engine.AddPage()
''','''	p.engine.AddPage()
	p.engine.SetPageCountAlias("{np}")
''')]),

(B,"V","lines before break",[(T,'''	p.engine.SetTextColor(sty.Text.Values())
	lines := p.textLines(iss, width, sty)
	xLeft''','''	p.writeLines(p.textLines(iss, width, sty), width, sty)
}

func (p *Processor) writeLines(lines []textLine, width float64, sty style.Styles) {
	p.engine.SetTextColor(sty.Text.Values())
	xLeft'''),(P,'''	x0, y0 := p.engine.GetXY()
	_, _, _, bm''','''	var lines []textLine
	if sty.HAlign != style.HAlignBlock {
		p.engine.ChangeFont(sty.Font)
		lines = p.textLines(box.ISS, width, sty)
	}
	x0, y0 := p.engine.GetXY()
	_, _, _, bm'''),(P,'''		p.writeTextFnc(sty)(box.ISS, width, sty)
	}
	p.engine.SetY(y1)''','''		if sty.HAlign != style.HAlignBlock {
			p.writeLines(lines, width, sty)
		} else {
			p.writeTextHyphenated(box.ISS, width, sty)
		}
	}
	p.engine.SetY(y1)''')]),
(B,"Q","write lines",[(T,'''	p.engine.SetTextColor(sty.Text.Values())
	lines := p.textLines(iss, width, sty)
	xLeft''','''	p.writeLines(p.textLines(iss, width, sty), width, sty)
}

func (p *Processor) writeLines(lines []textLine, width float64, sty style.Styles) {
	p.engine.SetTextColor(sty.Text.Values())
	xLeft''')]),
(B,"V","page cached",[(P,'fmt.Sprintf("%d", p.engine.CurrentPage())','fmt.Sprintf("%d", p.pageNo)'),(P,'	preventPageBreak bool','	preventPageBreak bool\n	pageNo           int'),(P,'''	p.engine.AddPage()
	p.processInstructions(p.doc.Body)''','''	p.engine.AddPage()
	p.pageNo = p.engine.CurrentPage()
	p.processInstructions(p.doc.Body)''')]),
]
