P="C29"
muts=[
(P,"Q","unchanged",[('table.go','','\n// end\n')]),
(P,"V","no closing brace check",[('style/class.go','''		if in < 0 {
			return nil, errors.Errorf("non matching brace")
		}
''','')]),
(P,"V","no opening brace: only rest checked",[('style/class.go','''			if len(trimWS(curr)) > 0 {
				return nil, errors.Errorf("non matching brace or missing declarations in (%s)", trimWS(curr))
			}
			return cs, nil
''','''			if len(trimWS(curr)) == 0 {
				return cs, nil
			}
''')]),
(P,"V","selector of unknown class",[('style/class.go','''			if cl, ok := cs[className]; ok {
				cl.Selectors[selName] = Selector{
					Name:    selName,
					mutator: mut,
				}
				fmt.Printf("added selector (%s) to class (%s) \\n", selName, className)
			} else {
				return nil, errors.Errorf("no base class for (%s:%s)", className, selName)
			}
''','''			cl := cs[className]
			cl.Selectors[selName] = Selector{
				Name:    selName,
				mutator: mut,
			}
			fmt.Printf("added selector (%s) to class (%s) \\n", selName, className)
''')]),
(P,"V","class position past end",[('style/class.go','pos += in + 1','pos += in + 2')]),
(P,"V","colour prefix by length",[('style/color.go','''	if strings.HasPrefix(s, "#") {
		s = s[1:]
	}
''','''	if s[0] == '#' {
		s = s[1:]
	}
''')]),
(P,"Q","colour prefix by byte",[('style/color.go','''	if strings.HasPrefix(s, "#") {
		s = s[1:]
	}
''','''	if len(s) > 0 && s[0] == '#' {
		s = s[1:]
	}
''')]),
(P,"V","colour digits sliced",[('style/color.go','''	n, err := strconv.ParseUint(s, 16, 32)
''','''	n, err := strconv.ParseUint(s[:7], 16, 32)
''')]),
(P,"V","style entry without colon",[('style/decode.go','''		if len(styleKV) != 2 {''','''		if len(styleKV) > 2 {''')]),
(P,"V","style entry: cut at colon",[('style/decode.go','''		styleKV := strings.Split(styleStr, ":")
		if len(styleKV) != 2 {
			return nil, errors.Errorf("invalid style syntax (%s) must be of (key:val)", styleStr)
		}
		raw[trimWS(styleKV[0])] = trimWS(styleKV[1])''','''		ix := strings.Index(styleStr, ":")
		if strings.Contains(styleStr[ix+1:], ":") {
			return nil, errors.Errorf("invalid style syntax (%s) must be of (key:val)", styleStr)
		}
		raw[trimWS(styleStr[:ix])] = trimWS(styleStr[ix+1:])''')]),
(P,"Q","style entry: cut at colon, checked",[('style/decode.go','''		styleKV := strings.Split(styleStr, ":")
		if len(styleKV) != 2 {
			return nil, errors.Errorf("invalid style syntax (%s) must be of (key:val)", styleStr)
		}
		raw[trimWS(styleKV[0])] = trimWS(styleKV[1])''','''		ix := strings.Index(styleStr, ":")
		if ix < 0 || strings.Contains(styleStr[ix+1:], ":") {
			return nil, errors.Errorf("invalid style syntax (%s) must be of (key:val)", styleStr)
		}
		raw[trimWS(styleStr[:ix])] = trimWS(styleStr[ix+1:])''')]),
(P,"V","unregistered element",[('xdoc/registry.go','''	proto, contains := r.instructions[start.Name.Local]
	if !contains {
		return nil, errors.Errorf("registry-decode: (%s) is NOT a registered instruction", start.Name.Local)
	}
''','''	proto := r.instructions[start.Name.Local]
''')]),
(P,"V","grid without rows",[('xdoc/grid.go','''	if len(g.Rows) == 0 {
		return errors.Errorf("grid has no rows")
	}
''','')]),
(P,"V","grid area map nil",[('xdoc/grid.go','''	am := map[string]bool{}
''','''	var am map[string]bool
''')]),
(P,"V","first attribute",[('xdoc/table.go','''func (c *TableCell) DecodeAttrs(attrs []xml.Attr) error {
''','''func (c *TableCell) DecodeAttrs(attrs []xml.Attr) error {
	if attrs[0].Name.Local == "id" {
		attrs = attrs[1:]
	}
''')]),
(P,"Q","first attribute checked",[('xdoc/table.go','''func (c *TableCell) DecodeAttrs(attrs []xml.Attr) error {
''','''func (c *TableCell) DecodeAttrs(attrs []xml.Attr) error {
	if len(attrs) > 0 && attrs[0].Name.Local == "id" {
		attrs = attrs[1:]
	}
''')]),
(P,"V","header rows beyond the table",[('table.go','''			if i < len(tab.rows) {
				headHeight += tab.rows[i].maxCellHeight()
			}
''','''			headHeight += tab.rows[i].maxCellHeight()
''')]),
(P,"V","header rows beyond the table by one",[('table.go','''			if i < len(tab.rows) {
				headHeight += tab.rows[i].maxCellHeight()
			}
''','''			if i <= len(tab.rows) {
				headHeight += tab.rows[i].maxCellHeight()
			}
''')]),
(P,"V","repeated header rows by one",[('table.go','rhr >= 0 && rhr < len(tab.rows)','rhr >= 0 && rhr <= len(tab.rows)')]),
(P,"V","spanned row by one",[('table.go','if spannedRowIdx >= len(t.rows) {','if spannedRowIdx > len(t.rows) {')]),
(P,"V","no padding of spanned rows",[('table.go','''				for ic > len(spannedRow.cells) {
					spannedRow.cells = append(spannedRow.cells, &tableCell{
						zero: true,
					})
				}
''','')]),
(P,"V","padding of spanned rows once",[('table.go','''				for ic > len(spannedRow.cells) {
					spannedRow.cells = append(spannedRow.cells, &tableCell{
						zero: true,
					})
				}
''','''				if ic > len(spannedRow.cells) {
					spannedRow.cells = append(spannedRow.cells, &tableCell{
						zero: true,
					})
				}
''')]),
(P,"V","column widths of the first row",[('table.go','cws := make([]float64, t.columnCount)','cws := make([]float64, len(t.rows[0].cells))')]),
(P,"V","first line without lines",[('text.go','''	for _, line := range lines {
''','''	if lines[0].paragraph {
		p.engine.SetX(0)
	}
	for _, line := range lines {
''')]),
(P,"V","last item of empty line",[('text-hyph.go','''				if !ok {
					if len(curr.items) > 0 {
						lines = append(lines, curr)
						curr = textLine{}
					}
				} else {''','''				if !ok {
					if curr.items[len(curr.items)-1] != nil {
						lines = append(lines, curr)
						curr = textLine{}
					}
				} else {''')]),
(P,"V","hyphen parts without check",[('text-hyph.go','''		if len(parts) < 2 {
			return
		}
		for i := len(parts) - 2; i >= 0; i-- {''','''		for i := len(parts) - 2; i >= -1; i-- {''')]),
(P,"V","assert instead of type switch",[('text.go','''		default:
			continue
''','''		default:
			isitem = &textItem{sty: sty, text: norm(is.(*xdoc.TextBlock).Text)}
''')]),
(P,"V","panic on unknown element",[('process.go','''				p.engine.AddPage()
			}
		}
	}
}
''','''				p.engine.AddPage()
			}
		default:
			panic(fmt.Sprintf("cannot render %T", i))
		}
	}
}
''')]),
(P,"V","next word",[('text.go','''		for _, word := range words {
''','''		for iw, word := range words {
			if words[iw+1] == "" {
				continue
			}
''')]),
(P,"V","pattern of empty line",[('hyphenation/pattern.go','''		if line == "" {
			continue
		}
''','''		if line[0] == '%' {
			continue
		}
''')]),
(P,"Q","pattern comment",[('hyphenation/pattern.go','''		if line == "" {
			continue
		}
''','''		if line == "" {
			continue
		}
		if line[0] == '%' {
			continue
		}
''')]),
(P,"V","patterns map nil",[('hyphenation/pattern.go','''		patterns: map[string]pattern{},
''','')]),
(P,"V","average of no columns",[('table.go','''	if colsZero > 0 {
		cw := (width - spaceUsed) / float64(colsZero)''','''	{
		cw := float64(int(width-spaceUsed) / colsZero)''')]),
(P,"V","negative span makes list",[('table.go','''			if cell.rowSpan <= 1 {
				continue
			}
''','''			cell.spansRows = make([]*tableCell, 0, cell.rowSpan-1)
			if cell.rowSpan <= 1 {
				continue
			}
''')]),
(P,"Q","span makes list",[('table.go','''			if cell.zero {
				continue
			}
''','''			if cell.zero {
				continue
			}
			cell.spansRows = make([]*tableCell, 0, cell.rowSpan-1)
''')]),
(P,"V","area without box",[('grid.go','''			b, ok := boxes[a]
			if !ok {
				b = &gridBox{
					area: a,
				}
				boxes[a] = b
			}
''','''			b := boxes[a]
''')]),
(P,"Q","area box by second lookup",[('grid.go','''			b, ok := boxes[a]
			if !ok {
				b = &gridBox{
					area: a,
				}
				boxes[a] = b
			}
			err''','''			if _, ok := boxes[a]; !ok {
				boxes[a] = &gridBox{
					area: a,
				}
			}
			b := boxes[a]
			err''')]),
(P,"V","first grid row of empty box",[('grid.go','''	if len(b.rows) > 0 && row != b''','''	if row != b''')]),
(P,"V","describe type assertion",[('xdoc/describe.go','for _, cell := range','for _, cell := range')]),
(P,"Q","table rows by index",[('table.go','''	for i, row := range tab.rows {
		if !p''','''	for i := 0; i < len(tab.rows); i++ {
		row := tab.rows[i]
		if !p''')]),
(P,"Q","sentinel guard",[('table.go','''			if i < len(tab.rows) {
				headHeight += tab.rows[i].maxCellHeight()
			}
''','''			if i == len(tab.rows) {
				break
			}
			headHeight += tab.rows[i].maxCellHeight()
''')]),
(P,"Q","grid emptiness by helper",[('xdoc/grid.go','''	if len(g.Rows) == 0 {
		return''','''	if !g.hasRows() {
		return'''),('xdoc/grid.go','','''
func (g *Grid) hasRows() bool {
	for range g.Rows {
		return true
	}
	return false
}
''')]),
(P,"Q","brace check by helper",[('style/class.go','''		in := strings.IndexByte(curr[i:], '}')
		if in < 0 {
			return nil, errors.Errorf("non matching brace")
		}
		in += i
''','''		in, ok := closing(curr, i)
		if !ok {
			return nil, errors.Errorf("non matching brace")
		}
'''),('style/class.go','','''
func closing(s string, from int) (int, bool) {
	n := strings.IndexByte(s[from:], '}')
	if n < 0 {
		return 0, false
	}
	return from + n, true
}
''')]),
]
