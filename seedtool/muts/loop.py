D="style/class.go"
muts=[
("C24","V","token error ignored",[("xdoc/table.go",'''func (tab *Table) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	for {
		token, err := d.Token()
		if err != nil {
			return err
		}''','''func (tab *Table) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	for {
		token, err := d.Token()
		if err != nil {
			continue
		}''')]),
("C24","V","eof only",[("xdoc/grid.go",'''func (g *Grid) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	for {
		token, err := d.Token()
		if err != nil {
			return err
		}''','''func (g *Grid) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	for {
		token, err := d.Token()
		if _, syn := err.(*xml.SyntaxError); syn {
			return err
		}''')]),
("C24","V","self decode",[("xdoc/table.go",'''func (row *TableRow) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	for {''','''func (row *TableRow) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	if len(start.Attr) == 0 {
		return d.DecodeElement(row, &start)
	}
	for {''')]),
("C24","Q","self decode alias ok-before",[("xdoc/table.go",'''func (row *TableRow) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	for {''','''func (row *TableRow) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	if start.Name.Space != "" {
		start.Name.Space = ""
		return row.UnmarshalXML(d, start)
	}
	for {''')]),
("C24","V","pos not moved on",[(D,'''			} else {
				return nil, errors.Errorf("no base class for (%s:%s)", className, selName)
			}''','''				continue
			} else {
				return nil, errors.Errorf("no base class for (%s:%s)", className, selName)
			}''')]),
("C24","V","pos += 0",[(D,"		pos += in + 1\n","		pos += 0\n")]),
("C24","Q","pos to brace",[(D,"		pos += in + 1\n","		pos += i\n")]),
("C24","V","empty name continue",[(D,'''			return nil, errors.Errorf("style class without name")''','''			continue''')]),
("C24","V","twins grows",[("text/text.go","	rem := strings.Repeat(twin, 2)\n","	rem, twin := twin, strings.Repeat(twin, 2)\n")]),
("C24","Q","i++",[("text-hyph.go","for i := len(parts) - 2; i >= 0; i-- {","for i := len(parts) - 2; i >= 0; i++ {")]),
("C24","Q","no append",[("table.go",'''		for len(row.cells) < tab.columnCount {
			row.cells = append(row.cells, &tableCell{
				zero: true,
			})''','''		for len(row.cells) < tab.columnCount {
			tab.rows[0].cells = append(row.cells[:0:0], &tableCell{
				zero: true,
			})''')]),
("C24","Q","append elsewhere",[("table.go",'''					spannedRow.cells = append(spannedRow.cells, &tableCell{
						zero: true,
					})''','''					row.cells = append(row.cells, &tableCell{
						zero: true,
					})''')]),
("C24","V","scanner continue",[("hyphenation/pattern.go",'''	for scanner.Scan() {
		line''','''	for {
		if !scanner.Scan() && scanner.Err() != nil {
			return nil, errors.Wrap(scanner.Err(), "scan patterns")
		}
		line''')]),
("C24","V","subSize not incremented",[("hyphenation/hyphenation.go","	for subSize := 1; subSize <= len(rs); subSize++ {","	for subSize := 1; subSize <= len(rs); {")]),
("C24","V","shadowed inc",[("table.go","			for n := 0; n < cell.rowSpan-1; n++ {","			for n := 0; n < cell.rowSpan-1; ir++ {")]),
("C24","V","header new page",[("process.go","			if !p.preventPageBreak {\n				p.engine.AddPage()\n			}","			p.engine.AddPage()")]),
# benign
("C24","Q","while form",[("text-hyph.go",'''		for i := len(parts) - 2; i >= 0; i-- {''','''		for i := len(parts) - 1; i > 0; {
			i--''')]),
("C24","Q","eof switch",[("xdoc/table.go",'''func (tab *Table) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	for {
		token, err := d.Token()
		if err != nil {
			return err
		}''','''func (tab *Table) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	for {
		token, err := nextToken(d)
		if err != nil {
			return err
		}'''),("xdoc/table.go","",'''
func nextToken(d *xml.Decoder) (xml.Token, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	return xml.CopyToken(t), nil
}
''')]),
("C24","Q","rest of string",[(D,'''	pos := 0
	for {
		curr := s[pos:]''','''	curr := s
	for {'''),(D,"		pos += in + 1\n","		curr = curr[in+1:]\n")]),
("C24","Q","twins contains",[("text/text.go",'''	rs := s
	for {
		rs = strings.ReplaceAll(s, rem, twin)
		if rs == s {
			return rs
		}
		s = rs
	}''','''	for twin != "" && strings.Contains(s, rem) {
		s = strings.ReplaceAll(s, rem, twin)
	}
	return s''')]),
("C24","Q","fill up",[("table.go",'''		for len(row.cells) < tab.columnCount {
			row.cells = append(row.cells, &tableCell{
				zero: true,
			})
		}''','''		for missing := tab.columnCount - len(row.cells); missing > 0; missing-- {
			row.cells = append(row.cells, &tableCell{
				zero: true,
			})
		}''')]),
("C24","Q","fill up local",[("table.go",'''		for len(row.cells) < tab.columnCount {
			row.cells = append(row.cells, &tableCell{
				zero: true,
			})
		}''','''		cells := row.cells
		for len(cells) < tab.columnCount {
			cells = append(cells, &tableCell{
				zero: true,
			})
		}
		row.cells = cells''')]),
("C24","Q","fill up helper",[("table.go",'''			row.cells = append(row.cells, &tableCell{
				zero: true,
			})
		}
	}
	for ir''','''			row.addZero()
		}
	}
	for ir'''),("table.go","",'''
func (row *tableRow) addZero() {
	row.cells = append(row.cells, &tableCell{zero: true})
}
''')]),
("C24","Q","nested while",[("hyphenation/hyphenation.go","	for subSize := 1; subSize <= len(rs); subSize++ {\n","	subSize := 0\n	for subSize < len(rs) {\n		subSize++\n")]),
("C24","Q","correlated",[("hyphenation/pattern.go",'''	for scanner.Scan() {
		line := scanner.Text()''','''	n, odd := 0, false
	for n < 10 {
		if odd {
			n++
		}
		odd = !odd
		if !odd {
			continue
		}
	}
	for scanner.Scan() {
		line := scanner.Text()''')]),
("C24","Q","correlated2",[("hyphenation/pattern.go",'''	for scanner.Scan() {
		line := scanner.Text()''','''	v := len(os.Args) > 3
	for n := 0; n < 10; {
		if v {
			n++
		}
		if !v {
			n += 2
		}
	}
	for scanner.Scan() {
		line := scanner.Text()'''),("hyphenation/pattern.go",'''	"io"
''','''	"io"
	"os"
''')]),
]
