X="xdoc/style.go"; K="style/class.go"; D="style/decode.go"; T="text.go"; H="text-hyph.go"; TB="table.go"; P="process.go"
A="C01"; B="C15"
LOOP='''	for _, cn := range useClasses {
		if c, ok := cs[cn]; ok {
			c.Mutate(styles)
		}
	}
'''
LOOPS='''	for _, cn := range useClasses {
		if c, ok := cs[cn]; ok {
			c.MutateWithSelector(sel, styles)
		}
	}
'''
SELF='''	if sel, ok := c.Selectors[sel]; ok {
		sel.mutator.Mutate(styles)
		return
	}
	// if no special selector is found, decode with default
	c.mutator.Mutate(styles)
'''
MUT='''	ms := styles
	cs.Mutate(&ms, i.Classes...)
	for _, mut := range i.Mutators {
		mut.Mutate(&ms)
	}
	return ms
'''
MUTS='''	ms := styles
	cs.MutateWithSelector(sel, &ms, i.Classes...)
	for _, mut := range i.Mutators {
		mut.Mutate(&ms)
	}
	return ms
'''
ROW='''		switch {
		case ir == 0:
			rowSty = xrow.MutatedStylesWithSelector("first-row", p.doc.StyleClasses(), tab.Styles)
		case ir == len(xtab.Rows)-1:
			rowSty = xrow.MutatedStylesWithSelector("last-row", p.doc.StyleClasses(), tab.Styles)
		default:
			rowSty = xrow.MutatedStyles(p.doc.StyleClasses(), tab.Styles)
		}
'''
PARSE='''		raw[trimWS(styleKV[0])] = trimWS(styleKV[1])
'''
muts=[
(A,"V","inline first",[(X,MUT,'''	ms := styles
	for _, mut := range i.Mutators {
		mut.Mutate(&ms)
	}
	cs.Mutate(&ms, i.Classes...)
	return ms
''')]),
(A,"V","classes reversed",[(K,LOOP,'''	for i := len(useClasses) - 1; i >= 0; i-- {
		if c, ok := cs[useClasses[i]]; ok {
			c.Mutate(styles)
		}
	}
''')]),
(A,"V","only last class",[(K,LOOP,'''	if len(useClasses) == 0 {
		return
	}
	if c, ok := cs[useClasses[len(useClasses)-1]]; ok {
		c.Mutate(styles)
	}
''')]),
(A,"V","stop at unknown class",[(K,LOOP,'''	for _, cn := range useClasses {
		c, ok := cs[cn]
		if !ok {
			return
		}
		c.Mutate(styles)
	}
''')]),
(A,"V","first known class only",[(K,LOOP,'''	for _, cn := range useClasses {
		if c, ok := cs[cn]; ok {
			c.Mutate(styles)
			break
		}
	}
''')]),
(A,"Q","class loop continue",[(K,LOOP,'''	for i := 0; i < len(useClasses); i++ {
		c, ok := cs[useClasses[i]]
		if !ok {
			continue
		}
		c.Mutate(styles)
	}
''')]),
(A,"V","selector adds to class",[(K,SELF,'''	c.mutator.Mutate(styles)
	if sel, ok := c.Selectors[sel]; ok {
		sel.mutator.Mutate(styles)
	}
''')]),
(A,"V","no fallback",[(K,SELF,'''	if sel, ok := c.Selectors[sel]; ok {
		sel.mutator.Mutate(styles)
	}
''')]),
(A,"V","selector ignored",[(K,SELF,'''	c.mutator.Mutate(styles)
''')]),
(A,"V","selector then class",[(K,SELF,'''	if sel, ok := c.Selectors[sel]; ok {
		sel.mutator.Mutate(styles)
	}
	c.mutator.Mutate(styles)
''')]),
(A,"V","selector inverted",[(K,'if sel, ok := c.Selectors[sel]; ok {','if sel, ok := c.Selectors[sel]; !ok {')]) ,
(A,"Q","selector helper",[(K,SELF,'''	c.mutatorFor(sel).Mutate(styles)
'''),(K,"",'''
func (c Class) mutatorFor(sel string) *Mutator {
	s, ok := c.Selectors[sel]
	if !ok {
		return c.mutator
	}
	return s.mutator
}
''')]),
(A,"V","selector of first class only",[(K,LOOPS,'''	for i, cn := range useClasses {
		if c, ok := cs[cn]; ok {
			if i == 0 {
				c.MutateWithSelector(sel, styles)
			} else {
				c.Mutate(styles)
			}
		}
	}
''')]),
(A,"V","selected not mutating inline",[(X,MUTS,'''	ms := styles
	cs.MutateWithSelector(sel, &ms, i.Classes...)
	return ms
''')]),
(A,"V","only first mutator fn",[(D,'''	for _, fnc := range m.fncs {
		fnc(styles)
	}
''','''	if len(m.fncs) > 0 {
		m.fncs[0](styles)
	}
''')]),
(A,"V","skip first class when selector",[(X,'cs.MutateWithSelector(sel, &ms, i.Classes...)','cs.MutateWithSelector(sel, &ms, i.Classes[len(i.Classes)/2:]...)')]),
(A,"V","start from empty styles",[(X,MUT,MUT.replace("ms := styles","var ms style.Styles\n\tms.Font = styles.Font"))]),
(A,"V","inline only without classes",[(X,MUT,'''	ms := styles
	cs.Mutate(&ms, i.Classes...)
	if len(i.Classes) > 0 {
		return ms
	}
	for _, mut := range i.Mutators {
		mut.Mutate(&ms)
	}
	return ms
''')]),
(A,"Q","no classes shortcut",[(X,MUT,'''	ms := styles
	if len(i.Classes) > 0 {
		cs.Mutate(&ms, i.Classes...)
	}
	for k := range i.Mutators {
		i.Mutators[k].Mutate(&ms)
	}
	return ms
''')]),
(A,"Q","shared mutator",[(X,MUT,'''	ms := styles
	cs.Mutate(&ms, i.Classes...)
	i.inline(&ms)
	return ms
'''),(X,MUTS,'''	ms := styles
	cs.MutateWithSelector(sel, &ms, i.Classes...)
	i.inline(&ms)
	return ms
'''),(X,"",'''
func (i *Styled) inline(ms *style.Styles) {
	for _, mut := range i.Mutators {
		mut.Mutate(ms)
	}
}
''')]),
(A,"V","split by blank",[(X,'strings.Fields(a.Value)','strings.Split(a.Value, " ")')]),
(A,"V","split by comma",[(X,'strings.Fields(a.Value)','strings.Split(a.Value, ",")')]),
(A,"V","attr names swapped",[(X,'a.Name.Local == "style"','a.Name.Local == "styles"')]),
(A,"V","attr class",[(X,'a.Name.Local == "class"','a.Name.Local == "classes"')]),
(A,"Q","attr switch",[(X,'''		if a.Name.Local == "style" {
''','''		switch a.Name.Local {
		case "style":
'''),(X,'''		} else if a.Name.Local == "class" {
''','''		case "class":
''')]),
(A,"V","first row selector",[(TB,'"first-row"','"first"')]),
(A,"V","first/last swapped",[(TB,'"first-row"','"last-row-"'),(TB,'"last-row"','"first-row"')]),
(A,"V","last row off by one",[(TB,'ir == len(xtab.Rows)-1','ir == len(xtab.Rows)')]),
(A,"V","last first order",[(TB,ROW,'''		switch {
		case ir == len(xtab.Rows)-1:
			rowSty = xrow.MutatedStylesWithSelector("last-row", p.doc.StyleClasses(), tab.Styles)
		case ir == 0:
			rowSty = xrow.MutatedStylesWithSelector("first-row", p.doc.StyleClasses(), tab.Styles)
		default:
			rowSty = xrow.MutatedStyles(p.doc.StyleClasses(), tab.Styles)
		}
''')]) if False else
(A,"Q","row if chain",[(TB,ROW,'''		sel := ""
		if ir == 0 {
			sel = "first-row"
		} else if ir+1 == len(xtab.Rows) {
			sel = "last-row"
		}
		if sel != "" {
			rowSty = xrow.MutatedStylesWithSelector(sel, p.doc.StyleClasses(), tab.Styles)
		} else {
			rowSty = xrow.MutatedStyles(p.doc.StyleClasses(), tab.Styles)
		}
''')]),
(A,"V","cell inherits table",[(TB,'''				cellSty = xcell.MutatedStyles(p.doc.StyleClasses(), row.Styles)
''','''				cellSty = xcell.MutatedStyles(p.doc.StyleClasses(), tab.Styles)
''')]),
(A,"V","last cell inherits table",[(TB,'"last-cell", p.doc.StyleClasses(), row.Styles','"last-cell", p.doc.StyleClasses(), tab.Styles')]),
(A,"V","row inherits current",[(TB,'''			rowSty = xrow.MutatedStyles(p.doc.StyleClasses(), tab.Styles)
''','''			rowSty = xrow.MutatedStyles(p.doc.StyleClasses(), p.currStyles)
''')]),
(A,"V","last cell of table rows",[(TB,'ic == len(xrow.Cells)-1','ic == len(xtab.Rows[0].Cells)-1')]),
(A,"V","cell uses row's styler",[(TB,'''				cellSty = xcell.MutatedStyles(p.doc''','''				cellSty = xrow.MutatedStyles(p.doc''')]),
(A,"V","table inherits defaults",[(TB,'xtab.MutatedStyles(p.doc.StyleClasses(), p.currStyles)','xtab.MutatedStyles(p.doc.StyleClasses(), DefaultStyle())')]),
(A,"V","table no classes",[(TB,'xtab.MutatedStyles(p.doc.StyleClasses(), p.currStyles)','xtab.MutatedStyles(nil, p.currStyles)')]),
(A,"Q","classes hoisted",[(TB,'''	tab := &table{
		Styles: xtab.MutatedStyles(p.doc.StyleClasses(), p.currStyles),
	}
''','''	cs := p.doc.StyleClasses()
	tab := &table{}
	tab.Styles = xtab.MutatedStyles(cs, p.currStyles)
''')]),
(A,"Q","cell helper",[(TB,'''			var cellSty style.Styles
			switch {
			case ic == 0:
				cellSty = xcell.MutatedStylesWithSelector("first-cell", p.doc.StyleClasses(), row.Styles)
			case ic == len(xrow.Cells)-1:
				cellSty = xcell.MutatedStylesWithSelector("last-cell", p.doc.StyleClasses(), row.Styles)
			default:
				cellSty = xcell.MutatedStyles(p.doc.StyleClasses(), row.Styles)
			}
''','''			cellSty := p.cellStyles(xcell, ic, len(xrow.Cells), rowSty)
'''),(TB,"",'''
func (p *Processor) cellStyles(xcell *xdoc.TableCell, i, n int, sty style.Styles) style.Styles {
	if i == 0 {
		return xcell.MutatedStylesWithSelector("first-cell", p.doc.StyleClasses(), sty)
	}
	if i == n-1 {
		return xcell.MutatedStylesWithSelector("last-cell", p.doc.StyleClasses(), sty)
	}
	return xcell.MutatedStyles(p.doc.StyleClasses(), sty)
}
''')]),
# C15
(B,"V","padding order",[("style/box.go",'''"%f,%f,%f,%f", &b.Left, &b.Top, &b.Right, &b.Bottom)
	if err != nil {
		return errors.Wrapf(err, "scan padding''','''"%f,%f,%f,%f", &b.Left, &b.Right, &b.Top, &b.Bottom)
	if err != nil {
		return errors.Wrapf(err, "scan padding''')]),
(B,"V","margin css order",[("style/box.go",'''"%f,%f,%f,%f", &b.Left, &b.Top, &b.Right, &b.Bottom)
	if err != nil {
		return errors.Wrapf(err, "scan margin''','''"%f,%f,%f,%f", &b.Top, &b.Right, &b.Bottom, &b.Left)
	if err != nil {
		return errors.Wrapf(err, "scan margin''')]),
(B,"V","border blank format",[("style/box.go",'"%d,%d,%d,%d"','"%d %d %d %d"')]),
(B,"V","border twice left",[("style/box.go",'"%d,%d,%d,%d", &b.Left, &b.Top, &b.Right','"%d,%d,%d,%d", &b.Left, &b.Top, &b.Left')]),
(B,"V","border hex",[("style/box.go",'"%d,%d,%d,%d"','"%d,%d,%d,%x"')]),
(B,"Q","sscanf",[("style/box.go",'fmt.Fscanf(bytes.NewBufferString(v), "%d,','fmt.Sscanf(v, "%d,')]),
(B,"Q","locals",[("style/box.go",'''	_, err := fmt.Fscanf(bytes.NewBufferString(v), "%f,%f,%f,%f", &b.Left, &b.Top, &b.Right, &b.Bottom)
	if err != nil {
		return errors.Wrapf(err, "scan margin value (%s)", v)
	}
''','''	var l, t, r, bot float64
	_, err := fmt.Fscanf(bytes.NewBufferString(v), "%f,%f,%f,%f", &l, &t, &r, &bot)
	if err != nil {
		return errors.Wrapf(err, "scan margin value (%s)", v)
	}
	b.Left, b.Top, b.Right, b.Bottom = l, t, r, bot
''')]),
(B,"V","locals swapped",[("style/box.go",'''	_, err := fmt.Fscanf(bytes.NewBufferString(v), "%f,%f,%f,%f", &b.Left, &b.Top, &b.Right, &b.Bottom)
	if err != nil {
		return errors.Wrapf(err, "scan margin value (%s)", v)
	}
''','''	var l, t, r, bot float64
	_, err := fmt.Fscanf(bytes.NewBufferString(v), "%f,%f,%f,%f", &l, &t, &r, &bot)
	if err != nil {
		return errors.Wrapf(err, "scan margin value (%s)", v)
	}
	*b = Margin{l, r, t, bot}
''')]),
(B,"V","rgb swapped",[("style/color.go",'c.R = int(uint(n >> 16))','c.B = int(uint(n >> 16))'),("style/color.go",'c.B = int(uint8(n))','c.R = int(uint8(n))')]),
(B,"V","green shift",[("style/color.go",'uint8(n >> 8)','uint8(n >> 4)')]),
(B,"V","blue 4 bit",[("style/color.go",'int(uint8(n))','int(n & 0x7f)')]),
(B,"V","red all",[("style/color.go",'int(uint8(n >> 8))','int(n >> 8)')]),
(B,"V","base 10",[("style/color.go",'ParseUint(s, 16, 32)','ParseUint(s, 10, 32)')]),
(B,"Q","masks",[("style/color.go",'c.R = int(uint(n >> 16))','c.R = int(n>>16) & 0xff'),("style/color.go",'c.G = int(uint8(n >> 8))','c.G = int(n/256) % 256')]),
(B,"Q","mask then shift",[("style/color.go",'c.G = int(uint8(n >> 8))','c.G = int((n & 0xff00) >> 8)')]),
(B,"V","mask then shift wrong",[("style/color.go",'c.G = int(uint8(n >> 8))','c.G = int((n & 0xff00) >> 4)')]),
(B,"Q","pieces",[("style/color.go",'''	n, err := strconv.ParseUint(s, 16, 32)
	if err != nil {
		return errors.Wrapf(err, "parse color hex string (%s)", s)
	}
	c.R = int(uint(n >> 16))
	c.G = int(uint8(n >> 8))
	c.B = int(uint8(n))
''','''	r, err := strconv.ParseUint(s[0:2], 16, 32)
	if err != nil {
		return errors.Wrapf(err, "parse color hex string (%s)", s)
	}
	g, err := strconv.ParseUint(s[2:4], 16, 32)
	if err != nil {
		return errors.Wrapf(err, "parse color hex string (%s)", s)
	}
	b, err := strconv.ParseUint(s[4:6], 16, 32)
	if err != nil {
		return errors.Wrapf(err, "parse color hex string (%s)", s)
	}
	c.R = int(r)
	c.G = int(g)
	c.B = int(b)
''')]),
(B,"V","pieces wrong",[("style/color.go",'''	n, err := strconv.ParseUint(s, 16, 32)
	if err != nil {
		return errors.Wrapf(err, "parse color hex string (%s)", s)
	}
	c.R = int(uint(n >> 16))
	c.G = int(uint8(n >> 8))
	c.B = int(uint8(n))
''','''	r, err := strconv.ParseUint(s[0:2], 16, 32)
	if err != nil {
		return errors.Wrapf(err, "parse color hex string (%s)", s)
	}
	g, err := strconv.ParseUint(s[2:4], 16, 32)
	if err != nil {
		return errors.Wrapf(err, "parse color hex string (%s)", s)
	}
	b, err := strconv.ParseUint(s[4:6], 16, 32)
	if err != nil {
		return errors.Wrapf(err, "parse color hex string (%s)", s)
	}
	c.R = int(r)
	c.G = int(b)
	c.B = int(g)
''')]),
(B,"V","tags swapped",[("style/align.go",'`style:"h-align"`','`style:"x-align"`'),("style/align.go",'`style:"v-align"`','`style:"h-align"`'),("style/align.go",'`style:"x-align"`','`style:"v-align"`')]),
(B,"V","tag duplicate",[("style/dim.go",'`style:"offset-y"`','`style:"offset-x"`')]),
(B,"V","tag missing",[("style/dim.go",'`style:"line-spacing"`','')]),
(B,"V","tag underscore",[("style/font.go",'`style:"font-point-size"`','`style:"font-size"`')]),
(B,"V","text color is color",[("style/color.go",'`style:"text-color"`','`style:"color-text"`')]),
(B,"V","first one counts",[(D,PARSE,'''		k := trimWS(styleKV[0])
		if _, ok := raw[k]; !ok {
			raw[k] = trimWS(styleKV[1])
		}
''')]),
(B,"V","value lowercased",[(D,PARSE,'''		raw[trimWS(styleKV[0])] = strings.ToLower(trimWS(styleKV[1]))
''')]),
(B,"V","key value swapped",[(D,PARSE,'''		raw[trimWS(styleKV[1])] = trimWS(styleKV[0])
''')]),
(B,"V","value untrimmed",[(D,PARSE,'''		raw[trimWS(styleKV[0])] = styleKV[1]
''')]),
(B,"V","key untrimmed",[(D,PARSE,'''		raw[styleKV[0]] = trimWS(styleKV[1])
''')]),
(B,"V","blanks dropped",[(D,PARSE,'''		raw[trimWS(styleKV[0])] = strings.ReplaceAll(styleKV[1], " ", "")
''')]),
(B,"V","empty ends",[(D,'''		if len(styleStr) == 0 {
			continue
		}
''','''		if len(styleStr) == 0 {
			break
		}
''')]),
(B,"V","reverse",[(D,'''	for _, styleStr := range styleStrs {
		styleStr = trimWS(styleStr)
''','''	for i := range styleStrs {
		styleStr := trimWS(styleStrs[len(styleStrs)-1-i])
''')]),
(B,"Q","SplitN",[(D,'''		styleKV := strings.Split(styleStr, ":")
''','''		styleKV := strings.SplitN(styleStr, ":", 3)
''')]),
(B,"Q","TrimSpace",[(D,'strings.Trim(s, " \\r\\n\\t")','strings.TrimSpace(s)')]),
(B,"Q","cut",[(D,'''		styleKV := strings.Split(styleStr, ":")
		if len(styleKV) != 2 {
			return nil, errors.Errorf("invalid style syntax (%s) must be of (key:val)", styleStr)
		}
		raw[trimWS(styleKV[0])] = trimWS(styleKV[1])
''','''		k, v, ok := strings.Cut(styleStr, ":")
		if !ok || strings.Contains(v, ":") {
			return nil, errors.Errorf("invalid style syntax (%s) must be of (key:val)", styleStr)
		}
		raw[trimWS(k)] = trimWS(v)
''')]),
(B,"V","unknown ends",[(D,'''		if !found {
			continue
		}
		m.fncs''','''		if !found {
			break
		}
		m.fncs''')]),
(B,"V","unknown is error",[(D,'''		if !found {
			continue
		}
		m.fncs''','''		if !found {
			return nil, errors.Errorf("unknown key (%s)", k)
		}
		m.fncs''')]),
(B,"Q","found if",[(D,'''		if !found {
			continue
		}
		m.fncs = append(m.fncs, fnc)
''','''		if found {
			m.fncs = append(m.fncs, fnc)
		}
''')]),
(B,"V","fold compare",[(D,'t == key {','strings.EqualFold(t, key) {')]),
(B,"V","prefix compare",[(D,'t == key {','t != "" && strings.HasPrefix(key, t) {')]),
(B,"V","float32",[(D,'v.SetFloat(f)','v.SetFloat(float64(float32(f)))')]),
(B,"V","float rounded",[(D,'v.SetFloat(f)','v.SetFloat(float64(int(f)))')]),
(B,"V","parse 32",[(D,'ParseFloat(styleValue, 64)','ParseFloat(styleValue, 32)')]),
(B,"V","int octal",[(D,'ParseInt(styleValue, 10, 64)','ParseInt(styleValue, 8, 64)')]),
(B,"V","upper",[(D,'v.SetString(styleValue)','v.SetString(strings.ToUpper(styleValue))')]),
(B,"Q","shared index path (never aliases)",[(D,'''	c := make([]int, len(sl)+1)
	for i, v := range sl {
		c[i] = v
	}
	c[len(c)-1] = a
	return c
''','''	return append(sl, a)
''')]),
(B,"V","first index only",[(D,'''				for _, fIdx := range currIndexPath {
					rVal = rVal.Field(fIdx)
				}
''','''				for _, fIdx := range currIndexPath[:len(currIndexPath)-1] {
					rVal = rVal.Field(fIdx)
				}
				rVal = rVal.Field(0)
''')]),
(B,"V","path not appended",[(D,'makeMutateFnc(field.Type, key, val, currIndexPath)','makeMutateFnc(field.Type, key, val, indexPath)')]),
]
muts+=[
(A,"V","body from brace",[(K,'bytes.NewBufferString(curr[i+1 : in])','bytes.NewBufferString(curr[i+2 : in])')]),
(A,"V","body to before brace",[(K,'bytes.NewBufferString(curr[i+1 : in])','bytes.NewBufferString(curr[i+1 : in-1])')]),
(A,"V","rest off",[(K,'pos += in + 1','pos += in + 2')]),
(A,"V","sel colon kept",[(K,'selName = name[idxSel+1:]','selName = name[idxSel:]')]),
(A,"V","class cut",[(K,'className = name[:idxSel]','className = name[:idxSel-1]')]),
(A,"V","name untrimmed",[(K,'name := trimWS(curr[:i])','name := curr[:i]')]),
(A,"V","name with brace",[(K,'name := trimWS(curr[:i])','name := trimWS(curr[:i+1])')]),
(A,"Q","strings readers",[(K,'bytes.NewBufferString(curr[i+1 : in])','strings.NewReader(curr[i+1:in])'),(K,'	"bytes"\n','')]),
(A,"Q","curr reslice",[(K,'''	pos := 0
	for {
		curr := s[pos:]
''','''	for {
		curr := s
'''),(K,'pos += in + 1','s = s[in+1:]')]),
(A,"Q","cut name",[(K,'''		idxSel := strings.Index(name, ":")
		if idxSel >= 0 {
			className = name[:idxSel]
			selName = name[idxSel+1:]
''','''		if before, after, ok := strings.Cut(name, ":"); ok {
			className = before
			selName = after
''')]),
(A,"Q","index",[(K,"strings.IndexByte(curr, '{')",'strings.Index(curr, "{")')]),
(A,"Q","write back",[(K,'''				cl.Selectors[selName] = Selector{
					Name:    selName,
					mutator: mut,
				}
''','''				sel := Selector{Name: selName, mutator: mut}
				cl.Selectors[selName] = sel
				cs[className] = cl
''')]),
]
