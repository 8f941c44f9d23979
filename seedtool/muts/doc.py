F="xdoc/describe.go"; DF="xdoc/diff.go"
A="C06"
def ch(old,new): return [(F,old,new)]
HDR='''	headerItem := DescribeItem{
		Name: "header",
	}
	headerItem.Items = append(headerItem.Items, desc.describeInstructions(doc.Header)...)
	desc.Items = append(desc.Items, headerItem)

'''
FTR=HDR.replace("header","footer").replace("Header","Footer")
META='''	metaItem := DescribeItem{
		Name: "meta",
	}
	metaItem.Items = append(metaItem.Items, desc.describeMeta(doc.Meta)...)
	desc.Items = append(desc.Items, metaItem)
'''
GRID='''	for _, gr := range g.Rows {
		i.Items = append(i.Items, desc.describeGridRow(gr)...)
	}
	for _, p := range g.Parts {
		i.Items = append(i.Items, desc.describeGridPart(p)...)
	}
'''
ROWS='''	for _, tr := range t.Rows {
		i.Items = append(i.Items, desc.describeTableRow(tr)...)
	}
'''
CELLS='''	for _, td := range tr.Cells {
		i.Items = append(i.Items, desc.describeTableCell(td)...)
	}
'''
MUTR='''	sty := style.Styles{}
	mutsty := ins.MutatedStyles(desc.doc.styleClasses, sty)
	diffs, err := stylesDiff(sty, mutsty)
'''
BOX='''			bi := DescribeItem{
				Name:       "box",
				StyleDiffs: desc.describeMutator(is),
			}
			bi.Items = append(bi.Items, desc.describeInstructions(is.Instructions)...)
			dis = append(dis, bi)
'''
LOOP="	for _, is := range iss.ISS {\n		switch is := is.(type) {\n		case *Font:\n			dis = append(dis, DescribeItem{\n"
muts=[
(A,"V","footer before header",[(F,HDR,""),(F,FTR,FTR+HDR)]),
(A,"V","footer lists header",ch("describeInstructions(doc.Footer)","describeInstructions(doc.Header)")),
(A,"V","no meta",[(F,META,"")]),
(A,"V","header name",ch('Name: "header"','Name: "head"')),
(A,"V","header only if any",ch("	desc.Items = append(desc.Items, headerItem)","	if len(headerItem.Items) > 0 {\n		desc.Items = append(desc.Items, headerItem)\n	}")),
(A,"V","author is creator",ch("Value: meta.Author","Value: meta.Creator")),
(A,"V","top is left",ch("Value: margins.Top","Value: margins.Left")),
(A,"V","names swapped",ch('Name:  "orientation",\n			Value: page.Orientation','Name:  "format",\n			Value: page.Orientation')),
(A,"V","subject missing",ch('''		{
			Name:  "subject",
			Value: meta.Subject,
		},
''','')),
(A,"V","margins without items",ch('''			Name:  "margins",
			Items: desc.describeMargins(page.Margins),
''','''			Name:  "margins",
''')),
(A,"V","rows reversed",ch(ROWS,'''	for k := len(t.Rows) - 1; k >= 0; k-- {
		i.Items = append(i.Items, desc.describeTableRow(t.Rows[k])...)
	}
''')),
(A,"V","rows prepend",ch(ROWS,'''	for _, tr := range t.Rows {
		i.Items = append(desc.describeTableRow(tr), i.Items...)
	}
''')),
(A,"V","first row only",ch(ROWS,ROWS.replace("...)\n	}","...)\n		break\n	}"))),
(A,"V","skip empty rows",ch(ROWS,ROWS.replace("{\n		i","{\n		if len(tr.Cells) == 0 {\n			continue\n		}\n		i",1))),
(A,"V","cells lost",ch(CELLS,CELLS.replace("i.Items = append(i.Items, desc.describeTableCell(td)...)","i.Items = desc.describeTableCell(td)"))),
(A,"V","same cell",ch("desc.describeTableCell(td)...","desc.describeTableCell(tr.Cells[len(tr.Cells)-len(td.Classes)])...")),
(A,"V","spans swapped",ch("td.ColSpan, td.RowSpan","td.RowSpan, td.ColSpan")),
(A,"V","no rowspan",ch('fmt.Sprintf("table-cell colspan=%d rowspan=%d", td.ColSpan, td.RowSpan)','fmt.Sprintf("table-cell colspan=%d", td.ColSpan)')),
(A,"V","grid without rows",ch(GRID,GRID.split("	for _, p")[0])),
(A,"V","grid parts first",ch(GRID,"	for _, p"+GRID.split("	for _, p")[1]+GRID.split("	for _, p")[0])),
(A,"V","grid parts not cleared",ch(GRID,GRID.replace("	for _, p","	i.Items = nil\n	for _, p"))),
(A,"V","areas joined without blank",ch('strings.Join(gr.Areas, " ")','strings.Join(gr.Areas, "")')),
(A,"V","grid part without area",ch("		Value:      p.Area,\n","")),
(A,"V","grid part without children",ch("	i.Items = append(i.Items, desc.describeInstructions(p.Instructions)...)\n","")),
(A,"V","cell without children",ch("	i.Items = append(i.Items, desc.describeInstructions(td.Instructions)...)\n","")),
(A,"V","x is y",ch("is.X,","0.0,")),
(A,"V","lf name",ch('"line-feed"','"lf"')),
(A,"V","lf always 1",ch("is.Lines","1")),
(A,"V","setx without value",ch("				Value:      is.X,\n","")),
(A,"V","image is not described",ch('''			dis = append(dis, DescribeItem{
				Name:       "image",
				Value:      is.Source,
				StyleDiffs: desc.describeMutator(is),
			})
''','')),
(A,"V","image without source",ch("				Value:      is.Source,\n","")),
(A,"V","image without styles",ch("				Value:      is.Source,\n				StyleDiffs: desc.describeMutator(is),\n","				Value:      is.Source,\n")),
(A,"V","grid ends",ch("dis = append(dis, desc.describeGrid(is)...)","return append(dis, desc.describeGrid(is)...)")),
(A,"V","grid overwrites",ch("dis = append(dis, desc.describeGrid(is)...)","dis = desc.describeGrid(is)")),
(A,"V","no page break",ch('''		case *PageBreak:
			dis = append(dis, DescribeItem{
				Name: "page-break",
			})
''','')),
(A,"V","line break only in between",ch('''			dis = append(dis, DescribeItem{
				Name: "line-break",
			})
''','''			if len(dis) > 0 {
				dis = append(dis, DescribeItem{
					Name: "line-break",
				})
			}
''')),
(A,"V","text block empty skipped",ch('''			dis = append(dis, DescribeItem{
				Name:  "text-block",
				Value: clearStr(is.Text),
			})
''','''			if s := clearStr(is.Text); s != "" {
				dis = append(dis, DescribeItem{
					Name:  "text-block",
					Value: s,
				})
			}
''')),
(A,"V","box children lost",ch("			bi.Items = append(bi.Items, desc.describeInstructions(is.Instructions)...)\n","")),
(A,"V","box children after",ch(BOX,BOX.replace("			dis = append(dis, bi)\n","").replace("			bi.Items","			dis = append(dis, bi)\n			bi.Items"))),
(A,"V","box children flat",ch(BOX,BOX.replace("bi.Items = append(bi.Items, desc.describeInstructions(is.Instructions)...)\n			dis = append(dis, bi)","dis = append(dis, bi)\n			dis = append(dis, desc.describeInstructions(is.Instructions)...)"))),
(A,"V","diff of itself",ch("stylesDiff(sty, mutsty)","stylesDiff(mutsty, mutsty)")),
(A,"V","diff reversed",ch("stylesDiff(sty, mutsty)","stylesDiff(mutsty, sty)")),
(A,"V","no classes",ch("ins.MutatedStyles(desc.doc.styleClasses, sty)","ins.MutatedStyles(nil, sty)")),
(A,"V","styles of table",ch("StyleDiffs: desc.describeMutator(tr)","StyleDiffs: nil")),
(A,"V","error lost",ch('''		return []Diff{
			{
				Path: "ERROR",
				Mod:  err.Error(),
			},
		}
''','''		return nil
''')),
# benign
(A,"Q","items returned singly",[(F,'''func (desc *Description) describeTableCell(td *TableCell) []DescribeItem {''','''func (desc *Description) describeTableCell(td *TableCell) DescribeItem {'''),(F,'''	i.Items = append(i.Items, desc.describeInstructions(td.Instructions)...)
	return []DescribeItem{i}''','''	i.Items = append(i.Items, desc.describeInstructions(td.Instructions)...)
	return i'''),(F,"desc.describeTableCell(td)...","desc.describeTableCell(td)")]),
(A,"Q","index loop",ch(ROWS,'''	for k := 0; k < len(t.Rows); k++ {
		i.Items = append(i.Items, desc.describeTableRow(t.Rows[k])...)
	}
''')),
(A,"Q","helper section",[(F,HDR,"	desc.Items = append(desc.Items, desc.section(\"header\", doc.Header))\n"),(F,"","\nfunc (desc *Description) section(name string, iss Instructions) DescribeItem {\n	return DescribeItem{Name: name, Items: desc.describeInstructions(iss)}\n}\n")]),
(A,"Q","all sections in one literal",[(F,META,""),(F,HDR,""),(F,FTR,""),(F,'''	desc := &Description{
		doc: doc,
	}

''','''	desc := &Description{
		doc: doc,
	}
	hdr := DescribeItem{Name: "header", Items: desc.describeInstructions(doc.Header)}
	ftr := DescribeItem{Name: "footer", Items: desc.describeInstructions(doc.Footer)}
	desc.Items = []DescribeItem{{Name: "meta", Items: desc.describeMeta(doc.Meta)}}
'''),(F,"	desc.Items = append(desc.Items, pageItem)\n","	desc.Items = append(desc.Items, pageItem, hdr, ftr)\n")]),
(A,"Q","sections loop",[(F,HDR,""),(F,FTR,'''	for _, s := range []struct {
		name string
		iss  Instructions
	}{{"header", doc.Header}, {"footer", doc.Footer}} {
		desc.Items = append(desc.Items, DescribeItem{Name: s.name, Items: desc.describeInstructions(s.iss)})
	}
''')]),
(A,"Q","box literal",ch(BOX,'''			dis = append(dis, DescribeItem{
				Name:       "box",
				StyleDiffs: desc.describeMutator(is),
				Items:      desc.describeInstructions(is.Instructions),
			})
''')),
(A,"Q","box helper",[(F,BOX,"			dis = append(dis, desc.container(\"box\", is, is.Instructions))\n"),(F,"","\nfunc (desc *Description) container(name string, is Instruction, iss Instructions) DescribeItem {\n	return DescribeItem{\n		Name:       name,\n		StyleDiffs: desc.describeMutator(is),\n		Items:      desc.describeInstructions(iss),\n	}\n}\n")]),
(A,"Q","describeInstruction",[(F,"	dis := []DescribeItem{}\n	for _, is := range iss.ISS {\n		switch is := is.(type) {\n		case *Font:","	dis := []DescribeItem{}\n	for _, is := range iss.ISS {\n		dis = append(dis, desc.describeInstruction(is)...)\n	}\n	return dis\n}\n\nfunc (desc *Description) describeInstruction(is Instruction) []DescribeItem {\n	dis := []DescribeItem{}\n	{\n		switch is := is.(type) {\n		case *Font:")]),
(A,"Q","prealloc",ch("	dis := []DescribeItem{}\n","	dis := make([]DescribeItem, 0, len(iss.ISS))\n")),
(A,"Q","var items",ch("	dis := []DescribeItem{}\n","	var dis []DescribeItem\n")),
(A,"Q","pointer receiver of list",[(F,"func (desc *Description) describeInstructions(iss Instructions)","func (desc *Description) describeInstructions(iss *Instructions)")]+[(F,"describeInstructions(%s)"%x,"describeInstructions(&%s)"%x) for x in ("doc.Header","doc.Footer","doc.Body","td.Instructions","p.Instructions")]+[(F,"bi.Items, desc.describeInstructions(is.Instructions)","bi.Items, desc.describeInstructions(&is.Instructions)"),(F,"ti.Items, desc.describeInstructions(is.Instructions)","ti.Items, desc.describeInstructions(&is.Instructions)")]),
(A,"Q","areas by hand",[(F,'strings.Join(gr.Areas, " ")',"joinAreas(gr.Areas)"),(F,"","\nfunc joinAreas(as []string) string {\n	return strings.Join(as, \" \")\n}\n")]),
(A,"Q","cell name concat",ch('fmt.Sprintf("table-cell colspan=%d rowspan=%d", td.ColSpan, td.RowSpan)','"table-cell colspan=" + fmt.Sprint(td.ColSpan) + " rowspan=" + fmt.Sprint(td.RowSpan)')),
(A,"Q","base styles",ch(MUTR,'''	var base style.Styles
	modified := ins.MutatedStyles(desc.doc.styleClasses, base)
	diffs, err := stylesDiff(base, modified)
''')),
(A,"Q","diff inline return",ch(MUTR,MUTR.replace("stylesDiff(sty, mutsty)","stylesDiff(style.Styles{}, mutsty)"))),
(A,"V","diff same",[(DF,"			orgVal := org[orgKey]\n",""),(DF,"orgVal, modVal)","modVal, modVal)")]),
(A,"V","diff path without key",[(DF,'path+":"+orgKey, orgVal','path, orgVal')]),
(A,"V","org mod swapped in diff",[(DF,"Org:  org,\n				Mod:  mod","Org:  mod,\n				Mod:  org")]),
(A,"V","equal listed",[(DF,"if org != mod {","if org == mod {")]),
(A,"V","diffs overwritten",[(DF,"diffs = append(diffs, msiDiffs...)","diffs = msiDiffs")]),
(A,"V","diffs first only",[(DF,"diffs = append(diffs, msiDiffs...)","diffs = append(diffs, msiDiffs...)\n			if len(diffs) > 0 {\n				break\n			}")]),
(A,"V","dump swapped",[(F,"case DescribeXML:","case DescribeJSON:"),(F,"	case DescribeJSON:\n		bs, _ = json","	case DescribeXML:\n		bs, _ = json")]),
(A,"V","diff from mod arg",[(DF,"toMapStringInterface(mod)","toMapStringInterface(org)")]),
(A,"V","unsorted partial",[(DF,"for _, orgKey := range orgKeys {\n","for _, orgKey := range orgKeys[1:] {\n")]),
(A,"Q","diff early",[(DF,"		if org != mod {\n			diffs = append(diffs, Diff{\n				Path: path,\n				Org:  org,\n				Mod:  mod,\n			})\n		}\n","		if org == mod {\n			return diffs, nil\n		}\n		diffs = append(diffs, Diff{Path: path, Org: org, Mod: mod})\n")]),
(A,"Q","diff hoisted assertion",[(DF,"		//sort keys","		modMSI, ok := mod.(map[string]interface{})\n		if !ok {\n			return nil, errors.Errorf(\"%s: org value is map-string-iface. mod is %T\", path, mod)\n		}\n		//sort keys"),(DF,"			modMSI, ok := mod.(map[string]interface{})\n			if !ok {\n				return nil, errors.Errorf(\"%s: org value is map-string-iface. mod is %T\", path, mod)\n			}\n			modVal","			modVal")]),
(A,"Q","dump default",[(F,'	case DescribeJSON:\n		bs, _ = json.MarshalIndent(d, "", "  ")\n',"")]),
]
