muts=[
("C03","V","ignore err in Instructions",[("xdoc/instructions.go",'''			if err != nil {
				return errors.Wrapf(err, "decode token %v", t.Name.Local)
			}
''','''			if err != nil {
				continue
			}
''')]),
("C03","V","drop attrs error",[("xdoc/instructions.go",'''	err := is.DecodeAttrs(start.Attr)
	if err != nil {
		return err
	}
''','''	is.DecodeAttrs(start.Attr)
''')]),
("C03","V","load ignores style errs",[("xdoc/doc.go",'''	doc.styleClasses, err = style.DecodeClasses(bytes.NewBufferString(doc.Style))
	if err != nil {
		return nil, err
	}
''','''	doc.styleClasses, _ = style.DecodeClasses(bytes.NewBufferString(doc.Style))
''')]),
("C03","V","colspan default",[("xdoc/table.go",'''			n, err := strconv.ParseInt(a.Value, 10, 64)
			if err != nil {
				return err
			}
			c.ColSpan = int(n)
''','''			n, err := strconv.ParseInt(a.Value, 10, 64)
			if err != nil {
				n = 1
			}
			c.ColSpan = int(n)
''')]),
("C03","V","wrong err var",[("style/decode.go",'''				setValue, err = makeSetValueFnc(field.Type.Kind(), val)
				if err != nil {''','''				var err2 error
				setValue, err2 = makeSetValueFnc(field.Type.Kind(), val)
				_ = err2
				if err != nil {''')]),
("C03","V","shadowed err",[("style/decode.go",'''			fnc, found, err := makeMutateFnc(field.Type, key, val, currIndexPath)
			if err != nil {
				return nil, true, err
			} else if found {''','''			fnc, found, err := makeMutateFnc(field.Type, key, val, currIndexPath)
			if err != nil && !found {
				return nil, true, err
			} else if found {''')]),
("C03","V","no scanner err",[("hyphenation/pattern.go",'''	if err := scanner.Err(); err != nil {
		return nil, errors.Wrap(err, "scan patterns")
	}
''','')]),
("C03","V","grid part err",[("xdoc/grid.go",'''			i, err := registry.DecodeInstruction(d, t)
			if err != nil {
				return err
			}
			p.Inst''','''			i, err := registry.DecodeInstruction(d, t)
			if err != nil {
				return nil
			}
			p.Inst''')]),
("C03","V","wrap nil err",[("style/decode.go",'''		return nil, errors.Wrap(err, "parse-raw")''','''		return m, errors.Wrap(nil, "parse-raw")''')]),
("C03","V","skip unregistered",[("xdoc/instructions.go",'''			i, err := registry.DecodeInstruction(d, t)''','''			if !registry.IsRegistered(t) {
				continue
			}
			i, err := registry.DecodeInstruction(d, t)''')]),
("C03","V","skip unregistered 2",[("xdoc/registry.go",'''		return nil, errors.Errorf("registry-decode: (%s) is NOT a registered instruction", start.Name.Local)''','''		return nil, d.Skip()''')]),
("C03","V","kv two colons",[("style/decode.go","len(styleKV) != 2","len(styleKV) < 2")]),
("C03","V","kv continue",[("style/decode.go",'''			return nil, errors.Errorf("invalid style syntax (%s) must be of (key:val)", styleStr)''','''			continue''')]),
("C03","V","no closing brace",[("style/class.go",'''		if in < 0 {
			return nil, errors.Errorf("non matching brace")
		}''','''		if in < 0 {
			return cs, nil
		}''')]),
("C03","V","selector creates base",[("style/class.go",'''				return nil, errors.Errorf("no base class for (%s:%s)", className, selName)''','''				cs[className] = Class{Name: className, mutator: mut, Selectors: map[string]Selector{}}''')]),
("C03","V","selector sep 0",[("style/class.go","idxSel >= 0","idxSel > 0")]),
("C03","V","trailing",[("style/class.go",'''			if len(trimWS(curr)) > 0 {''','''			if len(cs) == 0 && len(trimWS(curr)) > 0 {''')]),
("C03","V","color len",[("style/color.go","len(s) != 6","len(s) > 6")]),
("C03","V","repeatheader lower",[("xdoc/table.go","n < 0 || n > 10","n > 10")]),
("C03","V","repeatheader upper",[("xdoc/table.go","n < 0 || n > 10","n < 0 || n > 11")]),
("C03","V","repeatheader upper strict",[("xdoc/table.go","n < 0 || n > 10","n < 0 || n >= 10")]),
("C03","V","repeatheader clamp",[("xdoc/table.go",'''				return errors.Errorf("invalid value %d for repeatheader - must be in [0,10]", n)''','''				errors.Errorf("invalid value %d for repeatheader - must be in [0,10]", n)
				n = 10''')]),
("C03","V","grid no validate",[("xdoc/grid.go","return g.Validate()","return nil")]),
("C03","V","grid rows differ",[("xdoc/grid.go",'''			return errors.Errorf("grid rows must have same size all")''','''			continue''')]),
("C03","V","grid area",[("xdoc/grid.go",'''			return errors.Errorf("no definition for area %q", p.Area)''','''			if p.Area != "" {
				return errors.Errorf("no definition for area %q", p.Area)
			}''')]),
("C03","V","int parse default for empty",[("style/decode.go",'''		f, err := strconv.ParseFloat(styleValue, 64)
		if err != nil {''','''		f, err := strconv.ParseFloat(styleValue, 64)
		if err != nil && styleValue != "auto" {''')]),
("C03","V","named result swallowed by defer-less shadow",[("hyphenation/hyphenation.go",'''	pl, err := loadPatternLookup(r)
	if err != nil {
		return nil, errors.Wrap(err, "load-pattern-lookup")
	}
	return new(pl), nil''','''	pl := newPatternLookup()
	var err error
	if err == nil {
		pl2, err := loadPatternLookup(r)
		if err == nil {
			pl = pl2
		}
	}
	if err != nil {
		return nil, errors.Wrap(err, "load-pattern-lookup")
	}
	return new(pl), nil''')]),
# refactorings
("C03 C04","Q","err inline",[("xdoc/instructions.go",'''	err := is.DecodeAttrs(start.Attr)
	if err != nil {
		return err
	}
''','''	if err := is.DecodeAttrs(start.Attr); err != nil {
		return err
	}
''')]),
("C03 C04","Q","positive check",[("xdoc/doc.go",'''	err := xml.NewDecoder(r).Decode(doc)
	if err != nil {
		return nil, err
	}
	doc.styleClasses, err = style.DecodeClasses(bytes.NewBufferString(doc.Style))
	if err != nil {
		return nil, err
	}
	return doc, nil''','''	err := xml.NewDecoder(r).Decode(doc)
	if err == nil {
		doc.styleClasses, err = style.DecodeClasses(bytes.NewBufferString(doc.Style))
	}
	if err == nil {
		return doc, nil
	}
	return nil, err''')]),
("C03 C04","Q","named result",[("xdoc/doc.go",'''func Load(r io.Reader) (*Document, error) {
	doc := &Document{}
	err := xml''','''func Load(r io.Reader) (doc *Document, err error) {
	doc = &Document{}
	err = xml''')]),
("C03 C04","Q","cut",[("style/decode.go",'''		styleKV := strings.Split(styleStr, ":")
		if len(styleKV) != 2 {
			return nil, errors.Errorf("invalid style syntax (%s) must be of (key:val)", styleStr)
		}
		raw[trimWS(styleKV[0])] = trimWS(styleKV[1])''','''		k, v, ok := strings.Cut(styleStr, ":")
		if !ok || strings.Contains(v, ":") {
			return nil, errors.Errorf("invalid style syntax (%s) must be of (key:val)", styleStr)
		}
		raw[trimWS(k)] = trimWS(v)''')]),
("C03 C04","Q","helper kv",[("style/decode.go",'''		styleKV := strings.Split(styleStr, ":")
		if len(styleKV) != 2 {
			return nil, errors.Errorf("invalid style syntax (%s) must be of (key:val)", styleStr)
		}
		raw[trimWS(styleKV[0])] = trimWS(styleKV[1])''','''		k, v, ok := splitKV(styleStr)
		if !ok {
			return nil, errors.Errorf("invalid style syntax (%s) must be of (key:val)", styleStr)
		}
		raw[k] = v'''),("style/decode.go","",'''
func splitKV(s string) (string, string, bool) {
	kv := strings.Split(s, ":")
	if len(kv) == 2 {
		return trimWS(kv[0]), trimWS(kv[1]), true
	}
	return "", "", false
}
''')]),
("C03 C04","Q","int range helper",[("xdoc/table.go",'''			n, err := strconv.ParseInt(a.Value, 10, 64)
			if err != nil {
				return err
			} else if n < 0 || n > 10 {
				return errors.Errorf("invalid value %d for repeatheader - must be in [0,10]", n)
			}
			t.RepeatHeader = int(n)''','''			n, err := intIn(a.Value, 0, 10)
			if err != nil {
				return errors.Wrap(err, "repeatheader")
			}
			t.RepeatHeader = n'''),("xdoc/table.go","",'''
func intIn(s string, min, max int64) (int, error) {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return 0, err
	}
	if n < min || max < n {
		return 0, errors.Errorf("invalid value %d - must be in [%d,%d]", n, min, max)
	}
	return int(n), nil
}
''')]),
("C03 C04","Q","decode loop helper",[("xdoc/table.go",'''		token, err := d.Token()
		if err != nil {
			return err
		}
		switch t := token.(type) {
		case xml.EndElement:
			if t == start.End() {
				return nil
			}
		case xml.StartElement:
			i, err := registry.DecodeInstruction(d, t)
			if err != nil {
				return err
			}
			switch i := i.(type) {
			case *TableRow:
				tab.Rows = append(tab.Rows, i)
			}
		}
''','''		i, done, err := nextInstruction(d, start)
		if err != nil || done {
			return err
		}
		if row, ok := i.(*TableRow); ok {
			tab.Rows = append(tab.Rows, row)
		}
'''),("xdoc/table.go","",'''
func nextInstruction(d *xml.Decoder, start xml.StartElement) (Instruction, bool, error) {
	for {
		token, err := d.Token()
		if err != nil {
			return nil, false, err
		}
		switch t := token.(type) {
		case xml.EndElement:
			if t == start.End() {
				return nil, true, nil
			}
		case xml.StartElement:
			i, err := registry.DecodeInstruction(d, t)
			return i, false, err
		}
	}
}
''')]),
("C03 C04","Q","string builder + bufio",[("hyphenation/pattern.go",'''		p, err := parsePattern(line)
		if err != nil {
			return nil, errors.Wrap(err, "parse-pattern")
		}
		pl.patterns[string(p.Letters)] = p''','''		if err := pl.add(line); err != nil {
			return nil, err
		}'''),("hyphenation/pattern.go","",'''
func (pl *patternLookup) add(line string) error {
	p, err := parsePattern(line)
	if err == nil {
		pl.patterns[string(p.Letters)] = p
		return nil
	}
	return errors.Wrap(err, "parse-pattern")
}
''')]),
# C04
("C04","V","font file err",[("engine/fpdf.go",'''		if err != nil {
			return errors.Wrapf(err, "read file %q", fd.FilePath)
		}
''','''		if err != nil {
			return nil
		}
''')]),
("C04","V","font reg",[("font/registry.go",'''		if err != nil {
			return err
		}
''','''		if err != nil {
			continue
		}
''')]),
("C04","V","engine init",[("engine/fpdf.go",'''	err := e.initFonts(fonts)
	if err != nil {
		return nil, errors.Wrap(err, "init-fonts")
	}
''','''	e.initFonts(fonts)
''')]),
("C04","V","pdf error ignored",[("engine/fpdf.go",'''		if e.pdf.Error() != nil {
			return e.pdf.Error()
		}
''','''		e.pdf.Error()
''')]),
("C04","V","toml",[("font/definition.go",'''	if err != nil {
		return nil, errors.Wrapf(err, "toml-decode-file %q", file)
	}
''','''	if err != nil {
		return NewRegistry(), nil
	}
''')]),
("C04","V","output",[("engine/fpdf.go","return e.pdf.Output(w)","e.pdf.Output(w)\n\treturn nil")]),
("C04","V","Error nil",[("engine/fpdf.go","func (e *FPDF) Error() error {\n\treturn e.pdf.Error()","func (e *FPDF) Error() error {\n\te.pdf.Error()\n\treturn nil")]),
("C04","V","exit 0",[("cmd/xpdf/main.go","os.Exit(4)","os.Exit(0)")]),
("C04","V","no exit",[("cmd/describe/main.go","		os.Exit(2)\n","		return\n")]),
("C04","V","main ignores create",[("cmd/xpdf/main.go",'''		fmt.Println("ERROR create output-file:", err)
		os.Exit(2)
''','''		fmt.Println("ERROR create output-file:", err)
''')]),
("C04","V","close unchecked",[("cmd/xpdf/main.go",'''	err = outF.Close()
	if err != nil {
		fmt.Println("ERROR close output-file:", err)
		os.Exit(4)
	}
''','')]),
("C04","V","image silent",[("image.go",'''		Logf("ERROR: describe image: %v", err)
''','')]),
("C04","V","process",[("process.go","err := p.engine.Error()","err := error(nil)\n\t_ = p.engine.Error()")]),
("C04","V","decode config",[("image.go",'''		return ImageDescriptor{}, errors.Wrapf(err, "decode config of %q", src)''','''		return ImageDescriptor{}, nil''')]),
("C03 C04","Q","run func",[("cmd/describe/main.go",'''	doc, err := xdoc.LoadFromFile(in)
	if err != nil {
		fmt.Println("ERROR:", err)
		os.Exit(2)
	}
	desc := xdoc.Describe(doc)
	fmt.Printf("%s\\n", desc.Dump(xdoc.DescribeXML))
}''','''	if err := run(in); err != nil {
		fmt.Println("ERROR:", err)
		os.Exit(2)
	}
}

func run(in string) error {
	doc, err := xdoc.LoadFromFile(in)
	if err != nil {
		return err
	}
	desc := xdoc.Describe(doc)
	fmt.Printf("%s\\n", desc.Dump(xdoc.DescribeXML))
	return nil
}''')]),
("C03 C04","Q","fatal helper",[("cmd/image/main.go",'''	if err != nil {
		fmt.Println("ERROR: open source:", err)
		os.Exit(2)
	}
''','''	exitOn(err, "open source")
'''),("cmd/image/main.go","",'''
func exitOn(err error, what string) {
	if err == nil {
		return
	}
	fmt.Println("ERROR: "+what+":", err)
	os.Exit(2)
}
''')]),
]
