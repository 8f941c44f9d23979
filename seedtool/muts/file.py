muts=[
("C25","V","no defer",[("xdoc/doc.go","	defer f.Close()\n","")]),
("C25","V","no defer hyph",[("hyphenation/hyphenation.go","	defer f.Close()\n","")]),
("C25","V","close only at the end",[("image.go","	defer f.Close()\n",""),("image.go",'''	return ImageDescriptor{
''','''	f.Close()
	return ImageDescriptor{
''')]),
("C25","V","conditional defer",[("xdoc/doc.go","	defer f.Close()\n","	if fi, err := f.Stat(); err == nil && fi.Size() > 0 {\n		defer f.Close()\n	}\n")]),
("C25","V","closed closure never called",[("xdoc/doc.go","	defer f.Close()\n","	done := func() { f.Close() }\n	_ = done\n")]),
("C25","Q","defer closure",[("xdoc/doc.go","	defer f.Close()\n","	defer func() { _ = f.Close() }()\n")]),
("C25","Q","helper close",[("xdoc/doc.go","	defer f.Close()\n","	defer closeFile(f)\n"),("xdoc/doc.go","",'''
func closeFile(f io.Closer) {
	if f != nil {
		f.Close()
	}
}
''')]),
("C25","Q","explicit close both",[("xdoc/doc.go","	defer f.Close()\n	return Load(f)","	doc, err := Load(f)\n	f.Close()\n	return doc, err")]),
("C25","Q","open helper",[("xdoc/doc.go","	f, err := os.Open(file)","	f, err := openFile(file)"),("xdoc/doc.go","",'''
func openFile(name string) (*os.File, error) {
	return os.Open(name)
}
''')]),
("C25","V","open helper no close",[("xdoc/doc.go","	f, err := os.Open(file)","	f, err := openFile(file)"),("xdoc/doc.go","	defer f.Close()\n",""),("xdoc/doc.go","",'''
func openFile(name string) (*os.File, error) {
	return os.Open(name)
}
''')]),
("C25","Q","readfile",[("xdoc/doc.go",'''	f, err := os.Open(file)
	if err != nil {
		return nil, errors.Errorf("open (%s)", file)
	}
	defer f.Close()
	return Load(f)''','''	bs, err := os.ReadFile(file)
	if err != nil {
		return nil, errors.Errorf("open (%s)", file)
	}
	return Load(bytes.NewReader(bs))''')]),
("C25","Q","with-file callback",[("xdoc/doc.go",'''	f, err := os.Open(file)
	if err != nil {
		return nil, errors.Errorf("open (%s)", file)
	}
	defer f.Close()
	return Load(f)''','''	var doc *Document
	err := withFile(file, func(r io.Reader) (err error) {
		doc, err = Load(r)
		return err
	})
	if err != nil {
		return nil, err
	}
	return doc, nil'''),("xdoc/doc.go","",'''
func withFile(file string, do func(r io.Reader) error) error {
	f, err := os.Open(file)
	if err != nil {
		return errors.Errorf("open (%s)", file)
	}
	defer f.Close()
	return do(f)
}
''')]),
]
