H="hyphenation/hyphenation.go"
A="C11"
muts=[
(A,"V","rest dropped",[(H,"	return append(sl, s[offs[last]:])","	if last == len(offs)-1 {\n		return sl\n	}\n	return append(sl, s[offs[last]:len(s)-1])")]),
(A,"V","rest dropped if single",[(H,"	return append(sl, s[offs[last]:])","	if last < len(offs)-2 {\n		sl = append(sl, s[offs[last]:])\n	}\n	return sl")]),
(A,"V","last not moved",[(H,"				last = i + 1\n","				last = i\n")]),
(A,"V","last off",[(H,"				last = i + 1\n","				last = i + 2\n")]),
(A,"V","cut before check",[(H,"			if i+1-last > 1 {\n				sl = append(sl, s[offs[last]:offs[i+1]])\n				last = i + 1\n			}","			if i+1-last > 1 {\n				sl = append(sl, s[offs[last]:offs[i+1]])\n			}\n			last = i + 1")]),
(A,"V","lower case parts",[(H,"				sl = append(sl, s[offs[last]:offs[i+1]])","				sl = append(sl, strings.ToLower(s)[offs[last]:offs[i+1]])")]),
(A,"V","runes",[(H,"sl = append(sl, s[offs[last]:offs[i+1]])","sl = append(sl, string(rs[last+1:i+2]))")]),
(A,"V","byte offsets",[(H,"sl = append(sl, s[offs[last]:offs[i+1]])","sl = append(sl, s[last:i+1])"),(H,"s[offs[last]:])","s[last:])")]),
(A,"V","even",[(H,"w%2 == 1","w%2 == 0")]),
(A,"V","positive",[(H,"w%2 == 1","w > 0")]),
(A,"V","ws shifted",[(H,"range ws[2 : len(ws)-2]","range ws[1 : len(ws)-2]")]),
(A,"V","offs shifted",[(H,"offs[i+1]])\n				last = i + 1","offs[i+2]])\n				last = i + 2")]),
(A,"V","any weight",[(H,"				if w > ws[i+iw] {\n					ws[i+iw] = w\n				}","				ws[i+iw] = w")]),
(A,"V","min weight",[(H,"if w > ws[i+iw] {","if w < ws[i+iw] {")]),
(A,"V","weight pos",[(H,"				if w > ws[i+iw] {\n					ws[i+iw] = w\n				}","				if w > ws[i+iw+1] {\n					ws[i+iw+1] = w\n				}")]),
(A,"V","len guard 2",[(H,"len(s) < 3","len(s) < 2")]),
(A,"V","len guard 200",[(H,"len(s) > 100","len(s) > 200")]),
(A,"V","blank guard gone",[(H,'	if strings.Contains(s, " ") {\n		return []string{s}\n	}\n','')]),
(A,"V","blank guard tab",[(H,'	if strings.Contains(s, " ") {\n','	if strings.Contains(s, "\\t") {\n')]),
(A,"V","long words empty",[(H,"	if len(s) > 100 {\n		return []string{s}","	if len(s) > 100 {\n		return nil")]),
(A,"V","short words lower",[(H,"		//don't hyphenate words with less than 3 runes\n		return []string{s}","		return []string{strings.ToLower(s)}")]),
(A,"Q","one guard",[(H,'''	if len(s) < 3 {
		//don't hyphenate words with less than 3 runes
		return []string{s}
	}
	if strings.Contains(s, " ") {
		return []string{s}
	}
	if len(s) > 100 {
		return []string{s}
	}
''','''	if n := len(s); n < 3 || n > 100 || strings.Contains(s, " ") {
		return []string{s}
	}
''')]),
(A,"Q","ContainsRune",[(H,'strings.Contains(s, " ")',"strings.ContainsRune(s, ' ')")]),
(A,"Q","IndexByte",[(H,'strings.Contains(s, " ")',"strings.IndexByte(s, ' ') >= 0")]),
(A,"Q","weights helper",[(H,'''	rs := []rune("." + strings.ToLower(s) + ".")
	ws := make([]int, len(rs)+1)
''','''	ws := h.weights(s)
'''),(H,'''	for subSize := 1; subSize <= len(rs); subSize++ {
		for i := 0; i < len(rs)-subSize+1; i++ {
			sub := rs[i : i+subSize]
			pattern, ok := h.lookup.find(string(sub))
			if !ok {
				continue
			}
			for iw, w := range pattern.Weights {
				if w > ws[i+iw] {
					ws[i+iw] = w
				}
			}
		}
	}
''',''),(H,"",'''
func (h *Hyphenator) weights(s string) []int {
	rs := []rune("." + strings.ToLower(s) + ".")
	ws := make([]int, len(rs)+1)
	for from := range rs {
		for to := from + 1; to <= len(rs); to++ {
			if pattern, ok := h.lookup.find(string(rs[from:to])); ok {
				for iw, w := range pattern.Weights {
					if ws[from+iw] < w {
						ws[from+iw] = w
					}
				}
			}
		}
	}
	return ws
}
''')]),
(A,"Q","index loop",[(H,'''	for i, w := range ws[2 : len(ws)-2] {
		if w%2 == 1 {
			if i+1-last > 1 {
				sl = append(sl, s[offs[last]:offs[i+1]])
				last = i + 1
			}
		}
	}''','''	for cut := 1; cut < len(ws)-3; cut++ {
		if ws[cut+1]%2 == 0 || cut-last < 2 {
			continue
		}
		sl = append(sl, s[offs[last]:offs[cut]])
		last = cut
	}''')]),
(A,"Q","byte position",[(H,'''	var last int
''','''	var last, pos int
'''),(H,'''				sl = append(sl, s[offs[last]:offs[i+1]])
				last = i + 1
''','''				end := offs[i+1]
				sl = append(sl, s[pos:end])
				last, pos = i+1, end
'''),(H,"s[offs[last]:])","s[pos:])")]),
(A,"Q","tail var",[(H,"	return append(sl, s[offs[last]:])","	rest := s[offs[last]:]\n	sl = append(sl, rest)\n	return sl")]),
]
