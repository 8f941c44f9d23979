muts=[]
D='xdoc/diff.go'
def q(c,w,*e): muts.append((c,'Q',w,list(e)))
def v(c,w,*e): muts.append((c,'V',w,list(e)))
q('C06','deep equal',(D,'		if org != mod {\n','		if !reflect.DeepEqual(org, mod) {\n'),(D,'import (','import (\n\t"reflect"'))
q('C06','early',(D,'''		if org != mod {
			diffs = append(diffs, Diff{
				Path: path,
				Org:  org,
				Mod:  mod,
			})
		}
''','''		if org == mod {
			return diffs, nil
		}
		d := Diff{Path: path, Org: org, Mod: mod}
		diffs = append(diffs, d)
'''))
v('C06','keys skipped',(D,'			orgVal := org[orgKey]\n','			if orgKey == "Color" {\n				continue\n			}\n			orgVal := org[orgKey]\n'))
v('C06','first key only diffs',(D,'			diffs = append(diffs, msiDiffs...)\n','			diffs = append(diffs, msiDiffs...)\n			if len(diffs) > 8 {\n				break\n			}\n'))
v('C06','diffs replaced',(D,'			diffs = append(diffs, msiDiffs...)\n','			if len(msiDiffs) > 0 {\n				diffs = msiDiffs\n			}\n'))
v('C06','same values compared',(D,'			modVal, ok := modMSI[orgKey]\n','			modVal, ok := modMSI[orgKey]\n			if len(path) > 40 {\n				modVal = orgVal\n			}\n'))
v('C06','mod is org',(D,'				Mod:  mod,\n','				Mod:  org,\n'))
