package main

import (
	"fmt"
	"math/big"
	"strings"
	"unicode"
)

// strOp is one operation on a string.
type strOp struct {
	k    string // replace, trim, triml, trimr, map, collapse, words, wrap
	a, b string
	n    int    // replace: how often at most
	set  string // trim: cut set; "\x00space" stands for all white space
	by   *Term  // replace: what is put in, if it is not constant
	m    [][2]string
}

func (o strOp) String() string {
	switch o.k {
	case "replace":
		b := fmt.Sprintf("%q", o.b)
		if o.by != nil {
			b = clip(o.by.String(), 60)
		}
		if o.n >= 0 {
			return fmt.Sprintf("the first %d %q -> %s", o.n, o.a, b)
		}
		return fmt.Sprintf("%q -> %s", o.a, b)
	case "trim", "triml", "trimr":
		return fmt.Sprintf("%s %q", o.k, o.set)
	case "collapse":
		return fmt.Sprintf("runs of %q -> %q", o.a, o.a)
	case "wrap":
		return fmt.Sprintf("%q + . + %q", o.a, o.b)
	case "map":
		return fmt.Sprintf("%q", o.m)
	}
	return o.k
}

func opsStr(ops []strOp) string {
	var ss []string
	for _, o := range ops {
		ss = append(ss, o.String())
	}
	return "[" + strings.Join(ss, "; ") + "]"
}

const allSpace = "\x00space"

// pipe reads t as a chain of operations on a string that is none itself.
func (c *Ck) pipe(g *Graph, t *Term) (ops []strOp, base *Term, why string) {
	return c.pipeD(g, t, nil, 0)
}

func (c *Ck) pipeD(g *Graph, t *Term, stop *Term, d int) (ops []strOp, base *Term, why string) {
	if d > 40 {
		return nil, nil, "too deep"
	}
	T := g.T
	if t == stop {
		return nil, t, ""
	}
	more := func(x *Term, o ...strOp) ([]strOp, *Term, string) {
		ops, base, why := c.pipeD(g, x, stop, d+1)
		return append(ops, o...), base, why
	}
	as := t.args
	switch t.op {
	case OCall:
		switch t.s {
		case "strings.ReplaceAll", "strings.Replace":
			n := -1
			if len(as) > 3 {
				if !as[3].isNum() || !as[3].rat().IsInt() {
					return nil, nil, "replaces " + as[3].String() + " times"
				}
				n = int(as[3].rat().Num().Int64())
				if n > 6 {
					return nil, nil, "replaces " + as[3].String() + " times"
				}
			}
			if !as[1].isStr() || as[1].s == "" {
				return nil, nil, "replaces " + clip(as[1].String(), 80)
			}
			o := strOp{k: "replace", a: as[1].s, n: n}
			if as[2].isStr() {
				o.b = as[2].s
			} else {
				o.by = as[2]
			}
			return more(as[0], o)
		case "strings.Trim", "strings.TrimLeft", "strings.TrimRight":
			if !as[1].isStr() {
				return nil, nil, "trims " + clip(as[1].String(), 80)
			}
			return more(as[0], strOp{k: map[string]string{"strings.Trim": "trim", "strings.TrimLeft": "triml", "strings.TrimRight": "trimr"}[t.s], set: as[1].s})
		case "strings.TrimSpace":
			return more(as[0], strOp{k: "trim", set: allSpace})
		case "strings.ToLower":
			return more(as[0], strOp{k: "map", m: [][2]string{{"A", "a"}}})
		case "strings.ToUpper", "strings.Title":
			return more(as[0], strOp{k: "map", m: [][2]string{{"a", "A"}}})
		case "strings.Join":
			if !as[1].isStr() {
				break
			}
			if x := as[0]; x.op == OCall && x.s == "strings.Fields" && as[1].s == " " {
				return more(x.args[0], strOp{k: "words"})
			} else if x.op == OCall && x.s == "strings.Split" && x.args[1].isStr() && x.args[1].s != "" {
				return more(x.args[0], strOp{k: "replace", a: x.args[1].s, b: as[1].s, n: -1})
			}
		}
		return nil, t, ""
	case OInv:
		name := strings.SplitN(t.s, "#", 2)[0]
		if name == "(*strings.Replacer).Replace" {
			if m, ok := replacer(as[0]); ok {
				return more(as[1], strOp{k: "map", m: m})
			}
			return nil, nil, "replacer " + clip(as[0].String(), 80)
		}
		for _, f := range c.P.Funcs {
			if fnName(f) != name || f.Signature.Results().Len() != 1 || !isStringType(f.Signature.Results().At(0).Type()) {
				continue
			}
			o := defaultOptions(c.P)
			o.Opaque = nil
			fg := c.newGraph(f, o)
			if fg == nil {
				return nil, nil, "no graph of " + name
			}
			rs := fg.results(0)
			if len(rs) == 0 {
				return nil, nil, name + " yields nothing"
			}
			var all [][]strOp
			var bases []*Term
			for _, r := range rs {
				ls, ok := fg.leaves([]*Term{fg.simp(r.t)})
				if !ok {
					return nil, nil, "too many cases in " + name
				}
				for _, l := range ls {
					if len(l.lits) > 0 && !emptyCase(l) {
						return nil, nil, fmt.Sprintf("%s has a case of its own for %s", name, l)
					}
					if len(l.lits) > 0 && (l.ts[0] == fg.T.EmptyS || l.ts[0].op == OSeq) {
						continue
					}
					ops, b, why := c.pipeD(fg, l.ts[0], nil, d+1)
					if why != "" {
						return nil, nil, why
					}
					all = append(all, ops)
					bases = append(bases, b)
				}
			}
			if n := mostRounds(all); n >= 0 {
				all, bases = all[n:n+1], bases[n:n+1]
			}
			if len(all) != 1 {
				return nil, nil, name + " has several cases"
			}
			for i, p := range f.Params {
				if fg.val(fg.root, p) == bases[0] && i < len(as) {
					return more(as[i], all[0]...)
				}
			}
			return nil, nil, name + " does not yield what it is given"
		}
		return nil, t, ""
	case OConcat:
		var mid *Term
		pre, post := "", ""
		for _, x := range as {
			switch {
			case x.isStr() && mid == nil:
				pre += x.s
			case x.isStr():
				post += x.s
			case mid == nil:
				mid = x
			default:
				return nil, t, ""
			}
		}
		if mid == nil {
			return nil, t, ""
		}
		return more(mid, strOp{k: "wrap", a: pre, b: post})
	case OConv:
		return nil, nil, clip(t.String(), 80)
	case OLoopVar:
		init, next, h := g.loopInfo(t)
		l := g.loops[h]
		if l == nil {
			return nil, t, ""
		}
		init, next = g.simp(init), g.simp(next)
		// another variable of the loop that always has the same value
		var same *Term
		walk(next, func(x *Term) bool {
			if x.op == OLoopVar && x != t && x != stop && same == nil {
				if i2, n2, h2 := g.loopInfo(x); h2 == h && g.simp(i2) == init && g.simp(n2) == next {
					same = x
				}
			}
			return same == nil
		})
		if same != nil && !contains(next, func(x *Term) bool { return x == t }) {
			return more(same)
		}
		// a fixed number of times
		if n := g.count(l); n != nil && n.isNum() && n.rat().IsInt() && n.rat().Cmp(big.NewRat(16, 1)) <= 0 {
			iv := T.mk(&Term{op: OIV, i: l.head.id, data: l})
			var all []strOp
			for i := int64(0); i < n.rat().Num().Int64(); i++ {
				x := g.simp(T.subst(next, map[*Term]*Term{iv: T.numI(i)}))
				ops, b, why := c.pipeD(g, x, t, d+1)
				if why != "" {
					return nil, nil, why
				}
				if b != t {
					return nil, t, ""
				}
				all = append(all, ops...)
			}
			return more(init, all...)
		}
		// until nothing changes
		ops, b, why := c.pipeD(g, next, t, d+1)
		if why != "" {
			return nil, nil, why
		}
		if b != t || len(ops) != 1 || ops[0].k != "replace" || ops[0].by != nil || ops[0].n >= 0 {
			return nil, nil, "a loop applies " + opsStr(ops)
		}
		o := ops[0]
		rs, q := []rune(o.a), []rune(o.b)
		if len(rs) < 2 || len(q) != 1 {
			return nil, nil, "a loop replaces " + o.String()
		}
		for _, r := range rs {
			if r != q[0] {
				return nil, nil, "a loop replaces " + o.String()
			}
		}
		if len(rs) > 2 {
			return nil, nil, "a loop replaces " + o.String()
		}
		rounds := 1000
		for _, e := range l.exits {
			if g.liveEdge != nil && !g.liveEdge[e] {
				continue
			}
			cd := g.cond(e)
			if n := g.atMost(l, cd); n > 0 {
				// it may end before nothing changes
				rounds = min(rounds, n)
				continue
			}
			if cd == nil || !g.noneLeft(cd, t, next, o.a) {
				return nil, nil, fmt.Sprintf("the loop that replaces %s can end if %v", o, cd)
			}
		}
		if rounds < 1000 {
			if rounds > 7 {
				return nil, nil, fmt.Sprintf("the loop that replaces %s ends after %d rounds", o, rounds)
			}
			var all []strOp
			for i := 0; i < rounds; i++ {
				all = append(all, o)
			}
			return more(init, all...)
		}
		return more(init, strOp{k: "collapse", a: o.b})
	}
	return nil, t, ""
}

// mostRounds: the chains only differ in the number of times they replace
// twins; the longest of them, -1 if they differ otherwise.
func mostRounds(all [][]strOp) int {
	if len(all) < 2 {
		return -1
	}
	norm := func(ops []strOp) string {
		var ks []string
		for i, o := range ops {
			if i > 0 && o.k == "replace" && o.by == nil && o.n < 0 && len(o.a) == 2*len(o.b) && o.a == o.b+o.b && o.String() == ops[i-1].String() {
				continue
			}
			ks = append(ks, o.String())
		}
		return strings.Join(ks, ";")
	}
	best := 0
	for i := range all {
		if norm(all[i]) != norm(all[0]) {
			return -1
		}
		if len(all[i]) > len(all[best]) {
			best = i
		}
	}
	return best
}

// atMost: the largest number of rounds after which the loop ends if cd is the
// condition to leave it, 0 if cd does not bound it by a constant.
func (g *Graph) atMost(l *Loop, cd *Term) int {
	if cd == nil {
		return 0
	}
	iv := g.iv(l)
	for n := int64(0); n < 16; n++ {
		x := g.simp(g.T.subst(cd, map[*Term]*Term{iv: g.T.numI(n)}))
		if !x.isBool() {
			return 0
		}
		if x.i == 1 {
			// the replacement may come before the test
			return int(n) + 1
		}
	}
	return 0
}

// emptyCase: the case is that of an empty string.
func emptyCase(l leaf) bool {
	for _, x := range l.lits {
		cd, v := x.c, x.v
		if cd.op == ONot {
			cd, v = cd.args[0], !v
		}
		switch cd.op {
		case OEq:
			if cd.args[0].isStr() && cd.args[0].s == "" || cd.args[1].isStr() && cd.args[1].s == "" {
				continue
			}
		case OPos, OZero:
			if contains(cd, func(y *Term) bool { return y.op == OLen }) {
				continue
			}
		}
		return false
	}
	return true
}

// noneLeft: the condition says that there is no more twin in x; y is x after
// another replacement.
func (g *Graph) noneLeft(cd, x, y *Term, twin string) bool {
	T := g.T
	v := true
	if cd.op == ONot {
		cd, v = cd.args[0], false
	}
	is := func(a *Term) bool { return a == x || a == y }
	switch {
	case cd.op == OEq && v:
		a, b := cd.args[0], cd.args[1]
		if a == x && b == y || a == y && b == x {
			return true
		}
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if p[0] == x && p[1].op == OLoopVar {
				if _, n, _ := g.loopInfo(p[1]); g.simp(n) == x {
					return true
				}
			}
		}
	case cd.op == OZero && v:
		if z := T.zero(T.sub(T.len(x), T.len(y)), true); z == cd {
			return true
		}
	}
	// no occurrence
	has := T.call("strings.Contains", x, T.str(twin))
	if r, ok := T.decideUnder([]lit{{has, true}}, cd); ok && is(x) && r != v {
		return true
	}
	idx := T.call("strings.Index", x, T.str(twin))
	if r, ok := T.decideUnder([]lit{{T.lt(idx, T.Zero, true), false}}, cd); ok && r != v {
		return true
	}
	cnt := T.call("strings.Count", x, T.str(twin))
	if r, ok := T.decideUnder([]lit{{T.lt(T.Zero, cnt, true), true}}, cd); ok && r != v {
		return true
	}
	return false
}

// replacer reads the pairs of a strings.Replacer that replaces single bytes.
func replacer(t *Term) ([][2]string, bool) {
	if i := strings.IndexByte(t.s, '#'); t.op != OCall && t.op != OInv || !strings.HasPrefix(t.s, "strings.NewReplacer") || i > 0 && t.s[:i] != "strings.NewReplacer" {
		return nil, false
	}
	if len(t.args) != 1 || t.args[0].op != OSeq || len(t.args[0].args)%2 != 0 {
		return nil, false
	}
	var m [][2]string
	as := t.args[0].args
	for i := 0; i < len(as); i += 2 {
		if !as[i].isStr() || !as[i+1].isStr() || len(as[i].s) != 1 || as[i].s[0] >= 0x80 {
			return nil, false
		}
		m = append(m, [2]string{as[i].s, as[i+1].s})
	}
	return m, true
}

// sigma: the symbols that matter to chains of operations. What is put in
// that is not constant is one symbol, 0; everything else is 1.
const (
	symIn    sym = -2
	symOther sym = -1
)

func sigmaOf(chains ...[]strOp) []sym {
	seen := map[sym]bool{}
	out := []sym{symOther, symIn, '\v', 'A', 'a'}
	for _, x := range out {
		seen[x] = true
	}
	addS := func(s string) {
		for _, r := range s {
			if !seen[sym(r)] {
				seen[sym(r)] = true
				out = append(out, sym(r))
			}
		}
	}
	addS(" \\")
	for _, ops := range chains {
		for _, o := range ops {
			addS(o.a)
			addS(o.b)
			if o.set != allSpace {
				addS(o.set)
			}
			for _, m := range o.m {
				addS(m[0])
				addS(m[1])
			}
		}
	}
	return out
}

func symsOf(s string) (out []sym) {
	for _, r := range s {
		out = append(out, sym(r))
	}
	return
}

func isSpaceSym(x sym) bool { return x > 0 && unicode.IsSpace(rune(x)) }

func chainFst(sigma []sym, ops []strOp) *fst {
	f := fstMap(sigma, func(x sym) []sym { return []sym{x} })
	for _, o := range ops {
		o := o
		var h *fst
		switch o.k {
		case "replace":
			by := symsOf(o.b)
			if o.by != nil {
				by = []sym{symIn}
			}
			h = fstReplace(sigma, symsOf(o.a), by, o.n)
		case "trim", "triml", "trimr":
			in := func(x sym) bool { return x > 0 && strings.ContainsRune(o.set, rune(x)) }
			if o.set == allSpace {
				in = isSpaceSym
			}
			h = fstTrim(sigma, in, o.k != "trimr", o.k != "triml")
		case "collapse":
			c := symsOf(o.a)[0]
			h = fstCollapse(sigma, func(x sym) bool { return x == c }, func(x sym) sym { return x })
		case "words":
			f = f.then(fstTrim(sigma, isSpaceSym, true, true))
			h = fstCollapse(sigma, isSpaceSym, func(sym) sym { return ' ' })
		case "wrap":
			h = fstWrap(sigma, symsOf(o.a), symsOf(o.b))
		case "map":
			h = fstMap(sigma, func(x sym) []sym {
				for _, m := range o.m {
					if symsOf(m[0])[0] == x {
						return symsOf(m[1])
					}
				}
				return []sym{x}
			})
		}
		f = f.then(h)
	}
	return f
}

func wordOf(w []sym) string {
	var b strings.Builder
	for _, x := range w {
		switch x {
		case symOther:
			b.WriteByte('x')
		case symIn:
			b.WriteString("1")
		default:
			b.WriteRune(rune(x))
		}
	}
	return b.String()
}

// chainsDiffer decides whether two chains of operations differ, and shows an
// input with both outputs.
func chainsDiffer(a, b []strOp, dom ...strCond) (in, outA, outB string, differ bool, err error) {
	chains := [][]strOp{a, b}
	for _, d := range dom {
		chains = append(chains, d.ops, []strOp{{a: d.a}})
	}
	sigma := sigmaOf(chains...)
	fa, fb := chainFst(sigma, a), chainFst(sigma, b)
	for _, d := range dom {
		fa = fa.on(chainFst(sigma, d.ops).then(d.fst(sigma)))
	}
	w, d, err := fa.differ(fb)
	if err != nil || !d {
		return "", "", "", false, err
	}
	x, _ := fa.run(w)
	y, _ := fb.run(w)
	return wordOf(w), wordOf(x), wordOf(y), true, nil
}

// strCond is a condition on a string: on what a chain of operations makes of
// it.
type strCond struct {
	ops []strOp
	k   string // contains, prefix, suffix, empty
	a   string
	v   bool
}

func (d strCond) fst(sigma []sym) *fst {
	p := symsOf(d.a)
	if d.k == "empty" {
		p = nil
	}
	m := len(p)
	var f *fst
	switch d.k {
	case "empty":
		f = newFst(sigma, 2)
		for _, x := range sigma {
			f.add(0, x, 1, x)
			f.add(1, x, 1, x)
		}
		f.end(map[bool]int{true: 0, false: 1}[d.v])
	case "contains", "suffix":
		f = newFst(sigma, m+1)
		for s := 0; s <= m; s++ {
			for _, x := range sigma {
				if s == m && d.k == "contains" {
					f.add(s, x, s, x)
					continue
				}
				pend := append(append([]sym{}, p[:s]...), x)
				i := 0
				for ; i < len(pend); i++ {
					if rest := pend[i:]; len(rest) <= m && eqSyms(rest, p[:len(rest)]) {
						break
					}
				}
				f.add(s, x, len(pend)-i, x)
			}
			if (s == m) == d.v {
				f.end(s)
			}
		}
	case "prefix":
		f = newFst(sigma, m+2)
		for s := 0; s < m+2; s++ {
			for _, x := range sigma {
				switch {
				case s >= m:
					f.add(s, x, s, x)
				case p[s] == x:
					f.add(s, x, s+1, x)
				default:
					f.add(s, x, m+1, x)
				}
			}
			if (s == m) == d.v {
				f.end(s)
			}
		}
	}
	return f
}

// on restricts f to the inputs d takes.
func (f *fst) on(d *fst) *fst {
	r := &fst{sigma: f.sigma, key: map[[2]int]int{}}
	var todo [][2]int
	state := func(a, b int) int {
		k := [2]int{a, b}
		if i, ok := r.key[k]; ok {
			return i
		}
		i := len(r.tr)
		r.key[k] = i
		r.tr = append(r.tr, map[sym][]fstOut{})
		r.final = append(r.final, nil)
		todo = append(todo, k)
		return i
	}
	for _, a := range f.start {
		for _, b := range d.start {
			r.start = append(r.start, fstOut{state(a.to, b.to), a.out})
		}
	}
	for len(todo) > 0 {
		k := todo[0]
		todo = todo[1:]
		i := r.key[k]
		for _, x := range f.sigma {
			for _, a := range f.tr[k[0]][x] {
				for _, b := range d.tr[k[1]][x] {
					to := state(a.to, b.to)
					r.tr[i][x] = append(r.tr[i][x], fstOut{to, a.out})
				}
			}
		}
		if len(d.final[k[1]]) > 0 {
			r.final[i] = f.final[k[0]]
		}
	}
	r.n = len(r.tr)
	return r
}

// domain reads the conditions of a case that are on the text.
func (c *Ck) domain(g *Graph, base *Term, lits []lit) (out []strCond, why string) {
	T := g.T
	for _, x := range lits {
		if !contains(x.c, func(y *Term) bool { return y == base }) {
			continue
		}
		d := strCond{}
		found := false
		try := func(arg *Term, k, a string, f *Term, fv bool) {
			if found {
				return
			}
			// f being fv or not decides the condition
			y, k1 := T.decideUnder([]lit{{f, fv}}, x.c)
			n, k2 := T.decideUnder([]lit{{f, !fv}}, x.c)
			if !k1 || !k2 || y == n {
				return
			}
			ops, b, w := c.pipe(g, arg)
			if w != "" || b != base {
				return
			}
			d, found = strCond{ops: ops, k: k, a: a, v: y == x.v}, true
		}
		walk(x.c, func(y *Term) bool {
			if y.op == OCall && len(y.args) == 2 && y.args[1].isStr() && y.args[1].s != "" {
				a := y.args[1].s
				switch y.s {
				case "strings.Contains":
					try(y.args[0], "contains", a, y, true)
				case "strings.HasPrefix":
					try(y.args[0], "prefix", a, y, true)
				case "strings.HasSuffix":
					try(y.args[0], "suffix", a, y, true)
				case "strings.Index", "strings.LastIndex":
					try(y.args[0], "contains", a, T.lt(y, T.Zero, true), false)
				case "strings.Count":
					try(y.args[0], "contains", a, T.lt(T.Zero, y, true), true)
				}
			}
			if y.op == OLen {
				try(y.args[0], "empty", "", T.zero(y, true), true)
			}
			if y.op == OEq {
				for i := range y.args {
					if y.args[1-i] == T.EmptyS {
						try(y.args[i], "empty", "", y, true)
					}
				}
			}
			return !found
		})
		if !found {
			return nil, "a case of its own for " + x.String()
		}
		out = append(out, d)
	}
	return
}
