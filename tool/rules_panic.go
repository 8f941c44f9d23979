package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C29", "for every indexing, slicing, type assertion, map update, dereference, allocation and integer division, on the inlined graph of every exported function and of a rendering per kind of element: the condition under which it is reached implies its bounds (linear arithmetic, case analysis, induction for loop variables)", ruleC29)
}

// reach is the condition under which a node is reached, from the loop heads
// around it; exact is false if parts of it were left out.
type reacher struct {
	g     *Graph
	memo  map[*Node]*Term
	exact map[*Node]bool
}

func (r *reacher) at(n *Node) (*Term, bool) {
	if t, ok := r.memo[n]; ok {
		return t, r.exact[n]
	}
	g, T := r.g, r.g.T
	if n == g.entry || n.idom == nil || n.idom == n {
		return T.True, true
	}
	up, ex := r.at(n.idom)
	loc, ex2 := r.from(n.idom, n)
	t := T.ite(up, loc, T.False)
	r.memo[n], r.exact[n] = t, ex && ex2
	return t, ex && ex2
}

func (r *reacher) from(d, n *Node) (*Term, bool) {
	g, T := r.g, r.g.T
	memo := map[*Node]*Term{d: T.True}
	exact := true
	cnt := 0
	var rec func(x *Node) *Term
	rec = func(x *Node) *Term {
		if t, ok := memo[x]; ok {
			return t
		}
		memo[x] = T.False
		cnt++
		if cnt > 60 {
			exact = false
			return T.True
		}
		res := T.False
		for _, e := range x.preds {
			if !g.liveEdge[e] || e.from.rpo < 0 {
				continue
			}
			if e.from.rpo >= x.rpo { // back edge
				continue
			}
			c := rec(e.from)
			if e.unknown {
				c = T.ite(T.atom(fmt.Sprintf("edge%d.%d", e.from.id, e.to.id)), c, T.False)
			} else if k := g.cond(e); k != nil {
				c = T.ite(c, g.norm(k), T.False)
			}
			res = T.ite(c, T.True, res)
		}
		memo[x] = res
		return res
	}
	// nothing can keep control from getting from d to n
	if !r.leaves(d, n) {
		return T.True, true
	}
	return rec(n), exact
}

// leaves: control can get from d to the end, or round a loop, without n.
func (r *reacher) leaves(d, n *Node) bool {
	g := r.g
	seen := map[*Node]bool{}
	st := []*Node{d}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] || x == n {
			continue
		}
		seen[x] = true
		k := 0
		for _, e := range x.succs {
			if !g.liveEdge[e] {
				continue
			}
			k++
			if e.to.rpo <= x.rpo && (e.to.rpo < d.rpo || e.to == d) {
				return true
			}
			st = append(st, e.to)
		}
		if k == 0 {
			return true
		}
	}
	return false
}

// panics is the analysis of one graph.
type panics struct {
	c *Ck
	g *Graph
	r *reacher
	// exported is set if the parameters can be anything
	root string
}

type siteRes struct {
	pos, what, fn string
	bad, und      string
	ok            bool
}

func ruleC29(c *Ck) {
	res := map[string]*siteRes{}
	done := map[string]bool{}
	run := func(g *Graph, root string, fresh bool) {
		if g == nil {
			c.und("C29.graph", root, "no graph")
			return
		}
		if g.overflow {
			c.und("C29.graph", root, "the graph is too large")
		}
		p := &panics{c: c, g: g, r: &reacher{g: g, memo: map[*Node]*Term{}, exact: map[*Node]bool{}}, root: root}
		was := map[string]bool{}
		for f := range done {
			was[f] = true
		}
		for _, k := range g.ctxs {
			if fresh && was[k.fn.String()] {
				continue
			}
			done[k.fn.String()] = true
			for _, b := range k.fn.Blocks {
				for _, in := range b.Instrs {
					l, ok := k.loc[in]
					if !ok || l.n.rpo < 0 || !g.live[l.n] {
						continue
					}
					c.protect("C29 "+root, func() { p.site(k, in, l, res) })
				}
			}
		}
	}
	for _, k := range c.kindNames() {
		c.protect("C29 "+k, func() { run(c.body(k, "", assumeText), "rendering "+k, false) })
	}
	for _, f := range c.P.libFuncs() {
		if !isExported(f) || done[f.String()] || len(f.Blocks) == 0 {
			continue
		}
		run(c.graphOf(f, "c29", nil), funcName(f), false)
	}
	// what is only reachable by way of values
	for _, f := range c.P.libFuncs() {
		if done[f.String()] || len(f.Blocks) == 0 || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") || f.Synthetic != "" {
			continue
		}
		run(c.graphOf(f, "c29", nil), funcName(f), true)
	}
	var keys []string
	for k := range res {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		s := res[k]
		rule := "C29." + strings.SplitN(s.what, " ", 2)[0]
		switch {
		case s.bad != "":
			c.fail(rule, s.fn, s.pos, "%s", s.bad)
		case s.und != "":
			c.und(rule, s.fn+" "+s.pos, "%s", s.und)
		default:
			c.ok(rule, s.fn+" "+s.pos)
		}
	}
}

func (p *panics) site(k *Ctx, in ssa.Instruction, l loc, res map[string]*siteRes) {
	g, T := p.g, p.g.T
	val := func(v ssa.Value) *Term { return g.norm(g.val(k, v)) }
	var what string
	var conds []*Term // all must hold
	isInt := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	inRange := func(i, n *Term) {
		conds = append(conds, T.not(T.lt(i, T.Zero, true)), T.lt(i, n, true))
	}
	loop := false
	switch x := in.(type) {
	case *ssa.IndexAddr:
		what = "index"
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			at, ok := pt.Elem().Underlying().(*types.Array)
			if !ok {
				return
			}
			i := val(x.Index)
			if i.isNum() {
				return // checked by the compiler
			}
			inRange(i, T.numI(at.Len()))
		} else {
			inRange(val(x.Index), p.length(val(x.X)))
		}
	case *ssa.Index:
		what = "index"
		switch t := x.X.Type().Underlying().(type) {
		case *types.Array:
			inRange(val(x.Index), T.numI(t.Len()))
		default:
			inRange(val(x.Index), p.length(val(x.X)))
		}
	case *ssa.Lookup:
		if !isStringType(x.X.Type()) {
			return
		}
		what = "index"
		inRange(val(x.Index), p.length(val(x.X)))
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			return
		}
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if _, ok := pt.Elem().Underlying().(*types.Array); ok {
				if x.Low == nil && x.High != nil {
					if _, ok := x.High.(*ssa.Const); ok {
						return
					}
				}
			}
		}
		what = "slice"
		n := p.length(val(x.X))
		lo, hi := T.Zero, n
		if x.Low != nil {
			lo = val(x.Low)
			conds = append(conds, T.not(T.lt(lo, T.Zero, true)))
		}
		if x.High != nil {
			hi = val(x.High)
			conds = append(conds, T.le(hi, n, true))
		}
		if x.Low != nil {
			conds = append(conds, T.le(lo, hi, true))
		} else {
			conds = append(conds, T.not(T.lt(hi, T.Zero, true)))
		}
	case *ssa.MakeSlice:
		what = "make"
		n := val(x.Len)
		conds = append(conds, T.not(T.lt(n, T.Zero, true)))
		if x.Cap != x.Len {
			conds = append(conds, T.le(n, val(x.Cap), true))
		}
	case *ssa.BinOp:
		if x.Op != token.QUO && x.Op != token.REM || !isInt(x.Type()) {
			return
		}
		what = "division"
		conds = append(conds, T.not(T.zero(val(x.Y), true)))
	case *ssa.TypeAssert:
		if x.CommaOk {
			return
		}
		what = "assertion"
		conds = append(conds, T.typeIs(val(x.X), x.AssertedType))
	case *ssa.MapUpdate:
		what = "map update"
		conds = append(conds, T.not(p.isNil(val(x.Map))))
	case *ssa.FieldAddr:
		what = "dereference"
		conds = append(conds, T.not(p.isNil(val(x.X))))
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return
		}
		what = "dereference"
		conds = append(conds, T.not(p.isNil(val(x.X))))
	case *ssa.Call:
		if !x.Call.IsInvoke() {
			f := x.Call.StaticCallee()
			if f == nil || len(x.Call.Args) == 0 {
				return
			}
			a := val(x.Call.Args[len(x.Call.Args)-1])
			switch f.String() {
			case "reflect.New":
				// there is no type of nil
				if a.op != OCall || a.s != "reflect.TypeOf" {
					return
				}
				what = "dereference"
				conds = append(conds, T.not(p.isNil(a.args[0])))
			case "strings.Repeat", "bytes.Repeat":
				what = "repeat"
				conds = append(conds, T.not(T.lt(a, T.Zero, true)))
			default:
				return
			}
			break
		}
		what = "dereference"
		conds = append(conds, T.not(p.isNil(val(x.Call.Value))))
	case *ssa.Panic:
		what = "panic"
		conds = append(conds, T.False)
	default:
		return
	}
	_ = loop
	pos := g.P.instrPos(in)
	fn := funcName(k.fn)
	key := fmt.Sprintf("%s|%s|%s|%s", fn, what, pos, in.String())
	s := res[key]
	if s == nil {
		s = &siteRes{pos: pos, what: what, fn: fn}
		res[key] = s
	}
	if s.bad != "" {
		return
	}
	for _, q := range conds {
		if q == T.True {
			continue
		}
		p.decide(s, l.n, q, what, in)
	}
}

// isNil is the condition under which a value is the constant nil, or the zero
// value of a key that is not in its map.
func (p *panics) isNil(t *Term) *Term {
	T := p.g.T
	switch t.op {
	case ONil:
		return T.True
	case OIte:
		return T.ite(t.args[0], p.isNil(t.args[1]), p.isNil(t.args[2]))
	case OLookup:
		return T.not(T.mk(&Term{op: OLookupOk, args: t.args}))
	case OField:
		return p.isNil(t.args[0])
	}
	return T.False
}

// length is the length of a list or string, with the slices resolved.
func (p *panics) length(x *Term) *Term { return p.lens(p.g.T.len(x)) }

// lens resolves lengths of slices and made lists.
func (p *panics) lens(t *Term) *Term {
	T := p.g.T
	m := map[*Term]*Term{}
	walk(t, func(x *Term) bool {
		if x.op != OLen {
			return true
		}
		switch a := x.args[0]; {
		case a.op == OSlice:
			lo, hi := a.args[1], a.args[2]
			if lo.op == ONone {
				lo = T.Zero
			}
			if hi.op == ONone {
				hi = p.length(a.args[0])
			}
			m[x] = p.lens(T.sub(hi, lo))
		case a.op == OOp && strings.HasPrefix(a.s, "make@"):
			m[x] = p.lens(a.args[0])
		case a.op == OCall && a.s == "strings.ReplaceAll" && a.args[1].isStr() && a.args[2].isStr() && len(a.args[1].s) == len(a.args[2].s):
			m[x] = p.length(a.args[0])
		}
		return true
	})
	if len(m) == 0 {
		return t
	}
	return T.subst(t, m)
}

// facts are what is known about the results of library functions in a term.
func (p *panics) facts(ts ...*Term) []lit {
	T := p.g.T
	var out []lit
	seen := map[*Term]bool{}
	add := func(c *Term) {
		if !c.isBool() {
			out = append(out, lit{c, true})
		}
	}
	for _, t := range ts {
		walk(t, func(x *Term) bool {
			if seen[x] {
				return true
			}
			seen[x] = true
			if x.op == OZero && x.args[0].op != ONum {
				// a number that is not zero is on one side of it
				d := x.args[0]
				add(T.ite(x, T.True, T.ite(T.lt(d, T.Zero, true), T.True, T.lt(T.Zero, d, true))))
			}
			if x.op == OLen && x.args[0].op == OConv {
				if a := x.args[0].args[0]; a.op == OConcat {
					k := 0
					for _, b := range a.args {
						if b.isStr() {
							k += len([]rune(b.s))
						}
					}
					add(T.le(T.numI(int64(k)), x, true))
				}
			}
			if x.op == OLen && x.args[0].op == OCall {
				a := x.args[0]
				switch a.s {
				case "strings.Split", "bytes.Split":
					if len(a.args) == 2 && a.args[1].isStr() && a.args[1].s != "" {
						add(T.le(T.One, x, true))
					}
				case "strings.SplitN", "bytes.SplitN":
					if len(a.args) == 3 && a.args[2].isNum() && a.args[1].isStr() && a.args[1].s != "" && a.args[2].rat().Sign() != 0 {
						add(T.le(T.One, x, true))
						if a.args[2].rat().Sign() > 0 {
							add(T.le(x, a.args[2], true))
						}
					}
				case "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix", "bytes.TrimSpace":
					add(T.le(x, p.length(a.args[0]), true))
				}
			}
			if x.op == OCall {
				switch x.s {
				case "strings.Index", "strings.LastIndex", "bytes.Index", "strings.IndexByte", "strings.IndexRune", "strings.IndexAny", "strings.IndexFunc", "strings.LastIndexByte", "strings.LastIndexAny", "bytes.IndexByte":
					n := p.length(x.args[0])
					w := T.One
					if x.s == "strings.Index" || x.s == "strings.LastIndex" || x.s == "bytes.Index" {
						w = p.length(x.args[1])
					}
					add(T.le(T.numI(-1), x, true))
					add(T.ite(T.lt(x, T.Zero, true), T.True, T.le(T.add(x, w), n, true)))
					if p.notAt0(x) {
						add(T.ite(T.lt(x, T.Zero, true), T.True, T.le(T.One, x, true)))
					}
				}
			}
			return true
		})
	}
	return out
}

// notAt0: a byte is looked for in a string that starts with another one, found
// before.
func (p *panics) notAt0(x *Term) bool {
	if x.s != "strings.IndexByte" || x.args[0].op != OSlice || !x.args[1].isNum() {
		return false
	}
	sl, T := x.args[0], p.g.T
	hit := false
	walk(sl.args[1], func(y *Term) bool {
		if y.op != OCall || y.s != "strings.IndexByte" || !y.args[1].isNum() || y.args[1] == x.args[1] {
			return true
		}
		// x looks in base[lo:], y in base[l:], and lo = l + y
		base, l := y.args[0], T.Zero
		if base.op == OSlice && base.args[2].op == ONone {
			base, l = base.args[0], base.args[1]
		}
		if base == sl.args[0] && sl.args[1] == T.add(l, y) {
			hit = true
		}
		return true
	})
	return hit
}

// implied: facts that follow from conditions on strings.
func (p *panics) strFacts(t *Term) *Term {
	T := p.g.T
	out := T.True
	and := func(c *Term) { out = T.ite(out, c, T.False) }
	seen := map[*Term]bool{}
	walk(t, func(x *Term) bool {
		if seen[x] {
			return true
		}
		seen[x] = true
		if x.op == OCall {
			switch x.s {
			case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "bytes.HasPrefix", "bytes.HasSuffix":
				and(T.ite(x, T.le(p.length(x.args[1]), p.length(x.args[0]), true), T.True))
			}
		}
		if x.op == OEq {
			for i := 0; i < 2; i++ {
				if a, b := x.args[i], x.args[1-i]; a.isStr() && !b.isStr() {
					n := T.eq(p.length(b), T.numI(int64(len(a.s))))
					if a.s == "" {
						and(T.ite(x, T.zero(p.length(b), true), T.lt(T.Zero, p.length(b), true)))
					} else {
						and(T.ite(x, n, T.True))
					}
				}
			}
		}
		return true
	})
	return out
}

func (p *panics) decide(s *siteRes, n *Node, q *Term, what string, in ssa.Instruction) {
	g, T := p.g, p.g.T
	q = p.lens(q)
	r, exact := p.r.at(n)
	r = p.lens(r)
	sf := p.strFacts(T.ite(r, q, T.True))
	fs := p.facts(r, q, sf)
	f := T.True
	var lits []lit
	for _, l := range fs {
		if len(conds(l.c)) > 0 {
			f = T.ite(f, l.c, T.False)
		} else {
			lits = append(lits, l)
		}
	}
	a := T.ite(f, T.ite(sf, T.ite(r, q, T.True), T.True), T.True)
	d, ex := T.diff(a, T.True, lits...)
	if d != nil {
		if inv := p.invariants(q); len(inv) > 0 {
			d, ex = T.diff(a, T.True, append(lits, inv...)...)
		}
	}
	if d == nil && !ex {
		s.ok = true
		return
	}
	und := func(why string) {
		if s.und == "" {
			s.und = fmt.Sprintf("%s in %s (%s)", clip(q.String(), 200), p.root, why)
		}
	}
	if d == nil {
		und("too many cases")
		return
	}
	if !exact {
		und("condition not followed")
		return
	}
	why := p.notFree(n, q, d, what)
	if why != "" {
		// the first rounds of the loops
		for rounds := 0; rounds < 2 && why != ""; rounds++ {
			q2, d2, ok := p.early(n, r, q, rounds)
			if !ok || d2 == nil {
				continue
			}
			if w := p.notFree(n, q2, d2, what); w == "" {
				why, d = "", d2
			} else {
				why += "; round " + fmt.Sprint(rounds) + ": " + w
			}
		}
	}
	if why != "" {
		und(why + ": " + clip(d.String(), 300))
		return
	}
	_ = g
	s.bad = fmt.Sprintf("%s can fail in %s: %s does not hold%s", what, p.root, clip(q.String(), 200), litsText(d))
}

// early looks for a counterexample in the first round of the loops around n,
// with the loops before n done after the given number of rounds.
func (p *panics) early(n *Node, r, q *Term, rounds int) (*Term, *diffCase, bool) {
	g, T := p.g, p.g.T
	budget := 400
	extra := T.True
	memos := map[string]map[*Term]*Term{}
	var inst func(t *Term, env map[*Loop]int, key string) *Term
	round := func(l *Loop, env map[*Loop]int) int {
		if k, ok := env[l]; ok {
			return k
		}
		if l.body[n] {
			return 0
		}
		return rounds
	}
	entered := map[string]bool{}
	// counters of loops that carry nothing that matters may have any value
	carried := map[*Loop]bool{}
	for _, t := range []*Term{r, q} {
		walk(t, func(x *Term) bool {
			if x.op == OLoopVar {
				if _, _, head := g.loopInfo(x); g.loops[head] != nil {
					carried[g.loops[head]] = true
				}
			}
			return true
		})
	}
	inst = func(t *Term, env map[*Loop]int, key string) *Term {
		memo := memos[key]
		if memo == nil {
			memo = map[*Term]*Term{}
			memos[key] = memo
		}
		if x, ok := memo[t]; ok {
			return x
		}
		m := map[*Term]*Term{}
		walk(t, func(x *Term) bool {
			if m[x] != nil || budget < 0 {
				return false
			}
			switch x.op {
			case OIV:
				l, ok := x.data.(*Loop)
				if !ok {
					break
				}
				if _, fixed := env[l]; !fixed && l.body[n] && !carried[l] {
					break
				}
				k := round(l, env)
				m[x] = T.numI(int64(k))
				if ek := fmt.Sprint(key, l.head.id, k); k > 0 && !entered[ek] {
					entered[ek] = true
					extra = T.ite(extra, p.again(l, func(c *Term) *Term { return inst(c, with(env, l, k-1), fmt.Sprint(key, "/", l.head.id, "=", k-1)) }), T.False)
				}
			case OLoopVar:
				budget--
				init, next, head := g.loopInfo(x)
				l := g.loops[head]
				if l == nil || init == nil || next == nil {
					break
				}
				k := round(l, env)
				if k == 0 {
					if init != x {
						m[x] = inst(init, env, key)
					}
					break
				}
				m[x] = inst(next, with(env, l, k-1), fmt.Sprint(key, "/", l.head.id, "=", k-1))
				if ek := fmt.Sprint(key, l.head.id, k); !entered[ek] {
					entered[ek] = true
					extra = T.ite(extra, p.again(l, func(c *Term) *Term { return inst(c, with(env, l, k-1), fmt.Sprint(key, "/", l.head.id, "=", k-1)) }), T.False)
				}
			}
			return true
		})
		res := t
		if len(m) > 0 {
			res = g.norm(T.subst(t, m))
		}
		memo[t] = res
		return res
	}
	env := map[*Loop]int{}
	r2, q2 := inst(r, env, ""), inst(q, env, "")
	if budget < 0 {
		return nil, nil, false
	}
	r2 = T.ite(extra, r2, T.False)
	r2, q2 = p.lens(r2), p.lens(q2)
	a := T.ite(r2, q2, T.True)
	sf := p.strFacts(a)
	var lits []lit
	f := sf
	for _, l := range p.facts(a, sf) {
		if len(conds(l.c)) > 0 {
			f = T.ite(f, l.c, T.False)
		} else {
			lits = append(lits, l)
		}
	}
	d, ex := T.diff(T.ite(f, a, T.True), T.True, lits...)
	return q2, d, !ex
}

// again is the condition for going round the loop once more.
func (p *panics) again(l *Loop, inst func(*Term) *Term) *Term {
	T := p.g.T
	res := T.False
	for _, e := range l.back {
		if !p.g.liveEdge[e] {
			continue
		}
		c, _ := p.r.at(e.from)
		if k := p.g.cond(e); k != nil {
			c = T.ite(c, p.g.norm(k), T.False)
		}
		res = T.ite(c, T.True, res)
	}
	return inst(res)
}

func with(env map[*Loop]int, l *Loop, k int) map[*Loop]int {
	out := map[*Loop]int{}
	for a, b := range env {
		out[a] = b
	}
	out[l] = k
	return out
}

func litsText(d *diffCase) string {
	var ls []string
	for _, l := range d.lits {
		ls = append(ls, clip(l.String(), 120))
	}
	if len(ls) == 0 {
		return ""
	}
	return " if " + strings.Join(ls, " and ")
}

// notFree says why a counterexample may be spurious.
func (p *panics) notFree(n *Node, q *Term, d *diffCase, what string) string {
	for _, l := range d.lits {
		if bad := p.opaque(l.c); bad != nil {
			return "depends on " + clip(bad.String(), 80)
		}
	}
	switch strings.SplitN(what, " ", 2)[0] {
	case "panic":
		return ""
	case "map", "dereference":
		return p.lookupFree(q, d)
	case "assertion":
		x := q
		for x.op == ONot {
			x = x.args[0]
		}
		if x.op == OBool {
			return ""
		}
		if x.op != OTypeIs {
			return "more than a type test"
		}
		if !p.input(x.args[0]) {
			return "not an input"
		}
		for _, l := range d.lits {
			c := l.c
			for c.op == ONot {
				c = c.args[0]
			}
			if c.op != OTypeIs && mentions(c, x.args[0]) {
				return "depends on " + clip(c.String(), 80)
			}
		}
		return ""
	}
	// numbers: constants, one list and counters over it
	base := map[*Term]bool{}
	var why string
	var num func(t *Term)
	num = func(t *Term) {
		if why != "" {
			return
		}
		switch t.op {
		case ONum, OBool:
		case OPoly:
			for _, m := range t.p.ms {
				for _, f := range m.fs {
					if f.e != 1 {
						why = "not linear"
						return
					}
					num(f.t)
				}
			}
		case OPos, OZero, ONot, OIte, OConv:
			for _, a := range t.args {
				num(a)
			}
		case OLen:
			base[t.args[0]] = true
			if !p.input(t.args[0]) {
				why = "length of " + clip(t.args[0].String(), 100)
			}
		case OIV:
		default:
			if t.op == OCall && indexFns[t.s] && p.input(t.args[0]) {
				base[t.args[0]] = true
				return
			}
			if t.op == OLoad && p.input(t) || t.op == OField && p.input(t) {
				return
			}
			why = "value of " + clip(t.String(), 100)
		}
	}
	num(q)
	if why != "" {
		return why
	}
	if len(base) > 1 {
		return "several lists"
	}
	known := func(c *Term) bool {
		for c.op == ONot {
			c = c.args[0]
		}
		switch c.op {
		case OPos, OZero:
			return true
		case OEq:
			return c.args[0].isStr() || c.args[1].isStr()
		case OCall:
			switch c.s {
			case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "bytes.HasPrefix", "bytes.HasSuffix":
				return true
			}
		}
		return false
	}
	for _, l := range d.lits {
		for b := range base {
			if mentions(l.c, b) && !known(l.c) {
				return "depends on " + clip(l.c.String(), 100)
			}
		}
		// counters over other lists
		for b := range base {
			if l.c.op == OPos && contains(q, func(x *Term) bool { return x.op == OIV && mentions(l.c, x) }) && !mentions(l.c, b) {
				if contains(l.c, func(x *Term) bool { return x.op == OLen }) {
					return "counter over another list"
				}
			}
		}
	}
	return ""
}

var indexFns = map[string]bool{"strings.Index": true, "strings.LastIndex": true, "bytes.Index": true, "strings.IndexByte": true, "strings.IndexRune": true, "strings.IndexAny": true,
	"strings.LastIndexByte": true, "strings.LastIndexAny": true, "bytes.IndexByte": true}

// opaque finds a part of a condition that is not understood.
func (p *panics) opaque(t *Term) *Term {
	var bad *Term
	walk(t, func(x *Term) bool {
		if x.op == OAtom && !strings.HasPrefix(x.s, "@") || x.op == OLoopVar || x.op == OClobber || x.op == OBottom {
			bad = x
		}
		return bad == nil
	})
	return bad
}

// lookupFree: a missing key of a map makes the counterexample.
func (p *panics) lookupFree(q *Term, d *diffCase) string {
	var lk *Term
	walk(q, func(x *Term) bool {
		if x.op == OLookupOk {
			lk = x
		}
		return true
	})
	if lk == nil {
		return ""
	}
	if !p.input(lk.args[1]) {
		return "key is not an input"
	}
	for _, e := range p.g.events {
		if e.kind == "mapset" && len(p.g.evArgs(e)) > 1 && p.g.norm(p.g.evArgs(e)[0]) == lk.args[0] && p.g.norm(p.g.evArgs(e)[1]) == lk.args[1] {
			return "the key is set"
		}
	}
	return ""
}

// input: the value is part of the input and can be anything: of the document,
// of a string handed in, or read from outside.
func (p *panics) input(t *Term) bool {
	for {
		switch t.op {
		case OParam:
			typ := t.typ
			if pt, ok := typ.Underlying().(*types.Pointer); ok {
				typ = pt.Elem()
			}
			if n, ok := typ.(*types.Named); ok && n.Obj().Pkg() != nil {
				switch path := n.Obj().Pkg().Path(); {
				case path == modPath+"/xdoc" && n.Obj().Name() != "Registry":
					return true
				case !strings.HasPrefix(path, modPath):
					return true
				}
				return false
			}
			switch typ.Underlying().(type) {
			case *types.Slice, *types.Basic:
				return true
			}
			return false
		case OLoad, OFAddr, OField, OIAddr, OIndex, OProj, OAssert, OConv, OSlice, OLookup:
			if t.op == OFAddr && len(t.args) > 0 {
				// the document of the processor
				if b := t.args[0]; b.op == OParam {
					if n, ok := deref(b.typ).(*types.Named); ok && n.Obj().Name() == "Processor" {
						return p.docField(t)
					}
				}
			}
			t = t.args[0]
		case OInv:
			if strings.Contains(t.s, "reflect.") {
				return false
			}
			return !strings.HasPrefix(t.s, modPath) && !strings.HasPrefix(t.s, "(*"+modPath) && !strings.HasPrefix(t.s, "("+modPath)
		case OCall:
			switch t.s {
			case "strings.Split", "strings.SplitN", "strings.Fields", "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix", "strings.ReplaceAll", "strings.Replace":
				t = t.args[0]
				continue
			}
			return false
		default:
			return false
		}
	}
}

func (p *panics) docField(t *Term) bool {
	st, ok := deref(t.args[0].typ).Underlying().(*types.Struct)
	if !ok || t.i >= st.NumFields() {
		return false
	}
	n, ok := deref(st.Field(t.i).Type()).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/xdoc"
}

// invariants are bounds of loop variables that hold at the head of their loop
// in every round.
func (p *panics) invariants(q *Term) (out []lit) {
	g, T := p.g, p.g.T
	seen := map[*Term]bool{}
	walk(q, func(v *Term) bool {
		if v.op != OLoopVar || seen[v] {
			return true
		}
		seen[v] = true
		init, next, head := g.loopInfo(v)
		if head == nil || init == nil || next == nil {
			return true
		}
		init, next = p.lens(g.norm(init)), p.lens(g.norm(next))
		var back *Term = T.False
		for _, e := range head.preds {
			if g.liveEdge[e] && e.from.rpo >= head.rpo {
				r, _ := p.r.at(e.from)
				if k := g.cond(e); k != nil {
					r = T.ite(r, g.norm(k), T.False)
				}
				back = T.ite(back, T.True, r)
			}
		}
		start, _ := p.r.at(head)
		back, start = p.lens(back), p.lens(start)
		try := func(h func(x *Term) *Term) {
			if !p.holds(T.ite(start, h(init), T.True)) {
				return
			}
			var known []lit
			known = append(known, out...)
			known = append(known, lit{h(v), true})
			if p.holds(T.ite(back, h(next), T.True), known...) {
				out = append(out, lit{h(v), true})
			}
		}
		try(func(x *Term) *Term { return T.not(T.lt(x, T.Zero, true)) })
		if q.op == OPos || q.op == ONot && q.args[0].op == OPos {
			e := q.args[0]
			if q.op == ONot {
				e = T.neg(q.args[0].args[0])
			}
			// v is bounded by what the condition compares it with
			b := T.add(e, v)
			if !contains(b, func(x *Term) bool { return x.op == OLoopVar || x.op == OIV || p.inside(x, head) }) {
				try(func(x *Term) *Term { return T.subst(q, map[*Term]*Term{v: x}) })
			}
		}
		return true
	})
	return out
}

// inside: the term is the result of a call in the loop.
func (p *panics) inside(x *Term, head *Node) bool {
	if x.op != OInv {
		return false
	}
	for _, e := range p.g.events {
		if e.kind == "call" && p.g.evResult(e) == x {
			l := p.g.loops[head]
			return l != nil && l.body[e.n]
		}
	}
	return true
}

// holds: a condition is true whenever it matters.
func (p *panics) holds(a *Term, known ...lit) bool {
	T := p.g.T
	if a == T.True {
		return true
	}
	a = p.lens(a)
	sf := p.strFacts(a)
	lits := append([]lit{}, known...)
	f := sf
	for _, l := range p.facts(append([]*Term{a, sf}, litTerms(known)...)...) {
		if len(conds(l.c)) > 0 {
			f = T.ite(f, l.c, T.False)
		} else {
			lits = append(lits, l)
		}
	}
	d, ex := T.diff(T.ite(f, a, T.True), T.True, lits...)
	return d == nil && !ex
}
