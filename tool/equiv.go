package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Equality of gated values by case analysis. Two terms are equal if they are
// the same in every consistent valuation of the conditions they contain;
// consistency of the linear conditions is decided by Fourier-Motzkin
// elimination, with products taken as variables of their own.

type lit struct {
	c *Term
	v bool
}

func (l lit) String() string {
	if l.v {
		return l.c.String()
	}
	return "!(" + l.c.String() + ")"
}

// ineq is sum(cs) + k > 0 (strict) or >= 0.
type ineq struct {
	cs     map[string]*big.Rat
	k      *big.Rat
	strict bool
}

func (T *Terms) monoVar(m mono) string { return m.key() }

func polyIneq(p *poly, neg, strict bool) ineq {
	q := ineq{cs: map[string]*big.Rat{}, k: new(big.Rat).Set(p.c), strict: strict}
	if neg {
		q.k.Neg(q.k)
	}
	for _, m := range p.ms {
		c := new(big.Rat).Set(m.c)
		if neg {
			c.Neg(c)
		}
		q.cs[m.key()] = c
	}
	return q
}

func (T *Terms) litIneqs(l lit) []ineq {
	c, v := l.c, l.v
	for c.op == ONot {
		c, v = c.args[0], !v
	}
	switch c.op {
	case OPos:
		p := T.toPoly(c.args[0])
		if v {
			q := polyIneq(p, false, true)
			if c.i == 1 { // integers: p > 0 <=> p-1 >= 0
				q.k.Sub(q.k, big.NewRat(1, 1))
				q.strict = false
			}
			return []ineq{q}
		}
		return []ineq{polyIneq(p, true, false)}
	case OZero:
		if v {
			p := T.toPoly(c.args[0])
			return []ineq{polyIneq(p, false, false), polyIneq(p, true, false)}
		}
	case OEq:
		if v {
			a, b := c.args[0], c.args[1]
			num := func(t *Term) bool {
				return t.op == ONum || t.op == OPoly || t.op == OLen || t.op == OIV
			}
			if num(a) || num(b) {
				p := T.toPoly(T.sub(a, b))
				return []ineq{polyIneq(p, false, false), polyIneq(p, true, false)}
			}
		}
	}
	return nil
}

// infeasible: the inequalities have no solution.
func infeasible(qs []ineq) bool {
	for round := 0; round < 40; round++ {
		// constants
		rest := qs[:0:0]
		count := map[string]int{}
		for _, q := range qs {
			if len(q.cs) == 0 {
				s := q.k.Sign()
				if s < 0 || s == 0 && q.strict {
					return true
				}
				continue
			}
			rest = append(rest, q)
			for v := range q.cs {
				count[v]++
			}
		}
		qs = rest
		if len(qs) == 0 {
			return false
		}
		// the variable with the fewest products
		best, bestN := "", -1
		vars := make([]string, 0, len(count))
		for v := range count {
			vars = append(vars, v)
		}
		sort.Strings(vars)
		for _, v := range vars {
			p, n := 0, 0
			for _, q := range qs {
				if c := q.cs[v]; c != nil {
					if c.Sign() > 0 {
						p++
					} else {
						n++
					}
				}
			}
			if k := p * n; bestN < 0 || k < bestN {
				best, bestN = v, k
			}
		}
		if bestN > 600 {
			return false
		}
		var pos, neg, out []ineq
		for _, q := range qs {
			c := q.cs[best]
			switch {
			case c == nil:
				out = append(out, q)
			case c.Sign() > 0:
				pos = append(pos, q)
			default:
				neg = append(neg, q)
			}
		}
		for _, a := range pos {
			for _, b := range neg {
				ca, cb := a.cs[best], new(big.Rat).Neg(b.cs[best])
				r := ineq{cs: map[string]*big.Rat{}, strict: a.strict || b.strict}
				r.k = new(big.Rat).Add(new(big.Rat).Mul(a.k, cb), new(big.Rat).Mul(b.k, ca))
				for v, x := range a.cs {
					if v != best {
						r.cs[v] = new(big.Rat).Mul(x, cb)
					}
				}
				for v, x := range b.cs {
					if v == best {
						continue
					}
					y := new(big.Rat).Mul(x, ca)
					if o := r.cs[v]; o != nil {
						y.Add(y, o)
					}
					if y.Sign() == 0 {
						delete(r.cs, v)
					} else {
						r.cs[v] = y
					}
				}
				out = append(out, r)
			}
		}
		qs = out
		if len(qs) > 1500 {
			return false
		}
	}
	return false
}

func (T *Terms) nonNegFacts(ts []*Term) []ineq {
	seen := map[*Term]bool{}
	var out []ineq
	for _, t := range ts {
		walk(t, func(x *Term) bool {
			if !seen[x] && (x.op == OLen || x.op == OCap || x.op == OIV) {
				seen[x] = true
				out = append(out, polyIneq(T.toPoly(x), false, false))
			}
			return true
		})
	}
	return out
}

// positive: the literals say t > 0.
func (T *Terms) positive(t *Term, lits []lit) bool {
	q := T.pos(t, false)
	if q.isBool() {
		return q.i == 1
	}
	for _, l := range lits {
		if r, ok := implied(T, q, l.c, l.v); ok && r {
			return true
		}
	}
	return false
}

// clearLit multiplies a comparison with its denominators, if they are
// positive according to the literals.
func (T *Terms) clearLit(l lit, lits []lit) lit {
	c, v := l.c, l.v
	for c.op == ONot {
		c, v = c.args[0], !v
	}
	if c.op != OPos && c.op != OZero || c.args[0].op != OPoly {
		return lit{c, v}
	}
	d := c.args[0]
	for n := 0; n < 10; n++ {
		if d.op != OPoly {
			break
		}
		var den *Term
		for _, m := range d.p.ms {
			for _, f := range m.fs {
				if f.e < 0 {
					den = f.t
				}
			}
		}
		if den == nil {
			break
		}
		if !T.positive(den, lits) {
			return lit{c, v}
		}
		d = T.timesDen(d, den)
	}
	// common positive factors
	for n := 0; n < 10 && d.op == OPoly && d.p.c.Sign() == 0; n++ {
		var com *Term
		for _, f := range d.p.ms[0].fs {
			if f.e <= 0 || !T.positive(f.t, lits) {
				continue
			}
			all := true
			for _, m := range d.p.ms[1:] {
				has := false
				for _, f2 := range m.fs {
					if f2.t == f.t && f2.e > 0 {
						has = true
					}
				}
				all = all && has
			}
			if all {
				com = f.t
			}
		}
		if com == nil || len(d.p.ms) == 1 {
			break
		}
		d = T.div(d, com)
	}
	if c.op == OPos {
		return lit{T.pos(d, c.i == 1), v}
	}
	return lit{T.zero(d, false), v}
}

func (T *Terms) contradictory(lits []lit) bool {
	hasDen := false
	for _, l := range lits {
		if contains(l.c, func(x *Term) bool {
			if x.op == OPoly {
				for _, m := range x.p.ms {
					for _, f := range m.fs {
						if f.e < 0 {
							return true
						}
					}
				}
			}
			return false
		}) {
			hasDen = true
		}
	}
	if hasDen {
		ls := make([]lit, len(lits))
		for i, l := range lits {
			ls[i] = T.clearLit(l, lits)
			if ls[i].c.isBool() && (ls[i].c.i == 1) != ls[i].v {
				return true
			}
		}
		lits = ls
	}
	for i, a := range lits {
		for _, b := range lits[:i] {
			if r, ok := implied(T, a.c, b.c, b.v); ok && r != a.v {
				return true
			}
		}
	}
	var qs []ineq
	var ts []*Term
	for _, l := range lits {
		qs = append(qs, T.litIneqs(l)...)
		ts = append(ts, l.c)
	}
	qs = append(qs, T.nonNegFacts(ts)...)
	if infeasible(qs) {
		return true
	}
	if ps := T.litProducts(lits); len(ps) > 0 {
		return infeasible(append(append([]ineq{}, qs...), ps...))
	}
	return false
}

// litProducts multiplies pairs of comparisons, if there are non-linear ones.
func (T *Terms) litProducts(lits []lit) []ineq {
	type side struct {
		t      *Term
		strict bool
	}
	var ss []side
	nonlin := false
	for _, l := range lits {
		c, v := l.c, l.v
		for c.op == ONot {
			c, v = c.args[0], !v
		}
		if c.op != OPos || c.i == 1 {
			continue
		}
		p := T.toPoly(c.args[0])
		for _, m := range p.ms {
			deg := 0
			for _, f := range m.fs {
				if f.e < 0 {
					return nil
				}
				deg += f.e
			}
			if deg > 1 {
				nonlin = true
			}
		}
		if v {
			ss = append(ss, side{c.args[0], true})
		} else {
			ss = append(ss, side{T.scale(c.args[0], big.NewRat(-1, 1)), false})
		}
	}
	if !nonlin || len(ss) > 10 {
		return nil
	}
	var out []ineq
	for i, a := range ss {
		for _, b := range ss[:i] {
			t := T.mul(a.t, b.t)
			if t.op == OPoly && len(t.p.ms) > 12 {
				continue
			}
			out = append(out, polyIneq(T.toPoly(t), false, a.strict && b.strict))
		}
	}
	return out
}

// decideUnder: value of condition q given the literals.
func (T *Terms) decideUnder(lits []lit, q *Term) (val, ok bool) {
	if q.isBool() {
		return q.i == 1, true
	}
	return T.decideCases(T.conjuncts(lits), q, 6)
}

// conjuncts splits facts that are conjunctions, or denied disjunctions.
func (T *Terms) conjuncts(lits []lit) []lit {
	split := false
	for _, l := range lits {
		split = split || l.c.op == OIte || l.c.op == ONot
	}
	if !split {
		return lits
	}
	var res []lit
	var add func(l lit, depth int)
	add = func(l lit, depth int) {
		if l.c.op == ONot {
			add(lit{l.c.args[0], !l.v}, depth)
			return
		}
		if l.c.op == OIte && depth > 0 {
			k, a, b := l.c.args[0], l.c.args[1], l.c.args[2]
			switch {
			case b.isBool() && (b.i == 1) != l.v:
				add(lit{k, true}, depth-1)
				add(lit{a, l.v}, depth-1)
				return
			case a.isBool() && (a.i == 1) != l.v:
				add(lit{k, false}, depth-1)
				add(lit{b, l.v}, depth-1)
				return
			}
		}
		res = append(res, l)
	}
	for _, l := range lits {
		add(l, 8)
	}
	return res
}

func (T *Terms) decideCases(lits []lit, q *Term, depth int) (val, ok bool) {
	if q.isBool() {
		return q.i == 1, true
	}
	if v, ok := T.decideAtom(lits, q); ok || depth == 0 {
		return v, ok
	}
	switch q.op {
	case ONot:
		v, ok := T.decideCases(lits, q.args[0], depth-1)
		return !v, ok
	case OIte:
		if v, ok := T.decideCases(lits, q.args[0], depth-1); ok {
			if v {
				return T.decideCases(lits, q.args[1], depth-1)
			}
			return T.decideCases(lits, q.args[2], depth-1)
		}
		a, ok := T.decideCases(append(lits[:len(lits):len(lits)], lit{q.args[0], true}), q.args[1], depth-1)
		if !ok {
			return false, false
		}
		b, ok := T.decideCases(append(lits[:len(lits):len(lits)], lit{q.args[0], false}), q.args[2], depth-1)
		return a, ok && a == b
	}
	return false, false
}

func (T *Terms) decideAtom(lits []lit, q *Term) (val, ok bool) {
	for _, l := range lits {
		if r, ok := implied(T, q, l.c, l.v); ok {
			return r, true
		}
	}
	if T.contradictory(append(append([]lit{}, lits...), lit{q, true})) {
		return false, true
	}
	if T.contradictory(append(append([]lit{}, lits...), lit{q, false})) {
		return true, true
	}
	return false, false
}

type diffCase struct {
	lits []lit
	a, b *Term
}

func (d *diffCase) String() string {
	if d == nil {
		return "equal"
	}
	var ls []string
	for _, l := range d.lits {
		ls = append(ls, clip(l.String(), 160))
	}
	w := ""
	if len(ls) > 0 {
		w = " if " + strings.Join(ls, " and ")
	}
	return fmt.Sprintf("%s instead of %s%s", clip(d.a.String(), 400), clip(d.b.String(), 400), w)
}

// diff looks for a case in which a and b differ; exhausted is set if the case
// analysis was given up.
func (T *Terms) diff(a, b *Term, facts ...lit) (found *diffCase, exhausted bool) {
	budget := 6000
	lits := append([]lit{}, T.conjuncts(facts)...)
	nf := len(lits)
	var rec func(a, b *Term)
	rec = func(a, b *Term) {
		if found != nil || exhausted || a == b {
			return
		}
		budget--
		if budget <= 0 {
			exhausted = true
			return
		}
		cs := conds(a, b)
		isB := func(t *Term) bool {
			switch t.op {
			case OPos, OZero, OEq, ONot, OTypeIs, OLookupOk, OFnIs:
				return true
			}
			return false
		}
		if isB(a) {
			x := a
			if x.op == ONot {
				x = x.args[0]
			}
			cs = append(cs, x)
		}
		if isB(b) {
			x := b
			if x.op == ONot {
				x = x.args[0]
			}
			cs = append(cs, x)
		}
		// innermost conditions first: those without conditions of their own
		var c *Term
		for _, x := range cs {
			if len(conds(x)) == 0 {
				c = x
				break
			}
		}
		if c == nil {
			if !T.sameUnder(a, b, lits) {
				found = &diffCase{append([]lit{}, lits[nf:]...), a, b}
			}
			return
		}
		set := func(v bool) {
			m := map[*Term]*Term{c: T.boolC(v)}
			if c.op == ONot {
				m[c.args[0]] = T.boolC(!v)
			}
			lits = append(lits, lit{c, v})
			rec(T.subst(a, m), T.subst(b, m))
			lits = lits[:len(lits)-1]
		}
		if v, ok := T.decideUnder(lits, c); ok {
			m := map[*Term]*Term{c: T.boolC(v)}
			rec(T.subst(a, m), T.subst(b, m))
			return
		}
		set(true)
		set(false)
	}
	rec(a, b)
	return
}

// sameUnder: a and b are equal given the literals (no conditions inside).
func (T *Terms) sameUnder(a, b *Term, lits []lit) bool {
	if a == b {
		return true
	}
	// equalities that hold under the literals
	m := map[*Term]*Term{}
	var qs []ineq
	var ts []*Term
	for _, l := range lits {
		qs = append(qs, T.litIneqs(l)...)
		ts = append(ts, l.c)
	}
	ts = append(ts, a, b)
	qs = append(qs, T.nonNegFacts(ts)...)
	for _, l := range lits {
		c := l.c
		for c.op == ONot {
			c = c.args[0]
		}
		if c.op == OEq {
			v := l.v
			if l.c.op == ONot {
				v = !v
			}
			if v {
				m[c.args[0]] = c.args[1]
			}
			continue
		}
		if c.op != OPos && c.op != OZero {
			continue
		}
		p := T.toPoly(c.args[0])
		// p == 0 under the literals?
		gt := append(append([]ineq{}, qs...), polyIneq(p, false, true))
		lt := append(append([]ineq{}, qs...), polyIneq(p, true, true))
		if !infeasible(gt) || !infeasible(lt) {
			continue
		}
		for i, mo := range p.ms {
			if len(mo.fs) != 1 || mo.fs[0].e != 1 {
				continue
			}
			x := mo.fs[0].t
			other := T.sub(c.args[0], T.scale(x, mo.c))
			_ = i
			if mentions(other, x) {
				continue
			}
			m[x] = T.scale(other, new(big.Rat).Neg(new(big.Rat).Inv(mo.c)))
			break
		}
	}
	if len(m) > 0 {
		a, b = T.subst(a, m), T.subst(b, m)
		if a == b {
			return true
		}
	}
	if a.op != b.op && a.op != OPoly && b.op != OPoly && a.op != ONum && b.op != ONum {
		return false
	}
	isNum := func(t *Term) bool { return t.op == OPoly || t.op == ONum }
	if !isNum(a) && !isNum(b) {
		if a.op == b.op && len(a.args) == len(b.args) && len(a.args) > 0 && a.i == b.i && a.s == b.s && typeKey(a.typ) == typeKey(b.typ) {
			for i := range a.args {
				if !T.sameUnder(a.args[i], b.args[i], lits) {
					return false
				}
			}
			return true
		}
		return false
	}
	d := T.clear(T.sub(a, b))
	if d.isNum() {
		return d.rat().Sign() == 0
	}
	p := T.toPoly(d)
	tiny := true
	for _, m := range polyMonos(p) {
		if f, _ := m.c.Float64(); f > 1e-10 || f < -1e-10 {
			tiny = false
		}
	}
	if tiny {
		return true
	}
	if infeasible(append(append([]ineq{}, qs...), polyIneq(p, false, true))) && infeasible(append(append([]ineq{}, qs...), polyIneq(p, true, true))) {
		return true
	}
	return false
}

// clear multiplies a rational expression with its denominators.
func (T *Terms) clear(d *Term) *Term {
	for n := 0; n < 20; n++ {
		if d.op != OPoly {
			return d
		}
		var den *Term
		for _, m := range d.p.ms {
			for _, f := range m.fs {
				if f.e < 0 {
					den = f.t
				}
			}
		}
		if den == nil {
			return d
		}
		d = T.timesDen(d, den)
	}
	return d
}

// timesDen multiplies every monomial with a denominator, expanding sums.
func (T *Terms) timesDen(d, den *Term) *Term {
	sum := T.Zero
	for _, m := range polyMonos(d.p) {
		prod := T.num(m.c)
		hit := false
		for _, f := range m.fs {
			e := f.e
			if f.t == den && !hit {
				hit = true
				e++
			}
			if e == 0 {
				continue
			}
			if f.t.op == OPoly && e > 0 {
				for k := 0; k < e; k++ {
					prod = T.mul(prod, f.t)
				}
				continue
			}
			prod = T.mul(prod, T.fromPoly(&poly{ms: []mono{{fs: []factor{{f.t, e}}, c: big.NewRat(1, 1)}}, c: new(big.Rat)}))
		}
		if !hit {
			prod = T.mul(prod, den)
		}
		sum = T.add(sum, prod)
	}
	return sum
}

// same decides one obligation: the value got equals want in every case.
func (c *Ck) same(rule, construct string, g *Graph, pos string, what string, got, want *Term, facts ...lit) bool {
	if got, want = g.simp(got), g.simp(want); got == want {
		c.ok(rule, construct)
		return true
	}
	d, ex := g.T.diff(got, want, facts...)
	switch {
	case d == nil && !ex:
		c.ok(rule, construct)
		return true
	case d != nil && !ex && (!understood(d.a) || !understood(d.b)):
		// values that occur on both sides as quantities of their own
		if d2, free := g.shared(got, want, facts); d2 != nil && free {
			c.fail(rule, construct, pos, "%s is %s", what, d2)
			return false
		}
		c.und(rule, construct, "%s: %s", what, d.String())
		return false
	case d == nil || !understood(d.a):
		m := "too many cases"
		if d != nil {
			m = d.String()
		}
		c.und(rule, construct, "%s: %s", what, m)
		return false
	}
	c.fail(rule, construct, pos, "%s is %s", what, d)
	return false
}

// shared compares two values after naming what both of them are computed from:
// elements and styles reached through loops, and values carried by loops. The
// difference counts only if it does not depend on the latter.
func (g *Graph) shared(got, want *Term, facts []lit) (*diffCase, bool) {
	T := g.T
	loopy := func(t *Term) bool {
		return contains(t, func(x *Term) bool {
			return x.op == OLoopVar || x.op == OClobber || x.op == OBottom || x.op == OAtom && !strings.HasPrefix(x.s, "@")
		})
	}
	collect := func(t *Term) (bases, vals map[*Term]bool) {
		bases, vals = map[*Term]bool{}, map[*Term]bool{}
		walk(t, func(x *Term) bool {
			switch x.op {
			case OLoad:
				b, ns := baseOfField(x)
				if len(ns) > 0 && loopy(b) {
					bases[b] = true
					return false
				}
			case OField:
				b, ns := baseOfField(x)
				if len(ns) > 0 && loopy(b) && asStyle(b) != nil {
					bases[b] = true
					return false
				}
			case OLoopVar:
				vals[x] = true
				return false
			}
			return true
		})
		return
	}
	b1, v1 := collect(got)
	b2, v2 := collect(want)
	m := map[*Term]*Term{}
	k := 0
	add := func(x, y map[*Term]bool, name string) {
		var ts []*Term
		both := 0
		for t := range x {
			if y[t] {
				both++
				ts = append(ts, t)
			}
		}
		if name == "element" && (both == len(x) || both == len(y)) {
			// one side uses no element of its own: different names of the
			// same element are excluded
			ts = nil
			for t := range x {
				ts = append(ts, t)
			}
			for t := range y {
				if !x[t] {
					ts = append(ts, t)
				}
			}
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
		for _, t := range ts {
			k++
			m[t] = T.atom(fmt.Sprintf("@%s %d", name, k))
		}
	}
	add(b1, b2, "element")
	add(v1, v2, "value")
	if len(m) == 0 {
		return nil, false
	}
	fs := make([]lit, len(facts))
	for i, f := range facts {
		fs[i] = lit{T.subst(f.c, m), f.v}
	}
	d, ex := T.diff(T.subst(got, m), T.subst(want, m), fs...)
	if d == nil || ex || !understood(d.a) || !understood(d.b) {
		return nil, false
	}
	for _, l := range d.lits {
		free := true
		walk(l.c, func(x *Term) bool {
			if x.op == OAtom && strings.HasPrefix(x.s, "@value") {
				free = false
			}
			if x.op == OLoad || x.op == OField {
				b, ns := baseOfField(x)
				if b.op == OAtom && strings.HasPrefix(b.s, "@element") {
					ok := false
					for _, n := range ns {
						if n == "Styles" || n == "Dimension" || n == "Box" || n == "Align" || n == "Table" || n == "Draw" || n == "Color" || n == "Font" {
							ok = true
						}
					}
					free = free && ok
					return false
				}
			}
			return true
		})
		if !free || !understood(l.c) {
			return nil, false
		}
	}
	return d, true
}

func ratOf(a, b int64) *big.Rat { return big.NewRat(a, b) }
