package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// A Term is a hash-consed value-flow expression: two program values with the
// same term are the same value (global value numbering). Terms abstract from
// how a value is spelled - temporaries, helpers, parameter passing, the order
// of operands, loop form - and keep what it is computed from.
type Op uint8

const (
	OInvalid   Op = iota
	ONum          // numeric constant; s = rational
	OStr          // string constant; s = value
	OBool         // i = 0/1
	ONil          // nil
	OZeroStr      // zero value of a struct or array type
	OParam        // entry parameter; s = name, i = index
	OAtom         // opaque value; s = description, i = unique id
	OCall         // pure call; s = callee, args = arguments
	OInv          // opaque call event result; i = event id, s = callee
	OProj         // i-th result of a call
	OField        // field i of struct value
	OFAddr        // address of field i
	OIAddr        // address of element
	OIndex        // element of a value (array, string, literal)
	OLookup       // map value
	OLookupOk     // map presence
	OAlloc        // address of a variable / heap object
	OGlobal       // address of package variable
	OLoad         // initial contents of an opaque address
	OFn           // function value; args = bindings
	OPoly         // polynomial over atoms
	OPos          // args[0] > 0
	OZero         // args[0] == 0
	OEq           // args[0] == args[1]
	ONot          // boolean negation
	OIte          // args[0] ? args[1] : args[2]
	OLen          // length
	OCap          // capacity
	OSlice        // x[lo:hi]; absent bounds are ONone
	ONone         // absent
	OSeq          // sequence; s = one char per arg: e element, s spread
	OConcat       // string concatenation
	OTypeIs       // dynamic type test
	OAssert       // asserted value
	OIface        // value boxed into an interface
	OStruct       // struct value with given field values
	OIV           // iteration counter of a loop: 0,1,2,...
	OLoopVar      // loop-carried value at a loop header
	OConv         // value conversion that is not an identity
	OOp           // other operator; s = operator
	ORangeNext    // step of a map/string range
	OClobber      // contents written by an opaque call
	OFnIs         // function value test
	OBottom       // unreachable
)

type Term struct {
	id   int
	op   Op
	args []*Term
	s    string
	i    int
	typ  types.Type
	p    *poly
	data any
	lv   bool // mentions a loop variable
	h    uint8
}

type factor struct {
	t *Term
	e int
}

type mono struct {
	fs []factor
	c  *big.Rat
}

type poly struct {
	ms []mono // sorted by key, non constant
	c  *big.Rat
}

// Terms is the hash-consing table with all smart constructors.
type Terms struct {
	tab                         map[string]*Term
	all                         []*Term
	True, False, Nil, None, Bot *Term
	Zero, One, Minus1, EmptyS   *Term
	nextID                      int
	loadAs                      map[*Term]*Term
}

func newTerms() *Terms {
	T := &Terms{tab: map[string]*Term{}}
	T.True = T.boolC(true)
	T.False = T.boolC(false)
	T.Nil = T.mk(&Term{op: ONil})
	T.None = T.mk(&Term{op: ONone})
	T.Bot = T.mk(&Term{op: OBottom})
	T.Zero = T.numI(0)
	T.One = T.numI(1)
	T.Minus1 = T.numI(-1)
	T.EmptyS = T.str("")
	return T
}

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func (T *Terms) mk(t *Term) *Term {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(t.op)))
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(t.i))
	b.WriteByte('|')
	switch t.op {
	case OTypeIs, OAssert, OIface, OConv, OZeroStr, OStruct:
		b.WriteString(typeKey(t.typ))
	}
	b.WriteByte('|')
	for _, a := range t.args {
		b.WriteString(strconv.Itoa(a.id))
		b.WriteByte(',')
	}
	if t.p != nil {
		b.WriteString(t.p.key())
	}
	b.WriteByte('|')
	b.WriteString(t.s)
	k := b.String()
	if o, ok := T.tab[k]; ok {
		return o
	}
	t.id = len(T.all) + 1
	if t.op == OLoopVar {
		t.lv = true
	}
	for _, a := range t.args {
		if a.lv {
			t.lv = true
		}
	}
	if t.p != nil {
		for _, m := range t.p.ms {
			for _, f := range m.fs {
				if f.t.lv {
					t.lv = true
				}
			}
		}
	}
	T.tab[k] = t
	T.all = append(T.all, t)
	return t
}

func (p *poly) key() string {
	var b strings.Builder
	for _, m := range p.ms {
		b.WriteString(m.c.RatString())
		b.WriteByte('*')
		b.WriteString(m.key())
		b.WriteByte('+')
	}
	b.WriteString(p.c.RatString())
	return b.String()
}

func (m mono) key() string {
	var b strings.Builder
	for _, f := range m.fs {
		b.WriteString(strconv.Itoa(f.t.id))
		b.WriteByte('^')
		b.WriteString(strconv.Itoa(f.e))
		b.WriteByte('.')
	}
	return b.String()
}

func (T *Terms) boolC(v bool) *Term {
	i := 0
	if v {
		i = 1
	}
	return T.mk(&Term{op: OBool, i: i})
}
func (T *Terms) str(s string) *Term { return T.mk(&Term{op: OStr, s: s}) }
func (T *Terms) numI(n int64) *Term { return T.num(big.NewRat(n, 1)) }
func (T *Terms) num(r *big.Rat) *Term {
	return T.mk(&Term{op: ONum, s: r.RatString(), data: new(big.Rat).Set(r)})
}
func (t *Term) rat() *big.Rat { return t.data.(*big.Rat) }
func (t *Term) isNum() bool   { return t.op == ONum }
func (t *Term) isBool() bool  { return t.op == OBool }
func (t *Term) isStr() bool   { return t.op == OStr }
func (t *Term) isConst() bool { return t.op == ONum || t.op == OBool || t.op == OStr || t.op == ONil }

// atom makes a fresh opaque value, unique per key.
func (T *Terms) atom(key string) *Term { return T.mk(&Term{op: OAtom, s: key}) }

func (T *Terms) op(name string, args ...*Term) *Term {
	return T.mk(&Term{op: OOp, s: name, args: args})
}

func (T *Terms) call(name string, args ...*Term) *Term {
	return T.mk(&Term{op: OCall, s: name, args: args})
}

// ---- arithmetic

func (T *Terms) toPoly(t *Term) *poly {
	switch t.op {
	case ONum:
		return &poly{c: t.rat()}
	case OPoly:
		return t.p
	}
	return &poly{ms: []mono{{fs: []factor{{t, 1}}, c: big.NewRat(1, 1)}}, c: new(big.Rat)}
}

func (T *Terms) fromPoly(p *poly) *Term {
	if len(p.ms) == 0 {
		return T.num(p.c)
	}
	if len(p.ms) == 1 && p.c.Sign() == 0 {
		m := p.ms[0]
		if len(m.fs) == 1 && m.fs[0].e == 1 && m.c.Cmp(big.NewRat(1, 1)) == 0 {
			return m.fs[0].t
		}
	}
	return T.mk(&Term{op: OPoly, p: p})
}

func normPoly(ms []mono, c *big.Rat) *poly {
	byKey := map[string]*mono{}
	keys := []string{}
	for _, m := range ms {
		k := m.key()
		if o, ok := byKey[k]; ok {
			o.c = new(big.Rat).Add(o.c, m.c)
		} else {
			mm := mono{fs: m.fs, c: new(big.Rat).Set(m.c)}
			byKey[k] = &mm
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	p := &poly{c: new(big.Rat).Set(c)}
	for _, k := range keys {
		m := byKey[k]
		if m.c.Sign() == 0 {
			continue
		}
		if len(m.fs) == 0 {
			p.c.Add(p.c, m.c)
			continue
		}
		p.ms = append(p.ms, *m)
	}
	return p
}

func (T *Terms) add(a, b *Term) *Term {
	pa, pb := T.toPoly(a), T.toPoly(b)
	ms := append(append([]mono{}, pa.ms...), pb.ms...)
	return T.fromPoly(normPoly(ms, new(big.Rat).Add(pa.c, pb.c)))
}

func (T *Terms) scale(a *Term, r *big.Rat) *Term {
	pa := T.toPoly(a)
	ms := []mono{}
	for _, m := range pa.ms {
		ms = append(ms, mono{fs: m.fs, c: new(big.Rat).Mul(m.c, r)})
	}
	return T.fromPoly(normPoly(ms, new(big.Rat).Mul(pa.c, r)))
}

func (T *Terms) neg(a *Term) *Term    { return T.scale(a, big.NewRat(-1, 1)) }
func (T *Terms) sub(a, b *Term) *Term { return T.add(a, T.neg(b)) }

func mulMono(a, b mono) mono {
	es := map[*Term]int{}
	for _, f := range a.fs {
		es[f.t] += f.e
	}
	for _, f := range b.fs {
		es[f.t] += f.e
	}
	fs := []factor{}
	for t, e := range es {
		if e != 0 {
			fs = append(fs, factor{t, e})
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].t.id < fs[j].t.id })
	return mono{fs: fs, c: new(big.Rat).Mul(a.c, b.c)}
}

func polyMonos(p *poly) []mono {
	ms := append([]mono{}, p.ms...)
	if p.c.Sign() != 0 {
		ms = append(ms, mono{c: p.c})
	}
	return ms
}

func (T *Terms) mul(a, b *Term) *Term {
	pa, pb := T.toPoly(a), T.toPoly(b)
	ms := []mono{}
	for _, x := range polyMonos(pa) {
		for _, y := range polyMonos(pb) {
			ms = append(ms, mulMono(x, y))
		}
	}
	return T.fromPoly(normPoly(ms, new(big.Rat)))
}

// div is real division; integer division is left opaque by the caller.
func (T *Terms) div(a, b *Term) *Term {
	if b.isNum() {
		if b.rat().Sign() == 0 {
			return T.op("/", a, b)
		}
		return T.scale(a, new(big.Rat).Inv(b.rat()))
	}
	pb := T.toPoly(b)
	if len(pb.ms) == 1 && pb.c.Sign() == 0 {
		m := pb.ms[0]
		inv := mono{c: new(big.Rat).Inv(m.c)}
		for _, f := range m.fs {
			inv.fs = append(inv.fs, factor{f.t, -f.e})
		}
		pa := T.toPoly(a)
		ms := []mono{}
		for _, x := range polyMonos(pa) {
			ms = append(ms, mulMono(x, inv))
		}
		return T.fromPoly(normPoly(ms, new(big.Rat)))
	}
	// normalise the scale of the divisor so that x/(2y+2) = (x/2)/(y+1)
	lead := pb.ms[0].c
	nb := T.scale(b, new(big.Rat).Inv(lead))
	inv := mono{c: new(big.Rat).Inv(lead), fs: []factor{{nb, -1}}}
	pa := T.toPoly(a)
	ms := []mono{}
	for _, x := range polyMonos(pa) {
		ms = append(ms, mulMono(x, inv))
	}
	return T.fromPoly(normPoly(ms, new(big.Rat)))
}

// constDiff returns a-b if that is a constant.
func (T *Terms) constDiff(a, b *Term) (*big.Rat, bool) {
	d := T.sub(a, b)
	if d.isNum() {
		return d.rat(), true
	}
	return nil, false
}

// ---- booleans

func (T *Terms) not(a *Term) *Term {
	switch a.op {
	case OBool:
		return T.boolC(a.i == 0)
	case ONot:
		return a.args[0]
	case OIte:
		return T.ite(a.args[0], T.not(a.args[1]), T.not(a.args[2]))
	case OBottom:
		return a
	}
	return T.mk(&Term{op: ONot, args: []*Term{a}})
}

// nonNeg: values that cannot be negative by construction.
func nonNeg(t *Term) bool {
	switch t.op {
	case OLen, OCap, OIV:
		return true
	case ONum:
		return t.rat().Sign() >= 0
	}
	return false
}

// pos is "t > 0"; for integers the form is normalised so that a < b,
// !(b <= a), a+1 <= b, ... are one term.
func (T *Terms) pos(t *Term, isInt bool) *Term {
	if t.op == OBottom {
		return t
	}
	if t.isNum() {
		return T.boolC(t.rat().Sign() > 0)
	}
	if t.op == OIte {
		return T.ite(t.args[0], T.pos(t.args[1], isInt), T.pos(t.args[2], isInt))
	}
	p := T.toPoly(t)
	lead := p.ms[0].c
	abs := new(big.Rat).Abs(lead)
	if abs.Cmp(big.NewRat(1, 1)) != 0 && (!isInt || allDivisible(p, abs)) {
		t = T.scale(t, new(big.Rat).Inv(abs))
		p = T.toPoly(t)
		lead = p.ms[0].c
	}
	if isInt && lead.Sign() < 0 {
		// p > 0  <=>  !(p <= 0)  <=> !(1-p > 0)
		return T.not(T.pos(T.sub(T.One, t), true))
	}
	// range knowledge: all monomials are non negative with positive
	// coefficients
	allNN := true
	for _, m := range p.ms {
		if m.c.Sign() < 0 {
			allNN = false
		}
		for _, f := range m.fs {
			if f.e < 0 || !nonNeg(f.t) {
				allNN = false
			}
		}
	}
	if allNN && p.c.Sign() > 0 {
		return T.True
	}
	if len(p.ms) == 1 && len(p.ms[0].fs) == 1 && p.ms[0].fs[0].e == 1 && nonNeg(p.ms[0].fs[0].t) && lead.Sign() < 0 && p.c.Sign() <= 0 {
		return T.False
	}
	i := 0
	if isInt {
		i = 1
	}
	return T.mk(&Term{op: OPos, args: []*Term{t}, i: i})
}

func allDivisible(p *poly, by *big.Rat) bool {
	for _, m := range p.ms {
		if !new(big.Rat).Quo(m.c, by).IsInt() {
			return false
		}
	}
	return new(big.Rat).Quo(p.c, by).IsInt()
}

func (T *Terms) lt(a, b *Term, isInt bool) *Term { return T.pos(T.sub(b, a), isInt) }
func (T *Terms) le(a, b *Term, isInt bool) *Term { return T.not(T.lt(b, a, isInt)) }

func (T *Terms) zero(t *Term, isInt bool) *Term {
	if t.op == OBottom {
		return t
	}
	if t.isNum() {
		return T.boolC(t.rat().Sign() == 0)
	}
	if t.op == OIte {
		return T.ite(t.args[0], T.zero(t.args[1], isInt), T.zero(t.args[2], isInt))
	}
	if nonNeg(t) {
		return T.not(T.pos(t, isInt))
	}
	p := T.toPoly(t)
	if p.ms[0].c.Cmp(big.NewRat(1, 1)) != 0 {
		t = T.scale(t, new(big.Rat).Inv(p.ms[0].c))
	}
	return T.mk(&Term{op: OZero, args: []*Term{t}})
}

func isNumericType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}
func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloatType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (T *Terms) eq(a, b *Term) *Term {
	if a.op == OBottom || b.op == OBottom {
		return T.Bot
	}
	if a.op == OIface && (b.op == OIface || b.op == ONil) || b.op == OIface && a.op == ONil {
		if a.op == OIface && b.op == OIface {
			return T.eq(a.args[0], b.args[0])
		}
		return T.False
	}
	if a == b {
		return T.True
	}
	if a.op == OIte {
		return T.ite(a.args[0], T.eq(a.args[1], b), T.eq(a.args[2], b))
	}
	if b.op == OIte {
		return T.ite(b.args[0], T.eq(a, b.args[1]), T.eq(a, b.args[2]))
	}
	if a.isStr() && b.isStr() {
		return T.boolC(a.s == b.s)
	}
	if a.isNum() && b.isNum() {
		return T.boolC(a.s == b.s)
	}
	if a.isBool() {
		if a.i == 1 {
			return b
		}
		return T.not(b)
	}
	if b.isBool() {
		return T.eq(b, a)
	}
	if a.isStr() && a.s == "" {
		return T.not(T.pos(T.len(b), true))
	}
	if b.isStr() && b.s == "" {
		return T.not(T.pos(T.len(a), true))
	}
	// fresh objects are different from each other and never nil
	fresh := func(t *Term) bool { return t.op == OAlloc || t.op == OGlobal || t.op == OFn || t.op == OSeq && false }
	if fresh(a) && (b.op == ONil || fresh(b)) || a.op == ONil && fresh(b) {
		return T.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.mk(&Term{op: OEq, args: []*Term{a, b}})
}

func (T *Terms) ite(c, a, b *Term) *Term {
	if c.op == OBottom {
		return c
	}
	if a.op == OBottom {
		return b
	}
	if b.op == OBottom {
		return a
	}
	if c.isBool() {
		if c.i == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return T.ite(c.args[0], b, a)
	}
	if c.op == OIte {
		// (x?y:z) ? a : b  =  x ? (y?a:b) : (z?a:b)
		return T.ite(c.args[0], T.ite(c.args[1], a, b), T.ite(c.args[2], a, b))
	}
	// simplify the arms under the condition
	a = T.restrict(a, c, true)
	b = T.restrict(b, c, false)
	if a == b {
		return a
	}
	if a == T.True && b == T.False {
		return c
	}
	if a == T.False && b == T.True {
		return T.not(c)
	}
	return T.mk(&Term{op: OIte, args: []*Term{c, a, b}})
}

// restrict simplifies an if-then-else chain under an assumed condition
// (top-level chain only).
func (T *Terms) restrict(t, c *Term, v bool) *Term {
	if t == c {
		return T.boolC(v)
	}
	if t.op == ONot && t.args[0] == c {
		return T.boolC(!v)
	}
	if t.op != OIte {
		return t
	}
	if r, ok := implied(T, t.args[0], c, v); ok {
		if r {
			return T.restrict(t.args[1], c, v)
		}
		return T.restrict(t.args[2], c, v)
	}
	x, y := T.restrict(t.args[1], c, v), T.restrict(t.args[2], c, v)
	if x == t.args[1] && y == t.args[2] {
		return t
	}
	return T.ite(t.args[0], x, y)
}

// implied decides q given that c has value v, for conditions over the same
// quantity: intervals of one linear form, equality with different constants,
// and disjoint dynamic types.
func implied(T *Terms, q, c *Term, v bool) (val, ok bool) {
	if q == c {
		return v, true
	}
	if q.op == ONot {
		r, ok := implied(T, q.args[0], c, v)
		return !r, ok
	}
	if c.op == ONot {
		return implied(T, q, c.args[0], !v)
	}
	if !v && c.op == OPos && c.args[0].op == OLen && q.op == OEq {
		// an empty string or list
		if x, k, ok := eqConst(q); ok && k.isStr() && x == c.args[0].args[0] {
			return k.s == "", true
		}
	}
	if v && c.op == OEq && q.op == OEq {
		// x == k1 assumed, x == k2 asked
		x, k1, ok1 := eqConst(c)
		y, k2, ok2 := eqConst(q)
		if ok1 && ok2 && x == y && k1 != k2 {
			return false, true
		}
	}
	if v && c.op == OEq {
		x, k1, ok1 := eqConst(c)
		if ok1 && k1.isStr() && q.op == OPos && q.args[0].op == OLen && q.args[0].args[0] == x {
			return len(k1.s) > 0, true
		}
	}
	if c.op == OTypeIs && q.op == OTypeIs && v && c.args[0] == q.args[0] && typeKey(c.typ) != typeKey(q.typ) {
		if !types.IsInterface(c.typ) && !types.IsInterface(q.typ) {
			return false, true
		}
	}
	if c.op == OTypeIs && v && q.op == OEq {
		if (q.args[0] == c.args[0] && q.args[1].op == ONil) || (q.args[1] == c.args[0] && q.args[0].op == ONil) {
			return false, true
		}
	}
	// linear
	cl, cok := linOf(T, c)
	ql, qok := linOf(T, q)
	if cok && qok && cl.key == ql.key {
		lo, hi, loS, hiS, neq := interval(cl, v)
		return decideInterval(ql, lo, hi, loS, hiS, neq)
	}
	return false, false
}

func eqConst(t *Term) (x, k *Term, ok bool) {
	if t.op != OEq {
		return nil, nil, false
	}
	if t.args[1].isConst() {
		return t.args[0], t.args[1], true
	}
	if t.args[0].isConst() {
		return t.args[1], t.args[0], true
	}
	return nil, nil, false
}

type lin struct {
	key   string   // the linear form without constant, leading coefficient 1
	sgn   int      // condition is on sgn*m + c
	c     *big.Rat // constant
	zero  bool     // ==0 rather than >0
	isInt bool
}

func linOf(T *Terms, t *Term) (lin, bool) {
	if t.op != OPos && t.op != OZero {
		return lin{}, false
	}
	p := T.toPoly(t.args[0])
	if len(p.ms) == 0 {
		return lin{}, false
	}
	sgn := p.ms[0].c.Sign()
	q := &poly{c: new(big.Rat)}
	for _, m := range p.ms {
		c := new(big.Rat).Set(m.c)
		if sgn < 0 {
			c.Neg(c)
		}
		q.ms = append(q.ms, mono{fs: m.fs, c: c})
	}
	// scale leading to 1
	inv := new(big.Rat).Inv(q.ms[0].c)
	for i := range q.ms {
		q.ms[i].c = new(big.Rat).Mul(q.ms[i].c, inv)
	}
	return lin{key: q.key(), sgn: sgn, c: new(big.Rat).Mul(p.c, inv), zero: t.op == OZero, isInt: t.op == OPos && t.i == 1}, true
}

// interval of m implied by the condition having value v; loS/hiS: strict.
func interval(l lin, v bool) (lo, hi *big.Rat, loS, hiS bool, neq *big.Rat) {
	negc := new(big.Rat).Neg(l.c)
	if l.zero {
		k := negc
		if l.sgn < 0 {
			k = l.c
		}
		if v {
			return k, k, false, false, nil
		}
		return nil, nil, false, false, k
	}
	if l.sgn > 0 { // m + c > 0
		if v {
			return negc, nil, true, false, nil
		}
		return nil, negc, false, false, nil
	}
	// -m + c > 0 <=> m < c
	if v {
		return nil, l.c, false, true, nil
	}
	return l.c, nil, false, false, nil
}

func decideInterval(q lin, lo, hi *big.Rat, loS, hiS bool, neq *big.Rat) (bool, bool) {
	// q: m > k (sgn>0, k=-c) / m < k (sgn<0, k=c) / m == k
	if q.zero {
		k := new(big.Rat).Neg(q.c)
		if q.sgn < 0 {
			k = q.c
		}
		if neq != nil && neq.Cmp(k) == 0 {
			return false, true
		}
		if lo != nil && hi != nil && lo.Cmp(hi) == 0 && !loS && !hiS {
			return lo.Cmp(k) == 0, true
		}
		if lo != nil && (lo.Cmp(k) > 0 || lo.Cmp(k) == 0 && loS) {
			return false, true
		}
		if hi != nil && (hi.Cmp(k) < 0 || hi.Cmp(k) == 0 && hiS) {
			return false, true
		}
		return false, false
	}
	if q.sgn > 0 {
		k := new(big.Rat).Neg(q.c)
		if lo != nil && (lo.Cmp(k) > 0 || lo.Cmp(k) == 0 && loS) {
			return true, true
		}
		if hi != nil && hi.Cmp(k) <= 0 {
			return false, true
		}
		if q.isInt && lo != nil && loS == false && lo.Cmp(k) > 0 {
			return true, true
		}
		return false, false
	}
	k := q.c
	if hi != nil && (hi.Cmp(k) < 0 || hi.Cmp(k) == 0 && hiS) {
		return true, true
	}
	if lo != nil && lo.Cmp(k) >= 0 {
		return false, true
	}
	return false, false
}

// ---- aggregates

func (T *Terms) len(x *Term) *Term {
	switch x.op {
	case OStr:
		return T.numI(int64(len(x.s)))
	case ONil:
		return T.Zero
	case OSeq:
		n := T.Zero
		for i, a := range x.args {
			if x.s[i] == 'e' {
				n = T.add(n, T.One)
			} else {
				n = T.add(n, T.len(a))
			}
		}
		return n
	case OConcat:
		n := T.Zero
		for _, a := range x.args {
			n = T.add(n, T.len(a))
		}
		return n
	case OIte:
		return T.ite(x.args[0], T.len(x.args[1]), T.len(x.args[2]))
	case OBottom:
		return x
	case OConv:
		if x.s == "bytes" {
			return T.len(x.args[0])
		}
	case OSlice:
		lo, hi := x.args[1], x.args[2]
		if hi.op == ONone {
			hi = T.len(x.args[0])
		}
		if lo.op == ONone {
			return hi
		}
		return T.sub(hi, lo)
	}
	return T.mk(&Term{op: OLen, args: []*Term{x}})
}

// seq builds a sequence value from elements and spreads.
func (T *Terms) seq(kinds string, args []*Term) *Term {
	var k strings.Builder
	as := []*Term{}
	for i, a := range args {
		if kinds[i] == 's' {
			if a.op == ONil || a.op == OSeq && len(a.args) == 0 {
				continue
			}
			if a.op == OSeq {
				k.WriteString(a.s)
				as = append(as, a.args...)
				continue
			}
		}
		k.WriteByte(kinds[i])
		as = append(as, a)
	}
	if len(as) == 1 && k.String() == "s" {
		return as[0]
	}
	return T.mk(&Term{op: OSeq, s: k.String(), args: as})
}

func (T *Terms) concat(args ...*Term) *Term {
	flat := []*Term{}
	for _, a := range args {
		var parts []*Term
		if a.op == OConcat {
			parts = a.args
		} else {
			parts = []*Term{a}
		}
		for _, p := range parts {
			if p.op == OBottom {
				return p
			}
			if p.isStr() && p.s == "" {
				continue
			}
			if n := len(flat); n > 0 && p.isStr() && flat[n-1].isStr() {
				flat[n-1] = T.str(flat[n-1].s + p.s)
				continue
			}
			flat = append(flat, p)
		}
	}
	switch len(flat) {
	case 0:
		return T.EmptyS
	case 1:
		return flat[0]
	}
	return T.mk(&Term{op: OConcat, args: flat})
}

func (T *Terms) index(x, i *Term) *Term {
	if x.op == OSeq && i.isNum() && i.rat().IsInt() {
		n := int(i.rat().Num().Int64())
		for k, a := range x.args {
			if x.s[k] != 'e' {
				break
			}
			if k == n {
				return a
			}
		}
	}
	if x.op == OSeq && !i.isNum() {
		// the element after a part, as of what was appended last
		at := T.Zero
		for k, a := range x.args {
			if x.s[k] == 'e' {
				if at == i {
					return a
				}
				at = T.add(at, T.One)
			} else {
				at = T.add(at, T.len(a))
			}
		}
	}
	if x.op == OIte {
		return T.ite(x.args[0], T.index(x.args[1], i), T.index(x.args[2], i))
	}
	if x.op == OBottom || i.op == OBottom {
		return T.Bot
	}
	return T.mk(&Term{op: OIndex, args: []*Term{x, i}})
}

func (T *Terms) slice(x, lo, hi *Term) *Term {
	if lo.op == ONum && lo.rat().Sign() == 0 {
		lo = T.None
	}
	if hi == T.len(x) {
		hi = T.None
	}
	if lo.op == ONone && hi.op == ONone {
		return x
	}
	if x.op == OSlice && (x.args[2].op == ONone || hi.op != ONone) {
		// x[a:b][c:d] = x[a+c:a+d]
		base, a := x.args[0], x.args[1]
		if a.op == ONone {
			a = T.Zero
		}
		l := a
		if lo.op != ONone {
			l = T.add(a, lo)
		}
		h := x.args[2]
		if hi.op != ONone {
			h = T.add(a, hi)
		}
		return T.slice(base, l, h)
	}
	if x.isStr() && (lo.op == ONone || lo.isNum()) && (hi.op == ONone || hi.isNum()) {
		l, h := 0, len(x.s)
		if lo.isNum() {
			l = int(lo.rat().Num().Int64())
		}
		if hi.isNum() {
			h = int(hi.rat().Num().Int64())
		}
		if 0 <= l && l <= h && h <= len(x.s) {
			return T.str(x.s[l:h])
		}
	}
	if x.op == OIte {
		return T.ite(x.args[0], T.slice(x.args[1], lo, hi), T.slice(x.args[2], lo, hi))
	}
	return T.mk(&Term{op: OSlice, args: []*Term{x, lo, hi}})
}

func (T *Terms) structT(typ types.Type, fs []*Term) *Term {
	// collapse {x.0, x.1, ...} to x
	if len(fs) > 0 {
		var x *Term
		same := true
		for i, f := range fs {
			if f.op == OBottom {
				return f
			}
			if f.op == OField && f.i == i {
				if x == nil {
					x = f.args[0]
				} else if x != f.args[0] {
					same = false
				}
				continue
			}
			if f.op == OLoad && f.args[0].op == OFAddr && f.args[0].i == i {
				b := T.mk(&Term{op: OLoad, args: []*Term{f.args[0].args[0]}})
				if x == nil {
					x = b
				} else if x != b {
					same = false
				}
				continue
			}
			same = false
		}
		if same && x != nil {
			return x
		}
	}
	allZero := true
	st, _ := typ.Underlying().(*types.Struct)
	if st != nil && len(fs) == st.NumFields() {
		for i, f := range fs {
			if f != T.zeroValue(st.Field(i).Type()) {
				allZero = false
			}
		}
	} else {
		allZero = false
	}
	if allZero {
		return T.zeroValue(typ)
	}
	return T.mk(&Term{op: OStruct, typ: typ, args: fs})
}

func (T *Terms) field(x *Term, i int, st types.Type) *Term {
	switch x.op {
	case OStruct:
		return x.args[i]
	case OZeroStr:
		if s, ok := x.typ.Underlying().(*types.Struct); ok {
			return T.zeroValue(s.Field(i).Type())
		}
	case OIte:
		return T.ite(x.args[0], T.field(x.args[1], i, st), T.field(x.args[2], i, st))
	case OLoad:
		return T.load(T.faddr(x.args[0], i, st))
	case OBottom:
		return x
	}
	return T.mk(&Term{op: OField, i: i, args: []*Term{x}, typ: st})
}

func (T *Terms) faddr(a *Term, i int, st types.Type) *Term {
	if a.op == OIte {
		return T.ite(a.args[0], T.faddr(a.args[1], i, st), T.faddr(a.args[2], i, st))
	}
	return T.mk(&Term{op: OFAddr, i: i, args: []*Term{a}, typ: st})
}

func (T *Terms) zeroValue(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return T.False
		case u.Info()&types.IsNumeric != 0:
			return T.Zero
		case u.Info()&types.IsString != 0:
			return T.EmptyS
		}
		return T.Nil
	case *types.Slice:
		return T.mk(&Term{op: OSeq})
	case *types.Struct, *types.Array:
		return T.mk(&Term{op: OZeroStr, typ: t})
	}
	return T.Nil
}

// strip removes interface boxing.
func strip(t *Term) *Term {
	for t != nil && t.op == OIface {
		t = t.args[0]
	}
	return t
}

// mapArgs rebuilds t with the given arguments through the smart constructors.
func (T *Terms) rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case OField:
		return T.field(as[0], t.i, t.typ)
	case OFAddr:
		return T.faddr(as[0], t.i, t.typ)
	case OIndex:
		return T.index(as[0], as[1])
	case OLen:
		return T.len(as[0])
	case OSlice:
		return T.slice(as[0], as[1], as[2])
	case OSeq:
		return T.seq(t.s, as)
	case OConcat:
		return T.concat(as...)
	case OPos:
		return T.pos(as[0], t.i == 1)
	case OZero:
		return T.zero(as[0], false)
	case OEq:
		return T.eq(as[0], as[1])
	case ONot:
		return T.not(as[0])
	case OIte:
		return T.ite(as[0], as[1], as[2])
	case OStruct:
		return T.structT(t.typ, as)
	case OTypeIs:
		return T.typeIs(as[0], t.typ)
	case OAssert:
		return T.assert(as[0], t.typ)
	case OLoad:
		return T.load(as[0])
	case OOp:
		return T.binop(t.s, as)
	}
	n := *t
	n.args = as
	n.id = 0
	n.lv = false
	return T.mk(&n)
}

func (T *Terms) binop(op string, as []*Term) *Term {
	if len(as) == 2 && as[0].isNum() && as[1].isNum() && as[0].rat().IsInt() && as[1].rat().IsInt() {
		a, b := as[0].rat().Num(), as[1].rat().Num()
		r := new(big.Int)
		switch op {
		case ">>":
			return T.num(new(big.Rat).SetInt(r.Rsh(a, uint(b.Int64()))))
		case "<<":
			return T.num(new(big.Rat).SetInt(r.Lsh(a, uint(b.Int64()))))
		case "&":
			return T.num(new(big.Rat).SetInt(r.And(a, b)))
		case "|":
			return T.num(new(big.Rat).SetInt(r.Or(a, b)))
		case "i/":
			if b.Sign() != 0 {
				return T.num(new(big.Rat).SetInt(r.Quo(a, b)))
			}
		case "%":
			if b.Sign() != 0 {
				return T.num(new(big.Rat).SetInt(r.Rem(a, b)))
			}
		}
	}
	return T.op(op, as...)
}

func (T *Terms) load(addr *Term) *Term {
	if addr.op == OIte {
		return T.ite(addr.args[0], T.load(addr.args[1]), T.load(addr.args[2]))
	}
	if r, ok := T.loadAs[addr]; ok {
		return r
	}
	return T.mk(&Term{op: OLoad, args: []*Term{addr}})
}

func (T *Terms) typeIs(x *Term, t types.Type) *Term {
	switch x.op {
	case OIface:
		if types.IsInterface(t) {
			if iface, ok := t.Underlying().(*types.Interface); ok {
				return T.boolC(types.Implements(x.typ, iface))
			}
		} else {
			return T.boolC(types.Identical(x.typ, t))
		}
	case ONil:
		return T.False
	case OIte:
		return T.ite(x.args[0], T.typeIs(x.args[1], t), T.typeIs(x.args[2], t))
	}
	return T.mk(&Term{op: OTypeIs, args: []*Term{x}, typ: t})
}

func (T *Terms) assert(x *Term, t types.Type) *Term {
	if x.op == OIface && types.Identical(x.typ, t) {
		return x.args[0]
	}
	if types.IsInterface(t) {
		return x
	}
	if x.op == OIte {
		return T.ite(x.args[0], T.assert(x.args[1], t), T.assert(x.args[2], t))
	}
	return T.mk(&Term{op: OAssert, args: []*Term{x}, typ: t})
}

// subst replaces terms bottom-up.
func (T *Terms) subst(t *Term, m map[*Term]*Term) *Term {
	return T.substM(t, m, map[*Term]*Term{})
}

func (T *Terms) substM(t *Term, m, memo map[*Term]*Term) *Term {
	if t == nil {
		return nil
	}
	if r, ok := m[t]; ok {
		return r
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := t
	if t.op == OPoly {
		changed := false
		sum := T.num(t.p.c)
		for _, mo := range t.p.ms {
			prod := T.num(mo.c)
			for _, f := range mo.fs {
				n := T.substM(f.t, m, memo)
				if n != f.t {
					changed = true
				}
				for k := 0; k < f.e; k++ {
					prod = T.mul(prod, n)
				}
				for k := 0; k > f.e; k-- {
					prod = T.div(prod, n)
				}
			}
			sum = T.add(sum, prod)
		}
		if changed {
			r = sum
		}
	} else if len(t.args) > 0 {
		as := make([]*Term, len(t.args))
		changed := false
		for i, a := range t.args {
			as[i] = T.substM(a, m, memo)
			if as[i] != a {
				changed = true
			}
		}
		if changed {
			r = T.rebuild(t, as)
			if r2, ok := m[r]; ok {
				r = r2
			}
		}
	}
	memo[t] = r
	return r
}

// walk visits t and all its sub-terms once.
func walk(t *Term, f func(*Term) bool) {
	seen := map[*Term]bool{}
	var w func(*Term)
	w = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		for _, a := range t.args {
			w(a)
		}
		if t.p != nil {
			for _, m := range t.p.ms {
				for _, x := range m.fs {
					w(x.t)
				}
			}
		}
	}
	w(t)
}

func contains(t *Term, pred func(*Term) bool) bool {
	found := false
	walk(t, func(x *Term) bool {
		if found {
			return false
		}
		if pred(x) {
			found = true
		}
		return !found
	})
	return found
}

func mentions(t, x *Term) bool { return contains(t, func(y *Term) bool { return y == x }) }

// conds collects the conditions of all if-then-else sub-terms, and t itself if
// boolean.
func conds(ts ...*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	for _, t := range ts {
		walk(t, func(x *Term) bool {
			if x.op == OIte && !seen[x.args[0]] {
				seen[x.args[0]] = true
				out = append(out, x.args[0])
			}
			return true
		})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// str renders a term for reports.
func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 12 {
		return "…"
	}
	list := func(ts []*Term) string {
		ss := []string{}
		for _, a := range ts {
			ss = append(ss, a.str(d+1))
		}
		return strings.Join(ss, ", ")
	}
	switch t.op {
	case ONum:
		return t.s
	case OStr:
		return strconv.Quote(t.s)
	case OBool:
		return fmt.Sprint(t.i == 1)
	case ONil:
		return "nil"
	case OZeroStr:
		return typeName(t.typ) + "{}"
	case OParam:
		return t.s
	case OAtom:
		return "‹" + t.s + "›"
	case OCall:
		return t.s + "(" + list(t.args) + ")"
	case OInv:
		return fmt.Sprintf("%s#%d(%s)", t.s, t.i, list(t.args))
	case OProj:
		return fmt.Sprintf("%s.%d", t.args[0].str(d+1), t.i)
	case OField, OFAddr:
		amp := ""
		if t.op == OFAddr {
			amp = "&"
		}
		return fmt.Sprintf("%s%s.%s", amp, t.args[0].str(d+1), fieldName(t))
	case OIAddr:
		return fmt.Sprintf("&%s[%s]", t.args[0].str(d+1), t.args[1].str(d+1))
	case OIndex:
		return fmt.Sprintf("%s[%s]", t.args[0].str(d+1), t.args[1].str(d+1))
	case OLookup:
		return fmt.Sprintf("%s[%s]", t.args[0].str(d+1), t.args[1].str(d+1))
	case OLookupOk:
		return fmt.Sprintf("(%s in %s)", t.args[1].str(d+1), t.args[0].str(d+1))
	case OAlloc:
		return "&" + t.s
	case OGlobal:
		return "&" + t.s
	case OLoad:
		a := t.args[0]
		if a.op == OFAddr || a.op == OIAddr || a.op == OGlobal {
			return strings.TrimPrefix(a.str(d), "&")
		}
		return "*" + a.str(d+1)
	case OFn:
		return t.s
	case OPoly:
		ss := []string{}
		for _, m := range t.p.ms {
			fs := []string{}
			one := big.NewRat(1, 1)
			if m.c.Cmp(one) != 0 {
				fs = append(fs, m.c.RatString())
			}
			for _, f := range m.fs {
				s := f.t.str(d + 1)
				if f.e != 1 {
					s += fmt.Sprintf("^%d", f.e)
				}
				fs = append(fs, s)
			}
			ss = append(ss, strings.Join(fs, "*"))
		}
		if t.p.c.Sign() != 0 {
			ss = append(ss, t.p.c.RatString())
		}
		return "(" + strings.Join(ss, " + ") + ")"
	case OPos:
		return t.args[0].str(d+1) + ">0"
	case OZero:
		return t.args[0].str(d+1) + "==0"
	case OEq:
		return t.args[0].str(d+1) + "==" + t.args[1].str(d+1)
	case ONot:
		return "!(" + t.args[0].str(d+1) + ")"
	case OIte:
		return fmt.Sprintf("(%s ? %s : %s)", t.args[0].str(d+1), t.args[1].str(d+1), t.args[2].str(d+1))
	case OLen:
		return "len(" + t.args[0].str(d+1) + ")"
	case OCap:
		return "cap(" + t.args[0].str(d+1) + ")"
	case OSlice:
		return fmt.Sprintf("%s[%s:%s]", t.args[0].str(d+1), t.args[1].str(d+1), t.args[2].str(d+1))
	case ONone:
		return ""
	case OSeq:
		ss := []string{}
		for i, a := range t.args {
			s := a.str(d + 1)
			if t.s[i] == 's' {
				s += "..."
			}
			ss = append(ss, s)
		}
		return "[" + strings.Join(ss, ", ") + "]"
	case OConcat:
		ss := []string{}
		for _, a := range t.args {
			ss = append(ss, a.str(d+1))
		}
		return strings.Join(ss, "+")
	case OTypeIs:
		return fmt.Sprintf("(%s is %s)", t.args[0].str(d+1), typeName(t.typ))
	case OAssert:
		return fmt.Sprintf("%s.(%s)", t.args[0].str(d+1), typeName(t.typ))
	case OIface:
		return t.args[0].str(d + 1)
	case OStruct:
		return typeName(t.typ) + "{" + list(t.args) + "}"
	case OIV:
		return "iter" + strconv.Itoa(t.i)
	case OLoopVar:
		return "loop:" + t.s
	case OConv:
		return fmt.Sprintf("%s(%s)", typeName(t.typ), list(t.args))
	case OOp:
		return fmt.Sprintf("(%s %s)", t.s, list(t.args))
	case OClobber:
		return fmt.Sprintf("written-by:%s#%d(%s)", t.s, t.i, list(t.args))
	case OFnIs:
		return fmt.Sprintf("(%s is %s)", t.args[0].str(d+1), t.s)
	case OBottom:
		return "⊥"
	case ORangeNext:
		return fmt.Sprintf("next%d(%s)", t.i, list(t.args))
	}
	return fmt.Sprintf("op%d(%s)", t.op, list(t.args))
}

func fieldName(t *Term) string {
	if t.typ != nil {
		if st, ok := t.typ.Underlying().(*types.Struct); ok && t.i < st.NumFields() {
			return st.Field(t.i).Name()
		}
	}
	return "f" + strconv.Itoa(t.i)
}

func (T *Terms) proj(t *Term, i int) *Term {
	return T.mk(&Term{op: OProj, i: i, args: []*Term{t}})
}
