package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// builtinPure are packages whose functions have no effect and a result that
// depends on the arguments only.
var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true,
	"math": true, "path": true, "errors": true, "reflect": true,
	"github.com/pkg/errors": true, "math/bits": true,
}

var pureFns = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true, "fmt.Errorf": true,
	"path/filepath.Join": true, "path/filepath.Clean": true, "path/filepath.IsAbs": true,
	"path/filepath.Base": true, "path/filepath.Ext": true, "path/filepath.Dir": true,
	"bytes.NewBufferString": true, "bytes.NewReader": true, "bytes.NewBuffer": true,
	"bytes.TrimSpace": true,
}

func (g *Graph) isPure(callee string) bool {
	if g.opts.Pure != nil && g.opts.Pure(callee) {
		return true
	}
	if pureFns[callee] {
		return true
	}
	if strings.HasPrefix(callee, "(") || strings.HasPrefix(callee, "iface:") {
		return false
	}
	i := strings.LastIndexByte(callee, '.')
	if i < 0 {
		return false
	}
	return purePkgs[callee[:i]]
}

// loopInfo describes a loop-carried value.
type loopInfo struct {
	g    *Graph
	head *Node
	key  string
	init *Term
	next *Term
	addr *Term // memory cell, if the value lives in memory
}

type exitVal struct {
	e *Edge
	t *Term
}

// exitJoin: a value that depends on the exit by which a loop was left.
type exitJoin struct {
	loop *Loop
	vals []exitVal
}

func (g *Graph) norm(t *Term) *Term {
	if t == nil || !t.lv || len(g.resolved) == 0 {
		return t
	}
	for i := 0; i < 20; i++ {
		n := g.T.substM(t, g.resolved, g.normMemo)
		if n == t {
			return n
		}
		t = n
		if !t.lv {
			return t
		}
	}
	return t
}

func (g *Graph) resolve(lv, t *Term) {
	if lv == t {
		return
	}
	g.resolved[lv] = t
	g.normMemo = map[*Term]*Term{}
	// others may be decided now
	for again := true; again; {
		again = false
		for i := 0; i < len(g.open); i++ {
			o := g.open[i]
			if _, ok := g.resolved[o]; ok {
				g.open = append(g.open[:i], g.open[i+1:]...)
				i--
				continue
			}
			li := o.data.(*loopInfo)
			init, next := g.norm(li.init), g.norm(li.next)
			var r *Term
			if next == o || next.op == OBottom {
				r = init
			} else if next == init && !mentions(next, o) {
				r = init
			}
			if r != nil && r != o && !mentions(r, o) {
				g.resolved[o] = r
				g.normMemo = map[*Term]*Term{}
				g.open = append(g.open[:i], g.open[i+1:]...)
				again = true
				break
			}
		}
	}
}

func (g *Graph) ref(r valRef) *Term {
	if r.t != nil {
		return r.t
	}
	return g.val(r.c, r.v)
}

// val is the term of an SSA value in a context.
func (g *Graph) val(c *Ctx, v ssa.Value) *Term {
	k := valKey{c, v, -1}
	if t, ok := g.memo[k]; ok {
		return g.norm(t)
	}
	t := g.eval(c, v)
	t = g.norm(t)
	g.memo[k] = t
	return t
}

func (g *Graph) constTerm(v *ssa.Const) *Term {
	T := g.T
	if v.Value == nil {
		return T.zeroValue(v.Type())
	}
	switch v.Value.Kind() {
	case constant.Bool:
		return T.boolC(constant.BoolVal(v.Value))
	case constant.String:
		return T.str(constant.StringVal(v.Value))
	case constant.Int, constant.Float:
		r := new(big.Rat)
		if isFloatType(v.Type()) {
			// the decimal number that was written
			f, _ := constant.Float64Val(v.Value)
			if _, ok := r.SetString(strconv.FormatFloat(f, 'g', -1, 64)); ok {
				return T.num(r)
			}
		}
		if _, ok := r.SetString(v.Value.ExactString()); ok {
			return T.num(r)
		}
		if f, ok := constant.Float64Val(v.Value); ok || true {
			r.SetFloat64(f)
			return T.num(r)
		}
	}
	return T.atom("const:" + v.String())
}

func (g *Graph) uniq(c *Ctx, v ssa.Value, what string) *Term {
	return g.T.atom(fmt.Sprintf("%s@%d.%s.%s", what, c.id, c.fn.Name(), v.Name()))
}

func (g *Graph) eval(c *Ctx, v ssa.Value) *Term {
	T := g.T
	switch v := v.(type) {
	case *ssa.Const:
		return g.constTerm(v)
	case *ssa.Function:
		return T.mk(&Term{op: OFn, s: v.String(), data: v})
	case *ssa.Builtin:
		return T.atom("builtin." + v.Name())
	case *ssa.Global:
		return T.mk(&Term{op: OGlobal, s: v.String(), data: v, typ: v.Type()})
	case *ssa.Parameter:
		i := paramIdx(v)
		if i >= 0 && i < len(c.args) {
			t := g.ref(c.args[i])
			if t.op == OIface && !types.IsInterface(v.Type()) {
				return t.args[0]
			}
			return t
		}
	case *ssa.FreeVar:
		i := freeIdx(v)
		if i >= 0 && i < len(c.binds) {
			return g.ref(c.binds[i])
		}
	case *ssa.Alloc:
		return T.mk(&Term{op: OAlloc, s: fmt.Sprintf("%s%d@%d.%d", v.Comment, g.P.instrIdx(v), c.id, v.Block().Index), typ: v.Type(), data: valKey{c: c, v: v}})
	case *ssa.MakeClosure:
		as := []*Term{}
		for _, b := range v.Bindings {
			as = append(as, g.val(c, b))
		}
		fn := v.Fn.(*ssa.Function)
		return T.mk(&Term{op: OFn, s: fn.String() + "@" + g.P.posStr(fn.Pos()), args: as, data: fn})
	case *ssa.Phi:
		n := c.blk[v.Block()]
		return g.joinVal(n, fmt.Sprintf("v%d.%s", c.id, v.Name()), valKey{c, v, -1}, func(e *Edge) *Term {
			if e.predIdx < 0 {
				return T.atom("phi?")
			}
			return g.val(c, v.Edges[e.predIdx])
		})
	case *ssa.Call:
		return g.callVal(c, v, -1)
	case *ssa.Extract:
		if call, ok := v.Tuple.(*ssa.Call); ok {
			return g.callVal(c, call, v.Index)
		}
		tt := g.val(c, v.Tuple)
		return g.extract(tt, v.Index)
	case *ssa.BinOp:
		return g.binop(v.Op, g.val(c, v.X), g.val(c, v.Y), v.X.Type())
	case *ssa.UnOp:
		switch v.Op {
		case token.NOT:
			return T.not(g.val(c, v.X))
		case token.SUB:
			return T.neg(g.val(c, v.X))
		case token.MUL:
			l, ok := c.loc[v]
			if !ok || l.n.rpo < 0 {
				return T.Bot
			}
			return g.read(l.n, l.i, g.val(c, v.X), v.Type())
		case token.XOR:
			return T.op("^", g.val(c, v.X))
		}
		return g.uniq(c, v, "unop")
	case *ssa.ChangeType:
		return g.val(c, v.X)
	case *ssa.ChangeInterface:
		return g.val(c, v.X)
	case *ssa.Convert:
		return g.convert(g.val(c, v.X), v.X.Type(), v.Type())
	case *ssa.MultiConvert:
		return g.convert(g.val(c, v.X), v.X.Type(), v.Type())
	case *ssa.MakeInterface:
		x := g.val(c, v.X)
		return T.mk(&Term{op: OIface, typ: v.X.Type(), args: []*Term{x}})
	case *ssa.FieldAddr:
		return T.faddr(g.val(c, v.X), v.Field, deref(v.X.Type()))
	case *ssa.Field:
		return g.fieldOf(g.val(c, v.X), v.Field, v.X.Type(), v.Type())
	case *ssa.IndexAddr:
		return T.mk(&Term{op: OIAddr, args: []*Term{g.val(c, v.X), g.val(c, v.Index)}})
	case *ssa.Index:
		return T.index(g.val(c, v.X), g.val(c, v.Index))
	case *ssa.Lookup:
		x, k := g.val(c, v.X), g.val(c, v.Index)
		if isStringType(v.X.Type()) {
			return T.index(x, k)
		}
		val, ok := g.mapLookup(c, v, x, k)
		if v.CommaOk {
			return T.mk(&Term{op: OSeq, s: "ee", args: []*Term{val, ok}})
		}
		return val
	case *ssa.Slice:
		return g.sliceVal(c, v)
	case *ssa.MakeSlice:
		n := g.val(c, v.Len)
		if n.isNum() && n.rat().Sign() == 0 {
			return T.mk(&Term{op: OSeq})
		}
		return T.mk(&Term{op: OOp, s: fmt.Sprintf("make@%d.%s", c.id, v.Name()), args: []*Term{n}})
	case *ssa.MakeMap:
		return T.mk(&Term{op: OAlloc, s: fmt.Sprintf("map%d.%s", c.id, v.Name()), typ: v.Type(), data: valKey{c: c, v: v}})
	case *ssa.MakeChan:
		return g.uniq(c, v, "chan")
	case *ssa.TypeAssert:
		x := g.val(c, v.X)
		a := T.assert(x, v.AssertedType)
		if v.CommaOk {
			return T.mk(&Term{op: OSeq, s: "ee", args: []*Term{a, T.typeIs(x, v.AssertedType)}})
		}
		return a
	case *ssa.Range:
		return T.mk(&Term{op: OOp, s: "range", args: []*Term{g.val(c, v.X)}})
	case *ssa.Next:
		return T.mk(&Term{op: ORangeNext, i: c.id*10000 + regNum(v), args: []*Term{g.val(c, v.Iter)}})
	}
	return g.uniq(c, v, "val")
}

func regNum(v ssa.Value) int {
	n := 0
	for _, r := range v.Name() {
		if r >= '0' && r <= '9' {
			n = n*10 + int(r-'0')
		}
	}
	return n
}

func (g *Graph) extract(t *Term, i int) *Term {
	switch t.op {
	case OSeq:
		if i < len(t.args) {
			return t.args[i]
		}
	case OIte:
		return g.T.ite(t.args[0], g.extract(t.args[1], i), g.extract(t.args[2], i))
	}
	return g.T.mk(&Term{op: OProj, i: i, args: []*Term{t}})
}

func (g *Graph) convert(x *Term, from, to types.Type) *Term {
	T := g.T
	if isNumericType(from) && isNumericType(to) {
		if isFloatType(to) {
			return x
		}
		if isIntType(from) && isIntType(to) {
			sf := types.SizesFor("gc", "amd64")
			fs, ts := sf.Sizeof(from.Underlying()), sf.Sizeof(to.Underlying())
			if ts >= fs {
				return x
			}
			tb := to.Underlying().(*types.Basic)
			if tb.Info()&types.IsUnsigned != 0 {
				return T.binop("&", []*Term{x, T.num(new(big.Rat).SetInt(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(ts*8)), big.NewInt(1))))})
			}
			return T.mk(&Term{op: OConv, typ: to, args: []*Term{x}})
		}
		return T.mk(&Term{op: OConv, typ: to, args: []*Term{x}})
	}
	isBytes := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	if (isStringType(from) || isBytes(from)) && (isStringType(to) || isBytes(to)) {
		return x
	}
	// string([]rune(s)) = s up to invalid encodings
	return T.mk(&Term{op: OConv, typ: to, args: []*Term{x}})
}

func (g *Graph) binop(op token.Token, x, y *Term, typ types.Type) *Term {
	T := g.T
	if x.op == OBottom || y.op == OBottom {
		return T.Bot
	}
	num := isNumericType(typ)
	isInt := isIntType(typ)
	switch op {
	case token.ADD:
		if isStringType(typ) {
			return T.concat(x, y)
		}
		if num {
			return T.add(x, y)
		}
	case token.SUB:
		return T.sub(x, y)
	case token.MUL:
		return T.mul(x, y)
	case token.QUO:
		if isInt {
			return T.binop("i/", []*Term{x, y})
		}
		return T.div(x, y)
	case token.REM:
		return T.binop("%", []*Term{x, y})
	case token.LSS:
		if num {
			return T.lt(x, y, isInt)
		}
		return T.op("s<", x, y)
	case token.GTR:
		if num {
			return T.lt(y, x, isInt)
		}
		return T.op("s<", y, x)
	case token.LEQ:
		if num {
			return T.le(x, y, isInt)
		}
		return T.not(T.op("s<", y, x))
	case token.GEQ:
		if num {
			return T.le(y, x, isInt)
		}
		return T.not(T.op("s<", x, y))
	case token.EQL, token.NEQ:
		var r *Term
		if num {
			r = T.zero(T.sub(x, y), isInt)
		} else if _, ok := typ.Underlying().(*types.Slice); ok {
			if y.op == OSeq && len(y.args) == 0 {
				r = T.not(T.pos(T.len(x), true))
			} else {
				r = T.not(T.pos(T.len(y), true))
			}
		} else {
			r = T.eq(x, y)
		}
		if op == token.NEQ {
			return T.not(r)
		}
		return r
	}
	return T.binop(op.String(), []*Term{x, y})
}

func (g *Graph) sliceVal(c *Ctx, v *ssa.Slice) *Term {
	T := g.T
	lo, hi := T.None, T.None
	if v.Low != nil {
		lo = g.val(c, v.Low)
	}
	if v.High != nil {
		hi = g.val(c, v.High)
	}
	if p, ok := v.X.Type().Underlying().(*types.Pointer); ok {
		if at, ok := p.Elem().Underlying().(*types.Array); ok {
			n := at.Len()
			if hi.isNum() && hi.rat().IsInt() && hi.rat().Num().IsInt64() && hi.rat().Num().Int64() <= n {
				n = hi.rat().Num().Int64()
			}
			if n <= 64 && (lo.op == ONone || lo == T.Zero) && (hi.op == ONone || hi.isNum()) {
				l, ok := c.loc[v]
				if ok && l.n.rpo >= 0 {
					base := g.val(c, v.X)
					var as []*Term
					for i := int64(0); i < n; i++ {
						ea := T.mk(&Term{op: OIAddr, args: []*Term{base, T.numI(i)}})
						as = append(as, g.read(l.n, l.i, ea, at.Elem()))
					}
					return T.seq(strings.Repeat("e", len(as)), as)
				}
			}
			return g.uniq(c, v, "slice")
		}
	}
	return T.slice(g.val(c, v.X), lo, hi)
}

// callVal is the idx-th result of a call (-1: the single result).
func (g *Graph) callVal(c *Ctx, call *ssa.Call, idx int) *Term {
	T := g.T
	if j, ok := c.callRes[call]; ok {
		if j.rpo < 0 {
			return T.Bot
		}
		k := idx
		if k < 0 {
			if call.Type() == nil {
				return T.Nil
			}
			if tup, ok := call.Type().(*types.Tuple); ok {
				// whole tuple: sequence of the results
				as := []*Term{}
				for i := 0; i < tup.Len(); i++ {
					as = append(as, g.callVal(c, call, i))
				}
				return T.mk(&Term{op: OSeq, s: strings.Repeat("e", len(as)), args: as})
			}
			k = 0
		}
		key := valKey{c, call, k}
		if t, ok := g.memo[key]; ok && t != nil {
			return g.norm(t)
		}
		t := g.joinVal(j, fmt.Sprintf("r%d.%s.%d", c.id, call.Name(), k), key, func(e *Edge) *Term {
			if e.ret == nil {
				return T.atom("ret?")
			}
			return g.val(e.retCtx, e.ret.Results[k])
		})
		g.memo[key] = t
		return t
	}
	cc := call.Common()
	// builtins
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		args := []*Term{}
		for _, a := range cc.Args {
			args = append(args, g.val(c, a))
		}
		switch b.Name() {
		case "len":
			return T.len(args[0])
		case "cap":
			return T.mk(&Term{op: OCap, args: args})
		case "append":
			if len(args) == 1 {
				return args[0]
			}
			return T.seq("ss", args[:2])
		case "min", "max":
			r := args[0]
			isInt := isIntType(cc.Args[0].Type())
			for _, a := range args[1:] {
				if b.Name() == "max" {
					r = T.ite(T.lt(r, a, isInt), a, r)
				} else {
					r = T.ite(T.lt(a, r, isInt), a, r)
				}
			}
			return r
		case "copy":
			return g.uniq(c, call, "copy")
		}
		return g.uniq(c, call, b.Name())
	}
	name, _, _ := g.P.calleeName(cc)
	if g.isPure(name) {
		args := g.callArgs(c, cc)
		r := g.pureCall(name, args)
		if idx >= 0 {
			return g.extract(r, idx)
		}
		return r
	}
	l, ok := c.loc[call]
	if !ok || l.n.rpo < 0 {
		return T.Bot
	}
	ev := g.evAt[itemKey{l.n, l.i}]
	if ev == nil {
		return g.uniq(c, call, "call")
	}
	r := g.evResult(ev)
	if idx >= 0 {
		return T.mk(&Term{op: OProj, i: idx, args: []*Term{r}})
	}
	return r
}

func (g *Graph) callArgs(c *Ctx, cc *ssa.CallCommon) []*Term {
	args := []*Term{}
	if cc.IsInvoke() {
		args = append(args, g.val(c, cc.Value))
	} else if cc.StaticCallee() == nil {
		args = append(args, g.val(c, cc.Value))
	}
	for _, a := range cc.Args {
		args = append(args, g.val(c, a))
	}
	return args
}

func (g *Graph) evArgs(ev *Event) []*Term {
	if !ev.done {
		ev.done = true
		switch x := ev.in.(type) {
		case *ssa.Store:
			ev.args = []*Term{g.val(ev.c, x.Addr), g.val(ev.c, x.Val)}
		case *ssa.MapUpdate:
			ev.args = []*Term{g.val(ev.c, x.Map), g.val(ev.c, x.Key), g.val(ev.c, x.Value)}
		default:
			if ev.cc != nil {
				ev.args = g.callArgs(ev.c, ev.cc)
			}
		}
	}
	out := make([]*Term, len(ev.args))
	for i, a := range ev.args {
		out[i] = g.norm(a)
	}
	ev.args = out
	return out
}

func (g *Graph) evResult(ev *Event) *Term {
	if ev.res == nil {
		// the arguments are part of the term for inspection, the id makes
		// it unique
		as := g.evArgs(ev)
		ev.res = g.T.mk(&Term{op: OInv, i: ev.id, s: ev.callee, args: as, data: ev})
	}
	return g.norm(ev.res)
}

// pureCall applies known identities of pure functions.
func (g *Graph) pureCall(name string, args []*Term) *Term {
	T := g.T
	switch name {
	case "math.Max", "math.Min":
		if name == "math.Max" {
			return T.ite(T.lt(args[0], args[1], false), args[1], args[0])
		}
		return T.ite(T.lt(args[1], args[0], false), args[1], args[0])
	case "strings.Replace":
		if args[3].isNum() && args[3].rat().Sign() < 0 {
			return T.call("strings.ReplaceAll", args[:3]...)
		}
	case "strings.ReplaceAll":
		if args[1].isStr() && args[2].isStr() && args[0].isStr() {
			return T.str(strings.ReplaceAll(args[0].s, args[1].s, args[2].s))
		}
	case "strings.Repeat":
		if args[0].isStr() && args[1].isNum() && args[1].rat().IsInt() {
			n := args[1].rat().Num().Int64()
			if n >= 0 && n < 64 {
				return T.str(strings.Repeat(args[0].s, int(n)))
			}
		}
	case "strconv.Itoa":
		return T.call("decimal", args[0])
	case "strconv.FormatInt":
		if args[1].isNum() && args[1].s == "10" {
			return T.call("decimal", args[0])
		}
	case "fmt.Sprint":
		if args[0].op == OSeq && len(args[0].args) == 1 && args[0].s == "e" {
			if x := args[0].args[0]; x.op == OIface {
				if isIntType(x.typ) {
					return T.call("decimal", x.args[0])
				}
				if isStringType(x.typ) {
					return x.args[0]
				}
			}
		}
	case "fmt.Sprintf":
		if r := g.sprintf(args); r != nil {
			return r
		}
	case "strings.Contains":
		if args[0].isStr() && args[1].isStr() {
			return T.boolC(strings.Contains(args[0].s, args[1].s))
		}
	case "strings.Join":
		if args[0].op == OSeq && !strings.Contains(args[0].s, "s") {
			ps := []*Term{}
			for i, a := range args[0].args {
				if i > 0 {
					ps = append(ps, args[1])
				}
				ps = append(ps, a)
			}
			return T.concat(ps...)
		}
	case "path/filepath.Clean":
		if args[0].op == OCall && (args[0].s == name || args[0].s == "path/filepath.Join") {
			return args[0]
		}
	case "strings.TrimSpace":
		return T.call(name, args...)
	}
	as := make([]*Term, len(args))
	copy(as, args)
	return T.call(name, as...)
}

// sprintf turns simple formats into concatenations: %s of strings, %d / %v of
// integers.
func (g *Graph) sprintf(args []*Term) *Term {
	T := g.T
	if len(args) != 2 || !args[0].isStr() || args[1].op != OSeq || strings.Contains(args[1].s, "s") {
		return nil
	}
	f := args[0].s
	vals := args[1].args
	parts := []*Term{}
	vi := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			parts = append(parts, T.str(string(f[i])))
			continue
		}
		i++
		if i >= len(f) {
			return nil
		}
		if f[i] == '%' {
			parts = append(parts, T.str("%"))
			continue
		}
		if vi >= len(vals) || vals[vi].op != OIface {
			return nil
		}
		x := vals[vi]
		vi++
		stringer := types.NewMethodSet(x.typ).Lookup(nil, "String") != nil || types.NewMethodSet(x.typ).Lookup(nil, "Error") != nil
		switch {
		case (f[i] == 'd' || f[i] == 'v') && isIntType(x.typ) && !stringer:
			parts = append(parts, T.call("decimal", x.args[0]))
		case (f[i] == 's' || f[i] == 'v') && isStringType(x.typ) && !stringer:
			parts = append(parts, x.args[0])
		default:
			return nil
		}
	}
	if vi != len(vals) {
		return nil
	}
	return T.concat(parts...)
}

// ---- joins

func (g *Graph) region(j *Node) bitset {
	if r, ok := g.regions[j]; ok {
		return r
	}
	r := newBitset(len(g.nodes))
	d := j.idom
	var st []*Node
	for _, e := range j.preds {
		st = append(st, e.from)
	}
	for len(st) > 0 {
		n := st[len(st)-1]
		st = st[:len(st)-1]
		if n == d || r.has(n.id) {
			continue
		}
		r.set(n.id)
		if n == j {
			continue // back edges were pushed already
		}
		for _, e := range n.preds {
			st = append(st, e.from)
		}
	}
	g.regions[j] = r
	return r
}

func (g *Graph) cond(e *Edge) *Term {
	T := g.T
	if e.fn != nil {
		return g.assume(g.fnIs(g.ref(*e.fnv), e.fn))
	}
	if e.cond == nil {
		return nil
	}
	t := g.assume(g.ref(*e.cond))
	if e.neg {
		return T.not(t)
	}
	return t
}

func (g *Graph) fnIs(f *Term, fn *ssa.Function) *Term {
	T := g.T
	switch f.op {
	case OFn:
		return T.boolC(f.data.(*ssa.Function) == fn)
	case OIte:
		return T.ite(f.args[0], g.fnIs(f.args[1], fn), g.fnIs(f.args[2], fn))
	case OBottom:
		return f
	}
	return T.mk(&Term{op: OFnIs, s: fn.String(), args: []*Term{f}})
}

type gater struct {
	g    *Graph
	j    *Node
	key  string
	pick func(*Edge) *Term
	leaf map[*Edge]bool
	memo map[*Node]*Term
	busy map[*Node]bool
	reg  bitset
}

// gate selects among the leaf edges into j by the branch conditions between
// start and j.
func (g *Graph) gate(j *Node, start *Node, leaf []*Edge, key string, pick func(*Edge) *Term) *Term {
	if len(leaf) == 1 {
		return pick(leaf[0])
	}
	// all leaves equal?
	w := &gater{g: g, j: j, key: key, pick: pick, leaf: map[*Edge]bool{}, memo: map[*Node]*Term{}, busy: map[*Node]bool{}}
	var first *Term
	same := true
	for _, e := range leaf {
		w.leaf[e] = true
		t := pick(e)
		if t.op == OBottom {
			continue
		}
		if first == nil {
			first = t
		} else if first != t {
			same = false
		}
	}
	if first == nil {
		return g.T.Bot
	}
	if same {
		return first
	}
	// nodes from which a leaf is reachable, going back to start
	w.reg = newBitset(len(g.nodes))
	var st []*Node
	for _, e := range leaf {
		st = append(st, e.from)
	}
	for len(st) > 0 {
		n := st[len(st)-1]
		st = st[:len(st)-1]
		if w.reg.has(n.id) {
			continue
		}
		w.reg.set(n.id)
		if n == start {
			continue
		}
		for _, e := range n.preds {
			st = append(st, e.from)
		}
	}
	return w.node(start, true)
}

func (w *gater) edge(e *Edge) *Term {
	if w.leaf[e] {
		return w.pick(e)
	}
	if e.to == w.j || !w.reg.has(e.to.id) {
		return w.g.T.Bot
	}
	return w.node(e.to, false)
}

func (w *gater) node(n *Node, start bool) *Term {
	T := w.g.T
	if !start || n != w.j {
		if t, ok := w.memo[n]; ok {
			return t
		}
	}
	if w.busy[n] {
		return T.Bot
	}
	w.busy[n] = true
	defer delete(w.busy, n)
	if l := w.g.loops[n]; l != nil && n != w.j && !l.body[w.j] {
		// the loop is left by one of its exits
		var vals []exitVal
		var first *Term
		same := true
		for b := range l.body {
			w.busy[b] = true
		}
		for _, e := range l.exits {
			t := w.edge(e)
			if t.op == OBottom {
				continue
			}
			vals = append(vals, exitVal{e, t})
			if first == nil {
				first = t
			} else if first != t {
				same = false
			}
		}
		// leaf edges that leave from inside of the loop are exits, too
		for b := range l.body {
			delete(w.busy, b)
		}
		var t *Term
		switch {
		case first == nil:
			t = T.Bot
		case same:
			t = first
		default:
			t = T.mk(&Term{op: OAtom, s: fmt.Sprintf("exit%d.%d.%s", n.id, w.j.id, w.key), data: &exitJoin{l, vals}})
		}
		w.memo[n] = t
		return t
	}
	var t *Term
	switch len(n.succs) {
	case 0:
		t = T.Bot
	case 1:
		t = w.edge(n.succs[0])
	default:
		t = nil
		if n.succs[0].unknown || (n.succs[0].cond == nil && n.succs[0].fn == nil) {
			a := w.edge(n.succs[0])
			for _, e := range n.succs[1:] {
				b := w.edge(e)
				if a.op == OBottom {
					a = b
				} else if b.op != OBottom && a != b {
					a = T.atom(fmt.Sprintf("amb%d.%d.%s", n.id, w.j.id, w.key))
				}
			}
			t = a
		} else {
			for i := len(n.succs) - 1; i >= 0; i-- {
				e := n.succs[i]
				x := w.edge(e)
				if t == nil {
					t = x
					continue
				}
				if x == t {
					continue
				}
				t = T.ite(w.g.cond(e), x, t)
			}
		}
	}
	w.memo[n] = t
	return t
}

// joinVal is the value selected at node j among its incoming edges.
func (g *Graph) joinVal(j *Node, key string, mk valKey, pick func(*Edge) *Term) *Term {
	T := g.T
	if j.rpo < 0 || len(j.preds) == 0 {
		return T.Bot
	}
	l := g.loops[j]
	if l == nil {
		return g.norm(g.gate(j, j.idom, j.preds, key, pick))
	}
	lv := T.mk(&Term{op: OLoopVar, s: fmt.Sprintf("%d:%s", j.id, key)})
	if lv.data == nil {
		lv.data = &loopInfo{g: g, head: j, key: key}
	}
	if mk.c != nil {
		g.memo[mk] = lv
	}
	return g.loopVal(j, l, lv, key, pick)
}

func (g *Graph) loopVal(j *Node, l *Loop, lv *Term, key string, pick func(*Edge) *Term) *Term {
	T := g.T
	li := lv.data.(*loopInfo)
	var entry, back []*Edge
	for _, e := range j.preds {
		if dominates(j, e.from) {
			back = append(back, e)
		} else {
			entry = append(entry, e)
		}
	}
	init := g.norm(g.gate(j, j.idom, entry, key, pick))
	li.init = init
	next := g.norm(g.gate(j, j, back, key, pick))
	li.next = next
	if r, ok := g.resolved[lv]; ok {
		return r
	}
	r := lv
	if next == lv || next.op == OBottom {
		r = init
	} else if next == init && !mentions(next, lv) {
		r = init
	} else if d, ok := T.constDiff(next, lv); ok && d.Sign() != 0 && !mentions(init, lv) {
		iv := T.mk(&Term{op: OIV, i: j.id, data: l})
		r = T.add(init, T.scale(iv, d))
	} else if init.op == OBottom {
		r = T.Bot
	}
	if r != lv {
		g.resolve(lv, r)
	} else {
		g.open = append(g.open, lv)
	}
	return r
}

// info of a loop-carried value, normalised.
func (g *Graph) loopInfo(t *Term) (init, next *Term, head *Node) {
	if t.op != OLoopVar {
		return nil, nil, nil
	}
	li := t.data.(*loopInfo)
	return g.norm(li.init), g.norm(li.next), li.head
}

// ---- memory

func addrRoot(a *Term) *Term {
	for a.op == OFAddr || a.op == OIAddr {
		a = a.args[0]
	}
	return a
}

const (
	noAlias = iota
	covers  // the store overwrites all of what is read
	part    // the store overwrites a part of what is read
	weak
)

func addrPath(a *Term) []*Term {
	var out []*Term
	for a.op == OFAddr || a.op == OIAddr {
		out = append(out, a)
		a = a.args[0]
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (g *Graph) alias(st, rd *Term) (int, []*Term) {
	if st == rd {
		return covers, nil
	}
	if st.op == OBottom || rd.op == OBottom {
		return noAlias, nil
	}
	if st.op == OIte {
		a, _ := g.alias(st.args[1], rd)
		b, _ := g.alias(st.args[2], rd)
		if a == noAlias && b == noAlias {
			return noAlias, nil
		}
		return weak, nil
	}
	if addrRoot(st) != addrRoot(rd) {
		return noAlias, nil
	}
	ps, pr := addrPath(st), addrPath(rd)
	isWeak := false
	for i := 0; i < len(ps) && i < len(pr); i++ {
		a, b := ps[i], pr[i]
		if a == b {
			continue
		}
		if a.op != b.op {
			return weak, nil
		}
		if a.op == OFAddr {
			if a.i != b.i {
				return noAlias, nil
			}
			continue
		}
		ia, ib := a.args[1], b.args[1]
		if ia == ib {
			continue
		}
		if d, ok := g.T.constDiff(ia, ib); ok && d.Sign() != 0 {
			return noAlias, nil
		}
		isWeak = true
	}
	if isWeak {
		return weak, nil
	}
	if len(ps) <= len(pr) {
		return covers, pr[len(ps):]
	}
	return part, nil
}

// mayTouch: could a store of type st (through address value a) overlap a
// location of type rd (with last field key)?
func typeContains(a, b types.Type, d int) bool {
	if types.Identical(a, b) {
		return true
	}
	if d > 8 {
		return true
	}
	switch u := a.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if typeContains(u.Field(i).Type(), b, d+1) {
				return true
			}
		}
	case *types.Array:
		return typeContains(u.Elem(), b, d+1)
	}
	return false
}

func (g *Graph) noClobber(ev *Event) bool {
	if ev.kind != "call" {
		return ev.kind != "copy"
	}
	if g.opts.NoClobber != nil && g.opts.NoClobber(ev.callee) {
		return true
	}
	for _, p := range []string{"fmt.Print", "fmt.Fprint", "os.", "(*os.File)", "github.com/mazzegi/log.", "log.", "sort.", "iface:engine.Engine", "reflect.", "(reflect."} {
		if strings.HasPrefix(ev.callee, p) {
			return true
		}
	}
	return false
}

// candidates are the nodes that contain a write which may overlap a location
// of the given type.
func (g *Graph) candidates(addr *Term, typ types.Type) (nodeSet, string) {
	key := typeKey(typ)
	fieldKey := ""
	if addr.op == OFAddr && addr.typ != nil {
		fieldKey = fmt.Sprintf("%s#%d", typeKey(addr.typ), addr.i)
	}
	ckey := key + "|" + fieldKey
	root := addrRoot(addr)
	if root.op == OAlloc {
		ckey += "|" + root.s
	} else if root.op == OParam || root.op == OLoad || root.op == OAssert || root.op == OIndex {
		ckey += "|*"
	} else {
		ckey += fmt.Sprintf("|%d", root.op)
	}
	if c, ok := g.candMemo[ckey]; ok {
		return c, ckey
	}
	out := nodeSet{}
	for _, n := range g.nodes {
		hit := false
		for i, it := range n.items {
			switch s := it.in.(type) {
			case *ssa.Store:
				st := s.Val.Type()
				if !typeContains(st, typ, 0) && !typeContains(typ, st, 0) {
					continue
				}
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldKey != "" && types.Identical(st, typ) {
					if fmt.Sprintf("%s#%d", typeKey(deref(fa.X.Type())), fa.Field) != fieldKey {
						continue
					}
				}
				if al := allocRoot(s.Addr); al != nil {
					if root.op != OAlloc {
						continue
					}
					if vk, ok := root.data.(valKey); ok && vk.v != ssa.Value(al) {
						continue
					}
				}
				hit = true
			case *ssa.Alloc:
				if addrRoot(addr).op == OAlloc {
					if vk, ok := addrRoot(addr).data.(valKey); ok && vk.v == ssa.Value(s) && vk.c == n.c {
						hit = true
					}
				}
			case *ssa.Call, *ssa.Defer:
				ev := g.evAt[itemKey{n, i}]
				if ev == nil || g.noClobber(ev) {
					continue
				}
				for _, a := range ev.cc.Args {
					if pointsInto(a, typ) {
						hit = true
					}
				}
			}
		}
		if hit {
			out[n] = true
		}
	}
	g.candMemo[ckey] = out
	return out, ckey
}

// allocRoot is the variable or object an address is a part of, if it is
// evident.
func allocRoot(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return nil
			}
			v = x.X
		case *ssa.Alloc:
			return x
		default:
			return nil
		}
	}
}

func pointsInto(v ssa.Value, typ types.Type) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return pointsInto(x.X, typ)
	case *ssa.ChangeInterface:
		return pointsInto(x.X, typ)
	case *ssa.Slice:
		// variadic arguments
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, r2 := range *ia.Referrers() {
						if s, ok := r2.(*ssa.Store); ok && pointsInto(s.Val, typ) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	if p, ok := v.Type().Underlying().(*types.Pointer); ok {
		return typeContains(p.Elem(), typ, 0) || typeContains(typ, p.Elem(), 0)
	}
	return false
}

type nodeSet map[*Node]bool

func anyIn(ns nodeSet, r bitset) bool {
	for n := range ns {
		if r.has(n.id) {
			return true
		}
	}
	return false
}

// sameList is the list that all the choices are, or are parts of.
func sameList(b *Term) *Term {
	switch b.op {
	case OIte:
		x, y := sameList(b.args[1]), sameList(b.args[2])
		if x == y {
			return x
		}
		return nil
	case OSlice:
		b = b.args[0]
	}
	if b.op == OLoad || b.op == OParam || b.op == OField || b.op == OLoopVar {
		return b
	}
	return nil
}

// read is the value of the location addr just before item idx of node n.
func (g *Graph) read(n *Node, idx int, addr *Term, typ types.Type) *Term {
	T := g.T
	addr = g.norm(addr)
	switch addr.op {
	case OBottom:
		return addr
	case OIte:
		return T.ite(addr.args[0], g.read(n, idx, addr.args[1], typ), g.read(n, idx, addr.args[2], typ))
	case OIAddr:
		// parts of one list
		if b := addr.args[0]; b.op == OIte {
			if x := sameList(b); x != nil {
				var at func(b *Term) *Term
				at = func(b *Term) *Term {
					switch {
					case b.op == OIte:
						return T.ite(b.args[0], at(b.args[1]), at(b.args[2]))
					case b == x || b.args[1].op == ONone:
						return addr.args[1]
					}
					return T.add(b.args[1], addr.args[1])
				}
				return g.read(n, idx, T.mk(&Term{op: OIAddr, args: []*Term{x, at(b)}}), typ)
			}
		}
		// elements of sequence values
		if b := addr.args[0]; b.op == OSeq || b.op == OIte {
			return T.index(b, addr.args[1])
		}
	case OGlobal:
		if t := g.globalConst(addr); t != nil {
			return t
		}
	}
	if addr.op == OFAddr && addrRoot(addr).op == OGlobal {
		if t := g.globalPath(addr, typ); t != nil {
			return t
		}
	}
	cands, _ := g.candidates(addr, typ)
	return g.norm(g.readFrom(n, idx, addr, typ, cands))
}

func (g *Graph) readFrom(n *Node, idx int, addr *Term, typ types.Type, cands nodeSet) *Term {
	T := g.T
	for {
		if cands[n] {
			if t := g.scan(n, idx, addr, typ); t != nil {
				return t
			}
		}
		if n == g.entry {
			return T.load(addr)
		}
		if len(n.preds) == 1 {
			n = n.preds[0].from
			idx = len(n.items)
			continue
		}
		if !anyIn(cands, g.region(n)) {
			n = n.idom
			idx = len(n.items)
			continue
		}
		break
	}
	// join
	mk := memKey{n, addr}
	if t, ok := g.memMemo[mk]; ok {
		return g.norm(t)
	}
	pick := func(e *Edge) *Term {
		return g.readFrom(e.from, len(e.from.items), addr, typ, cands)
	}
	key := fmt.Sprintf("m%d", addr.id)
	l := g.loops[n]
	if l != nil {
		var entry []*Edge
		for _, e := range n.preds {
			if !dominates(n, e.from) {
				entry = append(entry, e)
			}
		}
		inLoop := false
		for c := range cands {
			if l.body[c] {
				inLoop = true
			}
		}
		if !inLoop {
			t := g.gate(n, n.idom, entry, key, pick)
			g.memMemo[mk] = t
			return t
		}
		lv := T.mk(&Term{op: OLoopVar, s: fmt.Sprintf("%d:%s", n.id, key)})
		if lv.data == nil {
			lv.data = &loopInfo{g: g, head: n, key: key, addr: addr}
			lv.typ = typ
		}
		g.memMemo[mk] = lv
		t := g.loopVal(n, l, lv, key, pick)
		g.memMemo[mk] = t
		return t
	}
	t := g.gate(n, n.idom, n.preds, key, pick)
	g.memMemo[mk] = t
	return t
}

// scan looks for the last write to addr before item idx of node n.
func (g *Graph) scan(n *Node, idx int, addr *Term, typ types.Type) *Term {
	T := g.T
	for i := idx - 1; i >= 0; i-- {
		switch s := n.items[i].in.(type) {
		case *ssa.Alloc:
			root := addrRoot(addr)
			if root.op == OAlloc {
				if vk, ok := root.data.(valKey); ok && vk.c == n.c && vk.v == ssa.Value(s) {
					return T.zeroValue(typ)
				}
			}
		case *ssa.Store:
			st := s.Val.Type()
			if !typeContains(st, typ, 0) && !typeContains(typ, st, 0) {
				continue
			}
			sa := g.val(n.c, s.Addr)
			rel, rest := g.alias(sa, addr)
			switch rel {
			case covers:
				v := g.val(n.c, s.Val)
				for _, p := range rest {
					if p.op == OFAddr {
						v = g.fieldOf(v, p.i, p.typ, typ)
					} else {
						v = T.index(v, p.args[1])
					}
				}
				return v
			case part:
				if stt, ok := typ.Underlying().(*types.Struct); ok {
					fs := []*Term{}
					for k := 0; k < stt.NumFields(); k++ {
						fs = append(fs, g.read(n, i+1, T.faddr(addr, k, typ), stt.Field(k).Type()))
					}
					return T.structT(typ, fs)
				}
				return T.atom(fmt.Sprintf("part%d.%d.%d", n.id, i, addr.id))
			case weak:
				return T.mk(&Term{op: OAtom, s: fmt.Sprintf("weak%d.%d.%d", n.id, i, addr.id), data: addr})
			}
		case *ssa.Call, *ssa.Defer:
			ev := g.evAt[itemKey{n, i}]
			if ev == nil || g.noClobber(ev) {
				continue
			}
			for _, a := range ev.cc.Args {
				if !pointsInto(a, typ) {
					continue
				}
				for _, at := range g.pointerArgs(g.val(n.c, a)) {
					rel, _ := g.alias(at, addr)
					if rel == covers || rel == weak {
						return T.mk(&Term{op: OClobber, i: ev.id, s: ev.callee, args: []*Term{addr}, data: ev})
					}
					if rel == part {
						if stt, ok := typ.Underlying().(*types.Struct); ok {
							fs := []*Term{}
							for k := 0; k < stt.NumFields(); k++ {
								fs = append(fs, g.read(n, i+1, T.faddr(addr, k, typ), stt.Field(k).Type()))
							}
							return T.structT(typ, fs)
						}
					}
				}
			}
		}
	}
	return nil
}

func (g *Graph) pointerArgs(t *Term) []*Term {
	t = strip(t)
	switch t.op {
	case OAlloc, OFAddr, OIAddr, OGlobal, OParam, OLoad:
		return []*Term{t}
	case OSeq:
		var out []*Term
		for _, a := range t.args {
			out = append(out, g.pointerArgs(a)...)
		}
		return out
	}
	return nil
}

// fieldOf reads a field of a struct value; a field of a loop-carried memory
// cell is read at the granularity of the field.
func (g *Graph) fieldOf(v *Term, i int, st types.Type, leaf types.Type) *Term {
	if v.op == OLoopVar {
		if li, ok := v.data.(*loopInfo); ok && li.addr != nil {
			ft := leaf
			if s, ok := st.Underlying().(*types.Struct); ok {
				ft = s.Field(i).Type()
			}
			return g.readAtHead(li, g.T.faddr(li.addr, i, st), ft)
		}
	}
	return g.T.field(v, i, st)
}

func (g *Graph) readAtHead(li *loopInfo, addr *Term, typ types.Type) *Term {
	cands, _ := g.candidates(addr, typ)
	return g.norm(g.readFrom(li.head, 0, addr, typ, cands))
}

// globalConst resolves package variables that are initialised once with a
// constant and never written again.
func (g *Graph) globalConst(addr *Term) *Term {
	gl, ok := addr.data.(*ssa.Global)
	if !ok {
		return nil
	}
	v := g.P.globalInit(gl)
	if v == nil {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		return g.constTerm(x)
	}
	return nil
}
