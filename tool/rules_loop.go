package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C24", "termination measure on every cycle of every loop (counter towards an unchanged bound, shrinking or consumed input, growing list below an unchanged length) and structural descent on every cycle of the call graph", ruleC24)
}

// span is an interval; the infinities stand for no bound.
type span struct{ lo, hi float64 }

var anySpan = span{math.Inf(-1), math.Inf(1)}

func (a span) add(b span) span { return span{a.lo + b.lo, a.hi + b.hi} }
func (a span) neg() span       { return span{-a.hi, -a.lo} }
func (a span) join(b span) span {
	return span{math.Min(a.lo, b.lo), math.Max(a.hi, b.hi)}
}

type loopA struct {
	p    *Prog
	fn   *ssa.Function
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
	// the cycles: blocks from the head to a latch
	paths [][]*ssa.BasicBlock
	over  bool
	eff   map[*ssa.Function]map[string]bool
}

func (p *Prog) loopsOf(f *ssa.Function) []*loopA {
	var out []*loopA
	for _, b := range f.Blocks {
		if isLoopHead(b) {
			l := &loopA{p: p, fn: f, head: b, body: loopOf(b)}
			l.enumerate()
			out = append(out, l)
		}
	}
	return out
}

func (l *loopA) enumerate() {
	var cur []*ssa.BasicBlock
	on := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		if l.over {
			return
		}
		cur = append(cur, b)
		on[b] = true
		done := map[*ssa.BasicBlock]bool{}
		for _, s := range b.Succs {
			if done[s] {
				continue
			}
			done[s] = true
			if s == l.head {
				l.paths = append(l.paths, append([]*ssa.BasicBlock{}, cur...))
				if len(l.paths) > 3000 {
					l.over = true
				}
				continue
			}
			if l.body[s] && !on[s] {
				rec(s)
			}
		}
		on[b] = false
		cur = cur[:len(cur)-1]
	}
	rec(l.head)
}

func (l *loopA) inv(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	if !ok {
		return true
	}
	return !l.body[in.Block()]
}

func predIdx(b, p *ssa.BasicBlock) int {
	for i, x := range b.Preds {
		if x == p {
			return i
		}
	}
	return -1
}

// onPath resolves a phi by the path taken; nil if it cannot.
func (l *loopA) onPath(ph *ssa.Phi, path []*ssa.BasicBlock) ssa.Value {
	for i, b := range path {
		if b == ph.Block() && i > 0 {
			if j := predIdx(b, path[i-1]); j >= 0 {
				return ph.Edges[j]
			}
		}
	}
	return nil
}

// rel bounds v - p, where p is a phi of the head and path one cycle.
func (l *loopA) rel(v ssa.Value, p *ssa.Phi, path []*ssa.BasicBlock, d int) (span, bool) {
	if v == ssa.Value(p) {
		return span{0, 0}, true
	}
	if d > 12 {
		return anySpan, false
	}
	switch v := v.(type) {
	case *ssa.BinOp:
		switch v.Op {
		case token.ADD:
			if a, ok := l.rel(v.X, p, path, d+1); ok {
				return a.add(l.bounds(v.Y, path, d+1)), true
			}
			if a, ok := l.rel(v.Y, p, path, d+1); ok {
				return a.add(l.bounds(v.X, path, d+1)), true
			}
		case token.SUB:
			if a, ok := l.rel(v.X, p, path, d+1); ok {
				return a.add(l.bounds(v.Y, path, d+1).neg()), true
			}
		}
	case *ssa.Convert:
		return l.rel(v.X, p, path, d+1)
	case *ssa.ChangeType:
		return l.rel(v.X, p, path, d+1)
	case *ssa.Phi:
		if v.Block() == l.head {
			return anySpan, false
		}
		if isLoopHead(v.Block()) && l.body[v.Block()] {
			// carried through an inner loop
			inner := loopOf(v.Block())
			s, ok := anySpan, false
			for i, e := range v.Edges {
				if inner[v.Block().Preds[i]] {
					continue
				}
				x, k := l.rel(e, p, path, d+1)
				if !k {
					return anySpan, false
				}
				if !ok {
					s, ok = x, true
				} else {
					s = s.join(x)
				}
			}
			for i, e := range v.Edges {
				if !inner[v.Block().Preds[i]] {
					continue
				}
				x := selfRel(e, v, map[ssa.Value]bool{})
				if x.lo < 0 {
					s.lo = math.Inf(-1)
				}
				if x.hi > 0 {
					s.hi = math.Inf(1)
				}
			}
			return s, ok
		}
		if r := l.onPath(v, path); r != nil {
			return l.rel(r, p, path, d+1)
		}
	}
	return anySpan, false
}

// selfRel bounds the change of a phi over one round of its own loop.
func selfRel(v ssa.Value, p *ssa.Phi, seen map[ssa.Value]bool) span {
	if v == ssa.Value(p) {
		return span{0, 0}
	}
	if seen[v] {
		return anySpan
	}
	seen[v] = true
	defer delete(seen, v)
	switch v := v.(type) {
	case *ssa.BinOp:
		c, ok := v.Y.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
			return anySpan
		}
		n, _ := constant.Int64Val(c.Value)
		switch v.Op {
		case token.ADD:
			return selfRel(v.X, p, seen).add(span{float64(n), float64(n)})
		case token.SUB:
			return selfRel(v.X, p, seen).add(span{float64(-n), float64(-n)})
		}
	case *ssa.Phi:
		s, first := anySpan, true
		for _, e := range v.Edges {
			x := selfRel(e, p, seen)
			if first {
				s, first = x, false
			} else {
				s = s.join(x)
			}
		}
		return s
	}
	return anySpan
}

// bounds of a value that does not depend on the phi.
func (l *loopA) bounds(v ssa.Value, path []*ssa.BasicBlock, d int) span {
	if d > 12 {
		return anySpan
	}
	s := anySpan
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && (v.Value.Kind() == constant.Int || v.Value.Kind() == constant.Float) {
			f, _ := constant.Float64Val(constant.ToFloat(v.Value))
			return span{f, f}
		}
	case *ssa.Call:
		if b, ok := v.Common().Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap":
				s = span{0, math.Inf(1)}
			case "min", "max":
				var as []span
				for _, a := range v.Common().Args {
					as = append(as, l.bounds(a, path, d+1))
				}
				s = as[0]
				for _, a := range as[1:] {
					if b.Name() == "max" {
						s = span{math.Max(s.lo, a.lo), math.Max(s.hi, a.hi)}
					} else {
						s = span{math.Min(s.lo, a.lo), math.Min(s.hi, a.hi)}
					}
				}
			}
		} else if f := v.Common().StaticCallee(); f != nil {
			n := f.RelString(nil)
			if strings.HasPrefix(n, "strings.Index") || strings.HasPrefix(n, "strings.LastIndex") || strings.HasPrefix(n, "bytes.Index") || strings.HasPrefix(n, "bytes.LastIndex") {
				s = span{-1, math.Inf(1)}
			}
			if n == "strings.Count" || strings.HasSuffix(n, "utf8.RuneCountInString") || strings.HasSuffix(n, "utf8.RuneLen") {
				s = span{0, math.Inf(1)}
			}
		}
	case *ssa.Extract:
		if call, ok := v.Tuple.(*ssa.Call); ok && v.Index == 1 {
			if f := call.Common().StaticCallee(); f != nil && strings.HasPrefix(f.RelString(nil), "unicode/utf8.Decode") {
				s = span{0, math.Inf(1)}
			}
		}
	case *ssa.BinOp:
		switch v.Op {
		case token.ADD:
			s = l.bounds(v.X, path, d+1).add(l.bounds(v.Y, path, d+1))
		case token.SUB:
			s = l.bounds(v.X, path, d+1).add(l.bounds(v.Y, path, d+1).neg())
		}
	case *ssa.Convert:
		s = l.bounds(v.X, path, d+1)
		if b, ok := v.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 && s.lo < 0 {
			s.lo = 0
		}
	case *ssa.Phi:
		if r := l.onPath(v, path); r != nil {
			s = l.bounds(r, path, d+1)
		}
	}
	// what the branches taken on the path say
	for i := 0; i+1 < len(path); i++ {
		f, ok := path[i].Instrs[len(path[i].Instrs)-1].(*ssa.If)
		if !ok || path[i].Succs[0] == path[i].Succs[1] {
			continue
		}
		s = restrict(s, v, f.Cond, path[i+1] == path[i].Succs[0])
	}
	return s
}

func restrict(s span, v ssa.Value, cond ssa.Value, val bool) span {
	switch c := cond.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			return restrict(s, v, c.X, !val)
		}
	case *ssa.BinOp:
		x, y, op := c.X, c.Y, c.Op
		if y == v {
			x, y = y, x
			switch op {
			case token.LSS:
				op = token.GTR
			case token.LEQ:
				op = token.GEQ
			case token.GTR:
				op = token.LSS
			case token.GEQ:
				op = token.LEQ
			}
		}
		k, ok := y.(*ssa.Const)
		if x != v || !ok || k.Value == nil || k.Value.Kind() != constant.Int {
			return s
		}
		n, _ := constant.Int64Val(k.Value)
		f := float64(n)
		if !val {
			switch op {
			case token.LSS:
				op = token.GEQ
			case token.LEQ:
				op = token.GTR
			case token.GTR:
				op = token.LEQ
			case token.GEQ:
				op = token.LSS
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			}
		}
		switch op {
		case token.LSS:
			s.hi = math.Min(s.hi, f-1)
		case token.LEQ:
			s.hi = math.Min(s.hi, f)
		case token.GTR:
			s.lo = math.Max(s.lo, f+1)
		case token.GEQ:
			s.lo = math.Max(s.lo, f)
		case token.EQL:
			s = span{f, f}
		case token.NEQ:
			if s.lo == f {
				s.lo = f + 1
			}
			if s.hi == f {
				s.hi = f - 1
			}
		}
	}
	return s
}

// storedFields: the fields (type#index) a function may write, "?" for others.
func (p *Prog) storedFields(f *ssa.Function) map[string]bool {
	if p.effs == nil {
		p.effs = map[*ssa.Function]map[string]bool{}
	}
	if e, ok := p.effs[f]; ok {
		return e
	}
	e := map[string]bool{}
	p.effs[f] = e
	for g := range p.reach(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if k := storeKey(st.Addr); k != "" {
						e[k] = true
					}
				}
			}
		}
	}
	return e
}

func storeKey(a ssa.Value) string {
	switch a := a.(type) {
	case *ssa.FieldAddr:
		return fieldKey(deref(a.X.Type()), a.Field)
	case *ssa.Alloc:
		return ""
	case *ssa.IndexAddr:
		return "[]"
	case *ssa.FreeVar:
		return "free:" + a.Parent().String() + a.Name()
	}
	return "*" + types.TypeString(deref(a.Type()), nil)
}

// changes: the instruction may change what is loaded from addr.
func (l *loopA) changes(in ssa.Instruction, addr ssa.Value) bool {
	switch in := in.(type) {
	case *ssa.Store:
		if in.Addr == addr {
			return true
		}
		fa, ok1 := addr.(*ssa.FieldAddr)
		fb, ok2 := in.Addr.(*ssa.FieldAddr)
		if ok1 && ok2 {
			return fieldKey(deref(fa.X.Type()), fa.Field) == fieldKey(deref(fb.X.Type()), fb.Field)
		}
		if ok1 {
			_, al := in.Addr.(*ssa.Alloc)
			_, ia := in.Addr.(*ssa.IndexAddr)
			return !al && !ia && types.Identical(deref(in.Addr.Type()), deref(addr.Type()))
		}
		if _, ok := addr.(*ssa.Alloc); ok {
			return false
		}
		return types.Identical(deref(in.Addr.Type()), deref(addr.Type()))
	case ssa.CallInstruction:
		cc := in.Common()
		if _, ok := cc.Value.(*ssa.Builtin); ok {
			return false
		}
		if al, ok := addr.(*ssa.Alloc); ok {
			return captured(al)
		}
		s := l.p.siteAt(l.fn, in)
		if s == nil {
			return true
		}
		fa, ok := addr.(*ssa.FieldAddr)
		if !ok {
			return true
		}
		k := fieldKey(deref(fa.X.Type()), fa.Field)
		for _, f := range append(append([]*ssa.Function{}, s.fns...), s.passed...) {
			if l.p.storedFields(f)[k] {
				return true
			}
		}
		if len(s.fns) == 0 && s.ext == "" {
			return true // unknown function value
		}
		return false
	}
	return false
}

func (p *Prog) siteAt(f *ssa.Function, in ssa.Instruction) *site {
	for _, s := range p.callgraph().sites[f] {
		if s.in == in {
			return s
		}
	}
	return nil
}

// change bounds how much an expression of an exit test changes over one cycle.
func (l *loopA) change(v ssa.Value, path []*ssa.BasicBlock, d int) span {
	if d > 8 {
		return anySpan
	}
	if l.inv(v) {
		return span{0, 0}
	}
	switch v := v.(type) {
	case *ssa.Phi:
		if v.Block() == l.head {
			latch := path[len(path)-1]
			j := predIdx(l.head, latch)
			if j >= 0 {
				if s, ok := l.rel(v.Edges[j], v, path, 0); ok {
					return s
				}
			}
		}
		return anySpan
	case *ssa.BinOp:
		switch v.Op {
		case token.ADD:
			return l.change(v.X, path, d+1).add(l.change(v.Y, path, d+1))
		case token.SUB:
			return l.change(v.X, path, d+1).add(l.change(v.Y, path, d+1).neg())
		}
	case *ssa.Convert:
		return l.change(v.X, path, d+1)
	case *ssa.UnOp:
		if v.Op == token.MUL && l.unchanged(v.X, path) {
			return span{0, 0}
		}
		// a local counter kept in memory
		if v.Op == token.MUL {
			return l.memChange(v, path)
		}
	case *ssa.Call:
		cc := v.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok && (b.Name() == "len") {
			return l.lenChange(cc.Args[0], path, d+1)
		}
		if l.pureCall(v) {
			for _, a := range cc.Args {
				if c := l.change(a, path, d+1); c != (span{0, 0}) {
					return anySpan
				}
			}
			if cc.IsInvoke() {
				if c := l.change(cc.Value, path, d+1); c != (span{0, 0}) {
					return anySpan
				}
			}
			return span{0, 0}
		}
	case *ssa.Field:
		return l.changeRef(v.X, path, d+1)
	case *ssa.FieldAddr, *ssa.IndexAddr:
		return anySpan
	case *ssa.Extract:
		return anySpan
	}
	return anySpan
}

// changeRef: zero if a reference is the same each time around.
func (l *loopA) changeRef(v ssa.Value, path []*ssa.BasicBlock, d int) span {
	if l.inv(v) {
		return span{0, 0}
	}
	if d > 8 {
		return anySpan
	}
	switch v := v.(type) {
	case *ssa.FieldAddr:
		return l.changeRef(v.X, path, d+1)
	case *ssa.UnOp:
		if v.Op == token.MUL && l.unchanged(v.X, path) && l.changeRef(v.X, path, d+1) == (span{0, 0}) {
			return span{0, 0}
		}
	case *ssa.Phi:
		if v.Block() == l.head {
			if j := predIdx(l.head, path[len(path)-1]); j >= 0 && v.Edges[j] == ssa.Value(v) {
				return span{0, 0}
			}
		}
	}
	return anySpan
}

// unchanged: nothing on the cycle writes what is loaded from addr, and addr
// itself stays.
func (l *loopA) unchanged(addr ssa.Value, path []*ssa.BasicBlock) bool {
	if !l.inv(addr) {
		if l.changeRef(addr, path, 0) != (span{0, 0}) {
			return false
		}
	}
	for _, b := range path {
		for _, in := range b.Instrs {
			if l.changes(in, addr) {
				return false
			}
		}
	}
	// inner loops off the path
	for b := range l.body {
		if inPath(b, path) || !innerOf(b, path, l) {
			continue
		}
		for _, in := range b.Instrs {
			if l.changes(in, addr) {
				return false
			}
		}
	}
	return true
}

func inPath(b *ssa.BasicBlock, path []*ssa.BasicBlock) bool {
	for _, x := range path {
		if x == b {
			return true
		}
	}
	return false
}

// innerOf: b belongs to an inner loop whose head is on the path.
func innerOf(b *ssa.BasicBlock, path []*ssa.BasicBlock, l *loopA) bool {
	for _, h := range path {
		if h != l.head && isLoopHead(h) && loopOf(h)[b] {
			return true
		}
	}
	return false
}

// memChange: a variable in memory that is increased by constants only.
func (l *loopA) memChange(u *ssa.UnOp, path []*ssa.BasicBlock) span {
	if l.changeRef(u.X, path, 0) != (span{0, 0}) && !l.inv(u.X) {
		return anySpan
	}
	total := span{0, 0}
	scan := func(b *ssa.BasicBlock, inner bool) bool {
		for _, in := range b.Instrs {
			if !l.changes(in, u.X) {
				continue
			}
			st, ok := in.(*ssa.Store)
			if !ok || !sameAddr(st.Addr, u.X) {
				return false
			}
			bo, ok := st.Val.(*ssa.BinOp)
			if !ok || bo.Op != token.ADD && bo.Op != token.SUB {
				return false
			}
			ld, ok := bo.X.(*ssa.UnOp)
			if !ok || ld.Op != token.MUL || !sameAddr(ld.X, u.X) {
				return false
			}
			s := l.bounds(bo.Y, path, 0)
			if bo.Op == token.SUB {
				s = s.neg()
			}
			if inner {
				if s.lo < 0 {
					total.lo = math.Inf(-1)
				}
				if s.hi > 0 {
					total.hi = math.Inf(1)
				}
			} else {
				total = total.add(s)
			}
		}
		return true
	}
	for _, b := range path {
		if !scan(b, false) {
			return anySpan
		}
	}
	for b := range l.body {
		if !inPath(b, path) && innerOf(b, path, l) && !scan(b, true) {
			return anySpan
		}
	}
	return total
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	fa, ok1 := a.(*ssa.FieldAddr)
	fb, ok2 := b.(*ssa.FieldAddr)
	if ok1 && ok2 && fa.Field == fb.Field {
		return fa.X == fb.X || pathKey(fa.X) == pathKey(fb.X)
	}
	return false
}

// lenChange bounds the change of a length over one cycle.
func (l *loopA) lenChange(v ssa.Value, path []*ssa.BasicBlock, d int) span {
	if l.inv(v) {
		return span{0, 0}
	}
	switch v := v.(type) {
	case *ssa.Phi:
		if v.Block() != l.head {
			return anySpan
		}
		j := predIdx(l.head, path[len(path)-1])
		if j < 0 {
			return anySpan
		}
		return l.lenRel(v.Edges[j], v, path, 0)
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return anySpan
		}
		if l.unchanged(v.X, path) {
			return span{0, 0}
		}
		if l.changeRef(v.X, path, 0) != (span{0, 0}) {
			return anySpan
		}
		// memory: stores of append(load, ...)
		total := span{0, 0}
		scan := func(b *ssa.BasicBlock, inner bool) bool {
			for _, in := range b.Instrs {
				if !l.changes(in, v.X) {
					continue
				}
				st, ok := in.(*ssa.Store)
				if !ok || !sameAddr(st.Addr, v.X) {
					return false
				}
				n, ok := appended(st.Val, func(x ssa.Value) bool {
					u, ok := x.(*ssa.UnOp)
					return ok && u.Op == token.MUL && sameAddr(u.X, v.X)
				})
				if !ok {
					return false
				}
				if inner {
					total.hi = math.Inf(1)
				} else {
					total = total.add(n)
				}
			}
			return true
		}
		for _, b := range path {
			if !scan(b, false) {
				return anySpan
			}
		}
		for b := range l.body {
			if !inPath(b, path) && innerOf(b, path, l) && !scan(b, true) {
				return anySpan
			}
		}
		return total
	}
	return anySpan
}

// appended: v is append(base, ...): the number of elements added.
func appended(v ssa.Value, base func(ssa.Value) bool) (span, bool) {
	call, ok := v.(*ssa.Call)
	if !ok {
		return span{}, false
	}
	b, ok := call.Common().Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" || !base(call.Common().Args[0]) {
		return span{}, false
	}
	if len(call.Common().Args) < 2 {
		return span{0, 0}, true
	}
	if sl, ok := call.Common().Args[1].(*ssa.Slice); ok {
		if al, ok := sl.X.(*ssa.Alloc); ok {
			if at, ok := deref(al.Type()).Underlying().(*types.Array); ok && sl.Low == nil && sl.High == nil {
				return span{float64(at.Len()), float64(at.Len())}, true
			}
		}
	}
	return span{0, math.Inf(1)}, true
}

func (l *loopA) lenRel(v ssa.Value, p *ssa.Phi, path []*ssa.BasicBlock, d int) span {
	if v == ssa.Value(p) {
		return span{0, 0}
	}
	if d > 10 {
		return anySpan
	}
	switch v := v.(type) {
	case *ssa.Slice:
		s := l.lenRel(v.X, p, path, d+1)
		if s == anySpan {
			return s
		}
		if v.Low != nil {
			s = s.add(l.bounds(v.Low, path, 0).neg())
		}
		if v.High != nil || v.Max != nil {
			// at most shorter
			h := s
			h.lo = math.Inf(-1)
			if bo, ok := v.High.(*ssa.BinOp); ok && bo.Op == token.SUB {
				if c, ok := bo.X.(*ssa.Call); ok && c.Common().Args[0] == v.X {
					if b, ok := c.Common().Value.(*ssa.Builtin); ok && b.Name() == "len" {
						h = s.add(l.bounds(bo.Y, path, 0).neg())
					}
				}
			}
			return h
		}
		return s
	case *ssa.Phi:
		if r := l.onPath(v, path); r != nil && !(isLoopHead(v.Block()) && v.Block() != l.head) {
			return l.lenRel(r, p, path, d+1)
		}
	case *ssa.Call:
		if n, ok := appended(v, func(x ssa.Value) bool { return l.lenRel(x, p, path, d+1) != anySpan }); ok {
			return l.lenRel(v.Common().Args[0], p, path, d+1).add(n)
		}
		if f := v.Common().StaticCallee(); f != nil {
			switch f.RelString(nil) {
			case "strings.Trim", "strings.TrimSpace", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix":
				s := l.lenRel(v.Common().Args[0], p, path, d+1)
				return span{math.Inf(-1), s.hi}
			}
		}
	}
	return anySpan
}

// pureCall: the result depends on the arguments only.
func (l *loopA) pureCall(c *ssa.Call) bool {
	cc := c.Common()
	if cc.IsInvoke() {
		return cc.Method.Pkg() != nil && cc.Method.Pkg().Path() == "reflect"
	}
	f := cc.StaticCallee()
	if f == nil || f.Pkg == nil {
		return false
	}
	switch f.Pkg.Pkg.Path() {
	case "strings", "unicode", "unicode/utf8", "math", "strconv":
		return true
	case "reflect":
		return strings.HasPrefix(f.Name(), "Num") || f.Name() == "Len" || f.Name() == "TypeOf"
	}
	return false
}

var consumers = map[string]bool{
	"(*encoding/xml.Decoder).Token": true, "(*encoding/xml.Decoder).RawToken": true, "(*encoding/xml.Decoder).Skip": true,
	"(*bufio.Scanner).Scan": true, "(*bufio.Reader).ReadString": true, "(*bufio.Reader).ReadLine": true, "(*bufio.Reader).ReadByte": true,
	"(*bufio.Reader).ReadRune": true, "(*bufio.Reader).ReadBytes": true, "(*strings.Reader).ReadRune": true, "(*strings.Reader).ReadByte": true,
	"(*bytes.Buffer).ReadByte": true, "(*bytes.Buffer).ReadRune": true, "(*bytes.Buffer).ReadString": true, "(*encoding/json.Decoder).Token": true, "(*encoding/json.Decoder).Decode": true,
}

// consumer: the call takes something from its input, or fails at its end
// (directly or in the module function called, on every path of it).
func (p *Prog) consumer(in ssa.Instruction, d int) bool {
	call, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	if n, _ := callTo(in); consumers[n] {
		return true
	}
	f := call.Common().StaticCallee()
	if f == nil || d > 2 || !p.inModule(f) || f.Blocks == nil {
		return false
	}
	// every path from the entry meets a consumer
	seen := map[*ssa.BasicBlock]bool{}
	var free func(b *ssa.BasicBlock) bool // reaches a return without one
	free = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, x := range b.Instrs {
			if p.consumer(x, d+1) {
				return false
			}
			if _, ok := x.(*ssa.Return); ok {
				return true
			}
		}
		for _, s := range b.Succs {
			if free(s) {
				return true
			}
		}
		return false
	}
	return !free(f.Blocks[0])
}

// measures tries to find what makes progress on every cycle. It returns the
// measure, or "" and the reason of a definite failure, if there is one.
func (l *loopA) measure() (string, string) {
	if l.over {
		return "", ""
	}
	if len(l.paths) == 0 {
		return "no cycle", ""
	}
	every := func(has func(path []*ssa.BasicBlock) bool) bool {
		for _, p := range l.paths {
			if !has(p) {
				return false
			}
		}
		return true
	}
	// iteration over a map or string
	for b := range l.body {
		for _, in := range b.Instrs {
			if nx, ok := in.(*ssa.Next); ok && l.inv(nx.Iter) && every(func(p []*ssa.BasicBlock) bool { return inPath(b, p) }) {
				if why := l.nextLeaves(nx); why != "" {
					return "", why
				}
				return "iteration over a map or string", ""
			}
		}
	}
	// consumed input
	if every(func(p []*ssa.BasicBlock) bool {
		for _, b := range p {
			for _, in := range b.Instrs {
				if l.p.consumer(in, 0) {
					return true
				}
			}
		}
		return false
	}) {
		why := l.failingConsumer()
		if why == "" {
			return "input consumed", ""
		}
		return "", why
	}
	// exit tests
	wrong := ""
	for b := range l.body {
		f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || l.body[b.Succs[0]] == l.body[b.Succs[1]] {
			continue
		}
		stay := l.body[b.Succs[0]] // continues while the condition is true
		if !every(func(p []*ssa.BasicBlock) bool { return inPath(b, p) }) {
			continue
		}
		m, w := l.exitTest(f.Cond, stay)
		if m != "" {
			return m, ""
		}
		if w != "" {
			wrong = w
		}
	}
	// shrinking strings and slices
	for _, in := range l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		switch t := ph.Type().Underlying().(type) {
		case *types.Slice:
		case *types.Basic:
			if t.Info()&types.IsString == 0 {
				if l.slicedAt(ph) && every(func(p []*ssa.BasicBlock) bool { return l.change(ph, p, 0).lo >= 1 }) {
					return "position in a text moves on", ""
				}
				continue
			}
		default:
			continue
		}
		if every(func(p []*ssa.BasicBlock) bool {
			j := predIdx(l.head, p[len(p)-1])
			return j >= 0 && l.lenRel(ph.Edges[j], ph, p, 0).hi <= -1
		}) {
			return "rest of a text or list shrinks", ""
		}
		if every(func(p []*ssa.BasicBlock) bool {
			j := predIdx(l.head, p[len(p)-1])
			return j >= 0 && l.replaced(ph.Edges[j], ph, p, false)
		}) {
			return "text shrinks by replacements", ""
		}
		if l.exits() == 1 && every(func(p []*ssa.BasicBlock) bool {
			j := predIdx(l.head, p[len(p)-1])
			return j >= 0 && l.replaced(ph.Edges[j], ph, p, true)
		}) {
			return "", "the text grows with every replacement"
		}
	}
	if why := l.stuck(); why != "" {
		return "", why
	}
	return "", wrong
}

// nextLeaves: the end of the iteration leaves the loop.
func (l *loopA) nextLeaves(nx *ssa.Next) string {
	w := &walker{p: l.p}
	st := w.startAfter(nx)
	st.f[nx] = aval{k: 'T', tup: []aval{avBool(false), {}, {}}}
	bad := ""
	w.edge = func(from, to *ssa.BasicBlock, _ *wstate) bool {
		if to == l.head && l.body[from] {
			bad = "the end of the iteration does not leave the loop"
		}
		return l.body[to] && to != l.head
	}
	w.run(st)
	return bad
}

// failingConsumer: where the input ends or fails, the loop must be left.
func (l *loopA) failingConsumer() string {
	for b := range l.body {
		for _, in := range b.Instrs {
			if !l.p.consumer(in, 0) {
				continue
			}
			call := in.(*ssa.Call)
			w := &walker{p: l.p}
			st := w.startAfter(call)
			sig := call.Common().Signature()
			rs := sig.Results()
			switch {
			case rs.Len() == 1 && isBool(rs.At(0).Type()):
				st.f[call] = avBool(false)
			case rs.Len() == 1 && isErrorType(rs.At(0).Type()):
				st.f[call] = aval{k: 'N'}
			case rs.Len() > 1:
				if ei, has := errIndex(sig); has {
					t := make([]aval, rs.Len())
					t[ei] = aval{k: 'N'}
					st.f[call] = aval{k: 'T', tup: t}
				}
			}
			bad := false
			w.instr = func(x ssa.Instruction, _ *wstate) bool {
				if x == ssa.Instruction(call) {
					bad = true
					return false
				}
				return true
			}
			w.edge = func(from, to *ssa.BasicBlock, _ *wstate) bool { return l.body[to] }
			w.run(st)
			if bad {
				return fmt.Sprintf("the end of the input (%s failing at %s) does not leave the loop", l.p.callName(call), l.p.instrPos(call))
			}
		}
	}
	return ""
}

func (p *Prog) callName(c *ssa.Call) string {
	if n, _ := callTo(c); n != "" {
		return n
	}
	return c.Common().String()
}

// slicedAt: the integer is used as the start of a slice of an unchanged text
// on every cycle, so that it cannot grow without end.
func (l *loopA) slicedAt(ph *ssa.Phi) bool {
	for _, r := range *ph.Referrers() {
		sl, ok := r.(*ssa.Slice)
		if !ok || sl.Low != ssa.Value(ph) || !l.inv(sl.X) || !l.body[sl.Block()] {
			continue
		}
		all := true
		for _, p := range l.paths {
			if !inPath(sl.Block(), p) {
				all = false
			}
		}
		if all {
			return true
		}
	}
	return false
}

// replaced: the new text is the old one with longer parts replaced by
// shorter ones, and differs from it (or held such a part).
func (l *loopA) replaced(v ssa.Value, ph *ssa.Phi, path []*ssa.BasicBlock, grows bool) bool {
	for i := 0; i < 6; i++ {
		if x, ok := v.(*ssa.Phi); ok && x != ph {
			if r := l.onPath(x, path); r != nil {
				v = r
				continue
			}
		}
		break
	}
	call, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	n, as := callTo(call)
	if n != "strings.ReplaceAll" && n != "strings.Replace" {
		return false
	}
	from, to := as[1], as[2]
	if grows {
		from, to = to, from
	}
	if as[0] != ssa.Value(ph) && !l.equalOn(as[0], ph, path) || !longer(from, to) {
		return false
	}
	// the cycle goes on only if it changed, or if the part was found
	for i := 0; i+1 < len(path); i++ {
		f, ok := path[i].Instrs[len(path[i].Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		val := path[i+1] == path[i].Succs[0]
		if l.saysChanged(f.Cond, val, call, as, ph) {
			return true
		}
	}
	// latch edge
	last := path[len(path)-1]
	if f, ok := last.Instrs[len(last.Instrs)-1].(*ssa.If); ok && last.Succs[0] != last.Succs[1] {
		return l.saysChanged(f.Cond, last.Succs[0] == l.head, call, as, ph)
	}
	return false
}

func (l *loopA) equalOn(v ssa.Value, ph *ssa.Phi, path []*ssa.BasicBlock) bool {
	x, ok := v.(*ssa.Phi)
	if !ok || x.Block() != l.head {
		return false
	}
	// two phis that always hold the same value on the cycles
	for i := range x.Edges {
		if l.body[l.head.Preds[i]] && x.Edges[i] != ph.Edges[i] {
			return false
		}
	}
	return true
}

func (l *loopA) saysChanged(cond ssa.Value, val bool, call *ssa.Call, as []ssa.Value, ph *ssa.Phi) bool {
	switch c := cond.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			return l.saysChanged(c.X, !val, call, as, ph)
		}
	case *ssa.BinOp:
		if (c.Op == token.EQL && !val || c.Op == token.NEQ && val) && (c.X == ssa.Value(call) && c.Y == as[0] || c.Y == ssa.Value(call) && c.X == as[0]) {
			return true
		}
		isLen := func(x ssa.Value, of ssa.Value) bool {
			k, ok := x.(*ssa.Call)
			if !ok {
				return false
			}
			b, ok := k.Common().Value.(*ssa.Builtin)
			return ok && b.Name() == "len" && k.Common().Args[0] == of
		}
		if (c.Op == token.EQL && !val || c.Op == token.NEQ && val) && (isLen(c.X, call) && isLen(c.Y, as[0]) || isLen(c.Y, call) && isLen(c.X, as[0])) {
			return true
		}
	case *ssa.Call:
		n, bs := callTo(c)
		if n == "strings.Contains" && val && bs[0] == as[0] && (bs[1] == as[1] || sameConst(bs[1], as[1])) {
			return true
		}
	}
	return false
}

func sameConst(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	return ok1 && ok2 && x.Value != nil && y.Value != nil && constant.Compare(x.Value, token.EQL, y.Value)
}

// longer: the text a is longer than b (or both are empty).
func longer(a, b ssa.Value) bool {
	if x, ok := a.(*ssa.Const); ok {
		if y, ok := b.(*ssa.Const); ok && x.Value != nil && y.Value != nil && x.Value.Kind() == constant.String && y.Value.Kind() == constant.String {
			return len(constant.StringVal(x.Value)) > len(constant.StringVal(y.Value))
		}
		return false
	}
	if bo, ok := a.(*ssa.BinOp); ok && bo.Op == token.ADD && (bo.X == b || bo.Y == b) {
		return true
	}
	if c, ok := a.(*ssa.Call); ok {
		n, as := callTo(c)
		if n == "strings.Repeat" && as[0] == b {
			if k, ok := as[1].(*ssa.Const); ok {
				m, _ := constant.Int64Val(k.Value)
				return m >= 2
			}
		}
	}
	return false
}

// exitTest: the loop goes on while cond is (stay).
func (l *loopA) exitTest(cond ssa.Value, stay bool) (string, string) {
	switch c := cond.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			return l.exitTest(c.X, !stay)
		}
	case *ssa.BinOp:
		op := c.Op
		if !stay {
			switch op {
			case token.LSS:
				op = token.GEQ
			case token.LEQ:
				op = token.GTR
			case token.GTR:
				op = token.LEQ
			case token.GEQ:
				op = token.LSS
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			}
		}
		x, y := c.X, c.Y
		if op == token.GTR || op == token.GEQ {
			x, y = y, x
			if op == token.GTR {
				op = token.LSS
			} else {
				op = token.LEQ
			}
		}
		b, ok := x.Type().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsNumeric == 0 {
			return "", ""
		}
		// goes on while x < y: y - x must fall
		fall, rise := true, true
		exact := true
		for _, p := range l.paths {
			d := l.change(y, p, 0).add(l.change(x, p, 0).neg())
			if !(d.hi <= -1) {
				fall = false
			}
			if !(d.lo >= 0) {
				rise = false
			}
			if !(d.lo == 1 && d.hi == 1 || d.lo == -1 && d.hi == -1) {
				exact = false
			}
		}
		switch op {
		case token.LSS, token.LEQ:
			if fall {
				return "counter towards its bound", ""
			}
			if rise && b.Info()&types.IsInteger != 0 && l.exits() == 1 {
				return "", fmt.Sprintf("the test at %s, its only end, comes no closer", l.p.posStr(c.Pos()))
			}
		case token.NEQ:
			if exact {
				return "counter towards its end value", ""
			}
		}
	}
	return "", ""
}

func freshReader(c *ssa.Call) bool {
	n, _ := callTo(c)
	switch n {
	case "bytes.NewBufferString", "strings.NewReader", "bytes.NewReader", "bytes.NewBuffer":
		return true
	}
	return false
}

// steady: called with the same plain values (or readers made of them), the
// function returns the same again.
func (l *loopA) steady(c *ssa.Call) bool {
	cc := c.Common()
	f := cc.StaticCallee()
	if f == nil || cc.IsInvoke() {
		return false
	}
	var plain func(v ssa.Value) bool
	plain = func(v ssa.Value) bool {
		switch v := v.(type) {
		case *ssa.MakeInterface:
			return plain(v.X)
		case *ssa.Const:
			return true
		case *ssa.Call:
			if freshReader(v) {
				return true
			}
		}
		_, ok := v.Type().Underlying().(*types.Basic)
		return ok
	}
	for _, a := range cc.Args {
		if !plain(a) {
			return false
		}
	}
	return l.p.inModule(f) && len(cc.Args) > 0
}

// feasible: the branches taken on the path do not contradict each other, as
// far as that shows in the form of their conditions.
func (l *loopA) feasible(path []*ssa.BasicBlock) bool {
	said := map[string]bool{}
	ivs := map[string]span{}
	neq := map[string]map[float64]bool{}
	ok := true
	var note func(c ssa.Value, val bool)
	note = func(c ssa.Value, val bool) {
		switch x := c.(type) {
		case *ssa.Const:
			if x.Value != nil && x.Value.Kind() == constant.Bool && constant.BoolVal(x.Value) != val {
				ok = false
			}
			return
		case *ssa.UnOp:
			if x.Op == token.NOT {
				note(x.X, !val)
				return
			}
		case *ssa.Phi:
			if r := l.onPath(x, path); r != nil && x.Block() != l.head {
				note(r, val)
				return
			}
		case *ssa.BinOp:
			op, a, b := x.Op, x.X, x.Y
			if !val {
				op = negOp(op)
			}
			if _, k := a.(*ssa.Const); k {
				a, b = b, a
				op = flipOp(op)
			}
			if k, isC := b.(*ssa.Const); isC && k.Value != nil && (k.Value.Kind() == constant.Int || k.Value.Kind() == constant.Float) {
				key := l.exprKey(a, path, 0)
				if key != "" {
					f, _ := constant.Float64Val(constant.ToFloat(k.Value))
					iv, have := ivs[key]
					if !have {
						iv = l.bounds(a, nil, 0)
					}
					switch op {
					case token.LSS:
						iv.hi = math.Min(iv.hi, math.Nextafter(f, math.Inf(-1)))
					case token.LEQ:
						iv.hi = math.Min(iv.hi, f)
					case token.GTR:
						iv.lo = math.Max(iv.lo, math.Nextafter(f, math.Inf(1)))
					case token.GEQ:
						iv.lo = math.Max(iv.lo, f)
					case token.EQL:
						iv.lo, iv.hi = math.Max(iv.lo, f), math.Min(iv.hi, f)
					case token.NEQ:
						if neq[key] == nil {
							neq[key] = map[float64]bool{}
						}
						neq[key][f] = true
					}
					if bt, isB := a.Type().Underlying().(*types.Basic); isB && bt.Info()&types.IsInteger != 0 {
						iv.lo, iv.hi = math.Ceil(iv.lo), math.Floor(iv.hi)
					}
					ivs[key] = iv
					if iv.lo > iv.hi || iv.lo == iv.hi && neq[key][iv.lo] {
						ok = false
					}
				}
				return
			}
			ka, kb := l.exprKey(a, path, 0), l.exprKey(b, path, 0)
			if ka != "" && kb != "" {
				if ka > kb {
					ka, kb = kb, ka
					op = flipOp(op)
				}
				// as a statement and its negation
				if op == token.NEQ || op == token.GEQ || op == token.GTR {
					k := ka + negOp(op).String() + kb
					if v, have := said[k]; have && v {
						ok = false
					}
					said[k] = false
				} else {
					k := ka + op.String() + kb
					if v, have := said[k]; have && !v {
						ok = false
					}
					said[k] = true
				}
			}
			return
		}
		if k := l.exprKey(c, path, 0); k != "" {
			if v, have := said[k]; have && v != val {
				ok = false
			}
			said[k] = val
		}
	}
	for i := range path {
		f, isIf := path[i].Instrs[len(path[i].Instrs)-1].(*ssa.If)
		if !isIf || path[i].Succs[0] == path[i].Succs[1] {
			continue
		}
		next := l.head
		if i+1 < len(path) {
			next = path[i+1]
		}
		note(f.Cond, next == path[i].Succs[0])
	}
	return ok
}

func negOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return op
}

func flipOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// exprKey names a value by the way it is computed; "" if that is not enough
// to know it. Memory is taken to stay as it is.
func (l *loopA) exprKey(v ssa.Value, path []*ssa.BasicBlock, d int) string {
	if d > 8 {
		return ""
	}
	rec := func(vs ...ssa.Value) string {
		var out []string
		for _, x := range vs {
			k := l.exprKey(x, path, d+1)
			if k == "" {
				return ""
			}
			out = append(out, k)
		}
		return "(" + strings.Join(out, ",") + ")"
	}
	with := func(n, k string) string {
		if k == "" {
			return ""
		}
		return n + k
	}
	if l.inv(v) {
		if k, ok := v.(*ssa.Const); ok {
			return k.String()
		}
		return v.Name()
	}
	switch v := v.(type) {
	case *ssa.Phi:
		if v.Block() != l.head {
			if r := l.onPath(v, path); r != nil {
				return l.exprKey(r, path, d+1)
			}
		}
		return v.Name()
	case *ssa.BinOp:
		return with(v.Op.String(), rec(v.X, v.Y))
	case *ssa.UnOp:
		if v.Op == token.ARROW {
			return v.Name()
		}
		return with(v.Op.String(), rec(v.X))
	case *ssa.FieldAddr:
		return with(fmt.Sprintf(".%d", v.Field), rec(v.X))
	case *ssa.Field:
		return with(fmt.Sprintf(".%d", v.Field), rec(v.X))
	case *ssa.IndexAddr:
		return with("[]", rec(v.X, v.Index))
	case *ssa.Index:
		return with("[]", rec(v.X, v.Index))
	case *ssa.Lookup:
		return with(fmt.Sprintf("[%v]", v.CommaOk), rec(v.X, v.Index))
	case *ssa.Extract:
		return with(fmt.Sprintf("#%d", v.Index), rec(v.Tuple))
	case *ssa.Convert:
		return with(v.Type().String(), rec(v.X))
	case *ssa.Slice:
		vs := []ssa.Value{v.X}
		for _, x := range []ssa.Value{v.Low, v.High} {
			if x != nil {
				vs = append(vs, x)
			}
		}
		return with(fmt.Sprintf("[%v:%v]", v.Low != nil, v.High != nil), rec(vs...))
	case *ssa.Call:
		if b, ok := v.Common().Value.(*ssa.Builtin); ok {
			return with(b.Name(), rec(v.Common().Args...))
		}
		if l.pureCall(v) {
			if v.Common().IsInvoke() {
				return with(v.Common().Method.Name(), rec(append([]ssa.Value{v.Common().Value}, v.Common().Args...)...))
			}
			return with(v.Common().StaticCallee().RelString(nil), rec(v.Common().Args...))
		}
		return v.Name()
	}
	return v.Name()
}

// exits counts the ways out of the loop.
func (l *loopA) exits() int {
	n := 0
	for b := range l.body {
		for _, s := range b.Succs {
			if !l.body[s] {
				n++
			}
		}
		if len(b.Succs) == 0 {
			n++
		}
		for _, in := range b.Instrs {
			if n0, _ := callTo(in); n0 == "os.Exit" || strings.HasPrefix(n0, "log.Fatal") || strings.HasPrefix(n0, "log.Panic") {
				n++
			}
		}
	}
	return n
}

// stuck: a way round the loop on which nothing that its exits depend on
// changes.
func (l *loopA) stuck() string {
	deps := map[ssa.Value]bool{}
	impure := map[ssa.Instruction]bool{}
	var addrs []ssa.Value
	var walkv func(v ssa.Value)
	seen := map[ssa.Value]bool{}
	walkv = func(v ssa.Value) {
		if seen[v] || l.inv(v) {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			if v.Block() == l.head {
				deps[v] = true
				return
			}
			// which edge is taken depends on the branches inside, which are
			// looked at path by path
			for _, e := range v.Edges {
				walkv(e)
			}
		case *ssa.UnOp:
			if v.Op == token.MUL {
				addrs = append(addrs, v.X)
				walkv(v.X)
				return
			}
			if v.Op == token.ARROW {
				impure[v] = true
				return
			}
			walkv(v.X)
		case *ssa.Call:
			if _, ok := v.Common().Value.(*ssa.Builtin); !ok && !l.pureCall(v) && !l.steady(v) && !freshReader(v) {
				impure[v] = true
				return
			}
			for _, a := range v.Common().Args {
				walkv(a)
			}
		case *ssa.Next, *ssa.Select:
			impure[v.(ssa.Instruction)] = true
		case ssa.Instruction:
			for _, o := range v.Operands(nil) {
				if *o != nil {
					walkv(*o)
				}
			}
		}
	}
	for b := range l.body {
		f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		// every branch inside, too: it decides which way is taken
		walkv(f.Cond)
	}
	for _, p := range l.paths {
		if !l.feasible(p) {
			continue
		}
		same := true
		latch := p[len(p)-1]
		j := predIdx(l.head, latch)
		for d := range deps {
			v := d.(*ssa.Phi).Edges[j]
			for i := 0; i < 8; i++ {
				x, ok := v.(*ssa.Phi)
				if !ok || x == d || x.Block() == l.head {
					break
				}
				if isLoopHead(x.Block()) {
					break
				}
				r := l.onPath(x, p)
				if r == nil {
					break
				}
				v = r
			}
			if v != d {
				if r, ok := l.rel(v, d.(*ssa.Phi), p, 0); !ok || r != (span{0, 0}) {
					same = false
				}
			}
		}
		for _, a := range addrs {
			if !l.unchanged(a, p) {
				same = false
			}
		}
		for _, b := range p {
			for _, in := range b.Instrs {
				if impure[in] {
					same = false
				}
				// an endless loop may still end the program
				if n, _ := callTo(in); n == "os.Exit" {
					same = false
				}
			}
		}
		if same {
			return "on a way round the loop nothing changes that its ends depend on (" + l.p.instrPos(latch.Instrs[len(latch.Instrs)-1]) + ")"
		}
	}
	return ""
}

func ruleC24(c *Ck) {
	p := c.P
	for _, f := range p.Funcs {
		loops := p.loopsOf(f)
		sort.Slice(loops, func(i, j int) bool { return loops[i].head.Index < loops[j].head.Index })
		for i, l := range loops {
			c.nFuncs[f] = true
			construct := fmt.Sprintf("%s loop %d", fnName(f), i+1)
			pos := ""
			for _, b := range f.Blocks {
				if l.body[b] && pos == "" {
					for _, in := range b.Instrs {
						if in.Pos().IsValid() {
							pos = p.posStr(in.Pos())
							break
						}
					}
				}
			}
			m, why := l.measure()
			switch {
			case m != "":
				c.ok("C24.loop", construct+" ("+m+") at "+pos)
			case why != "":
				c.fail("C24.loop", construct, pos, "loop does not terminate: %s", why)
			default:
				c.und("C24.loop", construct, "no measure found for the loop at %s", pos)
			}
		}
	}
	c.recursion()
	c.noNewPages()
}
