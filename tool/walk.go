package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// aval is what is known about a value on a path of a function.
type aval struct {
	k   byte // 0 nothing, 'n' nil, 'N' not nil, 'E' io.EOF, 'i' integer, 'b' boolean, 's' string, 'L' something of length i, 'T' tuple, 'D' interface of dynamic type typ
	i   int64
	s   string
	typ types.Type
	tup []aval
}

func (a aval) String() string {
	switch a.k {
	case 0:
		return "?"
	case 's':
		return fmt.Sprintf("s%q", a.s)
	case 'T':
		var o []string
		for _, x := range a.tup {
			o = append(o, x.String())
		}
		return "(" + strings.Join(o, ",") + ")"
	case 'D':
		return "D" + types.TypeString(a.typ, nil)
	}
	return fmt.Sprintf("%c%d", a.k, a.i)
}

func (a aval) nonNil() bool { return a.k == 'N' || a.k == 'E' || a.k == 'D' || a.k == 'L' && a.i > 0 }

func avBool(b bool) aval {
	if b {
		return aval{k: 'b', i: 1}
	}
	return aval{k: 'b'}
}

type wstate struct {
	blk, prev *ssa.BasicBlock
	at        int
	f         map[ssa.Value]aval
	mem       map[*ssa.Alloc]aval
	keys      map[string]aval // results of repeatable queries
	tag       int
	trail     []*ssa.BasicBlock
}

func (s *wstate) clone() *wstate {
	n := *s
	n.f = map[ssa.Value]aval{}
	for k, v := range s.f {
		n.f[k] = v
	}
	n.mem = map[*ssa.Alloc]aval{}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.keys = map[string]aval{}
	for k, v := range s.keys {
		n.keys[k] = v
	}
	n.trail = append([]*ssa.BasicBlock{}, s.trail...)
	return &n
}

func (s *wstate) key() string {
	var o []string
	for k, v := range s.f {
		o = append(o, fmt.Sprintf("%s=%v", k.Name(), v))
	}
	for k, v := range s.mem {
		o = append(o, fmt.Sprintf("*%s=%v", k.Name(), v))
	}
	for k, v := range s.keys {
		o = append(o, fmt.Sprintf("%s=%v", k, v))
	}
	sort.Strings(o)
	p := -1
	if s.prev != nil {
		p = s.prev.Index
	}
	return fmt.Sprintf("%d<%d:%d|%d|%s", s.blk.Index, p, s.at, s.tag, strings.Join(o, ";"))
}

// walker follows the paths of one function, deciding branches from what is
// known about the values of the path.
type walker struct {
	p      *Prog
	depth  int
	steps  int
	over   bool // gave up
	active map[*ssa.Function]bool
	// instr sees every instruction; false ends the path
	instr func(in ssa.Instruction, st *wstate) bool
	// cond is asked for a branch that is not decided: 0 both, 1 true only, -1 false only; benign edges are dropped
	cond func(c ssa.Value, st *wstate) int
	ret  func(r *ssa.Return, vals []aval, st *wstate)
	// exit: the program ends (exit code, or 'N' for a panic)
	exit func(in ssa.Instruction, code aval, st *wstate)
	edge func(from, to *ssa.BasicBlock, st *wstate) bool
	// force gives instructions a result; the path is then marked
	force func(in ssa.Instruction, st *wstate) (aval, bool)
}

// tagForced marks paths with a forced result.
const tagForced = 1 << 20

const maxSteps = 60000

func (w *walker) run(st *wstate) {
	seen := map[string]bool{}
	var work []*wstate
	push := func(s *wstate) {
		k := s.key()
		if !seen[k] {
			seen[k] = true
			work = append(work, s)
		}
	}
	push(st)
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		w.block(s, push)
		if w.steps > maxSteps {
			w.over = true
			return
		}
	}
}

func isLoopHead(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

func (w *walker) block(s *wstate, push func(*wstate)) {
	b := s.blk
	s.trail = append(s.trail, b)
	if s.at == 0 && s.prev != nil {
		idx := -1
		for i, p := range b.Preds {
			if p == s.prev {
				idx = i
			}
		}
		head := isLoopHead(b)
		nf := map[ssa.Value]aval{}
		var phis []ssa.Value
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, ph)
			if idx >= 0 {
				a := w.eval(ph.Edges[idx], s)
				if head && (a.k == 'i' || a.k == 's' || a.k == 'L') {
					a = aval{}
				}
				nf[ph] = a
			}
		}
		for _, ph := range phis {
			delete(s.f, ph)
			if a := nf[ph]; a.k != 0 {
				s.f[ph] = a
			}
		}
	}
	for i := s.at; i < len(b.Instrs); i++ {
		w.steps++
		in := b.Instrs[i]
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		if w.instr != nil && !w.instr(in, s) {
			return
		}
		switch in := in.(type) {
		case *ssa.Return:
			vals := make([]aval, len(in.Results))
			for i, r := range in.Results {
				vals[i] = w.eval(r, s)
			}
			if w.ret != nil {
				w.ret(in, vals, s)
			}
			return
		case *ssa.Panic:
			if w.exit != nil {
				w.exit(in, aval{k: 'N'}, s)
			}
			return
		case *ssa.Jump:
			w.goTo(s, b.Succs[0], push)
			return
		case *ssa.If:
			a := w.eval(in.Cond, s)
			if a.k == 'b' {
				w.goTo(s, b.Succs[1-a.i], push)
				return
			}
			d := 0
			if w.cond != nil {
				d = w.cond(in.Cond, s)
			}
			if d >= 0 {
				t := s.clone()
				w.learn(in.Cond, true, t)
				w.goTo(t, b.Succs[0], push)
			}
			if d <= 0 {
				w.learn(in.Cond, false, s)
				w.goTo(s, b.Succs[1], push)
			}
			return
		case *ssa.Store:
			if al, ok := in.Addr.(*ssa.Alloc); ok {
				a := w.eval(in.Val, s)
				if a.k != 0 {
					s.mem[al] = a
				} else {
					delete(s.mem, al)
				}
			}
		case *ssa.Call:
			outs, tags, ends := w.callF(in, s)
			if ends && len(outs) == 0 {
				return
			}
			for al := range s.mem {
				if captured(al) {
					delete(s.mem, al)
				}
			}
			for j, o := range outs {
				t := s
				if j < len(outs)-1 {
					t = s.clone()
				}
				if o.k != 0 {
					t.f[in] = o
				} else {
					delete(t.f, in)
				}
				if tags != nil {
					t.tag |= tags[j]
				}
				if j < len(outs)-1 {
					t.at = i + 1
					t.trail = t.trail[:len(t.trail)-1]
					push(t)
				}
			}
		case ssa.Value:
			a := w.instrVal(in, s)
			if w.force != nil {
				if x, ok := w.force(in.(ssa.Instruction), s); ok {
					a = x
					s.tag |= tagForced
				}
			}
			if a.k != 0 {
				s.f[in] = a
			} else {
				delete(s.f, in)
			}
		}
	}
}

func captured(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Val == al {
				return true
			}
		case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr:
		default:
			return true
		}
	}
	return false
}

func (w *walker) goTo(s *wstate, to *ssa.BasicBlock, push func(*wstate)) {
	if w.edge != nil && !w.edge(s.blk, to, s) {
		return
	}
	n := s.clone()
	n.prev, n.blk, n.at = s.blk, to, 0
	// forget values that are not used any more outside of their block
	for v := range n.f {
		if in, ok := v.(ssa.Instruction); ok && in.Block() != to && !usedBeyond(v, in.Block()) {
			delete(n.f, v)
		}
	}
	push(n)
}

func usedBeyond(v ssa.Value, b *ssa.BasicBlock) bool {
	rs := v.Referrers()
	if rs == nil {
		return true
	}
	for _, r := range *rs {
		if r.Block() != b {
			return true
		}
		if _, ok := r.(*ssa.Phi); ok {
			return true
		}
	}
	return false
}

func isEOF(v ssa.Value) bool {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok {
			return g.Pkg != nil && g.Pkg.Pkg.Path() == "io" && g.Name() == "EOF"
		}
	}
	return false
}

func (w *walker) eval(v ssa.Value, s *wstate) aval {
	if a, ok := s.f[v]; ok {
		return a
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			switch v.Type().Underlying().(type) {
			case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
				return aval{k: 'n'}
			}
			return aval{}
		}
		switch v.Value.Kind() {
		case constant.Bool:
			return avBool(constant.BoolVal(v.Value))
		case constant.Int:
			if n, ok := constant.Int64Val(v.Value); ok {
				return aval{k: 'i', i: n}
			}
		case constant.String:
			return aval{k: 's', s: constant.StringVal(v.Value)}
		}
		return aval{}
	case *ssa.Function, *ssa.Alloc, *ssa.Global, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeClosure, *ssa.MakeSlice:
		return aval{k: 'N'}
	case *ssa.MakeInterface:
		return aval{k: 'N'}
	}
	return aval{}
}

// instrVal evaluates an instruction that is not a call.
func (w *walker) instrVal(v ssa.Value, s *wstate) aval {
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return aval{k: 'N'}
	case *ssa.ChangeInterface:
		return w.eval(v.X, s)
	case *ssa.ChangeType:
		return w.eval(v.X, s)
	case *ssa.Convert:
		a := w.eval(v.X, s)
		if a.k == 'i' || a.k == 'L' || a.k == 's' {
			if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsInteger|types.IsString) != 0 {
				if a.k == 'i' && b.Info()&types.IsString != 0 {
					return aval{}
				}
				return a
			}
		}
		return aval{}
	case *ssa.Extract:
		t := w.eval(v.Tuple, s)
		if t.k == 'T' && v.Index < len(t.tup) {
			return t.tup[v.Index]
		}
		return aval{}
	case *ssa.TypeAssert:
		a := w.eval(v.X, s)
		if a.k == 'n' && v.CommaOk {
			return aval{k: 'T', tup: []aval{{}, avBool(false)}}
		}
		if a.k == 'D' {
			ok := types.Identical(a.typ, v.AssertedType)
			if it, isI := v.AssertedType.Underlying().(*types.Interface); isI {
				ok = types.Implements(a.typ, it)
			}
			if v.CommaOk {
				return aval{k: 'T', tup: []aval{{}, avBool(ok)}}
			}
		}
		return aval{}
	case *ssa.UnOp:
		switch v.Op {
		case token.NOT:
			if a := w.eval(v.X, s); a.k == 'b' {
				return avBool(a.i == 0)
			}
		case token.SUB:
			if a := w.eval(v.X, s); a.k == 'i' {
				return aval{k: 'i', i: -a.i}
			}
		case token.MUL:
			if isEOF(v) {
				return aval{k: 'E'}
			}
			if al, ok := v.X.(*ssa.Alloc); ok {
				return s.mem[al]
			}
			if g, ok := v.X.(*ssa.Global); ok && isErrorType(v.Type()) && g.Pkg != nil {
				if w.p.inModuleGlobal(g) {
					if w.p.globalInit(g) != nil {
						return aval{k: 'N'}
					}
				} else if strings.HasPrefix(g.Name(), "Err") {
					return aval{k: 'N'}
				}
			}
		}
		return aval{}
	case *ssa.BinOp:
		x, y := w.eval(v.X, s), w.eval(v.Y, s)
		return binVal(v.Op, x, y)
	}
	return aval{}
}

func (p *Prog) inModuleGlobal(g *ssa.Global) bool {
	return g.Pkg != nil && g.Pkg.Pkg != nil && p.isModPath(g.Pkg.Pkg.Path())
}

func binVal(op token.Token, x, y aval) aval {
	if x.k == 'L' && y.k == 's' {
		x, y = y, x
	}
	if x.k == 's' && y.k == 'L' {
		if int64(len(x.s)) != y.i {
			switch op {
			case token.EQL:
				return avBool(false)
			case token.NEQ:
				return avBool(true)
			}
		} else if y.i == 0 {
			switch op {
			case token.EQL:
				return avBool(true)
			case token.NEQ:
				return avBool(false)
			}
		}
		return aval{}
	}
	switch op {
	case token.EQL, token.NEQ:
		r, known := false, false
		switch {
		case x.k == 'n' && y.k == 'n':
			r, known = true, true
		case x.k == 'n' && y.nonNil() || y.k == 'n' && x.nonNil():
			r, known = false, true
		case x.k == 'E' && y.k == 'E':
			r, known = true, true
		case x.k == 'b' && y.k == 'b' || x.k == 'i' && y.k == 'i':
			r, known = x.i == y.i, true
		case x.k == 's' && y.k == 's':
			r, known = x.s == y.s, true
		}
		if known {
			return avBool(r == (op == token.EQL))
		}
		return aval{}
	}
	if x.k != 'i' || y.k != 'i' {
		if x.k == 'b' && y.k == 'b' {
			switch op {
			case token.AND:
				return avBool(x.i&y.i == 1)
			case token.OR:
				return avBool(x.i|y.i == 1)
			}
		}
		return aval{}
	}
	switch op {
	case token.LSS:
		return avBool(x.i < y.i)
	case token.LEQ:
		return avBool(x.i <= y.i)
	case token.GTR:
		return avBool(x.i > y.i)
	case token.GEQ:
		return avBool(x.i >= y.i)
	case token.ADD:
		return aval{k: 'i', i: x.i + y.i}
	case token.SUB:
		return aval{k: 'i', i: x.i - y.i}
	}
	return aval{}
}

// learn notes what a branch says about the values compared.
func (w *walker) learn(c ssa.Value, val bool, s *wstate) {
	switch c := c.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			w.learn(c.X, !val, s)
			return
		}
	case *ssa.BinOp:
		x, y := c.X, c.Y
		a, b := w.eval(x, s), w.eval(y, s)
		if a.k != 0 && b.k == 0 {
			x, y, a, b = y, x, b, a
		}
		eq := c.Op == token.EQL && val || c.Op == token.NEQ && !val
		ne := c.Op == token.NEQ && val || c.Op == token.EQL && !val
		if b.k == 'n' && a.k == 0 {
			if eq {
				s.f[x] = b
				w.note(x, b, s)
			}
			if ne {
				s.f[x] = aval{k: 'N'}
				w.note(x, aval{k: 'N'}, s)
			}
		}
		if eq && a.k == 0 && b.k == 'E' {
			s.f[x] = b
		}
		if eq && a.k == 0 && (b.k == 'i' || b.k == 's' || b.k == 'b') {
			s.f[x] = b
		}
	}
	if _, ok := c.(*ssa.Const); !ok {
		s.f[c] = avBool(val)
	}
}

// note: what is known of the result of a repeatable query holds for the next
// time it is asked; what is known of a local variable for its memory.
func (w *walker) note(v ssa.Value, a aval, s *wstate) {
	switch v := v.(type) {
	case *ssa.Call:
		if k := queryKey(v); k != "" {
			s.keys[k] = a
		}
	case *ssa.UnOp:
		if al, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
			s.mem[al] = a
		}
	}
}

// queryKey identifies a call of an Error or Err method on the same receiver.
func queryKey(c *ssa.Call) string {
	cc := c.Common()
	var recv ssa.Value
	var name string
	if cc.IsInvoke() {
		recv, name = cc.Value, cc.Method.Name()
	} else if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(cc.Args) == 1 {
		recv, name = cc.Args[0], f.Name()
	} else {
		return ""
	}
	if name != "Error" && name != "Err" || c.Type() == nil || !isErrorType(c.Type()) {
		return ""
	}
	return name + "@" + pathKey(recv)
}

func pathKey(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return "*" + pathKey(v.X)
		}
	case *ssa.FieldAddr:
		return pathKey(v.X) + fmt.Sprintf(".%d", v.Field)
	case *ssa.Field:
		return pathKey(v.X) + fmt.Sprintf(".%d", v.Field)
	}
	return v.Name()
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (w *walker) callF(in *ssa.Call, s *wstate) (outs []aval, tags []int, ends bool) {
	if w.force == nil {
		outs, ends = w.call(in, s)
		return outs, nil, ends
	}
	if a, ok := w.force(in, s); ok {
		s.tag |= tagForced
		return []aval{a}, nil, false
	}
	cc := in.Common()
	f := cc.StaticCallee()
	if f == nil || w.depth >= 3 {
		outs, ends = w.call(in, s)
		return outs, nil, ends
	}
	u := w.p.unbound(f)
	if u.Blocks == nil || !w.p.inModule(u) || u.Recover != nil || len(cc.Args) != len(u.Params) {
		outs, ends = w.call(in, s)
		return outs, nil, ends
	}
	st := &wstate{blk: u.Blocks[0], f: map[ssa.Value]aval{}, mem: map[*ssa.Alloc]aval{}, keys: map[string]aval{}}
	for i, a := range cc.Args {
		if v := w.eval(a, s); v.k != 0 {
			st.f[u.Params[i]] = v
		}
	}
	if w.depth > 0 && w.active[u] {
		return []aval{{}}, nil, false
	}
	sub := &walker{p: w.p, depth: w.depth + 1, force: w.force, active: map[*ssa.Function]bool{u: true}}
	for k := range w.active {
		sub.active[k] = true
	}
	seen := map[string]bool{}
	sub.ret = func(_ *ssa.Return, vals []aval, t *wstate) {
		a := aval{}
		switch len(vals) {
		case 0:
		case 1:
			a = vals[0]
		default:
			a = aval{k: 'T', tup: vals}
		}
		k := fmt.Sprint(a, t.tag&tagForced)
		if !seen[k] {
			seen[k] = true
			outs = append(outs, a)
			tags = append(tags, t.tag&tagForced)
		}
	}
	sub.exit = func(_ ssa.Instruction, code aval, t *wstate) {
		ends = true
		if w.exit != nil {
			w.exit(in, code, s)
		}
	}
	sub.run(st)
	w.steps += sub.steps
	if sub.over {
		w.over = true
	}
	if len(outs) == 0 {
		ends = true
	}
	return outs, tags, ends
}

// call evaluates a call: the possible results, and whether the program may
// end in it.
func (w *walker) call(in *ssa.Call, s *wstate) (outs []aval, ends bool) {
	one := func(a aval) ([]aval, bool) { return []aval{a}, false }
	cc := in.Common()
	if k := queryKey(in); k != "" {
		if a, ok := s.keys[k]; ok {
			return one(a)
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "len" {
			a := w.eval(cc.Args[0], s)
			switch a.k {
			case 'L':
				return one(aval{k: 'i', i: a.i})
			case 's':
				return one(aval{k: 'i', i: int64(len(a.s))})
			case 'n':
				return one(aval{k: 'i'})
			}
		}
		return one(aval{})
	}
	if cc.IsInvoke() {
		return one(aval{})
	}
	f := cc.StaticCallee()
	if f == nil {
		return one(aval{})
	}
	name := f.RelString(nil)
	if f.Origin() != nil {
		name = f.Origin().RelString(nil)
	}
	switch errFn(name) {
	case 'C':
		return one(aval{k: 'N'})
	case 'W':
		a := w.eval(cc.Args[0], s)
		if a.nonNil() {
			return one(aval{k: 'N'})
		}
		if a.k == 'n' {
			return one(aval{k: 'n'})
		}
		return one(aval{})
	}
	switch name {
	case "os.Exit":
		if w.exit != nil {
			w.exit(in, w.eval(cc.Args[0], s), s)
		}
		return nil, true
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln":
		if w.exit != nil {
			w.exit(in, aval{k: 'i', i: 1}, s)
		}
		return nil, true
	case "log.Panic", "log.Panicf", "log.Panicln", "runtime.Goexit":
		if w.exit != nil {
			w.exit(in, aval{k: 'N'}, s)
		}
		return nil, true
	}
	u := w.p.unbound(f)
	if u.Blocks == nil || !w.p.inModule(u) || w.depth >= 3 {
		return one(aval{})
	}
	args := make([]aval, len(u.Params))
	if len(cc.Args) == len(u.Params) {
		for i, a := range cc.Args {
			args[i] = w.eval(a, s)
		}
	}
	rets, exits, ok := w.p.summary(u, args, w.depth+1)
	if !ok {
		return one(aval{})
	}
	for _, e := range exits {
		if w.exit != nil {
			w.exit(in, e, s)
		}
	}
	n := u.Signature.Results().Len()
	for _, r := range rets {
		switch n {
		case 0:
			return one(aval{})
		case 1:
			outs = append(outs, r[0])
		default:
			outs = append(outs, aval{k: 'T', tup: r})
		}
	}
	return outs, len(exits) > 0 || len(rets) == 0
}

// errFn: 'C' always returns an error, 'W' returns one if its first argument is one.
func errFn(name string) byte {
	switch name {
	case "errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
		return 'C'
	case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithStack", "github.com/pkg/errors.WithMessage", "github.com/pkg/errors.WithMessagef":
		return 'W'
	}
	return 0
}

type sumRes struct {
	rets  [][]aval
	exits []aval
	ok    bool
}

// summary: the results a module function can return, given what is known of
// its arguments.
func (p *Prog) summary(f *ssa.Function, args []aval, depth int) ([][]aval, []aval, bool) {
	k := fmt.Sprintf("%s|%v|%d", f.String(), args, depth)
	if p.sums == nil {
		p.sums = map[string]*sumRes{}
	}
	if r, ok := p.sums[k]; ok {
		return r.rets, r.exits, r.ok
	}
	r := &sumRes{}
	p.sums[k] = r // recursion: not ok
	st := &wstate{blk: f.Blocks[0], f: map[ssa.Value]aval{}, mem: map[*ssa.Alloc]aval{}, keys: map[string]aval{}}
	for i, a := range args {
		if a.k != 0 && i < len(f.Params) {
			st.f[f.Params[i]] = a
		}
	}
	seen := map[string]bool{}
	w := &walker{p: p, depth: depth}
	w.ret = func(_ *ssa.Return, vals []aval, _ *wstate) {
		s := fmt.Sprint(vals)
		if !seen[s] {
			seen[s] = true
			r.rets = append(r.rets, vals)
		}
	}
	w.exit = func(_ ssa.Instruction, code aval, _ *wstate) {
		r.exits = append(r.exits, code)
	}
	w.run(st)
	r.ok = !w.over
	if f.Recover != nil {
		r.ok = false
	}
	if len(r.rets) > 4 {
		j := append([]aval{}, r.rets[0]...)
		for _, v := range r.rets[1:] {
			for i := range j {
				if j[i].String() != v[i].String() {
					j[i] = aval{}
				}
			}
		}
		r.rets = [][]aval{j}
	}
	return r.rets, r.exits, r.ok
}

// startAfter is the state behind an instruction, with what the branches that
// dominate it say.
func (w *walker) startAfter(in ssa.Instruction) *wstate {
	b := in.Block()
	st := &wstate{blk: b, f: map[ssa.Value]aval{}, mem: map[*ssa.Alloc]aval{}, keys: map[string]aval{}}
	for i, x := range b.Instrs {
		if x == in {
			st.at = i + 1
		}
	}
	var ds []*ssa.BasicBlock
	for d := b; d != nil; d = d.Idom() {
		ds = append(ds, d)
	}
	for i := len(ds) - 1; i > 0; i-- {
		d, n := ds[i], ds[i-1]
		f, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || len(n.Preds) != 1 || n.Preds[0] != d || d.Succs[0] == d.Succs[1] {
			continue
		}
		// constants evaluated on demand, so that the comparisons are decided
		w.learn(f.Cond, n == d.Succs[0], st)
	}
	for v := range st.f {
		if inst, ok := v.(ssa.Instruction); ok && reDefined(inst, b) {
			delete(st.f, v)
		}
	}
	return st
}

// reDefined: facts of dominating branches hold at b, since the value is
// not computed again in between without passing the branch.
func reDefined(in ssa.Instruction, b *ssa.BasicBlock) bool { return false }
