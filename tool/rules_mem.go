package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C07", "interprocedural reference-flow analysis: references into the document (parameters of type Document of the exported functions, and everything loaded, indexed, sliced or ranged from them) are followed through variables, fields, closures, calls and results; no store, map update, append into a part, sort, copy or decoder call may write through one in the functions reachable from rendering and describing", ruleC07)
	register("C08", "reference-flow analysis from package variables over every function that can run after initialisation: no write through a package variable or a reference loaded from one, no goroutine, no call of a function that sets process-wide state", ruleC08)
	register("C09", "who-may-call rule (time, randomness, environment, process state) over the functions of the library; each iteration over a map is classified: what it accumulates must be sorted before use, keyed by the iterated key or commutative, and no result may be picked by whichever key comes first", ruleC09)
}

// libFuncs lists the functions of the library (all but the commands).
func (p *Prog) libFuncs() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Name() == "main" {
			continue
		}
		out = append(out, f)
	}
	return out
}

func funcName(f *ssa.Function) string {
	return strings.ReplaceAll(strings.ReplaceAll(f.String(), modPath+"/", ""), modPath+".", "xpdf.")
}

func isExported(f *ssa.Function) bool {
	if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
		return false
	}
	return true
}

// writeConstruct names a write by its function and what is written.
func writeConstruct(in ssa.Instruction) string {
	what := ""
	switch v := in.(type) {
	case *ssa.Store:
		what = "store to " + addrName(v.Addr)
	case *ssa.MapUpdate:
		what = "map update of " + addrName(v.Map)
	case ssa.CallInstruction:
		if f := v.Common().StaticCallee(); f != nil {
			what = "call of " + f.Name()
		} else if v.Common().Method != nil {
			what = "call of " + v.Common().Method.Name()
		} else if b, ok := v.Common().Value.(*ssa.Builtin); ok {
			what = b.Name()
		}
	}
	return funcName(in.Parent()) + ": " + what
}

func addrName(v ssa.Value) string {
	switch a := v.(type) {
	case *ssa.FieldAddr:
		st := deref(a.X.Type())
		if s, ok := st.Underlying().(*types.Struct); ok {
			n := "struct"
			if nt := namedOf(st); nt != nil {
				n = nt.Obj().Name()
			}
			return n + "." + s.Field(a.Field).Name()
		}
	case *ssa.IndexAddr:
		return "element of " + addrName(a.X)
	case *ssa.Global:
		return "variable " + a.Name()
	case *ssa.UnOp:
		return addrName(a.X)
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Alloc:
		return typeKeyShort(deref(v.Type()))
	}
	return typeKeyShort(v.Type())
}

func typeKeyShort(t types.Type) string {
	return strings.ReplaceAll(types.TypeString(t, func(p *types.Package) string { return p.Name() }), "*", "")
}

func ruleC07(c *Ck) {
	p := c.P
	dt := p.typ("xdoc", "Document")
	if dt == nil {
		c.und("C07.write", "Document", "type xdoc.Document not found")
		return
	}
	isDoc := func(t types.Type) bool {
		pt, ok := t.Underlying().(*types.Pointer)
		return ok && types.Identical(pt.Elem(), dt)
	}
	var roots []*ssa.Function
	nSrc := 0
	for _, f := range p.libFuncs() {
		if !isExported(f) {
			continue
		}
		load := false
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if isDoc(f.Signature.Results().At(i).Type()) {
				load = true
			}
		}
		if load || reflCalled[f.Name()] && strings.HasPrefix(f.Name(), "Unmarshal") || strings.Contains(f.Name(), "Decode") {
			continue
		}
		switch f.Pkg.Pkg.Path() {
		case modPath, modPath + "/engine", modPath + "/xdoc":
			if f.Pkg.Pkg.Path() == modPath+"/xdoc" && f.Signature.Recv() != nil {
				r := f.Signature.Recv().Type()
				if n := namedOf(deref(r)); n == nil || n.Obj().Name() == "Registry" {
					continue
				}
			}
			roots = append(roots, f)
			for _, q := range f.Params {
				if isDoc(q.Type()) {
					nSrc++
				}
			}
		}
	}
	m := &memFlow{p: p, funcs: p.reach(roots...)}
	inst := p.typ("xdoc", "Instruction")
	m.source = func(v ssa.Value) string {
		q, ok := v.(*ssa.Parameter)
		if !ok {
			return ""
		}
		f := q.Parent()
		if isDoc(q.Type()) {
			return "the document"
		}
		if !isExported(f) {
			return ""
		}
		// methods of elements and style sheets
		if f.Signature.Recv() != nil && len(f.Params) > 0 && q == f.Params[0] && strings.HasPrefix(f.Name(), "Mutate") {
			return "the element or style sheet"
		}
		if inst != nil && types.Identical(q.Type(), inst) {
			return "the element"
		}
		return ""
	}
	m.run()
	c.memReport(m, "C07.write", "the document")
	c.rule("C07.scope").Obligations++
	if nSrc >= 3 && len(m.funcs) >= 40 {
		c.rule("C07.scope").Discharged++
	} else {
		c.rule("C07.scope").Undecided++
		c.unds = append(c.unds, Finding{Rule: "C07.scope", Construct: "entry points", Msg: fmt.Sprintf("%d entry points taking a document, %d functions", nSrc, len(m.funcs))})
	}
}

// memReport reports the writes found; every other write in the functions
// analysed counts as discharged.
func (c *Ck) memReport(m *memFlow, rule, what string) {
	var fs []*ssa.Function
	for f := range m.funcs {
		fs = append(fs, f)
		c.nFuncs[f] = true
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c.nEv++
				if w, ok := m.viol[in]; ok {
					c.fail(rule, writeConstruct(in), c.P.posStr(in.Pos()), "%s writes to memory reached from %s (%s)", funcName(f), what, w)
					continue
				}
				if w, ok := m.soft[in]; ok {
					c.und(rule, writeConstruct(in), "may write to memory reached from %s (%s)", what, w)
					continue
				}
				switch in.(type) {
				case *ssa.Store, *ssa.MapUpdate:
					c.ok(rule, writeConstruct(in))
				}
			}
		}
	}
	c.nNodes += len(m.prot)
}

var stateSetters = []string{"os.Setenv", "os.Unsetenv", "os.Clearenv", "os.Chdir", "log.SetOutput", "log.SetFlags", "log.SetPrefix", "math/rand.Seed",
	"github.com/jung-kurt/gofpdf/v2.SetDefaultCompression", "github.com/jung-kurt/gofpdf/v2.SetDefaultCatalogSort", "github.com/jung-kurt/gofpdf/v2.SetDefaultCreationDate", "github.com/jung-kurt/gofpdf/v2.SetDefaultModificationDate",
	"image.RegisterFormat", "time.Local", "runtime.GOMAXPROCS", "runtime/debug.SetGCPercent", "encoding/gob.Register", "github.com/mazzegi/log.Install", "github.com/mazzegi/log.Set", "expvar.", "flag.Set"}

func ruleC08(c *Ck) {
	p := c.P
	cg := p.callgraph()
	io := p.initOnly()
	m := &memFlow{p: p, funcs: map[*ssa.Function]bool{}}
	for _, f := range p.libFuncs() {
		if f.Synthetic == "package initializer" || io[f] {
			continue
		}
		m.funcs[f] = true
	}
	m.globals = true
	m.source = func(v ssa.Value) string { return "" }
	m.run()
	locked := func(f *ssa.Function) bool {
		for _, s := range cg.sites[f] {
			switch s.ext {
			case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
				return true
			}
		}
		return false
	}
	onceOnly := func(f *ssa.Function) bool {
		cs := cg.callers[f]
		n := 0
		for _, g := range p.Funcs {
			for _, s := range cg.sites[g] {
				for _, x := range s.passed {
					if x == f {
						if !strings.HasPrefix(s.ext, "(*sync.Once).Do") && !strings.HasPrefix(s.ext, "sync.Once") {
							return false
						}
						n++
					}
				}
			}
		}
		return n > 0 && len(cs) == 0
	}
	for f := range m.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						m.viol[in] = "package variable " + g.Name()
					}
				}
				if _, ok := m.viol[in]; ok && (locked(f) || onceOnly(f)) {
					m.soft[in] = m.viol[in] + ", synchronised"
					delete(m.viol, in)
				}
			}
		}
	}
	c.memReport(m, "C08.write", "package-level state")
	for _, f := range p.libFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					c.fail("C08.goroutine", funcName(f), p.posStr(in.Pos()), "%s starts a goroutine", funcName(f))
				}
			}
		}
		for _, s := range cg.sites[f] {
			if s.ext == "" {
				continue
			}
			bad := ""
			for _, x := range stateSetters {
				if strings.HasPrefix(s.ext, x) {
					bad = x
				}
			}
			if bad == "" || io[f] {
				c.ok("C08.external", funcName(f)+": "+s.ext)
			} else {
				c.fail("C08.external", funcName(f)+": "+s.ext, p.posStr(s.in.Pos()), "%s calls %s, which sets state of the whole process", funcName(f), s.ext)
			}
		}
	}
}

var nondet = []string{"time.Now", "time.Since", "time.Until", "time.After", "time.Tick", "time.NewTimer", "time.NewTicker", "math/rand.", "math/rand/v2.", "(*math/rand", "crypto/rand.",
	"os.Getenv", "os.LookupEnv", "os.Environ", "os.ExpandEnv", "os.Hostname", "os.Getpid", "os.Getppid", "os.Getuid", "os.Getwd", "os.TempDir", "os.UserHomeDir", "os.Executable",
	"runtime.NumGoroutine", "runtime.NumCPU", "runtime.GOMAXPROCS", "runtime.ReadMemStats", "hash/maphash.", "(*hash/maphash", "os/user.", "net."}

func ruleC09(c *Ck) {
	p := c.P
	cg := p.callgraph()
	for _, f := range p.libFuncs() {
		c.nFuncs[f] = true
		for _, s := range cg.sites[f] {
			if s.ext == "" || strings.HasPrefix(s.ext, "builtin.") {
				continue
			}
			bad := false
			for _, x := range nondet {
				if strings.HasPrefix(s.ext, x) {
					bad = true
				}
			}
			k := funcName(f) + ": " + s.ext
			c.nEv++
			if bad && onlyLogged(s.in.Value(), map[ssa.Value]bool{}) {
				c.ok("C09.external", k+" (only logged)")
			} else {
				c.expect(!bad, "C09.external", k, p.posStr(s.in.Pos()), "%s calls %s: its result depends on more than the inputs", funcName(f), s.ext)
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch v := in.(type) {
				case *ssa.Select:
					if len(v.States) > 1 {
						c.fail("C09.select", funcName(f), p.posStr(in.Pos()), "%s waits for one of several channels: the choice is random", funcName(f))
					}
				case *ssa.Range:
					if _, ok := v.X.Type().Underlying().(*types.Map); ok {
						c.mapLoop(f, v)
					}
				case ssa.CallInstruction:
					c.mapKeys(f, v)
				}
			}
		}
	}
}

// onlyLogged: the value reaches output for people only.
func onlyLogged(v ssa.Value, seen map[ssa.Value]bool) bool {
	if v == nil {
		return true
	}
	if seen[v] {
		return true
	}
	seen[v] = true
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			ia, ok := r.Addr.(*ssa.IndexAddr)
			if !ok || r.Val != v {
				if al, ok := r.Addr.(*ssa.Alloc); ok && r.Val == v {
					if !onlyLogged(al, seen) {
						return false
					}
					continue
				}
				return false
			}
			if !onlyLogged(ia.X, seen) {
				return false
			}
		case *ssa.IndexAddr:
			// an element of the argument list: stores of other arguments
			for _, rr := range *r.Referrers() {
				if st, ok := rr.(*ssa.Store); !ok || st.Addr != r {
					return false
				}
			}
		case ssa.CallInstruction:
			if isLog(r) {
				continue
			}
			if f := r.Common().StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "time" {
				if r.Value() != nil && !onlyLogged(r.Value(), seen) {
					return false
				}
				continue
			}
			return false
		case ssa.Value:
			switch r.(type) {
			case *ssa.MakeInterface, *ssa.Extract, *ssa.Convert, *ssa.ChangeType, *ssa.BinOp, *ssa.Slice, *ssa.UnOp, *ssa.ChangeInterface:
				if !onlyLogged(r, seen) {
					return false
				}
			default:
				return false
			}
		default:
			return false
		}
	}
	return true
}

func isLog(ci ssa.CallInstruction) bool {
	f := ci.Common().StaticCallee()
	if f == nil || f.Pkg == nil {
		return false
	}
	pk := f.Pkg.Pkg.Path()
	return pk == "log" || pk == "github.com/mazzegi/log" || pk == "log/slog" || pk == modPath && (f.Name() == "Logf") || pk == "fmt" && strings.HasPrefix(f.Name(), "Print")
}

// loopOf lists the blocks of the loop with the given header.
func loopOf(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{h: true}
	var st []*ssa.BasicBlock
	for _, pr := range h.Preds {
		if h.Dominates(pr) {
			st = append(st, pr)
		}
	}
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if in[b] {
			continue
		}
		in[b] = true
		st = append(st, b.Preds...)
	}
	return in
}

// mapLoop decides whether the order of an iteration over a map can be observed.
func (c *Ck) mapLoop(f *ssa.Function, rg *ssa.Range) {
	rule := "C09.map-order"
	p := c.P
	name := funcName(f) + ": range over " + typeKeyShort(rg.X.Type())
	pos := p.posStr(rg.Pos())
	var next *ssa.Next
	for _, r := range *rg.Referrers() {
		if n, ok := r.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		c.ok(rule, name)
		return
	}
	repeat := loopOf(next.Block())
	// with what is done before the loop is left early
	loop := map[*ssa.BasicBlock]bool{}
	for b := range repeat {
		loop[b] = true
	}
	if i, ok := next.Block().Instrs[len(next.Block().Instrs)-1].(*ssa.If); ok {
		if body := i.Block().Succs[0]; repeat[body] || len(body.Preds) == 1 {
			for _, b := range f.Blocks {
				if body.Dominates(b) {
					loop[b] = true
				}
			}
		}
	}
	// values that depend on the key or the value of the iteration
	dep := map[ssa.Value]bool{next: true}
	for ch := true; ch; {
		ch = false
		for b := range loop {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && dep[st.Val] {
					if al := rootAlloc(st.Addr); al != nil && loop[al.Block()] && !dep[al] {
						dep[al] = true
						ch = true
					}
				}
				v, ok := in.(ssa.Value)
				if !ok || dep[v] {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && dep[*op] {
						dep[v] = true
						ch = true
						break
					}
				}
			}
		}
	}
	var key ssa.Value
	for _, r := range *next.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == 1 {
			key = e
		}
	}
	bad := func(po token.Pos, msg string) {
		c.fail(rule, name, p.posStr(po), "%s: %s", pos, msg)
	}
	und := ""
	// blocks guarded by a comparison of the key with something fixed
	keyed := func(b *ssa.BasicBlock) bool {
		for d := b; d != nil && d != next.Block(); d = d.Idom() {
			id := d.Idom()
			if id == nil || !loop[id] {
				break
			}
			if i, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If); ok {
				if bo, ok := i.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
					if bo.X == key && !dep[bo.Y] || bo.Y == key && !dep[bo.X] {
						return true
					}
				}
			}
		}
		return false
	}
	n0 := len(c.fails)
	// values kept when the loop is left early
	for _, b := range f.Blocks {
		if loop[b] {
			continue
		}
		for _, in := range b.Instrs {
			v, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, e := range v.Edges {
				if pr := b.Preds[i]; loop[pr] && pr != next.Block() && dep[e] && !keyed(pr) {
					bad(v.Pos(), "the value kept is that of the entry that comes first")
				}
			}
		}
	}
	for b := range loop {
		for _, in := range b.Instrs {
			c.nEv++
			switch v := in.(type) {
			case *ssa.Phi:
				if b != next.Block() {
					continue
				}
				switch k := c.carried(v, loop, dep); k {
				case "":
				case "append":
					if !sortedLater(v, v, loop, rg) {
						bad(v.Pos(), "the elements collected are used in the order of the map")
					}
				case "order":
					bad(v.Pos(), "the value accumulated depends on the order of the map")
				default:
					und = k
				}
			case *ssa.Return:
				for _, r := range v.Results {
					if dep[r] && !keyed(b) {
						bad(v.Pos(), "the result is decided by the entry that comes first")
					}
				}
			case *ssa.Store:
				switch a := v.Addr.(type) {
				case *ssa.Alloc, *ssa.FreeVar:
					if a, ok := a.(*ssa.Alloc); ok && loop[a.Block()] {
						continue
					}
					if _, isC := v.Val.(*ssa.Const); isC {
						continue
					}
					if ap, ok := v.Val.(*ssa.Call); ok && isBuiltin(ap, "append") {
						if !sortedLater(a, nil, loop, rg) {
							bad(v.Pos(), "the elements collected are used in the order of the map")
						}
						continue
					}
					if bo, ok := v.Val.(*ssa.BinOp); ok && commutes(bo) {
						continue
					}
					if dep[v.Val] && !keyed(b) {
						if !repeat[b] {
							bad(v.Pos(), "the value kept is that of the entry that comes first")
							continue
						}
						und = "variable set from the entry"
					}
				case *ssa.FieldAddr:
					if dep[a.X] || c.localTo(a.X, loop) {
						continue
					}
					if ap, ok := v.Val.(*ssa.Call); ok && isBuiltin(ap, "append") {
						bad(v.Pos(), "the elements collected in "+addrName(a)+" are in the order of the map")
						continue
					}
					if _, isC := v.Val.(*ssa.Const); !isC && dep[v.Val] && !keyed(b) {
						if !repeat[b] {
							bad(v.Pos(), "the value kept is that of the entry that comes first")
							continue
						}
						und = "field set from the entry"
					}
				case *ssa.IndexAddr:
					if c.localTo(a.X, loop) || dep[a.X] || dep[a.Index] {
						continue
					}
					if dep[v.Val] {
						und = "element set from the entry"
					}
				}
			case *ssa.MapUpdate:
				if v.Key == key || !dep[v.Value] || dep[v.Map] {
					continue
				}
				if dep[v.Key] {
					und = "map keyed by something computed from the entry"
				} else if !keyed(b) {
					bad(v.Pos(), "the last entry decides the value stored in a map")
				}
			case ssa.CallInstruction:
				if _, ok := v.(*ssa.Defer); ok {
					bad(v.Pos(), "deferred calls run in the order of the map")
					continue
				}
				cc := v.Common()
				if cc.IsInvoke() && typeKey(cc.Value.Type()) == typeKey(p.engineType()) {
					bad(v.Pos(), "the engine is called in the order of the map")
					continue
				}
				if isLog(v) {
					und = "logs in the order of the map"
					continue
				}
				if fn := cc.StaticCallee(); fn != nil && fn.Signature.Recv() != nil && fn.Pkg != nil {
					switch typeKey(deref(fn.Signature.Recv().Type())) {
					case "bytes.Buffer", "strings.Builder", "bufio.Writer":
						if strings.HasPrefix(fn.Name(), "Write") {
							bad(v.Pos(), "text is written in the order of the map")
							continue
						}
					}
				}
				if fn := cc.StaticCallee(); fn != nil && fn.Pkg != nil && fn.Pkg.Pkg.Path() == "fmt" && strings.HasPrefix(fn.Name(), "Fprint") {
					bad(v.Pos(), "text is written in the order of the map")
					continue
				}
				if fns := siteFns(p, v); len(fns) > 0 {
					if w := c.writesThrough(f, v, dep, loop); w != "" {
						bad(v.Pos(), "the entries take effect in the order of the map ("+w+")")
						continue
					}
					for g := range p.reach(fns...) {
						if e := effectful(p, g); e != "" {
							und = "calls " + e
							if strings.HasPrefix(e, "engine") {
								bad(v.Pos(), "the engine is called in the order of the map")
							}
						}
					}
				}
			}
		}
	}
	if len(c.fails) > n0 {
		return
	}
	if und != "" {
		c.und(rule, name, "%s: %s", pos, und)
		return
	}
	c.ok(rule, name+" at "+pos)
}

// rootAlloc: the variable that a part of is addressed.
func rootAlloc(v ssa.Value) *ssa.Alloc {
	for {
		switch a := v.(type) {
		case *ssa.Alloc:
			return a
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.IndexAddr:
			v = a.X
		default:
			return nil
		}
	}
}

// writesThrough: a call with values of the entry writes to memory that
// outlives the iteration.
func (c *Ck) writesThrough(f *ssa.Function, ci ssa.CallInstruction, dep map[ssa.Value]bool, loop map[*ssa.BasicBlock]bool) string {
	cc := ci.Common()
	args := append([]ssa.Value{}, cc.Args...)
	if cc.IsInvoke() {
		args = append(args, cc.Value)
	} else if _, ok := cc.Value.(*ssa.Function); !ok {
		args = append(args, cc.Value)
	}
	some := false
	shared := map[ssa.Value]bool{}
	for _, a := range args {
		if dep[a] {
			some = true
			continue
		}
		if in, ok := a.(ssa.Instruction); ok && loop[in.Block()] {
			if u, ok := a.(*ssa.UnOp); !ok || localIn(u.X, loop) {
				continue
			}
		}
		if _, ok := a.(*ssa.Function); ok {
			continue
		}
		if refBearing(a.Type(), 0) {
			shared[a] = true
		}
	}
	if !some || len(shared) == 0 {
		return ""
	}
	m := &memFlow{p: c.P, funcs: c.P.reach(siteFns(c.P, ci)...)}
	m.source = func(v ssa.Value) string { return "" }
	m.seed = func() {
		for _, t := range siteFns(c.P, ci) {
			as := cc.Args
			if cc.IsInvoke() {
				as = append([]ssa.Value{cc.Value}, as...)
			}
			for i, q := range t.Params {
				if i < len(as) && shared[as[i]] {
					m.mark(q, "shared")
				}
			}
		}
	}
	m.run()
	for _, g := range c.P.Funcs {
		if !m.funcs[g] {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if _, ok := m.viol[in]; !ok {
					continue
				}
				if _, ok := in.(*ssa.MapUpdate); ok {
					continue
				}
				return writeConstruct(in)
			}
		}
	}
	return ""
}

func localIn(v ssa.Value, loop map[*ssa.BasicBlock]bool) bool {
	in, ok := v.(ssa.Instruction)
	return ok && loop[in.Block()]
}

func siteFns(p *Prog, ci ssa.CallInstruction) []*ssa.Function {
	for _, s := range p.callgraph().sites[ci.Parent()] {
		if s.in == ci {
			return s.fns
		}
	}
	return nil
}

// effectful: a function that calls the engine or writes to memory it was given.
func effectful(p *Prog, f *ssa.Function) string {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case ssa.CallInstruction:
				cc := v.Common()
				if cc.IsInvoke() && p.engineType() != nil && typeKey(cc.Value.Type()) == typeKey(p.engineType()) {
					return "engine." + cc.Method.Name()
				}
			case *ssa.Store:
				switch a := v.Addr.(type) {
				case *ssa.FieldAddr:
					if _, ok := a.X.(*ssa.Alloc); !ok {
						return funcName(f)
					}
				case *ssa.Parameter, *ssa.Global:
					return funcName(f)
				}
			case *ssa.MapUpdate:
				if _, ok := v.Map.(*ssa.MakeMap); !ok {
					return funcName(f)
				}
			}
		}
	}
	return ""
}

func (c *Ck) localTo(v ssa.Value, loop map[*ssa.BasicBlock]bool) bool {
	in, ok := v.(ssa.Instruction)
	return ok && loop[in.Block()]
}

func isBuiltin(c *ssa.Call, name string) bool {
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == name
}

func commutes(b *ssa.BinOp) bool {
	bt, ok := b.Type().Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Op {
	case token.ADD, token.MUL:
		return bt.Info()&types.IsInteger != 0
	case token.OR, token.AND, token.XOR:
		return true
	}
	return false
}

// carried classifies how a loop-carried value is updated.
func (c *Ck) carried(phi *ssa.Phi, loop map[*ssa.BasicBlock]bool, dep map[ssa.Value]bool) string {
	out := ""
	seen := map[ssa.Value]bool{}
	var cls func(v ssa.Value)
	cls = func(v ssa.Value) {
		if v == phi || seen[v] {
			return
		}
		seen[v] = true
		if in, ok := v.(ssa.Instruction); ok && !loop[in.Block()] {
			return
		}
		switch x := v.(type) {
		case *ssa.Const:
		case *ssa.Phi:
			for _, e := range x.Edges {
				cls(e)
			}
		case *ssa.Call:
			if isBuiltin(x, "append") {
				out = "append"
				cls(x.Call.Args[0])
				return
			}
			if isBuiltin(x, "max") || isBuiltin(x, "min") {
				return
			}
			if out == "" {
				out = "value of a call carried along"
			}
		case *ssa.BinOp:
			if commutes(x) && (reach1(x.X, phi) != reach1(x.Y, phi)) {
				cls(x.X)
				cls(x.Y)
				return
			}
			if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 && x.Op == token.ADD {
				out = "order"
				return
			}
			if out == "" && !constDep(x, dep) {
				out = "value computed and carried along"
			}
		default:
			if dep[v] && out == "" {
				if phi.Referrers() != nil && len(*phi.Referrers()) > 0 {
					out = "value of an entry carried along"
				}
			}
		}
	}
	for i, e := range phi.Edges {
		if loop[phi.Block().Preds[i]] {
			cls(e)
		}
	}
	return out
}

func constDep(v *ssa.BinOp, dep map[ssa.Value]bool) bool { return false }

func reach1(v ssa.Value, phi *ssa.Phi) bool {
	if v == phi {
		return true
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		return reach1(x.X, phi) || reach1(x.Y, phi)
	}
	return false
}

// sortedLater: every use of the collected slice after the loop comes after
// it has been sorted. v is the slice (a phi) or the variable that holds it.
func sortedLater(v ssa.Value, phi *ssa.Phi, loop map[*ssa.BasicBlock]bool, rg *ssa.Range) bool {
	var uses, sorts []ssa.Instruction
	seen := map[ssa.Value]bool{}
	var walkUse func(x ssa.Value)
	walkUse = func(x ssa.Value) {
		if seen[x] || x.Referrers() == nil {
			return
		}
		seen[x] = true
		for _, r := range *x.Referrers() {
			if loop[r.Block()] {
				continue
			}
			if !afterLoop(r.Block(), loop) {
				continue
			}
			switch y := r.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Store:
				if y.Addr == x {
					continue // the variable set anew
				}
			case ssa.CallInstruction:
				if b, ok := y.Common().Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
					continue
				}
				if fn := y.Common().StaticCallee(); fn != nil {
					o := fn
					if fn.Origin() != nil {
						o = fn.Origin()
					}
					if o.Pkg != nil {
						pk, n := o.Pkg.Pkg.Path(), o.Name()
						if pk == "sort" && n != "Search" && n != "SearchStrings" && !strings.HasSuffix(n, "AreSorted") && n != "IsSorted" || pk == "slices" && strings.HasPrefix(n, "Sort") {
							sorts = append(sorts, r)
							continue
						}
					}
				}
			case *ssa.UnOp, *ssa.MakeInterface, *ssa.ChangeType:
				walkUse(r.(ssa.Value))
				continue
			case *ssa.MakeClosure:
				continue // e.g. the comparison of a sort
			}
			uses = append(uses, r)
		}
	}
	walkUse(v)
	if len(uses) == 0 {
		return true
	}
	for _, u := range uses {
		ok := false
		for _, s := range sorts {
			if s.Block() == u.Block() {
				for _, in := range s.Block().Instrs {
					if in == s {
						ok = true
						break
					}
					if in == u {
						break
					}
				}
			} else if s.Block().Dominates(u.Block()) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func afterLoop(b *ssa.BasicBlock, loop map[*ssa.BasicBlock]bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var st []*ssa.BasicBlock
	for l := range loop {
		for _, s := range l.Succs {
			if !loop[s] {
				st = append(st, s)
			}
		}
	}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] || loop[x] {
			continue
		}
		seen[x] = true
		if x == b {
			return true
		}
		st = append(st, x.Succs...)
	}
	return false
}

// mapKeys: lists of keys or values of a map must be sorted before use.
func (c *Ck) mapKeys(f *ssa.Function, ci ssa.CallInstruction) {
	fn := ci.Common().StaticCallee()
	if fn == nil {
		return
	}
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	if o.Pkg == nil && (o.Object() == nil || o.Object().Pkg() == nil) {
		return
	}
	pk := ""
	if o.Pkg != nil {
		pk = o.Pkg.Pkg.Path()
	} else {
		pk = o.Object().Pkg().Path()
	}
	isKeys := pk == "maps" && (o.Name() == "Keys" || o.Name() == "Values" || o.Name() == "All") || pk == "reflect" && (o.Name() == "MapKeys" || o.Name() == "MapRange") || pk == "sync" && o.Name() == "Range"
	if !isKeys {
		return
	}
	k := funcName(f) + ": " + pk + "." + o.Name()
	v := ci.Value()
	if v == nil {
		return
	}
	ok, un := true, false
	var chk func(v ssa.Value, d int)
	chk = func(v ssa.Value, d int) {
		if v.Referrers() == nil || d > 6 {
			un = true
			return
		}
		var sorts, uses []ssa.Instruction
		for _, r := range *v.Referrers() {
			switch y := r.(type) {
			case *ssa.DebugRef:
			case ssa.CallInstruction:
				g := y.Common().StaticCallee()
				if g != nil && g.Origin() != nil {
					g = g.Origin()
				}
				gp, gn := "", ""
				if g != nil && g.Object() != nil && g.Object().Pkg() != nil {
					gp, gn = g.Object().Pkg().Path(), g.Name()
				}
				switch {
				case gp == "slices" && strings.HasPrefix(gn, "Sort") || gp == "sort":
					sorts = append(sorts, r)
				case gp == "slices" && gn == "Collect":
					chk(y.Value(), d+1)
				case isBuiltinCall(y, "len"):
				default:
					uses = append(uses, r)
				}
			default:
				uses = append(uses, r)
			}
		}
		if len(uses) > 0 {
			for _, u := range uses {
				dom := false
				for _, s := range sorts {
					if s.Block().Dominates(u.Block()) {
						dom = true
					}
				}
				if !dom {
					if v == ci.Value() && o.Name() != "MapKeys" {
						un = true
					} else {
						ok = false
					}
				}
			}
		}
	}
	chk(v, 0)
	switch {
	case !ok:
		c.fail("C09.map-order", k, c.P.posStr(ci.Pos()), "%s lists the entries of a map and uses them in the order of the map", funcName(f))
	case un:
		c.und("C09.map-order", k, "order of the entries not followed")
	default:
		c.ok("C09.map-order", k)
	}
}

func isBuiltinCall(ci ssa.CallInstruction, n string) bool {
	b, ok := ci.Common().Value.(*ssa.Builtin)
	return ok && b.Name() == n
}
