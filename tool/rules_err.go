package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C03", "path-sensitive error-flow analysis of every function that loading can reach: a failed step never leads to a return without an error; forced outcomes (missing key, wrong length, unbalanced brace, out of range value) must be rejected", ruleC03)
	register("C04", "path-sensitive error-flow analysis of every function of the module: a failed call is returned as an error, reported in the log where there is no error result, and ends a command with a non-zero status; created files are closed with their error checked", ruleC04)
}

// errSource is a call with an error among its results.
type errSource struct {
	fn   *ssa.Function
	call *ssa.Call
	idx  int // index of the error result; -1: the only result
	name string
}

func errIndex(sig *types.Signature) (int, bool) {
	rs := sig.Results()
	for i := rs.Len() - 1; i >= 0; i-- {
		if isErrorType(rs.At(i).Type()) {
			if rs.Len() == 1 {
				return -1, true
			}
			return i, true
		}
	}
	return 0, false
}

func (p *Prog) errSources(in func(*ssa.Function) bool) []*errSource {
	cg := p.callgraph()
	initOnly := p.initOnly()
	var out []*errSource
	for _, f := range p.Funcs {
		if initOnly[f] || !in(f) {
			continue
		}
		for _, s := range cg.sites[f] {
			call, ok := s.in.(*ssa.Call)
			if !ok {
				continue
			}
			sig, ok := call.Common().Value.Type().Underlying().(*types.Signature)
			if call.Common().IsInvoke() {
				sig, ok = call.Common().Method.Type().(*types.Signature), true
			}
			if !ok {
				continue
			}
			idx, ok := errIndex(sig)
			if !ok {
				continue
			}
			out = append(out, &errSource{fn: f, call: call, idx: idx, name: p.siteName(s)})
		}
	}
	return out
}

func (p *Prog) siteName(s *site) string {
	if s.ext != "" {
		return s.ext
	}
	if len(s.fns) > 0 {
		return fnName(s.fns[0])
	}
	return "function value"
}

// exemptErr: results that may be ignored, by callee.
func (p *Prog) exemptErr(e *errSource) string {
	n := e.name
	if x := exemptName(n); x != "" {
		return x
	}
	// only constants: cannot fail at run time without failing always
	args := e.call.Common().Args
	if len(args) > 0 && !e.call.Common().IsInvoke() {
		all := true
		for _, a := range args {
			if !constOnly(a, 0) {
				all = false
			}
		}
		if all && errFn(n) == 0 {
			return "constant input"
		}
	}
	return ""
}

func exemptName(n string) string {
	switch {
	case strings.HasPrefix(n, "fmt.Print"), strings.HasPrefix(n, "fmt.Fprint"):
		return "printing"
	case strings.HasPrefix(n, "(*bytes.Buffer)."), strings.HasPrefix(n, "(*strings.Builder)."), strings.HasPrefix(n, "(*bytes.Reader)."):
		return "in memory"
	case strings.HasSuffix(n, ").Close"), strings.HasSuffix(n, ").Sync"), strings.HasSuffix(n, ".Close"):
		return "closing (see the rule for created files)"
	case n == "os.Getwd":
		return "without a working directory, relative image names are not found, which is reported"
	case n == "encoding/json.Marshal", n == "encoding/json.Unmarshal", n == "encoding/json.MarshalIndent", n == "encoding/xml.MarshalIndent", n == "encoding/xml.Marshal":
		return "encoding the program's own values"
	case n == "errors.Unwrap", n == "errors.Join", strings.HasPrefix(n, "github.com/pkg/errors.Wrap"), strings.HasPrefix(n, "github.com/pkg/errors.With"), n == "github.com/pkg/errors.Cause":
		return "passes an error on"
	}
	return ""
}

// theProg is the program under analysis.
var theProg *Prog

func constOnly(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeInterface:
		return constOnly(v.X, d+1)
	case *ssa.Convert:
		return constOnly(v.X, d+1)
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL {
			gi := theProg.globals()[g]
			return gi != nil && !gi.written && len(gi.initStores) == 1 && constOnly(gi.initStores[0].Val, d+1)
		}
	case *ssa.ChangeInterface:
		return constOnly(v.X, d+1)
	case *ssa.Call:
		f := v.Common().StaticCallee()
		if f == nil {
			return false
		}
		switch f.RelString(nil) {
		case "bytes.NewBufferString", "strings.NewReader", "bytes.NewReader", "bytes.NewBuffer":
			for _, a := range v.Common().Args {
				if !constOnly(a, d+1) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// carriers: everything computed from the error (in any way), and where it
// leaves the function's own variables.
type carry struct {
	vals    map[ssa.Value]bool
	escapes map[ssa.Instruction]bool // stored somewhere else, passed to unknown code
	logs    map[ssa.Instruction]bool
}

func (p *Prog) carriers(seeds ...ssa.Value) *carry {
	c := &carry{vals: map[ssa.Value]bool{}, escapes: map[ssa.Instruction]bool{}, logs: map[ssa.Instruction]bool{}}
	var work []ssa.Value
	add := func(v ssa.Value) {
		if v != nil && !c.vals[v] {
			c.vals[v] = true
			work = append(work, v)
		}
	}
	for _, s := range seeds {
		add(s)
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		rs := v.Referrers()
		if rs == nil {
			continue
		}
		for _, r := range *rs {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Val != v {
					continue
				}
				switch a := r.Addr.(type) {
				case *ssa.Alloc:
					add(a)
				case *ssa.IndexAddr:
					if al, ok := a.X.(*ssa.Alloc); ok {
						add(al)
					} else {
						c.escapes[r] = true
					}
				case *ssa.FieldAddr:
					if al, ok := a.X.(*ssa.Alloc); ok {
						add(al)
						c.escapes[r] = true
					} else {
						c.escapes[r] = true
					}
				default:
					c.escapes[r] = true
				}
			case *ssa.Send, *ssa.MapUpdate, *ssa.MakeClosure, *ssa.Go:
				c.escapes[r] = true
				if x, ok := r.(ssa.Value); ok {
					add(x)
				}
			case *ssa.Defer:
				c.escapes[r] = true
			case *ssa.BinOp, *ssa.If:
				// a comparison of it decides branches, which the walk follows; the
				// boolean is taken as information on it
				if x, ok := r.(ssa.Value); ok {
					add(x)
				}
			case *ssa.Call:
				if isLogCall(p, r) {
					c.logs[r] = true
					continue
				}
				f := r.Common().StaticCallee()
				if f != nil {
					u := p.unbound(f)
					if p.inModule(u) && u.Blocks != nil {
						if len(u.Params) == len(r.Common().Args) {
							for i, a := range r.Common().Args {
								if a == v && p.logsParam(u, i, 0) {
									c.logs[r] = true
								}
							}
						}
						if !c.logs[r] {
							c.escapes[r] = true
						}
					}
				} else if !r.Common().IsInvoke() || r.Common().Value != v {
					if _, ok := r.Common().Value.(*ssa.Builtin); !ok {
						c.escapes[r] = true
					}
				}
				add(r)
			case ssa.Value:
				add(r)
			}
		}
	}
	return c
}

func (p *Prog) logsParam(f *ssa.Function, i, d int) bool {
	if d > 3 || i >= len(f.Params) {
		return false
	}
	return len(p.carriers(f.Params[i]).logs) > 0
}

func isLogName(n string) bool {
	for _, p := range []string{"Log", "Error", "Warn", "Print", "Fatal", "Panic", "Fprint", "Info", "Debug", "log", "warn", "report"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func isLogCall(p *Prog, c *ssa.Call) bool {
	cc := c.Common()
	if cc.IsInvoke() {
		return isLogName(cc.Method.Name()) && cc.Method.Name() != "Error" && cc.Signature().Results().Len() == 0
	}
	if f := cc.StaticCallee(); f != nil {
		u := p.unbound(f)
		if p.inModule(u) && u.Blocks != nil {
			return false
		}
		pk := ""
		if f.Pkg != nil {
			pk = f.Pkg.Pkg.Path()
		}
		if f.Signature.Recv() != nil {
			if n := namedOf(deref(f.Signature.Recv().Type())); n != nil && n.Obj().Pkg() != nil {
				pk = n.Obj().Pkg().Path()
			}
		}
		if pk == "fmt" {
			return strings.HasPrefix(f.Name(), "Print") || strings.HasPrefix(f.Name(), "Fprint")
		}
		return (pk == "log" || strings.Contains(pk, "log")) && isLogName(f.Name())
	}
	switch v := cc.Value.(type) {
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok {
			return isLogName(g.Name()) && cc.Signature().Results().Len() == 0
		}
		return cc.Signature().Results().Len() == 0 && cc.Signature().Variadic()
	case *ssa.Builtin:
		return v.Name() == "print" || v.Name() == "println" || v.Name() == "panic"
	}
	return cc.Signature().Results().Len() == 0 && cc.Signature().Variadic()
}

const (
	tagLogged = 1 << iota
	tagEscaped
	tagRetried
)

type errVerdict struct {
	bad, unk string
	good     int
	path     string
}

// follow walks every path on which the call failed.
func (p *Prog) followErr(e *errSource) errVerdict {
	w := &walker{p: p}
	st := w.startAfter(e.call)
	if e.idx < 0 {
		st.f[e.call] = aval{k: 'N'}
		if k := queryKey(e.call); k != "" {
			st.keys[k] = aval{k: 'N'}
		}
	} else {
		n := e.call.Common().Signature().Results().Len()
		t := make([]aval, n)
		t[e.idx] = aval{k: 'N'}
		st.f[e.call] = aval{k: 'T', tup: t}
	}
	var seeds []ssa.Value
	if e.idx < 0 {
		seeds = append(seeds, e.call)
	} else {
		for _, r := range *e.call.Referrers() {
			if x, ok := r.(*ssa.Extract); ok && x.Index == e.idx {
				seeds = append(seeds, x)
			}
		}
	}
	return p.walkFail(w, st, e.fn, p.carriers(seeds...), e.call, errFn(e.name) == 'C')
}

// walkFail: from a state in which something failed, every path must end
// reporting it.
func (p *Prog) walkFail(w *walker, st *wstate, fn *ssa.Function, cr *carry, src ssa.Instruction, constructed bool) errVerdict {
	var v errVerdict
	sig := fn.Signature
	ei, hasErr := errIndex(sig)
	if ei < 0 {
		ei = 0
	}
	isCmd := fn.Pkg != nil && fn.Pkg.Pkg.Name() == "main"
	bad := func(s *wstate, at ssa.Instruction, format string, args ...any) {
		if s.tag&(tagEscaped) != 0 {
			if v.unk == "" {
				v.unk = "it is stored or passed on; " + fmt.Sprintf(format, args...)
			}
			return
		}
		if v.bad == "" {
			v.bad = fmt.Sprintf(format, args...) + " at " + p.instrPos(at)
		}
	}
	w.instr = func(in ssa.Instruction, s *wstate) bool {
		if cr.logs[in] {
			s.tag |= tagLogged
		}
		if cr.escapes[in] {
			s.tag |= tagEscaped
		}
		if in == src {
			s.tag |= tagRetried
		}
		return true
	}
	w.cond = func(c ssa.Value, s *wstate) int {
		// errors.Is(err, io.EOF), err == io.EOF: the regular end
		if call, ok := c.(*ssa.Call); ok {
			if f := call.Common().StaticCallee(); f != nil && f.RelString(nil) == "errors.Is" && isEOF(call.Common().Args[1]) && cr.vals[call.Common().Args[0]] {
				return -1
			}
		}
		if b, ok := c.(*ssa.BinOp); ok {
			if isEOF(b.X) && cr.vals[b.Y] || isEOF(b.Y) && cr.vals[b.X] {
				if b.Op.String() == "==" {
					return -1
				}
				return 1
			}
		}
		return 0
	}
	w.exit = func(in ssa.Instruction, code aval, s *wstate) {
		switch {
		case code.k == 'N', code.k == 'i' && code.i != 0:
			v.good++
		case code.k == 'i':
			bad(s, in, "the program ends with status 0")
		default:
			if v.unk == "" {
				v.unk = "exit status not known"
			}
		}
	}
	w.ret = func(r *ssa.Return, vals []aval, s *wstate) {
		if hasErr && ei < len(vals) {
			a := vals[ei]
			switch {
			case a.nonNil():
				v.good++
			case s.tag&tagRetried != 0 && a.k == 0 && overwritten(r.Results[ei], src):
				bad(s, r, "does the same again, and returns the result of the last time")
			case cr.vals[r.Results[ei]] && a.k != 'n':
				v.good++
			case a.k == 'n':
				if constructed && s.tag&tagLogged != 0 {
					v.good++
					return
				}
				bad(s, r, "returns without an error")
			default:
				if p.mayBeNil(r.Results[ei], 0) {
					bad(s, r, "returns the result of something else")
				} else if v.unk == "" {
					v.unk = "error returned at " + p.instrPos(r) + " not known"
				}
			}
			return
		}
		if isCmd && sig.Results().Len() == 0 && fn.Parent() == nil && (fn.Name() == "main" || s.tag&tagLogged == 0) {
			bad(s, r, "%s ends normally", fn.Name())
			return
		}
		if s.tag&tagLogged != 0 {
			v.good++
			return
		}
		for i, x := range vals {
			t := sig.Results().At(i).Type().Underlying()
			if x.k == 'n' || isBool(t) || cr.vals[r.Results[i]] || isCmd && x.k == 'i' && x.i != 0 {
				if v.unk == "" {
					v.unk = "the failure is told by another result"
				}
				return
			}
		}
		bad(s, r, "%s ends without reporting it", fn.Name())
	}
	w.run(st)
	if w.over && v.unk == "" {
		v.unk = "too many paths"
	}
	return v
}

// overwritten: the value is one variable that holds the result of the last
// execution of the call, and nothing else but nil.
func overwritten(v ssa.Value, src ssa.Instruction) bool {
	seen := map[ssa.Value]bool{}
	found := false
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			for _, e := range v.Edges {
				if !rec(e) {
					return false
				}
			}
			return true
		case *ssa.Const:
			return true
		case *ssa.Extract:
			return rec(v.Tuple)
		case *ssa.Call:
			if ssa.Instruction(v) == src {
				found = true
				return true
			}
		}
		return false
	}
	return rec(v) && found
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// mayBeNil: the error can be nil, being the result of a call that may succeed.
func (p *Prog) mayBeNil(v ssa.Value, d int) bool {
	if d > 4 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value == nil
	case *ssa.Call:
		if f := v.Common().StaticCallee(); f != nil {
			switch errFn(f.RelString(nil)) {
			case 'C':
				return false
			case 'W':
				return p.mayBeNil(v.Common().Args[0], d+1)
			}
			u := p.unbound(f)
			if p.inModule(u) && u.Blocks != nil {
				rets, _, ok := p.summary(u, make([]aval, len(u.Params)), 1)
				if !ok {
					return false
				}
				ei, has := errIndex(u.Signature)
				if !has {
					return false
				}
				if ei < 0 {
					ei = 0
				}
				for _, r := range rets {
					if !r[ei].nonNil() {
						return true
					}
				}
				return false
			}
		}
		return true
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return p.mayBeNil(c, d+1)
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if p.mayBeNil(e, d+1) {
				return true
			}
		}
	}
	return false
}

func (c *Ck) errRule(rule string, in func(*ssa.Function) bool) {
	for _, e := range c.P.errSources(in) {
		e := e
		construct := fnName(e.fn) + " <- " + e.name
		if x := c.P.exemptErr(e); x != "" {
			c.ok(rule+"-exempt", construct+" ("+x+")")
			continue
		}
		if errFn(e.name) == 'C' && !in(e.fn) {
			continue
		}
		c.nFuncs[e.fn] = true
		v := c.P.followErr(e)
		pos := c.P.instrPos(e.call)
		switch {
		case v.bad != "":
			c.fail(rule, construct, pos, "a failure of %s is lost: %s %s", e.name, fnName(e.fn), v.bad)
		case v.unk != "":
			c.und(rule, construct, "%s (%s)", v.unk, pos)
		default:
			c.ok(rule, construct)
		}
	}
}

// loaders are the functions that load something.
func (p *Prog) loaders() map[*ssa.Function]bool {
	var roots []*ssa.Function
	for _, f := range p.Funcs {
		if f.Parent() != nil || f.Pkg == nil {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(f.Pkg.Pkg.Path(), p.ModPath), "/")
		switch rel {
		case "xdoc", "style", "hyphenation", "font":
		default:
			continue
		}
		n := f.Name()
		if f.Signature.Recv() == nil && (strings.HasPrefix(n, "Load") || strings.HasPrefix(n, "Decode") || strings.HasPrefix(n, "Parse")) {
			roots = append(roots, f)
		}
		if reflCalled[n] && strings.HasPrefix(n, "Unmarshal") || n == "DecodeAttrs" || n == "DecodeInstruction" {
			roots = append(roots, f)
		}
	}
	return p.reach(roots...)
}

func ruleC04(c *Ck) {
	c.errRule("C04.reported", func(*ssa.Function) bool { return true })
	c.created()
	c.deferred()
	c.buffered()
	if g := c.body("", ""); g != nil {
		c.errorAskedLast(g, "C04.asked-last")
	} else {
		c.und("C04.asked-last", "Process", "no rendering entry point")
	}
}

// deferred: the result of a deferred call is dropped.
func (c *Ck) deferred() {
	p := c.P
	cg := p.callgraph()
	initOnly := p.initOnly()
	for _, f := range p.Funcs {
		if initOnly[f] {
			continue
		}
		for _, s := range cg.sites[f] {
			ci, ok := s.in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if _, plain := s.in.(*ssa.Call); plain {
				continue
			}
			if _, has := errIndex(ci.Common().Signature()); !has {
				continue
			}
			name := p.siteName(s)
			construct := fnName(f) + " <- deferred " + name
			if x := exemptName(name); x != "" {
				c.ok("C04.deferred", construct+" ("+x+")")
				continue
			}
			c.fail("C04.deferred", construct, p.instrPos(s.in), "a failure of the deferred %s is lost", name)
		}
	}
}

// buffered: what is written to a buffering writer is flushed.
func (c *Ck) buffered() {
	p := c.P
	cg := p.callgraph()
	for _, f := range p.Funcs {
		for _, s := range cg.sites[f] {
			call, ok := s.in.(*ssa.Call)
			if !ok || s.ext != "bufio.NewWriter" && s.ext != "bufio.NewWriterSize" {
				continue
			}
			flushed, other := false, false
			for _, r := range nonDebug(*call.Referrers()) {
				switch r := r.(type) {
				case ssa.CallInstruction:
					if fn := r.Common().StaticCallee(); fn != nil {
						if fn.Name() == "Flush" {
							flushed = true
						}
						if p.inModule(fn) {
							other = true
						}
					}
				case *ssa.MakeInterface:
				default:
					other = true
				}
			}
			construct := fnName(f) + " <- " + s.ext
			switch {
			case flushed:
				c.ok("C04.flushed", construct)
			case other:
				c.und("C04.flushed", construct, "where the buffer is flushed is not evident")
			default:
				c.fail("C04.flushed", construct, p.instrPos(call), "what is buffered is never flushed")
			}
		}
	}
}

// created: a created file is closed, with its error looked at, before
// success is reported.
func (c *Ck) created() {
	p := c.P
	cg := p.callgraph()
	for _, f := range p.Funcs {
		for _, s := range cg.sites[f] {
			call, ok := s.in.(*ssa.Call)
			if !ok || s.ext != "os.Create" && s.ext != "os.OpenFile" && s.ext != "os.CreateTemp" {
				continue
			}
			construct := fnName(f) + " <- " + s.ext
			var file ssa.Value
			for _, r := range *call.Referrers() {
				if x, ok := r.(*ssa.Extract); ok && x.Index == 0 {
					file = x
				}
			}
			if file == nil {
				c.fail("C04.created", construct, p.instrPos(call), "the created file is dropped")
				continue
			}
			// closes whose error is used; closures or helpers that get the file
			var closes = map[ssa.Instruction]bool{}
			other := false
			for _, r := range *file.Referrers() {
				switch r := r.(type) {
				case *ssa.Call:
					cc := r.Common()
					if fn := cc.StaticCallee(); fn != nil && (fn.Name() == "Close" || fn.Name() == "Sync") && len(cc.Args) == 1 {
						if len(nonDebug(*r.Referrers())) > 0 {
							closes[r] = true
						}
						continue
					}
					if fn := cc.StaticCallee(); fn != nil && p.inModule(fn) {
						// may close it
						if p.closesParam(fn, r, file) {
							other = true
						}
					}
				case *ssa.MakeClosure, *ssa.Store:
					other = true
				case *ssa.Defer, *ssa.MakeInterface, *ssa.DebugRef:
				}
			}
			w := &walker{p: p}
			st := w.startAfter(call)
			n := call.Common().Signature().Results().Len()
			t := make([]aval, n)
			t[0], t[n-1] = aval{k: 'N'}, aval{k: 'n'}
			st.f[call] = aval{k: 'T', tup: t}
			badAt := ""
			ei, hasErr := errIndex(f.Signature)
			if ei < 0 {
				ei = 0
			}
			w.instr = func(in ssa.Instruction, s *wstate) bool { return !closes[in] }
			w.ret = func(r *ssa.Return, vals []aval, s *wstate) {
				if hasErr && (vals[ei].nonNil() || vals[ei].k != 'n' && !p.mayBeNil(r.Results[ei], 0)) {
					return
				}
				if badAt == "" {
					badAt = p.instrPos(r)
				}
			}
			w.run(st)
			switch {
			case w.over || badAt != "" && other:
				c.und("C04.created", construct, "closing not understood")
			case badAt != "":
				c.fail("C04.created", construct, p.instrPos(call), "%s can end successfully (%s) without having closed the created file and looked at the error", fnName(f), badAt)
			default:
				c.ok("C04.created", construct)
			}
		}
	}
}

func nonDebug(rs []ssa.Instruction) []ssa.Instruction {
	var out []ssa.Instruction
	for _, r := range rs {
		if _, ok := r.(*ssa.DebugRef); !ok {
			out = append(out, r)
		}
	}
	return out
}

func (p *Prog) closesParam(fn *ssa.Function, call *ssa.Call, v ssa.Value) bool {
	for f := range p.reach(fn) {
		for _, s := range p.callgraph().sites[f] {
			if strings.HasSuffix(s.ext, ".Close") || strings.HasSuffix(s.ext, ").Close") {
				return true
			}
		}
	}
	return false
}

func ruleC03(c *Ck) {
	ls := c.P.loaders()
	c.errRule("C03.reported", func(f *ssa.Function) bool { return ls[f] })
	p := c.P
	c.scanners(ls)

	// elements that are not registered
	for _, n := range []string{"Instructions.UnmarshalXML", "Table.UnmarshalXML", "TableRow.UnmarshalXML"} {
		c.unregistered(p.fn("xdoc", n), n)
	}
	// style entries that are not key:value
	dm := p.fn("style", "DecodeMutator")
	c.rejects("C03.keyvalue", dm, "style entry without colon", func(in ssa.Instruction) (aval, bool) { return splitOutcome(in, ":", 1) })
	if p.searches(dm, ":", "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.LastIndex", "strings.LastIndexByte", "strings.IndexAny", "strings.IndexFunc", "strings.ContainsFunc") {
		c.und("C03.keyvalue", "style entry with two colons", "positions of colons are compared")
	} else {
		c.rejects("C03.keyvalue", dm, "style entry with two colons", func(in ssa.Instruction) (aval, bool) { return splitOutcome(in, ":", 3) })
	}
	// style sheets
	dc := p.fn("style", "DecodeClasses")
	c.rejects("C03.balance", dc, "class without closing brace", func(in ssa.Instruction) (aval, bool) { return splitOutcome(in, "}", 1) })
	c.rejects("C03.balance", dc, "brace where none may be", func(in ssa.Instruction) (aval, bool) {
		n, as := callTo(in)
		if (n == "strings.Contains" || n == "strings.ContainsAny" || n == "strings.ContainsRune") && len(as) == 2 && braceArg(as[1]) {
			return avBool(true), true
		}
		return aval{}, false
	})
	c.innerBraces(dc)
	c.rejects("C03.balance", dc, "text behind the last class", func(in ssa.Instruction) (aval, bool) {
		if a, ok := splitOutcome(in, "{", 1); ok {
			return a, true
		}
		if isTrim(p, in) {
			return aval{k: 'L', i: 5}, true
		}
		return aval{}, false
	})
	c.rejects("C03.balance", dc, "class without a name", func(in ssa.Instruction) (aval, bool) {
		if isTrim(p, in) {
			if sl, ok := in.(*ssa.Call).Common().Args[0].(*ssa.Slice); ok && sl.High != nil && sl.Low == nil {
				return aval{k: 'L'}, true
			}
		}
		return aval{}, false
	})
	c.rejects("C03.selector", dc, "selector of an unknown class", func(in ssa.Instruction) (aval, bool) {
		if l, ok := in.(*ssa.Lookup); ok && l.CommaOk {
			if n := namedOf(l.X.Type()); n != nil && n.Obj().Name() == "Classes" {
				return aval{k: 'T', tup: []aval{{}, avBool(false)}}, true
			}
		}
		return aval{}, false
	})
	c.rejects("C03.selector", dc, "selector without a class", func(in ssa.Instruction) (aval, bool) {
		if l, ok := in.(*ssa.Lookup); ok && l.CommaOk {
			if n := namedOf(l.X.Type()); n != nil && n.Obj().Name() == "Classes" {
				return aval{k: 'T', tup: []aval{{}, avBool(false)}}, true
			}
		}
		n, as := callTo(in)
		if (n == "strings.Index" || n == "strings.IndexByte") && len(as) == 2 && constIs(as[1], ":") {
			return aval{k: 'i'}, true
		}
		return aval{}, false
	})
	// colours
	for _, n := range []int64{5, 7} {
		n := n
		c.rejects("C03.color", p.fn("style", "RGB.UnmarshalStyle"), fmt.Sprintf("colour of %d digits", n), func(in ssa.Instruction) (aval, bool) {
			call, ok := in.(*ssa.Call)
			if !ok {
				return aval{}, false
			}
			if b, ok := call.Common().Value.(*ssa.Builtin); ok && b.Name() == "len" && isString(call.Common().Args[0].Type()) {
				return aval{k: 'i', i: n}, true
			}
			return aval{}, false
		})
	}
	c.protect("C03.color", c.wholeColour)
	c.numbers("C03.number")
	// repeatheader
	ta := p.fn("xdoc", "Table.DecodeAttrs")
	for _, n := range []int64{-1, 11} {
		n := n
		c.rejects("C03.repeatheader", ta, fmt.Sprintf("repeatheader %d", n), func(in ssa.Instruction) (aval, bool) { return parsedInt(in, n) })
	}
	for _, n := range []int64{0, 10} {
		n := n
		c.accepts("C03.repeatheader", ta, fmt.Sprintf("repeatheader %d", n), func(in ssa.Instruction) (aval, bool) { return parsedInt(in, n) })
	}
	// grids
	gu := p.fn("xdoc", "Grid.UnmarshalXML")
	gt := p.typ("xdoc", "Grid")
	if gu == nil || gt == nil {
		c.und("C03.grid", "Grid", "no grid decoder")
		return
	}
	read := false
	for f := range p.reach(gu) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && fieldIs(fa, "GridPart", "Area") && loaded(fa) {
					read = true
				}
			}
		}
	}
	c.expect(read, "C03.grid", "Grid.UnmarshalXML: areas of parts", p.instrPos(gu.Blocks[0].Instrs[0]), "the areas of a grid's parts are never compared with the areas of its rows")
	c.rejects("C03.grid", gu, "grid without rows", func(in ssa.Instruction) (aval, bool) {
		if lenOfField(in, "Grid", "Rows") {
			return aval{k: 'i'}, true
		}
		return aval{}, false
	})
	c.meets("C03.grid", gu, "parts", func(in ssa.Instruction) bool { return lenOfField(in, "Grid", "Parts") })
	c.meets("C03.grid", gu, "rows", func(in ssa.Instruction) bool { return lenOfField(in, "Grid", "Rows") })
	c.rejects("C03.grid", gu, "part in an unknown area", func(in ssa.Instruction) (aval, bool) {
		if l, ok := in.(*ssa.Lookup); ok {
			if m, ok := l.X.Type().Underlying().(*types.Map); ok && isString(m.Key()) {
				if _, isI := m.Elem().Underlying().(*types.Interface); isI {
					return aval{}, false
				}
				if l.CommaOk {
					return aval{k: 'T', tup: []aval{avBool(false), avBool(false)}}, true
				}
				if isBool(m.Elem()) {
					return avBool(false), true
				}
			}
		}
		return aval{}, false
	})
	c.protect("C03.grid", func() { c.gridLoops(gu) })
	for _, more := range []bool{false, true} {
		what := map[bool]string{false: "row with fewer areas", true: "row with more areas"}[more]
		c.rejects("C03.grid", gu, what, func(in ssa.Instruction) (aval, bool) {
			b, ok := in.(*ssa.BinOp)
			if !ok {
				return aval{}, false
			}
			x, okx := b.X.(ssa.Instruction)
			y, oky := b.Y.(ssa.Instruction)
			if !okx || !oky || !lenOfField(x, "GridRow", "Areas") || !lenOfField(y, "GridRow", "Areas") {
				return aval{}, false
			}
			// the size of a row compared with that of the first, or the other way round
			fx, fy := ofFixedElem(x), ofFixedElem(y)
			larger := more == fy
			switch b.Op {
			case token.EQL, token.NEQ:
				return avBool(b.Op == token.NEQ), true
			case token.GTR, token.GEQ:
				return avBool(larger), fx != fy
			case token.LSS, token.LEQ:
				return avBool(!larger), fx != fy
			}
			return aval{}, false
		})
	}
}

// ofFixedElem: the length is that of a field of an element at a constant index.
func ofFixedElem(in ssa.Instruction) bool {
	fa := in.(*ssa.Call).Common().Args[0].(*ssa.UnOp).X.(*ssa.FieldAddr)
	u, ok := fa.X.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	ix, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	_, ok = ix.Index.(*ssa.Const)
	return ok
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func fieldIs(fa *ssa.FieldAddr, typ, field string) bool {
	n := namedOf(deref(fa.X.Type()))
	if n == nil || n.Obj().Name() != typ {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	return ok && st.Field(fa.Field).Name() == field
}

func loaded(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
			return true
		}
	}
	return false
}

func lenOfField(in ssa.Instruction, typ, field string) bool {
	call, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := call.Common().Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" {
		return false
	}
	u, ok := call.Common().Args[0].(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return ok && fieldIs(fa, typ, field)
}

// callTo: the name and arguments of a call of a known function.
func callTo(in ssa.Instruction) (string, []ssa.Value) {
	call, ok := in.(*ssa.Call)
	if !ok {
		return "", nil
	}
	f := call.Common().StaticCallee()
	if f == nil {
		return "", nil
	}
	return f.RelString(nil), call.Common().Args
}

func constIs(v ssa.Value, s string) bool {
	if cv, ok := v.(*ssa.Convert); ok {
		v = cv.X
	}
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil {
		return false
	}
	switch k.Value.Kind() {
	case constant.String:
		return constant.StringVal(k.Value) == s
	case constant.Int:
		n, _ := constant.Int64Val(k.Value)
		return len(s) == 1 && n == int64(s[0])
	}
	return false
}

func braceArg(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil {
		return false
	}
	if k.Value.Kind() == constant.String {
		return strings.Trim(constant.StringVal(k.Value), "{}") == ""
	}
	return constIs(v, "{") || constIs(v, "}")
}

func isTrim(p *Prog, in ssa.Instruction) bool {
	n, as := callTo(in)
	if n == "strings.TrimSpace" && len(as) == 1 || n == "strings.Trim" && len(as) == 2 {
		return true
	}
	call, ok := in.(*ssa.Call)
	if !ok || len(as) != 1 || !isString(as[0].Type()) || !isString(call.Type()) {
		return false
	}
	f := call.Common().StaticCallee()
	if f == nil || !p.inModule(f) || len(f.Blocks) != 1 {
		return false
	}
	for _, x := range f.Blocks[0].Instrs {
		if isTrim(p, x) {
			return true
		}
	}
	return false
}

// splitOutcome: the result of a search for a separator, as if the text had
// n-1 of them.
func splitOutcome(in ssa.Instruction, sep string, n int64) (aval, bool) {
	name, as := callTo(in)
	if len(as) < 2 || !constIs(as[1], sep) {
		return aval{}, false
	}
	switch name {
	case "strings.Split":
		return aval{k: 'L', i: n}, true
	case "strings.SplitN":
		k, ok := as[2].(*ssa.Const)
		if !ok {
			return aval{}, false
		}
		if m, _ := constant.Int64Val(k.Value); m > 0 && m < n {
			return aval{k: 'L', i: m}, true
		}
		return aval{k: 'L', i: n}, true
	case "strings.Cut":
		if n == 1 {
			return aval{k: 'T', tup: []aval{{}, {k: 's'}, avBool(false)}}, true
		}
		return aval{k: 'T', tup: []aval{{}, {}, avBool(true)}}, true
	case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.LastIndex", "strings.LastIndexByte", "strings.IndexAny":
		if n == 1 {
			return aval{k: 'i', i: -1}, true
		}
	case "strings.Contains", "strings.ContainsRune", "strings.ContainsAny":
		return avBool(n > 1), true
	case "strings.Count":
		return aval{k: 'i', i: n - 1}, true
	}
	return aval{}, false
}

func parsedInt(in ssa.Instruction, n int64) (aval, bool) {
	name, _ := callTo(in)
	switch name {
	case "strconv.ParseInt", "strconv.Atoi":
		return aval{k: 'T', tup: []aval{{k: 'i', i: n}, {k: 'n'}}}, true
	case "strconv.ParseUint":
		if n >= 0 {
			return aval{k: 'T', tup: []aval{{k: 'i', i: n}, {k: 'n'}}}, true
		}
		return aval{k: 'T', tup: []aval{{}, {k: 'N'}}}, true
	}
	return aval{}, false
}

// forced walks a function with some results forced and lists the error
// results of the paths that met one.
func (c *Ck) forced(fn *ssa.Function, force func(in ssa.Instruction) (aval, bool)) (rets []aval, at []string, over bool) {
	w := &walker{p: c.P, active: map[*ssa.Function]bool{fn: true}}
	w.force = func(in ssa.Instruction, _ *wstate) (aval, bool) { return force(in) }
	ei, has := errIndex(fn.Signature)
	if !has {
		return nil, nil, true
	}
	if ei < 0 {
		ei = 0
	}
	w.ret = func(r *ssa.Return, vals []aval, s *wstate) {
		if s.tag&tagForced != 0 {
			a := vals[ei]
			if a.k == 0 && c.P.mayBeNil(r.Results[ei], 0) {
				a = aval{k: 'n'}
			}
			rets = append(rets, a)
			at = append(at, c.P.instrPos(r))
		}
	}
	w.run(&wstate{blk: fn.Blocks[0], f: map[ssa.Value]aval{}, mem: map[*ssa.Alloc]aval{}, keys: map[string]aval{}})
	return rets, at, w.over
}

func (c *Ck) rejects(rule string, fn *ssa.Function, what string, force func(in ssa.Instruction) (aval, bool)) {
	if fn == nil {
		c.und(rule, what, "no such decoder")
		return
	}
	construct := fnName(fn) + ": " + what
	c.nFuncs[fn] = true
	rets, at, over := c.forced(fn, force)
	und := ""
	for i, a := range rets {
		switch {
		case a.k == 'n':
			c.fail(rule, construct, at[i], "a %s is accepted without an error", what)
			return
		case !a.nonNil():
			und = "result not known at " + at[i]
		}
	}
	switch {
	case over:
		c.und(rule, construct, "too many paths")
	case len(rets) == 0:
		c.und(rule, construct, "no place found where this shows")
	case und != "":
		c.und(rule, construct, "%s", und)
	default:
		c.ok(rule, construct)
	}
}

// meets: no success without having met a certain instruction.
func (c *Ck) meets(rule string, fn *ssa.Function, what string, pred func(in ssa.Instruction) bool) {
	construct := fnName(fn) + ": " + what + " looked at"
	w := &walker{p: c.P, active: map[*ssa.Function]bool{fn: true}}
	met := false
	w.force = func(in ssa.Instruction, _ *wstate) (aval, bool) {
		if pred(in) {
			met = true
			return aval{}, true
		}
		return aval{}, false
	}
	ei, has := errIndex(fn.Signature)
	if !has {
		c.und(rule, construct, "no error result")
		return
	}
	if ei < 0 {
		ei = 0
	}
	bad, und := "", ""
	w.ret = func(r *ssa.Return, vals []aval, s *wstate) {
		if s.tag&tagForced != 0 {
			return
		}
		a := vals[ei]
		switch {
		case a.nonNil():
		case a.k == 'n':
			bad = c.P.instrPos(r)
		case c.P.mayBeNil(r.Results[ei], 0):
			und = c.P.instrPos(r)
		}
	}
	w.run(&wstate{blk: fn.Blocks[0], f: map[ssa.Value]aval{}, mem: map[*ssa.Alloc]aval{}, keys: map[string]aval{}})
	switch {
	case w.over:
		c.und(rule, construct, "too many paths")
	case !met:
		c.und(rule, construct, "no place found where they are looked at")
	case bad != "":
		c.fail(rule, construct, bad, "success without having looked at the %s", what)
	case und != "":
		c.und(rule, construct, "result not known at %s", und)
	default:
		c.ok(rule, construct)
	}
}

// searches: one of the functions is called with the text.
func (p *Prog) searches(fn *ssa.Function, what string, names ...string) bool {
	if fn == nil {
		return false
	}
	for f := range p.reach(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				n, as := callTo(in)
				for _, x := range names {
					if x == n && len(as) >= 2 && (constIs(as[1], what) || strings.HasSuffix(x, "Func")) {
						return true
					}
				}
			}
		}
	}
	return false
}

// innerBraces: if the only searches for braces are one for the opening brace,
// and one for the closing brace behind it, then a closing brace before it, and
// an opening brace within, are not seen.
func (c *Ck) innerBraces(fn *ssa.Function) {
	if fn == nil {
		return
	}
	p := c.P
	var open, closing []*ssa.Call
	unknown := ""
	for f := range p.reach(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.BinOp); ok {
					for _, o := range []ssa.Value{x.X, x.Y} {
						if k, ok := o.(*ssa.Const); ok && k.Value != nil && isInteger(k.Type()) && (constIs(o, "{") || constIs(o, "}")) {
							unknown = "bytes are compared"
						}
					}
				}
				n, as := callTo(in)
				if strings.HasPrefix(n, "regexp.") || strings.HasPrefix(n, "(*regexp.") || strings.HasPrefix(n, "strings.") && strings.HasSuffix(n, "Func") || strings.HasPrefix(n, "(*strings.Re") {
					unknown = n
				}
				if len(as) < 2 || !strings.HasPrefix(n, "strings.") && !strings.HasPrefix(n, "bytes.") {
					continue
				}
				has := func(s string) bool {
					if constIs(as[1], s) {
						return true
					}
					k, ok := as[1].(*ssa.Const)
					return ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), s)
				}
				if _, isK := as[1].(*ssa.Const); !isK {
					if cv, ok := as[1].(*ssa.Convert); !ok || !constOnly(cv, 0) {
						unknown = "the text searched for is not constant"
					}
				}
				if strings.HasPrefix(n, "strings.Trim") {
					continue
				}
				if has("{") {
					open = append(open, in.(*ssa.Call))
				}
				if has("}") {
					closing = append(closing, in.(*ssa.Call))
				}
			}
		}
	}
	const rule = "C03.balance"
	behind := func(x *ssa.Call) bool {
		n, as := callTo(x)
		sl, ok := as[0].(*ssa.Slice)
		return ok && sl.Low != nil && strings.Contains(n, ".Index") && strings.HasPrefix(n, "strings.")
	}
	if unknown != "" {
		c.und(rule, fnName(fn)+": braces within", "%s", unknown)
		return
	}
	if len(closing) == 1 && behind(closing[0]) {
		c.fail(rule, fnName(fn)+": closing brace before the opening one", p.instrPos(closing[0]), "a closing brace is only looked for behind the opening one")
	} else {
		c.ok(rule, fnName(fn)+": closing brace before the opening one")
	}
	if n, _ := callTo(firstCall(open)); len(open) == 1 && len(closing) > 0 && behind(closing[0]) && (n == "strings.Index" || n == "strings.IndexByte" || n == "strings.IndexRune") {
		c.fail(rule, fnName(fn)+": opening brace within a class", p.instrPos(open[0]), "a second opening brace before the closing one is not looked for")
	} else {
		c.ok(rule, fnName(fn)+": opening brace within a class")
	}
}

func firstCall(cs []*ssa.Call) ssa.Instruction {
	if len(cs) == 0 {
		return nil
	}
	return cs[0]
}

func (c *Ck) accepts(rule string, fn *ssa.Function, what string, force func(in ssa.Instruction) (aval, bool)) {
	if fn == nil {
		c.und(rule, what, "no such decoder")
		return
	}
	construct := fnName(fn) + ": " + what + " accepted"
	rets, at, over := c.forced(fn, force)
	for _, a := range rets {
		if !a.nonNil() {
			c.ok(rule, construct)
			return
		}
	}
	if over || len(rets) == 0 {
		c.und(rule, construct, "no place found where this shows")
		return
	}
	c.fail(rule, construct, at[0], "a %s is never accepted", what)
}

// unregistered: a start element that is not in the registry leads to an
// error, not to the next token.
func (c *Ck) unregistered(fn *ssa.Function, what string) {
	rule := "C03.unregistered"
	if fn == nil {
		c.und(rule, what, "no such decoder")
		return
	}
	p := c.P
	construct := fnName(fn)
	c.nFuncs[fn] = true
	w := &walker{p: p, active: map[*ssa.Function]bool{fn: true}}
	bad, good, unk := "", 0, ""
	const tagStart = 1 << 21
	isToken := func(in ssa.Instruction) bool {
		n, _ := callTo(in)
		return n == "(*encoding/xml.Decoder).Token" || n == "(*encoding/xml.Decoder).RawToken"
	}
	var se types.Type
	for _, pk := range p.SSA.AllPackages() {
		if pk.Pkg.Path() == "encoding/xml" {
			if o := pk.Pkg.Scope().Lookup("StartElement"); o != nil {
				se = o.Type()
			}
		}
	}
	if se == nil {
		c.und(rule, construct, "no xml package")
		return
	}
	w.instr = func(in ssa.Instruction, s *wstate) bool {
		if isToken(in) {
			if s.tag&tagStart != 0 {
				if bad == "" {
					bad = p.instrPos(in)
				}
				return false
			}
			s.tag |= tagStart
		}
		return true
	}
	w.force = func(in ssa.Instruction, s *wstate) (aval, bool) {
		if isToken(in) {
			return aval{k: 'T', tup: []aval{{k: 'D', typ: se}, {k: 'n'}}}, true
		}
		if l, ok := in.(*ssa.Lookup); ok {
			if m, ok := l.X.Type().Underlying().(*types.Map); ok {
				if n := namedOf(m.Elem()); n != nil && n.Obj().Name() == "Instruction" {
					if l.CommaOk {
						return aval{k: 'T', tup: []aval{{k: 'n'}, avBool(false)}}, true
					}
					return aval{k: 'n'}, true
				}
			}
		}
		return aval{}, false
	}
	ei, has := errIndex(fn.Signature)
	if !has {
		c.und(rule, construct, "no error result")
		return
	}
	if ei < 0 {
		ei = 0
	}
	w.ret = func(r *ssa.Return, vals []aval, s *wstate) {
		if s.tag&tagStart == 0 {
			return
		}
		switch {
		case vals[ei].nonNil():
			good++
		case vals[ei].k == 'n':
			if bad == "" {
				bad = p.instrPos(r)
			}
		default:
			unk = p.instrPos(r)
		}
	}
	w.run(&wstate{blk: fn.Blocks[0], f: map[ssa.Value]aval{}, mem: map[*ssa.Alloc]aval{}, keys: map[string]aval{}})
	switch {
	case bad != "":
		c.fail(rule, construct, bad, "an element that is not registered is skipped instead of rejected")
	case w.over || unk != "" || good == 0:
		c.und(rule, construct, "not decided (%d paths rejecting, %s)", good, unk)
	default:
		c.ok(rule, construct)
	}
}

// scanners: where a scanner stops, its error is asked for before success is
// reported.
func (c *Ck) scanners(in map[*ssa.Function]bool) {
	p := c.P
	for _, f := range p.Funcs {
		if !in[f] {
			continue
		}
		ei, has := errIndex(f.Signature)
		if ei < 0 {
			ei = 0
		}
		for _, s := range p.callgraph().sites[f] {
			call, ok := s.in.(*ssa.Call)
			if !ok || s.ext != "(*bufio.Scanner).Scan" {
				continue
			}
			construct := fnName(f) + " <- Scanner.Err"
			if !has {
				c.und("C03.scanner", construct, "no error result")
				continue
			}
			recv := call.Common().Args[0]
			w := &walker{p: p}
			st := w.startAfter(call)
			st.f[call] = avBool(false)
			bad := ""
			w.instr = func(in ssa.Instruction, _ *wstate) bool {
				n, as := callTo(in)
				return !(n == "(*bufio.Scanner).Err" && as[0] == recv)
			}
			w.ret = func(r *ssa.Return, vals []aval, _ *wstate) {
				if vals[ei].k == 'n' {
					bad = p.instrPos(r)
				}
			}
			w.run(st)
			switch {
			case bad != "" && len(nonDebug(*recv.Referrers())) > 0 && !onlyMethods(recv):
				c.und("C03.scanner", construct, "the scanner is passed on")
			case bad != "":
				c.fail("C03.scanner", construct, bad, "success is reported without asking the scanner for its error")
			default:
				c.ok("C03.scanner", construct)
			}
		}
	}
}

func onlyMethods(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		call, ok := r.(*ssa.Call)
		if !ok {
			if _, d := r.(*ssa.DebugRef); d {
				continue
			}
			return false
		}
		if f := call.Common().StaticCallee(); f == nil || f.Signature.Recv() == nil || call.Common().Args[0] != v {
			return false
		}
	}
	return true
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// wholeColour: no characters of a colour are left unread.
func (c *Ck) wholeColour() {
	rule := "C03.color"
	f := c.P.fn("style", "RGB.UnmarshalStyle")
	if f == nil || len(f.Params) != 2 {
		return
	}
	for _, w := range []struct {
		n    int64
		hash bool
	}{{3, false}, {4, true}, {5, false}, {7, false}, {6, true}, {8, false}, {9, true}, {8, true}, {12, false}} {
		at := func(g *Graph, t *Term) *Term {
			T, src := g.T, g.val(g.root, f.Params[1])
			m := map[*Term]*Term{T.len(src): T.numI(w.n)}
			walk(t, func(x *Term) bool {
				if x.op == OCall && len(x.args) == 2 && x.args[0] == src && x.args[1].isStr() && x.args[1].s == "#" {
					switch x.s {
					case "strings.HasPrefix":
						m[x] = T.boolC(w.hash)
					case "strings.TrimPrefix":
						m[x] = src
						if w.hash {
							m[x] = T.slice(src, T.One, T.None)
						}
					}
				}
				if x.op == OLen && x.args[0].op == OSlice && x.args[0].args[0] == src {
					if lo, hi, ok := bounds(x.args[0], w.n); ok {
						m[x] = T.numI(hi - lo)
					}
				}
				if x.op == OIndex && x.args[0] == src && x.args[1] == T.Zero {
					m[x] = T.numI('#')
					if !w.hash {
						m[x] = T.numI('0')
					}
				}
				return true
			})
			return T.subst(T.subst(t, m), m)
		}
		g := c.graphOf(f, fmt.Sprint("colour", w.n, w.hash), func(g *Graph, t *Term) (bool, bool) {
			if x := at(g, t); x.isBool() {
				return x.i == 1, true
			}
			return false, false
		})
		if g == nil {
			return
		}
		digits := w.n
		if w.hash {
			digits--
		}
		con := fmt.Sprintf("all of %d digits", digits)
		src := g.val(g.root, f.Params[1])
		read := map[int64]bool{}
		known, n, pos := true, 0, ""
		var calls []*Term
		had := map[*Term]bool{}
		look := func(t *Term, at string) {
			walk(t, func(x *Term) bool {
				if x.op == OCall && !had[x] && !strings.HasPrefix(x.s, "strings.") && contains(x, func(y *Term) bool { return y == src }) {
					had[x] = true
					if strings.HasPrefix(x.s, "strconv.Parse") {
						pos = at
					}
					calls = append(calls, x)
				}
				return true
			})
		}
		stores := g.evs(func(e *Event) bool { return e.kind == "store" })
		for _, e := range stores {
			look(g.simp(g.evArgs(e)[1]), g.evPos(e))
		}
		for _, x := range calls {
			n++
			if !strings.HasPrefix(x.s, "strconv.Parse") {
				known = false
				continue
			}
			a := at(g, x.args[0])
			lo, hi := int64(0), w.n
			if a.op == OSlice && a.args[0] == src {
				l, h, ok := bounds(a, w.n)
				if lo, hi = l, h; !ok {
					known = false
				}
			} else if a != src {
				known = false
			}
			for i := lo; i < hi; i++ {
				read[i] = true
			}
		}
		ignored := int64(0)
		first := int64(0)
		if w.hash {
			first = 1
		}
		for i := first; i < w.n; i++ {
			if !read[i] {
				ignored++
			}
		}
		switch {
		case n == 0 && len(g.evs(func(e *Event) bool {
			return e.kind == "call" && !strings.Contains(e.callee, "rror") && !strings.HasPrefix(e.callee, "strings.")
		})) == 0:
			c.ok(rule, con)
		case n == 0 || !known:
			c.und(rule, con, "how the digits are read is not evident")
		case ignored > 0:
			c.fail(rule, con, pos, "of a colour of %d digits, %d are ignored", digits, ignored)
		default:
			c.ok(rule, con)
		}
	}
}

// bounds of a slice of something of n elements, if they are constant.
func bounds(t *Term, n int64) (lo, hi int64, ok bool) {
	hi, ok = n, true
	for i, x := range t.args[1:] {
		switch {
		case x.op == ONone:
		case !x.isNum() || !x.rat().IsInt():
			return 0, n, false
		case i == 0:
			lo = x.rat().Num().Int64()
		case i == 1:
			hi = x.rat().Num().Int64()
		}
	}
	return lo, hi, lo <= hi && hi <= n
}

// gridLoops: all rows and parts of a grid are looked at before it is
// accepted.
func (c *Ck) gridLoops(gu *ssa.Function) {
	rule := "C03.grid"
	for f := range c.P.reach(gu) {
		if !c.P.inModule(f) || len(f.Blocks) == 0 || f.Pkg == nil || f.Pkg != gu.Pkg {
			continue
		}
		ei, has := errIndex(f.Signature)
		if !has || !readsField(f, "Grid", "Parts") {
			continue
		}
		if ei < 0 {
			ei = 0
		}
		g := c.graphOf(f, "", nil)
		if g == nil {
			continue
		}
		rets := map[*Node]*Term{}
		for _, r := range g.results(ei) {
			rets[r.n] = r.t
		}
		for _, l := range g.loops {
			iv := g.iv(l)
			var list *Term
			for n := range l.body {
				for _, it := range n.items {
					_ = it
				}
				for _, e := range n.succs {
					if cd := g.cond(e); cd != nil {
						walk(cd, func(x *Term) bool {
							if s, i := seqElem(x); s != nil && i == iv && list == nil && s.op == OLoad && (ownerOf(s, "Grid", "Parts") || ownerOf(s, "Grid", "Rows")) {
								list = s
							}
							return true
						})
					}
				}
			}
			if list == nil {
				continue
			}
			name := fieldName(list.args[0])
			con := fnName(f) + ": loop over " + name
			done := g.T.le(g.T.len(list), iv, true)
			bad := false
			for _, e := range l.exits {
				cd := g.cond(e)
				if !g.liveEdge[e] || cd == done || cd == nil {
					continue
				}
				fl := &flow{g: g, step: func(e *Event, s int) (int, bool) { return s, false }}
				fl.edge = func(x *Edge, s int) (int, bool) { return s, g.liveEdge[x] && !l.body[x.to] }
				ends := map[*Node]bool{}
				fl.atEnd = func(n *Node, s int) { ends[n] = true }
				fl.run(point{e.to, 0}, 0)
				only := len(ends) > 0
				for n := range ends {
					t := rets[n]
					if t == nil {
						only = false
						continue
					}
					ls, ok := g.leaves([]*Term{t}, lit{cd, true})
					for _, lf := range ls {
						only = only && ok && lf.ts[0] == g.T.Nil
					}
				}
				if only && understood(cd) {
					bad = true
					c.fail(rule, con, g.loopPos(l), "a grid is accepted although not all of its %s were looked at, if %s", strings.ToLower(name), clip(cd.String(), 150))
				}
			}
			if !bad {
				c.ok(rule, con)
			}
		}
	}
}

// ownerOf: t is a field of a struct of the module, or its address.
func ownerOf(t *Term, typ, field string) bool {
	if t.op == OLoad {
		t = t.args[0]
	}
	if t.op != OFAddr && t.op != OField {
		return false
	}
	n := namedOf(deref(t.typ))
	return n != nil && n.Obj().Name() == typ && fieldName(t) == field
}

func readsField(f *ssa.Function, typ, field string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && fieldIs(fa, typ, field) {
				return true
			}
		}
	}
	return false
}
