package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C25", "typestate on every path from an opening call to the end of its function: the file is closed, a deferred call closes it, or the file is handed out", ruleC25)
}

var openers = map[string]bool{"os.Open": true, "os.Create": true, "os.OpenFile": true, "os.CreateTemp": true, "io/ioutil.TempFile": true,
	"(*os.Root).Open": true, "(*os.Root).Create": true, "compress/gzip.NewReader": true, "archive/zip.OpenReader": true, "os.OpenInRoot": true}

// aliases are the values that are the given one, also read back from local
// variables; fv: free variables of closures that hold it.
func aliases(v ssa.Value) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	var add func(ssa.Value)
	add = func(v ssa.Value) {
		if out[v] {
			return
		}
		out[v] = true
		rs := v.Referrers()
		if rs == nil {
			return
		}
		for _, r := range *rs {
			switch r := r.(type) {
			case *ssa.Phi:
				add(r)
			case *ssa.MakeInterface:
				add(r)
			case *ssa.ChangeInterface:
				add(r)
			case *ssa.ChangeType:
				add(r)
			case *ssa.TypeAssert:
				if !r.CommaOk {
					add(r)
				}
			case *ssa.Store:
				if al, ok := r.Addr.(*ssa.Alloc); ok && r.Val == v {
					for _, ar := range *al.Referrers() {
						if u, ok := ar.(*ssa.UnOp); ok && u.Op == token.MUL {
							add(u)
						}
						if mc, ok := ar.(*ssa.MakeClosure); ok {
							fn := mc.Fn.(*ssa.Function)
							for i, b := range mc.Bindings {
								if b == al && i < len(fn.FreeVars) {
									for _, fr := range *fn.FreeVars[i].Referrers() {
										if u, ok := fr.(*ssa.UnOp); ok && u.Op == token.MUL {
											add(u)
										}
									}
								}
							}
						}
					}
				}
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v && i < len(fn.FreeVars) {
						add(fn.FreeVars[i])
					}
				}
			}
		}
	}
	add(v)
	return out
}

// closes: the call closes the file (or may, in a module function it is
// passed to).
func (p *Prog) closes(cc *ssa.CallCommon, fs map[ssa.Value]bool, d int) bool {
	if d > 4 {
		return false
	}
	if cc.IsInvoke() {
		return cc.Method.Name() == "Close" && fs[cc.Value]
	}
	inside := func(fn *ssa.Function, sub map[ssa.Value]bool) bool {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && p.closes(ci.Common(), sub, d+1) {
					return true
				}
			}
		}
		return false
	}
	switch v := cc.Value.(type) {
	case *ssa.MakeClosure:
		// bound method f.Close, or a closure over f
		fn := v.Fn.(*ssa.Function)
		if fn.Synthetic != "" {
			return fn.Object() != nil && fn.Object().Name() == "Close" && len(v.Bindings) == 1 && fs[v.Bindings[0]]
		}
		if inside(fn, fs) {
			return true
		}
	}
	f := cc.StaticCallee()
	if f == nil {
		return false
	}
	if f.Name() == "Close" && f.Signature.Recv() != nil && len(cc.Args) > 0 && fs[cc.Args[0]] {
		return true
	}
	u := p.unbound(f)
	if p.inModule(u) && u.Blocks != nil && len(u.Params) == len(cc.Args) {
		for i, a := range cc.Args {
			if fs[a] && inside(u, aliases(u.Params[i])) {
				return true
			}
		}
	}
	return false
}

func ruleC25(c *Ck) {
	p := c.P
	n := 0
	for _, f := range p.Funcs {
		for _, s := range p.callgraph().sites[f] {
			if !openers[s.ext] && !p.opensFile(s) {
				continue
			}
			n++
			construct := fnName(f) + " <- " + p.siteName(s)
			call, ok := s.in.(*ssa.Call)
			if !ok {
				c.fail("C25.closed", construct, p.instrPos(s.in), "a file is opened by a deferred or concurrent call")
				continue
			}
			c.nFuncs[f] = true
			var file ssa.Value
			if call.Common().Signature().Results().Len() == 1 {
				file = call
			} else {
				for _, r := range *call.Referrers() {
					if x, ok := r.(*ssa.Extract); ok && x.Index == 0 {
						file = x
					}
				}
			}
			if file == nil {
				// `return os.Open(name)` hands it out
				out := false
				for _, r := range nonDebug(*call.Referrers()) {
					if _, ok := r.(*ssa.Return); ok {
						out = true
					}
				}
				c.expect(out, "C25.closed", construct, p.instrPos(call), "the opened file is dropped without being closed")
				continue
			}
			fs := aliases(file)
			w := &walker{p: p}
			st := w.startAfter(call)
			if rn := call.Common().Signature().Results().Len(); rn > 1 {
				t := make([]aval, rn)
				t[0] = aval{k: 'N'}
				if isErrorType(call.Common().Signature().Results().At(rn - 1).Type()) {
					t[rn-1] = aval{k: 'n'}
				}
				st.f[call] = aval{k: 'T', tup: t}
			}
			bad, unk := "", ""
			w.instr = func(in ssa.Instruction, t *wstate) bool {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if _, isGo := in.(*ssa.Go); !isGo && p.closes(ci.Common(), fs, 0) {
						return false
					}
					if in == ssa.Instruction(call) {
						// opened again without having been closed
						if bad == "" {
							bad = p.instrPos(in)
						}
						return false
					}
				}
				switch in := in.(type) {
				case *ssa.Store:
					if fs[in.Val] {
						if _, local := in.Addr.(*ssa.Alloc); !local {
							unk = "the file is stored at " + p.instrPos(in)
							return false
						}
					}
				case *ssa.Send, *ssa.MapUpdate, *ssa.Go:
					for _, o := range in.Operands(nil) {
						if *o != nil && fs[*o] {
							unk = "the file is passed on at " + p.instrPos(in)
							return false
						}
					}
				}
				return true
			}
			w.ret = func(r *ssa.Return, _ []aval, _ *wstate) {
				for _, x := range r.Results {
					if fs[x] || mayHold(x, fs, 0) {
						return // handed out
					}
				}
				if bad == "" {
					bad = p.instrPos(r)
				}
			}
			w.run(st)
			switch {
			case bad != "":
				c.fail("C25.closed", construct, p.instrPos(call), "the opened file is not closed on a path to %s", bad)
			case w.over || unk != "":
				c.und("C25.closed", construct, "%s", unk)
			default:
				c.ok("C25.closed", construct)
			}
		}
	}
	c.expect(n > 0, "C25.found", "opening calls", "", "no opening call found in the module")
}

// opensFile: a module function that hands out a file it opened.
func (p *Prog) opensFile(s *site) bool {
	if s.ext != "" || len(s.fns) != 1 {
		return false
	}
	f := s.fns[0]
	rs := f.Signature.Results()
	if rs.Len() == 0 {
		return false
	}
	t := rs.At(0).Type()
	if typeName(t) != "*os.File" && typeName(t) != "io.ReadCloser" && typeName(t) != "io.WriteCloser" && typeName(t) != "io.ReadWriteCloser" && typeName(t) != "fs.File" {
		return false
	}
	for _, x := range p.callgraph().sites[f] {
		if openers[x.ext] {
			return true
		}
	}
	return false
}

// mayHold: a composed result may contain the file.
func mayHold(v ssa.Value, fs map[ssa.Value]bool, d int) bool {
	if d > 4 {
		return false
	}
	if _, ok := v.Type().Underlying().(*types.Basic); ok {
		return false
	}
	if isErrorType(v.Type()) {
		return false
	}
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return mayHold(v.X, fs, d+1) || fs[v.X]
	case *ssa.UnOp:
		return mayHold(v.X, fs, d+1)
	case *ssa.Alloc:
		for _, r := range *v.Referrers() {
			if fa, ok := r.(*ssa.FieldAddr); ok {
				for _, q := range *fa.Referrers() {
					if st, ok := q.(*ssa.Store); ok && fs[st.Val] {
						return true
					}
				}
			}
		}
	case *ssa.MakeClosure:
		for _, b := range v.Bindings {
			if fs[b] {
				return true
			}
		}
	}
	return false
}
