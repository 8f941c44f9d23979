package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// site is a call of a module function or of an external one.
type site struct {
	in    ssa.CallInstruction
	from  *ssa.Function
	fns   []*ssa.Function // module callees
	ext   string          // external callee ("pkg.Func" or "(T).Method")
	extFn *types.Func
	// function values passed to an external callee, which may call them
	passed []*ssa.Function
}

type callGraph struct {
	sites   map[*ssa.Function][]*site
	callers map[*ssa.Function][]*site
	taken   []*ssa.Function // functions used as values
}

func (p *Prog) callgraph() *callGraph {
	if p.cg != nil {
		return p.cg
	}
	cg := &callGraph{sites: map[*ssa.Function][]*site{}, callers: map[*ssa.Function][]*site{}}
	p.cg = cg
	seen := map[*ssa.Function]bool{}
	take := func(v ssa.Value) {
		switch v := v.(type) {
		case *ssa.Function:
			f := p.unbound(v)
			if f != nil && !seen[f] && p.inModule(f) {
				seen[f] = true
				cg.taken = append(cg.taken, f)
			}
		case *ssa.MakeClosure:
			f := p.unbound(v.Fn.(*ssa.Function))
			if f != nil && !seen[f] && p.inModule(f) {
				seen[f] = true
				cg.taken = append(cg.taken, f)
			}
		}
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					take(mc)
					continue
				}
				for i, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					if ci, ok := in.(ssa.CallInstruction); ok && i == 0 && !ci.Common().IsInvoke() {
						continue
					}
					take(*op)
				}
			}
		}
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				s := p.callSite(cg, ci)
				s.from = f
				cg.sites[f] = append(cg.sites[f], s)
				for _, t := range s.fns {
					cg.callers[t] = append(cg.callers[t], s)
				}
				for _, t := range s.passed {
					cg.callers[t] = append(cg.callers[t], s)
				}
			}
		}
	}
	return cg
}

// unbound maps a bound method or wrapper to the method.
func (p *Prog) unbound(f *ssa.Function) *ssa.Function {
	if f.Synthetic != "" && f.Object() != nil && f.Name() != "init" {
		if m, ok := f.Object().(*types.Func); ok {
			if t := p.SSA.FuncValue(m); t != nil {
				return t
			}
		}
	}
	return f
}

func (p *Prog) callSite(cg *callGraph, ci ssa.CallInstruction) *site {
	s := &site{in: ci}
	cc := ci.Common()
	if cc.IsInvoke() {
		for _, t := range p.implementers(cc.Value.Type().Underlying().(*types.Interface)) {
			m, _, _ := types.LookupFieldOrMethod(t, true, cc.Method.Pkg(), cc.Method.Name())
			if mf, ok := m.(*types.Func); ok {
				if f := p.SSA.FuncValue(mf); f != nil && f.Blocks != nil && p.inModule(f) {
					s.fns = appendFn(s.fns, f)
				}
			}
		}
		if len(s.fns) == 0 || cc.Method.Pkg() == nil || !p.isModPath(cc.Method.Pkg().Path()) {
			s.ext = cc.Method.FullName()
			s.extFn = cc.Method
		}
		p.passedFns(s, cc)
		return s
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		s.ext = "builtin." + v.Name()
		return s
	}
	if f := cc.StaticCallee(); f != nil {
		u := p.unbound(f)
		if p.inModule(u) && u.Blocks != nil {
			s.fns = appendFn(s.fns, u)
			p.passedFns(s, cc)
			return s
		}
		s.ext = f.RelString(nil)
		if o, ok := f.Object().(*types.Func); ok {
			s.extFn = o
			s.ext = o.FullName()
		}
		p.passedFns(s, cc)
		return s
	}
	// a function value
	sig := cc.Signature()
	for _, f := range cg.taken {
		fs := f.Signature
		if types.Identical(sigKey(fs), sigKey(sig)) {
			s.fns = appendFn(s.fns, f)
		}
	}
	p.passedFns(s, cc)
	return s
}

func sigKey(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

func appendFn(fs []*ssa.Function, f *ssa.Function) []*ssa.Function {
	for _, o := range fs {
		if o == f {
			return fs
		}
	}
	return append(fs, f)
}

func (p *Prog) passedFns(s *site, cc *ssa.CallCommon) {
	if s.ext == "" {
		return
	}
	for _, a := range cc.Args {
		for {
			switch x := a.(type) {
			case *ssa.MakeInterface:
				a = x.X
				continue
			case *ssa.ChangeType:
				a = x.X
				continue
			}
			break
		}
		switch v := a.(type) {
		case *ssa.Function:
			if f := p.unbound(v); p.inModule(f) && f.Blocks != nil {
				s.passed = appendFn(s.passed, f)
			}
		case *ssa.MakeClosure:
			if f := p.unbound(v.Fn.(*ssa.Function)); p.inModule(f) && f.Blocks != nil {
				s.passed = appendFn(s.passed, f)
			}
		}
	}
}

// implementers lists the module types (and pointers to them) that implement
// an interface.
func (p *Prog) implementers(it *types.Interface) []types.Type {
	var out []types.Type
	if it.NumMethods() == 0 {
		return nil
	}
	for _, pk := range p.Pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || nt.TypeParams().Len() > 0 {
				continue
			}
			if _, isI := nt.Underlying().(*types.Interface); isI {
				continue
			}
			if types.Implements(nt, it) || types.Implements(types.NewPointer(nt), it) {
				out = append(out, types.NewPointer(nt))
			}
		}
	}
	return out
}

// decoded lists the methods the decoders of the standard library call by
// reflection.
var reflCalled = map[string]bool{"UnmarshalXML": true, "UnmarshalXMLAttr": true, "UnmarshalText": true, "UnmarshalJSON": true,
	"MarshalXML": true, "MarshalJSON": true, "MarshalText": true, "UnmarshalStyle": true, "String": true, "Error": true, "Format": true}

// reach is the set of functions that can be called from the given ones.
func (p *Prog) reach(from ...*ssa.Function) map[*ssa.Function]bool {
	cg := p.callgraph()
	out := map[*ssa.Function]bool{}
	var st []*ssa.Function
	push := func(f *ssa.Function) {
		if f != nil && !out[f] {
			out[f] = true
			st = append(st, f)
		}
	}
	for _, f := range from {
		push(f)
	}
	for len(st) > 0 {
		f := st[len(st)-1]
		st = st[:len(st)-1]
		for _, s := range cg.sites[f] {
			for _, t := range s.fns {
				push(t)
			}
			for _, t := range s.passed {
				push(t)
			}
			if s.ext != "" && !strings.HasPrefix(s.ext, "builtin.") {
				// the callee may call methods of what it is given
				for _, t := range p.reflMethods(s) {
					push(t)
				}
			}
		}
		for _, a := range f.AnonFuncs {
			push(a)
		}
	}
	return out
}

// reflMethods: methods an external callee may call on its arguments.
func (p *Prog) reflMethods(s *site) []*ssa.Function {
	if !strings.HasPrefix(s.ext, "(*encoding/") && !strings.HasPrefix(s.ext, "encoding/") && !strings.HasPrefix(s.ext, "(encoding/") {
		return nil
	}
	var out []*ssa.Function
	pre := "Unm"
	if strings.Contains(s.ext, ".Marshal") || strings.Contains(s.ext, ").Encode") {
		pre = "Mar"
	}
	for _, f := range p.Funcs {
		if f.Signature.Recv() != nil && reflCalled[f.Name()] && strings.HasPrefix(f.Name(), pre) {
			if strings.Contains(f.Name(), "XML") && !strings.Contains(s.ext, "encoding/xml") || strings.Contains(f.Name(), "JSON") && !strings.Contains(s.ext, "encoding/json") {
				continue
			}
			out = append(out, f)
		}
	}
	return out
}

// initOnly: functions that can run during package initialisation only.
func (p *Prog) initOnly() map[*ssa.Function]bool {
	cg := p.callgraph()
	out := map[*ssa.Function]bool{}
	isInit := func(f *ssa.Function) bool {
		n := f.Name()
		return f.Signature.Recv() == nil && f.Parent() == nil && (n == "init" || strings.HasPrefix(n, "init#"))
	}
	for _, f := range p.Funcs {
		if isInit(f) {
			out[f] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range p.Funcs {
			if out[f] {
				continue
			}
			cs := cg.callers[f]
			if len(cs) == 0 {
				continue
			}
			all := true
			for _, s := range cs {
				if !out[s.from] {
					all = false
				}
			}
			if all {
				out[f] = true
				changed = true
			}
		}
	}
	return out
}
