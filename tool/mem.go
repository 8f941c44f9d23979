package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// memFlow tracks, flow-insensitively and across calls, which references may
// lead into protected memory, and lists the writes through them.
type memFlow struct {
	p      *Prog
	funcs  map[*ssa.Function]bool
	prot   map[ssa.Value]string // reference into protected memory; why
	cont   map[ssa.Value]bool   // own memory holding such references
	fields map[string]string    // struct fields that hold such references
	fcont  map[string]bool
	rets   map[*ssa.Function]map[int]string
	rcont  map[*ssa.Function]map[int]bool
	source func(in ssa.Value) string
	// package variables are protected
	globals bool
	seed    func()
	work    bool
	viol    map[ssa.Instruction]string
	soft    map[ssa.Instruction]string
	nInstr  int
}

func refBearing(t types.Type, d int) bool {
	if d > 8 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Chan:
		return true
	case *types.Struct:
		if n := namedOf(t); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" {
			return true
		}
		for i := 0; i < u.NumFields(); i++ {
			if refBearing(u.Field(i).Type(), d+1) {
				return true
			}
		}
	case *types.Array:
		return refBearing(u.Elem(), d+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refBearing(u.At(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

func fieldKey(st types.Type, i int) string {
	return typeKey(deref(st)) + "#" + fmt.Sprint(i)
}

func (m *memFlow) mark(v ssa.Value, why string) {
	if v == nil || why == "" {
		return
	}
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	if !refBearing(v.Type(), 0) {
		return
	}
	if _, ok := m.prot[v]; !ok {
		m.prot[v] = why
		m.work = true
	}
}

func (m *memFlow) markC(v ssa.Value) {
	if v != nil && !m.cont[v] {
		m.cont[v] = true
		m.work = true
	}
}

func (m *memFlow) markField(k, why string) {
	if _, ok := m.fields[k]; !ok {
		m.fields[k] = why
		m.work = true
	}
}

// storeInto records that a reference into protected memory is kept at addr.
func (m *memFlow) storeInto(addr ssa.Value, t types.Type, why string) {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		m.markField(fieldKey(a.X.Type(), a.Field), why)
	case *ssa.IndexAddr:
		m.markC(a.X)
		m.storeInto(a.X, nil, why)
	case *ssa.Alloc, *ssa.FreeVar:
		m.markC(addr)
	case *ssa.UnOp:
		// a container loaded from somewhere: its home holds such references
		m.markC(a)
		if f, ok := a.X.(*ssa.FieldAddr); ok {
			if k := fieldKey(f.X.Type(), f.Field); !m.fcont[k] {
				m.fcont[k] = true
				m.work = true
			}
		} else {
			m.markC(a.X)
		}
	default:
		m.markC(addr)
	}
	if t != nil {
		m.structFields(t, why)
	}
}

// structFields flags the reference fields of a struct stored as a whole.
func (m *memFlow) structFields(t types.Type, why string) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if _, isS := ft.Underlying().(*types.Struct); isS {
			m.structFields(ft, why)
			continue
		}
		if refBearing(ft, 0) {
			m.markField(fieldKey(t, i), why)
		}
	}
}

func (m *memFlow) why(v ssa.Value) string {
	if v == nil {
		return ""
	}
	if g, ok := v.(*ssa.Global); ok && m.globals {
		return "package variable " + g.Name()
	}
	return m.prot[v]
}

func (m *memFlow) run() {
	p := m.p
	m.prot, m.cont = map[ssa.Value]string{}, map[ssa.Value]bool{}
	m.fields, m.fcont = map[string]string{}, map[string]bool{}
	m.rets, m.rcont = map[*ssa.Function]map[int]string{}, map[*ssa.Function]map[int]bool{}
	cg := p.callgraph()
	siteOf := map[ssa.Instruction]*site{}
	for f := range m.funcs {
		for _, s := range cg.sites[f] {
			siteOf[s.in] = s
		}
	}
	for f := range m.funcs {
		for _, q := range f.Params {
			m.mark(q, m.source(q))
		}
	}
	if m.seed != nil {
		m.seed()
	}
	for round := 0; round < 60; round++ {
		m.work = false
		m.nInstr = 0
		for _, f := range p.Funcs {
			if !m.funcs[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					m.nInstr++
					m.transfer(f, in, siteOf[in])
				}
			}
		}
		if !m.work {
			break
		}
	}
	m.viol, m.soft = map[ssa.Instruction]string{}, map[ssa.Instruction]string{}
	for _, f := range p.Funcs {
		if !m.funcs[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				m.writes(in, siteOf[in])
			}
		}
	}
}

func (m *memFlow) transfer(f *ssa.Function, in ssa.Instruction, s *site) {
	if v, ok := in.(ssa.Value); ok {
		m.mark(v, m.source(v))
	}
	switch v := in.(type) {
	case *ssa.FieldAddr:
		m.mark(v, m.why(v.X))
	case *ssa.IndexAddr:
		m.mark(v, m.why(v.X))
		if m.cont[v.X] {
			m.markC(v)
		}
	case *ssa.UnOp:
		if w := m.why(v.X); w != "" {
			m.mark(v, w)
		}
		if m.cont[v.X] {
			if _, isSl := v.Type().Underlying().(*types.Slice); isSl {
				if _, isA := v.X.(*ssa.Alloc); !isA {
					m.mark(v, "kept in "+v.X.Name())
				}
			}
			switch v.X.(type) {
			case *ssa.Alloc, *ssa.FreeVar:
				// a variable: what was stored decides; see Store
				for _, w := range m.stored(v.X) {
					if m.why(w) != "" {
						m.mark(v, m.why(w))
					}
					if m.cont[w] {
						m.markC(v)
					}
				}
			default:
				m.mark(v, "element of a list of them")
			}
		}
		if a, ok := v.X.(*ssa.FieldAddr); ok {
			k := fieldKey(a.X.Type(), a.Field)
			if w, ok := m.fields[k]; ok {
				m.mark(v, w)
			}
			if m.fcont[k] {
				m.markC(v)
			}
		}
	case *ssa.Field:
		if w := m.why(v.X); w != "" {
			m.mark(v, w)
		}
		if w, ok := m.fields[fieldKey(v.X.Type(), v.Field)]; ok {
			m.mark(v, w)
		}
	case *ssa.Index:
		m.mark(v, m.why(v.X))
	case *ssa.Lookup:
		m.mark(v, m.why(v.X))
		if m.cont[v.X] {
			m.mark(v, "value of a map of them")
		}
	case *ssa.Slice:
		m.mark(v, m.why(v.X))
		if m.cont[v.X] {
			m.markC(v)
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			m.mark(v, m.why(e))
			if m.cont[e] {
				m.markC(v)
			}
		}
	case *ssa.ChangeType:
		m.mark(v, m.why(v.X))
		if m.cont[v.X] {
			m.markC(v)
		}
	case *ssa.MakeInterface:
		m.mark(v, m.why(v.X))
	case *ssa.ChangeInterface:
		m.mark(v, m.why(v.X))
	case *ssa.TypeAssert:
		m.mark(v, m.why(v.X))
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			if s := m.p.cg; s != nil {
				_ = c
			}
			return // set by the call
		}
		m.mark(v, m.why(v.Tuple))
	case *ssa.Range:
		m.mark(v, m.why(v.X))
		if w := m.why(v.X); w != "" {
			m.prot[v] = w
		}
	case *ssa.Next:
		if w, ok := m.prot[v.Iter]; ok {
			m.mark(v, w)
		}
		if r, ok := v.Iter.(*ssa.Range); ok && m.cont[r.X] {
			m.mark(v, "value of a map of them")
		}
	case *ssa.Store:
		if w := m.why(v.Val); w != "" {
			m.storeInto(v.Addr, v.Val.Type(), w)
		}
		if m.cont[v.Val] {
			if fa, ok := v.Addr.(*ssa.FieldAddr); ok {
				if k := fieldKey(fa.X.Type(), fa.Field); !m.fcont[k] {
					m.fcont[k] = true
					m.work = true
				}
			} else {
				m.markC(v.Addr)
			}
		}
	case *ssa.MapUpdate:
		if w := m.why(v.Value); w != "" && m.why(v.Map) == "" {
			m.markC(v.Map)
		}
	case *ssa.MakeClosure:
		fn := v.Fn.(*ssa.Function)
		for i, b := range v.Bindings {
			if i < len(fn.FreeVars) {
				m.mark(fn.FreeVars[i], m.why(b))
				if m.cont[b] {
					m.markC(fn.FreeVars[i])
				}
				if m.cont[fn.FreeVars[i]] {
					m.markC(b)
				}
			}
		}
	case *ssa.Return:
		for i, r := range v.Results {
			if w := m.why(r); w != "" {
				if m.rets[f] == nil {
					m.rets[f] = map[int]string{}
				}
				if _, ok := m.rets[f][i]; !ok {
					m.rets[f][i] = w
					m.work = true
				}
			}
			if m.cont[r] {
				if m.rcont[f] == nil {
					m.rcont[f] = map[int]bool{}
				}
				if !m.rcont[f][i] {
					m.rcont[f][i] = true
					m.work = true
				}
			}
		}
	}
	if s != nil {
		m.call(in.(ssa.CallInstruction), s)
	}
}

// stored lists the values stored to a variable.
func (m *memFlow) stored(addr ssa.Value) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var rec func(a ssa.Value)
	rec = func(a ssa.Value) {
		if seen[a] {
			return
		}
		seen[a] = true
		if fv, ok := a.(*ssa.FreeVar); ok {
			// the variable it is bound to
			par := fv.Parent().Parent()
			if par != nil {
				for _, b := range par.Blocks {
					for _, in := range b.Instrs {
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fv.Parent() {
							for i, x := range fv.Parent().FreeVars {
								if x == fv && i < len(mc.Bindings) {
									rec(mc.Bindings[i])
								}
							}
						}
					}
				}
			}
		}
		if a.Referrers() == nil {
			return
		}
		for _, r := range *a.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == a {
					out = append(out, r.Val)
				}
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == a && i < len(fn.FreeVars) {
						rec(fn.FreeVars[i])
					}
				}
			}
		}
	}
	rec(addr)
	return out
}

func (m *memFlow) call(ci ssa.CallInstruction, s *site) {
	cc := ci.Common()
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	res := ci.Value()
	for _, t := range s.fns {
		if !m.funcs[t] {
			continue
		}
		as := args
		ps := t.Params
		if len(ps) == len(as)+1 && t.Signature.Recv() != nil {
			// a bound method: the receiver is with the closure
			if mc, ok := cc.Value.(*ssa.MakeClosure); ok && len(mc.Bindings) == 1 {
				m.mark(ps[0], m.why(mc.Bindings[0]))
			}
			ps = ps[1:]
		}
		for i := range ps {
			if i < len(as) {
				m.mark(ps[i], m.why(as[i]))
				if m.cont[as[i]] {
					m.markC(ps[i])
				}
			}
		}
		if res != nil {
			m.results(res, t)
		}
	}
	if s.ext == "" {
		return
	}
	switch s.ext {
	case "builtin.append":
		if res == nil || len(args) == 0 {
			return
		}
		m.mark(res, m.why(args[0]))
		if m.cont[args[0]] {
			m.markC(res)
		}
		if len(args) > 1 && (m.why(args[1]) != "" || m.cont[args[1]]) {
			if el, ok := args[1].Type().Underlying().(*types.Slice); ok && refBearing(el.Elem(), 0) {
				m.markC(res)
			}
		}
		return
	case "builtin.copy":
		if len(args) == 2 && (m.why(args[1]) != "" || m.cont[args[1]]) {
			if el, ok := args[1].Type().Underlying().(*types.Slice); ok && refBearing(el.Elem(), 0) && m.why(args[0]) == "" {
				m.storeInto(args[0], nil, "copied")
			}
		}
		return
	}
	// a reference kept by reflection
	if s.ext == "(reflect.Value).Set" && len(args) == 2 && m.why(args[1]) != "" {
		if r, ok := args[1].(*ssa.Call); !ok || r.Call.StaticCallee() == nil || r.Call.StaticCallee().Name() != "Elem" || refBearing(args[1].Type(), 0) {
			for v := args[0]; v != nil; {
				m.mark(v, m.why(args[1]))
				c, ok := v.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().Pkg == nil || c.Call.StaticCallee().Pkg.Pkg.Path() != "reflect" || len(c.Call.Args) == 0 {
					break
				}
				v = c.Call.Args[0]
			}
		}
	}
	// what an external function returns may refer to what it was given
	if res != nil && (strings.HasPrefix(s.ext, "reflect.") || strings.HasPrefix(s.ext, "(reflect.")) && s.ext != "reflect.TypeOf" && s.ext != "reflect.New" {
		for _, a := range args {
			m.mark(res, m.why(a))
		}
	}
}

func (m *memFlow) results(res ssa.Value, t *ssa.Function) {
	rs, rc := m.rets[t], m.rcont[t]
	if tup, ok := res.Type().(*types.Tuple); ok {
		_ = tup
		for _, r := range *res.Referrers() {
			if x, ok := r.(*ssa.Extract); ok {
				if w, ok := rs[x.Index]; ok {
					m.mark(x, w)
				}
				if rc[x.Index] {
					m.markC(x)
				}
			}
		}
		return
	}
	if w, ok := rs[0]; ok {
		m.mark(res, w)
	}
	if rc[0] {
		m.markC(res)
	}
}

var mutExt = []string{"sort.", "slices.Sort", "slices.Reverse", "slices.Delete", "slices.Insert", "slices.Replace", "slices.Compact",
	"math/rand.Shuffle", "maps.Copy", "maps.DeleteFunc", "builtin.copy", "builtin.delete", "builtin.clear", "encoding/json.Unmarshal", "encoding/xml.Unmarshal", "fmt.Sscan", "fmt.Fscan"}

func (m *memFlow) writes(in ssa.Instruction, s *site) {
	switch v := in.(type) {
	case *ssa.Store:
		if w := m.why(v.Addr); w != "" {
			m.viol[in] = w
			return
		}
	case *ssa.MapUpdate:
		if w := m.why(v.Map); w != "" {
			m.viol[in] = w
			return
		}
	case *ssa.Send:
		if w := m.why(v.Chan); w != "" {
			m.soft[in] = w
		}
	}
	if s == nil || s.ext == "" {
		return
	}
	cc := in.(ssa.CallInstruction).Common()
	args := cc.Args
	recv := ssa.Value(nil)
	if cc.IsInvoke() {
		recv = cc.Value
	} else if cc.Signature().Recv() != nil && len(args) > 0 {
		recv = args[0]
	}
	if s.ext == "builtin.append" && len(args) > 0 {
		if w := m.why(args[0]); w != "" {
			if sl, ok := args[0].(*ssa.Slice); ok && sl.High != nil && sl.Max == nil {
				m.viol[in] = w + " (append to a part of it)"
			} else if ok && sl.Max != nil {
				return
			} else {
				m.soft[in] = w + " (append)"
			}
		}
		return
	}
	first := ssa.Value(nil)
	if len(args) > 0 {
		first = args[0]
	}
	for _, x := range mutExt {
		if !strings.HasPrefix(s.ext, x) {
			continue
		}
		if strings.HasPrefix(s.ext, "sort.Search") {
			continue
		}
		chk := args
		if strings.HasPrefix(x, "builtin.") || strings.HasPrefix(x, "sort") || strings.HasPrefix(x, "slices") || strings.HasPrefix(x, "maps") {
			chk = []ssa.Value{first}
		}
		for _, a := range chk {
			if w := m.why(a); w != "" {
				m.viol[in] = w + " (" + s.ext + ")"
				return
			}
		}
	}
	switch {
	case strings.HasPrefix(s.ext, "(reflect.Value).Set"):
		if w := m.why(recv); w != "" {
			m.viol[in] = w + " (by reflection)"
		}
	case strings.HasPrefix(s.ext, "(*encoding/") && strings.Contains(s.ext, "Decoder).Decode"):
		for _, a := range args[1:] {
			if w := m.why(a); w != "" {
				m.viol[in] = w + " (" + s.ext + ")"
			}
		}
	case recv != nil && m.why(recv) != "" && s.extFn != nil:
		if pt, ok := s.extFn.Type().(*types.Signature).Recv().Type().(*types.Pointer); ok {
			k := typeKey(pt.Elem())
			for _, mt := range []string{"bytes.Buffer", "strings.Builder", "bufio.", "math/rand", "container/", "strings.Reader", "bytes.Reader"} {
				if strings.HasPrefix(k, mt) {
					m.viol[in] = m.why(recv) + " (" + s.ext + ")"
					return
				}
			}
		}
	}
}
