package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callEdge is one call between module functions, possibly by way of a decoder.
type callEdge struct {
	s    *site
	to   *ssa.Function
	refl bool
}

func (p *Prog) callEdges(f *ssa.Function) []callEdge {
	var out []callEdge
	for _, s := range p.callgraph().sites[f] {
		for _, t := range s.fns {
			out = append(out, callEdge{s, t, false})
		}
		for _, t := range s.passed {
			out = append(out, callEdge{s, t, false})
		}
		if s.ext != "" && !strings.HasPrefix(s.ext, "builtin.") {
			for _, t := range p.decodedBy(s) {
				out = append(out, callEdge{s, t, true})
			}
		}
	}
	return out
}

// decodedBy: the methods a decoder calls on the value it is given, as far as
// the type of that value tells.
func (p *Prog) decodedBy(s *site) []*ssa.Function {
	all := p.reflMethods(s)
	name := s.ext[strings.LastIndex(s.ext, ".")+1:]
	if len(all) == 0 || !strings.HasPrefix(name, "Decode") && !strings.HasPrefix(name, "Unm") && !strings.HasPrefix(name, "Encode") && !strings.HasPrefix(name, "Mar") {
		return nil
	}
	as := s.in.Common().Args
	if s.in.Common().StaticCallee() != nil && s.in.Common().StaticCallee().Signature.Recv() != nil && len(as) > 0 {
		as = as[1:]
	}
	if len(as) == 0 {
		return all
	}
	i := 0
	if strings.HasSuffix(s.ext, ".Unmarshal") {
		i = 1
	}
	if i >= len(as) {
		return all
	}
	mi, ok := as[i].(*ssa.MakeInterface)
	if !ok {
		return all
	}
	types_ := map[string]bool{}
	open := false
	var visit func(t types.Type)
	visit = func(t types.Type) {
		k := types.TypeString(t, nil)
		if types_[k] {
			return
		}
		types_[k] = true
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			visit(u.Elem())
		case *types.Slice:
			visit(u.Elem())
		case *types.Array:
			visit(u.Elem())
		case *types.Map:
			visit(u.Key())
			visit(u.Elem())
		case *types.Interface:
			open = true
		case *types.Struct:
			for j := 0; j < u.NumFields(); j++ {
				visit(u.Field(j).Type())
			}
		}
	}
	visit(mi.X.Type())
	if open {
		// fields of interface type cannot be decoded into without a method
		// of the type that holds them
		if _, isI := mi.X.Type().Underlying().(*types.Interface); isI {
			return all
		}
	}
	var out []*ssa.Function
	for _, f := range all {
		if types_[types.TypeString(deref(f.Signature.Recv().Type()), nil)] {
			out = append(out, f)
		}
	}
	return out
}

// partOf: v is a part of a parameter (or the parameter itself, if not strict).
func partOf(v ssa.Value, d int) (of *ssa.Parameter, strict bool) {
	if d > 30 {
		return nil, false
	}
	switch v := v.(type) {
	case *ssa.Parameter:
		return v, false
	case *ssa.UnOp:
		if al, ok := v.X.(*ssa.Alloc); ok {
			// a local copy
			var st *ssa.Store
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
					if st != nil {
						return nil, false
					}
					st = s
				}
			}
			if st != nil {
				return partOf(st.Val, d+1)
			}
			return nil, false
		}
		return partOf(v.X, d+1)
	case *ssa.FieldAddr:
		if al, ok := v.X.(*ssa.Alloc); ok {
			of, _ = partOf(loadOfAlloc(al), d+1)
			return of, true
		}
		of, _ = partOf(v.X, d+1)
		return of, true
	case *ssa.Field:
		of, _ = partOf(v.X, d+1)
		return of, true
	case *ssa.IndexAddr:
		of, _ = partOf(v.X, d+1)
		return of, true
	case *ssa.Index:
		of, _ = partOf(v.X, d+1)
		return of, true
	case *ssa.Lookup:
		of, _ = partOf(v.X, d+1)
		return of, true
	case *ssa.Slice:
		of, strict = partOf(v.X, d+1)
		if k, ok := v.Low.(*ssa.Const); ok && k.Int64() > 0 {
			strict = true
		}
		return of, strict
	case *ssa.Extract:
		switch t := v.Tuple.(type) {
		case *ssa.Next:
			of, _ = partOf(t.Iter.(*ssa.Range).X, d+1)
			return of, true
		case *ssa.Lookup:
			of, _ = partOf(t.X, d+1)
			return of, true
		case *ssa.TypeAssert:
			return partOf(t.X, d+1)
		}
	case *ssa.TypeAssert:
		return partOf(v.X, d+1)
	case *ssa.MakeInterface:
		return partOf(v.X, d+1)
	case *ssa.ChangeInterface:
		return partOf(v.X, d+1)
	case *ssa.ChangeType:
		return partOf(v.X, d+1)
	case *ssa.Convert:
		return partOf(v.X, d+1)
	case *ssa.Phi:
		strict = true
		for _, e := range v.Edges {
			if e == ssa.Value(v) {
				continue
			}
			o, s := partOf(e, d+5)
			if o == nil || of != nil && o != of {
				return nil, false
			}
			of = o
			strict = strict && s
		}
		return of, strict
	case *ssa.Call:
		// reflection: the parts of a value or type
		cc := v.Common()
		var recv ssa.Value
		name := ""
		if cc.IsInvoke() {
			if cc.Method.Pkg() != nil && cc.Method.Pkg().Path() == "reflect" {
				recv, name = cc.Value, cc.Method.Name()
			}
		} else if f := cc.StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "reflect" {
			if f.Signature.Recv() != nil {
				recv, name = cc.Args[0], f.Name()
			} else if len(cc.Args) > 0 {
				return partOf(cc.Args[0], d+1)
			}
		} else if f != nil && f.Signature.Recv() != nil && len(cc.Args) == 1 && theProg != nil && theProg.inModule(f) && f.Blocks != nil {
			// a getter
			var o *ssa.Parameter
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
					q, s := partOf(r.Results[0], d+5)
					if q == nil || !s {
						return nil, false
					}
					o = q
				}
			}
			if o != nil {
				of, _ = partOf(cc.Args[0], d+1)
				return of, true
			}
		}
		switch name {
		case "Field", "Elem", "Index", "MapIndex", "Key", "Value", "FieldByName":
			of, _ = partOf(recv, d+1)
			return of, true
		case "Interface", "Addr", "Type", "Convert":
			return partOf(recv, d+1)
		}
	}
	return nil, false
}

func loadOfAlloc(al *ssa.Alloc) ssa.Value {
	var st *ssa.Store
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
			if st != nil {
				return al
			}
			st = s
		}
	}
	if st != nil {
		return st.Val
	}
	return al
}

// consumedBefore: every path from the entry to the call takes something from
// its input.
func (p *Prog) consumedBefore(f *ssa.Function, at ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var free func(b *ssa.BasicBlock) bool
	free = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, x := range b.Instrs {
			if x == at {
				return true
			}
			if p.consumer(x, 0) {
				return false
			}
		}
		for _, s := range b.Succs {
			if free(s) {
				return true
			}
		}
		return false
	}
	return !free(f.Blocks[0])
}

// descends: the call passes on a strict part of what the function was given,
// or consumed input.
func (p *Prog) descends(e callEdge) bool {
	if p.consumedBefore(e.s.from, e.s.in) {
		return true
	}
	cc := e.s.in.Common()
	args := append([]ssa.Value{}, cc.Args...)
	if cc.IsInvoke() {
		args = append(args, cc.Value)
	}
	for _, a := range args {
		if of, strict := partOf(a, 0); of != nil && strict && !shared(of, a) {
			return true
		}
	}
	return false
}

// shared: parts of the receiver or context which are passed along with every
// call and hold the whole document again are no descent.
func shared(of *ssa.Parameter, a ssa.Value) bool {
	switch a.Type().Underlying().(type) {
	case *types.Basic:
		b := a.Type().Underlying().(*types.Basic)
		return b.Info()&types.IsString == 0
	case *types.Signature, *types.Chan:
		return true
	}
	// a field of the type of the function's receiver, e.g. p.doc
	f := of.Parent()
	if f.Signature.Recv() != nil && len(f.Params) > 1 && f.Params[0] == of {
		// only if it is what the recursion goes over
		for _, q := range f.Params[1:] {
			if types.Identical(q.Type(), a.Type()) {
				return true
			}
		}
	}
	return false
}

func (c *Ck) recursion() {
	p := c.P
	edges := map[*ssa.Function][]callEdge{}
	for _, f := range p.Funcs {
		edges[f] = p.callEdges(f)
	}
	comp := sccs(p.Funcs, func(f *ssa.Function) []*ssa.Function {
		var out []*ssa.Function
		for _, e := range edges[f] {
			out = append(out, e.to)
		}
		return out
	})
	for _, cs := range comp {
		in := map[*ssa.Function]bool{}
		for _, f := range cs {
			in[f] = true
		}
		rec := len(cs) > 1
		for _, e := range edges[cs[0]] {
			if e.to == cs[0] {
				rec = true
			}
		}
		if !rec {
			continue
		}
		var names []string
		for _, f := range cs {
			names = append(names, fnName(f))
			c.nFuncs[f] = true
		}
		sort.Strings(names)
		construct := strings.Join(names, ", ")
		// endless for certain: the same call again, always
		bad := ""
		for _, f := range cs {
			for _, e := range edges[f] {
				if e.to == f && !p.descends(e) && sameCall(e) && p.inevitable(f, e) {
					bad = fnName(f) + " at " + p.instrPos(e.s.in) + " calls itself with the same arguments"
				}
			}
		}
		if bad != "" {
			c.fail("C24.recursion", construct, "", "recursion does not terminate: %s", bad)
			continue
		}
		// what is left without the descending calls
		n := 0
		rest := sccs(cs, func(f *ssa.Function) []*ssa.Function {
			var out []*ssa.Function
			for _, e := range edges[f] {
				if !in[e.to] {
					continue
				}
				if p.descends(e) {
					n++
					continue
				}
				out = append(out, e.to)
			}
			return out
		})
		left := ""
		for _, r := range rest {
			cyc := len(r) > 1
			for _, e := range edges[r[0]] {
				if e.to == r[0] && !p.descends(e) {
					cyc = true
				}
			}
			if cyc {
				var ns []string
				for _, f := range r {
					ns = append(ns, fnName(f))
				}
				left = strings.Join(ns, ", ")
			}
		}
		if left != "" {
			c.und("C24.recursion", construct, "no descent found on a cycle of %s", left)
		} else {
			c.ok("C24.recursion", construct+" descends")
		}
	}
}

// sameCall: every argument is the parameter in its place; by way of a
// decoder: the receiver itself is decoded again.
func sameCall(e callEdge) bool {
	cc := e.s.in.Common()
	f := e.s.from
	if e.refl {
		for _, a := range cc.Args {
			if mi, ok := a.(*ssa.MakeInterface); ok {
				return mi.X == ssa.Value(f.Params[0])
			}
		}
		return false
	}
	if cc.StaticCallee() != e.to || len(cc.Args) != len(f.Params) {
		return false
	}
	for i, a := range cc.Args {
		if a != ssa.Value(f.Params[i]) {
			return false
		}
	}
	return true
}

// inevitable: nothing is written or consumed on the way to the call, so that
// it is reached again.
func (p *Prog) inevitable(f *ssa.Function, e callEdge) bool {
	before := map[*ssa.BasicBlock]bool{}
	var back func(b *ssa.BasicBlock)
	back = func(b *ssa.BasicBlock) {
		for _, q := range b.Preds {
			if !before[q] {
				before[q] = true
				back(q)
			}
		}
	}
	back(e.s.in.Block())
	quiet := func(in ssa.Instruction) bool {
		switch in := in.(type) {
		case *ssa.Store:
			_, ok := in.Addr.(*ssa.Alloc)
			return ok
		case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer:
			return false
		case *ssa.Call:
			if p.consumer(in, 0) {
				return false
			}
			s := p.siteAt(f, in)
			if s == nil {
				return false
			}
			for _, g := range s.fns {
				if len(p.storedFields(g)) > 0 {
					return false
				}
			}
		}
		return true
	}
	for b := range before {
		for _, in := range b.Instrs {
			if !quiet(in) {
				return false
			}
		}
	}
	for _, in := range e.s.in.Block().Instrs {
		if in == ssa.Instruction(e.s.in) {
			break
		}
		if !quiet(in) {
			return false
		}
	}
	return true
}

func sccs(fs []*ssa.Function, succ func(*ssa.Function) []*ssa.Function) [][]*ssa.Function {
	idx := map[*ssa.Function]int{}
	low := map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	known := map[*ssa.Function]bool{}
	for _, f := range fs {
		known[f] = true
	}
	var st []*ssa.Function
	var out [][]*ssa.Function
	n := 0
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		n++
		idx[f], low[f] = n, n
		st = append(st, f)
		on[f] = true
		for _, g := range succ(f) {
			if !known[g] {
				continue
			}
			if idx[g] == 0 {
				rec(g)
				low[f] = min(low[f], low[g])
			} else if on[g] {
				low[f] = min(low[f], idx[g])
			}
		}
		if low[f] == idx[f] {
			var c []*ssa.Function
			for {
				g := st[len(st)-1]
				st = st[:len(st)-1]
				on[g] = false
				c = append(c, g)
				if g == f {
					break
				}
			}
			out = append(out, c)
		}
	}
	for _, f := range fs {
		if idx[f] == 0 {
			rec(f)
		}
	}
	return out
}

// noNewPages: drawing a header or footer starts no page, so that starting a
// page cannot start another one.
func (c *Ck) noNewPages() {
	for _, which := range []string{"OnHeader", "OnFooter"} {
		f, _ := c.hook(which)
		if f == nil {
			c.und("C24.pages", which, "the callback is not evident")
			continue
		}
		for _, k := range append([]string{""}, c.kindNames()...) {
			name, key := which, "h,"+k
			var as Assume
			if k != "" {
				as = assumeKind(k)
				name += "/" + k
			}
			g := c.hookGraph(which, key, as)
			ap := g.evs(eng("AddPage"))
			pos := ""
			if len(ap) > 0 {
				pos = g.evPos(ap[0])
			}
			c.expect(len(ap) == 0, "C24.pages", name, pos, "drawing the %s can start a page, which draws it again", strings.ToLower(which[2:]))
		}
	}
}
