package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type globalInfo struct {
	initStores []*ssa.Store // in the package initialiser
	written    bool         // written, or its address taken, elsewhere
	mapWritten bool         // the map it holds may be written elsewhere
	writers    []ssa.Instruction
}

func (p *Prog) globals() map[*ssa.Global]*globalInfo {
	if p.globs != nil {
		return p.globs
	}
	p.globs = map[*ssa.Global]*globalInfo{}
	get := func(g *ssa.Global) *globalInfo {
		gi := p.globs[g]
		if gi == nil {
			gi = &globalInfo{}
			p.globs[g] = gi
		}
		return gi
	}
	fns := append([]*ssa.Function{}, p.Funcs...)
	for _, pk := range p.Pkgs {
		if sp := p.SSA.Package(pk.Types); sp != nil {
			if f := sp.Func("init"); f != nil {
				fns = append(fns, f)
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	for _, f := range fns {
		if seen[f] {
			continue
		}
		seen[f] = true
		isInit := f.Synthetic == "package initializer"
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					gi := get(g)
					switch x := in.(type) {
					case *ssa.Store:
						if x.Addr == g && isInit {
							gi.initStores = append(gi.initStores, x)
						} else {
							gi.written = true
							gi.writers = append(gi.writers, in)
						}
					case *ssa.UnOp:
						// a load: the map value must not be updated
						if _, ok := x.Type().Underlying().(*types.Map); ok {
							for _, r := range *x.Referrers() {
								switch r := r.(type) {
								case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
								case *ssa.Call:
									if b, ok := r.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
										gi.mapWritten = true
									}
								default:
									gi.mapWritten = true
								}
							}
						}
					case *ssa.FieldAddr, *ssa.IndexAddr:
						p.addrUses(x.(ssa.Value), isInit, gi)
					case *ssa.DebugRef:
					default:
						gi.written = true
						gi.writers = append(gi.writers, in)
					}
				}
			}
		}
	}
	return p.globs
}

func (p *Prog) addrUses(v ssa.Value, isInit bool, gi *globalInfo) {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if r.Addr == v && isInit {
				gi.initStores = append(gi.initStores, r)
			} else {
				gi.written = true
				gi.writers = append(gi.writers, r)
			}
		case *ssa.FieldAddr:
			p.addrUses(r, isInit, gi)
		case *ssa.IndexAddr:
			p.addrUses(r, isInit, gi)
		default:
			gi.written = true
			gi.writers = append(gi.writers, r)
		}
	}
}

// globalInit is the only value ever stored to a package variable.
func (p *Prog) globalInit(g *ssa.Global) ssa.Value {
	gi := p.globals()[g]
	if gi == nil || gi.written || len(gi.initStores) != 1 || gi.initStores[0].Addr != g {
		return nil
	}
	return gi.initStores[0].Val
}

// globalPath reads a constant field of an initialised package variable.
func (g *Graph) globalPath(addr *Term, typ types.Type) *Term {
	root := addrRoot(addr)
	gl, ok := root.data.(*ssa.Global)
	if !ok || root.op != OGlobal {
		return nil
	}
	gi := g.P.globals()[gl]
	if gi == nil || gi.written {
		return nil
	}
	path := addrPath(addr)
	for _, p := range path {
		if p.op != OFAddr {
			return nil
		}
	}
	for _, s := range gi.initStores {
		var sp []int
		v := s.Addr
		for {
			fa, ok := v.(*ssa.FieldAddr)
			if !ok {
				break
			}
			sp = append([]int{fa.Field}, sp...)
			v = fa.X
		}
		if v != ssa.Value(gl) || len(sp) != len(path) {
			continue
		}
		same := true
		for i := range sp {
			if sp[i] != path[i].i {
				same = false
			}
		}
		if same {
			if c, ok := s.Val.(*ssa.Const); ok {
				return g.constTerm(c)
			}
			return nil
		}
	}
	// never stored: zero, if the variable is initialised field by field
	if len(gi.initStores) > 0 && len(path) > 0 {
		for _, s := range gi.initStores {
			if s.Addr == ssa.Value(gl) {
				return nil
			}
		}
		return g.T.zeroValue(typ)
	}
	return nil
}

// mapLookup evaluates look-ups in constant tables to a decision over the key.
func (g *Graph) mapLookup(c *Ctx, v *ssa.Lookup, m, k *Term) (val, ok *Term) {
	T := g.T
	et := v.X.Type().Underlying().(*types.Map).Elem()
	fallback := func() (*Term, *Term) {
		return T.mk(&Term{op: OLookup, args: []*Term{m, k}}), T.mk(&Term{op: OLookupOk, args: []*Term{m, k}})
	}
	var mm *ssa.MakeMap
	var mc *Ctx
	if m.op == OLoad && m.args[0].op == OGlobal {
		gl := m.args[0].data.(*ssa.Global)
		gi := g.P.globals()[gl]
		if gi == nil || gi.mapWritten {
			return fallback()
		}
		x, isMM := g.P.globalInit(gl).(*ssa.MakeMap)
		if !isMM {
			return fallback()
		}
		mm = x
	} else if m.op == OAlloc {
		vk, isVK := m.data.(valKey)
		if !isVK {
			return fallback()
		}
		x, isMM := vk.v.(*ssa.MakeMap)
		if !isMM {
			return fallback()
		}
		mm, mc = x, vk.c
	} else {
		return fallback()
	}
	val, ok = T.zeroValue(et), T.False
	for _, r := range *mm.Referrers() {
		switch r := r.(type) {
		case *ssa.MapUpdate:
			kc, isC := r.Key.(*ssa.Const)
			if !isC || r.Block() != mm.Block() {
				return fallback()
			}
			var vt *Term
			if mc != nil {
				vt = g.val(mc, r.Value)
			} else {
				switch x := r.Value.(type) {
				case *ssa.Const:
					vt = g.constTerm(x)
				case *ssa.Function:
					vt = T.mk(&Term{op: OFn, s: x.String(), data: x})
				default:
					return fallback()
				}
			}
			kt := g.constTerm(kc)
			var cond *Term
			if isNumericType(kc.Type()) {
				cond = T.zero(T.sub(k, kt), true)
			} else {
				cond = T.eq(k, kt)
			}
			val = T.ite(cond, vt, val)
			ok = T.ite(cond, T.True, ok)
		case *ssa.Lookup, *ssa.DebugRef, *ssa.Range, *ssa.Store, *ssa.MakeClosure:
			if s, isS := r.(*ssa.Store); isS {
				if _, isG := s.Addr.(*ssa.Global); !isG {
					return fallback()
				}
			}
		case *ssa.Call:
			if b, isB := r.Call.Value.(*ssa.Builtin); !isB || b.Name() != "len" {
				return fallback()
			}
		default:
			return fallback()
		}
	}
	return val, ok
}
