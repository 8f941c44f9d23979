package main

import "fmt"

// folds replaces values carried by complete counting loops by what they add
// up to: sums and maxima over the range of the counter.
func (g *Graph) folds(t *Term) *Term {
	memo := map[*Term]*Term{}
	return g.foldsM(t, memo, 0)
}

func (g *Graph) foldsM(t *Term, memo map[*Term]*Term, depth int) *Term {
	if depth > 12 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	m := map[*Term]*Term{}
	walk(t, func(x *Term) bool {
		if x.op == OLoopVar {
			if r := g.fold(x, memo, depth); r != nil {
				m[x] = r
			}
			return false
		}
		return true
	})
	r := t
	if len(m) > 0 {
		r = g.T.subst(t, m)
	}
	memo[t] = r
	return r
}

func foldHeight(t *Term) int {
	h := 0
	walk(t, func(x *Term) bool {
		if x.op == OAtom {
			var k int
			if n, _ := fmt.Sscanf(x.s, "@i%d", &k); n == 1 && k > h {
				h = k
			}
		}
		return true
	})
	return h
}

// count is the number of iterations of a loop that runs to its end.
func (g *Graph) count(l *Loop) *Term {
	T := g.T
	iv := T.mk(&Term{op: OIV, i: l.head.id, data: l})
	var n *Term
	for _, e := range l.exits {
		if !g.liveEdge[e] {
			continue
		}
		c := g.cond(e)
		var m *Term
		switch {
		case c == nil:
			return nil
		case c.op == ONot && c.args[0].op == OPos:
			m = T.add(c.args[0].args[0], iv)
		case c.op == OPos:
			m = T.sub(T.add(iv, T.One), c.args[0])
		default:
			return nil
		}
		if mentions(m, iv) {
			return nil
		}
		if n != nil {
			m = T.minT(n, m)
		}
		n = m
	}
	return n
}

func (g *Graph) fold(x *Term, memo map[*Term]*Term, depth int) *Term {
	T := g.T
	if r, ok := memo[x]; ok {
		return r
	}
	memo[x] = x
	init, next, head := g.loopInfo(x)
	if head == nil {
		return nil
	}
	l := g.loops[head]
	if l == nil {
		return nil
	}
	g.prune()
	n := g.count(l)
	if n == nil {
		return nil
	}
	iv := T.mk(&Term{op: OIV, i: l.head.id, data: l})
	init, next = g.simp(init), g.simp(next)
	// maximum
	if next.op == OIte && next.args[0].op != OBool {
		a, b, cd := next.args[1], next.args[2], next.args[0]
		f := a
		if a == x {
			f = b
		}
		if f != x && (a == x || b == x) && !mentions(f, x) {
			take := cd // f is taken if
			if a == x {
				take = T.not(cd)
			}
			if take == T.lt(x, f, false) || take == T.le(x, f, false) || take == T.lt(x, f, true) || take == T.le(x, f, true) {
				f = g.foldsM(f, memo, depth+1)
				k := T.atom(fmt.Sprintf("@i%d", foldHeight(f)+1))
				f = T.subst(f, map[*Term]*Term{iv: k})
				r := T.call("@max", g.foldsM(init, memo, depth+1), g.foldsM(n, memo, depth+1), f, k)
				memo[x] = r
				return r
			}
		}
	}
	var delta func(t *Term) *Term
	delta = func(t *Term) *Term {
		if t == x {
			return T.Zero
		}
		if t.op == OIte {
			a, b := delta(t.args[1]), delta(t.args[2])
			if a == nil || b == nil || mentions(t.args[0], x) {
				return nil
			}
			return T.ite(t.args[0], a, b)
		}
		d := T.sub(t, x)
		if mentions(d, x) {
			return nil
		}
		return d
	}
	d := delta(next)
	if d == nil {
		return nil
	}
	d = g.foldsM(d, memo, depth+1)
	r := T.add(g.foldsM(init, memo, depth+1), g.sum(g.foldsM(n, memo, depth+1), d, iv))
	memo[x] = r
	return r
}

// sum adds d up over the values 0..n-1 of iv, term by term.
func (g *Graph) sum(n, d, iv *Term) *Term {
	T := g.T
	r := T.Zero
	if d == T.Zero {
		return r
	}
	p := T.toPoly(d)
	for _, m := range polyMonos(p) {
		c := m.c
		one := T.fromPoly(&poly{ms: []mono{{fs: m.fs, c: ratOf(1, 1)}}, c: ratOf(0, 1)})
		if len(m.fs) == 0 {
			one = T.One
		}
		if !mentions(one, iv) {
			r = T.add(r, T.scale(T.mul(one, n), c))
			continue
		}
		n := n
		// nothing is added from some point on
		if one.op == OIte && one.args[2] == T.Zero && one.args[0].op == OPos {
			if m := T.add(one.args[0].args[0], iv); !mentions(m, iv) {
				n, one = T.minT(n, m), one.args[1]
			}
		} else if one.op == OIte && one.args[1] == T.Zero && one.args[0].op == OPos {
			if m := T.sub(T.add(iv, T.One), one.args[0].args[0]); !mentions(m, iv) {
				n, one = T.minT(n, m), one.args[2]
			}
		}
		if !mentions(one, iv) {
			r = T.add(r, T.scale(T.mul(one, n), c))
			continue
		}
		k := T.atom(fmt.Sprintf("@i%d", foldHeight(one)+1))
		r = T.add(r, T.scale(T.call("@sum", n, T.subst(one, map[*Term]*Term{iv: k}), k), c))
	}
	return r
}
