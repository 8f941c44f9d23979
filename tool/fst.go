package main

import "fmt"

// Finite state transducers over a finite alphabet, and their composition and
// equivalence. They stand for chains of operations on strings; every one is
// total and yields exactly one output for every input.

type sym int

type fstOut struct {
	to  int
	out []sym
}

type fst struct {
	n     int                // states
	start []fstOut           // where to start, and what is put out there
	tr    []map[sym][]fstOut // moves
	final []([][]sym)        // what is put out at the end; none: not final
	key   map[[2]int]int     // states of a composition
	sigma []sym
}

func newFst(sigma []sym, n int) *fst {
	f := &fst{n: n, sigma: sigma, tr: make([]map[sym][]fstOut, n), final: make([][][]sym, n), start: []fstOut{{to: 0}}}
	for i := range f.tr {
		f.tr[i] = map[sym][]fstOut{}
	}
	return f
}

func (f *fst) add(from int, x sym, to int, out ...sym) {
	f.tr[from][x] = append(f.tr[from][x], fstOut{to, out})
}

func (f *fst) end(s int, out ...sym) { f.final[s] = append(f.final[s], out) }

// fstMap replaces every symbol.
func fstMap(sigma []sym, m func(sym) []sym) *fst {
	f := newFst(sigma, 1)
	for _, x := range sigma {
		f.add(0, x, 0, m(x)...)
	}
	f.end(0)
	return f
}

// fstReplace replaces the first max (all if negative) occurrences of p, taken
// from the left without overlap.
func fstReplace(sigma []sym, p, q []sym, max int) *fst {
	k := 1
	if max >= 0 {
		k = max + 1
	}
	m := len(p)
	f := newFst(sigma, k*m)
	for c := 0; c < k; c++ {
		done := max >= 0 && c == max
		for s := 0; s < m; s++ {
			st := c*m + s
			f.end(st, p[:s]...)
			for _, x := range sigma {
				if done {
					if s == 0 {
						f.add(st, x, st, x)
					}
					continue
				}
				pend := append(append([]sym{}, p[:s]...), x)
				if len(pend) == m && eqSyms(pend, p) {
					nc := c
					if max >= 0 {
						nc++
					}
					f.add(st, x, nc*m, q...)
					continue
				}
				// the longest end that starts p
				i := 0
				for ; i < len(pend); i++ {
					if rest := pend[i:]; len(rest) < m && eqSyms(rest, p[:len(rest)]) {
						break
					}
				}
				f.add(st, x, c*m+len(pend)-i, pend[:i]...)
			}
		}
	}
	return f
}

// fstTrim removes what is in the set at the start and the end.
func fstTrim(sigma []sym, in func(sym) bool, left, right bool) *fst {
	f := newFst(sigma, 4)
	if !left {
		f.start[0].to = 1
	}
	f.end(0)
	f.end(1)
	f.end(3)
	for _, x := range sigma {
		if !in(x) {
			f.add(0, x, 1, x)
			f.add(1, x, 1, x)
			f.add(2, x, 1, x)
			continue
		}
		f.add(0, x, 0)
		if !right {
			f.add(1, x, 1, x)
			continue
		}
		f.add(1, x, 2, x) // more to come
		f.add(1, x, 3)    // nothing else to come
		f.add(2, x, 2, x)
		f.add(3, x, 3)
	}
	return f
}

// fstCollapse makes runs of what is in the set one symbol.
func fstCollapse(sigma []sym, in func(sym) bool, to func(sym) sym) *fst {
	f := newFst(sigma, 2)
	f.end(0)
	f.end(1)
	for _, x := range sigma {
		if in(x) {
			f.add(0, x, 1, to(x))
			f.add(1, x, 1)
		} else {
			f.add(0, x, 0, x)
			f.add(1, x, 0, x)
		}
	}
	return f
}

// fstWrap adds something before and after.
func fstWrap(sigma []sym, pre, post []sym) *fst {
	f := newFst(sigma, 1)
	f.start[0].out = pre
	for _, x := range sigma {
		f.add(0, x, 0, x)
	}
	f.end(0, post...)
	return f
}

func eqSyms(a, b []sym) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func cat(a, b []sym) []sym { return append(append([]sym{}, a...), b...) }

// feed runs f on w from a state.
func (f *fst) feed(s int, w []sym) []fstOut {
	cur := []fstOut{{to: s}}
	for _, x := range w {
		var next []fstOut
		for _, c := range cur {
			for _, o := range f.tr[c.to][x] {
				next = append(next, fstOut{o.to, cat(c.out, o.out)})
			}
		}
		cur = next
	}
	return cur
}

// then composes: first f, then h.
func (f *fst) then(h *fst) *fst {
	r := &fst{sigma: f.sigma, key: map[[2]int]int{}}
	var todo [][2]int
	state := func(a, b int) int {
		k := [2]int{a, b}
		if i, ok := r.key[k]; ok {
			return i
		}
		i := len(r.tr)
		r.key[k] = i
		r.tr = append(r.tr, map[sym][]fstOut{})
		r.final = append(r.final, nil)
		todo = append(todo, k)
		return i
	}
	for _, a := range f.start {
		for _, b := range h.start {
			for _, o := range h.feed(b.to, a.out) {
				r.start = append(r.start, fstOut{state(a.to, o.to), cat(b.out, o.out)})
			}
		}
	}
	for len(todo) > 0 {
		k := todo[0]
		todo = todo[1:]
		i := r.key[k]
		for _, x := range f.sigma {
			for _, a := range f.tr[k[0]][x] {
				for _, o := range h.feed(k[1], a.out) {
					to := state(a.to, o.to)
					r.tr[i][x] = append(r.tr[i][x], fstOut{to, o.out})
				}
			}
		}
		for _, w := range f.final[k[0]] {
			for _, o := range h.feed(k[1], w) {
				for _, e := range h.final[o.to] {
					r.final[i] = append(r.final[i], cat(o.out, e))
				}
			}
		}
	}
	r.n = len(r.tr)
	return r
}

// run yields the output for an input.
func (f *fst) run(w []sym) ([]sym, bool) {
	for _, s := range f.start {
		for _, o := range f.feed(s.to, w) {
			for _, e := range f.final[o.to] {
				return cat(cat(s.out, o.out), e), true
			}
		}
	}
	return nil, false
}

// differ decides whether two transducers are different, and if so gives an
// input on which they differ.
func (f *fst) differ(h *fst) ([]sym, bool, error) {
	type pair struct{ a, b int }
	type delay struct {
		u, v string // what f, h is ahead by
	}
	str := func(w []sym) string {
		r := make([]rune, len(w))
		for i, x := range w {
			r[i] = rune(x)
		}
		return string(r)
	}
	strip := func(u, v string) (delay, bool) {
		a, b := []rune(u), []rune(v)
		for len(a) > 0 && len(b) > 0 {
			if a[0] != b[0] {
				return delay{}, false
			}
			a, b = a[1:], b[1:]
		}
		return delay{string(a), string(b)}, true
	}
	// reachable pairs
	seen := map[pair]bool{}
	prev := map[pair][]pair{}
	var order []pair
	push := func(p pair) {
		if !seen[p] {
			seen[p] = true
			order = append(order, p)
		}
	}
	for _, a := range f.start {
		for _, b := range h.start {
			push(pair{a.to, b.to})
		}
	}
	for i := 0; i < len(order); i++ {
		if len(order) > 200000 {
			return nil, false, fmt.Errorf("too many states")
		}
		p := order[i]
		for _, x := range f.sigma {
			for _, a := range f.tr[p.a][x] {
				for _, b := range h.tr[p.b][x] {
					q := pair{a.to, b.to}
					push(q)
					prev[q] = append(prev[q], p)
				}
			}
		}
	}
	// those from which both can end
	live := map[pair]bool{}
	var todo []pair
	for _, p := range order {
		if len(f.final[p.a]) > 0 && len(h.final[p.b]) > 0 {
			live[p] = true
			todo = append(todo, p)
		}
	}
	for len(todo) > 0 {
		p := todo[0]
		todo = todo[1:]
		for _, q := range prev[p] {
			if !live[q] {
				live[q] = true
				todo = append(todo, q)
			}
		}
	}
	// the way to the end
	finish := func(p pair) []sym {
		type step struct {
			p pair
			w []sym
		}
		q := []step{{p, nil}}
		been := map[pair]bool{p: true}
		for len(q) > 0 {
			s := q[0]
			q = q[1:]
			if len(f.final[s.p.a]) > 0 && len(h.final[s.p.b]) > 0 {
				return s.w
			}
			for _, x := range f.sigma {
				for _, a := range f.tr[s.p.a][x] {
					for _, b := range h.tr[s.p.b][x] {
						n := pair{a.to, b.to}
						if live[n] && !been[n] {
							been[n] = true
							q = append(q, step{n, cat(s.w, []sym{x})})
						}
					}
				}
			}
		}
		return nil
	}
	type visit struct {
		d delay
		w []sym
	}
	vis := map[pair]visit{}
	var queue []pair
	var witness []sym
	conflict := func(p pair, ws ...[]sym) bool {
		end := finish(p)
		for _, w := range ws {
			w = cat(w, end)
			a, ok1 := f.run(w)
			b, ok2 := h.run(w)
			if ok1 && ok2 && !eqSyms(a, b) {
				witness = w
				return true
			}
		}
		return false
	}
	visitP := func(p pair, u, v string, w []sym) (bool, error) {
		if !live[p] {
			return false, nil
		}
		d, ok := strip(u, v)
		if !ok {
			if conflict(p, w) {
				return true, nil
			}
			return false, fmt.Errorf("no witness")
		}
		if o, ok := vis[p]; ok {
			if o.d != d {
				if conflict(p, o.w, w) {
					return true, nil
				}
				return false, fmt.Errorf("no witness")
			}
			return false, nil
		}
		vis[p] = visit{d, w}
		queue = append(queue, p)
		return false, nil
	}
	for _, a := range f.start {
		for _, b := range h.start {
			if dif, err := visitP(pair{a.to, b.to}, str(a.out), str(b.out), nil); dif || err != nil {
				return witness, dif, err
			}
		}
	}
	for len(queue) > 0 {
		p := queue[0]
		queue = queue[1:]
		v := vis[p]
		for _, x := range f.final[p.a] {
			for _, y := range h.final[p.b] {
				if v.d.u+str(x) != v.d.v+str(y) {
					if conflict(p, v.w) {
						return witness, true, nil
					}
					return nil, false, fmt.Errorf("no witness")
				}
			}
		}
		for _, x := range f.sigma {
			for _, a := range f.tr[p.a][x] {
				for _, b := range h.tr[p.b][x] {
					if dif, err := visitP(pair{a.to, b.to}, v.d.u+str(a.out), v.d.v+str(b.out), cat(v.w, []sym{x})); dif || err != nil {
						return witness, dif, err
					}
				}
			}
		}
	}
	return nil, false, nil
}
