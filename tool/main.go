package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if len(os.Args) > 5 && os.Args[1] == "check" {
		// check REPO VERIF ID TIER
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		os.Exit(runCheck(os.Args[2], os.Args[3], os.Args[4], os.Args[5], seed))
	}
	if len(os.Args) > 1 && os.Args[1] == "dump" {
		p, err := loadProg(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		pk, name, _ := strings.Cut(os.Args[3], ":")
		f := p.fn(pk, name)
		if f == nil {
			fmt.Println("no function")
			os.Exit(2)
		}
		opts := defaultOptions(p)
		if os.Getenv("DUMPALL") != "" {
			opts.Opaque = nil
		}
		if len(os.Args) > 4 {
			k, h, _ := strings.Cut(os.Args[4], ",")
			opts.Assume = both(idle, assumeKind(k))
			if h != "" {
				opts.Assume = both(opts.Assume, assumeHAlign(h))
			}
		}
		g := newGraph(p, f, opts)
		g.prune()
		fmt.Println("nodes", len(g.nodes), "ctxs", len(g.ctxs), "events", len(g.events), "overflow", g.overflow)
		for _, e := range g.evs(nil) {
			as := []string{}
			for _, a := range g.evArgs(e) {
				as = append(as, a.String())
			}
			fmt.Printf("%4d n%d %s %s %s [%s] (%s)\n", e.id, e.n.id, g.evPos(e), fnName(e.c.fn), e.kind, e.callee, strings.Join(as, " ; "))
		}
		return
	}
}

func defaultOpaque(p *Prog) func(*ssa.Function) bool {
	set := map[*ssa.Function]bool{}
	for _, n := range [][2]string{{"xdoc", "Styled.MutatedStyles"}, {"xdoc", "Styled.MutatedStylesWithSelector"}, {"hyphenation", "Hyphenator.Hyphenate"}, {"text", "WhitespaceRectified"}, {"", "DescribeImage"}} {
		if x := p.fn(n[0], n[1]); x != nil {
			set[x] = true
		}
	}
	return func(f *ssa.Function) bool { return set[f] }
}

var pureEngine = map[string]bool{"PageWidth": true, "PageHeight": true, "PrintableArea": true, "Margins": true, "MonoFont": true}

func defaultOptions(p *Prog) Options {
	return Options{Opaque: defaultOpaque(p), Pure: func(c string) bool {
		return strings.HasPrefix(c, engPfx) && pureEngine[c[len(engPfx):]]
	}}
}
