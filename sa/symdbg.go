package main

import (
	"fmt"
	"strings"
	"time"
)

func symDebug(repo, pat string) {
	w, err := Load(repo, nil)
	if err != nil {
		fmt.Println(err)
		return
	}
	for _, f := range w.Funcs {
		if !strings.Contains(opName(f), pat) || f.Parent() != nil {
			continue
		}
		g := newSymEng(w)
		g.onLoop = func(ls *loopSum) {
			fmt.Printf("  loop in %s d%d\n", ls.fr.fn.Name(), ls.depth)
			for i := range ls.bvs {
				fmt.Printf("     %s = %s ; %s\n", ls.bvs[i], ls.inits[i], ls.steps[i])
			}
		}
		r := g.run(f, nil, nil)
		fmt.Printf("== %s ok=%v err=%s steps=%d\n", opName(f), r.ok, r.err, g.steps)
		if r.ret != nil {
			fmt.Println("  ret", r.ret)
		}
		for _, k := range sortedByName(sortedKeys(r.st.heap)) {
			if freshRoot(k) {
				continue
			}
			fmt.Printf("  %s := %s\n", keyName(k), r.st.heap[k])
		}
		for _, q := range r.st.quants {
			fmt.Printf("  forall %s in [%s,%s) all=%v: %s := %s\n", q.hole, q.lo, q.hi, q.all, keyName(q.key), q.val)
		}
		for _, u := range g.uncert {
			fmt.Println("  ??", u)
		}
	}
}

func symAll(repo string) {
	w, err := Load(repo, nil)
	if err != nil {
		fmt.Println(err)
		return
	}
	n := 0
	for _, f := range w.Funcs {
		if f.Parent() != nil {
			continue
		}
		g := newSymEng(w)
		t := time.Now()
		func() {
			defer func() {
				if x := recover(); x != nil {
					fmt.Println("PANIC", opName(f), x)
				}
			}()
			r := g.run(f, nil, nil)
			n++
			if r.err != "" || time.Since(t) > time.Second {
				fmt.Println(opName(f), r.err, g.steps, time.Since(t))
			}
			for _, u := range g.uncert {
				fmt.Println("  ??", opName(f), u)
			}
		}()
	}
	fmt.Println(n, tab.n)
}

func effDebug(repo, pat string) {
	w, err := Load(repo, nil)
	if err != nil {
		fmt.Println(err)
		return
	}
	m := newEffModel(w, buildCallGraph(w))
	for _, f := range w.Funcs {
		if !strings.Contains(opName(f), pat) {
			continue
		}
		fmt.Println("==", opName(f))
		for _, p := range sortedPathsOf(m.sums[f].writes) {
			s := m.sums[f].writes[p]
			fmt.Print("  w ", p, " ", w.Pos(s.pos))
			if s.via != nil {
				fmt.Print(" via ", opName(s.via))
			}
			fmt.Println()
		}
		for k := range m.sums[f].retains {
			fmt.Println("  r", k)
		}
		for i, r := range m.sums[f].rets {
			fmt.Println("  ret", i, r)
		}
	}
}

func effTable(repo string) {
	w, _ := Load(repo, nil)
	m := newEffModel(w, buildCallGraph(w))
	for _, f := range w.Funcs {
		if !exportedOp(f) {
			continue
		}
		s := ""
		for i, p := range f.Params {
			if !holdsSlice(p.Type()) {
				continue
			}
			wr := false
			for q := range m.sums[f].writes {
				if rootOf(q) == "p"+itoa(i) {
					wr = true
				}
			}
			s += fmt.Sprintf(" %s:%v", p.Name(), wr)
		}
		for k := range m.sums[f].retains {
			if k[1] != rootOf(k[1]) && k[1][0] == 'p' && rootOf(k[1]) != "p0" || k[1][0] == 'p' && k[1] == rootOf(k[1]) && k[1] != "p0" {
				s += fmt.Sprint(" RET", k)
			}
		}
		if s != "" {
			fmt.Println(opName(f), s)
		}
	}
}

func invDebug(repo, pat string) {
	w, err := Load(repo, nil)
	if err != nil {
		fmt.Println(err)
		return
	}
	t := time.Now()
	runs := runAll(w)
	fmt.Println(len(runs), "operations", time.Since(t))
	c := newClassInv(w, runs, defaultPolicy)
	fmt.Println(c.round, "rounds", time.Since(t), c.failed)
	if pat != "." {
		invGives(c, pat)
	}
	for _, k := range c.keys() {
		if strings.Contains(k, pat) {
			fmt.Println(k, c.val[k])
		}
	}
}

func invGives(c *classInv, pat string) {
	for _, r := range c.runs {
		for k, v := range r.gives {
			if strings.Contains(k, pat) {
				fmt.Println("   ", opName(r.f), k, v)
			}
		}
	}
}
