package main

import (
	"fmt"
	"go/token"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C30", "ranking-function synthesis over loop recurrences and call-graph cycle detection", checkC30)
}

// decreases: every case of the integer expression is below zero.
func decreases(e *Expr) bool {
	if e.isNum() && e.K == 'i' {
		return e.I < 0
	}
	if e.Op == "ite" {
		return decreases(e.Args[1]) && decreases(e.Args[2])
	}
	return false
}

// iteDiff subtracts, distributing over conditionals.
func iteDiff(a, b *Expr, n int) *Expr {
	if n > 0 {
		if a.Op == "ite" {
			return iteE(a.Args[0], iteDiff(a.Args[1], b, n-1), iteDiff(a.Args[2], b, n-1))
		}
		if b.Op == "ite" {
			return iteE(b.Args[0], iteDiff(a, b.Args[1], n-1), iteDiff(a, b.Args[2], n-1))
		}
	}
	return binE("-", 'i', a, b)
}

func conjuncts(c *Expr) []*Expr {
	if c.Op == "and" {
		return append(conjuncts(c.Args[0]), conjuncts(c.Args[1])...)
	}
	return []*Expr{c}
}

// ranking finds an integer that is non-negative while the loop runs and falls
// in every iteration.
func ranking(ls *loopSum) string {
	m := map[*Expr]*Expr{}
	for i, bv := range ls.bvs {
		if ls.steps[i] != nil {
			m[bv] = ls.steps[i]
		}
	}
	for _, cont := range ls.conts {
		for _, c := range conjuncts(cont) {
			if c.Op == "ex" || c.Op == "next" {
				return "range over a finite collection"
			}
			if c.Op != "<=" || c.Args[0].K != 'i' {
				continue
			}
			r := binE("-", 'i', c.Args[1], c.Args[0])
			nx := subst(r, m, map[*Expr]*Expr{})
			if decreases(iteDiff(nx, r, 6)) {
				return r.String()
			}
			// x <= n with x doubled every time and x >= 1 at the start
			for i, bv := range ls.bvs {
				if c.Args[0] != bv && !(c.Args[0].Op == "+" && c.Args[0].Args[0] == bv) {
					continue
				}
				if ls.inits[i].isNum() && ls.inits[i].I >= 1 && (ls.steps[i] == binE("*", 'i', bv, constI(2)) || ls.steps[i] == binE("<<", 'i', bv, constI(1))) && !c.Args[1].bound {
					return "doubling " + bv.String()
				}
			}
			// k <= x with x halved or shifted down every time
			for i, bv := range ls.bvs {
				if c.Args[1] == bv && c.Args[0].isNum() && c.Args[0].I >= 1 {
					s := ls.steps[i]
					if (s.Op == "/" || s.Op == ">>") && s.Args[0] == bv && s.Args[1].isNum() && (s.Op == ">>" && s.Args[1].I >= 1 || s.Args[1].I >= 2) {
						return "halving " + bv.String()
					}
				}
			}
		}
	}
	return ""
}

// loopEnv is what is known inside a loop: class invariants of the receiver,
// the ranges of the recurrences of the loops around it, and the path to it.
func loopEnv(run *opRun, src *isrc, ls *loopSum) *ienv {
	env := newIenv(src)
	var outer []*loopSum
	for _, o := range run.loops {
		if o.depth < ls.depth && o.expr != nil && encloses(ls, o) {
			outer = append(outer, o)
		}
	}
	sort.SliceStable(outer, func(i, j int) bool { return outer[i].depth < outer[j].depth })
	for _, o := range outer {
		env = env.with(env.loopFixInts(o.expr))
		if e := assumeAll(env, o.conts); e != nil {
			env = e
		}
	}
	if ls.start != nil {
		for _, pc := range ls.start.pc {
			for _, c := range conjuncts(pc) {
				if e := env.assume(c, true); e != nil {
					env = e
				}
			}
		}
	}
	if ls.expr != nil {
		env = env.with(env.loopFixInts(ls.expr))
	}
	return env
}

func assumeAll(env *ienv, cs []*Expr) *ienv {
	for _, c := range cs {
		if e := env.assume(c, true); e != nil {
			env = e
		}
	}
	return env
}

// encloses: out is the evaluation of a loop around in, in the same function
// or in one of its callers.
func encloses(in, out *loopSum) bool {
	if out.fr == in.fr {
		for p := in.loop.parent; p != nil; p = p.parent {
			if p == out.loop {
				return true
			}
		}
		return false
	}
	for fr := in.fr; fr != nil; fr = fr.parent {
		if fr.parent != out.fr {
			continue
		}
		return fr.callBlk != nil && out.loop.blocks[fr.callBlk]
	}
	return false
}

// rankingIn uses the ranges of what the loop reads.
func rankingIn(env *ienv, ls *loopSum) string {
	m := map[*Expr]*Expr{}
	for i, bv := range ls.bvs {
		if ls.steps[i] != nil {
			m[bv] = ls.steps[i]
		}
	}
	entry := env
	if env.parent != nil {
		entry = env.parent
	}
	for _, cont := range ls.conts {
		for _, c := range conjuncts(cont) {
			body := assumeAll(env, ls.conts)
			// x & 1 == 0 with x > 0 shifted down: a positive integer has a set bit
			if c.Op == "==" && c.K != 0 && len(c.Args) == 2 {
				for i, bv := range ls.bvs {
					odd := binE("&", 'i', bv, constI(1))
					if (c.Args[0] == odd || c.Args[1] == odd) && (c.Args[0] == constI(0) || c.Args[1] == constI(0)) &&
						(ls.steps[i] == binE(">>", 'i', bv, constI(1)) || ls.steps[i] == binE("/", 'i', bv, constI(2))) &&
						entry.eval(ls.inits[i]).lo >= 1 {
						return "highest set bit of " + bv.String()
					}
				}
			}
			if dbgRank {
				println("cont", c.String(), c.Op)
			}
			if c.Op != "<=" && c.Op != "<" {
				continue
			}
			r := binE("-", c.Args[0].K, c.Args[1], c.Args[0])
			nx := subst(r, m, map[*Expr]*Expr{})
			d := linDiff(nx, r, c.Args[0].K)
			if dbgRank {
				println("  diff", d.String(), body.eval(d).String())
			}
			if c.Args[0].K == 'i' {
				if v := body.eval(d); v.hi < 0 && !v.empty() {
					return r.String()
				}
				continue
			}
			// floats: bounded start, and every step at least one
			v := body.eval(d)
			x := entry.eval(subst(r, initMap(ls), map[*Expr]*Expr{}))
			if v.hi <= -1 && !v.nan && !v.empty() && x.hi < 1<<24 && x.lo > -(1<<24) {
				return r.String() + " from at most " + x.String()
			}
		}
	}
	return ""
}

var dbgRank = os.Getenv("VSA_RANK") != ""

func initMap(ls *loopSum) map[*Expr]*Expr {
	m := map[*Expr]*Expr{}
	for i, bv := range ls.bvs {
		if ls.inits[i] != nil {
			m[bv] = ls.inits[i]
		}
	}
	return m
}

func iteDiffK(a, b *Expr, n int, k byte) *Expr {
	if k == 'i' {
		return iteDiff(a, b, n)
	}
	return linDiff(a, b, k)
}

// linDiff is a-b with the terms both sides share taken out (exact over the
// reals; only its sign and size are used).
func linDiff(a, b *Expr, k byte) *Expr {
	pos, neg := addends(a, false), addends(b, true)
	all := append(pos, neg...)
	used := make([]bool, len(all))
	for i := range all {
		for j := i + 1; j < len(all); j++ {
			if !used[i] && !used[j] && all[i].e == all[j].e && all[i].neg != all[j].neg {
				used[i], used[j] = true, true
			}
		}
	}
	var r *Expr = zeroOf(k)
	for i, t := range all {
		if used[i] {
			continue
		}
		if t.neg {
			r = binE("-", k, r, t.e)
		} else {
			r = binE("+", k, r, t.e)
		}
	}
	return r
}

type addend struct {
	e   *Expr
	neg bool
}

func addends(e *Expr, neg bool) []addend {
	switch e.Op {
	case "+":
		return append(addends(e.Args[0], neg), addends(e.Args[1], neg)...)
	case "-":
		return append(addends(e.Args[0], neg), addends(e.Args[1], !neg)...)
	case "un-":
		return addends(e.Args[0], !neg)
	}
	if e.isNum() && e.F == 0 {
		return nil
	}
	return []addend{{e, neg}}
}

func checkC30(c *Ctx) {
	m := newAudioModel(c.W, skipC02)
	c.Rule("bounded-loop", "every loop of the in-scope packages has a ranking function: a quantity that is bounded below while the loop runs and falls by at least one in every iteration", 160)
	c.Rule("recursion", "no operation reaches itself through a cycle of calls", 700)
	c.Rule("blocking", "no operation waits on a channel or starts a goroutine", 700)
	rank := map[string]string{}
	type pending struct {
		con string
		pos token.Pos
		b   *ssa.BasicBlock
	}
	var left []pending
	for _, f := range c.W.Funcs {
		m.walk(f, f, nil)
	}
	for f := range m.reach {
		name := opName(f)
		c.Ob("recursion", name)
		c.Ob("blocking", name)
		c.Analysed(name)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Go, *ssa.Select, *ssa.Send:
					c.Bad("blocking", name, in.Pos(), "%s uses %T", name, in)
				case *ssa.UnOp:
					if x.Op.String() == "<-" {
						c.Bad("blocking", name, in.Pos(), "%s receives from a channel", name)
					}
				}
			}
		}
		// cycles
		if cyc := cycleThrough(m, f); cyc != "" && f.Synthetic == "" {
			if !structural[name] {
				c.Bad("recursion", name, f.Pos(), "%s calls itself: %s", name, cyc)
			}
		}
		loops, _ := findLoops(f)
		if len(loops) == 0 {
			continue
		}
		found := map[*ssa.BasicBlock]string{}
		seen := map[*ssa.BasicBlock]bool{}
		g := newSymEng(c.W)
		g.onLoop = func(ls *loopSum) {
			if ls.fr.parent == nil {
				seen[ls.loop.head] = true
				if r := ranking(ls); r != "" {
					found[ls.loop.head] = r
				}
			}
		}
		r := g.run(f, nil, nil)
		if r.err != "" {
			c.Bad("bounded-loop", name, f.Pos(), "undecided: %s", r.err)
			continue
		}
		n := 0
		for _, b := range f.Blocks {
			if loops[b] == nil {
				continue
			}
			con := fmt.Sprintf("%s loop %d", name, n)
			n++
			c.Ob("bounded-loop", con)
			if !seen[b] {
				continue // the evaluator found the loop unreachable or not to repeat
			}
			if found[b] == "" {
				pos := f.Pos()
				for _, in := range b.Instrs {
					if in.Pos().IsValid() {
						pos = in.Pos()
						break
					}
				}
				left = append(left, pending{con, pos, b})
			} else {
				rank[con] = found[b]
			}
		}
	}
	// the rest need to know what the fields they read can hold
	if len(left) > 0 {
		runs := runAll(c.W)
		inv := newClassInv(c.W, runs, defaultPolicy)
		for _, p := range left {
			uses, bad, how := 0, "", ""
			for _, run := range runs {
				for _, ls := range run.loops {
					if ls.loop.head != p.b {
						continue
					}
					uses++
					r := ranking(ls)
					if r == "" {
						// fields alone first, then with the loops around it
						r = rankingIn(newIenv(inv.srcFor(run.f)), ls)
					}
					if r == "" {
						src := inv.srcFor(run.f)
						src.fuel = 1000000
						r = rankingIn(loopEnv(run, src, ls), ls)
					}
					if r == "" {
						bad = opName(run.f)
					} else {
						how = r
					}
				}
			}
			if uses == 0 || bad != "" {
				c.Bad("bounded-loop", p.con, p.pos, "nothing bounds the number of iterations (as called from %s)", bad)
			} else {
				rank[p.con] = how
			}
		}
	}
	c.extra["ranking_functions"] = rank
}

// structural recursion over a finite structure that is not sample data.
var structural = map[string]bool{}

func cycleThrough(m *audioModel, f *ssa.Function) string {
	prev := map[*ssa.Function]*ssa.Function{}
	var work []*ssa.Function
	push := func(x, from *ssa.Function) bool {
		if x == f {
			s := opName(f)
			for y := from; y != nil && y != f; y = prev[y] {
				s = opName(y) + " -> " + s
			}
			work = nil
			_ = s
			return true
		}
		if _, ok := prev[x]; ok || m.reach[x] == nil {
			return false
		}
		prev[x] = from
		work = append(work, x)
		return false
	}
	node := m.cg.Nodes[f]
	if node == nil {
		return ""
	}
	for _, e := range node.Out {
		if push(e.Callee.Func, f) {
			return opName(f) + " -> " + opName(f)
		}
	}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		n := m.cg.Nodes[x]
		if n == nil {
			continue
		}
		for _, e := range n.Out {
			if e.Callee.Func == f {
				s := opName(f)
				for y := x; y != nil && y != f; y = prev[y] {
					s = opName(y) + " -> " + s
				}
				return opName(f) + " -> " + s
			}
			push(e.Callee.Func, x)
		}
	}
	return ""
}
