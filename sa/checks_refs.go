package main

import (
	"strings"
)

func init() {
	register("C27", "semantic equality of block and sample forms by value numbering of whole functions (program equations over the exported interface)", checkC27)
}

// decideEqs decides a family of equations and reports each as an obligation
// of the rule its name maps to.
func decideEqs(c *Ctx, pat string, o eqOpts, rule func(name string) (rule, text string)) {
	argsNonNil = true
	w, eqs, err := loadRefs(c.W.Dir, pat)
	if err != nil {
		r, _ := rule("")
		c.BadAt(r, "equations "+pat, "sa/refs", "the equations cannot be compiled against the current tree: %v", err)
		return
	}
	cells := 0
	for _, e := range eqs {
		r, text := rule(e.name)
		if r == "" {
			continue
		}
		f := e.subject()
		name := opName(f) + " [" + e.name + "]"
		c.Ob(r, name)
		for _, g := range e.touched() {
			c.Analysed(opName(g))
		}
		res := e.decide(w, o)
		cells += res.cells
		switch {
		case res.err != "":
			c.BadAt(r, name, w.Pos(f.Pos()), "%s: cannot be decided (%s)", text, res.err)
		case len(res.diffs) > 0 && e.rng:
			c.BadAt(r, name, w.Pos(f.Pos()), "%s: %s", text, strings.Join(res.diffs, ", "))
		case len(res.diffs) > 0:
			c.BadAt(r, name, w.Pos(f.Pos()), "%s: %s can differ", text, strings.Join(res.diffs, ", "))
		}
	}
	c.Note("%s: %d equations, %d results and memory cells compared", pat, len(eqs), cells)
}

func checkC27(c *Ctx) {
	c.Rule("block", "a block form leaves the same output and the same state as its sample form applied in order", 55)
	c.Rule("split", "cutting a block in two or more, down to single samples, changes nothing", 15)
	c.Rule("inplace", "processing in place gives what processing into a second buffer gives", 12)
	c.Rule("linked", "the stereo or sidechain form, given one signal twice, is the mono form", 4)
	decideEqs(c, "c27", eqOpts{peel: 4}, func(n string) (string, string) {
		switch {
		case strings.HasSuffix(n, "_split"):
			return "split", "processing the block whole or cut up"
		case strings.HasSuffix(n, "_inplace"):
			return "inplace", "processing in place or into another buffer"
		case strings.HasSuffix(n, "_linked"), strings.HasSuffix(n, "_self"):
			return "linked", "the linked form given one signal, against the mono form"
		}
		return "block", "the block form against the sample form"
	})
}
