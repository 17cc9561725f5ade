package main

import "strings"

// Dependence: which initial cells and arguments an expression's value can
// depend on, through data and through the conditions that select it. A loop
// is taken apart: an exit value depends on the recurrences its own recurrence
// reads, on their initial values, and on what decides the number of turns.

type depEng struct {
	memo map[*Expr]map[*Expr]bool
}

func newDepEng() *depEng { return &depEng{memo: map[*Expr]map[*Expr]bool{}} }

// deps returns leaves: "in" cells, "A0" initial contents of storage, "sym"
// arguments, "global" variables and free bound variables.
func (d *depEng) deps(e *Expr) map[*Expr]bool {
	if e == nil {
		return nil
	}
	if r, ok := d.memo[e]; ok {
		return r
	}
	r := map[*Expr]bool{}
	d.memo[e] = r // cycles add nothing
	add := func(m map[*Expr]bool) {
		for k := range m {
			r[k] = true
		}
	}
	switch e.Op {
	case "const":
	case "sym", "bv", "global":
		r[e] = true
	case "in", "A0", "M0":
		r[e] = true
		add(d.addr(e.Args[0]))
	case "loopexit":
		l := e.Args[0]
		n, inits, bvs, steps, cont, exits := loopParts(l)
		pos := map[*Expr]int{}
		for i, b := range bvs {
			pos[b] = i
		}
		var todo []int
		seen := map[int]bool{}
		push := func(m map[*Expr]bool) {
			for k := range m {
				if i, ok := pos[k]; ok {
					if !seen[i] {
						seen[i] = true
						todo = append(todo, i)
					}
				} else {
					r[k] = true
				}
			}
		}
		var idx int
		if _, err := sscan(e.Str, &idx); err == nil && idx < n {
			push(map[*Expr]bool{bvs[idx]: true})
		}
		push(d.deps(cont))
		for _, x := range exits {
			push(d.deps(x))
		}
		for len(todo) > 0 {
			i := todo[0]
			todo = todo[1:]
			add(d.deps(inits[i]))
			push(d.deps(steps[i]))
		}
	default:
		for _, a := range e.Args {
			add(d.deps(a))
		}
	}
	return r
}

// addr: what the location of a cell depends on.
func (d *depEng) addr(a *Expr) map[*Expr]bool {
	switch a.Op {
	case "fld":
		return d.addr(a.Args[0])
	case "elem":
		r := map[*Expr]bool{}
		for k := range d.addr(a.Args[0]) {
			r[k] = true
		}
		for k := range d.deps(a.Args[1]) {
			r[k] = true
		}
		return r
	case "sym", "obj", "global":
		return nil
	case "make":
		return nil
	}
	return d.deps(a)
}

// pathOf names a cell by its path from the receiver, indices dropped.
func pathOf(a, recv *Expr) (string, bool) {
	suf := ""
	for {
		if a == recv {
			return strings.TrimPrefix(suf, "."), true
		}
		switch a.Op {
		case "fld":
			suf = "." + a.Str + suf
			a = a.Args[0]
		case "in", "A0", "slice":
			a = a.Args[0]
		case "mapOf":
			suf = "{}" + suf
			a = a.Args[0]
		case "arrOf":
			suf = "[]" + suf
			a = a.Args[0]
		case "elem":
			suf = "[]" + suf
			a = a.Args[0]
		case "sel":
			suf = "[]" + suf
			a = a.Args[0]
			for a.Op == "store" || a.Op == "fill" {
				a = a.Args[0]
			}
			if a.Op == "arrOf" {
				a = a.Args[0]
			}
		default:
			return "", false
		}
	}
}

// leafPath names the cell a dependence leaf reads.
func leafPath(l, recv *Expr) (string, bool) {
	switch l.Op {
	case "in":
		return pathOf(l.Args[0], recv)
	case "A0":
		p, ok := pathOf(l.Args[0], recv)
		return p + "[]", ok
	case "M0":
		p, ok := pathOf(l.Args[0], recv)
		return p + "{}", ok
	}
	return "", false
}
