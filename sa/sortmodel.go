package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Library searches and sorts, by what they are defined to do: on a list of
// known short length a sort is an insertion sort of the values and a search is
// the first index that holds; elsewhere they are functions of the contents,
// the length and the order.

const sortMax = 6

func (g *symEng) sortModel(name string, args []*Expr, st *sstate, ctx string, in ssa.Instruction) (*Expr, bool) {
	closure := func(f *Expr, as ...*Expr) (*Expr, bool) {
		if f.Op != "closure" || g.clos[f.Str] == nil {
			return nil, false
		}
		return g.inline(g.clos[f.Str], as, f.Args, st, nil, ctx+"cmp/", nil)
	}
	switch name {
	case "sort.Search":
		n, f := args[0], args[1]
		if m := maxLeaf(n); m <= sortMax {
			r := n
			for i := m - 1; i >= 0; i-- {
				c, ok := closure(f, constI(i))
				if !ok {
					return nil, false
				}
				r = iteE(andE(binE("<", 'b', constI(i), n), c), constI(i), r)
			}
			return r, true
		}
		c, ok := closure(f, sym("searchI", 'i'))
		if !ok {
			return nil, false
		}
		return mk("call", name, 'i', n, c), true
	case "sort.SliceStable", "sort.Slice":
		call, ok := in.(ssa.CallInstruction)
		if !ok || args[0].Op != "iface" {
			return nil, false
		}
		mi, ok := call.Common().Args[0].(*ssa.MakeInterface)
		if !ok {
			return nil, false
		}
		sl, ok := mi.X.Type().Underlying().(*types.Slice)
		if !ok {
			return nil, false
		}
		s, f := args[0].Args[0], args[1]
		n := lenE(s)
		if m := maxLeaf(n); m <= sortMax {
			at := func(i int64) *Expr { return elemE(s, constI(i)) }
			for i := int64(1); i < m; i++ {
				moving := binE("<", 'b', constI(i), n)
				for j := i; j > 0; j-- {
					c, ok := closure(f, constI(j), constI(j-1))
					if !ok {
						return nil, false
					}
					moving = andE(moving, c)
					x, y := g.load(st, at(j), sl.Elem()), g.load(st, at(j-1), sl.Elem())
					g.store(st, at(j), iteV(moving, y, x), sl.Elem())
					g.store(st, at(j-1), iteV(moving, x, y), sl.Elem())
				}
			}
			return eNil, true
		}
		r, _ := sliceRoot(s)
		if r.Op == "ite" {
			return nil, false
		}
		c, ok := closure(f, sym("sortI", 'i'), sym("sortJ", 'i'))
		if !ok {
			return nil, false
		}
		k := g.contents(st, s)
		if k == nil {
			return nil, false
		}
		st.write(arrKey(r), mk("call", name, 'o', k, n, c))
		return eNil, true
	}
	return nil, false
}

// iteV chooses between two values, field by field where both are known to be
// of one make.
func iteV(c, a, b *Expr) *Expr {
	if a != b && a.Op == b.Op && a.Str == b.Str && len(a.Args) == len(b.Args) && (a.Op == "struct" || a.Op == "iface") {
		as := make([]*Expr, len(a.Args))
		for i := range as {
			as[i] = iteV(c, a.Args[i], b.Args[i])
		}
		return mk(a.Op, a.Str, a.K, as...)
	}
	return iteE(c, a, b)
}

// invokeIte calls a method on a choice of values whose types are known, when
// the calls leave memory alone.
func (g *symEng) invokeIte(recv *Expr, method string, args []*Expr, st *sstate, fr *sframe, ctx string, in ssa.Instruction) (*Expr, bool) {
	switch recv.Op {
	case "ite":
		a, ok := g.invokeIte(recv.Args[1], method, args, st, fr, ctx, in)
		if !ok {
			return nil, false
		}
		b, ok := g.invokeIte(recv.Args[2], method, args, st, fr, ctx, in)
		if !ok {
			return nil, false
		}
		switch {
		case a == nil:
			return b, true
		case b == nil:
			return a, true
		}
		return iteV(recv.Args[0], a, b), true
	case "const":
		if recv == eNil { // a call on nil does not return
			return nil, true
		}
	case "iface":
		f := g.methodOf(recv.Str, method)
		if f == nil {
			return nil, false
		}
		before := st.clone()
		r, ok := g.inline(f, append([]*Expr{recv.Args[0]}, args...), nil, st, fr, ctx, in)
		if !ok {
			return nil, false
		}
		for k, v := range st.heap {
			if before.heap[k] != v && before.heap[k] != nil {
				*st = *before
				return nil, false
			}
		}
		return r, true
	}
	return nil, false
}
