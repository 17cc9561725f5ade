package main

import (
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
)

// Length classes: fields of one structure type whose lengths (slices) or
// values (integers) are equal in every reachable object. The classes are
// found by partition refinement: all slots of a type start together, and two
// slots are separated when some exported operation or constructor can leave
// them different, given that they were equal before.

// lenClass maps "T.f#len" and "T.f" to a class; slots without a peer are left out.
var lenClass map[string]int

// sameLen: two length expressions are equal by their class.
func sameLen(a, b *Expr) bool {
	if a == b {
		return true
	}
	ka, ba := lenSlot(a)
	kb, bb := lenSlot(b)
	if ka == "" || kb == "" || ba != bb {
		return false
	}
	x, ok := lenClass[ka]
	y, ok2 := lenClass[kb]
	return ok && ok2 && x == y
}

// lenSlot: the slot an initial length or integer belongs to, and its object.
func lenSlot(e *Expr) (string, *Expr) {
	suf := ""
	if e.Op == "len" {
		e, suf = e.Args[0], "#len"
		if e.Op == "sel" && e.Args[0].Op == "A0" { // one of the elements
			if k, b := lenSlot(mk("len", "", 'i', e.Args[0].Args[0])); k != "" && !strings.Contains(k, "[]") {
				return strings.TrimSuffix(k, "#len") + "[]#len", mk("elem", "", 'o', b, e.Args[1])
			}
			return "", nil
		}
	}
	if e.Op != "in" || e.Args[0].Op != "fld" {
		return "", nil
	}
	k := ownerKey(e.Args[0])
	if k == "" {
		return "", nil
	}
	return k + suf, e.Args[0].Args[0]
}

func findLenClasses(w *World, runs []*opRun) {
	lenClass = nil
	type slot struct {
		key string
		fld *types.Var
		len bool
		el  bool // the lengths of the elements
	}
	slots := map[string][]slot{}
	for _, p := range w.Pkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			T := typeKey(tn.Type())
			var ss []slot
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				k := T + "." + f.Name()
				if exportedCell(k) {
					continue
				}
				switch u := f.Type().Underlying().(type) {
				case *types.Slice:
					ss = append(ss, slot{k + "#len", f, true, false})
					if isSlice(u.Elem()) {
						ss = append(ss, slot{k + "[]#len", f, true, true})
					}
				case *types.Basic:
					if u.Info()&types.IsInteger != 0 {
						ss = append(ss, slot{k, f, false, false})
					}
				}
			}
			if len(ss) > 1 {
				slots[T] = ss
			}
		}
	}
	class := map[string]int{}
	n := 0
	for _, T := range sortedStrs(slots) {
		for _, s := range slots[T] {
			class[s.key] = n
		}
		n++
	}
	// one round: split by what each operation leaves
	rep := func(key string, base *Expr) *Expr {
		return mk("lenRep", strconv.Itoa(class[key]), 'i', base)
	}
	for changed := true; changed; {
		changed = false
		for _, r := range runs {
			st := r.res.st
			if st == nil {
				continue
			}
			memo := map[*Expr]*Expr{}
			var norm func(e *Expr) *Expr
			norm = func(e *Expr) *Expr {
				if x, ok := memo[e]; ok {
					return x
				}
				if k, b := lenSlot(e); k != "" {
					if _, ok := class[k]; ok {
						return rep(k, b)
					}
				}
				if len(e.Args) == 0 {
					return e
				}
				as := make([]*Expr, len(e.Args))
				ch := false
				for i, a := range e.Args {
					as[i] = norm(a)
					ch = ch || as[i] != a
				}
				x := e
				if ch {
					x = rebuild(e, as)
				}
				memo[e] = x
				return x
			}
			bases := map[*Expr]string{}
			note := func(k *Expr) {
				if k.Op == "fld" && fldOwner[k] != nil {
					T := typeKey(fldOwner[k])
					if slots[T] != nil {
						bases[k.Args[0]] = T
					}
				}
			}
			for k := range st.heap {
				note(k)
			}
			for _, q := range st.quants {
				note(q.key)
			}
			for b, T := range bases {
				sig := map[string]string{}
				for _, s := range slots[T] {
					k := mk("fld", s.fld.Name(), 'o', b)
					val := ""
					v := st.heap[k]
					if v == nil {
						if freshRoot(k) {
							v = constI(0)
							if s.len {
								v = eNil
							}
						} else {
							v = mk("in", "", 'i', k)
							if s.len {
								v = mk("in", "", 'o', k)
							}
						}
					}
					if s.el {
						v = lenArr(st, v, rep, class)
					} else if s.len {
						v = lenE(v)
					}
					val = strconv.Itoa(norm(v).ID)
					for _, q := range st.quants {
						if q.key != k {
							continue
						}
						v := q.val
						if s.el {
							val += " ?" + s.key
							continue
						}
						if s.len {
							v = lenE(v)
						}
						val += " " + strconv.Itoa(norm(v).ID) + "," + strconv.Itoa(norm(q.lo).ID) + "," + strconv.Itoa(norm(q.hi).ID) + "," + strconv.Itoa(norm(q.cond).ID)
					}
					sig[s.key] = val
				}
				// refine
				first := map[int]map[string]int{}
				for _, s := range slots[T] {
					c := class[s.key]
					if first[c] == nil {
						first[c] = map[string]int{}
					}
					if _, ok := first[c][sig[s.key]]; !ok {
						if len(first[c]) == 0 {
							first[c][sig[s.key]] = c
						} else {
							first[c][sig[s.key]] = n
							n++
							changed = true
						}
					}
				}
				for _, s := range slots[T] {
					class[s.key] = first[class[s.key]][sig[s.key]]
				}
			}
		}
	}
	count := map[int]int{}
	for _, c := range class {
		count[c]++
	}
	for k, c := range class {
		if count[c] < 2 {
			delete(class, k)
		}
	}
	lenClass = class
	if os.Getenv("VSA_LENC") != "" {
		for _, k := range sortedStrs(class) {
			println(class[k], k)
		}
	}
}

// lenArr is the array of the lengths of the elements of a slice of slices.
func lenArr(st *sstate, v *Expr, rep func(string, *Expr) *Expr, class map[string]int) *Expr {
	if v == eNil {
		return eZeroA
	}
	root, off := sliceRoot(v)
	if off != constI(0) {
		return mk("lenArr?", "", 'o', v)
	}
	for _, q := range st.quants {
		if q.key == arrKey(root) {
			return mk("lenArr?", "", 'o', v)
		}
	}
	memo := map[*Expr]*Expr{}
	var conv func(a *Expr) *Expr
	conv = func(a *Expr) (r *Expr) {
		if x, ok := memo[a]; ok {
			return x
		}
		defer func() { memo[a] = r }()
		switch a.Op {
		case "zero":
			return a
		case "A0":
			if k, b := lenSlot(mk("len", "", 'i', a.Args[0])); k != "" {
				k = strings.TrimSuffix(k, "#len") + "[]#len"
				if _, ok := class[k]; ok {
					return rep(k, b)
				}
			}
			return a
		case "ite":
			return iteE(a.Args[0], conv(a.Args[1]), conv(a.Args[2]))
		case "store":
			return mk("store", "", 'o', conv(a.Args[0]), a.Args[1], lenE(a.Args[2]))
		case "fill":
			b := eZeroA
			if a.Str != "all" {
				b = conv(a.Args[0])
			}
			return mk("fill", a.Str, 'o', b, a.Args[1], a.Args[2], lenE(a.Args[3]), a.Args[4])
		}
		return mk("lenArr?", "", 'o', a)
	}
	if root.Op == "ite" {
		return iteE(root.Args[0], lenArr(st, root.Args[1], rep, class), lenArr(st, root.Args[2], rep, class))
	}
	return conv(st.read(arrKey(root), 'o'))
}

func sortedStrs[V any](m map[string]V) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}
