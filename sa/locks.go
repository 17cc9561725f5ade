package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- access paths -------------------------------------------------------

type lstep struct {
	T     *types.Named // struct whose field is selected; nil for an element step
	Field int
}

// apath names an object or variable relative to the operation's inputs:
// "P0.measurements[]" is whatever the map field of the first argument holds.
type apath struct {
	root  string
	steps []lstep
}

func (p apath) key() string {
	var sb strings.Builder
	sb.WriteString(p.root)
	for _, s := range p.steps {
		if s.T == nil {
			sb.WriteString("[]")
		} else {
			st := s.T.Underlying().(*types.Struct)
			sb.WriteString("." + st.Field(s.Field).Name())
		}
	}
	return sb.String()
}

func (p apath) field(T *types.Named, i int) apath {
	n := make([]lstep, len(p.steps), len(p.steps)+1)
	copy(n, p.steps)
	return apath{p.root, append(n, lstep{T, i})}
}

func (p apath) elem() apath {
	if len(p.steps) > 0 && p.steps[len(p.steps)-1].T == nil && len(p.steps) > 3 {
		return p
	}
	n := make([]lstep, len(p.steps), len(p.steps)+1)
	copy(n, p.steps)
	return apath{p.root, append(n, lstep{})}
}

type pset map[string]apath

func (s pset) add(o pset) pset {
	if len(o) == 0 {
		return s
	}
	n := pset{}
	for k, v := range s {
		n[k] = v
	}
	for k, v := range o {
		n[k] = v
	}
	return n
}

func single(p apath) pset { return pset{p.key(): p} }

// ---- which fields are guarded -------------------------------------------

type guardInfo struct {
	mutex []lstep // steps from the struct to its mutex
	own   bool
}

type lockModel struct {
	w       *World
	guards  map[*types.Named]*guardInfo
	mutable map[string]bool // "T#i": field stored to after construction
	content map[string]bool // "T#i": the field's elements are stored to after construction
	atomicF map[string]bool // fields used through sync/atomic or of an atomic type
}

func fieldKey(T *types.Named, i int) string { return fmt.Sprintf("%s#%d", T.String(), i) }

func namedOf(t types.Type) *types.Named {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, isNamed := t.(*types.Named); !isNamed {
			t = p.Elem()
		}
	}
	t = types.Unalias(t)
	n, _ := t.(*types.Named)
	return n
}

func isMutexType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}

func isSyncType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

func inModule(n *types.Named) bool {
	return n != nil && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == modPath || strings.HasPrefix(n.Obj().Pkg().Path(), modPath+"/"))
}

// sharedTypes are reachable from a guarded container but deliberately handed
// out: they synchronise themselves.
var sharedTypes = map[string]string{
	modPath + "/pkg/framework/param.Parameter": "handed out by the registry; its value is atomic (C03), its description is fixed at registration",
}

func allNamedStructs(w *World) []*types.Named {
	var out []*types.Named
	for _, p := range w.Pkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nm, ok := tn.Type().(*types.Named); ok {
					if _, ok := nm.Underlying().(*types.Struct); ok {
						out = append(out, nm)
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func newLockModel(w *World) *lockModel {
	m := &lockModel{w: w, guards: map[*types.Named]*guardInfo{}, mutable: map[string]bool{}, content: map[string]bool{}, atomicF: map[string]bool{}}
	structs := allNamedStructs(w)
	for _, T := range structs {
		st := T.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if isMutexType(st.Field(i).Type()) {
				m.guards[T] = &guardInfo{mutex: []lstep{{T, i}}, own: true}
				break
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, T := range structs {
			if m.guards[T] != nil {
				continue
			}
			st := T.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if !st.Field(i).Embedded() {
					continue
				}
				E := namedOf(st.Field(i).Type())
				if g := m.guards[E]; E != nil && g != nil {
					m.guards[T] = &guardInfo{mutex: append([]lstep{{T, i}}, g.mutex...)}
					changed = true
					break
				}
			}
		}
	}
	// which fields are written after construction, anywhere in the module
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					m.noteWrite(in.Addr, false)
				case *ssa.MapUpdate:
					m.noteWrite(in.Map, true)
				case ssa.CallInstruction:
					c := in.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "copy", "delete", "clear", "append":
							m.noteWrite(c.Args[0], true)
						}
					} else if sf := c.StaticCallee(); sf != nil && sf.Pkg != nil && sf.Pkg.Pkg.Path() == "sort" && len(c.Args) > 0 {
						m.noteWrite(c.Args[0], true)
					} else if sf != nil && sf.Pkg != nil && sf.Pkg.Pkg.Path() == "sync/atomic" && len(c.Args) > 0 {
						if fa, ok := c.Args[0].(*ssa.FieldAddr); ok {
							m.atomicF[fieldKey(namedOf(fa.X.Type()), fa.Field)] = true
						}
					}
				}
			}
		}
	}
	return m
}

// noteWrite marks the fields on the way to a written location.
func (m *lockModel) noteWrite(v ssa.Value, content bool) {
	for depth := 0; v != nil && depth < 12; depth++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			T := namedOf(x.X.Type())
			if T == nil {
				return
			}
			if freshBase(x.X) {
				return
			}
			if content {
				m.content[fieldKey(T, x.Field)] = true
			} else {
				m.mutable[fieldKey(T, x.Field)] = true
			}
			content = true
			v = x.X
		case *ssa.IndexAddr:
			content = true
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Lookup:
			content = true
			v = x.X
		case *ssa.Extract:
			v = x.Tuple
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.Phi:
			for _, e := range x.Edges {
				if _, isPhi := e.(*ssa.Phi); !isPhi {
					m.noteWrite(e, content)
				}
			}
			return
		default:
			return
		}
	}
}

// freshBase: the value is an object this function has just created.
func freshBase(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return freshBase(x.X)
	case *ssa.UnOp:
		return false
	}
	return false
}

// guardOf returns the lock that must be held to touch p ("" if none), and a
// readable name for the datum.
func (m *lockModel) guardOf(p apath) (lock apath, what string, ok bool) {
	gi := -1
	for i, s := range p.steps {
		if s.T == nil {
			continue
		}
		if sharedTypes[s.T.String()] != "" {
			gi = -1
			continue
		}
		if m.guards[s.T] != nil {
			gi = i
		}
	}
	if gi < 0 || strings.HasPrefix(p.root, "A") || p.root == "?" {
		return
	}
	s := p.steps[gi]
	st := s.T.Underlying().(*types.Struct)
	f := st.Field(s.Field)
	if isSyncType(f.Type()) || m.atomicF[fieldKey(s.T, s.Field)] {
		return
	}
	if n := namedOf(f.Type()); n != nil && m.guards[n] != nil {
		return // a nested self-synchronised object: its own guard applies to its fields
	}
	k := fieldKey(s.T, s.Field)
	if gi == len(p.steps)-1 {
		if !m.mutable[k] && !m.content[k] {
			return
		}
		if !m.mutable[k] && !isContainer(f.Type()) {
			return
		}
	} else if !m.mutable[k] && !m.content[k] && !m.deepMutable(p.steps[gi+1:]) {
		return
	}
	lock = apath{p.root, append(append([]lstep{}, p.steps[:gi]...), m.guards[s.T].mutex...)}
	return lock, s.T.Obj().Name() + "." + f.Name(), true
}

func (m *lockModel) deepMutable(steps []lstep) bool {
	for _, s := range steps {
		if s.T != nil && (m.mutable[fieldKey(s.T, s.Field)] || m.content[fieldKey(s.T, s.Field)]) {
			return true
		}
	}
	return false
}

func isContainer(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

// ---- the walk -------------------------------------------------------------

type lockState struct {
	held   map[string]byte // lock path -> 'R' or 'W'
	acq    map[string]int  // acquisitions of each lock by this operation, with an access in between
	defers []*ssa.Defer
}

func (s *lockState) key() string {
	var ks []string
	for k, v := range s.held {
		ks = append(ks, k+string(v))
	}
	sort.Strings(ks)
	var as []string
	for k, v := range s.acq {
		as = append(as, fmt.Sprintf("%s%d", k, v))
	}
	sort.Strings(as)
	d := ""
	for _, x := range s.defers {
		d += fmt.Sprintf(",%p", x)
	}
	return strings.Join(ks, ";") + "|" + strings.Join(as, ";") + "|" + d
}

func (s *lockState) clone() *lockState {
	n := &lockState{held: map[string]byte{}, acq: map[string]int{}, defers: append([]*ssa.Defer{}, s.defers...)}
	for k, v := range s.held {
		n.held[k] = v
	}
	for k, v := range s.acq {
		n.acq[k] = v
	}
	return n
}

type lockReport struct {
	kind, construct string
	pos             ssa.Instruction
	msg             string
}

type lockWalk struct {
	m      *lockModel
	root   *ssa.Function
	opOf   string // the exported operation being judged
	emit   func(kind, construct string, in ssa.Instruction, msg string)
	count  func(kind, construct string)
	order  map[string]map[string]string // lock type -> lock type -> where
	depth  int
	stack  []*ssa.Function
	allocs map[ssa.Value]pset // contents of local cells
	byRoot map[string]ssa.Value

	onAtomic func(fr *lockFrame, p apath, op string, in ssa.Instruction, s *lockState)
	esc      []escClosure
	lockTy   map[string]string // lock path -> type-level name
}

type escClosure struct {
	fn  *ssa.Function
	env map[ssa.Value]pset
}

type lockFrame struct {
	w    *lockWalk
	fn   *ssa.Function
	vals map[ssa.Value]pset
	rets pset
}

func refLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Struct, *types.Array, *types.Interface, *types.Tuple, *types.Signature:
		return true
	}
	return false
}

func (fr *lockFrame) val(v ssa.Value) pset {
	if p, ok := fr.vals[v]; ok {
		return p
	}
	switch x := v.(type) {
	case *ssa.Global:
		return single(apath{root: "G:" + x.Pkg.Pkg.Path() + "." + x.Name()})
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return nil
	}
	return nil
}

const lockDepth = 12

// run walks fn from the given state; it returns the possible exit states.
func (w *lockWalk) run(fn *ssa.Function, args []pset, free map[ssa.Value]pset, in *lockState) (outs []*lockState, ret pset) {
	for _, s := range w.stack {
		if s == fn {
			return []*lockState{in}, nil
		}
	}
	if len(w.stack) > lockDepth {
		panic("lock analysis: call depth exceeded at " + fn.String())
	}
	w.stack = append(w.stack, fn)
	defer func() { w.stack = w.stack[:len(w.stack)-1] }()
	fr := &lockFrame{w: w, fn: fn, vals: map[ssa.Value]pset{}}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.vals[p] = args[i]
		}
	}
	for k, v := range free {
		fr.vals[k] = v
	}
	saved := in.defers
	entry := in.clone()
	entry.defers = nil
	var exits map[string]*lockState
	for round := 0; ; round++ {
		fr.settle()
		before := fr.size()
		exits = fr.explore(entry.clone())
		// results of calls may add values; look again until nothing is new
		fr.settle()
		if fr.size() == before || round == 4 {
			break
		}
	}
	var ks []string
	for k := range exits {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		e := exits[k].clone()
		e.defers = append([]*ssa.Defer{}, saved...)
		outs = append(outs, e)
	}
	return outs, fr.rets
}

// settle computes value paths to a flow-insensitive fixpoint.
func (fr *lockFrame) settle() {
	for iter := 0; iter < 8; iter++ {
		before := fr.size()
		for _, b := range fr.fn.DomPreorder() {
			for _, ins := range b.Instrs {
				fr.value(ins)
			}
		}
		if fr.size() == before && iter > 0 {
			break
		}
	}
}

// explore runs the lock-state machine over the function's graph.
func (fr *lockFrame) explore(in *lockState) map[string]*lockState {
	fn := fr.fn
	exits := map[string]*lockState{}
	type item struct {
		b *ssa.BasicBlock
		s *lockState
	}
	seen := map[string]bool{}
	work := []item{{fn.Blocks[0], in}}
	steps := 0
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		k := fmt.Sprintf("%d/%s", it.b.Index, it.s.key())
		if seen[k] {
			continue
		}
		seen[k] = true
		if steps++; steps > 20000 {
			panic("lock analysis: too many states in " + fn.String())
		}
		states := []*lockState{it.s.clone()}
		ended := false
		for _, ins := range it.b.Instrs {
			var next []*lockState
			for _, s := range states {
				ns, end := fr.instr(ins, s)
				if end {
					ended = true
					if _, isRet := ins.(*ssa.Return); isRet {
						for _, e := range ns {
							exits[e.key()] = e
						}
					}
					continue
				}
				next = append(next, ns...)
			}
			states = next
		}
		if !ended {
			for _, s := range states {
				for _, succ := range it.b.Succs {
					work = append(work, item{succ, s})
				}
			}
		}
	}
	return exits
}

func (fr *lockFrame) size() int {
	n := 0
	for _, v := range fr.vals {
		n += len(v)
	}
	for _, v := range fr.w.allocs {
		n += len(v)
	}
	return n
}

// value computes the paths an instruction's result may denote.
func (fr *lockFrame) value(ins ssa.Instruction) {
	v, ok := ins.(ssa.Value)
	if !ok {
		switch s := ins.(type) {
		case *ssa.Store:
			if a := allocRoot(s.Addr); a != nil && refLike(s.Val.Type()) {
				fr.w.allocs[a] = fr.w.allocs[a].add(fr.val(s.Val))
			}
		case *ssa.MapUpdate:
			if mm, ok := s.Map.(*ssa.MakeMap); ok {
				fr.w.allocs[mm] = fr.w.allocs[mm].add(fr.val(s.Value))
			}
		}
		return
	}
	var out pset
	switch x := v.(type) {
	case *ssa.Alloc:
		r := fmt.Sprintf("A%d:%s", x.Pos(), fr.fn.Name())
		fr.w.byRoot[r] = x
		out = single(apath{root: r})
	case *ssa.FieldAddr:
		T := namedOf(x.X.Type())
		out = pset{}
		for _, p := range fr.val(x.X) {
			if T != nil {
				n := p.field(T, x.Field)
				out[n.key()] = n
			}
		}
		if a := allocRoot(x.X); a != nil && T != nil {
			for _, p := range fr.w.allocs[a] {
				if strings.HasPrefix(p.root, "A") {
					continue
				}
				// the local struct may be a copy of *p
				n := p.field(T, x.Field)
				out[n.key()+"~copy"] = apath{root: "C:" + n.key(), steps: nil}
			}
		}
	case *ssa.Field:
		T := namedOf(x.X.Type())
		out = pset{}
		for _, p := range fr.val(x.X) {
			if T != nil {
				n := p.field(T, x.Field)
				out[n.key()] = n
			}
		}
	case *ssa.IndexAddr:
		out = elems(fr.val(x.X))
	case *ssa.Index:
		out = elems(fr.val(x.X))
	case *ssa.Lookup:
		out = elems(fr.val(x.X))
	case *ssa.UnOp:
		out = fr.val(x.X)
		if a := allocRoot(x.X); a != nil {
			_, isStruct := x.Type().Underlying().(*types.Struct)
			if a == x.X && x.Op.String() == "*" && !isStruct {
				out = fr.w.allocs[a] // a variable cell: only what was stored in it
			} else {
				out = out.add(fr.w.allocs[a])
			}
		}
	case *ssa.Phi:
		out = fr.vals[v]
		for _, e := range x.Edges {
			out = out.add(fr.val(e))
		}
	case *ssa.Slice:
		out = fr.val(x.X)
	case *ssa.ChangeType:
		out = fr.val(x.X)
	case *ssa.Convert:
		if refLike(x.Type()) {
			out = fr.val(x.X)
		}
	case *ssa.MakeInterface:
		out = fr.val(x.X)
	case *ssa.ChangeInterface:
		out = fr.val(x.X)
	case *ssa.TypeAssert:
		out = fr.val(x.X)
	case *ssa.Extract:
		out = fr.val(x.Tuple)
	case *ssa.Range:
		fr.vals[v] = fr.val(x.X)
		return
	case *ssa.Next:
		out = elems(fr.val(x.Iter))
	case *ssa.MakeMap, *ssa.MakeSlice:
		r := fmt.Sprintf("A%d:%s", x.Pos(), fr.fn.Name())
		fr.w.byRoot[r] = v
		out = single(apath{root: r})
	case *ssa.Call:
		out = fr.vals[v]
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			out = fr.val(x.Call.Args[0])
		}
	default:
		return
	}
	if !refLike(v.Type()) {
		if _, ok := v.Type().Underlying().(*types.Basic); ok {
			if _, isAddr := v.(*ssa.FieldAddr); !isAddr {
				// scalars carry their origin only for access checks
				fr.vals[v] = nil
				return
			}
		}
	}
	fr.vals[v] = out
}

func elems(s pset) pset {
	out := pset{}
	for _, p := range s {
		n := p.elem()
		out[n.key()] = n
	}
	return out
}

func allocRoot(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.Alloc:
		return x
	case *ssa.FieldAddr:
		return allocRoot(x.X)
	case *ssa.IndexAddr:
		return allocRoot(x.X)
	case *ssa.FreeVar:
		return x
	}
	return nil
}

func (fr *lockFrame) access(in ssa.Instruction, s *lockState, ps pset, write bool) {
	for _, p := range sortedPaths(ps) {
		lock, what, ok := fr.w.m.guardOf(p)
		if !ok {
			continue
		}
		k := lock.key()
		mode := s.held[k]
		verb := "reads"
		if write {
			verb = "writes"
		}
		con := fmt.Sprintf("%s %s %s", fr.w.opOf, verb, what)
		fr.w.count("guarded", con)
		if mode == 0 {
			fr.w.emit("guarded", con, in, fmt.Sprintf("%s %s without holding %s (in %s)", verb, p.key(), k, fr.fn))
		} else if write && mode != 'W' {
			fr.w.emit("guarded", con, in, fmt.Sprintf("%s %s while holding %s only for reading (in %s)", verb, p.key(), k, fr.fn))
		}
	}
}

func sortedPaths(ps pset) []apath {
	var ks []string
	for k := range ps {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []apath
	for _, k := range ks {
		out = append(out, ps[k])
	}
	return out
}

func (fr *lockFrame) instr(ins ssa.Instruction, s *lockState) (out []*lockState, end bool) {
	keep := []*lockState{s}
	switch x := ins.(type) {
	case *ssa.UnOp:
		if x.Op.String() == "*" {
			ps := fr.val(x.X)
			fr.access(ins, s, ps, false)
		}
	case *ssa.Store:
		fr.access(ins, s, fr.val(x.Addr), true)
		if closureOf(x.Val) != nil {
			fr.escape(x.Val)
		}
	case *ssa.MapUpdate:
		fr.access(ins, s, elems(fr.val(x.Map)), true)
	case *ssa.Lookup:
		fr.access(ins, s, elems(fr.val(x.X)), false)
	case *ssa.Next:
		fr.access(ins, s, elems(fr.val(x.Iter)), false)
	case *ssa.Return:
		for _, r := range x.Results {
			fr.rets = fr.rets.add(fr.val(r))
			if closureOf(r) != nil {
				fr.escape(r)
			}
			if len(fr.w.stack) == 1 {
				fr.checkReturn(ins, r)
			}
		}
		return keep, true
	case *ssa.Panic:
		return nil, true
	case *ssa.RunDefers:
		states := keep
		for len(states) > 0 && len(states[0].defers) > 0 {
			var next []*lockState
			for _, st := range states {
				d := st.defers[len(st.defers)-1]
				st.defers = st.defers[:len(st.defers)-1]
				next = append(next, fr.call(d, d.Common(), nil, st)...)
			}
			states = next
		}
		return states, false
	case *ssa.Defer:
		s.defers = append(s.defers, x)
	case *ssa.Go:
		n := &lockState{held: map[string]byte{}, acq: map[string]int{}}
		fr.call(x, x.Common(), nil, n)
	case *ssa.Call:
		return fr.call(x, x.Common(), x, s), false
	}
	return keep, false
}

func closureOf(v ssa.Value) *ssa.MakeClosure {
	c, _ := v.(*ssa.MakeClosure)
	return c
}

func (fr *lockFrame) escape(v ssa.Value) {
	c := closureOf(v)
	fr.w.esc = append(fr.w.esc, escClosure{c.Fn.(*ssa.Function), fr.closureEnv(c)})
}

func (fr *lockFrame) closureEnv(c *ssa.MakeClosure) map[ssa.Value]pset {
	env := map[ssa.Value]pset{}
	for i, fv := range c.Fn.(*ssa.Function).FreeVars {
		b := c.Bindings[i]
		p := fr.val(b)
		if a := allocRoot(b); a != nil {
			p = p.add(fr.w.allocs[a])
			fr.w.allocs[fv] = fr.w.allocs[fv].add(fr.w.allocs[a])
		}
		env[fv] = p
	}
	return env
}

var syncClosureTakers = map[string]bool{"sort": true, "slices": true, "strings": true}

// invokes allowed while a lock is held: pure accessors of module interfaces
// and the sink a logger serialises.
var allowedUnderLock = map[string]string{
	"SampleOffset": "accessor of an event",
	"Channel":      "accessor of an event",
	"Type":         "accessor of an event",
	"Error":        "error text",
	"String":       "text form",
	"Write":        "the sink the lock exists to serialise",
}

func (fr *lockFrame) call(in ssa.Instruction, c *ssa.CallCommon, res ssa.Value, s *lockState) []*lockState {
	keep := []*lockState{s}
	w := fr.w
	if c.IsInvoke() {
		fr.under(in, s, "interface method "+c.Method.Name(), allowedUnderLock[c.Method.Name()] != "")
		return keep
	}
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "append":
			if len(c.Args) > 1 {
				fr.access(in, s, elems(fr.val(c.Args[1])), false)
			}
		case "copy":
			fr.access(in, s, elems(fr.val(c.Args[0])), true)
			fr.access(in, s, elems(fr.val(c.Args[1])), false)
		case "delete", "clear":
			fr.access(in, s, elems(fr.val(c.Args[0])), true)
		case "len":
			if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
				fr.access(in, s, fr.val(c.Args[0]), false)
			}
		}
		return keep
	}
	callee := c.StaticCallee()
	if callee == nil {
		fr.under(in, s, "function value", false)
		return keep
	}
	if callee.Pkg != nil && callee.Pkg.Pkg.Path() == "sync/atomic" && w.onAtomic != nil && len(c.Args) > 0 {
		for _, p := range sortedPaths(fr.val(c.Args[0])) {
			w.onAtomic(fr, p, callee.Name(), in, s)
		}
	}
	if callee.Pkg != nil && callee.Pkg.Pkg.Path() == "sync" {
		return fr.syncCall(in, callee, c, s)
	}
	mod := callee.Blocks != nil && (callee.Pkg == nil || strings.HasPrefix(callee.Pkg.Pkg.Path(), modPath))
	if !mod {
		if callee.Pkg != nil && callee.Pkg.Pkg.Path() == "sort" && len(c.Args) > 0 {
			fr.access(in, s, elems(fr.val(c.Args[0])), true)
		}
		for _, a := range c.Args {
			if mc := closureOf(a); mc != nil {
				if callee.Pkg != nil && syncClosureTakers[callee.Pkg.Pkg.Path()] {
					outs, _ := w.run(mc.Fn.(*ssa.Function), nil, fr.closureEnv(mc), s)
					if len(outs) > 0 {
						keep = outs
					}
				} else {
					fr.escape(a)
				}
			}
		}
		return keep
	}
	var args []pset
	for _, a := range c.Args {
		p := fr.val(a)
		if al := allocRoot(a); al != nil {
			p = p.add(w.allocs[al])
		}
		args = append(args, p)
		if closureOf(a) != nil {
			fr.escape(a)
		}
	}
	free := map[ssa.Value]pset{}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		free = fr.closureEnv(mc)
	}
	sub := s
	savedOp, savedAcq := w.opOf, s.acq
	nested := isExportedOp(callee)
	if nested {
		sub = s.clone()
		sub.acq = map[string]int{}
		w.opOf = opName(callee)
	}
	outs, ret := w.run(callee, args, free, sub)
	w.opOf = savedOp
	if nested {
		for _, o := range outs {
			o.acq = savedAcq
		}
	}
	if res != nil {
		fr.vals[res] = fr.vals[res].add(ret)
	}
	if len(outs) == 0 {
		return nil // does not return
	}
	return outs
}

func isExportedOp(f *ssa.Function) bool {
	return f.Object() != nil && f.Object().Exported() && f.Parent() == nil
}

func opName(f *ssa.Function) string {
	return strings.ReplaceAll(strings.ReplaceAll(f.String(), modPath+"/pkg/", ""), modPath, "")
}

func (fr *lockFrame) under(in ssa.Instruction, s *lockState, what string, allowed bool) {
	if len(s.held) == 0 {
		return
	}
	con := fmt.Sprintf("%s calls %s", fr.w.opOf, what)
	fr.w.count("callback", con)
	if !allowed {
		fr.w.emit("callback", con, in, fmt.Sprintf("calls a %s while holding %s: the callee may re-enter the structure and deadlock (in %s)", what, heldList(s), fr.fn))
	}
}

func heldList(s *lockState) string {
	var ks []string
	for k := range s.held {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, ", ")
}

func (fr *lockFrame) syncCall(in ssa.Instruction, callee *ssa.Function, c *ssa.CallCommon, s *lockState) []*lockState {
	w := fr.w
	keep := []*lockState{s}
	recv := callee.Signature.Recv()
	if recv == nil || !isMutexType(recv.Type()) {
		if recv != nil && namedOf(recv.Type()).Obj().Name() == "Once" && len(c.Args) > 1 {
			if mc := closureOf(c.Args[1]); mc != nil {
				outs, _ := w.run(mc.Fn.(*ssa.Function), nil, fr.closureEnv(mc), s)
				return append(outs, s)
			}
		}
		return keep
	}
	ps := sortedPaths(fr.val(c.Args[0]))
	name := callee.Name()
	fresh := len(ps) > 0
	for _, p := range ps {
		fresh = fresh && strings.HasPrefix(p.root, "A")
	}
	if fresh {
		ps = ps[:1] // an object this operation has just created: nobody else can hold it
	}
	if len(ps) != 1 {
		w.count("balance", w.opOf+" "+name)
		w.emit("balance", w.opOf+" "+name+" on an unresolved mutex", in, fmt.Sprintf("cannot tell which lock %s operates on (%d candidates)", name, len(ps)))
		return keep
	}
	k := ps[0].key()
	last := ps[0].steps
	if len(last) > 0 && last[len(last)-1].T != nil {
		w.lockTy[k] = last[len(last)-1].T.Obj().Name()
	} else {
		w.lockTy[k] = k
	}
	con := fmt.Sprintf("%s %s", w.opOf, k)
	switch name {
	case "Lock", "RLock":
		w.count("balance", con)
		if s.held[k] != 0 {
			w.emit("balance", con, in, fmt.Sprintf("%s of %s while it is already held on this path: self-deadlock", name, k))
		}
		for h := range s.held {
			if h != k {
				a, b := w.lockTy[h], w.lockTy[k]
				if w.order[a] == nil {
					w.order[a] = map[string]string{}
				}
				if w.order[a][b] == "" {
					w.order[a][b] = w.m.w.Pos(in.Pos()) + " in " + fr.fn.String()
				}
			}
		}
		if name == "Lock" {
			s.held[k] = 'W'
		} else {
			s.held[k] = 'R'
		}
		s.acq[k]++
		w.count("atomic-op", con)
		if s.acq[k] > 1 {
			if s.acq[k] > 2 {
				s.acq[k] = 2
			}
			w.emit("atomic-op", con, in, fmt.Sprintf("%s releases %s and takes it again within one operation: another thread can change the structure in between (in %s)", w.opOf, k, fr.fn))
		}
	case "Unlock", "RUnlock":
		want := byte('W')
		if name == "RUnlock" {
			want = 'R'
		}
		if s.held[k] != want {
			w.emit("balance", con, in, fmt.Sprintf("%s of %s, which is not held that way on this path", name, k))
		}
		delete(s.held, k)
	case "TryLock", "TryRLock":
		w.emit("balance", con, in, "TryLock is not modelled")
	}
	return keep
}

// checkReturn reports a reference to guarded mutable data leaving an operation.
func (fr *lockFrame) checkReturn(in ssa.Instruction, r ssa.Value) {
	w := fr.w
	var check func(ps pset, t types.Type, via string)
	check = func(ps pset, t types.Type, via string) {
		for _, p := range sortedPaths(ps) {
			mutableRef := false
			switch u := t.Underlying().(type) {
			case *types.Slice, *types.Map:
				mutableRef = true
			case *types.Pointer:
				if n := namedOf(u.Elem()); n != nil && inModule(n) && w.m.guards[n] == nil && sharedTypes[n.String()] == "" {
					mutableRef = true
				}
			}
			if mutableRef {
				probe := p
				if _, isC := t.Underlying().(*types.Pointer); !isC {
					probe = p.elem()
				}
				_, what, ok := w.m.guardOf(probe)
				if ok {
					con := fmt.Sprintf("%s returns %s", w.opOf, what)
					w.count("no-leak", con)
					w.emit("no-leak", con, in, fmt.Sprintf("hands out %s%s, which the lock guards: the caller would touch it without the lock", p.key(), via))
				}
			}
		}
	}
	w.count("no-leak", w.opOf)
	check(fr.val(r), r.Type(), "")
	// a local copy of a guarded struct still shares its slices and maps
	seen := map[string]bool{}
	var via func(ps pset)
	via = func(ps pset) {
		for _, q := range sortedPaths(ps) {
			v := w.byRoot[q.root]
			if v == nil || seen[q.root] {
				continue
			}
			seen[q.root] = true
			if x, ok := v.(*ssa.Alloc); ok {
				if T := namedOf(x.Type()); T != nil {
					if st, ok := T.Underlying().(*types.Struct); ok {
						overwritten := fieldsStored(x)
						for _, p := range sortedPaths(w.allocs[x]) {
							if strings.HasPrefix(p.root, "A") {
								continue
							}
							for i := 0; i < st.NumFields(); i++ {
								if !overwritten[i] && isContainer(st.Field(i).Type()) && w.m.content[fieldKey(T, i)] {
									check(pset{"x": p.field(T, i)}, st.Field(i).Type(), " (through a shallow copy of "+T.Obj().Name()+")")
								}
							}
						}
					}
				}
			}
			via(w.allocs[v])
		}
	}
	via(fr.val(r))
}

// fieldsStored: fields of a local struct that are assigned individually.
func fieldsStored(a *ssa.Alloc) map[int]bool {
	out := map[int]bool{}
	for _, ref := range *a.Referrers() {
		if fa, ok := ref.(*ssa.FieldAddr); ok {
			for _, r2 := range *fa.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == fa {
					out[fa.Field] = true
				}
			}
		}
	}
	return out
}

// lockRoots: every operation a client can start.
func lockRoots(w *World) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range w.Funcs {
		if f.Parent() != nil || f.Synthetic != "" || f.Name() == "init" {
			continue
		}
		exported := f.Object() != nil && f.Object().Exported()
		if !exported {
			continue
		}
		out = append(out, f)
	}
	return out
}

// runLocks analyses every operation and reports by kind.
func runLocks(w *World, onAtomic func(fr *lockFrame, p apath, op string, in ssa.Instruction, s *lockState), emit func(kind, construct string, in ssa.Instruction, msg string), count func(kind, construct string)) (roots int, order map[string]map[string]string, m *lockModel) {
	m = newLockModel(w)
	order = map[string]map[string]string{}
	for _, f := range lockRoots(w) {
		roots++
		lw := &lockWalk{onAtomic: onAtomic, m: m, root: f, opOf: opName(f), emit: emit, count: count, order: order, allocs: map[ssa.Value]pset{}, byRoot: map[string]ssa.Value{}, lockTy: map[string]string{}}
		var args []pset
		for i, p := range f.Params {
			if refLike(p.Type()) {
				args = append(args, single(apath{root: fmt.Sprintf("P%d", i)}))
			} else {
				args = append(args, nil)
			}
		}
		outs, _ := lw.run(f, args, nil, &lockState{held: map[string]byte{}, acq: map[string]int{}})
		finish := func(outs []*lockState) {
			for _, o := range outs {
				if len(o.held) > 0 {
					emit("balance", lw.opOf+" returns holding "+heldList(o), f.Blocks[0].Instrs[0], fmt.Sprintf("%s can return with %s still held", lw.opOf, heldList(o)))
				}
			}
		}
		finish(outs)
		for i := 0; i < len(lw.esc) && i < 200; i++ {
			e := lw.esc[i]
			var as []pset
			for range e.fn.Params {
				as = append(as, nil)
			}
			lw.opOf = opName(f) + "$func"
			outs, _ := lw.run(e.fn, as, e.env, &lockState{held: map[string]byte{}, acq: map[string]int{}})
			finish(outs)
		}
	}
	return
}
