package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	call  *ssa.CallCommon
	fn    Val   // function value (dynamic) or receiver (invoke)
	args  []Val // evaluated arguments
	instr ssa.Instruction
}

type Frame struct {
	fn          *ssa.Function
	env         map[ssa.Value]Val
	block       *ssa.BasicBlock
	prev        *ssa.BasicBlock
	idx         int
	defers      []deferred
	callInstr   ssa.Value // value in caller's frame receiving the result (nil: discard)
	isDefer     bool      // a deferred call of the frame below
	panicking   *Term     // value being propagated through this frame
	recovered   bool
	unwinding   bool // running defers because of a panic
	noHeader    bool // skip loop handling at the current header
	async       bool // body of a go statement
	asyncSave   *State
	onRet       func(st *State, ret []Val) // Go-side continuation
	notDeferred bool                       // isDefer only discards the result: recover has no effect
}

const (
	Running = iota
	Returned
	Panicked
	Fatal
	Dead
	AtBack // loop exploration: reached the header again
)

type Lock struct {
	ref  *Term
	name string
	snap *State
}

type State struct {
	frames  []*Frame
	heap    map[string]*Term
	epoch   string
	hyps    []*Term
	hset    map[*Term]bool
	ctr     *Term
	status  int
	ret     []Val
	pval    *Term
	locks   []Lock
	trace   []string
	asyncD  int
	nolog   bool
	branchN int
	allocs  []*Term
	conds   []*Term
	lockAt  map[string]*State // last acquisition per monitor
	unlkAt  map[string]*State // last release per monitor
	callAt  map[string]*State // state at the last event of a kind
	join    bool              // other paths may get here
	edges   []edge            // references held by unshared objects
	pending []*Term           // objects that become known to others when a held lock is released
}

func newState() *State {
	st := &State{heap: map[string]*Term{}, hset: map[*Term]bool{}}
	return st
}
func (st *State) clone() *State {
	n := *st
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]Val, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]deferred(nil), f.defers...)
		n.frames[i] = &g
	}
	n.heap = make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.hyps = append([]*Term(nil), st.hyps...)
	n.hset = make(map[*Term]bool, len(st.hset))
	for k := range st.hset {
		n.hset[k] = true
	}
	n.locks = append([]Lock(nil), st.locks...)
	n.trace = append([]string(nil), st.trace...)
	n.allocs = append([]*Term(nil), st.allocs...)
	n.conds = append([]*Term(nil), st.conds...)
	n.lockAt = copyMap(st.lockAt)
	n.unlkAt = copyMap(st.unlkAt)
	n.callAt = copyMap(st.callAt)
	n.edges = st.edges[:len(st.edges):len(st.edges)]
	n.pending = st.pending[:len(st.pending):len(st.pending)]
	return &n
}
func copyMap(m map[string]*State) map[string]*State {
	if m == nil {
		return nil
	}
	n := map[string]*State{}
	for k, v := range m {
		n[k] = v
	}
	return n
}
func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) assume(ts ...*Term) {
	for _, t := range ts {
		if t.Op == "and" {
			st.assume(t.Args...)
			continue
		}
		if t == tTrue || st.hset[t] {
			continue
		}
		st.hset[t] = true
		st.hyps = append(st.hyps, t)
	}
}

// ---- heap ----

var keySorts = map[string]string{}

func (st *State) get(key, srt string) *Term {
	if s, ok := keySorts[key]; ok && s != srt {
		panic(fmt.Sprintf("heap key %s: sort %s vs %s", key, s, srt))
	}
	keySorts[key] = srt
	if t, ok := st.heap[key]; ok {
		return t
	}
	ep := st.epoch
	if keptOver(key) {
		ep = ""
	}
	t := Const("H!"+key+ep, srt)
	st.heap[key] = t
	if b := epochCtr[ep]; b != nil {
		bornCtr[t] = b
	}
	return t
}
func (st *State) set(key string, t *Term) {
	if s, ok := keySorts[key]; ok && s != t.Sort {
		panic(fmt.Sprintf("heap key %s: set sort %s vs %s", key, s, t.Sort))
	}
	keySorts[key] = t.Sort
	st.heap[key] = t
}

// alloc returns a fresh reference.
func (st *State) alloc() *Term {
	r := st.ctr
	st.ctr = AddK(st.ctr, 1)
	st.allocs = append(st.allocs, r)
	st.assume(Eq2(App("root", SInt, r), r), Eq2(App("kind", SInt, r), Int(0)))
	return r
}

// typeFacts are the invariants of the type system for a value read from the
// state.
func (st *State) typeFacts(v Val) {
	if v.Tup != nil {
		for _, x := range v.Tup {
			st.typeFacts(x)
		}
		return
	}
	if v.T == nil {
		return
	}
	ls := leavesOf(v.T)
	for i := 0; i < len(ls) && i < len(v.L); i++ {
		l, t := ls[i], v.L[i]
		if t.open {
			switch l.T.Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Chan, *types.Slice:
				if l.Part == 0 && l.Sort == SInt {
					st.wellFormed(t, map[*Term]bool{})
				}
			}
			continue
		}
		interesting := t.Op == "select" || t.Op == "$c" || t.Op == "ite" || t.Op == "$f" && (strings.HasPrefix(t.Name, "unbox") || strings.HasPrefix(t.Name, "cap:") || !isFld(t) && !isElem(t) && !isBox(t) && !isClo(t))
		if !interesting {
			continue
		}
		switch u := l.T.Underlying().(type) {
		case *types.Basic:
			if l.Sort == SInt {
				switch u.Kind() {
				case types.Uint8:
					st.assume(Le(Int(0), t), Lt(t, Int(256)))
				case types.Uint, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
					st.assume(Le(Int(0), t))
				case types.UnsafePointer:
					st.assume(Lt(rootOf(t), st.ctr))
				}
			}
		case *types.Pointer, *types.Map, *types.Chan:
			st.assume(Lt(rootOf(t), st.ctr))
			if _, ok := u.(*types.Map); ok {
				st.assume(Le(Int(0), t))
			}
		case *types.Slice:
			if l.Part == 0 && i+3 < len(v.L) {
				off, n, c := v.L[i+1], v.L[i+2], v.L[i+3]
				st.assume(Lt(rootOf(t), st.ctr), Le(Int(0), off), Le(Int(0), n), Le(n, c),
					Imp(Eq(t, Int(0)), And(Eq(n, Int(0)), Eq(c, Int(0)), Eq(off, Int(0)))))
			}
		case *types.Interface:
			if u.NumMethods() > 0 {
				st.assume(Or(Eq(t, nilAny), implPred(l.T, typOf(t))))
			}
		}
	}
}

// bornCtr gives, for a component of the heap, the allocation counter at the
// time it was last completely unknown: the references in it are below that.
var bornCtr = map[*Term]*Term{}
var epochCtr = map[string]*Term{}

// wellFormed states that for the components that an open term reads.
func (st *State) wellFormed(t *Term, seen map[*Term]bool) {
	if seen[t] || !t.open {
		return
	}
	seen[t] = true
	switch {
	case t.Op == "ite":
		st.wellFormed(t.Args[1], seen)
		st.wellFormed(t.Args[2], seen)
	case t.Op == "select" && t.Sort == SInt:
		a := t.Args[0]
		var inner *Term
		if a.Op == "select" {
			inner, a = a, a.Args[0]
		}
		consts := map[*Term]bool{}
		var down func(x *Term, d int)
		down = func(x *Term, d int) {
			if d > 40 {
				return
			}
			switch x.Op {
			case "store":
				down(x.Args[0], d+1)
				if inner != nil {
					down(x.Args[2], d+1)
				}
			case "select":
				down(x.Args[0], d+1)
			case "ite":
				down(x.Args[1], d+1)
				down(x.Args[2], d+1)
			case "$c":
				if x.Sort == SArr(SInt) || inner != nil {
					consts[x] = true
				}
			}
		}
		down(a, 0)
		for c := range consts {
			if !strings.HasPrefix(c.Name, "H!") && !strings.HasPrefix(c.Name, "L!") {
				continue
			}
			b := bornCtr[c]
			if b == nil {
				b = st.ctr
			}
			if inner == nil {
				x := FreshVar("r", SInt)
				rd := Select(c, x)
				st.assume(Forall([]*Term{x}, [][]*Term{{rd}}, Lt(rootOf(rd), b)))
			} else if strings.HasPrefix(c.Sort, "(Array Int (Array ") && inner.Args[1].Sort == SInt {
				x, k := FreshVar("r", SInt), FreshVar("k", t.Args[1].Sort)
				rd := Select(Select(c, x), k)
				st.assume(Forall([]*Term{x, k}, [][]*Term{{rd}}, Lt(rootOf(rd), b)))
			}
		}
	}
}

func (st *State) freshVal(prefix string, t types.Type) Val {
	if tt, ok := t.(*types.Tuple); ok {
		v := Val{T: t}
		for i := 0; i < tt.Len(); i++ {
			v.Tup = append(v.Tup, st.freshVal(fmt.Sprintf("%s.%d", prefix, i), tt.At(i).Type()))
		}
		return v
	}
	v := Val{T: t}
	for _, l := range leavesOf(t) {
		v.L = append(v.L, Fresh(prefix+l.Path, l.Sort))
	}
	st.typeFacts(v)
	return v
}

// fieldKeys gives the heap keys of the scalar field i of the struct type t.
func fieldKey(t types.Type, i int, arr, part int) string {
	s := t.Underlying().(*types.Struct)
	k := "f:" + structKey(t) + "." + s.Field(i).Name()
	if arr >= 0 {
		k += fmt.Sprintf("@%d", arr)
	}
	return k + fmt.Sprintf("#%d", part)
}
func cellKey(t types.Type, part int) string {
	return fmt.Sprintf("m:%s#%d", cellTypeKey(t), part)
}
func cellTypeKey(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return "*" + cellTypeKey2(u.Elem())
	case *types.Slice:
		return "[]"
	case *types.Interface:
		return "iface"
	case *types.Signature:
		return "func"
	case *types.Map:
		return "map"
	case *types.Chan:
		return "chan"
	case *types.Basic:
		return scalarSorts(t)[0] + "." + u.Name()
	}
	return boxKey(t)
}
func cellTypeKey2(t types.Type) string { return "" }

// loadLoc/storeLoc: a location is the address term plus the type stored there.
func (st *State) load(p *Term, t types.Type) Val {
	v := Val{T: t}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			v.L = append(v.L, st.loadField(p, t, i).L...)
		}
		return v
	case *types.Array:
		if isFld(p) { // flattened array field
			fi := fldReg[p.Name]
			return st.loadFieldInfo(p.Args[0], fi)
		}
		e, n, _ := flatArray(t)
		if len(leavesOf(t)) == 1 && n != 1 {
			v.L = []*Term{Fresh("bigarr", SAny)}
			return v
		}
		for k := 0; k < n; k++ {
			v.L = append(v.L, st.load(Elem(p, Int(int64(k))), e).L...)
		}
		return v
	}
	if isFld(p) {
		fi := fldReg[p.Name]
		return st.loadFieldInfo(p.Args[0], fi)
	}
	if p.Op == "$f" && strings.HasPrefix(p.Name, "gaddr:") {
		for i, s := range scalarSorts(t) {
			v.L = append(v.L, st.get(fmt.Sprintf("g:%s#%d", strings.TrimPrefix(p.Name, "gaddr:"), i), s))
		}
		st.typeFacts(v)
		return v
	}
	if c, ok := constElems[p]; ok && len(scalarSorts(t)) == 1 && c.Sort == scalarSorts(t)[0] {
		return Val{T: t, L: []*Term{c}}
	}
	for i, s := range scalarSorts(t) {
		v.L = append(v.L, Select(st.get(cellKey(t, i), SArr(s)), p))
	}
	st.typeFacts(v)
	return v
}

func (st *State) loadFieldInfo(r *Term, fi fldInfo) Val {
	f := fi.st.Field(fi.idx)
	if fi.arr >= 0 {
		e, _, _ := flatArray(f.Type())
		s := scalarSorts(e)[0]
		v := Val{T: e, L: []*Term{Select(st.get(fmt.Sprintf("f:%s.%s@%d#0", fi.key, fi.name, fi.arr), SArr(s)), r)}}
		st.typeFacts(v)
		return v
	}
	return st.loadFieldOf(r, fi.st, fi.key, fi.idx)
}
func (st *State) loadField(r *Term, t types.Type, i int) Val {
	return st.loadFieldOf(r, t.Underlying().(*types.Struct), structKey(t), i)
}
func (st *State) loadFieldOf(r *Term, s *types.Struct, key string, i int) Val {
	f := s.Field(i)
	ft := f.Type()
	v := Val{T: ft}
	if isStruct(ft) {
		return st.load(fldTerm2(s, key, i, r), ft)
	}
	if isArray(ft) {
		e, n, ok := flatArray(ft)
		if ok {
			for k := 0; k < n; k++ {
				v.L = append(v.L, Select(st.get(fmt.Sprintf("f:%s.%s@%d#0", key, f.Name(), k), SArr(scalarSorts(e)[0])), r))
			}
			st.typeFacts(v)
			return v
		}
		a := fldTerm2(s, key, i, r)
		if len(leavesOf(ft)) == 1 && n != 1 {
			v.L = []*Term{Fresh("bigarr", SAny)}
			return v
		}
		for k := 0; k < n; k++ {
			v.L = append(v.L, st.load(Elem(a, Int(int64(k))), e).L...)
		}
		return v
	}
	for j, so := range scalarSorts(ft) {
		v.L = append(v.L, Select(st.get(fmt.Sprintf("f:%s.%s#%d", key, f.Name(), j), SArr(so)), r))
	}
	st.typeFacts(v)
	return v
}
func fldTerm2(s *types.Struct, key string, i int, r *Term) *Term {
	n := "fld:" + key + "." + s.Field(i).Name()
	if _, ok := fldReg[n]; !ok {
		fldReg[n] = fldInfo{s, key, i, -1, s.Field(i).Name()}
	}
	return App(n, SInt, r)
}

func (st *State) upd(key string, r, v *Term) {
	st.set(key, Store(st.get(key, SArr(v.Sort)), r, v))
}

func (st *State) store(p *Term, v Val) {
	t := v.T
	switch u := t.Underlying().(type) {
	case *types.Struct:
		key := structKey(t)
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			n := len(leavesOf(u.Field(i).Type()))
			st.storeFieldOf(p, u, key, i, v.L[off:off+n])
			off += n
		}
		return
	case *types.Array:
		if isFld(p) {
			fi := fldReg[p.Name]
			st.storeFieldOf(p.Args[0], fi.st, fi.key, fi.idx, v.L)
			return
		}
		e, n, _ := flatArray(t)
		if len(leavesOf(t)) == 1 && n != 1 {
			return
		}
		m := len(leavesOf(e))
		for k := 0; k < n; k++ {
			st.store(Elem(p, Int(int64(k))), Val{T: e, L: v.L[k*m : (k+1)*m]})
		}
		return
	}
	if isFld(p) {
		fi := fldReg[p.Name]
		if fi.arr >= 0 {
			st.upd(fmt.Sprintf("f:%s.%s@%d#0", fi.key, fi.name, fi.arr), p.Args[0], v.L[0])
			return
		}
		st.storeFieldOf(p.Args[0], fi.st, fi.key, fi.idx, v.L)
		return
	}
	if p.Op == "$f" && strings.HasPrefix(p.Name, "gaddr:") {
		for i := range v.L {
			st.set(fmt.Sprintf("g:%s#%d", strings.TrimPrefix(p.Name, "gaddr:"), i), v.L[i])
		}
		return
	}
	for i := range v.L {
		st.upd(cellKey(t, i), p, v.L[i])
	}
}
func (st *State) storeFieldOf(r *Term, s *types.Struct, key string, i int, ls []*Term) {
	f := s.Field(i)
	ft := f.Type()
	if isStruct(ft) {
		st.store(fldTerm2(s, key, i, r), Val{T: ft, L: ls})
		return
	}
	if isArray(ft) {
		e, n, ok := flatArray(ft)
		if ok {
			for k := 0; k < n; k++ {
				st.upd(fmt.Sprintf("f:%s.%s@%d#0", key, f.Name(), k), r, ls[k])
			}
			return
		}
		if len(leavesOf(ft)) == 1 && n != 1 {
			return
		}
		a := fldTerm2(s, key, i, r)
		m := len(leavesOf(e))
		for k := 0; k < n; k++ {
			st.store(Elem(a, Int(int64(k))), Val{T: e, L: ls[k*m : (k+1)*m]})
		}
		return
	}
	for j := range ls {
		st.upd(fmt.Sprintf("f:%s.%s#%d", key, f.Name(), j), r, ls[j])
	}
}

// ---- maps ----

func mapKeyName(t types.Type) string {
	m := t.Underlying().(*types.Map)
	return boxKey(m)
}
func mapKeySort(t types.Type) string {
	m := t.Underlying().(*types.Map)
	ls := leavesOf(m.Key())
	if len(ls) != 1 {
		panic("unsupported map key " + t.String())
	}
	return ls[0].Sort
}
func (st *State) mapDom(m Val) *Term {
	if c, ok := constMaps[m.L[0]]; ok {
		return c.dom
	}
	return Select(st.get("md:"+mapKeyName(m.T), SArr(SArrK(mapKeySort(m.T), SBool))), m.L[0])
}
func (st *State) mapVal(m Val, j int, srt string) *Term {
	if c, ok := constMaps[m.L[0]]; ok {
		return c.vals[j]
	}
	return Select(st.get(fmt.Sprintf("mv:%s#%d", mapKeyName(m.T), j), SArr(SArrK(mapKeySort(m.T), srt))), m.L[0])
}
func (st *State) mapLen(m Val) *Term {
	if c, ok := constMaps[m.L[0]]; ok {
		return Int(int64(c.n))
	}
	return Select(st.get("ml:"+mapKeyName(m.T), SArr(SInt)), m.L[0])
}
func (st *State) mapHas(m Val, k *Term) *Term {
	return And(Not(Eq(m.L[0], Int(0))), Select(st.mapDom(m), k))
}
func (st *State) mapLookup(m Val, k *Term) Val {
	et := m.T.Underlying().(*types.Map).Elem()
	v := Val{T: et}
	for j, l := range leavesOf(et) {
		v.L = append(v.L, Select(st.mapVal(m, j, l.Sort), k))
	}
	st.typeFacts(v)
	return v
}
func (st *State) mapUpdate(m Val, k *Term, v Val) {
	n := mapKeyName(m.T)
	ks := mapKeySort(m.T)
	had := Select(st.mapDom(m), k)
	d := st.get("md:"+n, SArr(SArrK(ks, SBool)))
	ln := st.get("ml:"+n, SArr(SInt))
	st.set("ml:"+n, Store(ln, m.L[0], Add(Select(ln, m.L[0]), Ite(had, Int(0), Int(1)))))
	st.set("md:"+n, Store(d, m.L[0], Store(Select(d, m.L[0]), k, tTrue)))
	for j, l := range v.L {
		key := fmt.Sprintf("mv:%s#%d", n, j)
		h := st.get(key, SArr(SArrK(ks, l.Sort)))
		st.set(key, Store(h, m.L[0], Store(Select(h, m.L[0]), k, l)))
	}
}
func (st *State) mapDelete(m Val, k *Term) {
	n := mapKeyName(m.T)
	ks := mapKeySort(m.T)
	had := Select(st.mapDom(m), k)
	d := st.get("md:"+n, SArr(SArrK(ks, SBool)))
	ln := st.get("ml:"+n, SArr(SInt))
	// deleting from a nil map is a no-op: nothing is ever in map 0
	st.set("ml:"+n, Store(ln, m.L[0], Sub(Select(ln, m.L[0]), Ite(had, Int(1), Int(0)))))
	st.set("md:"+n, Store(d, m.L[0], Store(Select(d, m.L[0]), k, tFalse)))
}
func (st *State) newMap(t types.Type) Val {
	r := st.alloc()
	n := mapKeyName(t)
	ks := mapKeySort(t)
	ds := SArrK(ks, SBool)
	st.set("md:"+n, Store(st.get("md:"+n, SArr(ds)), r, ConstArr(ds, tFalse)))
	st.set("ml:"+n, Store(st.get("ml:"+n, SArr(SInt)), r, Int(0)))
	return Val{T: t, L: []*Term{r}}
}

// ---- havoc ----

// havocKey replaces the whole heap component by an unknown one.
func (st *State) havocKey(key string) {
	s, ok := keySorts[key]
	if !ok {
		return
	}
	st.heap[key] = Fresh("h!"+key, s)
}

// privKeys are heap components that unknown code cannot change (declared
// "stable" or "private" in the contracts, and checked there).
var privKeys = map[string]bool{}

// keptOver says whether a heap component survives a call of unknown code.
func keptOver(key string) bool {
	if strings.HasPrefix(key, "ev.") || key == "time" || strings.HasPrefix(key, "it:") || strings.HasPrefix(key, "gh:") {
		return true
	}
	if strings.HasPrefix(key, "m:") {
		return true
	}
	k := key
	if i := strings.LastIndexByte(k, '#'); i >= 0 {
		k = k[:i]
	}
	if i := strings.LastIndexByte(k, '@'); i >= 0 {
		k = k[:i]
	}
	if privKeys[k] {
		return true
	}
	if strings.HasPrefix(k, "f:") {
		if i := strings.LastIndexByte(k, '.'); i >= 0 && privKeys[k[:i]+".*"] {
			return true
		}
	}
	return false
}

var epochN int

// havocAll models unknown code: everything but the kept components changes.
func (st *State) havocAll() {
	old := st.heap
	epochN++
	st.epoch = fmt.Sprintf("^%d", epochN)
	st.heap = map[string]*Term{}
	for k, v := range old {
		if keptOver(k) {
			st.heap[k] = v
		}
	}
	nc := Fresh("ctr", SInt)
	st.assume(Le(st.ctr, nc))
	st.ctr = nc
	epochCtr[st.epoch] = nc
}

// constMaps are map literals held by global variables that are never changed.
type constMap struct {
	dom  *Term
	vals []*Term
	n    int
}

// constElems are the elements of such slices.
var constElems = map[*Term]*Term{}

var constMaps = map[*Term]*constMap{}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
