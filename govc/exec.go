package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type VC struct {
	Name string
	Kind string // ensures, requires, safety, ...
	Hyps []*Term
	Goal *Term
	Fn   string
	Path string
	Res  SolverResult
	text string
}

type Exec struct {
	fns           []*ssa.Function
	prog          *ssa.Program
	cs            *Contracts
	cur           *Contract // contract under verification
	trial         int       // >0: obligations are not recorded
	vcs           []*VC
	entry         *State // state at entry (after requires), for old()
	params        map[string]Val
	steps         int
	paths         int
	used          map[string]bool // trusted specs relied upon
	funcs         map[string]bool // repo functions executed (inlined or verified)
	errs          []string
	isInit        bool
	loopSeen      map[string]int
	covers        []*VC
	loopStack     []*loopInfo
	snapKinds     map[string]bool // event kinds whose pre-states are kept
	usedContracts map[*Contract]bool
	maxRec        int
	loopNotes     []string
	allocT        map[*Term]types.Type // of the objects of monitored types
	pubDefer      bool                 // what is published now is still protected by a held lock
}

type unsupported struct{ msg string }

func (ex *Exec) fail(format string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(format, a...)})
}

var debugExec = os.Getenv("GOVC_DEBUG") != ""

func (ex *Exec) oblige(st *State, name, kind string, goal *Term) {
	if goal == tTrue {
		if ex.trial == 0 {
			ex.vcs = append(ex.vcs, &VC{Name: name, Kind: kind, Goal: tTrue, Fn: ex.cur.Name, Path: st.path(), Res: SolverResult{Res: "unsat", Solver: "simplifier"}})
		}
		return
	}
	if ex.trial == 0 {
		ex.vcs = append(ex.vcs, &VC{Name: name, Kind: kind, Hyps: st.hyps[:len(st.hyps):len(st.hyps)], Goal: goal, Fn: ex.cur.Name, Path: st.path()})
	}
	st.assume(goal)
}

func (st *State) path() string { return strings.Join(st.trace, ";") }

func (ex *Exec) safety(st *State, what string, instr ssa.Instruction, goal *Term) {
	if goal == tTrue {
		return
	}
	if ex.cur.NoSafety || ex.isInit {
		st.assume(goal)
		return
	}
	fn := "?"
	if len(st.frames) > 0 {
		fn = shortFn(st.top().fn)
	}
	ex.oblige(st, "no-panic:"+what+":"+fn, "safety", goal)
}

func shortFn(f *ssa.Function) string {
	return strings.ReplaceAll(f.String(), "github.com/zenazn/goji/", "")
}

// ---- values ----

func (ex *Exec) val(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Function:
		return ex.funcVal(x, nil)
	case *ssa.Global:
		return Val{T: x.Type(), L: []*Term{ex.globalAddr(x)}}
	case *ssa.Builtin:
		return Val{T: x.Type()}
	}
	f := st.top()
	if r, ok := f.env[v]; ok {
		return r
	}
	ex.fail("no value for %s (%T) in %s", v.Name(), v, f.fn)
	return Val{}
}

func constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	ss := scalarSorts(t)
	switch ss[0] {
	case SBool:
		return Val{T: t, L: []*Term{Bool(constant.BoolVal(c.Value))}}
	case SStr:
		return Val{T: t, L: []*Term{StrLit(constant.StringVal(c.Value))}}
	case SInt:
		return Val{T: t, L: []*Term{IntS(constant.ToInt(c.Value).ExactString())}}
	}
	var w int
	if n, _ := fmt.Sscanf(ss[0], "(_ BitVec %d)", &w); n == 1 {
		u, _ := constant.Uint64Val(constant.ToInt(c.Value))
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok && i < 0 {
			u = uint64(i)
		}
		if w < 64 {
			u &= (1 << uint(w)) - 1
		}
		return Val{T: t, L: []*Term{BV(u, w)}}
	}
	return Val{T: t, L: []*Term{App("const:"+c.Value.ExactString(), ss[0])}}
}

var globalRefs = map[string]int{}

func globalName(g *ssa.Global) string {
	return strings.ReplaceAll(g.Pkg.Pkg.Path()+"."+g.Name(), "github.com/zenazn/goji/", "")
}
func globalTerm(name string, t types.Type) *Term {
	if isStruct(t) || isArray(t) {
		if _, ok := globalRefs[name]; !ok {
			globalRefs[name] = -100 - len(globalRefs)
		}
		return Int(int64(globalRefs[name]))
	}
	return App("gaddr:"+name, SInt)
}
func (ex *Exec) globalAddr(g *ssa.Global) *Term {
	return globalTerm(globalName(g), g.Type().(*types.Pointer).Elem())
}

func (ex *Exec) funcVal(fn *ssa.Function, caps []Val) Val {
	n := "clo:" + shortFn(fn)
	if _, ok := cloReg[n]; !ok {
		ci := &cloInfo{name: n, id: len(cloReg) + 1, fn: fn}
		for _, c := range caps {
			ci.caps = append(ci.caps, c.T)
		}
		cloReg[n] = ci
	}
	var ls []*Term
	for _, c := range caps {
		ls = append(ls, c.L...)
	}
	return Val{T: fn.Signature, L: []*Term{App(n, SFn, ls...)}}
}

// ---- main loop ----

// run explores from the states in work until stop holds (or the state has
// terminated) and returns the resulting states.
func (ex *Exec) run(work []*State, stop func(*State) bool) []*State {
	var out, parked []*State
	for len(work) > 0 || len(parked) > 0 {
		if len(work) == 0 {
			first, rest := earliest(parked)
			for _, s := range mergeStates(first) {
				s.join = false
				if atHeader(s) {
					work = append(work, ex.step(s)...)
				} else {
					work = append(work, s)
				}
			}
			parked = rest
			continue
		}
		st := work[len(work)-1]
		work = work[:len(work)-1]
		if st.status != Running || stop(st) {
			out = append(out, st)
			continue
		}
		if st.join || atHeader(st) {
			parked = append(parked, st)
			continue
		}
		ex.steps++
		if ex.steps > 400000 {
			ex.fail("too many steps")
		}
		if ex.steps&63 == 0 && time.Since(started) > exploreBudget {
			ex.fail("time budget of the exploration used up")
		}
		next := ex.step(st)
		for i := len(next) - 1; i >= 0; i-- {
			work = append(work, next[i])
		}
	}
	return out
}

// wall-clock budgets; a run that exceeds them leaves obligations undischarged.
var started = time.Now()

const (
	exploreBudget = 240 * time.Second
	firstBudget   = 200 * time.Second // first pass, once obligations are known to be hard
	solveBudget   = 480 * time.Second
)

func never(*State) bool { return false }

// step executes one instruction.
func (ex *Exec) step(st *State) []*State {
	f := st.top()
	if f.unwinding {
		return ex.unwind(st)
	}
	// loop header?
	if f.idx == 0 && !f.noHeader {
		if l := loopAt(f.fn, f.block); l != nil {
			return ex.loop(st, l)
		}
	}
	f.noHeader = false
	if f.idx >= len(f.block.Instrs) {
		ex.fail("fell off block %s of %s", f.block, f.fn)
	}
	return ex.instr(st, f, f.block.Instrs[f.idx])
}

func (ex *Exec) jump(st *State, f *Frame, to *ssa.BasicBlock) {
	// evaluate phis simultaneously
	var vals []Val
	var phis []*ssa.Phi
	pi := -1
	for i, p := range to.Preds {
		if p == f.block {
			pi = i
		}
	}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, ex.val(st, ph.Edges[pi]))
	}
	for i, ph := range phis {
		f.env[ph] = vals[i]
	}
	f.prev = f.block
	f.block = to
	f.idx = 0
	f.noHeader = false
	st.join = len(to.Preds) > 1
}

func one(st *State) []*State { return []*State{st} }

func (ex *Exec) setReg(f *Frame, v ssa.Value, x Val) { f.env[v] = x }

// feasible asks the solver whether the path condition can hold with c.
func (ex *Exec) feasible(st *State, cs ...*Term) []bool {
	res := make([]bool, len(cs))
	q := &Query{Name: "feasible", Hyps: st.hyps}
	var idx []int
	for i, c := range cs {
		if c == tTrue {
			res[i] = true
			continue
		}
		if c == tFalse || st.hset[Not(c)] {
			continue
		}
		if st.hset[c] {
			res[i] = true
			continue
		}
		q.Goals = append(q.Goals, Not(c))
		idx = append(idx, i)
	}
	if len(idx) == 0 {
		return res
	}
	if len(idx) == len(cs) && len(cs) == 2 && cs[1] == Not(cs[0]) && st.hset[tFalse] {
		return res
	}
	rs := solver.CheckMulti([]*Query{q})[0]
	for j, i := range idx {
		res[i] = j >= len(rs) || rs[j] != "unsat"
	}
	return res
}

// fork splits st on c; the branches are assumed and pruned.
func (ex *Exec) fork(st *State, c *Term) (yes, no *State) {
	if c == tTrue {
		return st, nil
	}
	if c == tFalse {
		return nil, st
	}
	fe := ex.feasible(st, c, Not(c))
	switch {
	case fe[0] && fe[1]:
		yes = st.clone()
		no = st
	case fe[0]:
		yes = st
	case fe[1]:
		no = st
	}
	if yes != nil {
		yes.assume(c)
		yes.conds = append(yes.conds, c)
	}
	if no != nil {
		no.assume(Not(c))
		no.conds = append(no.conds, Not(c))
	}
	return
}

func (ex *Exec) instr(st *State, f *Frame, in ssa.Instruction) []*State {
	if debugExec {
		fmt.Fprintf(os.Stderr, "%*s%s b%d: %v\n", len(st.frames)*2, "", shortFn(f.fn), f.block.Index, in)
	}
	next := func() []*State { f.idx++; return one(st) }
	set := func(v ssa.Value, x Val) []*State {
		if x.T == nil || x.Tup == nil {
			x.T = v.Type()
		}
		f.env[v] = x
		f.idx++
		return one(st)
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		return next()
	case *ssa.Phi:
		return next() // done in jump
	case *ssa.Alloc:
		et := x.Type().(*types.Pointer).Elem()
		r := st.alloc()
		st.store(r, zeroVal(et))
		if isStruct(et) && len(ex.cs.monitors) > 0 {
			if ex.allocT == nil {
				ex.allocT = map[*Term]types.Type{}
			}
			ex.allocT[r] = et
		}
		return set(x, Val{T: x.Type(), L: []*Term{r}})
	case *ssa.Jump:
		ex.jump(st, f, f.block.Succs[0])
		return one(st)
	case *ssa.If:
		c := ex.val(st, x.Cond).L[0]
		yes, no := ex.fork(st, c)
		var out []*State
		if yes != nil {
			g := yes.top()
			if yes != nil && no != nil {
				yes.trace = append(yes.trace, ex.lineOf(x, "T"))
			}
			ex.jump(yes, g, g.block.Succs[0])
			out = append(out, yes)
		}
		if no != nil {
			g := no.top()
			if yes != nil {
				no.trace = append(no.trace, ex.lineOf(x, "F"))
			}
			ex.jump(no, g, g.block.Succs[1])
			out = append(out, no)
		}
		return out
	case *ssa.Return:
		var rs []Val
		for _, r := range x.Results {
			rs = append(rs, ex.val(st, r))
		}
		return ex.ret(st, rs)
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			return next()
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		return ex.callDeferred(st, d)
	case *ssa.Defer:
		d := deferred{call: &x.Call, instr: x}
		d.fn, d.args = ex.callParts(st, &x.Call)
		f.defers = append(f.defers, d)
		return next()
	case *ssa.Go:
		return ex.goStmt(st, f, x)
	case *ssa.Panic:
		v := ex.val(st, x.X)
		if !ex.cur.Panics && !ex.cur.AllowPanic {
			ex.oblige(st, "no-panic:explicit:"+shortFn(f.fn), "safety", tFalse)
			return nil
		}
		return ex.raise(st, v.L[0])
	case *ssa.Call:
		fn, args := ex.callParts(st, &x.Call)
		return ex.call(st, &x.Call, fn, args, x, x)
	case *ssa.Store:
		return ex.storeInstr(st, f, x)
	case *ssa.UnOp:
		return ex.unop(st, f, x, set)
	case *ssa.BinOp:
		return set(x, ex.binop(st, x))
	case *ssa.FieldAddr:
		p := ex.val(st, x.X)
		ex.safety(st, "nil-deref", x, Not(Eq(p.L[0], Int(0))))
		stT := x.X.Type().Underlying().(*types.Pointer).Elem()
		return set(x, Val{L: []*Term{fldTerm(stT, x.Field, -1, p.L[0])}})
	case *ssa.Field:
		v := ex.val(st, x.X)
		s := x.X.Type().Underlying().(*types.Struct)
		a, b := fieldRange(s, x.Field)
		return set(x, Val{L: v.L[a:b]})
	case *ssa.IndexAddr:
		return ex.indexAddr(st, f, x, set)
	case *ssa.Index:
		v := ex.val(st, x.X)
		i := ex.val(st, x.Index).L[0]
		switch u := x.X.Type().Underlying().(type) {
		case *types.Array:
			n := int(u.Len())
			ex.safety(st, "index", x, And(Le(Int(0), i), Lt(i, Int(int64(n)))))
			m := len(leavesOf(u.Elem()))
			r := Val{}
			for j := 0; j < m; j++ {
				t := v.L[(n-1)*m+j]
				for k := n - 2; k >= 0; k-- {
					t = Ite(Eq(i, Int(int64(k))), v.L[k*m+j], t)
				}
				r.L = append(r.L, t)
			}
			return set(x, r)
		default: // string
			ex.safety(st, "index", x, And(Le(Int(0), i), Lt(i, SLen(v.L[0]))))
			c := SAt(v.L[0], i)
			st.assume(Le(Int(0), c), Lt(c, Int(256)))
			return set(x, Val{L: []*Term{c}})
		}
	case *ssa.Lookup:
		m := ex.val(st, x.X)
		k := ex.val(st, x.Index).L[0]
		if _, ok := x.X.Type().Underlying().(*types.Basic); ok {
			ex.safety(st, "index", x, And(Le(Int(0), k), Lt(k, SLen(m.L[0]))))
			c := SAt(m.L[0], k)
			st.assume(Le(Int(0), c), Lt(c, Int(256)))
			return set(x, Val{L: []*Term{c}})
		}
		ex.mapAccess(st, m, x, false)
		has := st.mapHas(m, k)
		v := st.mapLookup(m, k)
		z := zeroVal(v.T)
		r := Val{T: v.T}
		for j := range v.L {
			r.L = append(r.L, Ite(has, v.L[j], z.L[j]))
		}
		if x.CommaOk {
			r.T = v.T
			f.env[x] = Val{T: x.Type(), Tup: []Val{r, {T: types.Typ[types.Bool], L: []*Term{has}}}}
			return next()
		}
		return set(x, r)
	case *ssa.MapUpdate:
		m := ex.val(st, x.Map)
		ex.safety(st, "nil-map-write", x, Not(Eq(m.L[0], Int(0))))
		ex.mapAccess(st, m, x, true)
		k, v := ex.val(st, x.Key), ex.val(st, x.Value)
		ex.pubDefer = ex.cs.mapProtected(x.Map.Type()) != nil
		ex.publish(st, m.L[0], k)
		ex.publish(st, m.L[0], v)
		ex.pubDefer = false
		st.mapUpdate(m, k.L[0], v)
		return next()
	case *ssa.MakeMap:
		return set(x, st.newMap(x.Type()))
	case *ssa.MakeChan:
		r := st.alloc()
		ex.event(st, "chan.make", []Val{{T: x.Type(), L: []*Term{r}}, ex.val(st, x.Size)}, nil)
		return set(x, Val{L: []*Term{r}})
	case *ssa.MakeSlice:
		n := ex.val(st, x.Len).L[0]
		c := ex.val(st, x.Cap).L[0]
		ex.safety(st, "make-slice", x, And(Le(Int(0), n), Le(n, c)))
		return set(x, ex.makeSlice(st, x.Type(), n, c))
	case *ssa.MakeInterface:
		v := ex.val(st, x.X)
		v.T = x.X.Type()
		b := boxTerm(v)
		return set(x, Val{L: []*Term{b}})
	case *ssa.MakeClosure:
		var caps []Val
		for _, b := range x.Bindings {
			caps = append(caps, ex.val(st, b))
		}
		return set(x, ex.funcVal(x.Fn.(*ssa.Function), caps))
	case *ssa.ChangeInterface:
		return set(x, Val{L: ex.val(st, x.X).L})
	case *ssa.ChangeType:
		v := ex.val(st, x.X)
		v.T = x.Type()
		return set(x, v)
	case *ssa.Convert:
		return set(x, ex.convert(st, x))
	case *ssa.Extract:
		t := ex.val(st, x.Tuple)
		return set(x, t.Tup[x.Index])
	case *ssa.TypeAssert:
		return ex.typeAssert(st, f, x)
	case *ssa.Slice:
		return ex.sliceInstr(st, f, x, set)
	case *ssa.Range:
		return ex.rangeInstr(st, f, x)
	case *ssa.Next:
		return ex.nextInstr(st, f, x)
	case *ssa.Send:
		ch, v := ex.val(st, x.Chan), ex.val(st, x.X)
		ex.event(st, "chan.send", []Val{ch, v}, nil)
		return next()
	}
	ex.fail("unsupported instruction %T %s in %s", in, in, f.fn)
	return nil
}

func (ex *Exec) lineOf(in ssa.Instruction, suf string) string {
	p := in.Pos()
	if !p.IsValid() {
		if x, ok := in.(*ssa.If); ok {
			p = x.Cond.Pos()
		}
	}
	if !p.IsValid() {
		return fmt.Sprintf("%s.b%d%s", in.Parent().Name(), in.Block().Index, suf)
	}
	ps := ex.prog.Fset.Position(p)
	fn := ps.Filename
	if i := strings.LastIndexByte(fn, '/'); i >= 0 {
		fn = fn[i+1:]
	}
	return fmt.Sprintf("%s:%d%s", fn, ps.Line, suf)
}

func (ex *Exec) makeSlice(st *State, t types.Type, n, c *Term) Val {
	et := t.Underlying().(*types.Slice).Elem()
	arr := st.alloc()
	// zeroed contents: every element of the fresh array reads as zero
	ex.zeroRun(st, arr, et)
	return Val{T: t, L: []*Term{arr, Int(0), n, c}}
}

// zeroRun assumes that the elements of a fresh array are zero. Sound because
// nothing can have been written at a fresh reference.
func (ex *Exec) zeroRun(st *State, arr *Term, et types.Type) {
	i := FreshVar("z", SInt)
	e := Elem(arr, i)
	for _, kl := range ex.elemKeys(et) {
		h := st.get(kl.key, SArr(kl.sort))
		rd := Select(h, kl.at(e))
		st.assume(Forall([]*Term{i}, [][]*Term{{rd}}, Eq(rd, zeroLeaf(kl.sort))))
	}
}

type keyLeaf struct {
	key  string
	sort string
	path []string // nested fld names applied to the element reference
}

func (k keyLeaf) at(e *Term) *Term {
	for _, p := range k.path {
		e = App(p, SInt, e)
	}
	return e
}

// elemKeys enumerates the heap components holding a value of type t stored at
// a reference.
func (ex *Exec) elemKeys(t types.Type) []keyLeaf {
	var out []keyLeaf
	switch u := t.Underlying().(type) {
	case *types.Struct:
		key := structKey(t)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			switch {
			case isStruct(ft):
				fl := fldTerm2(u, key, i, Int(0)).Name
				for _, k := range ex.elemKeys(ft) {
					k.path = append([]string{fl}, k.path...)
					out = append(out, k)
				}
			case isArray(ft):
				e, n, ok := flatArray(ft)
				if ok {
					for k := 0; k < n; k++ {
						out = append(out, keyLeaf{fmt.Sprintf("f:%s.%s@%d#0", key, u.Field(i).Name(), k), scalarSorts(e)[0], nil})
					}
				}
			default:
				for j, s := range scalarSorts(ft) {
					out = append(out, keyLeaf{fmt.Sprintf("f:%s.%s#%d", key, u.Field(i).Name(), j), s, nil})
				}
			}
		}
	case *types.Array:
	default:
		for j, s := range scalarSorts(t) {
			out = append(out, keyLeaf{cellKey(t, j), s, nil})
		}
	}
	return out
}

func (ex *Exec) storeInstr(st *State, f *Frame, x *ssa.Store) []*State {
	p, v := ex.val(st, x.Addr), ex.val(st, x.Val)
	v.T = x.Val.Type()
	if p.Addr != nil {
		d := p.Addr
		for k, key := range d.keys {
			h := st.get(key, SArr(d.sort))
			st.set(key, Store(h, d.ref, Ite(Eq(d.idx, Int(int64(k))), v.L[0], Select(h, d.ref))))
		}
		f.idx++
		return one(st)
	}
	ex.safety(st, "nil-deref", x, notNilAddr(p.L[0]))
	ex.lockCheck(st, p.L[0], x)
	ex.pubDefer = ex.cs.protectedBy(p.L[0]) != nil
	ex.publish(st, p.L[0], v)
	ex.pubDefer = false
	st.store(p.L[0], v)
	f.idx++
	return one(st)
}
func notNilAddr(p *Term) *Term {
	if isFld(p) || isElem(p) || strings.HasPrefix(p.Name, "gaddr:") {
		return tTrue
	}
	return Not(Eq(p, Int(0)))
}

func (ex *Exec) unop(st *State, f *Frame, x *ssa.UnOp, set func(ssa.Value, Val) []*State) []*State {
	switch x.Op {
	case token.MUL:
		p := ex.val(st, x.X)
		if p.Addr != nil {
			d := p.Addr
			n := len(d.keys)
			t := Select(st.get(d.keys[n-1], SArr(d.sort)), d.ref)
			for k := n - 2; k >= 0; k-- {
				t = Ite(Eq(d.idx, Int(int64(k))), Select(st.get(d.keys[k], SArr(d.sort)), d.ref), t)
			}
			return set(x, Val{L: []*Term{t}})
		}
		ex.safety(st, "nil-deref", x, notNilAddr(p.L[0]))
		ex.lockCheck(st, p.L[0], x)
		if c, ok := ex.cs.constGlobal(x.X); ok {
			return set(x, c)
		}
		return set(x, st.load(p.L[0], x.Type()))
	case token.NOT:
		return set(x, Val{L: []*Term{Not(ex.val(st, x.X).L[0])}})
	case token.SUB:
		return set(x, Val{L: []*Term{Sub(Int(0), ex.val(st, x.X).L[0])}})
	case token.ARROW:
		ch := ex.val(st, x.X)
		et := x.X.Type().Underlying().(*types.Chan).Elem()
		v := st.freshVal("recv", et)
		ex.event(st, "chan.recv", []Val{ch}, []Val{v})
		if x.CommaOk {
			f.env[x] = Val{T: x.Type(), Tup: []Val{v, {T: types.Typ[types.Bool], L: []*Term{Fresh("ok", SBool)}}}}
			f.idx++
			return one(st)
		}
		return set(x, v)
	case token.XOR:
		v := ex.val(st, x.X)
		if strings.HasPrefix(v.L[0].Sort, "(_ Bit") {
			return set(x, Val{L: []*Term{mk("bvnot", "", v.L[0].Sort, v.L[0])}})
		}
		return set(x, Val{L: []*Term{App("bnot", SInt, v.L[0])}})
	}
	ex.fail("unop %s", x)
	return nil
}

func isBV(t *Term) bool { return strings.HasPrefix(t.Sort, "(_ Bit") }

func (ex *Exec) binop(st *State, x *ssa.BinOp) Val {
	a, b := ex.val(st, x.X), ex.val(st, x.Y)
	switch x.Op {
	case token.EQL:
		return Val{L: []*Term{ex.eqVal(a, b)}}
	case token.NEQ:
		return Val{L: []*Term{Not(ex.eqVal(a, b))}}
	}
	p, q := a.L[0], b.L[0]
	if p.Sort == SStr {
		switch x.Op {
		case token.ADD:
			return Val{L: []*Term{SCat(p, q)}}
		case token.LSS:
			return Val{L: []*Term{App("slt", SBool, p, q)}}
		case token.GTR:
			return Val{L: []*Term{App("slt", SBool, q, p)}}
		case token.LEQ:
			return Val{L: []*Term{Not(App("slt", SBool, q, p))}}
		case token.GEQ:
			return Val{L: []*Term{Not(App("slt", SBool, p, q))}}
		}
	}
	if isBV(p) {
		ops := map[token.Token]string{token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor", token.SHL: "bvshl", token.SHR: "bvlshr", token.ADD: "bvadd", token.SUB: "bvsub"}
		if o, ok := ops[x.Op]; ok {
			return Val{L: []*Term{bvop(o, p, q)}}
		}
		if x.Op == token.AND_NOT {
			return Val{L: []*Term{bvop("bvand", p, mk("bvnot", "", q.Sort, q))}}
		}
		cm := map[token.Token]string{token.LSS: "bvult", token.LEQ: "bvule", token.GTR: "bvugt", token.GEQ: "bvuge"}
		if o, ok := cm[x.Op]; ok {
			return Val{L: []*Term{mk(o, "", SBool, p, q)}}
		}
	}
	if p.Sort == SInt {
		switch x.Op {
		case token.ADD:
			return Val{L: []*Term{Add(p, q)}}
		case token.SUB:
			return Val{L: []*Term{Sub(p, q)}}
		case token.MUL:
			return Val{L: []*Term{Mul(p, q)}}
		case token.QUO:
			ex.safety(st, "div-by-zero", x, Not(Eq(q, Int(0))))
			return Val{L: []*Term{mk("div", "", SInt, p, q)}} // only for non-negative operands
		case token.REM:
			ex.safety(st, "div-by-zero", x, Not(Eq(q, Int(0))))
			return Val{L: []*Term{mk("mod", "", SInt, p, q)}}
		case token.LSS:
			return Val{L: []*Term{Lt(p, q)}}
		case token.LEQ:
			return Val{L: []*Term{Le(p, q)}}
		case token.GTR:
			return Val{L: []*Term{Lt(q, p)}}
		case token.GEQ:
			return Val{L: []*Term{Le(q, p)}}
		}
		return Val{L: []*Term{App("iop:"+x.Op.String(), SInt, p, q)}}
	}
	srt := scalarSorts(x.Type())[0]
	return Val{L: []*Term{App("op:"+x.Op.String(), srt, p, q)}}
}
func bvop(o string, p, q *Term) *Term {
	var w int
	fmt.Sscanf(p.Sort, "(_ BitVec %d)", &w)
	if p.Op == "#b" && q.Op == "#b" {
		var a, b uint64
		fmt.Sscan(p.Name, &a)
		fmt.Sscan(q.Name, &b)
		mask := ^uint64(0)
		if w < 64 {
			mask = 1<<uint(w) - 1
		}
		switch o {
		case "bvand":
			return BV(a&b, w)
		case "bvor":
			return BV((a|b)&mask, w)
		case "bvxor":
			return BV((a^b)&mask, w)
		}
	}
	return mk(o, "", p.Sort, p, q)
}

func (ex *Exec) eqVal(a, b Val) *Term {
	if len(a.L) != len(b.L) {
		// interface vs concrete comparison is made explicit by ssa; slices
		// and funcs are only compared to nil
		ex.fail("eq of different shapes %v %v", a.T, b.T)
	}
	if a.T != nil {
		if _, ok := a.T.Underlying().(*types.Slice); ok {
			return Eq(a.L[0], b.L[0]) // comparison with nil
		}
	}
	var cs []*Term
	for i := range a.L {
		cs = append(cs, Eq(a.L[i], b.L[i]))
	}
	return And(cs...)
}

func (ex *Exec) convert(st *State, x *ssa.Convert) Val {
	v := ex.val(st, x.X)
	from, to := x.X.Type(), x.Type()
	fs, ts := scalarSorts(from), scalarSorts(to)
	if isUnsafe(from) || isUnsafe(to) {
		return Val{T: to, L: v.L}
	}
	if len(fs) == 1 && len(ts) == 1 {
		if fs[0] == ts[0] {
			if fs[0] == SInt {
				fb, ok1 := from.Underlying().(*types.Basic)
				tb, ok2 := to.Underlying().(*types.Basic)
				if ok1 && ok2 {
					return Val{L: []*Term{intConv(st, v.L[0], fb, tb)}}
				}
			}
			return Val{L: v.L}
		}
		if isBV(v.L[0]) && ts[0] == SInt {
			t := v.L[0]
			if t.Op == "#b" {
				return Val{L: []*Term{IntS(t.Name)}}
			}
			// masked by a small constant: enumerate
			if t.Op == "bvand" && len(t.Args) == 2 {
				for k := 0; k < 2; k++ {
					if m := t.Args[k]; m.Op == "#b" {
						var mv uint64
						fmt.Sscan(m.Name, &mv)
						if mv <= 15 {
							r := Int(0)
							var w int
							fmt.Sscanf(t.Sort, "(_ BitVec %d)", &w)
							for n := uint64(1); n <= mv; n++ {
								if n&mv == n {
									r = Ite(Eq(t, BV(n, w)), Int(int64(n)), r)
								}
							}
							return Val{L: []*Term{r}}
						}
					}
				}
			}
			r := App("bv2i:"+t.Sort, SInt, t)
			st.assume(Le(Int(0), r))
			return Val{L: []*Term{r}}
		}
		if v.L[0].Sort == SInt && strings.HasPrefix(ts[0], "(_ Bit") {
			var w int
			fmt.Sscanf(ts[0], "(_ BitVec %d)", &w)
			if v.L[0].isInt() {
				return Val{L: []*Term{BV(uint64(v.L[0].intVal()), w)}}
			}
			// small non-negative values: enumerate, otherwise uninterpreted
			r := App("i2bv:"+ts[0], ts[0], v.L[0])
			for n := int64(15); n >= 0; n-- {
				r = Ite(Eq(v.L[0], Int(n)), BV(uint64(n), w), r)
			}
			return Val{L: []*Term{r}}
		}
		if fs[0] == SInt && ts[0] == SStr {
			return Val{L: []*Term{App("runestr", SStr, v.L[0])}}
		}
		return Val{L: []*Term{App("conv:"+typeKey(from)+":"+typeKey(to), ts[0], v.L[0])}}
	}
	if fs[0] == SStr && len(ts) == 4 { // []byte(s)
		r := ex.makeSlice2(st, to, SLen(v.L[0]))
		i := FreshVar("j", SInt)
		et := to.Underlying().(*types.Slice).Elem()
		h := st.get(cellKey(et, 0), SArr(SInt))
		rd := Select(h, Elem(r.L[0], i))
		st.assume(Forall([]*Term{i}, [][]*Term{{rd}}, Imp(And(Le(Int(0), i), Lt(i, SLen(v.L[0]))), Eq(rd, SAt(v.L[0], i)))))
		return r
	}
	if len(fs) == 4 && ts[0] == SStr { // string(b)
		et := from.Underlying().(*types.Slice).Elem()
		s := Fresh("strconv", SStr)
		i := FreshVar("j", SInt)
		h := st.get(cellKey(et, 0), SArr(SInt))
		rd := Select(h, Elem(v.L[0], Add(v.L[1], i)))
		st.assume(Eq(SLen(s), v.L[2]), Forall([]*Term{i}, [][]*Term{{SAt(s, i)}}, Imp(And(Le(Int(0), i), Lt(i, v.L[2])), Eq(rd, SAt(s, i)))))
		return Val{L: []*Term{s}}
	}
	ex.fail("convert %s -> %s", from, to)
	return Val{}
}
func isUnsafe(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

// makeSlice2 is a fresh slice whose contents are unknown.
func (ex *Exec) makeSlice2(st *State, t types.Type, n *Term) Val {
	arr := st.alloc()
	c := Fresh("cap", SInt)
	st.assume(Le(n, c))
	return Val{T: t, L: []*Term{arr, Int(0), n, c}}
}

// intConv: conversions between integer types. Machine arithmetic is treated
// as mathematical except for narrowing and sign changes, which are kept.
func intConv(st *State, t *Term, from, to *types.Basic) *Term {
	lo, hi, ok := intRange(to)
	if !ok {
		return t
	}
	flo, fhi, fok := intRange(from)
	_ = flo
	if fok && cmpDec(lo, flo) <= 0 && cmpDec(fhi, hi) <= 0 {
		return t
	}
	if t.isInt() && cmpDec(lo, t.Name) <= 0 && cmpDec(t.Name, hi) <= 0 {
		return t
	}
	if to.Kind() == types.Uintptr || to.Kind() == types.Uint64 || to.Kind() == types.Uint || to.Kind() == types.Int || to.Kind() == types.Int64 {
		// 64-bit: value-preserving when in range, unknown otherwise
		r := App("conv:"+to.Name(), SInt, t)
		st.assume(Le(IntS(lo), r), Le(r, IntS(hi)), Imp(And(Le(IntS(lo), t), Le(t, IntS(hi))), Eq(r, t)))
		return r
	}
	r := App("conv:"+to.Name(), SInt, t)
	st.assume(Le(IntS(lo), r), Le(r, IntS(hi)), Imp(And(Le(IntS(lo), t), Le(t, IntS(hi))), Eq(r, t)))
	return r
}
func cmpDec(a, b string) int {
	na, nb := strings.HasPrefix(a, "-"), strings.HasPrefix(b, "-")
	if na != nb {
		if na {
			return -1
		}
		return 1
	}
	x, y := strings.TrimPrefix(a, "-"), strings.TrimPrefix(b, "-")
	r := 0
	if len(x) != len(y) {
		if len(x) < len(y) {
			r = -1
		} else {
			r = 1
		}
	} else {
		r = strings.Compare(x, y)
	}
	if na {
		return -r
	}
	return r
}
func intRange(b *types.Basic) (string, string, bool) {
	switch b.Kind() {
	case types.Int8:
		return "-128", "127", true
	case types.Int16:
		return "-32768", "32767", true
	case types.Int32:
		return "-2147483648", "2147483647", true
	case types.Int64, types.Int:
		return "-9223372036854775808", "9223372036854775807", true
	case types.Uint8:
		return "0", "255", true
	case types.Uint16:
		return "0", "65535", true
	case types.Uint32:
		return "0", "4294967295", true
	case types.Uint64, types.Uint, types.Uintptr:
		return "0", "18446744073709551615", true
	}
	return "", "", false
}

func (ex *Exec) indexAddr(st *State, f *Frame, x *ssa.IndexAddr, set func(ssa.Value, Val) []*State) []*State {
	v := ex.val(st, x.X)
	i := ex.val(st, x.Index).L[0]
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		if v.PS != nil {
			ex.safety(st, "index", x, And(Le(Int(0), i), Lt(i, Sub(v.PS.hi, v.PS.lo))))
			return set(x, Val{L: []*Term{Int(0)}, Addr: &DynAddr{v.PS.keys, v.PS.ref, Add(v.PS.lo, i), scalarSorts(u.Elem())[0]}})
		}
		ex.safety(st, "index", x, And(Le(Int(0), i), Lt(i, v.L[2])))
		return set(x, Val{L: []*Term{Elem(v.L[0], Add(v.L[1], i))}})
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		ex.safety(st, "index", x, And(Le(Int(0), i), Lt(i, Int(a.Len()))))
		p := v.L[0]
		if isFld(p) {
			fi := fldReg[p.Name]
			if _, n, ok := flatArray(u.Elem()); ok {
				var keys []string
				for k := 0; k < n; k++ {
					keys = append(keys, fmt.Sprintf("f:%s.%s@%d#0", fi.key, fi.name, k))
				}
				return set(x, Val{L: []*Term{Int(0)}, Addr: &DynAddr{keys, p.Args[0], i, scalarSorts(a.Elem())[0]}})
			}
		}
		return set(x, Val{L: []*Term{Elem(p, i)}})
	}
	ex.fail("indexAddr %s", x)
	return nil
}

func (ex *Exec) sliceInstr(st *State, f *Frame, x *ssa.Slice, set func(ssa.Value, Val) []*State) []*State {
	v := ex.val(st, x.X)
	var lo, hi, mx *Term
	lo = Int(0)
	if x.Low != nil {
		lo = ex.val(st, x.Low).L[0]
	}
	if x.High != nil {
		hi = ex.val(st, x.High).L[0]
	}
	if x.Max != nil {
		mx = ex.val(st, x.Max).L[0]
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Basic:
		n := SLen(v.L[0])
		if hi == nil {
			hi = n
		}
		st.assume(Le(Int(0), n))
		ex.safety(st, "slice", x, And(Le(Int(0), lo), Le(lo, hi), Le(hi, n)))
		return set(x, Val{L: []*Term{SSub(v.L[0], lo, hi)}})
	case *types.Slice:
		if v.PS != nil {
			n := Sub(v.PS.hi, v.PS.lo)
			if hi == nil {
				hi = n
			}
			ex.safety(st, "slice", x, And(Le(Int(0), lo), Le(lo, hi), Le(hi, n)))
			return set(x, Val{PS: &Pseudo{v.PS.keys, v.PS.ref, Add(v.PS.lo, lo), Add(v.PS.lo, hi), v.PS.elem}})
		}
		if hi == nil {
			hi = v.L[2]
		}
		c := v.L[3]
		if mx == nil {
			mx = c
		}
		ex.safety(st, "slice", x, And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, c)))
		return set(x, Val{L: []*Term{v.L[0], Add(v.L[1], lo), Sub(hi, lo), Sub(mx, lo)}})
	case *types.Pointer: // *[n]T
		a := u.Elem().Underlying().(*types.Array)
		n := Int(a.Len())
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		ex.safety(st, "slice", x, And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, n)))
		p := v.L[0]
		if isFld(p) {
			if _, cnt, ok := flatArray(u.Elem()); ok {
				fi := fldReg[p.Name]
				var keys []string
				for k := 0; k < cnt; k++ {
					keys = append(keys, fmt.Sprintf("f:%s.%s@%d#0", fi.key, fi.name, k))
				}
				return set(x, Val{PS: &Pseudo{keys, p.Args[0], lo, hi, a.Elem()}, L: []*Term{Int(1), lo, Sub(hi, lo), Sub(mx, lo)}})
			}
		}
		return set(x, Val{L: []*Term{p, lo, Sub(hi, lo), Sub(mx, lo)}})
	}
	ex.fail("slice %s", x)
	return nil
}

func (ex *Exec) typeAssert(st *State, f *Frame, x *ssa.TypeAssert) []*State {
	v := ex.val(st, x.X).L[0]
	var ok *Term
	var res Val
	if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		ok = And(Not(Eq(v, nilAny)), implPred(x.AssertedType, typOf(v)))
		res = Val{T: x.AssertedType, L: []*Term{v}}
		// statically implemented?
		if types.Implements(x.X.Type(), x.AssertedType.Underlying().(*types.Interface)) {
			ok = Not(Eq(v, nilAny))
		}
	} else {
		tag := typeTag(x.AssertedType)
		regBox(x.AssertedType)
		ok = Eq(typOf(v), tag)
		res = unbox(v, x.AssertedType)
		if v == nilAny {
			ok = tFalse
		}
	}
	if x.CommaOk {
		z := zeroVal(x.AssertedType)
		r := Val{T: x.AssertedType}
		for i := range res.L {
			r.L = append(r.L, Ite(ok, res.L[i], z.L[i]))
		}
		// the unboxed value satisfies its type's facts when the assertion holds
		sub := &State{heap: map[string]*Term{}, hset: map[*Term]bool{}, ctr: st.ctr}
		sub.typeFacts(res)
		for _, h := range sub.hyps {
			st.assume(Imp(ok, h))
		}
		f.env[x] = Val{T: x.Type(), Tup: []Val{r, {T: types.Typ[types.Bool], L: []*Term{ok}}}}
		f.idx++
		return one(st)
	}
	if ex.cur.Panics {
		// fall through to the obligation as well: a failed assertion is a run-time error
	}
	ex.safety(st, "type-assertion", x, ok)
	st.typeFacts(res)
	f.env[x] = res
	f.idx++
	return one(st)
}

func (ex *Exec) rangeInstr(st *State, f *Frame, x *ssa.Range) []*State {
	m := ex.val(st, x.X)
	if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
		f.env[x] = Val{T: x.Type(), Iter: &Iter{m: m, isStr: true}}
		ex.fail("range over string in %s", f.fn)
	}
	m.T = x.X.Type()
	ex.mapAccess(st, m, x, false)
	id := "it:" + shortFn(f.fn) + "." + x.Name() + fmt.Sprintf(".%d", len(st.frames))
	st.heap[id] = ConstArr(SArrK(mapKeySort(m.T), SBool), tFalse)
	keySorts[id] = SArrK(mapKeySort(m.T), SBool)
	it := &Iter{id: id, m: m}
	if cm, ok := constMaps[m.L[0]]; ok && cm.n <= 4 {
		// a literal: all orders are explored
		ok := true
		for d := cm.dom; d.Op == "store"; d = d.Args[0] {
			ok = ok && d.Args[2] == tTrue && d.Args[1].Op == "#s"
			it.rest = append(it.rest, d.Args[1])
		}
		if it.concrete = ok && len(it.rest) == cm.n; !it.concrete {
			it.rest = nil
		}
	}
	f.env[x] = Val{T: x.Type(), Iter: it}
	f.idx++
	return one(st)
}
func (ex *Exec) nextInstr(st *State, f *Frame, x *ssa.Next) []*State {
	it := ex.val(st, x.Iter).Iter
	ks := mapKeySort(it.m.T)
	ex.mapAccess(st, it.m, x, false)
	if it.concrete {
		mt := it.m.T.Underlying().(*types.Map)
		tup := x.Type().(*types.Tuple)
		var out []*State
		for i, k := range it.rest {
			s := st.clone()
			g := s.top()
			n := *it
			n.rest = append(append([]*Term{}, it.rest[:i]...), it.rest[i+1:]...)
			g.env[x.Iter] = Val{T: x.Iter.Type(), Iter: &n}
			kv := Val{T: mt.Key(), L: []*Term{k}}
			g.env[x] = Val{T: tup, Tup: []Val{{T: types.Typ[types.Bool], L: []*Term{tTrue}}, kv, s.mapLookup(it.m, k)}}
			g.idx++
			out = append(out, s)
		}
		if len(it.rest) == 0 {
			g := st.top()
			g.env[x] = Val{T: tup, Tup: []Val{{T: types.Typ[types.Bool], L: []*Term{tFalse}}, zeroVal(mt.Key()), zeroVal(mt.Elem())}}
			g.idx++
			out = append(out, st)
		}
		return out
	}
	vis := st.get(it.id, SArrK(ks, SBool))
	dom := st.mapDom(it.m)
	okv := Fresh("next", SBool)
	yes, no := ex.fork(st, okv)
	var out []*State
	mt := it.m.T.Underlying().(*types.Map)
	tup := x.Type().(*types.Tuple)
	if yes != nil {
		g := yes.top()
		k := yes.freshVal("key", mt.Key())
		yes.assume(Not(Eq(it.m.L[0], Int(0))), Select(dom, k.L[0]), Not(Select(vis, k.L[0])))
		// the key must exist: prune if the map is exhausted
		v := yes.mapLookup(it.m, k.L[0])
		yes.set(it.id, Store(vis, k.L[0], tTrue))
		g.env[x] = Val{T: tup, Tup: []Val{{T: types.Typ[types.Bool], L: []*Term{tTrue}}, k, v}}
		g.idx++
		out = append(out, yes)
	}
	if no != nil {
		g := no.top()
		kv := FreshVar("k", ks)
		no.assume(Or(Eq(it.m.L[0], Int(0)), Forall([]*Term{kv}, [][]*Term{{Select(dom, kv)}, {Select(vis, kv)}}, Imp(Select(dom, kv), Select(vis, kv)))))
		g.env[x] = Val{T: tup, Tup: []Val{{T: types.Typ[types.Bool], L: []*Term{tFalse}}, zeroVal(mt.Key()), zeroVal(mt.Elem())}}
		g.idx++
		out = append(out, no)
	}
	return out
}

// ---- returns, panics, defers ----

func (ex *Exec) ret(st *State, rs []Val) []*State {
	f := st.top()
	st.frames = st.frames[:len(st.frames)-1]
	if f.onRet != nil {
		f.onRet(st, rs)
	}
	if len(st.frames) == 0 {
		st.status = Returned
		st.ret = rs
		return one(st)
	}
	g := st.top()
	if f.isDefer {
		st.join = afterInit(st)
		return one(st) // g re-executes RunDefers, or continues unwinding
	}
	if f.callInstr != nil {
		g.env[f.callInstr] = packResults(f.callInstr.Type(), rs)
	}
	g.idx++
	st.join = len(f.fn.Blocks) > 1
	return one(st)
}
func packResults(t types.Type, rs []Val) Val {
	if tt, ok := t.(*types.Tuple); ok {
		v := Val{T: t, Tup: rs}
		if tt.Len() == 0 {
			v.Tup = []Val{}
		}
		return v
	}
	if len(rs) == 1 {
		r := rs[0]
		r.T = t
		return r
	}
	return Val{T: t}
}

// raise starts a panic in the top frame.
func (ex *Exec) raise(st *State, v *Term) []*State {
	f := st.top()
	f.panicking = v
	f.unwinding = true
	f.recovered = false
	return one(st)
}

func (ex *Exec) unwind(st *State) []*State {
	f := st.top()
	if len(f.defers) > 0 && f.panicking != nil || f.recovered && len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		return ex.callDeferred(st, d)
	}
	if f.recovered {
		f.unwinding = false
		f.panicking = nil
		if f.fn.Recover != nil {
			f.prev = nil
			f.block = f.fn.Recover
			f.idx = 0
			f.noHeader = true
			return one(st)
		}
		return ex.ret(st, zeroResults(f.fn.Signature))
	}
	v := f.panicking
	if f.async {
		st.status = Dead
		return one(st)
	}
	st.frames = st.frames[:len(st.frames)-1]
	if len(st.frames) == 0 {
		st.status = Panicked
		st.pval = v
		return one(st)
	}
	g := st.top()
	g.panicking = v
	g.unwinding = true
	g.recovered = false
	return one(st)
}
func zeroResults(s *types.Signature) []Val {
	var rs []Val
	for i := 0; i < s.Results().Len(); i++ {
		rs = append(rs, zeroVal(s.Results().At(i).Type()))
	}
	return rs
}

func (ex *Exec) callDeferred(st *State, d deferred) []*State {
	n := len(st.frames)
	out := ex.call(st, d.call, d.fn, d.args, nil, d.instr)
	for _, s := range out {
		if s.status != Running {
			continue
		}
		if len(s.frames) > n {
			s.frames[n].isDefer = true
			s.frames[n].callInstr = nil
		} else if len(s.frames) == n {
			// handled without a frame; ex.call advanced idx for callInstr==nil? no
		}
	}
	return out
}

// callParts evaluates callee and arguments.
func (ex *Exec) callParts(st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range c.Args {
		v := ex.val(st, a)
		if v.T == nil {
			v.T = a.Type()
		}
		args = append(args, v)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return Val{T: b.Type()}, args
	}
	fv := ex.val(st, c.Value)
	fv.T = c.Value.Type()
	return fv, args
}

// finish gives a call's results back to the caller without a frame.
func (ex *Exec) finish(st *State, reg ssa.Value, rs []Val) []*State {
	f := st.top()
	if reg != nil {
		f.env[reg] = packResults(reg.Type(), rs)
		f.idx++
	}
	// reg == nil: deferred call; RunDefers (or unwinding) is re-entered
	return one(st)
}

// ---- go statements ----

func (ex *Exec) goStmt(st *State, f *Frame, x *ssa.Go) []*State {
	fn, args := ex.callParts(st, &x.Call)
	f.idx++ // continue after the statement
	ex.event(st, "go", nil, nil)
	saved := st.clone()
	st.asyncD++
	// the goroutine runs at some later time, in an unknown shared state;
	// variables it shares with its creator and that the creator may still
	// assign are unknown too
	st.havocAll()
	if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
		for i, b := range mc.Bindings {
			if al, ok := b.(*ssa.Alloc); ok && storedAfter(al, x) {
				et := al.Type().(*types.Pointer).Elem()
				ref := ex.val(st, mc.Bindings[i]).L[0]
				st.store(ref, st.freshVal("racy", et))
			}
		}
	}
	n := len(st.frames)
	// a pseudo frame marks the caller: its idx is already past the go
	out := ex.call(st, &x.Call, fn, args, nil, x)
	restore := func(s *State) {
		keep := map[string]*Term{}
		for k, v := range s.heap {
			if strings.HasPrefix(k, "ev.") || k == "time" {
				keep[k] = v
			}
		}
		s.heap = map[string]*Term{}
		for k, v := range saved.heap {
			if !(strings.HasPrefix(k, "ev.") || k == "time") {
				s.heap[k] = v
			}
		}
		for k, v := range keep {
			s.heap[k] = v
		}
		s.epoch = saved.epoch
		s.locks = append([]Lock(nil), saved.locks...)
		s.asyncD--
	}
	for _, s := range out {
		if s.status != Running {
			continue
		}
		if len(s.frames) > n {
			s.frames[n].async = true
			s.frames[n].isDefer = true // result discarded, idx not advanced
			s.frames[n].callInstr = nil
			prev := s.frames[n].onRet
			s.frames[n].onRet = func(s *State, r []Val) {
				if prev != nil {
					prev(s, r)
				}
				restore(s)
			}
		} else {
			restore(s)
		}
	}
	return out
}

// storedAfter: may the variable be assigned after the go statement without
// being allocated anew?
func storedAfter(al *ssa.Alloc, g *ssa.Go) bool {
	// blocks reachable from g's position without re-executing the Alloc
	seen := map[*ssa.BasicBlock]bool{}
	var stores []*ssa.Store
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == al {
			stores = append(stores, s)
		}
	}
	hit := false
	scan := func(b *ssa.BasicBlock, from int) bool { // returns whether to continue to succs
		for i := from; i < len(b.Instrs); i++ {
			if b.Instrs[i] == ssa.Instruction(al) {
				return false
			}
			for _, s := range stores {
				if b.Instrs[i] == ssa.Instruction(s) {
					hit = true
				}
			}
		}
		return true
	}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		if scan(b, 0) {
			for _, s := range b.Succs {
				visit(s)
			}
		}
	}
	b := g.Block()
	pos := 0
	for i, in := range b.Instrs {
		if in == ssa.Instruction(g) {
			pos = i + 1
		}
	}
	if scan(b, pos) {
		for _, s := range b.Succs {
			visit(s)
		}
	}
	return hit
}

// ---- events ----

type kindInfo struct {
	args []types.Type
	res  []types.Type
	nArg []int // leaf offset of each argument
	nRes []int
}

var kinds = map[string]*kindInfo{}

func (ex *Exec) kindFor(k string, args, res []Val) *kindInfo {
	ki := &kindInfo{}
	o := 0
	for _, a := range args {
		ki.args = append(ki.args, a.T)
		ki.nArg = append(ki.nArg, o)
		o += len(a.L)
	}
	o = 0
	for _, r := range res {
		ki.res = append(ki.res, r.T)
		ki.nRes = append(ki.nRes, o)
		o += len(r.L)
	}
	if _, ok := kinds[k]; !ok {
		kinds[k] = ki
	}
	return kinds[k]
}

func evN(st *State, k string) *Term { return st.get("ev.n:"+k, SInt) }
func stTime(st *State) *Term        { return st.get("time", SInt) }

func (ex *Exec) event(st *State, k string, args, res []Val) {
	if st.nolog {
		return
	}
	if st.asyncD > 0 {
		k = "async:" + k
	}
	ex.kindFor(k, args, res)
	n := evN(st, k)
	if ex.snapKinds[k] {
		st.callAt = copyMap(st.callAt)
		if st.callAt == nil {
			st.callAt = map[string]*State{}
		}
		st.callAt[k] = st.clone()
	}
	o := 0
	for _, a := range args {
		for _, l := range a.L {
			key := fmt.Sprintf("ev.a:%s#%d", k, o)
			st.set(key, Store(st.get(key, SArr(l.Sort)), n, l))
			o++
		}
	}
	o = 0
	for _, a := range res {
		for _, l := range a.L {
			key := fmt.Sprintf("ev.r:%s#%d", k, o)
			st.set(key, Store(st.get(key, SArr(l.Sort)), n, l))
			o++
		}
	}
	tk := "ev.t:" + k
	tm := stTime(st)
	st.set(tk, Store(st.get(tk, SArr(SInt)), n, tm))
	st.set("time", AddK(tm, 1))
	st.set("ev.n:"+k, AddK(n, 1))
}

// setEventRes fills in the results of the last event (known after the call).
func (ex *Exec) setEventRes(st *State, k string, res []Val) {
	if st.nolog {
		return
	}
	if st.asyncD > 0 {
		k = "async:" + k
	}
	n := AddK(evN(st, k), -1)
	ki := kinds[k]
	if ki != nil && len(ki.res) == 0 {
		o := 0
		for _, r := range res {
			ki.res = append(ki.res, r.T)
			ki.nRes = append(ki.nRes, o)
			o += len(r.L)
		}
	}
	o := 0
	for _, a := range res {
		for _, l := range a.L {
			key := fmt.Sprintf("ev.r:%s#%d", k, o)
			st.set(key, Store(st.get(key, SArr(l.Sort)), n, l))
			o++
		}
	}
}

// ---- publication and locks ----

func (ex *Exec) publish(st *State, target *Term, v Val) {
	// objects reachable from unshared objects stay unshared
	if st.unshared(target) {
		// remember what becomes reachable once the target is published
		tr := rootOf(target)
		for _, x := range v.Tup {
			ex.publish(st, target, x)
		}
		for _, t := range v.L {
			st.edgesTo(tr, t, 0)
		}
		return
	}
	ex.publishVal(st, v)
}

type edge struct{ from, to *Term }

func (st *State) edgesTo(from, t *Term, d int) {
	if d > 4 {
		return
	}
	if t.Sort == SInt {
		if r := rootOf(t); ctrBase(r) != nil && r != from {
			for _, e := range st.edges {
				if e.from == from && e.to == r {
					return
				}
			}
			st.edges = append(st.edges[:len(st.edges):len(st.edges)], edge{from, r})
		}
	}
	if isBox(t) || isClo(t) || t.Op == "ite" {
		for _, a := range t.Args {
			st.edgesTo(from, a, d+1)
		}
	}
}
func (ex *Exec) publishVal(st *State, v Val) {
	for _, x := range v.Tup {
		ex.publishVal(st, x)
	}
	for _, t := range v.L {
		ex.publishTerm(st, t, 0)
	}
}
func (ex *Exec) publishTerm(st *State, t *Term, d int) {
	if d > 4 {
		return
	}
	if t.Sort == SInt {
		if r := rootOf(t); ctrBase(r) != nil {
			if p := App("published", SBool, r); !st.hset[p] {
				st.hset[p] = true
				if ex.pubDefer {
					st.pending = append(st.pending, r)
				} else {
					ex.published(st, r)
				}
				for _, e := range st.edges {
					if e.from == r {
						ex.publishTerm(st, e.to, 0)
					}
				}
			}
		}
	}
	if isBox(t) || isClo(t) || t.Op == "ite" {
		for _, a := range t.Args {
			ex.publishTerm(st, a, d+1)
		}
	}
}
func (st *State) unshared(ref *Term) bool {
	r := rootOf(ref)
	return ctrBase(r) != nil && st.freshHere(r) && !st.hset[App("published", SBool, r)]
}
func (st *State) freshHere(r *Term) bool { return true }

func (ex *Exec) lockCheck(st *State, p *Term, in ssa.Instruction) {
	if !isFld(p) && !strings.HasPrefix(p.Name, "gaddr:") {
		return
	}
	mon := ex.cs.protectedBy(p)
	if mon == nil || ex.isInit {
		return
	}
	ex.needLock(st, mon, p)
}
func (ex *Exec) needLock(st *State, mon *Monitor, p *Term) {
	ref := Int(0)
	if isFld(p) {
		ref = p.Args[0]
		if st.unshared(ref) {
			return
		}
	}
	var alts []*Term
	for _, l := range st.locks {
		if l.name == mon.Name {
			if mon.Global {
				return
			}
			alts = append(alts, Eq(l.ref, ref))
		}
	}
	if ex.cur.NoLocks {
		return
	}
	fn := shortFn(st.top().fn)
	what := p.Name
	ex.oblige(st, "lock-held:"+mon.Name+":"+what+":"+fn, "lock", Or(alts...))
}

func (ex *Exec) mapAccess(st *State, m Val, in ssa.Instruction, write bool) {
	if m.T == nil {
		return
	}
	mon := ex.cs.mapProtected(m.T)
	if mon == nil || ex.isInit || ex.cur.NoLocks {
		return
	}
	if st.unshared(m.L[0]) {
		return
	}
	var alts []*Term
	for _, l := range st.locks {
		if l.name == mon.Name {
			if mon.Global {
				return
			}
			var ms []*Term
			for _, k := range mon.mapFields {
				ms = append(ms, Eq(st.loadFieldInfo(l.ref, k).L[0], m.L[0]))
			}
			alts = append(alts, Or(ms...))
		}
	}
	fn := "?"
	if len(st.frames) > 0 {
		fn = shortFn(st.top().fn)
	}
	ex.oblige(st, "lock-held:"+mon.Name+":map:"+fn, "lock", Or(alts...))
}

func sortVCs(v []*VC) { sort.SliceStable(v, func(i, j int) bool { return v[i].Name < v[j].Name }) }
