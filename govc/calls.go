package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"net/http"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// call executes a call. reg is the register receiving the result (nil for
// deferred calls and go statements, whose instruction is not advanced here).
func (ex *Exec) call(st *State, c *ssa.CallCommon, fn Val, args []Val, reg ssa.Value, in ssa.Instruction) []*State {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return ex.builtin(st, b.Name(), c, args, reg, in)
	}
	if c.IsInvoke() {
		return ex.invoke(st, fn, c.Method, args, reg, in)
	}
	return ex.callValue(st, fn, args, reg, in)
}

// sigOf is the signature of a function value.
func sigOf(t types.Type) *types.Signature { return t.Underlying().(*types.Signature) }

func tupleVals(t *types.Tuple, f func(types.Type) Val) []Val {
	var out []Val
	for i := 0; i < t.Len(); i++ {
		out = append(out, f(t.At(i).Type()))
	}
	return out
}

// callValue calls a function value.
func (ex *Exec) callValue(st *State, fn Val, args []Val, reg ssa.Value, in ssa.Instruction) []*State {
	f := fn.L[0]
	if f.Op == "ite" {
		yes, no := ex.fork(st, f.Args[0])
		var out []*State
		if yes != nil {
			out = append(out, ex.callValue(yes, Val{T: fn.T, L: []*Term{f.Args[1]}}, args, reg, in)...)
		}
		if no != nil {
			out = append(out, ex.callValue(no, Val{T: fn.T, L: []*Term{f.Args[2]}}, args, reg, in)...)
		}
		return out
	}
	if isClo(f) {
		ci := cloReg[f.Name]
		sf := ci.fn.(*ssa.Function)
		var caps []Val
		o := 0
		for _, t := range ci.caps {
			n := len(leavesOf(t))
			caps = append(caps, Val{T: t, L: f.Args[o : o+n]})
			o += n
		}
		return ex.callFn(st, sf, caps, args, reg, in)
	}
	if f == nilFn {
		ex.safety(st, "nil-func", in, tFalse)
		return nil
	}
	if c := ex.knownClo(st, f); c != nil {
		return ex.callValue(st, Val{T: fn.T, L: []*Term{c}}, args, reg, in)
	}
	ex.safety(st, "nil-func", in, Not(Eq(f, nilFn)))
	sig := sigOf(fn.T)
	kind := "func:" + sigKey(sig)
	all := append([]Val{{T: fn.T, L: []*Term{f}}}, args...)
	if c := ex.cs.externs[kind]; c != nil {
		return ex.applyContract(st, c, all, sig.Results(), reg, in)
	}
	return ex.userCall(st, kind, all, sig.Results(), reg, in)
}

func sigKey(s *types.Signature) string {
	var ps, rs []string
	for i := 0; i < s.Params().Len(); i++ {
		ps = append(ps, boxKey(s.Params().At(i).Type()))
	}
	for i := 0; i < s.Results().Len(); i++ {
		rs = append(rs, boxKey(s.Results().At(i).Type()))
	}
	return "(" + strings.Join(ps, ",") + ")(" + strings.Join(rs, ",") + ")"
}

// userCall is a call of unknown code: it is recorded, and anything that is
// not private may have changed when it returns.
func (ex *Exec) userCall(st *State, kind string, all []Val, res *types.Tuple, reg ssa.Value, in ssa.Instruction) []*State {
	for _, a := range all {
		ex.publishVal(st, a)
	}
	ex.event(st, kind, all, nil)
	ex.unknownCode(st)
	var out []*State
	if ex.cur.Panics {
		p := st.clone()
		p.trace = append(p.trace, "panic")
		v := Fresh("panicval", SAny)
		p.assume(Not(Eq(v, nilAny)))
		out = append(out, ex.raise(p, v)...)
	}
	rs := tupleVals(res, func(t types.Type) Val { return st.freshVal("ret", t) })
	ex.setEventRes(st, kind, rs)
	return append(out, ex.finish(st, reg, rs)...)
}

// unknownCode havocs what unknown code may change, keeping the protected
// state of locks that are held (lock discipline) and declared private state.
func (ex *Exec) unknownCode(st *State) {
	old := st.heap
	st.havocAll()
	for _, l := range st.locks {
		mon := ex.cs.monitorNamed(l.name)
		if mon == nil {
			continue
		}
		ex.keepProtected(st, old, mon, l)
	}
	defer ex.userRely(st)
	for _, c := range ex.ownedCells(st, old) {
		st.heap[c.k] = Store(st.get(c.k, keySorts[c.k]), c.u, c.v)
	}
}

// liveRefs: those of the given references that the rest of the execution may
// still use (an approximation from above is not needed: what is missing is
// only forgotten).
func (ex *Exec) liveRefs(st *State, mine map[*Term]bool) map[*Term]bool {
	live := map[*Term]bool{}
	seen := map[*Term]bool{}
	var look func(t *Term)
	look = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Sort == SInt {
			if r := rootOf(t); mine[r] {
				live[r] = true
				return
			}
		}
		for _, a := range t.Args {
			look(a)
		}
	}
	var val func(v Val)
	val = func(v Val) {
		for _, t := range v.L {
			look(t)
		}
		for _, x := range v.Tup {
			val(x)
		}
		if v.Addr != nil {
			look(v.Addr.ref)
		}
		if v.PS != nil {
			look(v.PS.ref)
		}
		if v.Iter != nil {
			val(v.Iter.m)
		}
	}
	for _, f := range st.frames {
		for _, v := range f.env {
			val(v)
		}
		for _, d := range f.defers {
			val(d.fn)
			for _, a := range d.args {
				val(a)
			}
		}
		if f.panicking != nil {
			look(f.panicking)
		}
	}
	for _, l := range st.locks {
		look(l.ref)
	}
	for more := true; more; {
		n := len(live)
		for k, t := range st.heap {
			if strings.HasPrefix(k, "ev.") {
				continue
			}
			for x := t; x.Op == "store"; x = x.Args[0] {
				if x.Args[1].Sort == SInt {
					if r := rootOf(x.Args[1]); mine[r] && !live[r] {
						continue
					}
				}
				look(x.Args[2])
			}
		}
		more = len(live) > n
	}
	return live
}

type ownedCell struct {
	k    string
	u, v *Term
}

// ownedCells: the fields (also of embedded structs) of the objects allocated
// here that unknown code cannot reach, with their values in the heap.
func (ex *Exec) ownedCells(st *State, heap map[string]*Term) []ownedCell {
	mine := map[*Term]bool{}
	for _, u := range ex.unsharedRefs(st) {
		mine[u] = true
	}
	if len(mine) == 0 {
		return nil
	}
	mine = ex.liveRefs(st, mine)
	var out []ownedCell
	for _, k := range sortedKeys(heap) {
		t := heap[k]
		if keptOver(k) || !strings.HasPrefix(k, "f:") || !strings.HasPrefix(t.Sort, "(Array Int ") {
			continue
		}
		us := map[*Term]bool{}
		for x := t; x.Op == "store"; x = x.Args[0] {
			us[x.Args[1]] = true
		}
		for u := range ownKeys[k] {
			us[u] = true
		}
		var l []*Term
		for u := range us {
			if mine[rootOf(u)] {
				l = append(l, u)
			}
		}
		sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
		for _, u := range l {
			if ownKeys[k] == nil {
				ownKeys[k] = map[*Term]bool{}
			}
			ownKeys[k][u] = true
			out = append(out, ownedCell{k, u, Select(t, u)})
		}
	}
	return out
}

// ownKeys: the components that objects allocated here were seen to have.
var ownKeys = map[string]map[*Term]bool{}

// unsharedRefs: references allocated in this execution that were never
// published (so unknown code cannot reach them).
func (ex *Exec) unsharedRefs(st *State) []*Term {
	var out []*Term
	for _, r := range st.allocs {
		if !st.hset[App("published", SBool, r)] {
			out = append(out, r)
		}
	}
	return out
}

// callFn calls a known function.
func (ex *Exec) callFn(st *State, fn *ssa.Function, caps, args []Val, reg ssa.Value, in ssa.Instruction) []*State {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if m, ok := goModels[name]; ok {
		ex.used["model:"+name] = true
		return m(ex, st, args, reg, in, fn)
	}
	if mf := ex.cs.models[name]; mf != nil {
		ex.used["model:"+name] = true
		return ex.push(st, mf, nil, args, reg)
	}
	if c := ex.cs.byFn[fn]; c != nil && !c.Inline && (c.Modular || c.Trusted) {
		ex.usedContracts[c] = true
		return ex.applyContract(st, c, args, fn.Signature.Results(), reg, in)
	}
	if c := ex.cs.externs[name]; c != nil {
		return ex.applyContract(st, c, args, fn.Signature.Results(), reg, in)
	}
	if ex.isInit && initFnRe.MatchString(fn.Name()) || fn.Name() == "init" && fn.Synthetic != "" {
		return ex.finish(st, reg, nil)
	}
	if len(fn.Blocks) > 0 {
		return ex.push(st, fn, caps, args, reg)
	}
	// unknown external function
	ex.used["extern-default:"+name] = true
	for _, a := range args {
		ex.publishVal(st, a)
	}
	ex.event(st, name, args, nil)
	ex.externEffects(st, fn, args)
	rs := tupleVals(fn.Signature.Results(), func(t types.Type) Val { return st.freshVal("ret", t) })
	ex.bumpCtr(st)
	ex.setEventRes(st, name, rs)
	return ex.finish(st, reg, rs)
}

// readers are packages whose functions do not write the slices passed in.
var readers = map[string]bool{"strings": true, "fmt": true, "log": true, "errors": true, "strconv": true, "path": true, "regexp": true, "bytes": true, "unicode/utf8": true}

// externEffects: a function without a contract may change the maps and the
// slice elements it is given.
func (ex *Exec) externEffects(st *State, fn *ssa.Function, args []Val) {
	if fn.Pkg != nil && readers[fn.Pkg.Pkg.Path()] {
		return
	}
	for _, a := range args {
		if a.T == nil || len(a.L) == 0 {
			continue
		}
		switch t := a.T.Underlying().(type) {
		case *types.Map:
			n := mapKeyName(a.T)
			ks := mapKeySort(a.T)
			if isInt := a.L[0].isInt(); isInt {
				continue
			}
			if _, ok := constMaps[a.L[0]]; ok {
				continue
			}
			st.upd2("md:"+n, a.L[0], Fresh("md", SArrK(ks, SBool)))
			for j, l := range leavesOf(t.Elem()) {
				st.upd2(fmt.Sprintf("mv:%s#%d", n, j), a.L[0], Fresh("mv", SArrK(ks, l.Sort)))
			}
			ln := Fresh("ml", SInt)
			st.assume(Le(Int(0), ln))
			st.upd2("ml:"+n, a.L[0], ln)
		case *types.Slice:
			for _, kl := range ex.elemKeys(t.Elem()) {
				h := st.get(kl.key, SArr(kl.sort))
				nh := Fresh("h!"+kl.key, h.Sort)
				r := FreshVar("r", SInt)
				rd := Select(nh, r)
				st.assume(Forall([]*Term{r}, [][]*Term{{rd}}, Or(Eq2(App("root", SInt, r), App("root", SInt, a.L[0])), Eq2(rd, Select(h, r)))))
				st.set(kl.key, nh)
			}
		}
	}
}

func (st *State) upd2(key string, r, v *Term) {
	st.set(key, Store(st.get(key, SArr(v.Sort)), r, v))
}

func (ex *Exec) bumpCtr(st *State) {
	nc := Fresh("ctr", SInt)
	st.assume(Le(st.ctr, nc))
	st.ctr = nc
}

func (ex *Exec) push(st *State, fn *ssa.Function, caps, args []Val, reg ssa.Value) []*State {
	d := 0
	for _, f := range st.frames {
		if f.fn == fn {
			d++
		}
	}
	if d > ex.maxRec || len(st.frames) > 40 {
		ex.fail("recursion in %s needs a contract", fn)
	}
	ex.funcs[fn.String()] = true
	g := &Frame{fn: fn, env: map[ssa.Value]Val{}, block: fn.Blocks[0], callInstr: reg}
	for i, p := range fn.Params {
		v := args[i]
		if v.PS == nil {
			v.T = p.Type()
		}
		g.env[p] = v
	}
	for i, fv := range fn.FreeVars {
		g.env[fv] = caps[i]
	}
	st.frames = append(st.frames, g)
	return one(st)
}

// invoke calls an interface method.
func (ex *Exec) invoke(st *State, recv Val, m *types.Func, args []Val, reg ssa.Value, in ssa.Instruction) []*State {
	r := recv.L[0]
	if r.Op == "ite" {
		yes, no := ex.fork(st, r.Args[0])
		var out []*State
		if yes != nil {
			out = append(out, ex.invoke(yes, Val{T: recv.T, L: []*Term{r.Args[1]}}, m, args, reg, in)...)
		}
		if no != nil {
			out = append(out, ex.invoke(no, Val{T: recv.T, L: []*Term{r.Args[2]}}, m, args, reg, in)...)
		}
		return out
	}
	if r == nilAny {
		ex.safety(st, "nil-interface", in, tFalse)
		return nil
	}
	var ct types.Type
	if isBox(r) {
		ct = tagTypes[strings.TrimPrefix(r.Name, "box:")]
	} else {
		for k, id := range tagIDs {
			if st.hset[Eq(App("typ", SInt, r), Int(int64(id)))] {
				ct = tagTypes[k]
			}
		}
	}
	if ct == nil && !isBox(r) {
		// a known value, or one of the values the hypotheses compare it with
		for _, b := range boxesFor(st, r) {
			if ex.predates(r, b) {
				st.assume(Not(Eq2(r, b)))
				continue
			}
			yes, no := ex.fork(st, Eq2(r, b))
			var out []*State
			if yes != nil {
				out = append(out, ex.invoke(yes, Val{T: recv.T, L: []*Term{b}}, m, args, reg, in)...)
			}
			if no != nil {
				no.assume(Not(Eq2(r, b)))
				out = append(out, ex.invoke(no, recv, m, args, reg, in)...)
			}
			return out
		}
	}
	if ct == nil {
		ct = ex.dynType(st, r, recv.T)
	}
	if ct != nil {
		if fn := ex.prog.LookupMethod(ct, m.Pkg(), m.Name()); fn != nil {
			rv := unbox(r, ct)
			return ex.callFn(st, fn, nil, append([]Val{rv}, args...), reg, in)
		}
	}
	ex.safety(st, "nil-interface", in, Not(Eq(r, nilAny)))
	name := m.FullName()
	all := append([]Val{{T: recv.T, L: []*Term{r}}}, args...)
	sig := m.Type().(*types.Signature)
	if c := ex.cs.externs[name]; c != nil {
		return ex.applyContract(st, c, all, sig.Results(), reg, in)
	}
	return ex.userCall(st, name, all, sig.Results(), reg, in)
}

// applyContract uses the contract of the callee in place of its body.
func (ex *Exec) applyContract(st *State, c *Contract, args []Val, res *types.Tuple, reg ssa.Value, in ssa.Instruction) []*State {
	probe := c.Client && c.Trusted && len(c.Ensures) == 0 // a client's check or mark
	if (c.Extern || c.Trusted) && !probe {
		ex.used["contract:"+c.Name] = true
	}
	for i := range args {
		if args[i].PS != nil {
			args[i] = ex.materialize(st, args[i])
		}
	}
	env := &Env{ex: ex, cs: ex.cs, st: st, vars: map[string]Val{}, pkg: c.Pkg}
	for i, p := range c.Params {
		if i < len(args) {
			env.vars[p] = args[i]
		}
	}
	env.bindLets(c)
	if !ex.isInit {
		for i, r := range c.Requires {
			t := env.evalBool(r.Expr)
			nm := r.Label
			if nm == "" {
				nm = fmt.Sprintf("%d", i+1)
			}
			ex.oblige(st, "requires:"+c.Name+":"+nm, "requires", t)
		}
	}
	for _, a := range args {
		if !probe {
			ex.publishVal(st, a)
		}
	}
	kind := c.Full
	if c.Event {
		ex.event(st, kind, args, nil)
	}
	pre := st.clone()
	if c.Havoc {
		ex.unknownCode(st)
	}
	env.old = pre
	for _, m := range c.Modifies {
		env2 := *env
		env2.st = pre
		ex.havocLoc(st, &env2, m)
	}
	if !c.Pure && !(probe && res.Len() == 0) {
		ex.bumpCtr(st)
	}
	var out []*State
	if c.CanPanic && ex.cur.Panics {
		p := st.clone()
		p.trace = append(p.trace, "panic")
		v := Fresh("panicval", SAny)
		p.assume(Not(Eq(v, nilAny)))
		out = append(out, ex.raise(p, v)...)
	}
	var rs []Val
	if c.Pure {
		rs = ex.pureResult(st, c.Full, args, res)
	} else {
		rs = tupleVals(res, func(t types.Type) Val { return st.freshVal("ret", t) })
	}
	if c.Event {
		ex.setEventRes(st, kind, rs)
	}
	env.st = st
	for i, r := range c.Results {
		if i < len(rs) && r != "_" {
			env.vars[r] = rs[i]
		}
	}
	if len(rs) > 0 {
		env.vars["result"] = rs[0]
	}
	if c.Fatal {
		st.status = Fatal
		return append(out, st)
	}
	if c.Quiet != nil && c.Havoc {
		// without the unknown code: nothing changed
		q := pre.clone()
		ex.bumpCtr(q)
		e2 := *env
		e2.st = q
		q.assume(e2.evalBool(c.Quiet))
		if c.Event {
			ex.setEventRes(q, kind, rs)
		}
		for _, e := range c.Ensures {
			q.assume(e2.evalBool(e.Expr))
		}
		q.trace = append(q.trace, "quiet")
		st.assume(Not(env.evalBool(c.Quiet)))
		out = append(out, ex.finish(q, reg, rs)...)
	}
	for _, e := range c.Ensures {
		// a client's result that is defined to be a term is that term
		if b, ok := e.Expr.(*ast.BinaryExpr); ok && (c.Client || c.Trusted || c.Extern) && b.Op == token.EQL && !c.Event {
			if id, ok := b.X.(*ast.Ident); ok {
				for i, r := range c.Results {
					if r == id.Name && i < len(rs) && r != "_" {
						if v := env.coerce(env.eval(b.Y), rs[i].T); len(v.L) == len(rs[i].L) {
							rs[i] = Val{T: rs[i].T, L: v.L}
							env.vars[r] = rs[i]
						}
					}
				}
			}
		}
		st.assume(env.evalBool(e.Expr))
	}
	return append(out, ex.finish(st, reg, rs)...)
}

// pureResult is a deterministic function of the arguments.
func (ex *Exec) pureResult(st *State, name string, args []Val, res *types.Tuple) []Val {
	var ts []*Term
	for _, a := range args {
		ts = append(ts, a.L...)
	}
	var rs []Val
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		v := Val{T: t}
		for j, l := range leavesOf(t) {
			v.L = append(v.L, App(fmt.Sprintf("pure:%s.%d#%d", name, i, j), l.Sort, ts...))
		}
		st.typeFacts(v)
		rs = append(rs, v)
	}
	return rs
}

// materialize turns a slice of an array field into an ordinary fresh slice
// with the same contents (only valid when the callee does not write it).
func (ex *Exec) materialize(st *State, v Val) Val {
	n := Sub(v.PS.hi, v.PS.lo)
	r := ex.makeSlice2(st, types.NewSlice(v.PS.elem), n)
	return r
}

// havocLoc makes the location described by a modifies clause unknown.
func (ex *Exec) havocLoc(st *State, env *Env, m Clause) {
	for _, l := range env.locations(m) {
		h := st.get(l.key, l.sort)
		if l.ref == nil {
			st.set(l.key, Fresh("h!"+l.key, l.sort))
			continue
		}
		if l.arr != nil { // all elements of an array
			nh := Fresh("h!"+l.key, l.sort)
			r := FreshVar("r", SInt)
			rd := Select(nh, r)
			st.assume(Forall([]*Term{r}, [][]*Term{{rd}}, Or(And(Eq2(App("kind", SInt, r), Int(1)), Eq2(App("earr", SInt, r), l.arr)), Eq2(rd, Select(h, r)))))
			st.set(l.key, nh)
			continue
		}
		st.set(l.key, Store(h, l.ref, Fresh("h!"+l.key, elemSort(l.sort))))
	}
}

// ---- builtins ----

func (ex *Exec) builtin(st *State, name string, c *ssa.CallCommon, args []Val, reg ssa.Value, in ssa.Instruction) []*State {
	switch name {
	case "len", "cap":
		v := args[0]
		var t *Term
		switch u := v.T.Underlying().(type) {
		case *types.Slice:
			if v.PS != nil {
				t = Sub(v.PS.hi, v.PS.lo)
			} else if name == "cap" {
				t = v.L[3]
			} else {
				t = v.L[2]
			}
		case *types.Map:
			ex.mapAccess(st, v, in, false)
			t = Ite(Eq(v.L[0], Int(0)), Int(0), st.mapLen(v))
			st.assume(Le(Int(0), t))
		case *types.Basic:
			t = SLen(v.L[0])
			st.assume(Le(Int(0), t))
		case *types.Array:
			t = Int(u.Len())
		case *types.Pointer:
			t = Int(u.Elem().Underlying().(*types.Array).Len())
		default:
			t = Fresh("len", SInt)
			st.assume(Le(Int(0), t))
		}
		return ex.finish(st, reg, []Val{{T: types.Typ[types.Int], L: []*Term{t}}})
	case "append":
		return ex.appendCall(st, args, reg)
	case "copy":
		n := ex.copyCall(st, args[0], args[1])
		return ex.finish(st, reg, []Val{{T: types.Typ[types.Int], L: []*Term{n}}})
	case "delete":
		ex.mapAccess(st, args[0], in, true)
		m := args[0]
		yes, no := ex.fork(st, Not(Eq(m.L[0], Int(0))))
		var out []*State
		if yes != nil {
			yes.mapDelete(m, args[1].L[0])
			out = append(out, ex.finish(yes, reg, nil)...)
		}
		if no != nil {
			out = append(out, ex.finish(no, reg, nil)...)
		}
		return out
	case "close":
		ex.event(st, "close", args, nil)
		return ex.finish(st, reg, nil)
	case "recover":
		f := st.top()
		v := nilAny
		if f.isDefer && !f.notDeferred && !f.async && len(st.frames) >= 2 {
			g := st.frames[len(st.frames)-2]
			if g.unwinding && g.panicking != nil {
				v = g.panicking
				g.panicking = nil
				g.recovered = true
			}
		}
		return ex.finish(st, reg, []Val{{T: types.NewInterfaceType(nil, nil), L: []*Term{v}}})
	case "print", "println":
		return ex.finish(st, reg, nil)
	case "min", "max":
		t := args[0].L[0]
		for _, a := range args[1:] {
			if name == "min" {
				t = Ite(Le(t, a.L[0]), t, a.L[0])
			} else {
				t = Ite(Le(t, a.L[0]), a.L[0], t)
			}
		}
		return ex.finish(st, reg, []Val{{T: args[0].T, L: []*Term{t}}})
	case "clear":
		m := args[0]
		if _, ok := m.T.Underlying().(*types.Map); ok {
			n := mapKeyName(m.T)
			ds := SArrK(mapKeySort(m.T), SBool)
			st.set("md:"+n, Store(st.get("md:"+n, SArr(ds)), m.L[0], ConstArr(ds, tFalse)))
			st.set("ml:"+n, Store(st.get("ml:"+n, SArr(SInt)), m.L[0], Int(0)))
			return ex.finish(st, reg, nil)
		}
	case "ssa:wrapnilchk":
		ex.safety(st, "nil-deref", in, Not(Eq(args[0].L[0], Int(0))))
		return ex.finish(st, reg, args[:1])
	}
	ex.fail("builtin %s", name)
	return nil
}

// appendCall: append(s, t...). Two cases: the result reuses s's array when
// there is room, or lives in a new one.
func (ex *Exec) appendCall(st *State, args []Val, reg ssa.Value) []*State {
	s, t := args[0], args[1]
	if t.L[0].Sort == SStr { // append([]byte, string...)
		et := s.T.Underlying().(*types.Slice).Elem()
		bs := ex.makeSlice2(st, s.T, SLen(t.L[0]))
		i := FreshVar("j", SInt)
		rd := Select(st.get(cellKey(et, 0), SArr(SInt)), Elem(bs.L[0], i))
		st.assume(Forall([]*Term{i}, [][]*Term{{rd}}, Imp(And(Le(Int(0), i), Lt(i, SLen(t.L[0]))), Eq(rd, SAt(t.L[0], i)))))
		t = bs
	}
	et := s.T.Underlying().(*types.Slice).Elem()
	n := Add(s.L[2], t.L[2])
	if t.L[2].isInt() && t.L[2].intVal() == 0 {
		return ex.finish(st, reg, []Val{s})
	}
	room := And(Le(n, s.L[3]), Not(Eq(s.L[0], Int(0))))
	yes, no := ex.fork(st, room)
	var out []*State
	if yes != nil {
		yes.trace = append(yes.trace, "append-inplace")
		ex.copyElems(yes, et, s.L[0], Add(s.L[1], s.L[2]), t.L[0], t.L[1], t.L[2])
		out = append(out, ex.finish(yes, reg, []Val{{T: s.T, L: []*Term{s.L[0], s.L[1], n, s.L[3]}}})...)
	}
	if no != nil {
		arr := no.alloc()
		c := Fresh("cap", SInt)
		no.assume(Le(n, c))
		ex.zeroRun(no, arr, et)
		ex.copyElems(no, et, arr, Int(0), s.L[0], s.L[1], s.L[2])
		ex.copyElems(no, et, arr, s.L[2], t.L[0], t.L[1], t.L[2])
		// append(nil, nothing...) stays nil; excluded unless n is 0
		out = append(out, ex.finish(no, reg, []Val{{T: s.T, L: []*Term{arr, Int(0), n, c}}})...)
	}
	return out
}

// copyElems copies n elements (simultaneously) between arrays.
func (ex *Exec) copyElems(st *State, et types.Type, dst, doff, src, soff, n *Term) {
	if n.isInt() && n.intVal() <= 0 {
		return
	}
	keys := ex.elemKeys(et)
	if n.isInt() && n.intVal() <= 4 {
		k := int(n.intVal())
		for _, kl := range keys {
			h := st.get(kl.key, SArr(kl.sort))
			var vs []*Term
			for i := 0; i < k; i++ {
				vs = append(vs, Select(h, kl.at(Elem(src, AddK(soff, int64(i))))))
			}
			for i := 0; i < k; i++ {
				h = Store(h, kl.at(Elem(dst, AddK(doff, int64(i)))), vs[i])
			}
			st.set(kl.key, h)
		}
		return
	}
	for _, kl := range keys {
		h := st.get(kl.key, SArr(kl.sort))
		nh := Fresh("cp!"+kl.key, h.Sort)
		// i ranges over absolute destination indices
		i := FreshVar("i", SInt)
		rd := Select(nh, kl.at(Elem(dst, i)))
		inR := And(Le(doff, i), Lt(i, Add(doff, n)))
		st.assume(Forall([]*Term{i}, [][]*Term{{rd}},
			Eq(rd, Ite(inR, Select(h, kl.at(Elem(src, Add(Sub(i, doff), soff)))), Select(h, kl.at(Elem(dst, i)))))))
		if provablyDistinct(src, dst) || src == dst {
			// reading forward: knowing the source element tells where it went
			j := FreshVar("j", SInt)
			rs := Select(h, kl.at(Elem(src, j)))
			st.assume(Forall([]*Term{j}, [][]*Term{{rs}}, Imp(And(Le(soff, j), Lt(j, Add(soff, n))),
				Eq(Select(nh, kl.at(Elem(dst, Add(Sub(j, soff), doff)))), rs))))
		}
		// everything else is unchanged
		r := FreshVar("r", SInt)
		rr := Select(nh, r)
		el := r
		cond := tTrue
		for p := len(kl.path) - 1; p >= 0; p-- {
			cond = And(cond, Eq2(App("kind", SInt, el), Int(int64(kindOf(kl.path[p])))))
			el = App("inv"+kl.path[p], SInt, el)
		}
		cond = And(cond, Eq2(App("kind", SInt, el), Int(1)), Eq2(App("earr", SInt, el), dst))
		st.assume(Forall([]*Term{r}, [][]*Term{{rr}}, Or(cond, Eq2(rr, Select(h, r)))))
		st.set(kl.key, nh)
	}
}

func (ex *Exec) copyCall(st *State, d, s Val) *Term {
	if d.PS != nil { // into an array field: copy(x.bs[:], string or slice)
		n := Sub(d.PS.hi, d.PS.lo)
		var sl *Term
		at := func(i *Term) *Term { return nil }
		if s.L[0].Sort == SStr {
			sl = SLen(s.L[0])
			at = func(i *Term) *Term { return SAt(s.L[0], i) }
		} else {
			sl = s.L[2]
			et := s.T.Underlying().(*types.Slice).Elem()
			h := st.get(cellKey(et, 0), SArr(scalarSorts(et)[0]))
			at = func(i *Term) *Term { return Select(h, Elem(s.L[0], Add(s.L[1], i))) }
		}
		k := Ite(Le(sl, n), sl, n)
		srt := scalarSorts(d.PS.elem)[0]
		for i, key := range d.PS.keys {
			h := st.get(key, SArr(srt))
			idx := Sub(Int(int64(i)), d.PS.lo)
			c := And(Le(Int(0), idx), Lt(idx, k))
			st.set(key, Store(h, d.PS.ref, Ite(c, at(idx), Select(h, d.PS.ref))))
		}
		return k
	}
	if s.PS != nil {
		ex.fail("copy from array field")
	}
	et := d.T.Underlying().(*types.Slice).Elem()
	if s.L[0].Sort == SStr {
		bs := ex.makeSlice2(st, d.T, SLen(s.L[0]))
		i := FreshVar("j", SInt)
		rd := Select(st.get(cellKey(et, 0), SArr(SInt)), Elem(bs.L[0], i))
		st.assume(Forall([]*Term{i}, [][]*Term{{rd}}, Imp(And(Le(Int(0), i), Lt(i, SLen(s.L[0]))), Eq(rd, SAt(s.L[0], i)))))
		s = bs
	}
	var n *Term
	switch {
	case st.proves(Le(s.L[2], d.L[2])):
		n = s.L[2]
	case st.proves(Le(d.L[2], s.L[2])):
		n = d.L[2]
	default:
		r := solver.CheckAll([]*Query{{Name: "copy", Hyps: st.hyps, Goal: Le(s.L[2], d.L[2])}, {Name: "copy", Hyps: st.hyps, Goal: Le(d.L[2], s.L[2])}}, -1)
		if r[0].Res == "unsat" {
			n = s.L[2]
		} else if r[1].Res == "unsat" {
			n = d.L[2]
		} else {
			n = Fresh("ncopy", SInt)
			st.assume(Le(n, s.L[2]), Le(n, d.L[2]), Or(Eq(n, s.L[2]), Eq(n, d.L[2])))
		}
	}
	st.assume(Le(Int(0), n))
	ex.copyElems(st, et, d.L[0], d.L[1], s.L[0], s.L[1], n)
	return n
}

func (st *State) proves(t *Term) bool { return t == tTrue || st.hset[t] }

// ---- models written in the engine ----

type goModel func(ex *Exec, st *State, args []Val, reg ssa.Value, in ssa.Instruction, fn *ssa.Function) []*State

var goModels map[string]goModel

func init() {
	res := func(vs ...Val) []Val { return vs }
	lock := func(ex *Exec, st *State, a []Val, reg ssa.Value, in ssa.Instruction, fn *ssa.Function) []*State {
		ex.lockOp(st, a[0].L[0], in)
		return ex.finish(st, reg, nil)
	}
	unlock := func(ex *Exec, st *State, a []Val, reg ssa.Value, in ssa.Instruction, fn *ssa.Function) []*State {
		ex.unlockOp(st, a[0].L[0], in)
		return ex.finish(st, reg, nil)
	}
	atomicLoad := func(ex *Exec, st *State, a []Val, reg ssa.Value, in ssa.Instruction, fn *ssa.Function) []*State {
		t := fn.Signature.Results().At(0).Type()
		v := ex.atomicLoad(st, a[0].L[0], t, fn.Name())
		return ex.finish(st, reg, res(v))
	}
	atomicStore := func(ex *Exec, st *State, a []Val, reg ssa.Value, in ssa.Instruction, fn *ssa.Function) []*State {
		ex.atomicStore(st, a[0].L[0], a[1], fn.Name())
		return ex.finish(st, reg, nil)
	}
	atomicAdd := func(ex *Exec, st *State, a []Val, reg ssa.Value, in ssa.Instruction, fn *ssa.Function) []*State {
		t := fn.Signature.Results().At(0).Type()
		ex.safety(st, "nil-deref", in, notNilAddr(a[0].L[0]))
		v := st.freshVal("atomic", t)
		if fn.Signature.Recv() == nil {
			st.store(a[0].L[0], v)
		}
		if g := ex.addOnly(a[0].L[0]); g && a[1].L[0].isInt() && a[1].L[0].intVal() > 0 {
			// every change of this counter adds a positive constant, atomically:
			// no two additions have the same result
			ex.used["engine: results of sync/atomic.Add on a counter that is only ever incremented are distinct (no wrap-around)"] = true
			st.assume(ex.distinctAdd(st, a[0].L[0], v.L[0]))
		}
		ex.event(st, "atomic.Add", a, res(v))
		return ex.finish(st, reg, res(v))
	}
	atomicCAS := func(ex *Exec, st *State, a []Val, reg ssa.Value, in ssa.Instruction, fn *ssa.Function) []*State {
		old := ex.atomicLoad(st, a[0].L[0], a[1].T, fn.Name())
		yes, no := ex.fork(st, Eq(old.L[0], a[1].L[0]))
		var out []*State
		if yes != nil {
			ex.atomicStore(yes, a[0].L[0], a[2], fn.Name())
			out = append(out, ex.finish(yes, reg, res(boolVal(tTrue)))...)
		}
		if no != nil {
			out = append(out, ex.finish(no, reg, res(boolVal(tFalse)))...)
		}
		return out
	}
	goModels = map[string]goModel{
		"(*sync.Mutex).Lock":      lock,
		"(*sync.Mutex).Unlock":    unlock,
		"(*sync.RWMutex).Lock":    lock,
		"(*sync.RWMutex).Unlock":  unlock,
		"(*sync.RWMutex).RLock":   lock,
		"(*sync.RWMutex).RUnlock": unlock,
		"(*sync.Once).Do": func(ex *Exec, st *State, a []Val, reg ssa.Value, in ssa.Instruction, fn *ssa.Function) []*State {
			o := a[0].L[0]
			done := Select(st.get("gh:once", SArr(SBool)), o)
			yes, no := ex.fork(st, done)
			var out []*State
			if yes != nil {
				ex.event(yes, "once.passed", a[:1], nil)
				out = append(out, ex.finish(yes, reg, nil)...)
			}
			if no != nil {
				// either another goroutine runs it (and has finished it by
				// the time we return), or we do
				oth := no.clone()
				oth.trace = append(oth.trace, "once-elsewhere")
				oth.set("gh:once", Store(oth.get("gh:once", SArr(SBool)), o, tTrue))
				ex.event(oth, "once.elsewhere", a[:1], nil)
				ex.rely(oth)
				ex.event(oth, "once.passed", a[:1], nil)
				out = append(out, ex.finish(oth, reg, nil)...)
				no.trace = append(no.trace, "once-here")
				ex.event(no, "once.begin", a[:1], nil)
				n := len(no.frames)
				rs := ex.callValue(no, a[1], nil, nil, in)
				fin := func(s *State) {
					s.set("gh:once", Store(s.get("gh:once", SArr(SBool)), o, tTrue))
					ex.event(s, "once.end", a[:1], nil)
					ex.event(s, "once.passed", a[:1], nil)
					if reg != nil {
						s.top().idx++
					}
				}
				for _, s := range rs {
					if s.status != Running {
						out = append(out, s)
						continue
					}
					if len(s.frames) > n {
						s.frames[n].isDefer = true
						s.frames[n].callInstr = nil
						s.frames[n].notDeferred = true
						prev := s.frames[n].onRet
						s.frames[n].onRet = func(s *State, r []Val) {
							if prev != nil {
								prev(s, r)
							}
							fin(s)
						}
					} else {
						fin(s)
					}
					out = append(out, s)
				}
			}
			return out
		},
		"(net/http.HandlerFunc).ServeHTTP": func(ex *Exec, st *State, a []Val, reg ssa.Value, in ssa.Instruction, fn *ssa.Function) []*State {
			f := a[0]
			f.T = f.T.Underlying()
			return ex.callValue(st, f, a[1:], reg, in)
		},
		"(*sync.WaitGroup).Add": func(ex *Exec, st *State, a []Val, reg ssa.Value, in ssa.Instruction, fn *ssa.Function) []*State {
			ex.wgAdd(st, a[0].L[0], a[1].L[0])
			return ex.finish(st, reg, nil)
		},
		"(*sync.WaitGroup).Done": func(ex *Exec, st *State, a []Val, reg ssa.Value, in ssa.Instruction, fn *ssa.Function) []*State {
			ex.wgAdd(st, a[0].L[0], Int(-1))
			return ex.finish(st, reg, nil)
		},
		"(*sync.WaitGroup).Wait": func(ex *Exec, st *State, a []Val, reg ssa.Value, in ssa.Instruction, fn *ssa.Function) []*State {
			ex.event(st, "wg.wait", a, nil)
			h := st.get("gh:st:wg.wait", SArr(SInt))
			st.set("gh:st:wg.wait", Store(h, a[0].L[0], stTime(st)))
			ex.rely(st)
			return ex.finish(st, reg, nil)
		},
		"net/http.CanonicalHeaderKey": func(ex *Exec, st *State, a []Val, reg ssa.Value, in ssa.Instruction, fn *ssa.Function) []*State {
			return ex.finish(st, reg, res(strVal(canonKey(a[0].L[0]))))
		},
		"fmt.Sprintf": func(ex *Exec, st *State, a []Val, reg ssa.Value, in ssa.Instruction, fn *ssa.Function) []*State {
			return ex.finish(st, reg, res(strVal(ex.sprintf(st, a[0].L[0], a[1]))))
		},
		"strconv.Itoa": func(ex *Exec, st *State, a []Val, reg ssa.Value, in ssa.Instruction, fn *ssa.Function) []*State {
			return ex.finish(st, reg, []Val{strVal(fmtInt("%d", a[0].L[0]))})
		},
		"fmt.Sprint": func(ex *Exec, st *State, a []Val, reg ssa.Value, in ssa.Instruction, fn *ssa.Function) []*State {
			return ex.finish(st, reg, res(strVal(ex.sprintf(st, StrLit("%v"), a[0]))))
		},
		"fmt.Fprintf": func(ex *Exec, st *State, a []Val, reg ssa.Value, in ssa.Instruction, fn *ssa.Function) []*State {
			s := ex.sprintf(st, a[1].L[0], a[2])
			if isBox(a[0].L[0]) && a[0].L[0].Name == "box:*bytes.Buffer" {
				ex.bufAppend(st, a[0].L[0].Args[0], s)
				rs := tupleVals(fn.Signature.Results(), func(t types.Type) Val { return st.freshVal("ret", t) })
				return ex.finish(st, reg, rs)
			}
			ex.event(st, "fmt.Fprintf", res(a[0], strVal(s)), nil)
			rs := tupleVals(fn.Signature.Results(), func(t types.Type) Val { return st.freshVal("ret", t) })
			ex.setEventRes(st, "fmt.Fprintf", rs)
			return ex.finish(st, reg, rs)
		},
		"log.Print": func(ex *Exec, st *State, a []Val, reg ssa.Value, in ssa.Instruction, fn *ssa.Function) []*State {
			ex.event(st, "log", res(strVal(ex.sprint(st, a[0], false))), nil)
			return ex.finish(st, reg, nil)
		},
		"log.Println": func(ex *Exec, st *State, a []Val, reg ssa.Value, in ssa.Instruction, fn *ssa.Function) []*State {
			ex.event(st, "log", res(strVal(ex.sprint(st, a[0], true))), nil)
			return ex.finish(st, reg, nil)
		},
		"log.Printf": func(ex *Exec, st *State, a []Val, reg ssa.Value, in ssa.Instruction, fn *ssa.Function) []*State {
			ex.event(st, "log", res(strVal(ex.sprintf(st, a[0].L[0], a[1]))), nil)
			return ex.finish(st, reg, nil)
		},
		"(*bytes.Buffer).WriteString": func(ex *Exec, st *State, a []Val, reg ssa.Value, in ssa.Instruction, fn *ssa.Function) []*State {
			ex.bufAppend(st, a[0].L[0], a[1].L[0])
			rs := tupleVals(fn.Signature.Results(), func(t types.Type) Val { return st.freshVal("ret", t) })
			return ex.finish(st, reg, rs)
		},
		"(*strings.Builder).WriteString": func(ex *Exec, st *State, a []Val, reg ssa.Value, in ssa.Instruction, fn *ssa.Function) []*State {
			ex.bufAppend(st, a[0].L[0], a[1].L[0])
			rs := tupleVals(fn.Signature.Results(), func(t types.Type) Val { return st.freshVal("ret", t) })
			return ex.finish(st, reg, rs)
		},
		"(*bytes.Buffer).WriteRune": func(ex *Exec, st *State, a []Val, reg ssa.Value, in ssa.Instruction, fn *ssa.Function) []*State {
			ex.bufAppend(st, a[0].L[0], App("runestr", SStr, a[1].L[0]))
			rs := tupleVals(fn.Signature.Results(), func(t types.Type) Val { return st.freshVal("ret", t) })
			return ex.finish(st, reg, rs)
		},
		"(*bytes.Buffer).Write": func(ex *Exec, st *State, a []Val, reg ssa.Value, in ssa.Instruction, fn *ssa.Function) []*State {
			ex.bufAppend(st, a[0].L[0], Fresh("bytes", SStr))
			rs := tupleVals(fn.Signature.Results(), func(t types.Type) Val { return st.freshVal("ret", t) })
			return ex.finish(st, reg, rs)
		},
		"(*bytes.Buffer).String": func(ex *Exec, st *State, a []Val, reg ssa.Value, in ssa.Instruction, fn *ssa.Function) []*State {
			return ex.finish(st, reg, res(strVal(ex.bufStr(st, a[0].L[0]))))
		},
		"(*strings.Builder).String": func(ex *Exec, st *State, a []Val, reg ssa.Value, in ssa.Instruction, fn *ssa.Function) []*State {
			return ex.finish(st, reg, res(strVal(ex.bufStr(st, a[0].L[0]))))
		},
	}
	for _, s := range []string{"Pointer", "Int32", "Int64", "Uint32", "Uint64"} {
		goModels["sync/atomic.Load"+s] = atomicLoad
		goModels["sync/atomic.Store"+s] = atomicStore
		goModels["sync/atomic.CompareAndSwap"+s] = atomicCAS
		if s != "Pointer" {
			goModels["sync/atomic.Add"+s] = atomicAdd
			goModels["(*sync/atomic."+s+").Add"] = atomicAdd
		}
	}
}

func canonKey(s *Term) *Term {
	if s.Op == "#s" {
		return StrLit(http.CanonicalHeaderKey(s.Name))
	}
	return App("canon", SStr, s)
}

func (ex *Exec) bufStr(st *State, r *Term) *Term {
	h := st.get("gh:buf", SArr(SStr))
	s := Select(h, r)
	// a buffer never written reads as empty
	if ctrBase(r) != nil && !strings.Contains(s.Op, "$f") && s.Op == "select" {
		return StrLit("")
	}
	return s
}
func (ex *Exec) bufAppend(st *State, r, s *Term) {
	st.set("gh:buf", Store(st.get("gh:buf", SArr(SStr)), r, SCat(ex.bufStr(st, r), s)))
}

// addOnly: the only uses of the global counter in the repository are atomic
// additions of positive constants and atomic loads.
func (ex *Exec) addOnly(p *Term) bool {
	var g *ssa.Global
	for _, sp := range ex.cs.spkgs {
		for _, m := range sp.Members {
			if x, ok := m.(*ssa.Global); ok && ex.globalAddr(x) == p && !token.IsExported(x.Name()) {
				g = x
			}
		}
	}
	if g == nil {
		return false
	}
	for _, fn := range ex.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				uses := false
				for _, op := range in.Operands(nil) {
					uses = uses || *op == ssa.Value(g)
				}
				if !uses {
					continue
				}
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil {
					return false
				}
				n := c.Call.StaticCallee().String()
				if strings.Contains(n, "sync/atomic") && strings.Contains(n, "Load") {
					continue
				}
				if !strings.Contains(n, "sync/atomic") || !strings.Contains(n, "Add") || len(c.Call.Args) < 2 || c.Call.Args[0] != ssa.Value(g) {
					return false
				}
				k, ok := c.Call.Args[1].(*ssa.Const)
				if !ok || k.Int64() <= 0 {
					return false
				}
			}
		}
	}
	return true
}

// distinctAdd: v differs from every earlier result of an addition to p.
func (ex *Exec) distinctAdd(st *State, p, v *Term) *Term {
	n := evN(st, "atomic.Add")
	i := FreshVar("i", SInt)
	at := Select(st.get("ev.a:atomic.Add#0", SArr(SInt)), i)
	rs := Select(st.get("ev.r:atomic.Add#0", SArr(SInt)), i)
	out := []*Term{Forall([]*Term{i}, [][]*Term{{rs}}, Imp(And(Le(Int(0), i), Lt(i, n), Eq(at, p)), Not(Eq(rs, v))))}
	// and for the additions of this very execution
	as, rr := st.get("ev.a:atomic.Add#0", SArr(SInt)), st.get("ev.r:atomic.Add#0", SArr(SInt))
	for h := rr; h.Op == "store"; h = h.Args[0] {
		out = append(out, Imp(Eq(Select(as, h.Args[1]), p), Not(Eq(Select(rr, h.Args[1]), v))))
	}
	return And(out...)
}

func (ex *Exec) wgAdd(st *State, r, d *Term) {
	h := st.get("gh:wg", SArr(SInt))
	st.set("gh:wg", Store(h, r, Add(Select(h, r), d)))
	ex.event(st, "wg.add", []Val{{T: types.Typ[types.Int], L: []*Term{r}}, intVal(d)}, nil)
}

// rely models other goroutines running for a while: shared data that is not
// protected by a lock we hold may change.
func (ex *Exec) rely(st *State) {
	for _, k := range sortedKeys(ex.cs.volatile) {
		for hk := range st.heap {
			if hk == k || strings.HasPrefix(hk, k+"#") {
				st.havocKey(hk)
			}
		}
	}
}

// userRely assumes the declared good behaviour of unknown code.
func (ex *Exec) userRely(st *State) {
	if len(ex.cur.UserRely) == 0 || ex.entry == nil {
		return
	}
	env := &Env{ex: ex, cs: ex.cs, st: st, old: ex.entry, vars: map[string]Val{}, pkg: ex.cur.Pkg}
	for k, v := range ex.params {
		env.vars[k] = v
	}
	for _, c := range ex.cur.UserRely {
		ex.used["user-code: "+c.Text] = true
		st.assume(env.evalBool(c.Expr))
	}
}

// predates: r is a parameter of the function under contract, b a pointer to
// something allocated since.
func (ex *Exec) predates(r, b *Term) bool {
	if ex.entry == nil || len(b.Args) != 1 || ctrBase(b.Args[0]) == nil {
		return false
	}
	if e := ex.entry.ctr; e == nil || ctrBase(e) != ctrBase(b.Args[0]) || toLin(b.Args[0]).k < toLin(e).k {
		return false
	}
	for _, v := range ex.params {
		for _, l := range v.L {
			if l == r {
				return true
			}
		}
	}
	return false
}

// boxesFor: values with a known dynamic type that the hypotheses equate, under
// some condition, with r.
func boxesFor(st *State, r *Term) []*Term {
	alias := map[*Term]bool{r: true}
	for n := 0; n < 3; n++ {
		for _, h := range st.hyps {
			if h.Op == "=" && h.Args[0].Sort == SAny {
				if alias[h.Args[0]] {
					alias[h.Args[1]] = true
				} else if alias[h.Args[1]] {
					alias[h.Args[0]] = true
				}
			}
		}
	}
	var out []*Term
	seen, mark := map[*Term]bool{}, map[*Term]bool{}
	for _, h := range st.hyps {
		walk(h, mark, func(x *Term) {
			if x.Op != "=" || x.Args[0].Sort != SAny || x.open {
				return
			}
			for i := 0; i < 2; i++ {
				if b := x.Args[1-i]; alias[x.Args[i]] && isBox(b) && tagTypes[strings.TrimPrefix(b.Name, "box:")] != nil && !seen[b] && !st.hset[Not(Eq2(r, b))] {
					seen[b] = true
					out = append(out, b)
				}
			}
		})
	}
	return out
}

// knownClo asks the solver whether a function value that was read from a
// copied array is one of the functions stored there.
func (ex *Exec) knownClo(st *State, f *Term) *Term {
	if f.Op != "select" || !strings.HasPrefix(f.Args[0].baseName(), "cp!") {
		return nil
	}
	var cs []*Term
	mark := map[*Term]bool{}
	find := func(t *Term) {
		walk(t, mark, func(x *Term) {
			if isClo(x) && !x.open && len(cs) < 8 {
				cs = append(cs, x)
			}
		})
	}
	find(f)
	for _, h := range st.hyps {
		find(h)
	}
	q := &Query{Name: "known function", Hyps: st.hyps}
	for _, c := range cs {
		q.Goals = append(q.Goals, Eq2(f, c))
	}
	if len(cs) == 0 {
		return nil
	}
	for i, a := range solver.CheckMulti([]*Query{q})[0] {
		if i < len(cs) && a == "unsat" {
			st.assume(q.Goals[i])
			return cs[i]
		}
	}
	return nil
}

// dynType asks the solver for the dynamic type of an interface value that was
// read from memory whose contents are described by assumptions (after a copy).
func (ex *Exec) dynType(st *State, r *Term, it types.Type) types.Type {
	if r.Op != "select" || !strings.HasPrefix(r.Args[0].baseName(), "cp!") {
		return nil
	}
	iface, ok := it.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	seen := map[string]bool{}
	mark := map[*Term]bool{}
	find := func(t *Term) {
		walk(t, mark, func(x *Term) {
			if isBox(x) {
				seen[strings.TrimPrefix(x.Name, "box:")] = true
			}
		})
	}
	for _, h := range st.hyps {
		find(h)
	}
	q := &Query{Name: "dynamic type", Hyps: st.hyps}
	var ts []types.Type
	for _, k := range sortedKeys(seen) {
		if t := tagTypes[k]; t != nil && types.Implements(t, iface) {
			ts = append(ts, t)
			q.Goals = append(q.Goals, Eq(App("typ", SInt, r), typeTag(t)))
		}
	}
	if len(ts) == 0 {
		return nil
	}
	for i, a := range solver.CheckMulti([]*Query{q})[0] {
		if i < len(ts) && a == "unsat" {
			st.assume(q.Goals[i])
			return ts[i]
		}
	}
	return nil
}

// baseName is the name of the array a chain of stores starts from.
func (t *Term) baseName() string {
	for t.Op == "store" {
		t = t.Args[0]
	}
	return t.Name
}
