package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lockID splits the address of a mutex into the monitor's name and the object
// that contains it.
func lockID(p *Term) (string, *Term) {
	if isFld(p) {
		return p.Name, p.Args[0]
	}
	if p.Op == "$f" && strings.HasPrefix(p.Name, "gaddr:") {
		return p.Name, Int(0)
	}
	if p.isInt() {
		for n, id := range globalRefs {
			if int64(id) == p.intVal() {
				return "gaddr:" + n, Int(0)
			}
		}
	}
	return "lock", p
}

func (cs *Contracts) monitorNamed(name string) *Monitor {
	for _, m := range cs.monitors {
		if m.Name == name {
			return m
		}
	}
	return nil
}

// protectedBy gives the monitor protecting the location p.
func (cs *Contracts) protectedBy(p *Term) *Monitor {
	for _, m := range cs.monitors {
		if m.fields[p.Name] {
			return m
		}
	}
	return nil
}
func (cs *Contracts) mapProtected(t types.Type) *Monitor {
	k := boxKey(t.Underlying())
	for _, m := range cs.monitors {
		if m.mapTypes[k] {
			return m
		}
	}
	return nil
}

func (ex *Exec) monEnv(st *State, mon *Monitor, obj *Term) *Env {
	env := &Env{ex: ex, cs: ex.cs, st: st, vars: map[string]Val{}, pkg: mon.Pkg}
	if mon.Self != "" {
		env.vars[mon.Self] = Val{T: types.NewPointer(mon.Type), L: []*Term{obj}}
	}
	return env
}

// protKeys are the heap components of the locations protected by mon.
type protLoc struct {
	key string
	ref *Term // nil: global scalar
}

func (ex *Exec) protLocs(st *State, mon *Monitor, obj *Term) []protLoc {
	var out []protLoc
	for _, f := range sortedKeys(mon.fields) {
		if strings.HasPrefix(f, "gaddr:") {
			n := strings.TrimPrefix(f, "gaddr:")
			for i, s := range scalarSorts(ex.cs.globalType(n)) {
				k := fmt.Sprintf("g:%s#%d", n, i)
				st.get(k, s)
				out = append(out, protLoc{k, nil})
			}
			continue
		}
		fi := fldReg[f]
		ft := fi.st.Field(fi.idx).Type()
		if isStruct(ft) || isArray(ft) {
			ex.fail("protected field %s is not scalar", f)
		}
		for i, s := range scalarSorts(ft) {
			k := fmt.Sprintf("f:%s.%s#%d", fi.key, fi.name, i)
			st.get(k, SArr(s))
			out = append(out, protLoc{k, obj})
		}
	}
	for _, fi := range mon.mapFields {
		mt := fi.st.Field(fi.idx).Type()
		m := st.loadFieldInfo(obj, fi)
		n, ks := mapKeyName(mt), mapKeySort(mt)
		st.get("md:"+n, SArr(SArrK(ks, SBool)))
		st.get("ml:"+n, SArr(SInt))
		out = append(out, protLoc{"md:" + n, m.L[0]}, protLoc{"ml:" + n, m.L[0]})
		for j, l := range leavesOf(mt.Underlying().(*types.Map).Elem()) {
			k := fmt.Sprintf("mv:%s#%d", n, j)
			st.get(k, SArr(SArrK(ks, l.Sort)))
			out = append(out, protLoc{k, m.L[0]})
		}
	}
	return out
}

func (ex *Exec) lockOp(st *State, p *Term, in ssa.Instruction) {
	name, obj := lockID(p)
	if isFld(p) {
		ex.safety(st, "nil-deref", in, Not(Eq(obj, Int(0))))
	}
	for _, l := range st.locks {
		if l.name == name {
			ex.oblige(st, "no-deadlock:"+name, "lock", Not(Eq(l.ref, obj)))
		}
	}
	mon := ex.cs.monitorNamed(name)
	if mon != nil && mon.First {
		for _, l := range st.locks {
			ex.oblige(st, "lock-order:"+name+" while holding "+l.name, "lock", tFalse)
		}
	}
	if mon != nil && !st.unshared(obj) {
		// its invariant may speak of what other locks protect
		env := ex.monEnv(st, mon, obj)
		for _, c := range mon.Interf {
			o := env.eval(c.Expr)
			var m2 *Monitor
			for _, m := range ex.cs.monitors {
				if pt, ok := o.T.Underlying().(*types.Pointer); ok && m.Type != nil && types.Identical(pt.Elem(), m.Type) {
					m2 = m
				}
			}
			if m2 == nil {
				ex.fail("no monitor of %s", o.T)
			}
			for _, l := range st.locks {
				if l.name == m2.Name {
					ex.fail("%s locked while %s is held", name, m2.Name)
				}
			}
			ex.interfere(st, m2, o.L[0])
		}
		ex.interfere(st, mon, obj)
	}
	st.locks = append(st.locks, Lock{ref: obj, name: name})
	snap := st.clone()
	st.locks[len(st.locks)-1].snap = snap
	if st.lockAt == nil {
		st.lockAt = map[string]*State{}
	}
	st.lockAt[name] = snap
	ex.event(st, "lock:"+name, []Val{intVal(obj)}, nil)
}

// interfere: another goroutine may have changed the protected state (the map
// fields themselves first, then the contents of the maps).
func (ex *Exec) interfere(st *State, mon *Monitor, obj *Term) {
	if st.unshared(obj) {
		return
	}
	before := st.clone()
	for _, maps := range []bool{false, true} {
		for _, pl := range ex.protLocs(st, mon, obj) {
			if strings.HasPrefix(pl.key, "m") != maps {
				continue
			}
			h := st.get(pl.key, keySorts[pl.key])
			if pl.ref == nil {
				st.set(pl.key, Fresh("lk!"+pl.key, h.Sort))
			} else {
				st.set(pl.key, Store(h, pl.ref, Fresh("lk!"+pl.key, elemSort(h.Sort))))
			}
		}
	}
	env := ex.monEnv(st, mon, obj)
	env.old = before
	env.bindHeld(before)
	for _, c := range mon.Inv {
		st.assume(env.evalBool(c.Expr))
	}
	for _, c := range mon.Rely {
		st.assume(env.evalBool(c.Expr))
	}
}

// ghosts updates the ghost times of a monitor when its lock is released.
func (ex *Exec) ghosts(st *State, mon *Monitor, obj *Term, env *Env) {
	for _, g := range mon.Stamps {
		c := env.evalBool(g.Cond.Expr)
		k := "gh:st:" + g.Name
		h := st.get(k, SArr(SInt))
		st.set(k, Store(h, obj, Ite(c, stTime(st), Select(h, obj))))
		n := "gh:n:" + g.Name
		m := st.get(n, SInt)
		st.set(n, Ite(c, Add(m, Int(1)), m))
	}
	for _, g := range mon.Collects {
		k := "gh:st:" + g.Name
		h := st.get(k, SArr(SInt))
		r := FreshVar("r", SInt)
		e2 := *env
		e2.vars = map[string]Val{}
		for n, v := range env.vars {
			e2.vars[n] = v
		}
		e2.vars[g.Var] = Val{T: g.Type, L: []*Term{r}}
		w, c := e2.evalBool(g.When.Expr), e2.evalBool(g.Cond.Expr)
		if w == tFalse {
			continue
		}
		nh := Fresh("collect", SArr(SInt))
		now := Select(nh, r)
		st.assume(Forall([]*Term{r}, [][]*Term{{now}}, Eq2(now, Ite(w, Ite(c, stTime(st), Int(-1)), Select(h, r)))))
		st.set(k, nh)
	}
}

// published checks the invariants of objects that others now know.
func (ex *Exec) published(st *State, r *Term) {
	t := ex.allocT[r]
	if t == nil {
		return
	}
	for _, mon := range ex.cs.monitors {
		if mon.Type == nil || len(mon.Inv) == 0 || !types.Identical(mon.Type, t) {
			continue
		}
		env := ex.monEnv(st, mon, r)
		env.bindHeld(st)
		for i, c := range mon.Inv {
			ex.oblige(st, "published-invariant:"+mon.Name+":"+label(c, i), "monitor", env.evalBool(c.Expr))
		}
	}
}

// bindHeld makes the locks held in s available to specifications.
func (e *Env) bindHeld(s *State) { e.lockSt = s }

func (ex *Exec) unlockOp(st *State, p *Term, in ssa.Instruction) {
	name, obj := lockID(p)
	idx := -1
	for i := len(st.locks) - 1; i >= 0; i-- {
		if st.locks[i].name == name && Eq(st.locks[i].ref, obj) == tTrue {
			idx = i
			break
		}
	}
	if idx < 0 {
		for i := len(st.locks) - 1; i >= 0; i-- {
			if st.locks[i].name == name {
				idx = i
				break
			}
		}
		if idx < 0 {
			ex.oblige(st, "unlock-held:"+name, "lock", tFalse)
			return
		}
		ex.oblige(st, "unlock-held:"+name, "lock", Eq(st.locks[idx].ref, obj))
	}
	l := st.locks[idx]
	mon := ex.cs.monitorNamed(name)
	for _, r := range st.pending {
		ex.published(st, r)
	}
	st.pending = nil
	if mon != nil {
		env := ex.monEnv(st, mon, obj)
		env.old = l.snap
		env.bindHeld(st)
		for i, c := range mon.Inv {
			ex.oblige(st, "monitor-invariant:"+name+":"+label(c, i), "monitor", env.evalBool(c.Expr))
		}
		for i, c := range mon.Guarantee {
			ex.oblige(st, "monitor-guarantee:"+name+":"+label(c, i), "monitor", env.evalBool(c.Expr))
		}
		ex.ghosts(st, mon, obj, env)
	}
	st.locks = append(append([]Lock(nil), st.locks[:idx]...), st.locks[idx+1:]...)
	if st.unlkAt == nil {
		st.unlkAt = map[string]*State{}
	}
	st.unlkAt[name] = st.clone()
	ex.event(st, "unlock:"+name, []Val{intVal(obj)}, nil)
}

func label(c Clause, i int) string {
	if c.Label != "" {
		return c.Label
	}
	return fmt.Sprint(i + 1)
}

// keepProtected: what a held lock protects is unchanged by unknown code.
func (ex *Exec) keepProtected(st *State, old map[string]*Term, mon *Monitor, l Lock) {
	tmp := &State{heap: old, hset: map[*Term]bool{}, ctr: st.ctr}
	for _, g := range mon.owns {
		t := ex.cs.globalType(g)
		sl := tmp.load(globalTerm(g, t), t)
		et := t.Underlying().(*types.Slice).Elem()
		if isStruct(et) || isArray(et) {
			ex.fail("owned slice %s of structures", g)
		}
		for i, s := range scalarSorts(et) {
			k := cellKey(et, i)
			was := tmp.get(k, SArr(s))
			now := st.get(k, SArr(s))
			if was == now {
				continue
			}
			r := FreshVar("r", SInt)
			e := Elem(sl.L[0], Add(sl.L[1], r))
			st.assume(Forall([]*Term{r}, [][]*Term{{Select(now, e)}}, Or(Lt(r, Int(0)), Le(sl.L[2], r), Eq2(Select(now, e), Select(was, e)))))
		}
	}
	for _, pl := range ex.protLocs(tmp, mon, l.ref) {
		o, ok := old[pl.key]
		if !ok {
			continue
		}
		h := st.get(pl.key, o.Sort)
		if pl.ref == nil {
			st.set(pl.key, o)
		} else {
			st.set(pl.key, Store(h, pl.ref, Select(o, pl.ref)))
		}
	}
}

// ---- atomics ----

type Atomic struct {
	Name  string // fld:... or gaddr:...
	Self  string
	Var   string
	Type  types.Type
	Pkg   *types.Package
	Store []Clause
	Load  []Clause
}

func (ex *Exec) atomicFor(p *Term) *Atomic {
	for _, a := range ex.cs.atomics {
		if a.Name == p.Name {
			return a
		}
	}
	return nil
}
func (ex *Exec) locType(p *Term, dflt types.Type) types.Type {
	if isFld(p) {
		fi := fldReg[p.Name]
		return fi.st.Field(fi.idx).Type()
	}
	if p.Op == "$f" && strings.HasPrefix(p.Name, "gaddr:") {
		return ex.cs.globalType(strings.TrimPrefix(p.Name, "gaddr:"))
	}
	return dflt
}
func (ex *Exec) atomicEnv(st *State, a *Atomic, p *Term, v Val) *Env {
	env := &Env{ex: ex, cs: ex.cs, st: st, vars: map[string]Val{}, pkg: a.Pkg}
	if isFld(p) {
		env.vars[a.Self] = Val{T: types.NewPointer(a.Type), L: []*Term{p.Args[0]}}
	}
	env.vars[a.Var] = Val{T: ex.locType(p, v.T), L: v.L}
	return env
}

func (ex *Exec) atomicLoad(st *State, p *Term, t types.Type, name string) Val {
	lt := ex.locType(p, t)
	if isFld(p) && st.unshared(p.Args[0]) {
		v := st.load(p, lt)
		v.T = t
		return v
	}
	if mon := ex.cs.protectedBy(p); mon != nil {
		for _, l := range st.locks {
			if l.name == mon.Name && (mon.Global || isFld(p) && Eq(l.ref, p.Args[0]) == tTrue) {
				v := st.load(p, lt) // only written under the lock we hold
				v.T = t
				return v
			}
		}
	}
	v := st.freshVal("atomic", lt)
	st.store(p, v)
	if a := ex.atomicFor(p); a != nil {
		env := ex.atomicEnv(st, a, p, v)
		for _, c := range a.Load {
			st.assume(env.evalBool(c.Expr))
		}
	}
	ex.event(st, "atomic.load:"+p.Name, []Val{intVal(p)}, []Val{v})
	v.T = t
	return v
}

func (ex *Exec) atomicStore(st *State, p *Term, v Val, name string) {
	lt := ex.locType(p, v.T)
	if mon := ex.cs.protectedBy(p); mon != nil {
		ex.needLock(st, mon, p)
	}
	w := v
	w.T = lt
	st.store(p, w)
	ex.publishVal(st, v)
	if a := ex.atomicFor(p); a != nil {
		env := ex.atomicEnv(st, a, p, w)
		for i, c := range a.Store {
			ex.oblige(st, "atomic-store:"+p.Name+":"+label(c, i), "monitor", env.evalBool(c.Expr))
		}
	}
	ex.event(st, "atomic.store:"+p.Name, []Val{intVal(p), w}, nil)
}
