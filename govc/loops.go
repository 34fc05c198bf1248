package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
	phis []*ssa.Phi
	id   string
}

var loopCache = map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}

func loopAt(fn *ssa.Function, b *ssa.BasicBlock) *loopInfo {
	m, ok := loopCache[fn]
	if !ok {
		m = map[*ssa.BasicBlock]*loopInfo{}
		loopCache[fn] = m
		for _, x := range fn.Blocks {
			for _, s := range x.Succs {
				if !s.Dominates(x) {
					continue
				}
				l := m[s]
				if l == nil {
					l = &loopInfo{head: s, body: map[*ssa.BasicBlock]bool{s: true}, id: fmt.Sprintf("%s:b%d", shortFn(fn), s.Index)}
					for _, in := range s.Instrs {
						if p, ok := in.(*ssa.Phi); ok {
							l.phis = append(l.phis, p)
						}
					}
					m[s] = l
				}
				var add func(b *ssa.BasicBlock)
				add = func(b *ssa.BasicBlock) {
					if l.body[b] {
						return
					}
					l.body[b] = true
					for _, p := range b.Preds {
						add(p)
					}
				}
				add(x)
			}
		}
	}
	return m[b]
}

type cand struct {
	name string
	t    *Term                // over the probe header's constants, or
	f    func(s *State) *Term // an arbitrary evaluation at a state
}

type loopRun struct {
	ex    *Exec
	l     *loopInfo
	d     int // frame index
	entry *State
	probe *State
	maxID int
	mods  map[string]bool
	all   bool
	pubs  map[*Term]bool
	edges []edge
	snaps map[string]bool // snapshots replaced in the loop
	cands []cand

	// fields of unshared objects, when the loop runs unknown code
	cells      []ownedCell
	cellMods   map[string]bool
	probeCells map[string]*Term
	settling   bool
	decs       []decCand // measures that may decrease
}

func (lr *loopRun) phi(s *State, p *ssa.Phi) Val { return s.frames[lr.d].env[p] }

// concreteBranch says whether the loop condition is decided syntactically, so
// that this iteration can simply be executed.
func (ex *Exec) concreteBranch(st *State, l *loopInfo) bool {
	last, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	if l.body[l.head.Succs[0]] && l.body[l.head.Succs[1]] {
		return false
	}
	tmp := st.clone()
	f := tmp.top()
	for _, in := range l.head.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Next:
			it := ex.val(tmp, x.Iter).Iter
			return it != nil && it.concrete
		case *ssa.BinOp:
			f.env[x] = ex.binop(tmp, x)
			v := f.env[x]
			v.T = x.Type()
			f.env[x] = v
		case *ssa.UnOp:
			if x.Op.String() != "*" {
				return false
			}
			p := ex.val(tmp, x.X)
			if p.Addr != nil {
				return false
			}
			f.env[x] = tmp.load(p.L[0], x.Type())
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				v := ex.val(tmp, x.Call.Args[0])
				if len(v.L) == 4 && v.PS == nil {
					f.env[x] = intVal(v.L[2])
					continue
				}
				if len(v.L) == 1 && v.L[0].Sort == SStr {
					f.env[x] = intVal(SLen(v.L[0]))
					continue
				}
			}
			return false
		case *ssa.If:
			c, ok := f.env[last.Cond]
			if !ok {
				return false
			}
			return c.L[0] == tTrue || c.L[0] == tFalse
		default:
			return false
		}
	}
	return false
}

func (ex *Exec) loop(st *State, l *loopInfo) []*State {
	if ex.concreteBranch(st, l) || ex.isInit || ex.cur.Unroll {
		st.top().noHeader = true
		return one(st)
	}
	lr := &loopRun{ex: ex, l: l, d: len(st.frames) - 1, entry: st, mods: map[string]bool{}, pubs: map[*Term]bool{}}
	saved := ex.vcs
	nfail := len(saved)
	_ = nfail
	// which parts of the state does the loop change?
	var backs []*State
	for round := 0; ; round++ {
		if round > 12 {
			ex.fail("loop %s: modified set does not converge", l.id)
		}
		ex.trial++
		lr.settling = true
		lr.cells = ex.ownedCells(st, st.heap)
		lr.probe = lr.header()
		lr.settling = false
		lr.maxID = db.n
		backs, _ = lr.explore(lr.probe)
		ex.trial--
		if !lr.grow(lr.probe, backs) {
			break
		}
	}
	lr.generate(backs)
	// candidates must hold on entry
	lr.filterEntry()
	// and be preserved: drop those that are not until the rest is inductive
	for round := 0; ; round++ {
		ex.vcs = nil
		hdr := lr.header()
		assumed := map[*Term]int{}
		ts := make([]*Term, len(lr.cands))
		for i, c := range lr.cands {
			t := lr.at(c, hdr)
			ts[i] = t
			assumed[t] = i
			hdr.assume(t)
		}
		backs, exits := lr.explore(hdr)
		if lr.grow(hdr, backs) {
			ex.fail("loop %s: modified set changed", l.id)
		}
		alive := lr.houdini(hdr, backs, ts)
		if len(alive) == len(lr.cands) {
			for _, b := range backs {
				lr.atBack(hdr, b)
			}
			lr.terminates(hdr, backs)
			inner := ex.vcs
			ex.vcs = saved
			if ex.trial == 0 {
				for _, c := range lr.cands {
					ex.vcs = append(ex.vcs, &VC{Name: "loop-invariant-entry:" + l.id + ":" + c.name, Kind: "invariant", Goal: tTrue, Fn: ex.cur.Name, Path: st.path(), Res: SolverResult{Res: "unsat", Solver: "houdini"}})
					for range backs {
						ex.vcs = append(ex.vcs, &VC{Name: "loop-invariant-kept:" + l.id + ":" + c.name, Kind: "invariant", Goal: tTrue, Fn: ex.cur.Name, Path: st.path(), Res: SolverResult{Res: "unsat", Solver: "houdini"}})
					}
				}
				if debugLoops {
					fmt.Fprintf(os.Stderr, "loop %s (%d backs, %d exits) invariants:\n", l.id, len(backs), len(exits))
					for i, c := range lr.cands {
						fmt.Fprintf(os.Stderr, "   %s: %s\n", c.name, ts[i])
					}
				}
			}
			ex.vcs = append(ex.vcs, inner...)
			return exits
		}
		lr.cands = alive
	}
}

var debugLoops = os.Getenv("GOVC_LOOPS") != ""

// header makes the state at an arbitrary iteration.
func (lr *loopRun) header() *State {
	h := lr.entry.clone()
	if lr.all {
		h.havocAll()
	}
	for _, k := range sortedKeys(lr.mods) {
		if lr.all && !keptOver(k) {
			continue
		}
		h.heap[k] = Fresh("L!"+k, keySorts[k])
	}
	nc := Fresh("ctr", SInt)
	h.assume(Le(h.ctr, nc))
	h.ctr = nc
	for _, k := range sortedKeys(lr.mods) {
		if t := h.heap[k]; t != nil && t.Op == "$c" {
			bornCtr[t] = nc
		}
	}
	if lr.all {
		// fields of unshared objects are like variables of the loop
		cells := map[string]*Term{}
		for _, c := range lr.cells {
			v := c.v
			if lr.cellMods[c.k+"@"+c.u.String()] {
				v = Fresh("C!"+c.k, c.v.Sort)
			}
			cells[c.k+"@"+c.u.String()] = v
			h.heap[c.k] = Store(h.get(c.k, keySorts[c.k]), c.u, v)
		}
		if lr.probeCells == nil || lr.settling {
			lr.probeCells = cells
		}
	}
	for p := range lr.pubs {
		h.hset[p] = true
	}
	h.edges = append(h.edges[:len(h.edges):len(h.edges)], lr.edges...)
	for k := range lr.snaps {
		delete(h.callAt, k)
		delete(h.lockAt, k)
		delete(h.unlkAt, k)
	}
	f := h.frames[lr.d]
	for _, p := range lr.l.phis {
		v := h.freshVal("phi."+p.Name(), p.Type())
		f.env[p] = v
	}
	if lr.mods["time"] {
		h.assume(Le(stTime(lr.entry), stTime(h)))
	}
	return h
}

func (lr *loopRun) isBack(s *State) bool {
	if s.status != Running || len(s.frames) != lr.d+1 {
		return false
	}
	f := s.frames[lr.d]
	return !f.unwinding && f.idx == 0 && f.block == lr.l.head && !f.noHeader
}

func (lr *loopRun) explore(hdr *State) (backs, exits []*State) {
	start := hdr.clone()
	start.top().noHeader = true
	res := lr.ex.run([]*State{start}, func(s *State) bool {
		if len(s.frames) < lr.d+1 {
			return true
		}
		if len(s.frames) == lr.d+1 {
			f := s.frames[lr.d]
			if f.unwinding || lr.isBack(s) {
				return true
			}
			if !lr.l.body[f.block] {
				return true
			}
		}
		return false
	})
	for _, s := range res {
		if lr.isBack(s) {
			backs = append(backs, s)
		} else {
			exits = append(exits, s)
		}
	}
	return
}

// grow adds newly changed state components to the modified set.
func (lr *loopRun) grow(hdr *State, backs []*State) bool {
	ch := false
	for _, b := range backs {
		if b.epoch != hdr.epoch && !lr.all {
			lr.all = true
			ch = true
		}
		if lr.all {
			for _, c := range lr.cells {
				n := c.k + "@" + c.u.String()
				if !lr.cellMods[n] && Select(b.get(c.k, keySorts[c.k]), c.u) != c.v {
					if lr.cellMods == nil {
						lr.cellMods = map[string]bool{}
					}
					lr.cellMods[n] = true
					ch = true
				}
			}
		}
		for k, t := range b.heap {
			h, ok := hdr.heap[k]
			if !ok {
				// first touched in the loop
				ep := hdr.epoch
				if keptOver(k) {
					ep = ""
				}
				h = Const("H!"+k+ep, keySorts[k])
			}
			if h != t && !lr.mods[k] && (!lr.all || keptOver(k)) {
				lr.mods[k] = true
				ch = true
				if _, ok := lr.entry.heap[k]; !ok {
					lr.entry.get(k, keySorts[k])
				}
			}
		}
		for t := range b.hset {
			if t.Op == "$f" && t.Name == "published" && !hdr.hset[t] && !lr.pubs[t] {
				// only objects that exist at the header matter
				if t.id <= lr.maxID || lr.ownedBefore(t.Args[0]) {
					lr.pubs[t] = true
					ch = true
				}
			}
		}
		for _, e := range b.edges[min(len(hdr.edges), len(b.edges)):] {
			if !lr.ownedBefore(e.from) || !lr.ownedBefore(e.to) {
				continue
			}
			known := false
			for _, x := range lr.edges {
				known = known || x == e
			}
			if !known {
				lr.edges = append(lr.edges, e)
				ch = true
			}
		}
		for _, mm := range [][2]map[string]*State{{b.callAt, hdr.callAt}, {b.lockAt, hdr.lockAt}, {b.unlkAt, hdr.unlkAt}} {
			for k := range mm[0] {
				if mm[0][k] != mm[1][k] && !lr.snaps[k] {
					if lr.snaps == nil {
						lr.snaps = map[string]bool{}
					}
					lr.snaps[k] = true
					ch = true
				}
			}
		}
		if len(b.locks) != len(hdr.locks) {
			lr.ex.fail("loop %s: the set of held locks changes", lr.l.id)
		}
		if len(b.frames[lr.d].defers) != len(hdr.frames[lr.d].defers) {
			lr.ex.fail("loop %s: defer in a loop", lr.l.id)
		}
	}
	return ch
}
func (lr *loopRun) ownedBefore(r *Term) bool {
	for _, a := range lr.entry.allocs {
		if a == r {
			return true
		}
	}
	return false
}

// sigma maps the probe header's unknowns to their values in s.
func (lr *loopRun) sigma(s *State) map[*Term]*Term {
	m := map[*Term]*Term{}
	pf := lr.probe.frames[lr.d]
	for _, p := range lr.l.phis {
		a, b := pf.env[p], s.frames[lr.d].env[p]
		for i := range a.L {
			if i < len(b.L) {
				m[a.L[i]] = b.L[i]
			}
		}
	}
	for k, t := range lr.probe.heap {
		if t.Op != "$c" {
			continue
		}
		if lr.mods[k] || lr.all && !keptOver(k) {
			m[t] = s.get(k, keySorts[k])
		}
	}
	if lr.all {
		for k := range keySorts {
			if keptOver(k) {
				continue
			}
			c := Const("H!"+k+lr.probe.epoch, keySorts[k])
			if _, ok := m[c]; !ok {
				m[c] = s.get(k, keySorts[k])
			}
		}
	}
	for _, c := range lr.cells {
		if t := lr.probeCells[c.k+"@"+c.u.String()]; t != nil && t != c.v {
			m[t] = Select(s.get(c.k, keySorts[c.k]), c.u)
		}
	}
	m[lr.probe.ctr] = s.ctr
	return m
}

func (lr *loopRun) at(c cand, s *State) *Term {
	if c.f != nil {
		return c.f(s)
	}
	return Subst(c.t, lr.sigma(s))
}

// usable: the term mentions only things known before the iteration.
func (lr *loopRun) usable(t *Term, extra ...*Term) bool {
	ok := true
	walk(t, map[*Term]bool{}, func(x *Term) {
		if x.Op == "$c" && x.id > lr.maxID {
			for _, e := range extra {
				if e == x {
					return
				}
			}
			ok = false
		}
	})
	return ok
}

// stable: usable and independent of what the loop changes.
func (lr *loopRun) stable(t *Term) bool {
	if !lr.usable(t) {
		return false
	}
	ch := lr.changing()
	return !occurs(t, ch)
}
func (lr *loopRun) changing() map[*Term]bool {
	ch := map[*Term]bool{lr.probe.ctr: true}
	pf := lr.probe.frames[lr.d]
	for _, p := range lr.l.phis {
		for _, t := range pf.env[p].L {
			ch[t] = true
		}
	}
	for k, t := range lr.probe.heap {
		if t.Op == "$c" && (lr.mods[k] || lr.all && !keptOver(k)) {
			ch[t] = true
		}
	}
	if lr.all {
		for k := range keySorts {
			if !keptOver(k) {
				ch[Const("H!"+k+lr.probe.epoch, keySorts[k])] = true
			}
		}
		for _, c := range lr.cells {
			if t := lr.probeCells[c.k+"@"+c.u.String()]; t != nil && t != c.v {
				ch[t] = true
			}
		}
	}
	return ch
}

type observable struct {
	name string
	c    *Term // probe term
	e    *Term // value on entry
	seq  bool
}

func (lr *loopRun) generate(backs []*State) {
	add := func(name string, t *Term) {
		if t == tTrue {
			return
		}
		lr.cands = append(lr.cands, cand{name: name, t: t})
	}
	probe, entry := lr.probe, lr.entry
	pf, ef := probe.frames[lr.d], entry.frames[lr.d]
	var obs []observable
	for _, p := range lr.l.phis {
		pv, ev := pf.env[p], ef.env[p]
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		switch u := p.Type().Underlying().(type) {
		case *types.Basic:
			switch {
			case pv.L[0].Sort == SInt:
				obs = append(obs, observable{nm, pv.L[0], ev.L[0], false})
			case pv.L[0].Sort == SStr:
				obs = append(obs, observable{"len." + nm, SLen(pv.L[0]), SLen(ev.L[0]), true})
				s, s0 := pv.L[0], ev.L[0]
				add(nm+".suffix", And(Le(SLen(s), SLen(s0)), Eq(s, SSub(s0, Sub(SLen(s0), SLen(s)), SLen(s0)))))
				add(nm+".same", Eq(s, s0))
				add(nm+".pfx", SPfx(s, s0))
				add(nm+".pfx0", SPfx(s0, s))
			default:
				add(nm+".same", Eq(pv.L[0], ev.L[0]))
			}
		case *types.Slice:
			obs = append(obs, observable{"len." + nm, pv.L[2], ev.L[2], true})
			add(nm+".arr", Eq(pv.L[0], ev.L[0]))
			add(nm+".off", Eq(pv.L[1], ev.L[1]))
			add(nm+".cap", Eq(pv.L[3], ev.L[3]))
			add(nm+".suffix", Eq(Sub(pv.L[1], ev.L[1]), Sub(ev.L[2], pv.L[2])))
			add(nm+".end", Eq(Sub(pv.L[1], ev.L[1]), Sub(ev.L[3], pv.L[3])))
			add(nm+".fresh", Or(Eq(pv.L[0], Int(0)), Le(entry.ctr, rootOf(pv.L[0]))))
			add(nm+".nonnil", Not(Eq(pv.L[0], Int(0))))
			add(nm+".empty-or-nonnil", Imp(Eq(pv.L[2], Int(0)), Eq(pv.L[0], Int(0))))
		default:
			_ = u
			for i := range pv.L {
				add(fmt.Sprintf("%s.same%d", nm, i), Eq(pv.L[i], ev.L[i]))
				switch pv.L[i].Sort {
				case SAny:
					add(nm+".nonnil", Not(Eq(pv.L[i], nilAny)))
				case SFn:
					add(nm+".nonnil", Not(Eq(pv.L[i], nilFn)))
				case SInt:
					add(nm+".nonnil", Not(Eq(pv.L[i], Int(0))))
				}
			}
		}
	}
	var kindsCh []string
	for _, k := range sortedKeys(lr.mods) {
		if strings.HasPrefix(k, "ev.n:") {
			obs = append(obs, observable{k, probe.heap[k], entry.get(k, SInt), false})
			kindsCh = append(kindsCh, strings.TrimPrefix(k, "ev.n:"))
		}
	}
	for _, o := range obs {
		add(o.name+">=", Le(o.e, o.c))
		if !strings.HasPrefix(o.name, "ev.") {
			add(o.name+"<=", Le(o.c, o.e))
			if z := Int(0); o.e != z {
				add(o.name+">=0", Le(z, o.c))
			}
			if o.e.isInt() {
				add(o.name+">=-1", Le(Int(-1), o.c))
			}
		}
	}
	for i, o := range obs {
		for _, q := range obs[i+1:] {
			add(o.name+"~"+q.name, Eq(Sub(o.c, o.e), Sub(q.c, q.e)))
			add(o.name+"~-"+q.name, Eq(Sub(o.c, o.e), Sub(q.e, q.c)))
		}
	}
	// conditions of the iteration, at the next index
	nh := len(probe.conds)
	type shift struct {
		p *Term
		k int64
	}
	seenC := map[*Term]bool{}
	addC := func(n string, t *Term) {
		if !seenC[t] && lr.usable(t) {
			seenC[t] = true
			add(n, t)
		}
	}
	ch := lr.changing()
	for _, b := range backs {
		m := map[*Term]*Term{}
		bs := map[*Term]*Term{}
		for _, p := range lr.l.phis {
			pv := pf.env[p]
			bv := b.frames[lr.d].env[p]
			for i := range pv.L {
				if pv.L[i].Sort == SInt && i < len(bv.L) {
					if k, ok := constDiff(bv.L[i], pv.L[i]); ok && k != 0 {
						m[pv.L[i]] = AddK(pv.L[i], -k)
						bs[pv.L[i]] = bv.L[i]
					}
				}
			}
		}
		for _, c := range b.conds[min(nh, len(b.conds)):] {
			if !occurs(c, ch) || !lr.usable(c) {
				continue
			}
			addC("cond", c)
			s := Subst(c, m)
			addC("cond-next", s)
			for _, w := range []*Term{c, s} {
				if w.Op == "<" {
					addC("bound", Le(w.Args[0], w.Args[1]))
				}
				if w.Op == "<=" {
					addC("bound", Le(w.Args[0], AddK(w.Args[1], 1)))
				}
			}
		}
	}
	// bounds from the loop condition even when it is not on a back path
	// history: what held for every index passed so far
	for _, o := range obs {
		if o.c.Op != "$c" {
			continue
		}
		step := int64(0)
		okAll := len(backs) > 0
		for _, b := range backs {
			bv := Subst(o.c, lr.sigmaOf(b))
			k, ok := constDiff(bv, o.c)
			if !ok || k != 1 && k != -1 || step != 0 && k != step {
				okAll = false
				break
			}
			step = k
		}
		if !okAll || strings.HasPrefix(o.name, "ev.") {
			continue
		}
		j := FreshVar("j", SInt)
		rng := And(Le(o.e, j), Lt(j, o.c))
		if step < 0 {
			rng = And(Lt(o.c, j), Le(j, o.e))
		}
		var alts []*Term
		for _, b := range backs {
			var cs []*Term
			for _, c := range b.conds[min(nh, len(b.conds)):] {
				if occurs(c, map[*Term]bool{o.c: true}) && lr.usable(c) {
					cs = append(cs, Subst(c, map[*Term]*Term{o.c: j}))
				}
			}
			alts = append(alts, And(cs...))
		}
		add("history:"+o.name, mkForall([]*Term{j}, nil, Imp(rng, Or(alts...))))
		// each condition common to all back paths, separately
		for _, c := range backs[0].conds[min(nh, len(backs[0].conds)):] {
			if !occurs(c, map[*Term]bool{o.c: true}) || !lr.usable(c) {
				continue
			}
			common := true
			for _, b := range backs[1:] {
				if !b.hset[c] {
					common = false
				}
			}
			if common {
				add("history1:"+o.name, mkForall([]*Term{j}, nil, Imp(rng, Subst(c, map[*Term]*Term{o.c: j}))))
			}
		}
		// filled elements
		for _, k := range sortedKeys(lr.mods) {
			if strings.HasPrefix(k, "ev.") || strings.HasPrefix(k, "it:") || !strings.HasPrefix(keySorts[k], "(Array Int ") {
				continue
			}
			for _, b := range backs {
				for _, w := range storesOf(b.heap[k], probe.heap[k]) {
					if !occurs(w[0], map[*Term]bool{o.c: true}) || !lr.usable(w[0]) || !lr.usable(w[1]) {
						continue
					}
					sub := map[*Term]*Term{o.c: j}
					add("fill:"+k, mkForall([]*Term{j}, nil, Imp(rng, Eq(Select(probe.heap[k], Subst(w[0], sub)), Subst(w[1], sub)))))
				}
			}
		}
		// recorded events, in step with the index
		for _, kd := range kindsCh {
			n, n0 := probe.heap["ev.n:"+kd], entry.get("ev.n:"+kd, SInt)
			for _, k := range sortedKeys(lr.mods) {
				if !strings.HasPrefix(k, "ev.a:"+kd+"#") && !strings.HasPrefix(k, "ev.r:"+kd+"#") {
					continue
				}
				for _, b := range backs {
					ws := storesOf(b.heap[k], probe.heap[k])
					if len(ws) != 1 || ws[0][0] != n || !lr.usable(ws[0][1]) || !occurs(ws[0][1], map[*Term]bool{o.c: true}) {
						continue
					}
					i := FreshVar("i", SInt)
					var jj *Term
					if step > 0 {
						jj = Add(o.e, Sub(i, n0))
					} else {
						jj = Sub(o.e, Sub(i, n0))
					}
					add("ev-index:"+k, mkForall([]*Term{i}, [][]*Term{{Select(probe.heap[k], i)}}, Imp(And(Le(n0, i), Lt(i, n)),
						Eq(Select(probe.heap[k], i), Subst(ws[0][1], map[*Term]*Term{o.c: jj})))))
					lr.evRead(add, k, n, n0, i, jj, ws[0][1], o.c)
				}
			}
		}
	}
	// frames of heap components
	for _, k := range sortedKeys(lr.mods) {
		if strings.HasPrefix(k, "ev.") || strings.HasPrefix(k, "it:") || k == "time" {
			continue
		}
		lr.frameCands(add, k, backs)
	}
	if lr.all {
		// components of unshared objects
		for _, c := range lr.cells {
			if t := lr.probeCells[c.k+"@"+c.u.String()]; t != nil && t != c.v {
				add("kept:"+c.k, Eq(t, c.v))
			}
		}
	}
	// event logs: the past does not change, and new entries are known
	for _, kd := range kindsCh {
		n, n0 := probe.heap["ev.n:"+kd], entry.get("ev.n:"+kd, SInt)
		for _, k := range sortedKeys(lr.mods) {
			pre := strings.HasPrefix(k, "ev.a:"+kd+"#") || strings.HasPrefix(k, "ev.r:"+kd+"#") || k == "ev.t:"+kd
			if !pre {
				continue
			}
			h, h0 := probe.heap[k], entry.get(k, keySorts[k])
			i := FreshVar("i", SInt)
			add("past:"+k, Forall([]*Term{i}, [][]*Term{{Select(h, i)}}, Imp(Lt(i, n0), Eq(Select(h, i), Select(h0, i)))))
			if strings.HasPrefix(k, "ev.t:") {
				add("evtime:"+k, Forall([]*Term{i}, [][]*Term{{Select(h, i)}}, Imp(And(Le(n0, i), Lt(i, n)), And(Le(stTime(entry), Select(h, i)), Lt(Select(h, i), probe.heap["time"])))))
				j := FreshVar("j", SInt)
				add("evorder:"+k, Forall([]*Term{i, j}, [][]*Term{{Select(h, i), Select(h, j)}}, Imp(And(Le(n0, i), Lt(i, j), Lt(j, n)), Lt(Select(h, i), Select(h, j)))))
				continue
			}
			for _, b := range backs {
				ws := storesOf(b.heap[k], h)
				for _, w := range ws {
					if lr.stable(w[1]) {
						add("evarg:"+k, Forall([]*Term{i}, [][]*Term{{Select(h, i)}}, Imp(And(Le(n0, i), Lt(i, n)), Eq(Select(h, i), w[1]))))
					}
				}
			}
		}
	}
	// map iteration
	for v, x := range ef.env {
		if x.Iter == nil || !lr.mods[x.Iter.id] {
			continue
		}
		_ = v
		it := x.Iter
		ks := mapKeySort(it.m.T)
		kv := FreshVar("k", ks)
		vis := probe.heap[it.id]
		add("visited", Forall([]*Term{kv}, [][]*Term{{Select(vis, kv)}}, Imp(Select(vis, kv), Select(probe.mapDom(it.m), kv))))
		var alts []*Term
		for _, b := range backs {
			ws := storesOf(b.heap[it.id], vis)
			if len(ws) != 1 {
				alts = append(alts, tTrue)
				continue
			}
			key := ws[0][0]
			var cs []*Term
			for _, c := range b.conds[min(nh, len(b.conds)):] {
				if occurs(c, map[*Term]bool{key: true}) && lr.usable(c, key) {
					cs = append(cs, Subst(c, map[*Term]*Term{key: kv}))
				}
			}
			alts = append(alts, And(cs...))
		}
		add("visited-history", mkForall([]*Term{kv}, [][]*Term{{Select(vis, kv)}}, Imp(Select(vis, kv), Or(alts...))))
	}
	lr.relations(backs)
	lr.templates()
	// dedupe
	seen := map[*Term]bool{}
	var out []cand
	for _, c := range lr.cands {
		if c.t != nil {
			if seen[c.t] {
				continue
			}
			seen[c.t] = true
		}
		out = append(out, c)
	}
	lr.cands = out
}

// evRead states an event-argument fact with a trigger on the source element.
func (lr *loopRun) evRead(add func(string, *Term), k string, n, n0, i, jj, v, p *Term) {}

func (lr *loopRun) sigmaOf(s *State) map[*Term]*Term { return lr.sigma(s) }

// storesOf lists the (index, value) pairs written on top of base.
func storesOf(t, base *Term) [][2]*Term {
	var out [][2]*Term
	for t != nil && t.Op == "store" {
		out = append(out, [2]*Term{t.Args[1], t.Args[2]})
		t = t.Args[0]
	}
	return out
}
func storeBase(t *Term) *Term {
	for t.Op == "store" {
		t = t.Args[0]
	}
	return t
}

func (lr *loopRun) frameCands(add func(string, *Term), k string, backs []*State) {
	probe, entry := lr.probe, lr.entry
	h, h0 := probe.heap[k], entry.get(k, keySorts[k])
	srt := keySorts[k]
	if !strings.HasPrefix(srt, "(Array Int ") {
		add("same:"+k, Eq2(h, h0))
		return
	}
	x := FreshVar("x", SInt)
	rd := Select(h, x)
	same := Eq2(rd, Select(h0, x))
	q := func(ex ...*Term) *Term {
		return Forall([]*Term{x}, [][]*Term{{rd}}, Or(append(ex, same)...))
	}
	fresh := Le(entry.ctr, App("root", SInt, x))
	add("frame-fresh:"+k, q(fresh))
	var tgt []*Term
	arrs := map[*Term]bool{}
	for _, b := range backs {
		for _, w := range storesOf(b.heap[k], h) {
			if lr.stable(w[0]) {
				tgt = append(tgt, Eq2(x, w[0]))
			} else if isElem(w[0]) && lr.stable(w[0].Args[0]) {
				arrs[w[0].Args[0]] = true
			}
		}
	}
	var as []*Term
	for a := range arrs {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	for _, a := range as {
		tgt = append(tgt, And(Eq2(App("kind", SInt, x), Int(1)), Eq2(App("earr", SInt, x), a)))
	}
	if len(tgt) > 0 {
		add("frame:"+k, q(tgt...))
		add("frame-or-fresh:"+k, q(append(tgt, fresh)...))
		for _, t := range tgt {
			_ = t
		}
	}
	add("same:"+k, Eq2(h, h0))
}

// relations: variables and fields that only ever take a few literal values
// (states of a state machine): their possible values, and for every two of
// them the pairs of values that do not occur together.
func (lr *loopRun) relations(backs []*State) {
	lr.couplings(backs)
	type obs struct {
		name string
		get  func(s *State) *Term
		vals []*Term
	}
	isLit := func(t *Term) bool { return t.isInt() || t == tTrue || t == tFalse || t.Op == "#bv" }
	var eqs map[*Term]*Term // what the current state's hypotheses say about reads
	learn := func(s *State) {
		eqs = map[*Term]*Term{}
		for _, h := range s.hyps {
			if h.Op != "=" {
				continue
			}
			for i, a := range h.Args {
				if o := h.Args[1-i]; a.Op == "select" && (isLit(o) || o.Op == "select" && o.id < a.id || o.Op == "ite") {
					eqs[a] = o
				}
			}
		}
	}
	var lits func(t *Term, out map[*Term]bool)
	lits = func(t *Term, out map[*Term]bool) {
		if isLit(t) {
			out[t] = true
		} else if o := eqs[t]; o != nil {
			lits(o, out)
		} else if t.Op == "ite" {
			lits(t.Args[1], out)
			lits(t.Args[2], out)
		}
	}
	var os []obs
	consider := func(name string, get func(s *State) *Term) {
		vs := map[*Term]bool{}
		learn(lr.entry)
		lits(get(lr.entry), vs)
		if len(vs) == 0 {
			return
		}
		for _, b := range backs {
			learn(b)
			lits(get(b), vs)
		}
		if len(vs) < 2 || len(vs) > 6 {
			return
		}
		o := obs{name: name, get: get}
		for v := range vs {
			o.vals = append(o.vals, v)
		}
		sort.Slice(o.vals, func(i, j int) bool { return o.vals[i].String() < o.vals[j].String() })
		os = append(os, o)
	}
	for _, p := range lr.l.phis {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0 {
			p := p
			consider(p.Name(), func(s *State) *Term { return s.frames[lr.d].env[p].L[0] })
		}
	}
	refs := append([]*Term{}, lr.ex.unsharedRefs(lr.entry)...)
	type fr struct {
		k string
		r *Term
	}
	seen := map[fr]bool{}
	for _, b := range backs {
		for _, k := range sortedKeys(b.heap) {
			t := b.heap[k]
			if !(strings.HasPrefix(k, "f:") || strings.HasPrefix(k, "m:")) || t.Sort != SArr(SInt) && t.Sort != SArr(SBool) {
				continue
			}
			for x := t; x.Op == "store"; x = x.Args[0] {
				r := x.Args[1]
				ok := false
				for _, u := range refs {
					ok = ok || u == r
				}
				if !ok && (lr.all || !lr.stable(r)) {
					continue
				}
				if isLit(x.Args[2]) && !seen[fr{k, r}] && len(seen) < 12 {
					seen[fr{k, r}] = true
					kk, srt := k, t.Sort
					consider(k, func(s *State) *Term { return Select(s.get(kk, srt), r) })
				}
			}
		}
	}
	for _, c := range lr.cells {
		srt := keySorts[c.k]
		if srt != SArr(SInt) && srt != SArr(SBool) || seen[fr{c.k, c.u}] || len(seen) >= 12 {
			continue
		}
		seen[fr{c.k, c.u}] = true
		k, u := c.k, c.u
		consider(k, func(s *State) *Term { return Select(s.get(k, srt), u) })
	}
	if len(os) > 8 {
		os = os[:8]
	}
	for i, a := range os {
		a := a
		lr.cands = append(lr.cands, cand{name: "values:" + a.name, f: func(s *State) *Term {
			var cs []*Term
			for _, v := range a.vals {
				cs = append(cs, Eq(a.get(s), v))
			}
			return Or(cs...)
		}})
		for _, b := range os[i+1:] {
			b := b
			for _, v := range a.vals {
				for _, w := range b.vals {
					v, w := v, w
					lr.cands = append(lr.cands, cand{name: fmt.Sprintf("never:%s=%s,%s=%s", a.name, v, b.name, w), f: func(s *State) *Term {
						return Not(And(Eq(a.get(s), v), Eq(b.get(s), w)))
					}})
				}
			}
		}
	}
}

// couplings proposes relations between the variables the loop changes and the
// fields of the objects only this code knows: that two of them are equal, that
// they change by the same amount, and that they change together with a latch
// or with the number of recorded calls.
func (lr *loopRun) couplings(backs []*State) {
	type obs struct {
		name string
		srt  string
		get  func(s *State) *Term
	}
	var os []obs
	for _, p := range lr.l.phis {
		p := p
		for i, t := range lr.probe.frames[lr.d].env[p].L {
			i := i
			os = append(os, obs{fmt.Sprintf("%s.%d", p.Name(), i), t.Sort, func(s *State) *Term { return s.frames[lr.d].env[p].L[i] }})
		}
	}
	nphi := len(os)
	if nphi > 12 {
		return
	}
	changed := func(get func(*State) *Term) bool {
		h := get(lr.probe)
		for _, b := range backs {
			if get(b) != h {
				return true
			}
		}
		return false
	}
	n := 0
	for _, c := range lr.cells {
		k, u, srt := c.k, c.u, keySorts[c.k]
		if !strings.HasPrefix(srt, "(Array Int ") || n > 12 {
			continue
		}
		get := func(s *State) *Term { return Select(s.get(k, srt), u) }
		if !changed(get) {
			continue
		}
		n++
		os = append(os, obs{k, strings.TrimSuffix(strings.TrimPrefix(srt, "(Array Int "), ")"), get})
	}
	type cnt struct {
		k string
		n func(s *State) *Term
	}
	var counts []cnt
	for k := range lr.mods {
		if strings.HasPrefix(k, "ev.n:") {
			k := k
			counts = append(counts, cnt{k, func(s *State) *Term { return s.get(k, SInt) }})
		}
	}
	sort.Slice(counts, func(i, j int) bool { return counts[i].k < counts[j].k })
	add := func(name string, f func(s *State) *Term) {
		lr.cands = append(lr.cands, cand{name: name, f: f})
	}
	e := lr.entry
	for i, a := range os {
		a := a
		for j, b := range os[i+1:] {
			b := b
			if i+1+j < nphi || a.srt != b.srt {
				continue
			}
			add("same:"+a.name+","+b.name, func(s *State) *Term { return Eq(a.get(s), b.get(s)) })
			if a.srt == SInt {
				add("diff:"+a.name+","+b.name, func(s *State) *Term { return Eq(Sub(a.get(s), a.get(e)), Sub(b.get(s), b.get(e))) })
			}
		}
		if a.srt == SBool {
			for j, b := range os {
				if b := b; j != i {
					add("unless:"+a.name+","+b.name, func(s *State) *Term { return Imp(Eq(a.get(s), a.get(e)), Eq(b.get(s), b.get(e))) })
				}
			}
		}
		if a.srt != SBool || i < nphi {
			continue
		}
		set := func(s *State) *Term { return And(a.get(s), Not(a.get(e))) }
		add("latch:"+a.name, func(s *State) *Term { return Or(Not(a.get(e)), a.get(s)) })
		for _, c := range counts {
			c := c
			add("after:"+c.k+","+a.name, func(s *State) *Term { return Imp(Lt(c.n(e), c.n(s)), a.get(s)) })
			add("once:"+c.k+","+a.name, func(s *State) *Term { return Eq(c.n(s), Ite(set(s), Add(c.n(e), Int(1)), c.n(e))) })
		}
		for _, b := range os[nphi:] {
			b := b
			if b.srt != SInt {
				continue
			}
			vals := map[*Term]bool{}
			for _, s := range backs {
				for x := s.get(b.name, SArr(SInt)); x.Op == "store"; x = x.Args[0] {
					if x.Args[2].isInt() {
						vals[x.Args[2]] = true
					}
				}
			}
			for v := range vals {
				v := v
				add("latched:"+b.name+","+a.name+","+v.String(), func(s *State) *Term { return Eq(b.get(s), Ite(set(s), v, b.get(e))) })
			}
		}
	}
}

// templates instantiates the contract's invariant templates.
func (lr *loopRun) templates() {
	ex := lr.ex
	if ex.cur == nil {
		return
	}
	type binding struct {
		name string
		get  func(s *State) (Val, bool)
	}
	mkEnv := func(s *State, bs map[string]func(*State) (Val, bool)) (*Env, bool) {
		env := &Env{ex: ex, cs: ex.cs, st: s, old: ex.entry, pre: lr.entry, vars: map[string]Val{}, ovars: map[string]Val{}, pkg: ex.cur.Pkg}
		for _, in := range lr.l.head.Instrs {
			if nx, ok := in.(*ssa.Next); ok {
				if it := s.frames[lr.d].env[nx.Iter].Iter; it != nil {
					env.iter = it.id
				}
			}
		}
		for k, v := range ex.params {
			env.vars[k] = v
		}
		env2 := *env
		env2.st = ex.entry
		env2.bindLets(ex.cur)
		for n, g := range bs {
			v, ok := g(s)
			if !ok {
				return nil, false
			}
			env.vars[n] = v
			o, ok := g(lr.entry)
			if ok {
				env.ovars[n] = o
			}
		}
		return env, true
	}
	f := lr.probe.frames[lr.d]
	nInvs := len(ex.cur.Invs)
	for ti, tm := range append(append([]InvTmpl{}, ex.cur.Invs...), ex.cur.Decs...) {
		isDec := ti >= nInvs
		// possible values of each variable
		var choices [][]binding
		env0 := &Env{ex: ex, cs: ex.cs, st: lr.probe, pkg: ex.cur.Pkg}
		ok := true
		for _, v := range tm.Vars {
			t := env0.typeOf(v.Type)
			var bs []binding
			for _, p := range lr.l.phis {
				if types.Identical(p.Type(), t) {
					p := p
					bs = append(bs, binding{p.Name(), func(s *State) (Val, bool) { return s.frames[lr.d].env[p], true }})
				}
			}
			// registers and variables defined before the loop
			var regs []ssa.Value
			for x := range f.env {
				regs = append(regs, x)
			}
			sort.Slice(regs, func(i, j int) bool { return regs[i].Name() < regs[j].Name() })
			for _, x := range regs {
				x := x
				isPhi := false
				for _, p := range lr.l.phis {
					if ssa.Value(p) == x {
						isPhi = true
					}
				}
				if isPhi {
					continue
				}
				if al, isA := x.(*ssa.Alloc); isA {
					et := al.Type().(*types.Pointer).Elem()
					if types.Identical(et, t) {
						bs = append(bs, binding{x.Name(), func(s *State) (Val, bool) { return s.load(s.frames[lr.d].env[x].L[0], et), true }})
					}
				}
				if fv, isF := x.(*ssa.FreeVar); isF {
					if pt, okp := fv.Type().(*types.Pointer); okp && types.Identical(pt.Elem(), t) {
						bs = append(bs, binding{x.Name(), func(s *State) (Val, bool) { return s.load(s.frames[lr.d].env[x].L[0], pt.Elem()), true }})
					}
				}
				if types.Identical(x.Type(), t) && f.env[x].PS == nil && f.env[x].Addr == nil {
					if _, isP := x.(*ssa.Parameter); isP || usedInLoop(x, lr.l) {
						bs = append(bs, binding{x.Name(), func(s *State) (Val, bool) { return s.frames[lr.d].env[x], true }})
					}
				}
			}
			if len(bs) == 0 {
				ok = false
			}
			choices = append(choices, bs)
		}
		if !ok {
			continue
		}
		idx := make([]int, len(choices))
		n := 0
		for {
			bs := map[string]func(*State) (Val, bool){}
			desc := ""
			for i, v := range tm.Vars {
				bs[v.Name] = choices[i][idx[i]].get
				desc += "," + choices[i][idx[i]].name
			}
			expr := tm.Expr
			fn := func(s *State) *Term {
				env, ok := mkEnv(s, bs)
				if !ok {
					return tTrue
				}
				return env.evalBool(expr)
			}
			// only if it can be evaluated here
			good := func() (g bool) {
				defer func() {
					if r := recover(); r != nil {
						if u, isU := r.(unsupported); isU {
							if debugLoops {
								fmt.Fprintf(os.Stderr, "template %d%s: %s\n", ti+1, desc, u.msg)
							}
							g = false
							return
						}
						panic(r)
					}
				}()
				if isDec {
					lr.decAt(mkEnv, bs, expr, lr.probe)
				} else {
					fn(lr.probe)
				}
				return true
			}()
			if good && isDec {
				lr.decs = append(lr.decs, decCand{fmt.Sprintf("dec%d%s", ti-nInvs+1, desc), func(s *State) *Term { return lr.decAt(mkEnv, bs, expr, s) }})
			} else if good {
				nm := tm.Label
				if nm == "" {
					nm = fmt.Sprintf("inv%d", ti+1)
				}
				lr.cands = append(lr.cands, cand{name: nm + desc, f: fn})
			}
			n++
			if n > 150 {
				break
			}
			k := 0
			for k < len(idx) {
				idx[k]++
				if idx[k] < len(choices[k]) {
					break
				}
				idx[k] = 0
				k++
			}
			if k == len(idx) {
				break
			}
		}
	}
}

type decCand struct {
	name string
	f    func(*State) *Term
}

func (lr *loopRun) decAt(mkEnv func(*State, map[string]func(*State) (Val, bool)) (*Env, bool), bs map[string]func(*State) (Val, bool), expr ast.Expr, s *State) *Term {
	env, ok := mkEnv(s, bs)
	if !ok {
		return nil
	}
	return env.eval(expr).L[0]
}

// terminates shows that some measure of the contract decreases with every
// iteration and is never negative.
func (lr *loopRun) terminates(hdr *State, backs []*State) {
	ex := lr.ex
	if ex.cur == nil || len(ex.cur.Decs) == 0 || ex.trial > 0 || len(backs) == 0 {
		return
	}
	for _, in := range lr.l.head.Instrs {
		if _, ok := in.(*ssa.Next); ok { // a range over a map or a string
			return
		}
	}
	goals := func(d decCand) []*Term {
		h := d.f(hdr)
		if h == nil {
			return nil
		}
		var r []*Term
		for _, b := range backs {
			n := d.f(b)
			if n == nil {
				return nil
			}
			r = append(r, And(Le(Int(0), h), Lt(n, h)))
		}
		return r
	}
	for _, d := range lr.decs {
		gs := goals(d)
		var qs []*Query
		for i, g := range gs {
			if g == tFalse {
				qs = nil
				break
			}
			qs = append(qs, &Query{Name: "decreases", Hyps: backs[i].hyps, Goal: g})
		}
		if len(qs) == 0 {
			continue
		}
		good := true
		for _, q := range qs { // the first one decides most often
			if good && solver.CheckAll([]*Query{q}, 0)[0].Res != "unsat" {
				good = false
			}
		}
		if good {
			for i, g := range gs {
				ex.oblige(backs[i], "decreases:"+lr.l.id+":"+d.name, "decreases", g)
			}
			return
		}
	}
	for _, b := range backs {
		ex.oblige(b, "decreases:"+lr.l.id, "decreases", tFalse)
	}
}

func usedInLoop(v ssa.Value, l *loopInfo) bool {
	r := v.Referrers()
	if r == nil {
		return false
	}
	for _, in := range *r {
		if in.Block() != nil {
			return true
		}
	}
	return false
}

var dumpN int

func (lr *loopRun) filterEntry() {
	var qs []*Query
	var idx []int
	keep := make([]bool, len(lr.cands))
	for i, c := range lr.cands {
		t := lr.at(c, lr.entry)
		if t == tTrue || lr.entry.hset[t] {
			keep[i] = true
			continue
		}
		if t == tFalse {
			continue
		}
		qs = append(qs, &Query{Name: fmt.Sprintf("inv-entry:%d:%s", i, c.name), Hyps: lr.entry.hyps, Goal: t})
		idx = append(idx, i)
	}
	rs := lr.ex.checkBatch(qs)
	for j, ok := range rs {
		keep[idx[j]] = ok
	}
	var out []cand
	for i, c := range lr.cands {
		if keep[i] {
			out = append(out, c)
		} else if debugLoops {
			fmt.Fprintf(os.Stderr, "loop %s: %s fails on entry\n", lr.l.id, c.name)
			if d := os.Getenv("GOVC_DUMPINV"); d != "" {
				dumpN++
				os.WriteFile(fmt.Sprintf("%s/%04d-%s-%s.smt2", d, dumpN, strings.ReplaceAll(lr.l.id, "/", "."), c.name), []byte(buildQuery(&Query{Hyps: lr.entry.hyps, Goal: lr.at(c, lr.entry)})), 0644)
			}
		}
	}
	lr.cands = out
}

// checkBatch proves queries that share their hypotheses, together if possible.
func (ex *Exec) checkBatch(qs []*Query) []bool {
	if len(qs) == 0 {
		return nil
	}
	return ex.checkBatches([][]*Query{qs})[0]
}

// guessed tells whether a candidate is one of the many equalities that are
// tried on the off-chance.
func guessed(name string) bool {
	return strings.Contains(name, ":same:") && !strings.Contains(name, ",") || strings.Contains(name, "~")
}

func quantified(t *Term) bool {
	if q, ok := quantCache[t]; ok {
		return q
	}
	q := t.Op == "forall" || t.Op == "exists"
	for _, a := range t.Args {
		if q {
			break
		}
		q = quantified(a)
	}
	quantCache[t] = q
	return q
}

var quantCache = map[*Term]bool{}

func (ex *Exec) checkBatches(batches [][]*Query) [][]bool {
	out := make([][]bool, len(batches))
	var multi []*Query
	for b, qs := range batches {
		out[b] = make([]bool, len(qs))
		q := &Query{Name: qs[0].Name, Hyps: qs[0].Hyps}
		for _, x := range qs {
			q.Goals = append(q.Goals, x.Goal)
		}
		multi = append(multi, q)
	}
	// Guessed equalities hold for simple reasons or not at all: try them
	// without the quantified hypotheses.
	dead := map[string]bool{}
	var light []*Query
	var lightAt [][]int
	for b, qs := range batches {
		q := &Query{Name: qs[0].Name + " (light)"}
		for _, h := range qs[0].Hyps {
			if !quantified(h) {
				q.Hyps = append(q.Hyps, h)
			}
		}
		var at, rest []int
		for i, x := range qs {
			if guessed(x.Name) && !quantified(x.Goal) {
				at = append(at, i)
				q.Goals = append(q.Goals, x.Goal)
			} else {
				rest = append(rest, i)
			}
		}
		if len(at) > 0 {
			light, lightAt = append(light, q), append(lightAt, append(at, b))
		}
		m := multi[b]
		m.Goals = nil
		for _, i := range rest {
			m.Goals = append(m.Goals, qs[i].Goal)
		}
	}
	for x, rs := range solver.CheckMulti(light) {
		at := lightAt[x]
		b := at[len(at)-1]
		for j, i := range at[:len(at)-1] {
			if j < len(rs) && rs[j] == "unsat" {
				out[b][i] = true
			} else {
				dead[batches[b][i].Name] = true
			}
		}
	}
	// a candidate that fails once needs no further check
	var again []*Query
	var at [][2]int
	var heavy []*Query
	var heavyAt []int
	for b, q := range multi {
		if len(q.Goals) > 0 {
			heavy, heavyAt = append(heavy, q), append(heavyAt, b)
		}
	}
	for x, rs := range solver.CheckMulti(heavy) {
		b := heavyAt[x]
		j := -1
		for i, q := range batches[b] {
			if guessed(q.Name) && !quantified(q.Goal) {
				continue
			}
			j++
			switch {
			case j < len(rs) && rs[j] == "unsat":
				out[b][i] = true
			case j < len(rs) && rs[j] == "sat":
				dead[q.Name] = true
			default:
				again, at = append(again, q), append(at, [2]int{b, i})
			}
		}
	}
	for len(again) > 0 {
		var qs []*Query
		var o, later [][2]int
		var rest []*Query
		flying := map[string]bool{}
		for x, q := range again {
			if dead[q.Name] {
				continue
			}
			if flying[q.Name] || len(qs) >= 16 {
				rest, later = append(rest, q), append(later, at[x])
				continue
			}
			flying[q.Name] = true
			qs, o = append(qs, q), append(o, at[x])
		}
		for x, r := range solver.CheckAll(qs, 0) {
			if r.Res == "unsat" {
				out[o[x][0]][o[x][1]] = true
			} else {
				dead[qs[x].Name] = true
			}
		}
		again, at = rest, later
	}
	return out
}

// houdini drops the candidates that some iteration does not preserve, taking
// the dropped ones out of the hypotheses, and returns the rest.
func (lr *loopRun) houdini(hdr *State, backs []*State, ts []*Term) []cand {
	alive := make([]bool, len(lr.cands))
	for i := range alive {
		alive[i] = true
	}
	goals := make([][]*Term, len(backs))
	for bi, b := range backs {
		for _, c := range lr.cands {
			goals[bi] = append(goals[bi], lr.at(c, b))
		}
	}
	for changed := true; changed; {
		changed = false
		dropped := map[*Term]bool{}
		live := map[*Term]bool{}
		for i, t := range ts {
			for _, x := range conjuncts(t) {
				if alive[i] {
					live[x] = true
				} else {
					dropped[x] = true
				}
			}
		}
		var batches [][]*Query
		var idx [][]int
		var at []int
		for bi, b := range backs {
			var hyps []*Term
			for _, h := range b.hyps {
				if dropped[h] && !live[h] && !lr.entry.hset[h] {
					continue
				}
				hyps = append(hyps, h)
			}
			hs := map[*Term]bool{}
			for _, h := range hyps {
				hs[h] = true
			}
			var qs []*Query
			var ix []int
			for i := range lr.cands {
				if !alive[i] {
					continue
				}
				g := goals[bi][i]
				if g == tTrue || hs[g] {
					continue
				}
				if g == tFalse {
					alive[i] = false
					changed = true
					continue
				}
				qs = append(qs, &Query{Name: fmt.Sprintf("inv-kept:%d:%s", i, lr.cands[i].name), Hyps: hyps, Goal: g})
				ix = append(ix, i)
			}
			if len(qs) > 0 {
				batches, idx, at = append(batches, qs), append(idx, ix), append(at, bi)
			}
		}
		for x, rs := range lr.ex.checkBatches(batches) {
			for j, ok := range rs {
				if i := idx[x][j]; !ok && alive[i] {
					alive[i] = false
					changed = true
					if debugLoops {
						if d := os.Getenv("GOVC_DUMPINV"); d != "" {
							dumpN++
							os.WriteFile(fmt.Sprintf("%s/kept-%04d-%s.smt2", d, dumpN, strings.ReplaceAll(lr.cands[i].name, "/", ".")), []byte(buildQuery(batches[x][j])), 0644)
						}
						fmt.Fprintf(os.Stderr, "loop %s: %s not preserved on path %s\n", lr.l.id, lr.cands[i].name, backs[at[x]].path())
						if os.Getenv("GOVC_LOOPS") == "2" {
							fmt.Fprintf(os.Stderr, "     %s\n", goals[at[x]][i])
						}
					}
				}
			}
		}
	}
	var out []cand
	for i, c := range lr.cands {
		if alive[i] {
			out = append(out, c)
		}
	}
	return out
}
func conjuncts(t *Term) []*Term {
	if t.Op == "and" {
		return t.Args
	}
	return []*Term{t}
}

// atBack checks the contract's step clauses at the end of an iteration.
func (lr *loopRun) atBack(hdr, b *State) {
	ex := lr.ex
	if ex.cur == nil || len(ex.cur.Steps) == 0 {
		return
	}
	if lr.entry.frames[lr.d].fn != ex.cur.Fn {
		return
	}
	env := &Env{ex: ex, cs: ex.cs, st: b, old: hdr, pre: lr.entry, vars: map[string]Val{}, pkg: ex.cur.Pkg}
	for k, v := range ex.params {
		env.vars[k] = v
	}
	for i, c := range ex.cur.Steps {
		ex.oblige(b, "step:"+label(c, i), "step", env.evalBool(c.Expr))
	}
}
