package main

import (
	"golang.org/x/tools/go/ssa"
)

// Merging: paths that reach a loop header with the same state, up to the
// conditions that led there, continue as one.

func atHeader(st *State) bool {
	f := st.top()
	return st.status == Running && !f.unwinding && f.idx == 0 && !f.noHeader && loopAt(f.fn, f.block) != nil
}

type livePoint struct {
	b   *ssa.BasicBlock
	idx int
}

var liveCache = map[livePoint]map[ssa.Value]bool{}

// liveFrom: the values that code from the given point on may use.
func liveFrom(b *ssa.BasicBlock, idx int) map[ssa.Value]bool {
	p := livePoint{b, idx}
	if l, ok := liveCache[p]; ok {
		return l
	}
	l := map[ssa.Value]bool{}
	use := func(ins []ssa.Instruction) {
		var rs [10]*ssa.Value
		for _, in := range ins {
			for _, o := range in.Operands(rs[:0]) {
				if *o != nil {
					l[*o] = true
				}
			}
			if v, ok := in.(*ssa.Phi); ok {
				l[v] = true
			}
		}
	}
	use(b.Instrs[min(idx, len(b.Instrs)):])
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(x *ssa.BasicBlock)
	visit = func(x *ssa.BasicBlock) {
		for _, s := range x.Succs {
			if !seen[s] {
				seen[s] = true
				use(s.Instrs)
				visit(s)
			}
		}
	}
	visit(b)
	if r := b.Parent().Recover; r != nil && !seen[r] {
		seen[r] = true
		use(r.Instrs)
		visit(r)
	}
	liveCache[p] = l
	return l
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameVal(a, b Val) bool {
	if !sameTerms(a.L, b.L) || len(a.Tup) != len(b.Tup) {
		return false
	}
	for i := range a.Tup {
		if !sameVal(a.Tup[i], b.Tup[i]) {
			return false
		}
	}
	if a.Addr != b.Addr || a.PS != b.PS || len(a.Cells) != len(b.Cells) {
		return false
	}
	if a.Iter != b.Iter {
		return false
	}
	return true
}

func sameHeap(a, b *State) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || a.epoch != b.epoch || a.ctr != b.ctr {
		return false
	}
	for k := range a.heap {
		if a.heap[k] != b.get(k, keySorts[k]) {
			return false
		}
	}
	for k := range b.heap {
		if b.heap[k] != a.get(k, keySorts[k]) {
			return false
		}
	}
	return true
}

func sameSnaps(a, b map[string]*State) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if y, ok := b[k]; !ok || !sameHeap(a[k], y) {
			return false
		}
	}
	return true
}

func mergeable(a, b *State) bool {
	if len(a.frames) != len(b.frames) || len(a.locks)+len(b.locks) > 0 || a.asyncD != b.asyncD || a.nolog != b.nolog ||
		a.pval != b.pval || len(a.ret)+len(b.ret) > 0 {
		return noMerge(1)
	}
	if afterInit(a) && afterInit(b) {
		if a.epoch != b.epoch {
			return noMerge(8)
		}
	} else if !sameHeap(a, b) || len(a.allocs) != len(b.allocs) {
		return noMerge(1)
	} else {
		for i, r := range a.allocs {
			if b.allocs[i] != r {
				return noMerge(2)
			}
		}
	}
	for i, f := range a.frames {
		g := b.frames[i]
		if f.fn != g.fn || f.block != g.block || f.idx != g.idx || f.callInstr != g.callInstr || f.isDefer != g.isDefer ||
			f.panicking != g.panicking || f.recovered != g.recovered || f.unwinding != g.unwinding || f.noHeader != g.noHeader ||
			f.async != g.async || f.asyncSave != nil || g.asyncSave != nil || f.onRet != nil || g.onRet != nil ||
			f.notDeferred != g.notDeferred || len(f.defers) != len(g.defers) {
			return noMerge(3)
		}
		for j, d := range f.defers {
			e := g.defers[j]
			if d.call != e.call || d.instr != e.instr || !sameVal(d.fn, e.fn) || len(d.args) != len(e.args) {
				return noMerge(4)
			}
			for k := range d.args {
				if !sameVal(d.args[k], e.args[k]) {
					return noMerge(5)
				}
			}
		}
		for v := range liveFrom(f.block, f.idx) {
			x, ok := f.env[v]
			y, ok2 := g.env[v]
			if ok && ok2 && !sameVal(x, y) {
				return noMerge(6)
			}
			if ok != ok2 {
				return noMerge(7)
			}
		}
	}
	return sameSnaps(a.callAt, b.callAt) && sameSnaps(a.lockAt, b.lockAt) && sameSnaps(a.unlkAt, b.unlkAt)
}

// afterInit: the initialisation of the package has just ended. Here states
// are merged even if they differ.
func afterInit(s *State) bool {
	f := s.top()
	return initMerge && len(s.frames) == 1 && f.idx == 0 && f.block == f.fn.Blocks[0] && len(f.env) == len(f.fn.Params)
}

var initMerge bool

// unify gives a and b the same heap, where they differ an unknown one.
func unify(a, b *State) {
	if a.ctr != b.ctr {
		c := Fresh("ctr", SInt)
		for _, s := range []*State{a, b} {
			s.assume(Le(s.ctr, c))
			s.ctr = c
		}
	}
	keys := map[string]bool{}
	for k := range a.heap {
		keys[k] = true
	}
	for k := range b.heap {
		keys[k] = true
	}
	for _, k := range sortedKeys(keys) {
		x, y := a.get(k, keySorts[k]), b.get(k, keySorts[k])
		if x == y {
			continue
		}
		v := Fresh("mg", x.Sort)
		a.assume(Eq2(v, x))
		b.assume(Eq2(v, y))
		a.set(k, v)
		b.set(k, v)
	}
	var al []*Term
	for i := 0; i < len(a.allocs) && i < len(b.allocs) && a.allocs[i] == b.allocs[i]; i++ {
		al = append(al, a.allocs[i])
	}
	a.allocs, b.allocs = al, al
}

// mergeInto weakens a to cover b as well.
func mergeInto(a, b *State) {
	if !sameHeap(a, b) || len(a.allocs) != len(b.allocs) {
		unify(a, b)
	}
	var both, onlyA, onlyB []*Term
	inA := map[*Term]bool{}
	for _, h := range a.hyps {
		inA[h] = true
		if b.hset[h] {
			both = append(both, h)
		} else {
			onlyA = append(onlyA, h)
		}
	}
	for _, h := range b.hyps {
		if !inA[h] {
			onlyB = append(onlyB, h)
		}
	}
	pub := func(t *Term) bool { return t.Op == "$f" && t.Name == "published" }
	hset := map[*Term]bool{}
	for t := range a.hset {
		if pub(t) || b.hset[t] {
			hset[t] = true
		}
	}
	for t := range b.hset {
		if pub(t) {
			hset[t] = true
		}
	}
	a.hyps, a.hset = both, hset
	a.assume(Or(And(onlyA...), And(onlyB...)))
	n := 0
	for n < len(a.conds) && n < len(b.conds) && a.conds[n] == b.conds[n] {
		n++
	}
	a.conds = a.conds[:n:n]
	for _, r := range b.pending {
		known := false
		for _, q := range a.pending {
			known = known || q == r
		}
		if !known {
			a.pending = append(a.pending, r)
		}
	}
	for _, e := range b.edges {
		known := false
		for _, x := range a.edges {
			known = known || x == e
		}
		if !known {
			a.edges = append(a.edges[:len(a.edges):len(a.edges)], e)
		}
	}
	for i, f := range a.frames {
		g := b.frames[i]
		for v := range f.env {
			if y, ok := g.env[v]; !ok || !sameVal(f.env[v], y) {
				delete(f.env, v)
			}
		}
	}
	if b.branchN > a.branchN {
		a.branchN = b.branchN
	}
	if k := len(a.trace); k == 0 || a.trace[k-1] != "*" {
		a.trace = append(a.trace, "*")
	}
}

func mergeStates(ps []*State) []*State {
	var out []*State
next:
	for _, s := range ps {
		for _, o := range out {
			if mergeable(o, s) {
				mergeInto(o, s)
				continue next
			}
		}
		out = append(out, s)
	}
	return out
}

func noMerge(why int) bool {
	if debugLoops {
		println("no merge", why)
	}
	return false
}

var rpoCache = map[*ssa.Function]map[*ssa.BasicBlock]int{}

// rpo numbers the blocks so that those that come first have lower numbers.
func rpo(fn *ssa.Function) map[*ssa.BasicBlock]int {
	if m, ok := rpoCache[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]int{}
	seen := map[*ssa.BasicBlock]bool{}
	n := 0
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				visit(s)
			}
		}
		n--
		m[b] = n
	}
	if len(fn.Blocks) > 0 {
		visit(fn.Blocks[0])
	}
	if fn.Recover != nil && !seen[fn.Recover] {
		visit(fn.Recover)
	}
	rpoCache[fn] = m
	return m
}

// earliest takes out the waiting states that the others may still catch up
// with last: the innermost ones, at the first of their places.
func earliest(ps []*State) (first, rest []*State) {
	before := func(a, b *State) bool {
		if len(a.frames) != len(b.frames) {
			return len(a.frames) > len(b.frames)
		}
		for i := range a.frames {
			f, g := a.frames[i], b.frames[i]
			if f.fn != g.fn {
				return false
			}
			if f.block != g.block {
				r := rpo(f.fn)
				return r[f.block] < r[g.block]
			}
			if f.idx != g.idx {
				return f.idx < g.idx
			}
		}
		return false
	}
	m := ps[0]
	for _, s := range ps[1:] {
		if before(s, m) {
			m = s
		}
	}
	for _, s := range ps {
		if before(m, s) {
			rest = append(rest, s)
		} else {
			first = append(first, s)
		}
	}
	return
}
