package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type World struct {
	prog *ssa.Program
	fset *token.FileSet
	pkgs []*packages.Package
	sps  []*ssa.Package
	cs   *Contracts
	fns  []*ssa.Function // every function of the repository, with anonymous ones
	init *initInfo
}

// load reads the current source of the repository, with the client functions
// overlaid into their packages.
func load(repo string, overlay map[string][]byte, patterns []string) (*World, error) {
	mode := packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps
	cfg := &packages.Config{Mode: mode, Dir: repo, Overlay: overlay}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	w := &World{pkgs: pkgs}
	w.prog, w.sps = ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	w.prog.Build()
	w.fset = pkgs[0].Fset
	cs := newContracts(w.prog, w.fset)
	w.cs = cs
	// packages by name and path
	seen := map[string]bool{}
	var all []*types.Package
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.Types != nil && !seen[p.PkgPath] {
			seen[p.PkgPath] = true
			all = append(all, p.Types)
			if len(p.Syntax) > 0 {
				cs.posOf[p.PkgPath] = p.Syntax[0].Name.End()
			}
		}
	})
	sort.Slice(all, func(i, j int) bool {
		a, b := all[i].Path(), all[j].Path()
		ra, rb := strings.HasPrefix(a, modPath), strings.HasPrefix(b, modPath)
		if ra != rb {
			return ra
		}
		if len(a) != len(b) {
			return len(a) < len(b)
		}
		return a < b
	})
	for _, p := range all {
		cs.pkgs[p.Path()] = p
		if _, ok := cs.pkgs[p.Name()]; !ok {
			cs.pkgs[p.Name()] = p
		}
	}
	for _, sp := range w.sps {
		cs.spkgs[sp.Pkg.Path()] = sp
	}
	for fn := range ssautil.AllFunctions(w.prog) {
		if fn.Pkg != nil && len(fn.Blocks) > 0 {
			if _, ok := cs.spkgs[fn.Pkg.Pkg.Path()]; ok {
				w.fns = append(w.fns, fn)
			}
		}
	}
	sort.Slice(w.fns, func(i, j int) bool { return w.fns[i].String() < w.fns[j].String() })
	return w, nil
}

// Report is the outcome for one contract.
type Report struct {
	C       *Contract
	VCs     []*VC
	Errs    []string
	Trusted []string
	Funcs   []string
	Used    []*Contract
	Paths   int
	Secs    float64
	Notes   []string
}

func (ex *Exec) reset(c *Contract) {
	ex.cur = c
	ex.vcs = nil
	ex.used = map[string]bool{}
	ex.funcs = map[string]bool{}
	ex.usedContracts = map[*Contract]bool{}
	ex.errs = nil
	ex.loopSeen = map[string]int{}
	ex.loopStack = nil
	ex.loopNotes = nil
	ex.steps, ex.paths, ex.trial = 0, 0, 0
	ex.maxRec = c.MaxRec
	ex.isInit = false
	ex.entry = nil
	ex.snapKinds = map[string]bool{}
	env := &Env{ex: ex, cs: ex.cs, pkg: c.Pkg}
	var scan func(x ast.Expr)
	seen := map[string]bool{}
	scan = func(x ast.Expr) {
		ast.Inspect(x, func(n ast.Node) bool {
			if ce, ok := n.(*ast.CallExpr); ok {
				if id, ok := ce.Fun.(*ast.Ident); ok && id.Name == "atcall" {
					if a, ok := ce.Args[0].(*ast.Ident); ok && ex.cs.alias[a.Name] == "" {
						return true
					}
					ex.snapKinds[env.kind(ce.Args[0])] = true
				}
			}
			if id, ok := n.(*ast.Ident); ok && !seen[id.Name] {
				seen[id.Name] = true
				if d, ok := ex.cs.defs[id.Name]; ok {
					scan(d.Expr)
				}
			}
			return true
		})
	}
	for _, q := range [][]Clause{c.Ensures, c.OnPanic, c.OnFatal, c.Steps, c.Lets} {
		for _, k := range q {
			scan(k.Expr)
		}
	}
	for _, k := range append(append([]InvTmpl{}, c.Invs...), c.Decs...) {
		scan(k.Expr)
	}
	for _, o := range ex.cs.list {
		if o.Trusted || o.Modular {
			env.pkg = o.Pkg
			for _, k := range append(append([]Clause{}, o.Requires...), o.Ensures...) {
				scan(k.Expr)
			}
		}
	}
}

func newExec(w *World) *Exec {
	ex := &Exec{prog: w.prog, cs: w.cs, fns: w.fns}
	w.cs.ex = ex
	ex.reset(&Contract{Name: "none"})
	return ex
}

// initInfo is what is known after package initialisation.
type initInfo struct {
	hyps []*Term // facts about the values of constants
	ctrs []*Term
}

var initFnRe = regexp.MustCompile(`^init#[0-9]+$`)

// runInit evaluates the initialisers of the packages. Globals declared
// constant, and unexported ones that nothing writes after initialisation,
// have their initial value for ever.
func (w *World) runInit(ex *Exec) (errs []string) {
	w.init = &initInfo{}
	declared := map[string]bool{}
	for _, g := range w.cs.constGlobals {
		declared[g] = true
	}
	for _, sp := range w.sps {
		short := strings.ReplaceAll(sp.Pkg.Path(), modPath+"/", "")
		var gs []*ssa.Global
		late := map[*ssa.Global]bool{}
		any := false
		for _, n := range sortedKeys(sp.Members) {
			g, ok := sp.Members[n].(*ssa.Global)
			if !ok || n == "_" || strings.HasPrefix(n, "init$") {
				continue
			}
			d := declared[short+"."+n]
			if !d && token.IsExported(n) {
				continue
			}
			bad, inInit := w.globalWritten(g)
			if bad != "" {
				if d {
					errs = append(errs, "global "+short+"."+n+" is not constant: "+bad)
				}
				continue
			}
			any = true
			late[g] = inInit
			gs = append(gs, g)
		}
		if !any {
			continue
		}
		end, err := w.runPkgInit(ex, sp)
		if end == nil && debugLoops {
			fmt.Fprintln(os.Stderr, "initialisation of", short, err)
		}
		if end == nil {
			for _, g := range gs {
				if declared[globalName(g)] {
					errs = append(errs, "initialisation of "+short+": "+err)
				}
			}
		}
		for _, g := range gs {
			n := globalName(g)
			t := g.Type().(*types.Pointer).Elem()
			privKeys["g:"+n] = true
			if end == nil || late[g] || isStruct(t) || isArray(t) {
				continue
			}
			v := end.load(ex.globalAddr(g), t)
			if m, ok := t.Underlying().(*types.Map); ok && w.contentConst(g) {
				cm := &constMap{dom: Select(end.get("md:"+mapKeyName(t), SArr(SArrK(mapKeySort(t), SBool))), v.L[0])}
				for j, l := range leavesOf(m.Elem()) {
					cm.vals = append(cm.vals, Select(end.get(fmt.Sprintf("mv:%s#%d", mapKeyName(t), j), SArr(SArrK(mapKeySort(t), l.Sort))), v.L[0]))
				}
				ln := Select(end.get("ml:"+mapKeyName(t), SArr(SInt)), v.L[0])
				if !ln.isInt() {
					continue
				}
				cm.n = int(ln.intVal())
				r := App("gmap:"+n, SInt)
				constMaps[r] = cm
				if cm.n > 0 {
					w.init.hyps = append(w.init.hyps, Lt(Int(0), r))
				}
				v.L[0] = r
				w.cs.consts[n] = v
				continue
			}
			w.cs.consts[n] = v
			if sl, ok := t.Underlying().(*types.Slice); ok && v.L[2].isInt() && v.L[2].intVal() <= 16 && w.contentConst(g) && len(leavesOf(sl.Elem())) == 1 {
				for i := int64(0); i < v.L[2].intVal(); i++ {
					el := Elem(v.L[0], AddK(v.L[1], i))
					x := end.load(el, sl.Elem()).L[0]
					if x.Op == "#s" || x.isInt() {
						constElems[el] = x
					}
					w.init.hyps = append(w.init.hyps, Eq(Select(newState().get(cellKey(sl.Elem(), 0), SArr(x.Sort)), el), x))
				}
			}
		}
		if end != nil {
			w.init.ctrs = append(w.init.ctrs, end.ctr)
			for _, h := range end.hyps {
				if h.Op != "forall" {
					w.init.hyps = append(w.init.hyps, h)
				}
			}
		}
	}
	return errs
}

func (w *World) runPkgInit(ex *Exec, sp *ssa.Package) (end *State, err string) {
	defer func() {
		if r := recover(); r != nil {
			end = nil
			err = fmt.Sprint(r)
			if u, ok := r.(unsupported); ok {
				err = u.msg
			} else if os.Getenv("GOVC_PANIC") != "" {
				panic(r)
			}
		}
	}()
	ini := sp.Func("init")
	ex.reset(&Contract{Name: "init", NoSafety: true, AllowPanic: true})
	ex.isInit = true
	st := newState()
	st.ctr = Const("ctr!init:"+sp.Pkg.Path(), SInt)
	st.assume(Lt(Int(0), st.ctr))
	if gd, ok := sp.Members["init$guard"].(*ssa.Global); ok {
		st.store(ex.globalAddr(gd), Val{T: types.Typ[types.Bool], L: []*Term{tFalse}})
	}
	ex.push(st, ini, nil, nil, nil)
	outs := ex.run([]*State{st}, never)
	for _, s := range outs {
		if s.status == Returned {
			if end != nil {
				return nil, "several outcomes: " + s.path() + " / " + end.path()
			}
			end = s
		}
	}
	if end == nil {
		err = "no outcome"
	}
	return end, err
}

// pushInit lets the initialisation of the package (its variables, then its
// init functions; not those of the packages it imports) run next, from the
// zero values.
func (ex *Exec) pushInit(st *State, sp *ssa.Package) {
	for _, n := range sortedKeys(sp.Members) {
		g, ok := sp.Members[n].(*ssa.Global)
		if !ok {
			continue
		}
		if _, frozen := ex.cs.constant(globalName(g)); frozen {
			continue
		}
		t := g.Type().(*types.Pointer).Elem()
		st.store(ex.globalAddr(g), zeroVal(t))
	}
	ex.push(st, sp.Func("init"), nil, nil, nil)
	st.top().isDefer = true // there is no result, and no call to go on after
	st.top().notDeferred = true
}

// contentConst: the map or slice held by the global is only read.
func (w *World) contentConst(g *ssa.Global) bool {
	for _, fn := range w.fns {
		if fn.Name() == "init" && fn.Pkg == g.Pkg && fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.UnOp)
				if !ok || u.X != ssa.Value(g) {
					continue
				}
				for _, r := range *u.Referrers() {
					switch r := r.(type) {
					case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
					case *ssa.IndexAddr:
						for _, q := range *r.Referrers() {
							if l, ok := q.(*ssa.UnOp); !ok || l.Op != token.MUL {
								if _, ok := q.(*ssa.DebugRef); !ok {
									return false
								}
							}
						}
					case *ssa.Call:
						if bi, ok := r.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
							return false
						}
					default:
						return false
					}
				}
			}
		}
	}
	return true
}

// globalWritten: a write to the global outside the package initialisers, or
// its address being used; and whether an init function assigns it.
func (w *World) globalWritten(g *ssa.Global) (bad string, inInit bool) {
	for _, fn := range w.fns {
		isInit := fn.Name() == "init" && fn.Pkg == g.Pkg && fn.Synthetic != ""
		initFn := initFnRe.MatchString(fn.Name()) && fn.Pkg == g.Pkg
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if x.Addr == ssa.Value(g) && initFn {
						inInit = true
					} else if x.Addr == ssa.Value(g) && !isInit {
						return "assigned in " + shortFn(fn), false
					}
					if x.Val == ssa.Value(g) {
						return "address taken in " + shortFn(fn), false
					}
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					for _, op := range in.Operands(nil) {
						if *op == ssa.Value(g) {
							return "address used in " + shortFn(fn), false
						}
					}
				}
			}
		}
	}
	return "", inInit
}

// verify generates the obligations of one contract.
func (w *World) verify(ex *Exec, c *Contract) (rep *Report) {
	t0 := time.Now()
	rep = &Report{C: c}
	ex.reset(c)
	w.cs.initPkg = ""
	if c.RunInits {
		w.cs.initPkg = strings.ReplaceAll(c.Pkg.Path(), modPath+"/", "")
	}
	defer func() {
		rep.VCs = ex.vcs
		rep.Trusted = sortedKeys(ex.used)
		rep.Funcs = sortedKeys(ex.funcs)
		rep.Notes = ex.loopNotes
		for u := range ex.usedContracts {
			rep.Used = append(rep.Used, u)
		}
		sort.Slice(rep.Used, func(i, j int) bool { return rep.Used[i].Full < rep.Used[j].Full })
		rep.Secs = time.Since(t0).Seconds()
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				rep.Errs = append(rep.Errs, u.msg)
				return
			}
			if os.Getenv("GOVC_PANIC") != "" {
				panic(r)
			}
			rep.Errs = append(rep.Errs, fmt.Sprint("internal: ", r))
		}
	}()
	if c.Fn == nil || len(c.Fn.Blocks) == 0 {
		rep.Errs = append(rep.Errs, "no function "+c.Full+" in the source")
		return
	}
	fn := c.Fn
	st := newState()
	st.ctr = Const("ctr!0", SInt)
	bornCtr = map[*Term]*Term{}
	epochCtr = map[string]*Term{"": st.ctr}
	st.assume(Lt(Int(0), st.ctr))
	for _, c := range w.init.ctrs {
		st.assume(Le(c, st.ctr))
	}
	for _, h := range w.init.hyps {
		st.assume(h)
	}
	// time and counters start at some non-negative value
	st.assume(Le(Int(0), stTime(st)))
	env := &Env{ex: ex, cs: w.cs, st: st, vars: map[string]Val{}, pkg: c.Pkg}
	var args []Val
	if len(c.Params) > 0 && len(c.Params) != len(fn.Params) {
		ex.fail("%s has %d parameters, the contract names %d", c.Full, len(fn.Params), len(c.Params))
	}
	for i, p := range fn.Params {
		nm := p.Name()
		if len(c.Params) > 0 {
			nm = c.Params[i]
		}
		v := st.freshVal(nm, p.Type())
		args = append(args, v)
		env.vars[nm] = v
		if i == 0 && fn.Signature.Recv() != nil {
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				st.assume(Lt(Int(0), v.L[0]))
			}
		}
	}
	env.bindLets(c)
	for _, r := range c.Requires {
		st.assume(env.evalBool(r.Expr))
	}
	if c.NoFrame && c.Modular && !c.Trusted {
		ex.fail("modular contract %s without frame", c.Full)
	}
	entry := st.clone()
	ex.entry = entry
	ex.params = map[string]Val{}
	for k, v := range env.vars {
		ex.params[k] = v
	}
	initMerge = c.RunInits
	ex.push(st, fn, nil, args, nil)
	if c.RunInits {
		ex.pushInit(st, fn.Pkg)
	}
	outs := ex.run([]*State{st}, never)
	rep.Paths = len(outs)
	end := func(s *State) *Env {
		e := &Env{ex: ex, cs: w.cs, st: s, old: entry, vars: map[string]Val{}, pkg: c.Pkg, lockSt: s}
		for k, v := range ex.params {
			e.vars[k] = v
		}
		return e
	}
	reach := 0
	for _, s := range outs {
		e := end(s)
		switch s.status {
		case Returned:
			reach++
			for i, r := range c.Results {
				if i < len(s.ret) && r != "_" {
					e.vars[r] = s.ret[i]
				}
			}
			if len(s.ret) > 0 {
				e.vars["result"] = s.ret[0]
			}
			for i, q := range c.Ensures {
				ex.post(s, e, "ensures:"+label(q, i), q)
			}
			if !c.NoLocks {
				for _, l := range s.locks {
					ex.oblige(s, "unlocked:"+l.name, "ensures", tFalse)
				}
			}
			if c.Modular {
				ex.frame(s, entry, e, c)
			}
		case Panicked:
			reach++
			e.vars["panicval"] = Val{T: types.NewInterfaceType(nil, nil), L: []*Term{s.pval}}
			for i, q := range c.OnPanic {
				ex.post(s, e, "onpanic:"+label(q, i), q)
			}
			if !c.NoLocks {
				for _, l := range s.locks {
					ex.oblige(s, "unlocked-on-panic:"+l.name, "onpanic", tFalse)
				}
			}
			if c.Modular {
				ex.frame(s, entry, e, c)
			}
		case Fatal:
			reach++
			for i, q := range c.OnFatal {
				ex.post(s, e, "onfatal:"+label(q, i), q)
			}
		}
	}
	// vacuity: some end must be reachable
	ok := reach == 0 && len(c.Steps) > 0
	var qs []*Query
	for _, s := range outs {
		if s.status == Returned || s.status == Panicked || s.status == Fatal {
			qs = append(qs, &Query{Name: "cover", Hyps: entryHyps(s), Goal: tFalse})
		}
	}
	for i := 0; i < len(qs) && !ok; i += 8 {
		j := i + 8
		if j > len(qs) {
			j = len(qs)
		}
		for _, r := range solver.CheckAll(qs[i:j], 0) {
			if r.Res != "unsat" {
				ok = true
			}
		}
	}
	if !ok {
		ex.vcs = append(ex.vcs, &VC{Name: "cover", Kind: "vacuity", Fn: c.Name, Goal: tFalse, Res: SolverResult{Res: "vacuous"}})
	} else {
		ex.vcs = append(ex.vcs, &VC{Name: "cover", Kind: "vacuity", Fn: c.Name, Goal: tTrue, Res: SolverResult{Res: "unsat", Solver: "cover"}})
	}
	return
}

func entryHyps(s *State) []*Term { return s.hyps }

func (ex *Exec) post(s *State, e *Env, name string, q Clause) {
	// conjunctions are split so that each failing part is named
	t := e.evalBool(q.Expr)
	cj := conjuncts(t)
	n := len(s.hyps)
	for i, g := range cj {
		nm := name
		if len(cj) > 1 {
			nm = fmt.Sprintf("%s.%d", name, i+1)
		}
		ex.oblige(s, nm, "ensures", g)
	}
	_ = n
}

// frame: a modular contract may change only what it names.
func (ex *Exec) frame(s, entry *State, e *Env, c *Contract) {
	if c.Havoc {
		if c.Quiet == nil {
			return
		}
		if s.epoch != entry.epoch {
			ex.oblige(s, "quiet", "frame", Not(e.evalBool(c.Quiet)))
			return
		}
	}
	if s.epoch != entry.epoch {
		ex.oblige(s, "frame:unknown-code", "frame", tFalse)
		return
	}
	e2 := *e
	e2.st = entry
	mods := map[string][]loc{}
	for _, m := range c.Modifies {
		for _, l := range e2.locations(m) {
			mods[l.key] = append(mods[l.key], l)
		}
	}
	for _, k := range sortedKeys(s.heap) {
		now := s.heap[k]
		if strings.HasPrefix(k, "it:") {
			continue
		}
		was, ok := entry.heap[k]
		if !ok {
			was = entry.get(k, now.Sort)
		}
		if now == was {
			continue
		}
		if strings.HasPrefix(k, "ev.") || k == "time" {
			if c.Quiet != nil {
				continue
			}
			ex.oblige(s, "frame:"+k, "frame", Eq2(now, was))
			continue
		}
		ls := mods[k]
		if strings.HasPrefix(k, "g:") || !strings.HasPrefix(now.Sort, "(Array Int") {
			if len(ls) == 0 {
				ex.oblige(s, "frame:"+k, "frame", Eq(now, was))
			}
			continue
		}
		r := FreshVar("r", SInt)
		skip := []*Term{Le(entry.ctr, App("root", SInt, r))}
		for _, l := range ls {
			switch {
			case l.ref == nil:
				skip = append(skip, tTrue)
			case l.arr != nil:
				skip = append(skip, And(Eq2(App("kind", SInt, r), Int(1)), Eq2(App("earr", SInt, r), l.arr)))
			default:
				skip = append(skip, Eq2(r, l.ref))
			}
		}
		skip = append(skip, Eq2(Select(now, r), Select(was, r)))
		g := Or(skip...)
		ex.oblige(s, "frame:"+k, "frame", Forall([]*Term{r}, [][]*Term{{Select(now, r)}}, g))
	}
}

// solveAll discharges the recorded obligations.
func solveAll(reps []*Report) {
	var qs []*Query
	var vs []*VC
	for _, r := range reps {
		for _, v := range r.VCs {
			if v.Res.Res != "" {
				continue
			}
			qs = append(qs, &Query{Name: r.C.Full + " " + v.Name, Hyps: v.Hyps, Goal: v.Goal})
			vs = append(vs, v)
		}
	}
	// first pass: one quick run each
	var rest []int
	for a := 0; a < len(qs); a += 64 {
		b := a + 64
		if b > len(qs) {
			b = len(qs)
		}
		if el := time.Since(started); el > solveBudget || el > firstBudget && len(rest) > 0 {
			for i := a; i < len(qs); i++ {
				vs[i].Res = SolverResult{Res: "not attempted", Out: "the time budget of the run was used up"}
			}
			break
		}
		for i, r := range solver.CheckAll(qs[a:b], 0) {
			vs[a+i].Res = r
			if r.Res != "unsat" {
				rest = append(rest, a+i)
			}
		}
	}
	// second pass: the full portfolio, in batches; once obligations are known to
	// fail, the others left are not tried much longer
	t0 := time.Now()
	failed := map[string]bool{}
	for len(rest) > 0 {
		var batch []int
		var later []int
		for _, i := range rest {
			if len(batch) < 8 && !failed[qs[i].Name] {
				batch = append(batch, i)
			} else {
				later = append(later, i)
			}
		}
		if len(batch) == 0 || len(failed) > 0 && time.Since(t0) > 45*time.Second || time.Since(t0) > 400*time.Second || time.Since(started) > solveBudget {
			break
		}
		var bq []*Query
		for _, i := range batch {
			bq = append(bq, qs[i])
		}
		for k, r := range solver.CheckAll(bq, 1) {
			vs[batch[k]].Res = r
			if r.Res != "unsat" {
				failed[bq[k].Name] = true
			}
		}
		rest = later
	}
}

// overlayFor maps the client files of the given directories into the packages.
func overlayFor(repo, dir string, only func(string) bool) (map[string][]byte, error) {
	ov := map[string][]byte{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if only != nil && !only(rel) {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		ov[filepath.Join(repo, filepath.Dir(rel), filepath.Base(rel))] = b
		return nil
	})
	return ov, err
}
