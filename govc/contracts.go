package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type stableDecl struct {
	key  string // f:pkg.Type.field
	pkg  string
	typ  string
	fld  string
	priv bool // may be written by the package, never by unknown code
}

type pendingContract struct{ c *Contract }

const modPath = "github.com/zenazn/goji"

func newContracts(prog *ssa.Program, fset *token.FileSet) *Contracts {
	return &Contracts{byFn: map[*ssa.Function]*Contract{}, externs: map[string]*Contract{}, defs: map[string]*Def{},
		fns: map[string]*FnDecl{}, alias: map[string]string{}, consts: map[string]Val{}, pkgs: map[string]*types.Package{},
		prog: prog, fset: fset, posOf: map[string]token.Pos{}, models: map[string]*ssa.Function{}, volatile: map[string]bool{},
		spkgs: map[string]*ssa.Package{}}
}

// logical lines: a clause continues while brackets are open or the line ends
// with an operator; comments start with #.
func logicalLines(text string) []struct {
	s string
	n int
} {
	var out []struct {
		s string
		n int
	}
	cur := ""
	start := 0
	depth := func(s string) int {
		d := 0
		for i := 0; i < len(s); i++ {
			switch s[i] {
			case '(', '[', '{':
				d++
			case ')', ']', '}':
				d--
			case '"', '\'', '`':
				q := s[i]
				i++
				for i < len(s) && s[i] != q {
					if s[i] == '\\' && q != '`' {
						i++
					}
					i++
				}
			}
		}
		return d
	}
	for n, l := range strings.Split(text, "\n") {
		t := l
		if strings.HasPrefix(strings.TrimSpace(t), "#") {
			t = ""
		}
		if i := strings.Index(t, " # "); i >= 0 {
			t = t[:i]
		}
		t = strings.TrimSpace(t)
		if cur == "" {
			start = n + 1
			cur = t
		} else if t != "" {
			cur += " " + t
		}
		if cur == "" {
			out = append(out, struct {
				s string
				n int
			}{"", n + 1})
			continue
		}
		cont := depth(cur) > 0
		for _, op := range []string{"&&", "||", "==>", ",", "==", "+", "="} {
			if strings.HasSuffix(cur, op) {
				cont = true
			}
		}
		if cont {
			continue
		}
		out = append(out, struct {
			s string
			n int
		}{cur, start})
		cur = ""
	}
	if cur != "" {
		out = append(out, struct {
			s string
			n int
		}{cur, start})
	}
	return out
}

var labelRe = regexp.MustCompile(`^([A-Za-z][A-Za-z0-9_.-]*):(?:[^=:]|$)`)

func (cs *Contracts) clause(s, where string) Clause {
	s = strings.TrimSpace(s)
	c := Clause{Line: where}
	if strings.HasPrefix(s, "[") {
		if i := strings.IndexByte(s, ']'); i > 0 {
			c.Label = s[1:i]
			s = strings.TrimSpace(s[i+1:])
		}
	}
	c.Text = s
	e, err := parseSpec(s)
	if err != nil {
		panic(fmt.Sprintf("%s: %v in %q", where, err, s))
	}
	c.Expr = e
	return c
}

func (cs *Contracts) pkgByName(n string) *types.Package {
	if p := cs.pkgs[n]; p != nil {
		return p
	}
	if n == "goji" || n == "." {
		return cs.pkgs[modPath]
	}
	return cs.pkgs[modPath+"/"+n]
}

func (cs *Contracts) parseFile(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var cur *Contract
	var mon *Monitor
	var atom *Atomic
	base := filepath.Base(path)
	for _, ll := range logicalLines(string(b)) {
		l := ll.s
		where := fmt.Sprintf("%s:%d", base, ll.n)
		if l == "" {
			cur, mon, atom = nil, nil, nil
			continue
		}
		word, rest := l, ""
		if i := strings.IndexAny(l, " \t"); i > 0 {
			word, rest = l[:i], strings.TrimSpace(l[i+1:])
		}
		if mon != nil {
			switch word {
			case "local": // the invariant only depends on what the lock protects
				mon.Local = true
				continue
			case "first":
				mon.First = true
				continue
			case "interferes":
				mon.Interf = append(mon.Interf, cs.clause(rest, where))
				continue
			case "stamp": // stamp name = condition
				i := strings.Index(rest, "=")
				mon.Stamps = append(mon.Stamps, ghostStamp{Name: strings.TrimSpace(rest[:i]), Cond: cs.clause(strings.TrimSpace(rest[i+1:]), where)})
				continue
			case "collect": // collect name (x T) when condition = condition
				i, j := strings.IndexByte(rest, '('), strings.IndexByte(rest, ')')
				v := strings.Fields(rest[i+1 : j])
				w := strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(rest[j+1:]), "when"))
				k := strings.Index(w, " = ")
				env := &Env{cs: cs, pkg: cs.curPkg}
				mon.Collects = append(mon.Collects, ghostStamp{Name: strings.TrimSpace(rest[:i]), Var: v[0], Type: cs.typeText(env, strings.Join(v[1:], " "), where), When: cs.clause(w[:k], where), Cond: cs.clause(w[k+3:], where)})
				continue
			case "owns": // slices whose array is only reached through the global, and only grows
				for _, f := range strings.Split(rest, ",") {
					f = strings.TrimSpace(f)
					mon.owns = append(mon.owns, cs.shortPkg()+"."+f)
				}
				continue
			case "protects":
				for _, f := range strings.Split(rest, ",") {
					cs.protect(mon, strings.TrimSpace(f))
				}
				continue
			case "inv":
				mon.Inv = append(mon.Inv, cs.clause(rest, where))
				continue
			case "rely":
				mon.Rely = append(mon.Rely, cs.clause(rest, where))
				continue
			case "guarantee":
				mon.Guarantee = append(mon.Guarantee, cs.clause(rest, where))
				continue
			}
			panic(where + ": unknown monitor clause " + word)
		}
		if atom != nil {
			switch word {
			case "store":
				atom.Store = append(atom.Store, cs.clause(rest, where))
				continue
			case "load":
				atom.Load = append(atom.Load, cs.clause(rest, where))
				continue
			}
			panic(where + ": unknown atomic clause " + word)
		}
		if cur != nil {
			if cs.contractClause(cur, word, rest, where) {
				continue
			}
			panic(where + ": unknown clause " + word)
		}
		switch word {
		case "package":
			cs.curPkg = cs.pkgByName(rest)
			if cs.curPkg == nil {
				panic(where + ": no package " + rest)
			}
		case "alias":
			ps := strings.SplitN(rest, "=", 2)
			k, _ := strconv.Unquote(strings.TrimSpace(ps[1]))
			cs.alias[strings.TrimSpace(ps[0])] = k
		case "def":
			i := strings.Index(rest, "=")
			for rest[i+1] == '=' || rest[i-1] == '!' || rest[i-1] == '<' || rest[i-1] == '>' {
				i++
			}
			head, body := strings.TrimSpace(rest[:i]), strings.TrimSpace(rest[i+1:])
			d := &Def{Text: body, Pkg: cs.curPkg}
			if j := strings.IndexByte(head, '('); j > 0 {
				d.Name = strings.TrimSpace(head[:j])
				ps := strings.TrimSuffix(head[j+1:], ")")
				for _, p := range strings.Split(ps, ",") {
					if p = strings.TrimSpace(p); p != "" {
						d.Params = append(d.Params, p)
					}
				}
			} else {
				d.Name = head
			}
			c := cs.clause(body, where)
			d.Expr = c.Expr
			cs.defs[d.Name] = d
		case "fn":
			// fn name(T1, T2) R
			i, j := strings.IndexByte(rest, '('), strings.LastIndexByte(rest, ')')
			f := &FnDecl{Name: strings.TrimSpace(rest[:i])}
			env := &Env{cs: cs, pkg: cs.curPkg}
			for _, p := range splitTop(rest[i+1:j], ",") {
				if p = strings.TrimSpace(p); p != "" {
					f.Args = append(f.Args, cs.typeText(env, p, where))
				}
			}
			f.Res = cs.typeText(env, strings.TrimSpace(rest[j+1:]), where)
			cs.fns[f.Name] = f
		case "axiom":
			i := strings.IndexByte(rest, ':')
			cs.axioms = append(cs.axioms, rawAxiom{strings.TrimSpace(rest[:i]), strings.TrimSpace(rest[i+1:]), cs.curPkg})
		case "const":
			cs.constGlobals = append(cs.constGlobals, strings.TrimSpace(strings.TrimPrefix(rest, "global")))
		case "stable", "private":
			for _, f := range strings.Split(rest, ",") {
				f = strings.TrimSpace(f)
				i := strings.LastIndexByte(f, '.')
				j := strings.LastIndexByte(f[:i], '.')
				d := stableDecl{key: "f:" + f, pkg: f[:j], typ: f[j+1 : i], fld: f[i+1:], priv: word == "private"}
				cs.stableFields = append(cs.stableFields, d)
				privKeys["f:"+f] = true
			}
		case "volatile":
			for _, f := range strings.Split(rest, ",") {
				cs.volatile[strings.TrimSpace(f)] = true
			}
		case "model":
			ps := strings.SplitN(rest, "=", 2)
			k, _ := strconv.Unquote(strings.TrimSpace(ps[0]))
			fn := cs.findFunc(strings.TrimSpace(ps[1]))
			if fn == nil {
				panic(where + ": no model function " + ps[1])
			}
			cs.models[k] = fn
		case "monitor":
			// monitor Type.field (self)   or   monitor global name
			mon = &Monitor{Pkg: cs.curPkg, fields: map[string]bool{}, mapTypes: map[string]bool{}}
			if strings.HasPrefix(rest, "global ") {
				n := cs.shortPkg() + "." + strings.TrimSpace(rest[7:])
				mon.Global = true
				mon.Name = "gaddr:" + n
			} else {
				i := strings.IndexByte(rest, '(')
				head := strings.TrimSpace(rest[:i])
				mon.Self = strings.TrimSpace(strings.TrimSuffix(rest[i+1:], ")"))
				ps := strings.Split(head, ".")
				tn, ok := cs.curPkg.Scope().Lookup(ps[0]).(*types.TypeName)
				if !ok {
					cs.errs = append(cs.errs, where+": no type "+ps[0])
					mon = &Monitor{Pkg: cs.curPkg, fields: map[string]bool{}, mapTypes: map[string]bool{}}
					continue
				}
				mon.Type = tn.Type()
				fi := fieldIndex(mon.Type, ps[1])
				if fi < 0 {
					cs.errs = append(cs.errs, where+": no field "+head)
					continue
				}
				mon.Name = fldTerm(mon.Type, fi, -1, Int(0)).Name
			}
			cs.monitors = append(cs.monitors, mon)
		case "atomic":
			// atomic Type.field (self, v)
			i := strings.IndexByte(rest, '(')
			head := strings.TrimSpace(rest[:i])
			vs := strings.Split(strings.TrimSuffix(rest[i+1:], ")"), ",")
			ps := strings.Split(head, ".")
			atom = &Atomic{Pkg: cs.curPkg, Self: strings.TrimSpace(vs[0]), Var: strings.TrimSpace(vs[1])}
			tn, ok := cs.curPkg.Scope().Lookup(ps[0]).(*types.TypeName)
			if !ok || fieldIndex(tn.Type(), ps[1]) < 0 {
				cs.errs = append(cs.errs, where+": no field "+head)
				continue
			}
			atom.Type = tn.Type()
			atom.Name = fldTerm(atom.Type, fieldIndex(atom.Type, ps[1]), -1, Int(0)).Name
			cs.atomics = append(cs.atomics, atom)
		case "func", "client":
			cur = cs.header(rest, where)
			cur.Client = word == "client"
			cs.list = append(cs.list, cur)
		case "extern":
			cur = &Contract{Extern: true, Pkg: cs.curPkg, Line: where}
			q := rest[1 : strings.Index(rest[1:], `"`)+1]
			cur.Full = q
			if a, ok := cs.alias[q]; ok {
				cur.Full = a
			}
			cur.Name = cur.Full
			cs.sigNames(cur, rest[len(q)+2:])
			cs.externs[cur.Full] = cur
		default:
			panic(where + ": unknown declaration " + word)
		}
	}
}

func fieldIndex(t types.Type, name string) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (cs *Contracts) shortPkg() string {
	return strings.ReplaceAll(cs.curPkg.Path(), modPath+"/", "")
}

func (cs *Contracts) protect(mon *Monitor, f string) {
	if mon.Global {
		n := cs.shortPkg() + "." + f
		o := cs.curPkg.Scope().Lookup(f)
		if o == nil {
			cs.errs = append(cs.errs, "no global "+f)
			return
		}
		mon.fields["gaddr:"+n] = true
		return
	}
	if mon.Type == nil {
		return
	}
	fi := fieldIndex(mon.Type, f)
	if fi < 0 {
		cs.errs = append(cs.errs, "no field "+f+" in "+mon.Type.String())
		return
	}
	t := fldTerm(mon.Type, fi, -1, Int(0))
	mon.fields[t.Name] = true
	ft := fldReg[t.Name].st.Field(fi).Type()
	if _, ok := ft.Underlying().(*types.Map); ok {
		mon.mapFields = append(mon.mapFields, fldReg[t.Name])
		mon.mapTypes[boxKey(ft.Underlying())] = true
	}
}

func (cs *Contracts) typeText(env *Env, s, where string) types.Type {
	e, err := parseSpec(s)
	if err != nil {
		panic(where + ": type " + s)
	}
	return env.typeOf(e)
}

// header parses "(*T).m(a, b) (r, s)" or "f(a) (r)".
func (cs *Contracts) header(s, where string) *Contract {
	c := &Contract{Pkg: cs.curPkg, Line: where}
	// name: up to the '(' that starts the parameters
	i := 0
	if strings.HasPrefix(s, "(") {
		i = strings.IndexByte(s, ')') + 1
	}
	j := i + strings.IndexByte(s[i:], '(')
	c.Name = strings.TrimSpace(s[:j])
	c.Full = cs.curPkg.Path() + "." + c.Name
	cs.sigNames(c, s[j:])
	c.Fn = cs.findFunc(c.Name)
	if c.Fn != nil {
		cs.byFn[c.Fn] = c
	}
	return c
}
func (cs *Contracts) sigNames(c *Contract, s string) {
	s = strings.TrimSpace(s)
	if !strings.HasPrefix(s, "(") {
		return
	}
	i := strings.IndexByte(s, ')')
	c.Params = splitNames(s[1:i])
	rest := strings.TrimSpace(s[i+1:])
	if strings.HasPrefix(rest, "(") {
		c.Results = splitNames(strings.TrimSuffix(rest[1:], ")"))
	} else if rest != "" {
		c.Results = []string{rest}
	}
}
func splitNames(s string) []string {
	var out []string
	for _, p := range strings.Split(s, ",") {
		if p = strings.TrimSpace(p); p != "" {
			out = append(out, p)
		}
	}
	return out
}

// findFunc resolves a function of the current package.
func (cs *Contracts) findFunc(name string) *ssa.Function {
	sp := cs.spkgs[cs.curPkg.Path()]
	if strings.HasPrefix(name, "(") {
		i := strings.IndexByte(name, ')')
		tn := strings.TrimPrefix(name[1:i], "*")
		m := strings.TrimPrefix(name[i+1:], ".")
		o, ok := cs.curPkg.Scope().Lookup(tn).(*types.TypeName)
		if !ok {
			return nil
		}
		var t types.Type = o.Type()
		if strings.HasPrefix(name, "(*") {
			t = types.NewPointer(t)
		}
		ms := types.NewMethodSet(t)
		sel := ms.Lookup(cs.curPkg, m)
		if sel == nil {
			return nil
		}
		return cs.prog.FuncValue(sel.Obj().(*types.Func))
	}
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

func (cs *Contracts) contractClause(c *Contract, word, rest, where string) bool {
	cl := func() Clause { return cs.clause(rest, where) }
	switch word {
	case "prop":
		c.Props = append(c.Props, strings.Fields(strings.ReplaceAll(rest, ",", " "))...)
	case "requires":
		c.Requires = append(c.Requires, cl())
	case "ensures":
		c.Ensures = append(c.Ensures, cl())
	case "onpanic":
		c.OnPanic = append(c.OnPanic, cl())
	case "onfatal":
		c.OnFatal = append(c.OnFatal, cl())
	case "userrely":
		c.UserRely = append(c.UserRely, cl())
	case "step":
		c.Steps = append(c.Steps, cl())
	case "modifies":
		for _, p := range splitTop(rest, ",") {
			c.Modifies = append(c.Modifies, cs.clause(p, where))
		}
	case "let":
		i := strings.Index(rest, "=")
		k := cs.clause(rest[i+1:], where)
		k.Label = strings.TrimSpace(rest[:i])
		c.Lets = append(c.Lets, k)
	case "inv", "dec":
		// inv (x int, s []T) expr
		t := InvTmpl{}
		if strings.HasPrefix(rest, "(") {
			i := strings.IndexByte(rest, ')')
			for _, p := range strings.Split(rest[1:i], ",") {
				f := strings.Fields(p)
				if len(f) < 2 {
					panic(where + ": invariant variable " + p)
				}
				te, err := parseSpec(strings.Join(f[1:], " "))
				if err != nil {
					panic(where + err.Error())
				}
				t.Vars = append(t.Vars, tmplVar{f[0], te, strings.Join(f[1:], " ")})
			}
			rest = strings.TrimSpace(rest[i+1:])
		}
		t.Clause = cs.clause(rest, where)
		if word == "dec" {
			c.Decs = append(c.Decs, t)
		} else {
			c.Invs = append(c.Invs, t)
		}
	case "quiet":
		c.Quiet = cl().Expr
	case "maxrec":
		c.MaxRec, _ = strconv.Atoi(rest)
	case "note":
		c.Note = rest
	case "trusted":
		c.Trusted = true
	case "modular":
		c.Modular = true
	case "inline":
		c.Inline = true
	case "event":
		c.Event = true
	case "havoc":
		c.Havoc = true
	case "pure":
		c.Pure = true
	case "panics":
		c.Panics = true
	case "canpanic":
		c.CanPanic = true
	case "fatal":
		c.Fatal = true
	case "nosafety":
		c.NoSafety = true
	case "allowpanic":
		c.AllowPanic = true
	case "nolocks":
		c.NoLocks = true
	case "noframe":
		c.NoFrame = true
	case "unroll":
		c.Unroll = true
	case "runinits":
		c.RunInits = true
	default:
		return false
	}
	return true
}

func (cs *Contracts) globalType(n string) types.Type {
	i := strings.LastIndexByte(n, '.')
	p := cs.pkgs[n[:i]]
	if p == nil {
		p = cs.pkgs[modPath+"/"+n[:i]]
	}
	return p.Scope().Lookup(n[i+1:]).Type()
}

// constGlobal: the value of a global declared constant.
func (cs *Contracts) constGlobal(v ssa.Value) (Val, bool) {
	g, ok := v.(*ssa.Global)
	if !ok {
		return Val{}, false
	}
	return cs.constant(globalName(g))
}

// constant: the value of a global that never changes after initialisation;
// while a package's own initialisation is executed its globals are ordinary
// variables.
func (cs *Contracts) constant(n string) (Val, bool) {
	if cs.initPkg != "" && n[:strings.LastIndexByte(n, '.')] == cs.initPkg {
		return Val{}, false
	}
	c, ok := cs.consts[n]
	return c, ok
}

// loadAxioms evaluates the declared axioms.
func (cs *Contracts) loadAxioms(ex *Exec) {
	for _, a := range cs.axioms {
		e, err := parseSpec(a.text)
		if err != nil {
			panic("axiom " + a.name + ": " + err.Error())
		}
		st := newState()
		st.ctr = Int(1)
		env := &Env{ex: ex, cs: cs, st: st, vars: map[string]Val{}, pkg: a.pkg}
		t := env.evalBool(e)
		need := []string{}
		walk(t, map[*Term]bool{}, func(x *Term) {
			if x.Op == "$f" && (strings.HasPrefix(x.Name, "fn:") || strings.HasPrefix(x.Name, "pure:") || strings.HasPrefix(x.Name, "sprintf")) {
				need = append(need, x.Name)
			}
		})
		axioms = append(axioms, axiom{"axiom:" + a.name, need, t})
	}
}

// ---- locations ----

type loc struct {
	key, sort string
	ref       *Term
	arr       *Term
}

// locations lists the heap components named by a modifies clause.
func (e *Env) locations(c Clause) []loc { return e.locs(c.Expr) }

func (e *Env) locs(x ast.Expr) []loc {
	switch n := x.(type) {
	case *ast.ParenExpr:
		return e.locs(n.X)
	case *ast.StarExpr:
		v := e.eval(n.X)
		return e.locsAt(v.L[0], deref(v.T))
	case *ast.SelectorExpr:
		a := e.addrOf(n)
		return e.locsAt(a.L[0], deref(a.T))
	case *ast.Ident:
		a := e.addrOf(n)
		return e.locsAt(a.L[0], deref(a.T))
	case *ast.CallExpr:
		id := n.Fun.(*ast.Ident)
		switch id.Name {
		case "elems":
			v := e.eval(n.Args[0])
			var out []loc
			for _, k := range e.ex.elemKeys(v.T.Underlying().(*types.Slice).Elem()) {
				if len(k.path) > 0 {
					e.errf("nested elements")
				}
				e.st.get(k.key, SArr(k.sort))
				out = append(out, loc{k.key, SArr(k.sort), v.L[0], v.L[0]})
			}
			return out
		case "mapof":
			v := e.eval(n.Args[0])
			nm, ks := mapKeyName(v.T), mapKeySort(v.T)
			out := []loc{{"md:" + nm, SArr(SArrK(ks, SBool)), v.L[0], nil}, {"ml:" + nm, SArr(SInt), v.L[0], nil}}
			for j, l := range leavesOf(v.T.Underlying().(*types.Map).Elem()) {
				out = append(out, loc{fmt.Sprintf("mv:%s#%d", nm, j), SArr(SArrK(ks, l.Sort)), v.L[0], nil})
			}
			for _, l := range out {
				e.st.get(l.key, l.sort)
			}
			return out
		case "ghost":
			k := n.Args[0].(*ast.BasicLit).Value
			k = "gh:" + k[1:len(k)-1]
			s, ok := keySorts[k]
			if !ok {
				s = SArr(SInt)
			}
			e.st.get(k, s)
			return []loc{{k, s, e.eval(n.Args[1]).L[0], nil}}
		}
	}
	e.errf("modifies %s", exprString(x))
	return nil
}

func (e *Env) locsAt(p *Term, t types.Type) []loc {
	if p.Op == "$f" && strings.HasPrefix(p.Name, "gaddr:") {
		var out []loc
		for i, s := range scalarSorts(t) {
			k := fmt.Sprintf("g:%s#%d", strings.TrimPrefix(p.Name, "gaddr:"), i)
			e.st.get(k, s)
			out = append(out, loc{k, s, nil, nil})
		}
		return out
	}
	if isStruct(t) {
		var out []loc
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			out = append(out, e.locsAt(fldTerm(t, i, -1, p), s.Field(i).Type())...)
		}
		return out
	}
	if isFld(p) {
		fi := fldReg[p.Name]
		ft := fi.st.Field(fi.idx).Type()
		var out []loc
		if isArray(ft) {
			el, n, ok := flatArray(ft)
			if ok {
				for k := 0; k < n; k++ {
					key := fmt.Sprintf("f:%s.%s@%d#0", fi.key, fi.name, k)
					e.st.get(key, SArr(scalarSorts(el)[0]))
					out = append(out, loc{key, SArr(scalarSorts(el)[0]), p.Args[0], nil})
				}
			}
			return out
		}
		for i, s := range scalarSorts(ft) {
			key := fmt.Sprintf("f:%s.%s#%d", fi.key, fi.name, i)
			e.st.get(key, SArr(s))
			out = append(out, loc{key, SArr(s), p.Args[0], nil})
		}
		return out
	}
	var out []loc
	for i, s := range scalarSorts(t) {
		k := cellKey(t, i)
		e.st.get(k, SArr(s))
		out = append(out, loc{k, SArr(s), p, nil})
	}
	return out
}

func (e *Env) bindLets(c *Contract) {
	for _, l := range c.Lets {
		e.vars[l.Label] = e.eval(l.Expr)
	}
}

// checkStable scans the program for writes to declared stable fields other
// than on objects just allocated in the writing function, and to private
// fields from outside their package (impossible for unexported ones).
func (cs *Contracts) checkStable(fns []*ssa.Function) []string {
	want := map[string]stableDecl{}
	for _, d := range cs.stableFields {
		want[d.key] = d
	}
	var bad []string
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				t := fa.X.Type().Underlying().(*types.Pointer).Elem()
				k := "f:" + structKey(t) + "." + t.Underlying().(*types.Struct).Field(fa.Field).Name()
				d, ok := want[k]
				if !ok || d.priv {
					continue
				}
				for _, r := range *fa.Referrers() {
					switch u := r.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						if u.Addr == ssa.Value(fa) && !isFreshAlloc(fa.X) {
							bad = append(bad, fmt.Sprintf("%s is written in %s", k, fn))
						}
						if u.Val == ssa.Value(fa) {
							bad = append(bad, fmt.Sprintf("address of %s taken in %s", k, fn))
						}
					case *ssa.FieldAddr, *ssa.IndexAddr:
					case *ssa.Call, *ssa.Defer, *ssa.Go: // a method of the field (mutex etc.)
					default:
						bad = append(bad, fmt.Sprintf("address of %s escapes in %s", k, fn))
					}
				}
			}
		}
	}
	sort.Strings(bad)
	return bad
}
func isFreshAlloc(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return isFreshAlloc(x.X)
	}
	return false
}
