package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Clause struct {
	Label string
	Text  string
	Expr  ast.Expr
	Line  string
}

type InvTmpl struct {
	Clause
	Vars []tmplVar
}
type tmplVar struct {
	Name string
	Type ast.Expr
	Text string
}

type Contract struct {
	Name    string // as written
	Full    string // package path + name, or full name for externs
	Pkg     *types.Package
	Params  []string
	Results []string
	Fn      *ssa.Function

	Requires, Ensures, OnPanic, OnFatal, Steps, Modifies, Lets, Decreases []Clause
	Invs                                                                  []InvTmpl
	Decs                                                                  []InvTmpl
	Props                                                                 []string

	Extern, Trusted, Inline, Event, Havoc, Pure, CanPanic, Fatal, NoReturnPanic bool
	UserRely                                                                    []Clause
	NoSafety, Panics, AllowPanic, NoLocks, FrameAll, NoFrame, Terminates        bool
	Quiet                                                                       ast.Expr // with havoc: what holds when no unknown code ran
	Opaque, Modular, Client                                                     bool
	MaxRec                                                                      int
	Unroll                                                                      bool
	RunInits                                                                    bool // the package's initialisation runs before the function
	Note                                                                        string
	Line                                                                        string
}

type Def struct {
	Name   string
	Params []string
	Expr   ast.Expr
	Text   string
	Pkg    *types.Package
}

type FnDecl struct {
	Name string
	Args []types.Type
	Res  types.Type
}

type Monitor struct {
	Local     bool
	owns      []string // protected globals of slice type whose array is reached only through them
	Name      string   // "fld:listener.conn.mu" or "gaddr:..."/literal for globals
	Self      string
	Type      types.Type
	Global    bool
	Protects  []Clause
	Inv       []Clause
	Rely      []Clause
	Guarantee []Clause
	fields    map[string]bool // fld:/gaddr: names protected
	mapFields []fldInfo
	mapTypes  map[string]bool
	Pkg       *types.Package
	lockName  string
	First     bool         // never acquired while another monitor's lock is held
	Stamps    []ghostStamp // ghost times, set at each release
	Collects  []ghostStamp // the same, for objects the lock protects something about
	Interf    []Clause     // monitors of other objects, whose state is read in the invariant
}

// ghostStamp: gh:st:Name[o] becomes the current time when the condition holds.
type ghostStamp struct {
	Name string
	Var  string
	Type types.Type
	When Clause // which objects (collect: the others keep theirs; where Cond is false, 0)
	Cond Clause
}

type Contracts struct {
	initPkg      string // short path of the package whose initialisation the current contract executes
	ex           *Exec
	byFn         map[*ssa.Function]*Contract
	externs      map[string]*Contract
	list         []*Contract
	defs         map[string]*Def
	fns          map[string]*FnDecl
	alias        map[string]string
	monitors     []*Monitor
	consts       map[string]Val // const globals
	stable       []string
	pkgs         map[string]*types.Package // by name and path
	prog         *ssa.Program
	fset         *token.FileSet
	posOf        map[string]token.Pos // a position inside a file of the package
	axioms       []rawAxiom
	constGlobals []string
	errs         []string
	atomics      []*Atomic
	models       map[string]*ssa.Function
	modelNames   map[string]string
	volatile     map[string]bool
	stableFields []stableDecl
	spkgs        map[string]*ssa.Package
	curPkg       *types.Package
	pending      []pendingContract
}

type rawAxiom struct {
	name, text string
	pkg        *types.Package
}

// conv rewrites "a ==> b" to imp(a, b) at every nesting level.
func conv(s string) string {
	var out strings.Builder
	// first convert bracketed groups
	i := 0
	for i < len(s) {
		c := s[i]
		switch c {
		case '"', '\'', '`':
			j := i + 1
			for j < len(s) && s[j] != c {
				if s[j] == '\\' && c != '`' {
					j++
				}
				j++
			}
			out.WriteString(s[i : j+1])
			i = j + 1
		case '(', '[', '{':
			d := 0
			j := i
			for j < len(s) {
				switch s[j] {
				case '(', '[', '{':
					d++
				case ')', ']', '}':
					d--
				case '"', '`', '\'':
					q := s[j]
					j++
					for j < len(s) && s[j] != q {
						if s[j] == '\\' && q != '`' {
							j++
						}
						j++
					}
				}
				if d == 0 {
					break
				}
				j++
			}
			if j >= len(s) {
				panic("unbalanced: " + s)
			}
			out.WriteByte(c)
			out.WriteString(convList(s[i+1 : j]))
			out.WriteByte(s[j])
			i = j + 1
		default:
			out.WriteByte(c)
			i++
		}
	}
	return convImp(out.String())
}
func splitTop(s, sep string) []string {
	var parts []string
	d := 0
	last := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case '"', '`', '\'':
			q := s[i]
			i++
			for i < len(s) && s[i] != q {
				if s[i] == '\\' && q != '`' {
					i++
				}
				i++
			}
		}
		if d == 0 && i < len(s) && strings.HasPrefix(s[i:], sep) {
			parts = append(parts, s[last:i])
			last = i + len(sep)
			i += len(sep) - 1
		}
	}
	return append(parts, s[last:])
}
func convList(s string) string {
	ps := splitTop(s, ",")
	for i, p := range ps {
		ps[i] = conv(p)
	}
	return strings.Join(ps, ",")
}
func convImp(s string) string {
	ps := splitTop(s, "==>")
	r := ps[len(ps)-1]
	for i := len(ps) - 2; i >= 0; i-- {
		r = "imp(" + ps[i] + ", " + r + ")"
	}
	return r
}

func parseSpec(text string) (ast.Expr, error) {
	c := convList(text)
	return parser.ParseExpr(c)
}

// Env is the evaluation environment of a specification expression.
type Env struct {
	ex     *Exec
	cs     *Contracts
	st     *State
	old    *State
	pre    *State // loop entry
	lock   *State // state at the last acquisition of the monitor
	ev     *State // state in which the entries of the event log are read (the log only grows)
	lockSt *State // state whose lock set answers held()
	vars   map[string]Val
	ovars  map[string]Val // values in pre state, for loop metavariables
	pkg    *types.Package
	depth  int
	what   string
	kinds  map[string]string // parameters of the enclosing definition that stand for event kinds
	iter   string            // the map iteration of the loop
	names  map[string]byName // its parameters whose names start with _: evaluated where they are used
}

type byName struct {
	x   ast.Expr
	env *Env
}

func (e *Env) evSt() *State {
	if e.ev != nil {
		return e.ev
	}
	return e.st
}

func (e *Env) errf(format string, a ...interface{}) {
	panic(unsupported{"spec: " + fmt.Sprintf(format, a...)})
}

func boolVal(t *Term) Val { return Val{T: types.Typ[types.Bool], L: []*Term{t}} }
func intVal(t *Term) Val  { return Val{T: types.Typ[types.Int], L: []*Term{t}} }
func strVal(t *Term) Val  { return Val{T: types.Typ[types.String], L: []*Term{t}} }

func (e *Env) evalBool(x ast.Expr) *Term {
	v := e.eval(x)
	if len(v.L) != 1 || v.L[0].Sort != SBool {
		e.errf("not a boolean: %s", exprString(x))
	}
	return v.L[0]
}

func exprString(x ast.Expr) string { return types.ExprString(x) }

// inState evaluates f with another current state, keeping the facts learned.
func (e *Env) inState(s *State, f func(*Env) Val) Val {
	if s == nil {
		debugState()
		e.errf("no such state here")
	}
	tmp := *s
	tmp.hyps = nil
	tmp.hset = map[*Term]bool{}
	if tmp.ctr == nil {
		tmp.ctr = Int(1)
	}
	e2 := *e
	e2.st = &tmp
	v := f(&e2)
	e.st.assume(tmp.hyps...)
	return v
}

var tInt = types.Typ[types.Int]

func (e *Env) eval(x ast.Expr) Val {
	switch n := x.(type) {
	case *ast.ParenExpr:
		return e.eval(n.X)
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT:
			return intVal(IntS(n.Value))
		case token.STRING:
			s, err := strconv.Unquote(n.Value)
			if err != nil {
				e.errf("string %s", n.Value)
			}
			return strVal(StrLit(s))
		case token.CHAR:
			r, _, _, err := strconv.UnquoteChar(n.Value[1:len(n.Value)-1], '\'')
			if err != nil {
				e.errf("char %s", n.Value)
			}
			return intVal(Int(int64(r)))
		}
	case *ast.Ident:
		return e.ident(n.Name)
	case *ast.UnaryExpr:
		switch n.Op {
		case token.NOT:
			return boolVal(Not(e.evalBool(n.X)))
		case token.SUB:
			return intVal(Sub(Int(0), e.eval(n.X).L[0]))
		case token.AND:
			return e.addrOf(n.X)
		}
	case *ast.StarExpr:
		v := e.eval(n.X)
		p, ok := v.T.Underlying().(*types.Pointer)
		if !ok {
			e.errf("deref of %s", v.T)
		}
		return e.st.load(v.L[0], p.Elem())
	case *ast.BinaryExpr:
		return e.binary(n)
	case *ast.SelectorExpr:
		return e.selector(n)
	case *ast.IndexExpr:
		return e.index(n)
	case *ast.SliceExpr:
		v := e.eval(n.X)
		lo, hi := Int(0), (*Term)(nil)
		if n.Low != nil {
			lo = e.eval(n.Low).L[0]
		}
		if n.High != nil {
			hi = e.eval(n.High).L[0]
		}
		if v.L[0].Sort == SStr {
			if hi == nil {
				hi = SLen(v.L[0])
			}
			return strVal(SSub(v.L[0], lo, hi))
		}
		if hi == nil {
			hi = v.L[2]
		}
		return Val{T: v.T, L: []*Term{v.L[0], Add(v.L[1], lo), Sub(hi, lo), Sub(v.L[3], lo)}}
	case *ast.CallExpr:
		return e.call(n)
	case *ast.CompositeLit:
		t := e.typeOf(n.Type)
		v := zeroVal(t)
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			e.errf("composite literal of %s", t)
		}
		for i, el := range n.Elts {
			idx := i
			val := el
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				idx = -1
				for k := 0; k < s.NumFields(); k++ {
					if s.Field(k).Name() == kv.Key.(*ast.Ident).Name {
						idx = k
					}
				}
				val = kv.Value
			}
			if idx < 0 {
				e.errf("no such field in %s", t)
			}
			a, _ := fieldRange(s, idx)
			fv := e.coerce(e.eval(val), s.Field(idx).Type())
			copy(v.L[a:], fv.L)
		}
		return v
	case *ast.TypeAssertExpr:
		v := e.eval(n.X)
		return unbox(v.L[0], e.typeOf(n.Type))
	}
	e.errf("expression %s (%T)", exprString(x), x)
	return Val{}
}

// coerce adapts untyped constants and boxes concrete values.
func (e *Env) coerce(v Val, t types.Type) Val {
	if t == nil {
		return v
	}
	if v.T == types.Typ[types.UntypedNil] {
		return zeroVal(t)
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		if v.T != nil {
			if _, isI := v.T.Underlying().(*types.Interface); !isI {
				return Val{T: t, L: []*Term{boxTerm(v)}}
			}
		}
		return Val{T: t, L: v.L}
	}
	ss := leavesOf(t)
	if len(ss) == 1 && len(v.L) == 1 && strings.HasPrefix(ss[0].Sort, "(_ Bit") && v.L[0].isInt() {
		var w int
		fmt.Sscanf(ss[0].Sort, "(_ BitVec %d)", &w)
		return Val{T: t, L: []*Term{BV(uint64(v.L[0].intVal()), w)}}
	}
	return v
}

func (e *Env) ident(name string) Val {
	if v, ok := e.vars[name]; ok {
		return v
	}
	if b, ok := e.names[name]; ok {
		e2 := *e
		e2.vars, e2.names, e2.kinds, e2.pkg = b.env.vars, b.env.names, b.env.kinds, b.env.pkg
		return e2.eval(b.x)
	}
	switch name {
	case "nil":
		return Val{T: types.Typ[types.UntypedNil], L: []*Term{Int(0)}}
	case "true":
		return boolVal(tTrue)
	case "false":
		return boolVal(tFalse)
	case "now":
		return intVal(stTime(e.st))
	}
	if d, ok := e.cs.defs[name]; ok && len(d.Params) == 0 {
		return e.macro(d, nil)
	}
	if f, ok := e.cs.fns[name]; ok && len(f.Args) == 0 {
		return Val{T: f.Res, L: []*Term{App("fn:"+name, leavesOf(f.Res)[0].Sort)}}
	}
	if e.pkg != nil {
		if o := e.pkg.Scope().Lookup(name); o != nil {
			return e.object(o)
		}
	}
	e.errf("undefined: %s", name)
	return Val{}
}

func (e *Env) object(o types.Object) Val {
	switch o := o.(type) {
	case *types.Const:
		c := &ssa.Const{Value: o.Val()}
		_ = c
		t := o.Type()
		if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			t = types.Default(t)
		}
		return constVal(ssa.NewConst(o.Val(), t))
	case *types.Var:
		n := strings.ReplaceAll(o.Pkg().Path()+"."+o.Name(), "github.com/zenazn/goji/", "")
		if v, ok := e.cs.constant(n); ok {
			return v
		}
		return e.st.load(globalTerm(n, o.Type()), o.Type())
	case *types.Func:
		fn := e.cs.prog.FuncValue(o)
		if fn == nil {
			e.errf("no function %s", o)
		}
		return e.ex.funcVal(fn, nil)
	}
	e.errf("object %s", o)
	return Val{}
}

func (e *Env) typeOf(x ast.Expr) types.Type {
	if id, ok := x.(*ast.Ident); ok {
		switch id.Name {
		case "Any", "any":
			return types.NewInterfaceType(nil, nil)
		}
	}
	key := "?"
	if e.pkg != nil {
		key = e.pkg.Path()
	}
	tv, err := types.Eval(e.cs.fset, e.pkg, e.cs.posOf[key], exprString(x))
	if err != nil || !tv.IsType() {
		// qualified type of a package the file does not import
		if t := e.lookupType(x); t != nil {
			return t
		}
		e.errf("type %s: %v", exprString(x), err)
	}
	return types.Unalias(tv.Type)
}
func (e *Env) lookupType(x ast.Expr) types.Type {
	switch n := x.(type) {
	case *ast.StarExpr:
		if t := e.lookupType(n.X); t != nil {
			return types.NewPointer(t)
		}
	case *ast.ChanType:
		if t := e.lookupType(n.Value); t != nil {
			return types.NewChan(map[ast.ChanDir]types.ChanDir{ast.SEND: types.SendOnly, ast.RECV: types.RecvOnly, ast.SEND | ast.RECV: types.SendRecv}[n.Dir], t)
		}
	case *ast.ArrayType:
		if t := e.lookupType(n.Elt); t != nil && n.Len == nil {
			return types.NewSlice(t)
		}
	case *ast.Ident:
		if o := types.Universe.Lookup(n.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
		if e.pkg != nil {
			if tn, ok := e.pkg.Scope().Lookup(n.Name).(*types.TypeName); ok {
				return tn.Type()
			}
		}
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok {
			if p := e.cs.pkgs[id.Name]; p != nil {
				if tn, ok := p.Scope().Lookup(n.Sel.Name).(*types.TypeName); ok {
					return tn.Type()
				}
			}
		}
	case *ast.MapType:
		k, v := e.lookupType(n.Key), e.lookupType(n.Value)
		if k != nil && v != nil {
			return types.NewMap(k, v)
		}
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil)
	}
	return nil
}

func (e *Env) selector(n *ast.SelectorExpr) Val {
	if id, ok := n.X.(*ast.Ident); ok {
		if _, isVar := e.vars[id.Name]; !isVar {
			if p := e.cs.pkgs[id.Name]; p != nil && (e.pkg == nil || e.pkg.Scope().Lookup(id.Name) == nil) {
				o := p.Scope().Lookup(n.Sel.Name)
				if o == nil {
					e.errf("undefined %s.%s", id.Name, n.Sel.Name)
				}
				return e.object(o)
			}
		}
	}
	v := e.eval(n.X)
	return e.field(v, n.Sel.Name)
}

func (e *Env) field(v Val, name string) Val {
	if v.T == nil {
		e.errf("field %s of untyped value", name)
	}
	t := v.T
	var pk *types.Package
	if nm, ok := deref(t).(*types.Named); ok {
		pk = nm.Obj().Pkg()
	}
	obj, path, _ := types.LookupFieldOrMethod(t, true, pk, name)
	fv, ok := obj.(*types.Var)
	if !ok {
		e.errf("no field %s in %s", name, t)
	}
	_ = fv
	for _, i := range path {
		if p, ok := v.T.Underlying().(*types.Pointer); ok {
			ft := p.Elem().Underlying().(*types.Struct).Field(i).Type()
			// stay at reference level for nested structs
			if isStruct(ft) && i != path[len(path)-1] {
				v = Val{T: types.NewPointer(ft), L: []*Term{fldTerm(p.Elem(), i, -1, v.L[0])}}
				continue
			}
			v = e.st.loadField(v.L[0], p.Elem(), i)
			continue
		}
		s := v.T.Underlying().(*types.Struct)
		a, b := fieldRange(s, i)
		v = Val{T: s.Field(i).Type(), L: v.L[a:b]}
	}
	return v
}
func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// addrOf gives references of struct-valued places.
func (e *Env) addrOf(x ast.Expr) Val {
	switch n := x.(type) {
	case *ast.ParenExpr:
		return e.addrOf(n.X)
	case *ast.Ident:
		if e.pkg != nil {
			if o, ok := e.pkg.Scope().Lookup(n.Name).(*types.Var); ok {
				nm := strings.ReplaceAll(o.Pkg().Path()+"."+o.Name(), "github.com/zenazn/goji/", "")
				return Val{T: types.NewPointer(o.Type()), L: []*Term{globalTerm(nm, o.Type())}}
			}
		}
	case *ast.SelectorExpr:
		base := e.eval(n.X)
		if p, ok := base.T.Underlying().(*types.Pointer); ok {
			obj, path, _ := types.LookupFieldOrMethod(base.T, true, e.pkg, n.Sel.Name)
			fv := obj.(*types.Var)
			cur := base.L[0]
			pt := p.Elem()
			for k, i := range path {
				cur = fldTerm(pt, i, -1, cur)
				if k < len(path)-1 {
					pt = pt.Underlying().(*types.Struct).Field(i).Type()
				}
			}
			return Val{T: types.NewPointer(fv.Type()), L: []*Term{cur}}
		}
		// address of a field of an addressable struct
		b := e.addrOf(n.X)
		p := b.T.Underlying().(*types.Pointer)
		obj, path, _ := types.LookupFieldOrMethod(p.Elem(), true, e.pkg, n.Sel.Name)
		fv := obj.(*types.Var)
		return Val{T: types.NewPointer(fv.Type()), L: []*Term{fldTerm(p.Elem(), path[0], -1, b.L[0])}}
	case *ast.IndexExpr:
		s := e.eval(n.X)
		i := e.eval(n.Index).L[0]
		if sl, ok := s.T.Underlying().(*types.Slice); ok {
			return Val{T: types.NewPointer(sl.Elem()), L: []*Term{Elem(s.L[0], Add(s.L[1], i))}}
		}
	}
	e.errf("address of %s", exprString(x))
	return Val{}
}

func (e *Env) index(n *ast.IndexExpr) Val {
	v := e.eval(n.X)
	switch u := v.T.Underlying().(type) {
	case *types.Map:
		k := e.coerce(e.eval(n.Index), u.Key()).L[0]
		has := e.st.mapHas(v, k)
		r := e.st.mapLookup(v, k)
		z := zeroVal(u.Elem())
		o := Val{T: u.Elem()}
		for j := range r.L {
			o.L = append(o.L, Ite(has, r.L[j], z.L[j]))
		}
		return o
	case *types.Slice:
		i := e.eval(n.Index).L[0]
		return e.st.load(Elem(v.L[0], Add(v.L[1], i)), u.Elem())
	case *types.Array:
		i := e.eval(n.Index).L[0]
		m := len(leavesOf(u.Elem()))
		o := Val{T: u.Elem()}
		for j := 0; j < m; j++ {
			t := v.L[(int(u.Len())-1)*m+j]
			for k := int(u.Len()) - 2; k >= 0; k-- {
				t = Ite(Eq(i, Int(int64(k))), v.L[k*m+j], t)
			}
			o.L = append(o.L, t)
		}
		return o
	case *types.Basic:
		return intVal(SAt(v.L[0], e.eval(n.Index).L[0]))
	}
	e.errf("index of %s", v.T)
	return Val{}
}

func (e *Env) binary(n *ast.BinaryExpr) Val {
	switch n.Op {
	case token.LAND:
		return boolVal(And(e.evalBool(n.X), e.evalBool(n.Y)))
	case token.LOR:
		return boolVal(Or(e.evalBool(n.X), e.evalBool(n.Y)))
	}
	a, b := e.eval(n.X), e.eval(n.Y)
	a, b = e.unify(a, b)
	switch n.Op {
	case token.EQL:
		return boolVal(e.eqSpec(a, b))
	case token.NEQ:
		return boolVal(Not(e.eqSpec(a, b)))
	}
	p, q := a.L[0], b.L[0]
	if p.Sort == SStr {
		switch n.Op {
		case token.ADD:
			return strVal(SCat(p, q))
		case token.LSS:
			return boolVal(App("slt", SBool, p, q))
		case token.LEQ:
			return boolVal(Not(App("slt", SBool, q, p)))
		}
	}
	if isBV(p) {
		switch n.Op {
		case token.AND:
			return Val{T: a.T, L: []*Term{bvop("bvand", p, q)}}
		case token.OR:
			return Val{T: a.T, L: []*Term{bvop("bvor", p, q)}}
		case token.AND_NOT:
			return Val{T: a.T, L: []*Term{bvop("bvand", p, mk("bvnot", "", q.Sort, q))}}
		}
	}
	switch n.Op {
	case token.ADD:
		return intVal(Add(p, q))
	case token.SUB:
		return intVal(Sub(p, q))
	case token.MUL:
		return intVal(Mul(p, q))
	case token.QUO:
		return intVal(mk("div", "", SInt, p, q))
	case token.REM:
		return intVal(mk("mod", "", SInt, p, q))
	case token.LSS:
		return boolVal(Lt(p, q))
	case token.LEQ:
		return boolVal(Le(p, q))
	case token.GTR:
		return boolVal(Lt(q, p))
	case token.GEQ:
		return boolVal(Le(q, p))
	}
	e.errf("operator %s", n.Op)
	return Val{}
}

func (e *Env) unify(a, b Val) (Val, Val) {
	if a.T == nil || b.T == nil {
		return a, b
	}
	if a.T == types.Typ[types.UntypedNil] && b.T == types.Typ[types.UntypedNil] {
		return a, b
	}
	_, ai := a.T.Underlying().(*types.Interface)
	_, bi := b.T.Underlying().(*types.Interface)
	if ai != bi || a.T == types.Typ[types.UntypedNil] || b.T == types.Typ[types.UntypedNil] {
		if ai || b.T == types.Typ[types.UntypedNil] {
			return a, e.coerce(b, a.T)
		}
		return e.coerce(a, b.T), b
	}
	if len(a.L) == 1 && len(b.L) == 1 && a.L[0].Sort != b.L[0].Sort {
		if isBV(a.L[0]) {
			return a, e.coerce(b, a.T)
		}
		return e.coerce(a, b.T), b
	}
	return a, b
}

func (e *Env) eqSpec(a, b Val) *Term {
	if len(a.L) != len(b.L) {
		e.errf("comparing %v with %v", a.T, b.T)
	}
	if _, ok := a.T.Underlying().(*types.Slice); ok && (b.L[0].isInt() && b.L[0].intVal() == 0) {
		return Eq(a.L[0], b.L[0])
	}
	var cs []*Term
	for i := range a.L {
		cs = append(cs, Eq(a.L[i], b.L[i]))
	}
	return And(cs...)
}

func (e *Env) macro(d *Def, args []Val) Val {
	if e.depth > 40 {
		e.errf("macro recursion in %s", d.Name)
	}
	e2 := *e
	e2.depth++
	if d.Pkg != nil {
		e2.pkg = d.Pkg
	}
	e2.vars = map[string]Val{}
	if len(d.Params) == 0 {
		for k, v := range e.vars {
			e2.vars[k] = v
		}
	}
	for i, p := range d.Params {
		if !strings.HasPrefix(p, "_") {
			e2.vars[p] = args[i]
		}
	}
	return e2.eval(d.Expr)
}

func (e *Env) kind(x ast.Expr) string {
	switch n := x.(type) {
	case *ast.BasicLit:
		s, _ := strconv.Unquote(n.Value)
		if strings.HasPrefix(s, "async:") {
			if a, ok := e.cs.alias[s[6:]]; ok {
				return "async:" + a
			}
			return s
		}
		if a, ok := e.cs.alias[s]; ok {
			return a
		}
		return s
	case *ast.Ident:
		if a, ok := e.kinds[n.Name]; ok {
			return a
		}
		if a, ok := e.cs.alias[n.Name]; ok {
			return a
		}
	}
	e.errf("event kind %s", exprString(x))
	return ""
}

func (e *Env) quant(n *ast.CallExpr, univ bool) Val {
	e2 := *e
	e2.vars = map[string]Val{}
	for k, v := range e.vars {
		e2.vars[k] = v
	}
	args := n.Args
	var vars []*Term
	i := 0
	for ; i < len(args)-1; i++ {
		if id, ok := args[i].(*ast.Ident); ok {
			v := FreshVar(id.Name, SInt)
			vars = append(vars, v)
			e2.vars[id.Name] = intVal(v)
			continue
		}
		if c, ok := args[i].(*ast.CallExpr); ok && len(c.Args) == 1 {
			if fid, ok := c.Fun.(*ast.Ident); ok && fid.Name == "trigger" {
				break
			}
			id, ok := c.Args[0].(*ast.Ident)
			if !ok {
				break
			}
			t := e.typeOf(unparen(c.Fun))
			v := Val{T: t}
			for _, l := range leavesOf(t) {
				bv := FreshVar(id.Name, l.Sort)
				vars = append(vars, bv)
				v.L = append(v.L, bv)
			}
			e2.vars[id.Name] = v
			continue
		}
		break
	}
	var trig [][]*Term
	for ; i < len(args)-1; i++ {
		c, ok := args[i].(*ast.CallExpr)
		if !ok || c.Fun.(*ast.Ident).Name != "trigger" {
			e.errf("quantifier argument %s", exprString(args[i]))
		}
		var tr []*Term
		for _, a := range c.Args {
			v := e2.eval(a)
			tr = append(tr, v.L[0])
		}
		trig = append(trig, tr)
	}
	body := e2.evalBool(args[len(args)-1])
	if univ {
		return boolVal(mkForall(vars, trig, body))
	}
	return boolVal(Not(mkForall(vars, trig, Not(body))))
}
func unparen(x ast.Expr) ast.Expr {
	for {
		p, ok := x.(*ast.ParenExpr)
		if !ok {
			return x
		}
		x = p.X
	}
}

// mkForall builds a quantifier, shifting variables so that array indices are
// plain, and choosing triggers when none are given.
func mkForall(vars []*Term, trig [][]*Term, body *Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	if len(trig) == 0 {
		for vi, v := range vars {
			if v.Sort != SInt {
				continue
			}
			// find elem(a, v+off) with closed off and no plain elem(a, v)
			var shift *Term
			plain := false
			walk(body, map[*Term]bool{}, func(x *Term) {
				var ix *Term
				if isElem(x) {
					ix = x.Args[1]
				} else if x.Op == "select" && x.Args[1].Sort == SInt {
					ix = x.Args[1]
				} else if x.Op == "$f" && x.Name == "sat" {
					ix = x.Args[1]
				} else {
					return
				}
				if ix == v {
					plain = true
					return
				}
				l := toLin(ix)
				if l.coefs[v] == 1 {
					off := Sub(ix, v)
					if !off.open && shift == nil {
						shift = off
					}
				}
			})
			if shift != nil && !plain {
				nv := FreshVar(strings.SplitN(v.Name, "?", 2)[0], SInt)
				m := map[*Term]*Term{v: Sub(nv, shift)}
				body = Subst(body, m)
				vars = append([]*Term(nil), vars...)
				vars[vi] = nv
			}
		}
		trig = inferTriggers(vars, body)
	}
	return Forall(vars, trig, body)
}

func inferTriggers(vars []*Term, body *Term) [][]*Term {
	vs := map[*Term]bool{}
	for _, v := range vars {
		vs[v] = true
	}
	type cand struct {
		t   *Term
		cov map[*Term]bool
	}
	var cands []cand
	// ok: usable in a pattern (no interpreted operators over bound variables)
	memo := map[*Term]bool{}
	var ok func(t *Term) bool
	ok = func(t *Term) bool {
		if r, y := memo[t]; y {
			return r
		}
		r := true
		if t.open {
			switch t.Op {
			case "$v":
			case "$f", "select":
				for _, a := range t.Args {
					if !ok(a) {
						r = false
					}
				}
			case "store", "ite", "+", "*", "forall", "exists", "and", "or", "not", "=>", "=", "<", "<=", "div", "mod":
				r = false
			default:
				r = false
			}
		} else {
			// closed boolean/quantified subterms are not allowed either
			if t.Vars != nil || t.Sort == SBool && t.Op != "$f" && t.Op != "$c" {
				r = false
			}
		}
		memo[t] = r
		return r
	}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.open && t.Vars == nil && (t.Op == "$f" && t.Name != "streq" && !strings.HasPrefix(t.Name, "unbox") && !isBox(t) || t.Op == "select") && ok(t) {
			cov := map[*Term]bool{}
			fv := map[*Term]bool{}
			collectVars(t, fv, map[*Term]bool{})
			good := true
			for v := range fv {
				if vs[v] {
					cov[v] = true
				} else {
					good = false
				}
			}
			if good && len(cov) > 0 {
				cands = append(cands, cand{t, cov})
			}
		}
		for _, a := range t.Args {
			visit(a)
		}
	}
	visit(body)
	// prefer selects over bare elem/len; drop elem/fld if nested inside a
	// larger candidate with the same coverage, and drop larger ones otherwise
	var full []*Term
	for _, c := range cands {
		if len(c.cov) == len(vars) {
			full = append(full, c.t)
		}
	}
	if len(full) > 0 {
		// remove candidates that strictly contain another full candidate that
		// is not a bare reference term
		var out [][]*Term
		for _, t := range full {
			bare := isElem(t) || isFld(t)
			skip := false
			for _, u := range full {
				if u == t {
					continue
				}
				ub := isElem(u) || isFld(u)
				if !ub && contains(t, u) {
					skip = true
				}
				if bare && !ub && contains(u, t) {
					skip = true
				}
			}
			if !skip {
				out = append(out, []*Term{t})
			}
		}
		if len(out) > 6 {
			out = out[:6]
		}
		return out
	}
	// greedy multi-pattern
	var tr []*Term
	cov := map[*Term]bool{}
	for len(cov) < len(vars) {
		best := -1
		gain := 0
		for i, c := range cands {
			g := 0
			for v := range c.cov {
				if !cov[v] {
					g++
				}
			}
			if g > gain {
				gain, best = g, i
			}
		}
		if best < 0 {
			return nil
		}
		tr = append(tr, cands[best].t)
		for v := range cands[best].cov {
			cov[v] = true
		}
	}
	return [][]*Term{tr}
}
func contains(t, u *Term) bool {
	f := false
	walk(t, map[*Term]bool{}, func(x *Term) {
		if x == u {
			f = true
		}
	})
	return f
}

func (e *Env) call(n *ast.CallExpr) Val {
	// conversions and builtin spec functions
	fun := unparen(n.Fun)
	id, ok := fun.(*ast.Ident)
	if !ok {
		// type conversion such as (*T)(x) or pkg.Type(x)
		t := e.typeOf(fun)
		v := e.eval(n.Args[0])
		v = e.coerce(v, t)
		return Val{T: t, L: v.L}
	}
	arg := func(i int) Val { return e.eval(n.Args[i]) }
	if v, isV := e.vars[id.Name]; isV {
		_ = v
		e.errf("call of variable %s", id.Name)
	}
	if d, ok := e.cs.defs[id.Name]; ok {
		if len(n.Args) != len(d.Params) {
			e.errf("%s: wrong number of arguments", id.Name)
		}
		var vs []Val
		var ks map[string]string
		var names map[string]byName
		for i, a := range n.Args {
			if strings.HasPrefix(d.Params[i], "_") {
				if names == nil {
					names = map[string]byName{}
				}
				names[d.Params[i]] = byName{a, e}
				vs = append(vs, boolVal(tFalse))
				continue
			}
			if ai, ok := a.(*ast.Ident); ok {
				k, isK := e.kinds[ai.Name]
				if al, ok := e.cs.alias[ai.Name]; ok && !isK {
					k, isK = al, true
				}
				if _, isV := e.vars[ai.Name]; isK && !isV {
					if ks == nil {
						ks = map[string]string{}
					}
					ks[d.Params[i]] = k
					vs = append(vs, boolVal(tFalse))
					continue
				}
			}
			vs = append(vs, arg(i))
		}
		e2 := *e
		e2.kinds = ks
		if len(d.Params) > 0 {
			e2.names = names
		}
		return e2.macro(d, vs)
	}
	switch id.Name {
	case "len":
		v := arg(0)
		switch v.T.Underlying().(type) {
		case *types.Slice:
			return intVal(v.L[2])
		case *types.Map:
			return intVal(e.st.mapLen(v))
		}
		return intVal(SLen(v.L[0]))
	case "cap":
		return intVal(arg(0).L[3])
	case "off":
		return intVal(arg(0).L[1])
	case "arr":
		return intVal(arg(0).L[0])
	case "old":
		if e.old == nil {
			e.errf("old() not available")
		}
		return e.inState(e.old, func(e2 *Env) Val { return e2.eval(n.Args[0]) })
	case "pre":
		return e.inState(e.pre, func(e2 *Env) Val {
			if e.ovars != nil {
				e3 := *e2
				e3.vars = map[string]Val{}
				for k, v := range e.vars {
					e3.vars[k] = v
				}
				for k, v := range e.ovars {
					e3.vars[k] = v
				}
				e2 = &e3
				return e2.eval(n.Args[0])
			}
			return e2.eval(n.Args[0])
		})
	case "atlock", "atunlock": // atlock("lock name", expr)
		k := n.Args[0].(*ast.BasicLit).Value
		k = k[1 : len(k)-1]
		m := e.st.lockAt
		if id.Name == "atunlock" {
			m = e.st.unlkAt
		}
		s := m[k]
		if s == nil { // nothing is known; a value of the right type
			v := e.eval(n.Args[1])
			r := Val{T: v.T}
			for _, l := range v.L {
				r.L = append(r.L, Fresh("nolock", l.Sort))
			}
			return r
		}
		return e.inState(s, func(e2 *Env) Val { return e2.eval(n.Args[1]) })
	case "atcall": // atcall("kind", expr): in the state of the last such event
		s := e.st.callAt[e.kind(n.Args[0])]
		if s == nil {
			// nothing is known; a value of the right type
			v := e.eval(n.Args[1])
			r := Val{T: v.T}
			for _, l := range v.L {
				r.L = append(r.L, Fresh("nocall", l.Sort))
			}
			return r
		}
		ev := e.evSt()
		return e.inState(s, func(e2 *Env) Val { e2.ev = ev; return e2.eval(n.Args[1]) })
	case "held": // held("lock name", obj)
		k := n.Args[0].(*ast.BasicLit).Value
		k = k[1 : len(k)-1]
		o := arg(1)
		s := e.lockSt
		if s == nil {
			s = e.st
		}
		var alts []*Term
		for _, l := range s.locks {
			if l.name == k {
				alts = append(alts, Eq(l.ref, o.L[0]))
			}
		}
		return boolVal(Or(alts...))
	case "imp":
		return boolVal(Imp(e.evalBool(n.Args[0]), e.evalBool(n.Args[1])))
	case "iff":
		return boolVal(Iff(e.evalBool(n.Args[0]), e.evalBool(n.Args[1])))
	case "ite":
		c := e.evalBool(n.Args[0])
		a, b := arg(1), arg(2)
		a, b = e.unify(a, b)
		r := Val{T: a.T}
		for i := range a.L {
			r.L = append(r.L, Ite(c, a.L[i], b.L[i]))
		}
		return r
	case "forall":
		return e.quant(n, true)
	case "exists":
		return e.quant(n, false)
	case "has":
		m := arg(0)
		k := e.coerce(arg(1), m.T.Underlying().(*types.Map).Key()).L[0]
		return boolVal(e.st.mapHas(m, k))
	case "pfx": // pfx(p, s): p is a prefix of s
		return boolVal(SPfx(arg(0).L[0], arg(1).L[0]))
	case "sub":
		return strVal(SSub(arg(0).L[0], arg(1).L[0], arg(2).L[0]))
	case "cat":
		return strVal(SCat(arg(0).L[0], arg(1).L[0]))
	case "fresh":
		v := arg(0)
		b := Int(0)
		if e.old != nil {
			b = e.old.ctr
		}
		return boolVal(And(Le(b, rootOf(v.L[0])), Not(Eq(v.L[0], Int(0)))))
	case "is":
		v := arg(0)
		t := e.typeOf(n.Args[1])
		if _, isI := t.Underlying().(*types.Interface); isI {
			return boolVal(And(Not(Eq(v.L[0], nilAny)), implPred(t, typOf(v.L[0]))))
		}
		regBox(t)
		return boolVal(Eq(typOf(v.L[0]), typeTag(t)))
	case "as":
		return unbox(arg(0).L[0], e.typeOf(n.Args[1]))
	case "box":
		v := arg(0)
		if len(n.Args) > 1 {
			v.T = e.typeOf(n.Args[1])
		}
		return Val{T: types.NewInterfaceType(nil, nil), L: []*Term{boxTerm(v)}}
	case "hasbyte": // hasbyte(s, c): the byte c occurs in s
		return boolVal(App("shas", SBool, arg(0).L[0], arg(1).L[0]))
	case "decimal":
		return strVal(fmtInt("%d", arg(0).L[0]))
	case "haspart": // haspart(s, t): s is a concatenation one of whose parts is t
		return boolVal(hasPart(arg(0).L[0], arg(1).L[0], 0))
	case "isclo": // isclo(f, name): f is the function (or closure of) name
		v := arg(0)
		return boolVal(Bool(isClo(v.L[0]) && strings.HasSuffix(v.L[0].Name, n.Args[1].(*ast.BasicLit).Value[1:len(n.Args[1].(*ast.BasicLit).Value)-1])))
	case "n":
		return intVal(evN(e.st, e.kind(n.Args[0])))
	case "time":
		k := e.kind(n.Args[0])
		return intVal(Select(e.evSt().get("ev.t:"+k, SArr(SInt)), arg(1).L[0]))
	case "arg", "res":
		k := e.kind(n.Args[0])
		i := arg(1).L[0]
		j := int(arg(2).L[0].intVal())
		var t types.Type
		if len(n.Args) > 3 {
			t = e.typeOf(n.Args[3])
		}
		return e.evArg(k, i, j, id.Name == "res", t)
	case "called": // called("kind", i, a0, a1, ...): event i has these leading arguments
		k := e.kind(n.Args[0])
		i := arg(1).L[0]
		cs := []*Term{}
		for j := 2; j < len(n.Args); j++ {
			if ident, ok := n.Args[j].(*ast.Ident); ok && ident.Name == "_" {
				continue
			}
			v := arg(j)
			a := e.evArgLike(k, i, j-2, v)
			if a.T == nil || len(a.L) == 0 {
				return boolVal(tFalse)
			}
			v2, a2 := v, a
			if v2.T != nil && a2.T != nil {
				v2, a2 = e.unify(v, a)
			}
			cs = append(cs, e.eqSpec(v2, a2))
		}
		return boolVal(And(cs...))
	case "ghost":
		k := n.Args[0].(*ast.BasicLit).Value
		k = k[1 : len(k)-1]
		return intVal(Select(e.st.get("gh:"+k, SArr(SInt)), arg(1).L[0]))
	case "ghostb":
		k := n.Args[0].(*ast.BasicLit).Value
		k = k[1 : len(k)-1]
		return boolVal(Select(e.st.get("gh:"+k, SArr(SBool)), arg(1).L[0]))
	case "stamp": // stamp("name", obj)
		k := n.Args[0].(*ast.BasicLit).Value
		return intVal(Select(e.st.get("gh:st:"+k[1:len(k)-1], SArr(SInt)), arg(1).L[0]))
	case "total": // total("name"): how often it was stamped
		k := n.Args[0].(*ast.BasicLit).Value
		return intVal(e.st.get("gh:n:"+k[1:len(k)-1], SInt))
	case "visited": // visited(k): the enclosing map iteration (of an inv clause) has been at k
		if e.iter == "" {
			e.errf("visited() outside a map iteration")
		}
		k := arg(0)
		return boolVal(Select(e.st.get(e.iter, SArrK(k.L[0].Sort, SBool)), k.L[0]))
	case "unshared": // allocated here and not yet known to others (in the old state)
		s := e.old
		if s == nil {
			s = e.st
		}
		o := arg(0)
		var alts []*Term
		for _, u := range e.ex.unsharedRefs(s) {
			alts = append(alts, Eq(u, o.L[0]))
		}
		return boolVal(Or(alts...))
	case "heldn":
		return intVal(Int(int64(len(e.st.locks))))
	case "typ":
		return intVal(typOf(arg(0).L[0]))
	case "root":
		return intVal(rootOf(arg(0).L[0]))
	case "kind":
		return intVal(App("kind", SInt, arg(0).L[0]))
	case "ctr":
		return intVal(e.st.ctr)
	case "elem":
		return intVal(Elem(arg(0).L[0], arg(1).L[0]))
	case "same": // same(loc): unchanged since old
		a := arg(0)
		b := e.inState(e.old, func(e2 *Env) Val { return e2.eval(n.Args[0]) })
		return boolVal(e.eqSpec(a, b))
	case "sameelems": // sameelems(a, b): slices with equal length and elements (b may be old(...))
		e.errf("sameelems")
	}
	if f, ok := e.cs.fns[id.Name]; ok {
		var ts []*Term
		for i := range n.Args {
			v := arg(i)
			if i < len(f.Args) && f.Args[i] != nil {
				v = e.coerce(v, f.Args[i])
			}
			ts = append(ts, v.L...)
		}
		r := Val{T: f.Res}
		for j, l := range leavesOf(f.Res) {
			nm := "fn:" + f.Name
			if j > 0 {
				nm += fmt.Sprintf("#%d", j)
			}
			r.L = append(r.L, App(nm, l.Sort, ts...))
		}
		return r
	}
	// conversion to a named type
	if e.pkg != nil {
		if tn, ok := e.pkg.Scope().Lookup(id.Name).(*types.TypeName); ok {
			v := e.coerce(arg(0), tn.Type())
			return Val{T: tn.Type(), L: v.L}
		}
	}
	if o := types.Universe.Lookup(id.Name); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return Val{T: tn.Type(), L: arg(0).L}
		}
	}
	e.errf("unknown function %s", id.Name)
	return Val{}
}

// evArg reads argument (or result) j of event i of kind k.
func (e *Env) evArg(k string, i *Term, j int, res bool, t types.Type) Val {
	ki := kinds[k]
	pfx := "ev.a:"
	var ts []types.Type
	var offs []int
	if ki != nil {
		ts, offs = ki.args, ki.nArg
		if res {
			ts, offs = ki.res, ki.nRes
		}
	}
	if res {
		pfx = "ev.r:"
	}
	if ki == nil || j >= len(ts) {
		if t == nil {
			t = types.NewInterfaceType(nil, nil)
			// the kind never occurred: any value
		}
		v := Val{T: t}
		for x, l := range leavesOf(t) {
			v.L = append(v.L, App(fmt.Sprintf("noev:%s%s.%d#%d", pfx, k, j, x), l.Sort, i))
		}
		return v
	}
	if t == nil {
		t = ts[j]
	}
	v := Val{T: t}
	for x, l := range leavesOf(ts[j]) {
		v.L = append(v.L, Select(e.evSt().get(fmt.Sprintf("%s%s#%d", pfx, k, offs[j]+x), SArr(l.Sort)), i))
	}
	return v
}
func (e *Env) evArgLike(k string, i *Term, j int, like Val) Val {
	ki := kinds[k]
	if ki == nil || j >= len(ki.args) {
		v := Val{T: like.T}
		for x, l := range like.L {
			v.L = append(v.L, App(fmt.Sprintf("noev:ev.a:%s.%d#%d", k, j, x), l.Sort, i))
		}
		return v
	}
	return e.evArg(k, i, j, false, nil)
}

var _ = constant.MakeBool

func debugState() {
	if os.Getenv("GOVC_PANIC") != "" {
		debug.PrintStack()
	}
}
