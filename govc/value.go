package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Val is a symbolic Go value: its type and the terms of its leaves.
type Val struct {
	T     types.Type
	L     []*Term
	Tup   []Val    // tuples
	Addr  *DynAddr // address of an array element inside a struct, symbolic index
	PS    *Pseudo  // slice of an array field
	Iter  *Iter    // map iterator
	Cells []string // Go-side marker
}

// DynAddr is the address of element idx of a flattened array of n leaves.
type DynAddr struct {
	keys []string // heap keys per element (one leaf per element)
	ref  *Term
	idx  *Term
	sort string
}

// Pseudo is a slice over a flattened array field.
type Pseudo struct {
	keys   []string
	ref    *Term
	lo, hi *Term
	elem   types.Type
}

type Iter struct {
	concrete bool    // a literal whose keys are known
	rest     []*Term // those not visited yet
	id       string  // heap key of the visited set
	m        Val     // map value
	isStr    bool
}

type Leaf struct {
	Path string
	Sort string
	T    types.Type // the Go type the leaf belongs to (scalar type)
	Part int        // index within scalar (slices have 4)
}

var bvTypes = map[string]int{
	"github.com/zenazn/goji/web.method": 64,
	"github.com/zenazn/goji/web.smMode": 8,
}

func typeKey(t types.Type) string {
	return types.TypeString(noNames(t), func(p *types.Package) string { return p.Path() })
}

// noNames drops the parameter names of function types (they are not part of
// the type's identity).
func noNames(t types.Type) types.Type {
	tup := func(t *types.Tuple) *types.Tuple {
		var vs []*types.Var
		for i := 0; i < t.Len(); i++ {
			vs = append(vs, types.NewVar(0, nil, "", noNames(t.At(i).Type())))
		}
		return types.NewTuple(vs...)
	}
	switch u := t.(type) {
	case *types.Alias:
		return noNames(types.Unalias(t))
	case *types.Signature:
		return types.NewSignatureType(nil, nil, nil, tup(u.Params()), tup(u.Results()), u.Variadic())
	case *types.Pointer:
		return types.NewPointer(noNames(u.Elem()))
	case *types.Slice:
		return types.NewSlice(noNames(u.Elem()))
	case *types.Map:
		return types.NewMap(noNames(u.Key()), noNames(u.Elem()))
	case *types.Chan:
		return types.NewChan(u.Dir(), noNames(u.Elem()))
	case *types.Array:
		return types.NewArray(noNames(u.Elem()), u.Len())
	}
	return t
}

var structKeys = map[*types.Struct]string{}

func structKey(t types.Type) string {
	s := t.Underlying().(*types.Struct)
	if k, ok := structKeys[s]; ok {
		return k
	}
	k := typeKey(t)
	k = strings.ReplaceAll(k, "github.com/zenazn/goji/", "")
	structKeys[s] = k
	return k
}

// scalarSorts gives the leaf sorts of a non-struct, non-array type.
func scalarSorts(t types.Type) []string {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		if w, ok := bvTypes[n.Obj().Pkg().Path()+"."+n.Obj().Name()]; ok {
			return []string{fmt.Sprintf("(_ BitVec %d)", w)}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []string{SBool}
		case u.Info()&types.IsInteger != 0:
			return []string{SInt}
		case u.Info()&types.IsString != 0:
			return []string{SStr}
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return []string{SInt}
		}
		return []string{SAny}
	case *types.Pointer, *types.Map, *types.Chan:
		return []string{SInt}
	case *types.Slice:
		return []string{SInt, SInt, SInt, SInt}
	case *types.Interface:
		return []string{SAny}
	case *types.Signature:
		return []string{SFn}
	case *types.TypeParam:
		return []string{SAny}
	}
	panic("scalarSorts: " + t.String())
}

func isStruct(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }
func isArray(t types.Type) bool  { _, ok := t.Underlying().(*types.Array); return ok }

const maxFlat = 16

// flatArray: arrays of one-leaf scalars of small length are flattened.
func flatArray(t types.Type) (types.Type, int, bool) {
	a, ok := t.Underlying().(*types.Array)
	if !ok {
		return nil, 0, false
	}
	e := a.Elem()
	if isStruct(e) || isArray(e) || a.Len() > maxFlat || len(scalarSorts(e)) != 1 {
		return e, int(a.Len()), false
	}
	return e, int(a.Len()), true
}

var leafCache = map[types.Type][]Leaf{}

func leavesOf(t types.Type) []Leaf {
	if l, ok := leafCache[t]; ok {
		return l
	}
	var out []Leaf
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leavesOf(f.Type()) {
				l.Path = "." + f.Name() + l.Path
				out = append(out, l)
			}
		}
	case *types.Array:
		e, n, ok := flatArray(t)
		if ok || n <= 4 {
			for k := 0; k < n; k++ {
				for _, l := range leavesOf(e) {
					l.Path = fmt.Sprintf("@%d", k) + l.Path
					out = append(out, l)
				}
			}
		} else {
			out = append(out, Leaf{"", SAny, t, 0})
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			out = append(out, leavesOf(u.At(i).Type())...)
		}
	default:
		for i, s := range scalarSorts(t) {
			out = append(out, Leaf{fmt.Sprintf("#%d", i), s, t, i})
		}
	}
	leafCache[t] = out
	return out
}

func zeroLeaf(s string) *Term {
	switch s {
	case SInt:
		return Int(0)
	case SBool:
		return tFalse
	case SStr:
		return StrLit("")
	case SAny:
		return nilAny
	case SFn:
		return nilFn
	}
	var w int
	if n, _ := fmt.Sscanf(s, "(_ BitVec %d)", &w); n == 1 {
		return BV(0, w)
	}
	panic("zeroLeaf " + s)
}
func zeroVal(t types.Type) Val {
	if tt, ok := t.(*types.Tuple); ok {
		v := Val{T: t}
		for i := 0; i < tt.Len(); i++ {
			v.Tup = append(v.Tup, zeroVal(tt.At(i).Type()))
		}
		return v
	}
	v := Val{T: t}
	for _, l := range leavesOf(t) {
		v.L = append(v.L, zeroLeaf(l.Sort))
	}
	return v
}

// fieldRange gives the leaf offsets of field i.
func fieldRange(s *types.Struct, i int) (int, int) {
	off := 0
	for k := 0; k < i; k++ {
		off += len(leavesOf(s.Field(k).Type()))
	}
	return off, off + len(leavesOf(s.Field(i).Type()))
}

// ---- type tags and boxes ----

var tagIDs = map[string]int{}
var tagTypes = map[string]types.Type{}

func typeTag(t types.Type) *Term {
	k := boxKey(t)
	if _, ok := tagIDs[k]; !ok {
		tagIDs[k] = len(tagIDs) + 1
		tagTypes[k] = t
	}
	return Int(int64(tagIDs[k]))
}
func typeTagConst(k string) *Term {
	return Int(int64(tagIDs[k]))
}
func boxKey(t types.Type) string {
	return strings.ReplaceAll(typeKey(types.Unalias(t)), "github.com/zenazn/goji/", "")
}

var boxReg = map[string]*Term{}

func boxTerm(v Val) *Term {
	k := "box:" + boxKey(v.T)
	typeTag(v.T)
	t := App(k, SAny, v.L...)
	if _, ok := boxReg[k]; !ok {
		boxReg[k] = t
	}
	return t
}

// regBox makes sure the box function of t is registered.
func regBox(t types.Type) {
	k := "box:" + boxKey(t)
	typeTag(t)
	if _, ok := boxReg[k]; !ok {
		boxReg[k] = App(k, SAny, zeroVal(t).L...)
	}
}
func typOf(a *Term) *Term {
	if isBox(a) {
		return typeTagConst(strings.TrimPrefix(a.Name, "box:"))
	}
	if a == nilAny {
		return Int(0)
	}
	return App("typ", SInt, a)
}
func unbox(a *Term, t types.Type) Val {
	v := Val{T: t}
	if isBox(a) && a.Name == "box:"+boxKey(t) {
		v.L = append(v.L, a.Args...)
		return v
	}
	regBox(t)
	for i, l := range leavesOf(t) {
		v.L = append(v.L, App(fmt.Sprintf("unbox:%s#%d", boxKey(t), i), l.Sort, a))
	}
	return v
}
func boxAxioms(name string) []*Term {
	b := boxReg[name]
	if b == nil {
		return nil
	}
	k := strings.TrimPrefix(name, "box:")
	var vs []*Term
	for i, a := range b.Args {
		vs = append(vs, BVar(fmt.Sprintf("b%d", i), a.Sort))
	}
	f := mk("$f", name, SAny, vs...)
	cs := []*Term{Eq2(App("typ", SInt, f), typeTagConst(k))}
	for i, v := range vs {
		cs = append(cs, Eq2(App(fmt.Sprintf("unbox:%s#%d", k, i), v.Sort, f), v))
	}
	var tr [][]*Term
	if len(vs) > 0 {
		tr = [][]*Term{{f}}
	}
	out := []*Term{Forall(vs, tr, And(cs...))}
	if len(vs) <= 8 {
		a := BVar("a", SAny)
		var us []*Term
		for i, v := range vs {
			us = append(us, App(fmt.Sprintf("unbox:%s#%d", k, i), v.Sort, a))
		}
		g := mk("$f", name, SAny, us...)
		trig := [][]*Term{}
		for _, u := range us {
			trig = append(trig, []*Term{u})
		}
		if len(us) == 0 {
			trig = [][]*Term{{App("typ", SInt, a)}}
		}
		out = append(out, Forall([]*Term{a}, trig, Imp(Eq2(App("typ", SInt, a), typeTagConst(k)), Eq2(g, a))))
	}
	return out
}

// ---- interface implementation predicates ----

var implTypes = map[string]*types.Interface{}

func implPred(i types.Type, tag *Term) *Term {
	it := i.Underlying().(*types.Interface)
	k := "impl:" + strings.ReplaceAll(typeKey(i), "github.com/zenazn/goji/", "")
	implTypes[k] = it
	if tag.isInt() {
		if tag.intVal() == 0 {
			return tFalse
		}
		for key, id := range tagIDs {
			if int64(id) == tag.intVal() {
				return Bool(types.Implements(tagTypes[key], it))
			}
		}
	}
	return App(k, SBool, tag)
}

func implAxioms(syms map[string]bool, seen map[*Term]bool) []*Term {
	var out []*Term
	var ps []string
	for k := range implTypes {
		if syms[k] {
			ps = append(ps, k)
		}
	}
	sort.Strings(ps)
	if len(ps) == 0 {
		if syms["typ"] {
			out = append(out, nilAnyAxiom())
		}
		return out
	}
	var tk []string
	for k := range tagIDs {
		tk = append(tk, k)
	}
	sort.Strings(tk)
	for _, p := range ps {
		out = append(out, Not(App(p, SBool, Int(0))))
		for _, k := range tk {
			f := App(p, SBool, Int(int64(tagIDs[k])))
			if types.Implements(tagTypes[k], implTypes[p]) {
				out = append(out, f)
			} else {
				out = append(out, Not(f))
			}
		}
		for _, q := range ps {
			if p != q && types.Implements(implTypes[q], implTypes[p]) {
				x := BVar("x", SInt)
				out = append(out, Forall([]*Term{x}, [][]*Term{{App(q, SBool, x)}}, Imp(App(q, SBool, x), App(p, SBool, x))))
			}
		}
	}
	out = append(out, nilAnyAxiom())
	return out
}
func nilAnyAxiom() *Term {
	a := BVar("a", SAny)
	return And(Eq2(App("typ", SInt, nilAny), Int(0)),
		Forall([]*Term{a}, [][]*Term{{App("typ", SInt, a)}}, Imp(Eq2(App("typ", SInt, a), Int(0)), Eq2(a, nilAny))))
}

// ---- references ----

var kindIDs = map[string]int{}

func kindOf(f string) int {
	if _, ok := kindIDs[f]; !ok {
		kindIDs[f] = len(kindIDs) + 10
	}
	return kindIDs[f]
}

func refAxioms() []*Term {
	a, i := BVar("a", SInt), BVar("i", SInt)
	e := App("elem", SInt, a, i)
	r := BVar("r", SInt)
	return []*Term{
		Forall([]*Term{a, i}, [][]*Term{{e}}, And(
			Eq2(App("earr", SInt, e), a), Eq2(App("eidx", SInt, e), i),
			Eq2(App("kind", SInt, e), Int(1)), Eq2(App("root", SInt, e), App("root", SInt, a)))),
		Forall([]*Term{r}, [][]*Term{{App("earr", SInt, r)}}, Imp(Eq2(App("kind", SInt, r), Int(1)),
			Eq2(App("elem", SInt, App("earr", SInt, r), App("eidx", SInt, r)), r))),
		Eq2(App("root", SInt, Int(0)), Int(0)), Eq2(App("kind", SInt, Int(0)), Int(-1)),
	}
}

func Elem(arr, idx *Term) *Term { return App("elem", SInt, arr, idx) }
func rootOf(r *Term) *Term {
	for isElem(r) || isFld(r) {
		r = r.Args[0]
	}
	if r.isInt() || ctrBase(r) != nil {
		return r
	}
	return App("root", SInt, r)
}

// fld is the reference of (or address of) field f of the struct at r.
type fldInfo struct {
	st   *types.Struct
	key  string
	idx  int
	arr  int // -1, or element of a flattened array field
	name string
}

var fldReg = map[string]fldInfo{}

func fldTerm(t types.Type, i int, arr int, r *Term) *Term {
	s := t.Underlying().(*types.Struct)
	n := "fld:" + structKey(t) + "." + s.Field(i).Name()
	if arr >= 0 {
		n += fmt.Sprintf("@%d", arr)
	}
	if _, ok := fldReg[n]; !ok {
		fldReg[n] = fldInfo{s, structKey(t), i, arr, s.Field(i).Name()}
	}
	return App(n, SInt, r)
}

// ---- closures ----

type cloInfo struct {
	name string
	id   int
	fn   interface{} // *ssa.Function
	caps []types.Type
}

var cloReg = map[string]*cloInfo{}

func cloID(n string) int {
	if c, ok := cloReg[n]; ok {
		return c.id
	}
	return 0
}
