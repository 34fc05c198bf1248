package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Terms are hash-consed first-order expressions. Op is the SMT operator or an
// uninterpreted symbol; "#i" marks integer literals, "#b" bit-vector literals,
// "#s" string literals, "$v" bound variables and "$c" free constants.
type Term struct {
	id   int
	Op   string
	Name string // symbol, literal text
	Args []*Term
	Sort string
	Vars []*Term   // forall/exists
	Trig [][]*Term // forall/exists
	open bool      // contains a bound variable (possibly bound above)
	lin  *linear
}

const (
	SInt  = "Int"
	SBool = "Bool"
	SStr  = "Str"
	SAny  = "Any"
	SFn   = "Fn"
)

func SArr(v string) string     { return "(Array Int " + v + ")" }
func SArrK(k, v string) string { return "(Array " + k + " " + v + ")" }
func elemSort(s string) string { // sort of array elements
	s = strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), ")")
	depth := 0
	for i, c := range s {
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
		} else if c == ' ' && depth == 0 {
			return s[i+1:]
		}
	}
	panic("elemSort " + s)
}
func keySort(s string) string {
	e := elemSort(s)
	s = strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), ")")
	return s[:len(s)-len(e)-1]
}

type TermDB struct {
	tab  map[string]*Term
	n    int
	uniq map[string]int
}

var db = &TermDB{tab: map[string]*Term{}, uniq: map[string]int{}}

func mk(op, name, srt string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(srt)
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := db.tab[k]; ok {
		return t
	}
	db.n++
	t := &Term{id: db.n, Op: op, Name: name, Args: args, Sort: srt}
	if op == "$v" {
		t.open = true
	}
	for _, a := range args {
		if a.open {
			t.open = true
		}
	}
	db.tab[k] = t
	return t
}

func mkQ(op string, vars []*Term, trig [][]*Term, body *Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	// keep only variables that occur
	occ := map[*Term]bool{}
	collectVars(body, occ, map[*Term]bool{})
	var vs []*Term
	for _, v := range vars {
		if occ[v] {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	vars = vs
	var sb strings.Builder
	sb.WriteString(op)
	for _, v := range vars {
		fmt.Fprintf(&sb, ",%d", v.id)
	}
	for _, tr := range trig {
		sb.WriteByte('{')
		for _, t := range tr {
			fmt.Fprintf(&sb, ",%d", t.id)
		}
	}
	fmt.Fprintf(&sb, "|%d", body.id)
	k := sb.String()
	if t, ok := db.tab[k]; ok {
		return t
	}
	db.n++
	t := &Term{id: db.n, Op: op, Args: []*Term{body}, Sort: SBool, Vars: vars, Trig: trig}
	// open if it has free bound vars other than its own
	for v := range occ {
		mine := false
		for _, w := range vars {
			if v == w {
				mine = true
			}
		}
		if !mine {
			t.open = true
		}
	}
	db.tab[k] = t
	return t
}

// collectVars gathers the *free* bound-variables of t.
func collectVars(t *Term, out map[*Term]bool, seen map[*Term]bool) {
	if !t.open && t.Op != "$v" {
		return
	}
	if seen[t] {
		return
	}
	seen[t] = true
	if t.Op == "$v" {
		out[t] = true
		return
	}
	if t.Vars != nil {
		in := map[*Term]bool{}
		collectVars(t.Args[0], in, map[*Term]bool{})
		for v := range in {
			own := false
			for _, w := range t.Vars {
				if w == v {
					own = true
				}
			}
			if !own {
				out[v] = true
			}
		}
		return
	}
	for _, a := range t.Args {
		collectVars(a, out, seen)
	}
}

var tTrue = mk("true", "", SBool)
var tFalse = mk("false", "", SBool)

func Bool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func Int(n int64) *Term { return mk("#i", strconv.FormatInt(n, 10), SInt) }
func IntS(s string) *Term {
	return mk("#i", s, SInt)
}
func BV(n uint64, w int) *Term {
	return mk("#b", strconv.FormatUint(n, 10), fmt.Sprintf("(_ BitVec %d)", w))
}
func StrLit(s string) *Term        { return mk("#s", s, SStr) }
func Const(name, srt string) *Term { return mk("$c", name, srt) }
func BVar(name, srt string) *Term  { return mk("$v", name, srt) }

// Fresh makes a new constant; numbering is deterministic per prefix.
func Fresh(prefix, srt string) *Term {
	db.uniq[prefix]++
	return Const(fmt.Sprintf("%s!%d", prefix, db.uniq[prefix]), srt)
}
func FreshVar(prefix, srt string) *Term {
	db.uniq["?"+prefix]++
	return BVar(fmt.Sprintf("%s?%d", prefix, db.uniq["?"+prefix]), srt)
}

// App is an uninterpreted function application.
func App(f, srt string, args ...*Term) *Term { return mk("$f", f, srt, args...) }

func (t *Term) isInt() bool { return t.Op == "#i" }
func (t *Term) intVal() int64 {
	n, _ := strconv.ParseInt(t.Name, 10, 64)
	return n
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == tFalse {
			return false
		}
		if t == tTrue || seen[t.id] {
			return true
		}
		if t.Op == "and" {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return tFalse
		}
	}
	for _, t := range out {
		if t.Op == "not" && seen[t.Args[0].id] {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", "", SBool, out...)
}
func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == tTrue {
			return false
		}
		if t == tFalse || seen[t.id] {
			return true
		}
		if t.Op == "or" {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return tTrue
		}
	}
	for _, t := range out {
		if t.Op == "not" && seen[t.Args[0].id] {
			return tTrue
		}
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", "", SBool, out...)
}
func Not(t *Term) *Term {
	switch {
	case t == tTrue:
		return tFalse
	case t == tFalse:
		return tTrue
	case t.Op == "not":
		return t.Args[0]
	case t.Op == "<":
		return Le(t.Args[1], t.Args[0])
	case t.Op == "<=":
		return Lt(t.Args[1], t.Args[0])
	}
	return mk("not", "", SBool, t)
}
func Imp(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue || a == b {
		return tTrue
	}
	if b == tFalse {
		return Not(a)
	}
	if b.Op == "=>" {
		return Imp(And(a, b.Args[0]), b.Args[1])
	}
	return mk("=>", "", SBool, a, b)
}
func Iff(a, b *Term) *Term { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.Sort == SBool {
		if a == tTrue {
			return Or(c, b)
		}
		if a == tFalse {
			return And(Not(c), b)
		}
		if b == tTrue {
			return Or(Not(c), a)
		}
		if b == tFalse {
			return And(c, a)
		}
	}
	return mk("ite", "", a.Sort, c, a, b)
}

// linear normal form: sum of coefficients plus constant.
type linear struct {
	k     int64
	coefs map[*Term]int64
}

func toLin(t *Term) linear {
	if t.lin != nil {
		return *t.lin
	}
	l := linear{coefs: map[*Term]int64{}}
	switch {
	case t.Op == "#i":
		l.k = t.intVal()
		if strconv.FormatInt(l.k, 10) != t.Name {
			l.k = 0
			l.coefs[t] = 1
		}
	case t.Op == "+":
		for _, a := range t.Args {
			x := toLin(a)
			l.k += x.k
			for c, n := range x.coefs {
				l.coefs[c] += n
			}
		}
	case t.Op == "*" && t.Args[0].isInt():
		x := toLin(t.Args[1])
		n := t.Args[0].intVal()
		l.k += n * x.k
		for c, m := range x.coefs {
			l.coefs[c] += n * m
		}
	default:
		l.coefs[t] = 1
	}
	for c, n := range l.coefs {
		if n == 0 {
			delete(l.coefs, c)
		}
	}
	t.lin = &l
	return l
}
func fromLin(l linear) *Term {
	var ks []*Term
	for c, n := range l.coefs {
		if n != 0 {
			ks = append(ks, c)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var parts []*Term
	for _, c := range ks {
		if n := l.coefs[c]; n == 1 {
			parts = append(parts, c)
		} else {
			parts = append(parts, mk("*", "", SInt, Int(n), c))
		}
	}
	if l.k != 0 || len(parts) == 0 {
		parts = append(parts, Int(l.k))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return mk("+", "", SInt, parts...)
}
func linComb(a *Term, m int64, b *Term) *Term {
	x, y := toLin(a), toLin(b)
	l := linear{k: x.k + m*y.k, coefs: map[*Term]int64{}}
	for c, n := range x.coefs {
		l.coefs[c] += n
	}
	for c, n := range y.coefs {
		l.coefs[c] += m * n
	}
	return fromLin(l)
}
func Add(a, b *Term) *Term { return linComb(a, 1, b) }
func Sub(a, b *Term) *Term { return linComb(a, -1, b) }
func Mul(a, b *Term) *Term {
	if a.isInt() {
		return linComb(Int(0), a.intVal(), b)
	}
	if b.isInt() {
		return linComb(Int(0), b.intVal(), a)
	}
	return mk("*", "", SInt, a, b)
}
func AddK(a *Term, k int64) *Term { return Add(a, Int(k)) }
func constDiff(a, b *Term) (int64, bool) {
	d := Sub(a, b)
	if d.isInt() {
		return d.intVal(), true
	}
	return 0, false
}
func Le(a, b *Term) *Term {
	if d, ok := constDiff(a, b); ok {
		return Bool(d <= 0)
	}
	return mk("<=", "", SBool, a, b)
}
func Lt(a, b *Term) *Term {
	if d, ok := constDiff(a, b); ok {
		return Bool(d < 0)
	}
	return mk("<", "", SBool, a, b)
}
func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sorts %s %s: %s = %s", a.Sort, b.Sort, a, b))
	}
	switch a.Sort {
	case SInt:
		if d, ok := constDiff(a, b); ok {
			return Bool(d == 0)
		}
		if distinctRefs(a, b) {
			return tFalse
		}
	case SBool:
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return Not(b)
		}
		if b == tFalse {
			return Not(a)
		}
	case SStr:
		if a.Op == "#s" && b.Op == "#s" {
			return Bool(a.Name == b.Name)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return App("streq", SBool, a, b)
	case SAny:
		if isBox(a) && isBox(b) {
			if a.Name != b.Name {
				return tFalse
			}
			var cs []*Term
			for i := range a.Args {
				cs = append(cs, Eq(a.Args[i], b.Args[i]))
			}
			return And(cs...)
		}
		if isBox(a) && b == nilAny || isBox(b) && a == nilAny {
			return tFalse
		}
	case SFn:
		if isClo(a) && b == nilFn || isClo(b) && a == nilFn {
			return tFalse
		}
	}
	if a.Op == "#b" && b.Op == "#b" {
		return tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "", SBool, a, b)
}

var nilAny = Const("nilAny", SAny)
var nilFn = Const("nilFn", SFn)

func isBox(t *Term) bool { return t.Op == "$f" && strings.HasPrefix(t.Name, "box:") }
func isClo(t *Term) bool { return t.Op == "$f" && strings.HasPrefix(t.Name, "clo:") }

func isElem(t *Term) bool { return t.Op == "$f" && t.Name == "elem" }
func isFld(t *Term) bool  { return t.Op == "$f" && strings.HasPrefix(t.Name, "fld:") }

// ctrBase: if t is ctr + k for an allocation counter, returns the counter.
func ctrBase(t *Term) *Term {
	l := toLin(t)
	if len(l.coefs) == 1 {
		for c, n := range l.coefs {
			if n == 1 && c.Op == "$c" && strings.HasPrefix(c.Name, "ctr!") {
				return c
			}
		}
	}
	return nil
}

// oldRef: constants and loads known to denote objects (or parts of objects)
// that exist at the first allocation counter.
func distinctRefs(a, b *Term) bool {
	ea, eb := isElem(a), isElem(b)
	fa, fb := isFld(a), isFld(b)
	ca, cb := ctrBase(a), ctrBase(b)
	la, lb := a.isInt(), b.isInt()
	switch {
	case ea && eb:
		return provablyDistinct(a.Args[0], b.Args[0]) || provablyDistinct(a.Args[1], b.Args[1])
	case fa && fb:
		return a.Name != b.Name || provablyDistinct(a.Args[0], b.Args[0])
	case ea && (fb || cb != nil || lb), eb && (fa || ca != nil || la):
		return true
	case fa && (cb != nil || lb), fb && (ca != nil || la):
		return true
	case ca != nil && lb && b.intVal() <= 0, cb != nil && la && a.intVal() <= 0:
		return true
	}
	return false
}
func provablyDistinct(a, b *Term) bool {
	if a == b {
		return false
	}
	return Eq(a, b) == tFalse
}

func Select(a, i *Term) *Term {
	t := a
	for t.Op == "store" {
		if t.Args[1] == i {
			return t.Args[2]
		}
		if provablyDistinct(t.Args[1], i) {
			t = t.Args[0]
			continue
		}
		break
	}
	if t.Op == "constarr" {
		return t.Args[0]
	}
	if t.Op == "ite" && (t.Args[1].Op == "store" || t.Args[2].Op == "store") {
		return Ite(t.Args[0], Select(t.Args[1], i), Select(t.Args[2], i))
	}
	return mk("select", "", elemSort(t.Sort), t, i)
}
func Store(a, i, v *Term) *Term {
	if a.Op == "store" && a.Args[1] == i {
		return Store(a.Args[0], i, v)
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	// an older value of the same element below others is overwritten
	for x, n := a, 0; x.Op == "store" && n < 40 && provablyDistinct(x.Args[1], i); n++ {
		x = x.Args[0]
		if x.Op == "store" && x.Args[1] == i {
			var above [][2]*Term
			for y := a; y != x; y = y.Args[0] {
				above = append(above, [2]*Term{y.Args[1], y.Args[2]})
			}
			a = x.Args[0]
			for j := len(above) - 1; j >= 0; j-- {
				a = mk("store", "", a.Sort, a, above[j][0], above[j][1])
			}
			break
		}
	}
	if elemSort(a.Sort) != v.Sort || keySort(a.Sort) != i.Sort {
		panic(fmt.Sprintf("Store sorts: %s [%s] := %s", a.Sort, i.Sort, v.Sort))
	}
	return mk("store", "", a.Sort, a, i, v)
}
func ConstArr(srt string, v *Term) *Term { return mk("constarr", "", srt, v) }

func Forall(vars []*Term, trig [][]*Term, body *Term) *Term {
	return mkQ("forall", vars, trig, body)
}
func Exists(vars []*Term, trig [][]*Term, body *Term) *Term {
	return mkQ("exists", vars, trig, body)
}

// Strings.
func SLen(s *Term) *Term {
	if s.Op == "#s" {
		return Int(int64(len(s.Name)))
	}
	if s.Op == "$f" && s.Name == "scat" {
		return Add(SLen(s.Args[0]), SLen(s.Args[1]))
	}
	return App("slen", SInt, s)
}
func SAt(s, i *Term) *Term {
	if s.Op == "#s" && i.isInt() {
		k := i.intVal()
		if k >= 0 && k < int64(len(s.Name)) {
			return Int(int64(s.Name[k]))
		}
	}
	if s.Op == "$f" && s.Name == "ssub" {
		return SAt(s.Args[0], Add(s.Args[1], i))
	}
	return App("sat", SInt, s, i)
}

// SSub(s,lo,hi) for 0<=lo<=hi<=len(s); the caller has checked the bounds.
func SSub(s, lo, hi *Term) *Term {
	if s.Op == "$f" && s.Name == "ssub" {
		return SSub(s.Args[0], Add(s.Args[1], lo), Add(s.Args[1], hi))
	}
	if lo.isInt() && lo.intVal() == 0 && hi == SLen(s) {
		return s
	}
	if s.Op == "#s" && lo.isInt() && hi.isInt() {
		a, b := lo.intVal(), hi.intVal()
		if 0 <= a && a <= b && b <= int64(len(s.Name)) {
			return StrLit(s.Name[a:b])
		}
	}
	if lo == hi {
		return StrLit("")
	}
	return App("ssub", SStr, s, lo, hi)
}
func SCat(a, b *Term) *Term {
	if a.Op == "#s" && a.Name == "" {
		return b
	}
	if b.Op == "#s" && b.Name == "" {
		return a
	}
	if a.Op == "#s" && b.Op == "#s" {
		return StrLit(a.Name + b.Name)
	}
	if a.Op == "$f" && a.Name == "scat" { // to the right
		return SCat(a.Args[0], SCat(a.Args[1], b))
	}
	if a.Op == "#s" && b.Op == "$f" && b.Name == "scat" && b.Args[0].Op == "#s" {
		return SCat(StrLit(a.Name+b.Args[0].Name), b.Args[1])
	}
	return App("scat", SStr, a, b)
}
func SPfx(p, s *Term) *Term {
	if p.Op == "#s" && s.Op == "#s" {
		return Bool(strings.HasPrefix(s.Name, p.Name))
	}
	if p.Op == "#s" && len(p.Name) <= 3 {
		cs := []*Term{Le(Int(int64(len(p.Name))), SLen(s))}
		for i := 0; i < len(p.Name); i++ {
			cs = append(cs, Eq(SAt(s, Int(int64(i))), Int(int64(p.Name[i]))))
		}
		return And(cs...)
	}
	return App("spfx", SBool, p, s)
}

// Subst replaces terms by terms (rebuilding through the simplifying constructors).
func Subst(t *Term, m map[*Term]*Term) *Term {
	return subst(t, m, map[*Term]*Term{})
}
func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	if t.Vars != nil {
		var trig [][]*Term
		for _, tr := range t.Trig {
			var n []*Term
			for _, x := range tr {
				n = append(n, subst(x, m, memo))
			}
			trig = append(trig, n)
		}
		r = mkQ(t.Op, t.Vars, trig, subst(t.Args[0], m, memo))
	} else {
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = subst(a, m, memo)
			if args[i] != a {
				ch = true
			}
		}
		if !ch {
			r = t
		} else {
			r = rebuild(t, args)
		}
	}
	memo[t] = r
	return r
}
func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "not":
		return Not(args[0])
	case "=>":
		return Imp(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "+":
		r := args[0]
		for _, a := range args[1:] {
			r = Add(r, a)
		}
		return r
	case "*":
		return Mul(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "$f":
		switch t.Name {
		case "slen":
			return SLen(args[0])
		case "sat":
			return SAt(args[0], args[1])
		case "ssub":
			return SSub(args[0], args[1], args[2])
		case "scat":
			return SCat(args[0], args[1])
		case "spfx":
			return SPfx(args[0], args[1])
		case "streq":
			return Eq(args[0], args[1])
		}
	}
	return mk(t.Op, t.Name, t.Sort, args...)
}

// consts collects the free constants of t whose name satisfies f.
func walk(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	f(t)
	for _, a := range t.Args {
		walk(a, seen, f)
	}
	for _, tr := range t.Trig {
		for _, x := range tr {
			walk(x, seen, f)
		}
	}
}
func occurs(t *Term, set map[*Term]bool) bool {
	found := false
	walk(t, map[*Term]bool{}, func(x *Term) {
		if set[x] {
			found = true
		}
	})
	return found
}

func (t *Term) String() string {
	var sb strings.Builder
	printTerm(&sb, t, nil, 0)
	return sb.String()
}
