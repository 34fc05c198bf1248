package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

func smtSym(s string) string {
	ok := true
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_!.$?-", c)) {
			ok = false
		}
	}
	if ok && s != "" && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	return "|" + strings.ReplaceAll(strings.ReplaceAll(s, "|", "/"), "\\", "/") + "|"
}

func litSym(s string) string {
	h := sha256.Sum256([]byte(s))
	p := ""
	for i := 0; i < len(s) && i < 12; i++ {
		if c := s[i]; c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
			p += string(c)
		}
	}
	return "str_" + p + "_" + hex.EncodeToString(h[:4])
}

// printTerm writes t; named maps terms that were hoisted to definitions.
func printTerm(sb *strings.Builder, t *Term, named map[*Term]string, depth int) {
	if n, ok := named[t]; ok {
		sb.WriteString(n)
		return
	}
	switch t.Op {
	case "#i":
		if strings.HasPrefix(t.Name, "-") {
			sb.WriteString("(- " + t.Name[1:] + ")")
		} else {
			sb.WriteString(t.Name)
		}
		return
	case "#b":
		var w int
		fmt.Sscanf(t.Sort, "(_ BitVec %d)", &w)
		fmt.Fprintf(sb, "(_ bv%s %d)", t.Name, w)
		return
	case "#s":
		sb.WriteString(litSym(t.Name))
		return
	case "$v", "$c":
		sb.WriteString(smtSym(t.Name))
		return
	case "true", "false":
		sb.WriteString(t.Op)
		return
	case "forall", "exists":
		sb.WriteString("(" + t.Op + " (")
		for _, v := range t.Vars {
			fmt.Fprintf(sb, "(%s %s)", smtSym(v.Name), v.Sort)
		}
		sb.WriteString(") ")
		if len(t.Trig) > 0 {
			sb.WriteString("(! ")
		}
		printTerm(sb, t.Args[0], named, depth+1)
		for _, tr := range t.Trig {
			sb.WriteString(" :pattern (")
			for i, x := range tr {
				if i > 0 {
					sb.WriteByte(' ')
				}
				printTerm(sb, x, named, depth+1)
			}
			sb.WriteString(")")
		}
		if len(t.Trig) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return
	case "constarr":
		sb.WriteString("((as const " + t.Sort + ") ")
		printTerm(sb, t.Args[0], named, depth+1)
		sb.WriteString(")")
		return
	}
	op := t.Op
	if op == "$f" {
		op = smtSym(t.Name)
		if len(t.Args) == 0 {
			sb.WriteString(op)
			return
		}
	}
	sb.WriteString("(" + op)
	for _, a := range t.Args {
		sb.WriteByte(' ')
		printTerm(sb, a, named, depth+1)
	}
	sb.WriteString(")")
}

// An axiom is included in a query when all of its needed symbols occur.
type axiom struct {
	name string
	need []string // function symbols that trigger inclusion (any)
	t    *Term
}

var axioms []axiom

type Query struct {
	Name  string
	Hyps  []*Term
	Goal  *Term // prove Goal; nil: check satisfiable (reachability)
	Extra []*Term
	Goals []*Term // prove each of these, separately
}

// buildQuery renders the SMT-LIB text.
func buildQuery(q *Query) string {
	var wit []*Term
	roots := append([]*Term{}, q.Hyps...)
	roots = append(roots, q.Extra...)
	if q.Goal != nil {
		wit = witnesses(q)
		roots = append(roots, wit...)
		roots = append(roots, Not(q.Goal))
	}
	for _, g := range q.Goals {
		roots = append(roots, Not(g))
	}
	// relevant axioms: fixpoint on symbols
	syms := map[string]bool{}
	seen := map[*Term]bool{}
	var boxes []*Term
	var lits []*Term
	flds := map[string]*Term{}
	clos := map[string]*Term{}
	collect := func(t *Term) {
		walk(t, seen, func(x *Term) {
			switch x.Op {
			case "$f":
				syms[x.Name] = true
				if isBox(x) {
					boxes = append(boxes, x)
				}
				if isFld(x) {
					flds[x.Name] = x
				}
				if isClo(x) {
					clos[x.Name] = x
				}
			case "#s":
				syms["slen"] = true
				syms["sat"] = true
				lits = append(lits, x)
			}
		})
	}
	for _, r := range roots {
		collect(r)
	}
	var axs []*Term
	used := make([]bool, len(axioms))
	for changed := true; changed; {
		changed = false
		for i, a := range axioms {
			if used[i] {
				continue
			}
			inc := len(a.need) == 0
			for _, n := range a.need {
				if syms[n] {
					inc = true
				}
			}
			if inc {
				used[i] = true
				changed = true
				axs = append(axs, a.t)
				collect(a.t)
			}
		}
	}
	// box, fld and closure axioms
	boxNames := map[string]*Term{}
	for _, b := range boxes {
		boxNames[b.Name] = b
	}
	for n := range syms {
		if strings.HasPrefix(n, "unbox:") {
			nm := strings.TrimPrefix(n, "unbox:")
			nm = nm[:strings.LastIndex(nm, "#")]
			if bt, ok := boxReg["box:"+nm]; ok {
				boxNames["box:"+nm] = bt
			}
		}
	}
	var names []string
	for n := range boxNames {
		names = append(names, n)
	}
	sort.Strings(names)
	var tags []*Term
	for _, n := range names {
		for _, a := range boxAxioms(n) {
			axs = append(axs, a)
			collect(a)
		}
		tags = append(tags, typeTagConst(strings.TrimPrefix(n, "box:")))
	}
	for _, a := range fmtAxioms(syms) {
		axs = append(axs, a)
		collect(a)
	}
	for _, a := range implAxioms(syms, seen) {
		axs = append(axs, a)
		collect(a)
	}
	names = nil
	for n := range flds {
		names = append(names, n)
	}
	sort.Strings(names)
	for i, n := range names {
		_ = i
		r := BVar("r", SInt)
		f := App(n, SInt, r)
		ax := Forall([]*Term{r}, [][]*Term{{f}}, And(
			Eq2(App("inv"+n, SInt, f), r),
			Eq2(App("kind", SInt, f), Int(int64(kindOf(n)))),
			Eq2(App("root", SInt, f), App("root", SInt, r))))
		axs = append(axs, ax)
		collect(ax)
	}
	if len(names) > 0 || syms["elem"] || syms["root"] || syms["kind"] {
		for _, a := range refAxioms() {
			axs = append(axs, a)
			collect(a)
		}
	}
	names = nil
	for n := range clos {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		c := clos[n]
		var vs []*Term
		for j, a := range c.Args {
			vs = append(vs, BVar(fmt.Sprintf("c%d", j), a.Sort))
		}
		f := App(n, SFn, vs...)
		cs := []*Term{Not(Eq2(f, nilFn)), Eq2(App("fnid", SInt, f), Int(int64(cloID(n))))}
		for j, v := range vs {
			cs = append(cs, Eq2(App(fmt.Sprintf("cap:%s#%d", n, j), v.Sort, f), v))
		}
		var tr [][]*Term
		if len(vs) > 0 {
			tr = [][]*Term{{f}}
		}
		ax := Forall(vs, tr, And(cs...))
		axs = append(axs, ax)
		collect(ax)
	}

	var sb strings.Builder
	sb.WriteString("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n")
	sb.WriteString("(declare-sort Str 0)\n(declare-sort Any 0)\n(declare-sort Fn 0)\n")
	// declarations
	type decl struct{ name, text string }
	decls := map[string]string{}
	var all []*Term
	all = append(all, axs...)
	all = append(all, roots...)
	seen2 := map[*Term]bool{}
	bound := map[*Term]bool{}
	litSeen := map[*Term]bool{}
	for _, r := range all {
		walk(r, seen2, func(x *Term) {
			switch x.Op {
			case "$c":
				decls[x.Name] = fmt.Sprintf("(declare-const %s %s)", smtSym(x.Name), x.Sort)
			case "$f":
				var as []string
				for _, a := range x.Args {
					as = append(as, a.Sort)
				}
				decls[x.Name] = fmt.Sprintf("(declare-fun %s (%s) %s)", smtSym(x.Name), strings.Join(as, " "), x.Sort)
			case "#s":
				if !litSeen[x] {
					litSeen[x] = true
				}
			case "$v":
				bound[x] = true
			}
		})
	}
	lits = lits[:0]
	for l := range litSeen {
		lits = append(lits, l)
	}
	sort.Slice(lits, func(i, j int) bool { return lits[i].Name < lits[j].Name })
	var dn []string
	for n := range decls {
		dn = append(dn, n)
	}
	sort.Strings(dn)
	for _, n := range dn {
		sb.WriteString(decls[n])
		sb.WriteByte('\n')
	}
	if len(lits) > 0 {
		if _, ok := decls["slen"]; !ok {
			sb.WriteString("(declare-fun slen (Str) Int)\n")
		}
		if _, ok := decls["sat"]; !ok {
			sb.WriteString("(declare-fun sat (Str Int) Int)\n")
		}
	}
	for _, l := range lits {
		n := litSym(l.Name)
		fmt.Fprintf(&sb, "(declare-const %s Str)\n(assert (= (slen %s) %d))\n", n, n, len(l.Name))
		if len(l.Name) <= 40 {
			for i := 0; i < len(l.Name); i++ {
				fmt.Fprintf(&sb, "(assert (= (sat %s %d) %d))\n", n, i, l.Name[i])
			}
		}
	}
	if len(lits) > 1 {
		sb.WriteString("(assert (distinct")
		for _, l := range lits {
			sb.WriteString(" " + litSym(l.Name))
		}
		sb.WriteString("))\n")
	}
	if len(tags) > 1 {
		// tags are integer literals; nothing to assert
	}
	for _, a := range axs {
		sb.WriteString("(assert ")
		printTerm(&sb, a, nil, 0)
		sb.WriteString(")\n")
	}
	// hoist shared closed subterms
	count := map[*Term]int{}
	var cnt func(t *Term)
	cnt = func(t *Term) {
		count[t]++
		if count[t] > 1 {
			return
		}
		for _, a := range t.Args {
			cnt(a)
		}
		for _, tr := range t.Trig {
			for _, x := range tr {
				cnt(x)
			}
		}
	}
	for _, r := range roots {
		cnt(r)
	}
	// closed subterms of patterns that are not allowed in patterns get names
	inPat := map[*Term]bool{}
	bad := map[*Term]bool{}
	badSeen := map[*Term]bool{}
	var isBad func(t *Term) bool
	isBad = func(t *Term) bool {
		if badSeen[t] {
			return bad[t]
		}
		badSeen[t] = true
		switch t.Op {
		case "ite", "and", "or", "not", "=>", "=", "<", "<=", "forall", "exists", "constarr":
			bad[t] = true
		}
		for _, a := range t.Args {
			if isBad(a) {
				bad[t] = true
			}
		}
		return bad[t]
	}
	var pat func(t *Term)
	pat = func(t *Term) {
		if !t.open {
			if isBad(t) && len(t.Args) > 0 {
				inPat[t] = true
			}
			return
		}
		for _, a := range t.Args {
			pat(a)
		}
	}
	for t := range count {
		for _, tr := range t.Trig {
			for _, x := range tr {
				pat(x)
			}
		}
	}
	named := map[*Term]string{}
	var order []*Term
	done := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if done[t] {
			return
		}
		done[t] = true
		for _, a := range t.Args {
			visit(a)
		}
		for _, tr := range t.Trig {
			for _, x := range tr {
				visit(x)
			}
		}
		if (count[t] > 1 || inPat[t]) && !t.open && len(t.Args) > 0 {
			order = append(order, t)
		}
	}
	for _, r := range roots {
		visit(r)
	}
	for i, t := range order {
		if inPat[t] {
			fmt.Fprintf(&sb, "(declare-const p!%d %s)\n(assert (= p!%d ", i, t.Sort, i)
			printTerm(&sb, t, named, 0)
			sb.WriteString("))\n")
			named[t] = fmt.Sprintf("p!%d", i)
			continue
		}
		fmt.Fprintf(&sb, "(define-fun d!%d () %s ", i, t.Sort)
		printTerm(&sb, t, named, 0)
		sb.WriteString(")\n")
		named[t] = fmt.Sprintf("d!%d", i)
	}
	for _, h := range q.Hyps {
		sb.WriteString("(assert ")
		printTerm(&sb, h, named, 0)
		sb.WriteString(")\n")
	}
	for _, h := range append(wit, q.Extra...) {
		sb.WriteString("(assert ")
		printTerm(&sb, h, named, 0)
		sb.WriteString(")\n")
	}
	if q.Goal != nil {
		sb.WriteString("(assert ")
		printTerm(&sb, Not(q.Goal), named, 0)
		sb.WriteString(")\n")
	}
	if len(q.Goals) == 0 {
		sb.WriteString("(check-sat)\n")
	}
	for _, g := range q.Goals {
		sb.WriteString("(push)\n(assert ")
		printTerm(&sb, Not(g), named, 0)
		sb.WriteString(")\n(check-sat)\n(pop)\n")
	}
	return sb.String()
}

// Eq2 is equality without the string/box special cases (for axioms).
func Eq2(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	return mk("=", "", SBool, a, b)
}

type SolverResult struct {
	Res    string // unsat, sat, unknown, timeout, error
	Solver string
	Time   float64
	Out    string
}

type Solver struct {
	mu      sync.Mutex
	cache   map[string]SolverResult
	sem     chan struct{}
	queries int
	hits    int
	time    float64
	byBack  map[string]int
	dump    string
}

var solver = &Solver{cache: map[string]SolverResult{}, sem: make(chan struct{}, 8), byBack: map[string]int{}}

func runSolver(name string, args []string, text string, timeout time.Duration) SolverResult {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	err := cmd.Run()
	r := SolverResult{Solver: name, Time: time.Since(t0).Seconds(), Out: out.String()}
	first := strings.TrimSpace(out.String())
	if i := strings.IndexByte(first, '\n'); i >= 0 {
		first = first[:i]
	}
	switch first {
	case "unsat", "sat", "unknown":
		r.Res = first
	default:
		if ctx.Err() != nil {
			r.Res = "timeout"
		} else if strings.Contains(out.String(), "timeout") {
			r.Res = "timeout"
		} else {
			r.Res = "error"
			if err != nil {
				r.Out += err.Error()
			}
		}
	}
	return r
}

// cvc5Text adapts the text for cvc5.
func cvc5Text(text string) string {
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	for _, l := range strings.SplitAfter(text, "\n") {
		if strings.HasPrefix(l, "(set-option :smt") || strings.HasPrefix(l, "(set-option :auto") {
			continue
		}
		sb.WriteString(l)
	}
	return sb.String()
}

// canonText renames the numbered suffixes of fresh symbols in order of first
// appearance, so that equal queries built at different times coincide.
func canonText(s string) string {
	var sb strings.Builder
	sb.Grow(len(s))
	m := map[string]string{}
	i := 0
	isD := func(c byte) bool { return c >= '0' && c <= '9' }
	for i < len(s) {
		c := s[i]
		if (c == '!' || c == '?' || c == '^') && i+1 < len(s) && isD(s[i+1]) {
			j := i + 1
			for j < len(s) && isD(s[j]) {
				j++
			}
			// the prefix belongs to the name
			k := i
			for k > 0 && s[k-1] != ' ' && s[k-1] != '(' && s[k-1] != ')' && s[k-1] != '\n' && i-k < 200 {
				k--
			}
			key := s[k:j]
			if _, ok := m[key]; !ok {
				m[key] = fmt.Sprintf("%c%d", c, len(m))
			}
			sb.WriteString(m[key])
			i = j
			continue
		}
		sb.WriteByte(c)
		i++
	}
	return sb.String()
}

func (s *Solver) trivial(q *Query, effort int) (SolverResult, bool) {
	if q.Goal == tTrue && effort >= 0 {
		return SolverResult{Res: "unsat", Solver: "simplifier"}, true
	}
	for _, h := range q.Hyps {
		if h == tFalse || q.Goal != nil && h == q.Goal {
			return SolverResult{Res: "unsat", Solver: "simplifier"}, true
		}
	}
	return SolverResult{}, false
}

// Check runs the query. effort <= 0: one quick z3 run; 1: full portfolio.
func (s *Solver) Check(q *Query, effort int) SolverResult {
	return s.CheckAll([]*Query{q}, effort)[0]
}

// CheckAll builds the queries one after the other and runs them in parallel.
func (s *Solver) CheckAll(qs []*Query, effort int) []SolverResult {
	out := make([]SolverResult, len(qs))
	var wg sync.WaitGroup
	for i, q := range qs {
		if r, ok := s.trivial(q, effort); ok {
			out[i] = r
			continue
		}
		text := buildQuery(q)
		sum := sha256.Sum256([]byte(canonText(text)))
		key := fmt.Sprintf("%d:%s", effort, hex.EncodeToString(sum[:16]))
		s.mu.Lock()
		r, ok := s.cache[key]
		if ok {
			s.hits++
		}
		s.mu.Unlock()
		if ok {
			out[i] = r
			continue
		}
		wg.Add(1)
		s.sem <- struct{}{}
		go func(i int, name string) {
			defer wg.Done()
			defer func() { <-s.sem }()
			out[i] = s.solve(name, text, key, effort)
		}(i, q.Name)
	}
	wg.Wait()
	return out
}

// CheckMulti proves the goals of each query separately in one solver run.
func (s *Solver) CheckMulti(qs []*Query) [][]string {
	out := make([][]string, len(qs))
	var wg sync.WaitGroup
	for i, q := range qs {
		text := buildQuery(q)
		sum := sha256.Sum256([]byte(canonText(text)))
		key := "multi:" + hex.EncodeToString(sum[:16])
		s.mu.Lock()
		r, ok := s.cache[key]
		s.mu.Unlock()
		if ok {
			s.hits++
			out[i] = strings.Fields(r.Out)
			continue
		}
		wg.Add(1)
		s.sem <- struct{}{}
		go func(i int, q *Query) {
			defer wg.Done()
			defer func() { <-s.sem }()
			if s.dump != "" {
				os.WriteFile(s.dump+"/"+key+".smt2", []byte("; "+q.Name+"\n"+text), 0644)
			}
			r := runSolver("z3-new", []string{"-in", "-t:2000"}, text, time.Duration(20+2*len(q.Goals))*time.Second)
			if slowLog && r.Time > 1 {
				fmt.Fprintf(os.Stderr, "slow %.1fs effort multi %d %s: %s %s\n", r.Time, len(q.Goals), r.Res, q.Name, key)
			}
			s.mu.Lock()
			s.queries++
			s.time += r.Time
			s.cache[key] = r
			s.mu.Unlock()
			if r.Res == "error" {
				fmt.Fprintf(os.Stderr, "solver error in %s: %s\n", q.Name, r.Out)
				os.WriteFile("/tmp/govc_error.smt2", []byte(text), 0644)
			}
			out[i] = strings.Fields(r.Out)
		}(i, q)
	}
	wg.Wait()
	return out
}

func (s *Solver) solve(qname, text, key string, effort int) SolverResult {
	if s.dump != "" {
		os.WriteFile(s.dump+"/"+key[2:]+".smt2", []byte("; "+qname+"\n"+text), 0644)
	}
	var r SolverResult
	total := 0.0
	run := func(name string, args []string, txt string, to time.Duration) bool {
		r = runSolver(name, args, txt, to)
		total += r.Time
		return r.Res == "unsat" || r.Res == "error"
	}
	switch {
	case effort < 0:
		run("z3-new", []string{"-in", "-t:1500"}, text, 3*time.Second)
	case effort == 0:
		ok := run("z3-new", []string{"-in", "-t:4000"}, text, 6*time.Second)
		if !ok {
			run("z3", []string{"-in", "-t:3000"}, text, 5*time.Second)
		}
	default:
		ok := run("z3-new", []string{"-in", "-t:8000"}, text, 10*time.Second)
		if !ok && !quickFail {
			ok = run("z3", []string{"-in", "-t:10000"}, text, 12*time.Second)
		}
		if !ok && !quickFail {
			ok = run("z3-new", []string{"-in", "-t:10000", "smt.qi.eager_threshold=100", "smt.random_seed=7", "smt.case_split=3"}, text, 12*time.Second)
		}
		if !ok && !quickFail {
			ok = run("z3-new", []string{"-in", "-t:10000", "auto_config=true", "smt.mbqi=true", "smt.random_seed=3"}, strings.Replace(strings.Replace(text, "(set-option :auto_config false)\n", "", 1), "(set-option :smt.mbqi false)\n", "", 1), 12*time.Second)
		}
		if !ok && !quickFail {
			ok = run("cvc5", []string{"--lang=smt2", "--tlimit=15000", "--no-cbqi", "--full-saturate-quant"}, cvc5Text(text), 17*time.Second)
		}
	}
	r.Time = total
	if slowLog && total > 1 {
		fmt.Fprintf(os.Stderr, "slow %.1fs effort %d %s: %s %s\n", total, effort, r.Res, qname, key)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.queries++
	s.time += total
	if r.Res == "unsat" {
		s.byBack[r.Solver]++
	}
	s.cache[key] = r
	if r.Res == "error" {
		fmt.Fprintf(os.Stderr, "solver error in %s: %s\n", qname, r.Out)
		os.WriteFile("/tmp/govc_error.smt2", []byte(text), 0644)
	}
	return r
}

var quickFail bool
var slowLog = os.Getenv("GOVC_SLOW") != ""

// witnesses instantiates an existential goal with the index terms that occur
// in it (instances of the negated goal, so nothing is assumed).
func witnesses(q *Query) []*Term {
	ng := Not(q.Goal)
	if ng.Op != "forall" || len(ng.Vars) != 1 || ng.Vars[0].Sort != SInt {
		return nil
	}
	isGround := func(t *Term) bool {
		g := true
		walk(t, map[*Term]bool{}, func(x *Term) {
			if x.Op == "$v" {
				g = false
			}
		})
		return g
	}
	cand := map[*Term]bool{}
	var list []*Term
	add := func(t *Term) {
		if !cand[t] && t.Sort == SInt && len(list) < 40 && isGround(t) {
			cand[t] = true
			list = append(list, t)
		}
	}
	seen := map[*Term]bool{}
	visit := func(t *Term) {
		walk(t, seen, func(x *Term) {
			if x.Op == "$f" && x.Name == "elem" {
				add(x.Args[1])
			}
			if x.Op == "store" && x.Args[1].Sort == SInt {
				if e := x.Args[1]; e.Op == "$f" && e.Name == "elem" {
					add(e.Args[1])
				}
			}
		})
	}
	visit(q.Goal)
	for i := len(q.Hyps) - 1; i >= 0; i-- {
		visit(q.Hyps[i])
	}
	var out []*Term
	for _, t := range list {
		out = append(out, Subst(ng.Args[0], map[*Term]*Term{ng.Vars[0]: t}))
	}
	return out
}
