package web

import (
	"fmt"
	"math/rand"
	"net/http"
	"os"
	"strconv"
	"strings"
	"testing"
)

// The contract of routeMachine.route holds for every table that was compiled
// correctly: one for which there is a certificate (c01_c05_c27.gvc). This test
// computes and checks the certificate of bounded tables, for all paths at once.

func failing(t *testing.T, format string, args ...interface{}) {
	fmt.Printf("FAILING INPUT: "+format+"\n", args...)
	t.FailNow()
}

type certStub struct {
	prefix string
	ok     bool
	n      int
	seen   *[]int
}

func (s *certStub) Prefix() string { return s.prefix }
func (s *certStub) Match(r *http.Request, c *C) bool {
	*s.seen = append(*s.seen, s.n)
	return s.ok && strings.HasPrefix(r.URL.Path, s.prefix)
}
func (s *certStub) Run(r *http.Request, c *C) {}

type certNum int

func (certNum) ServeHTTPC(C, http.ResponseWriter, *http.Request) {}

// free: it does not matter where the cursor is.
func free(sm stateMachine, i int) bool {
	for n := 0; n <= len(sm) && i >= 0 && i < len(sm); n++ {
		if sm[i].mode&smSetCursor != 0 {
			return true
		}
		if sm[i].mode&smRoute != 0 || sm[i].mode&smJumpOnMatch == 0 || certWidth(sm[i]) != 0 {
			return false
		}
		if sm[i].mode&smFail != 0 {
			return true
		}
		i = int(sm[i].i)
	}
	return false
}

func certWidth(s state) int { return int(s.mode & smLengthMask) }

// conflict: no string starts with both.
func conflict(a, b string) bool { return !strings.HasPrefix(a, b) && !strings.HasPrefix(b, a) }

type certificate struct {
	reach  []bool
	text   []string
	cursor []int
	next   []int
	rank   []int
}

// along says what is known when instruction i with that text was left with its
// bytes matching (ok) or not: whether that can happen, and what is known then.
func along(s state, text string, cursor int, ok bool) (possible bool, known string, not string) {
	w := certWidth(s)
	b := string(s.bs[:w])
	over := text[cursor:]
	if len(over) > w {
		over = over[:w]
	}
	if ok {
		if b[:len(over)] != over {
			return false, "", ""
		}
		if len(text) < cursor+w {
			text = text[:cursor] + b
		}
		return true, text, ""
	}
	if over == b {
		return false, "", ""
	}
	if b[:len(over)] != over {
		return true, text, ""
	}
	return true, text, text[:cursor] + b
}

// out: a path of which that is known does not start with p.
func out(p, known, not string) bool {
	return conflict(p, known) || not != "" && strings.HasPrefix(p, not)
}

// certify computes the certificate, or says what is wrong.
func certify(sm stateMachine, rs []route) (*certificate, error) {
	if len(sm) == 0 {
		if len(rs) == 0 {
			return nil, nil
		}
		return nil, fmt.Errorf("no instructions for %d routes", len(rs))
	}
	n := len(sm)
	c := &certificate{make([]bool, n), make([]string, n), make([]int, n), make([]int, n), make([]int, n)}
	var err error
	enter := func(from, t int, known, not string, cursor, next int) bool {
		if t < 0 || t >= n {
			err = fmt.Errorf("instruction %d goes to %d of %d", from, t, n)
			return false
		}
		for next < len(rs) && out(rs[next].prefix, known, not) {
			next++
		}
		if !c.reach[t] {
			c.reach[t], c.text[t], c.cursor[t], c.next[t] = true, known, cursor, next
			return true
		}
		changed := false
		if free(sm, t) && cursor < c.cursor[t] {
			c.cursor[t], changed = cursor, true
		}
		k := 0
		for k < len(known) && k < len(c.text[t]) && known[k] == c.text[t][k] {
			k++
		}
		if k < len(c.text[t]) {
			c.text[t] = known[:k]
			changed = true
		}
		if next < c.next[t] {
			c.next[t] = next
			changed = true
		}
		if !free(sm, t) && c.cursor[t] != cursor {
			err = fmt.Errorf("instruction %d reached at offsets %d and %d", t, c.cursor[t], cursor)
		}
		return changed
	}
	c.reach[0] = true
	for round := 0; ; round++ {
		if round > n+2 {
			return nil, fmt.Errorf("no fixed point")
		}
		changed := false
		for i := 0; i < n; i++ {
			if !c.reach[i] {
				continue
			}
			s := sm[i]
			if s.mode&smSetCursor != 0 {
				if int(s.i) < 0 || int(s.i) > len(c.text[i]) {
					return nil, fmt.Errorf("instruction %d sets the cursor to %d, %q is known", i, s.i, c.text[i])
				}
				nx := c.next[i]
				if i+1 < n && c.reach[i+1] && c.next[i+1] != nx {
					c.next[i+1] = nx
				}
				old := c.next
				_ = old
				if i+1 >= n {
					return nil, fmt.Errorf("the program ends at %d", i)
				}
				if !c.reach[i+1] || c.cursor[i+1] != int(s.i) || c.text[i+1] != c.text[i] || c.next[i+1] != nx {
					changed = true
				}
				c.reach[i+1], c.text[i+1], c.cursor[i+1], c.next[i+1] = true, c.text[i], int(s.i), nx
				continue
			}
			if c.cursor[i] > len(c.text[i]) {
				return nil, fmt.Errorf("instruction %d is at offset %d, %q is known", i, c.cursor[i], c.text[i])
			}
			if s.mode&smRoute != 0 {
				if certWidth(s) != 0 {
					return nil, fmt.Errorf("instruction %d tries a route and has bytes", i)
				}
				if int(s.i) < c.next[i] || int(s.i) >= len(rs) {
					return nil, fmt.Errorf("instruction %d tries route %d of %d, the ones before %d are done", i, s.i, len(rs), c.next[i])
				}
				for j := c.next[i]; j < int(s.i); j++ {
					if !out(rs[j].prefix, c.text[i], "") {
						return nil, fmt.Errorf("instruction %d tries route %d, route %d (%q) is left out, of the path %q is known", i, s.i, j, rs[j].prefix, c.text[i])
					}
				}
				if enter(i, i+1, c.text[i], "", c.cursor[i], int(s.i)+1) {
					changed = true
				}
				if err != nil {
					return nil, err
				}
				continue
			}
			for _, ok := range []bool{false, true} {
				possible, known, not := along(s, c.text[i], c.cursor[i], ok)
				if !possible {
					continue
				}
				cur := c.cursor[i]
				if ok {
					cur += certWidth(s)
				}
				if ok != (s.mode&smJumpOnMatch != 0) {
					if enter(i, i+1, known, not, cur, c.next[i]) {
						changed = true
					}
				} else if s.mode&smFail == 0 {
					if enter(i, int(s.i), known, not, cur, c.next[i]) {
						changed = true
					}
				}
				if err != nil {
					return nil, err
				}
			}
		}
		if !changed {
			break
		}
	}
	// routes that are left out at the end, and the rank
	state := make([]int, n)
	var walk func(i int) error
	walk = func(i int) error {
		if state[i] == 2 {
			return nil
		}
		if state[i] == 1 {
			return fmt.Errorf("the program can go round through %d", i)
		}
		state[i] = 1
		s := sm[i]
		var outs []int
		if s.mode&(smSetCursor|smRoute) != 0 {
			outs = []int{i + 1}
		} else {
			for _, ok := range []bool{false, true} {
				possible, known, not := along(s, c.text[i], c.cursor[i], ok)
				if !possible {
					continue
				}
				if ok != (s.mode&smJumpOnMatch != 0) {
					outs = append(outs, i+1)
				} else if s.mode&smFail == 0 {
					outs = append(outs, int(s.i))
				} else {
					for j := c.next[i]; j < len(rs); j++ {
						if !out(rs[j].prefix, known, not) {
							return fmt.Errorf("the program ends at %d, route %d (%q) is left out, of the path %q is known", i, j, rs[j].prefix, known)
						}
					}
				}
			}
		}
		for _, t := range outs {
			if err := walk(t); err != nil {
				return err
			}
			if c.rank[i] <= c.rank[t] {
				c.rank[i] = c.rank[t] + 1
			}
		}
		state[i] = 2
		return nil
	}
	if err := walk(0); err != nil {
		return nil, err
	}
	return c, check(c, sm, rs)
}

// check checks the certificate, clause by clause as the contract has it, where
// "for every path" is decided by what is known of the path.
func check(c *certificate, sm stateMachine, rs []route) error {
	skips := func(known, not string, from, to int) bool {
		for j := from; j < to; j++ {
			if !out(rs[j].prefix, known, not) {
				return false
			}
		}
		return true
	}
	for i, s := range sm {
		if !c.reach[i] {
			continue
		}
		if c.next[i] < 0 || c.next[i] > len(rs) {
			return fmt.Errorf("next at %d", i)
		}
		edge := func(ok bool, from, t int) error {
			possible, known, not := along(s, c.text[i], c.cursor[i], ok)
			if !possible {
				return nil
			}
			w := 0
			if ok {
				w = certWidth(s)
			}
			switch {
			case t < 0 || t >= len(sm), !c.reach[t], c.rank[t] >= c.rank[i],
				!free(sm, t) && c.cursor[t] != c.cursor[i]+w,
				from > c.next[t] || c.next[t] > len(rs),
				!strings.HasPrefix(known, c.text[t]),
				!skips(known, not, from, c.next[t]):
				return fmt.Errorf("edge %d to %d (%v)", i, t, ok)
			}
			return nil
		}
		if s.mode&smSetCursor != 0 {
			t := i + 1
			if t >= len(sm) || s.i < 0 || int(s.i) > len(c.text[i]) || c.cursor[t] != int(s.i) ||
				!c.reach[t] || !strings.HasPrefix(c.text[i], c.text[t]) || c.next[t] != c.next[i] || c.rank[t] >= c.rank[i] {
				return fmt.Errorf("cursor at %d", i)
			}
			continue
		}
		if c.cursor[i] < 0 || c.cursor[i] > len(c.text[i]) {
			return fmt.Errorf("offset at %d", i)
		}
		if s.mode&smRoute != 0 {
			if certWidth(s) != 0 || s.i < 0 || int(s.i) >= len(rs) || c.next[i] > int(s.i) || !skips(c.text[i], "", c.next[i], int(s.i)) {
				return fmt.Errorf("route at %d", i)
			}
			if err := edge(true, int(s.i)+1, i+1); err != nil {
				return err
			}
			continue
		}
		for _, ok := range []bool{false, true} {
			if !ok && certWidth(s) == 0 {
				continue
			}
			var err error
			if ok != (s.mode&smJumpOnMatch != 0) {
				err = edge(ok, c.next[i], i+1)
			} else if s.mode&smFail == 0 {
				err = edge(ok, c.next[i], int(s.i))
			} else if possible, known, not := along(s, c.text[i], c.cursor[i], ok); possible && !skips(known, not, c.next[i], len(rs)) {
				err = fmt.Errorf("end at %d", i)
			}
			if err != nil {
				return err
			}
		}
	}
	return nil
}

// steps runs a program against a path without the interpreter, to say whether it
// ends and stays in bounds.
func runTable(t *testing.T, prefixes []string, path string, matching func(i int) bool) {
	var seen []int
	rt := &router{notFound: certNum(-1)}
	for i, p := range prefixes {
		rt.handle(&certStub{p, matching(i), i, &seen}, mALL, certNum(i))
	}
	seen = nil
	done := make(chan int, 1)
	var panicked interface{}
	go func() {
		defer func() {
			if panicked = recover(); panicked != nil {
				done <- -2
			}
		}()
		req, _ := http.NewRequest("GET", "http://x/", nil)
		req.URL.Path = path
		got := -1
		if n, ok := rt.getMatch(&C{}, nil, req).Handler.(certNum); ok {
			got = int(n)
		}
		done <- got
	}()
	got := <-done
	want := -1
	for i, p := range prefixes {
		if matching(i) && strings.HasPrefix(path, p) {
			want = i
			break
		}
	}
	if got == -2 {
		failing(t, "routes with the prefixes %q, path %q: %v", prefixes, path, panicked)
	}
	if got != want {
		failing(t, "routes with the prefixes %q, path %q: route %d, not %d", prefixes, path, got, want)
	}
	times := map[int]bool{}
	for _, i := range seen {
		if times[i] {
			failing(t, "routes with the prefixes %q, path %q: route %d is examined twice", prefixes, path, i)
		}
		times[i] = true
	}
}

// explain looks for a path with which the table goes wrong.
func explain(t *testing.T, prefixes []string, err error) {
	paths := []string{""}
	for _, p := range prefixes {
		for i := 0; i <= len(p); i++ {
			for _, e := range []string{"", "a", "b", "ab", "ba", "aab", "zzzz"} {
				paths = append(paths, p[:i]+e)
			}
		}
	}
	for _, p := range paths {
		for m := 0; m <= len(prefixes); m++ {
			runTable(t, prefixes, p, func(i int) bool { return i == m })
		}
		runTable(t, prefixes, p, func(i int) bool { return true })
	}
	t.Fatalf("routes with the prefixes %q: %v", prefixes, err)
}

func certTable(t *testing.T, prefixes []string) {
	rt := &router{}
	var seen []int
	for i, p := range prefixes {
		rt.handle(&certStub{p, true, i, &seen}, mALL, certNum(i))
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				explain(t, prefixes, fmt.Errorf("%v", e))
			}
		}()
		rm := rt.compile()
		if len(rm.routes) != len(prefixes) {
			explain(t, prefixes, fmt.Errorf("%d routes compiled of %d", len(rm.routes), len(prefixes)))
		}
		if _, err := certify(rm.sm, rm.routes); err != nil {
			explain(t, prefixes, err)
		}
	}()
}

// All tables of up to five (thorough: six) routes with prefixes of this pool, and
// long random ones.
func TestBoundedCertificate(t *testing.T) {
	pool := []string{"", "a", "b", "ab", "aa", "abc", "abcd", "abce", "abcdefg", "abcdeff", "abx", "b\xff", "\U0001F600", "\U0001F601"}
	most, random := 5, 20000
	if os.Getenv("VERIF_TIER") == "thorough" {
		most, random = 6, 200000
	}
	count := 0
	var all func(ps []string)
	all = func(ps []string) {
		certTable(t, ps)
		count++
		if len(ps) == most {
			return
		}
		for _, p := range pool {
			all(append(ps[:len(ps):len(ps)], p))
		}
	}
	all(nil)
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(n))
	for k := 0; k < random; k++ {
		ps := make([]string, 1+rnd.Intn(30))
		for i := range ps {
			if i > 0 && rnd.Intn(3) > 0 {
				q := ps[rnd.Intn(i)]
				ps[i] = q[:rnd.Intn(len(q)+1)]
			}
			for l := rnd.Intn(9); l > 0; l-- {
				ps[i] += string("/ab\xff"[rnd.Intn(4)])
			}
		}
		certTable(t, ps)
	}
	fmt.Printf("BOUND: all %d tables of up to %d routes with prefixes of %d, %d random ones of up to 30 routes; every path\n", count, most, len(pool), random)
}
