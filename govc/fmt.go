package main

import (
	"fmt"
	"go/types"
	"strings"
)

// sprintf expands a constant format into the concatenation of its parts:
// %s and %v of a string is the string itself, %d (with flags and width) of an
// integer an injective function of it, any other verb an uninterpreted
// function of its operand. A format that is not constant is uninterpreted.
func (ex *Exec) sprintf(st *State, format *Term, rest Val) *Term {
	n := rest.L[2]
	if !n.isInt() || n.intVal() > 8 {
		return Fresh("sprintf", SStr)
	}
	var args []*Term
	for i := int64(0); i < n.intVal(); i++ {
		v := st.load(Elem(rest.L[0], AddK(rest.L[1], i)), types.NewInterfaceType(nil, nil))
		args = append(args, v.L[0])
	}
	if format.Op == "#s" {
		if t := expandFormat(st, format.Name, args); t != nil {
			return t
		}
	}
	return App(fmt.Sprintf("sprintf%d", len(args)), SStr, append([]*Term{format}, args...)...)
}

// sprint is the text of the operands (with separators that do not matter).
func (ex *Exec) sprint(st *State, rest Val, ln bool) *Term {
	n := rest.L[2]
	if !n.isInt() || n.intVal() > 8 {
		return Fresh("sprint", SStr)
	}
	out := StrLit("")
	for i := int64(0); i < n.intVal(); i++ {
		v := st.load(Elem(rest.L[0], AddK(rest.L[1], i)), types.NewInterfaceType(nil, nil))
		if i > 0 {
			out = SCat(out, Fresh("sep", SStr))
		}
		out = SCat(out, formatOne(st, "%v", v.L[0]))
	}
	if ln {
		out = SCat(out, StrLit("\n"))
	}
	return out
}

// hasPart: one of the pieces that s is put together from is t.
func hasPart(s, t *Term, d int) *Term {
	if s == t {
		return tTrue
	}
	if d > 60 {
		return tFalse
	}
	switch {
	case s.Op == "ite":
		return Ite(s.Args[0], hasPart(s.Args[1], t, d+1), hasPart(s.Args[2], t, d+1))
	case s.Op == "$f" && s.Name == "scat":
		return Or(hasPart(s.Args[0], t, d+1), hasPart(s.Args[1], t, d+1))
	case s.Op == "#s":
		if t.Op == "#s" {
			return Bool(strings.Contains(s.Name, t.Name))
		}
		return tFalse
	}
	return Eq(s, t)
}

func expandFormat(st *State, f string, args []*Term) *Term {
	out := StrLit("")
	lit := ""
	flush := func() {
		if lit != "" {
			out = SCat(out, StrLit(lit))
			lit = ""
		}
	}
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += f[i : i+1]
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) || strings.IndexByte("[*", f[j]) >= 0 {
			return nil
		}
		if f[j] == '%' {
			lit += "%"
			i = j
			continue
		}
		if k >= len(args) {
			return nil
		}
		verb := f[i : j+1]
		flush()
		out = SCat(out, formatOne(st, verb, args[k]))
		k++
		i = j
	}
	if k != len(args) {
		return nil
	}
	flush()
	return out
}

func formatOne(st *State, verb string, a *Term) *Term {
	if isBox(a) && len(a.Args) == 1 {
		t := tagTypes[strings.TrimPrefix(a.Name, "box:")]
		if b, ok := t.(*types.Basic); ok {
			switch {
			case b.Info()&types.IsString != 0 && (verb == "%s" || verb == "%v"):
				return a.Args[0]
			case b.Info()&types.IsInteger != 0 && (verb[len(verb)-1] == 'd' || verb == "%v"):
				if verb == "%v" {
					verb = "%d"
				}
				return fmtInt(verb, a.Args[0])
			}
		}
	}
	return App("fmt:"+verb, SStr, a)
}

// fmtInt is an injective function of the number.
func fmtInt(verb string, n *Term) *Term {
	t := App("fmtint:"+verb, SStr, n)
	fmtVerbs[verb] = true
	return t
}

var fmtVerbs = map[string]bool{}

// fmtAxioms: formatting an integer is injective.
func fmtAxioms(syms map[string]bool) []*Term {
	var out []*Term
	for _, v := range sortedKeys(fmtVerbs) {
		if !syms["fmtint:"+v] {
			continue
		}
		n := BVar("n", SInt)
		f := mk("$f", "fmtint:"+v, SStr, n)
		out = append(out, Forall([]*Term{n}, [][]*Term{{f}}, And(Eq2(App("unfmt:"+v, SInt, f), n), Lt(Int(0), mk("$f", "slen", SInt, f)))))
	}
	return out
}
