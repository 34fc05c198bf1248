package main

// The theory of byte strings: length, bytes, substring, concatenation, prefix
// and the lexicographic order, all as uninterpreted functions with axioms.
func init() {
	s, t, u := BVar("s", SStr), BVar("t", SStr), BVar("u", SStr)
	i, j, k := BVar("i", SInt), BVar("j", SInt), BVar("k", SInt)
	lenS := func(x *Term) *Term { return mk("$f", "slen", SInt, x) }
	at := func(x, y *Term) *Term { return mk("$f", "sat", SInt, x, y) }
	f := func(n, srt string, as ...*Term) *Term { return mk("$f", n, srt, as...) }
	add := func(name string, need []string, t *Term) { axioms = append(axioms, axiom{name, need, t}) }
	vs := func(x ...*Term) []*Term { return x }
	tr := func(x ...*Term) [][]*Term { return [][]*Term{x} }
	add("slen-nonneg", []string{"slen"}, Forall(vs(s), tr(lenS(s)), Le(Int(0), lenS(s))))
	add("byte-range", []string{"sat"}, Forall(vs(s, i), tr(at(s, i)), And(Le(Int(0), at(s, i)), Lt(at(s, i), Int(256)))))
	eq := f("streq", SBool, s, t)
	d := f("sdiff", SInt, s, t)
	add("streq", []string{"streq"}, Forall(vs(s, t), tr(eq), And(
		Eq2(eq, Eq2(s, t)),
		Or(Eq2(s, t), Not(Eq2(lenS(s), lenS(t))), And(Le(Int(0), d), Lt(d, lenS(s)), Not(Eq2(at(s, d), at(t, d))))))))
	sub := f("ssub", SStr, s, i, j)
	ok := And(Le(Int(0), i), Le(i, j), Le(j, lenS(s)))
	add("ssub-len", []string{"ssub"}, Forall(vs(s, i, j), tr(sub), Imp(ok, Eq2(lenS(sub), Sub(j, i)))))
	add("ssub-at", []string{"ssub"}, Forall(vs(s, i, j, k), tr(at(sub, k)),
		Imp(And(ok, Le(Int(0), k), Lt(k, Sub(j, i))), Eq2(at(sub, k), at(s, Add(i, k))))))
	add("ssub-full", []string{"ssub"}, Forall(vs(s, i, j), tr(sub), Imp(And(Eq2(i, Int(0)), Eq2(j, lenS(s))), Eq2(sub, s))))
	add("ssub-sub", []string{"ssub"}, Forall(vs(s, i, j, k, BVar("l", SInt)), tr(f("ssub", SStr, sub, k, BVar("l", SInt))),
		Imp(And(ok, Le(Int(0), k), Le(k, BVar("l", SInt)), Le(BVar("l", SInt), Sub(j, i))),
			Eq2(f("ssub", SStr, sub, k, BVar("l", SInt)), f("ssub", SStr, s, Add(i, k), Add(i, BVar("l", SInt)))))))
	cat := f("scat", SStr, s, t)
	add("scat-len", []string{"scat"}, Forall(vs(s, t), tr(cat), Eq2(lenS(cat), Add(lenS(s), lenS(t)))))
	add("scat-at", []string{"scat"}, Forall(vs(s, t, k), tr(at(cat, k)),
		Eq2(at(cat, k), Ite(Lt(k, lenS(s)), at(s, k), at(t, Sub(k, lenS(s)))))))
	add("scat-right", []string{"scat"}, Forall(vs(s, t), tr(cat), Eq2(f("sright", SStr, lenS(s), cat), t)))
	p := f("spfx", SBool, s, t)
	pd := f("spdiff", SInt, s, t)
	add("spfx-len", []string{"spfx"}, Forall(vs(s, t), tr(p), Imp(p, Le(lenS(s), lenS(t)))))
	add("spfx-at", []string{"spfx"}, Forall(vs(s, t, k), [][]*Term{{p, at(s, k)}, {p, at(t, k)}},
		Imp(And(p, Le(Int(0), k), Lt(k, lenS(s))), Eq2(at(s, k), at(t, k)))))
	add("spfx-wit", []string{"spfx"}, Forall(vs(s, t), tr(p),
		Or(p, Lt(lenS(t), lenS(s)), And(Le(Int(0), pd), Lt(pd, lenS(s)), Not(Eq2(at(s, pd), at(t, pd)))))))
	// the lexicographic order, through the length of the longest common prefix
	lt := f("slt", SBool, s, t)
	l := f("slcp", SInt, s, t)
	add("slt-def", []string{"slt"}, Forall(vs(s, t), tr(lt), And(
		Le(Int(0), l), Le(l, lenS(s)), Le(l, lenS(t)), Eq2(l, f("slcp", SInt, t, s)),
		Or(Eq2(l, lenS(s)), Eq2(l, lenS(t)), Not(Eq2(at(s, l), at(t, l)))),
		Eq2(lt, And(Lt(l, lenS(t)), Or(Eq2(l, lenS(s)), Lt(at(s, l), at(t, l))))),
		Or(lt, f("slt", SBool, t, s), Eq2(s, t)))))
	add("slcp-at", []string{"slt"}, Forall(vs(s, t, k), [][]*Term{{l, at(s, k)}, {l, at(t, k)}},
		Imp(And(Le(Int(0), k), Lt(k, l)), Eq2(at(s, k), at(t, k)))))
	add("slt-trans", []string{"slt"}, Forall(vs(s, t, u), tr(lt, f("slt", SBool, t, u)), Imp(And(lt, f("slt", SBool, t, u)), f("slt", SBool, s, u))))
	// a string between p and an extension of p starts with p
	add("slt-irrefl", []string{"slt"}, Forall(vs(s), tr(f("slt", SBool, s, s)), Not(f("slt", SBool, s, s))))
	// a byte occurs in a string
	hb := f("shas", SBool, s, i)
	hw := f("shasat", SInt, s, i)
	add("shas-wit", []string{"shas"}, Forall(vs(s, i), tr(hb), Imp(hb, And(Le(Int(0), hw), Lt(hw, lenS(s)), Eq2(at(s, hw), i)))))
	add("shas-at", []string{"shas"}, Forall(vs(s, i, k), tr(hb, at(s, k)), Imp(And(Le(Int(0), k), Lt(k, lenS(s)), Eq2(at(s, k), i)), hb)))
}
