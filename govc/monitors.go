package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// monitorCoverage lists functions that touch a monitor's lock or its protected
// state but were executed in no verified contract: their locked regions would
// not have been checked against the monitor invariant.
func (w *World) monitorCoverage(executed map[string]bool) []string {
	var bad []string
	for _, m := range w.cs.monitors {
		if m.Name == "" {
			continue
		}
		// without an invariant it does not matter who takes the lock
		lock := m.Name
		// (nor when it speaks of the protected state only)
		if m.Local || len(m.Inv)+len(m.Guarantee) == 0 {
			lock = ""
		}
		for _, fn := range w.fns {
			if executed[fn.String()] || fn.Synthetic != "" && fn.Name() == "init" {
				continue
			}
			hit := ""
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.FieldAddr:
						t := x.X.Type().Underlying().(*types.Pointer).Elem()
						n := fldTerm(t, x.Field, -1, Int(0)).Name
						if (n == lock || m.fields[n]) && !isFreshAlloc(x.X) {
							hit = n
						}
					default:
						for _, op := range in.Operands(nil) {
							if g, ok := (*op).(*ssa.Global); ok {
								n := "gaddr:" + globalName(g)
								if n == lock || m.fields[n] {
									hit = n
								}
							}
						}
					}
				}
			}
			if hit != "" {
				bad = append(bad, shortFn(fn)+" uses "+hit+" and is under no contract")
			}
		}
	}
	return bad
}

// ownedSlices checks what the owns clauses claim: the value of the global is
// only measured, indexed for reading, and appended to where the result goes
// back into the global.
func (w *World) ownedSlices() []string {
	var bad []string
	for _, m := range w.cs.monitors {
		for _, n := range m.owns {
			var g *ssa.Global
			for _, p := range w.prog.AllPackages() {
				for _, x := range p.Members {
					if y, ok := x.(*ssa.Global); ok && globalName(y) == n {
						g = y
					}
				}
			}
			if g == nil {
				bad = append(bad, "no global "+n)
				continue
			}
			if b := w.confined(g); b != "" {
				bad = append(bad, n+" is not only read and appended to: "+b)
			}
		}
	}
	return bad
}

func (w *World) confined(g *ssa.Global) string {
	seen := map[ssa.Value]bool{}
	var use func(v ssa.Value) string // v: a slice value of the global
	var cell func(v ssa.Value) string
	// from: does the value come from the global (or is new)?
	var from func(v ssa.Value) bool
	from = func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.UnOp:
			return x.X == ssa.Value(g)
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			return ok && b.Name() == "append" && from(x.Call.Args[0])
		case *ssa.MakeSlice:
			return true
		case *ssa.Slice: // of a new array
			_, ok := x.X.(*ssa.Alloc)
			return ok
		case *ssa.Const:
			return true
		}
		return false
	}
	cell = func(v ssa.Value) string {
		if seen[v] {
			return ""
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp:
				if b := use(r); b != "" {
					return b
				}
			case *ssa.Store:
				if r.Val == v {
					return "address stored in " + shortFn(r.Parent())
				}
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v {
						if e := cell(fn.FreeVars[i]); e != "" {
							return e
						}
					}
				}
			case *ssa.DebugRef:
			default:
				return "address used in " + shortFn(r.Parent())
			}
		}
		return ""
	}
	use = func(v ssa.Value) string {
		if seen[v] {
			return ""
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef:
			case *ssa.IndexAddr:
				for _, q := range *r.Referrers() {
					switch q.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						return "element written in " + shortFn(r.Parent())
					}
				}
			case *ssa.Phi:
				if e := use(r); e != "" {
					return e
				}
			case *ssa.Store:
				if r.Val == v {
					if r.Addr == ssa.Value(g) {
						continue
					}
					al, ok := r.Addr.(*ssa.Alloc)
					if !ok {
						return "stored in " + shortFn(r.Parent())
					}
					if e := cell(al); e != "" {
						return e
					}
				}
			case ssa.CallInstruction:
				c := r.Common()
				if b, ok := c.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "len", "cap":
						continue
					case "append":
						if len(c.Args) > 1 && c.Args[1] == v {
							continue // its elements are copied
						}
						for _, q := range *r.Value().Referrers() {
							switch q := q.(type) {
							case *ssa.Store:
								if q.Addr == ssa.Value(g) {
									continue
								}
							case *ssa.DebugRef:
								continue
							}
							return "appended to in " + shortFn(r.Parent())
						}
						continue
					case "copy":
						if c.Args[1] == v && c.Args[0] != v {
							continue
						}
					}
					return b.Name() + " in " + shortFn(r.Parent())
				}
				fn := c.StaticCallee()
				if fn == nil || len(fn.Blocks) == 0 || len(fn.Params) != len(c.Args) {
					return "passed on in " + shortFn(r.Parent())
				}
				for i, a := range c.Args {
					if a == v {
						if e := use(fn.Params[i]); e != "" {
							return e
						}
					}
				}
			default:
				return "used in " + shortFn(r.Parent())
			}
		}
		return ""
	}
	for _, fn := range w.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ok := false
				switch x := in.(type) {
				case *ssa.UnOp:
					if x.X == ssa.Value(g) {
						if e := use(x); e != "" {
							return e
						}
						ok = true
					}
				case *ssa.Store:
					if x.Addr == ssa.Value(g) {
						if !from(x.Val) {
							return "assigned in " + shortFn(fn)
						}
						ok = true
					}
				case *ssa.DebugRef:
					ok = true
				}
				if ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(g) {
						return "address used in " + shortFn(fn)
					}
				}
			}
		}
	}
	return ""
}
