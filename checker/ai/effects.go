package ai

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// recursive reports whether fn can reach a cycle of static calls.
func (m *Machine) recursive(fn *ssa.Function) bool {
	if v, ok := m.eff.rec[fn]; ok {
		return v
	}
	onPath := map[*ssa.Function]bool{}
	seen := map[*ssa.Function]bool{}
	found := false
	var dfs func(f *ssa.Function)
	dfs = func(f *ssa.Function) {
		if onPath[f] {
			found = true
			return
		}
		if seen[f] || found {
			return
		}
		seen[f] = true
		onPath[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && len(g.Blocks) > 0 {
						dfs(g)
					}
				}
			}
		}
		onPath[f] = false
	}
	dfs(fn)
	m.eff.rec[fn] = found
	return found
}

type effects struct {
	rec  map[*ssa.Function]bool
	pure map[*ssa.Function]bool
	busy map[*ssa.Function]bool
}

func newEffects() *effects {
	return &effects{map[*ssa.Function]bool{}, map[*ssa.Function]bool{}, map[*ssa.Function]bool{}}
}

// mutableRef reports whether a value of type t can lead to mutable memory.
func mutableRef(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if mutableRef(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return mutableRef(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if mutableRef(u.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

// EffectFree is effectFree.
func (m *Machine) EffectFree(fn *ssa.Function) bool { return m.effectFree(fn) }

// effectFree reports whether calling fn can only write memory that fn (or its
// callees) allocated, calls no unknown code, and returns no reference to
// memory it was given: the result is new and nothing else changes.
func (m *Machine) effectFree(fn *ssa.Function) bool {
	if v, ok := m.eff.pure[fn]; ok {
		return v
	}
	if m.eff.busy[fn] {
		return true // coinductive: decided by the rest of the cycle
	}
	m.eff.busy[fn] = true
	v := m.computeEffectFree(fn)
	delete(m.eff.busy, fn)
	if !v || len(m.eff.busy) == 0 {
		m.eff.pure[fn] = v
	}
	return v
}

func (m *Machine) computeEffectFree(fn *ssa.Function) bool {
	if fn.Recover != nil || len(fn.Blocks) == 0 {
		return false
	}
	// Values that may reference memory this function did not allocate.
	foreign := map[ssa.Value]bool{}
	for _, p := range fn.Params {
		if mutableRef(p.Type()) {
			foreign[p] = true
		}
	}
	for _, p := range fn.FreeVars {
		foreign[p] = true
	}
	// Local memory that holds a foreign reference: by variable for variables
	// whose address stays in this function, one flag for everything else.
	tainted := map[ssa.Value]bool{}
	var deep ssa.Value = (*ssa.Const)(nil)
	key := func(addr ssa.Value) ssa.Value {
		for {
			switch a := addr.(type) {
			case *ssa.FieldAddr:
				addr = a.X
				continue
			case *ssa.IndexAddr:
				if _, ok := a.X.Type().Underlying().(*types.Pointer); ok {
					addr = a.X
					continue
				}
			case *ssa.Alloc:
				if addrLocal(a) {
					return a
				}
			}
			return deep
		}
	}
	isF := func(v ssa.Value) bool {
		if _, ok := v.(*ssa.Global); ok {
			return true
		}
		return foreign[v]
	}
	for ch := true; ch; {
		ch = false
		mark := func(v ssa.Value) {
			if !foreign[v] && mutableRef(v.Type()) {
				foreign[v] = true
				ch = true
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if isF(in.Val) && mutableRef(in.Val.Type()) && !tainted[key(in.Addr)] {
						tainted[key(in.Addr)] = true
						ch = true
					}
				case *ssa.MapUpdate:
					if (isF(in.Value) && mutableRef(in.Value.Type()) || isF(in.Key) && mutableRef(in.Key.Type())) && !tainted[deep] {
						tainted[deep] = true
						ch = true
					}
				case *ssa.UnOp:
					if isF(in.X) || in.Op == token.MUL && tainted[key(in.X)] {
						mark(in)
					}
				case *ssa.Call:
					if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						if isF(in.Call.Args[0]) {
							mark(in)
						}
						if len(in.Call.Args) > 1 && isF(in.Call.Args[1]) {
							if st, ok := in.Call.Args[1].Type().Underlying().(*types.Slice); ok && mutableRef(st.Elem()) {
								if !tainted[deep] {
									tainted[deep] = true
									ch = true
								}
							}
						}
					}
				default:
					v, ok := in.(ssa.Value)
					if !ok {
						continue
					}
					for _, o := range in.Operands(nil) {
						if *o != nil && isF(*o) && mutableRef((*o).Type()) {
							mark(v)
						}
					}
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if isF(in.Addr) {
					return false
				}
			case *ssa.MapUpdate:
				if isF(in.Map) {
					return false
				}
			case *ssa.Return:
				for _, r := range in.Results {
					if isF(r) && mutableRef(r.Type()) {
						return false
					}
				}
			case *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Select, *ssa.MakeClosure, *ssa.Panic:
				return false
			case *ssa.UnOp:
				if in.Op.String() == "<-" {
					return false
				}
			case *ssa.Call:
				cc := in.Call
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "len", "cap", "min", "max", "ssa:wrapnilchk":
					case "append":
						// may write into spare capacity of a foreign slice
						if isF(cc.Args[0]) {
							return false
						}
					case "copy", "clear", "delete":
						if isF(cc.Args[0]) {
							return false
						}
					default:
						return false
					}
					continue
				}
				g := cc.StaticCallee()
				if g == nil {
					return false
				}
				if len(g.Blocks) == 0 {
					nm := g.String()
					if o, ok := g.Object().(*types.Func); ok {
						nm = o.FullName()
					}
					if !pure[nm] {
						return false
					}
					continue
				}
				// a callee may write nothing that is not its own
				if !m.effectFree(g) {
					return false
				}
			}
		}
	}
	return true
}

// addrLocal: the address of the variable is only used to access it.
func addrLocal(a ssa.Value) bool {
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.FieldAddr:
			if !addrLocal(r) {
				return false
			}
		case *ssa.IndexAddr:
			if !addrLocal(r) {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if r.Val == a {
				return false
			}
		default:
			return false
		}
	}
	return true
}
