package ai

import "golang.org/x/tools/go/ssa"

// Spawn analyses what the goroutine started by a "go" event does. Variables it
// shares with the function that starts it are unknown if that function may
// still change them.
func (m *Machine) Spawn(e *Event) ([]Outcome, bool) {
	st := e.St.Copy()
	st.trace = nil
	st.Locks = map[int]int{}
	st.inDefer = 0
	st.PanVal = nil
	f := e.Args[0]
	if g, ok := e.Instr.(*ssa.Go); ok {
		if g.Call.IsInvoke() {
			if f.Op != "ifc" {
				return nil, false
			}
			fn := m.Prog.LookupMethod(f.Typ, g.Call.Method.Pkg(), g.Call.Method.Name())
			if fn == nil || len(fn.Blocks) == 0 {
				return nil, false
			}
			return m.Exec(fn, append([]*Term{f.Args[0]}, e.Args[1:]...), st), true
		}
		if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok && f.Op == "clo" {
			for i, b := range mc.Bindings {
				if a, ok := b.(*ssa.Alloc); ok && storedLater(g, a) {
					m.HavocRoot(st, f.Args[i].Root(), "go")
				}
			}
		}
	}
	if f.Op != "fn" && f.Op != "clo" {
		return nil, false
	}
	if fn := f.X.(*ssa.Function); len(fn.Blocks) == 0 || m.NoInline != nil && m.NoInline(fn) {
		return nil, false
	}
	return m.ExecFun(f, e.Args[1:], st), true
}

// storedLater reports whether variable a may be assigned after instruction in
// while it is still the same variable.
func storedLater(in ssa.Instruction, a *ssa.Alloc) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) bool
	walk = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			if b.Instrs[i] == ssa.Instruction(a) {
				return false
			}
			if s, ok := b.Instrs[i].(*ssa.Store); ok {
				v := s.Addr
				for {
					if fa, ok := v.(*ssa.FieldAddr); ok {
						v = fa.X
						continue
					}
					break
				}
				if v == ssa.Value(a) {
					return true
				}
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	i := 0
	for j, x := range in.Block().Instrs {
		if x == in {
			i = j + 1
		}
	}
	return walk(in.Block(), i)
}

// SiteOf names an instruction of a function that is entered directly.
func (m *Machine) SiteOf(fn *ssa.Function, in ssa.Instruction) string {
	return m.site(&frame{fn: fn, fi: m.info(fn)}, in)
}
