package rules

import (
	"go/token"
	"go/types"
	"strings"

	"gojicheck/ai"

	"golang.org/x/tools/go/ssa"
)

// use is one use of a package-level variable in analysed code.
type use struct {
	fn     *ssa.Function
	pos    token.Pos
	atomic string // operation, if the use is an argument of an atomic operation
	what   string
	init   bool // inside a package initialiser
}

// globalUses lists the uses of a package-level variable, looking through
// conversions and field selections.
func (c *Ctx) globalUses(g *ai.Term) []use {
	gl, _ := g.X.(*ssa.Global)
	var out []use
	for fn := range ai.AllFunctions(c.P) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(gl) {
						out = append(out, addrUse(fn, in, gl)...)
					}
				}
			}
		}
	}
	return out
}

// addrUse describes what instruction in does with address v.
func addrUse(fn *ssa.Function, in ssa.Instruction, v ssa.Value) []use {
	u := use{fn: fn, pos: in.Pos(), init: fn.Synthetic == "package initializer" || strings.HasPrefix(fn.Name(), "init#") || fn.Name() == "init"}
	follow := func(w ssa.Value) []use {
		var out []use
		for _, r := range *w.Referrers() {
			out = append(out, addrUse(fn, r, w)...)
		}
		return out
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.FieldAddr:
		return follow(in)
	case *ssa.IndexAddr:
		return follow(in)
	case *ssa.Convert:
		return follow(in)
	case *ssa.ChangeType:
		return follow(in)
	case *ssa.Phi:
		return follow(in)
	case *ssa.UnOp:
		if in.Op == token.MUL {
			u.what = "a plain read"
			return []use{u}
		}
	case *ssa.Store:
		if in.Addr == v {
			u.what = "a plain write"
			return []use{u}
		}
		u.what = "its address being stored"
		return []use{u}
	case ssa.CallInstruction:
		if f := in.Common().StaticCallee(); f != nil {
			nm := f.String()
			if o, ok := f.Object().(*types.Func); ok {
				nm = o.FullName()
			}
			if strings.HasPrefix(nm, "sync/atomic.") || strings.HasPrefix(nm, "(*sync/atomic.") {
				n := nm[strings.LastIndexByte(nm, '.')+1:]
				for _, k := range []string{"CompareAndSwap", "Load", "Store", "Add", "Swap"} {
					if strings.HasPrefix(n, k) {
						u.atomic = k
						u.what = "atomic " + k
						return []use{u}
					}
				}
			}
			if len(f.Blocks) > 0 {
				var out []use
				for i, a := range in.Common().Args {
					if a == v && i < len(f.Params) {
						for _, r := range *f.Params[i].Referrers() {
							out = append(out, addrUse(f, r, f.Params[i])...)
						}
					}
				}
				return out
			}
			u.what = "its address being passed to " + nm
			return []use{u}
		}
	}
	u.what = "its address being used in " + in.String()
	return []use{u}
}
