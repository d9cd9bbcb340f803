package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"gojicheck/ai"

	"golang.org/x/tools/go/ssa"
)

// --- C42: variables shared without a lock are accessed atomically, aligned

// access is one access to a shared variable.
type access struct {
	fn     *ssa.Function
	pos    token.Pos
	write  bool
	atomic string
	what   string
	locks  lockset
	in     ssa.Instruction
}

type lockset map[string]bool

func (a lockset) meet(b lockset) lockset {
	r := lockset{}
	for k := range a {
		if b[k] {
			r[k] = true
		}
	}
	return r
}

func (a lockset) equal(b lockset) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

// lockflow computes the locks (package-level ones, by name) certainly held
// before every instruction.
type lockflow struct {
	fns    []*ssa.Function
	entry  map[*ssa.Function]lockset // nil: not yet called
	root   map[*ssa.Function]bool    // may be called with no lock held
	before map[ssa.Instruction]lockset
	gain   map[*ssa.Function]lockset // held at return if none held on entry
	drop   map[*ssa.Function]lockset // may be released
	sum    map[*ssa.Function]bool
	inits  map[*ssa.Function]bool
}

func lockKey(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.Global:
		return v.Object().Pkg().Path() + "." + v.Name()
	case *ssa.FieldAddr:
		if k := lockKey(v.X); k != "" {
			return fmt.Sprintf("%s.%d", k, v.Field)
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if k := lockKey(v.X); k != "" {
				return "*" + k
			}
		}
	case *ssa.ChangeType:
		return lockKey(v.X)
	case *ssa.MakeInterface:
		return lockKey(v.X)
	}
	return ""
}

// lockCall: a call that takes (+1) or releases (-1) a lock.
func lockCall(com *ssa.CallCommon) (string, int) {
	f := com.StaticCallee()
	n := ""
	var recv ssa.Value
	if f != nil {
		o, ok := f.Object().(*types.Func)
		if !ok || o.Pkg() == nil || o.Pkg().Path() != "sync" || len(com.Args) == 0 {
			return "", 0
		}
		n, recv = o.Name(), com.Args[0]
	} else if com.IsInvoke() {
		n, recv = com.Method.Name(), com.Value
	}
	if recv == nil {
		return "", 0
	}
	switch n {
	case "Lock", "RLock":
		return lockKey(recv), 1
	case "Unlock", "RUnlock":
		return lockKey(recv), -1
	}
	return "", 0
}

// target is the analysed function a call certainly runs, directly.
func target(com *ssa.CallCommon) *ssa.Function {
	f := com.StaticCallee()
	if f != nil && len(f.Blocks) > 0 {
		return f
	}
	return nil
}

func funcOf(v ssa.Value) *ssa.Function {
	switch v := v.(type) {
	case *ssa.Function:
		return v
	case *ssa.MakeClosure:
		return v.Fn.(*ssa.Function)
	case *ssa.ChangeType:
		return funcOf(v.X)
	}
	return nil
}

func isInit(fn *ssa.Function) bool {
	return fn.Synthetic == "package initializer" || fn.Parent() == nil && fn.Signature.Recv() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#"))
}

// newLockflow analyses all functions.
func newLockflow(fns map[*ssa.Function]bool) *lockflow {
	w := &lockflow{entry: map[*ssa.Function]lockset{}, root: map[*ssa.Function]bool{}, before: map[ssa.Instruction]lockset{}, gain: map[*ssa.Function]lockset{}, drop: map[*ssa.Function]lockset{}, sum: map[*ssa.Function]bool{}, inits: map[*ssa.Function]bool{}}
	for f := range fns {
		w.fns = append(w.fns, f)
	}
	sort.Slice(w.fns, func(i, j int) bool { return w.fns[i].String() < w.fns[j].String() })
	called := map[*ssa.Function]bool{}
	for _, f := range w.fns {
		// a function whose value is used otherwise than by calling it, or that
		// is exported, or a method (interfaces), can be called from anywhere
		if f.Object() != nil && f.Object().Exported() || f.Signature.Recv() != nil {
			w.root[f] = true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, isCall := in.(ssa.CallInstruction)
				for _, op := range in.Operands(nil) {
					g := funcOf(*op)
					if g == nil {
						continue
					}
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(g) {
						continue // its uses count
					}
					if _, ok := in.(*ssa.DebugRef); ok {
						continue
					}
					if isCall && ci.Common().Value == *op {
						called[g] = true
						if _, ok := in.(*ssa.Go); ok {
							w.root[g] = true
						}
						continue
					}
					if isCall && w.callsOnly(ci, *op) {
						called[g] = true
						continue
					}
					w.root[g] = true
				}
			}
		}
	}
	for _, f := range w.fns {
		if !called[f] {
			w.root[f] = true
		}
	}
	// initialisers and what only they call
	for _, f := range w.fns {
		if isInit(f) {
			w.inits[f] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range w.fns {
			if w.inits[f] || f.Object() != nil && f.Object().Exported() || f.Signature.Recv() != nil {
				continue
			}
			n, only := 0, true
			for _, g := range w.fns {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						ci, isCall := in.(ssa.CallInstruction)
						for _, op := range in.Operands(nil) {
							if funcOf(*op) != f {
								continue
							}
							if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == *op {
								continue
							}
							if _, ok := in.(*ssa.DebugRef); ok {
								continue
							}
							n++
							_, isGo := in.(*ssa.Go)
							if !isCall || isGo || ci.Common().Value != *op || !w.inits[g] {
								only = false
							}
						}
					}
				}
			}
			if n > 0 && only {
				w.inits[f] = true
				changed = true
			}
		}
	}
	for _, f := range w.fns {
		w.summary(f)
	}
	for changed := true; changed; {
		changed = false
		for _, f := range w.fns {
			e := w.entry[f]
			if w.root[f] {
				e = lockset{}
			}
			if e == nil {
				continue
			}
			w.flow(f, e, true, func(g *ssa.Function, held lockset) {
				n := held
				if o, ok := w.entry[g]; ok {
					n = o.meet(held)
					if n.equal(o) {
						return
					}
				}
				w.entry[g] = n
				changed = true
			})
		}
	}
	return w
}

// callsOnly: the call passes v to an analysed function that only calls it, or
// to sync.Once.Do.
func (w *lockflow) callsOnly(ci ssa.CallInstruction, v ssa.Value) bool {
	if _, ok := ci.(*ssa.Call); !ok {
		return false
	}
	com := ci.Common()
	f := com.StaticCallee()
	if f == nil {
		return false
	}
	if o, ok := f.Object().(*types.Func); ok && o.FullName() == "(*sync.Once).Do" {
		return true
	}
	if len(f.Blocks) == 0 {
		return false
	}
	for i, a := range com.Args {
		if a != v {
			continue
		}
		if i >= len(f.Params) {
			return false
		}
		for _, r := range *f.Params[i].Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef:
			case *ssa.Call:
				if r.Common().Value != ssa.Value(f.Params[i]) {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

func (w *lockflow) summary(f *ssa.Function) {
	if w.sum[f] {
		return
	}
	w.sum[f] = true
	w.gain[f], w.drop[f] = lockset{}, lockset{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if k, d := lockCall(ci.Common()); d < 0 {
				w.drop[f][k] = true
			}
			if _, isGo := in.(*ssa.Go); isGo {
				continue
			}
			if g := target(ci.Common()); g != nil {
				w.summary(g)
				for k := range w.drop[g] {
					w.drop[f][k] = true
				}
			}
		}
	}
	var exit lockset
	w.flow(f, lockset{}, false, nil)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Return); ok {
				h := w.before[in]
				if exit == nil {
					exit = h
				} else {
					exit = exit.meet(h)
				}
			}
		}
	}
	if exit != nil {
		w.gain[f] = exit
	}
}

// flow runs the must-hold analysis over one function.
func (w *lockflow) flow(f *ssa.Function, entry lockset, record bool, call func(g *ssa.Function, held lockset)) {
	if len(f.Blocks) == 0 {
		return
	}
	in := map[*ssa.BasicBlock]lockset{f.Blocks[0]: entry}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	deferred := lockset{}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if d, ok := i.(*ssa.Defer); ok {
				if k, n := lockCall(d.Common()); n < 0 {
					deferred[k] = true
				}
				if g := target(d.Common()); g != nil {
					for k := range w.drop[g] {
						deferred[k] = true
					}
				}
			}
		}
	}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		held := lockset{}
		for k := range in[b] {
			held[k] = true
		}
		for _, i := range b.Instrs {
			c := lockset{}
			for k := range held {
				c[k] = true
			}
			w.before[i] = c
			switch i := i.(type) {
			case *ssa.RunDefers:
				for k := range deferred {
					delete(held, k)
				}
			case *ssa.Defer:
				if call != nil {
					if g := target(i.Common()); g != nil {
						call(g, lockset{})
					}
				}
			case *ssa.Call:
				k, d := lockCall(i.Common())
				switch {
				case d > 0 && k != "":
					held[k] = true
				case d < 0:
					if k == "" {
						break
					}
					delete(held, k)
				}
				if call != nil {
					for _, a := range i.Common().Args {
						if g := funcOf(a); g != nil && w.callsOnly(i, a) {
							h := c
							if t := target(i.Common()); t != nil {
								h = w.insideCall(t, a, i, c)
							}
							call(g, h)
						}
					}
				}
				if g := target(i.Common()); g != nil {
					if call != nil {
						call(g, c)
					}
					for k := range w.drop[g] {
						delete(held, k)
					}
					for k := range w.gain[g] {
						held[k] = true
					}
				}
			}
		}
		for _, s := range b.Succs {
			o, ok := in[s]
			n := held
			if ok {
				n = o.meet(held)
				if n.equal(o) {
					continue
				}
			}
			in[s] = n
			work = append(work, s)
		}
	}
}

// insideCall: the locks held where t calls its function argument a.
func (w *lockflow) insideCall(t *ssa.Function, a ssa.Value, ci *ssa.Call, held lockset) lockset {
	var r lockset
	w.flow(t, held, false, nil)
	for i, x := range ci.Common().Args {
		if x != a || i >= len(t.Params) {
			continue
		}
		for _, u := range *t.Params[i].Referrers() {
			if c, ok := u.(*ssa.Call); ok {
				h := w.before[c]
				if h == nil {
					h = lockset{}
				}
				if r == nil {
					r = h
				} else {
					r = r.meet(h)
				}
			}
		}
	}
	if r == nil {
		r = lockset{}
	}
	return r
}

// addrAccesses follows an address to the memory accesses made through it.
func (w *lockflow) addrAccesses(fn *ssa.Function, in ssa.Instruction, v ssa.Value, seen map[ssa.Instruction]bool) []access {
	if seen[in] {
		return nil
	}
	seen[in] = true
	a := access{fn: fn, pos: in.Pos(), in: in}
	follow := func(x ssa.Value) (out []access) {
		for _, r := range *x.Referrers() {
			out = append(out, w.addrAccesses(fn, r, x, seen)...)
		}
		return
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Convert, *ssa.ChangeType, *ssa.Phi:
		if x, ok := in.(*ssa.IndexAddr); ok && x.X != v {
			return nil
		}
		return follow(in.(ssa.Value))
	case *ssa.UnOp:
		if in.Op == token.MUL {
			a.what = "a plain read"
			out := []access{a}
			// changes to what a map variable holds
			if _, ok := in.Type().Underlying().(*types.Map); ok {
				for _, r := range *in.Referrers() {
					if u, ok := r.(*ssa.MapUpdate); ok && u.Map == ssa.Value(in) {
						out = append(out, access{fn: fn, pos: u.Pos(), in: u, write: true, what: "a change of the map it holds"})
					}
					if u, ok := r.(*ssa.Call); ok {
						if bi, ok := u.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
							out = append(out, access{fn: fn, pos: u.Pos(), in: u, write: true, what: "a change of the map it holds"})
						}
					}
				}
			}
			return out
		}
	case *ssa.Store:
		if in.Addr == v {
			a.write, a.what = true, "a plain write"
			return []access{a}
		}
		a.what = "its address being stored"
		a.write = true
		return []access{a}
	case ssa.CallInstruction:
		com := in.Common()
		f := com.StaticCallee()
		if f == nil {
			break
		}
		nm := f.String()
		if o, ok := f.Object().(*types.Func); ok {
			nm = o.FullName()
		}
		if f.Origin() != nil {
			nm = f.Origin().String()
		}
		if strings.HasPrefix(nm, "sync/atomic.") || strings.HasPrefix(nm, "(*sync/atomic.") {
			a.atomic = nm[strings.LastIndexByte(nm, '.')+1:]
			a.what = "atomic " + a.atomic
			a.write = !strings.HasPrefix(a.atomic, "Load")
			return []access{a}
		}
		if f.Pkg != nil && f.Pkg.Pkg.Path() == "sync" {
			return nil // a lock, once or the like in a structure
		}
		if len(f.Blocks) > 0 {
			var out []access
			for i, x := range com.Args {
				if x == v && i < len(f.Params) {
					for _, r := range *f.Params[i].Referrers() {
						for _, y := range w.addrAccesses(f, r, f.Params[i], seen) {
							out = append(out, y)
						}
					}
				}
			}
			return out
		}
		a.what = "its address being passed to " + nm
		// flags are set while the command line is parsed, at startup
		a.write = !(f.Pkg != nil && f.Pkg.Pkg.Path() == "flag")
		return []access{a}
	case *ssa.MakeClosure:
		f := in.Fn.(*ssa.Function)
		var out []access
		for i, x := range in.Bindings {
			if x == v {
				for _, r := range *f.FreeVars[i].Referrers() {
					out = append(out, w.addrAccesses(f, r, f.FreeVars[i], seen)...)
				}
			}
		}
		return out
	case *ssa.BinOp:
		return nil
	}
	a.what, a.write = "its address being used in "+in.String(), true
	return []access{a}
}

// syncType: a type that needs no lock of its own.
func syncType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	return p == "sync" || p == "sync/atomic"
}

func (c *Ctx) shared() {
	fns := ai.AllFunctions(c.P)
	w := newLockflow(fns)
	locks := func(in ssa.Instruction) lockset {
		if l := w.before[in]; l != nil {
			return l
		}
		return lockset{}
	}
	globs := map[*ssa.Global][]access{}
	fields := map[*types.Var][]access{}
	owner := map[*types.Var]types.Type{}
	fresh := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.Alloc:
				return true
			case *ssa.FieldAddr:
				v = x.X
				continue
			case *ssa.IndexAddr:
				v = x.X
				continue
			}
			return false
		}
	}
	for _, f := range w.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && g.Object() != nil {
						globs[g] = append(globs[g], w.addrAccesses(f, in, g, map[ssa.Instruction]bool{})...)
					}
				}
				if fa, ok := in.(*ssa.FieldAddr); ok {
					st := fa.X.Type().Underlying().(*types.Pointer).Elem()
					fv := st.Underlying().(*types.Struct).Field(fa.Field)
					if _, nested := fv.Type().Underlying().(*types.Struct); nested || syncType(fv.Type()) {
						continue // the fields inside count
					}
					owner[fv] = st
					fr := fresh(fa.X)
					for _, r := range *fa.Referrers() {
						for _, a := range w.addrAccesses(f, r, fa, map[ssa.Instruction]bool{}) {
							if fr && a.fn == f && a.atomic == "" {
								continue // not shared yet
							}
							fields[fv] = append(fields[fv], a)
						}
					}
				}
			}
		}
	}
	sizes := types.SizesFor("gc", "386")
	var gs []*ssa.Global
	for g := range globs {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, g := range gs {
		t := g.Type().(*types.Pointer).Elem()
		if syncType(t) {
			continue
		}
		name := short(g.String())
		var as []access
		written, at := false, 0
		for _, a := range globs[g] {
			if w.inits[a.fn] {
				continue
			}
			if a.atomic != "" {
				at++
			}
			as = append(as, a)
			written = written || a.write
		}
		if !written {
			continue
		}
		if at > 0 {
			for _, a := range as {
				c.check(a.atomic != "", a.pos, "atomic", name, "a variable that is accessed atomically elsewhere is accessed by %s", a.what)
			}
			continue
		}
		var held lockset
		for _, a := range as {
			l := locks(a.in)
			if held == nil {
				held = l
			} else {
				held = held.meet(l)
			}
		}
		worst := as[0]
		for _, a := range as {
			if len(locks(a.in)) == 0 {
				worst = a
				break
			}
		}
		c.check(len(held) > 0, worst.pos, "guarded", name, "a package-level variable that changes after initialisation is accessed by %s in %s neither atomically nor under a lock common to all its accesses", worst.what, short(worst.fn.String()))
	}
	var fvs []*types.Var
	for v := range fields {
		fvs = append(fvs, v)
	}
	sort.Slice(fvs, func(i, j int) bool { return fvs[i].Pos() < fvs[j].Pos() })
	for _, v := range fvs {
		at := 0
		for _, a := range fields[v] {
			if a.atomic != "" {
				at++
			}
		}
		if at == 0 {
			continue
		}
		name := short(types.TypeString(owner[v], nil)) + "." + v.Name()
		for _, a := range fields[v] {
			c.check(a.atomic != "", a.pos, "atomic", name, "a field that is accessed atomically elsewhere is accessed by %s in %s", a.what, short(a.fn.String()))
		}
	}
	// alignment
	for _, f := range w.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := ci.Common().StaticCallee()
				if callee == nil || callee.Object() == nil || callee.Object().Pkg() == nil || callee.Object().Pkg().Path() != "sync/atomic" || len(ci.Common().Args) == 0 {
					continue
				}
				if callee.Signature.Recv() != nil {
					c.check(true, in.Pos(), "aligned", short(f.String()), "")
					continue
				}
				p, ok := ci.Common().Args[0].Type().Underlying().(*types.Pointer)
				if !ok {
					continue
				}
				if bt, ok := p.Elem().Underlying().(*types.Basic); !ok || bt.Kind() != types.Int64 && bt.Kind() != types.Uint64 {
					c.check(true, in.Pos(), "aligned", short(f.String()), "")
					continue
				}
				off, root, ok := c.offset386(ci.Common().Args[0], sizes)
				c.check(ok && off%8 == 0, in.Pos(), "aligned", short(f.String()), "on 32-bit platforms the 64-bit variable used in %s is not certain to be aligned (offset %d in %s): the operation would crash", callee.Name(), off, root)
			}
		}
	}
}

// offset386 is the offset of an address within the variable or allocated
// object it is part of, on 386.
func (c *Ctx) offset386(v ssa.Value, sizes types.Sizes) (int64, string, bool) {
	switch v := v.(type) {
	case *ssa.Global:
		return 0, v.String(), true
	case *ssa.Alloc:
		return 0, "a local variable", v.Heap
	case *ssa.FieldAddr:
		st := v.X.Type().Underlying().(*types.Pointer).Elem()
		s := st.Underlying().(*types.Struct)
		var fs []*types.Var
		for i := 0; i <= v.Field; i++ {
			fs = append(fs, s.Field(i))
		}
		o := sizes.Offsetsof(fs)[v.Field]
		switch x := v.X.(type) {
		case *ssa.FieldAddr, *ssa.Global, *ssa.Alloc, *ssa.IndexAddr:
			b, r, ok := c.offset386(x, sizes)
			return b + o, r, ok
		}
		// a pointer from elsewhere: the struct must never be part of anything
		// that would misalign it
		return o, short(types.TypeString(st, nil)), c.standalone(st, sizes)
	case *ssa.IndexAddr:
		switch t := v.X.Type().Underlying().(type) {
		case *types.Slice:
			n := sizes.Sizeof(t.Elem())
			return 0, "a slice", n%8 == 0
		case *types.Pointer:
			n := sizes.Sizeof(t.Elem().Underlying().(*types.Array).Elem())
			b, r, ok := c.offset386(v.X, sizes)
			return b, r, ok && n%8 == 0
		}
	case *ssa.Parameter, *ssa.FreeVar:
		return c.offsetCallers(v, sizes)
	}
	return 0, v.String(), false
}

// offsetCallers looks at what the callers pass.
func (c *Ctx) offsetCallers(v ssa.Value, sizes types.Sizes) (int64, string, bool) {
	fn := v.Parent()
	if fn.Object() != nil && fn.Object().Exported() {
		return 0, v.String(), false
	}
	n := 0
	for g := range ai.AllFunctions(c.P) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
					for i, fv := range fn.FreeVars {
						if ssa.Value(fv) == v {
							n++
							if o, r, ok := c.offset386(mc.Bindings[i], sizes); !ok || o%8 != 0 {
								return o, r, false
							}
						}
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == fn {
					for i, p := range fn.Params {
						if ssa.Value(p) == v {
							n++
							if o, r, ok := c.offset386(ci.Common().Args[i], sizes); !ok || o%8 != 0 {
								return o, r, false
							}
						}
					}
				}
			}
		}
	}
	return 0, "what the callers pass", n > 0
}

// standalone: values of the struct type are only ever whole objects, or parts
// at aligned offsets.
func (c *Ctx) standalone(t types.Type, sizes types.Sizes) bool {
	ok := true
	seen := map[types.Type]bool{}
	var visit func(x types.Type)
	part := func(x types.Type) bool { return types.Identical(x, t) }
	visit = func(x types.Type) {
		if seen[x] {
			return
		}
		seen[x] = true
		switch u := x.Underlying().(type) {
		case *types.Struct:
			var fs []*types.Var
			for i := 0; i < u.NumFields(); i++ {
				fs = append(fs, u.Field(i))
			}
			if len(fs) == 0 {
				return
			}
			off := sizes.Offsetsof(fs)
			for i, f := range fs {
				if part(f.Type()) && off[i]%8 != 0 {
					ok = false
				}
				if part(f.Type()) && !types.Identical(x, t) && !c.standalone(x, sizes) {
					ok = false
				}
				visit(f.Type())
			}
		case *types.Slice:
			if part(u.Elem()) && sizes.Sizeof(u.Elem())%8 != 0 {
				ok = false
			}
			visit(u.Elem())
		case *types.Array:
			if part(u.Elem()) && sizes.Sizeof(u.Elem())%8 != 0 {
				ok = false
			}
			visit(u.Elem())
		}
	}
	for _, path := range c.P.Order {
		sc := c.P.Pkgs[path].Types.Scope()
		for _, n := range sc.Names() {
			visit(sc.Lookup(n).Type())
		}
		for _, d := range c.P.Pkgs[path].Info.Defs {
			if v, isVar := d.(*types.Var); isVar {
				visit(v.Type())
			}
		}
	}
	return ok
}

func runC42(c *Ctx) {
	c.shared()
	// the published automaton
	sub := *c
	sub.Oblig, sub.Findings, sub.Samples, sub.seen = map[string]int{}, nil, nil, map[string]bool{}
	sub.M = c.M.Sub()
	runC07(&sub)
	c.Oblig["automaton"] += sub.Oblig["atomic"]
	for _, f := range sub.Findings {
		if f.Rule == "atomic" || f.Rule == "anchor" || f.Rule == "undecided" {
			if !c.seen[f.Key()+f.Pos] {
				c.seen[f.Key()+f.Pos] = true
				c.Findings = append(c.Findings, f)
			}
		}
	}
	// the connection counter
	l := newLsn(c, "Automatic")
	l.explore()
	c.Entries = append(c.Entries, sub.Entries...)
}

func init() {
	register(&Rule{Prop: "C42", Technique: "who-accesses query over the SSA of every package (atomic or lock-guarded, with an interprocedural must-hold lockset), layout computation for 386, and interval reasoning on the shard index",
		Explain: "every package-level variable written outside initialisation must be accessed only by atomic operations or always under one common lock; every field accessed atomically anywhere must be accessed only so unless its object is still private; every operand of a 64-bit atomic operation must lie at a multiple of 8 in its object under the 386 layout; the automaton pointer may only be accessed atomically on any path of the mux's methods; Accept's shard index must be within the list for every value of the counter, and Wrap must make at least one shard",
		Min:     map[string]int{"atomic": 3, "aligned": 2, "guarded": 3, "automaton": 10, "shards": 1, "index": 1}, Run: runC42})
}
