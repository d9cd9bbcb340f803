package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"gojicheck/load"

	"golang.org/x/tools/go/ssa"
)

// doCall analyses one call instruction (or deferred call).
func (m *Machine) doCall(fr *frame, st *State, env map[ssa.Value]*Term, cc *ssa.CallCommon, site string, pos token.Pos, isDefer bool, d *deferred) []Outcome {
	var args []*Term
	var fun *Term
	if d != nil {
		args, fun = d.args, d.fun
	} else {
		for _, a := range cc.Args {
			args = append(args, m.val(fr, env, a))
		}
		if cc.IsInvoke() {
			fun = m.val(fr, env, cc.Value)
		} else if _, ok := cc.Value.(*ssa.Builtin); !ok {
			if cc.StaticCallee() == nil {
				fun = m.val(fr, env, cc.Value)
			} else if _, ok := cc.Value.(*ssa.MakeClosure); ok {
				fun = m.val(fr, env, cc.Value)
			}
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		return m.builtin(fr, st, b, cc, args, site, pos)
	}
	c := &CallCtx{Args: args, Sig: cc.Signature(), Pos: pos, In: fr.fn, Site: site, Defer: isDefer}
	if cc.IsInvoke() {
		return m.invoke(fr, st, fun, cc.Method, c)
	}
	if fn := cc.StaticCallee(); fn != nil && fun == nil {
		return m.static(fr, st, fn, nil, c)
	}
	return m.callValue(fr, st, fun, c)
}

// callValue calls a function value.
func (m *Machine) callValue(fr *frame, st *State, fun *Term, c *CallCtx) []Outcome {
	switch fun.Op {
	case "fn":
		return m.static(fr, st, fun.X.(*ssa.Function), nil, c)
	case "clo":
		return m.static(fr, st, fun.X.(*ssa.Function), fun.Args, c)
	}
	if st.Decide(Eq(fun, Nil())) == 1 {
		m.emit(st, &Event{Kind: "nilcall", Args: []*Term{fun}, Pos: c.Pos, Fn: c.In.String(), Site: c.Site})
		return []Outcome{{Kind: Panic, Pan: Sym("nonnil:panic:nilcall:"+c.Site, nil), St: st}}
	}
	c.Kind, c.Fun = "dyn", fun
	return m.opaque(fr, st, c)
}

func (m *Machine) inModuleFn(fn *ssa.Function) bool { return len(fn.Blocks) > 0 }

func (m *Machine) static(fr *frame, st *State, fn *ssa.Function, free []*Term, c *CallCtx) []Outcome {
	if m.inModuleFn(fn) {
		if !m.InlineRecursive && m.recursive(fn) && m.effectFree(fn) {
			c.Kind, c.Name, c.Callee = "call", fn.String(), fn
			if o, ok := fn.Object().(*types.Func); ok {
				c.Fn, c.Name = o, o.FullName()
			}
			m.Opaques["summary "+c.Name]++
			res := m.Results(st, c)
			m.emit(st, c.Event(res))
			return []Outcome{{Kind: Ret, St: st, Vals: res}}
		}
		if !(m.NoInline != nil && m.NoInline(fn)) && !fr.onStack(fn) && fr.depth < 60 {
			return m.call(fr, fn, c.Args, free, st, c.Site, c.Defer)
		}
		if fr.onStack(fn) {
			m.Opaques["recursion:"+fn.String()]++
		}
		c.Kind, c.Name, c.Callee = "call", fn.String(), fn
		if o, ok := fn.Object().(*types.Func); ok {
			c.Fn, c.Name = o, o.FullName()
		}
		return m.opaque(fr, st, c)
	}
	c.Kind, c.Name, c.Callee = "call", fn.String(), fn
	if o, ok := fn.Object().(*types.Func); ok {
		c.Fn, c.Name = o, o.FullName()
	}
	if len(free) > 0 {
		c.Args = append(append([]*Term{}, free...), c.Args...)
	}
	return m.opaque(fr, st, c)
}

// invoke calls an interface method.
func (m *Machine) invoke(fr *frame, st *State, recv *Term, meth *types.Func, c *CallCtx) []Outcome {
	r := recv
	if r.Op != "ifc" {
		// a known dynamic type
		for _, id := range sortedKeys(st.lits) {
			t := termByID(id)
			if st.lits[id] && t.Op == "is" && t.Args[0] == r && !types.IsInterface(t.Typ) && m.moduleType(t.Typ) {
				r = IfcT(t.Typ, TA(t.Typ, r))
				break
			}
		}
	}
	if r.Op == "ifc" {
		fn := m.Prog.LookupMethod(r.Typ, meth.Pkg(), meth.Name())
		if fn != nil && len(fn.Blocks) > 0 {
			c2 := *c
			c2.Args = append([]*Term{r.Args[0]}, c.Args...)
			return m.static(fr, st, fn, nil, &c2)
		}
		if fn != nil {
			c2 := *c
			c2.Args = append([]*Term{r.Args[0]}, c.Args...)
			c2.Kind, c2.Name, c2.Recv = "call", fn.String(), r
			if o, ok := fn.Object().(*types.Func); ok {
				c2.Fn, c2.Name = o, o.FullName()
			}
			return m.opaque(fr, st, &c2)
		}
	}
	if st.Decide(Eq(r, Nil())) == 1 {
		m.emit(st, &Event{Kind: "nilcall", Name: meth.FullName(), Args: []*Term{r}, Pos: c.Pos, Fn: c.In.String(), Site: c.Site})
		return []Outcome{{Kind: Panic, Pan: Sym("nonnil:panic:nilinvoke:"+c.Site, nil), St: st}}
	}
	c.Kind, c.Name, c.Fn, c.Recv = "invoke", meth.FullName(), meth, r
	return m.opaque(fr, st, c)
}

func (m *Machine) moduleType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && m.P.Pkgs[n.Obj().Pkg().Path()] != nil
}

// Invoke analyses a method call on an interface value, from a rule.
func (m *Machine) Invoke(st *State, recv *Term, meth *types.Func, args []*Term) []Outcome {
	return m.invoke(rootFrame, st.Copy(), recv, meth, &CallCtx{Args: args, Sig: meth.Type().(*types.Signature), In: rootFrame.fn, Site: "rule"})
}

var rootFrame = &frame{fn: &ssa.Function{Signature: types.NewSignatureType(nil, nil, nil, nil, nil, false)}}

// CallEvent builds the event for a call leaving the analysed code.
func (c *CallCtx) Event(res []*Term) *Event {
	e := &Event{Kind: c.Kind, Name: c.Name, Res: res, Pos: c.Pos, Fn: c.In.String(), Site: c.Site, Call: c, Defer: c.Defer}
	switch c.Kind {
	case "invoke":
		e.Args = append([]*Term{c.Recv}, c.Args...)
	case "dyn":
		e.Args = append([]*Term{c.Fun}, c.Args...)
	default:
		e.Args = c.Args
	}
	return e
}

// Results makes fresh result values.
func (m *Machine) Results(st *State, c *CallCtx) []*Term {
	var vs []*Term
	rs := c.Sig.Results()
	nm := c.Name
	if nm == "" {
		nm = "dyn"
	}
	for i := 0; i < rs.Len(); i++ {
		s := "r:" + nm + "@" + c.Site
		if rs.Len() > 1 {
			s += "." + string(rune('0'+i))
		}
		vs = append(vs, st.Fresh(s, rs.At(i).Type()))
	}
	return vs
}

// Emit records the event of a call.
func (m *Machine) Emit(st *State, e *Event) { m.emit(st, e) }

// Escape and HavocAll are the effect of unknown code that got the given values.
func (m *Machine) Escape(st *State, vs ...*Term) { m.escape(st, vs...) }

func (m *Machine) opaque(fr *frame, st *State, c *CallCtx) []Outcome {
	m.Opaques[c.Kind+" "+c.Name]++
	if m.Opaque != nil {
		if outs, ok := m.Opaque(m, st, c); ok {
			return outs
		}
	}
	if f := models[c.Name]; f != nil {
		if outs := f(m, fr, st, c); outs != nil {
			return outs
		}
	}
	if c.Kind == "call" || c.Kind == "invoke" {
		if pure[c.Name] {
			return []Outcome{{Kind: Ret, St: st, Vals: m.pureResults(st, c)}}
		}
		if benign[c.Name] || c.Fn != nil && c.Fn.Name() == "init" {
			return m.BenignCall(st, c)
		}
	}
	return m.DefaultCall(st, c)
}

// BenignCall is a library call that does not touch memory of the program
// other than objects passed directly.
func (m *Machine) BenignCall(st *State, c *CallCtx) []Outcome {
	res := m.Results(st, c)
	m.emit(st, c.Event(res))
	for _, a := range c.Event(nil).Args {
		if a.Op == "ifc" {
			a = a.Args[0]
		}
		if a.Op == "obj" && !benignNoWrite[c.Name] {
			m.HavocRoot(st, a, c.Site)
		}
	}
	return []Outcome{{Kind: Ret, St: st, Vals: res}}
}

// DefaultCall is a call of unknown code.
func (m *Machine) DefaultCall(st *State, c *CallCtx) []Outcome {
	res := m.Results(st, c)
	ev := c.Event(res)
	m.emit(st, ev)
	m.escape(st, ev.Args...)
	m.Havoc(st, c.Site)
	if m.UserPanics && (c.Kind == "dyn" || c.Kind == "invoke") {
		p := st.Copy()
		pv := Sym("nonnil:panic@"+p.freshName("p@"+c.Site), nil)
		m.emit(p, &Event{Kind: "userpanic", Name: c.Name, Args: []*Term{pv}, Pos: c.Pos, Fn: c.In.String(), Site: c.Site})
		return []Outcome{{Kind: Ret, St: st, Vals: res}, {Kind: Panic, Pan: pv, St: p}}
	}
	return []Outcome{{Kind: Ret, St: st, Vals: res}}
}

func (m *Machine) pureResults(st *State, c *CallCtx) []*Term {
	args := c.Event(nil).Args
	if c.Sig.Variadic() && len(args) > 0 {
		if vs, ok := m.Elems(st, args[len(args)-1]); ok {
			args = append(append([]*Term{}, args[:len(args)-1]...), vs...)
		}
	}
	rs := c.Sig.Results()
	if rs.Len() == 1 {
		return []*Term{m.fold(c.Name, rs.At(0).Type(), args)}
	}
	var vs []*Term
	for i := 0; i < rs.Len(); i++ {
		vs = append(vs, App(c.Name+"#"+string(rune('0'+i)), rs.At(i).Type(), args...))
	}
	return vs
}

// Elems reads the elements of a slice of known length.
func (m *Machine) Elems(st *State, s *Term) ([]*Term, bool) {
	if s.IsNil() {
		return nil, true
	}
	b, lo, n := SliceParts(s)
	k, ok := n.Int()
	if !ok || k > 32 || s.Typ == nil {
		return nil, false
	}
	sl, ok := s.Typ.Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	var vs []*Term
	for i := int64(0); i < k; i++ {
		vs = append(vs, m.Load(st, IA(b, Add(lo, Int(i)), sl.Elem()), sl.Elem()))
	}
	return vs, true
}

// --- builtins

func (m *Machine) builtin(fr *frame, st *State, b *ssa.Builtin, cc *ssa.CallCommon, args []*Term, site string, pos token.Pos) []Outcome {
	one := func(v *Term) []Outcome { return []Outcome{{Kind: Ret, St: st, Vals: []*Term{v}}} }
	none := []Outcome{{Kind: Ret, St: st}}
	ev := func(kind string, as ...*Term) {
		m.emit(st, &Event{Kind: kind, Args: as, Pos: pos, Fn: fr.fn.String(), Site: site})
	}
	switch b.Name() {
	case "len":
		x := args[0]
		if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			m.mapAccess(fr, st, x, false, pos)
			ms := m.mapState(st, x)
			n, known := int64(0), ms.Base == "empty"
			for _, e := range ms.Entries {
				v, ok := e.Present.Bool()
				if !ok {
					known = false
				} else if v {
					n++
				}
			}
			if known {
				return one(Int(n))
			}
			var k []*Term
			for _, e := range ms.Entries {
				k = append(k, e.Key, e.Present)
			}
			return one(mk("len", "map@"+ms.Base, types.Typ[types.Int], false, nil, nil, append([]*Term{x}, k...)...))
		}
		if p, ok := cc.Args[0].Type().Underlying().(*types.Pointer); ok {
			return one(Int(p.Elem().Underlying().(*types.Array).Len()))
		}
		if a, ok := cc.Args[0].Type().Underlying().(*types.Array); ok {
			return one(Int(a.Len()))
		}
		if _, ok := cc.Args[0].Type().Underlying().(*types.Chan); ok {
			return one(st.Fresh("chanlen:"+site, types.Typ[types.Int]))
		}
		return one(Len(x))
	case "cap":
		return one(App("cap", types.Typ[types.Int], args[0]))
	case "append":
		return one(m.appendSlice(fr, st, cc, args, site, pos))
	case "copy":
		m.copySlice(fr, st, cc, args, site, pos)
		n := Len(args[1])
		if st.Decide(Le(n, Len(args[0]))) == 1 {
			return one(n)
		}
		return one(App("copied", types.Typ[types.Int], Len(args[0]), n))
	case "delete":
		M, k := args[0], args[1]
		m.mapAccess(fr, st, M, true, pos)
		ev("mapdel", M, k)
		if !M.IsNil() {
			vt := cc.Args[0].Type().Underlying().(*types.Map).Elem()
			m.mapPut(st, M, k, False(), Zero(vt))
		}
		return none
	case "clear":
		ev("clear", args[0])
		if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			st.maps[args[0].ID] = &MapState{Base: "empty"}
		} else {
			bk, _, _ := SliceParts(args[0])
			m.HavocRoot(st, bk, site)
		}
		return none
	case "close":
		ev("close", args[0])
		return none
	case "recover":
		if fr.defr && st.PanVal != nil {
			v := st.PanVal
			st.PanVal = nil
			ev("recover", v)
			return one(v)
		}
		return one(Nil())
	case "print", "println":
		return none
	case "min", "max":
		if len(args) == 2 {
			a, c := args[0], args[1]
			if isLinear(a) || isLinear(c) {
				switch st.Decide(Le(a, c)) {
				case 1:
					if b.Name() == "min" {
						return one(a)
					}
					return one(c)
				case -1:
					if b.Name() == "min" {
						return one(c)
					}
					return one(a)
				}
				s2 := st.Copy()
				var outs []Outcome
				lo, hi := a, c
				if b.Name() == "max" {
					lo, hi = c, a
				}
				if st.Assume(Le(a, c), true) {
					outs = append(outs, Outcome{Kind: Ret, St: st, Vals: []*Term{lo}})
				}
				if s2.Assume(Le(a, c), false) {
					outs = append(outs, Outcome{Kind: Ret, St: s2, Vals: []*Term{hi}})
				}
				return outs
			}
		}
		return one(App(b.Name(), cc.Signature().Results().At(0).Type(), args...))
	case "ssa:wrapnilchk":
		return one(args[0])
	}
	m.problem("%s: unsupported builtin %s", m.P.Pos(pos), b.Name())
	if cc.Signature().Results().Len() > 0 {
		return one(st.Fresh("builtin:"+site, cc.Signature().Results().At(0).Type()))
	}
	return none
}

// copyRange appends to the write log of backing dst the copy of n elements.
func (m *Machine) copyRange(st *State, dst, dlo, src, slo, n *Term) {
	if k, ok := n.Int(); ok && k <= 0 {
		return
	}
	ver := len(st.logs[src.ID])
	ep := ""
	if ver == 0 {
		if !st.freshRoot(src.Root()) {
			ep = st.epochOf(src.Root())
			if ep == "" {
				ep = "0"
			}
		}
		// freeze known cells of a fresh backing: copy element-wise when small
		if k, ok := n.Int(); ok && k <= 16 && src.Op == "obj" && dst.Op == "obj" {
			et := elemOfBacking(src)
			if et != nil {
				for i := int64(0); i < k; i++ {
					v := m.Load(st, IA(src, Add(slo, Int(i)), et), et)
					m.logWrite(st, dst, logEntry{Lo: Add(dlo, Int(i)), N: Int(1), Val: v})
				}
				return
			}
		}
	}
	m.logWrite(st, dst, logEntry{Lo: dlo, N: n, Src: src, SrcLo: slo, SrcVer: ver, SrcEp: ep})
}

func elemOfBacking(b *Term) types.Type {
	if b.Op != "obj" || b.Typ == nil {
		return nil
	}
	if a, ok := b.Typ.Underlying().(*types.Array); ok {
		return a.Elem()
	}
	return b.Typ
}

func (m *Machine) appendSlice(fr *frame, st *State, cc *ssa.CallCommon, args []*Term, site string, pos token.Pos) *Term {
	dst := args[0]
	typ := cc.Args[0].Type()
	if len(args) < 2 {
		return dst
	}
	src := args[1]
	et := typ.Underlying().(*types.Slice).Elem()
	if st.Decide(Eq(dst, Nil())) == 1 {
		dst = Nil()
	}
	db, dlo, dn := SliceParts(dst)
	sn := Len(src)
	ev := &Event{Kind: "append", Args: []*Term{dst, src}, Pos: pos, Fn: fr.fn.String(), Site: site}
	if k, ok := sn.Int(); ok && k == 0 {
		ev.Res = []*Term{dst}
		m.emit(st, ev)
		return dst
	}
	nb := st.NewObj(site+":append", et)
	res := SlT(nb, Int(0), Add(dn, sn), typ)
	ev.Res = []*Term{res}
	m.emit(st, ev)
	if m.OnAccess != nil && !dst.IsNil() {
		m.access(fr, st, IA(db, Add(dlo, dn), et), true, et, pos)
	}
	if !dst.IsNil() {
		m.copyRange(st, nb, Int(0), db, dlo, dn)
	}
	if isStringTerm(src) {
		m.logWrite(st, nb, logEntry{Lo: dn, N: sn, Junk: true, JunkID: "str" + src.String()})
	} else {
		sb, slo, _ := SliceParts(src)
		m.copyRange(st, nb, dn, sb, slo, sn)
	}
	// The append may also have written behind the end of the old backing.
	if !dst.IsNil() && !tight(dst) {
		m.logWrite(st, db, logEntry{Lo: Add(dlo, dn), N: sn, Junk: true, JunkID: st.freshName("app@" + site)})
	}
	if m.OnAppend != nil && m.noAccess == 0 {
		m.OnAppend(st, dst, src, nb, pos)
	}
	return res
}

// tight reports whether nothing visible lies behind the end of slice x: it is a
// value whose backing is only known through x itself.
func tight(x *Term) bool { return x.Op != "sl" }

func (m *Machine) copySlice(fr *frame, st *State, cc *ssa.CallCommon, args []*Term, site string, pos token.Pos) {
	dst, src := args[0], args[1]
	m.emit(st, &Event{Kind: "copy", Args: []*Term{dst, src}, Pos: pos, Fn: fr.fn.String(), Site: site})
	db, dlo, dn := SliceParts(dst)
	et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	if m.OnAccess != nil && !dst.IsNil() {
		m.access(fr, st, IA(db, dlo, et), true, et, pos)
	}
	sn := Len(src)
	n := sn
	switch {
	case st.Decide(Le(sn, dn)) == 1:
	case st.Decide(Le(dn, sn)) == 1:
		n = dn
	default:
		n = App("copied", types.Typ[types.Int], dn, sn)
	}
	if isStringTerm(src) {
		m.logWrite(st, db, logEntry{Lo: dlo, N: n, Junk: true, JunkID: "str" + src.String()})
		return
	}
	sb, slo, _ := SliceParts(src)
	m.copyRange(st, db, dlo, sb, slo, n)
}

// --- globals

func (m *Machine) inModule(g *Term) bool {
	x := g.X.(*ssa.Global)
	return x.Pkg != nil && m.P.Pkgs[x.Pkg.Pkg.Path()] != nil
}

// initGlobals analyses the package initialisers and finds the globals whose
// value never changes afterwards.
func (m *Machine) initGlobals() {
	m.mutable = map[*ssa.Global]bool{}
	m.globals = map[*ssa.Global]*Term{}
	contentMut := map[*ssa.Global]bool{}
	for fn := range AllFunctions(m.P) {
		isInit := fn.Synthetic == "package initializer" || fn.Parent() == nil && strings.HasPrefix(fn.Name(), "init#")
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					g, ok := (*o).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						if x.Op == token.MUL {
							if !onlyRead(x, 0) {
								contentMut[g] = true
							}
							continue
						}
					case *ssa.Store:
						if x.Addr == g && x.Val != g && isInit {
							continue
						}
					case *ssa.FieldAddr, *ssa.IndexAddr:
						if addrOnlyRead(in.(ssa.Value), isInit, 0) {
							continue
						}
					}
					m.mutable[g] = true
				}
			}
		}
	}
	for _, path := range m.P.Order {
		for _, mem := range m.P.Pkgs[path].SSA.Members {
			// users of the package may assign exported variables
			if g, ok := mem.(*ssa.Global); ok && token.IsExported(g.Name()) {
				m.mutable[g] = true
			}
		}
	}
	st := NewState()
	sub := &Machine{Stat: &Stats{}, eff: newEffects(), P: m.P, Prog: m.Prog, Funcs: map[*ssa.Function]int{}, Opaques: map[string]int{}, fi: m.fi, frozenO: m.frozenO, MergeLimit: m.MergeLimit, mutable: map[*ssa.Global]bool{}, globals: map[*ssa.Global]*Term{}, initMode: true}
	sub.Keep = func(*Event) bool { return false }
	sub.Stable = func(s *State, a *Term) bool { return true }
	for _, path := range m.P.Order {
		f := m.P.Pkgs[path].SSA.Func("init")
		if f == nil || len(f.Blocks) == 0 {
			continue
		}
		var next *State
		for _, o := range sub.call(nil, f, nil, nil, st, "init", false) {
			if o.Kind != Ret {
				continue
			}
			if next == nil {
				next = o.St
			} else {
				next = sub.joinInit(next, o.St)
			}
		}
		if next == nil {
			m.problem("initialisation of %s has no normal outcome", path)
			return
		}
		st = next
	}
	for _, q := range sub.Problems {
		m.problem("%s", q)
	}
	st.lits, st.zone, st.trace = map[int]bool{}, nil, nil
	states := []*State{st}
	m.initStates = states
	m.contentMut = contentMut
	m.immState = nil
	m.immState = states[0]
	for _, path := range m.P.Order {
		for _, mem := range m.P.Pkgs[path].SSA.Members {
			g, ok := mem.(*ssa.Global)
			if !ok || m.mutable[g] {
				continue
			}
			v, ok := m.immCell(GlobT(g), g.Type().(*types.Pointer).Elem())
			if ok {
				m.globals[g] = v
			}
		}
	}
}

// joinInit merges two outcomes of an initialiser.
func (m *Machine) joinInit(a, b *State) *State {
	r := a.Copy()
	for _, id := range sortedKeys(a.cells) {
		if b.cells[id] != a.cells[id] {
			t := termByID(id)
			r.cells[id] = Sym(fmt.Sprintf("initvaries%d", id), pointee(t))
		}
	}
	for _, id := range sortedKeys(b.cells) {
		if a.cells[id] == nil {
			r.cells[id] = Sym(fmt.Sprintf("initvaries%d", id), pointee(termByID(id)))
		}
	}
	for id, ms := range a.maps {
		if b.maps[id] == nil || !sameMap(ms, b.maps[id]) {
			r.maps[id] = &MapState{Base: fmt.Sprintf("einit%d", id)}
		}
	}
	for id, ms := range b.maps {
		if a.maps[id] == nil {
			r.maps[id] = ms
		}
	}
	for id, l := range a.logs {
		if logKey(l) != logKey(b.logs[id]) {
			r.logs[id] = append(l[:len(l):len(l)], logEntry{Junk: true, JunkID: "init"})
		}
	}
	for id, l := range b.logs {
		if a.logs[id] == nil {
			r.logs[id] = append(l[:len(l):len(l)], logEntry{Junk: true, JunkID: "init"})
		}
	}
	for id := range b.objs {
		r.objs[id] = true
	}
	r.lits, r.zone, r.trace = map[int]bool{}, nil, nil
	return r
}

// immCell reads a cell after initialisation, if all outcomes agree.
func (m *Machine) immCell(a *Term, typ types.Type) (*Term, bool) {
	if m.initTrunc {
		return nil, false
	}
	var v *Term
	for _, s := range m.initStates {
		c, ok := s.cells[a.ID]
		if !ok {
			if !isLeaf(typ) {
				return nil, false
			}
			c = Zero(typ)
		}
		if v != nil && v != c {
			return nil, false
		}
		v = c
	}
	return v, v != nil
}

// onlyRead reports whether a loaded global value is only used in ways that
// cannot modify what it refers to.
func onlyRead(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch v.Type().Underlying().(type) {
	case *types.Basic, *types.Signature:
		return true
	}
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
			if l, ok := r.(*ssa.Lookup); ok && l.Index == v {
				return false
			}
		case *ssa.IndexAddr:
			if !addrOnlyRead(x, false, d+1) {
				return false
			}
		case *ssa.BinOp:
		case *ssa.Phi, *ssa.Slice:
			if !onlyRead(r.(ssa.Value), d+1) {
				return false
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				continue
			}
			return false
		default:
			return false
		}
	}
	return true
}

func addrOnlyRead(v ssa.Value, initOK bool, d int) bool {
	if d > 6 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
		case *ssa.Store:
			if !(initOK && x.Addr == v) {
				return false
			}
		case *ssa.FieldAddr, *ssa.IndexAddr:
			if !addrOnlyRead(r.(ssa.Value), initOK, d+1) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// immutableGlobal returns the constant content of a cell of a global, or nil.
func (m *Machine) immutableGlobal(r, addr *Term, typ types.Type) *Term {
	g := r.X.(*ssa.Global)
	if m.initMode {
		if m.inModule(r) {
			return Zero(typ)
		}
		return nil
	}
	if m.mutable[g] || !m.inModule(r) || m.immState == nil {
		return nil
	}
	if addr == r {
		if v := m.globals[g]; v != nil {
			return v
		}
		return nil
	}
	v, ok := m.immCell(addr, typ)
	if !ok {
		return nil
	}
	if b, _, _ := elemPath(addr); b != nil {
		return nil
	}
	return v
}

// immutableContent reports whether object o is only reachable from a global
// whose content is never modified.
func (m *Machine) immutableContent(o *Term) bool {
	if m.immObjs == nil {
		m.immObjs = map[int]bool{}
		for g, v := range m.globals {
			if m.contentMut[g] {
				continue
			}
			b, _, _ := SliceParts(v)
			if b.Op == "obj" {
				m.immObjs[b.ID] = true
			}
		}
	}
	return m.immObjs[o.ID]
}

// immutableMap is the content of a never-modified map made at initialisation.
func (m *Machine) immutableMap(M *Term) *MapState {
	if m.initMode || M.Op != "obj" || m.immState == nil || len(m.initStates) != 1 && m.initTrunc {
		return nil
	}
	if !m.immutableContent(M) {
		return nil
	}
	return m.immState.maps[M.ID]
}

// globalOutOfReach reports whether unknown code cannot change a global.
func (m *Machine) globalOutOfReach(r *Term) bool {
	return !m.mutable[r.X.(*ssa.Global)]
}

// InitState is the state after package initialisation (first outcome).
func (m *Machine) InitStates() []*State { return m.initStates }

// GlobalValue is the constant value of a never-modified global, or nil.
func (m *Machine) GlobalValue(g *ssa.Global) *Term { return m.globals[g] }

// Mutable reports whether a global is modified after initialisation.
func (m *Machine) Mutable(g *ssa.Global) bool { return m.mutable[g] }

// frozen reports whether an object's content cannot be changed by unknown code
// even though it has escaped.
func (m *Machine) frozen(o *Term) bool { return m.frozenO[o.S] }

// boxFrozen reports whether the variable box is only ever written by the
// function declaring it.
func (m *Machine) boxFrozen(a *ssa.Alloc) bool {
	if !a.Heap {
		return false
	}
	switch a.Type().(*types.Pointer).Elem().Underlying().(type) {
	case *types.Struct, *types.Array:
		return false
	}
	if a.Referrers() == nil {
		return false
	}
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Val == a {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == a && !freeOnlyRead(fn.FreeVars[i], 0) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func freeOnlyRead(v *ssa.FreeVar, d int) bool {
	if d > 5 || v.Referrers() == nil {
		return d <= 5
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v && !freeOnlyRead(fn.FreeVars[i], d+1) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// AllFunctions lists every function with a body in the program's packages,
// including methods, wrappers and closures.
func AllFunctions(p *load.Program) map[*ssa.Function]bool {
	set := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || set[f] || len(f.Blocks) == 0 {
			return
		}
		set[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, path := range p.Order {
		sp := p.Pkgs[path].SSA
		for _, mem := range sp.Members {
			switch x := mem.(type) {
			case *ssa.Function:
				add(x)
			case *ssa.Type:
				if types.IsInterface(x.Type()) {
					continue
				}
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := p.Prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						add(p.Prog.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
	return set
}
