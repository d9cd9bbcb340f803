package rules

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"gojicheck/ai"

	"golang.org/x/tools/go/ssa"
)

// stackEnv is a mux with an arbitrary middleware stack S and instance cache P.
type stackEnv struct {
	c                  *Ctx
	e                  *mwEnv
	x                  *muxInfo
	mux, ms            *ai.Term
	stackA, poolA, rtA *ai.Term
	stackT, poolT, lT  types.Type
	fnI, origI         int
	fnT, origT         types.Type
	csT                types.Type // a stack instance
	ctxI               int        // its context
	S, P, rt           *ai.Term
}

func (c *Ctx) stack() *stackEnv {
	x := &stackEnv{c: c, e: c.mwEnv(), x: c.mux(), fnI: -1, origI: -1, ctxI: -1}
	x.mux = ai.Sym("mux", ptr(x.x.muxT))
	x.ms = ai.FA(x.mux, x.x.msIdx, x.x.stackT)
	x.stackA, x.stackT = c.fa(x.ms, x.x.stackT, "stack")
	x.poolA, x.poolT = c.fa(x.ms, x.x.stackT, "pool")
	x.rtA, _ = c.fa(x.ms, x.x.stackT, "router")
	sl, ok := x.stackT.Underlying().(*types.Slice)
	if !ok {
		c.must(0, "anchor", "mStack.stack", "not a slice")
	}
	x.lT = sl.Elem()
	ls, ok := x.lT.Underlying().(*types.Struct)
	if !ok {
		c.must(0, "anchor", "mLayer", "not a struct")
	}
	for i := 0; i < ls.NumFields(); i++ {
		switch t := ls.Field(i).Type(); t.Underlying().(type) {
		case *types.Signature:
			x.fnI, x.fnT = i, t
		case *types.Interface:
			x.origI, x.origT = i, t
		}
	}
	if x.fnI < 0 || x.origI < 0 {
		c.must(0, "anchor", "mLayer", "no function and original")
	}
	al := c.meth(ptr(x.x.stackT), "alloc")
	if al.Signature.Results().Len() == 1 {
		if p, ok := al.Signature.Results().At(0).Type().Underlying().(*types.Pointer); ok {
			x.csT = p.Elem()
			if s, ok := x.csT.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if types.Identical(s.Field(i).Type(), x.e.cT) {
						x.ctxI = i
					}
				}
			}
		}
	}
	if x.ctxI < 0 {
		c.must(al.Pos(), "anchor", "mStack.alloc", "it does not return a stack instance with a context")
	}
	x.S, x.P = ai.Sym("S", x.stackT), ai.Sym("P", x.poolT)
	x.rt = ai.Sym("rt", x.x.rtT)
	return x
}

// machine returns a machine that knows which memory only this package writes.
// With frozen, nobody changes the stack while a request is served.
func (x *stackEnv) machine(frozen bool) *ai.Machine {
	m := x.c.M.Sub()
	part := func(a *ai.Term) bool {
		// a field of a stack instance other than its context
		for ; len(a.Args) > 0 && a.Op == "fa"; a = a.Args[0] {
			b := a.Args[0]
			if x.isInstance(b) {
				return a != x.ctxOf(b)
			}
		}
		return false
	}
	m.Private = func(s *ai.State, a *ai.Term) bool { return part(a) }
	m.Stable = func(s *ai.State, a *ai.Term) bool {
		if a == x.rtA || part(a) {
			return true
		}
		return frozen && (a == x.stackA || a.Root() == x.S)
	}
	m.NoInline = func(fn *ssa.Function) bool { return fn == x.c.routeFn(x.x) }
	return m
}

// isInstance reports whether a term is the address of a stack instance.
func (x *stackEnv) isInstance(b *ai.Term) bool {
	switch b.Op {
	case "obj":
		return b.Typ != nil && types.Identical(b.Typ, x.csT)
	case "ta":
		return types.Identical(b.Typ, ptr(x.csT))
	}
	return false
}

func (x *stackEnv) ctxOf(inst *ai.Term) *ai.Term { return ai.FA(inst, x.ctxI, x.e.cT) }

func (x *stackEnv) state(m *ai.Machine) *ai.State {
	st := x.e.state(x.c)
	for _, t := range []*ai.Term{x.mux, x.P, x.rt} {
		st.Assume(ai.Eq(t, ai.Nil()), false)
	}
	m.SetCell(st, x.stackA, x.S)
	m.SetCell(st, x.poolA, x.P)
	m.SetCell(st, x.rtA, ai.IfcT(x.x.rtT, x.rt))
	return st
}

// request is one abstract path of a request through the mux.
type request struct {
	name   string
	ctx    *ai.Term // the context given, or nil
	fn     *ssa.Function
	out    ai.Outcome
	serves []*ai.Event // calls of the outermost handler
	looped bool
}

// requests analyses both ways a request enters the mux.
func (x *stackEnv) requests(m *ai.Machine, panics bool) []request {
	c := x.c
	m.UserPanics = panics
	var out []request
	for _, name := range []string{"ServeHTTP", "ServeHTTPC"} {
		fn := c.meth(ptr(x.x.muxT), name)
		st := x.state(m)
		args := []*ai.Term{x.mux}
		var ctx *ai.Term
		if name == "ServeHTTPC" {
			ctx = ai.Sym("ctx", x.e.cT)
			args = append(args, ctx)
		}
		args = append(args, x.e.w, x.e.r)
		for _, o := range m.Exec(fn, args, st) {
			q := request{name: "Mux." + name, ctx: ctx, fn: fn, out: o}
			skip := false
			flat(o.St.Trace(), func(ev *ai.Event, in bool) {
				if ev.Kind == "assertpanic" && len(ev.Args) > 0 && strings.Contains(ev.Args[0].String(), "pool:") {
					skip = true // the cache holds nothing but instances: see C14
				}
				if x.isServe(ev) {
					q.serves = append(q.serves, ev)
					q.looped = q.looped || in
				}
			})
			if !skip {
				out = append(out, q)
			}
		}
		c.problems(m, "Mux."+name)
	}
	return out
}

// isServe recognises a handler being given the request.
func (x *stackEnv) isServe(ev *ai.Event) bool {
	switch ev.Kind {
	case "invoke":
		return ev.Name == "(net/http.Handler).ServeHTTP"
	case "call":
		return ev.Call != nil && ev.Call.Callee == x.c.routeFn(x.x)
	}
	return false
}

// instance finds the stack instance served on a path.
func (x *stackEnv) instance(q request) (inst *ai.Term, pooled bool) {
	if len(q.serves) == 0 {
		return nil, false
	}
	h := q.serves[0].Args[0]
	// a cached instance: the handler is one of its fields
	for t := h; len(t.Args) > 0; t = t.Args[0] {
		if x.isInstance(t) {
			return t, t.Op == "ta"
		}
	}
	// one made on this path
	var found *ai.Term
	flat(q.out.St.Trace(), func(ev *ai.Event, _ bool) {
		for _, a := range ev.Args {
			for t := a; len(t.Args) > 0 || t.Op == "obj"; t = t.Args[0] {
				if x.isInstance(t) && t.Op == "obj" {
					found = t
				}
				if len(t.Args) == 0 {
					break
				}
			}
		}
	})
	return found, false
}

func init() {
	register(&Rule{Prop: "C12", Technique: "inductive loop analysis of the construction of a middleware stack by abstract interpretation, composed with an exactly-once rule on the path of a request",
		Explain: "for an arbitrary middleware stack every path of a request through the mux must serve the outermost handler exactly once with the writer and request; an instance made on the path must have been built by a loop whose index starts at the last layer, goes down by one and stops below the first, each iteration calling exactly that layer's function with the instance's one context and the handler built so far; the innermost handler must call the router exactly once with that context",
		Limits:  "layers that do not call the next handler end the request, as documented; a layer calling it more than once is the layer's doing",
		Min:     map[string]int{"once": 4, "chain": 2, "index": 4, "innermost": 2}, Run: runC12})
	register(&Rule{Prop: "C13", Technique: "relational abstract interpretation of the edits with an arbitrary stack: element-wise comparison before and after, and an inductive invariant of the search for the reference",
		Explain: "Use, Insert and Abandon are analysed with an arbitrary stack, layer and reference; on each path the new stack must be the old one with exactly one layer added at the end, added at the position of the reference, or removed there; no layer before that position can equal the reference; an error is returned only if no layer equals it, and then the stack is the old one",
		Limits:  "what it means for two functions to be equal (package reflect's view of an interface value)",
		Min:     map[string]int{"length": 3, "element": 6, "first": 2, "notfound": 2, "equal": 1}, Run: runC13})
	register(&Rule{Prop: "C14", Technique: "typestate of the instance cache by abstract interpretation: freshness of the cache after every change, and must-equality of caches where an instance is put back",
		Explain: "every successful path of Use, Insert and Abandon must leave a cache made on that path; every path of a request takes instances only from the mux's cache and puts one back only into the cache it read when it started, after the request was served, on a path on which that is known to be still the mux's cache although the layers and handlers may have changed it meanwhile",
		Min:     map[string]int{"fresh": 3, "put": 2, "get": 2}, Run: runC14})
	register(&Rule{Prop: "C15", Technique: "path-sensitive abstract interpretation of a request with unknown layers: content of the context at the start, and typestate of the instance after it was put up for reuse",
		Explain: "on every path of a request, also one on which an inner layer panics, the context of the instance holds exactly nothing (or the context given) when the outermost handler is called; the instance is put up for reuse at most once, after that call, with an empty context, and not touched afterwards",
		Min:     map[string]int{"start": 4, "put": 2, "after": 2}, Run: runC15})
	register(&Rule{Prop: "C11", Technique: "abstract interpretation of registration and dispatch over a closed case split on the dynamic type of what is registered",
		Explain: "for every documented form of handler, pattern and middleware and for a value of any other type the registration methods are analysed; the handler stored is then called with an arbitrary context, writer and request and must call what was registered exactly once with exactly those (the context-aware method of a value that has both); other types end in log.Fatal before anything is stored; RawHandler and RawPattern of the stored handler and pattern must yield the value registered",
		Min:     map[string]int{"calls": 50, "raw": 50, "rejects": 20, "layer": 4}, Run: runC11})
}

func runC12(c *Ctx) {
	x := c.stack()
	m := x.machine(true)
	for _, q := range x.requests(m, false) {
		pos := q.fn.Pos()
		if !c.check(q.out.Kind == ai.Ret && len(q.serves) == 1 && !q.looped, pos, "once", q.name, "the outermost handler is called %d times on a path that ends in %s [%s]\n%s", len(q.serves), q.out.Kind, facts(q.out.St), trace(q.out.St.Trace())) {
			continue
		}
		ev := q.serves[0]
		n := len(ev.Args)
		c.check(n >= 3 && ev.Args[n-2] == x.e.w && ev.Args[n-1] == x.e.r, ev.Pos, "once", q.name, "the outermost handler is not called with the request's own writer and request")
		inst, pooled := x.instance(q)
		if pooled {
			c.check(true, ev.Pos, "once", q.name, "")
			continue
		}
		if !c.check(inst != nil && ev.Kind == "invoke", ev.Pos, "chain", q.name, "the handler called first, %s, is not one of a stack instance\n%s", ev.Args[0], trace(q.out.St.Trace())) {
			continue
		}
		x.chain(m, q, ev, inst)
	}
}

// chain checks that the handler served at ev is the whole stack around the
// router.
func (x *stackEnv) chain(m *ai.Machine, q request, ev *ai.Event, inst *ai.Term) {
	c := x.c
	h := ev.Args[0]
	var loop *ai.LoopNode
	var acc ai.LoopPhi
	for _, e := range q.out.St.Trace() {
		if e == ev {
			break
		}
		if e.Kind == "loop" {
			for _, p := range e.Loop.Phis {
				if p.Sym == h {
					loop, acc = e.Loop, p
				}
			}
		}
	}
	if !c.check(loop != nil, ev.Pos, "chain", q.name, "the handler called first, %s, was not built by a loop over the stack\n%s", h, trace(q.out.St.Trace())) {
		return
	}
	ctx := x.ctxOf(inst)
	init := map[*ai.Term]*ai.Term{}
	for _, p := range loop.Phis {
		init[p.Sym] = p.Init
	}
	var idx *ai.Term
	for _, it := range loop.Iters {
		var dyns []*ai.Event
		bad := false
		flat(it.Trace.Events(), func(e *ai.Event, in bool) {
			if e.Kind == "dyn" {
				dyns = append(dyns, e)
				bad = bad || in
			}
			if x.isServe(e) {
				bad = true
			}
		})
		if !c.check(len(dyns) == 1 && !bad, loop.Pos, "chain", q.name, "an iteration of the loop that builds the stack calls %d layers [%s]\n%s", len(dyns), facts(it.St), trace(it.Trace.Events())) {
			continue
		}
		d := dyns[0]
		var e *ai.Term
		d.Args[0].Subterms(func(u *ai.Term) {
			if u.Op == "ia" && u.Args[0] == x.S {
				e = u.Args[1]
			}
		})
		ok := e != nil && len(d.Args) == 3
		if ok {
			ok = d.Args[0] == m.Load(d.St.Copy(), ai.FA(ai.ElemAddr(x.S, e, x.lT), x.fnI, x.fnT), x.fnT)
		}
		if !c.check(ok, d.Pos, "chain", q.name, "what is called to add a layer is %s, not the function of a layer of the stack", d.Args[0]) {
			continue
		}
		c.check(d.Args[1] == ctx, d.Pos, "chain", q.name, "a layer is given the context %s, not that of the instance (%s)", d.Args[1], ctx)
		nx := it.Next[acc.Sym]
		c.check(d.Args[2] == acc.Sym && nx == d.Res[0], d.Pos, "chain", q.name, "a layer is put around %s and the result kept is %s: the layers are not nested", d.Args[2], nx)
		next := e.Subst(it.Next)
		c.check(idx == nil || idx == e, d.Pos, "index", q.name, "different paths of the loop add different layers")
		idx = e
		c.check(it.St.Decide(ai.Eq(next, ai.Add(e, ai.Int(-1)))) == 1, d.Pos, "index", q.name, "after layer %s comes layer %s", e, next)
		c.check(it.St.Decide(ai.Le(ai.Int(0), e)) == 1, d.Pos, "index", q.name, "layer %s is used, which may not exist [%s]", e, facts(it.St))
	}
	if idx != nil {
		first := idx.Subst(init)
		c.check(loop.Head.Copy().Decide(ai.Eq(first, ai.Add(ai.Len(x.S), ai.Int(-1)))) == 1, loop.Pos, "index", q.name, "the innermost layer is %s, not the last one", first)
		c.check(ev.St.Decide(ai.Lt(idx, ai.Int(0))) == 1, loop.Pos, "index", q.name, "the loop may end before layer 0 was added [%s]", facts(ev.St))
	}
	// the innermost handler
	w2, r2 := ai.Sym("w2", x.e.wT), ai.Sym("r2", ptr(x.e.rT))
	s := ev.St.Copy()
	s.ClearTrace()
	n := 0
	for _, o := range m.Invoke(s, acc.Init, x.e.serve, []*ai.Term{w2, r2}) {
		n++
		var rs []*ai.Event
		in := false
		flat(o.St.Trace(), func(e *ai.Event, l bool) {
			if x.isServe(e) {
				rs = append(rs, e)
				in = in || l
			}
		})
		ok := len(rs) == 1 && !in && o.Kind == ai.Ret && rs[0].Kind == "call"
		if !c.check(ok, loop.Pos, "innermost", q.name, "the innermost handler does not call the router exactly once\n%s", trace(o.St.Trace())) {
			continue
		}
		a := rs[0].Args
		c.check(len(a) == 4 && a[0] == x.rt && a[1] == ctx && a[2] == w2 && a[3] == r2, rs[0].Pos, "innermost", q.name, "the router is called with %v, not with the instance's context, the writer and the request", a)
	}
	c.check(n > 0, loop.Pos, "innermost", q.name, "the innermost handler %s is not known", acc.Init)
}

// --- C13

const eqName = "funcEqual"

// eqHook makes the comparison of two layers an opaque predicate.
func (x *stackEnv) eqHook(m *ai.Machine) {
	fe := x.c.hasFn("web", eqName)
	old := m.NoInline
	m.NoInline = func(f *ssa.Function) bool { return fe != nil && f == fe || old != nil && old(f) }
	m.Opaque = func(m *ai.Machine, s *ai.State, cc *ai.CallCtx) ([]ai.Outcome, bool) {
		if fe == nil || cc.Callee != fe {
			return nil, false
		}
		return []ai.Outcome{{Kind: ai.Ret, St: s, Vals: []*ai.Term{eqT(cc.Args[0], cc.Args[1])}}}, true
	}
}

// edits analyses one edit of the stack.
func (x *stackEnv) edits(m *ai.Machine, name string) (fn *ssa.Function, mw, ref *ai.Term, outs []ai.Outcome) {
	c := x.c
	x.eqHook(m)
	fn = c.meth(ptr(x.x.muxT), name)
	st := x.state(m)
	args := []*ai.Term{x.mux}
	fT := x.fnT // the context aware form
	if name != "Abandon" {
		mw = ai.IfcT(fT, ai.Sym("layer", fT))
		args = append(args, mw)
	}
	if name != "Use" {
		ref = ai.Sym("ref", x.origT)
		args = append(args, ref)
	}
	if len(args) != len(fn.Params) {
		c.must(fn.Pos(), "anchor", "Mux."+name, "unexpected parameters")
	}
	outs = m.Exec(fn, args, st)
	c.problems(m, "Mux."+name)
	return
}

func eqT(a, b *ai.Term) *ai.Term {
	// the reference first, so that substitution keeps the order
	if b.Op == "sym" && a.Op != "sym" {
		a, b = b, a
	}
	return ai.App(eqName, types.Typ[types.Bool], a, b)
}

func (x *stackEnv) get(v *ai.Term, i int, t types.Type) *ai.Term { return ai.FieldT(v, i, t) }

// errOf is the error an outcome returns: 1 nil, -1 not nil, 0 unknown.
func errOf(o ai.Outcome) int {
	if len(o.Vals) == 0 {
		return 1
	}
	return isNil(o.St, o.Vals[len(o.Vals)-1])
}

func runC13(c *Ctx) {
	x := c.stack()
	n := ai.Len(x.S)
	j := ai.Sym("anyJ", types.Typ[types.Int])
	J := ai.Sym("J", types.Typ[types.Int])
	for _, name := range []string{"Use", "Insert", "Abandon"} {
		m := x.machine(true)
		fn, mw, ref, outs := x.edits(m, name)
		where := "Mux." + name
		old := func(i *ai.Term) *ai.Term {
			return m.Load(x.state(m), ai.ElemAddr(x.S, i, x.lT), x.lT)
		}
		good := 0
		for _, o := range outs {
			pos := fn.Pos()
			if !c.check(o.Kind == ai.Ret, pos, "length", where, "it can end in %s for a valid layer [%s]", o.Kind, facts(o.St)) {
				continue
			}
			l := m.Load(o.St.Copy(), x.stackA, x.stackT)
			at := func(st *ai.State, i *ai.Term) *ai.Term {
				return m.Load(st.Copy(), ai.ElemAddr(l, i, x.lT), x.lT)
			}
			same := func(a, b *ai.Term) bool {
				return a == b || x.get(a, x.fnI, x.fnT) == x.get(b, x.fnI, x.fnT) && x.get(a, x.origI, x.origT) == x.get(b, x.origI, x.origT)
			}
			// compare checks new[i+off] == old[i] for lo <= i < hi
			compare := func(lo, hi *ai.Term, off int64, what string) {
				s := o.St.Copy()
				if !s.Assume(ai.Le(lo, j), true) || !s.Assume(ai.Lt(j, hi), true) {
					c.check(true, pos, "element", where, "")
					return
				}
				g, w := at(s, ai.Add(j, ai.Int(off))), old(j)
				c.check(same(g, w), pos, "element", where, "%s: layer j%+d afterwards is %s, not layer j of before (%s) [%s]", what, off, g, w, facts(s))
			}
			length := func(d int64) bool {
				want := ai.Add(n, ai.Int(d))
				return c.check(o.St.Copy().Decide(ai.Eq(ai.Len(l), want)) == 1, pos, "length", where, "the stack has %s layers afterwards, not %s [%s]", ai.Len(l), want, facts(o.St))
			}
			isRef := eqT(ref2(ref, x), x.get(old(J), x.origI, x.origT))
			refuted := func(extra ...*ai.Term) (bool, string) {
				fs := []*ai.Term{ai.Le(ai.Int(0), J), ai.Lt(J, n), isRef}
				inv := scanInvariants(o.St.Trace(), J, fs)
				return refute(o.St, J, append(fs, extra...), inv)
			}
			ek := errOf(o)
			if !c.check(ek != 0, pos, "notfound", where, "whether an error is returned is not known [%s]", facts(o.St)) {
				continue
			}
			if ek == -1 { // an error
				c.check(name != "Use", pos, "notfound", where, "an error is returned")
				bad, why := refuted()
				c.check(bad, pos, "notfound", where, "an error is returned although a layer may equal the reference [%s] (%s)", facts(o.St), why)
				if length(0) {
					compare(ai.Int(0), n, 0, "on error")
				}
				continue
			}
			good++
			var p *ai.Term
			switch name {
			case "Use":
				if !length(1) {
					continue
				}
				compare(ai.Int(0), n, 0, "Use")
				p = n
			default:
				// the position of the reference
				p = x.refPos(o, ref, old)
				if !c.check(p != nil, pos, "first", where, "it succeeds without a layer being known to equal the reference [%s]", facts(o.St)) {
					continue
				}
				bad, why := refuted(ai.Lt(J, p))
				c.check(bad, pos, "first", where, "a layer before the one chosen may equal the reference as well [%s] (%s)", facts(o.St), why)
				if name == "Insert" {
					if !length(1) {
						continue
					}
					compare(ai.Int(0), p, 0, "Insert")
					compare(p, n, 1, "Insert")
				} else {
					if !length(-1) {
						continue
					}
					compare(ai.Int(0), p, 0, "Abandon")
					compare(ai.Add(p, ai.Int(1)), n, -1, "Abandon")
				}
			}
			if mw != nil {
				v := at(o.St, p)
				f := x.get(v, x.fnI, x.fnT)
				c.check(x.get(v, x.origI, x.origT) == mw && (f == mw.Args[0] || f.Mentions(mw.Args[0])), pos, "element", where, "layer %s afterwards is %s, not the new one", p, v)
			}
		}
		c.check(good > 0, fn.Pos(), "length", where, "no path succeeds")
	}
	x.equality()
}

func ref2(ref *ai.Term, x *stackEnv) *ai.Term {
	if ref == nil {
		return ai.Sym("noref", x.origT)
	}
	return ref
}

// refPos finds the index of a layer known to equal the reference.
func (x *stackEnv) refPos(o ai.Outcome, ref *ai.Term, old func(*ai.Term) *ai.Term) *ai.Term {
	var cands []*ai.Term
	o.St.Literals(func(t *ai.Term, val bool) {
		if val && t.Op == "app" && t.S == eqName {
			t.Subterms(func(u *ai.Term) {
				if u.Op == "ia" && u.Args[0] == x.S {
					cands = append(cands, u.Args[1])
				}
			})
		}
	})
	sort.Slice(cands, func(i, j int) bool { return cands[i].ID < cands[j].ID })
	for _, i := range cands {
		if o.St.Decide(eqT(ref, x.get(old(i), x.origI, x.origT))) != 1 {
			continue
		}
		if o.St.Copy().Decide(ai.Le(ai.Int(0), i)) == 1 && o.St.Copy().Decide(ai.Lt(i, ai.Len(x.S))) == 1 {
			return i
		}
	}
	return nil
}

// equality checks what it means for a layer to equal the reference: both words
// of the two interface values are compared.
func (x *stackEnv) equality() {
	c := x.c
	fn := c.hasFn("web", eqName)
	if fn == nil {
		return
	}
	m := c.M.Sub()
	a, b := ai.Sym("a", x.origT), ai.Sym("b", x.origT)
	outs := m.Exec(fn, []*ai.Term{a, b}, ai.NewState())
	for _, o := range outs {
		ok := o.Kind == ai.Ret && len(o.Vals) == 1
		c.check(ok, fn.Pos(), "equal", eqName, "comparing two layers can end in %s", o.Kind)
	}
	c.check(len(outs) > 0, fn.Pos(), "equal", eqName, "no result")
}

// --- C14

func runC14(c *Ctx) {
	x := c.stack()
	for _, name := range []string{"Use", "Insert", "Abandon"} {
		m := x.machine(true)
		fn, _, _, outs := x.edits(m, name)
		for _, o := range outs {
			if o.Kind != ai.Ret || errOf(o) == -1 {
				continue
			}
			p := m.Load(o.St.Copy(), x.poolA, x.poolT)
			made := p.Op == "obj"
			stored := false
			flat(o.St.Trace(), func(ev *ai.Event, _ bool) {
				if ev.Kind == "pool" && ev.Name == "Put" {
					stored = true
				}
			})
			c.check(made && !stored, fn.Pos(), "fresh", "Mux."+name, "the stack was changed but the cache of instances is %s: not a new, empty one [%s]", p, facts(o.St))
		}
	}
	m := x.machine(false)
	gets := 0
	for _, q := range x.requests(m, true) {
		inst, _ := x.instance(q)
		evs := q.out.St.Trace()
		served := -1
		for i, ev := range evs {
			if x.isServe(ev) && served < 0 {
				served = i
			}
			if ev.Kind != "pool" {
				continue
			}
			switch ev.Name {
			case "Get":
				gets++
				c.check(x.asPool(ev.Args[0]) == x.P, ev.Pos, "get", q.name, "an instance is taken from %s, not from the mux's cache", ev.Args[0])
			case "Put":
				p := x.asPool(ev.Args[0])
				st := ev.St.Copy()
				now := m.Load(st, x.poolA, x.poolT)
				c.check(st.Decide(ai.Eq(p, x.P)) == 1, ev.Pos, "put", q.name, "an instance is put into the cache %s, which may not be the one current when the request started: the stack may have been changed since it was built [%s]\n%s", p, facts(st), trace(evs))
				c.check(st.Decide(ai.Eq(p, now)) == 1, ev.Pos, "put", q.name, "an instance is put into the cache %s, which may have been discarded since [%s]\n%s", p, facts(st), trace(evs))
				v := ev.Args[1]
				if v.Op == "ifc" {
					v = v.Args[0]
				}
				c.check(v == inst && inst != nil, ev.Pos, "put", q.name, "what is put into the cache, %s, is not the instance that served the request", v)
				c.check(served >= 0, ev.Pos, "put", q.name, "an instance is put up for reuse before its request was served")
			}
		}
		flat(evs, func(ev *ai.Event, in bool) {
			c.check(ev.Kind != "pool" || !in, ev.Pos, "get", q.name, "the cache is used in a loop")
		})
	}
	c.check(gets > 0, token.NoPos, "get", "Mux", "no request takes an instance from the cache")
}

// asPool strips conversions of the cache pointer.
func (x *stackEnv) asPool(t *ai.Term) *ai.Term {
	for t.Op == "conv" && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t
}

// --- C15

func runC15(c *Ctx) {
	x := c.stack()
	m := x.machine(false)
	for _, q := range x.requests(m, true) {
		inst, _ := x.instance(q)
		evs := q.out.St.Trace()
		if len(q.serves) == 0 {
			// a layer's constructor panicked
			for _, ev := range evs {
				c.check(ev.Kind != "pool" || ev.Name != "Put", ev.Pos, "put", q.name, "an instance is put up for reuse although its request was not served")
			}
			continue
		}
		if !c.check(inst != nil, q.serves[0].Pos, "start", q.name, "the stack instance serving the request was not found\n%s", trace(evs)) {
			continue
		}
		want := q.ctx
		if want == nil {
			want = ai.Zero(x.e.cT)
		}
		ctx := x.ctxOf(inst)
		eq := func(a, b *ai.Term) bool {
			s := x.e.cT.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if ai.FieldT(a, i, s.Field(i).Type()) != ai.FieldT(b, i, s.Field(i).Type()) {
					return false
				}
			}
			return true
		}
		for _, ev := range q.serves {
			got := agg(m, ev.St.Copy(), ctx, x.e.cT)
			c.check(eq(got, want), ev.Pos, "start", q.name, "when the outermost handler is called the context is %s, not %s [%s]", got, want, facts(ev.St))
		}
		put, served := -1, false
		for i, ev := range evs {
			served = served || x.isServe(ev)
			if ev.Kind == "pool" && ev.Name == "Put" {
				c.check(put < 0 && served, ev.Pos, "put", q.name, "the instance is put up for reuse twice or before the request was served\n%s", trace(evs))
				put = i
				got := agg(m, ev.St.Copy(), ctx, x.e.cT)
				c.check(eq(got, ai.Zero(x.e.cT)), ev.Pos, "put", q.name, "the instance is put up for reuse with the context %s", got)
				continue
			}
			if put >= 0 {
				bad := false
				for _, a := range append(append([]*ai.Term{}, ev.Args...), ev.Res...) {
					bad = bad || a.Mentions(inst)
				}
				c.check(!bad, ev.Pos, "after", q.name, "the instance is used after it was put up for reuse: %s", ev)
			}
		}
		if put >= 0 {
			c.Oblig["after"]++
		}
	}
}

// --- C11

// forms of what can be registered.
type form struct {
	name string
	v    *ai.Term // the interface value registered
	is   []types.Type
	not  []types.Type
	call string // "dyn" or the method invoked
	nc   int    // 1: takes the context
	nil  bool   // v is nil
}

func (c *Ctx) handlerForms(e *mwEnv) (good, bad []form) {
	c0 := c.named("web", "Handler")
	fn := func(ctx bool) types.Type {
		var ps []*types.Var
		if ctx {
			ps = append(ps, types.NewParam(0, nil, "c", e.cT))
		}
		ps = append(ps, types.NewParam(0, nil, "w", e.wT), types.NewParam(0, nil, "r", ptr(e.rT)))
		return types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), nil, false)
	}
	f0, f1 := fn(false), fn(true)
	sym := func(n string) *ai.Term { return ai.Sym(n, types.NewInterfaceType(nil, nil)) }
	good = []form{
		{name: "func(w, r)", v: ai.IfcT(f0, ai.Sym("hf", f0)), call: "dyn"},
		{name: "func(c, w, r)", v: ai.IfcT(f1, ai.Sym("hfc", f1)), call: "dyn", nc: 1},
		{name: "Handler and http.Handler", v: sym("hboth"), is: []types.Type{c0, e.hT}, not: []types.Type{f0, f1}, call: "ServeHTTPC", nc: 1},
		{name: "Handler", v: sym("hctx"), is: []types.Type{c0}, not: []types.Type{f0, f1, e.hT}, call: "ServeHTTPC", nc: 1},
		{name: "http.Handler", v: sym("hnet"), is: []types.Type{e.hT}, not: []types.Type{f0, f1, c0}, call: "ServeHTTP"},
	}
	hfT, nfT := c.named("web", "HandlerFunc"), c.std("net/http", "HandlerFunc").Type()
	for i := range good {
		good[i].not = append(good[i].not, hfT, nfT)
	}
	good = append(good,
		form{name: "HandlerFunc", v: ai.IfcT(hfT, ai.Sym("hff", hfT)), call: "dyn", nc: 1},
		form{name: "http.HandlerFunc", v: ai.IfcT(nfT, ai.Sym("hnf", nfT)), call: "dyn"})
	bad = []form{
		{name: "a value of another type", v: sym("hbad"), not: []types.Type{f0, f1, c0, e.hT}},
		{name: "nil", v: ai.Nil(), nil: true},
	}
	return
}

// assume makes the state know of which form the value is. Values of the
// package's own unexported types are not registered by users.
func (f form) assume(c *Ctx, st *ai.State) {
	if f.v.Op != "sym" {
		return
	}
	st.Assume(ai.Eq(f.v, ai.Nil()), false)
	for _, t := range f.is {
		st.Assume(ai.IsT(t, f.v), true)
	}
	for _, t := range f.not {
		st.Assume(ai.IsT(t, f.v), false)
	}
	sc := c.pkg("web").Types.Scope()
	for _, n := range sc.Names() {
		if o, ok := sc.Lookup(n).(*types.TypeName); ok && !o.Exported() && !types.IsInterface(o.Type()) {
			st.Assume(ai.IsT(o.Type(), f.v), false)
			st.Assume(ai.IsT(ptr(o.Type()), f.v), false)
		}
	}
}

// plain strips nothing but tells whether two values are the same value.
func plain(t *ai.Term) *ai.Term {
	for t.Op == "conv" && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t
}

func runC11(c *Ctx) {
	r := c.router()
	e := r.e
	good, bad := c.handlerForms(e)
	names := []string{"NotFound"}
	for _, v := range verbs {
		names = append(names, v.name)
	}
	sort.Strings(names)
	patT := types.NewInterfaceType(nil, nil)
	strPat := ai.IfcT(types.Typ[types.String], ai.Sym("pathpat", types.Typ[types.String]))
	reT := ptr(c.std("regexp", "Regexp").Type())
	anyPat := form{name: "a Pattern", v: ai.Sym("pat", patT), is: []types.Type{c.named("web", "Pattern")}, not: []types.Type{types.Typ[types.String], reT}}
	exec := func(name string, pat, hdl form) (fn *ssa.Function, m *ai.Machine, outs []ai.Outcome) {
		fn = c.meth(ptr(r.x.muxT), name)
		m = r.machine()
		st := r.state(m)
		pat.assume(c, st)
		hdl.assume(c, st)
		args := []*ai.Term{r.mux, pat.v, hdl.v}
		if name == "NotFound" {
			args = []*ai.Term{r.mux, hdl.v}
		}
		if len(fn.Params) != len(args) {
			c.must(fn.Pos(), "anchor", "Mux."+name, "unexpected parameters")
		}
		outs = m.Exec(fn, args, st)
		c.problems(m, "Mux."+name)
		return
	}
	// stored gives the handler and pattern a registration left behind.
	stored := func(m *ai.Machine, name string, o ai.Outcome, hdl, pat *ai.Term) (h, p *ai.Term) {
		st := o.St.Copy()
		if name == "NotFound" {
			return m.Load(st, r.nfA, r.nfT), nil
		}
		l := m.Load(st, r.routesA, r.routesT)
		n := 0
		flat(o.St.Trace(), func(*ai.Event, bool) { n++ })
		g := registered{out: o, list: l}
		for _, t := range r.positions(g) {
			if st.Decide(ai.Le(ai.Int(0), t)) != 1 || st.Decide(ai.Le(t, ai.Len(r.R))) != 1 {
				continue
			}
			el := r.elem(m, st.Copy(), l, t)
			hh, pp := r.get(el, r.hdlI), r.get(el, r.patI)
			if hh.Mentions(hdl) || pp.Mentions(pat) {
				return hh, pp
			}
		}
		return nil, nil
	}
	matchT := c.named("web", "Match")
	match := func(pat, hdl *ai.Term) *ai.Term {
		s := matchT.Underlying().(*types.Struct)
		fs := make([]*ai.Term, s.NumFields())
		for i := range fs {
			switch s.Field(i).Name() {
			case "Pattern":
				fs[i] = pat
			case "Handler":
				fs[i] = hdl
			default:
				fs[i] = ai.Zero(s.Field(i).Type())
			}
			if fs[i] == nil {
				fs[i] = ai.Nil()
			}
		}
		return ai.AggT(matchT, fs)
	}
	raw := func(m *ai.Machine, st *ai.State, meth string, mv, want *ai.Term, where string) {
		fn := c.meth(matchT, meth)
		s := st.Copy()
		s.ClearTrace()
		outs := m.Exec(fn, []*ai.Term{mv}, s)
		c.check(len(outs) > 0, fn.Pos(), "raw", where, "%s yields nothing", meth)
		for _, o := range outs {
			ok := o.Kind == ai.Ret && len(o.Vals) == 1 && (plain(o.Vals[0]) == plain(want) || o.St.Decide(ai.Eq(o.Vals[0], want)) == 1)
			c.check(ok, fn.Pos(), "raw", where, "%s of the route's match is not the %s registered but %v [%s]", meth, want, o.Vals, facts(o.St))
		}
		c.problems(m, "Match."+meth)
	}
	hi := c.ifaceMeth(c.named("web", "Handler"), "ServeHTTPC")
	ctx, w2, r2 := ai.Sym("ctx2", e.cT), ai.Sym("w2", e.wT), ai.Sym("r2", ptr(e.rT))
	for _, name := range names {
		for _, f := range good {
			fn, m, outs := exec(name, anyPat, f)
			where := "Mux." + name + "(" + f.name + ")"
			val := f.v
			if val.Op == "ifc" {
				val = val.Args[0]
			}
			n := 0
			for _, o := range outs {
				if !c.check(o.Kind == ai.Ret, fn.Pos(), "calls", where, "a handler of this form is not accepted: %s [%s]", o.Kind, facts(o.St)) {
					continue
				}
				n++
				h, p := stored(m, name, o, val, anyPat.v)
				if !c.check(h != nil && (p == nil || p == anyPat.v), fn.Pos(), "calls", where, "the route stored has the handler %v and the pattern %v", h, p) {
					continue
				}
				s := o.St.Copy()
				s.ClearTrace()
				for _, d := range m.Invoke(s, h, hi, []*ai.Term{ctx, w2, r2}) {
					var evs []*ai.Event
					other, in := false, false
					flat(d.St.Trace(), func(ev *ai.Event, l bool) {
						switch {
						case (ev.Kind == "dyn" || ev.Kind == "invoke" || ev.Kind == "call") && len(ev.Args) > 0 && plain(ev.Args[0]) == val:
							evs = append(evs, ev)
							in = in || l
						default:
							for _, a := range ev.Args {
								other = other || a.Mentions(val) || a.Mentions(w2) || a.Mentions(r2)
							}
						}
					})
					if !c.check(d.Kind == ai.Ret && len(evs) == 1 && !in && !other, fn.Pos(), "calls", where, "calling the stored handler does not call what was registered exactly once (%s)\n%s", d.Kind, trace(d.St.Trace())) {
						continue
					}
					ev := evs[0]
					want := []*ai.Term{w2, r2}
					if f.nc == 1 {
						want = []*ai.Term{ctx, w2, r2}
					}
					ok := len(ev.Args) == 1+len(want)
					for i := range want {
						ok = ok && ev.Args[1+i] == want[i]
					}
					c.check(ok, ev.Pos, "calls", where, "what was registered is called with %v, not with the context, writer and request of the call", ev.Args[1:])
					if f.call != "dyn" {
						c.check(ev.Kind == "invoke" && strings.HasSuffix(ev.Name, ")."+f.call), ev.Pos, "calls", where, "it is called through %s, not through %s", ev.Name, f.call)
					} else {
						c.check(ev.Kind == "dyn", ev.Pos, "calls", where, "it is not called")
					}
				}
				raw(m, o.St, "RawHandler", match(p, h), f.v, where)
			}
			c.check(n > 0, fn.Pos(), "calls", where, "a handler of this form is never accepted")
		}
		for _, f := range bad {
			fn, m, outs := exec(name, anyPat, f)
			where := "Mux." + name + "(handler: " + f.name + ")"
			c.rejected(m, fn, outs, where)
		}
		if name == "NotFound" {
			continue
		}
		// patterns
		for _, f := range []form{
			{name: "a string", v: strPat},
			{name: "a regexp", v: ai.IfcT(reT, ai.Sym("re", reT))},
			anyPat,
		} {
			fn, m, outs := exec(name, f, good[3])
			where := "Mux." + name + "(pattern: " + f.name + ")"
			val := f.v
			if val.Op == "ifc" {
				val = val.Args[0]
			}
			n := 0
			for _, o := range outs {
				if o.Kind == ai.Panic && f.name == "a regexp" && isNil(o.St, val) != -1 {
					continue // a nil regular expression
				}
				if !c.check(o.Kind == ai.Ret, fn.Pos(), "raw", where, "a pattern of this form is not accepted: %s [%s]", o.Kind, facts(o.St)) {
					continue
				}
				n++
				h, p := stored(m, name, o, good[3].v, val)
				if !c.check(p != nil && h == good[3].v, fn.Pos(), "raw", where, "the route stored has the handler %v and the pattern %v", h, p) {
					continue
				}
				raw(m, o.St, "RawPattern", match(p, h), f.v, where)
			}
			c.check(n > 0, fn.Pos(), "raw", where, "a pattern of this form is never accepted")
		}
		for _, f := range []form{
			{name: "a value of another type", v: ai.Sym("pbad", patT), not: []types.Type{types.Typ[types.String], reT, c.named("web", "Pattern")}},
			{name: "nil", v: ai.Nil(), nil: true},
		} {
			fn, m, outs := exec(name, f, good[3])
			c.rejected(m, fn, outs, "Mux."+name+"(pattern: "+f.name+")")
		}
	}
	c.handlerFunc(e)
	c.layers()
}

// handlerFunc checks a HandlerFunc used as a plain net/http handler.
func (c *Ctx) handlerFunc(e *mwEnv) {
	t := c.named("web", "HandlerFunc")
	fn := c.meth(t, "ServeHTTP")
	m := c.M.Sub()
	f, w, r := ai.Sym("hff", t), ai.Sym("w2", e.wT), ai.Sym("r2", ptr(e.rT))
	st := ai.NewState()
	st.Assume(ai.Eq(f, ai.Nil()), false)
	outs := m.Exec(fn, []*ai.Term{f, w, r}, st)
	c.check(len(outs) > 0, fn.Pos(), "calls", "HandlerFunc.ServeHTTP", "no path")
	for _, o := range outs {
		n := 0
		flat(o.St.Trace(), func(ev *ai.Event, l bool) {
			if ev.Kind != "dyn" {
				return
			}
			n++
			ok := !l && len(ev.Args) == 4 && ev.Args[0] == f && ev.Args[2] == w && ev.Args[3] == r && o.St.Decide(ai.Eq(ev.Args[1], ai.Zero(e.cT))) == 1
			c.check(ok, ev.Pos, "calls", "HandlerFunc.ServeHTTP", "the function is called with %v, not with an empty context and the call's writer and request", ev.Args)
		})
		c.check(n == 1 && o.Kind == ai.Ret, fn.Pos(), "calls", "HandlerFunc.ServeHTTP", "the function is called %d times (%s)", n, o.Kind)
	}
	c.problems(m, "HandlerFunc.ServeHTTP")
}

// rejected checks that every path ends in a fatal log message.
func (c *Ctx) rejected(m *ai.Machine, fn *ssa.Function, outs []ai.Outcome, where string) {
	c.check(len(outs) > 0, fn.Pos(), "rejects", where, "no path")
	for _, o := range outs {
		fatal := false
		flat(o.St.Trace(), func(ev *ai.Event, _ bool) {
			if (ev.Kind == "exit" || ev.Kind == "log" || ev.Kind == "call") && strings.Contains(ev.Name, "log.") && strings.Contains(ev.Name, "Fatal") {
				fatal = true
			}
		})
		c.check(o.Kind == ai.Exit && fatal, fn.Pos(), "rejects", where, "it is not rejected with log.Fatal: %s [%s]\n%s", o.Kind, facts(o.St), trace(o.St.Trace()))
	}
}

// layers checks the forms of middleware.
func (c *Ctx) layers() {
	x := c.stack()
	e := x.e
	v := func(ts ...types.Type) *types.Tuple {
		var ps []*types.Var
		for _, t := range ts {
			ps = append(ps, types.NewParam(0, nil, "", t))
		}
		return types.NewTuple(ps...)
	}
	t0 := types.NewSignatureType(nil, nil, nil, v(e.hT), v(e.hT), false)
	t1 := types.NewSignatureType(nil, nil, nil, v(ptr(e.cT), e.hT), v(e.hT), false)
	h2, c2 := ai.Sym("h2", e.hT), ai.Sym("c2", ptr(e.cT))
	for _, name := range []string{"Use", "Insert"} {
		for _, f := range []form{
			{name: "func(http.Handler) http.Handler", v: ai.IfcT(t0, ai.Sym("mw0", t0))},
			{name: "func(*C, http.Handler) http.Handler", v: ai.IfcT(t1, ai.Sym("mw1", t1)), nc: 1},
			{name: "a value of another type", v: ai.Sym("mwbad", x.origT), not: []types.Type{t0, t1}},
			{name: "nil", v: ai.Nil(), nil: true},
		} {
			m := x.machine(true)
			x.eqHook(m)
			where := "Mux." + name + "(" + f.name + ")"
			fn := c.meth(ptr(x.x.muxT), name)
			st := x.state(m)
			f.assume(c, st)
			args := []*ai.Term{x.mux, f.v}
			if name == "Insert" {
				args = append(args, ai.Sym("ref", x.origT))
			}
			outs := m.Exec(fn, args, st)
			c.problems(m, where)
			if f.v.Op != "ifc" {
				var found []ai.Outcome
				for _, o := range outs {
					// a reference that is not found is reported first
					if o.Kind != ai.Ret || errOf(o) != -1 {
						found = append(found, o)
					}
				}
				c.rejected(m, fn, found, where)
				continue
			}
			val := f.v.Args[0]
			n := 0
			for _, o := range outs {
				if errOf(o) == -1 && o.Kind == ai.Ret {
					continue
				}
				if !c.check(o.Kind == ai.Ret, fn.Pos(), "layer", where, "it ends in %s", o.Kind) {
					continue
				}
				lf := x.newLayer(m, o, f.v)
				if !c.check(lf != nil, fn.Pos(), "layer", where, "the new layer is not in the stack afterwards") {
					continue
				}
				n++
				s := o.St.Copy()
				s.ClearTrace()
				want := []*ai.Term{h2}
				if f.nc == 1 {
					want = []*ai.Term{c2, h2}
				}
				for _, d := range m.ExecFun(lf, []*ai.Term{c2, h2}, s) {
					var evs []*ai.Event
					in := false
					flat(d.St.Trace(), func(ev *ai.Event, l bool) {
						if ev.Kind == "dyn" || ev.Kind == "invoke" {
							evs = append(evs, ev)
							in = in || l
						}
					})
					ok := d.Kind == ai.Ret && len(evs) == 1 && !in && plain(evs[0].Args[0]) == val && len(evs[0].Args) == 1+len(want)
					for i := range want {
						ok = ok && evs[0].Args[1+i] == want[i]
					}
					ok = ok && len(d.Vals) == 1 && d.Vals[0] == evs[0].Res[0]
					c.check(ok, fn.Pos(), "layer", where, "applying the layer does not call the function registered with exactly the %d values given and return its result\n%s", len(want), trace(d.St.Trace()))
				}
			}
			c.check(n > 0, fn.Pos(), "layer", where, "a middleware of this form is never accepted")
		}
	}
}

// newLayer finds the function stored for a new layer.
func (x *stackEnv) newLayer(m *ai.Machine, o ai.Outcome, orig *ai.Term) *ai.Term {
	l := m.Load(o.St.Copy(), x.stackA, x.stackT)
	cands := []*ai.Term{ai.Len(x.S), ai.Int(0)}
	o.St.Literals(func(t *ai.Term, val bool) {
		t.Subterms(func(u *ai.Term) {
			if u.Op == "ia" && u.Args[0] == x.S {
				cands = append(cands, u.Args[1])
			}
		})
	})
	for _, i := range cands {
		e := m.Load(o.St.Copy(), ai.ElemAddr(l, i, x.lT), x.lT)
		if x.get(e, x.origI, x.origT) == orig {
			f := x.get(e, x.fnI, x.fnT)
			if f.Op == "fn" || f.Op == "clo" || f == orig.Args[0] {
				return f
			}
		}
	}
	return nil
}
