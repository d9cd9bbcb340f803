package rules

import (
	"go/token"
	"go/types"
	"strings"

	"gojicheck/ai"

	"golang.org/x/tools/go/ssa"
)

// muxInfo is how a mux is put together, as read off the abstract result of
// web.New.
type muxInfo struct {
	muxT    *types.Named
	stackT  *types.Named // mStack
	msIdx   int          // field of Mux holding the stack
	rtIface types.Type   // static type of mStack.router
	rtMeth  *types.Func  // its method
	rtT     types.Type   // dynamic type of the router
	newSt   *ai.State
	mux     *ai.Term // the object New returns
	router  *ai.Term // its router value (interface)
}

func (c *Ctx) mux() *muxInfo {
	x := &muxInfo{muxT: c.named("web", "Mux"), stackT: c.named("web", "mStack"), msIdx: -1}
	s := x.muxT.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), x.stackT) {
			x.msIdx = i
		}
	}
	if x.msIdx < 0 {
		c.must(x.muxT.Obj().Pos(), "anchor", "web.Mux", "no field of type mStack")
	}
	_, rt, ok := field(x.stackT, "router")
	if !ok {
		c.must(x.stackT.Obj().Pos(), "anchor", "web.mStack", "no field router")
	}
	x.rtIface = rt
	it, ok := rt.Underlying().(*types.Interface)
	if !ok || it.NumMethods() != 1 {
		c.must(x.stackT.Obj().Pos(), "anchor", "web.mStack.router", "not an interface with one method")
	}
	x.rtMeth = it.Method(0)
	m := c.M.Sub()
	fn := c.fn("web", "New")
	for _, o := range m.Exec(fn, nil, ai.NewState()) {
		if o.Kind != ai.Ret || x.mux != nil {
			c.must(fn.Pos(), "undecided", "web.New", "more than one outcome")
		}
		x.mux = o.Vals[0]
		x.newSt = o.St
		ms := ai.FA(x.mux, x.msIdx, x.stackT)
		ra, rt := c.fa(ms, x.stackT, "router")
		x.router = m.Load(o.St, ra, rt)
	}
	c.problems(m, "web.New")
	if x.router == nil || x.router.Op != "ifc" {
		c.must(fn.Pos(), "router", "web.New", "the mux returned has no router (%v)", x.router)
	}
	x.rtT = x.router.Typ
	return x
}

// routeFn is the method that ends the middleware stack.
func (c *Ctx) routeFn(x *muxInfo) *ssa.Function { return c.meth(x.rtT, x.rtMeth.Name()) }

// patterns builds a symbolic string and a symbolic regular expression pattern
// through the public constructor.
type patCase struct {
	kind string // "string" or "regexp"
	pat  *ai.Term
	st   *ai.State
	raw  *ai.Term
	src  *ai.Term
}

func (c *Ctx) patterns(m *ai.Machine) []patCase {
	fn := c.fn("web", "ParsePattern")
	var out []patCase
	reT := ptr(c.std("regexp", "Regexp").Type())
	for _, k := range []struct {
		kind string
		t    types.Type
	}{{"string", types.Typ[types.String]}, {"regexp", reT}} {
		st := ai.NewState()
		s := ai.Sym("raw:"+k.kind, k.t)
		if k.kind == "regexp" {
			st.Assume(ai.Eq(s, ai.Nil()), false)
		}
		raw := ai.IfcT(k.t, s)
		n := 0
		for _, o := range m.Exec(fn, []*ai.Term{raw}, st) {
			if o.Kind != ai.Ret {
				continue
			}
			n++
			out = append(out, patCase{k.kind, o.Vals[0], o.St, raw, s})
		}
		if n == 0 {
			c.fail(fn.Pos(), "anchor", "web.ParsePattern("+k.kind+")", "this pattern form is never accepted")
		}
	}
	c.problems(m, "web.ParsePattern")
	return out
}

func (c *Ctx) patMeth(name string) *types.Func {
	return c.ifaceMeth(c.named("web", "Pattern"), name)
}

func runC16(c *Ctx) {
	for _, f := range c.middlewares() {
		e, m, outs := c.runMW(f, func(m *ai.Machine, e *mwEnv, st *ai.State) { c.keepEnv(m, e) })
		c.mapWrites(f.name, outs)
		// Proxies handed to the next handler: every method of them.
		seen := map[*ai.Term]bool{}
		for _, o := range outs {
			calls, _ := e.next(o.St.Trace())
			for _, ev := range calls {
				w := ev.Args[1]
				if w == e.w || w.Op != "ifc" || seen[w] {
					continue
				}
				seen[w] = true
				for _, mo := range c.methodOuts(m, ev.St, w) {
					c.mapWrites(f.name+" proxy", mo.outs)
				}
			}
		}
	}
	x := c.mux()
	e := c.mwEnv()
	run := func(name string, fn *ssa.Function, args ...*ai.Term) {
		m := c.M.Sub()
		m.UserPanics = true
		c.keepEnv(m, e)
		st := e.state(c)
		for _, a := range args {
			if a.Op == "sym" && a.Typ != nil {
				if _, ok := a.Typ.Underlying().(*types.Pointer); ok {
					st.Assume(ai.Eq(a, ai.Nil()), false)
				}
			}
		}
		c.mapWrites(name, m.Exec(fn, args, st))
		c.problems(m, name)
	}
	muxS := ai.Sym("mux", ptr(x.muxT))
	run("Mux.ServeHTTP", c.meth(ptr(x.muxT), "ServeHTTP"), muxS, e.w, e.r)
	run("Mux.ServeHTTPC", c.meth(ptr(x.muxT), "ServeHTTPC"), muxS, ai.Sym("ctx", e.cT), e.w, e.r)
	run("router", c.routeFn(x), ai.Sym("rt", x.rtT), e.c, e.w, e.r)
	m := c.M.Sub()
	for _, p := range c.patterns(m) {
		for _, n := range []string{"Match", "Run"} {
			for _, cc := range []*ai.Term{e.c, ai.Nil()} {
				st := p.st.Copy()
				st.ClearTrace()
				st.Assume(ai.Eq(e.r, ai.Nil()), false)
				if cc == e.c {
					st.Assume(ai.Eq(e.c, ai.Nil()), false)
				}
				c.mapWrites(p.kind+" pattern "+n, m.Invoke(st, p.pat, c.patMeth(n), []*ai.Term{e.r, cc}))
			}
		}
	}
	c.problems(m, "patterns")
}

// keepEnv makes the machine assume that patterns, which may change what is in
// the environment, do not replace it.
func (c *Ctx) keepEnv(m *ai.Machine, e *mwEnv) {
	i, t, ok := field(e.cT, "Env")
	if !ok {
		c.must(0, "anchor", "web.C", "no field Env")
	}
	m.Opaque = func(m *ai.Machine, st *ai.State, cc *ai.CallCtx) ([]ai.Outcome, bool) {
		if cc.Kind != "invoke" || !strings.Contains(cc.Name, patPre) || len(cc.Args) < 2 || isNil(st, cc.Args[1]) == 1 {
			return nil, false
		}
		env := ai.FA(cc.Args[1], i, t)
		v := m.Load(st, env, t)
		outs := m.DefaultCall(st, cc)
		for _, o := range outs {
			m.SetCell(o.St, env, v)
		}
		return outs, true
	}
}

type methodOut struct {
	fn   *ssa.Function
	args []*ai.Term
	outs []ai.Outcome
}

// methodOuts analyses every exported method of the dynamic type of an
// interface value, from the given state, with arbitrary arguments.
func (c *Ctx) methodOuts(m *ai.Machine, st *ai.State, v *ai.Term) []methodOut {
	var out []methodOut
	ms := c.P.Prog.MethodSets.MethodSet(v.Typ)
	for i := 0; i < ms.Len(); i++ {
		f, ok := ms.At(i).Obj().(*types.Func)
		if !ok || !f.Exported() {
			continue
		}
		fn := c.P.Prog.MethodValue(ms.At(i))
		if fn == nil {
			continue
		}
		c.entry(fn)
		var as []*ai.Term
		sig := f.Type().(*types.Signature)
		for j := 0; j < sig.Params().Len(); j++ {
			as = append(as, ai.Sym("arg:"+f.Name()+sig.Params().At(j).Name(), sig.Params().At(j).Type()))
		}
		s2 := st.Copy()
		s2.ClearTrace()
		out = append(out, methodOut{fn, as, m.Invoke(s2, v, f, as)})
	}
	c.problems(m, "methods of "+types.TypeString(v.Typ, nil))
	return out
}

var _ = token.NoPos
