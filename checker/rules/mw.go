package rules

import (
	"go/token"
	"go/types"
	"sort"

	"gojicheck/ai"

	"golang.org/x/tools/go/ssa"
)

// mwEnv is the abstract request every middleware is analysed with: an
// arbitrary context, next handler, writer and request.
type mwEnv struct {
	c, h, w, r     *ai.Term
	cT, rT, wT, hT types.Type
	serve          *types.Func // http.Handler.ServeHTTP
}

func (c *Ctx) mwEnv() *mwEnv {
	e := &mwEnv{}
	e.cT = c.named("web", "C")
	e.hT = c.std("net/http", "Handler").Type()
	e.wT = c.std("net/http", "ResponseWriter").Type()
	e.rT = c.std("net/http", "Request").Type()
	e.c = ai.Sym("c", ptr(e.cT))
	e.h = ai.Sym("h", e.hT)
	e.w = ai.Sym("w", e.wT)
	e.r = ai.Sym("r", ptr(e.rT))
	e.serve = c.ifaceMeth(e.hT, "ServeHTTP")
	return e
}

func (e *mwEnv) state(c *Ctx) *ai.State {
	st := ai.NewState()
	for _, t := range []*ai.Term{e.c, e.h, e.w, e.r} {
		st.Assume(ai.Eq(t, ai.Nil()), false)
	}
	ua, ut := c.fa(e.r, e.rT, "URL")
	st.Assume(ai.Eq(ai.Ld(ua, ut), ai.Nil()), false)
	return st
}

// mwFn is one middleware.
type mwFn struct {
	name string
	fn   *ssa.Function
	ctx  bool // takes a *web.C
	recv bool // method of *web.Mux
}

var requiredMW = []string{"EnvInit", "Logger", "NoCache", "AutomaticOptions", "RealIP", "Recoverer", "RequestID", "SubRouter", "URLQuery"}

// middlewares lists every exported function with a middleware signature, plus
// the Router method of the mux.
func (c *Ctx) middlewares() []mwFn {
	e := c.mwEnv()
	var out []mwFn
	sc := c.pkg("web/middleware").Types.Scope()
	for _, n := range sc.Names() {
		f, ok := sc.Lookup(n).(*types.Func)
		if !ok || !f.Exported() {
			continue
		}
		sig := f.Type().(*types.Signature)
		if sig.Results().Len() != 1 || !types.Identical(sig.Results().At(0).Type(), e.hT) {
			continue
		}
		p := sig.Params()
		switch {
		case p.Len() == 2 && types.Identical(p.At(0).Type(), ptr(e.cT)) && types.Identical(p.At(1).Type(), e.hT):
			out = append(out, mwFn{name: n, fn: c.fn("web/middleware", n), ctx: true})
		case p.Len() == 1 && types.Identical(p.At(0).Type(), e.hT):
			out = append(out, mwFn{name: n, fn: c.fn("web/middleware", n)})
		}
	}
	for _, n := range requiredMW {
		found := false
		for _, m := range out {
			found = found || m.name == n
		}
		if !found {
			c.fail(token.NoPos, "anchor", "middleware."+n, "no middleware function of this name")
		}
	}
	out = append(out, mwFn{name: "Mux.Router", fn: c.meth(ptr(c.named("web", "Mux")), "Router"), ctx: true, recv: true})
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

// mw finds one middleware by name.
func (c *Ctx) mw(name string) mwFn {
	for _, m := range c.middlewares() {
		if m.name == name {
			return m
		}
	}
	c.must(token.NoPos, "anchor", "middleware."+name, "not found")
	panic(nil)
}

// runMW analyses one request through the handler a middleware builds. hooks
// may configure the machine.
func (c *Ctx) runMW(f mwFn, hooks func(m *ai.Machine, e *mwEnv, st *ai.State)) (*mwEnv, *ai.Machine, []ai.Outcome) {
	e := c.mwEnv()
	m := c.M.Sub()
	m.UserPanics = true
	st := e.state(c)
	var args []*ai.Term
	if f.recv {
		mux := ai.Sym("mux", f.fn.Signature.Recv().Type())
		st.Assume(ai.Eq(mux, ai.Nil()), false)
		args = append(args, mux)
	}
	if f.ctx {
		args = append(args, e.c)
	}
	args = append(args, e.h)
	if hooks != nil {
		hooks(m, e, st)
	}
	var outs []ai.Outcome
	for _, o := range m.Exec(f.fn, args, st) {
		if o.Kind != ai.Ret {
			c.fail(f.fn.Pos(), "construct", f.name, "building the handler can end in %s (%s)", o.Kind, facts(o.St))
			continue
		}
		o.St.ClearTrace()
		outs = append(outs, m.Invoke(o.St, o.Vals[0], e.serve, []*ai.Term{e.w, e.r})...)
	}
	c.problems(m, f.name)
	return e, m, outs
}

// isNext reports whether an event runs the next handler.
func (e *mwEnv) isNext(ev *ai.Event) bool {
	return ev.Kind == "invoke" && ev.Name == "(net/http.Handler).ServeHTTP" && len(ev.Args) == 3 && ev.Args[0] == e.h
}

// next returns the calls of the next handler on a path (in loops: looped).
func (e *mwEnv) next(evs []*ai.Event) (calls []*ai.Event, looped bool) {
	flat(evs, func(ev *ai.Event, in bool) {
		if e.isNext(ev) {
			calls = append(calls, ev)
			looped = looped || in
		}
	})
	return
}

// reaches reports whether value v, an address or interface, leads to target
// through the fields of objects made by the analysed code.
func (c *Ctx) reaches(m *ai.Machine, st *ai.State, v, target *ai.Term, depth int) bool {
	if v == target {
		return true
	}
	if depth == 0 {
		return false
	}
	switch v.Op {
	case "ifc":
		return c.reaches(m, st, v.Args[0], target, depth)
	case "agg", "clo":
		for _, a := range v.Args {
			if c.reaches(m, st, a, target, depth-1) {
				return true
			}
		}
	case "obj":
		if v.Typ == nil {
			return false
		}
		return c.reaches(m, st, m.Load(st, v, v.Typ), target, depth-1)
	}
	return false
}

func init() {
	register(&Rule{Prop: "C17", Technique: "path-partitioned abstract interpretation over SSA; exactly-once call rule on the next handler",
		Explain: "every exported middleware and Mux.Router is analysed with an arbitrary context, writer, request and next handler (which may panic); on every abstract path the next handler must be called exactly once, outside any loop or goroutine, with the very request and with the writer or an object built here that wraps it",
		Min:     map[string]int{"once": 40, "request": 40, "writer": 40, "middleware": 10}, Run: runC17})
	register(&Rule{Prop: "C16", Technique: "path-partitioned abstract interpretation over SSA; non-nil obligation at every map write",
		Explain: "every map write reached from a bundled middleware, a mux entry point or a pattern is an obligation: on every abstract path the map must be provably non-nil at the write, the inner handlers being free to change the context in any way",
		Min:     map[string]int{"mapwrite": 12, "entry": 15}, Run: runC16})
}

func runC17(c *Ctx) {
	for _, f := range c.middlewares() {
		e, m, outs := c.runMW(f, nil)
		c.check(len(outs) > 0, f.fn.Pos(), "middleware", f.name, "no path through the handler was found")
		for _, o := range outs {
			calls, looped := e.next(o.St.Trace())
			pos := f.fn.Pos()
			if len(calls) > 0 {
				pos = calls[len(calls)-1].Pos
			}
			switch o.Kind {
			case ai.Ret:
				c.check(len(calls) == 1, pos, "once", f.name, "the next handler is called %d times on a path that returns [%s]\n%s", len(calls), facts(o.St), trace(o.St.Trace()))
			case ai.Panic:
				c.check(len(calls) <= 1, pos, "once", f.name, "the next handler is called %d times on a path that panics [%s]\n%s", len(calls), facts(o.St), trace(o.St.Trace()))
				// Only inner layers, the writer and library code may be the cause.
				ok := false
				for _, ev := range o.St.Trace() {
					ok = ok || ev.Kind == "userpanic"
				}
				flat(o.St.Trace(), func(ev *ai.Event, _ bool) { ok = ok || ev.Kind == "userpanic" })
				c.check(ok, pos, "once", f.name, "the middleware itself panics instead of calling the next handler [%s]\n%s", facts(o.St), trace(o.St.Trace()))
			default:
				c.check(false, pos, "once", f.name, "a path ends with %s [%s]", o.Kind, facts(o.St))
			}
			c.check(!looped, pos, "once", f.name, "the next handler is called inside a loop")
			for _, ev := range calls {
				c.check(ev.Args[2] == e.r, ev.Pos, "request", f.name, "the next handler gets the request %s instead of the one received", ev.Args[2])
				w := ev.Args[1]
				ok := w == e.w || w.Op == "ifc" && c.reaches(m, ev.St, w, e.w, 4)
				c.check(ok, ev.Pos, "writer", f.name, "the next handler gets the writer %s, which is neither the one received nor a proxy of it", w)
			}
			flat(o.St.Trace(), func(ev *ai.Event, _ bool) {
				if ev.Kind == "go" {
					for _, a := range ev.Args {
						c.check(!a.Mentions(e.h) && !c.reaches(m, ev.St, a, e.h, 4), ev.Pos, "once", f.name, "the next handler is handed to a goroutine")
					}
				}
			})
		}
		c.sample("%s: %d abstract paths", f.name, len(outs))
	}
}

// mapWrites checks the C16 obligation on all map writes of the given paths.
func (c *Ctx) mapWrites(entry string, outs []ai.Outcome) {
	c.Oblig["entry"]++
	seen := map[string]bool{}
	for _, o := range outs {
		flat(o.St.Trace(), func(ev *ai.Event, _ bool) {
			switch ev.Kind {
			case "mapset", "mapcopy":
				ok := ev.St != nil && isNil(ev.St, ev.Args[0]) == -1
				k := c.P.Pos(ev.Pos) + entry
				if !ok || !seen[k] {
					seen[k] = true
					st := ev.St
					if st == nil {
						st = o.St
					}
					c.check(ok, ev.Pos, "mapwrite", short(ev.Fn)+" ("+entry+")", "the map %s may be nil when it is written to (path: %s)", ev.Args[0], facts(st))
				}
			case "panic":
				if ev.Name == "nilmap" {
					c.check(false, ev.Pos, "mapwrite", short(ev.Fn)+" ("+entry+")", "a nil map is written to (path: %s)", facts(o.St))
				}
			}
		})
	}
}
