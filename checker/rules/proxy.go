package rules

import (
	"fmt"
	"go/types"
	"strings"

	"gojicheck/ai"
	"gojicheck/load"
)

func init() {
	register(&Rule{Prop: "C21", Technique: "typestate: abstract interpretation of every operation of the response proxy, closed over all reachable abstract proxy states against a three-phase specification",
		Explain: "the writer AutomaticOptions hands on is analysed; for an OPTIONS request it must be a proxy whose every operation, from every abstract state reachable by any sequence of operations (the context changing arbitrarily in between), agrees with the phases untouched, passed through and replaced; for every other method it must be the writer received",
		Min:     map[string]int{"writer": 2, "header": 3, "write": 3, "status": 6, "allow": 1}, Run: runC21})
	register(&Rule{Prop: "C22", Technique: "typestate: joint invariant of proxy state and wire state, closed over all abstract proxy states and operations",
		Explain: "for every kind of proxy WrapWriter returns, every exported operation is analysed from every abstract state reachable by any sequence of operations; after each, the proxy's status and byte count must equal (as terms) the final status and the number of body bytes the underlying writer was given according to the calls made on it, and a second final status must never be sent",
		Min:     map[string]int{"status": 40, "bytes": 40, "once": 40, "initial": 3}, Run: func(c *Ctx) { runProxy(c, "C22") },
		Configs: []load.Config{{GOOS: "linux", GOARCH: "amd64", MaxRelease: 7}}})
	register(&Rule{Prop: "C23", Technique: "typestate and call-pairing on the response proxy: every body write to the underlying writer is followed by a tee write of exactly the accepted bytes",
		Explain: "in every abstract proxy state with a tee set, each body write to the underlying writer on each path must be followed, before the next one, by a write of the accepted prefix of the same buffer to the tee, no operation may send body bytes around the tee, nothing else may be written to it, and the error returned is the underlying writer's unless that is nil",
		Min:     map[string]int{"teed": 6, "error": 6, "only": 10}, Run: func(c *Ctx) { runProxy(c, "C23") },
		Configs: []load.Config{{GOOS: "linux", GOARCH: "amd64", MaxRelease: 7}}})
	register(&Rule{Prop: "C24", Technique: "capability analysis: type facts about the wrapped writer against the method set of the proxy, plus abstract interpretation of every method",
		Explain: "for every kind of proxy WrapWriter returns, under the capabilities of the wrapped writer established on that path, no method may fail a type assertion, each must forward to the method of the same name with the same arguments and results (push without support: an error), and if the writer may be a Flusher the proxy must have Flush",
		Min:     map[string]int{"forward": 10, "nopanic": 30, "flush": 3}, Run: runC24,
		Configs: []load.Config{{GOOS: "linux", GOARCH: "amd64", MaxRelease: 7}}})
}

// --- exploring the states of an object

// leaf is one scalar cell of an object.
type leaf struct {
	addr *ai.Term
	typ  types.Type
	name string
}

func leaves(p *ai.Term, t types.Type, name string) []leaf {
	if s, ok := t.Underlying().(*types.Struct); ok {
		var out []leaf
		for i := 0; i < s.NumFields(); i++ {
			out = append(out, leaves(ai.FA(p, i, s.Field(i).Type()), s.Field(i).Type(), name+"."+s.Field(i).Name())...)
		}
		return out
	}
	return []leaf{{p, t, name}}
}

// objState is an abstract state of an object together with a ghost phase.
type objState struct {
	vals  []*ai.Term
	nn    []int // nilness of the non-constant values
	ghost string
}

func (s objState) key() string {
	k := s.ghost
	for i, v := range s.vals {
		k += fmt.Sprintf("|%d:%d", v.ID, s.nn[i])
	}
	return k
}

type objExplorer struct {
	c     *Ctx
	m     *ai.Machine
	base  *ai.State // state in which the object exists
	obj   *ai.Term  // address of the object
	ls    []leaf
	keep  map[*ai.Term]bool // values that stay as they are
	name  string
	limit int
}

func newObjExplorer(c *Ctx, m *ai.Machine, base *ai.State, v *ai.Term, name string, keep ...*ai.Term) *objExplorer {
	x := &objExplorer{c: c, m: m, base: base.Copy(), name: name, keep: map[*ai.Term]bool{}, limit: 200}
	x.base.ClearTrace()
	x.obj = v
	if v.Op == "ifc" {
		x.obj = v.Args[0]
	}
	if x.obj.Op != "obj" || x.obj.Typ == nil {
		c.must(0, "undecided", name, "the proxy %s is not an object made here", v)
	}
	x.ls = leaves(x.obj, x.obj.Typ, "")
	// structures of its own that it points to are part of it
	in := map[*ai.Term]bool{x.obj: true}
	for i := 0; i < len(x.ls); i++ {
		v := m.Load(x.base, x.ls[i].addr, x.ls[i].typ)
		if v.Op == "obj" && v.Typ != nil && !in[v] {
			if _, ok := v.Typ.Underlying().(*types.Struct); ok {
				in[v], x.keep[v] = true, true
				x.ls = append(x.ls, leaves(v, v.Typ, x.ls[i].name)...)
			}
		}
	}
	for _, k := range keep {
		x.keep[k] = true
	}
	return x
}

// abstract reads the object's cells, naming what is not constant.
func (x *objExplorer) abstract(st *ai.State, ghost string) objState {
	o := objState{ghost: ghost}
	for _, l := range x.ls {
		v := x.m.Load(st, l.addr, l.typ)
		n := 0
		if v.IsConst() || v.IsNil() || x.keep[v] {
			o.vals = append(o.vals, v)
			o.nn = append(o.nn, 0)
			continue
		}
		if isNil(st, v) == 1 {
			o.vals = append(o.vals, ai.Nil())
			o.nn = append(o.nn, 0)
			continue
		}
		if v.Op == "ifc" || isNil(st, v) == -1 {
			n = -1
		}
		o.vals = append(o.vals, ai.Sym("cell"+l.name, l.typ))
		o.nn = append(o.nn, n)
	}
	return o
}

// concretise builds the state an abstract object state stands for.
func (x *objExplorer) concretise(o objState) *ai.State {
	st := x.base.Copy()
	for i, l := range x.ls {
		x.m.SetCell(st, l.addr, o.vals[i])
		if o.nn[i] == -1 {
			st.Assume(ai.Eq(o.vals[i], ai.Nil()), false)
		}
	}
	return st
}

// explore visits all abstract states; step analyses one state and returns the
// successors.
func (x *objExplorer) explore(init objState, step func(o objState, st *ai.State) []objState) int {
	seen := map[string]bool{init.key(): true}
	work := []objState{init}
	n := 0
	for len(work) > 0 {
		o := work[0]
		work = work[1:]
		n++
		if n > x.limit {
			x.c.fail(0, "undecided", x.name, "more than %d abstract states", x.limit)
			break
		}
		for _, s := range step(o, x.concretise(o)) {
			if !seen[s.key()] {
				seen[s.key()] = true
				work = append(work, s)
			}
		}
	}
	x.c.Oblig["states"] += n
	return n
}

// --- AutomaticOptions

func runC21(c *Ctx) {
	f := c.mw("AutomaticOptions")
	e, m, outs := c.runMW(f, func(m *ai.Machine, e *mwEnv, st *ai.State) { m.UserPanics = false })
	meth, strT := "", types.Typ[types.String]
	_ = meth
	methT := c.load(m, e.state(c), e.r, e.rT, "Method")
	isOpt := ai.Eq(methT, ai.Str("OPTIONS"))
	done := map[*ai.Term]bool{}
	for _, o := range outs {
		calls, _ := e.next(o.St.Trace())
		for _, call := range calls {
			at := call.St
			w := call.Args[1]
			switch at.Decide(isOpt) {
			case 1:
				if !c.check(w.Op == "ifc", call.Pos, "writer", f.name, "an OPTIONS request is passed on with the plain writer") {
					continue
				}
				if !done[w] {
					done[w] = true
					c.autoOptionsProxy(f, e, m, at, w)
				}
			case -1:
				c.check(w == e.w, call.Pos, "writer", f.name, "a request that is not OPTIONS gets the writer %s instead of the one received", w)
			default:
				if w == e.w {
					c.check(false, call.Pos, "writer", f.name, "the plain writer is passed on for requests that may be OPTIONS")
					continue
				}
				// One proxy for all methods: it would have to look at the
				// method itself, which is beyond this rule.
				c.check(false, call.Pos, "writer", f.name, "whether the request is OPTIONS has not been examined before the writer is replaced")
			}
			flat(o.St.Trace(), func(ev *ai.Event, _ bool) {
				if r, _ := replies(ev, e.w); r && !e.isNext(ev) {
					c.check(false, ev.Pos, "writer", f.name, "the middleware itself touches the response: %s", ev)
				}
			})
		}
	}
	_ = strT
}

func (c *Ctx) autoOptionsProxy(f mwFn, e *mwEnv, m *ai.Machine, at *ai.State, w *ai.Term) {
	x := newObjExplorer(c, m, at, w, f.name+" proxy", e.w, e.c, e.r)
	key := ai.IfcT(types.Typ[types.String], ai.Str(c.constStr("web", "ValidMethodsKey")))
	lst := types.NewSlice(types.Typ[types.String])
	hdrT := c.std("net/http", "Header").Type()
	wh := ai.App("Header", hdrT, e.w)
	// what the context says about valid methods, at the time of the call
	methods := func(st *ai.State) (list *ai.Term, cond []*ai.Term) {
		env := c.load(m, st, e.c, e.cT, "Env")
		v, has := m.MapGet(st, env, key, types.NewInterfaceType(nil, nil))
		list = ai.TA(lst, v)
		return list, []*ai.Term{ai.Not(ai.Eq(env, ai.Nil())), has, ai.IsT(lst, v), ai.Not(ai.Eq(list, ai.Nil()))}
	}
	onW := func(evs []*ai.Event, rec func(ev *ai.Event, in bool)) {
		flat(evs, func(ev *ai.Event, in bool) {
			if ev.Kind == "hdr" {
				if ev.Args[0] == wh && ev.Name != "Get" {
					rec(ev, in)
				}
				return
			}
			for _, a := range ev.Args {
				if a == e.w {
					rec(ev, in)
					return
				}
			}
			if (ev.Kind == "mapset" || ev.Kind == "mapcopy" || ev.Kind == "mapdel") && ev.Args[0] == wh {
				rec(ev, in)
			}
		})
	}
	n := x.explore(x.abstract(at, "untouched"), func(o objState, st *ai.State) []objState {
		var next []objState
		m.Havoc(st, "between")
		for _, mo := range c.methodOuts(m, st, w) {
			name := mo.fn.Name()
			for _, out := range mo.outs {
				if out.Kind != ai.Ret {
					c.check(false, mo.fn.Pos(), "status", f.name+"."+name, "the proxy's %s ends with %s (phase %s) [%s]", name, out.Kind, o.ghost, facts(out.St))
					continue
				}
				var acts []*ai.Event
				loop := false
				onW(out.St.Trace(), func(ev *ai.Event, in bool) { acts = append(acts, ev); loop = loop || in })
				desc := trace(out.St.Trace())
				ghost := o.ghost
				switch name {
				case "Header":
					c.check(len(acts) == 0 && out.Vals[0] == wh, mo.fn.Pos(), "header", f.name+".Header", "Header does not just return the writer's header map")
				case "Write":
					buf := mo.args[0]
					if o.ghost == "replaced" {
						ok := len(acts) == 0 && out.Vals[0] == ai.Len(buf) && isNil(out.St, out.Vals[1]) == 1
						c.check(ok, mo.fn.Pos(), "write", f.name+".Write", "after the reply was replaced the body is not silently dropped [%s]\n%s", facts(out.St), desc)
					} else {
						ok := !loop && len(acts) == 1 && acts[0].Kind == "invoke" && strings.HasSuffix(acts[0].Name, ".Write") && acts[0].Args[1] == buf && len(out.Vals) == 2 && out.Vals[0] == acts[0].Res[0] && out.Vals[1] == acts[0].Res[1]
						c.check(ok, mo.fn.Pos(), "write", f.name+".Write", "in phase %s a body write is not passed through unchanged [%s]\n%s", o.ghost, facts(out.St), desc)
						ghost = "passed"
					}
				case "WriteHeader":
					code := mo.args[0]
					list, cond := methods(st.Copy())
					known, all := true, true
					for _, t := range append(cond, ai.Eq(code, ai.Int(404))) {
						switch out.St.Decide(t) {
						case -1:
							all = false
						case 0:
							known = false
						}
					}
					if o.ghost == "untouched" && all && known {
						c.check(c.replaced(m, out, acts, wh, list), mo.fn.Pos(), "allow", f.name+".WriteHeader", "a 404 to an OPTIONS request with known methods is not replaced by 200 with Allow set to the methods plus OPTIONS [%s]\n%s", facts(out.St), desc)
						ghost = "replaced"
						break
					}
					if o.ghost == "replaced" {
						ok := true
						for _, a := range acts {
							ok = ok && a.Kind == "invoke" && strings.HasSuffix(a.Name, ".WriteHeader")
						}
						c.check(ok, mo.fn.Pos(), "status", f.name+".WriteHeader", "the reply is changed again after it was replaced\n%s", desc)
						break
					}
					ok := !loop && len(acts) == 1 && acts[0].Kind == "invoke" && strings.HasSuffix(acts[0].Name, ".WriteHeader") && acts[0].Args[1] == code
					if ok && o.ghost == "untouched" && all && !known {
						// the status is passed on without the conditions being known to fail
						ok = false
					}
					c.check(ok, mo.fn.Pos(), "status", f.name+".WriteHeader", "in phase %s a status that must be passed through is not (the only one passed unexamined: none) [%s]\n%s", o.ghost, facts(out.St), desc)
					ghost = "passed"
				default:
					// Additional capabilities: they must not write a status or body themselves.
					c.Oblig["extra"]++
				}
				next = append(next, x.abstract(out.St, ghost))
			}
		}
		return next
	})
	c.sample("proxy %s: %d abstract states", types.TypeString(w.Typ, nil), n)
}

// replaced recognises the replacement reply: Allow set to the joined methods
// plus OPTIONS, then status 200.
func (c *Ctx) replaced(m *ai.Machine, out ai.Outcome, acts []*ai.Event, wh, list *ai.Term) bool {
	if len(acts) < 2 {
		return false
	}
	last := acts[len(acts)-1]
	if last.Kind != "invoke" || !strings.HasSuffix(last.Name, ".WriteHeader") || last.Args[1] != ai.Int(200) {
		return false
	}
	for _, a := range acts[:len(acts)-1] {
		if a.Kind != "hdr" {
			return false
		}
	}
	v := m.HeaderGet(last.St.Copy(), wh, "Allow")
	opt := ai.Str("OPTIONS")
	if v.Op == "concat" || v.Op == "app" && v.S == "concat" {
		return concatAllow(v, list)
	}
	if v.Op != "app" || v.S != "strings.Join" || v.Args[1] != ai.Str(", ") && v.Args[1] != ai.Str(",") {
		return false
	}
	s := v.Args[0]
	if s == list {
		// only if OPTIONS is known to be in the list
		found := false
		last.St.Literals(func(t *ai.Term, val bool) {
			if val && t.Op == "eq" {
				for i := 0; i < 2; i++ {
					if t.Args[i] == opt && t.Args[1-i].Op == "ld" && t.Args[1-i].Args[0].Op == "ia" && t.Args[1-i].Args[0].Args[0] == sliceBase(list) {
						found = true
					}
				}
			}
			if val && t.Op == "app" && t.S == "slices.Contains" && t.Args[0] == list && t.Args[1] == opt {
				found = true
			}
		})
		return found
	}
	// list with OPTIONS added at the end
	b, lo, n := ai.SliceParts(s)
	if n != ai.Add(ai.Len(list), ai.Int(1)) {
		return false
	}
	str := types.Typ[types.String]
	el := m.Load(last.St.Copy(), ai.IA(b, ai.Add(lo, ai.Len(list)), str), str)
	i := ai.Sym("anyindex", types.Typ[types.Int])
	st := last.St.Copy()
	st.Assume(ai.Le(ai.Int(0), i), true)
	st.Assume(ai.Lt(i, ai.Len(list)), true)
	lb, llo, _ := ai.SliceParts(list)
	ei := m.Load(st, ai.IA(b, ai.Add(lo, i), str), str)
	want := m.Load(st, ai.IA(lb, ai.Add(llo, i), str), str)
	return el == opt && ei == want
}

func sliceBase(s *ai.Term) *ai.Term { b, _, _ := ai.SliceParts(s); return b }

func concatAllow(v, list *ai.Term) bool {
	// strings.Join(list, ", ") + ", OPTIONS"
	if len(v.Args) != 2 {
		return false
	}
	j, s := v.Args[0], v.Args[1]
	t, ok := s.Str()
	return ok && strings.Trim(t, ", ") == "OPTIONS" && strings.HasPrefix(t, ",") && j.Op == "app" && j.S == "strings.Join" && j.Args[0] == list
}

// --- mutil proxies

// wrapCases analyses WrapWriter.
type wrapCase struct {
	st *ai.State
	v  *ai.Term
}

func (c *Ctx) wrapCases(m *ai.Machine, w *ai.Term) []wrapCase {
	fn := c.fn("web/mutil", "WrapWriter")
	st := ai.NewState()
	st.Assume(ai.Eq(w, ai.Nil()), false)
	var out []wrapCase
	for _, o := range m.Exec(fn, []*ai.Term{w}, st) {
		if o.Kind != ai.Ret || o.Vals[0].Op != "ifc" || o.Vals[0].Args[0].Op != "obj" {
			c.fail(fn.Pos(), "undecided", "WrapWriter", "the result %v is not an object made here", o.Vals)
			continue
		}
		o.St.ClearTrace()
		out = append(out, wrapCase{o.St, o.Vals[0]})
	}
	c.problems(m, "WrapWriter")
	return out
}

func typeShort(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// one evaluates an observer method of the proxy.
func (c *Ctx) one(m *ai.Machine, st *ai.State, v *ai.Term, name string) *ai.Term {
	fn := c.meth(v.Typ, name)
	s := st.Copy()
	s.ClearTrace()
	outs := m.Invoke(s, v, fn.Object().(*types.Func), nil)
	if len(outs) != 1 || outs[0].Kind != ai.Ret || len(outs[0].Vals) != 1 {
		return ai.Sym("undecided:"+name, nil)
	}
	return outs[0].Vals[0]
}

func runProxy(c *Ctx, prop string) {
	w := ai.Sym("w", c.std("net/http", "ResponseWriter").Type())
	m := c.M.Sub()
	depth := 0
	m.Opaque = func(m *ai.Machine, st *ai.State, cc *ai.CallCtx) ([]ai.Outcome, bool) {
		if cc.Kind == "call" && (cc.Name == "io.Copy" || cc.Name == "io.CopyBuffer") && ours(cc.Args[0]) {
			return c.ioCopy(m, st, cc, &depth), true
		}
		return nil, false
	}
	cases := c.wrapCases(m, w)
	// One exploration per kind of proxy and capability facts.
	for _, wc := range cases {
		c.proxyCase(prop, m, wc, w)
	}
	c.problems(m, "response proxy")
}

// ioCopy models io.Copy into one of the proxies: any number of Write calls on
// the destination (if it has ReadFrom, that is called instead). No, one and
// two calls represent all numbers, every state between two calls being one
// from which Write is analysed anyway.
func (c *Ctx) ioCopy(m *ai.Machine, st *ai.State, cc *ai.CallCtx, depth *int) []ai.Outcome {
	dst, src := cc.Args[0], cc.Args[1]
	int64T := types.Typ[types.Int64]
	errT := types.Universe.Lookup("error").Type()
	if rf := c.hasMeth(dst.Typ, "ReadFrom"); rf != nil {
		if *depth > 0 {
			c.fail(cc.Pos, "bytes", short(cc.In.String()), "copying into the proxy calls ReadFrom of the proxy again without end")
			return []ai.Outcome{{Kind: ai.Block, St: st}}
		}
		*depth++
		outs := m.Invoke(st, dst, rf.Object().(*types.Func), []*ai.Term{src})
		*depth--
		return outs
	}
	wr := c.hasMeth(dst.Typ, "Write")
	if wr == nil {
		return nil
	}
	type part struct {
		st *ai.State
		n  *ai.Term
	}
	cur := []part{{st, ai.Int(0)}}
	var outs []ai.Outcome
	for k := 0; k <= 2; k++ {
		var nx []part
		for _, p := range cur {
			s := p.st.Copy()
			e := s.Fresh("err:io.Copy", errT)
			outs = append(outs, ai.Outcome{Kind: ai.Ret, St: s, Vals: []*ai.Term{p.n, e}})
			if k == 2 {
				continue
			}
			s = p.st.Copy()
			buf := s.Fresh("copybuf", types.NewSlice(types.Typ[types.Byte]))
			for _, o := range m.Invoke(s, dst, wr.Object().(*types.Func), []*ai.Term{buf}) {
				if o.Kind != ai.Ret {
					outs = append(outs, o)
					continue
				}
				nx = append(nx, part{o.St, ai.Add(p.n, o.Vals[0])})
			}
		}
		cur = nx
	}
	_ = int64T
	return outs
}

// codeCases splits a state so that it is decided whether code is final.
func codeCases(st *ai.State, code *ai.Term) (final, info []*ai.State) {
	try := func(conds ...*ai.Term) *ai.State {
		s := st.Copy()
		for _, t := range conds {
			if s.Decide(t) == -1 || !s.Assume(t, true) {
				return nil
			}
		}
		return s
	}
	add := func(l *[]*ai.State, s *ai.State) {
		if s != nil {
			*l = append(*l, s)
		}
	}
	add(&final, try(ai.Lt(code, ai.Int(100))))
	add(&final, try(ai.Le(ai.Int(200), code)))
	add(&final, try(ai.Eq(code, ai.Int(101))))
	add(&info, try(ai.Le(ai.Int(100), code), ai.Lt(code, ai.Int(200)), ai.Not(ai.Eq(code, ai.Int(101)))))
	return
}

type wire struct {
	sent   bool
	status *ai.Term
	bytes  *ai.Term
}

func (c *Ctx) proxyCase(prop string, m *ai.Machine, wc wrapCase, w *ai.Term) {
	tn := typeShort(wc.v.Typ)
	x := newObjExplorer(c, m, wc.st, wc.v, tn, w)
	if prop == "C22" {
		pos := c.meth(wc.v.Typ, "Status").Pos()
		c.check(c.one(m, wc.st, wc.v, "Status") == ai.Int(0), pos, "initial", tn, "a fresh proxy's status is not 0")
		c.check(c.one(m, wc.st, wc.v, "BytesWritten") == ai.Int(0), pos, "initial", tn, "a fresh proxy's byte count is not 0")
	}
	n := x.explore(x.abstract(wc.st, "unsent"), func(o objState, st *ai.State) []objState {
		var next []objState
		status, bytes := c.one(m, st, wc.v, "Status"), c.one(m, st, wc.v, "BytesWritten")
		for _, mo := range c.methodOuts(m, st, wc.v) {
			name := tn + "." + mo.fn.Name()
			for _, out := range mo.outs {
				if out.Kind != ai.Ret {
					continue // C24
				}
				evs := out.St.Trace()
				if prop == "C23" {
					c.teeRule(m, name, mo, out, st, x, o, w)
				}
				// Replay the calls on the underlying writer.
				type rs struct {
					st *ai.State
					wr wire
				}
				cur := []rs{{out.St, wire{o.ghost == "sent", status, bytes}}}
				flat(evs, func(ev *ai.Event, in bool) {
					if len(ev.Args) == 0 || ev.Args[0] != w || ev.Kind != "invoke" {
						for _, a := range ev.Args {
							if a == w && (ev.Kind == "call" || ev.Kind == "dyn" || ev.Kind == "go") && prop == "C22" {
								c.check(false, ev.Pos, "bytes", name, "the underlying writer is handed to %s, which may write to it unseen", ev.Name)
							}
						}
						return
					}
					if in && prop == "C22" {
						c.check(false, ev.Pos, "once", name, "the underlying writer is called inside a loop")
					}
					mn := ev.Name[strings.LastIndexByte(ev.Name, '.')+1:]
					var nx []rs
					for _, r := range cur {
						implicit := func() {
							if !r.wr.sent {
								r.wr.sent, r.wr.status = true, ai.Int(200)
							}
						}
						switch mn {
						case "WriteHeader":
							fin, inf := codeCases(r.st, ev.Args[1])
							for _, s := range inf {
								nx = append(nx, rs{s, r.wr})
							}
							for _, s := range fin {
								if prop == "C22" {
									c.check(!r.wr.sent, ev.Pos, "once", name, "a second final status (%s) is sent to the underlying writer [%s]\n%s", ev.Args[1], facts(s), trace(evs))
								}
								nx = append(nx, rs{s, wire{true, ev.Args[1], r.wr.bytes}})
							}
							continue
						case "Write", "WriteString", "ReadFrom":
							implicit()
							r.wr.bytes = ai.Add(r.wr.bytes, ev.Res[0])
						case "Flush", "FlushError":
							implicit()
						}
						nx = append(nx, r)
					}
					cur = nx
				})
				for _, r := range cur {
					s2, b2 := c.one(m, r.st, wc.v, "Status"), c.one(m, r.st, wc.v, "BytesWritten")
					if prop == "C22" {
						want := r.wr.status
						if !r.wr.sent {
							want = ai.Int(0)
						}
						c.check(r.st.Decide(ai.Eq(s2, want)) == 1, mo.fn.Pos(), "status", name, "afterwards the proxy reports status %s, but the underlying writer's is %s [%s]\n%s", s2, want, facts(r.st), trace(evs))
						c.check(b2 == r.wr.bytes, mo.fn.Pos(), "bytes", name, "afterwards the proxy reports %s body bytes, but the underlying writer accepted %s [%s]\n%s", b2, r.wr.bytes, facts(r.st), trace(evs))
						c.check(true, mo.fn.Pos(), "once", name, "")
					}
					g := "unsent"
					if r.wr.sent {
						g = "sent"
					}
					next = append(next, x.abstract(r.st, g))
				}
			}
		}
		return next
	})
	c.sample("%s: %d abstract states", tn, n)
}

// teeRule checks C23 on one path of one operation.
func (c *Ctx) teeRule(m *ai.Machine, name string, mo methodOut, out ai.Outcome, pre *ai.State, x *objExplorer, o objState, w *ai.Term) {
	// The tee is whatever Tee stores: find it by looking at what Tee changes.
	tee := c.teeCell(m, x)
	if tee == nil {
		c.must(0, "anchor", name, "no cell of the proxy holds the tee")
	}
	tv := m.Load(pre.Copy(), tee.addr, tee.typ)
	set := isNil(pre, tv)
	if mo.fn.Name() == "Tee" {
		got := m.Load(out.St.Copy(), tee.addr, tee.typ)
		c.check(got == mo.args[0] || isNil(out.St, mo.args[0]) == 1 && isNil(out.St, got) == 1, mo.fn.Pos(), "only", name, "Tee does not set the tee")
		return
	}
	evs := out.St.Trace()
	var pending *ai.Event
	var lastErr, lastTeeErr, lastN *ai.Term
	flush := func() {
		if pending != nil && set != 1 {
			n := pending.Res[0]
			none := out.St.Decide(ai.Le(n, ai.Int(0))) == 1
			c.check(none || isNil(out.St, tv) == 1, pending.Pos, "teed", name, "%s bytes sent to the underlying writer are not written to the tee [%s]\n%s", n, facts(out.St), trace(evs))
		}
		pending = nil
	}
	flat(evs, func(ev *ai.Event, in bool) {
		if ev.Kind != "invoke" || len(ev.Args) == 0 {
			return
		}
		mn := ev.Name[strings.LastIndexByte(ev.Name, '.')+1:]
		switch {
		case ev.Args[0] == w && (mn == "Write" || mn == "WriteString"):
			flush()
			pending = ev
			lastErr, lastN, lastTeeErr = ev.Res[1], ev.Res[0], nil
		case ev.Args[0] == w && mn == "ReadFrom":
			flush()
			c.check(isNil(out.St, tv) == 1, ev.Pos, "teed", name, "with a tee set, body bytes are sent by ReadFrom, which bypasses the tee [%s]", facts(out.St))
			lastErr, lastN, lastTeeErr = nil, nil, nil
		case ev.Args[0] == tv && set != 1 && tv.Op != "nil":
			ok := false
			if pending != nil {
				b1, l1, _ := ai.SliceParts(pending.Args[1])
				b2, l2, n2 := ai.SliceParts(ev.Args[1])
				ok = mn == "Write" && b1 == b2 && l1 == l2 && n2 == pending.Res[0]
				if !ok && n2 == ai.Len(pending.Args[1]) && b1 == b2 && l1 == l2 {
					ok = out.St.Decide(ai.Eq(n2, pending.Res[0])) == 1
				}
			}
			c.check(ok && !in, ev.Pos, "teed", name, "the tee is given %s, not exactly the bytes the underlying writer accepted before [%s]\n%s", ev.Args[1], facts(out.St), trace(evs))
			if len(ev.Res) > 1 {
				lastTeeErr = ev.Res[1]
			}
			pending = nil
		}
	})
	flush()
	c.Oblig["only"]++
	if mo.fn.Name() == "Write" && lastErr != nil && len(out.Vals) == 2 {
		c.check(out.Vals[0] == lastN, mo.fn.Pos(), "error", name, "the byte count returned is %s, not the underlying writer's %s", out.Vals[0], lastN)
		got := out.Vals[1]
		var ok bool
		switch {
		case lastTeeErr == nil:
			ok = got == lastErr || isNil(out.St, got) == 1 && isNil(out.St, lastErr) == 1
		case isNil(out.St, lastErr) == -1:
			ok = got == lastErr
		case isNil(out.St, lastErr) == 1:
			ok = got == lastTeeErr || isNil(out.St, got) == 1 && isNil(out.St, lastTeeErr) == 1
		}
		c.check(ok, mo.fn.Pos(), "error", name, "the error returned is %s although the underlying writer's is %s and the tee's %v [%s]", got, lastErr, lastTeeErr, facts(out.St))
	}
}

// teeCell finds the cell that the proxy's Tee method sets.
func (c *Ctx) teeCell(m *ai.Machine, x *objExplorer) *leaf {
	var found *leaf
	v := ai.IfcT(types.NewPointer(x.obj.Typ), x.obj)
	fn := c.meth(v.Typ, "Tee")
	arg := ai.Sym("newtee", fn.Signature.Params().At(0).Type())
	st := x.base.Copy()
	st.Assume(ai.Eq(arg, ai.Nil()), false)
	for _, o := range m.Invoke(st, v, fn.Object().(*types.Func), []*ai.Term{arg}) {
		for i := range x.ls {
			if m.Load(o.St.Copy(), x.ls[i].addr, x.ls[i].typ) == arg {
				found = &x.ls[i]
			}
		}
	}
	return found
}

func runC24(c *Ctx) {
	w := ai.Sym("w", c.std("net/http", "ResponseWriter").Type())
	m := c.M.Sub()
	depth := 0
	m.Opaque = func(m *ai.Machine, st *ai.State, cc *ai.CallCtx) ([]ai.Outcome, bool) {
		if cc.Kind == "call" && (cc.Name == "io.Copy" || cc.Name == "io.CopyBuffer") && ours(cc.Args[0]) {
			return c.ioCopy(m, st, cc, &depth), true
		}
		return nil, false
	}
	flusher := c.std("net/http", "Flusher").Type()
	var pusher types.Type
	if p := c.P.Std("net/http").Scope().Lookup("Pusher"); p != nil {
		pusher = p.Type()
	}
	hdrT := c.std("net/http", "Header").Type()
	for _, wc := range c.wrapCases(m, w) {
		tn := typeShort(wc.v.Typ)
		pos := c.fn("web/mutil", "WrapWriter").Pos()
		c.check(c.hasMeth(wc.v.Typ, "Flush") != nil || wc.st.Decide(ai.IsT(flusher, w)) == -1, pos, "flush", tn, "a writer that can flush may be wrapped in a proxy that cannot [%s]", facts(wc.st))
		x := newObjExplorer(c, m, wc.st, wc.v, tn, w)
		x.explore(x.abstract(wc.st, ""), func(o objState, st *ai.State) []objState {
			var next []objState
			for _, mo := range c.methodOuts(m, st, wc.v) {
				name := tn + "." + mo.fn.Name()
				fw := 0
				for _, out := range mo.outs {
					evs := out.St.Trace()
					c.check(out.Kind == ai.Ret, mo.fn.Pos(), "nopanic", name, "calling %s can end with %s [%s]\n%s", mo.fn.Name(), out.Kind, facts(out.St), trace(evs))
					if out.Kind != ai.Ret {
						continue
					}
					next = append(next, x.abstract(out.St, ""))
					// the calls on the wrapped writer
					var same *ai.Event
					cnt := 0
					flat(evs, func(ev *ai.Event, in bool) {
						if ev.Kind != "invoke" || ev.Args[0] != w {
							return
						}
						mn := ev.Name[strings.LastIndexByte(ev.Name, '.')+1:]
						if mn == mo.fn.Name() {
							same = ev
							cnt++
						} else {
							ok := mn == "WriteHeader" && mo.fn.Name() != "Header" || mn == "Write" && mo.fn.Name() == "ReadFrom" || mn == "Write" && mo.fn.Name() == "WriteString"
							c.check(ok, ev.Pos, "forward", name, "%s calls %s of the wrapped writer", mo.fn.Name(), mn)
						}
					})
					args := func() bool {
						for i, a := range mo.args {
							if same.Args[i+1] != a {
								return false
							}
						}
						for i, v := range out.Vals {
							if i >= len(same.Res) || v != same.Res[i] && !(isNil(out.St, v) == 1 && isNil(out.St, same.Res[i]) == 1) {
								return false
							}
						}
						return len(out.Vals) == len(same.Res)
					}
					switch mo.fn.Name() {
					case "Header":
						c.check(out.Vals[0] == ai.App("Header", hdrT, w), mo.fn.Pos(), "forward", name, "Header does not return the wrapped writer's header map but %s", out.Vals[0])
					case "Unwrap":
						c.check(out.Vals[0] == w, mo.fn.Pos(), "forward", name, "Unwrap does not return the wrapped writer but %s", out.Vals[0])
					case "CloseNotify", "Flush", "Hijack":
						c.check(cnt == 1 && args(), mo.fn.Pos(), "forward", name, "%s is not forwarded exactly once with its arguments and results [%s]\n%s", mo.fn.Name(), facts(out.St), trace(evs))
					case "Push":
						if pusher != nil && out.St.Decide(ai.IsT(pusher, w)) == 1 || cnt > 0 {
							c.check(cnt == 1 && args(), mo.fn.Pos(), "forward", name, "Push is not forwarded exactly once with its arguments and results [%s]", facts(out.St))
						} else {
							c.check(isNil(out.St, out.Vals[0]) == -1 && pusher != nil && out.St.Decide(ai.IsT(pusher, w)) == -1, mo.fn.Pos(), "forward", name, "Push neither forwards nor reports an error [%s]", facts(out.St))
						}
					case "Write":
						c.check(cnt == 1 && same.Args[1] == mo.args[0], mo.fn.Pos(), "forward", name, "the body is not passed to the wrapped writer exactly once [%s]\n%s", facts(out.St), trace(evs))
					case "ReadFrom":
						if cnt > 0 {
							c.check(cnt == 1 && args(), mo.fn.Pos(), "forward", name, "ReadFrom is not forwarded exactly once with its arguments and results [%s]", facts(out.St))
						}
						fw++
					case "WriteHeader":
						if cnt > 0 {
							c.check(cnt == 1 && same.Args[1] == mo.args[0], mo.fn.Pos(), "forward", name, "the status is not passed on unchanged [%s]", facts(out.St))
							fw++
						} else {
							// dropped: only once a final status went out (C22 decides which)
							fw++
						}
					}
				}
			}
			return next
		})
	}
	c.problems(m, "response proxy")
}

// ours reports whether an interface value holds an object allocated in the
// analysed code (or a part of one).
func ours(v *ai.Term) bool {
	if v.Op != "ifc" {
		return false
	}
	found := false
	v.Args[0].Subterms(func(t *ai.Term) { found = found || t.Op == "obj" })
	return found
}
