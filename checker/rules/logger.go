package rules

import (
	"go/constant"
	"go/types"
	"strings"

	"gojicheck/ai"
)

func init() {
	register(&Rule{Prop: "C43", Technique: "path-partitioned abstract interpretation over SSA; ingredient (backward flow) analysis of every logged line",
		Explain: "the handler Logger builds is analysed with an arbitrary context, writer, request and next handler; on every path exactly one log call must happen before the next handler and exactly one after it returned, and everything that flows into each line (through buffers, builders, formatting and concatenation) is computed: method, URL (only ever quoted) and remote address in the first, the non-zero status the response proxy reports at that point and the time passed in the second, and in both the request ID unless it is empty on the path",
		Limits:  "the text around these ingredients is not checked; a handler that panics may or may not get a second line",
		Min:     map[string]int{"once": 8, "method": 4, "url": 4, "quoted": 4, "address": 4, "id": 4, "status": 8, "time": 4}, Run: runC43})
	register(&Rule{Prop: "C44", Technique: "path-partitioned abstract interpretation over SSA; state comparison of the context at the inner call, effect rule afterwards",
		Explain: "every bundled middleware that takes the context is analysed with an arbitrary context; when the next handler is called the environment must be the map that was there (or, if there was none, a new one) with no entry changed but the one the middleware documents, which must hold the documented value, and the URL parameters must be untouched; after the call nothing of the context may be written (SubRouter excepted)",
		Min:     map[string]int{"environment": 8, "entries": 8, "params": 8, "entry": 4, "present": 6, "after": 8}, Run: runC44})
}

// ingredient is something that flows into a logged line.
type ingredient struct {
	t      *ai.Term
	quoted bool
}

// ingredients computes what flows into the arguments of a call: a backward
// traversal over the results of the calls on the path and the buffers these
// were collected in.
func (c *Ctx) ingredients(m *ai.Machine, evs []*ai.Event, upto *ai.Event) []ingredient {
	end := len(evs)
	for i, e := range evs {
		if e == upto {
			end = i
		}
	}
	var out []ingredient
	type work struct {
		t      *ai.Term
		quoted bool
	}
	seen := map[work]bool{}
	byRes := map[*ai.Term]int{}
	for i, e := range evs[:end] {
		for _, r := range e.Res {
			if !r.IsConst() && !r.IsNil() {
				byRes[r] = i
			}
		}
	}
	var visit func(t *ai.Term, quoted bool, end int, st *ai.State)
	args := func(as []*ai.Term, st *ai.State) []*ai.Term {
		var out []*ai.Term
		for _, a := range as {
			if a.Op == "sl" && a.Typ != nil {
				if vs, ok := m.Elems(st, a); ok {
					out = append(out, vs...)
					continue
				}
			}
			out = append(out, a)
		}
		return out
	}
	format := func(name string, as []*ai.Term, quoted bool, end int, st *ai.State) {
		as = args(as, st)
		if strings.HasSuffix(name, "f") && len(as) > 0 {
			if f, ok := as[0].Str(); ok {
				vs := formatVerbs(f)
				if len(vs) == len(as)-1 {
					for i, v := range vs {
						visit(as[i+1], quoted || strings.IndexByte("qxX", v[len(v)-1]) >= 0, end, st)
					}
					return
				}
			}
		}
		for _, a := range as {
			visit(a, quoted, end, st)
		}
	}
	buffer := func(b *ai.Term, quoted bool, end int) {
		from := 0
		for i, e := range evs[:end] {
			if strings.HasSuffix(e.Name, ").Reset") && len(e.Args) == 1 && e.Args[0] == b {
				from = i
			}
		}
		for i := from; i < end; i++ {
			e := evs[i]
			if len(e.Args) < 2 {
				continue
			}
			d := e.Args[0]
			if d.Op == "ifc" {
				d = d.Args[0]
			}
			if d != b {
				continue
			}
			switch {
			case strings.HasPrefix(e.Name, "fmt.Fprint"):
				format(e.Name, e.Args[1:], quoted, i, e.St)
			default:
				for _, a := range args(e.Args[1:], e.St) {
					visit(a, quoted, i, e.St)
				}
			}
		}
	}
	visit = func(t *ai.Term, quoted bool, end int, st *ai.State) {
		if seen[work{t, quoted}] {
			return
		}
		seen[work{t, quoted}] = true
		if i, ok := byRes[t]; ok && i < end {
			e := evs[i]
			switch e.Name {
			case "(*bytes.Buffer).String", "(*strings.Builder).String", "(*bytes.Buffer).Bytes":
				buffer(e.Args[0], quoted, i)
				return
			}
		}
		switch {
		case t.Op == "ifc":
			visit(t.Args[0], quoted, end, st)
			return
		case t.Op == "concat":
			for _, a := range t.Args {
				visit(a, quoted, end, st)
			}
			return
		case t.Op == "app" && strings.HasPrefix(t.S, "strconv.Quote"):
			for _, a := range t.Args {
				visit(a, true, end, st)
			}
			return
		case t.Op == "app" && strings.HasPrefix(t.S, "fmt.Sprint"):
			format(t.S, t.Args, quoted, end, st)
			return
		case t.Op == "app" && t.S == "strings.Join":
			for _, a := range args(t.Args, st) {
				visit(a, quoted, end, st)
			}
			return
		case t.Op == "app" && strings.HasPrefix(t.S, "convert") && len(t.Args) == 1:
			visit(t.Args[0], quoted, end, st)
			return
		}
		out = append(out, ingredient{t, quoted})
	}
	format(upto.Name[strings.LastIndexByte(upto.Name, '.')+1:], upto.Args, false, end, upto.St)
	return out
}

func runC43(c *Ctx) {
	f := c.mw("Logger")
	e := c.mwEnv()
	ini := e.state(c)
	m := c.M.Sub()
	ua, _ := c.fa(e.r, e.rT, "URL")
	url := c.load(m, ini, e.r, e.rT, "URL")
	uri := c.load(m, ini, e.r, e.rT, "RequestURI")
	method := c.load(m, ini, e.r, e.rT, "Method")
	remote := c.load(m, ini, e.r, e.rT, "RemoteAddr")
	env := c.load(m, ini, e.c, e.cT, "Env")
	str := types.Typ[types.String]
	key := ai.IfcT(str, ai.K(constant.MakeString(c.constStr("web/middleware", "RequestIDKey")), str))
	idv, has := m.MapGet(ini.Copy(), env, key, types.NewInterfaceType(nil, nil))
	id := ai.TA(str, idv)
	wpT := c.named("web/mutil", "WriterProxy")
	status := c.ifaceMeth(wpT, "Status")
	// Requests with an ID, then all requests.
	depth := 0
	all := func(m *ai.Machine, e *mwEnv, st *ai.State) {
		m.OutLimit, m.PtLimit = 64, 64
		m.Opaque = func(m *ai.Machine, s *ai.State, cc *ai.CallCtx) ([]ai.Outcome, bool) {
			switch {
			case cc.Kind == "call" && (cc.Name == "io.Copy" || cc.Name == "io.CopyBuffer") && ours(cc.Args[0]):
				return c.ioCopy(m, s, cc, &depth), true
			case cc.Kind == "invoke" && cc.Recv == e.w:
				// The underlying writer does not call back into the proxy.
				return m.BenignCall(s, cc), true
			case cc.Kind == "invoke" && cc.Recv == e.h && len(cc.Args) == 2 && ours(cc.Args[0]) && c.hasMeth(cc.Args[0].Typ, "Status") != nil:
				return c.nextWithProxy(m, s, cc, e.w), true
			}
			return nil, false
		}
	}
	withID := func(m *ai.Machine, e *mwEnv, st *ai.State) {
		all(m, e, st)
		st.Assume(ai.Eq(env, ai.Nil()), false)
		st.Assume(has, true)
		st.Assume(ai.IsT(str, idv), true)
		st.Assume(ai.Eq(id, ai.Str("")), false)
	}
	_, m1, outs := c.runMW(f, withID)
	n := len(outs)
	_, m2, outs2 := c.runMW(f, all)
	fromURL := func(t *ai.Term) bool { return t.Mentions(url) || t.Mentions(ua) || t.Mentions(uri) }
	for oi, o := range append(outs, outs2...) {
		identified := oi < n
		m := m1
		if !identified {
			m = m2
		}
		evs := o.St.Trace()
		calls, _ := e.next(evs)
		if len(calls) != 1 {
			continue // C17
		}
		next := calls[0]
		ni := -1
		for i, ev := range evs {
			if ev == next {
				ni = i
			}
		}
		if ni < 0 {
			c.check(false, next.Pos, "once", f.name, "the next handler is called in a loop")
			continue
		}
		var before, after []*ai.Event
		looped := false
		for i, ev := range evs {
			if ev.Kind == "loop" {
				flat([]*ai.Event{ev}, func(e *ai.Event, _ bool) { looped = looped || isLog(e) })
			}
			if isLog(ev) {
				if i < ni {
					before = append(before, ev)
				} else {
					after = append(after, ev)
				}
			}
		}
		c.check(!looped, next.Pos, "once", f.name, "lines are logged in a loop")
		if !c.check(len(before) == 1, next.Pos, "once", f.name, "%d lines are logged before the next handler is called, not one [%s]\n%s", len(before), facts(o.St), trace(evs)) {
			continue
		}
		line := func(ev *ai.Event, what string, ing []ingredient, pred func(t *ai.Term) bool) bool {
			for _, i := range ing {
				if pred(i.t) {
					return true
				}
			}
			return false
		}
		ids := func(ev *ai.Event, ing []ingredient, which string) {
			if !identified {
				return
			}
			c.check(line(ev, "id", ing, func(t *ai.Term) bool { return t == id || t == idv }), ev.Pos, "id", f.name, "the %s line lacks the request's ID [%s]", which, facts(o.St))
		}
		quoted := func(ev *ai.Event, ing []ingredient, which string) {
			for _, i := range ing {
				if fromURL(i.t) {
					c.check(i.quoted, ev.Pos, "quoted", f.name, "the %s line contains %s without quoting it", which, i.t)
				}
			}
		}
		st := before[0]
		ing := c.ingredients(m, evs, st)
		c.check(line(st, "method", ing, func(t *ai.Term) bool { return t.Mentions(method) }), st.Pos, "method", f.name, "the first line lacks the request's method")
		c.check(line(st, "url", ing, fromURL), st.Pos, "url", f.name, "the first line lacks the request's URL")
		c.check(line(st, "address", ing, func(t *ai.Term) bool { return t.Mentions(remote) }), st.Pos, "address", f.name, "the first line lacks the remote address")
		quoted(st, ing, "first")
		ids(st, ing, "first")
		if o.Kind != ai.Ret {
			c.check(len(after) <= 1, next.Pos, "once", f.name, "%d lines are logged after the next handler panicked", len(after))
			continue
		}
		if !c.check(len(after) == 1, next.Pos, "once", f.name, "%d lines are logged after the next handler returned, not one [%s]\n%s", len(after), facts(o.St), trace(evs)) {
			continue
		}
		en := after[0]
		ing = c.ingredients(m, evs, en)
		quoted(en, ing, "last")
		ids(en, ing, "last")
		// The status, as the proxy the next handler was given reports it.
		w := next.Args[1]
		n := 0
		if w.Op == "ifc" {
			s2 := en.St.Copy()
			s2.ClearTrace()
			for _, q := range m.Sub().Invoke(s2, w, status, nil) {
				if q.Kind != ai.Ret || len(q.Vals) != 1 {
					continue
				}
				n++
				v := q.Vals[0]
				has := func(t *ai.Term) bool {
					if v.IsConst() {
						return t == v
					}
					return t.Mentions(v)
				}
				c.check(line(en, "status", ing, has), en.Pos, "status", f.name, "the last line lacks the response's status (%s) [%s]", v, facts(q.St))
				c.check(q.St.Decide(unsent) == -1 || q.St.Decide(ai.Eq(v, ai.Int(0))) == -1, en.Pos, "status", f.name, "the last line may report the status of a response nothing was sent for (%s) [%s]", v, facts(q.St))
			}
		}
		c.check(n > 0, en.Pos, "status", f.name, "the next handler is not given a response proxy that reports its status (%s)", w)
		// The time passed.
		var t1, t2 []*ai.Term
		for i, ev := range evs {
			switch {
			case ev.Name == "time.Now" && i < ni:
				t1 = append(t1, ev.Res...)
			case ev.Name == "time.Now":
				t2 = append(t2, ev.Res...)
			case ev.Name == "time.Since" && i > ni && mentionsAny(ev.Args[0], t1):
				t1, t2 = append(t1, ev.Res...), append(t2, ev.Res...)
			}
		}
		c.check(line(en, "time", ing, func(t *ai.Term) bool { return mentionsAny(t, t1) && mentionsAny(t, t2) }), en.Pos, "time", f.name, "the last line lacks the time the next handler took")
	}
	c.sample("Logger: %d abstract paths", n+len(outs2))
}

// unsent marks the paths on which the next handler sent nothing.
var unsent = ai.Sym("unsent", types.Typ[types.Bool])

// nextWithProxy is the next handler, which may call the methods of the proxy
// it is given in any order, but cannot change the proxy otherwise.
func (c *Ctx) nextWithProxy(m *ai.Machine, s *ai.State, cc *ai.CallCtx, w *ai.Term) []ai.Outcome {
	v := cc.Args[0]
	base := s.Copy()
	x := newObjExplorer(c, m, base, v, typeShort(v.Typ), w)
	var reached []objState
	x.explore(x.abstract(base, ""), func(o objState, st *ai.State) []objState {
		reached = append(reached, o)
		var next []objState
		for _, mo := range c.methodOuts(m, st, v) {
			for _, out := range mo.outs {
				if out.Kind == ai.Ret {
					next = append(next, x.abstract(out.St, ""))
				}
			}
		}
		return next
	})
	var outs []ai.Outcome
	for _, o := range m.DefaultCall(s, cc) {
		if o.Kind != ai.Ret {
			outs = append(outs, o)
			continue
		}
		for _, r := range reached {
			st := o.St.Copy()
			for i, l := range x.ls {
				m.SetCell(st, l.addr, r.vals[i])
				if r.nn[i] == -1 {
					st.Assume(ai.Eq(r.vals[i], ai.Nil()), false)
				}
			}
			status := c.one(m, st, v, "Status")
			st.Assume(unsent, status == ai.Int(0))
			if status != ai.Int(0) {
				// net/http refuses codes below 100.
				st.Assume(ai.Eq(status, ai.Int(0)), false)
			}
			outs = append(outs, ai.Outcome{Kind: ai.Ret, St: st, Vals: o.Vals})
		}
	}
	return outs
}

func mentionsAny(t *ai.Term, us []*ai.Term) bool {
	for _, u := range us {
		if t.Mentions(u) {
			return true
		}
	}
	return false
}

// --- C44

func runC44(c *Ctx) {
	str := types.Typ[types.String]
	// The entry each middleware documents.
	own := map[string]string{
		"RequestID": c.constStr("web/middleware", "RequestIDKey"),
		"URLQuery":  c.constStr("web/middleware", "URLQueryKey"),
		"SubRouter": c.constStr("web", "MatchKey"),
	}
	known := map[string]bool{}
	for _, n := range requiredMW {
		known[n] = true
	}
	for _, f := range c.middlewares() {
		if !f.ctx || f.recv || !known[f.name] {
			continue
		}
		e, m, outs := c.runMW(f, nil)
		ini := e.state(c)
		env0 := c.load(m, ini, e.c, e.cT, "Env")
		par0 := c.load(m, ini, e.c, e.cT, "URLParams")
		envT := env0.Typ
		var ownK *ai.Term
		if k, ok := own[f.name]; ok {
			ownK = ai.IfcT(str, ai.K(constant.MakeString(k), str))
		}
		base0, _, _, _ := m.MapContent(ini, env0)
		pbase0, _, _, _ := m.MapContent(ini, par0)
		for _, o := range outs {
			evs := o.St.Trace()
			calls, looped := e.next(evs)
			if len(calls) != 1 || looped {
				continue // C17
			}
			next := calls[0]
			at := next.St
			env := c.load(m, at, e.c, e.cT, "Env")
			par := c.load(m, at, e.c, e.cT, "URLParams")
			base, keys, present, vals := m.MapContent(at, env)
			was := isNil(at, env0)
			same := env == env0 || at.Decide(ai.Eq(env, env0)) == 1
			switch {
			case was == 1:
				// There was none: none, or a new one.
				ok := isNil(at, env) == 1 || env.Op == "obj" && base == "empty"
				c.check(ok, next.Pos, "environment", f.name, "a context without environment gets %s, which is no new map [%s]", env, facts(at))
			case was == -1 && !same && env.Op == "obj" && base != "empty":
				c.check(base == base0, next.Pos, "environment", f.name, "the environment is replaced by %s, which is no copy of it [%s]", env, facts(at))
			default:
				c.check(same && base == base0, next.Pos, "environment", f.name, "the environment is replaced by %s (nil: %d) although there may be one [%s]", env, isNil(at, env), facts(at))
			}
			foreign := ""
			for i, k := range keys {
				if ownK != nil && k == ownK {
					continue
				}
				v0, p0 := m.MapGet(ini.Copy(), env0, k, vals[i].Typ)
				if present[i] == p0 && vals[i] == v0 {
					continue
				}
				if was == 1 && at.Decide(present[i]) == -1 {
					continue
				}
				foreign = k.String()
			}
			c.check(foreign == "", next.Pos, "entries", f.name, "the entry %s of the environment is changed, which is not this middleware's [%s]", foreign, facts(at))
			pb, pk, _, _ := m.MapContent(at, par)
			c.check(par == par0 && pb == pbase0 && len(pk) == 0, next.Pos, "params", f.name, "the URL parameters are changed [%s]\n%s", facts(at), trace(evs))
			switch f.name {
			case "EnvInit", "RequestID", "URLQuery":
				c.check(isNil(at, env) == -1, next.Pos, "present", f.name, "the next handler runs without an environment [%s]", facts(at))
			}
			switch f.name {
			case "RequestID", "URLQuery":
				v, p := m.MapGet(at.Copy(), env, ownK, envT.Underlying().(*types.Map).Elem())
				ok := at.Decide(p) == 1
				if f.name == "RequestID" {
					ok = ok && v.Op == "ifc" && types.Identical(v.Typ, str) && at.Decide(ai.Eq(v.Args[0], ai.Str(""))) != 1
				} else {
					ok = ok && v.Op == "ifc" && types.Identical(v.Typ, c.std("net/url", "Values").Type()) && c.isQuery(m, ini, e, v.Args[0])
				}
				c.check(ok, next.Pos, "entry", f.name, "the environment's entry %s is %s when the next handler runs [%s]", ownK, v, facts(at))
			}
			if f.name == "SubRouter" {
				continue // C18
			}
			past := false
			for _, ev := range evs {
				if ev == next {
					past = true
					continue
				}
				if !past {
					continue
				}
				bad := ""
				flat([]*ai.Event{ev}, func(ev *ai.Event, _ bool) {
					if len(ev.Args) == 0 {
						return
					}
					a := ev.Args[0]
					switch ev.Kind {
					case "mapset", "mapdel", "mapcopy", "clear":
						if a.Typ != nil && (types.Identical(a.Typ, envT) || types.Identical(a.Typ, par0.Typ)) {
							bad = ev.String()
						}
					case "store":
						if a.Root() == e.c {
							bad = ev.String()
						}
					}
				})
				c.check(bad == "", ev.Pos, "after", f.name, "the context is changed after the next handler ran: %s", bad)
			}
			c.check(true, next.Pos, "after", f.name, "")
		}
		c.sample("%s: %d abstract paths", f.name, len(outs))
	}
}

// isQuery reports whether v is the parsed query of the request.
func (c *Ctx) isQuery(m *ai.Machine, ini *ai.State, e *mwEnv, v *ai.Term) bool {
	if v.Op != "app" || len(v.Args) == 0 {
		return false
	}
	url := c.load(m, ini, e.r, e.rT, "URL")
	switch v.S {
	case "(*net/url.URL).Query":
		return v.Args[0] == url
	case "net/url.ParseQuery#0":
		return v.Args[0] == c.load(m, ini, url, c.std("net/url", "URL").Type(), "RawQuery")
	}
	return false
}
