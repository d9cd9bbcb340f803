package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"gojicheck/ai"
)

func init() {
	register(&Rule{Prop: "C18", Technique: "path-partitioned abstract interpretation over SSA; state comparison at the inner call and at every exit",
		Explain: "the handler SubRouter builds is analysed with an arbitrary context and an inner handler that may change anything and may panic; at the inner call the path and the match found by web.GetMatch must be what the wildcard binding demands, and at every exit the original path and match must be back; without a binding nothing may be written",
		Min:     map[string]int{"stripped": 4, "match-hidden": 4, "restored": 8, "match-restored": 8, "untouched": 2}, Run: runC18})
	register(&Rule{Prop: "C19", Technique: "path-partitioned abstract interpretation over SSA; must-follow rule on panic edges",
		Explain: "the handler Recoverer builds is analysed with an inner handler that may return or panic with any non-nil value; panicking paths must end normally after a log call whose ingredients include the panic's value and the request's ID, a backtrace and a reply with status 500 on the writer received, all others must neither write nor log",
		Min:     map[string]int{"recovered": 2, "quiet": 1, "panic-value": 1, "panic-id": 1}, Run: runC19})
	register(&Rule{Prop: "C20", Technique: "dataflow of the counter value (provenance and injectivity) over SSA, plus a who-may-access rule on the counter",
		Explain: "the ID stored before the next handler runs must be an injective formatting of what one 64-bit package-level counter was advanced to (by an atomic increment, or under a lock that guards every access), which nothing else in the module writes and which other requests may advance at any time; the accessor, analysed on the very context the next handler sees, must return that ID, and the empty string without one",
		Min:     map[string]int{"stored": 2, "injective": 2, "counter": 1, "accessor": 2, "accessor-empty": 2}, Run: runC20})
	register(&Rule{Prop: "C25", Technique: "path-partitioned abstract interpretation over SSA with constant header values; state check at the inner call",
		Explain: "on every path the response header map must hold exactly the documented constants for the four headers when the next handler is called, and each conditional request header must be provably empty",
		Min:     map[string]int{"header": 4, "validator": 6}, Run: runC25})
	register(&Rule{Prop: "C26", Technique: "path-partitioned abstract interpretation over SSA; precedence decided on each abstract path",
		Explain: "on every path the remote address seen by the next handler must be the first comma-separated entry of a non-empty X-Forwarded-For value, otherwise a non-empty X-Real-IP value, otherwise the original; no other field of the request and no header may be written",
		Min:     map[string]int{"address": 3, "only-address": 3}, Run: runC26})
}

// match runs web.GetMatch on the context stored at c.
func (c *Ctx) match(m *ai.Machine, st *ai.State, e *mwEnv) []ai.Outcome {
	fn := c.fn("web", "GetMatch")
	s2 := st.Copy()
	s2.ClearTrace()
	n := m.Sub()
	return n.Exec(fn, []*ai.Term{agg(m, s2, e.c, e.cT)}, s2)
}

func structField(c *Ctx, v *ai.Term, t types.Type, name string) *ai.Term {
	i, ft, ok := field(t, name)
	if !ok {
		c.must(0, "anchor", t.String()+"."+name, "field not found")
	}
	return ai.FieldT(v, i, ft)
}

func runC18(c *Ctx) {
	f := c.mw("SubRouter")
	e, m, outs := c.runMW(f, nil)
	matchT := c.named("web", "Match")
	urlT := c.std("net/url", "URL").Type()
	envK := ai.IfcT(types.Typ[types.String], ai.K(constant.MakeString(c.constStr("web", "MatchKey")), types.Typ[types.String]))
	ini := e.state(c)
	p0 := c.load(m, ini, e.c, e.cT, "URLParams")
	path0 := c.load(m, ini, c.load(m, ini, e.r, e.rT, "URL"), urlT, "Path")
	for _, o := range outs {
		calls, _ := e.next(o.St.Trace())
		if len(calls) != 1 {
			continue // C17
		}
		call := calls[0]
		at := call.St
		// Which binding applies on this path?
		star, hasStar := m.MapGet(ini.Copy(), p0, ai.Str("*"), types.Typ[types.String])
		und, hasUnd := m.MapGet(ini.Copy(), p0, ai.Str("_"), types.Typ[types.String])
		var tail *ai.Term
		switch {
		case isNil(at, p0) == 1:
		case at.Decide(hasStar) == 1:
			tail = star
		case at.Decide(hasStar) == -1 && at.Decide(hasUnd) == 1:
			tail = und
		case at.Decide(hasStar) == -1 && at.Decide(hasUnd) == -1:
		default:
			// Undecided: the code did not look. Decide both ways.
			if tail0, ok := c.undecidedTail(at, p0, hasStar, hasUnd, star, und); ok {
				tail = tail0
			} else {
				c.check(false, call.Pos, "stripped", f.name, "the next handler runs without the wildcard bindings having been examined [%s]", facts(at))
				continue
			}
		}
		pathAt := c.load(m, at, c.load(m, at, e.r, e.rT, "URL"), urlT, "Path")
		if tail == nil {
			ok := pathAt == path0
			flat(o.St.Trace(), func(ev *ai.Event, _ bool) {
				switch ev.Kind {
				case "store", "mapset", "mapdel", "clear", "mapcopy", "hdr":
					ok = false
				}
			})
			c.check(ok, call.Pos, "untouched", f.name, "without a wildcard binding the request or context is changed [%s]\n%s", facts(at), trace(o.St.Trace()))
			continue
		}
		c.check(pathAt == tail, call.Pos, "stripped", f.name, "inner layers see the path %s instead of the wildcard's value %s [%s]", pathAt, tail, facts(at))
		// Old match, as it was on entry (re-read under this path's facts).
		mi, hasM := m.MapGet(ini.Copy(), c.load(m, ini, e.c, e.cT, "Env"), envK, types.NewInterfaceType(nil, nil))
		oldPresent := isNil(at, c.load(m, ini, e.c, e.cT, "Env")) == -1 && at.Decide(hasM) == 1 && at.Decide(ai.IsT(matchT, mi)) == 1
		oldH := structField(c, ai.TA(matchT, mi), matchT, "Handler")
		oldP := structField(c, ai.TA(matchT, mi), matchT, "Pattern")
		had := false
		if oldPresent {
			switch isNil(at, oldH) {
			case -1:
				had = true
			case 0:
				// Both are possible; hide it anyway is fine, restoring is judged below.
				had = true
			}
		}
		for _, g := range c.match(m, at, e) {
			h := structField(c, g.Vals[0], matchT, "Handler")
			c.check(isNil(g.St, h) == 1, call.Pos, "match-hidden", f.name, "inner layers still see an explicit routing match (%s) [%s]", h, facts(g.St))
		}
		if o.Kind != ai.Ret && o.Kind != ai.Panic {
			continue
		}
		how := "returned"
		if o.Kind == ai.Panic {
			how = "panicked"
		}
		pathEnd := c.load(m, o.St, c.load(m, o.St, e.r, e.rT, "URL"), urlT, "Path")
		c.check(pathEnd == path0, call.Pos, "restored", f.name, "after the inner layers %s the request path is %s, not the original one [%s]\n%s", how, pathEnd, facts(o.St), trace(o.St.Trace()))
		if isNil(o.St, c.load(m, o.St, e.c, e.cT, "Env")) == 1 {
			// The inner layers removed the environment.
			c.check(true, call.Pos, "match-restored", f.name, "")
			continue
		}
		for _, g := range c.match(m, o.St, e) {
			h := structField(c, g.Vals[0], matchT, "Handler")
			p := structField(c, g.Vals[0], matchT, "Pattern")
			if had {
				c.check(h == oldH && p == oldP || isNil(g.St, oldH) == 1 && isNil(g.St, h) == 1, call.Pos, "match-restored", f.name, "after the inner layers %s the original routing match is not back (handler %s) [%s]", how, h, facts(g.St))
			} else {
				c.check(isNil(g.St, h) == 1, call.Pos, "match-restored", f.name, "after the inner layers %s a routing match of theirs is left behind [%s]", how, facts(g.St))
			}
		}
	}
	c.sample("SubRouter: %d abstract paths", len(outs))
}

// undecidedTail: an absent binding in an empty or nil map.
func (c *Ctx) undecidedTail(at *ai.State, p0, hasStar, hasUnd, star, und *ai.Term) (*ai.Term, bool) {
	return nil, false
}

func (c *Ctx) constStr(pkg, name string) string {
	o, ok := c.pkg(pkg).Types.Scope().Lookup(name).(*types.Const)
	if !ok || o.Val().Kind() != constant.String {
		c.must(0, "anchor", pkg+"."+name, "string constant not found")
	}
	return constant.StringVal(o.Val())
}

// --- Recoverer

func isLog(ev *ai.Event) bool {
	return ev.Kind == "call" && (strings.HasPrefix(ev.Name, "log.") || strings.HasPrefix(ev.Name, "(*log.Logger).")) && !strings.HasSuffix(ev.Name, "lags") && !strings.HasSuffix(ev.Name, "refix")
}

// replies reports whether an event writes to the response w, and the status.
func replies(ev *ai.Event, w *ai.Term) (bool, *ai.Term) {
	for _, a := range ev.Args {
		if a != w {
			continue
		}
		switch {
		case ev.Kind == "call" && ev.Name == "net/http.Error":
			return true, ev.Args[2]
		case ev.Kind == "invoke" && strings.HasSuffix(ev.Name, ".WriteHeader"):
			return true, ev.Args[1]
		}
		return true, nil
	}
	for _, a := range ev.Args {
		if ev.Kind == "hdr" && ev.Name != "Get" && a.Mentions(w) {
			return true, nil
		}
	}
	return false, nil
}

func runC19(c *Ctx) {
	f := c.mw("Recoverer")
	e, mAny, outs := c.runMW(f, nil)
	// Requests with an ID again.
	str := types.Typ[types.String]
	key := ai.IfcT(str, ai.K(constant.MakeString(c.constStr("web/middleware", "RequestIDKey")), str))
	idOf := func(m *ai.Machine, st *ai.State) (id, has *ai.Term) {
		return m.MapGet(st, c.load(m, st, e.c, e.cT, "Env"), key, types.NewInterfaceType(nil, nil))
	}
	id0, has0 := idOf(mAny, e.state(c))
	_, mID, outsID := c.runMW(f, func(m *ai.Machine, e *mwEnv, st *ai.State) {
		st.Assume(ai.Eq(c.load(m, st, e.c, e.cT, "Env"), ai.Nil()), false)
		st.Assume(has0, true)
		st.Assume(ai.IsT(str, id0), true)
		st.Assume(ai.Eq(ai.TA(str, id0), ai.Str("")), false)
	})
	for oi, o := range append(outs, outsID...) {
		m := mAny
		if oi >= len(outs) {
			m = mID
		}
		evs := o.St.Trace()
		idx, pan := -1, -1
		for i, ev := range evs {
			if e.isNext(ev) {
				idx = i
			}
			if ev.Kind == "userpanic" && idx >= 0 && pan < 0 {
				pan = i
			}
		}
		if idx < 0 {
			continue
		}
		pos := evs[idx].Pos
		if pan == idx+1 {
			logged := false
			status := (*ai.Term)(nil)
			flat(evs[pan:], func(ev *ai.Event, _ bool) {
				logged = logged || isLog(ev)
				if r, s := replies(ev, e.w); r && status == nil {
					if s == nil && ev.Kind != "hdr" {
						s = ai.Str("none")
					}
					if s != nil {
						status = s
					}
				}
			})
			// The reply itself may fail or panic in the writer; only what
			// this layer does is judged.
			wpanic := false
			for _, ev := range evs[pan+1:] {
				wpanic = wpanic || ev.Kind == "userpanic"
			}
			if wpanic {
				continue
			}
			c.check(o.Kind == ai.Ret, pos, "recovered", f.name, "a panic of the inner layer is not stopped (the path ends with %s)\n%s", o.Kind, trace(evs))
			c.check(logged, pos, "recovered", f.name, "a recovered panic is not logged\n%s", trace(evs))
			pv := evs[pan].Args[len(evs[pan].Args)-1]
			of := map[*ai.Term]bool{} // what was made of the panic value
			for _, ev := range evs[pan+1:] {
				for _, a := range ev.Args {
					if a.Mentions(pv) {
						for _, r := range ev.Res {
							of[r] = true
						}
					}
				}
			}
			value, ident := false, oi < len(outs)
			now, hasNow, envNow := id0, has0, ai.Nil()
			back := false
			for i, ev := range evs[pan:] {
				flat([]*ai.Event{ev}, func(ev *ai.Event, _ bool) {
					back = back || ev.Name == "runtime/debug.PrintStack" || ev.Name == "runtime/debug.Stack" || ev.Name == "runtime.Stack"
				})
				if !isLog(ev) {
					continue
				}
				if !ident {
					now, hasNow = idOf(m, ev.St.Copy())
					envNow = c.load(m, ev.St.Copy(), e.c, e.cT, "Env")
				}
				for _, in := range c.ingredients(m, evs, evs[pan+i]) {
					value = value || in.t.Mentions(pv)
					for r := range of {
						value = value || in.t.Mentions(r)
					}
					ident = ident || in.t == id0 || in.t == ai.TA(str, id0) || in.t == now || in.t == ai.TA(str, now)
				}
				if !ident && now != id0 {
					s := o.St.Copy()
					ident = isNil(s, envNow) == 1 || s.Decide(hasNow) == -1 || s.Decide(ai.IsT(str, now)) == -1 || s.Decide(ai.Eq(ai.TA(str, now), ai.Str(""))) == 1
				}
			}
			if logged {
				c.check(value, pos, "panic-value", f.name, "what is logged does not include the panic's value\n%s", trace(evs))
				c.check(ident, pos, "panic-id", f.name, "what is logged does not include the request's ID\n%s", trace(evs))
				c.check(back, pos, "backtrace", f.name, "no backtrace is written\n%s", trace(evs))
			}
			n, ok := int64(0), false
			if status != nil {
				n, ok = status.Int()
			}
			c.check(ok && n == 500, pos, "recovered", f.name, "after a panic the reply's status is %v, not 500\n%s", status, trace(evs))
			continue
		}
		bad := ""
		for i, ev := range evs {
			if i == idx {
				continue
			}
			flat([]*ai.Event{ev}, func(ev *ai.Event, _ bool) {
				if isLog(ev) {
					bad = "logs"
				}
				if r, _ := replies(ev, e.w); r {
					bad = "writes to the response"
				}
			})
		}
		if o.Kind == ai.Ret && pan < 0 {
			c.check(bad == "", pos, "quiet", f.name, "without a panic the middleware %s\n%s", bad, trace(evs))
		}
	}
}

// --- RequestID

func runC20(c *Ctx) {
	f := c.mw("RequestID")
	k := &counting{seen: map[token.Pos]bool{}, adds: map[*ai.Term]*ai.Event{}}
	e, m, outs := c.runMW(f, func(m *ai.Machine, e *mwEnv, st *ai.State) { k.watch(m) })
	acc := c.fn("web/middleware", "GetReqID")
	keyc := c.constStr("web/middleware", "RequestIDKey")
	kT := c.pkg("web/middleware").Types.Scope().Lookup("RequestIDKey").Type()
	if b, ok := kT.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		kT = types.Typ[types.String]
	}
	key := ai.IfcT(kT, ai.Str(keyc))
	counters, kinds := map[*ai.Term]bool{}, map[string]bool{}
	for _, o := range outs {
		calls, _ := e.next(o.St.Trace())
		if len(calls) != 1 {
			continue
		}
		call := calls[0]
		at := call.St
		env := c.load(m, at, e.c, e.cT, "Env")
		v, has := m.MapGet(at.Copy(), env, key, types.NewInterfaceType(nil, nil))
		if !c.check(isNil(at, env) == -1 && at.Decide(has) == 1, call.Pos, "stored", f.name, "the request ID is not in the environment when the next layer runs [%s]\n%s", facts(at), trace(o.St.Trace())) {
			continue
		}
		// The atomic increments of this request.
		adds := map[*ai.Term]*ai.Event{}
		for t, ev := range k.adds {
			adds[t] = ev
		}
		flat(o.St.Trace(), func(ev *ai.Event, in bool) {
			if ev.Kind == "atomic" && ev.Name == "Add" && len(ev.Res) == 1 {
				adds[ev.Res[0]] = ev
			}
		})
		id := v
		if id.Op == "ifc" {
			id = id.Args[0]
		}
		n, why := c.injective(id, adds)
		if c.check(n != nil, call.Pos, "injective", f.name, "the ID %s does not determine a counter value of its own: %s", id, why) {
			ev := adds[n]
			counters[ev.Args[0]] = true
			kinds[ev.Kind] = true
			c.sample("ID = %s with %s", id, ev)
			b, _ := n.Typ.Underlying().(*types.Basic)
			c.check(b != nil && (b.Kind() == types.Uint64 || b.Kind() == types.Int64), ev.Pos, "counter", f.name, "the counter has type %v, which wraps around", n.Typ)
			d, ok := ev.Args[len(ev.Args)-1].Int()
			c.check(ok && d != 0, ev.Pos, "counter", f.name, "the counter is advanced by %s", ev.Args[len(ev.Args)-1])
			c.check(ev.Args[0].Root().Op == "glob", ev.Pos, "counter", f.name, "the counter %s is not one package-level variable", ev.Args[0])
		}
		// The accessor on the context the next layer sees.
		s2 := at.Copy()
		s2.ClearTrace()
		for _, g := range c.M.Sub().Exec(acc, []*ai.Term{agg(m, s2, e.c, e.cT)}, s2) {
			c.check(g.Kind == ai.Ret && g.Vals[0] == id, acc.Pos(), "accessor", "GetReqID", "the accessor does not return the ID that was stored, but %v [%s]", g.Vals, facts(g.St))
		}
	}
	c.check(len(counters) == 1, f.fn.Pos(), "counter", f.name, "%d different counters are used", len(counters))
	c.check(len(kinds) <= 1, f.fn.Pos(), "counter", f.name, "some requests use the counter's value before advancing it, some that after")
	for a := range counters {
		c.counterWriters(a.Root(), f, k)
	}
	// Without an ID.
	for _, withEnv := range []bool{false, true} {
		st := e.state(c)
		cv := ai.Sym("cval", e.cT)
		env := structField(c, cv, e.cT, "Env")
		mm := c.M.Sub()
		st.Assume(ai.Eq(env, ai.Nil()), !withEnv)
		if withEnv {
			_, has := mm.MapGet(st, env, key, types.NewInterfaceType(nil, nil))
			st.Assume(has, false)
		}
		for _, g := range mm.Exec(acc, []*ai.Term{cv}, st) {
			s, ok := "", false
			if g.Kind == ai.Ret {
				s, ok = g.Vals[0].Str()
			}
			c.check(ok && s == "", acc.Pos(), "accessor-empty", "GetReqID", "a context without an ID yields %v instead of the empty string [%s]", g.Vals, facts(g.St))
		}
	}
	// Several requests in one process with the same middleware instance are
	// covered by the counter being global.
}

// injective finds the counter value that an ID is an injective image of.
func (c *Ctx) injective(t *ai.Term, adds map[*ai.Term]*ai.Event) (*ai.Term, string) {
	if adds[t] != nil {
		return t, ""
	}
	stable := func(u *ai.Term) bool {
		// constants and package-level data only
		ok := true
		u.Subterms(func(x *ai.Term) {
			if x.Op == "sym" {
				ok = ok && strings.HasPrefix(x.S, "init") || x.Op == "sym" && strings.Contains(x.S, "init")
			}
			if x.Op == "obj" {
				ok = false
			}
		})
		return ok
	}
	var parts []*ai.Term
	switch {
	case t.Op == "ifc":
		return c.injective(t.Args[0], adds)
	case t.Op == "app" && (t.S == "fmt.Sprintf") && len(t.Args) >= 1:
		f, ok := t.Args[0].Str()
		if !ok {
			return nil, "the format is not constant"
		}
		verbs := formatVerbs(f)
		if len(verbs) != len(t.Args)-1 {
			return nil, "the format does not fit its arguments"
		}
		var n *ai.Term
		for i, a := range t.Args[1:] {
			x, _ := c.injective(a, adds)
			if x == nil {
				if !stable(a) {
					return nil, "it also depends on " + a.String()
				}
				continue
			}
			inner := a
			if inner.Op == "ifc" {
				inner = inner.Args[0]
			}
			if inner == x {
				if !strings.ContainsAny(verbs[i], "dxXobv") {
					return nil, "the verb " + verbs[i] + " does not print the counter"
				}
			} else if !strings.ContainsAny(verbs[i], "svq") {
				return nil, "the verb " + verbs[i] + " does not print the text"
			}
			if strings.Contains(verbs[i], ".") && inner != x {
				return nil, "the verb " + verbs[i] + " may truncate the text"
			}
			n = x
		}
		if n == nil {
			return nil, "no counter value is formatted"
		}
		return n, ""
	case t.Op == "concat" || t.Op == "app" && t.S == "concat":
		parts = t.Args
	case t.Op == "app" && (t.S == "strconv.FormatUint" || t.S == "strconv.FormatInt") && len(t.Args) == 2:
		if b, ok := t.Args[1].Int(); !ok || b < 2 || b > 36 {
			return nil, "unknown base"
		}
		return c.injective(t.Args[0], adds)
	case t.Op == "app" && t.S == "strconv.Itoa":
		return c.injective(t.Args[0], adds)
	case t.Op == "app" && t.S == "fmt.Sprint", t.Op == "app" && t.S == "strings.Join":
		return nil, "built by " + t.S
	case t.Op == "conv" || t.Op == "app" && strings.HasPrefix(t.S, "conv"):
		// same width only
		if len(t.Args) == 1 && t.Typ != nil && t.Args[0].Typ != nil && c.P.Sizes.Sizeof(t.Typ) >= c.P.Sizes.Sizeof(t.Args[0].Typ) {
			return c.injective(t.Args[0], adds)
		}
		return nil, "it is cut down by a conversion: " + t.String()
	}
	if parts != nil {
		var n *ai.Term
		for _, p := range parts {
			x, _ := c.injective(p, adds)
			if x != nil {
				n = x
			} else if !stable(p) {
				return nil, "it also depends on " + p.String()
			}
		}
		if n == nil {
			return nil, "no counter value in it"
		}
		return n, ""
	}
	return nil, "it is " + t.String()
}

func formatVerbs(f string) []string {
	var out []string
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[j]) >= 0 {
			j++
		}
		if j < len(f) && f[j] == '%' {
			i = j
			continue
		}
		if j < len(f) {
			out = append(out, f[i:j+1])
		}
		i = j
	}
	return out
}

// counterWriters: every use of the counter variable is an atomic operation
// that cannot repeat a value (Load or Add).
func (c *Ctx) counterWriters(g *ai.Term, f mwFn, k *counting) {
	if len(k.mutexes) > 1 {
		c.check(false, f.fn.Pos(), "counter", f.name, "the request counter is guarded by %d different locks", len(k.mutexes))
	}
	for _, u := range c.globalUses(g) {
		ok := u.init && len(k.adds) > 0 || u.atomic == "Add" || u.atomic == "Load"
		if len(k.adds) > 0 {
			ok = u.init || k.seen[u.pos] || strings.Contains(u.what, "(*sync.Mutex).") || strings.Contains(u.what, "(*sync.RWMutex).")
		}
		c.check(ok, u.pos, "counter", short(u.fn.String()), "the request counter is accessed by %s", u.what)
	}
}

// counting watches package-level integers: other requests may change them at
// any time, except while a lock is held; one changed under a lock counts as
// advanced when the lock is released.
type counting struct {
	seen    map[token.Pos]bool // plain accesses, all under the lock
	bad     map[token.Pos]bool
	adds    map[*ai.Term]*ai.Event
	mutexes map[int]bool
}

func (k *counting) watch(m *ai.Machine) {
	held := func(s *ai.State) (mu int) {
		for id, n := range s.Locks {
			if n > 0 && ai.TermByID(id).Root().Op == "glob" {
				mu = id
			}
		}
		return
	}
	k.bad, k.mutexes = map[token.Pos]bool{}, map[int]bool{}
	m.OnAccess = func(s *ai.State, a *ai.Access) {
		b, _ := a.Typ.Underlying().(*types.Basic)
		if a.Addr.Root().Op != "glob" || b == nil || b.Info()&types.IsInteger == 0 {
			return
		}
		fresh := func() *ai.Term {
			v := s.Fresh("shared", a.Typ)
			m.SetCell(s, a.Addr, v)
			return v
		}
		mu := held(s)
		if a.Atomic || mu == 0 {
			if !a.Atomic {
				k.bad[a.Pos] = true
				delete(k.seen, a.Pos)
			}
			if !a.Write || a.Atomic {
				fresh()
			}
			return
		}
		if !k.bad[a.Pos] {
			k.seen[a.Pos] = true
		}
		g := "count|" + fmt.Sprint(a.Addr.ID)
		if s.Ghost[g] == nil {
			s.Ghost[g] = fresh()
			k.mutexes[mu] = true
		}
	}
	m.OnUnlock = func(m *ai.Machine, s *ai.State, mu *ai.Term, read bool) {
		for g, was := range s.Ghost {
			if !strings.HasPrefix(g, "count|") {
				continue
			}
			delete(s.Ghost, g)
			id, _ := strconv.Atoi(g[len("count|"):])
			a := ai.TermByID(id)
			now := m.Load(s.Copy(), a, was.Typ)
			d, ok := ai.Sub(now, was).Int()
			if len(now.Args) == 2 && (now.Op == "+" || now.S == "+") && now.Args[0] == was {
				d, ok = now.Args[1].Int() // may wrap around, as atomic increments may
			}
			if ok && d > 0 && !read {
				ev := s.Trace()[len(s.Trace())-1]
				k.adds[now] = &ai.Event{Kind: "counted", Args: []*ai.Term{a, ai.Int(d)}, Res: []*ai.Term{now}, Pos: ev.Pos, Fn: ev.Fn}
				// what it was is as much this request's own
				k.adds[was] = &ai.Event{Kind: "counting", Args: []*ai.Term{a, ai.Int(d)}, Res: []*ai.Term{was}, Pos: ev.Pos, Fn: ev.Fn}
			}
		}
	}
}

// --- NoCache

var noCacheValues = map[string]string{
	"Expires":         "Thu, 01 Jan 1970 00:00:00 UTC",
	"Cache-Control":   "no-cache, private, max-age=0",
	"Pragma":          "no-cache",
	"X-Accel-Expires": "0",
}

var validators = []string{"If-Modified-Since", "If-None-Match", "If-Match", "If-Range", "If-Unmodified-Since", "ETag"}

func runC25(c *Ctx) {
	f := c.mw("NoCache")
	e, m, outs := c.runMW(f, nil)
	hT := c.std("net/http", "Header").Type()
	wh := ai.App("Header", hT, e.w)
	for _, o := range outs {
		calls, _ := e.next(o.St.Trace())
		for _, call := range calls {
			at := call.St
			for _, k := range []string{"Expires", "Cache-Control", "Pragma", "X-Accel-Expires"} {
				v := m.HeaderGet(at.Copy(), wh, k)
				s, ok := v.Str()
				c.check(ok && s == noCacheValues[k], call.Pos, "header", f.name+" "+k, "the response header %s is %s when the next layer runs, not the constant %q", k, v, noCacheValues[k])
			}
			rh := c.load(m, at, e.r, e.rT, "Header")
			for _, k := range validators {
				v := m.HeaderGet(at.Copy(), rh, k)
				ok := at.Decide(ai.Eq(v, ai.Str(""))) == 1
				c.check(ok, call.Pos, "validator", f.name+" "+k, "the request header %s may still be set (%s) when the next layer runs", k, v)
			}
		}
	}
}

// --- RealIP

// splitFirst recognises strings.Split(x, sep)[0].
func splitFirst(t, x *ai.Term, sep string) bool {
	return t.Op == "ld" && t.Args[0].Op == "ia" && t.Args[0].Args[1] == ai.Int(0) &&
		t.Args[0].Args[0].Mentions(ai.App("strings.Split", types.NewSlice(types.Typ[types.String]), x, ai.Str(sep)))
}

func runC26(c *Ctx) {
	f := c.mw("RealIP")
	e, m, outs := c.runMW(f, nil)
	ini := e.state(c)
	hdr := c.load(m, ini, e.r, e.rT, "Header")
	xff := m.HeaderGet(ini.Copy(), hdr, "X-Forwarded-For")
	xri := m.HeaderGet(ini.Copy(), hdr, "X-Real-IP")
	ra0 := c.load(m, ini, e.r, e.rT, "RemoteAddr")
	raA, _ := c.fa(e.r, e.rT, "RemoteAddr")
	str := types.Typ[types.String]
	for _, o := range outs {
		calls, _ := e.next(o.St.Trace())
		for _, call := range calls {
			at := call.St
			got := c.load(m, at, e.r, e.rT, "RemoteAddr")
			empty := func(t *ai.Term) int { return at.Decide(ai.Eq(t, ai.Str(""))) }
			var ok bool
			var want string
			first := func() bool {
				for _, sep := range []string{", ", ","} {
					i := ai.App("strings.Index", types.Typ[types.Int], xff, ai.Str(sep))
					if got == ai.SubStr(xff, ai.Int(0), i) && at.Decide(ai.Le(ai.Int(0), i)) == 1 {
						return true
					}
					if got == xff && at.Decide(ai.Le(ai.Int(0), i)) == -1 {
						return true
					}
					if got == ai.App("strings.Cut#0", str, xff, ai.Str(sep)) {
						return true
					}
					if splitFirst(got, xff, sep) {
						return true
					}
				}
				return false
			}
			switch {
			case empty(xff) == -1:
				ok, want = first(), "the first entry of X-Forwarded-For"
				if got == ra0 {
					// an empty first entry leaves the address alone
					for _, sep := range []string{", ", ","} {
						i := ai.App("strings.Index", types.Typ[types.Int], xff, ai.Str(sep))
						ok = ok || empty(ai.SubStr(xff, ai.Int(0), i)) == 1
						at.EachFact(func(t *ai.Term, val bool) {
							if t.Op == "eq" && val && (t.Args[0] == ai.Str("") && splitFirst(t.Args[1], xff, sep) || t.Args[1] == ai.Str("") && splitFirst(t.Args[0], xff, sep)) {
								ok = true
							}
						})
					}
				}
			case empty(xff) == 1 && empty(xri) == -1:
				ok, want = got == xri, "X-Real-IP"
			case empty(xff) == 1 && empty(xri) == 1:
				ok, want = got == ra0, "the original address"
			default:
				want = "decided by the two headers, which were not examined"
			}
			c.check(ok, call.Pos, "address", f.name, "the remote address is %s where it should be %s [%s]", got, want, facts(at))
			c.sample("RemoteAddr = %s when [%s]", got, facts(at))
			bad := ""
			flat(o.St.Trace(), func(ev *ai.Event, _ bool) {
				switch ev.Kind {
				case "store":
					if ev.Args[0] != raA {
						bad = ev.String()
					}
				case "mapset", "mapdel", "clear", "mapcopy":
					bad = ev.String()
				case "hdr":
					if ev.Name != "Get" {
						bad = ev.String()
					}
				}
			})
			c.check(bad == "", call.Pos, "only-address", f.name, "something other than the remote address is changed: %s", bad)
		}
	}
}
