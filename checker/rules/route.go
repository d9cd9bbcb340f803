package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"gojicheck/ai"

	"golang.org/x/tools/go/ssa"
)

// rtEnv is an arbitrary mux as the router rules see it: its route list R, its
// published automaton M (with the route list M.routes it was made from) and its
// not-found handler NF.
type rtEnv struct {
	c   *Ctx
	e   *mwEnv
	x   *muxInfo
	mux *ai.Term // pointer to the mux
	rt  *ai.Term // address of the router
	rtT types.Type

	routesA, machA, nfA *ai.Term
	envA                *ai.Term // the environment field of the context
	routesT, machT, nfT types.Type
	routeT              types.Type
	patI, hdlI, mthI    int // fields of a route
	methT               types.Type
	smT                 types.Type // the struct holding an automaton
	smRoutesI           int
	R, M, NF            *ai.Term
	locks               map[*ai.Term]bool
}

func (c *Ctx) router() *rtEnv {
	r := &rtEnv{c: c, e: c.mwEnv(), x: c.mux(), smRoutesI: -1, patI: -1, hdlI: -1, mthI: -1}
	ra := r.x.router.Args[0]
	if ra.Root() != r.x.mux {
		c.must(0, "anchor", "web.Mux", "the router is not a part of the mux")
	}
	r.mux = ai.Sym("mux", ptr(r.x.muxT))
	r.rt = ra.Subst(map[*ai.Term]*ai.Term{r.x.mux: r.mux})
	p, ok := r.x.rtT.Underlying().(*types.Pointer)
	if !ok {
		c.must(0, "anchor", "web.Mux", "the router %s is not a pointer", r.x.rtT)
	}
	r.rtT = p.Elem()
	patT, hdlT := c.named("web", "Pattern"), c.named("web", "Handler")
	s, ok := r.rtT.Underlying().(*types.Struct)
	if !ok {
		c.must(0, "anchor", "web.Mux", "the router %s is not a struct", r.rtT)
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if n, ok := f.Type().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync/atomic" && n.Obj().Name() == "Pointer" && n.TypeArgs().Len() == 1 {
			if _, ok := n.TypeArgs().At(0).Underlying().(*types.Struct); ok {
				pt := ptr(n.TypeArgs().At(0))
				r.machA, r.machT, r.smT = ai.FA(ai.FA(r.rt, i, f.Type()), 90, pt), pt, n.TypeArgs().At(0)
			}
			continue
		}
		switch u := f.Type().Underlying().(type) {
		case *types.Slice:
			es, ok := u.Elem().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for j := 0; j < es.NumFields(); j++ {
				switch ft := es.Field(j).Type(); {
				case types.Identical(ft, patT):
					r.patI = j
				case types.Identical(ft, hdlT):
					r.hdlI = j
				default:
					if b, ok := ft.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
						r.mthI = j
						r.methT = ft
					}
				}
			}
			if r.patI >= 0 {
				r.routesA, r.routesT, r.routeT = ai.FA(r.rt, i, f.Type()), f.Type(), u.Elem()
			}
		case *types.Pointer:
			if ms, ok := u.Elem().Underlying().(*types.Struct); ok {
				r.machA, r.machT, r.smT = ai.FA(r.rt, i, f.Type()), f.Type(), u.Elem()
				_ = ms
			}
		case *types.Interface:
			if types.Identical(f.Type(), hdlT) {
				r.nfA, r.nfT = ai.FA(r.rt, i, f.Type()), f.Type()
			}
		}
	}
	if r.routesA == nil || r.machA == nil || r.nfA == nil || r.patI < 0 || r.hdlI < 0 || r.mthI < 0 {
		c.must(0, "anchor", "router", "the router's route list, automaton or not-found handler was not found")
	}
	ms := r.smT.Underlying().(*types.Struct)
	for i := 0; i < ms.NumFields(); i++ {
		if types.Identical(ms.Field(i).Type(), r.routesT) {
			r.smRoutesI = i
		}
	}
	if r.smRoutesI < 0 {
		c.must(0, "anchor", "routeMachine", "the automaton does not hold its route list")
	}
	r.envA, _ = c.fa(r.e.c, r.e.cT, "Env")
	r.R = ai.Sym("R", r.routesT)
	r.M = ai.Sym("M", r.machT)
	r.NF = ai.Sym("NF", r.nfT)
	return r
}

// machine returns a machine for which published tables are immutable.
func (r *rtEnv) machine() *ai.Machine {
	m := r.c.M.Sub()
	m.GenericRange = true
	m.OutLimit, m.PtLimit = 64, 64
	m.Stable = func(s *ai.State, a *ai.Term) bool {
		root := a.Root()
		if a == r.envA {
			// patterns may change what is in the environment, but not replace it
			return true
		}
		if root == r.mux {
			return a == r.nfA || a == r.routesA && len(s.Locks) > 0
		}
		return root == r.M || root == r.R || r.ofM(root)
	}
	m.OnLock = func(m *ai.Machine, s *ai.State, mu *ai.Term, read bool) []*ai.State {
		if mu.Root() == r.mux {
			m.SetCell(s, r.routesA, r.R)
		}
		return []*ai.State{s}
	}
	return m
}

// ofM reports whether a root is something M holds (its program, its routes).
func (r *rtEnv) ofM(root *ai.Term) bool {
	return root.Op == "ld" && root.Args[0].Root() == r.M
}

// state is the state when a request or a registration starts.
func (r *rtEnv) state(m *ai.Machine) *ai.State {
	st := r.e.state(r.c)
	st.Assume(ai.Eq(r.mux, ai.Nil()), false)
	st.Assume(ai.Eq(r.NF, ai.Nil()), false)
	m.SetCell(st, r.nfA, r.NF)
	m.SetCell(st, r.machA, r.M)
	return st
}

// mroutes is the route list the automaton M was made from.
func (r *rtEnv) mroutes() *ai.Term {
	return ai.Ld(ai.FA(r.M, r.smRoutesI, r.routesT), r.routesT)
}

// routeOf recognises an address or value that belongs to element k of a
// published route list and returns the list and the address of that element.
func (r *rtEnv) routeOf(v *ai.Term) (list, elem *ai.Term, field int) {
	if v.Op != "ld" {
		return nil, nil, -1
	}
	a := v.Args[0]
	if a.Op != "fa" || a.Args[0].Op != "ia" {
		return nil, nil, -1
	}
	elem = a.Args[0]
	list = elem.Args[0]
	for i := 0; i < r.routeT.Underlying().(*types.Struct).NumFields(); i++ {
		if ai.FA(elem, i, r.routeT.Underlying().(*types.Struct).Field(i).Type()) == a {
			return list, elem, i
		}
	}
	return nil, nil, -1
}

func (r *rtEnv) fieldOf(elem *ai.Term, i int) *ai.Term {
	ft := r.routeT.Underlying().(*types.Struct).Field(i).Type()
	return ai.Ld(ai.FA(elem, i, ft), ft)
}

// subst rebuilds the facts of a state under a substitution; ok is false if
// they are contradictory.
func subst(st *ai.State, sb map[*ai.Term]*ai.Term, extra ...*ai.Term) (*ai.State, bool) {
	n := ai.NewState()
	ok := true
	st.Literals(func(t *ai.Term, val bool) {
		if ok && !n.Assume(t.Subst(sb), val) {
			ok = false
		}
	})
	for _, t := range extra {
		if ok && !n.Assume(t, true) {
			ok = false
		}
	}
	return n, ok
}

// verbs are the registration methods and what the property demands of them.
var verbs = []struct {
	name    string
	accepts []string // nil: everything
}{
	{"Connect", []string{"CONNECT"}}, {"Delete", []string{"DELETE"}}, {"Get", []string{"GET", "HEAD"}},
	{"Head", []string{"HEAD"}}, {"Options", []string{"OPTIONS"}}, {"Patch", []string{"PATCH"}},
	{"Post", []string{"POST"}}, {"Put", []string{"PUT"}}, {"Trace", []string{"TRACE"}}, {"Handle", nil},
}

var httpMethods = []string{"CONNECT", "DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT", "TRACE"}

// registered is one path of a registration call.
type registered struct {
	verb string
	fn   *ssa.Function
	pat  *ai.Term // the pattern registered
	hdl  *ai.Term // the handler registered
	pp   *ai.Term // the prefix the pattern advertised
	out  ai.Outcome
	list *ai.Term // the new route list
}

// register analyses one registration method with an arbitrary pattern and
// handler.
func (r *rtEnv) register(m *ai.Machine, verb string) []registered {
	c := r.c
	fn := c.meth(ptr(r.x.muxT), verb)
	if fn.Signature.Params().Len() != 2 {
		c.must(fn.Pos(), "anchor", "Mux."+verb, "unexpected parameters")
	}
	pt, ht := fn.Signature.Params().At(0).Type(), fn.Signature.Params().At(1).Type()
	pat, hdl := ai.Sym("pat", pt), ai.Sym("hdl", ht)
	st := r.state(m)
	// A Pattern that is not one of the other forms, and a context aware handler.
	st.Assume(ai.IsT(c.named("web", "Pattern"), pat), true)
	st.Assume(ai.IsT(c.named("web", "Handler"), hdl), true)
	var out []registered
	for _, o := range m.Exec(fn, []*ai.Term{r.mux, pat, hdl}, st) {
		if o.Kind != ai.Ret {
			c.fail(fn.Pos(), "undecided", "Mux."+verb, "registering a valid route can end in %s [%s]", o.Kind, facts(o.St))
			continue
		}
		g := registered{verb: verb, fn: fn, pat: pat, hdl: hdl, out: o}
		flat(o.St.Trace(), func(ev *ai.Event, _ bool) {
			if ev.Kind == "invoke" && strings.HasSuffix(ev.Name, "web.Pattern).Prefix") && ev.Args[0] == pat {
				g.pp = ev.Res[0]
			}
		})
		g.list = m.Load(o.St.Copy(), r.routesA, r.routesT)
		out = append(out, g)
	}
	c.problems(m, "Mux."+verb)
	return out
}

// elem reads route i of a list.
func (r *rtEnv) elem(m *ai.Machine, st *ai.State, list, i *ai.Term) *ai.Term {
	return m.Load(st, ai.ElemAddr(list, i, r.routeT), r.routeT)
}

func (r *rtEnv) get(v *ai.Term, i int) *ai.Term {
	return ai.FieldT(v, i, r.routeT.Underlying().(*types.Struct).Field(i).Type())
}

// positions lists the indices the new route may be at.
func (r *rtEnv) positions(g registered) []*ai.Term {
	st := g.out.St.Copy()
	cands := map[*ai.Term]bool{ai.Int(0): true, ai.Len(r.R): true}
	add := func(t *ai.Term) {
		t.Subterms(func(u *ai.Term) {
			if u.Op == "sym" && u.Typ != nil {
				if b, ok := u.Typ.Underlying().(*types.Basic); ok && b.Kind() == types.Int {
					for _, k := range []int64{0, 1, -1} {
						cands[ai.Add(u, ai.Int(k))] = true
					}
				}
			}
		})
	}
	st.Literals(func(t *ai.Term, _ bool) { add(t) })
	for _, ev := range g.out.St.Trace() {
		for _, a := range ev.Args {
			add(a)
		}
	}
	var cs []*ai.Term
	for t := range cands {
		cs = append(cs, t)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].ID < cs[j].ID })
	return cs
}

// insertion finds the index at which the new route went in.
func (r *rtEnv) insertion(m *ai.Machine, g registered) *ai.Term {
	st := g.out.St.Copy()
	for _, t := range r.positions(g) {
		if st.Decide(ai.Le(ai.Int(0), t)) != 1 || st.Decide(ai.Le(t, ai.Len(r.R))) != 1 {
			continue
		}
		e := r.elem(m, st.Copy(), g.list, t)
		if r.get(e, r.patI) == g.pat && r.get(e, r.hdlI) == g.hdl {
			return t
		}
	}
	return nil
}

func init() {
	register(&Rule{Prop: "C02", Technique: "relational abstract interpretation of the registration methods with an arbitrary route list: element-wise comparison of the list before and after, and an inductive invariant of the scan for the insertion point",
		Explain: "every registration method is analysed with an arbitrary route list, pattern and handler; the new list must be the old one with exactly one entry inserted at some position, carrying the prefix the pattern advertised; and for an arbitrary entry of the old list whose prefix overlaps the new one the loop that picks the position must, by induction over its iterations, have placed the new route behind it",
		Min:     map[string]int{"length": 10, "before": 10, "after": 10, "entry": 10, "overlap": 20}, Run: runC02})
	register(&Rule{Prop: "C08", Technique: "constant propagation of the method sets each registration method stores, composed with the path conditions under which the router selects a route",
		Explain: "the method set each registration method stores is read off the new route list; for each standard method name and for an arbitrary other name, the conditions of the paths on which the router selects a route are evaluated for that set; selected and accepted must coincide for all pairs",
		Min:     map[string]int{"accepts": 100, "mask": 10, "passed": 10}, Run: runC08})
}

func runC02(c *Ctx) {
	r := c.router()
	for _, v := range verbs {
		m := r.machine()
		gs := r.register(m, v.name)
		c.check(len(gs) > 0, 0, "entry", "Mux."+v.name, "no path through the method")
		for _, g := range gs {
			r.checkInsert(m, g)
		}
		c.sample("Mux.%s: %d abstract paths", v.name, len(gs))
	}
}

func (r *rtEnv) checkInsert(m *ai.Machine, g registered) {
	c := r.c
	name := "Mux." + g.verb
	st := g.out.St
	n := ai.Len(r.R)
	if !c.check(st.Copy().Decide(ai.Eq(ai.Len(g.list), ai.Add(n, ai.Int(1)))) == 1, g.fn.Pos(), "length", name, "the route list afterwards has length %s, not %s [%s]", ai.Len(g.list), ai.Add(n, ai.Int(1)), facts(st)) {
		return
	}
	at := r.insertion(m, g)
	if !c.check(at != nil, g.fn.Pos(), "entry", name, "no position of the new list is known to hold the new route [%s]\n%s", facts(st), trace(st.Trace())) {
		return
	}
	// The new entry carries the advertised prefix.
	e := r.elem(m, st.Copy(), g.list, at)
	pfx := -1
	rs := r.routeT.Underlying().(*types.Struct)
	for i := 0; i < rs.NumFields(); i++ {
		if b, ok := rs.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			pfx = i
		}
	}
	if pfx < 0 {
		c.must(0, "anchor", "route", "no string field holding the prefix")
	}
	c.check(g.pp != nil && r.get(e, pfx) == g.pp, g.fn.Pos(), "entry", name, "the new entry's prefix is %s, not what the pattern advertised", r.get(e, pfx))
	// Entries before and after it are the old ones, in order.
	j := ai.Sym("anyJ", types.Typ[types.Int])
	s := st.Copy()
	ok := s.Assume(ai.Le(ai.Int(0), j), true) && s.Assume(ai.Lt(j, at), true)
	c.check(!ok || r.elem(m, s.Copy(), g.list, j) == r.elem(m, s.Copy(), r.R, j), g.fn.Pos(), "before", name, "entry j before the new route is %s, not the old entry j [%s]", r.elem(m, s.Copy(), g.list, j), facts(s))
	s = st.Copy()
	ok = s.Assume(ai.Le(at, j), true) && s.Assume(ai.Lt(j, n), true)
	c.check(!ok || r.elem(m, s.Copy(), g.list, ai.Add(j, ai.Int(1))) == r.elem(m, s.Copy(), r.R, j), g.fn.Pos(), "after", name, "entry j+1 behind the new route is %s, not the old entry j [%s]", r.elem(m, s.Copy(), g.list, ai.Add(j, ai.Int(1))), facts(s))
	if g.pp == nil {
		return
	}
	// An old entry J whose prefix overlaps the new one is before it.
	J := ai.Sym("J", types.Typ[types.Int])
	oldP := r.get(r.elem(m, st.Copy(), r.R, J), pfx)
	hasPrefix := func(x, p *ai.Term) *ai.Term {
		return ai.App("strings.HasPrefix", types.Typ[types.Bool], x, p)
	}
	lt := func(a, b *ai.Term) *ai.Term { return m.StrLess(a, b) }
	for _, ov := range []struct {
		what  string
		facts []*ai.Term
	}{
		{"has the new prefix as a prefix", []*ai.Term{hasPrefix(oldP, g.pp), ai.Not(lt(oldP, g.pp)), ai.Le(ai.Len(g.pp), ai.Len(oldP))}},
		{"is a prefix of the new prefix", []*ai.Term{hasPrefix(g.pp, oldP), ai.Not(lt(g.pp, oldP)), ai.Le(ai.Len(oldP), ai.Len(g.pp))}},
	} {
		fs := append([]*ai.Term{ai.Le(ai.Int(0), J), ai.Lt(J, n)}, ov.facts...)
		inv := scanInvariants(st.Trace(), J, fs)
		bad, why := refute(st, J, append(append([]*ai.Term{}, fs...), ai.Le(at, J)), inv)
		c.check(bad, g.fn.Pos(), "overlap", name, "an old route whose prefix %s may end up behind the new one [%s] (%s)", ov.what, facts(st), why)
	}
}

// implication is "if pre then post", true at every iteration of a loop.
type implication struct{ pre, post *ai.Term }

// scanInvariants finds, for a fixed but arbitrary index J with the given facts,
// statements about J and the counters of the loops on the path that hold
// initially and are kept by every iteration: that a counter running down has
// not passed J, or that once a counter running up has passed J another
// quantity is beyond J.
func scanInvariants(evs []*ai.Event, J *ai.Term, fs []*ai.Term) []implication {
	var loops []*ai.LoopNode
	var walk func(evs []*ai.Event)
	walk = func(evs []*ai.Event) {
		for _, e := range evs {
			if e.Kind == "loop" {
				loops = append(loops, e.Loop)
				for _, it := range e.Loop.Iters {
					walk(it.Trace.Events())
				}
			}
		}
	}
	walk(evs)
	var out []implication
	for _, l := range loops {
		var ints []ai.LoopPhi
		for _, p := range l.Phis {
			if p.Sym.Typ != nil {
				if b, ok := p.Sym.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					ints = append(ints, p)
				}
			}
		}
		var cands []implication
		offs := []int64{0, 1}
		for _, p := range ints {
			for _, k := range offs {
				cands = append(cands, implication{ai.True(), ai.Lt(J, ai.Add(p.Sym, ai.Int(k)))})
				cands = append(cands, implication{ai.True(), ai.Le(ai.Add(p.Sym, ai.Int(k)), J)})
			}
			for _, q := range ints {
				if q.Sym != p.Sym {
					for _, k := range offs {
						cands = append(cands, implication{ai.Lt(J, ai.Add(q.Sym, ai.Int(k))), ai.Lt(J, p.Sym)})
					}
				}
			}
		}
		init := map[*ai.Term]*ai.Term{}
		for _, p := range l.Phis {
			init[p.Sym] = p.Init
		}
		for _, cand := range cands {
			// initially
			st := l.Head.Copy()
			ok := true
			for _, f := range fs {
				ok = st.Assume(f, true) && ok
			}
			pre, post := cand.pre.Subst(init), cand.post.Subst(init)
			if !(st.Decide(pre) == -1 || st.Decide(post) == 1) {
				continue
			}
			kept := true
			for _, it := range l.Iters {
				next := map[*ai.Term]*ai.Term{}
				for k, v := range it.Next {
					next[k] = v
				}
				npre, npost := cand.pre.Subst(next), cand.post.Subst(next)
				// refute: facts, invariant before, npre, not npost
				ok, _ := refute(it.St, J, append(append([]*ai.Term{}, fs...), npre, ai.Not(npost)), []implication{cand})
				if !ok {
					kept = false
					break
				}
			}
			if kept {
				out = append(out, cand)
			}
		}
	}
	return out
}

// refute tries to show that the facts of st, the extra facts and the
// implications contradict each other. Where J is forced to equal another
// quantity, that is used to identify what is known about both.
func refute(st *ai.State, J *ai.Term, extra []*ai.Term, inv []implication) (bool, string) {
	return refuteN(st, J, extra, inv, 3)
}

func refuteN(st *ai.State, J *ai.Term, extra []*ai.Term, inv []implication, depth int) (bool, string) {
	s := st.Copy()
	for _, f := range extra {
		if !s.Assume(f, true) {
			return true, ""
		}
	}
	for changed := true; changed; {
		changed = false
		for _, i := range inv {
			if s.Decide(i.pre) == 1 && s.Decide(i.post) != 1 {
				if !s.Assume(i.post, true) {
					return true, ""
				}
				changed = true
			}
		}
	}
	// quantities forced to equal J
	syms := map[*ai.Term]bool{}
	s.Literals(func(t *ai.Term, _ bool) {
		t.Subterms(func(u *ai.Term) {
			if u != J && u.Op == "sym" && u.Typ != nil {
				if b, ok := u.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					syms[u] = true
				}
			}
		})
	})
	for u := range syms {
		for _, k := range []int64{0, 1, -1} {
			d := ai.Add(u, ai.Int(k))
			if s.Decide(ai.Le(d, J)) == 1 && s.Decide(ai.Le(J, d)) == 1 {
				// J == u+k: replace u by J-k everywhere
				sb := map[*ai.Term]*ai.Term{u: ai.Add(J, ai.Int(-k))}
				if _, ok := subst(s, sb); !ok {
					return true, ""
				}
			}
		}
	}
	if depth > 0 {
		// case split on an implication whose premise is open
		for n, i := range inv {
			if s.Decide(i.pre) == 0 {
				rest := append(append([]implication{}, inv[:n]...), inv[n+1:]...)
				a, _ := refuteN(s, J, []*ai.Term{i.pre, i.post}, rest, depth-1)
				if !a {
					continue
				}
				if b, _ := refuteN(s, J, []*ai.Term{ai.Not(i.pre)}, rest, depth-1); b {
					return true, ""
				}
			}
		}
	}
	return false, "facts " + facts(s)
}

// --- C08

// selections analyses the router for one request and returns the paths on which
// a registered route was selected.
type selection struct {
	out     ai.Outcome
	elem    *ai.Term // address of the selected route
	list    *ai.Term // the list it is in
	pat     *ai.Term
	hdl     *ai.Term
	handler *ai.Event // the call of its handler
}

// routePaths analyses the end of the middleware stack for an arbitrary
// request.
func (r *rtEnv) routePaths(m *ai.Machine, prep func(st *ai.State)) []ai.Outcome {
	st := r.state(m)
	if prep != nil {
		prep(st)
	}
	fn := r.c.routeFn(r.x)
	outs := m.Exec(fn, []*ai.Term{r.rt, r.e.c, r.e.w, r.e.r}, st)
	r.c.problems(m, "router")
	return outs
}

func (r *rtEnv) isServe(ev *ai.Event) bool {
	return ev.Kind == "invoke" && strings.HasSuffix(ev.Name, "web.Handler).ServeHTTPC")
}

func (r *rtEnv) served(o ai.Outcome) (evs []*ai.Event, looped bool) {
	flat(o.St.Trace(), func(ev *ai.Event, in bool) {
		if r.isServe(ev) {
			evs = append(evs, ev)
			looped = looped || in
		}
	})
	return
}

func runC08(c *Ctx) {
	r := c.router()
	masks := map[string]*ai.Term{}
	for _, v := range verbs {
		m := r.machine()
		for _, g := range r.register(m, v.name) {
			at := r.insertion(m, g)
			if at == nil {
				c.fail(g.fn.Pos(), "undecided", "Mux."+v.name, "the new route was not found in the new list")
				continue
			}
			k := r.get(r.elem(m, g.out.St.Copy(), g.list, at), r.mthI)
			_, isK := k.Int()
			c.check(isK && (masks[v.name] == nil || masks[v.name] == k), g.fn.Pos(), "mask", "Mux."+v.name, "the method set stored is %s", k)
			masks[v.name] = k
		}
	}
	for _, name := range append(append([]string{}, httpMethods...), "") {
		m := r.machine()
		mt := ai.Str(name)
		outs := r.routePaths(m, func(st *ai.State) {
			a, t := c.fa(r.e.r, r.e.rT, "Method")
			if name != "" {
				m.SetCell(st, a, mt)
				return
			}
			other := ai.Sym("other", t)
			for _, k := range httpMethods {
				st.Assume(ai.Eq(other, ai.Str(k)), false)
			}
			m.SetCell(st, a, other)
		})
		var sel []selection
		for _, o := range outs {
			if s, ok := r.selected(o); ok {
				sel = append(sel, s)
			}
		}
		if all, ok := masks["Handle"]; ok {
			r.passedOver(outs, all, name)
		}
		c.check(len(sel) > 0, 0, "accepts", "router", "no path selects a route for the method %q", name)
		for _, v := range verbs {
			k := masks[v.name]
			if k == nil {
				continue
			}
			want := v.accepts == nil
			for _, a := range v.accepts {
				want = want || a == name
			}
			got := false
			for _, s := range sel {
				mt := r.fieldOf(s.elem, r.mthI)
				n, ok := subst(s.out.St, map[*ai.Term]*ai.Term{mt: k})
				if !ok {
					continue
				}
				n.Literals(func(t *ai.Term, _ bool) {
					if t.Mentions(mt) {
						c.fail(s.handler.Pos, "undecided", "router", "a condition on the method set is not decided: %s", t)
					}
				})
				got = true
			}
			nm := name
			if nm == "" {
				nm = "an unknown method"
			}
			pos := c.meth(ptr(r.x.muxT), v.name).Pos()
			if want {
				c.check(got, pos, "accepts", "Mux."+v.name, "a route added with %s is not selected for %s", v.name, nm)
			} else {
				c.check(!got, pos, "accepts", "Mux."+v.name, "a route added with %s is selected for %s", v.name, nm)
			}
		}
	}
}

// passedOver checks that a route which accepts everything (all) and whose
// pattern matched ends the search.
func (r *rtEnv) passedOver(outs []ai.Outcome, all *ai.Term, name string) {
	c := r.c
	done := map[*ai.LoopNode]bool{}
	chk := func(st *ai.State, p patCall, what string) {
		_, elem, _ := r.routeOf(p.ev.Args[0])
		if p.name != "Match" || elem == nil || st.Decide(p.ev.Res[0]) == -1 {
			return
		}
		_, ok := subst(st, map[*ai.Term]*ai.Term{r.fieldOf(elem, r.mthI): all, p.ev.Res[0]: ai.True()})
		c.check(!ok, p.ev.Pos, "passed", "router", "a route whose pattern matched and which accepts %q is passed over (%s) [%s]", name, what, facts(st))
	}
	var walk func(evs []*ai.Event)
	walk = func(evs []*ai.Event) {
		for _, e := range evs {
			if e.Kind == "loop" && !done[e.Loop] {
				done[e.Loop] = true
				for _, it := range e.Loop.Iters {
					for _, p := range patCalls(it.Trace.Events()) {
						if !p.in {
							chk(it.St, p, "the search goes on")
						}
					}
					walk(it.Trace.Events())
				}
			}
		}
	}
	for _, o := range outs {
		walk(o.St.Trace())
		if _, ok := r.selected(o); !ok {
			for _, p := range patCalls(o.St.Trace()) {
				if !p.in {
					chk(o.St, p, "nothing is selected")
				}
			}
		}
	}
}

// selected recognises a path on which the handler of a registered route runs.
func (r *rtEnv) selected(o ai.Outcome) (selection, bool) {
	evs, _ := r.served(o)
	for _, ev := range evs {
		list, elem, f := r.routeOf(ev.Args[0])
		if list != nil && f == r.hdlI {
			return selection{out: o, elem: elem, list: list, pat: r.fieldOf(elem, r.patI), hdl: ev.Args[0], handler: ev}, true
		}
	}
	return selection{}, false
}

var _ = fmt.Sprint

func init() {
	register(&Rule{Prop: "C03", Technique: "path-sensitive abstract interpretation of the router with an arbitrary published automaton: must-precede and exactly-once rules tied to one element of the route list",
		Explain: "the router is analysed with an arbitrary automaton and route list; on every path that selects a registered route, that very route's pattern must have accepted the request, its method set must have been tested (the path is infeasible for the empty set), its pattern must be run exactly once with the request and context, after the match and before the handler, no other pattern may be run, and the pattern and handler reported by the Router middleware must be those of one route; a path that selects no route runs no pattern",
		Limits:  "that the automaton visits the right routes in the right order is C01",
		Min:     map[string]int{"matched": 2, "method": 2, "run": 4, "pair": 2, "handler": 4}, Run: runC03})
	register(&Rule{Prop: "C10", Technique: "path-sensitive abstract interpretation of the end of the middleware stack and of the Router middleware",
		Explain: "the end of the middleware stack is analysed with an arbitrary context: on every path exactly one handler is called, with the context, writer and request; it is the handler of the routing match in the environment exactly if there is one (and then no pattern is consulted), otherwise the one routing gave; the Router middleware must have the outcome of routing in the environment when the next layer runs",
		Min:     map[string]int{"once": 5, "explicit": 1, "args": 5, "stored": 3}, Run: runC10})
	register(&Rule{Prop: "C09", Technique: "path-sensitive abstract interpretation of the router with the method table as constants: inductive check of the accumulated method set and enumeration of all paths that build the list",
		Explain: "on every path on which no route is selected the mux's not-found handler must be the one chosen; the set of methods accumulated by the matching loop must, by induction over its iterations, be the union of the method sets of exactly the routes whose pattern matched; and on every path the list of names stored in the environment must be sorted and contain a name exactly if its bit is in that set, the list being stored exactly if the set is not empty; and any two ways through an iteration of the matching loop that the table and the path do not tell apart must consult the same pattern and go on alike, so that no route is passed over because of the method, what matched before, or the context",
		Min:     map[string]int{"handler": 5, "union": 5, "list": 200, "nolist": 1, "bit": 9, "tried": 50}, Run: runC09})
	register(&Rule{Prop: "C07", Technique: "copy-on-write and lock discipline: effect analysis of every method that touches the route list or the automaton, with the published state havocked when the lock is taken",
		Explain: "every exported method of the mux and the router is analysed with an arbitrary published table: no write may reach a published route list or automaton; the list and the automaton pointer may only be written with the lock held, the pointer only atomically; when the lock is released the pointer is nil or leads to an automaton compiled from the very list the router then holds; a request uses the table of one automaton, loaded once; registration leaves the pointer nil or freshly compiled",
		Min:     map[string]int{"locked": 20, "published": 20, "consistent": 11, "atomic": 10, "snapshot": 5}, Run: runC07})
}

const patPre = "web.Pattern)."

// patCalls returns the pattern calls on a path, in order, and whether each is
// in a loop iteration.
type patCall struct {
	ev   *ai.Event
	name string
	in   bool
}

func patCalls(evs []*ai.Event) []patCall {
	var out []patCall
	flat(evs, func(ev *ai.Event, in bool) {
		if ev.Kind == "invoke" {
			if i := strings.Index(ev.Name, patPre); i >= 0 {
				out = append(out, patCall{ev, ev.Name[i+len(patPre):], in})
			}
		}
	})
	return out
}

// checkSelected applies C03 to one path up to the selection.
func (r *rtEnv) checkSelected(o ai.Outcome, elem, list *ai.Term, where string, evs []*ai.Event) {
	c := r.c
	pat := r.fieldOf(elem, r.patI)
	pos := c.routeFn(r.x).Pos()
	matched, runs, early := false, 0, false
	for _, p := range patCalls(evs) {
		switch p.name {
		case "Match":
			if p.ev.Args[0] == pat && !p.in && o.St.Decide(p.ev.Res[0]) == 1 && p.ev.Args[1] == r.e.r && p.ev.Args[2] == r.e.c {
				matched = true
			}
		case "Run":
			runs++
			pos = p.ev.Pos
			if !matched {
				early = true
			}
			c.check(p.ev.Args[0] == pat && !p.in, p.ev.Pos, "run", where, "the pattern %s is run although the route selected is another one", p.ev.Args[0])
			c.check(p.ev.Args[1] == r.e.r && p.ev.Args[2] == r.e.c, p.ev.Pos, "run", where, "the pattern is run with %s and %s, not the request and the context", p.ev.Args[1], p.ev.Args[2])
		}
	}
	c.check(matched, pos, "matched", where, "a route is selected whose pattern has not accepted the request [%s]\n%s", facts(o.St), trace(evs))
	c.check(runs == 1 && !early, pos, "run", where, "the selected route's pattern is run %d times (before its match: %v) [%s]\n%s", runs, early, facts(o.St), trace(evs))
	mt := r.fieldOf(elem, r.mthI)
	_, ok := subst(o.St, map[*ai.Term]*ai.Term{mt: ai.Int(0)})
	c.check(!ok, pos, "method", where, "a route is selected without its own method set having been tested [%s]", facts(o.St))
	c.check(list == r.R || list == r.mroutes(), pos, "matched", where, "the route is taken from %s, not from the table being routed with", list)
}

// explicit returns the match that a context carries when it reaches the end of
// the stack, as terms over the initial state.
func (r *rtEnv) explicit(m *ai.Machine, st *ai.State) (mv, handler *ai.Term) {
	c := r.c
	env := c.load(m, st, r.e.c, r.e.cT, "Env")
	key := ai.IfcT(types.Typ[types.String], ai.Str(c.constStr("web", "MatchKey")))
	v, _ := m.MapGet(st, env, key, types.NewInterfaceType(nil, nil))
	matchT := c.named("web", "Match")
	mv = ai.TA(matchT, v)
	i, ft, _ := field(matchT, "Handler")
	return mv, ai.FieldT(mv, i, ft)
}

func runC03(c *Ctx) {
	r := c.router()
	for _, nilM := range []bool{false, true} {
		m := r.machine()
		prep := func(st *ai.State) {
			st.Assume(ai.Eq(r.M, ai.Nil()), nilM)
		}
		st0 := r.state(m)
		_, exH := r.explicit(m, st0)
		where := "router"
		if nilM {
			where = "router (not compiled yet)"
		}
		for _, o := range r.routePaths(m, prep) {
			if o.Kind != ai.Ret {
				continue
			}
			evs, _ := r.served(o)
			for _, ev := range evs {
				list, elem, f := r.routeOf(ev.Args[0])
				switch {
				case list != nil && c.check(f == r.hdlI, ev.Pos, "handler", where, "what is called is not the route's handler"):
					// the events before the handler runs
					var before []*ai.Event
					for _, e := range o.St.Trace() {
						if e == ev {
							break
						}
						before = append(before, e)
					}
					r.checkSelected(o, elem, list, where, before)
				default:
					c.check(ev.Args[0] == r.NF || ev.Args[0] == exH, ev.Pos, "handler", where, "the handler called, %s, is neither a route's, the not-found handler nor that of an explicit match", ev.Args[0])
					for _, p := range patCalls(o.St.Trace()) {
						c.check(p.name != "Run", p.ev.Pos, "run", where, "a pattern is run although no route is selected")
					}
				}
			}
			for _, p := range patCalls(o.St.Trace()) {
				if p.in {
					c.check(p.name != "Run", p.ev.Pos, "run", where, "a pattern is run for a route that is then passed over")
				}
			}
		}
		// The Router middleware reports pattern and handler together.
		r.routerMW(m, nilM, func(o ai.Outcome, ev *ai.Event, mv *ai.Term) {
			matchT := c.named("web", "Match")
			pi, pt, _ := field(matchT, "Pattern")
			hi, ht, _ := field(matchT, "Handler")
			p, h := ai.FieldT(mv, pi, pt), ai.FieldT(mv, hi, ht)
			list, elem, f := r.routeOf(h)
			if list == nil {
				c.check(h == r.NF && isNil(ev.St, p) == 1, ev.Pos, "pair", "Mux.Router", "the match stored has handler %s and pattern %s", h, p)
				return
			}
			c.check(f == r.hdlI && p == r.fieldOf(elem, r.patI), ev.Pos, "pair", "Mux.Router", "the match stored combines handler %s with pattern %s", h, p)
			var before []*ai.Event
			for _, e := range o.St.Trace() {
				if e == ev {
					break
				}
				before = append(before, e)
			}
			r.checkSelected(o, elem, list, "Mux.Router", before)
		})
	}
}

// routerMW analyses the Router middleware and calls f for every call of the
// next layer with the match then in the environment.
func (r *rtEnv) routerMW(m *ai.Machine, nilM bool, f func(o ai.Outcome, ev *ai.Event, mv *ai.Term)) {
	c := r.c
	fn := c.meth(ptr(r.x.muxT), "Router")
	st := r.state(m)
	st.Assume(ai.Eq(r.M, ai.Nil()), nilM)
	for _, o := range m.Exec(fn, []*ai.Term{r.mux, r.e.c, r.e.h}, st) {
		if o.Kind != ai.Ret {
			continue
		}
		o.St.ClearTrace()
		for _, o := range m.Invoke(o.St, o.Vals[0], r.e.serve, []*ai.Term{r.e.w, r.e.r}) {
			for _, ev := range o.St.Trace() {
				if r.e.isNext(ev) {
					s := ev.St.Copy()
					mv := ai.Sym("nomatch", nil)
					env := c.load(m, s, r.e.c, r.e.cT, "Env")
					key := ai.IfcT(types.Typ[types.String], ai.Str(c.constStr("web", "MatchKey")))
					v, has := m.MapGet(s, env, key, types.NewInterfaceType(nil, nil))
					if s.Decide(has) == 1 && v.Op == "ifc" && types.Identical(v.Typ, c.named("web", "Match")) {
						mv = v.Args[0]
					}
					f(o, ev, mv)
				}
			}
		}
	}
	c.problems(m, "Mux.Router")
}

func runC10(c *Ctx) {
	r := c.router()
	m := r.machine()
	st0 := r.state(m)
	env0 := c.load(m, st0, r.e.c, r.e.cT, "Env")
	mv, exH := r.explicit(m, st0)
	key := ai.IfcT(types.Typ[types.String], ai.Str(c.constStr("web", "MatchKey")))
	val, has := m.MapGet(st0, env0, key, types.NewInterfaceType(nil, nil))
	conds := []*ai.Term{ai.Not(ai.Eq(env0, ai.Nil())), has, ai.IsT(c.named("web", "Match"), val), ai.Not(ai.Eq(exH, ai.Nil()))}
	_ = mv
	for _, o := range r.routePaths(m, nil) {
		pos := c.routeFn(r.x).Pos()
		evs, looped := r.served(o)
		if o.Kind != ai.Ret {
			c.check(false, pos, "once", "router", "routing can end in %s [%s]\n%s", o.Kind, facts(o.St), trace(o.St.Trace()))
			continue
		}
		if !c.check(len(evs) == 1 && !looped, pos, "once", "router", "%d handlers are called for one request [%s]\n%s", len(evs), facts(o.St), trace(o.St.Trace())) {
			continue
		}
		ev := evs[0]
		cv := agg(m, ev.St.Copy(), r.e.c, r.e.cT)
		c.check(ev.Args[1] == cv && ev.Args[2] == r.e.w && ev.Args[3] == r.e.r, ev.Pos, "args", "router", "the handler is called with (%s, %s, %s), not the context, the writer and the request", ev.Args[1], ev.Args[2], ev.Args[3])
		all, none := true, false
		for _, t := range conds {
			switch ev.St.Decide(t) {
			case 0:
				all = false
			case -1:
				all, none = false, true
			}
		}
		pats := patCalls(o.St.Trace())
		if ev.Args[0] == exH {
			c.check(all, ev.Pos, "explicit", "router", "the handler of an explicit match is called although there may be none [%s]", facts(ev.St))
			c.check(len(pats) == 0, ev.Pos, "explicit", "router", "patterns are consulted although the environment holds a match")
		} else {
			c.check(none, ev.Pos, "explicit", "router", "%s is called although the environment may hold an explicit match [%s]", ev.Args[0], facts(ev.St))
			list, _, _ := r.routeOf(ev.Args[0])
			c.check(list != nil || ev.Args[0] == r.NF, ev.Pos, "explicit", "router", "without an explicit match %s is called, which did not come from routing", ev.Args[0])
		}
	}
	for _, nilM := range []bool{false, true} {
		m := r.machine()
		r.routerMW(m, nilM, func(o ai.Outcome, ev *ai.Event, mv *ai.Term) {
			matchT := c.named("web", "Match")
			hi, ht, _ := field(matchT, "Handler")
			h := ai.FieldT(mv, hi, ht)
			list, _, f := r.routeOf(h)
			c.check(list != nil && f == r.hdlI || h == r.NF, ev.Pos, "stored", "Mux.Router", "when the next layer runs the environment does not hold the outcome of routing (but %s) [%s]\n%s", mv, facts(ev.St), trace(o.St.Trace()))
		})
	}
}

// --- C09

func runC09(c *Ctx) {
	r := c.router()
	// the bit of each standard method, as registration stores it
	bits := map[string]*ai.Term{}
	mask := func(verb string) int64 {
		m := r.machine()
		for _, g := range r.register(m, verb) {
			if at := r.insertion(m, g); at != nil {
				if k, ok := r.get(r.elem(m, g.out.St.Copy(), g.list, at), r.mthI).Int(); ok {
					return k
				}
			}
		}
		c.must(0, "undecided", "Mux."+verb, "the method set it stores was not found")
		return 0
	}
	all := int64(0)
	for _, v := range verbs {
		if len(v.accepts) == 1 {
			bits[v.accepts[0]] = ai.Int(mask(v.name))
		}
	}
	if h, ok := bits["HEAD"]; ok {
		hk, _ := h.Int()
		bits["GET"] = ai.Int(mask("Get") &^ hk)
	}
	for _, s := range httpMethods {
		k, _ := bits[s].Int()
		c.check(k != 0 && k&(k-1) == 0 && all&k == 0, 0, "bit", s, "the method %s has no bit of its own (%b)", s, k)
		all |= k
	}
	m := r.machine()
	m.GenericRange = false
	m.Unroll, m.MergeLimit, m.PtLimit, m.OutLimit = true, 4, 2, 2
	key := ai.IfcT(types.Typ[types.String], ai.Str(c.constStr("web", "ValidMethodsKey")))
	lstT := types.NewSlice(types.Typ[types.String])
	pos := c.routeFn(r.x).Pos()
	checked := map[*ai.LoopNode]*ai.Term{}
	n := 0
	_, exH := r.explicit(m, r.state(m))
	for _, o := range r.routePaths(m, func(st *ai.State) { st.Assume(ai.Eq(r.M, ai.Nil()), false) }) {
		evs, _ := r.served(o)
		if o.Kind != ai.Ret || len(evs) != 1 {
			c.check(false, pos, "handler", "router", "a path does not end with one handler call")
			continue
		}
		if l, _, _ := r.routeOf(evs[0].Args[0]); l != nil || evs[0].Args[0] == exH {
			continue // selected or explicit
		}
		c.check(evs[0].Args[0] == r.NF, evs[0].Pos, "handler", "router", "no route is selected, but %s is called instead of the mux's not-found handler", evs[0].Args[0])
		// the accumulated set
		acc := ai.Int(0)
		for _, e := range o.St.Trace() {
			if e.Kind != "loop" {
				continue
			}
			has := false
			for _, p := range patCalls([]*ai.Event{e}) {
				has = has || p.name == "Match"
			}
			if !has {
				continue
			}
			t, ok := checked[e.Loop]
			if !ok {
				t = r.union(e.Loop)
				checked[e.Loop] = t
				c.check(t != nil, e.Pos, "union", "router", "nothing in the matching loop accumulates exactly the method sets of the routes whose pattern matched")
			} else if t != nil {
				c.Oblig["union"]++
			}
			if t == nil {
				return
			}
			acc = t
		}
		// matches outside the loop (the last iteration)
		for _, p := range patCalls(o.St.Trace()) {
			if p.name == "Match" && !p.in {
				l, elem, _ := r.routeOf(p.ev.Args[0])
				if l == nil || o.St.Decide(p.ev.Res[0]) == 0 {
					c.fail(p.ev.Pos, "undecided", "router", "the result of a match is not examined")
					continue
				}
				if o.St.Decide(p.ev.Res[0]) == 1 {
					acc = ai.App("|", acc.Typ, acc, r.fieldOf(elem, r.mthI))
				}
			}
		}
		// what the environment says
		at := evs[0].St.Copy()
		env := c.load(m, at, r.e.c, r.e.cT, "Env")
		v, present := m.MapGet(at, env, key, types.NewInterfaceType(nil, nil))
		set := false
		flat(o.St.Trace(), func(ev *ai.Event, _ bool) {
			if ev.Kind == "mapset" && len(ev.Args) > 1 && ev.Args[1] == key {
				set = true
			}
		})
		stored := v.Op == "ifc" && at.Decide(present) == 1
		empty := o.St.Decide(ai.Eq(acc, ai.Int(0)))
		if acc == ai.Int(0) {
			empty = 1
		}
		if !stored {
			c.check(!set && empty == 1, pos, "nolist", "router", "no list of methods is stored although some pattern may have matched [%s]\n%s", facts(o.St), trace(o.St.Trace()))
			continue
		}
		n++
		c.check(empty == -1, pos, "list", "router", "a list of methods is stored although no pattern may have matched [%s]", facts(o.St))
		if !c.check(types.Identical(v.Typ, lstT), pos, "list", "router", "the list is stored as %s", v.Typ) {
			continue
		}
		got, sorted, ok := sortedElems(m, at, o.St.Trace(), v.Args[0])
		if !c.check(ok, pos, "list", "router", "the list stored is not known: %s\n%s", v.Args[0], trace(o.St.Trace())) {
			continue
		}
		c.check(sorted, pos, "list", "router", "the list %v is stored unsorted", got)
		in := map[string]int{}
		for _, s := range got {
			in[s]++
		}
		for _, s := range httpMethods {
			d := at.Decide(ai.Eq(ai.Int(0), m.BitAnd(acc, bits[s])))
			c.check(d == 1 && in[s] == 0 || d == -1 && in[s] == 1, pos, "list", "router", "%s is listed %d times, but whether a matching route accepts it is: %s [%s]", s, in[s], map[int]string{1: "no", -1: "yes", 0: "not examined"}[d], facts(at))
			delete(in, s)
		}
		c.check(len(in) == 0, pos, "list", "router", "names that are no standard methods are listed: %v", in)
	}
	c.sample("%d paths store a list of methods", n)
	r.tried()
}

// tried checks that which patterns are consulted depends on nothing but the
// table and the request's path: two ways through an iteration of the matching
// loop that are told apart only by something else (the method, the routes'
// method sets, what matched so far, the context) must consult the same pattern
// and go on in the same way, unless the search ends because a route is selected.
func (r *rtEnv) tried() {
	c := r.c
	m := r.machine()
	m.OutLimit, m.PtLimit = 96, 96
	urlA, urlT := c.fa(r.e.r, r.e.rT, "URL")
	url := ai.Ld(urlA, urlT)
	isPath := func(a, u *ai.Term) bool {
		p, _ := c.fa(u, urlT, "Path")
		return a == p
	}
	type way struct {
		st   *ai.State
		pat  *ai.Term
		next map[*ai.Term]*ai.Term // nil: the search ends
		pos  token.Pos
	}
	ways := map[*ai.LoopNode][]way{}
	var loops []*ai.LoopNode
	consulted := func(evs []*ai.Event) (pat *ai.Term, pos token.Pos, n int) {
		for _, p := range patCalls(evs) {
			if p.name == "Match" && !p.in {
				pat, pos, n = p.ev.Args[0], p.ev.Pos, n+1
			}
		}
		return
	}
	for _, o := range r.routePaths(m, func(st *ai.State) { st.Assume(ai.Eq(r.M, ai.Nil()), false) }) {
		var last *ai.LoopNode
		for _, e := range o.St.Trace() {
			if e.Kind != "loop" || e.Loop.Head == nil {
				continue
			}
			has := false
			for _, it := range e.Loop.Iters {
				_, _, n := consulted(it.Trace.Events())
				has = has || n > 0
			}
			if !has {
				continue
			}
			last = e.Loop
			if _, ok := ways[last]; !ok {
				loops = append(loops, last)
				ways[last] = nil
				for _, it := range last.Iters {
					pat, pos, n := consulted(it.Trace.Events())
					if n > 1 {
						continue
					}
					nx := map[*ai.Term]*ai.Term{}
					for _, p := range last.Phis {
						nx[p.Sym] = p.Sym
						if v, ok := it.Next[p.Sym]; ok {
							nx[p.Sym] = v
						}
					}
					ways[last] = append(ways[last], way{it.St, pat, nx, pos})
				}
			}
		}
		if last == nil {
			continue
		}
		if _, ok := r.selected(o); ok {
			continue
		}
		pat, pos, n := consulted(o.St.Trace())
		if n <= 1 {
			ways[last] = append(ways[last], way{o.St, pat, nil, pos})
		}
	}
	for _, l := range loops {
		foreign := map[*ai.Term]bool{}
		urls := map[*ai.Term]bool{url: true}
		for _, p := range l.Phis {
			if p.Init == url {
				urls[p.Sym] = true
			}
		}
		for _, it := range l.Iters {
			for _, p := range patCalls(it.Trace.Events()) {
				for _, v := range p.ev.Res {
					foreign[v] = true
				}
			}
		}
		for _, w := range ways[l] {
			for _, p := range patCalls(w.st.Trace()) {
				for _, v := range p.ev.Res {
					foreign[v] = true
				}
			}
		}
		bad := func(t *ai.Term) bool {
			res := false
			t.Subterms(func(x *ai.Term) {
				if foreign[x] || x == r.e.w {
					res = true
				}
				if x.Op != "ld" {
					return
				}
				a := x.Args[0]
				switch root := a.Root(); {
				case root == r.e.c, root == r.e.r && a != urlA, urls[root] && !isPath(a, root):
					res = true
				}
				if list, _, f := r.routeOf(x); list != nil && (f == r.mthI || f == r.hdlI) {
					res = true
				}
			})
			return res
		}
		for again := true; again; {
			again = false
			for _, p := range l.Phis {
				if foreign[p.Sym] {
					continue
				}
				f := bad(p.Init)
				for _, it := range l.Iters {
					if v, ok := it.Next[p.Sym]; ok && bad(v) {
						f = true
					}
				}
				if f {
					foreign[p.Sym], again = true, true
				}
			}
		}
		clean := func(st *ai.State) *ai.State {
			n := ai.NewState()
			st.Literals(func(t *ai.Term, val bool) {
				if !bad(t) {
					n.Assume(t, val)
				}
			})
			return n
		}
		ws := ways[l]
		cl := make([]*ai.State, len(ws))
		for i, w := range ws {
			cl[i] = clean(w.st)
		}
		for i, w := range ws {
			for j := 0; j < i; j++ {
				v := ws[j]
				same := w.pat == v.pat && (w.next == nil) == (v.next == nil)
				if same && w.next != nil {
					for _, p := range l.Phis {
						if !foreign[p.Sym] && w.next[p.Sym] != v.next[p.Sym] {
							same = false
						}
					}
				}
				if same {
					c.Oblig["tried"]++
					continue
				}
				n, ok := cl[i].Copy(), true
				cl[j].Literals(func(t *ai.Term, val bool) {
					ok = ok && n.Assume(t, val)
				})
				pos := l.Pos
				if w.pos != 0 {
					pos = w.pos
				} else if v.pos != 0 {
					pos = v.pos
				}
				c.check(!ok, pos, "tried", "router", "whether a route's pattern is consulted depends on more than the table and the path: [%s] as opposed to [%s]", facts(w.st), facts(v.st))
			}
		}
	}
}

// sortedElems gives the constant strings of a slice that has been sorted.
func sortedElems(m *ai.Machine, st *ai.State, evs []*ai.Event, l *ai.Term) (names []string, sorted, ok bool) {
	read := func(s *ai.State, l *ai.Term) bool {
		vs, ok := m.Elems(s.Copy(), l)
		if !ok {
			return false
		}
		names = nil
		for _, v := range vs {
			x, ok := v.Str()
			if !ok {
				return false
			}
			names = append(names, x)
		}
		return true
	}
	same := func(a *ai.Term) bool {
		b1, l1, n1 := ai.SliceParts(a)
		b2, l2, n2 := ai.SliceParts(l)
		return b1 == b2 && l1 == l2 && n1 == n2
	}
	for i := len(evs) - 1; i >= 0; i-- {
		ev := evs[i]
		if ev.Kind == "call" && (ev.Name == "sort.Strings" || strings.HasPrefix(ev.Name, "slices.Sort")) && len(ev.Args) == 1 && same(ev.Args[0]) {
			return names, true, read(ev.St, l)
		}
		if ev.Kind == "call" && (ev.Name == "sort.Sort" || ev.Name == "sort.Stable") && ev.Args[0].Op == "ifc" && types.TypeString(ev.Args[0].Typ, nil) == "sort.StringSlice" && same(ev.Args[0].Args[0]) {
			return names, true, read(ev.St, l)
		}
	}
	if !read(st, l) {
		return nil, false, false
	}
	return names, sort.StringsAreSorted(names), true
}

// union finds the quantity of a loop that starts at 0 and to which each
// iteration adds the method set of the route whose pattern matched in it.
func (r *rtEnv) union(l *ai.LoopNode) *ai.Term {
	for _, p := range l.Phis {
		if k, ok := p.Init.Int(); !ok || k != 0 {
			continue
		}
		ok := len(l.Iters) > 0
		for _, it := range l.Iters {
			want := []*ai.Term{p.Sym}
			for _, pc := range patCalls(it.Trace.Events()) {
				if pc.name != "Match" {
					continue
				}
				_, elem, _ := r.routeOf(pc.ev.Args[0])
				if elem == nil || pc.in {
					ok = false
					continue
				}
				switch it.St.Decide(pc.ev.Res[0]) {
				case 1:
					mt := r.fieldOf(elem, r.mthI)
					want = []*ai.Term{ai.App("|", mt.Typ, p.Sym, mt), ai.App("|", mt.Typ, mt, p.Sym)}
				case 0:
					ok = false
				}
			}
			nx, has := it.Next[p.Sym]
			if !has {
				nx = p.Sym
			}
			found := false
			for _, w := range want {
				found = found || w == nx
			}
			ok = ok && found
		}
		if ok {
			return p.Sym
		}
	}
	return nil
}
