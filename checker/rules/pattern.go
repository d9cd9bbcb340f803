package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"gojicheck/ai"
)

// --- patterns built by the public constructor

// patVal is one abstract built-in pattern.
type patVal struct {
	kind   string // "string" or "regexp"
	pat    *ai.Term
	st     *ai.State
	raw    *ai.Term
	slices []*ai.Term // its slices
	parse  []*ai.Event
}

// patternsOf lists the abstract values of the built-in patterns; generic: what
// their slices hold is arbitrary. Empty slices are told apart.
func (c *Ctx) patternsOf(m *ai.Machine, generic bool) []patVal {
	var out []patVal
	for _, p := range c.patterns(m) {
		v := patVal{kind: p.kind, pat: p.pat, st: p.st.Copy(), raw: p.src, parse: p.st.Trace()}
		v.st.ClearTrace()
		if p.pat.Op != "ifc" {
			c.must(token.NoPos, "undecided", "web.ParsePattern("+p.kind+")", "the pattern is %s", p.pat)
		}
		t := p.pat.Typ
		pt, isPtr := t.Underlying().(*types.Pointer)
		if isPtr {
			t = pt.Elem()
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			c.must(token.NoPos, "undecided", "web.ParsePattern("+p.kind+")", "the pattern is not a struct")
		}
		var fs []*ai.Term
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			var f *ai.Term
			if isPtr {
				f = m.Load(v.st, ai.FA(p.pat.Args[0], i, ft), ft)
			} else {
				f = ai.FieldT(p.pat.Args[0], i, ft)
			}
			if _, ok := ft.Underlying().(*types.Slice); ok {
				if generic {
					g := ai.Sym(fmt.Sprintf("pattern.%s", s.Field(i).Name()), ft)
					v.st.Assume(ai.Eq(ai.Len(g), ai.Len(f)), true)
					f = g
					if isPtr {
						m.SetCell(v.st, ai.FA(p.pat.Args[0], i, ft), f)
					}
				}
				v.slices = append(v.slices, f)
			}
			fs = append(fs, f)
		}
		if !isPtr {
			v.pat = ai.IfcT(p.pat.Typ, ai.AggT(t, fs))
		}
		vs := []patVal{v}
		for _, s := range v.slices {
			var n []patVal
			for _, w := range vs {
				for _, empty := range []bool{true, false} {
					x := w
					x.st = w.st.Copy()
					if x.st.Assume(ai.Eq(ai.Len(s), ai.Int(0)), empty) {
						n = append(n, x)
					}
				}
			}
			vs = n
		}
		out = append(out, vs...)
	}
	return out
}

// parts lists the memory a request or context consists of: every field of what
// p points to, and of the structs that its pointers to structs lead to.
type part struct {
	name string
	addr *ai.Term
	typ  types.Type
}

func (c *Ctx) parts(name string, p *ai.Term, t types.Type, follow bool) []part {
	var out []part
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		a := ai.FA(p, i, f.Type())
		n := name + "." + f.Name()
		if _, ok := f.Type().Underlying().(*types.Struct); ok {
			out = append(out, c.parts(n, a, f.Type(), follow)...)
			continue
		}
		out = append(out, part{n, a, f.Type()})
		if pt, ok := f.Type().Underlying().(*types.Pointer); ok && follow && f.Name() == "URL" {
			out = append(out, c.parts(n, ai.Ld(a, f.Type()), pt.Elem(), false)...)
		}
	}
	return out
}

// untouched reports the first part of the request or context that differs
// between two states.
func (c *Ctx) untouched(m *ai.Machine, before, after *ai.State, ps []part) (string, bool) {
	for _, p := range ps {
		b, a := m.Load(before.Copy(), p.addr, p.typ), m.Load(after.Copy(), p.addr, p.typ)
		if a != b && after.Decide(ai.Eq(a, b)) != 1 {
			return p.name, false
		}
		if _, ok := p.typ.Underlying().(*types.Map); ok {
			if why, ok := sameContent(m, before, after, b); !ok {
				return "the content of " + p.name + why, false
			}
		}
	}
	return "", true
}

// sameContent compares the content of a map in two states.
func sameContent(m *ai.Machine, before, after *ai.State, M *ai.Term) (string, bool) {
	b0, k0, p0, v0 := m.MapContent(before, M)
	b1, k1, p1, v1 := m.MapContent(after, M)
	if b0 != b1 || len(k0) != len(k1) {
		return "", false
	}
	for i := range k0 {
		if k0[i] != k1[i] || p0[i] != p1[i] || v0[i] != v1[i] {
			return fmt.Sprintf(" (%s)", k0[i]), false
		}
	}
	return "", true
}

// writesTo finds a recorded write into memory reached from one of the roots.
func writesTo(evs []*ai.Event, roots ...*ai.Term) *ai.Event {
	var hit *ai.Event
	flat(evs, func(ev *ai.Event, _ bool) {
		switch ev.Kind {
		case "store", "mapset", "mapdel", "copy", "clear", "mapcopy":
		case "hdr":
			if ev.Name == "Get" {
				return
			}
		default:
			return
		}
		if len(ev.Args) == 0 || hit != nil {
			return
		}
		a := ev.Args[0]
		if a.Root().Op == "obj" {
			return
		}
		for _, r := range roots {
			if a.Mentions(r) {
				hit = ev
			}
		}
	})
	return hit
}

func (c *Ctx) patState(e *mwEnv, p patVal, nilC bool) (*ai.State, *ai.Term) {
	st := p.st.Copy()
	st.Assume(ai.Eq(e.r, ai.Nil()), false)
	ua, ut := c.fa(e.r, e.rT, "URL")
	st.Assume(ai.Eq(ai.Ld(ua, ut), ai.Nil()), false)
	cc := e.c
	if nilC {
		cc = ai.Nil()
	} else {
		st.Assume(ai.Eq(e.c, ai.Nil()), false)
	}
	return st, cc
}

func init() {
	register(&Rule{Prop: "C04", Technique: "effect analysis by abstract interpretation: every outcome of Match, and of routing up to the selected handler, is compared field by field and map by map with the state before",
		Explain: "Match of a string and of a regular expression pattern, as built by ParsePattern from an arbitrary source, is analysed with an arbitrary request and context (and with no context): on every path, in every iteration, no write may reach memory of the request, its URL, its maps, the context or its maps, and afterwards every field and map must hold what it held; and on every path of the router that selects a route, nothing but that route's pattern may have written to the context or the request before the handler runs",
		Limits:  "patterns the user implements are the user's business",
		Min:     map[string]int{"match": 8, "fields": 8, "considered": 2}, Run: runC04})
}

func runC04(c *Ctx) {
	e := c.mwEnv()
	m := c.M.Sub()
	m.UserPanics = true
	ps := append(c.parts("c", e.c, e.cT, false), c.parts("r", e.r, e.rT, true)...)
	match := c.patMeth("Match")
	for _, p := range c.patternsOf(m, true) {
		fn := c.meth(p.pat.Typ, "Match")
		for _, nilC := range []bool{false, true} {
			st, cc := c.patState(e, p, nilC)
			for _, o := range m.Invoke(st.Copy(), p.pat, match, []*ai.Term{e.r, cc}) {
				name := p.kind + " pattern Match"
				if ev := writesTo(o.St.Trace(), e.c, e.r); ev != nil {
					c.check(false, ev.Pos, "match", name, "matching writes to %s (in %s, path: %s)", ev.Args[0], short(ev.Fn), facts(ev.St))
				} else {
					c.Oblig["match"]++
				}
				part, ok := c.untouched(m, st, o.St, ps)
				c.check(ok, fn.Pos(), "fields", name, "matching may change %s (path: %s)\n%s", part, facts(o.St), trace(o.St.Trace()))
			}
		}
	}
	c.problems(m, "Match")
	// routes considered but not selected
	r := c.router()
	m = r.machine()
	for _, o := range r.routePaths(m, nil) {
		if _, ok := r.selected(o); !ok {
			continue
		}
		var pre []*ai.Event
		for _, ev := range o.St.Trace() {
			if r.isServe(ev) {
				break
			}
			pre = append(pre, ev)
		}
		ev := writesTo(pre, r.e.c, r.e.r)
		pos := c.routeFn(r.x).Pos()
		if ev != nil {
			pos = ev.Pos
		}
		c.check(ev == nil, pos, "considered", "router", "the context or request is written to while a route is being looked for, although a route is then selected\n%s", trace(pre))
	}
	c.problems(m, "router")
}

// --- lockstep of two executions

// twin relates the loop symbols of one execution to those of another one: it
// proves that two executions from one state take loops of the same shape the
// same number of times through the same values.
type twin struct {
	sb map[*ai.Term]*ai.Term // symbol of the second execution -> of the first
}

func normSite(s string) string {
	// the path of calls without instruction numbers and without its root
	var out []string
	for i, f := range strings.Split(s, "/") {
		if i < 2 {
			continue // rule/<method>
		}
		if j := strings.LastIndexByte(f, ':'); j >= 0 && !strings.HasPrefix(f[j+1:], "L") {
			f = f[:j]
		}
		out = append(out, f)
	}
	return strings.Join(out, "/")
}

func loopsOf(evs []*ai.Event) []*ai.LoopNode {
	var out []*ai.LoopNode
	for _, e := range evs {
		if e.Kind == "loop" {
			out = append(out, e.Loop)
		}
	}
	return out
}

// phiName is the name of the source variable of a loop symbol.
func phiName(t *ai.Term) string {
	s := t.S
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		s = s[i+1:]
	}
	f := strings.Split(s, ".")
	if len(f) < 3 {
		return s
	}
	return f[len(f)-2]
}

// excludes reports whether two states cannot both be reached.
func (w twin) excludes(a, b *ai.State) bool {
	w = w.match(a, b)
	n := a.Copy()
	ok := true
	var lits []*ai.Term
	b.Literals(func(t *ai.Term, v bool) {
		if !v {
			t = ai.Not(t)
		}
		lits = append(lits, t.Subst(w.sb))
	})
	// twice: later facts may decide earlier ones
	for i := 0; i < 2 && ok; i++ {
		for _, t := range lits {
			if !n.Assume(t, true) {
				ok = false
				break
			}
		}
	}
	return !ok
}

// match extends w with the symbols of the loops both executions went through.
func (w twin) match(a, b *ai.State) twin {
	r := twin{map[*ai.Term]*ai.Term{}}
	for k, v := range w.sb {
		r.sb[k] = v
	}
	as, bs := loopsOf(a.Trace()), loopsOf(b.Trace())
	used := map[*ai.LoopNode]bool{}
	pair := map[*ai.LoopNode]*ai.LoopNode{}
	for _, x := range as {
		for _, y := range bs {
			if !used[y] && normSite(x.Site) == normSite(y.Site) {
				used[y], pair[x] = true, y
				break
			}
		}
	}
	if len(pair) == 0 && len(as) == len(bs) {
		for i := range as {
			pair[as[i]] = bs[i]
		}
	}
	for _, x := range as {
		if y := pair[x]; y != nil {
			r.loop(x, y, a, b)
		}
	}
	return r
}

// loop identifies what varies over x with what varies over y, as far as that
// can be proved by induction; outside of the loops a and b are where the two
// executions ended up.
func (w twin) loop(x, y *ai.LoopNode, a, b *ai.State) {
	type link struct{ px, py ai.LoopPhi }
	var ls []link
	used := map[int]bool{}
	for pass := 0; pass < 2; pass++ {
		for _, px := range x.Phis {
			done := false
			for _, l := range ls {
				done = done || l.px.Sym == px.Sym
			}
			if done || px.Cell != nil {
				continue
			}
			for j, py := range y.Phis {
				if used[j] || py.Cell != nil || px.Init != py.Init.Subst(w.sb) {
					continue
				}
				if pass == 0 && phiName(px.Sym) != phiName(py.Sym) || !types.Identical(px.Sym.Typ, py.Sym.Typ) {
					continue
				}
				used[j] = true
				ls = append(ls, link{px, py})
				break
			}
		}
	}
	for len(ls) > 0 {
		h := twin{map[*ai.Term]*ai.Term{}}
		for k, v := range w.sb {
			h.sb[k] = v
		}
		for _, l := range ls {
			h.sb[l.py.Sym] = l.px.Sym
		}
		drop := -1
	pairs:
		for _, i := range x.Iters {
			for _, j := range y.Iters {
				g := h.match(i.St, j.St)
				if g.excludes(i.St, j.St) {
					continue
				}
				for n, l := range ls {
					u, v := i.Next[l.px.Sym], j.Next[l.py.Sym]
					if u == nil || v == nil || u != v.Subst(g.sb) {
						drop = n
						break pairs
					}
				}
			}
		}
		if drop >= 0 {
			ls = append(ls[:drop:drop], ls[drop+1:]...)
			continue
		}
		// neither goes on when the other has left
		apart := true
		for _, j := range y.Iters {
			apart = apart && h.excludes(a, j.St)
		}
		for _, i := range x.Iters {
			apart = apart && h.excludes(i.St, b)
		}
		if apart {
			for k, v := range h.sb {
				w.sb[k] = v
			}
		}
		return
	}
}

// --- C05

// cover is a range of names from a slice that a map holds: [lo, hi).
type cover struct {
	slice  *ai.Term
	lo, hi *ai.Term
}

// binding is what one execution of Run has put into a map.
type binding struct {
	slices []cover
	consts map[string]bool
	old    bool // everything the old map held
	from   *ai.Term
	alien  *ai.Event // a name that is not the pattern's own
}

func newBinding() *binding { return &binding{consts: map[string]bool{}} }

// names interprets the map writes of a path.
type names struct {
	p    patVal
	I    *ai.Term // the parameters found
	maps map[*ai.Term]*binding
	lost *ai.Event // an old parameter was removed
}

func (n *names) of(M *ai.Term) *binding {
	b := n.maps[M]
	if b == nil {
		b = newBinding()
		b.old = M == n.I
		n.maps[M] = b
	}
	return b
}

// elem recognises an element of one of the pattern's slices.
func (n *names) elem(k *ai.Term) (slice, idx *ai.Term) {
	if k.Op != "ld" || k.Args[0].Op != "ia" {
		return nil, nil
	}
	a := k.Args[0]
	for _, s := range n.p.slices {
		if a.Args[0] == s {
			return s, a.Args[1]
		}
	}
	return nil, nil
}

func (n *names) copyAll(dst, src *ai.Term, ev *ai.Event) {
	d, s := n.of(dst), n.of(src)
	if dst == src {
		return
	}
	if src == n.I {
		// the old parameters win over those set before
		d.slices, d.consts, d.old = nil, map[string]bool{}, true
		return
	}
	if s.alien != nil && d.alien == nil {
		d.alien = s.alien
	}
	if src.Op != "obj" && d.alien == nil {
		d.alien = ev
	}
	d.slices = append(d.slices, s.slices...)
	for k := range s.consts {
		d.consts[k] = true
	}
}

func (n *names) set(ev *ai.Event, in bool) {
	d := n.of(ev.Args[0])
	if k, ok := ev.Args[1].Str(); ok {
		if !in {
			d.consts[k] = true
		}
		if k != "*" && d.alien == nil {
			d.alien = ev
		}
		return
	}
	if s, _ := n.elem(ev.Args[1]); s == nil && d.alien == nil {
		d.alien = ev
	} else if s != nil && !in {
		_, i := n.elem(ev.Args[1])
		d.slices = append(d.slices, cover{s, i, ai.Add(i, ai.Int(1))})
	}
}

func (n *names) run(evs []*ai.Event, end *ai.State) {
	for i, ev := range evs {
		switch ev.Kind {
		case "mapset":
			n.set(ev, false)
		case "mapdel", "clear":
			n.of(ev.Args[0]).slices = nil
			if n.lost == nil && ev.Args[0] == n.I {
				n.lost = ev
			}
		case "mapcopy":
			n.copyAll(ev.Args[0], ev.Args[1], ev)
		case "loop":
			n.loop(ev.Loop, evs[i+1:], end)
		}
	}
}

func (n *names) loop(l *ai.LoopNode, rest []*ai.Event, end *ai.State) {
	// copies of one map into another
	var X, M *ai.Term
	copies := true
	for i, it := range l.Iters {
		var nx *ai.Event
		var to *ai.Term
		for _, ev := range it.Trace.Events() {
			switch ev.Kind {
			case "next":
				nx = ev
			case "mapset":
				if nx != nil && ev.Args[1] == nx.Args[1] && ev.Args[2] == nx.Args[2] && to == nil {
					to = ev.Args[0]
				} else {
					copies = false
				}
			case "loop", "mapdel", "clear":
				copies = false
			}
		}
		if nx == nil || to == nil || i > 0 && (X != nx.Args[0] || M != to) {
			copies = false
			break
		}
		X, M = nx.Args[0], to
	}
	if copies && X != nil {
		full := false
		for _, ev := range rest {
			if ev.Kind == "nextend" && ev.Args[0] == X {
				full = true
			}
			if ev.Kind == "loop" {
				break
			}
		}
		if full {
			n.copyAll(M, X, rest[0])
			return
		}
	}
	// names set one by one
	for i, it := range l.Iters {
		evs := it.Trace.Events()
		flat(evs, func(ev *ai.Event, in bool) {
			switch ev.Kind {
			case "mapset":
				n.set(ev, true)
			case "mapdel", "clear":
				n.of(ev.Args[0]).slices = nil
				if n.lost == nil && ev.Args[0] == n.I {
					n.lost = ev
				}
			}
		})
		for _, ev := range evs {
			if ev.Kind != "mapset" {
				continue
			}
			s, idx := n.elem(ev.Args[1])
			if s == nil {
				continue
			}
			every, zero := true, false
			for j, o := range l.Iters {
				has := i == j
				for _, e2 := range o.Trace.Events() {
					has = has || e2.Kind == "mapset" && e2.Args[0] == ev.Args[0] && e2.Args[1] == ev.Args[1]
				}
				if !has && o.St.Decide(ai.Le(idx, ai.Int(0))) == 1 {
					zero = true // all but the first
					continue
				}
				every = every && has
			}
			if !every {
				continue
			}
			for _, ph := range l.Phis {
				if ph.Step == nil || ph.Cell != nil {
					continue
				}
				d := ai.Sub(idx, ph.Sym)
				if _, ok := d.Int(); !ok {
					continue
				}
				switch ph.Step.K {
				case 1:
					lo := ai.Add(ph.Init, d)
					if k, ok := lo.Int(); zero && (!ok || k > 1) {
						continue
					} else if zero {
						lo = ai.Int(1)
					}
					n.of(ev.Args[0]).slices = append(n.of(ev.Args[0]).slices, cover{s, lo, ai.Add(ph.Sym, d)})
				case -1:
					if zero {
						continue
					}
					n.of(ev.Args[0]).slices = append(n.of(ev.Args[0]).slices, cover{s, ai.Add(ai.Add(ph.Sym, d), ai.Int(1)), ai.Add(ai.Add(ph.Init, d), ai.Int(1))})
				}
			}
		}
	}
}

func init() {
	register(&Rule{Prop: "C05", Technique: "relational abstract interpretation of Match and Run from one arbitrary state (lockstep proof over their loops), and a must-analysis of the names put into the parameter map",
		Explain: "for the patterns ParsePattern builds, Match and Run are analysed from the same arbitrary request, context and parameter map; their loops are put in lockstep by induction, and then every pair of a Match path and a Run path that can happen together must agree: if Match says no, Run must leave the context and its maps as they were; if Match says yes, the map the context ends up with must be the old one or hold everything the old one did, must have been given every name of the pattern (each element of its list of names, and * for a wildcard pattern), and no other name",
		Limits:  "which part of the path a name is bound to is not part of the property",
		Min:     map[string]int{"agree": 8, "nomatch": 4, "keeps": 4, "binds": 4, "names": 2}, Run: runC05})
}

func runC05(c *Ctx) {
	e := c.mwEnv()
	parI, parT, ok := field(e.cT, "URLParams")
	if !ok {
		c.must(token.NoPos, "anchor", "web.C", "no field URLParams")
	}
	parA := ai.FA(e.c, parI, parT)
	ps := c.parts("c", e.c, e.cT, false)
	type result struct {
		p    patVal
		o    ai.Outcome
		n    *names
		F    *ai.Term
		pos  token.Pos
		name string
		wild bool
	}
	full := map[string]map[*ai.Term]bool{}
	var matched []result
	m := c.M.Sub()
	m.OutLimit, m.PtLimit = 64, 64
	for _, p := range c.patternsOf(m, true) {
		if full[p.kind] == nil {
			full[p.kind] = map[*ai.Term]bool{}
		}
		fn := c.meth(p.pat.Typ, "Run")
		c.meth(p.pat.Typ, "Match")
		name := p.kind + " pattern"
		for _, nilI := range []bool{false, true} {
			st, cc := c.patState(e, p, false)
			I := m.Load(st, parA, parT)
			st.Assume(ai.Eq(I, ai.Nil()), nilI)
			st.ClearTrace()
			args := []*ai.Term{e.r, cc}
			mo := m.Invoke(st.Copy(), p.pat, c.patMeth("Match"), args)
			var ms []ai.Outcome
			var says []bool
			for _, o := range mo {
				if o.Kind != ai.Ret {
					c.check(false, fn.Pos(), "agree", name, "matching can end in %s [%s]", o.Kind, facts(o.St))
					continue
				}
				for _, b := range []bool{true, false} {
					s := o.St.Copy()
					if s.Assume(o.Vals[0], b) {
						ms, says = append(ms, ai.Outcome{Kind: o.Kind, St: s}), append(says, b)
					}
				}
			}
			for _, o := range m.Invoke(st.Copy(), p.pat, c.patMeth("Run"), args) {
				if o.Kind != ai.Ret {
					c.check(false, fn.Pos(), "agree", name, "running can end in %s [%s]", o.Kind, facts(o.St))
					continue
				}
				yes, no := false, false
				var no1 ai.Outcome
				for i, q := range ms {
					if (twin{map[*ai.Term]*ai.Term{}}).excludes(q.St, o.St) {
						continue
					}
					if says[i] {
						yes = true
					} else {
						no, no1 = true, q
					}
				}
				c.check(yes || no, fn.Pos(), "agree", name, "a path of Run corresponds to no path of Match [%s]", facts(o.St))
				if no {
					part, ok := c.untouched(m, st, o.St, ps)
					c.check(ok, fn.Pos(), "nomatch", name, "Run may change %s although Match says no\n  Match: %s\n  Run: %s\n%s", part, facts(no1.St), facts(o.St), trace(o.St.Trace()))
				}
				if !yes {
					continue
				}
				n := &names{p: p, I: I, maps: map[*ai.Term]*binding{}}
				n.run(o.St.Trace(), o.St)
				F := m.Load(o.St.Copy(), parA, parT)
				wild := p.kind == "string" && o.St.Decide(ai.App("strings.HasSuffix", types.Typ[types.Bool], p.raw, ai.Str("/*"))) == 1
				matched = append(matched, result{p, o, n, F, fn.Pos(), name, wild})
				for _, cv := range n.of(F).slices {
					if o.St.Decide(ai.Le(ai.Len(cv.slice), cv.hi)) == 1 && o.St.Decide(ai.Le(cv.lo, ai.Int(first(p.kind)))) == 1 {
						full[p.kind][cv.slice] = true
					}
				}
			}
		}
	}
	c.problems(m, "Match and Run")
	for _, k := range []string{"string", "regexp"} {
		c.check(len(full[k]) > 0, token.NoPos, "names", k+" pattern", "running the pattern binds no list of names in full")
	}
	for _, r := range matched {
		b := r.n.of(r.F)
		desc := func() string { return facts(r.o.St) + "\n" + trace(r.o.St.Trace()) }
		if isNil(r.o.St, r.n.I) == -1 {
			c.check(r.n.lost == nil && b.old, r.pos, "keeps", r.name, "parameters bound before may be lost: the context ends up with %s [%s]", r.F, desc())
		}
		c.check(b.alien == nil, r.pos, "binds", r.name, "a name that is not the pattern's own is bound [%s]", desc())
		c.check(!r.wild || b.consts["*"], r.pos, "binds", r.name, "a wildcard pattern does not bind * [%s]", desc())
		for s := range full[r.p.kind] {
			if r.o.St.Decide(ai.Le(ai.Len(s), ai.Int(first(r.p.kind)))) == 1 {
				continue
			}
			ok := false
			for _, cv := range b.slices {
				ok = ok || cv.slice == s && r.o.St.Decide(ai.Le(ai.Len(s), cv.hi)) == 1 && r.o.St.Decide(ai.Le(cv.lo, ai.Int(first(r.p.kind)))) == 1
			}
			c.check(ok, r.pos, "binds", r.name, "not every name of the pattern is bound when it matches [%s]", desc())
		}
	}
}

// first is the index of the first parameter in the list of names: the first
// name of a regular expression stands for all of it.
func first(kind string) int64 {
	if kind == "regexp" {
		return 1
	}
	return 0
}

// --- C06

func init() {
	register(&Rule{Prop: "C06", Technique: "entailment of the prefix test from the path conditions of Match (first iteration peeled), and an inductive argument over the loop that extracts the literal prefix from the compiled program",
		Explain: "on every path on which a string pattern accepts, the conditions must entail that the request's path starts with what Prefix returns; a regular expression pattern may only accept what its expression finds in the request's path; that expression must be the one given if its program starts with a beginning-of-text assertion, or else the compilation of it in a group behind such an assertion, or the pattern must advertise the empty prefix because the expression could not be analysed; and the prefix must be built by following the compiled program from its start along Out, through instructions that cannot branch, with exactly the runes of instructions that match one rune, case-sensitively, and not the replacement character",
		Limits:  "package regexp is trusted to do what its documentation says; expressions in POSIX syntax are read as Perl ones, as the code says",
		Min:     map[string]int{"prefix": 4, "finds": 2, "anchored": 2, "literal": 2}, Run: runC06})
}

func runC06(c *Ctx) {
	e := c.mwEnv()
	pathOf := func(m *ai.Machine, st *ai.State) *ai.Term {
		ua, ut := c.fa(e.r, e.rT, "URL")
		u := m.Load(st, ua, ut)
		pa, pt := c.fa(u, ut, "Path")
		return m.Load(st, pa, pt)
	}
	accepts := func(m *ai.Machine, p patVal, f func(o ai.Outcome, path *ai.Term)) {
		for _, nilC := range []bool{false, true} {
			st, cc := c.patState(e, p, nilC)
			path := pathOf(m, st)
			for _, o := range m.Invoke(st.Copy(), p.pat, c.patMeth("Match"), []*ai.Term{e.r, cc}) {
				if o.Kind != ai.Ret {
					continue // C05
				}
				if s := o.St.Copy(); s.Assume(o.Vals[0], true) {
					f(ai.Outcome{Kind: o.Kind, St: s}, path)
				}
			}
		}
	}
	prefixes := func(m *ai.Machine, p patVal) []ai.Outcome {
		st, _ := c.patState(e, p, true)
		var out []ai.Outcome
		for _, o := range m.Invoke(st, p.pat, c.patMeth("Prefix"), nil) {
			if o.Kind == ai.Ret {
				out = append(out, o)
			}
		}
		return out
	}
	// string patterns, with arbitrary slices or with those the parser makes
	var bad []func()
	for _, generic := range []bool{true, false} {
		m := c.M.Sub()
		m.OutLimit, m.PtLimit = 64, 64
		m.Peel = true
		bad = nil
		n := 0
		for _, p := range c.patternsOf(m, generic) {
			if p.kind != "string" {
				continue
			}
			fn := c.meth(p.pat.Typ, "Match")
			for _, po := range prefixes(m, p) {
				p.st = po.St
				p.st.ClearTrace()
				accepts(m, p, func(o ai.Outcome, path *ai.Term) {
					n++
					pre := po.Vals[0]
					if o.St.Decide(ai.Eq(path, pre)) != 1 && o.St.Decide(m.Fold("strings.HasPrefix", path, pre)) != 1 {
						bad = append(bad, func() {
							c.check(false, fn.Pos(), "prefix", "string pattern", "a path that does not start with the prefix %s may match [%s]", pre, facts(o.St))
						})
					}
				})
			}
		}
		c.problems(m, "string pattern")
		c.Oblig["prefix"] += n
		if len(bad) == 0 && n > 0 {
			break
		}
	}
	for _, f := range bad {
		f()
	}
	// regular expressions
	m := c.M.Sub()
	m.OutLimit, m.PtLimit = 64, 64
	for _, p := range c.patternsOf(m, false) {
		if p.kind != "regexp" {
			continue
		}
		var found []*ai.Term
		fn := c.meth(p.pat.Typ, "Match")
		accepts(m, p, func(o ai.Outcome, path *ai.Term) {
			var re *ai.Term
			o.St.Literals(func(t *ai.Term, v bool) {
				if v && t.Op == "app" && t.S == "(*regexp.Regexp).MatchString" && t.Args[1] == path {
					re = t.Args[0]
				}
			})
			if c.check(re != nil, fn.Pos(), "finds", "regexp pattern", "a request may match although no expression was found in its path [%s]", facts(o.St)) {
				for _, f := range found {
					if f == re {
						return
					}
				}
				found = append(found, re)
			}
		})
		for _, re := range found {
			for _, po := range prefixes(m, p) {
				c.checkRegexp(m, p, re, po.Vals[0], fn.Pos())
			}
		}
	}
	c.problems(m, "regexp pattern")
}

// progOf recognises a program compiled from the expression given, and the
// events that made it.
func (c *Ctx) progOf(p patVal, evs []*ai.Event) (prog *ai.Term, perr bool) {
	src := ai.App("(*regexp.Regexp).String", types.Typ[types.String], p.raw)
	var parsed []*ai.Term
	has := func(t *ai.Term) bool {
		for t.Op == "app" && t.S == "(*regexp/syntax.Regexp).Simplify" {
			t = t.Args[0]
		}
		for _, x := range parsed {
			if x == t {
				return true
			}
		}
		return false
	}
	flat(evs, func(ev *ai.Event, in bool) {
		if ev.Kind != "call" || in || len(ev.Res) != 2 {
			return
		}
		switch ev.Name {
		case "regexp/syntax.Parse":
			// Perl flags
			if n, ok := ev.Args[1].Int(); ev.Args[0] == src && ok && n == 212 {
				if ev.Res[0].IsNil() {
					perr = true
				} else {
					parsed = append(parsed, ev.Res[0])
				}
			}
		case "regexp/syntax.Compile":
			if has(ev.Args[0]) {
				if ev.Res[0].IsNil() {
					perr = true
				} else {
					prog = ev.Res[0]
				}
			}
		case "regexp.Compile":
			if ev.Res[0].IsNil() {
				perr = true
			}
		}
	})
	return
}

func (c *Ctx) checkRegexp(m *ai.Machine, p patVal, re, prefix *ai.Term, pos token.Pos) {
	src := ai.App("(*regexp.Regexp).String", types.Typ[types.String], p.raw)
	prog, perr := c.progOf(p, p.parse)
	pre, isK := prefix.Str()
	empty := isK && pre == ""
	where := func() string { return facts(p.st) + "\n" + trace(p.parse) }
	switch {
	case re == p.raw:
		ok := perr && empty
		if prog != nil && !ok {
			// p.StartCond()&syntax.EmptyBeginText != 0
			p.st.Literals(func(t *ai.Term, v bool) {
				if v || t.Op != "eq" {
					return
				}
				for i := range t.Args {
					b, k := t.Args[i], t.Args[1-i]
					if n, isN := k.Int(); !isN || n != 0 || b.Op != "app" || b.S != "&" {
						continue
					}
					for j := range b.Args {
						n, isN := b.Args[j].Int()
						a := b.Args[1-j]
						ok = ok || isN && n == 4 && a.Op == "app" && a.S == "(*regexp/syntax.Prog).StartCond" && a.Args[0] == prog
					}
				}
			})
		}
		c.check(ok, pos, "anchored", "regexp pattern", "the expression is used as it is although it may not be anchored to the start of the path, and the prefix is %s [%s]", prefix, where())
	default:
		ok := false
		flat(p.parse, func(ev *ai.Event, in bool) {
			if ev.Kind != "call" || len(ev.Res) == 0 || ev.Res[0] != re || in {
				return
			}
			if ev.Name != "regexp.Compile" && ev.Name != "regexp.MustCompile" {
				return
			}
			for _, begin := range []string{`\A(?:`, `^(?:`} {
				for _, end := range []string{")", `\E)`} {
					ok = ok || ev.Args[0] == ai.Concat(ai.Str(begin), ai.Concat(src, ai.Str(end)))
				}
			}
		})
		c.check(ok, pos, "anchored", "regexp pattern", "the expression used, %s, is not the one given in a group behind a beginning-of-text assertion [%s]", re, where())
	}
	if empty {
		c.Oblig["literal"]++
		return
	}
	why := c.literalPrefix(m, p, prog, prefix)
	c.check(why == "", pos, "literal", "regexp pattern", "the prefix %s may not start every match: %s [%s]", prefix, why, where())
}

// literalPrefix proves that a string starts every match of a program: it was
// built by a walk over it, that goes on only from instructions which do not
// read any text or which read the rune just added.
func (c *Ctx) literalPrefix(m *ai.Machine, p patVal, prog, prefix *ai.Term) string {
	if prog == nil {
		return "no program was compiled from the expression"
	}
	lib := false
	w := &progWalk{c: c, m: m}
	flat(p.parse, func(ev *ai.Event, in bool) {
		if ev.Kind != "call" || in || len(ev.Res) == 0 || ev.Res[0] != prefix {
			return
		}
		switch ev.Name {
		case "(*bytes.Buffer).String", "(*strings.Builder).String":
			w.buf = ev.Args[0]
		}
	})
	if prefix.Op == "app" && len(prefix.Args) > 0 {
		switch prefix.S {
		case "(*regexp/syntax.Prog).Prefix.0":
			lib = prefix.Args[0] == prog
		case "(*regexp.Regexp).LiteralPrefix.0":
			lib = prefix.Args[0] == p.raw
		}
	}
	if lib {
		return ""
	}
	pt := ai.Pointee(prog)
	ia, it := c.fa(prog, pt, "Inst")
	w.insts = m.Load(p.st, ia, it)
	w.inst = it.Underlying().(*types.Slice).Elem()
	sa, st := c.fa(prog, pt, "Start")
	at := walkPos{x: w.at(m.Load(p.st, sa, st))}
	if w.buf == nil {
		for _, l := range loopsOf(p.parse) {
			for _, ph := range l.Phis {
				if ph.Sym == prefix || prefix.Op == "concat" && prefix.Args[0] == ph.Sym {
					w.acc = ph.Sym
				}
			}
		}
	}
	if w.buf == nil && w.acc == nil {
		return "it was not collected from the instructions"
	}
	if why := w.run(p.parse, p.st, &at); why != "" {
		return why
	}
	if w.acc != nil {
		if !w.walked {
			return "it was not collected from the instructions"
		}
		return w.grown(p.st, &at, prefix)
	}
	return ""
}

// progWalk follows a walk over the instructions of a program.
type progWalk struct {
	c      *Ctx
	m      *ai.Machine
	insts  *ai.Term   // the instructions
	inst   types.Type // of one instruction
	buf    *ai.Term   // the buffer that collects the prefix
	acc    *ai.Term   // or the variable that holds it
	walked bool
}

// walkPos is an instruction, and whether its rune has been added.
type walkPos struct {
	x     *ai.Term
	added bool
}

// at is the address of the instruction with a given number.
func (w *progWalk) at(i *ai.Term) *ai.Term { return ai.ElemAddr(w.insts, unconv(i), w.inst) }

// same says whether two addresses are of one instruction.
func (w *progWalk) same(a, b *ai.Term) bool {
	if a == b {
		return true
	}
	return a.Op == "ia" && b.Op == "ia" && a.Args[0] == b.Args[0] && unconv(a.Args[1]) == unconv(b.Args[1])
}

func (w *progWalk) val(st *ai.State, x *ai.Term, f string) *ai.Term {
	a, ft := w.c.fa(x, w.inst, f)
	if x.Op == "agg" || x.Op == "sym" && types.Identical(x.Typ, w.inst) { // a copy of the instruction
		i, _, _ := field(w.inst, f)
		return ai.FieldT(x, i, ft)
	}
	return w.m.Load(st, a, ft)
}

// op says whether an instruction is one of the kinds given.
func (w *progWalk) op(st *ai.State, x *ai.Term, kinds ...int64) bool {
	op := w.val(st, x, "Op")
	for k := int64(0); k <= 10; k++ {
		may := false
		for _, y := range kinds {
			may = may || y == k
		}
		if !may && st.Decide(ai.Eq(op, ai.K(constant.MakeInt64(k), op.Typ))) != -1 {
			return false
		}
	}
	return true
}

// next is the instruction after one, if a match goes on there with the text
// added so far.
func (w *progWalk) next(st *ai.State, p walkPos) (walkPos, string) {
	if !p.added && !w.op(st, p.x, 2, 3, 6) {
		return p, fmt.Sprintf("the walk goes past %s, which may read something that was not added [%s]", p.x, facts(st))
	}
	return walkPos{x: w.at(w.val(st, p.x, "Out"))}, ""
}

// reach follows instructions up to the one given.
func (w *progWalk) reach(st *ai.State, p *walkPos, to *ai.Term) string {
	q := *p
	for range 4 {
		if w.same(q.x, to) && !q.added {
			*p = q
			return ""
		}
		var why string
		if q, why = w.next(st, q); why != "" {
			return why
		}
	}
	return fmt.Sprintf("the walk goes from %s to %s, which is not what follows it", p.x, to)
}

// add accounts for a rune added.
func (w *progWalk) add(st *ai.State, p *walkPos, r *ai.Term) string {
	q := *p
	r = unconv(r)
	for range 4 {
		if !q.added {
			rs := w.val(st, q.x, "Rune")
			rt := rs.Typ.Underlying().(*types.Slice).Elem()
			if unconv(w.m.Load(st, ai.ElemAddr(rs, ai.Int(0), rt), rt)) == r {
				if why := w.literal(st, q.x, rs, r); why != "" {
					return why + " [" + facts(st) + "]"
				}
				*p = walkPos{q.x, true}
				return ""
			}
		}
		var why string
		if q, why = w.next(st, q); why != "" {
			return why
		}
	}
	return fmt.Sprintf("%s is added, which is not what %s reads", r, p.x)
}

// literal says why an instruction may read something other than its first rune.
func (w *progWalk) literal(st *ai.State, x, rs, r *ai.Term) string {
	if !w.op(st, x, 7, 8, 9, 10) {
		return "the rune added is that of an instruction which may not read one"
	}
	if st.Decide(ai.Eq(ai.Len(rs), ai.Int(1))) != 1 {
		return "the rune added is one of several"
	}
	if st.Decide(ai.Eq(r, ai.K(constant.MakeInt64(0xfffd), r.Typ))) != -1 {
		return "the rune added may be the replacement character, which stands for any byte that is not valid"
	}
	if w.op(st, x, 8) {
		return ""
	}
	arg := w.val(st, x, "Arg")
	exact := false
	st.Literals(func(t *ai.Term, v bool) {
		if !v || t.Op != "eq" {
			return
		}
		for i := range t.Args {
			b, k := t.Args[i], t.Args[1-i]
			if n, isN := k.Int(); !isN || n != 0 {
				continue
			}
			exact = exact || unconv(b) == arg
			if b.Op == "app" && b.S == "&" {
				for j := range b.Args {
					n, isN := b.Args[j].Int()
					exact = exact || isN && n&1 == 1 && unconv(b.Args[1-j]) == arg
				}
			}
		}
	})
	if !exact {
		return "the rune added may be read in either case"
	}
	return ""
}

// grown accounts for the runes that a variable gained.
func (w *progWalk) grown(st *ai.State, p *walkPos, v *ai.Term) string {
	if v == w.acc {
		return ""
	}
	if v.Op == "concat" && len(v.Args) > 0 && v.Args[0] == w.acc {
		for _, a := range v.Args[1:] {
			if why := w.add(st, p, a); why != "" {
				return why
			}
		}
		return ""
	}
	return fmt.Sprintf("the prefix becomes %s", v)
}

// run follows what one way through the walk does.
func (w *progWalk) run(evs []*ai.Event, st *ai.State, p *walkPos) string {
	done := false
	for _, ev := range evs {
		switch {
		case ev.Kind == "loop":
			if why := w.loop(ev.Loop, st, p); why != "" {
				return why
			}
		case w.buf == nil || done:
		case ev.Kind == "call" && len(ev.Args) > 0 && ev.Args[0] == w.buf:
			switch ev.Name {
			case "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune":
				if why := w.add(st, p, ev.Args[1]); why != "" {
					return why
				}
			case "(*bytes.Buffer).String", "(*strings.Builder).String":
				done = true
			case "(*bytes.Buffer).Grow", "(*strings.Builder).Grow", "(*bytes.Buffer).Len", "(*strings.Builder).Len":
			default:
				return ev.Name + " is called for the buffer that holds it"
			}
		}
	}
	return ""
}

// walker is what a loop has at an instruction: its number, its address, or a
// copy of it.
type walker struct {
	sym, init *ai.Term
	next      func(map[*ai.Term]*ai.Term) *ai.Term
}

func (w *progWalk) walkers(l *ai.LoopNode) (ws []walker) {
	num := w.inst.Underlying().(*types.Struct).NumFields()
	copies := map[*ai.Term][]*ai.LoopPhi{}
	for i := range l.Phis {
		ph := &l.Phis[i]
		if ph.Cell != nil {
			if ph.Cell.Op != "fa" || !types.Identical(ai.Pointee(ph.Cell.Args[0]), w.inst) {
				continue
			}
			o := ph.Cell.Args[0]
			if copies[o] == nil {
				copies[o] = make([]*ai.LoopPhi, num)
			}
			for f := range num {
				if ai.FA(o, f, w.inst.Underlying().(*types.Struct).Field(f).Type()) == ph.Cell {
					copies[o][f] = ph
				}
			}
			continue
		}
		if ph.Sym.Typ == nil {
			continue
		}
		var at func(t *ai.Term) *ai.Term
		switch t := ph.Sym.Typ.Underlying().(type) {
		case *types.Pointer:
			if types.Identical(t.Elem(), w.inst) {
				at = func(t *ai.Term) *ai.Term { return t }
			}
		case *types.Basic:
			if t.Info()&types.IsInteger != 0 {
				at = w.at
			}
		case *types.Struct:
			if types.Identical(ph.Sym.Typ, w.inst) {
				at = w.copied
			}
		}
		if at != nil {
			ws = append(ws, walker{at(ph.Sym), at(ph.Init), func(nx map[*ai.Term]*ai.Term) *ai.Term { return at(nx[ph.Sym]) }})
		}
	}
	for _, phs := range copies {
		var sym, init []*ai.Term
		for _, ph := range phs {
			if ph != nil {
				sym, init = append(sym, ph.Sym), append(init, ph.Init)
			}
		}
		if len(sym) < num {
			continue
		}
		ws = append(ws, walker{ai.AggT(w.inst, sym), w.copied(ai.AggT(w.inst, init)), func(nx map[*ai.Term]*ai.Term) *ai.Term {
			var fs []*ai.Term
			for _, ph := range phs {
				fs = append(fs, nx[ph.Sym])
			}
			return w.copied(ai.AggT(w.inst, fs))
		}})
	}
	return
}

// copied is the address of the instruction that a value is a copy of, or the
// value.
func (w *progWalk) copied(v *ai.Term) *ai.Term {
	var from *ai.Term
	if v.Op == "ld" {
		return v.Args[0]
	}
	if v.Op != "agg" {
		return v
	}
	for i, f := range v.Args {
		if f.Op != "ld" || f.Args[0].Op != "fa" || from != nil && f.Args[0].Args[0] != from {
			return v
		}
		a := f.Args[0].Args[0]
		if ai.FA(a, i, f.Typ) != f.Args[0] {
			return v
		}
		from = a
	}
	return from
}

func (w *progWalk) loop(l *ai.LoopNode, st *ai.State, p *walkPos) string {
	adds := false
	for _, it := range l.Iters {
		flat(it.Trace.Events(), func(ev *ai.Event, _ bool) {
			adds = adds || ev.Kind == "call" && len(ev.Args) > 0 && w.buf != nil && ev.Args[0] == w.buf
		})
	}
	for _, ph := range l.Phis {
		adds = adds || w.acc != nil && ph.Sym == w.acc
	}
	first := ""
	for _, k := range w.walkers(l) {
		q := *p
		why := w.reach(st, &q, k.init)
		for _, it := range l.Iters {
			if why != "" {
				break
			}
			r := walkPos{x: k.sym}
			if why = w.run(it.Trace.Events(), it.St, &r); why != "" {
				break
			}
			if v := it.Next[w.acc]; v != nil {
				if why = w.grown(it.St, &r, v); why != "" {
					break
				}
			}
			why = w.reach(it.St, &r, k.next(it.Next))
		}
		if why == "" {
			for _, y := range l.Phis {
				if y.Sym == w.acc {
					if s, ok := y.Init.Str(); !ok || s != "" {
						return fmt.Sprintf("it starts with %s", y.Init)
					}
					w.walked = true
				}
			}
			*p = walkPos{x: k.sym}
			return ""
		}
		if first == "" {
			first = why
		}
	}
	if adds {
		if first == "" {
			first = "it is collected by a loop that does not follow the instructions"
		}
		return first
	}
	return ""
}
