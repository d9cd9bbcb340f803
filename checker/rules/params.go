package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp/syntax"
	"strings"

	"gojicheck/ai"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{Prop: "C45", Technique: "inductive proof by abstract interpretation: every way through the matching loop must consume a literal and a maximal run, and every loop of the parser must cut the source at the same places",
		Explain: "string patterns: the loop of Match and Run is analysed for an arbitrary pattern with a symbolic rest of the path; every iteration must go on only if the rest starts with literal i, must cut off that literal and then the longest non-empty run without '/' and break character i (proved from the scanning loop's tests, or from the library search used), and Run must bind exactly that run to name i; a path may be accepted only if the rest then is (or, for wildcards, starts with) the last literal, \"*\" being bound to the rest from the literal's final slash on, and may be rejected only if one of these tests failed; the parser's loop must cut literal i, name i and break character i out of the source at the positions its regular expression (compared with the documented one) reports. Regexp patterns: every name must be bound to the submatch of the same index, and the list of names must be the expression's own, with $i for unnamed groups",
		Limits:  "package regexp is trusted; names that occur twice in one pattern keep the value bound last",
		Min:     map[string]int{"accept": 4, "reject": 4, "step": 4, "run": 4, "value": 4, "wild": 2, "names": 4, "source": 2, "cut": 8}, Run: runC45})
}

// strRoles are the slices a string pattern consists of, found by their use.
type strRoles struct{ names, lits, brks *ai.Term }

// strWalk proves the matching of string patterns.
type strWalk struct {
	c     *Ctx
	m     *ai.Machine
	p     patVal
	path  *ai.Term
	roles *strRoles
	name  string
	pos   token.Pos
}

func (w *strWalk) elem(t *ai.Term) (slice, idx *ai.Term) {
	n := names{p: w.p}
	return n.elem(t)
}

// at is element i of a slice of the pattern.
func (w *strWalk) at(slice, i *ai.Term) *ai.Term {
	et := slice.Typ.Underlying().(*types.Slice).Elem()
	return ai.Ld(ai.IA(slice, i, et), et)
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isStrSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// rest is what remains of the path: a string and where in it the rest begins.
type rest struct {
	base, off *ai.Term
	i         *ai.Term // number of names consumed
	loop      *ai.LoopNode
	phi       *ai.LoopPhi
}

func (r rest) term() *ai.Term { return ai.SubStr(r.base, r.off, ai.Len(r.base)) }

// rests lists what may be the rest of the path after the loops of a path.
func (w *strWalk) rests(evs []*ai.Event) []rest {
	out := []rest{{base: w.path, off: ai.Int(0), i: ai.Int(0)}}
	for _, l := range loopsOf(evs) {
		var idx *ai.Term
		for k := range l.Phis {
			ph := &l.Phis[k]
			if ph.Cell != nil || ph.Step == nil || ph.Step.K != 1 {
				continue
			}
			if _, ok := ai.Sub(ph.Sym, ph.Init).Int(); ok {
				continue
			}
			// number of iterations completed
			idx = ai.Sub(ph.Sym, ph.Init)
			break
		}
		if idx == nil {
			continue
		}
		for k := range l.Phis {
			ph := &l.Phis[k]
			if ph.Cell != nil || ph.Step != nil {
				continue
			}
			b, ok := ph.Sym.Typ.Underlying().(*types.Basic)
			if !ok {
				continue
			}
			switch {
			case b.Info()&types.IsString != 0 && ph.Init == w.path:
				out = append(out, rest{ph.Sym, ai.Int(0), idx, l, ph})
			case b.Info()&types.IsInteger != 0 && ph.Init == ai.Int(0):
				out = append(out, rest{w.path, ph.Sym, idx, l, ph})
			}
		}
	}
	return out
}

// starts decides whether the rest starts with a literal.
func (w *strWalk) starts(st *ai.State, r rest, lit *ai.Term) int {
	s := st.Copy()
	t := r.term()
	if d := s.Decide(w.m.Fold("strings.HasPrefix", t, lit)); d != 0 {
		return d
	}
	if d := s.Decide(ai.Eq(t, lit)); d == 1 {
		return 1
	}
	end := ai.Add(r.off, ai.Len(lit))
	if d := s.Decide(ai.Eq(ai.SubStr(r.base, r.off, end), lit)); d != 0 {
		return d
	}
	if s.Decide(ai.Le(end, ai.Len(r.base))) == -1 {
		return -1
	}
	return 0
}

func (w *strWalk) char(b, p *ai.Term) *ai.Term {
	return ai.App("index", types.Typ[types.Uint8], b, p)
}

// stops decides whether the byte of b at position p is one of the characters
// that end a value: 1 yes (or there is no such byte), -1 no.
func (w *strWalk) stops(st *ai.State, b, p, brk *ai.Term) int {
	s := st.Copy()
	if s.Decide(ai.Le(ai.Len(b), p)) == 1 {
		return 1
	}
	slash := ai.K(constant.MakeInt64('/'), types.Typ[types.Uint8])
	no := map[*ai.Term]bool{}
	yes := false
	is := func(q, ch *ai.Term, v bool) {
		if q != p && s.Decide(ai.Eq(q, p)) != 1 {
			return
		}
		if n, ok := ch.Int(); ok && n == '/' {
			ch = slash
		}
		if ch != slash && ch != brk {
			return
		}
		if v {
			yes = true
		} else {
			no[ch] = true
		}
	}
	s.Literals(func(t *ai.Term, v bool) {
		switch {
		case t.Op == "eq":
			for i := range t.Args {
				x, ch := t.Args[i], t.Args[1-i]
				if x.Op == "app" && x.S == "index" && x.Args[0] == b {
					is(x.Args[1], ch, v)
				}
			}
		case t.Op == "app" && t.S == "strings.HasPrefix":
			// a first byte
			c, ok := t.Args[1].Str()
			if ok && len(c) == 1 {
				x, off := t.Args[0], ai.Int(0)
				if x.Op == "substr" {
					x, off = x.Args[0], x.Args[1]
				}
				if x == b {
					is(off, ai.K(constant.MakeInt64(int64(c[0])), types.Typ[types.Uint8]), v)
				}
			}
		}
	})
	switch {
	case yes:
		return 1
	case no[slash] && no[brk]:
		return -1
	}
	return 0
}

// run proves that b[a:x] is the longest run from a on without '/' and brk.
func (w *strWalk) run(st *ai.State, evs []*ai.Event, b, a, x, brk *ai.Term) string {
	if st.Decide(ai.Eq(a, x)) == 1 && w.stops(st, b, a, brk) == 1 {
		return ""
	}
	why := "no scan over it was found"
	for _, l := range loopsOf(evs) {
		for _, ph := range l.Phis {
			if ph.Cell != nil || ph.Step == nil || ph.Step.K != 1 {
				continue
			}
			d := ai.Sub(x, ph.Sym)
			q := x // where the scan ended
			if d.Mentions(ph.Sym) {
				// the whole text was scanned
				d = ai.Sub(a, ph.Init)
				q = ai.Add(ph.Sym, d)
				if d.Mentions(ph.Sym) || st.Decide(ai.Eq(x, ai.Len(b))) != 1 || st.Decide(ai.Le(x, q)) != 1 {
					continue
				}
			}
			if st.Decide(ai.Eq(ai.Add(ph.Init, d), a)) != 1 {
				why = "the scan does not begin where the value does"
				continue
			}
			bad := ""
			for _, it := range l.Iters {
				if w.stops(it.St, b, q, brk) != -1 {
					bad = "the scan may go on past '/' or the break character [" + facts(it.St) + "]"
				}
			}
			if bad != "" {
				why = bad
				continue
			}
			if w.stops(st, b, x, brk) != 1 {
				why = "the scan may end before '/', the break character or the end of the path"
				continue
			}
			return ""
		}
	}
	// library searches
	sr := w.searches(st, b, a, x)
	clear := func(ch *ai.Term) bool { // no ch in b[a:x]
		for _, s := range sr {
			if !s.has(ch) {
				continue
			}
			end := s.end
			if st.Decide(ai.Le(ai.Int(0), s.res)) == 1 {
				end = ai.Add(a, s.res)
			} else if st.Decide(ai.Lt(s.res, ai.Int(0))) != 1 {
				continue
			}
			if st.Decide(ai.Le(x, end)) == 1 {
				return true
			}
			for _, t := range sr {
				// a character found in a part of the text lies in that part
				if t.end != nil && st.Decide(ai.Le(ai.Int(0), t.res)) == 1 && st.Decide(ai.Eq(x, ai.Add(a, t.res))) == 1 && st.Decide(ai.Le(t.end, end)) == 1 {
					return true
				}
			}
		}
		return false
	}
	slash := ai.K(constant.MakeInt64('/'), types.Typ[types.Uint8])
	if !clear(slash) || !clear(brk) {
		return why
	}
	if st.Decide(ai.Eq(x, ai.Len(b))) == 1 {
		return ""
	}
	for _, s := range sr {
		if (s.chars[0] == slash || s.chars[0] == brk) && (s.chars[1] == nil || s.chars[1] == slash || s.chars[1] == brk) && st.Decide(ai.Le(ai.Int(0), s.res)) == 1 && st.Decide(ai.Eq(x, ai.Add(a, s.res))) == 1 {
			return ""
		}
	}
	return why
}

// search is a library search in b[a:end] for the first of one or two characters.
type search struct {
	end, res *ai.Term
	chars    [2]*ai.Term
}

func (s search) has(ch *ai.Term) bool { return s.chars[0] == ch || s.chars[1] == ch }

func (w *strWalk) searches(st *ai.State, b, a, x *ai.Term) []search {
	slash := ai.K(constant.MakeInt64('/'), types.Typ[types.Uint8])
	var out []search
	seen := map[*ai.Term]bool{}
	visit := func(u *ai.Term) {
		if u.Op != "app" || !strings.HasPrefix(u.S, "strings.Index") || len(u.Args) != 2 || seen[u] {
			return
		}
		seen[u] = true
		s := search{res: u}
		switch t := u.Args[0]; {
		case t == b && st.Decide(ai.Eq(a, ai.Int(0))) == 1:
			s.end = ai.Len(b)
		case t.Op == "substr" && t.Args[0] == b && st.Decide(ai.Eq(t.Args[1], a)) == 1:
			s.end = t.Args[2]
		default:
			return
		}
		switch u.S {
		case "strings.Index":
			if c, ok := u.Args[1].Str(); ok && c == "/" {
				s.chars[0] = slash
			} else if set := w.charSet(u.Args[1]); len(set) == 1 {
				s.chars[0] = set[0]
			} else {
				return
			}
		case "strings.IndexByte", "strings.IndexRune":
			s.chars[0] = unwrap(u.Args[1])
		case "strings.IndexAny":
			set := w.charSet(u.Args[1])
			if len(set) == 0 || len(set) > 2 {
				return
			}
			copy(s.chars[:], set)
		case "strings.IndexFunc":
			set := w.predSet(u.Args[1])
			if set == nil {
				return
			}
			copy(s.chars[:], set)
		default:
			return
		}
		out = append(out, s)
	}
	st.Literals(func(t *ai.Term, _ bool) { t.Subterms(visit) })
	x.Subterms(visit)
	return out
}

// unwrap removes conversions.
func unwrap(t *ai.Term) *ai.Term {
	for t.Op == "conv" && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t
}

// predSet lists the two characters a predicate holds for.
func (w *strWalk) predSet(f *ai.Term) []*ai.Term {
	fn, ok := f.X.(*ssa.Function)
	if !ok || len(fn.Params) != 1 {
		return nil
	}
	st := w.p.st.Copy()
	var bs []*ai.Term
	for i, b := range f.Args {
		if b.Op == "app" && b.S == "captured" && i < len(fn.FreeVars) {
			cell := st.NewObj(fmt.Sprintf("captured%d", i), b.Args[0].Typ)
			w.m.SetCell(st, cell, b.Args[0])
			b = cell
		}
		bs = append(bs, b)
	}
	r := ai.Sym("anyrune", fn.Params[0].Type())
	var set []*ai.Term
	type end struct {
		st  *ai.State
		res bool
	}
	var ends []end
	for _, o := range w.m.ExecFun(ai.CloT(fn, bs), []*ai.Term{r}, st) {
		if o.Kind != ai.Ret {
			return nil
		}
		for _, b := range []bool{true, false} {
			if s := o.St.Copy(); s.Assume(o.Vals[0], b) {
				ends = append(ends, end{s, b})
			}
		}
	}
	// true only where the rune equals a character, false only where it equals none
	is := func(t *ai.Term) *ai.Term {
		if t.Op != "eq" {
			return nil
		}
		for i := range t.Args {
			if unwrap(t.Args[i]) == r {
				ch := unwrap(t.Args[1-i])
				if n, ok := ch.Int(); ok && n < 128 {
					ch = ai.K(constant.MakeInt64(n), types.Typ[types.Uint8])
				}
				return ch
			}
		}
		return nil
	}
	for _, e := range ends {
		if e.res {
			var got *ai.Term
			e.st.Literals(func(t *ai.Term, v bool) {
				if ch := is(t); ch != nil && v {
					got = ch
				}
			})
			if got == nil {
				return nil
			}

			known := false
			for _, ch := range set {
				known = known || ch == got
			}
			if !known {
				set = append(set, got)
			}
		}
	}
	for _, e := range ends {
		if !e.res {
			n := 0
			e.st.Literals(func(t *ai.Term, v bool) {
				if ch := is(t); ch != nil && !v {
					for _, c := range set {
						if c == ch {
							n++
						}
					}
				}
			})
			if n != len(set) {
				return nil
			}
		}
	}
	if len(set) > 2 {
		return nil
	}
	return set
}

// charSet lists the characters a string consists of.
func (w *strWalk) charSet(t *ai.Term) []*ai.Term {
	var out []*ai.Term
	ok := true
	var visit func(t *ai.Term)
	visit = func(t *ai.Term) {
		if s, isK := t.Str(); isK {
			for i := 0; i < len(s); i++ {
				out = append(out, ai.K(constant.MakeInt64(int64(s[i])), types.Typ[types.Uint8]))
			}
			return
		}
		switch {
		case isInt(t.Typ):
			out = append(out, unwrap(t))
		case t.Op == "concat" || t.Op == "conv" || t.Op == "app" && (len(t.Args) == 1 || strings.HasPrefix(t.S, "spell:")):
			for _, a := range t.Args {
				visit(a)
			}
		default:
			ok = false
		}
	}
	visit(t)
	if !ok {
		return nil
	}
	return out
}

// accept proves that a path on which the pattern matches has the form it
// should have; reject, that a path on which it does not lacks it.
func (w *strWalk) accept(st *ai.State, evs []*ai.Event, wild bool) (r rest, lit *ai.Term, why string) {
	why = "no test of the last literal was found"
	n := ai.Len(w.roles.names)
	for _, r := range w.rests(evs) {
		if st.Decide(ai.Eq(r.i, n)) != 1 {
			continue
		}
		if r.loop != nil {
			if bad := w.loop(r, evs); bad != "" {
				why = bad
				continue
			}
		}
		for _, i := range []*ai.Term{n, r.i, ai.Add(ai.Len(w.roles.lits), ai.Int(-1))} {
			if st.Decide(ai.Eq(i, n)) != 1 {
				continue
			}
			lit := w.at(w.roles.lits, i)
			if v, ok := i.Int(); ok {
				lit = w.at(w.roles.lits, ai.Int(v))
			}
			if wild {
				if w.starts(st, r, lit) == 1 {
					return r, lit, ""
				}
			} else if st.Decide(ai.Eq(r.term(), lit)) == 1 || w.starts(st, r, lit) == 1 && st.Decide(ai.Eq(ai.Add(r.off, ai.Len(lit)), ai.Len(r.base))) == 1 {
				return r, lit, ""
			}
		}
		why = "the rest of the path need not be the last literal"
		if wild {
			why = "the rest of the path need not start with the last literal"
		}
	}
	return r, nil, why
}

func (w *strWalk) reject(st *ai.State, evs []*ai.Event, wild bool) string {
	n := ai.Len(w.roles.names)
	for _, r := range w.rests(evs) {
		idx := []*ai.Term{r.i}
		if st.Decide(ai.Eq(r.i, n)) == 1 {
			idx = append(idx, n)
			if l := ai.Add(ai.Len(w.roles.lits), ai.Int(-1)); st.Decide(ai.Eq(l, n)) == 1 {
				idx = append(idx, l)
			}
		}
		if r.loop != nil && w.loop(r, evs) != "" {
			continue
		}
		for _, i := range idx {
			lit := w.at(w.roles.lits, i)
			if w.starts(st, r, lit) == -1 {
				return ""
			}
			if !wild && st.Decide(ai.Eq(i, n)) == 1 {
				if st.Decide(ai.Eq(r.term(), lit)) == -1 || st.Decide(ai.Eq(ai.Add(r.off, ai.Len(lit)), ai.Len(r.base))) == -1 {
					return ""
				}
			}
			if st.Decide(ai.Lt(i, n)) == 1 {
				a := ai.Add(r.off, ai.Len(lit))
				if w.starts(st, r, lit) == 1 && w.stops(st, r.base, a, w.at(w.roles.brks, i)) == 1 {
					return ""
				}
				// or a search found the end at once
				if w.starts(st, r, lit) == 1 && w.run(st, evs, r.base, a, a, w.at(w.roles.brks, i)) == "" {
					return ""
				}
			}
		}
	}
	return "no literal is missing and no value is empty"
}

// loop proves that every iteration consumes literal i and a value.
func (w *strWalk) loop(r rest, evs []*ai.Event) string {
	for _, it := range r.loop.Iters {
		if bad := w.iter(r, it, nil); bad != "" {
			return bad
		}
	}
	return ""
}

func (w *strWalk) iter(r rest, it ai.LoopIter, value func(a, x *ai.Term)) string {
	next := it.Next[r.phi.Sym]
	if next == nil {
		return "the rest of the path does not change"
	}
	x := next
	if k, ok := next.Str(); ok && k == "" && r.base == r.phi.Sym {
		x = ai.Len(r.base)
	} else if r.base == r.phi.Sym {
		if next.Op != "substr" || next.Args[0] != r.base || it.St.Decide(ai.Eq(next.Args[2], ai.Len(r.base))) != 1 {
			return fmt.Sprintf("an iteration continues with %s, which is not the rest of the path", next)
		}
		x = next.Args[1]
	}
	lit := w.at(w.roles.lits, r.i)
	if w.starts(it.St, r, lit) != 1 {
		return fmt.Sprintf("an iteration continues although the rest may not start with its literal %s [%s]", lit, facts(it.St))
	}
	a := ai.Add(r.off, ai.Len(lit))
	if it.St.Decide(ai.Lt(a, x)) != 1 && !(it.St.Decide(ai.Eq(ai.Sub(x, a), ai.Int(0))) == -1 && (it.St.Decide(ai.Le(a, x)) == 1 || x == ai.Len(r.base))) {
		return fmt.Sprintf("a value may be empty [%s]", facts(it.St))
	}
	if why := w.run(it.St, it.Trace.Events(), r.base, a, x, w.at(w.roles.brks, r.i)); why != "" {
		return "a value is not the longest run it should be: " + why
	}
	if value != nil {
		value(a, x)
	}
	return ""
}

// findRoles tells the slices of a string pattern apart: the one of bytes holds
// the break characters, names are used as keys.
func (c *Ctx) findRoles(p patVal, outs []ai.Outcome) *strRoles {
	ro := &strRoles{}
	n := names{p: p}
	for _, s := range p.slices {
		if isByteSlice(s.Typ) {
			ro.brks = s
		}
	}
	for _, o := range outs {
		flat(o.St.Trace(), func(ev *ai.Event, _ bool) {
			if ev.Kind == "mapset" {
				if s, _ := n.elem(ev.Args[1]); s != nil && isStrSlice(s.Typ) {
					ro.names = s
				}
			}
		})
	}
	for _, s := range p.slices {
		if isStrSlice(s.Typ) && s != ro.names {
			ro.lits = s
		}
	}
	if ro.names == nil || ro.lits == nil || ro.brks == nil {
		return nil
	}
	return ro
}

func runC45(c *Ctx) {
	runC05(c) // all names of a matching pattern are bound, and nothing else is
	e := c.mwEnv()
	parI, parT, ok := field(e.cT, "URLParams")
	if !ok {
		c.must(token.NoPos, "anchor", "web.C", "no field URLParams")
	}
	parA := ai.FA(e.c, parI, parT)
	m := c.M.Sub()
	m.OutLimit, m.PtLimit = 64, 64
	var roles *strRoles
	ps := c.patternsOf(m, true)
	type run struct {
		p    patVal
		outs []ai.Outcome
		st   *ai.State
		I    *ai.Term
	}
	var runs []run
	for _, p := range ps {
		for _, nilI := range []bool{false, true} {
			st, cc := c.patState(e, p, false)
			I := m.Load(st, parA, parT)
			st.Assume(ai.Eq(I, ai.Nil()), nilI)
			st.ClearTrace()
			r := run{p: p, st: st, I: I, outs: m.Invoke(st.Copy(), p.pat, c.patMeth("Run"), []*ai.Term{e.r, cc})}
			runs = append(runs, r)
			if p.kind == "string" && roles == nil {
				roles = c.findRoles(p, r.outs)
			}
		}
	}
	if roles == nil {
		c.must(token.NoPos, "undecided", "string pattern", "the pattern's names, literals and break characters were not found as slices")
	}
	for _, r := range runs {
		fn := c.meth(r.p.pat.Typ, "Run")
		if r.p.kind == "regexp" {
			c.regexpValues(m, e, r.p, r.st, r.outs, fn.Pos())
			continue
		}
		w := &strWalk{c: c, m: m, p: r.p, roles: roles, name: "string pattern", pos: fn.Pos()}
		w.path = c.load(m, r.st, c.load(m, r.st, e.r, e.rT, "URL"), c.std("net/url", "URL").Type(), "Path")
		wild := r.p.st.Decide(ai.App("strings.HasSuffix", types.Typ[types.Bool], r.p.raw, ai.Str("/*")))
		if wild == 0 {
			c.fail(fn.Pos(), "undecided", w.name, "wildcard patterns are not told apart")
			continue
		}
		c.strMatches(w, e, r.st, wild == 1)
		for _, o := range r.outs {
			if o.Kind == ai.Ret {
				w.values(o, r.I, wild == 1)
			}
		}
	}
	c.problems(m, "Match and Run")
	c.strParse(roles)
}

// strMatches checks that Match accepts and rejects the right paths.
func (c *Ctx) strMatches(w *strWalk, e *mwEnv, st *ai.State, wild bool) {
	for _, nilC := range []bool{false, true} {
		cc := e.c
		if nilC {
			cc = ai.Nil()
		}
		for _, o := range w.m.Invoke(st.Copy(), w.p.pat, c.patMeth("Match"), []*ai.Term{e.r, cc}) {
			if o.Kind != ai.Ret {
				continue // C05
			}
			for _, b := range []bool{true, false} {
				s := o.St.Copy()
				if !s.Assume(o.Vals[0], b) {
					continue
				}
				for _, l := range loopsOf(s.Trace()) {
					for _, r := range w.rests([]*ai.Event{{Kind: "loop", Loop: l}}) {
						if r.loop != nil {
							c.Oblig["step"] += len(l.Iters)
						}
					}
				}
				if b {
					_, _, why := w.accept(s, s.Trace(), wild)
					c.check(why == "", w.pos, "accept", w.name, "a path may be accepted although %s [%s]", why, facts(s))
				} else {
					why := w.reject(s, s.Trace(), wild)
					c.check(why == "", w.pos, "reject", w.name, "a path may be rejected although %s [%s]", why, facts(s))
				}
			}
		}
	}
}

// values checks what Run binds.
func (w *strWalk) values(o ai.Outcome, I *ai.Term, wild bool) {
	c := w.c
	evs := o.St.Trace()
	rs := w.rests(evs)
	isName := func(k *ai.Term) (*ai.Term, bool) {
		s, i := w.elem(k)
		return i, s == w.roles.names
	}
	for _, ev := range evs {
		switch ev.Kind {
		case "mapset":
			if k, ok := ev.Args[1].Str(); ok && k == "*" {
				r, lit, why := w.accept(ev.St, before(evs, ev), wild)
				if why != "" {
					// the test may come later
					r, lit, why = w.accept(o.St, evs, wild)
				}
				if why == "" {
					end := ai.Add(r.off, ai.Len(lit))
					v := ai.SubStr(r.base, ai.Add(end, ai.Int(-1)), ai.Len(r.base))
					// the last literal of a wildcard pattern ends with a slash
					v2 := ai.Concat(ai.Str("/"), ai.SubStr(r.base, end, ai.Len(r.base)))
					c.check(ev.Args[2] == v || ev.Args[2] == v2 || o.St.Decide(ai.Eq(ev.Args[2], v)) == 1, ev.Pos, "wild", w.name, "* is bound to %s, not to the rest of the path from the slash on [%s]", ev.Args[2], facts(o.St))
				} else if _, ok := committed(c, w.m, o, I); ok {
					c.check(false, ev.Pos, "wild", w.name, "* is bound although %s [%s]", why, facts(o.St))
				}
			} else if _, ok := isName(ev.Args[1]); ok {
				c.check(false, ev.Pos, "value", w.name, "a name is bound outside the loop that cuts the path")
			}
		case "loop":
			for _, it := range ev.Loop.Iters {
				its := it.Trace.Events()
				for _, me := range its {
					if me.Kind != "mapset" {
						continue
					}
					i, ok := isName(me.Args[1])
					if !ok {
						continue
					}
					done := ""
					for _, r := range rs {
						if r.loop != ev.Loop {
							continue
						}
						if it.St.Decide(ai.Eq(i, r.i)) != 1 {
							done = fmt.Sprintf("name %s is bound in the iteration for %s", i, r.i)
							continue
						}
						why := w.iter(r, it, func(a, x *ai.Term) {
							v := ai.SubStr(r.base, a, x)
							if me.Args[2] == v || it.St.Decide(ai.Eq(me.Args[2], v)) == 1 {
								done = "ok"
							} else {
								done = fmt.Sprintf("it is bound to %s instead of %s", me.Args[2], v)
							}
						})
						if done == "ok" {
							c.Oblig["run"]++
							break
						}
						if why != "" {
							done = why
						}
					}
					if done == "" {
						if done = w.collected(rs, i, me.Args[2], it); done == "ok" {
							c.Oblig["run"]++
						}
					}
					if done == "" {
						done = "the loop does not cut the path"
					}
					c.check(done == "ok", me.Pos, "value", w.name, "a name is not bound to its part of the path: %s", done)
				}
				for _, l := range loopsOf(its) {
					for _, it2 := range l.Iters {
						flat(it2.Trace.Events(), func(me *ai.Event, _ bool) {
							if me.Kind == "mapset" {
								if _, ok := isName(me.Args[1]); ok {
									c.check(false, me.Pos, "value", w.name, "a name is bound while a value is being scanned")
								}
							}
						})
					}
				}
			}
		}
	}
}

// collected checks a value that the loop cutting the path has put aside in a
// slice, one element for each name.
func (w *strWalk) collected(rs []rest, i, v *ai.Term, at ai.LoopIter) string {
	j, tag, back, ok := ai.JunkOf(v)
	if !ok {
		return ""
	}
	if j != i && at.St.Decide(ai.Eq(i, j)) != 1 {
		return fmt.Sprintf("name %s is bound to value %s", i, j)
	}
	done := ""
	for _, r := range rs {
		if r.loop == nil || !strings.HasPrefix(r.phi.Sym.S, tag[:strings.LastIndexByte(tag, '#')]+".") {
			continue
		}
		done = "ok"
		for _, it := range r.loop.Iters {
			why := w.iter(r, it, func(a, x *ai.Term) {
				s := it.St.Copy()
				got, want := w.m.Load(s, ai.IA(back, r.i, v.Typ), v.Typ), ai.SubStr(r.base, a, x)
				if got != want && s.Decide(ai.Eq(got, want)) != 1 {
					done = fmt.Sprintf("%s is put aside instead of %s", got, want)
				}
				o := ai.Sym("other", types.Typ[types.Int])
				s.Assume(ai.Eq(o, r.i), false)
				if g, t2, b, ok := ai.JunkOf(w.m.Load(s, ai.IA(back, o, v.Typ), v.Typ)); !ok || g != o || t2 != tag || b != back {
					done = "the iteration for another name may change it"
				}
			})
			if why != "" {
				return why
			}
		}
	}
	return done
}

// committed reports whether the context's parameters changed.
func committed(c *Ctx, m *ai.Machine, o ai.Outcome, I *ai.Term) (string, bool) {
	e := c.mwEnv()
	F := c.load(m, o.St.Copy(), e.c, e.cT, "URLParams")
	if F != I {
		return "replaced", true
	}
	for _, ev := range o.St.Trace() {
		if (ev.Kind == "mapset" || ev.Kind == "mapcopy" || ev.Kind == "loop") && len(ev.Args) > 0 && ev.Args[0] == I {
			return "written", true
		}
	}
	return "", false
}

func before(evs []*ai.Event, ev *ai.Event) []*ai.Event {
	for i, e := range evs {
		if e == ev {
			return evs[:i]
		}
	}
	return evs
}

// --- regular expressions

func (c *Ctx) regexpValues(m *ai.Machine, e *mwEnv, p patVal, st *ai.State, outs []ai.Outcome, pos token.Pos) {
	path := c.load(m, st, c.load(m, st, e.r, e.rT, "URL"), c.std("net/url", "URL").Type(), "Path")
	name := "regexp pattern"
	nm := names{p: p}
	for _, o := range outs {
		if o.Kind != ai.Ret {
			continue
		}
		flat(o.St.Trace(), func(ev *ai.Event, _ bool) {
			if ev.Kind != "mapset" {
				return
			}
			s, i := nm.elem(ev.Args[1])
			if s == nil {
				return // C05
			}
			v := ev.Args[2]
			ok := false
			if v.Op == "ld" && v.Args[0].Op == "ia" {
				b, j := v.Args[0].Args[0], v.Args[0].Args[1]
				ok = b.Op == "app" && b.S == "(*regexp.Regexp).FindStringSubmatch" && b.Args[1] == path && (i == j || ev.St != nil && ev.St.Decide(ai.Eq(i, j)) == 1)
			}
			if !ok && v.Op == "substr" && v.Args[0] == path {
				// path[loc[2*i]:loc[2*i+1]]
				pos := func(t *ai.Term) *ai.Term {
					if t.Op != "ld" || t.Args[0].Op != "ia" {
						return nil
					}
					b := t.Args[0].Args[0]
					if b.Op != "app" || b.S != "(*regexp.Regexp).FindStringSubmatchIndex" || b.Args[1] != path {
						return nil
					}
					return t.Args[0].Args[1]
				}
				lo, hi := pos(v.Args[1]), pos(v.Args[2])
				two := ai.Add(i, i)
				ok = lo != nil && hi != nil && ev.St != nil && ev.St.Decide(ai.Eq(lo, two)) == 1 && ev.St.Decide(ai.Eq(hi, ai.Add(two, ai.Int(1)))) == 1
			}
			c.check(ev.St == nil || ev.St.Decide(ai.Le(ai.Int(1), i)) == 1, ev.Pos, "value", name, "the whole match may be bound to a name, which is no group's")
			c.check(ok, ev.Pos, "value", name, "name %s is bound to %s, which is not what its group matched", ev.Args[1], v)
		})
	}
}

// --- the parser

// regexpSource is the source of a regular expression compiled by the module.
func (c *Ctx) regexpSource(m *ai.Machine, re *ai.Term, evs []*ai.Event) (string, bool) {
	src, ok := "", false
	flat(evs, func(ev *ai.Event, _ bool) {
		if ev.Kind == "call" && (ev.Name == "regexp.MustCompile" || ev.Name == "regexp.Compile") && len(ev.Res) > 0 && ev.Res[0] == re {
			if s, isK := ev.Args[0].Str(); isK {
				src, ok = s, true
			}
		}
	})
	if ok {
		return src, ok
	}
	for _, path := range c.P.Order {
		for _, mem := range c.P.Pkgs[path].SSA.Members {
			g, isG := mem.(*ssa.Global)
			if !isG || m.GlobalValue(g) != re {
				continue
			}
			for _, b := range c.P.Pkgs[path].SSA.Func("init").Blocks {
				for _, in := range b.Instrs {
					s, isS := in.(*ssa.Store)
					if !isS || s.Addr != g {
						continue
					}
					call, isC := s.Val.(*ssa.Call)
					if !isC || call.Call.StaticCallee() == nil || call.Call.StaticCallee().String() != "regexp.MustCompile" {
						return "", false
					}
					k, isK := call.Call.Args[0].(*ssa.Const)
					if !isK || k.Value == nil || k.Value.Kind() != constant.String {
						return "", false
					}
					return constant.StringVal(k.Value), true
				}
			}
		}
	}
	return "", false
}

func sameRegexp(a, b string) bool {
	x, err := syntax.Parse(a, syntax.Perl)
	if err != nil {
		return false
	}
	y, err := syntax.Parse(b, syntax.Perl)
	if err != nil {
		return false
	}
	return x.Simplify().String() == y.Simplify().String()
}

// The documented form of names: a colon after a break character, then
// everything up to the next one.
const nameRegexp = `[/.;,]:([^/.;,]+)`

// strParse checks that the parser cuts the source of a string pattern at the
// right places.
func (c *Ctx) strParse(ro *strRoles) {
	m := c.M.Sub()
	m.OutLimit, m.PtLimit = 64, 64
	m.LocalStores = true
	fieldOf := func(t *ai.Term) string { return strings.TrimPrefix(t.S, "pattern.") }
	fn := c.fn("web", "ParsePattern")
	for _, p := range c.patternsOf(m, false) {
		if p.kind == "regexp" {
			c.regexpNames(m, p)
			continue
		}
		t := p.pat.Typ
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		get := func(role *ai.Term) *ai.Term {
			i, ft, ok := field(t, fieldOf(role))
			if !ok {
				c.must(fn.Pos(), "undecided", "string pattern", "no field %s", fieldOf(role))
			}
			if _, isPtr := p.pat.Typ.Underlying().(*types.Pointer); isPtr {
				return m.Load(p.st.Copy(), ai.FA(p.pat.Args[0], i, ft), ft)
			}
			return ai.FieldT(p.pat.Args[0], i, ft)
		}
		w := &parseWalk{c: c, m: m, p: p, names: get(ro.names), lits: get(ro.lits), brks: get(ro.brks), pos: fn.Pos()}
		wild := p.st.Decide(ai.App("strings.HasSuffix", types.Typ[types.Bool], p.raw, ai.Str("/*")))
		w.end = ai.Len(p.raw)
		switch wild {
		case 1:
			w.end = ai.Add(w.end, ai.Int(-1))
		case 0:
			c.fail(fn.Pos(), "undecided", "string pattern", "wildcard patterns are not told apart")
			continue
		}
		why := w.check()
		c.check(why == "", fn.Pos(), "source", "string pattern", "the parser does not cut the pattern as documented: %s [%s]", why, facts(p.st))
	}
	c.problems(m, "web.ParsePattern")
}

type parseWalk struct {
	c                 *Ctx
	m                 *ai.Machine
	p                 patVal
	names, lits, brks *ai.Term
	lits0             *ai.Term // literals before the last one was appended
	end               *ai.Term // length of what is parsed
	pos               token.Pos
}

// stored is a store into one of the pattern's slices.
type stored struct {
	idx, val *ai.Term
	ev       *ai.Event
}

// stores lists what is stored into a slice: by index, or by appending to it.
func (w *parseWalk) stores(evs []*ai.Event, slice *ai.Term) []stored {
	b, lo, _ := ai.SliceParts(slice)
	var out []stored
	for _, ev := range evs {
		switch {
		case ev.Kind == "store" && ev.Args[0].Op == "ia" && ev.Args[0].Args[0] == b:
			out = append(out, stored{ai.Sub(ev.Args[0].Args[1], lo), ev.Args[1], ev})
		case ev.Kind == "append" && len(ev.Res) == 1 && ev.Res[0] == slice && slice != ev.Args[0]:
			vs, ok := w.m.Elems(ev.St, ev.Args[1])
			if !ok {
				out = append(out, stored{ai.Int(-1), ev.Args[1], ev})
			}
			n := ai.Len(ev.Args[0])
			for i, v := range vs {
				out = append(out, stored{ai.Add(n, ai.Int(int64(i))), v, ev})
			}
		}
	}
	return out
}

// origin is what a slice was before the elements appended in these events.
func origin(evs []*ai.Event, slice *ai.Term) *ai.Term {
	for {
		found := false
		for _, ev := range evs {
			if ev.Kind == "append" && len(ev.Res) == 1 && ev.Res[0] == slice && slice != ev.Args[0] {
				slice, found = ev.Args[0], true
				break
			}
		}
		if !found {
			return slice
		}
	}
}

// inLoop lists what an iteration stores into a slice, which is a variable of
// the loop if it grows by appending.
func (w *parseWalk) inLoop(l *ai.LoopNode, it ai.LoopIter, evs []*ai.Event, slice *ai.Term) ([]stored, bool) {
	for k := range l.Phis {
		ph := &l.Phis[k]
		if ph.Sym != slice || ph.Cell != nil {
			continue
		}
		if n, ok := ai.Len(ph.Init).Int(); !ok || n != 0 {
			return nil, false
		}
		next := it.Next[ph.Sym]
		if origin(evs, next) != ph.Sym {
			return nil, false
		}
		out := w.stores(evs, ph.Sym)
		for next != ph.Sym {
			out = append(out, w.stores(evs, next)...)
			for _, ev := range evs {
				if ev.Kind == "append" && len(ev.Res) == 1 && ev.Res[0] == next {
					next = ev.Args[0]
					break
				}
			}
		}
		return out, true
	}
	return w.stores(evs, slice), true
}

// row recognises matches[i][k].
func row(t, MM *ai.Term) (i *ai.Term, k int64, ok bool) {
	if t.Op != "ld" || t.Args[0].Op != "ia" {
		return
	}
	k, ok = t.Args[0].Args[1].Int()
	r := t.Args[0].Args[0]
	if !ok || r.Op != "ld" || r.Args[0].Op != "ia" || r.Args[0].Args[0] != MM {
		return nil, 0, false
	}
	return r.Args[0].Args[1], k, true
}

// place is a position in the source relative to what group 1 of a match found:
// matches are a break character, a colon and that group.
func place(t, MM *ai.Term) (i *ai.Term, k, off int64, ok bool) {
	t.Subterms(func(u *ai.Term) {
		if ok {
			return
		}
		if j, kk, isRow := row(u, MM); isRow {
			if d, isK := ai.Sub(t, u).Int(); isK {
				i, k, off, ok = j, kk, d, true
			}
		}
	})
	switch k {
	case 0:
		k, off = 2, off-2
	case 1:
		k = 3
	}
	return
}

func (w *parseWalk) check() string {
	c := w.c
	evs := w.p.parse
	st := w.p.st
	raw := w.p.raw
	// The search for names.
	var MM *ai.Term
	find := func(t *ai.Term) {
		if t.Op == "app" && t.S == "(*regexp.Regexp).FindAllStringSubmatchIndex" {
			MM = t
		}
	}
	st.Literals(func(t *ai.Term, _ bool) { t.Subterms(find) })
	ai.Len(w.names).Subterms(find)
	if MM == nil {
		return "the names are not as many as a search for them found"
	}
	text := ai.SubStr(raw, ai.Int(0), w.end)
	if n, ok := MM.Args[2].Int(); !ok || n >= 0 || MM.Args[1] != text {
		return "not all names of the pattern are searched for"
	}
	src, ok := c.regexpSource(w.m, MM.Args[0], evs)
	if !ok {
		return "the expression that finds names is not constant"
	}
	if !sameRegexp(src, nameRegexp) {
		return fmt.Sprintf("names are found with %s, not with %s", src, nameRegexp)
	}
	n := ai.Len(MM)
	eq := func(a, b *ai.Term) bool { return a == b || st.Decide(ai.Eq(a, b)) == 1 }
	if !eq(ai.Len(w.names), n) || !eq(ai.Len(w.lits), ai.Add(n, ai.Int(1))) || st.Decide(ai.Le(n, ai.Len(w.brks))) != 1 {
		return "there is not one name and break character for each match and one literal more"
	}
	c.Oblig["cut"]++
	w.lits0 = origin(evs, w.lits)
	// The loop over them.
	from := ai.Int(0) // where the last literal begins
	if st.Decide(ai.Eq(n, ai.Int(0))) != 1 {
		from = nil
		why := "no loop over the names found was found"
		for _, l := range loopsOf(evs) {
			if len(l.Iters) == 0 {
				continue
			}
			cut, bad := w.loop(l, MM)
			if bad != "" {
				why = bad
				continue
			}
			from = cut
			break
		}
		if from == nil {
			return why
		}
	} else {
		for _, l := range loopsOf(evs) {
			if cut, bad := w.loop(l, MM); bad == "" {
				from = cut
			}
		}
	}
	// The last literal, nothing overwritten.
	last := 0
	for _, s := range w.stores(evs, w.lits) {
		lit := ai.SubStr(raw, from, w.end)
		ok := eq(s.idx, n) && (s.val == lit || s.val == text && st.Decide(ai.Eq(n, ai.Int(0))) == 1)
		if !ok {
			return fmt.Sprintf("literal %s is %s", s.idx, s.val)
		}
		last++
	}
	if last != 1 {
		return "the last literal is not stored once"
	}
	if len(w.stores(evs, w.names))+len(w.stores(evs, w.brks)) > 0 || w.lits0 != w.lits && len(w.stores(evs, w.lits0)) > 0 {
		return "a name or break character is stored outside the loop"
	}
	c.Oblig["cut"]++
	return ""
}

// loop checks one loop of the parser; it returns where the next literal begins.
func (w *parseWalk) loop(l *ai.LoopNode, MM *ai.Term) (cut *ai.Term, bad string) {
	raw := w.p.raw
	var idx *ai.Term
	for _, ph := range l.Phis {
		if ph.Cell == nil && ph.Step != nil && ph.Step.K == 1 {
			idx = ai.Sub(ph.Sym, ph.Init)
			break
		}
	}
	if idx == nil {
		return nil, "the loop has no index"
	}
	for _, it := range l.Iters {
		evs := it.Trace.Events()
		eq := func(a, b *ai.Term) bool { return a == b || it.St.Decide(ai.Eq(a, b)) == 1 }
		ns, ok1 := w.inLoop(l, it, evs, w.names)
		ls, ok2 := w.inLoop(l, it, evs, w.lits0)
		bs, ok3 := w.inLoop(l, it, evs, w.brks)
		if !ok1 || !ok2 || !ok3 || len(ns) != 1 || len(ls) != 1 || len(bs) != 1 {
			return nil, "an iteration does not store one name, one literal and one break character"
		}
		for _, s := range []stored{ns[0], ls[0], bs[0]} {
			if !eq(s.idx, idx) {
				return nil, fmt.Sprintf("element %s is stored in iteration %s", s.idx, idx)
			}
		}
		v := ns[0].val
		if v.Op != "substr" || v.Args[0] != raw {
			return nil, fmt.Sprintf("a name is %s", v)
		}
		a, b := v.Args[1], v.Args[2]
		at := func(t *ai.Term, group, off int64) bool {
			i, k, d, ok := place(t, MM)
			return ok && k == group && d == off && eq(i, idx)
		}
		if !at(a, 2, 0) || !at(b, 3, 0) {
			return nil, fmt.Sprintf("name %s is %s, not what the group of match %s matched", idx, v, idx)
		}
		w.c.Oblig["cut"]++
		// literal: from where the last name ended to before the colon
		v = ls[0].val
		if v.Op != "substr" || v.Args[0] != raw || !at(v.Args[2], 2, -1) {
			return nil, fmt.Sprintf("literal %s is %s, which does not end before the colon", idx, v)
		}
		begin := v.Args[1]
		var phi *ai.LoopPhi
		for k := range l.Phis {
			if l.Phis[k].Sym == begin && l.Phis[k].Cell == nil {
				phi = &l.Phis[k]
			}
		}
		if phi == nil || phi.Init != ai.Int(0) || it.Next[begin] == nil || !at(it.Next[begin], 3, 0) {
			return nil, fmt.Sprintf("literal %s does not begin where the last name ended", idx)
		}
		if cut != nil && cut != begin {
			return nil, "the literals do not begin in one place"
		}
		cut = begin
		w.c.Oblig["cut"]++
		// break character
		v = bs[0].val
		switch {
		case it.St.Decide(ai.Le(w.end, b)) == 1: // it cannot end later
			if k, ok := v.Int(); !ok || k != '/' {
				return nil, fmt.Sprintf("the break character of a name at the end is %s", v)
			}
		case it.St.Decide(ai.Eq(b, w.end)) == -1 || it.St.Decide(ai.Lt(b, w.end)) == 1:
			if v.Op != "app" || v.S != "index" || v.Args[0] != raw || !at(v.Args[1], 3, 0) {
				return nil, fmt.Sprintf("the break character is %s, not the one behind the name", v)
			}
		default:
			return nil, fmt.Sprintf("the break character is %s whether or not the name is at the end", v)
		}
		w.c.Oblig["cut"]++
	}
	return cut, ""
}

// regexpNames checks the list of names of a regexp pattern.
func (c *Ctx) regexpNames(m *ai.Machine, p patVal) {
	fn := c.fn("web", "ParsePattern")
	isNames := func(t *ai.Term) bool { return t.Op == "app" && t.S == "(*regexp.Regexp).SubexpNames" }
	why := "the list of names is not built by a loop over the expression's groups"
	for _, s := range p.slices {
		if !isStrSlice(s.Typ) || isNames(s) {
			continue
		}
		w := &parseWalk{c: c, m: m, p: p, names: s}
		// a copy of the expression's own names to begin with
		base, lo, _ := ai.SliceParts(s)
		copied := false
		for _, ev := range p.parse {
			if ev.Kind == "copy" {
				cb, clo, _ := ai.SliceParts(ev.Args[0])
				copied = copied || cb == base && clo == lo && isNames(ev.Args[1])
			}
		}
		for _, l := range loopsOf(p.parse) {
			var idx *ai.Term
			for _, ph := range l.Phis {
				if ph.Cell == nil && ph.Step != nil && ph.Step.K == 1 && isInt(ph.Sym.Typ) {
					idx = ai.Sub(ph.Sym, ph.Init)
					break
				}
			}
			if idx == nil {
				continue
			}
			n, bad := 0, ""
			for _, it := range l.Iters {
				ss, ok := w.inLoop(l, it, it.Trace.Events(), s)
				if !ok || len(ss) > 1 || len(ss) == 0 && !copied {
					bad = "an iteration does not store exactly one name"
					continue
				}
				for _, x := range ss {
					n++
					if x.idx != idx && it.St.Decide(ai.Eq(x.idx, idx)) != 1 {
						bad = fmt.Sprintf("name %s is stored in iteration %s", x.idx, idx)
					}
				}
			}
			if n == 0 {
				continue
			}
			for _, it := range l.Iters {
				ss, ok := w.inLoop(l, it, it.Trace.Events(), s)
				if !ok {
					continue
				}
				// the group's own name, and whether it is empty
				var nm *ai.Term
				it.St.Literals(func(t *ai.Term, val bool) {
					t.Subterms(func(u *ai.Term) {
						switch {
						case u.Op == "ld" && u.Args[0].Op == "ia" && isNames(u.Args[0].Args[0]) && u.Args[0].Args[1] == idx:
							nm = u
						case u.Op == "app" && u.S == "junk" && copied && bad == "" && ai.Sub(u.Args[0], lo) == idx:
							// only the element of this iteration is written in it
							nm = u
						}
					})
				})
				if nm == nil {
					c.check(false, l.Pos, "names", "regexp pattern", "name %s does not depend on whether its group has a name", idx)
					continue
				}
				empty := it.St.Decide(ai.Eq(nm, ai.Str("")))
				if len(ss) == 0 {
					c.check(empty == -1, l.Pos, "names", "regexp pattern", "name %s stays empty [%s]", idx, facts(it.St))
					continue
				}
				v := ss[0].val
				ok = v == nm && empty == -1 || empty == 1 && v == c.dollar(m, idx)
				c.check(ok, ss[0].ev.Pos, "names", "regexp pattern", "name %s of the pattern is %s, neither the group's name nor, without one, its number [%s]", idx, v, facts(it.St))
			}
			if len(w.stores(p.parse, s)) > 0 {
				bad = "names are also stored outside the loop over the expression's groups"
			}
			if bad == "" && p.st.Decide(ai.Le(ai.Len(s), idx)) != 1 {
				bad = "the loop may end before the last group"
			}
			why = bad
			break
		}
	}
	c.check(why == "", fn.Pos(), "names", "regexp pattern", "%s", why)
}

// dollar is "$i".
func (c *Ctx) dollar(m *ai.Machine, i *ai.Term) *ai.Term {
	return ai.Concat(ai.Str("$"), m.Fold("strconv.Itoa", i))
}

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
