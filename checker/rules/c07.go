package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"gojicheck/ai"

	"golang.org/x/tools/go/ssa"
)

// snapEnv checks the publication discipline of the route table while methods
// of the mux are analysed.
type snapEnv struct {
	*rtEnv
	where string
	m     *ai.Machine
	lists map[*ai.Term]bool // published route lists
	machs map[*ai.Term]bool // published automata
}

const (
	gLoads = "c07:loads"
	gLocks = "c07:locks"
	gUsed  = "c07:used"
	gList  = "c07:list"
)

func (x *snapEnv) isMach(a *ai.Term) bool {
	return a == x.machA || x.machA.Op == "fa" && a == x.machA.Args[0] && x.machA.S == "" && a != x.rt
}

func ghostN(s *ai.State, k string) int64 {
	if t := s.Ghost[k]; t != nil {
		n, _ := t.Int()
		return n
	}
	return 0
}

// freshMach puts an arbitrary published automaton into the router.
func (x *snapEnv) freshMach(s *ai.State) {
	n := ghostN(s, gLoads) + 1
	s.Ghost[gLoads] = ai.Int(n)
	name := "M"
	if n > 1 {
		name = fmt.Sprintf("M%d", n)
	}
	t := ai.Sym(name, x.machT)
	x.machs[t] = true
	x.m.SetCell(s, x.machA, t)
}

// machRoot gives the published automaton memory belongs to.
func (x *snapEnv) machRoot(root *ai.Term) *ai.Term {
	if root.Op == "ld" {
		root = root.Args[0].Root()
	}
	if x.machs[root] {
		return root
	}
	return nil
}

func (c *Ctx) snap() *snapEnv {
	x := &snapEnv{rtEnv: c.router(), lists: map[*ai.Term]bool{}, machs: map[*ai.Term]bool{}}
	m := x.rtEnv.machine()
	x.m = m
	m.AllAccess = true
	x.lists[x.R] = true
	m.Stable = func(s *ai.State, a *ai.Term) bool {
		root := a.Root()
		if root == x.mux {
			return a == x.nfA || (a == x.routesA || x.isMach(a)) && len(s.Locks) > 0
		}
		return a == x.envA || x.lists[root] || x.machRoot(root) != nil
	}
	m.OnLock = func(m *ai.Machine, s *ai.State, mu *ai.Term, read bool) []*ai.State {
		if mu.Root() == x.mux {
			n := ghostN(s, gLocks) + 1
			s.Ghost[gLocks] = ai.Int(n)
			l := x.R
			if n > 1 {
				l = ai.Sym(fmt.Sprintf("R%d", n), x.routesT)
				x.lists[l] = true
			}
			m.SetCell(s, x.routesA, l)
			s.Ghost[gList] = l
			x.freshMach(s)
		}
		return []*ai.State{s}
	}
	m.OnUnlock = func(m *ai.Machine, s *ai.State, mu *ai.Term, read bool) {
		if mu.Root() == x.mux {
			x.unlocked(s)
		}
	}
	m.OnAccess = x.access
	m.OnAppend = func(s *ai.State, dst, src, res *ai.Term, pos token.Pos) {
		if b, _, _ := ai.SliceParts(dst); x.published(s, b.Root()) {
			s.Ghost[fmt.Sprintf("c07:app:%d", res.ID)] = dst
		}
	}
	return x
}

// published reports whether other goroutines may be reading what a root leads
// to without a lock.
func (x *snapEnv) published(s *ai.State, root *ai.Term) bool {
	return x.lists[root] || x.machRoot(root) != nil || s.Ghost[fmt.Sprintf("c07:pub:%d", root.ID)] != nil
}

func (x *snapEnv) access(s *ai.State, a *ai.Access) {
	c := x.c
	root := a.Addr.Root()
	locked := false
	for range s.Locks {
		locked = true
	}
	if root == x.mux {
		switch {
		case a.Addr == x.routesA:
			c.check(locked, a.Pos, "locked", x.where, "the router's route list is accessed (write: %v) without its lock", a.Write)
		case x.isMach(a.Addr):
			c.check(a.Atomic, a.Pos, "atomic", x.where, "the automaton pointer is accessed (write: %v) by a plain memory access", a.Write)
			if a.Write {
				c.check(locked, a.Pos, "locked", x.where, "the automaton pointer is written without the router's lock")
			} else if !locked {
				x.freshMach(s)
			}
		}
		return
	}
	if !a.Write {
		if k := x.machRoot(root); k != nil {
			u := s.Ghost[gUsed]
			c.check(u == nil || u == k, a.Pos, "snapshot", x.where, "one request reads two automata (%s and %s), loaded one after the other", u, k)
			s.Ghost[gUsed] = k
			c.check(isNil(s, k) == -1, a.Pos, "loaded", x.where, "the automaton pointer %s is followed although it may be nil: a concurrent registration may have reset it", k)
		}
		return
	}
	if a.Addr.Op == "mapcontent" {
		return
	}
	beyond := func(n *ai.Term) bool {
		for b := a.Addr; len(b.Args) > 0; b = b.Args[0] {
			if b.Op == "ia" {
				return s.Copy().Decide(ai.Le(n, b.Args[1])) == 1
			}
		}
		return false
	}
	// Behind the end of a published list nobody reads.
	c.check(!x.published(s, root) || x.lists[root] && beyond(ai.Len(root)), a.Pos, "published", x.where, "memory of the published table (%s) is written: requests being routed may be reading it", a.Addr)
	if dst := s.Ghost[fmt.Sprintf("c07:app:%d", root.ID)]; dst != nil {
		c.check(beyond(ai.Len(dst)), a.Pos, "published", x.where, "%s is written, which append may have left in the array of the published route list", a.Addr)
	}
}

// program checks that an automaton made here was compiled from the very route
// list it holds.
func (x *snapEnv) program(s *ai.State, v *ai.Term, pos token.Pos) *ai.Term {
	c := x.c
	st := x.smT.Underlying().(*types.Struct)
	l := x.m.Load(s.Copy(), ai.FA(v, x.smRoutesI, x.routesT), x.routesT)
	var from []*ai.Term
	flat(s.Trace(), func(ev *ai.Event, _ bool) {
		if ev.Kind != "call" {
			return
		}
		for _, a := range ev.Args {
			if a.Typ != nil && types.Identical(a.Typ.Underlying(), x.routesT.Underlying()) {
				from = append(from, a)
			}
		}
	})
	empty := s.Copy().Decide(ai.Eq(ai.Len(l), ai.Int(0))) == 1
	for i := 0; i < st.NumFields(); i++ {
		if i == x.smRoutesI {
			continue
		}
		f := x.m.Load(s.Copy(), ai.FA(v, i, st.Field(i).Type()), st.Field(i).Type())
		good := false
		for _, ev := range s.Trace() {
			if ev.Kind != "call" || len(ev.Res) == 0 {
				continue
			}
			has := false
			for _, a := range ev.Args {
				has = has || a == l
			}
			if has && (f == ev.Res[0] || f.Mentions(ev.Res[0]) || x.c.reaches(x.m, s, f, ev.Res[0], 3)) {
				good = true
			}
		}
		if !good && len(from) > 0 {
			good = true
			for _, a := range from {
				good = good && a == l
			}
		}
		c.check(good || empty, pos, "consistent", x.where, "the automaton stored is not known to be compiled from the route list it holds (%s): %s\n%s", l, f, trace(s.Trace()))
	}
	return l
}

func (x *snapEnv) unlocked(s *ai.State) {
	c := x.c
	n := s.Copy()
	pos := token.NoPos
	if evs := s.Trace(); len(evs) > 0 {
		pos = evs[len(evs)-1].Pos
	}
	l := x.m.Load(n, x.routesA, x.routesT)
	v := x.m.Load(n, x.machA, x.machT)
	switch {
	case isNil(n, v) == 1:
		c.check(true, pos, "consistent", x.where, "")
	case x.machs[v]:
		c.check(l == s.Ghost[gList], pos, "consistent", x.where, "the lock is released with a changed route list and the automaton of the old one [%s]", facts(n))
	case v.Op == "obj":
		vl := x.program(n, v, pos)
		c.check(vl == l, pos, "consistent", x.where, "the lock is released with an automaton compiled from %s while the route list is %s", vl, l)
	default:
		c.check(false, pos, "consistent", x.where, "the lock is released with the automaton %s, of which nothing is known", v)
	}
	for _, t := range []*ai.Term{l, v} {
		b := t
		if t == l {
			b, _, _ = ai.SliceParts(t)
		}
		if r := b.Root(); r.Op == "obj" {
			s.Ghost[fmt.Sprintf("c07:pub:%d", r.ID)] = ai.True()
		}
	}
}

// calls checks that code summarised rather than analysed cannot write what it
// is given.
func (x *snapEnv) calls(evs []*ai.Event) {
	flat(evs, func(ev *ai.Event, _ bool) {
		if ev.Call == nil || ev.Call.Callee == nil || ev.Kind != "call" {
			return
		}
		f := ev.Call.Callee
		if f.Pkg == nil || x.c.P.Pkgs[f.Pkg.Pkg.Path()] == nil || f.Blocks == nil {
			return
		}
		x.c.check(x.m.EffectFree(f), ev.Pos, "published", x.where, "%s is not known to leave the route list it is given alone", f)
	})
}

func runC07(c *Ctx) {
	done := func(x *snapEnv, name string, outs []ai.Outcome) {
		c.check(len(outs) > 0, token.NoPos, "entry", name, "no path through it")
		for _, o := range outs {
			pos := token.NoPos
			if evs := o.St.Trace(); len(evs) > 0 {
				pos = evs[len(evs)-1].Pos
			}
			c.check(o.Kind == ai.Exit || o.Kind != ai.Block && len(o.St.Locks) == 0, pos, "released", name, "the router's lock is still held, or taken twice, when the call ends (%s) [%s]\n%s", o.Kind, facts(o.St), trace(o.St.Trace()))
			x.calls(o.St.Trace())
			flat(o.St.Trace(), func(ev *ai.Event, _ bool) {
				c.check(ev.Kind != "badunlock", ev.Pos, "released", name, "a lock that is not held is released")
			})
		}
	}
	reg := map[string]bool{}
	for _, v := range verbs {
		x := c.snap()
		x.where = "Mux." + v.name
		reg[v.name] = true
		var outs []ai.Outcome
		for _, g := range x.register(x.m, v.name) {
			outs = append(outs, g.out)
		}
		done(x, x.where, outs)
	}
	// Every other method of the mux and the router.
	var fns []*ssa.Function
	rt := c.router()
	for _, t := range []types.Type{ptr(rt.x.muxT), ptr(rt.rtT)} {
		ms := c.P.Prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			f, ok := ms.At(i).Obj().(*types.Func)
			if !ok {
				continue
			}
			if fn := c.P.Prog.MethodValue(ms.At(i)); fn != nil && fn.Synthetic == "" && !reg[f.Name()] {
				fns = append(fns, fn)
			}
		}
	}
	for _, fn := range fns {
		x := c.snap()
		x.where = strings.TrimPrefix(short(fn.String()), "web.")
		st := x.state(x.m)
		x.machs[x.M] = true
		var args []*ai.Term
		for i, p := range fn.Params {
			switch {
			case i == 0 && types.Identical(p.Type(), ptr(x.x.muxT)):
				args = append(args, x.mux)
			case i == 0:
				args = append(args, x.rt)
			case types.Identical(p.Type(), ptr(x.e.cT)):
				args = append(args, x.e.c)
			case types.Identical(p.Type(), x.e.wT):
				args = append(args, x.e.w)
			case types.Identical(p.Type(), ptr(x.e.rT)):
				args = append(args, x.e.r)
			default:
				a := ai.Sym(fmt.Sprintf("arg%d", i), p.Type())
				if types.Identical(p.Type(), x.machT) {
					// the automaton to store, if a method takes it: checked at the callers
					continue
				}
				args = append(args, a)
			}
		}
		if len(args) != len(fn.Params) {
			continue
		}
		m := x.m
		if fn.Name() == "ServeHTTP" || fn.Name() == "ServeHTTPC" {
			continue // the stack: its end is the router's own method
		}
		done(x, x.where, m.Exec(fn, args, st))
		c.problems(m, x.where)
	}
	x := c.snap()
	x.where = "Router middleware"
	x.routerMW(x.m, false, func(o ai.Outcome, ev *ai.Event, mv *ai.Term) {})
	x = c.snap()
	x.where = "Router middleware (not compiled yet)"
	x.routerMW(x.m, true, func(o ai.Outcome, ev *ai.Event, mv *ai.Term) {})
}
