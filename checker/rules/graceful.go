package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"gojicheck/ai"

	"golang.org/x/tools/go/ssa"
)

const grPath = "graceful"

// C33-C35: the shutdown sequence. Shutdown, ShutdownNow and the goroutines of
// the signal loop are analysed; every path of each is a sequence of marks (hook
// loops, closing and draining of listeners, waits, the release of waiters)
// nested in the bodies of sync.Once objects. A once whose body performs a phase
// on every path stands for that phase when it is found already done.

type grMark struct {
	kind  string // once onceend skip pre post begin lstart ldone release wait
	once  *ai.Term
	force bool // lstart, ldone: DrainAll
	ev    *ai.Event
	locks map[int]int
}

type grUnit struct {
	name  string
	sig   *ai.Term
	force int // 1 forced, -1 plain, 0 depends
	outs  []ai.Outcome
	pos   token.Pos
	marks [][]grMark
}

type grEnv struct {
	c         *Ctx
	m         *ai.Machine
	lp        string
	pre, post *ai.Term // addresses of the lists of hooks
	lst       *ai.Term // address of the list of listeners
	lstT      types.Type
	closing   *ai.Term // the flag
	wait      *ai.Term // the channel
	units     []*grUnit
	// what the body of each once performs in every run
	does   map[*ai.Term]map[string]bool
	waits  map[*ai.Term]bool // may wait for connections to finish
	onces  []*ai.Term
	plainL map[int]bool // locks held while waiting for connections to finish
	props  string
}

var grPhases = []string{"pre", "begin", "closing", "post", "release"}

// ck records an obligation of one or more properties.
func (g *grEnv) ck(props string, ok bool, pos token.Pos, kind, construct, f string, a ...any) bool {
	if os.Getenv("LSALL") != "" {
		return g.c.check(ok, pos, kind, construct, "<"+props+"> "+f, a...)
	}
	if !strings.Contains(props, g.c.Prop) {
		return ok
	}
	return g.c.check(ok, pos, kind, construct, f, a...)
}

// guards finds, for unexported variables of a package, the locks that are held
// wherever one is written after initialisation.
func (c *Ctx) guards(pkg string) map[*ssa.Global]lockset {
	p := c.pkg(pkg)
	fns := ai.AllFunctions(c.P)
	w := newLockflow(fns)
	gs := map[*ssa.Global]lockset{}
	free := map[*ssa.Global]bool{}
	for _, f := range w.fns {
		if w.inits[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					gl, ok := (*op).(*ssa.Global)
					if !ok || gl.Pkg != p.SSA || token.IsExported(gl.Name()) {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						h := w.before[in]
						if h == nil {
							h = lockset{}
						}
						if x.Val == ssa.Value(gl) {
							free[gl] = true
						} else if gs[gl] == nil {
							gs[gl] = h
						} else {
							gs[gl] = gs[gl].meet(h)
						}
					default:
						free[gl] = true
					}
				}
			}
		}
	}
	for gl := range free {
		delete(gs, gl)
	}
	return gs
}

func (c *Ctx) grMachine() *ai.Machine {
	m := c.M.Sub()
	lp := mod + "/" + lsPath
	guards := c.guards(grPath)
	lockT := map[string]*ai.Term{}
	for _, mb := range c.pkg(grPath).SSA.Members {
		if gl, ok := mb.(*ssa.Global); ok && gl.Object() != nil {
			lockT[lockKey(gl)] = ai.GlobT(gl)
		}
	}
	m.Stable = func(s *ai.State, a *ai.Term) bool {
		if a.Op != "glob" {
			return false
		}
		for k := range guards[a.X.(*ssa.Global)] {
			if l := lockT[k]; l != nil && s.Locks[l.ID] != 0 {
				return true
			}
		}
		return false
	}
	m.OutLimit, m.PtLimit = 64, 64
	m.NoInline = func(fn *ssa.Function) bool {
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != lp || fn.Parent() != nil {
			return false
		}
		return fn.Object() != nil && fn.Object().Exported()
	}
	m.Opaque = func(m *ai.Machine, s *ai.State, cc *ai.CallCtx) ([]ai.Outcome, bool) {
		if cc.Callee != nil && m.NoInline(cc.Callee) {
			return m.BenignCall(s, cc), true
		}
		switch cc.Name {
		case "(time.Time).Sub":
			return []ai.Outcome{{Kind: ai.Ret, St: s, Vals: []*ai.Term{timeDiff(cc.Args[0], cc.Args[1])}}}, true
		case "(time.Time).Before":
			return []ai.Outcome{{Kind: ai.Ret, St: s, Vals: []*ai.Term{ai.Lt(timeDiff(cc.Args[0], cc.Args[1]), ai.Int(0))}}}, true
		case "(time.Time).After":
			return []ai.Outcome{{Kind: ai.Ret, St: s, Vals: []*ai.Term{ai.Lt(timeDiff(cc.Args[1], cc.Args[0]), ai.Int(0))}}}, true
		case "time.Since":
			now := s.Fresh("r:time.Now@"+cc.Site, cc.Sig.Params().At(0).Type())
			return []ai.Outcome{{Kind: ai.Ret, St: s, Vals: []*ai.Term{timeDiff(now, cc.Args[0])}}}, true
		}
		return nil, false
	}
	return m
}

// timeDiff is a - b for points in time.
func timeDiff(a, b *ai.Term) *ai.Term {
	if a == b {
		return ai.Int(0)
	}
	if isApp(b, "(time.Time).Add") {
		return ai.Sub(timeDiff(a, b.Args[0]), b.Args[1])
	}
	if isApp(a, "(time.Time).Add") {
		return ai.Add(timeDiff(a.Args[0], b), a.Args[1])
	}
	if a.ID > b.ID {
		return ai.Sub(ai.Int(0), timeDiff(b, a))
	}
	return ai.App("timediff", types.Typ[types.Int], a, b)
}

func isApp(t *ai.Term, name string) bool { return t.Op == "app" && t.S == name }

func isNow(t *ai.Term) bool { return t.Op == "sym" && strings.Contains(t.S, "r:time.Now@") }

// lop names the operation on a listener an event performs.
func (g *grEnv) lop(e *ai.Event) (op string, l *ai.Term) {
	pre := "(*" + g.lp + ".T)."
	if e.Kind == "call" && strings.HasPrefix(e.Name, pre) && len(e.Args) > 0 {
		return strings.TrimPrefix(e.Name, pre), e.Args[0]
	}
	if e.Kind == "go" && e.Args[0].Op == "fn" && len(e.Args) > 1 {
		fn := e.Args[0].X.(*ssa.Function)
		if g.m.NoInline(fn) && fn.Signature.Recv() != nil {
			return fn.Name(), e.Args[1]
		}
	}
	return "", nil
}

// changed lists the slices among the package's variables that a call changed.
func (g *grEnv) changed(before, after *ai.State) (out []leaf) {
	for _, f := range g.c.pkgVars(grPath) {
		if _, ok := f.typ.Underlying().(*types.Slice); !ok {
			continue
		}
		if g.m.Load(before.Copy(), f.addr, f.typ) != g.m.Load(after.Copy(), f.addr, f.typ) {
			out = append(out, f)
		}
	}
	return
}

// pkgVars lists the leaf fields of the variables of a package.
func (c *Ctx) pkgVars(path string) (out []leaf) {
	p := c.pkg(path)
	sc := p.Types.Scope()
	for _, n := range sc.Names() {
		if v, ok := sc.Lookup(n).(*types.Var); ok {
			if gl := p.SSA.Var(v.Name()); gl != nil {
				out = append(out, leaves(ai.GlobT(gl), v.Type(), n)...)
			}
		}
	}
	return
}

// appended checks that a list has got exactly one more element at the end, and
// returns it.
func (g *grEnv) appended(before, after *ai.State, f leaf) *ai.Term {
	et := f.typ.Underlying().(*types.Slice).Elem()
	o, n := g.m.Load(before.Copy(), f.addr, f.typ), g.m.Load(after.Copy(), f.addr, f.typ)
	if after.Copy().Decide(ai.Eq(ai.Len(n), ai.Add(ai.Len(o), ai.Int(1)))) != 1 {
		return nil
	}
	j := ai.Sym("anyJ", types.Typ[types.Int])
	s := after.Copy()
	if s.Assume(ai.Le(ai.Int(0), j), true) && s.Assume(ai.Lt(j, ai.Len(o)), true) {
		x, y := g.m.Load(s, ai.ElemAddr(n, j, et), et), g.m.Load(before.Copy(), ai.ElemAddr(o, j, et), et)
		if x != y && !(x.Op == "ld" && y.Op == "ld" && x.Args[0] == y.Args[0]) {
			return nil
		}
	}
	return g.m.Load(after.Copy(), ai.ElemAddr(n, ai.Len(o), et), et)
}

// registration analyses a function that registers something.
func (g *grEnv) registration(props, name string, args []*ai.Term, list *ai.Term, what func(o ai.Outcome, v *ai.Term) string) *ai.Term {
	c := g.c
	fn := c.fn(grPath, name)
	c.entry(fn)
	if len(args) != len(fn.Params) {
		c.must(fn.Pos(), "anchor", name, "unexpected parameters")
	}
	st := ai.NewState()
	n := 0
	for _, o := range g.m.Exec(fn, args, st) {
		if o.Kind != ai.Ret {
			g.ck(props, false, fn.Pos(), "register", name, "it can end in %s [%s]", o.Kind, facts(o.St))
			continue
		}
		ch := g.changed(st, o.St)
		if !g.ck(props, len(ch) == 1, fn.Pos(), "register", name, "%d lists change, not one [%s]", len(ch), facts(o.St)) {
			continue
		}
		if list == nil {
			list = ch[0].addr
			g.lstT = ch[0].typ
		}
		g.ck(props, ch[0].addr == list, fn.Pos(), "register", name, "it changes %s, not %s", ch[0].name, list)
		v := g.appended(st, o.St, ch[0])
		if !g.ck(props, v != nil, fn.Pos(), "register", name, "%s is not the old list with one more element at the end [%s]", ch[0].name, facts(o.St)) {
			continue
		}
		bad := what(o, v)
		g.ck(props, bad == "", fn.Pos(), "register", name, "%s [%s]", bad, facts(o.St))
		n++
	}
	g.ck(props, n > 0, fn.Pos(), "register", name, "no path registers anything")
	if list == nil {
		c.must(fn.Pos(), "anchor", name, "no list of the package gets what it is given")
	}
	return list
}

func (g *grEnv) hooks() {
	sigT := g.c.std("os", "Signal").Type()
	run := func(name string, list *ai.Term, plain bool) *ai.Term {
		var ps []*types.Var
		if !plain {
			ps = append(ps, types.NewVar(token.NoPos, nil, "", sigT))
		}
		f := ai.Sym("hook", types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), nil, false))
		return g.registration("C33", name, []*ai.Term{f}, list, func(o ai.Outcome, v *ai.Term) string {
			if v == f {
				return ""
			}
			if v.Op != "clo" && v.Op != "fn" {
				return fmt.Sprintf("the element added is %s, not the hook", v)
			}
			sig := ai.Sym("sig", sigT)
			s := o.St.Copy()
			s.ClearTrace()
			for _, r := range g.m.ExecFun(v, []*ai.Term{sig}, s) {
				n := 0
				flat(r.St.Trace(), func(e *ai.Event, in bool) {
					if e.Kind == "dyn" && e.Args[0] == f && !in && (plain || len(e.Args) > 1 && e.Args[1] == sig) {
						n++
					} else if e.Kind == "dyn" || e.Kind == "go" {
						n += 100
					}
				})
				if r.Kind != ai.Ret || n != 1 {
					return "the function added does not just call the hook once"
				}
			}
			return ""
		})
	}
	g.pre = run("PreHookWithSignal", nil, false)
	g.post = run("PostHookWithSignal", nil, false)
	run("PreHook", g.pre, true)
	run("PostHook", g.post, true)
	g.ck("C33", g.pre != g.post, g.c.fn(grPath, "PostHookWithSignal").Pos(), "register", "PostHookWithSignal", "pre-hooks and post-hooks go into the same list")
}

func (g *grEnv) listeners() {
	lT := g.c.named(lsPath, "T")
	fn := g.c.fn(grPath, "WrapListener")
	l := ai.Sym("l", fn.Params[0].Type())
	wrapped := func(o ai.Outcome, v *ai.Term) string {
		r := o.Vals[0]
		if r.Op == "ifc" {
			r = r.Args[0]
		}
		own := ai.TA(ptr(lT), l)
		if r != v && !(r == l && v == own) {
			return fmt.Sprintf("the listener registered, %s, is not the one returned, %s", v, o.Vals[0])
		}
		is := o.St.Decide(ai.IsT(ptr(lT), l))
		switch {
		case v == own && is == 1:
			return ""
		case v == own:
			return "a listener that is not managed by package listener is registered as if it were"
		}
		for _, e := range o.St.Trace() {
			if e.Kind == "call" && e.Name == g.lp+".Wrap" && len(e.Res) == 1 && e.Res[0] == v {
				if is != -1 {
					return "a listener that may be wrapped already is wrapped again"
				}
				dl, _ := g.c.pkg(lsPath).Types.Scope().Lookup("Deadline").(*types.Const)
				if e.Args[0] != l || dl == nil || !e.Args[1].IsConst() || e.Args[1].C.ExactString() != dl.Val().ExactString() {
					return fmt.Sprintf("it wraps %s in mode %s", e.Args[0], e.Args[1])
				}
				return ""
			}
		}
		return fmt.Sprintf("what is registered, %s, is neither the listener given nor a wrapper of it", v)
	}
	g.lst = g.registration("C33C36", "WrapListener", []*ai.Term{l}, nil, wrapped)
}

func (g *grEnv) waiters() {
	fn := g.c.fn(grPath, "Wait")
	g.c.entry(fn)
	outs := g.m.Exec(fn, nil, ai.NewState())
	for _, o := range outs {
		if o.Kind != ai.Ret {
			continue
		}
		var ch *ai.Term
		for _, e := range o.St.Trace() {
			if e.Kind == "recv" {
				ch = e.Args[0]
			}
		}
		if !g.ck("C33", ch != nil, fn.Pos(), "wait", "Wait", "it can return without receiving from the channel that the shutdown closes [%s]", facts(o.St)) {
			continue
		}
		g.ck("C33", g.wait == nil || g.wait == ch, fn.Pos(), "wait", "Wait", "it may wait for different channels")
		g.wait = ch
	}
	if g.wait == nil {
		g.c.must(fn.Pos(), "anchor", "Wait", "no path waits for a channel")
	}
}

// closingFlag finds the variable that Serve consults.
func (g *grEnv) unit(name string, sig *ai.Term, force int, outs []ai.Outcome, pos token.Pos) {
	g.units = append(g.units, &grUnit{name: name, sig: sig, force: force, outs: outs, pos: pos})
}

// trips reports whether the loop runs once for every element of a list of
// length n.
func trips(end *ai.State, L *ai.LoopNode, n *ai.Term) bool {
	for _, p := range L.Phis {
		if p.Step == nil {
			continue
		}
		d, _ := p.Step.Term().Int()
		for _, off := range []int64{0, 1} {
			i := ai.Add(p.Sym, ai.Int(off))
			f := ai.Add(p.Init, ai.Int(off))
			if d == 1 && end.Decide(ai.Eq(f, ai.Int(0))) == 1 && end.Decide(ai.Lt(i, n)) == -1 {
				return true
			}
			if d == -1 && end.Decide(ai.Eq(f, ai.Sub(n, ai.Int(1)))) == 1 && end.Decide(ai.Le(ai.Int(0), i)) == -1 {
				return true
			}
		}
	}
	return false
}

func (g *grEnv) ofList(X, list *ai.Term) bool {
	return X != nil && X.Op == "ld" && X.Args[0] == list
}

// hookLoop checks a loop that calls hooks.
func (g *grEnv) hookLoop(u *grUnit, e *ai.Event, list *ai.Term, end *ai.State, what string) {
	for _, it := range e.Loop.Iters {
		var calls []*ai.Event
		for _, x := range it.Trace.Events() {
			if x.Kind == "dyn" && x.Args[0].Mentions(list) {
				calls = append(calls, x)
			}
			if x.Kind == "loop" || x.Kind == "go" {
				flat([]*ai.Event{x}, func(y *ai.Event, _ bool) {
					for _, a := range y.Args {
						if a.Mentions(list) {
							g.ck("C33", false, y.Pos, "hooks", u.name, "a %s is not called from the one goroutine that runs the hooks in order", what)
						}
					}
				})
			}
		}
		if !g.ck("C33", len(calls) == 1, e.Pos, "hooks", u.name, "an iteration of the loop over the %ss calls %d hooks, not one", what, len(calls)) {
			continue
		}
		x := calls[0]
		X, all, lp := overList(g.m, end, e.Loop, x.Args[0])
		g.ck("C33", g.ofList(X, list) && all, x.Pos, "hooks", u.name, "the loop does not call every %s of the list", what)
		if lp != nil {
			d, _ := lp.Step.Term().Int()
			g.ck("C33", d == 1, x.Pos, "hooks", u.name, "%ss are not called in the order in which they were added", what)
		}
		g.ck("C33", len(x.Args) == 2 && (x.Args[1] == u.sig || u.sig.IsNil() && isNil(x.St, x.Args[1]) == 1), x.Pos, "hooks", u.name, "a %s gets %s, not the signal that caused the shutdown (%s)", what, x.Args[len(x.Args)-1], u.sig)
	}
}

func (g *grEnv) emptyList(st *ai.State, addr *ai.Term) bool {
	t := ai.Pointee(addr)
	v := g.m.Load(st.Copy(), addr, t)
	if st.Copy().Decide(ai.Le(ai.Len(v), ai.Int(0))) == 1 {
		return true
	}
	// a value read earlier on
	found := false
	st.Literals(func(t *ai.Term, _ bool) {
		t.Subterms(func(u *ai.Term) {
			if u.Op == "ld" && u.Args[0] == addr && !found {
				found = st.Copy().Decide(ai.Le(ai.Len(u), ai.Int(0))) == 1
			}
		})
	})
	return found
}

// grOps is what one thread does with one listener.
type grOp struct {
	op string // Close Drain DrainAll done send
	l  *ai.Term
	w  *ai.Term
	ev *ai.Event
}

func (g *grEnv) ops(evs []*ai.Event) (out []grOp) {
	for _, e := range evs {
		if op, l := g.lop(e); op != "" && e.Kind == "call" {
			out = append(out, grOp{op, l, nil, e})
		}
		if e.Kind == "wg" && e.Name == "Done" {
			out = append(out, grOp{"done", nil, e.Args[0], e})
		}
		if e.Kind == "send" || e.Kind == "close" {
			out = append(out, grOp{"send", nil, e.Args[0], e})
		}
		if e.Kind == "loop" {
			flat([]*ai.Event{e}, func(x *ai.Event, _ bool) {
				if op, l := g.lop(x); op != "" {
					out = append(out, grOp{"in a loop: " + op, l, nil, x})
				}
			})
		}
	}
	return
}

// scan turns a path into marks.
func (g *grEnv) scan(u *grUnit, o ai.Outcome) []grMark {
	var marks []grMark
	end := o.St
	add := func(k string, e *ai.Event) *grMark {
		marks = append(marks, grMark{kind: k, ev: e, locks: e.St.Locks})
		return &marks[len(marks)-1]
	}
	type pending struct {
		force bool
		n     *ai.Term // how many are counted
		list  *ai.Term // the list
		w     *ai.Term
		ch    bool
	}
	var pend []pending
	adds := map[*ai.Term]*ai.Term{}
	closedAll := false
	for _, e := range o.St.Trace() {
		switch e.Kind {
		case "once":
			add("once", e).once = e.Args[0]
		case "onceend":
			add("onceend", e).once = e.Args[0]
		case "onceskip":
			add("skip", e).once = e.Args[0]
		case "oncedeadlock":
			g.ck("C33C34", false, e.Pos, "phase", u.name, "a once is entered again inside its own function: the shutdown never ends")
		case "atomic":
			if e.Name == "Store" && g.closing != nil && e.Args[0] == g.closing {
				ok := e.St.Decide(ai.Eq(e.Args[1], ai.Int(0))) == -1
				if b, isB := e.Args[1].Bool(); isB {
					ok = b
				}
				g.ck("C35", ok, e.Pos, "closing", u.name, "the flag that marks the shutdown as begun is set to %s", e.Args[1])
				add("begin", e)
			}
		case "store":
			if g.closing != nil && e.Args[0] == g.closing {
				add("begin", e)
			}
		case "dyn":
			for i, l := range []*ai.Term{g.pre, g.post} {
				if e.Args[0].Mentions(l) {
					g.ck("C33", false, e.Pos, "hooks", u.name, "a %s is called outside of a loop over the list", []string{"pre-hook", "post-hook"}[i])
				}
			}
		case "close":
			if e.Args[0] == g.wait {
				add("release", e)
			}
		case "send":
			if e.Args[0] == g.wait {
				g.ck("C33", false, e.Pos, "release", u.name, "a value is sent to the channel Wait waits for: only one waiter is released")
			}
		case "wg":
			switch e.Name {
			case "Add":
				if adds[e.Args[0]] != nil {
					adds[e.Args[0]] = ai.Add(adds[e.Args[0]], e.Args[1])
				} else {
					adds[e.Args[0]] = e.Args[1]
				}
			case "Wait":
				mk := add("wait", e)
				var rest []pending
				for _, p := range pend {
					if p.w != e.Args[0] {
						rest = append(rest, p)
						continue
					}
					n := adds[p.w]
					if p.n != nil {
						if n != nil {
							n = ai.Add(n, p.n)
						} else {
							n = p.n
						}
					}
					ok := n != nil && end.Decide(ai.Eq(n, ai.Len(p.list))) == 1
					g.ck("C33", ok, e.Pos, "drained", u.name, "the group waited for counts %s, not the number of listeners", n)
					mk.force = p.force
					add("ldone", e).force = p.force
				}
				pend = rest
			}
		case "go":
			if fo, ok := g.m.Spawn(e); ok {
				for _, r := range fo {
					if len(g.ops(r.St.Trace())) > 0 {
						g.ck("C33", false, e.Pos, "closing", u.name, "a goroutine that closes or drains listeners is started outside of a loop over the listeners")
					}
				}
			}
		case "call":
			if op, _ := g.lop(e); op != "" {
				add("lstart", e).force = op == "DrainAll"
				g.ck("C33", false, e.Pos, "closing", u.name, "%s of a single listener is called", op)
			}
		case "loop":
			// what kind of loop?
			pre, post := false, false
			flat([]*ai.Event{e}, func(x *ai.Event, _ bool) {
				switch {
				case x.Kind == "dyn" && x.Args[0].Mentions(g.pre):
					pre = true
				case x.Kind == "dyn" && x.Args[0].Mentions(g.post):
					post = true
				case x.Kind == "close" && x.Args[0] == g.wait, x.Kind == "send" && x.Args[0] == g.wait:
					g.ck("C33", false, x.Pos, "release", u.name, "waiters are released in a loop")
				case x.Kind == "once" || x.Kind == "onceskip":
					g.ck("C33", false, x.Pos, "phase", u.name, "a phase runs in a loop")
				}
			})
			if pre {
				g.hookLoop(u, e, g.pre, end, "pre-hook")
				add("pre", e)
			}
			if post {
				g.hookLoop(u, e, g.post, end, "post-hook")
				add("post", e)
			}
			// receiving from a channel once per listener
			if len(pend) > 0 {
				var rest []pending
				for _, p := range pend {
					ok := p.ch
					for _, it := range e.Loop.Iters {
						n := 0
						for _, x := range it.Trace.Events() {
							if x.Kind == "recv" && x.Args[0] == p.w {
								n++
							}
						}
						ok = ok && n == 1
					}
					if ok && trips(end, e.Loop, ai.Len(p.list)) {
						mk := add("wait", e)
						mk.force = p.force
						add("ldone", e).force = p.force
						continue
					}
					rest = append(rest, p)
				}
				pend = rest
			}
			// listeners
			forced, plain, closes, inline, any := false, false, true, true, false
			var list, done, cnt *ai.Term
			isCh := false
			cover := true
			skips, drains, nodrain := 0, 0, 0
			for _, it := range e.Loop.Iters {
				itClosed := closedAll
				itDrain, itClose := 0, 0
				var itDone, itCnt *ai.Term
				used := func(l *ai.Term) {
					X, all, _ := overList(g.m, end, e.Loop, l)
					if !g.ofList(X, g.lst) || !all {
						cover = false
					} else {
						list = X
					}
				}
				drain := func(op string, l *ai.Term, pos token.Pos, closed bool) {
					itDrain++
					if op == "DrainAll" {
						forced = true
					} else {
						plain = true
					}
					g.ck("C33", closed, pos, "closing", u.name, "%s is called on a listener that has not been closed", op)
					used(l)
				}
				for _, x := range it.Trace.Events() {
					op, l := g.lop(x)
					switch {
					case x.Kind == "call" && op == "Close":
						any = true
						itClosed = true
						itClose++
						used(l)
					case x.Kind == "call" && (op == "Drain" || op == "DrainAll"):
						any = true
						drain(op, l, x.Pos, itClosed)
					case x.Kind == "wg" && x.Name == "Add":
						if n, ok := x.Args[1].Int(); ok {
							n0, _ := int64(0), 0
							if itCnt != nil {
								n0, _ = itCnt.Int()
							}
							itCnt = ai.Int(n + n0)
						}
					case x.Kind == "go" && op != "":
						any = true
						inline = false
						if op == "Drain" || op == "DrainAll" {
							drain(op, l, x.Pos, itClosed)
							g.ck("C33", false, x.Pos, "drained", u.name, "nobody waits for %s to finish", op)
						}
					case x.Kind == "go":
						fo, ok := g.m.Spawn(x)
						if !ok {
							g.ck("C33C34C35", false, x.Pos, "undecided", u.name, "what the goroutine does is not known")
							continue
						}
						first, idle := true, false
						for _, r := range fo {
							ops := g.ops(r.St.Trace())
							n := 0
							for _, p := range ops {
								if p.l != nil {
									n++
								}
							}
							if n == 0 {
								idle = true
								continue
							}
							g.ck("C33", r.Kind == ai.Ret, x.Pos, "closing", u.name, "the goroutine can end in %s", r.Kind)
							any = true
							inline = false
							cl := itClosed
							drained := false
							var fin *ai.Term
							for _, p := range ops {
								switch {
								case p.op == "Close":
									cl = true
									if first {
										itClose++
									}
									used(p.l)
								case p.op == "Drain" || p.op == "DrainAll":
									if drained {
										itDrain--
									}
									if !first {
										itDrain--
									}
									drain(p.op, p.l, p.ev.Pos, cl)
									drained = true
								case p.op == "done" || p.op == "send":
									if g.ck("C33", drained || fin != nil || p.op == "send", p.ev.Pos, "drained", u.name, "the goroutine reports that it is done before its listener is drained") && fin == nil && drained {
										fin = p.w
										isCh = p.op == "send"
									}
								case p.l != nil:
									g.ck("C33", false, p.ev.Pos, "closing", u.name, "%s in the goroutine of a listener", p.op)
								}
							}
							if x.Name == "wg" && x.Call != nil && drained {
								fin = x.Call.Args[0]
								itCnt = ai.Int(1)
							}
							if drained {
								g.ck("C33", fin != nil, x.Pos, "drained", u.name, "nobody learns when the goroutine has drained its listener [%s]", facts(r.St))
								itDone = fin
							}
							first = false
						}
						g.ck("C33", first || !idle, x.Pos, "closing", u.name, "a path of the goroutine does nothing with the listener")
					}
				}
				if itClose == 0 && itDrain == 0 {
					skips++
				}
				if itDrain > 0 {
					drains++
				} else {
					nodrain++
				}
				closes = closes && itClose > 0
				if itDone != nil {
					done = itDone
				}
				if itCnt != nil {
					cnt = itCnt
				}
			}
			if !any {
				break
			}
			if skips > 0 || drains > 0 && nodrain > 0 {
				cover = false // not in every iteration
			}
			g.ck("C33", cover && list != nil, e.Pos, "closing", u.name, "the loop does not close or drain every registered listener")
			add("lstart", e).force = forced && !plain
			if closes && inline && cover {
				closedAll = true
			}
			if !forced && !plain {
				if !closes || !inline {
					g.ck("C33", false, e.Pos, "closing", u.name, "listeners are closed in goroutines that nobody waits for")
				}
				break
			}
			g.ck("C34", u.force != 1 || !plain, e.Pos, "forced", u.name, "a forced shutdown drains a listener without closing its busy connections")
			g.ck("C34", u.force != -1 || !forced, e.Pos, "plain", u.name, "a graceful shutdown closes busy connections")
			g.ck("C34", !(forced && plain), e.Pos, "forced", u.name, "listeners are not all drained in the same way")
			if inline {
				mk := add("wait", e)
				mk.force = forced
				flat([]*ai.Event{e}, func(x *ai.Event, _ bool) {
					if op, _ := g.lop(x); op == "Drain" {
						mk.locks = x.St.Locks
					}
				})
				add("ldone", e).force = forced
				break
			}
			if done != nil && list != nil {
				var n *ai.Term
				if cnt != nil {
					if k, _ := cnt.Int(); k == 1 {
						n = ai.Len(list)
					}
				}
				pend = append(pend, pending{force: forced, n: n, list: list, w: done, ch: isCh})
			}
		}
	}
	return marks
}

func runShutdown(c *Ctx) {
	g := &grEnv{c: c, m: c.grMachine(), lp: mod + "/" + lsPath}
	g.hooks()
	g.listeners()
	g.waiters()
	g.serveErrors()
	for _, x := range []struct {
		n string
		f int
	}{{"Shutdown", -1}, {"ShutdownNow", 1}} {
		fn := c.fn(grPath, x.n)
		c.entry(fn)
		g.unit(x.n, ai.Nil(), x.f, g.m.Exec(fn, nil, ai.NewState()), fn.Pos())
	}
	g.signals()
	for _, u := range g.units {
		for _, o := range u.outs {
			u.marks = append(u.marks, g.scan(u, o))
		}
	}
	g.bodies()
	for _, u := range g.units {
		for i, o := range u.outs {
			g.order(u, o, u.marks[i])
		}
	}
	g.problems()
}

func (g *grEnv) problems() {
	if strings.Contains("C33C34C35", g.c.Prop) {
		g.c.problems(g.m, "the shutdown sequence")
	}
}

// bodies finds out what the function of each once performs.
func (g *grEnv) bodies() {
	g.does = map[*ai.Term]map[string]bool{}
	g.waits = map[*ai.Term]bool{}
	g.plainL = map[int]bool{}
	for _, u := range g.units {
		for i := range u.outs {
			ms := u.marks[i]
			for a, m := range ms {
				if m.kind == "wait" && !m.force {
					for l := range m.locks {
						g.plainL[l] = true
					}
				}
				if m.kind != "once" {
					continue
				}
				done := map[string]bool{}
				b := a + 1
				for ; b < len(ms) && !(ms[b].kind == "onceend" && ms[b].once == m.once); b++ {
					switch x := ms[b]; x.kind {
					case "pre", "begin", "post", "release":
						done[x.kind] = true
					case "ldone":
						done["closing"] = true
						if x.force {
							done["closing all"] = true
						}
					case "wait":
						if !x.force {
							g.waits[m.once] = true
						}
					}
				}
				if b < len(ms) {
					st := ms[b].ev.St
					if g.emptyList(st, g.pre) {
						done["pre"] = true
					}
					if g.emptyList(st, g.post) {
						done["post"] = true
					}
					if g.emptyList(st, g.lst) {
						done["closing"], done["closing all"] = true, true
					}
				}
				if d := g.does[m.once]; d == nil {
					g.does[m.once] = done
					g.onces = append(g.onces, m.once)
				} else {
					for k := range d {
						if !done[k] {
							delete(d, k)
						}
					}
				}
			}
		}
	}
}

// order checks the order of the phases on one path.
func (g *grEnv) order(u *grUnit, o ai.Outcome, ms []grMark) {
	fs := facts(o.St)
	if !g.ck("C33C34", o.Kind == ai.Ret, u.pos, "phase", u.name, "it can end in %s [%s]", o.Kind, fs) {
		return
	}
	done := map[string]bool{}
	count := map[string]int{}
	allStarted := false
	var inside []*ai.Term
	pos := func(m grMark) token.Pos { return m.ev.Pos }
	need := func(m grMark, phase, before string) {
		ok := done[phase]
		if !ok && phase == "pre" {
			ok = g.emptyList(m.ev.St, g.pre)
		}
		if !ok && phase == "post" {
			ok = g.emptyList(m.ev.St, g.post)
		}
		if !ok && phase == "closing" {
			ok = g.emptyList(m.ev.St, g.lst)
		}
		p := "C33"
		names := map[string]string{"pre": "the pre-hooks have run", "closing": "all listeners have been closed and drained", "post": "the post-hooks have run"}
		g.ck(p, ok, pos(m), "phase", u.name, "%s although it is not certain that %s [%s]", before, names[phase], fs)
	}
	once := func(m grMark, phase string) {
		count[phase]++
		g.ck("C33", count[phase] == 1, pos(m), "once", u.name, "phase %q runs %d times on one path", phase, count[phase])
		ok := false
		for _, x := range inside {
			if g.does[x][phase] {
				ok = true
			}
		}
		g.ck("C33", ok, pos(m), "once", u.name, "phase %q is not guarded by a sync.Once that is used for it everywhere: two shutdowns can both run it", phase)
	}
	for _, m := range ms {
		switch m.kind {
		case "once", "skip":
			if u.force == 1 && !allStarted {
				g.ck("C34", !g.waits[m.once], pos(m), "unblocked", u.name, "a forced shutdown waits for %s, whose function may be waiting for connections of a graceful shutdown to finish, before it closes busy connections", m.once)
			}
			if m.kind == "once" {
				inside = append(inside, m.once)
				break
			}
			d := g.does[m.once]
			if d["pre"] {
				done["pre"] = true
			}
			if d["closing"] {
				need(m, "pre", "listeners are closed")
				done["closing"] = true
				if u.force == 1 {
					g.ck("C34", d["closing all"], pos(m), "forced", u.name, "a forced shutdown can end without closing busy connections: %s may have been used up by a graceful one", m.once)
					allStarted = allStarted || d["closing all"]
				}
			}
			if d["begin"] {
				done["begin"] = true
			}
			if d["post"] {
				need(m, "closing", "the post-hooks are called")
				done["post"] = true
			}
			if d["release"] {
				need(m, "post", "waiters are released")
				done["release"] = true
			}
		case "onceend":
			if len(inside) > 0 {
				inside = inside[:len(inside)-1]
			}
		case "pre":
			once(m, "pre")
			done["pre"] = true
		case "begin":
			done["begin"] = true
		case "lstart":
			need(m, "pre", "listeners are closed")
			g.ck("C35", done["begin"], pos(m), "closing", u.name, "listeners are closed before the shutdown is marked as begun [%s]", fs)
			if m.force {
				allStarted = true
			}
		case "wait":
			if u.force == 1 && !m.force {
				g.ck("C34", false, pos(m), "unblocked", u.name, "a forced shutdown waits for connections to finish by themselves")
			}
		case "ldone":
			done["closing"] = true
		case "post":
			need(m, "closing", "the post-hooks are called")
			need(m, "pre", "the post-hooks are called")
			once(m, "post")
			done["post"] = true
		case "release":
			need(m, "post", "waiters are released")
			need(m, "closing", "waiters are released")
			once(m, "release")
			done["release"] = true
		}
		// locks
		if u.force == 1 && !allStarted {
			for l := range m.locks {
				if g.plainL[l] {
					g.ck("C34", false, pos(m), "unblocked", u.name, "a forced shutdown needs %s, which a graceful one holds while it waits for connections to finish", ai.TermByID(l))
				}
			}
		}
	}
	last := grMark{ev: &ai.Event{Pos: u.pos, St: o.St}}
	need(last, "pre", "the shutdown ends")
	need(last, "closing", "the shutdown ends")
	need(last, "post", "the shutdown ends")
	g.ck("C33", done["release"], u.pos, "phase", u.name, "the shutdown ends without waiters being released [%s]", fs)
	if u.force == 1 {
		g.ck("C34", allStarted || g.emptyList(o.St, g.lst), u.pos, "forced", u.name, "a path of a forced shutdown does not close busy connections [%s]", fs)
	}
}

const netClosed = "use of closed network connection"

// peaceful decides whether err is known to be (1) or not to be (-1) the error
// of accepting from a closed listener.
func (g *grEnv) peaceful(st *ai.State, r *ai.Term) int {
	t := g.c.std("net", "OpError").Type()
	switch st.Decide(ai.IsT(ptr(t), r)) {
	case -1:
		return -1
	case 0:
		return 0
	}
	oe := ai.TA(ptr(t), r)
	opA, _ := g.c.fa(oe, t, "Op")
	errA, _ := g.c.fa(oe, t, "Err")
	of := func(x, a *ai.Term) bool { return x.Op == "ld" && x.Args[0] == a }
	op, text := 0, 0
	accept, ex := 0, 0
	st.Literals(func(l *ai.Term, val bool) {
		if !isEq(l) {
			return
		}
		for i := 0; i < 2; i++ {
			x, y := l.Args[i], l.Args[1-i]
			k, ok := y.Str()
			if !ok {
				continue
			}
			v := -1
			if val {
				v = 1
			}
			switch {
			case of(x, opA) && k == "accept":
				accept = v
			case of(x, opA) && k == "AcceptEx":
				ex = v
			case of(x, opA) && val:
				accept, ex = -1, -1
			case isApp(x, "(error).Error") && of(x.Args[0], errA) && k == netClosed:
				text = v
			}
		}
	})
	switch {
	case accept == 1 || ex == 1:
		op = 1
	case accept == -1: // AcceptEx is what old versions of Go called it
		op = -1
	}
	switch {
	case op == 1 && text == 1:
		return 1
	case op == -1 || text == -1:
		return -1
	}
	return 0
}

func isEq(t *ai.Term) bool {
	return t.Op == "eq" && len(t.Args) == 2 || t.Op == "app" && t.S == "eq" && len(t.Args) == 2
}

// serveErrors checks what the functions that serve return (C35), and finds the
// flag that says that the shutdown has begun.
func (g *grEnv) serveErrors() {
	c := g.c
	type entry struct {
		name string
		fn   *ssa.Function
	}
	var es []entry
	sT := ptr(c.named(grPath, "Server"))
	for _, n := range []string{"Serve", "ListenAndServe", "ListenAndServeTLS"} {
		es = append(es, entry{"(*Server)." + n, c.meth(sT, n)}, entry{n, c.fn(grPath, n)})
	}
	for _, e := range es {
		c.entry(e.fn)
		var as []*ai.Term
		st := ai.NewState()
		for i, p := range e.fn.Params {
			a := ai.Sym(p.Name(), p.Type())
			as = append(as, a)
			if i == 0 && strings.HasPrefix(e.name, "(") {
				st.Assume(ai.Eq(a, ai.Nil()), false)
			}
		}
		served := 0
		for _, o := range g.m.Exec(e.fn, as, st) {
			var r *ai.Term
			var pos token.Pos
			loads := map[*ai.Term]bool{}
			stale := map[*ai.Term]bool{}
			for _, x := range o.St.Trace() {
				if x.Kind == "call" && x.Name == "(*net/http.Server).Serve" {
					r, pos = x.Res[0], x.Pos
				}
				if x.Kind == "atomic" && x.Name == "Load" {
					if r == nil {
						stale[x.Res[0]] = true
					} else {
						loads[x.Res[0]] = true
					}
				}
			}
			if r == nil || o.Kind != ai.Ret {
				continue
			}
			served++
			// the flag
			var flag *ai.Term
			begun := 0
			o.St.Literals(func(l *ai.Term, val bool) {
				l.Subterms(func(u *ai.Term) {
					if u.Op != "ld" || u.Args[0].Root().Op != "glob" || u.Args[0].Op == "ia" || stale[u] && !loads[u] {
						return
					}
					if u.Typ == nil {
						return
					}
					b, ok := u.Typ.Underlying().(*types.Basic)
					if !ok || b.Info()&(types.IsInteger|types.IsBoolean) == 0 {
						return
					}
					flag = u.Args[0]
					if b.Info()&types.IsBoolean != 0 {
						begun = o.St.Decide(u)
					} else {
						begun = -o.St.Decide(ai.Eq(u, ai.Int(0)))
						if ks := g.flagValues(flag); begun == 0 && len(ks) > 0 {
							begun = -1
							for _, k := range ks {
								if o.St.Decide(ai.Eq(u, ai.Int(k))) != -1 {
									begun = 0
								}
							}
						}
					}
				})
			})
			v := o.Vals[len(o.Vals)-1]
			p := g.peaceful(o.St, r)
			switch {
			case isNil(o.St, r) == 1:
				g.ck("C35", isNil(o.St, v) == 1, pos, "filter", e.name, "it returns %s although serving ended without an error", v)
			case v == r:
				g.ck("C35", begun == -1 || p == -1, pos, "filter", e.name, "the error of a listener closed by the shutdown may be reported [%s]", facts(o.St))
			case isNil(o.St, v) == 1:
				g.ck("C35", begun == 1, pos, "filter", e.name, "an error is swallowed although it is not known that the shutdown has begun (as read after serving has ended) [%s]", facts(o.St))
				g.ck("C35", p == 1, pos, "filter", e.name, "an error is swallowed that is not known to be that of accepting from a closed listener [%s]", facts(o.St))
			default:
				g.ck("C35", false, pos, "filter", e.name, "it returns %s, not the error of serving [%s]", v, facts(o.St))
			}
			if flag != nil {
				if flag.Op == "fa" && !hasField(flag) {
					flag = flag.Args[0]
				}
				g.ck("C35", g.closing == nil || g.closing == flag, pos, "closing", e.name, "the error depends on both %s and %s", g.closing, flag)
				if g.closing == nil {
					g.closing = flag
				}
			}
		}
		g.ck("C35", served > 0, e.fn.Pos(), "filter", e.name, "no path serves")
	}
	if g.closing == nil {
		g.ck("C35", false, token.NoPos, "closing", "Serve", "what Serve reports does not depend on whether the shutdown has begun")
		return
	}
	// nothing takes the mark back
	g.flagStores(g.closing, func(in ssa.Instruction, k *ssa.Const) {
		zero := k != nil && (k.Value == nil || k.Value.String() == "0" || k.Value.String() == "false")
		g.ck("C35", !zero, in.Pos(), "closing", short(in.Parent().String()), "the mark that the shutdown has begun is taken back")
	})
}

// flagStores finds what is stored in a variable of the package after its
// initialisation.
func (g *grEnv) flagStores(flag *ai.Term, f func(in ssa.Instruction, k *ssa.Const)) {
	for fn := range ai.AllFunctions(g.c.P) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var val ssa.Value
				switch x := in.(type) {
				case *ssa.Store:
					if gl, ok := x.Addr.(*ssa.Global); ok && ai.GlobT(gl) == flag && !isInit(fn) {
						val = x.Val
					}
				case ssa.CallInstruction:
					as := x.Common().Args
					if len(as) < 2 {
						break
					}
					if gl, ok := as[0].(*ssa.Global); ok && ai.GlobT(gl) == flag {
						val = as[len(as)-1]
					}
				}
				if val != nil {
					k, _ := val.(*ssa.Const)
					f(in, k)
				}
			}
		}
	}
}

// flagValues lists the constants other than zero a flag may hold; nil if they
// are not known.
func (g *grEnv) flagValues(flag *ai.Term) (ks []int64) {
	bad := false
	g.flagStores(flag, func(in ssa.Instruction, k *ssa.Const) {
		if k == nil || k.Value == nil {
			bad = true
			return
		}
		ks = append(ks, k.Int64())
	})
	if bad {
		return nil
	}
	return
}

// hasField reports whether a field address names a real field (the content of
// an atomic value is a made up one).
func hasField(a *ai.Term) bool {
	t := ai.Pointee(a.Args[0])
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Struct)
	return ok && a.S != "90" && s.NumFields() > 0 && !isSyncAtomic(t)
}

func isSyncAtomic(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync/atomic"
}

// setting analyses one of the functions that set a duration.
func (g *grEnv) setting(name string) (addr *ai.Term) {
	c := g.c
	fn := c.fn(grPath, name)
	c.entry(fn)
	d := ai.Sym("d", fn.Params[0].Type())
	st := ai.NewState()
	for _, o := range g.m.Exec(fn, []*ai.Term{d}, st) {
		if !g.ck("C34", o.Kind == ai.Ret, fn.Pos(), "settings", name, "it can end in %s [%s]", o.Kind, facts(o.St)) {
			continue
		}
		n := 0
		for _, f := range c.pkgVars(grPath) {
			b, ok := f.typ.Underlying().(*types.Basic)
			if !ok || b.Info()&types.IsInteger == 0 {
				continue
			}
			v := g.m.Load(o.St.Copy(), f.addr, f.typ)
			if v == g.m.Load(st.Copy(), f.addr, f.typ) {
				continue
			}
			n++
			g.ck("C34", addr == nil || addr == f.addr, fn.Pos(), "settings", name, "it changes both %s and %s", addr, f.addr)
			addr = f.addr
			g.ck("C34", o.St.Decide(ai.Le(ai.Int(0), d)) == 1, fn.Pos(), "settings", name, "a setting that may be negative is stored [%s]", facts(o.St))
			g.ck("C34", unconv(v) == d, fn.Pos(), "settings", name, "%s is stored, not the value given [%s]", v, facts(o.St))
		}
		if n == 0 {
			g.ck("C34", o.St.Decide(ai.Lt(d, ai.Int(0))) == 1, fn.Pos(), "settings", name, "a setting is ignored that may be valid [%s]", facts(o.St))
		}
	}
	if addr == nil {
		c.must(fn.Pos(), "anchor", name, "no path changes a setting of the package")
	}
	return addr
}

func (g *grEnv) initFns() (fs []*ssa.Function) {
	p := g.c.pkg(grPath)
	for i := 1; ; i++ {
		fn, ok := p.SSA.Members[fmt.Sprintf("init#%d", i)].(*ssa.Function)
		if !ok {
			return
		}
		fs = append(fs, fn)
	}
}

// notified finds the channel signals are delivered to.
func (g *grEnv) notified(std bool) *ai.Term {
	c := g.c
	var ch *ai.Term
	for _, x := range []struct{ fn, call string }{{"AddSignal", "os/signal.Notify"}, {"HandleSignals", "os/signal.Notify"}, {"ResetSignals", "os/signal.Stop"}} {
		fn := c.fn(grPath, x.fn)
		c.entry(fn)
		var as []*ai.Term
		for _, p := range fn.Params {
			as = append(as, ai.Sym(p.Name(), p.Type()))
		}
		for _, o := range g.m.Exec(fn, as, ai.NewState()) {
			if !g.ck("C34", o.Kind == ai.Ret, fn.Pos(), "signals", x.fn, "it can end in %s [%s]", o.Kind, facts(o.St)) {
				continue
			}
			n := 0
			flat(o.St.Trace(), func(e *ai.Event, in bool) {
				if e.Kind == "call" && strings.HasPrefix(e.Name, "os/signal.") && e.Name != x.call && x.call == "os/signal.Notify" {
					g.ck("C34", false, e.Pos, "signals", x.fn, "it calls %s: signals added before no longer trigger a shutdown", e.Name)
				}
				if e.Kind == "close" || e.Kind == "send" {
					g.ck("C34", false, e.Pos, "signals", x.fn, "it makes the signal loop go on although no signal has come (%s)", e)
				}
				if e.Kind != "call" || e.Name != x.call {
					return
				}
				n++
				g.ck("C34", ch == nil || e.Args[0] == ch, e.Pos, "signals", x.fn, "the channel is %s, elsewhere %s", e.Args[0], ch)
				ch = e.Args[0]
				switch x.fn {
				case "AddSignal":
					g.ck("C34", len(e.Args) == 2 && (e.Args[1] == as[0] || isNil(e.St, e.Args[1]) == 1 && e.St.Decide(ai.Eq(ai.Len(as[0]), ai.Int(0))) == 1), e.Pos, "signals", x.fn, "it asks for the signals %s, not for those given", e.Args[1])
				case "HandleSignals":
					// a list of the package that holds the interrupt signal
					v := e.Args[1]
					ok := false
					var gl *ssa.Global
					for _, f := range c.pkgVars(grPath) {
						if f.addr.Op == "glob" && (v.Op == "ld" && v.Args[0] == f.addr || g.m.GlobalValue(f.addr.X.(*ssa.Global)) == v) {
							gl = f.addr.X.(*ssa.Global)
						}
					}
					if std && g.onlyInit(fn) {
						ok = true // what it is after the initialisation has been looked at
					} else if gl != nil {
						ok = g.alwaysHas(gl)
					} else if els, known := g.m.Elems(e.St.Copy(), v); known {
						for _, el := range els {
							ok = ok || isInterrupt(el)
						}
					}
					g.ck("C34", ok, e.Pos, "signals", x.fn, "it asks for %s, which is not known to include os.Interrupt", v)
				}
			})
			g.ck("C34", n == 1, fn.Pos(), "signals", x.fn, "%s is called %d times, not once [%s]", x.call, n, facts(o.St))
		}
	}
	return ch
}

func isInterrupt(t *ai.Term) bool { return strings.Contains(t.String(), "os.Interrupt") }

// alwaysHas: everything assigned to the variable is a list with os.Interrupt, or
// such a list with more appended.
func (g *grEnv) alwaysHas(gl *ssa.Global) bool {
	var good func(v ssa.Value, d int) bool
	good = func(v ssa.Value, d int) bool {
		if d > 10 {
			return false
		}
		switch v := v.(type) {
		case *ssa.UnOp:
			return v.X == ssa.Value(gl)
		case *ssa.ChangeType:
			return good(v.X, d+1)
		case *ssa.Phi:
			for _, e := range v.Edges {
				if !good(e, d+1) {
					return false
				}
			}
			return true
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				if good(v.Call.Args[0], d+1) {
					return true
				}
				return len(v.Call.Args) > 1 && good(v.Call.Args[1], d+1)
			}
		case *ssa.Slice:
			al, ok := v.X.(*ssa.Alloc)
			if !ok || v.Low != nil || v.High != nil || al.Referrers() == nil {
				return false
			}
			for _, r := range *al.Referrers() {
				ia, ok := r.(*ssa.IndexAddr)
				if !ok || ia.Referrers() == nil {
					continue
				}
				for _, q := range *ia.Referrers() {
					if s, ok := q.(*ssa.Store); ok && s.Addr == ssa.Value(ia) {
						if u, ok := s.Val.(*ssa.UnOp); ok {
							if x, ok := u.X.(*ssa.Global); ok && x.Pkg.Pkg.Path() == "os" && x.Name() == "Interrupt" {
								return true
							}
						}
					}
				}
			}
		}
		return false
	}
	n := 0
	for fn := range ai.AllFunctions(g.c.P) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(gl) {
					if !good(s.Val, 0) {
						return false
					}
					n++
				}
			}
		}
	}
	return n > 0
}

// capacity of a channel made by the package's initialisation.
func (g *grEnv) capacity(ch *ai.Term) (int64, token.Pos, bool) {
	p := g.c.pkg(grPath)
	if ch.Op == "obj" {
		for _, fn := range append([]*ssa.Function{p.SSA.Func("init")}, g.initFns()...) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeChan); ok && strings.Contains(ch.S, g.m.SiteOf(fn, in)+":chan") {
						if k, ok := mc.Size.(*ssa.Const); ok {
							return k.Int64(), in.Pos(), true
						}
						return 0, in.Pos(), false
					}
				}
			}
		}
	}
	return 0, token.NoPos, false
}

// signals analyses the goroutine that reacts to signals (C34) and adds what it
// starts to the shutdowns that are checked.
func (g *grEnv) signals() {
	dkA, toA := g.setting("DoubleKickWindow"), g.setting("Timeout")
	g.ck("C34", dkA != toA, g.c.fn(grPath, "Timeout").Pos(), "settings", "Timeout", "it changes the double-kick window")
	ch := g.notified(g.defaults())
	if ch == nil {
		g.c.must(g.c.fn(grPath, "AddSignal").Pos(), "anchor", "AddSignal", "signals are not delivered to a channel")
	}
	n, pos, ok := g.capacity(ch)
	g.ck("C34", ok && n >= 1, pos, "signals", "the signal channel", "it is not buffered: a signal that arrives while the loop is busy is lost")

	var node *ai.LoopNode
	var loopFn *ssa.Function
	loops := 0
	for _, fn := range g.initFns() {
		for _, o := range g.m.Exec(fn, nil, ai.NewState()) {
			k := 0
			flat(o.St.Trace(), func(e *ai.Event, in bool) {
				if e.Kind != "go" {
					return
				}
				var nd *ai.LoopNode
				g.m.OnLoop = func(f *ssa.Function, _ *ai.State, L *ai.LoopNode) {
					for _, it := range L.Iters {
						for _, x := range it.Trace.Events() {
							if x.Kind == "recv" && x.Args[0] == ch {
								nd = L
								loopFn = f
							}
						}
					}
				}
				outs, ok := g.m.Spawn(e)
				g.m.OnLoop = nil
				if !ok {
					g.ck("C34", false, e.Pos, "undecided", "init", "what the goroutine started here does is not known")
				}
				if nd == nil {
					return
				}
				g.c.entry(loopFn)
				node = nd
				k++
				for _, r := range outs {
					closed := false
					for _, x := range r.St.Trace() {
						if x.Kind == "recv" && x.Args[0] == ch && len(x.Res) == 2 && r.St.Decide(x.Res[1]) == -1 {
							closed = true
						}
					}
					g.ck("C34", closed, e.Pos, "signals", "init", "the goroutine that reacts to signals can end (%s) [%s]", r.Kind, facts(r.St))
				}
			})
			if k > loops {
				loops = k
			}
			if o.Kind == ai.Ret && k != loops {
				g.ck("C34", false, fn.Pos(), "signals", "init", "the goroutine that reacts to signals is not started on every path [%s]", facts(o.St))
			}
		}
	}
	if node == nil {
		g.ck("C34", false, token.NoPos, "signals", "init", "no goroutine receives from the channel that signals are delivered to")
		return
	}
	g.ck("C34", loops == 1, loopFn.Pos(), "signals", "init", "%d goroutines take signals from the channel: each sees only some of them", loops)
	name := loopFn.Name()
	for _, it := range node.Iters {
		g.iteration(name, node, it, ch, dkA, toA)
	}
	g.ck("C34", len(node.Iters) > 0, node.Pos, "signals", name, "the loop never reacts to a second signal")
}

// kick is a shutdown started by the signal loop.
type kick struct {
	delay *ai.Term
	outs  []ai.Outcome
	ev    *ai.Event
}

func (g *grEnv) iteration(name string, L *ai.LoopNode, it ai.LoopIter, ch, dkA, toA *ai.Term) {
	evs := it.Trace.Events()
	var sig *ai.Term
	recv := 0
	var kicks []kick
	var marks []grMark
	st := it.St
	values := func(a *ai.Term) (vs []*ai.Term) {
		seen := map[*ai.Term]bool{}
		for _, e := range append(evs[:len(evs):len(evs)], &ai.Event{St: st}) {
			if v := g.m.Load(e.St.Copy(), a, ai.Pointee(a)); !seen[v] {
				seen[v] = true
				vs = append(vs, v)
			}
		}
		return
	}
	for _, e := range evs {
		switch e.Kind {
		case "recv":
			if e.Args[0] == ch {
				recv++
				sig = e.Res[0]
				continue
			}
			g.ck("C34", false, e.Pos, "unblocked", name, "the loop that reacts to signals waits for something else than a signal")
		case "wg", "once", "onceskip":
			if e.Kind != "wg" || e.Name == "Wait" {
				g.ck("C34", false, e.Pos, "unblocked", name, "the loop that reacts to signals runs the shutdown itself: it does not see a second signal while connections finish")
			}
		case "go":
			outs, ok := g.m.Spawn(e)
			if !g.ck("C34", ok, e.Pos, "undecided", name, "what the goroutine does is not known") {
				continue
			}
			kicks = append(kicks, kick{g.delay(outs), outs, e})
		case "call":
			if e.Name == "time.AfterFunc" {
				s := e.St.Copy()
				s.ClearTrace()
				s.Locks = map[int]int{}
				if f := e.Args[1]; f.Op == "clo" || f.Op == "fn" {
					kicks = append(kicks, kick{e.Args[0], g.m.ExecFun(f, nil, s), e})
				}
			}
			if e.Name == "time.Sleep" {
				g.ck("C34", false, e.Pos, "unblocked", name, "the loop that reacts to signals sleeps")
			}
		case "lock":
			marks = append(marks, grMark{ev: e})
		case "loop":
			g.ck("C34", false, e.Pos, "undecided", name, "a loop inside the signal loop")
		}
	}
	_ = marks
	if !g.ck("C34", recv == 1, L.Pos, "signals", name, "%d signals are taken per iteration, not one [%s]", recv, facts(st)) {
		return
	}
	// time since the signal before
	decide := func(s *ai.State) (force, timeout int) {
		force, timeout = 0, 0
		s = s.Copy()
		var diffs []*ai.Term
		for _, f := range g.literals(s) {
			f.Subterms(func(u *ai.Term) {
				if isApp(u, "timediff") {
					diffs = append(diffs, u)
				}
			})
		}
		for _, v := range append(values(dkA), values(toA)...) {
			s.Assume(ai.Le(ai.Int(0), v), true)
		}
		for _, d := range diffs {
			x := d
			a, b := d.Args[0], d.Args[1]
			if isNow(b) && !isNow(a) {
				a, b = b, a
				x = ai.Sub(ai.Int(0), d)
			}
			// a is taken in this iteration, b is the time of the signal before
			if !isNow(a) || !g.previous(L, b) {
				continue
			}
			s.Assume(ai.Le(ai.Int(0), x), true)
			for _, dk := range values(dkA) {
				if s.Decide(ai.Eq(dk, ai.Int(0))) == -1 && s.Decide(ai.Lt(x, dk)) == 1 {
					force = 1
				}
				if s.Decide(ai.Lt(x, dk)) == -1 {
					force = -1
				}
			}
		}
		for _, dk := range values(dkA) {
			if s.Decide(ai.Le(dk, ai.Int(0))) == 1 {
				force = -1
			}
		}
		for _, t := range values(toA) {
			switch s.Decide(ai.Eq(t, ai.Int(0))) {
			case 1:
				timeout = -1
			case -1:
				timeout = 1
			}
		}
		return
	}
	now := 0
	delayed := 0
	for i, k := range kicks {
		un := fmt.Sprintf("goroutine %d of %s", i+1, name)
		if k.delay != nil {
			delayed++
			ok := false
			for _, t := range values(toA) {
				ok = ok || k.delay == t
			}
			g.ck("C34", ok, k.ev.Pos, "timeout", name, "the delay is %s, not the timeout", k.delay)
			for _, o := range k.outs {
				_, to := decide(o.St)
				g.ck("C34", to == 1, k.ev.Pos, "timeout", name, "a delayed shutdown is started although the timeout may be zero [%s]", facts(o.St))
			}
			g.unit(un, sig, 1, k.outs, k.ev.Pos)
			continue
		}
		now++
		var forced, plain []ai.Outcome
		for _, o := range k.outs {
			f, _ := decide(o.St)
			if !g.ck("C34", f != 0, k.ev.Pos, "doublekick", name, "whether the shutdown is forced does not depend on exactly whether the signal came within the double-kick window of the one before [%s]", facts(o.St)) {
				continue
			}
			if f == 1 {
				forced = append(forced, o)
			} else {
				plain = append(plain, o)
			}
		}
		if len(forced) > 0 {
			g.unit(un+" (second signal)", sig, 1, forced, k.ev.Pos)
		}
		if len(plain) > 0 {
			g.unit(un, sig, -1, plain, k.ev.Pos)
		}
	}
	g.ck("C34", now == 1, L.Pos, "signals", name, "a signal starts %d shutdowns at once, not one [%s]", now, facts(st))
	f, to := decide(st)
	switch {
	case delayed > 0:
		g.ck("C34", delayed == 1, L.Pos, "timeout", name, "%d delayed shutdowns are started", delayed)
	default:
		g.ck("C34", f == 1 || to == -1, L.Pos, "timeout", name, "no forced shutdown after the timeout is prepared although one may be set [%s]", facts(st))
	}
}

func (g *grEnv) literals(s *ai.State) (ts []*ai.Term) {
	s.Literals(func(t *ai.Term, _ bool) { ts = append(ts, t) })
	return
}

// previous: t is a quantity of the loop that always holds the time at which the
// previous iteration ran.
func (g *grEnv) previous(L *ai.LoopNode, t *ai.Term) bool {
	for _, p := range L.Phis {
		if p.Sym != t {
			continue
		}
		if len(p.Next) != len(L.Iters) {
			return false
		}
		for _, n := range p.Next {
			if !isNow(n) {
				return false
			}
		}
		return true
	}
	return false
}

// delay is how long all paths sleep before they do anything else.
func (g *grEnv) delay(outs []ai.Outcome) *ai.Term {
	var d *ai.Term
	for _, o := range outs {
		timers := map[*ai.Term]*ai.Term{}
	scan:
		for _, e := range o.St.Trace() {
			switch {
			case e.Kind == "call" && e.Name == "time.Sleep":
				d = e.Args[0]
				break scan
			case e.Kind == "call" && e.Name == "time.After":
				timers[e.Res[0]] = e.Args[0]
			case e.Kind == "recv" && timers[e.Args[0]] != nil:
				d = timers[e.Args[0]]
				break scan
			case e.Kind == "once" || e.Kind == "onceskip":
				break scan
			}
		}
	}
	return d
}

func init() {
	explain := "Shutdown, ShutdownNow and the goroutines started by each signal are interpreted abstractly; every path is a sequence of phases (hook loops, marking the shutdown as begun, closing and draining, waiting, releasing waiters) nested in the bodies of sync.Once objects, and a Once found done stands for what its body performs on every path, so that every number and overlap of requests is covered. "
	add := func(p, t, e, l string, min map[string]int) {
		register(&Rule{Prop: p, Technique: t, Explain: explain + e, Limits: l, Min: min, Run: runShutdown})
	}
	add("C33", "effect-order analysis by abstract interpretation of every shutdown path, with must-visit loop rules",
		"Each phase is performed on every path exactly once or by a Once that another request performs, in the order pre-hooks, closing, draining of every registered listener (loop covers the list), post-hooks, release; hooks are called in order and with the signal; registering functions add to exactly one list.",
		"hooks do not panic; 'at most once' is recognised when it comes from sync.Once",
		map[string]int{"closing": 100, "drained": 100, "hooks": 100, "once": 100, "phase": 300, "register": 20, "wait": 2})
	add("C34", "effect-order and lock analysis by abstract interpretation of every shutdown path and of the signal loop",
		"Forced requests reach DrainAll on every listener and plain ones never do; no lock or Once that a forced request needs is held or running while a plain one waits for connections; a signal is forced exactly if it came within a non-zero double-kick window of the one before; the delayed forced shutdown exists exactly if a timeout is set; negative settings are not stored; the initialisation of the package followed by HandleSignals asks for the interrupt on every path and for SIGUSR2 exactly on the paths under Einhorn.",
		"the clock is monotonic; the meaning of Drain and DrainAll is C29",
		map[string]int{"doublekick": 30, "forced": 60, "phase": 60, "plain": 30, "settings": 8, "signals": 8, "timeout": 12, "unblocked": 60})
	add("C35", "value-flow analysis of the result of serving by abstract interpretation, with effect order for the mark",
		"An error is swallowed exactly on paths where the mark, read after serving ended, is set and the error is the *net.OpError of an accept on a closed listener; otherwise the very error of net/http's Serve is returned; the mark is set before any listener is closed and never taken back.",
		"that package net reports a closed listener with that error",
		map[string]int{"closing": 100, "filter": 40})
	register(&Rule{Prop: "C36", Technique: "value-flow and effect-order analysis by abstract interpretation of every serving function and of the callbacks it installs",
		Explain: "On every path of Serve, ListenAndServe and ListenAndServeTLS (methods and functions): net/http's Serve runs on a copy that has every exported setting of the caller's server, on the listener wrapped in Automatic mode, which is already the last element of the list the shutdown closes; nothing the caller's server refers to is written; closing the wrapped listener disables keep-alives of the copy and closes the caller's listener, Accept and Addr delegate; the state callback marks idle exactly on StateIdle, disowns exactly on StateHijacked, and calls the caller's callback exactly once with the same arguments; WrapListener registers what it returns, wrapped once in Deadline mode.",
		Limits:  "what net/http itself does with the settings that the copy shares",
		Min:     map[string]int{"settings": 100, "untouched": 20, "callback": 40, "idle": 20, "hijacked": 20, "keepalive": 10, "registered": 10, "mode": 10, "register": 2},
		Run:     runServing})
	register(&Rule{Prop: "C37", Technique: "value-flow analysis of the TLS configuration by abstract interpretation",
		Explain: "On every path of ListenAndServeTLS the configuration given to the TLS listener is a new object in which every exported field is the caller's, except the certificates (just the pair loaded from the files given) and a nil protocol list (http/1.1); without a configuration the least version is at least TLS 1.0 and all else is zero; nothing is written to what the caller's server refers to; errors of loading and listening are returned and then nothing is served.",
		Limits:  "that (*tls.Config).Clone copies every setting is taken from its documentation",
		Min:     map[string]int{"setting": 40, "certificate": 4, "protocols": 4, "minimum": 2, "errors": 8, "address": 4, "untouched": 4},
		Run:     runServing})
}

// defaults analyses the initialisation of the package, and HandleSignals after
// it: under Einhorn, and only there, SIGUSR2 is among the signals. It reports
// whether os.Interrupt always is.
func (g *grEnv) defaults() (all bool) {
	c := g.c
	fn, hs := c.fn(grPath, "init"), c.fn(grPath, "HandleSignals")
	im := g.m.InitMode()
	im.OutLimit, im.PtLimit = 64, 64
	mp := getenv(ai.Str("EINHORN_MASTER_PID"))
	b := &bdEnv{}
	under := []fact{{b.atoiOK(mp), false}, {ai.Eq(atoi(mp), ai.App("os.Getppid", intT)), false}}
	sig2 := "" // there is none on Windows
	for _, im := range c.pkg(grPath).Types.Imports() {
		if k, ok := im.Scope().Lookup("SIGUSR2").(*types.Const); ok && im.Path() == "syscall" && !strings.Contains(c.Config, "windows") {
			sig2 = fmt.Sprintf("ifc<syscall.Signal>(%s)", k.Val())
		}
	}
	n := 0
	all = true
	for _, o := range im.Exec(fn, nil, ai.NewState()) {
		if !g.ck("C34", o.Kind == ai.Ret, fn.Pos(), "defaults", "init", "the initialisation of the package can end in %s [%s]", o.Kind, facts(o.St)) {
			continue
		}
		n++
		for _, on := range []bool{true, false} {
			for _, st := range when(o.St, under, on) {
				st.ClearTrace()
				for _, h := range im.Exec(hs, nil, st) {
					if h.Kind != ai.Ret {
						continue
					}
					flat(h.St.Trace(), func(e *ai.Event, in bool) {
						if e.Kind != "call" || e.Name != "os/signal.Notify" {
							return
						}
						els, known := im.Elems(e.St.Copy(), e.Args[1])
						if !known {
							all = false
							return
						}
						intr, usr2 := false, false
						for _, x := range els {
							intr = intr || isInterrupt(x)
							usr2 = usr2 || sig2 != "" && x.String() == sig2
						}
						all = all && intr
						g.ck("C34", intr, e.Pos, "defaults", "HandleSignals", "the signals it asks for do not include os.Interrupt [%s]", facts(e.St))
						g.ck("C34", usr2 == on || sig2 == "", e.Pos, "defaults", "HandleSignals", "SIGUSR2 among its signals: %v, under Einhorn: %v [%s]", usr2, on, facts(e.St))
					})
				}
			}
		}
	}
	g.ck("C34", n > 0, fn.Pos(), "defaults", "init", "the initialisation of the package never ends")
	c.problems(im, "graceful.init")
	return all
}

// onlyInit: the variables the function and what it calls read are written by
// the initialisation of the package only.
func (g *grEnv) onlyInit(fn *ssa.Function) bool {
	fs := map[*ssa.Function]bool{fn: true}
	for work := []*ssa.Function{fn}; len(work) > 0; {
		f := work[0]
		work = work[1:]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if x := ci.Common().StaticCallee(); x != nil && x.Pkg == fn.Pkg && !fs[x] {
						fs[x] = true
						work = append(work, x)
					}
				}
			}
		}
	}
	read := map[ssa.Value]bool{}
	for f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok {
					if gl, ok := u.X.(*ssa.Global); ok && gl.Pkg == fn.Pkg {
						read[gl] = true
					}
				}
			}
		}
	}
	for f := range ai.AllFunctions(g.c.P) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if !read[*op] || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
						continue
					}
					if u, ok := in.(*ssa.UnOp); !ok || u.X != *op {
						return false
					}
				}
			}
		}
	}
	return true
}
