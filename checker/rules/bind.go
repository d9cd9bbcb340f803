package rules

import (
	"encoding/json"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"gojicheck/ai"
	"gojicheck/load"

	"golang.org/x/tools/go/ssa"
)

const bdPath = "bind"

// C38-C40 (package bind): the package is initialised abstractly in every
// environment, then every exported function is analysed from each state the
// initialisation can end in.

type bdEnv struct {
	c      *Ctx
	m      *ai.Machine
	starts []*ai.State
	noEin  bool         // the platform has no inherited sockets
	flag   *ai.Term     // address of the variable of the bind flag
	flagV  *ai.Term     // its value
	def    *ai.Term     // address of DefaultBind
	wrote  map[int]bool // package variables that exported functions write
	vars   []leaf
}

func (b *bdEnv) ck(props string, ok bool, pos token.Pos, kind, construct, f string, a ...any) bool {
	if os.Getenv("LSALL") != "" {
		return b.c.check(ok, pos, kind, construct, "<"+props+"> "+f, a...)
	}
	if !strings.Contains(props, b.c.Prop) {
		return ok
	}
	return b.c.check(ok, pos, kind, construct, f, a...)
}

var (
	strT = types.Typ[types.String]
	intT = types.Typ[types.Int]
)

func getenv(k *ai.Term) *ai.Term { return ai.App("os.Getenv", strT, k) }
func atoi(s *ai.Term) *ai.Term   { return ai.App("strconv.Atoi#0", intT, s) }
func (b *bdEnv) atoiOK(s *ai.Term) *ai.Term {
	return ai.Eq(ai.App("strconv.Atoi#1", types.Universe.Lookup("error").Type(), s), ai.Nil())
}

// fact is a proposition about the environment, or its negation.
type fact struct {
	t   *ai.Term
	neg bool
}

// inherited describes one of the two protocols that pass sockets on: it is in
// force if all facts hold.
type inherited struct {
	name  string
	facts []*ai.Term
	count *ai.Term
}

func (b *bdEnv) einhorn() inherited {
	mp, fc := getenv(ai.Str("EINHORN_MASTER_PID")), getenv(ai.Str("EINHORN_FD_COUNT"))
	return inherited{"Einhorn", []*ai.Term{b.atoiOK(mp), ai.Eq(atoi(mp), ai.App("os.Getppid", intT)), b.atoiOK(fc)}, atoi(fc)}
}

func (b *bdEnv) systemd() inherited {
	lp, lf := getenv(ai.Str("LISTEN_PID")), getenv(ai.Str("LISTEN_FDS"))
	return inherited{"systemd", []*ai.Term{b.atoiOK(lp), ai.Eq(atoi(lp), ai.App("os.Getpid", intT)), b.atoiOK(lf)}, atoi(lf)}
}

// avail are the facts that make at least one socket available.
func (p inherited) avail() (fs []fact) {
	for _, t := range p.facts {
		fs = append(fs, fact{t, false})
	}
	return append(fs, fact{ai.Le(p.count, ai.Int(0)), true})
}

// when gives the versions of a state in which all facts hold, or in which at
// least one does not.
func when(st *ai.State, fs []fact, all bool) (out []*ai.State) {
	if all {
		s := st.Copy()
		for _, f := range fs {
			if !s.Assume(f.t, !f.neg) {
				return nil
			}
		}
		return []*ai.State{s}
	}
	s := st.Copy()
	for _, f := range fs {
		n := s.Copy()
		if n.Assume(f.t, f.neg) {
			out = append(out, n)
		}
		if !s.Assume(f.t, !f.neg) {
			break
		}
	}
	return
}

func whenAll(sts []*ai.State, fs []fact, all bool) (out []*ai.State) {
	for _, s := range sts {
		out = append(out, when(s, fs, all)...)
	}
	return
}

func entails(st *ai.State, fs []fact) bool { return len(when(st, fs, false)) == 0 }

// fdVar is the name of the variable that holds the descriptor of a socket.
func fdVar(k *ai.Term) *ai.Term {
	return ai.Concat(ai.Str("EINHORN_FD_"), ai.App("strconv.Itoa", strT, k))
}

// fdIndex inverts it.
func fdIndex(t *ai.Term) *ai.Term {
	if !isApp(t, "strconv.Atoi#0") || !isApp(t.Args[0], "os.Getenv") {
		return nil
	}
	n := t.Args[0].Args[0]
	if n.Op == "concat" && len(n.Args) == 2 && isConstStr(n.Args[0], "EINHORN_FD_") && isApp(n.Args[1], "strconv.Itoa") {
		return n.Args[1].Args[0]
	}
	return nil
}

func newBind(c *Ctx) *bdEnv {
	b := &bdEnv{c: c, m: c.M.Sub(), wrote: map[int]bool{}, noEin: strings.Contains(c.Config, "windows")}
	b.m.OutLimit, b.m.PtLimit = 64, 64
	p := c.pkg(bdPath)
	for _, f := range c.pkgVars(bdPath) {
		if f.name != "init$guard" {
			b.vars = append(b.vars, f)
		}
	}
	b.m.Stable = func(_ *ai.State, a *ai.Term) bool {
		r := a.Root()
		if r.Op != "glob" {
			return false
		}
		g := r.X.(*ssa.Global)
		return g.Pkg == p.SSA && !token.IsExported(g.Name()) && a != b.flag
	}
	g := p.SSA.Var("DefaultBind")
	if g == nil {
		c.must(token.NoPos, "anchor", "bind.DefaultBind", "not found")
	}
	b.def = ai.GlobT(g)
	return b
}

// initialise runs the initialisation of the package.
func (b *bdEnv) initialise() {
	c := b.c
	fn := c.fn(bdPath, "init")
	pos := b.initPos()
	im := b.m.InitMode()
	im.OutLimit, im.PtLimit = 64, 64
	n := 0
	for _, o := range im.Exec(fn, nil, ai.NewState()) {
		b.closeOnExec(o)
		if o.Kind == ai.Exit {
			// a descriptor that should be there is not
			continue
		}
		if !b.ck("C38C39C40", o.Kind == ai.Ret, pos, "init", "init", "the initialisation of the package can end in %s [%s]", o.Kind, facts(o.St)) {
			continue
		}
		n++
		st := o.St.Copy()
		st.ClearTrace()
		for _, f := range b.vars {
			b.m.SetCell(st, f.addr, im.Load(o.St.Copy(), f.addr, f.typ))
		}
		d := b.m.Load(st, b.def, strT)
		b.ck("C39", isConstStr(d, ":8000"), pos, "default", "DefaultBind", "the built-in default is %s, not \":8000\"", d)
		b.starts = append(b.starts, st)
	}
	b.ck("C38C39C40", n > 0, pos, "init", "init", "the initialisation of the package never ends")
	c.problems(im, "bind.init")
}

// initPos is where the initialisation written in the package begins.
func (b *bdEnv) initPos() token.Pos {
	if fn, ok := b.c.pkg(bdPath).SSA.Members["init#1"].(*ssa.Function); ok {
		return fn.Pos()
	}
	return b.def.X.(*ssa.Global).Pos()
}

// closeOnExec checks one path of the initialisation: the descriptors of a
// protocol are marked if and only if it is in force.
func (b *bdEnv) closeOnExec(o ai.Outcome) {
	pos := b.initPos()
	covered := map[string]bool{}
	match := func(x *ai.Term) (string, *ai.Term) {
		if k := fdIndex(x); k != nil {
			return "Einhorn", k
		}
		return "systemd", ai.Sub(x, ai.Int(3))
	}
	touched := map[string]token.Pos{}
	for _, e := range o.St.Trace() {
		if e.Kind != "loop" {
			if e.Kind == "call" && e.Name == "syscall.CloseOnExec" {
				w, _ := match(e.Args[0])
				touched[w] = e.Pos
			}
			continue
		}
		per := map[string]int{}
		var k *ai.Term
		for _, it := range e.Loop.Iters {
			for _, x := range it.Trace.Events() {
				if x.Kind == "loop" {
					flat([]*ai.Event{x}, func(y *ai.Event, _ bool) {
						if y.Name == "syscall.CloseOnExec" {
							b.ck("C39", false, y.Pos, "closeonexec", "init", "descriptors are marked in a nested loop, which is not understood")
						}
					})
				}
				if x.Kind == "call" && x.Name == "syscall.CloseOnExec" {
					w, i := match(x.Args[0])
					touched[w] = x.Pos
					if k != nil && k != i {
						per[w] = -1000
					}
					k = i
					per[w]++
				}
			}
		}
		for w, n := range per {
			cnt := b.einhorn().count
			if w == "systemd" {
				cnt = b.systemd().count
			}
			if n == len(e.Loop.Iters) && visits(o.St, e.Loop, k, cnt) {
				covered[w] = true
			}
		}
	}
	for _, p := range []inherited{b.einhorn(), b.systemd()} {
		if pos, ok := touched[p.name]; ok {
			var fs []fact
			for _, t := range p.facts {
				fs = append(fs, fact{t, false})
			}
			b.ck("C39", !b.noEin && entails(o.St, fs), pos, "closeonexec", "init", "descriptors are marked as those of %s although its variables may not be meant for this process [%s]", p.name, facts(o.St))
		}
		if o.Kind != ai.Ret || b.noEin || covered[p.name] {
			b.ck("C39", true, pos, "closeonexec", "init", "")
			continue
		}
		if len(when(o.St, p.avail(), true)) > 0 {
			b.ck("C39", false, pos, "closeonexec", "init", "sockets from %s may be available, but not every one is marked close-on-exec [%s]", p.name, facts(o.St))
		}
	}
}

// visits reports whether k, a term of the loop's counter, runs through 0 to n-1.
func visits(end *ai.State, L *ai.LoopNode, k, n *ai.Term) bool {
	for _, p := range L.Phis {
		if p.Step == nil {
			continue
		}
		off := ai.Sub(k, p.Sym)
		if off.Mentions(p.Sym) {
			continue
		}
		first := ai.Add(p.Init, off)
		d, _ := p.Step.Term().Int()
		if d == 1 && end.Decide(ai.Eq(first, ai.Int(0))) == 1 && end.Decide(ai.Lt(k, n)) == -1 {
			return true
		}
		if d == -1 && end.Decide(ai.Eq(first, ai.Sub(n, ai.Int(1)))) == 1 && end.Decide(ai.Le(ai.Int(0), k)) == -1 {
			return true
		}
	}
	return false
}

// exported lists the exported functions of the package.
func (b *bdEnv) exported() (fns []*ssa.Function) {
	p := b.c.pkg(bdPath)
	var names []string
	for n, mem := range p.SSA.Members {
		if f, ok := mem.(*ssa.Function); ok && token.IsExported(n) && len(f.Blocks) > 0 {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		fns = append(fns, p.SSA.Func(n))
	}
	return
}

// settle finds the variables that can change after the initialisation and
// makes their values unknown.
func (b *bdEnv) settle() {
	name := map[int]leaf{}
	for _, f := range b.vars {
		name[f.addr.ID] = f
	}
	for changed := true; changed; {
		changed = false
		for i, st := range b.starts {
			for _, fn := range b.exported() {
				var as []*ai.Term
				for _, p := range fn.Params {
					as = append(as, ai.Sym(p.Name(), p.Type()))
				}
				for _, o := range b.m.Exec(fn, as, st) {
					flat(o.St.Trace(), func(e *ai.Event, _ bool) {
						for j, a := range e.Args {
							f, ok := name[a.ID]
							if !ok || b.wrote[a.ID] {
								continue
							}
							switch {
							case e.Kind == "once" || e.Kind == "onceend" || e.Kind == "onceskip":
							case strings.Contains(e.Kind, "lock"):
							case j > 0 && e.Kind == "store":
							default:
								b.wrote[a.ID] = true
								changed = true
								_ = f
							}
						}
					})
				}
			}
			_ = i
		}
		for _, f := range b.vars {
			if g := f.addr.Root().X.(*ssa.Global); token.IsExported(g.Name()) && !b.wrote[f.addr.ID] {
				b.wrote[f.addr.ID] = true
				changed = true
			}
			if b.wrote[f.addr.ID] {
				for _, st := range b.starts {
					b.m.SetCell(st, f.addr, ai.Sym("any:"+f.name, f.typ))
				}
			}
		}
	}
}

// sniffed are the states in which the environment suggests each address.
type sniffCase struct {
	v   *ai.Term
	sts []*ai.State
}

func (b *bdEnv) sniffCases(st *ai.State) (out []sniffCase) {
	gb, port := getenv(ai.Str("GOJI_BIND")), getenv(ai.Str("PORT"))
	has := func(t *ai.Term) []fact { return []fact{{ai.Eq(t, ai.Str("")), true}} }
	rest := []*ai.State{st}
	add := func(v *ai.Term, fs []fact) {
		out = append(out, sniffCase{v, whenAll(rest, fs, true)})
		rest = whenAll(rest, fs, false)
	}
	add(gb, has(gb))
	if !b.noEin {
		add(ai.Str("einhorn@0"), b.einhorn().avail())
		add(ai.Str("fd@3"), b.systemd().avail())
	}
	add(ai.Concat(ai.Str(":"), port), has(port))
	return append(out, sniffCase{ai.Str(""), rest})
}

func sameIn(st *ai.State, a, b *ai.Term) bool { return a == b || st.Decide(ai.Eq(a, b)) == 1 }

func (b *bdEnv) sniff() {
	fn := b.c.fn(bdPath, "Sniff")
	for _, st := range b.starts {
		for _, o := range b.m.Exec(fn, nil, st) {
			if !b.ck("C39", o.Kind == ai.Ret, fn.Pos(), "precedence", "Sniff", "it can end in %s [%s]", o.Kind, facts(o.St)) {
				continue
			}
			for _, x := range b.sniffCases(o.St) {
				for _, s := range x.sts {
					b.ck("C39", sameIn(s, o.Vals[0], x.v), fn.Pos(), "precedence", "Sniff", "it returns %s, not %s [%s]", o.Vals[0], x.v, facts(s))
				}
			}
		}
	}
}

// flagVar finds the variable of the flag and checks the flag's default.
func (b *bdEnv) flagVar() {
	c := b.c
	fn := c.fn(bdPath, "WithFlag")
	for _, st := range b.starts {
		for _, o := range b.m.Exec(fn, nil, st) {
			if !b.ck("C39", o.Kind == ai.Ret, fn.Pos(), "flag", "WithFlag", "it can end in %s [%s]", o.Kind, facts(o.St)) {
				continue
			}
			var reg []*ai.Event
			flat(o.St.Trace(), func(e *ai.Event, in bool) {
				if e.Kind == "call" && (strings.HasPrefix(e.Name, "flag.") || strings.HasPrefix(e.Name, "(*flag.FlagSet).")) {
					reg = append(reg, e)
				}
			})
			if !b.ck("C38C39", len(reg) == 1 && (reg[0].Name == "flag.StringVar" || reg[0].Name == "flag.String"), fn.Pos(), "flag", "WithFlag", "it does not just register one string flag [%s]", facts(o.St)) {
				continue
			}
			as := reg[0].Args
			var v *ai.Term
			if reg[0].Name == "flag.StringVar" {
				v, as = as[0], as[1:]
			} else {
				for _, f := range b.vars {
					if b.m.Load(o.St.Copy(), f.addr, f.typ) == reg[0].Res[0] {
						v = ai.Sym("flagptr", f.typ)
						b.m.SetCell(st, f.addr, v)
					}
				}
			}
			if !b.ck("C38C39", v != nil && (b.flag == nil || b.flag == v), reg[0].Pos, "flag", "WithFlag", "the variable of the flag is not found, or not always the same") {
				continue
			}
			b.flag = v
			b.ck("C39", isConstStr(as[0], "bind"), reg[0].Pos, "flag", "WithFlag", "the flag is called %s, not \"bind\"", as[0])
			for _, x := range b.sniffCases(o.St) {
				want := x.v
				if isConstStr(want, "") {
					want = b.m.Load(st.Copy(), b.def, strT)
				}
				for _, s := range x.sts {
					b.ck("C39", sameIn(s, as[1], want), reg[0].Pos, "flag", "WithFlag", "the default of the flag is %s, not %s [%s]", as[1], want, facts(s))
				}
			}
		}
	}
	if b.flag == nil {
		c.must(fn.Pos(), "anchor", "WithFlag", "no flag is registered")
	}
	b.flagV = ai.Sym("flagvalue", strT)
	for _, st := range b.starts {
		b.m.SetCell(st, b.flag, b.flagV)
	}
}

// sockets checks the functions that turn an address into a listener.
func (b *bdEnv) sockets() {
	c := b.c
	arg := ai.Sym("addr", strT)
	for _, x := range []struct {
		fn   *ssa.Function
		as   []*ai.Term
		addr *ai.Term
	}{{c.fn(bdPath, "Socket"), []*ai.Term{arg}, arg}, {c.fn(bdPath, "Default"), nil, b.flagV}} {
		classes := map[string]int{}
		for _, st := range b.starts {
			outs := b.m.Exec(x.fn, x.as, st)
			for _, o := range outs {
				b.socket(x.fn, o, x.addr, classes)
			}
		}
		want := []string{"tcp", "unix", "fd"}
		if !b.noEin {
			want = append(want, "einhorn")
		}
		for _, k := range want {
			b.ck("C38", classes[k] > 0, x.fn.Pos(), "listens", x.fn.Name(), "no path ends with a listener for an address of the kind %s", k)
		}
	}
}

func (b *bdEnv) socket(fn *ssa.Function, o ai.Outcome, addr *ai.Term, classes map[string]int) {
	name := fn.Name()
	pre := func(s string) *ai.Term { return ai.App("strings.HasPrefix", types.Typ[types.Bool], addr, ai.Str(s)) }
	tcp := ai.Le(ai.Int(0), ai.App("strings.Index", intT, addr, ai.Str(":")))
	rest := []*ai.State{o.St}
	class := func(k string, f *ai.Term) {
		fs := []fact{{f, false}}
		for _, s := range whenAll(rest, fs, true) {
			b.conforms(fn, o, s, k, addr, classes)
		}
		rest = whenAll(rest, fs, false)
	}
	if !b.ck("C38", o.Kind == ai.Ret || o.Kind == ai.Exit, fn.Pos(), "result", name, "it can end in %s [%s]", o.Kind, facts(o.St)) {
		return
	}
	class("tcp", tcp)
	class("unix", pre("."))
	class("unix", pre("/"))
	class("fd", pre("fd@"))
	class("einhorn", pre("einhorn@"))
	for _, s := range rest {
		b.conforms(fn, o, s, "none", addr, classes)
	}
}

// conforms checks what one path does with an address of one kind. s is the
// final state, in which the address is known to be of that kind.
func (b *bdEnv) conforms(fn *ssa.Function, o ai.Outcome, s *ai.State, kind string, addr *ai.Term, classes map[string]int) {
	name := fn.Name()
	var opens []*ai.Event
	files := map[*ai.Term]*ai.Event{}
	stray := ""
	evs := o.St.Trace()
	flat(evs, func(e *ai.Event, in bool) {
		if e.Kind != "call" && e.Kind != "invoke" && e.Kind != "dyn" && e.Kind != "go" {
			return
		}
		switch {
		case e.Name == "net.Listen" || e.Name == "net.FileListener":
			opens = append(opens, e)
			if in {
				stray = e.Name + " in a loop"
			}
		case e.Name == "os.NewFile":
			files[e.Res[0]] = e
		case e.Kind == "dyn" || e.Kind == "go":
			stray = "unknown code"
		case strings.HasPrefix(e.Name, "net.") || strings.HasPrefix(e.Name, "(*net.") || strings.HasPrefix(e.Name, "syscall.") || strings.HasPrefix(e.Name, "os.Open"):
			stray = e.Name
		}
	})
	pos := fn.Pos()
	if len(opens) > 0 {
		pos = opens[0].Pos
	}
	fc := facts(s)
	b.ck("C38", stray == "", pos, "listens", name, "it calls %s [%s]", stray, fc)
	b.closes(name, evs, files, o)
	// what should be opened
	file := func(fd *ai.Term) bool {
		x := opens[0]
		f := files[x.Args[0]]
		return x.Name == "net.FileListener" && f != nil && unconv(f.Args[0]) == fd
	}
	// must: nothing but these facts may keep the socket from being opened
	var must []fact
	ok := false
	switch kind {
	case "tcp", "unix":
		ok = len(opens) == 1 && opens[0].Name == "net.Listen" && isConstStr(opens[0].Args[0], kind) && opens[0].Args[1] == addr
	case "fd":
		n := ai.SubStr(addr, ai.Int(3), ai.Len(addr))
		must = []fact{{b.atoiOK(n), false}, {ai.Le(ai.Int(0), atoi(n)), false}}
		ok = len(opens) == 1 && file(atoi(n)) && entails(s, must[:1])
	case "einhorn":
		t := ai.SubStr(addr, ai.Int(8), ai.Len(addr))
		n := atoi(t)
		p := b.einhorn()
		must = append(append([]fact{{b.atoiOK(t), false}}, p.avail()...), fact{ai.Le(ai.Int(0), n), false}, fact{ai.Lt(n, p.count), false}, fact{b.atoiOK(getenv(fdVar(n))), false})
		ok = !b.noEin && len(opens) == 1 && file(atoi(getenv(fdVar(n)))) && entails(s, must)
	}
	if len(opens) == 0 {
		allowed := kind == "none" || kind == "einhorn" && b.noEin
		if kind == "fd" || kind == "einhorn" {
			allowed = allowed || len(when(s, must, true)) == 0
		}
		b.ck("C38", allowed, pos, "listens", name, "an address of the kind %s may not be listened on [%s]", kind, fc)
		b.ck("C38", o.Kind == ai.Exit, pos, "result", name, "it returns (%v) without having opened anything [%s]", o.Vals, fc)
		return
	}
	if !b.ck("C38", ok, pos, "listens", name, "for an address of the kind %s it opens %s [%s]", kind, strings.TrimSpace(trace(opens)), fc) {
		return
	}
	x := opens[0]
	l := x.Res[0]
	if isNil(s, x.Res[1]) == 1 {
		if b.ck("C38", o.Kind == ai.Ret && len(o.Vals) == 1 && o.Vals[0] == l, pos, "result", name, "it has a listener, but ends in %s %v [%s]", o.Kind, o.Vals, fc) {
			classes[kind]++
		}
	} else {
		b.ck("C38", o.Kind == ai.Exit, pos, "result", name, "listening failed, but it ends in %s %v [%s]", o.Kind, o.Vals, fc)
	}
}

// closes checks that every temporary file is closed after it has been used.
func (b *bdEnv) closes(name string, evs []*ai.Event, files map[*ai.Term]*ai.Event, o ai.Outcome) {
	for f, e := range files {
		open, used, early := false, false, false
		flat(evs, func(x *ai.Event, _ bool) {
			switch {
			case x == e:
				open = true
			case x.Name == "net.FileListener" && x.Args[0] == f:
				used = true
				early = early || !open
			case x.Name == "(*os.File).Close" && x.Args[0] == f:
				open = false
			}
		})
		b.ck("C38", !open, e.Pos, "closed", name, "the temporary descriptor is not closed [%s]", facts(o.St))
		b.ck("C38", used && !early, e.Pos, "closed", name, "the temporary descriptor is closed before it is used [%s]", facts(o.St))
	}
}

// ready checks the report to the parent.
func (b *bdEnv) ready() {
	fn := b.c.fn(bdPath, "Ready")
	n := 0
	for _, st := range b.starts {
		for _, o := range b.m.Exec(fn, nil, st) {
			var dials []*ai.Event
			first := 0 // 1: the once is run by this call, -1: it has been
			depth := 0
			stray := ""
			flat(o.St.Trace(), func(e *ai.Event, in bool) {
				switch e.Kind {
				case "once":
					depth++
					first = 1
					b.ck("C40", b.lasting(e.Args[0]), e.Pos, "once", "Ready", "the sync.Once, %s, is not a variable of the package that keeps its value", e.Args[0])
				case "onceend":
					depth--
				case "onceskip":
					first = -1
				case "go", "dyn":
					stray = "unknown code or code that runs on its own"
				case "call":
					if strings.HasPrefix(e.Name, "net.") {
						dials = append(dials, e)
						if e.Name != "net.Dial" && e.Name != "net.DialTimeout" || in {
							stray = e.Name
						}
						b.ck("C40", depth > 0, e.Pos, "once", "Ready", "the report is not within a sync.Once: it can be made more than once [%s]", facts(o.St))
					}
				}
			})
			b.ck("C40", stray == "", fn.Pos(), "once", "Ready", "it calls %s [%s]", stray, facts(o.St))
			b.ck("C40", o.Kind == ai.Ret || o.Kind == ai.Exit && len(dials) > 0, fn.Pos(), "once", "Ready", "it can end in %s [%s]", o.Kind, facts(o.St))
			av := b.einhorn().avail()
			if len(dials) == 0 {
				if first != -1 && !b.noEin {
					b.ck("C40", len(when(o.St, av, true)) == 0, fn.Pos(), "reported", "Ready", "under Einhorn, the first call may report nothing [%s]", facts(o.St))
				}
				continue
			}
			x := dials[0]
			b.ck("C40", !b.noEin && entails(o.St, av), x.Pos, "parent", "Ready", "it reports although the process may not run under Einhorn [%s]", facts(o.St))
			b.ck("C40", len(dials) == 1 && isConstStr(x.Args[0], "unix") && x.Args[1] == getenv(ai.Str("EINHORN_SOCK_PATH")), x.Pos, "parent", "Ready", "it dials %v", x.Args)
			if isNil(o.St, x.Res[1]) != 1 {
				continue
			}
			text := b.written(o.St.Trace(), x.Res[0])
			if b.ck("C40", ackText(text), x.Pos, "reported", "Ready", "what it writes to Einhorn is not the acknowledgement with this process's ID: %v", text) {
				n++
			}
		}
	}
	if !b.noEin {
		b.ck("C40", n > 0, fn.Pos(), "reported", "Ready", "nothing is ever reported")
	}
}

// lasting reports whether a is in a variable of the package that the package
// does not assign.
func (b *bdEnv) lasting(a *ai.Term) bool {
	r := a.Root()
	if r.Op != "glob" {
		return false
	}
	g := r.X.(*ssa.Global)
	for fn := range ai.AllFunctions(b.c.P) {
		for _, bl := range fn.Blocks {
			for _, in := range bl.Instrs {
				if st, ok := in.(*ssa.Store); ok && rootGlobal(st.Addr) == g {
					return false
				}
			}
		}
	}
	return true
}

func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

// written is what is written to a connection.
func (b *bdEnv) written(evs []*ai.Event, conn *ai.Term) (text *ai.Term) {
	text = ai.Str("")
	flat(evs, func(e *ai.Event, in bool) {
		for i, a := range e.Args {
			if a != conn && !(a.Op == "ifc" && a.Args[0] == conn) {
				continue
			}
			if e.Kind == "invoke" && i == 0 && !strings.HasSuffix(e.Name, ".Write") {
				continue
			}
			as := append(append([]*ai.Term{}, e.Args[:i]...), e.Args[i+1:]...)
			var t *ai.Term
			switch {
			case in || text == nil || i != 0:
			case e.Name == "fmt.Fprintf" || e.Name == "fmt.Fprint":
				vs, ok := b.m.Elems(e.St.Copy(), as[len(as)-1])
				if ok {
					if e.Name == "fmt.Fprint" {
						as = []*ai.Term{ai.Str("%v"), nil}
					}
					t = b.m.Format(append(as[:1:1], vs...))
				}
			case e.Name == "io.WriteString":
				t = as[0]
			case strings.HasSuffix(e.Name, ".Write"):
				t = as[0]
				if t.Op == "app" && len(t.Args) == 1 {
					t = t.Args[0] // a conversion
				}
			}
			if t == nil {
				text = nil
				return
			}
			text = ai.Concat(text, t)
		}
	})
	return
}

func ackText(t *ai.Term) bool {
	if t == nil || t.Op != "concat" {
		return false
	}
	s := ""
	for _, p := range t.Args {
		if x, ok := p.Str(); ok {
			s += x
			continue
		}
		if !isApp(p, "strconv.Itoa") || !isApp(p.Args[0], "os.Getpid") {
			return false
		}
		s += "4711"
	}
	var m struct {
		Command string
		Pid     int
	}
	return strings.HasSuffix(s, "\n") && json.Unmarshal([]byte(s), &m) == nil && m.Command == "worker:ack" && m.Pid == 4711
}

func runBind(c *Ctx) {
	b := newBind(c)
	b.initialise()
	b.settle()
	b.flagVar()
	b.sniff()
	b.sockets()
	b.ready()
	if c.Prop == "C39" {
		g := newGoji(c)
		g.initialise()
	}
	if c.Prop == "C40" {
		newGoji(c).serving()
	}
	c.problems(b.m, "bind")
}

// --- package goji

// gjEnv analyses package goji with the API of the other packages opaque.
type gjEnv struct {
	c   *Ctx
	m   *ai.Machine
	mux *ai.Term // address of DefaultMux
}

func newGoji(c *Ctx) *gjEnv {
	g := &gjEnv{c: c, m: c.M.Sub()}
	api := map[string]bool{mod + "/web": true, mod + "/" + bdPath: true, mod + "/" + grPath: true, mod + "/web/middleware": true}
	g.m.NoInline = func(fn *ssa.Function) bool {
		if fn.Pkg != nil && fn.Pkg.Pkg.Path() != mod && fn.Synthetic == "package initializer" {
			return true
		}
		return fn.Pkg != nil && api[fn.Pkg.Pkg.Path()] && fn.Parent() == nil && fn.Object() != nil && fn.Object().Exported()
	}
	g.m.Opaque = func(m *ai.Machine, s *ai.State, cc *ai.CallCtx) ([]ai.Outcome, bool) {
		if cc.Callee != nil && m.NoInline(cc.Callee) {
			return m.BenignCall(s, cc), true
		}
		return nil, false
	}
	v := c.pkg("").SSA.Var("DefaultMux")
	if v == nil {
		c.must(token.NoPos, "anchor", "goji.DefaultMux", "not found")
	}
	g.mux = ai.GlobT(v)
	return g
}

func apiName(e *ai.Event) string {
	if e.Kind != "call" {
		return ""
	}
	return strings.ReplaceAll(e.Name, mod+"/", "")
}

// initialise checks the initialisation of the package.
func (g *gjEnv) initialise() {
	c := g.c
	fn := c.fn("", "init")
	im := g.m.InitMode()
	im.NoInline, im.Opaque = g.m.NoInline, g.m.Opaque
	muxT := ptr(c.named("web", "Mux"))
	n := 0
	for _, o := range im.Exec(fn, nil, ai.NewState()) {
		if !c.check(o.Kind == ai.Ret, fn.Pos(), "init", "goji.init", "the initialisation of the package can end in %s", o.Kind) {
			continue
		}
		n++
		var flags, parse int
		var mux *ai.Term
		var mws []string
		flat(o.St.Trace(), func(e *ai.Event, in bool) {
			w := apiName(e)
			if in {
				w += " in a loop"
			}
			switch {
			case w == "bind.WithFlag":
				flags++
			case w == "flag.Parse":
				parse++
			case w == "web.New":
				if mux != nil {
					mws = append(mws, "another mux")
				}
				mux = e.Res[0]
			case strings.HasPrefix(w, "(*web.Mux).Use") && len(e.Args) == 2 && e.Args[0] == mux:
				a := e.Args[1]
				if a.Op == "ifc" {
					a = a.Args[0]
				}
				x := a.String()
				if a.Op == "fn" {
					x = strings.ReplaceAll(a.X.(*ssa.Function).String(), mod+"/", "")
				}
				mws = append(mws, strings.TrimPrefix(x, "web/middleware."))
			case strings.Contains(w, "web.Mux)"):
				mws = append(mws, w)
			case e.Kind == "go" || e.Kind == "dyn":
				mws = append(mws, "unknown code")
			}
		})
		if c.Prop == "C39" {
			c.check(flags == 1 && parse == 0, fn.Pos(), "flag", "goji.init", "the initialisation of the package registers the bind flag %d times, and parses the flags %d times", flags, parse)
			continue
		}
		c.check(mux != nil && im.Load(o.St.Copy(), g.mux, muxT) == mux, fn.Pos(), "defaultmux", "goji.init", "DefaultMux is not a new mux")
		c.check(strings.Join(mws, " ") == "RequestID Logger Recoverer AutomaticOptions", fn.Pos(), "defaultstack", "goji.init", "the default mux starts with %v", mws)
	}
	c.check(n > 0, fn.Pos(), "init", "goji.init", "the initialisation of the package never ends")
	c.problems(im, "goji.init")
}

// wrappers checks the functions that act on the default mux.
func (g *gjEnv) wrappers() {
	c := g.c
	muxT := ptr(c.named("web", "Mux"))
	p := c.pkg("")
	var names []string
	for n, mem := range p.SSA.Members {
		if f, ok := mem.(*ssa.Function); ok && token.IsExported(n) && len(f.Blocks) > 0 && c.hasMeth(muxT, n) != nil {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		fn := c.fn("", n)
		st := ai.NewState()
		mux := g.m.Load(st, g.mux, muxT)
		var as []*ai.Term
		for _, q := range fn.Params {
			as = append(as, ai.Sym(q.Name(), q.Type()))
		}
		want := "(*web.Mux)." + n
		cnt := 0
		for _, o := range g.m.Exec(fn, as, st) {
			if !c.check(o.Kind == ai.Ret, fn.Pos(), "delegates", n, "it can end in %s [%s]", o.Kind, facts(o.St)) {
				continue
			}
			var calls []*ai.Event
			stray := ""
			flat(o.St.Trace(), func(e *ai.Event, in bool) {
				w := apiName(e)
				switch {
				case w == want && !in:
					calls = append(calls, e)
				case strings.Contains(w, "web.Mux)") || e.Kind == "go" || e.Kind == "dyn":
					stray = w + e.Kind
				case e.Kind == "store" && e.Args[0] == g.mux:
					stray = "a store to DefaultMux"
				}
			})
			if !c.check(len(calls) == 1 && stray == "", fn.Pos(), "delegates", n, "it does not just call %s once (%d calls; %s) [%s]", want, len(calls), stray, facts(o.St)) {
				continue
			}
			e := calls[0]
			ok := e.Args[0] == mux && len(e.Args) == len(as)+1
			for i := 0; ok && i < len(as); i++ {
				ok = e.Args[i+1] == as[i]
			}
			c.check(ok, e.Pos, "arguments", n, "it calls %s with %v, not with the default mux and its own arguments", want, e.Args)
			ok = len(o.Vals) == len(e.Res)
			for i := 0; ok && i < len(o.Vals); i++ {
				ok = sameIn(o.St, o.Vals[i], e.Res[i])
			}
			c.check(ok, e.Pos, "result", n, "it returns %v, not the result of the mux (%v)", o.Vals, e.Res)
			cnt++
		}
		c.check(cnt > 0, fn.Pos(), "delegates", n, "it never returns")
	}
}

// serving checks the startup sequence.
func (g *gjEnv) serving() {
	c := g.c
	muxT := ptr(c.named("web", "Mux"))
	lT := c.std("net", "Listener").Type()
	for _, name := range []string{"ServeListener", "Serve", "ServeTLS"} {
		fn := c.hasFn("", name)
		if fn == nil {
			c.must(token.NoPos, "anchor", "goji."+name, "not found")
		}
		c.entry(fn)
		st := ai.NewState()
		mux := g.m.Load(st, g.mux, muxT)
		var as []*ai.Term
		var given, cfg *ai.Term
		for _, q := range fn.Params {
			a := ai.Sym(q.Name(), q.Type())
			as = append(as, a)
			if types.Identical(q.Type(), lT) {
				given = a
				st.Assume(ai.Eq(a, ai.Nil()), false)
			} else {
				cfg = a
			}
		}
		n := 0
		for _, o := range g.m.Exec(fn, as, st) {
			if g.startup(name, fn, o, mux, given, cfg) {
				n++
			}
		}
		c.check(n > 0, fn.Pos(), "startup", name, "it never serves")
	}
	c.problems(g.m, "goji.Serve")
}

func (g *gjEnv) startup(name string, fn *ssa.Function, o ai.Outcome, mux, given, cfg *ai.Term) bool {
	c := g.c
	at := map[string]int{}
	num := map[string]int{}
	ev := map[string]*ai.Event{}
	var order []string
	flat(o.St.Trace(), func(e *ai.Event, in bool) {
		w := apiName(e)
		if e.Kind == "go" || e.Kind == "dyn" {
			w = e.Kind
		}
		if w == "(*net/http.ServeMux).Handle" && len(e.Args) == 3 && isDefaultServeMux(e.Args[0]) {
			w = "net/http.Handle"
			x := *e
			x.Args = x.Args[1:]
			e = &x
		}
		if w == "" {
			return
		}
		if in {
			num[w]++
		}
		if num[w] == 0 {
			at[w] = len(order)
			ev[w] = e
		}
		num[w]++
		order = append(order, w)
	})
	f := facts(o.St)
	pos := fn.Pos()
	seq := strings.Join(order, ", ")
	ok := c.check(num["go"]+num["dyn"] == 0, pos, "startup", name, "parts of the startup run on their own: %s [%s]", seq, f)
	once := []string{"(*web.Mux).Compile", "net/http.Handle", "graceful.HandleSignals", "bind.Ready", "graceful.Serve"}
	for _, w := range once {
		ok = c.check(num[w] == 1, pos, "startup", name, "%s is called %d times: %s [%s]", w, num[w], seq, f) && ok
	}
	if !ok {
		return false
	}
	for i, w := range once {
		for _, v := range once[:i] {
			if v == once[0] && w == once[1] {
				continue // the order of these two is not visible
			}
			c.check(at[v] < at[w], ev[w].Pos, "order", name, "%s comes before %s: %s [%s]", w, v, seq, f)
		}
	}
	c.check(ev[once[0]].Args[0] == mux, ev[once[0]].Pos, "startup", name, "what is compiled is %s, not the default mux", ev[once[0]].Args[0])
	h := ev["net/http.Handle"]
	c.check(len(h.Args) == 2 && isConstStr(h.Args[0], "/") && sameValue(h.Args[1], mux), h.Pos, "startup", name, "it installs %v, not the default mux at the root", h.Args)
	sv := ev["graceful.Serve"]
	l := given
	if given == nil {
		d := ev["bind.Default"]
		if !c.check(num["bind.Default"] == 1 && num["bind.Socket"] == 0, pos, "listener", name, "it does not bind the default socket once: %s [%s]", seq, f) {
			return false
		}
		if num["flag.Parse"] > 0 {
			c.check(at["flag.Parse"] < at["bind.Default"], d.Pos, "listener", name, "the socket is bound before the flags are parsed: %s", seq)
		} else {
			p := ev["flag.Parsed"]
			c.check(p != nil && at["flag.Parsed"] < at["bind.Default"] && o.St.Decide(p.Res[0]) == 1, d.Pos, "listener", name, "the socket may be bound before the flags are parsed: %s [%s]", seq, f)
		}
		l = d.Res[0]
		if cfg != nil {
			t := ev["crypto/tls.NewListener"]
			if !c.check(t != nil && num["crypto/tls.NewListener"] == 1 && t.Args[0] == l && t.Args[1] == cfg, pos, "listener", name, "the default socket is not wrapped for TLS with the configuration given: %s [%s]", seq, f) {
				return false
			}
			l = t.Res[0]
		}
	}
	c.check(sv.Args[0] == l, sv.Pos, "listener", name, "what is served is %s, not %s", sv.Args[0], l)
	hd := sv.Args[1]
	if hd.Op == "ifc" {
		hd = hd.Args[0]
	}
	c.check(hd.IsNil() || isDefaultServeMux(hd), sv.Pos, "startup", name, "the handler served is %s, not the standard mux", hd)
	// the end
	err := sv.Res[0]
	switch {
	case isNil(o.St, err) == 1:
		c.check(o.Kind == ai.Ret && num["graceful.Wait"] == 1 && at["graceful.Wait"] > at["graceful.Serve"], sv.Pos, "ends", name, "after a clean end it does not wait for the shutdown and return, but ends in %s: %s [%s]", o.Kind, seq, f)
	case isNil(o.St, err) == -1:
		c.check(o.Kind == ai.Exit, sv.Pos, "ends", name, "an error of serving is not fatal: %s [%s]", seq, f)
	default:
		c.check(false, sv.Pos, "ends", name, "it does the same whether or not serving fails: %s [%s]", seq, f)
	}
	return true
}

func isDefaultServeMux(t *ai.Term) bool {
	return strings.Contains(t.String(), "DefaultServeMux")
}

var bdConfigs = []load.Config{{GOOS: "windows", GOARCH: "amd64"}}

var _ = constant.String

func init() {
	register(&Rule{Prop: "C38", Configs: bdConfigs, Run: runBind,
		Technique: "path-sensitive effect analysis by abstract interpretation of Socket and Default in every environment, per platform",
		Explain:   "Package bind is initialised abstractly in every environment; from each resulting state every path of Socket and Default, for each kind of address that is possible on it, opens exactly what the documentation says (or nothing, if the number, the range or the environment rules it out), ends with the very listener opened or exits, and closes temporary descriptors after use.",
		Limits:    "what package net does with an address",
		Min:       map[string]int{"listens": 12, "result": 8, "closed": 4, "init": 1}})
	register(&Rule{Prop: "C39", Configs: bdConfigs, Run: runBind,
		Technique: "path-sensitive value-flow analysis by abstract interpretation of the initialisation, with must-visit loop rules",
		Explain:   "On every path of the initialisation, the descriptors of Einhorn and systemd are marked close-on-exec by a loop over all of them exactly if the facts about the environment that put the protocol in force hold; from each resulting state every path of Sniff and WithFlag yields the first of GOJI_BIND, Einhorn, systemd, PORT and DefaultBind that is there; package goji registers the flag.",
		Limits:    "",
		Min:       map[string]int{"closeonexec": 2, "precedence": 4, "flag": 6, "default": 1}})
	register(&Rule{Prop: "C40", Configs: bdConfigs, Run: runBind,
		Technique: "effect-order analysis by abstract interpretation of the startup functions",
		Explain:   "On every path of Serve, ServeTLS and ServeListener the default mux is compiled and installed, the signal handlers are installed, readiness is reported and graceful.Serve is called, once each and in this order, on the listener given or bound after the flags were parsed; nil leads to graceful.Wait and a return, an error to an exit. Ready dials and writes the acknowledgement with the process ID within a sync.Once, exactly in environments in which Einhorn passed sockets to this process.",
		Limits:    "'at most once' is recognised when it comes from sync.Once",
		Min:       map[string]int{"startup": 30, "order": 50, "ends": 6, "listener": 8, "once": 4}})
	register(&Rule{Prop: "C41",
		Technique: "value-flow analysis by abstract interpretation of every function of package goji that shares its name with a mux operation",
		Explain:   "Every path of each such function calls the operation of its name once on the default mux with its own arguments in order and returns its results; the initialisation makes DefaultMux a new mux and uses RequestID, Logger, Recoverer and AutomaticOptions on it in this order and nothing else.",
		Limits:    "",
		Min:       map[string]int{"delegates": 30, "arguments": 14, "result": 14, "defaultmux": 1, "defaultstack": 1},
		Run: func(c *Ctx) {
			g := newGoji(c)
			g.initialise()
			g.wrappers()
			c.problems(g.m, "goji")
		}})
}
