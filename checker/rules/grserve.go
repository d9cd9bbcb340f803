package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"gojicheck/ai"

	"golang.org/x/tools/go/ssa"
)

// C36, C37: how a server is hooked into the shutdown.

// grServe is one function that serves.
type grServe struct {
	name   string
	fn     *ssa.Function
	params map[string]*ai.Term
	srv    *ai.Term // the caller's server
	h      *ai.Term // or the handler given
	l      *ai.Term // the listener given
	addr   *ai.Term // or the address
	tls    bool
	st     *ai.State
}

func (g *grEnv) serveFns() (out []*grServe) {
	c := g.c
	hsT := c.std("net/http", "Server").Type()
	sT := ptr(c.named(grPath, "Server"))
	lT := c.std("net", "Listener").Type()
	hT := c.std("net/http", "Handler").Type()
	add := func(name string, fn *ssa.Function, tls bool) {
		s := &grServe{name: name, fn: fn, tls: tls, st: ai.NewState(), params: map[string]*ai.Term{}}
		for i, p := range fn.Params {
			a := ai.Sym(p.Name(), p.Type())
			switch {
			case i == 0 && strings.HasPrefix(name, "("):
				s.srv = a
				s.st.Assume(ai.Eq(a, ai.Nil()), false)
			case types.Identical(p.Type(), lT):
				s.l = a
			case types.Identical(p.Type(), hT):
				s.h = a
			case s.addr == nil && s.srv == nil:
				s.addr = a
			case s.params["cert"] == nil:
				s.params["cert"] = a
			default:
				s.params["key"] = a
			}
		}
		if s.srv != nil {
			if i, t, ok := field(hsT, "Addr"); ok {
				s.addr = g.m.Load(s.st, ai.FA(s.srv, i, t), t)
			}
		}
		out = append(out, s)
	}
	for _, n := range []string{"Serve", "ListenAndServe", "ListenAndServeTLS"} {
		add("(*Server)."+n, c.meth(sT, n), strings.HasSuffix(n, "TLS"))
		add(n, c.fn(grPath, n), strings.HasSuffix(n, "TLS"))
	}
	return
}

func (s *grServe) args() (as []*ai.Term) {
	for _, p := range s.fn.Params {
		as = append(as, ai.Sym(p.Name(), p.Type()))
	}
	return
}

// under tells whether v is one of the targets, possibly as an interface value.
func under(v *ai.Term, targets []*ai.Term) bool {
	for _, t := range targets {
		if v == t || v.Op == "ifc" && v.Args[0] == t {
			return true
		}
	}
	return false
}

func sameValue(a, b *ai.Term) bool {
	return a == b || a.Op == "ifc" && a.Args[0] == b || b.Op == "ifc" && b.Args[0] == a
}

// delegates checks that a listener does what another one does. It returns the
// events of each path of Close.
func (g *grEnv) delegates(props, name string, st *ai.State, v *ai.Term, targets []*ai.Term, pos token.Pos) (closes []ai.Outcome) {
	c := g.c
	if under(v, targets) {
		return nil
	}
	if !g.ck(props, v.Op == "ifc", pos, "listener", name, "what is served, %s, is not known to be the listener given (%v) or a wrapper of it", v, targets) {
		return nil
	}
	for _, mn := range []string{"Accept", "Close", "Addr"} {
		meth := c.ifaceMeth(c.std("net", "Listener").Type(), mn)
		s := st.Copy()
		s.ClearTrace()
		n := 0
		for _, o := range g.m.Invoke(s, v, meth, nil) {
			if o.Kind != ai.Ret {
				// nothing promised about a listener that panics
				ours := true
				for _, e := range o.St.Trace() {
					ours = ours && e.Kind != "userpanic"
				}
				g.ck(props, !ours, pos, "listener", name, "%s of the listener served can end in %s [%s]", mn, o.Kind, facts(o.St))
				continue
			}
			n++
			var call *ai.Event
			calls := 0
			flat(o.St.Trace(), func(e *ai.Event, in bool) {
				if len(e.Args) == 0 || !under(e.Args[0], targets) || e.Kind == "append" {
					return
				}
				if e.Kind == "go" || e.Kind == "defer" {
					return
				}
				i := strings.LastIndex(e.Name, ".")
				if i < 0 {
					return
				}
				switch w := e.Name[i+1:]; {
				case w == mn || mn == "Accept" && w == "AcceptTCP":
					call = e
					calls++
					if in {
						calls++
					}
				case w == "Addr" || w == "String":
				default:
					calls += 2
				}
			})
			if mn == "Addr" && calls == 0 && len(o.Vals) == 1 {
				// calls without effects are values
				x := o.Vals[0]
				if x.Op == "ifc" {
					x = x.Args[0]
				}
				if strings.HasSuffix(x.S, ".Addr") && len(x.Args) == 1 && under(x.Args[0], targets) {
					continue
				}
			}
			if !g.ck(props, calls == 1, pos, "listener", name, "%s of the listener served does not call just %s, and once, of the listener given [%s]", mn, mn, facts(o.St)) {
				continue
			}
			ok := true
			for i, r := range o.Vals {
				if i >= len(call.Res) {
					ok = false
					break
				}
				switch {
				case sameValue(r, call.Res[i]):
				case isNil(o.St, r) == 1 && isNil(o.St, call.Res[i]) == 1:
				case mn == "Accept" && i == 0 && isNil(o.St, r) == 1 && isNil(o.St, call.Res[1]) == -1:
				default:
					ok = false
				}
			}
			g.ck(props, ok, pos, "listener", name, "%s of the listener served returns %v, not what that of the listener given returns (%v) [%s]", mn, o.Vals, call.Res, facts(o.St))
			if mn == "Close" {
				closes = append(closes, o)
			}
		}
		g.ck(props, n > 0, pos, "listener", name, "%s of the listener served never returns", mn)
	}
	return
}

// touches lists the writes to what the caller's server refers to.
func touches(evs []*ai.Event, srv *ai.Term) (out []*ai.Event) {
	flat(evs, func(e *ai.Event, _ bool) {
		switch e.Kind {
		case "store", "mapset", "delete", "append", "copy", "clear", "default":
			if len(e.Args) > 0 && e.Args[0].Mentions(srv) {
				out = append(out, e)
			}
		case "atomic":
			if e.Name != "Load" && e.Args[0].Mentions(srv) {
				out = append(out, e)
			}
		case "call", "go", "dyn":
			if strings.HasSuffix(e.Name, ".Clone") {
				return
			}
			for _, a := range e.Args {
				if a == srv {
					out = append(out, e)
				}
				if strings.Contains(e.Name, "crypto/tls.") && a.Op == "ld" && a.Args[0].Op == "fa" && a.Args[0].Args[0] == srv {
					out = append(out, e)
				}
			}
		}
	})
	return
}

func isConstStr(t *ai.Term, ss ...string) bool {
	if !t.IsConst() || t.C.Kind() != constant.String {
		return false
	}
	for _, s := range ss {
		if constant.StringVal(t.C) == s {
			return true
		}
	}
	return false
}

// serving checks one path of a function that serves.
func (g *grEnv) serving(s *grServe, o ai.Outcome) bool {
	c := g.c
	name := s.name
	pos := s.fn.Pos()
	evs := o.St.Trace()
	var serve, wrap, listen, load, ntls []*ai.Event
	stray := ""
	flat(evs, func(e *ai.Event, in bool) {
		if e.Kind == "go" && e.Args[0].Op == "fn" {
			if n := e.Args[0].X.(*ssa.Function).String(); strings.HasPrefix(n, "(*net/http.Server).") || strings.HasPrefix(n, g.lp) {
				stray = n + " in a goroutine"
			}
		}
		if e.Kind != "call" {
			return
		}
		var l *[]*ai.Event
		switch {
		case e.Name == "(*net/http.Server).Serve":
			l = &serve
		case e.Name == g.lp+".Wrap":
			l = &wrap
		case e.Name == "net.Listen":
			l = &listen
		case e.Name == "crypto/tls.LoadX509KeyPair":
			l = &load
		case e.Name == "crypto/tls.NewListener":
			l = &ntls
		case strings.HasPrefix(e.Name, "(*net/http.Server)."):
			stray = e.Name
		}
		if l != nil {
			*l = append(*l, e)
			if in {
				stray = e.Name + " in a loop"
			}
		}
	})
	var lnTCP *ai.Term
	tcp := ptr(c.std("net", "TCPListener").Type())
	if len(listen) > 0 && len(listen[0].Res) == 2 {
		lnTCP = ai.TA(tcp, listen[0].Res[0])
		if o.Kind == ai.Panic && o.St.Decide(ai.IsT(tcp, listen[0].Res[0])) == -1 {
			return false // "tcp" listeners are *net.TCPListeners
		}
	}
	if o.Kind != ai.Ret {
		up := false
		flat(evs, func(e *ai.Event, _ bool) { up = up || e.Kind == "userpanic" })
		g.ck("C36", up, pos, "serves", name, "it can end in %s [%s]", o.Kind, facts(o.St))
		return false
	}
	g.ck("C36", stray == "", pos, "serves", name, "it calls %s [%s]", stray, facts(o.St))
	// listening
	res := o.Vals[len(o.Vals)-1]
	if s.l == nil {
		if s.tls && len(load) > 0 {
			x := load[0]
			g.ck("C37", len(load) == 1 && len(x.Args) == 2 && x.Args[0] == s.params["cert"] && x.Args[1] == s.params["key"], x.Pos, "certificate", name, "it loads %v, not the certificate and the key given", x.Args)
			if isNil(o.St, x.Res[1]) == -1 {
				g.ck("C37", res == x.Res[1], x.Pos, "errors", name, "the error of loading the key pair is not returned but %s [%s]", res, facts(o.St))
				g.ck("C37", len(serve) == 0, x.Pos, "errors", name, "it serves although the key pair could not be loaded [%s]", facts(o.St))
				if len(listen) > 0 && isNil(o.St, listen[0].Res[1]) == 1 {
					g.ck("C37", g.closed(evs, listen[0].Res[0], lnTCP), listen[0].Pos, "errors", name, "the listener stays open although nothing is served [%s]", facts(o.St))
				}
				return false
			}
			g.ck("C37", isNil(o.St, x.Res[1]) == 1, x.Pos, "errors", name, "it may go on although the key pair could not be loaded [%s]", facts(o.St))
		}
		if len(listen) > 0 {
			x := listen[0]
			ok := len(listen) == 1 && len(x.Args) == 2 && isConstStr(x.Args[0], "tcp")
			if ok {
				none := o.St.Decide(ai.Eq(s.addr, ai.Str("")))
				def := []string{":http", ":80"}
				if s.tls {
					def = []string{":https", ":443"}
				}
				switch {
				case none == -1:
					ok = x.Args[1] == s.addr
				case none == 1:
					ok = isConstStr(x.Args[1], def...)
				default:
					ok = false
				}
			}
			g.ck("C36C37", ok, x.Pos, "address", name, "it listens on %v, not on the server's address (%s) [%s]", x.Args, s.addr, facts(o.St))
			if isNil(o.St, x.Res[1]) == -1 {
				g.ck("C36C37", res == x.Res[1], x.Pos, "errors", name, "the error of listening is not returned but %s [%s]", res, facts(o.St))
				g.ck("C36C37", len(serve) == 0, x.Pos, "errors", name, "it serves although listening failed [%s]", facts(o.St))
				return false
			}
			g.ck("C36C37", isNil(o.St, x.Res[1]) == 1, x.Pos, "errors", name, "it may go on although listening failed [%s]", facts(o.St))
		}
	}
	if !g.ck("C36C37", len(serve) == 1 && len(serve[0].Args) == 2, pos, "serves", name, "it can return without having served, or serves %d times [%s]", len(serve), facts(o.St)) {
		return false
	}
	sv := serve[0]
	shadow := sv.Args[0]
	g.untouched(s, o, sv)
	g.settings(s, sv, shadow, facts(o.St))
	g.connState(s, sv, shadow)
	// the listener
	var base *ai.Term
	switch {
	case s.l != nil:
		base = s.l
	case len(listen) == 1:
		base = listen[0].Res[0]
	default:
		g.ck("C36C37", false, pos, "listener", name, "it serves without listening [%s]", facts(o.St))
		return false
	}
	targets := []*ai.Term{base, ai.TA(tcp, base)}
	if s.tls {
		if !g.ck("C37", len(ntls) == 1, pos, "tls", name, "%d TLS listeners are made [%s]", len(ntls), facts(o.St)) || len(ntls) != 1 {
			return false
		}
		g.delegates("C37", name, ntls[0].St, ntls[0].Args[0], targets, ntls[0].Pos)
		g.tlsConfig(s, o, ntls[0], load)
		targets = []*ai.Term{ntls[0].Res[0]}
	}
	if !g.ck("C36", len(wrap) == 1, pos, "mode", name, "listener.Wrap is called %d times [%s]", len(wrap), facts(o.St)) || len(wrap) != 1 {
		return true
	}
	w := wrap[0]
	am, _ := c.pkg(lsPath).Types.Scope().Lookup("Automatic").(*types.Const)
	g.ck("C36", am != nil && w.Args[1].IsConst() && w.Args[1].C.ExactString() == am.Val().ExactString(), w.Pos, "mode", name, "the listener is wrapped in mode %s, not Automatic", w.Args[1])
	T := w.Res[0]
	g.ck("C36", sameValue(sv.Args[1], T), sv.Pos, "listener", name, "what is served is %s, not the wrapped listener", sv.Args[1])
	// registered before serving
	before := ai.NewState()
	ch := g.changed(before, sv.St)
	reg := len(ch) == 1 && ch[0].addr == g.lst && g.appended(before, sv.St, ch[0]) == T
	g.ck("C36", reg, sv.Pos, "registered", name, "when it starts to serve, the wrapped listener has not been added, once, to the listeners that the shutdown closes (%d lists have changed) [%s]", len(ch), facts(sv.St))
	flat(evs, func(e *ai.Event, _ bool) {
		if e.Kind == "store" && e.Args[0] == g.lst && e.Pos > token.NoPos {
			late := true
			for _, x := range sv.St.Trace() {
				late = late && x != e
			}
			g.ck("C36", !late, e.Pos, "registered", name, "the list of listeners changes after serving has begun")
		}
	})
	// what closing does
	closes := g.delegates("C36", name, w.St, w.Args[0], targets, w.Pos)
	g.ck("C36", len(closes) > 0, w.Pos, "keepalive", name, "closing the listener does not disable keep-alives")
	for _, cl := range closes {
		off := false
		for _, e := range cl.St.Trace() {
			if e.Kind == "call" && e.Name == "(*net/http.Server).SetKeepAlivesEnabled" {
				off = e.Args[0] == shadow && cl.St.Decide(e.Args[1]) == -1
			}
		}
		g.ck("C36", off, w.Pos, "keepalive", name, "a path of closing the listener does not disable keep-alives of the server that serves [%s]", facts(cl.St))
	}
	return true
}

// closed tells whether a listener is closed on the path.
func (g *grEnv) closed(evs []*ai.Event, ls ...*ai.Term) bool {
	for _, e := range evs {
		if e.Kind == "call" && strings.HasSuffix(e.Name, ".Close") && under(e.Args[0], ls) {
			return true
		}
	}
	return false
}

// untouched: nothing of the caller's is written.
func (g *grEnv) untouched(s *grServe, o ai.Outcome, sv *ai.Event) {
	if s.srv == nil {
		return
	}
	bad := touches(o.St.Trace(), s.srv)
	what := ""
	p := "C36"
	if len(bad) > 0 {
		what = bad[0].String()
		for _, b := range bad {
			if len(b.Args) > 0 && strings.Contains(b.Args[0].String(), "TLSConfig") {
				p = "C36C37"
			}
		}
	}
	g.ck(p, len(bad) == 0, sv.Pos, "untouched", s.name, "the caller's server or what it refers to may be changed: %s", what)
	if s.tls {
		g.ck("C37", p != "C36C37", sv.Pos, "untouched", s.name, "the caller's TLS configuration may be changed: %s", what)
	}
}

// settings: the server that serves has the caller's settings.
func (g *grEnv) settings(s *grServe, sv *ai.Event, shadow *ai.Term, fs string) {
	hsT := g.c.std("net/http", "Server").Type()
	g.ck("C36", shadow != s.srv, sv.Pos, "untouched", s.name, "the caller's own server serves")
	for _, f := range leaves(shadow, hsT, "") {
		n := strings.TrimPrefix(f.name, ".")
		if strings.Contains(n, ".") || !token.IsExported(n) || n == "ConnState" {
			continue
		}
		i, t, _ := field(hsT, n)
		v := g.m.Load(sv.St.Copy(), f.addr, f.typ)
		var want *ai.Term
		switch {
		case s.srv != nil:
			want = g.m.Load(s.st.Copy(), ai.FA(s.srv, i, t), t)
		case n == "Handler":
			want = s.h
		case n == "Addr":
			continue
		default:
			want = ai.Zero(t)
		}
		g.ck("C36", v == want || isNil(sv.St, want) == 1 && isNil(sv.St, v) == 1 || sv.St.Decide(ai.Eq(v, want)) == 1, sv.Pos, "settings", s.name, "%s of the server that serves is %s, not %s [%s]", n, v, want, fs)
	}
}

// connState: what the state callback of the server that serves does.
func (g *grEnv) connState(s *grServe, sv *ai.Event, shadow *ai.Term) {
	c := g.c
	hsT := c.std("net/http", "Server").Type()
	i, t, _ := field(hsT, "ConnState")
	f := g.m.Load(sv.St.Copy(), ai.FA(shadow, i, t), t)
	cb := ai.Nil()
	if s.srv != nil {
		cb = g.m.Load(s.st.Copy(), ai.FA(s.srv, i, t), t)
	}
	if !g.ck("C36", f.Op == "clo" || f.Op == "fn", sv.Pos, "callback", s.name, "the state callback of the server that serves is %s", f) {
		return
	}
	sig := t.Underlying().(*types.Signature)
	nc := ai.Sym("conn", sig.Params().At(0).Type())
	cs := ai.Sym("state", sig.Params().At(1).Type())
	st := sv.St.Copy()
	st.ClearTrace()
	st.Assume(ai.Eq(nc, ai.Nil()), false)
	state := func(n string) *ai.Term {
		k := c.std("net/http", n).(*types.Const)
		v, _ := constant.Int64Val(k.Val())
		return ai.Int(v)
	}
	n := 0
	for _, o := range g.m.ExecFun(f, []*ai.Term{nc, cs}, st) {
		idle, hij, act := o.St.Decide(ai.Eq(cs, state("StateIdle"))), o.St.Decide(ai.Eq(cs, state("StateHijacked"))), o.St.Decide(ai.Eq(cs, state("StateActive")))
		marks, disowns, calls := 0, 0, 0
		bad := ""
		up := false
		flat(o.St.Trace(), func(e *ai.Event, in bool) {
			w := 1
			if in {
				w = 2
			}
			switch {
			case e.Kind == "userpanic":
				up = true
			case e.Kind == "call" && e.Name == g.lp+".MarkIdle" && e.Args[0] == nc:
				marks += w
			case e.Kind == "call" && e.Name == g.lp+".Disown" && e.Args[0] == nc:
				disowns += w
			case e.Kind == "call" && e.Name == g.lp+".MarkInUse" && e.Args[0] == nc && act == 1:
			case e.Kind == "call" && strings.Contains(e.Name, g.lp):
				bad = e.String()
			case e.Kind == "dyn" && e.Args[0] == cb && len(e.Args) == 3 && e.Args[1] == nc && e.Args[2] == cs:
				calls += w
			case e.Kind == "dyn" || e.Kind == "go":
				bad = e.String()
			case len(e.Args) > 0 && e.Args[0] == nc && e.Kind == "call" && strings.HasPrefix(e.Name, "(net.Conn)."):
				switch strings.TrimPrefix(e.Name, "(net.Conn).") {
				case "LocalAddr", "RemoteAddr":
				default:
					bad = e.String()
				}
			}
		})
		if o.Kind != ai.Ret {
			g.ck("C36", up, sv.Pos, "callback", s.name, "the state callback can end in %s [%s]", o.Kind, facts(o.St))
			continue
		}
		n++
		fs := facts(o.St)
		g.ck("C36", bad == "", sv.Pos, "callback", s.name, "the state callback may do this: %s [%s]", bad, fs)
		g.ck("C36", idle == 1 && marks == 1 || idle == -1 && marks == 0, sv.Pos, "idle", s.name, "the connection is marked idle %d times although it is not clear that it has, or has not, just become idle [%s]", marks, fs)
		g.ck("C36", hij == 1 && disowns == 1 || hij == -1 && disowns == 0, sv.Pos, "hijacked", s.name, "the connection is disowned %d times although it is not clear that it has, or has not, just been hijacked [%s]", disowns, fs)
		none := isNil(o.St, cb)
		g.ck("C36", none == 1 && calls == 0 || none != 1 && calls == 1, sv.Pos, "callback", s.name, "the caller's state callback (%s) is called %d times with the connection and its state [%s]", cb, calls, fs)
	}
	g.ck("C36", n > 0, sv.Pos, "callback", s.name, "the state callback never returns")
}

// tlsConfig: the configuration of the TLS listener.
func (g *grEnv) tlsConfig(s *grServe, o ai.Outcome, nl *ai.Event, load []*ai.Event) {
	c := g.c
	hsT := c.std("net/http", "Server").Type()
	cT := c.std("crypto/tls", "Config").Type()
	cfg := nl.Args[1]
	st := nl.St
	fs := facts(st)
	orig := ai.Nil()
	if s.srv != nil {
		i, t, _ := field(hsT, "TLSConfig")
		orig = g.m.Load(s.st.Copy(), ai.FA(s.srv, i, t), t)
	}
	given := -isNil(o.St, orig)
	if !g.ck("C37", given != 0 && cfg != orig, nl.Pos, "config", s.name, "the configuration used, %s, may be the caller's own [%s]", cfg, fs) {
		return
	}
	if !g.ck("C37", cfg.Root().Op == "obj", nl.Pos, "config", s.name, "the configuration used, %s, is not a new one [%s]", cfg, fs) {
		return
	}
	if !g.ck("C37", len(load) == 1, nl.Pos, "certificate", s.name, "%d key pairs have been loaded [%s]", len(load), fs) || len(load) != 1 {
		return
	}
	ut := cT.Underlying().(*types.Struct)
	for i := 0; i < ut.NumFields(); i++ {
		f := ut.Field(i)
		if !f.Exported() {
			continue
		}
		v := g.m.Load(st.Copy(), ai.FA(cfg, i, f.Type()), f.Type())
		want := ai.Zero(f.Type())
		if given == 1 {
			want = g.m.Load(s.st.Copy(), ai.FA(orig, i, f.Type()), f.Type())
		}
		same := v == want || isNil(st, want) == 1 && isNil(st, v) == 1 || st.Decide(ai.Eq(v, want)) == 1
		switch f.Name() {
		case "Certificates":
			et := f.Type().Underlying().(*types.Slice).Elem()
			ok := st.Copy().Decide(ai.Eq(ai.Len(v), ai.Int(1))) == 1
			if ok {
				x := g.m.Load(st.Copy(), ai.ElemAddr(v, ai.Int(0), et), et)
				ok = x == load[0].Res[0] || x.Op == "agg" && sameAgg(g.m, st, x, load[0].Res[0], et)
			}
			g.ck("C37", ok, nl.Pos, "certificate", s.name, "the certificates are not just the one that was loaded but %s [%s]", v, fs)
		case "NextProtos":
			missing := isNil(o.St, want)
			switch missing {
			case -1:
				g.ck("C37", same, nl.Pos, "protocols", s.name, "the caller's list of protocols is replaced by %s [%s]", v, fs)
			case 1:
				et := f.Type().Underlying().(*types.Slice).Elem()
				ok := st.Copy().Decide(ai.Eq(ai.Len(v), ai.Int(1))) == 1 && isConstStr(g.m.Load(st.Copy(), ai.ElemAddr(v, ai.Int(0), et), et), "http/1.1")
				g.ck("C37", ok, nl.Pos, "protocols", s.name, "a missing list of protocols is replaced by %s, not by http/1.1 [%s]", v, fs)
			default:
				g.ck("C37", false, nl.Pos, "protocols", s.name, "the list of protocols, %s, does not depend on whether the caller gave one [%s]", v, fs)
			}
		case "MinVersion":
			if given == 1 {
				g.ck("C37", same, nl.Pos, "setting", s.name, "MinVersion is %s, not the caller's %s [%s]", v, want, fs)
				continue
			}
			ok := st.Decide(ai.Le(ai.Int(0x0301), v)) == 1 && st.Decide(ai.Le(v, ai.Int(0x0304))) == 1
			g.ck("C37", ok, nl.Pos, "minimum", s.name, "without a configuration, the least version is %s, which is not TLS 1.0 or higher [%s]", v, fs)
		default:
			g.ck("C37", same, nl.Pos, "setting", s.name, "%s is %s, not %s [%s]", f.Name(), v, want, fs)
		}
	}
	// nothing changes it afterwards
	seen := false
	flat(o.St.Trace(), func(e *ai.Event, _ bool) {
		if e == nl {
			seen = true
		}
		if seen && e.Kind == "store" && e.Args[0].Mentions(cfg) {
			g.ck("C37", false, e.Pos, "config", s.name, "the configuration changes after it has been handed to the TLS listener: %s", e)
		}
	})
}

func sameAgg(m *ai.Machine, st *ai.State, x, y *ai.Term, t types.Type) bool {
	return st.Decide(ai.Eq(x, y)) == 1 || fmt.Sprint(x) == fmt.Sprint(y)
}

func runServing(c *Ctx) {
	g := &grEnv{c: c, m: c.grMachine(), lp: mod + "/" + lsPath}
	g.listeners()
	for _, s := range g.serveFns() {
		if c.Prop == "C37" && !s.tls {
			continue
		}
		c.entry(s.fn)
		n := 0
		for _, o := range g.m.Exec(s.fn, s.args(), s.st.Copy()) {
			if g.serving(s, o) {
				n++
			}
		}
		g.ck("C36C37", n > 0, s.fn.Pos(), "serves", s.name, "no path serves")
	}
	c.problems(g.m, "serving")
}
