package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"gojicheck/ai"
)

const lsPath = "graceful/listener"

// lpair is a reachable state of a connection (the values of its mutable fields
// and its membership in the maps of its shard) together with what the
// connection is according to the specification.
type lpair struct {
	vals  string
	ghost string // idle, busy, closed, disowned
}

type spair struct {
	vals  string
	drain bool
}

// lsn analyses the listener in one mode.
type lsn struct {
	c     *Ctx
	m     *ai.Machine
	tT    *types.Named
	connT types.Type // struct type of the connections Accept returns
	class map[types.Type]string
	t     *ai.Term
	st0   *ai.State
	mode  string

	mut    map[string]bool // mutable fields, by type and path
	newMut bool

	base       *ai.State
	P, C       *ai.Term // the connection, the real one
	shardOf    string   // field of the connection that leads to its shard
	pairs      []lpair
	from       []string // how the pair came about
	spairs     []spair
	cvals      map[string][]*ai.Term // decoded field values
	cbits      map[string]map[string]bool
	svals      map[string][]*ai.Term
	conns      map[int]*ai.Term
	record     bool
	unlocked   []lsAccess
	accesses   int
	wgAddr     *ai.Term // what is counted up for the connection of shard wgShard
	wgShard    *ai.Term
	edges      map[string]token.Pos
	lockEvents int
	und        []string
	finds      []lsFinding
	needed     map[string]map[string]bool // sets a drain walks: all, idle
	changed    bool
	draining   bool
	realField  string
	inner      func(*ai.State) *ai.Term // the wrapped listener
}

type lsAccess struct {
	pos  token.Pos
	what string
}

var lsModes = []string{"Manual", "Automatic", "Deadline"}

// owner finds the connection, shard or listener a mutex or field belongs to.
func (l *lsn) owner(a *ai.Term) (p *ai.Term, kind, path string) {
	for a.Op == "fa" {
		b := a.Args[0]
		path = "." + a.S + path
		if t := ai.Pointee(b); t != nil {
			if k := l.class[types.Unalias(t)]; k != "" {
				return b, k, path
			}
		}
		a = b
	}
	return nil, "", ""
}

func (l *lsn) ownerType(kind string) types.Type {
	for t, k := range l.class {
		if k == kind {
			return t
		}
	}
	return nil
}

// fields lists the mutable leaf fields of a class (other than maps).
func (l *lsn) fields(p *ai.Term, kind string) []leaf {
	var out []leaf
	for _, f := range leaves(p, l.ownerType(kind), "") {
		_, k, path := l.owner(f.addr)
		if k == kind && l.mut[kind+path] {
			if _, ok := f.typ.Underlying().(*types.Map); ok {
				continue
			}
			out = append(out, f)
		}
	}
	return out
}

// sets lists the fields of a shard which are maps with connections as keys.
func (l *lsn) sets(s *ai.Term) []leaf {
	var out []leaf
	for _, f := range leaves(s, l.ownerType("shard"), "") {
		if mt, ok := f.typ.Underlying().(*types.Map); ok {
			if p, ok := mt.Key().(*types.Pointer); ok && types.Identical(p.Elem(), l.connT) {
				out = append(out, f)
			}
		}
	}
	return out
}

func (l *lsn) isMut(a *ai.Term) bool {
	_, k, path := l.owner(a)
	return k == "" || l.mut[k+path]
}

func newLsn(c *Ctx, mode string) *lsn {
	l := &lsn{c: c, mode: mode, tT: c.named(lsPath, "T"), mut: map[string]bool{}, class: map[types.Type]string{}}
	l.class[l.tT] = "T"
	sc := c.pkg(lsPath).Types.Scope()
	// find the connections
	m := c.M.Sub()
	st := ai.NewState()
	t := ai.Sym("t", ptr(l.tT))
	st.Assume(ai.Eq(t, ai.Nil()), false)
	for _, o := range m.Exec(c.meth(ptr(l.tT), "Accept"), []*ai.Term{t}, st) {
		if o.Kind == ai.Ret && len(o.Vals) == 2 && o.Vals[0].Op == "ifc" && isNil(o.St, o.Vals[1]) == 1 {
			if p, ok := o.Vals[0].Typ.(*types.Pointer); ok {
				l.connT = types.Unalias(p.Elem())
			}
		}
	}
	if l.connT == nil {
		c.must(token.NoPos, "anchor", "listener.T.Accept", "no path returns a connection of a type of this package")
	}
	l.class[l.connT] = "conn"
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		nt, ok := types.Unalias(tn.Type()).(*types.Named)
		if !ok || l.class[nt] != "" {
			continue
		}
		if s, ok := nt.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if mt, ok := s.Field(i).Type().Underlying().(*types.Map); ok {
					if p, ok := mt.Key().(*types.Pointer); ok && types.Identical(p.Elem(), l.connT) {
						l.class[nt] = "shard"
					}
				}
			}
		}
	}
	if l.ownerType("shard") == nil {
		c.must(token.NoPos, "anchor", "listener shards", "no structure with sets of connections found")
	}
	return l
}

func (l *lsn) reset() {
	c := l.c
	m := c.M.Sub()
	l.m = m
	l.pairs, l.from, l.spairs = nil, nil, nil
	l.cvals, l.cbits, l.svals = map[string][]*ai.Term{}, map[string]map[string]bool{}, map[string][]*ai.Term{}
	l.conns = map[int]*ai.Term{}
	l.edges = map[string]token.Pos{}
	l.unlocked, l.accesses, l.lockEvents = nil, 0, 0
	l.base, l.P, l.C = nil, nil, nil
	l.wgAddr, l.wgShard = nil, nil
	m.GenericRange = true
	m.OutLimit, m.PtLimit = 64, 64
	m.Keep = nil
	m.Stable = func(s *ai.State, a *ai.Term) bool {
		if _, k, _ := l.owner(a); k != "" {
			return !l.isMut(a) || k != "T"
		}
		// the array of shards
		return a.Op != "sym" && l.partOfT(a)
	}
	m.Private = func(s *ai.State, a *ai.Term) bool {
		_, k, _ := l.owner(a)
		return k != ""
	}
	m.OnAccess = l.onAccess
	m.OnLock = l.onLock
	m.OnUnlock = l.onUnlock
	st := ai.NewState()
	l.t = ai.Sym("t", ptr(l.tT))
	st.Assume(ai.Eq(l.t, ai.Nil()), false)
	// the mode
	mc, ok := c.pkg(lsPath).Types.Scope().Lookup(l.mode).(*types.Const)
	if !ok {
		c.must(token.NoPos, "anchor", "listener."+l.mode, "no such constant")
	}
	for _, f := range leaves(l.t, l.tT, "") {
		if types.Identical(f.typ, mc.Type()) {
			n, _ := constant.Int64Val(mc.Val())
			m.SetCell(st, f.addr, ai.K(constant.MakeInt64(n), mc.Type()))
		}
	}
	l.st0 = st
}

func (l *lsn) partOfT(a *ai.Term) bool {
	for a.Op == "ia" || a.Op == "fa" || a.Op == "ld" || a.Op == "app" && len(a.Args) > 0 {
		if _, k, _ := l.owner(a); k == "T" {
			return true
		}
		a = a.Args[0]
	}
	return false
}

func (l *lsn) onAccess(s *ai.State, a *ai.Access) {
	if a.Atomic {
		return
	}
	addr := a.Addr
	content := addr.Op == "mapcontent"
	if content {
		addr = addr.Args[0]
		if addr.Op != "ld" {
			return
		}
		addr = addr.Args[0]
	}
	p, k, path := l.owner(addr)
	if p == nil {
		return
	}
	if t := a.Typ; t != nil && !content {
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
			return
		}
	}
	if a.Write && !content && !l.mut[k+path] {
		l.mut[k+path] = true
		l.newMut = true
	}
	if !content && !l.mut[k+path] {
		return
	}
	l.accesses++
	for id := range s.Locks {
		q, k2, _ := l.owner(ai.TermByID(id))
		if q == p && k2 == k && (s.Locks[id] > 0 || !a.Write) {
			return
		}
	}
	how := "read"
	if a.Write {
		how = "written"
	}
	what := "field " + addr.String()
	if i := strings.LastIndex(what, "."); i >= 0 {
		what = "field " + what[i+1:]
	}
	l.unlocked = append(l.unlocked, lsAccess{a.Pos, fmt.Sprintf("%s of the %s is %s without holding its lock (in %s)", what, k, how, short(a.In.String()))})
}

func bitKey(f, pid string) string { return "bit|" + f + "|" + pid }

// bits finds the membership knowledge about locked connections.
func (l *lsn) bits(st *ai.State) (keys []string) {
	for k := range st.Ghost {
		if strings.HasPrefix(k, "bit|") {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	return
}

func (l *lsn) bitConn(k string) (f string, p *ai.Term) {
	ps := strings.Split(k, "|")
	var id int
	fmt.Sscan(ps[2], &id)
	return ps[1], l.conns[id]
}

func (l *lsn) shardPtr(st *ai.State, p *ai.Term) *ai.Term {
	sh := l.ownerType("shard")
	for _, f := range leaves(p, l.connT, "") {
		if pt, ok := f.typ.Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), sh) {
			return l.m.Load(st, f.addr, f.typ)
		}
	}
	return nil
}

func (l *lsn) onLock(m *ai.Machine, st *ai.State, mu *ai.Term, read bool) []*ai.State {
	p, k, _ := l.owner(mu)
	l.lockEvents++
	for id := range st.Locks {
		if id == mu.ID {
			continue
		}
		_, k2, _ := l.owner(ai.TermByID(id))
		if k2 == "" {
			k2 = "other"
		}
		k1 := k
		if k1 == "" {
			k1 = "other"
		}
		e := k2 + ">" + k1
		if _, ok := l.edges[e]; !ok {
			l.edges[e] = token.NoPos
		}
	}
	switch k {
	case "conn":
		if p.Op == "obj" && l.base == nil {
			return []*ai.State{st}
		}
		l.conns[p.ID] = p
		var out []*ai.State
		for i, pr := range l.pairs {
			s := st.Copy()
			for j, f := range l.fields(p, "conn") {
				if j < len(l.cvals[pr.vals]) {
					m.SetCell(s, f.addr, l.cvals[pr.vals][j])
				}
			}
			for f, b := range l.cbits[pr.vals] {
				s.Ghost[bitKey(f, fmt.Sprint(p.ID))] = ai.Bool(b)
			}
			m.Emit(s, &ai.Event{Kind: "enter", Args: []*ai.Term{p, ai.Int(int64(i))}})
			out = append(out, s)
		}
		return out
	case "shard":
		var out []*ai.State
		sure := false
		if g := st.Ghost["mono|"+fmt.Sprint(p.ID)]; g != nil {
			n, ok := g.Int()
			sure = ok && n == 1
		}
		for i, pr := range l.spairs {
			if sure && !pr.drain {
				continue
			}
			s := st.Copy()
			s.Ghost["spre|"+fmt.Sprint(p.ID)] = ai.Str(pr.vals)
			for j, f := range l.fields(p, "shard") {
				if j < len(l.svals[pr.vals]) {
					m.SetCell(s, f.addr, l.svals[pr.vals][j])
				}
			}
			var others []*ai.Term
			for _, f := range l.sets(p) {
				M := m.Load(s, f.addr, f.typ)
				for _, o := range others {
					s.Assume(ai.Eq(o, M), false)
				}
				others = append(others, M)
			}
			for _, f := range l.sets(p) {
				M := m.Load(s, f.addr, f.typ)
				m.SetMapBase(s, M, s.Fresh("content", nil).S)
				for _, bk := range l.bits(s) {
					fn, q := l.bitConn(bk)
					if fn == f.name && l.shardPtr(s, q) == p {
						m.SetMap(s, M, q, s.Ghost[bk], ai.Zero(f.typ.Underlying().(*types.Map).Elem()))
					}
				}
			}
			m.Emit(s, &ai.Event{Kind: "senter", Args: []*ai.Term{p, ai.Int(int64(i))}})
			out = append(out, s)
		}
		return out
	}
	return []*ai.State{st}
}

// encode names a list of constant values.
func (l *lsn) encode(st *ai.State, fs []leaf, what string) (string, []*ai.Term) {
	var k []string
	var vs []*ai.Term
	for _, f := range fs {
		v := l.m.Load(st, f.addr, f.typ)
		if !v.IsConst() && !v.IsNil() {
			switch st.Decide(v) {
			case 1:
				v = ai.True()
			case -1:
				v = ai.False()
			}
		}
		if !v.IsConst() && !v.IsNil() {
			l.undecided("the value %s of %s%s is not known when its lock is released", v, what, f.name)
		}
		k = append(k, f.name+"="+v.String())
		vs = append(vs, v)
	}
	return strings.Join(k, " "), vs
}

func (l *lsn) shardVals(st *ai.State, p *ai.Term) string {
	k, vs := l.encode(st, l.fields(p, "shard"), "shard")
	l.svals[k] = vs
	return k
}

func (l *lsn) connVals(st *ai.State, p *ai.Term) string {
	k, vs := l.encode(st, l.fields(p, "conn"), "conn")
	bits := map[string]bool{}
	for _, bk := range l.bits(st) {
		f, q := l.bitConn(bk)
		if q == p {
			b, ok := st.Ghost[bk].Bool()
			if !ok {
				l.undecided("it is not known whether the connection is in %s when its lock is released", f)
			}
			bits[f] = b
		}
	}
	return l.intern(k, vs, bits)
}

func (l *lsn) intern(k string, vs []*ai.Term, bits map[string]bool) string {
	var fs []string
	for f, b := range bits {
		if b {
			fs = append(fs, f)
		}
	}
	sort.Strings(fs)
	k += " in{" + strings.Join(fs, ",") + "}"
	l.cvals[k] = vs
	l.cbits[k] = bits
	return k
}

func (l *lsn) onUnlock(m *ai.Machine, st *ai.State, mu *ai.Term, read bool) {
	p, k, _ := l.owner(mu)
	switch k {
	case "conn":
		if p.Op == "obj" && l.base == nil {
			return
		}
		key := l.connVals(st, p)
		m.Emit(st, &ai.Event{Kind: "leave", Name: key, Args: []*ai.Term{p}})
		for _, bk := range l.bits(st) {
			if _, q := l.bitConn(bk); q == p {
				delete(st.Ghost, bk)
			}
		}
	case "shard":
		var in []string
		for _, bk := range l.bits(st) {
			fn, q := l.bitConn(bk)
			for _, f := range l.sets(p) {
				if f.name != fn || l.shardPtr(st, q) != p {
					continue
				}
				_, has := m.MapGet(st, m.Load(st, f.addr, f.typ), q, f.typ.Underlying().(*types.Map).Elem())
				switch st.Decide(has) {
				case 1:
					st.Ghost[bk] = ai.True()
					in = append(in, fn)
				case -1:
					st.Ghost[bk] = ai.False()
				default:
					l.undecided("membership %s is not known", has)
				}
			}
		}
		post := l.shardVals(st, p)
		pk, mk := "spre|"+fmt.Sprint(p.ID), "mono|"+fmt.Sprint(p.ID)
		if g := st.Ghost[pk]; g != nil {
			pre, _ := g.Str()
			if l.draining && pre != post {
				l.reachShard(post, true, "drain", token.NoPos)
			}
			delete(st.Ghost, pk)
		}
		drains := false
		for _, q := range l.spairs {
			if q.vals == post {
				drains = q.drain
				if !drains {
					break
				}
			}
		}
		delete(st.Ghost, mk)
		if drains {
			st.Ghost[mk] = ai.Int(1)
		}
		m.Emit(st, &ai.Event{Kind: "sleave", Name: post, Args: []*ai.Term{p, ai.Str(strings.Join(in, ","))}})
	}
}

func (l *lsn) undecided(f string, a ...any) {
	l.und = append(l.und, fmt.Sprintf(f, a...))
}

func (l *lsn) dump(w *os.File, n string, outs []ai.Outcome) {
	for _, o := range outs {
		fmt.Fprintf(w, "== %s %s %v\n%s\n  facts %s\n", n, o.Kind, o.Vals, trace(o.St.Trace()), facts(o.St))
	}
}

// --- findings, kept until the mutable fields are known

type lsFinding struct {
	props           string
	ok              bool
	pos             token.Pos
	kind, construct string
	msg             string
}

func (l *lsn) ck(props string, ok bool, pos token.Pos, kind, construct, f string, a ...any) bool {
	all := os.Getenv("LSALL") != ""
	if !strings.Contains(props, l.c.Prop) && !all {
		return ok
	}
	x := lsFinding{props, ok, pos, kind, construct, ""}
	if !ok {
		if all {
			f = "<" + props + "> " + f
		}
		x.msg = fmt.Sprintf(f, a...) + " (" + l.mode + " mode)"
	}
	l.finds = append(l.finds, x)
	return ok
}

// --- paths

type lsShardSec struct {
	S    *ai.Term
	pre  int
	post string
	in   string
	done bool
}

type lsSec struct {
	P      *ai.Term
	pre    int
	post   string
	shards []*lsShardSec
}

type lsWG struct {
	kind string
	addr *ai.Term
	n    *ai.Term
	at   int
	pos  token.Pos
	sec  *lsShardSec
}

type lsReal struct {
	name string
	args []*ai.Term
	res  []*ai.Term
	at   int
	pos  token.Pos
	held bool
}

type lpath struct {
	name   string
	o      ai.Outcome
	secs   []*lsSec
	shards []*lsShardSec
	wgs    []lsWG
	reals  []lsReal // calls on the real connection
	copies int
	pos    token.Pos
}

var lsBlocking = map[string]bool{"Read": true, "ReadFrom": true, "WriteTo": true, "Accept": true, "Wait": true, "Sleep": true, "Copy": true, "CopyN": true, "CopyBuffer": true, "ReadFull": true, "ReadAll": true}

// blocking checks that nothing on the path blocks with a lock held and that
// locks are used correctly.
func (l *lsn) locking(evs []*ai.Event, name string) {
	held := map[*ai.Term]bool{}
	var walk func(evs []*ai.Event)
	walk = func(evs []*ai.Event) {
		for _, e := range evs {
			switch e.Kind {
			case "loop":
				for _, it := range e.Loop.Iters {
					walk(it.Trace.Events())
				}
			case "lock", "rlock":
				_, k, _ := l.owner(e.Args[0])
				for h := range held {
					_, k2, _ := l.owner(h)
					l.ck("C30", !(k2 == k && k != "") && !(k2 == "shard" && k == "conn"), e.Pos, "order", name, "the lock of a %s is taken while that of a %s is held: two such sections can wait for each other forever", k, k2)
				}
				held[e.Args[0]] = true
			case "unlock", "runlock":
				delete(held, e.Args[0])
			case "relock":
				l.ck("C30", false, e.Pos, "order", name, "a lock is taken again while it is held")
			case "badunlock":
				l.ck("C30", false, e.Pos, "released", name, "a lock is released that is not held")
			case "send", "recv", "select", "wait":
				l.ck("C30", len(held) == 0, e.Pos, "blocking", name, "a channel is used while a lock is held")
			case "go":
				l.ck("C27 C28 C29 C30", false, e.Pos, "undecided", name, "a goroutine is started: its effects are not analysed")
			case "wg":
				if e.Name == "Wait" {
					l.ck("C30", len(held) == 0, e.Pos, "blocking", name, "a drain is waited for while a lock is held")
				}
			case "call", "invoke", "dyn":
				n := e.Name
				if i := strings.LastIndex(n, "."); i >= 0 {
					n = n[i+1:]
				}
				if lsBlocking[n] {
					l.ck("C30", len(held) == 0, e.Pos, "blocking", name, "%s is called while a lock is held", e.Name)
				}
			}
		}
	}
	walk(evs)
}

// realName is the method an event calls on the real connection c.
func realName(e *ai.Event, c *ai.Term) string {
	if (e.Kind == "invoke" || e.Kind == "call") && len(e.Args) > 0 && (e.Args[0] == c || e.Args[0].Op == "ifc" && e.Args[0].Args[0] == c) {
		n := e.Name
		if i := strings.LastIndex(n, "."); i >= 0 {
			n = n[i+1:]
		}
		return n
	}
	return ""
}

func (l *lsn) path(name string, evs []*ai.Event, o ai.Outcome, C *ai.Term) *lpath {
	p := &lpath{name: name, o: o}
	var cur *lsSec
	var sh *lsShardSec
	for i, e := range evs {
		if e.Pos.IsValid() && !p.pos.IsValid() {
			p.pos = e.Pos
		}
		switch e.Kind {
		case "enter":
			n, _ := e.Args[1].Int()
			cur = &lsSec{P: e.Args[0], pre: int(n)}
			p.secs = append(p.secs, cur)
		case "leave":
			if cur != nil {
				cur.post = e.Name
			}
			cur = nil
		case "senter":
			n, _ := e.Args[1].Int()
			sh = &lsShardSec{S: e.Args[0], pre: int(n)}
			p.shards = append(p.shards, sh)
			if cur != nil {
				cur.shards = append(cur.shards, sh)
			}
		case "sleave":
			if sh != nil {
				sh.post, sh.done = e.Name, true
				sh.in, _ = e.Args[1].Str()
			}
			sh = nil
		case "wg":
			w := lsWG{kind: e.Name, addr: e.Args[0], at: i, pos: e.Pos, sec: sh}
			if len(e.Args) > 1 {
				w.n = e.Args[1]
			}
			p.wgs = append(p.wgs, w)
		case "mapset", "mapdel":
			M, k := e.Args[0], e.Args[1]
			if M.Op == "ld" {
				if q, kind, _ := l.owner(M.Args[0]); kind == "shard" {
					l.ck("C30", sh != nil && sh.S == q, e.Pos, "members", name, "the set of connections %s is changed without the lock of its shard", M)
					if name != "T.Accept" {
						l.ck("C30", cur != nil && cur.P == k, e.Pos, "members", name, "the membership of a connection is changed without holding the connection's lock")
					}
				}
			}
		case "loop":
			flat([]*ai.Event{e}, func(x *ai.Event, in bool) {
				switch x.Kind {
				case "enter", "leave", "senter", "wg":
					l.ck("C27 C28 C29 C30 C31 C32", false, x.Pos, "undecided", name, "an operation on one connection locks or counts inside a loop")
				}
				if n := realName(x, C); n != "" {
					p.reals = append(p.reals, lsReal{n, x.Args[1:], x.Res, i, x.Pos, cur != nil || sh != nil})
				}
			})
		}
		if n := realName(e, C); n != "" {
			p.reals = append(p.reals, lsReal{n, e.Args[1:], e.Res, i, e.Pos, cur != nil || sh != nil})
		}
		if e.Kind == "call" && strings.HasPrefix(e.Name, "io.Copy") && len(e.Args) > 1 && (e.Args[0] == C) {
			p.reals = append(p.reals, lsReal{"Copy", e.Args[1:], e.Res, i, e.Pos, cur != nil || sh != nil})
		}
	}
	l.locking(evs, name)
	if o.St != nil {
		l.ck("C30", len(o.St.Locks) == 0, p.pos, "released", name, "a path ends with a lock still held")
	}
	return p
}

func (p *lpath) count(n string) int {
	k := 0
	for _, r := range p.reals {
		if r.name == n {
			k++
		}
	}
	return k
}

func (p *lpath) real(n string) *lsReal {
	for i := range p.reals {
		if p.reals[i].name == n {
			return &p.reals[i]
		}
	}
	return nil
}

func (p *lpath) adds(kind string) int {
	k := 0
	for _, w := range p.wgs {
		if w.kind == kind {
			k++
		}
	}
	return k
}

func (p *lpath) closePos() token.Pos {
	if r := p.real("Close"); r != nil {
		return r.pos
	}
	return p.pos
}

func managed(g string) bool { return g == "idle" || g == "busy" }

// lastDrain tells whether the shard was draining in the last section a path
// (or section) has on it; ok is false without any.
func (l *lsn) lastDrain(ss []*lsShardSec) (drain, ok bool) {
	if len(ss) == 0 {
		return false, false
	}
	return l.spairs[ss[len(ss)-1].pre].drain, true
}

// effective picks the section in which the operation takes effect: the one
// that changes something, or the last one.
func (l *lsn) effective(p *lpath, P *ai.Term) *lsSec {
	var k *lsSec
	n := 0
	for _, s := range p.secs {
		if s.P != P {
			l.ck("C28 C30 C31", false, p.pos, "other", p.name, "an operation on one connection locks another one")
			continue
		}
		if s.post != "" && s.post != l.pairs[s.pre].vals {
			n++
		}
		if n == 0 || s.post != "" && s.post != l.pairs[s.pre].vals {
			k = s
		}
	}
	l.ck("C27 C28 C31 C32", n <= 1, p.pos, "atomic", p.name, "the state of the connection is changed in %d separate sections of its lock: other operations may come in between", n)
	return k
}

// step checks one path of an operation that acts on the connection P and
// records the states it leads to.
//
// op: close, visitidle, visitall, disown, idle, busy, read, none
func (l *lsn) step(op string, p *lpath, P *ai.Term) {
	sec := l.effective(p, P)
	ret := p.o.Kind == ai.Ret
	if p.o.Kind != ai.Ret {
		if p.o.Kind == ai.Panic {
			l.ck("C27 C31", false, p.pos, "panics", p.name, "the operation may panic")
		}
		return
	}
	nclose, ndone := p.count("Close"), p.adds("Done")
	l.ck("C27", p.adds("Add") == 0, p.pos, "count", p.name, "the drain count is raised by an operation on an existing connection")
	if sec == nil {
		// nothing was looked at
		l.ck("C27", ndone == 0, p.pos, "count", p.name, "the drain count is lowered without looking at the state of the connection")
		l.ck("C27 C28 C32", nclose == 0, p.closePos(), "closes", p.name, "the real connection is closed without looking at the state of the connection")
		l.ck("C31 C32", op == "none", p.pos, "state", p.name, "the operation neither looks at nor changes the state of the connection")
		return
	}
	pre := l.pairs[sec.pre]
	if os.Getenv("LSDBG") != "" {
		fmt.Fprintf(os.Stderr, "%s %s: %s [%s] -> %s close=%d done=%d\n", l.mode, p.name, pre.ghost, pre.vals, sec.post, nclose, ndone)
	}
	g := pre.ghost
	drain, looked := l.lastDrain(sec.shards)
	// what the specification wants
	post := g
	mustClose, mayClose := false, false
	switch op {
	case "close", "visitall":
		if managed(g) {
			post, mustClose = "closed", true
		}
	case "visitidle":
		if g == "idle" {
			post, mustClose = "closed", true
		}
	case "disown":
		if managed(g) {
			post = "disowned"
		}
	case "idle":
		if g == "busy" {
			post = "idle"
			if looked && drain {
				post, mustClose = "closed", true
			}
		}
		if g == "idle" && drain {
			mayClose = true
		}
	case "busy":
		if managed(g) {
			post = "busy"
		}
	case "read":
		if managed(g) && l.mode != "Manual" {
			post = "busy"
			if sec.post == pre.vals && isNil(p.o.St, p.o.Vals[1]) == -1 {
				post = g // a failed read need not count
			}
		}
	}
	what := fmt.Sprintf("%s connection", g)
	if drain && looked {
		what += " of a draining listener"
	}
	// real closes
	wantClose := 0
	if mustClose || op == "close" && g == "disowned" {
		wantClose = 1
	}
	cp := "C28"
	switch {
	case mustClose && (op == "idle" || strings.HasPrefix(op, "visit")):
		cp = "C29"
	case mustClose || op == "close":
		cp = "C27 C32"
	}
	if g == "disowned" {
		cp += " C28"
	}
	if g == "closed" {
		cp = "C27 C32"
	}
	if mayClose && nclose == 1 {
		post, mustClose = "closed", true
	} else {
		if !l.ck(cp, nclose == wantClose, p.closePos(), "closes", p.name, "the real connection of a %s is closed %d times, not %d", what, nclose, wantClose) {
			l.ck("C27", ndone == 0 || managed(g) && nclose == 1 && ndone == 1, p.pos, "count", p.name, "the drain count is lowered %d times for a %s that is closed %d times", ndone, what, nclose)
			return
		}
	}
	if nclose > 0 && managed(g) {
		post = "closed"
	}
	// the drain count
	gone := managed(g) && !managed(post)
	want := 0
	if gone {
		want = 1
	}
	l.ck("C27", ndone == want, p.pos, "count", p.name, "the drain count is lowered %d times, not %d, for a %s that ends up %s", ndone, want, what, post)
	for _, w := range p.wgs {
		if w.kind != "Done" {
			continue
		}
		l.ck("C27", w.addr == l.wgOf(l.shardPtr(p.o.St, P)), w.pos, "same", p.name, "the drain count lowered is not that of the connection's own shard")
		if post == "closed" {
			r := p.real("Close")
			l.ck("C27", r != nil && r.at < w.at, w.pos, "after", p.name, "the drain count is lowered before the real connection is closed: a drain can return while it is open")
		}
	}
	// membership while managed
	if managed(g) && managed(post) {
		for _, s := range sec.shards {
			l.ck("C29", l.inAny(s.in, "all"), p.pos, "members", p.name, "a managed connection is in none of the sets DrainAll walks after a section of the shard's lock, so that DrainAll can miss it")
			if g == "idle" && post == "idle" {
				l.ck("C29", l.inAny(s.in, "idle"), p.pos, "members", p.name, "an idle connection is in none of the sets a drain walks for a moment, so that the drain can miss it")
			}
		}
	}
	if op == "idle" && g == "busy" && post == "idle" && sec.post != pre.vals {
		l.ck("C29", looked, p.pos, "drained", p.name, "a connection becomes idle without looking whether the listener is draining")
	}
	// results
	res := func(i int) *ai.Term { return p.o.Vals[i] }
	if ret {
		switch op {
		case "close":
			switch {
			case g == "closed":
				l.ck("C32", isNil(p.o.St, res(0)) == -1, p.pos, "result", p.name, "closing a connection that is closed already may report success")
			case nclose == 1:
				l.ck("C31 C32", res(0) == p.real("Close").res[0], p.pos, "result", p.name, "Close of a %s returns %s, not the real connection's result", what, res(0))
			}
		case "disown":
			if managed(g) {
				l.ck("C31", isNil(p.o.St, res(0)) == 1, p.pos, "result", p.name, "disowning a %s reports %s", what, res(0))
			} else {
				l.ck("C27 C31", isNil(p.o.St, res(0)) == -1, p.pos, "result", p.name, "disowning a %s may report success", what)
			}
		case "read":
			r := p.real("Read")
			if r == nil {
				break
			}
			if g == "closed" {
				n, _ := res(0).Int()
				l.ck("C32", res(0).IsConst() && n == 0, p.pos, "nodata", p.name, "a read returns %s bytes although the connection was closed meanwhile", res(0))
				l.ck("C32", isNil(p.o.St, res(1)) == -1, p.pos, "nodata", p.name, "a read may report success although the connection was closed meanwhile")
			} else {
				pr := "C31"
				if g == "disowned" {
					pr = "C31 C32"
				}
				l.ck(pr, res(0) == r.res[0] && (res(1) == r.res[1] || p.o.St.Decide(ai.Eq(res(1), r.res[1])) == 1), p.pos, "result", p.name, "a read of a %s returns (%s, %s), not the real connection's results", what, res(0), res(1))
			}
		}
	}
	l.reach(sec.post, post, p)
}

func has(list, f string) bool {
	for _, x := range strings.Split(list, ",") {
		if x == f {
			return true
		}
	}
	return false
}

// reach records a state of the connection.
func (l *lsn) reach(vals, ghost string, p *lpath) {
	if vals == "" {
		return
	}
	for i, q := range l.pairs {
		if q.vals != vals {
			continue
		}
		if q.ghost == ghost {
			return
		}
		if managed(q.ghost) && managed(ghost) {
			l.ck("C31", false, p.pos, "state", p.name, "afterwards the connection should be %s, but it is in the state (%s) of one that is %s (%s)", ghost, vals, q.ghost, l.from[i])
		} else {
			l.ck("C27 C28 C32", false, p.pos, "state", p.name, "afterwards the connection should be %s, but it is in the state (%s) of one that is %s (%s)", ghost, vals, q.ghost, l.from[i])
		}
		return
	}
	if len(l.pairs) < 40 {
		l.pairs = append(l.pairs, lpair{vals, ghost})
		l.from = append(l.from, p.name)
		l.changed = true
	}
}

func (l *lsn) reachShard(vals string, drain bool, name string, pos token.Pos) {
	for _, q := range l.spairs {
		if q.vals == vals {
			if q.drain == drain {
				return
			}
			l.ck("C29", false, pos, "drained", name, "a shard that is draining is in the same state (%s) as one that is not", vals)
		}
	}
	if len(l.spairs) < 12 {
		l.spairs = append(l.spairs, spair{vals, drain})
		l.changed = true
	}
}

// wgOf is the drain count of a shard.
func (l *lsn) wgOf(S *ai.Term) *ai.Term {
	if l.wgAddr == nil || S == nil {
		return nil
	}
	return l.wgAddr.Subst(map[*ai.Term]*ai.Term{l.wgShard: S})
}

func (l *lsn) inAny(list, kind string) bool {
	for f := range l.needed[kind] {
		if has(list, f) {
			return true
		}
	}
	return false
}

// --- the operations of the listener

type lsFill struct {
	field    string
	complete bool
}

// drainOp checks CloseIdle, Drain and DrainAll.
func (l *lsn) drainOp(name string, set bool) {
	c, m := l.c, l.m
	fn := c.meth(ptr(l.tT), name)
	kind, op := "idle", "visitidle"
	if name == "DrainAll" {
		kind, op = "all", "visitall"
	}
	l.draining = name != "CloseIdle"
	outs := m.Exec(fn, []*ai.Term{l.t}, l.st0.Copy())
	draining := l.draining
	l.draining = false
	where := "T." + name
	pos := fn.Pos()
	seen := false
	for _, o := range outs {
		if o.Kind != ai.Ret {
			l.ck("C27", false, pos, "panics", where, "the call may end with a %s", o.Kind)
			continue
		}
		evs := o.St.Trace()
		l.locking(evs, where)
		l.ck("C30", len(o.St.Locks) == 0, pos, "released", where, "a path ends with a lock still held")
		fills := map[*ai.Term][]lsFill{}
		type visit struct {
			loop *ai.LoopNode
			X    *ai.Term
			all  bool
		}
		var visits []visit
		did := map[*ai.Event]string{}
		filled := map[*ai.Event][]*ai.Term{} // copies of a set
		visited := map[*ai.Event]*ai.Term{}  // whose members are visited
		elem := map[*ai.Event]*ai.Term{}     // for a list: the member visited
		own := map[*ai.LoopNode]bool{}       // visits connections in its iterations
		lastSec, firstWait := -1, -1
		var secLoop, waitLoop *ai.LoopNode
		var secS, waitS *ai.Term
		var scan func(evs []*ai.Event, loops []*ai.LoopNode, st *ai.State, sh *lsShardSec, top int)
		scan = func(evs []*ai.Event, loops []*ai.LoopNode, st *ai.State, sh *lsShardSec, top int) {
			var secEvs []*ai.Event
			for i, e := range evs {
				if len(loops) == 0 {
					top = i
				}
				switch e.Kind {
				case "senter":
					if len(secEvs) > 0 {
						break // the section of a visited connection
					}
					n, _ := e.Args[1].Int()
					sh = &lsShardSec{S: e.Args[0], pre: int(n)}
					lastSec = top
					secS = sh.S
					secLoop = nil
					if len(loops) > 0 {
						secLoop = loops[0]
					}
				case "sleave":
					if sh == nil {
						break
					}
					copied := draining && func() bool {
						for _, fs := range fills {
							if len(fs) > 0 {
								return true
							}
						}
						return false
					}()
					now := copied || l.spairs[sh.pre].drain || draining && e.Name != l.spairs[sh.pre].vals
					l.reachShard(e.Name, now, where, pos)
					did[e] = "section"
					if now {
						did[e] = "drained"
					}
					sh = nil
				case "enter":
					secEvs = append(secEvs, e)
				case "leave":
					secEvs = nil
				case "wg":
					if e.Name == "Wait" {
						if firstWait < 0 {
							firstWait = top
						}
						waitS, waitLoop = nil, nil
						e.Args[0].Subterms(func(u *ai.Term) {
							if waitS == nil && l.wgOf(u) == e.Args[0] {
								waitS = u
							}
						})
						if waitS != nil && l.wgAddr.Mentions(l.wgShard) && len(loops) == 0 {
							waitS = nil
						}
						if len(loops) > 0 {
							waitLoop = loops[0]
						}
						if len(loops) > 0 && secLoop == loops[0] {
							l.ck("C29", false, e.Pos, "wait", where, "one part of the listener is waited for before the other parts are told to drain")
						}
					}
				case "loop":
					L := e.Loop
					M, k := rangeOf(L)
					full := M != nil && i+1 < len(evs) && evs[i+1].Kind == "nextend" && evs[i+1].Args[0] == M
					if os.Getenv("LSDBG2") != "" {
						fmt.Fprintln(os.Stderr, "LOOP", where, M, k, full, L.Phis, l.setField(M, sh))
						for _, it := range L.Iters {
							fmt.Fprintln(os.Stderr, trace(it.Trace.Events()), it.Next)
						}
					}
					if f := l.setField(M, sh); f != "" {
						// sets or lists that get every member
						did[e] = "fill"
						for X := range puts(m, L, k) {
							fills[X] = append(fills[X], lsFill{f, full})
							filled[e] = append(filled[e], X)
						}
						break
					}
					// a loop over a list
					var lp *ai.LoopPhi
					visiting := false
					for _, it := range L.Iters {
						for _, x := range it.Trace.Events() {
							if x.Kind == "enter" {
								visiting = true
								if M == nil {
									k = x.Args[0]
								}
							}
						}
					}
					if visiting && M == nil {
						M, full, lp = overList(m, st, L, k)
						_ = lp
					}
					if visiting && M != nil {
						if c := l.copiedFrom(evs, M, fills); c != nil {
							M = c
						}
						if os.Getenv("LSDBG2") != "" {
							fmt.Fprintln(os.Stderr, "VISIT", where, M, full, "fills", fills)
						}
						visits = append(visits, visit{L, M, full})
						did[e] = "visit"
						visited[e] = M
						if lp != nil {
							elem[e] = k
						}
						if len(loops) > 0 {
							own[loops[0]] = true
						}
						for _, it := range L.Iters {
							p := l.path(where, it.Trace.Events(), ai.Outcome{Kind: ai.Ret, St: it.St}, l.realOf(it.St, k))
							p.pos = pos
							l.step(op, p, k)
						}
						break
					}
					for _, it := range L.Iters {
						scan(it.Trace.Events(), append(loops[:len(loops):len(loops)], L), it.St, sh, top)
					}
				}
			}
		}
		scan(evs, nil, o.St, nil, 0)
		if len(visits) == 0 && lastSec < 0 && firstWait < 0 {
			// no shards at all
			l.ck("C29", l.noShards(o.St), pos, "covers", where, "a path of the call looks at no part of the listener")
			continue
		}
		seen = true
		// every iteration does it
		if secLoop != nil {
			for _, it := range secLoop.Iters {
				has := map[string]bool{}
				for _, e := range it.Trace.Events() {
					has[did[e]] = true
				}
				if draining {
					l.ck("C29", has["drained"], pos, "drained", where, "a part of the listener is not told to drain [%s]", facts(it.St))
				}
				if has["fill"] {
					var copied []*ai.Term
					good := !own[secLoop]
					any := false
					evs := it.Trace.Events()
					for i, e := range evs {
						whole := true // the loop did not end early
						if e.Kind == "loop" {
							if k := elem[e]; k != nil {
								_, whole, _ = overList(m, it.St, e.Loop, k)
							} else if M, _ := rangeOf(e.Loop); M != nil {
								whole = i+1 < len(evs) && evs[i+1].Kind == "nextend" && evs[i+1].Args[0] == M
							}
						}
						if whole {
							copied = append(copied, filled[e]...)
							any = any || len(filled[e]) > 0
							for _, X := range copied {
								good = good || visited[e] == X
							}
						}
					}
					good = good && any || knownEmpty(it.St, kind, fills)
					l.ck("C29", good, pos, "visits", where, "not every connection in a set of the part of the listener is visited [%s]", facts(it.St))
				}
				if own[secLoop] && !has["visit"] {
					l.ck("C29", knownEmpty(it.St, kind, fills), pos, "visits", where, "a part of the listener is passed over whose connections are not visited [%s]", facts(it.St))
				}
			}
		}
		if waitLoop != nil {
			for _, it := range waitLoop.Iters {
				n := 0
				flat(it.Trace.Events(), func(e *ai.Event, in bool) {
					if e.Kind == "wg" && e.Name == "Wait" {
						n++
					}
				})
				l.ck("C27 C29", n > 0, pos, "waits", where, "a part of the listener is not waited for [%s]", facts(it.St))
			}
		}
		ok := false
		for _, v := range visits {
			for _, f := range fills[v.X] {
				if f.complete && v.all {
					ok = true
					if set {
						if l.needed[kind] == nil {
							l.needed[kind] = map[string]bool{}
						}
						l.needed[kind][f.field] = true
					}
				}
			}
		}
		l.ck("C29", ok, pos, "visits", where, "it does not follow that every connection in a set of the shard is visited")
		l.ck("C29", secLoop == nil && secS != nil || l.covers(o.St, secLoop, secS), pos, "covers", where, "it does not follow that every part of the listener is visited")
		if draining {
			l.ck("C27 C29", waitS != nil && (waitLoop == nil || l.covers(o.St, waitLoop, waitS)), pos, "waits", where, "it does not follow that every part of the listener is waited for")
			l.ck("C29", firstWait > lastSec, pos, "wait", where, "one part of the listener is waited for before all parts were told to drain")
		} else {
			l.ck("C29", waitS == nil, pos, "waits", where, "shedding idle connections waits for others")
		}
		if len(o.Vals) == 1 {
			l.ck("C29", isNil(o.St, o.Vals[0]) == 1, pos, "result", where, "%s is reported", o.Vals[0])
		}
	}
	l.ck("C29", seen, pos, "visits", where, "no path of the call visits a connection")
}

// knownEmpty: the set of connections to visit has no members.
func knownEmpty(st *ai.State, kind string, fills map[*ai.Term][]lsFill) bool {
	for _, f := range st.Facts() {
		if !strings.HasPrefix(f, "eq(0, len") {
			continue
		}
		if kind == "idle" {
			return true
		}
		for X, fs := range fills {
			if strings.Contains(f, X.String()) {
				return true
			}
			for _, x := range fs {
				if strings.HasSuffix(f, "."+strings.TrimPrefix(x.field, ".")+"))") {
					return true
				}
			}
		}
	}
	return false
}

// rangeOf is the map a loop ranges over, and the key of an iteration.
func rangeOf(L *ai.LoopNode) (M, k *ai.Term) {
	for _, it := range L.Iters {
		found := false
		for _, e := range it.Trace.Events() {
			if e.Kind == "next" && !found {
				if M != nil && (M != e.Args[0] || k != e.Args[1]) {
					return nil, nil
				}
				M, k, found = e.Args[0], e.Args[1], true
			}
		}
		if !found {
			return nil, nil
		}
	}
	return
}

// setField names the set of the locked shard that M is.
func (l *lsn) setField(M *ai.Term, sh *lsShardSec) string {
	if M == nil || sh == nil || M.Op != "ld" {
		return ""
	}
	for _, f := range l.sets(sh.S) {
		if f.addr == M.Args[0] {
			return f.name
		}
	}
	return ""
}

// puts finds the maps and lists every iteration of a loop puts k into.
func puts(m *ai.Machine, L *ai.LoopNode, k *ai.Term) map[*ai.Term]bool {
	var res map[*ai.Term]bool
	for _, it := range L.Iters {
		got := map[*ai.Term]bool{}
		for _, e := range it.Trace.Events() {
			if e.Kind == "mapset" && e.Args[1] == k {
				got[e.Args[0]] = true
			}
			if e.Kind == "mapdel" {
				delete(got, e.Args[0])
			}
		}
		for _, p := range L.Phis {
			nx := it.Next[p.Sym]
			if nx == nil || nx.Op != "sl" {
				continue
			}
			if _, ok := nx.Typ.Underlying().(*types.Slice); !ok {
				continue
			}
			et := nx.Typ.Underlying().(*types.Slice).Elem()
			if it.St.Decide(ai.Eq(ai.Len(nx), ai.Add(ai.Len(p.Sym), ai.Int(1)))) == 1 && m.Load(it.St, ai.ElemAddr(nx, ai.Len(p.Sym), et), et) == k {
				got[p.Sym] = true
			}
		}
		if res == nil {
			res = got
			continue
		}
		for x := range res {
			if !got[x] {
				delete(res, x)
			}
		}
	}
	return res
}

// overList recognises a loop over all elements of a list whose element is k.
func overList(m *ai.Machine, end *ai.State, L *ai.LoopNode, k *ai.Term) (X *ai.Term, all bool, lp *ai.LoopPhi) {
	if k == nil {
		return
	}
	for i := range L.Phis {
		p := &L.Phis[i]
		if p.Step == nil || !k.Mentions(p.Sym) {
			continue
		}
		lp = p
	}
	if lp == nil {
		return
	}
	var cands []*ai.Term
	k.Subterms(func(u *ai.Term) {
		if u.Typ != nil {
			if _, ok := u.Typ.Underlying().(*types.Slice); ok {
				cands = append(cands, u)
			}
		}
	})
	for _, x := range cands {
		et := x.Typ.Underlying().(*types.Slice).Elem()
		for _, off := range []int64{0, 1} {
			idx := ai.Add(lp.Sym, ai.Int(off))
			e := m.Load(L.Head.Copy(), ai.ElemAddr(x, idx, et), et)
			if e != k && !(k.Op == "ld" && e.Op == "ld" && k.Args[0] == e.Args[0]) {
				continue
			}
			n, _ := lp.Step.Term().Int()
			first := ai.Add(lp.Init, ai.Int(off))
			switch {
			case n == 1 && end.Decide(ai.Eq(first, ai.Int(0))) == 1:
				return x, end.Decide(ai.Lt(idx, ai.Len(x))) == -1, lp
			case n == -1 && end.Decide(ai.Eq(first, ai.Sub(ai.Len(x), ai.Int(1)))) == 1:
				return x, end.Decide(ai.Le(ai.Int(0), idx)) == -1, lp
			}
		}
	}
	return nil, false, nil
}

func (l *lsn) copiedFrom(evs []*ai.Event, X *ai.Term, fills map[*ai.Term][]lsFill) *ai.Term {
	return nil
}

// covers: the loop over the shards visits S for every index.
func (l *lsn) covers(end *ai.State, L *ai.LoopNode, S *ai.Term) bool {
	if L == nil || S == nil {
		return false
	}
	var ia *ai.Term
	S.Subterms(func(u *ai.Term) {
		if u.Op == "ia" && ia == nil {
			ia = u
		}
	})
	if ia == nil {
		return false
	}
	b, lo, n := l.shards(end)
	if b == nil || ia.Args[0] != b {
		return false
	}
	idx := ai.Sub(ia.Args[1], lo)
	for _, p := range L.Phis {
		if p.Step == nil || !idx.Mentions(p.Sym) {
			continue
		}
		d, _ := p.Step.Term().Int()
		first := idx.Subst(map[*ai.Term]*ai.Term{p.Sym: p.Init})
		switch {
		case d == 1 && end.Decide(ai.Eq(first, ai.Int(0))) == 1:
			return end.Decide(ai.Lt(idx, n)) == -1
		case d == -1 && end.Decide(ai.Eq(first, ai.Sub(n, ai.Int(1)))) == 1:
			return end.Decide(ai.Le(ai.Int(0), idx)) == -1
		}
	}
	return false
}

// shards is the list of the listener's shards.
func (l *lsn) shards(st *ai.State) (b, lo, n *ai.Term) {
	for _, f := range leaves(l.t, l.tT, "") {
		s, ok := f.typ.Underlying().(*types.Slice)
		if !ok {
			continue
		}
		et := s.Elem()
		if p, ok := et.Underlying().(*types.Pointer); ok {
			et = p.Elem()
		}
		if l.class[types.Unalias(et)] == "shard" {
			return ai.SliceParts(l.m.Load(st, f.addr, f.typ))
		}
	}
	return nil, nil, nil
}

func (l *lsn) noShards(st *ai.State) bool {
	_, _, n := l.shards(st)
	return n != nil && st.Decide(ai.Le(n, ai.Int(0))) == 1
}

// realOf is the real connection inside one of ours.
func (l *lsn) realOf(st *ai.State, p *ai.Term) *ai.Term {
	if l.realField == "" {
		return nil
	}
	for _, f := range leaves(p, l.connT, "") {
		if f.name == l.realField {
			return l.m.Load(st, f.addr, f.typ)
		}
	}
	return nil
}

// getter: the only result is what the method without side effects returns for x.
func getter(vals []*ai.Term, meth string, x *ai.Term) bool {
	if len(vals) != 1 || vals[0].Op != "app" || len(vals[0].Args) != 1 || vals[0].Args[0] != x {
		return false
	}
	n := vals[0].S
	return n[strings.LastIndex(n, ".")+1:] == meth
}

// --- accepting

func (l *lsn) wrap() {
	c, m := l.c, l.m
	fn := c.fn(lsPath, "Wrap")
	acc := m.OnAccess
	m.OnAccess = nil
	ls := m.LocalStores
	m.LocalStores = true
	defer func() { m.OnAccess, m.LocalStores = acc, ls }()
	inner := ai.Sym("l", fn.Params[0].Type())
	st := ai.NewState()
	outs := m.Exec(fn, []*ai.Term{inner, ai.Sym("mode", fn.Params[1].Type())}, st)
	pos := fn.Pos()
	n := 0
	for _, o := range outs {
		if o.Kind != ai.Ret {
			l.ck("C27", false, pos, "init", "Wrap", "the call may end with a %s", o.Kind)
			continue
		}
		t := o.Vals[0]
		if !l.ck("C27", t.Op == "obj", pos, "init", "Wrap", "%s is returned, not a new listener", t) {
			continue
		}
		n++
		fl, fm := 0, 0
		for _, f := range leaves(t, l.tT, "") {
			v := m.Load(o.St, f.addr, f.typ)
			if v == inner {
				fl++
				f := f
				l.inner = func(st *ai.State) *ai.Term {
					for _, g := range leaves(l.t, l.tT, "") {
						if g.name == f.name {
							return m.Load(st, g.addr, g.typ)
						}
					}
					return nil
				}
			}
			if types.Identical(f.typ, fn.Params[1].Type()) {
				if v.String() == "mode" {
					fm++
				}
			}
			s, ok := f.typ.Underlying().(*types.Slice)
			if !ok {
				continue
			}
			byPtr := false
			et := types.Unalias(s.Elem())
			if p, ok := et.Underlying().(*types.Pointer); ok {
				et, byPtr = types.Unalias(p.Elem()), true
			}
			if l.class[et] != "shard" {
				continue
			}
			l.ck("C42", l.positive(o.St, ai.Len(v)), pos, "shards", "Wrap", "a listener may have no shards, so that accepting fails")
			b, lo, ln := ai.SliceParts(v)
			// every shard is initialised: some loop runs over all of them
			done := false
			for _, e := range o.St.Trace() {
				if e.Kind != "loop" {
					continue
				}
				for _, p := range e.Loop.Phis {
					if p.Step == nil {
						continue
					}
					if d, _ := p.Step.Term().Int(); d != 1 {
						continue
					}
					for _, off := range []int64{0, 1} {
						idx := ai.Add(p.Sym, ai.Int(off))
						if o.St.Decide(ai.Eq(ai.Add(p.Init, ai.Int(off)), ai.Int(0))) != 1 || o.St.Decide(ai.Lt(idx, ln)) != -1 {
							continue
						}
						good := len(e.Loop.Iters) > 0
						for _, it := range e.Loop.Iters {
							S := ai.IA(b, ai.Add(lo, idx), s.Elem())
							if byPtr {
								S = m.Load(it.St, S, s.Elem())
								good = good && S.Op == "obj"
							}
							seen := map[*ai.Term]bool{}
							for _, sf := range l.sets(S) {
								M := m.Load(it.St, sf.addr, sf.typ)
								good = good && M.Op == "obj" && !seen[M]
								seen[M] = true
							}
							if good {
								l.reachShard(l.shardVals(it.St, S), false, "Wrap", pos)
							}
						}
						done = done || good
					}
				}
			}
			l.ck("C27", done, pos, "init", "Wrap", "it does not follow that the sets of every shard exist: tracking a connection could panic")
		}
		l.ck("C31", fl == 1, pos, "init", "Wrap", "the wrapped listener is not kept")
		l.ck("C31", fm == 1, pos, "init", "Wrap", "the mode is not kept")
	}
	l.ck("C27", n > 0, pos, "init", "Wrap", "no path returns a listener")
}

func (l *lsn) positive(st *ai.State, n *ai.Term) bool {
	if st.Decide(ai.Le(ai.Int(1), n)) == 1 {
		return true
	}
	s := st.Copy()
	n.Subterms(func(u *ai.Term) {
		if u.Op == "app" && (u.S == "runtime.NumCPU" || u.S == "runtime.GOMAXPROCS") {
			s.Assume(ai.Le(ai.Int(1), u), true)
		}
	})
	return s.Decide(ai.Le(ai.Int(1), n)) == 1
}

// indexOK: the shard chosen is within the list of shards.
func (l *lsn) indexOK(st *ai.State, S *ai.Term) bool {
	var ia *ai.Term
	S.Subterms(func(u *ai.Term) {
		if u.Op == "ia" && ia == nil {
			ia = u
		}
	})
	b, lo, n := l.shards(st)
	if ia == nil {
		return b == nil // no list
	}
	if b == nil || ia.Args[0] != b {
		return false
	}
	idx := ai.Sub(ia.Args[1], lo)
	return l.below(st, idx, n)
}

var c386 = types.SizesFor("gc", "386")

func unconv(t *ai.Term) *ai.Term {
	for t.Op == "app" && strings.HasPrefix(t.S, "conv:") {
		t = t.Args[0]
	}
	return t
}

func (l *lsn) below(st *ai.State, idx, n *ai.Term) bool {
	if st.Decide(ai.Le(ai.Int(0), idx)) == 1 && st.Decide(ai.Lt(idx, n)) == 1 {
		return true
	}
	// conversions of a remainder cannot change it
	x := unconv(idx)
	if x.Op != "app" || x.S != "%" || len(x.Args) != 2 || unconv(x.Args[1]) != n {
		return false
	}
	if bt, ok := x.Typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned != 0 {
		// the divisor must not lose bits
		for d := x.Args[1]; d != n; d = d.Args[0] {
			if bt, ok := d.Typ.Underlying().(*types.Basic); !ok || c386.Sizeof(bt) < 4 {
				return false
			}
		}
		return true
	}
	return st.Decide(ai.Le(ai.Int(0), x.Args[0])) == 1
}

func (l *lsn) accept() {
	c, m := l.c, l.m
	fn := c.meth(ptr(l.tT), "Accept")
	pos := fn.Pos()
	outs := m.Exec(fn, []*ai.Term{l.t}, l.st0.Copy())
	nOK, nDrain := 0, 0
	for _, o := range outs {
		where := "T.Accept"
		if o.Kind != ai.Ret {
			l.ck("C27 C42", false, pos, "panics", where, "accepting may end with a %s", o.Kind)
			continue
		}
		evs := o.St.Trace()
		var real *ai.Event
		nreal := 0
		for _, e := range evs {
			if e.Kind == "invoke" && strings.HasSuffix(e.Name, ".Accept") {
				real = e
				nreal++
			}
		}
		if !l.ck("C31", nreal == 1, pos, "accept", where, "the wrapped listener's Accept is called %d times", nreal) {
			continue
		}
		C := real.Res[0]
		p := l.path(where, evs, o, C)
		p.pos = pos
		for _, s := range p.shards {
			if s.done {
				l.reachShard(s.post, l.spairs[s.pre].drain, where, pos)
			}
		}
		if isNil(o.St, real.Res[1]) == -1 {
			l.ck("C31", isNil(o.St, o.Vals[0]) == 1 && o.Vals[1] == real.Res[1], pos, "accept", where, "an error of the wrapped listener is reported as (%s, %s)", o.Vals[0], o.Vals[1])
			l.ck("C27", len(p.wgs) == 0, pos, "count", where, "the drain count is changed although no connection was accepted")
			continue
		}
		drain, looked := l.lastDrain(p.shards)
		l.ck("C29", looked, pos, "drained", where, "a connection is accepted without looking whether the listener is draining")
		adds, dones := p.adds("Add"), p.adds("Done")
		if o.Vals[0].Op == "ifc" {
			nOK++
			P := o.Vals[0].Args[0]
			l.ck("C29", !drain, pos, "drained", where, "a connection accepted while the listener drains is handed out")
			l.ck("C31", isNil(o.St, o.Vals[1]) == 1, pos, "accept", where, "a connection is returned together with an error")
			l.ck("C27", adds == 1 && dones == 0, pos, "count", where, "the drain count is raised %d times and lowered %d times for an accepted connection", adds, dones)
			l.ck("C28 C31", p.count("Close") == 0, pos, "closes", where, "a connection that is handed out is closed")
			for _, w := range p.wgs {
				if w.kind != "Add" {
					continue
				}
				n, _ := w.n.Int()
				q := l.shardPtr(o.St, P)
				if l.wgAddr == nil {
					l.wgAddr, l.wgShard = w.addr, q
				}
				l.ck("C27", n == 1 && w.n.IsConst(), w.pos, "count", where, "the drain count is raised by %s", w.n)
				l.ck("C27", w.addr == l.wgOf(q), w.pos, "same", where, "the drain count raised is not that of the connection's own shard")
				l.ck("C27", w.sec != nil && w.sec.S == q && !l.spairs[w.sec.pre].drain, w.pos, "late", where, "the drain count may be raised while the drain is already waiting for it, which may panic")
			}
			for _, f := range leaves(P, l.connT, "") {
				if m.Load(o.St, f.addr, f.typ) == C {
					l.realField = f.name
				}
			}
			if l.realField == "" {
				c.must(pos, "anchor", "listener connection", "the accepted connection is not kept")
			}
			// the state a connection starts in
			S := l.shardPtr(o.St, P)
			if S != nil {
				l.ck("C42", l.indexOK(o.St, S), pos, "index", where, "the shard a connection is assigned to (%s) need not exist for every value of the counter", S)
			}
			if !l.ck("C27", S != nil, pos, "same", where, "the connection does not know its shard") {
				continue
			}
			bits := map[string]bool{}
			for _, f := range l.sets(S) {
				_, has := m.MapGet(o.St, m.Load(o.St, f.addr, f.typ), P, f.typ.Underlying().(*types.Map).Elem())
				bits[f.name] = o.St.Decide(has) == 1
			}
			k, vs := l.encode(o.St, l.fields(P, "conn"), "conn")
			if l.base == nil {
				l.base, l.P, l.C = o.St.Copy(), P, C
				l.base.ClearTrace()
			}
			for g := range l.base.Ghost {
				delete(l.base.Ghost, g)
			}
			l.reach(l.intern(k, vs, bits), "idle", p)
		} else {
			nDrain++
			l.ck("C31", drain, pos, "accept", where, "a connection is refused although the listener is not draining")
			l.ck("C29", p.count("Close") == 1, pos, "closes", where, "a connection refused by a draining listener is closed %d times", p.count("Close"))
			l.ck("C27", adds == dones, pos, "count", where, "the drain count is raised %d times and lowered %d times for a refused connection", adds, dones)
			for _, w := range p.wgs {
				if w.kind == "Add" {
					l.ck("C27", w.sec != nil && !l.spairs[w.sec.pre].drain, w.pos, "late", where, "the drain count may be raised while the drain is already waiting for it, which may panic")
				}
			}
			l.ck("C29", isNil(o.St, o.Vals[0]) == 1 && l.acceptError(o), pos, "error", where, "a refused connection is not reported as the accept error of a closed listener but as (%s, %s)", o.Vals[0], o.Vals[1])
		}
	}
	l.ck("C27", nOK > 0, pos, "accept", "T.Accept", "no path hands out a connection")
}

// acceptError: the error is a *net.OpError of an accept on a closed listener.
func (l *lsn) acceptError(o ai.Outcome) bool {
	v := o.Vals[1]
	if v.Op != "ifc" || types.TypeString(v.Typ, nil) != "*net.OpError" {
		return false
	}
	e := v.Args[0]
	t := v.Typ.(*types.Pointer).Elem()
	op := l.c.load(l.m, o.St, e, t, "Op")
	if s, ok := op.Str(); !ok || s != "accept" {
		return false
	}
	err := l.c.load(l.m, o.St, e, t, "Err")
	return isNil(o.St, err) == -1
}

// --- the operations of a connection

func (l *lsn) connOps() {
	c, m := l.c, l.m
	conn := ai.IfcT(ptr(l.connT), l.P)
	run := func(name, op string, outs []ai.Outcome, f func(p *lpath)) {
		n := 0
		for _, o := range outs {
			p := l.path(name, o.St.Trace(), o, l.C)
			for _, s := range p.shards {
				if s.done {
					l.reachShard(s.post, l.spairs[s.pre].drain, name, p.pos)
				}
			}
			if o.Kind == ai.Ret {
				n++
			}
			l.step(op, p, l.P)
			if f != nil && o.Kind == ai.Ret {
				f(p)
			}
		}
		l.ck("C31", n > 0, token.NoPos, "returns", name, "the operation never returns")
	}
	for _, x := range c.methodOuts(m, l.base, conn) {
		name := "conn." + x.fn.Name()
		meth := x.fn.Name()
		fwd := func(p *lpath) {
			r := p.real(meth)
			if r == nil && p.o.Kind == ai.Ret && getter(p.o.Vals, meth, l.C) {
				l.ck("C31", true, x.fn.Pos(), "forwards", name, "")
				return
			}
			l.ck("C31", p.count(meth) == 1, x.fn.Pos(), "forwards", name, "the real connection's %s is called %d times", meth, p.count(meth))
			if r == nil {
				return
			}
			same := len(r.args) == len(x.args)
			for i := range r.args {
				same = same && r.args[i] == x.args[i]
			}
			l.ck("C31", same, r.pos, "forwards", name, "the real connection's %s is not given the same arguments", meth)
		}
		results := func(p *lpath) {
			r := p.real(meth)
			if r == nil {
				return
			}
			same := len(r.res) == len(p.o.Vals)
			for i := range r.res {
				same = same && i < len(p.o.Vals) && (r.res[i] == p.o.Vals[i] || p.o.St.Decide(ai.Eq(r.res[i], p.o.Vals[i])) == 1)
			}
			l.ck("C31", same, r.pos, "forwards", name, "the results are not those of the real connection's %s", meth)
		}
		switch meth {
		case "Close":
			run(name, "close", x.outs, nil)
		case "Read":
			run(name, "read", x.outs, fwd)
		case "SetReadDeadline":
			op := "none"
			if l.mode == "Deadline" {
				op = "idle"
			}
			run(name, op, x.outs, func(p *lpath) { fwd(p); results(p) })
		case "ReadFrom", "WriteTo":
			run(name, "none", x.outs, func(p *lpath) {
				ok := false
				for _, r := range p.reals {
					if len(r.res) == 2 && len(p.o.Vals) == 2 && r.res[0] == p.o.Vals[0] && r.res[1] == p.o.Vals[1] {
						ok = true
					}
				}
				l.ck("C31", ok && len(p.reals) > 0, x.fn.Pos(), "forwards", name, "the results are not those of copying to or from the real connection")
			})
		default:
			run(name, "none", x.outs, func(p *lpath) { fwd(p); results(p) })
		}
	}
	for n, op := range map[string]string{"Disown": "disown", "MarkIdle": "idle", "MarkInUse": "busy"} {
		fn := c.fn(lsPath, n)
		st := l.base.Copy()
		run(n, op, m.Exec(fn, []*ai.Term{conn}, st), func(p *lpath) {
			if n != "Disown" {
				l.ck("C31", isNil(p.o.St, p.o.Vals[0]) == 1, fn.Pos(), "result", n, "marking a connection reports %s", p.o.Vals[0])
			}
		})
		// connections of others
		st = l.base.Copy()
		f := ai.Sym("foreign", fn.Params[0].Type())
		st.Assume(ai.IsT(ptr(l.connT), f), false)
		for _, o := range m.Exec(fn, []*ai.Term{f}, st) {
			evs := o.St.Trace()
			bad := ""
			flat(evs, func(e *ai.Event, in bool) {
				switch e.Kind {
				case "enter", "senter", "wg", "mapset", "mapdel", "store":
					bad = e.String()
				case "invoke":
					if len(e.Args) > 0 && e.Args[0] == f {
						bad = e.String()
					}
				}
			})
			l.ck("C31", o.Kind == ai.Ret && isNil(o.St, o.Vals[0]) == -1, fn.Pos(), "foreign", n, "a connection that is not managed by this package is accepted without an error")
			l.ck("C31", bad == "", fn.Pos(), "foreign", n, "something is done to a connection that is not managed by this package: %s", bad)
		}
	}
	c.problems(m, "listener")
}

// others checks the remaining methods of the listener.
func (l *lsn) others() {
	c, m := l.c, l.m
	for _, n := range []string{"Close", "Addr"} {
		fn := c.meth(ptr(l.tT), n)
		for _, o := range m.Exec(fn, []*ai.Term{l.t}, l.st0.Copy()) {
			if o.Kind != ai.Ret {
				l.ck("C31", false, fn.Pos(), "forwards", "T."+n, "the call may end with a %s", o.Kind)
				continue
			}
			k, same := 0, false
			l.locking(o.St.Trace(), "T."+n)
			for _, e := range o.St.Trace() {
				if e.Kind == "invoke" && strings.HasSuffix(e.Name, "."+n) {
					k++
					same = len(e.Res) == 1 && e.Res[0] == o.Vals[0]
				}
			}
			if k == 0 && l.inner != nil && getter(o.Vals, n, l.inner(o.St)) {
				k, same = 1, true
			}
			l.ck("C31", k == 1 && same, fn.Pos(), "forwards", "T."+n, "the wrapped listener's %s is called %d times or its result is not returned", n, k)
		}
	}
}

func (l *lsn) explore() {
	for round := 0; ; round++ {
		if round > 12 {
			l.c.fail(token.NoPos, "undecided", "listener", "the set of mutable fields does not stabilise")
			return
		}
		l.newMut = false
		l.reset()
		l.needed = map[string]map[string]bool{}
		for n := 0; ; n++ {
			l.changed = false
			l.finds, l.und, l.unlocked, l.m.Problems = nil, nil, nil, nil
			l.wrap()
			l.accept()
			if l.base != nil {
				l.drainOp("CloseIdle", true)
				l.drainOp("Drain", true)
				l.drainOp("DrainAll", true)
				l.connOps()
				l.others()
			}
			if !l.changed || l.newMut {
				break
			}
			if n > 20 {
				l.c.fail(token.NoPos, "undecided", "listener", "the states of a connection do not close")
				return
			}
		}
		if !l.newMut {
			break
		}
	}
	// every connection a drain must find is in a set the drain walks
	for i, pr := range l.pairs {
		b := l.cbits[pr.vals]
		in := func(kind string) bool {
			for f := range l.needed[kind] {
				if b[f] {
					return true
				}
			}
			return false
		}
		if managed(pr.ghost) {
			l.ck("C29", in("all"), token.NoPos, "members", l.from[i], "afterwards a managed connection (%s) is in none of the sets DrainAll walks", pr.vals)
		}
		if pr.ghost == "idle" {
			l.ck("C29", in("idle"), token.NoPos, "members", l.from[i], "afterwards an idle connection (%s) is in none of the sets Drain walks", pr.vals)
		}
	}
	for _, a := range l.unlocked {
		l.ck("C30 C42", false, a.pos, "unlocked", "listener", "%s", a.what)
	}
	if l.c.Prop == "C30" {
		l.c.Oblig["access"] += l.accesses
		l.c.Oblig["lock"] += l.lockEvents
	}
	for _, f := range l.finds {
		l.c.check(f.ok, f.pos, f.kind, f.construct, "%s", f.msg)
	}
	for _, u := range l.und {
		l.c.fail(token.NoPos, "undecided", "listener", "%s", u)
	}
	var gs []string
	for _, p := range l.pairs {
		gs = append(gs, p.ghost+": "+p.vals)
	}
	l.c.sample("%s mode: %d states of a connection (%s), %d of a shard", l.mode, len(l.pairs), strings.Join(gs, "; "), len(l.spairs))
}

func runListener(c *Ctx) {
	for _, mo := range lsModes {
		l := newLsn(c, mo)
		l.explore()
	}
}

func init() {
	explain := "Wrap, Accept, CloseIdle, Drain, DrainAll, every method of a connection and Disown, MarkIdle and MarkInUse are interpreted abstractly in each of the three modes. " +
		"Taking the lock of a connection or shard forks over all states it can be in (a fixpoint: the values of its mutable fields and its membership in the shard's sets that any operation leaves behind, each with what the specification says the connection is: idle, busy, closed or disowned), so that every section of a lock is checked against every history of operations by any number of goroutines. "
	add := func(p, t, e string, min map[string]int) {
		register(&Rule{Prop: p, Technique: t, Explain: explain + e, Min: min, Run: runListener})
	}
	add("C27", "typestate analysis: fixpoint over the reachable states of a connection by abstract interpretation of all operations, with effect counting on the drain count",
		"On every path the drain count is raised by one exactly when a connection is handed out (in the section of the shard's lock that saw no drain) and lowered by one exactly when the connection passes from managed to closed (after the real Close) or disowned; drains wait for every shard.",
		map[string]int{"count": 60, "after": 6, "same": 9, "late": 3, "waits": 6, "init": 3})
	add("C28", "typestate analysis: fixpoint over the reachable states of a connection by abstract interpretation of all operations",
		"No path of CloseIdle, Drain or DrainAll closes a connection found disowned, closed or (except DrainAll) busy under its own lock in the same section; only Close closes a disowned one.",
		map[string]int{"closes": 60, "atomic": 60})
	add("C29", "typestate analysis with must-visit loop rules over the drain operations",
		"Every member of a set of the shard is copied inside the section that sets the drain flag and visited afterwards; all shards are covered and told before any is waited for; a managed connection is always in a set DrainAll walks and an idle one in a set Drain walks; becoming idle or accepted looks at the flag in the same section that enters the sets.",
		map[string]int{"visits": 9, "covers": 9, "members": 9, "wait": 6, "drained": 6, "closes": 9, "error": 3})
	add("C30", "lockset and lock-order analysis of every access and every path of all operations",
		"Every access to a field written after construction, and to the sets, holds the lock of the connection or shard it belongs to; locks are balanced on every path, connection before shard, never nested within a class, and nothing that blocks is called with one held.",
		map[string]int{"access": 300, "lock": 100, "released": 60, "order": 9, "blocking": 9, "members": 20})
	add("C31", "typestate analysis plus value-flow of the results of the real connection's methods",
		"The state after each operation is the one the mode promises and the results are those of the single call of the real connection's method of the same name with the same arguments.",
		map[string]int{"forwards": 30, "result": 30, "foreign": 9, "init": 2, "accept": 6})
	add("C32", "typestate analysis plus value-flow of the results of Read and Close",
		"Under the connection's lock taken after the real read, a closed connection yields 0 bytes and a non-nil error; Close of a closed one yields an error without calling the real Close; a disowned one yields exactly the real results.",
		map[string]int{"nodata": 4, "result": 9, "closes": 12})
}
