package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is one observable step of a path.
type Event struct {
	Kind  string // call, invoke, dyn, lock, unlock, rlock, runlock, store, mapset, mapdel, go, send, recv, close, panic, recover, loop, once, onceend, atomic, wg, copy, append
	Name  string
	Args  []*Term
	Res   []*Term
	Pos   token.Pos
	Fn    string // enclosing function
	Site  string
	Loop  *LoopNode
	Call  *CallCtx
	St    *State // snapshot when the event happened (not part of the key)
	Defer bool   // happened inside a deferred call
	Instr ssa.Instruction
}

func (e *Event) key(b *strings.Builder) {
	b.WriteString(e.Kind)
	b.WriteByte(':')
	b.WriteString(e.Name)
	for _, a := range e.Args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.ID))
	}
	b.WriteByte('>')
	for _, a := range e.Res {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.ID))
	}
	if e.Loop != nil {
		b.WriteString(e.Loop.key())
	}
	if e.St != nil {
		for _, k := range sortedKeys(e.St.lits) {
			b.WriteByte('~')
			if !e.St.lits[k] {
				b.WriteByte('!')
			}
			b.WriteString(strconv.Itoa(k))
		}
	}
	b.WriteByte(';')
}

func (e *Event) String() string {
	if e.Kind == "loop" {
		s := "loop["
		for i, it := range e.Loop.Iters {
			if i > 0 {
				s += " | "
			}
			s += it.Trace.String()
		}
		return s + "]"
	}
	var as []string
	for _, a := range e.Args {
		as = append(as, a.String())
	}
	s := e.Kind + " " + e.Name + "(" + strings.Join(as, ", ") + ")"
	if len(e.Res) > 0 {
		s += " = "
		for i, r := range e.Res {
			if i > 0 {
				s += ", "
			}
			s += r.String()
		}
	}
	return s
}

// Trace is an immutable event list.
type Trace struct {
	prev *Trace
	ev   *Event
	n    int
	id   int
}

// traceIDs numbers traces: two traces with the same events get the same number.
var traceIDs = map[string]int{}

func (t *Trace) node() int {
	if t == nil {
		return 0
	}
	if t.id == 0 {
		var b strings.Builder
		b.WriteString(strconv.Itoa(t.prev.node()))
		b.WriteByte(' ')
		t.ev.key(&b)
		k := b.String()
		n, ok := traceIDs[k]
		if !ok {
			n = len(traceIDs) + 1
			traceIDs[k] = n
		}
		t.id = n
	}
	return t.id
}

func (t *Trace) add(e *Event) *Trace {
	n := 1
	if t != nil {
		n = t.n + 1
	}
	return &Trace{prev: t, ev: e, n: n}
}

// Events in order.
func (t *Trace) Events() []*Event {
	if t == nil {
		return nil
	}
	out := make([]*Event, t.n)
	for i := t.n - 1; t != nil; i, t = i-1, t.prev {
		out[i] = t.ev
	}
	return out
}

func (t *Trace) key() string { return strconv.Itoa(t.node()) }

func (t *Trace) String() string {
	var s []string
	for _, e := range t.Events() {
		s = append(s, e.String())
	}
	return strings.Join(s, "; ")
}

// LoopPhi describes a quantity that varies over a loop.
type LoopPhi struct {
	Sym  *Term
	Init *Term
	Cell *Term // address, if the quantity is a memory cell
	Step *Lin  // constant step if every iteration adds the same constant
	Next []*Term
}

// LoopIter is one way through one (generic) iteration.
type LoopIter struct {
	Trace *Trace
	St    *State
	Next  map[*Term]*Term // loop symbol -> value after the iteration
}

// LoopNode summarises a loop: any number of iterations, each following one of
// Iters with the loop symbols at arbitrary values satisfying the invariants.
type LoopNode struct {
	Site  string
	Pos   token.Pos
	Phis  []LoopPhi
	Iters []LoopIter
	Head  *State
	k     string
}

func (l *LoopNode) key() string {
	if l.k == "" {
		var b strings.Builder
		b.WriteString("L")
		b.WriteString(l.Site)
		for _, it := range l.Iters {
			b.WriteString("{")
			b.WriteString(it.Trace.key())
			b.WriteString("}")
		}
		l.k = b.String()
	}
	return l.k
}

// MapState is the abstract content of one map.
type MapState struct {
	Base    string // "empty" or an epoch naming unknown content
	Of      *Term  // the map whose content that is, if another's
	Entries []mapEntry
}

type mapEntry struct {
	Key     *Term
	Present *Term // boolean term
	Val     *Term
}

type logEntry struct {
	Lo, N  *Term
	Val    *Term // single element value (N==1)
	Src    *Term // source backing
	SrcLo  *Term
	SrcVer int
	SrcEp  string
	Junk   bool // unknown content
	JunkID string
}

// State is one abstract state.
type State struct {
	cells   map[int]*Term
	lits    map[int]bool
	zone    []*Lin
	objs    map[int]bool // allocated objects
	esc     map[int]bool // escaped to unknown code
	hav     map[int]string
	maps    map[int]*MapState
	logs    map[int][]logEntry
	epoch   string
	rootEp  map[int]string
	cnt     map[string]int
	ctx     string // loop context for fresh names
	trace   *Trace
	Locks   map[int]int // lock address ID -> 1 write, -n read
	PanVal  *Term       // panic in flight, visible to recover
	Ghost   map[string]*Term
	inDefer int
}

func NewState() *State {
	return &State{
		cells: map[int]*Term{}, lits: map[int]bool{}, objs: map[int]bool{}, esc: map[int]bool{},
		hav: map[int]string{}, maps: map[int]*MapState{}, logs: map[int][]logEntry{}, rootEp: map[int]string{},
		cnt: map[string]int{}, Locks: map[int]int{}, Ghost: map[string]*Term{},
	}
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+2)
	for k, v := range m {
		r[k] = v
	}
	return r
}

// Copy returns an independent copy.
func (s *State) Copy() *State {
	c := *s
	c.cells = cp(s.cells)
	c.lits = cp(s.lits)
	c.zone = s.zone[:len(s.zone):len(s.zone)]
	c.objs = cp(s.objs)
	c.esc = cp(s.esc)
	c.hav = cp(s.hav)
	c.maps = cp(s.maps)
	c.logs = cp(s.logs)
	c.rootEp = cp(s.rootEp)
	c.cnt = cp(s.cnt)
	c.Locks = cp(s.Locks)
	c.Ghost = cp(s.Ghost)
	return &c
}

func (s *State) Trace() []*Event { return s.trace.Events() }
func (s *State) ClearTrace()     { s.trace = nil }

func sortedKeys[V any](m map[int]V) []int {
	ks := make([]int, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

func num(b []byte, n int, sep byte) []byte {
	return append(strconv.AppendInt(b, int64(n), 10), sep)
}

func (s *State) key() string {
	b := make([]byte, 0, 1024)
	for _, k := range sortedKeys(s.cells) {
		b = num(b, k, '=')
		b = num(b, s.cells[k].ID, ',')
	}
	b = append(b, '|')
	for _, k := range sortedKeys(s.lits) {
		if s.lits[k] {
			b = num(b, k, '+')
		} else {
			b = num(b, k, '-')
		}
	}
	b = append(b, '|')
	zs := make([]int, 0, len(s.zone))
	for _, z := range s.zone {
		zs = append(zs, z.Term().ID)
	}
	sort.Ints(zs)
	for _, z := range zs {
		b = num(b, z, ',')
	}
	b = append(b, '|')
	for _, k := range sortedKeys(s.esc) {
		b = num(b, k, ',')
	}
	b = append(b, '|')
	for _, k := range sortedKeys(s.hav) {
		b = num(b, k, ':')
		b = append(b, s.hav[k]...)
		b = append(b, ',')
	}
	b = append(b, '|')
	for _, k := range sortedKeys(s.maps) {
		ms := s.maps[k]
		b = num(b, k, ':')
		b = append(b, ms.Base...)
		if ms.Of != nil {
			b = num(b, ms.Of.ID, '=')
		}
		b = append(b, '{')
		for _, e := range ms.Entries {
			b = num(b, e.Key.ID, ',')
			b = num(b, e.Present.ID, ',')
			b = num(b, e.Val.ID, ';')
		}
		b = append(b, '}')
	}
	b = append(b, '|')
	for _, k := range sortedKeys(s.logs) {
		b = num(b, k, ':')
		b = appendLogKey(b, s.logs[k])
	}
	b = append(b, '|')
	b = append(b, s.epoch...)
	b = append(b, '|')
	for _, k := range sortedKeys(s.rootEp) {
		b = num(b, k, ':')
		b = append(b, s.rootEp[k]...)
		b = append(b, ',')
	}
	b = append(b, s.ctx...)
	for _, k := range sortedKeys(s.Locks) {
		b = num(b, k, '@')
		b = num(b, s.Locks[k], ',')
	}
	if s.PanVal != nil {
		b = append(b, 'P')
		b = num(b, s.PanVal.ID, ',')
	}
	gs := make([]string, 0, len(s.Ghost))
	for k := range s.Ghost {
		gs = append(gs, k)
	}
	sort.Strings(gs)
	for _, k := range gs {
		b = append(b, k...)
		b = append(b, '=')
		b = num(b, s.Ghost[k].ID, ',')
	}
	b = append(b, '|')
	cs := make([]string, 0, len(s.cnt))
	for k := range s.cnt {
		cs = append(cs, k)
	}
	sort.Strings(cs)
	for _, k := range cs {
		b = append(b, k...)
		b = append(b, '=')
		b = num(b, s.cnt[k], ',')
	}
	b = append(b, '|')
	b = num(b, s.trace.node(), ';')
	return string(b)
}

func appendLogKey(b []byte, l []logEntry) []byte {
	id := func(t *Term) int {
		if t == nil {
			return 0
		}
		return t.ID
	}
	for _, e := range l {
		b = append(b, '(')
		for _, t := range []*Term{e.Lo, e.N, e.Val, e.Src, e.SrcLo} {
			b = num(b, id(t), ',')
		}
		b = num(b, e.SrcVer, ',')
		b = append(b, e.SrcEp...)
		if e.Junk {
			b = append(b, '!')
		}
		b = append(b, e.JunkID...)
		b = append(b, ')')
	}
	return b
}

func logKey(l []logEntry) string { return string(appendLogKey(nil, l)) }

// Fresh returns a new symbol named after a site.
func (s *State) Fresh(site string, typ types.Type) *Term {
	return Sym(s.freshName(site), typ)
}

func (s *State) freshName(site string) string {
	n := s.ctx + site
	s.cnt[n]++
	if s.cnt[n] > 1 {
		n = fmt.Sprintf("%s#%d", n, s.cnt[n])
	}
	return n
}

// --- facts

// Decide evaluates a boolean term: 1 true, -1 false, 0 unknown.
func (s *State) Decide(t *Term) int {
	if b, ok := t.Bool(); ok {
		if b {
			return 1
		}
		return -1
	}
	if t.Op == "not" {
		return -s.Decide(t.Args[0])
	}
	if b, ok := s.lits[t.ID]; ok {
		if b {
			return 1
		}
		return -1
	}
	switch t.Op {
	case "and":
		a, b := s.Decide(t.Args[0]), s.Decide(t.Args[1])
		if a == 1 && b == 1 {
			return 1
		}
		if a == -1 || b == -1 {
			return -1
		}
	case "le":
		l := linOf(t.Args[0])
		if s.provesLE(l) {
			return 1
		}
		n := l.scale(-1)
		n = &Lin{At: n.At, Co: n.Co, K: n.K + 1}
		if s.provesLE(n) {
			return -1
		}
	case "eq":
		return s.decideEq(t.Args[0], t.Args[1])
	case "is":
		return s.decideIs(t)
	case "app":
		if r := s.decideApp(t); r != 0 {
			return r
		}
	}
	return 0
}

func (s *State) decideEq(a, b *Term) int {
	if a == b {
		return 1
	}
	// known constants
	ca, cb := s.constOf(a), s.constOf(b)
	if ca != nil && cb != nil {
		e := Eq(ca, cb)
		if v, ok := e.Bool(); ok {
			if v {
				return 1
			}
			return -1
		}
	}
	if isLinear(a) || isLinear(b) {
		l := linOf(a).minus(linOf(b))
		lo, hi := s.provesLE(&Lin{At: l.At, Co: l.Co, K: l.K + 1}), false
		if lo {
			return -1
		}
		n := l.scale(-1)
		hi = s.provesLE(&Lin{At: n.At, Co: n.Co, K: n.K + 1})
		if hi {
			return -1
		}
		if s.provesLE(l) && s.provesLE(n) {
			return 1
		}
	}
	if b.IsNil() {
		a, b = b, a
	}
	if a.IsNil() {
		return s.decideNil(b)
	}
	// A freshly allocated, unescaped object differs from every older symbol.
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		if p[0].Op == "obj" && p[1].Op != "obj" && s.objs[p[0].ID] && !s.esc[p[0].ID] && addrLike(p[1]) {
			return -1
		}
	}
	return 0
}

func addrLike(t *Term) bool {
	switch t.Op {
	case "sym", "ld", "ta", "field", "glob":
		return true
	}
	return false
}

func (s *State) decideNil(x *Term) int {
	if neverNil(x) {
		return -1
	}
	if x.Op == "sl" {
		return -1
	}
	if s.knownNonNil(x) {
		return -1
	}
	return 0
}

func (s *State) knownNonNil(x *Term) bool {
	for id, v := range s.lits {
		if !v {
			continue
		}
		t := termByID(id)
		if t.Op == "is" && t.Args[0] == x {
			return true
		}
	}
	return strings.HasPrefix(x.S, "nonnil:") && x.Op == "sym"
}

func (s *State) constOf(a *Term) *Term {
	if a.IsConst() || a.IsNil() {
		return a
	}
	for id, v := range s.lits {
		if !v {
			continue
		}
		t := termByID(id)
		if t.Op == "eq" {
			if t.Args[0] == a && (t.Args[1].IsConst() || t.Args[1].IsNil()) {
				return t.Args[1]
			}
			if t.Args[1] == a && (t.Args[0].IsConst() || t.Args[0].IsNil()) {
				return t.Args[0]
			}
		}
	}
	return nil
}

func (s *State) decideIs(t *Term) int {
	x := t.Args[0]
	tIface := types.IsInterface(t.Typ)
	if x.IsNil() {
		return -1
	}
	if x.Op == "ifc" {
		if tIface {
			if types.Implements(x.Typ, t.Typ.Underlying().(*types.Interface)) {
				return 1
			}
			return -1
		}
		if types.Identical(x.Typ, t.Typ) {
			return 1
		}
		return -1
	}
	if c := s.lits[Eq(x, Nil()).ID]; c {
		return -1
	}
	for id, v := range s.lits {
		o := termByID(id)
		if o.Op != "is" || o.Args[0] != x {
			continue
		}
		oIface := types.IsInterface(o.Typ)
		if v {
			if !oIface {
				if tIface {
					if types.Implements(o.Typ, t.Typ.Underlying().(*types.Interface)) {
						return 1
					}
					return -1
				}
				if types.Identical(o.Typ, t.Typ) {
					return 1
				}
				return -1
			}
			if tIface && types.Implements(o.Typ, t.Typ.Underlying().(*types.Interface)) {
				return 1
			}
			if !tIface && !types.Implements(t.Typ, o.Typ.Underlying().(*types.Interface)) {
				return -1
			}
		} else if oIface {
			// x does not implement o: it cannot be anything that does.
			if types.Implements(t.Typ, o.Typ.Underlying().(*types.Interface)) {
				return -1
			}
		}
	}
	return 0
}

// decideApp derives facts about library predicates.
func (s *State) decideApp(t *Term) int {
	switch t.S {
	case "strings.HasPrefix", "strings.HasSuffix":
		has := strings.HasPrefix
		if t.S == "strings.HasSuffix" {
			has = strings.HasSuffix
		}
		x, p := t.Args[0], t.Args[1]
		if x == p {
			return 1
		}
		if cp, ok := p.Str(); ok {
			if cp == "" {
				return 1
			}
			if cx, ok := x.Str(); ok {
				if has(cx, cp) {
					return 1
				}
				return -1
			}
			for id, v := range s.lits {
				o := termByID(id)
				if o.Op == "app" && o.S == t.S && o.Args[0] == x {
					if oc, ok := o.Args[1].Str(); ok {
						if v && has(oc, cp) {
							return 1
						}
						if v && !has(cp, oc) {
							return -1
						}
						if !v && has(cp, oc) {
							return -1
						}
					}
				}
			}
			if c := s.constOf(x); c != nil {
				if cx, ok := c.Str(); ok {
					if has(cx, cp) {
						return 1
					}
					return -1
				}
			}
		}
	}
	return 0
}

// Assume adds t==val; false if that is contradictory.
func (s *State) Assume(t *Term, val bool) bool {
	if t.Op == "not" {
		return s.Assume(t.Args[0], !val)
	}
	d := s.Decide(t)
	if d == 1 && val || d == -1 && !val {
		return true
	}
	if d != 0 {
		return false
	}
	if t.Op == "and" && val {
		return s.Assume(t.Args[0], true) && s.Assume(t.Args[1], true)
	}
	s.lits[t.ID] = val
	switch t.Op {
	case "le":
		l := linOf(t.Args[0])
		if !val {
			n := l.scale(-1)
			l = &Lin{At: n.At, Co: n.Co, K: n.K + 1}
		}
		s.zone = append(s.zone, l)
		return s.feasible()
	case "eq":
		a, b := t.Args[0], t.Args[1]
		if isLinear(a) || isLinear(b) {
			if val {
				l := linOf(a).minus(linOf(b))
				s.zone = append(s.zone, l, l.scale(-1))
				return s.feasible()
			}
			// x != k with x >= k known gives x > k.
			l := linOf(a).minus(linOf(b))
			n := l.scale(-1)
			if s.provesLE(l) {
				s.zone = append(s.zone, &Lin{At: l.At, Co: l.Co, K: l.K + 1})
			} else if s.provesLE(n) {
				s.zone = append(s.zone, &Lin{At: n.At, Co: n.Co, K: n.K + 1})
			}
			return s.feasible()
		}
		if val {
			// propagate to is/HasPrefix literals that the equality decides
			if isStringTerm(a) || isStringTerm(b) {
				x, c := a, b
				if x.IsConst() {
					x, c = c, x
				}
				if c.IsConst() {
					l := linOf(Len(x)).minus(linOf(Len(c)))
					s.zone = append(s.zone, l, l.scale(-1))
				}
			}
		} else {
			x, c := a, b
			if x.IsConst() {
				x, c = c, x
			}
			if cs, ok := c.Str(); ok && cs == "" {
				l := linOf(Len(x)).scale(-1)
				s.zone = append(s.zone, &Lin{At: l.At, Co: l.Co, K: l.K + 1})
			}
		}
		return s.recheck(t)
	case "is":
		return s.recheck(t)
	case "app":
		if strings.HasPrefix(t.S, "mhas") && val { // a nil map holds nothing
			return s.Assume(Eq(t.Args[0], Nil()), false) && s.recheck(t)
		}
		if t.S == "strings.HasPrefix" && val {
			l := linOf(Len(t.Args[1])).minus(linOf(Len(t.Args[0])))
			s.zone = append(s.zone, l)
			return s.feasible()
		}
	}
	return true
}

// recheck looks for literals contradicted by the new one.
func (s *State) recheck(t *Term) bool {
	for id, v := range s.lits {
		if id == t.ID {
			continue
		}
		o := termByID(id)
		if o.Op != "is" && o.Op != "eq" && o.Op != "app" {
			continue
		}
		delete(s.lits, id)
		d := s.Decide(o)
		s.lits[id] = v
		if d == 1 && !v || d == -1 && v {
			return false
		}
	}
	return s.feasible()
}

const inf = int64(1) << 40

// diffGraph gives the difference constraints x - y <= c as edges; node 0 is 0.
func (s *State) diffGraph(extra ...*Lin) (nodes map[int]int, dist [][]int64) {
	nodes = map[int]int{0: 0}
	add := func(t *Term) int {
		if n, ok := nodes[t.ID]; ok {
			return n
		}
		nodes[t.ID] = len(nodes)
		return len(nodes) - 1
	}
	type edge struct {
		x, y int
		c    int64
	}
	var es []edge
	use := func(l *Lin) {
		switch len(l.At) {
		case 1:
			x := add(l.At[0])
			if l.Co[0] == 1 {
				es = append(es, edge{x, 0, -l.K})
			} else if l.Co[0] == -1 {
				es = append(es, edge{0, x, -l.K})
			}
		case 2:
			x, y := add(l.At[0]), add(l.At[1])
			if l.Co[0] == 1 && l.Co[1] == -1 {
				es = append(es, edge{x, y, -l.K})
			} else if l.Co[0] == -1 && l.Co[1] == 1 {
				es = append(es, edge{y, x, -l.K})
			}
		default:
			for _, t := range l.At {
				add(t)
			}
		}
	}
	for _, z := range s.zone {
		use(z)
	}
	for _, z := range extra {
		for _, t := range z.At {
			add(t)
		}
	}
	for id, n := range nodes {
		if id == 0 {
			continue
		}
		if t := termByID(id); nonNeg(t) {
			es = append(es, edge{0, n, 0})
		} else if t.Op == "app" && (strings.HasPrefix(t.S, "strings.Index") || strings.HasPrefix(t.S, "strings.LastIndex") || strings.HasPrefix(t.S, "bytes.Index") || strings.HasPrefix(t.S, "bytes.LastIndex")) {
			es = append(es, edge{0, n, 1})
		}
	}
	n := len(nodes)
	dist = make([][]int64, n)
	for i := range dist {
		dist[i] = make([]int64, n)
		for j := range dist[i] {
			if i != j {
				dist[i][j] = inf
			}
		}
	}
	for _, e := range es {
		if e.c < dist[e.x][e.y] {
			dist[e.x][e.y] = e.c
		}
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			if dist[i][k] >= inf {
				continue
			}
			for j := 0; j < n; j++ {
				if d := dist[i][k] + dist[k][j]; dist[k][j] < inf && d < dist[i][j] {
					dist[i][j] = d
				}
			}
		}
	}
	return nodes, dist
}

func nonNeg(t *Term) bool {
	if t.Op == "len" {
		return true
	}
	if t.Op == "app" && (t.S == "cap" || t.S == "runtime.NumCPU" || t.S == "runtime.GOMAXPROCS" || t.S == "(*regexp.Regexp).NumSubexp") {
		return true
	}
	return false
}

func (s *State) feasible() bool {
	_, d := s.diffGraph()
	for i := range d {
		if d[i][i] < 0 {
			return false
		}
	}
	return true
}

// provesLE reports whether the zone implies l <= 0.
func (s *State) provesLE(l *Lin) bool {
	if len(l.At) == 0 {
		return l.K <= 0
	}
	nodes, d := s.diffGraph(l)
	if proveDiff(nodes, d, l) {
		return true
	}
	// l = z + rest with z <= 0 known and rest provable.
	for _, z := range s.zone {
		if len(z.At) < 2 {
			continue
		}
		r := l.minus(z)
		if len(r.At) == 0 {
			if r.K <= 0 {
				return true
			}
			continue
		}
		if len(r.At) <= 2 {
			ok := true
			for _, t := range r.At {
				if _, in := nodes[t.ID]; !in {
					ok = false
				}
			}
			if ok && proveDiff(nodes, d, r) {
				return true
			}
		}
	}
	return false
}

func proveDiff(nodes map[int]int, d [][]int64, l *Lin) bool {
	switch len(l.At) {
	case 1:
		x := nodes[l.At[0].ID]
		if l.Co[0] > 0 {
			return d[x][0] < inf && l.Co[0]*d[x][0]+l.K <= 0
		}
		return d[0][x] < inf && -l.Co[0]*d[0][x]+l.K <= 0
	case 2:
		x, y := nodes[l.At[0].ID], nodes[l.At[1].ID]
		if l.Co[0] == 1 && l.Co[1] == -1 {
			return d[x][y] < inf && d[x][y]+l.K <= 0
		}
		if l.Co[0] == -1 && l.Co[1] == 1 {
			return d[y][x] < inf && d[y][x]+l.K <= 0
		}
	}
	// all atoms bounded by constants
	sum := l.K
	for i, t := range l.At {
		x := nodes[t.ID]
		if l.Co[i] > 0 {
			if d[x][0] >= inf {
				return false
			}
			sum += l.Co[i] * d[x][0]
		} else {
			if d[0][x] >= inf {
				return false
			}
			sum += -l.Co[i] * d[0][x]
		}
	}
	return sum <= 0
}

// Facts lists the literals, for diagnostics.
func (s *State) EachFact(f func(t *Term, val bool)) {
	for _, id := range sortedKeys(s.lits) {
		f(termByID(id), s.lits[id])
	}
}

func (s *State) Facts() []string {
	var out []string
	for _, id := range sortedKeys(s.lits) {
		t := termByID(id)
		p := ""
		if !s.lits[id] {
			p = "!"
		}
		out = append(out, p+t.String())
	}
	return out
}

// Literals calls f for every literal known in s.
func (s *State) Literals(f func(t *Term, val bool)) {
	for _, id := range sortedKeys(s.lits) {
		f(termByID(id), s.lits[id])
	}
}
