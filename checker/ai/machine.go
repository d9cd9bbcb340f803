package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"gojicheck/load"

	"golang.org/x/tools/go/ssa"
)

// Outcome kinds.
const (
	Ret   = "return"
	Panic = "panic"
	Exit  = "exit"  // process terminates (log.Fatal, os.Exit)
	Block = "block" // never continues
)

// Outcome is one way a call can end.
type Outcome struct {
	Kind string
	Vals []*Term
	Pan  *Term
	St   *State
}

// CallCtx describes a call that leaves the analysed code.
type CallCtx struct {
	Kind   string // call (static), invoke (interface method), dyn (function value)
	Name   string // full name of the function or method; "" for dyn
	Fn     *types.Func
	Recv   *Term // invoke: receiver
	Fun    *Term // dyn: function value
	Args   []*Term
	Sig    *types.Signature
	Callee *ssa.Function
	Pos    token.Pos
	In     *ssa.Function
	Site   string
	Defer  bool
}

// Accessor is told about reads and writes of memory.
type Access struct {
	Addr   *Term
	Write  bool
	Atomic bool
	Typ    types.Type
	Pos    token.Pos
	In     *ssa.Function
}

// Stats counts what was analysed.
type Stats struct{ Paths, Blocks, Loops int }

// Machine runs the analysis.
type Machine struct {
	P    *load.Program
	Prog *ssa.Program

	// Opaque may override the treatment of a call that leaves the analysed
	// code; ok=false falls back to the default transfer functions.
	Opaque func(m *Machine, s *State, c *CallCtx) (outs []Outcome, ok bool)
	// Keep filters the events recorded in traces.
	Keep func(*Event) bool
	// OnAccess is told about every memory access in analysed code.
	OnAccess func(s *State, a *Access)
	// OnLock may refine or fork the state when a lock has been acquired.
	OnLock func(m *Machine, s *State, mu *Term, read bool) []*State
	// UserPanics makes unknown function values and http.Handlers panic too.
	UserPanics bool
	// Stable marks memory that unknown code cannot change.
	Stable func(s *State, addr *Term) bool
	// NoInline keeps a function with a body opaque.
	NoInline func(fn *ssa.Function) bool
	// OnceFresh makes sync.Once.Do fork into first/later.
	OnceFork bool
	// NoInitGlobals disables the use of initial values of globals.
	MergeLimit int
	// Unroll lets constant loops unroll whatever the number of paths.
	Unroll bool

	Problems []string
	// statistics
	Funcs    map[*ssa.Function]int
	Stat     *Stats
	eff      *effects
	Opaques  map[string]int
	globals  map[*ssa.Global]*Term
	immState *State
	mutable  map[*ssa.Global]bool
	reachG   map[*ssa.Global]bool
	fi       map[*ssa.Function]*funcInfo
	frozenO  map[string]bool
	steps    int
	depth    int

	quiet      bool
	noAccess   int
	initMode   bool
	initTrunc  bool
	initStates []*State
	contentMut map[*ssa.Global]bool
	immObjs    map[int]bool

	// Peel analyses the first iteration of every outermost loop apart.
	Peel bool
	// GenericRange treats the content of maps ranged over as unknown.
	GenericRange bool
	// LocalStores also records stores to memory no other code has seen.
	LocalStores bool
	// InlineRecursive disables effect summaries of recursive functions.
	InlineRecursive bool
	// OnUnlock is told when a lock has been released.
	OnUnlock func(m *Machine, s *State, mu *Term, read bool)
	// OutLimit and PtLimit bound the disjunctions of facts kept apart for
	// otherwise equal outcomes of calls and states at join points.
	OutLimit, PtLimit int
	// OnAppend is told about every append.
	OnAppend func(s *State, dst, src, res *Term, pos token.Pos)
	// Private marks memory of escaped objects that unknown code cannot change.
	Private func(s *State, addr *Term) bool
	// OnLoop is told about every loop that was summarised, also about loops
	// that never end.
	OnLoop func(fn *ssa.Function, entry *State, node *LoopNode)
	// AllAccess also reports accesses to memory no other code has seen.
	AllAccess bool
}

// New returns a machine for a loaded program, with package initialisers
// already analysed.
func New(p *load.Program) *Machine {
	m := &Machine{Stat: &Stats{}, eff: newEffects(), P: p, Prog: p.Prog, Funcs: map[*ssa.Function]int{}, Opaques: map[string]int{}, fi: map[*ssa.Function]*funcInfo{}, frozenO: map[string]bool{}, MergeLimit: 24, OnceFork: true}
	m.initGlobals()
	return m
}

// Sub returns a machine sharing the program and globals, with fresh hooks.
func (m *Machine) Sub() *Machine {
	n := &Machine{Stat: m.Stat, eff: m.eff, P: m.P, Prog: m.Prog, Funcs: m.Funcs, Opaques: m.Opaques, fi: m.fi, frozenO: m.frozenO, MergeLimit: m.MergeLimit, Unroll: m.Unroll, OnceFork: true}
	n.globals, n.immState, n.mutable, n.reachG = m.globals, m.immState, m.mutable, m.reachG
	n.initTrunc, n.initStates, n.contentMut, n.immObjs = m.initTrunc, m.initStates, m.contentMut, m.immObjs
	return n
}

func (m *Machine) problem(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	for _, p := range m.Problems {
		if p == s {
			return
		}
	}
	m.Problems = append(m.Problems, s)
}

// funcInfo caches per-function control flow facts.
type funcInfo struct {
	rpo   map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]*loop // by header
	inner map[*ssa.BasicBlock]*loop // innermost loop of a block
	live  map[*ssa.BasicBlock]map[ssa.Value]bool
	ids   map[ssa.Instruction]int
}

type loop struct {
	header  *ssa.BasicBlock
	blocks  map[*ssa.BasicBlock]bool
	latches []*ssa.BasicBlock
	parent  *loop
	idx     int
}

func (m *Machine) info(fn *ssa.Function) *funcInfo {
	if fi := m.fi[fn]; fi != nil {
		return fi
	}
	fi := &funcInfo{rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loop{}, inner: map[*ssa.BasicBlock]*loop{}, live: map[*ssa.BasicBlock]map[ssa.Value]bool{}, ids: map[ssa.Instruction]int{}}
	m.fi[fn] = fi
	// RPO
	var order []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		order = append(order, b)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil && !seen[fn.Recover] {
		dfs(fn.Recover)
	}
	for i := range order {
		fi.rpo[order[len(order)-1-i]] = i
	}
	// natural loops
	for _, b := range order {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				l := fi.loops[h]
				if l == nil {
					l = &loop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
					fi.loops[h] = l
				}
				l.latches = append(l.latches, b)
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			} else if fi.rpo[h] <= fi.rpo[b] {
				m.problem("%s: irreducible control flow in %s", m.P.Pos(fn.Pos()), fn)
			}
		}
	}
	var ls []*loop
	for _, l := range fi.loops {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool {
		if len(ls[i].blocks) != len(ls[j].blocks) {
			return len(ls[i].blocks) > len(ls[j].blocks)
		}
		return ls[i].header.Index < ls[j].header.Index
	})
	for i, l := range ls {
		l.idx = i
		l.parent = fi.inner[l.header]
		for b := range l.blocks {
			fi.inner[b] = l // smaller loops come later and override
		}
	}
	// liveness
	gen := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	kill := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	n := 0
	for _, b := range fn.Blocks {
		g, k := map[ssa.Value]bool{}, map[ssa.Value]bool{}
		for _, in := range b.Instrs {
			fi.ids[in] = n
			n++
			if _, ok := in.(*ssa.Phi); !ok {
				for _, o := range in.Operands(nil) {
					if *o != nil && !k[*o] && isLocal(*o) {
						g[*o] = true
					}
				}
			}
			if v, ok := in.(ssa.Value); ok {
				k[v] = true
			}
		}
		gen[b], kill[b] = g, k
		fi.live[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			lv := fi.live[b]
			add := func(v ssa.Value) {
				if !lv[v] {
					lv[v] = true
					ch = true
				}
			}
			for v := range gen[b] {
				add(v)
			}
			for _, s := range b.Succs {
				for v := range fi.live[s] {
					if !kill[b][v] && !isPhiOf(v, s) {
						add(v)
					}
				}
				for _, in := range s.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for j, pr := range s.Preds {
						if pr == b && isLocal(p.Edges[j]) && !kill[b][p.Edges[j]] {
							add(p.Edges[j])
						}
					}
				}
			}
		}
	}
	if fn.Recover != nil {
		for _, b := range fn.Blocks {
			for v := range fi.live[fn.Recover] {
				fi.live[b][v] = true
			}
		}
	}
	return fi
}

func isPhiOf(v ssa.Value, b *ssa.BasicBlock) bool {
	p, ok := v.(*ssa.Phi)
	return ok && p.Block() == b
}

func isLocal(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return true
}

// frame is one activation in context.
type frame struct {
	fn     *ssa.Function
	fi     *funcInfo
	path   string
	parent *frame
	defr   bool // runs as a deferred call (recover works here)
	depth  int
}

func (f *frame) onStack(fn *ssa.Function) bool {
	for x := f; x != nil; x = x.parent {
		if x.fn == fn {
			return true
		}
	}
	return false
}

type deferred struct {
	call *ssa.CallCommon
	fun  *Term // for dynamic calls
	args []*Term
	pos  token.Pos
	site string
}

// pt is a point in an activation.
type pt struct {
	b      *ssa.BasicBlock
	pred   int
	env    map[ssa.Value]*Term
	st     *State
	defers []deferred
	org    int // which start of an iteration it came from
}

type end struct {
	kind string // Ret, Panic, Exit, Block, "back", "exitloop"
	p    pt     // back/exitloop: target block and pred index
	out  Outcome
}

// InitMode is a machine for package initialisers: memory that has not been
// written is zero, and library code does not reach it.
func (m *Machine) InitMode() *Machine {
	n := m.Sub()
	n.initMode = true
	return n
}

// Exec analyses a call of fn from state st.
func (m *Machine) Exec(fn *ssa.Function, args []*Term, st *State) []Outcome {
	return m.call(nil, fn, args, nil, st.Copy(), "", false)
}

// ExecFun analyses a call of a function value.
func (m *Machine) ExecFun(f *Term, args []*Term, st *State) []Outcome {
	switch f.Op {
	case "fn":
		return m.Exec(f.X.(*ssa.Function), args, st)
	case "clo":
		return m.call(nil, f.X.(*ssa.Function), args, f.Args, st.Copy(), "", false)
	}
	m.problem("cannot analyse function value %s", f)
	return nil
}

// Key gives the identity of a state (for fixpoint computations by rules).
func (s *State) Key() string { return s.key() }

func (m *Machine) call(parent *frame, fn *ssa.Function, args, free []*Term, st *State, path string, deferCall bool) []Outcome {
	m.Funcs[fn]++
	fr := &frame{fn: fn, fi: m.info(fn), path: path, parent: parent, defr: deferCall}
	if parent != nil {
		fr.depth = parent.depth + 1
	}
	env := map[ssa.Value]*Term{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		env[f] = free[i]
	}
	before := st.objs
	st.objs = cp(st.objs)
	ends := m.region(fr, []pt{{b: fn.Blocks[0], pred: -1, env: env, st: st}}, nil)
	var outs []Outcome
	seen := map[string]bool{}
	for _, e := range ends {
		if parent != nil {
			m.gc(&e.out, before)
		}
		k := outKey(e.out)
		if seen[k] {
			continue
		}
		seen[k] = true
		outs = append(outs, e.out)
	}
	outs = m.mergeOutcomes(outs)
	return outs
}

func outKey(o Outcome) string {
	var b strings.Builder
	b.WriteString(o.Kind)
	for _, v := range o.Vals {
		fmt.Fprintf(&b, ",%d", v.ID)
	}
	if o.Pan != nil {
		fmt.Fprintf(&b, "P%d", o.Pan.ID)
	}
	b.WriteString(o.St.key())
	return b.String()
}

// mergeOutcomes joins outcomes which differ in their literals only, keeping the
// common ones.
func (m *Machine) mergeOutcomes(outs []Outcome) []Outcome {
	if len(outs) < 2 {
		return outs
	}
	groups := map[string]int{}
	var sts [][]*State
	var res []Outcome
	for _, o := range outs {
		s := o.St
		l, z := s.lits, s.zone
		s.lits, s.zone = nil, nil
		k := outKey(o)
		s.lits, s.zone = l, z
		i, ok := groups[k]
		if !ok {
			i = len(res)
			groups[k] = i
			res = append(res, o)
			sts = append(sts, nil)
		}
		sts[i] = append(sts[i], s)
	}
	var fin []Outcome
	for i, o := range res {
		for _, s := range reduceStates(sts[i], limitOr(m.OutLimit, 12)) {
			o.St = s
			fin = append(fin, o)
		}
	}
	return fin
}

func limitOr(n, def int) int {
	if n > 0 {
		return n
	}
	return def
}

// reduceStates simplifies a disjunction of states that differ only in their
// facts, exactly where possible; beyond limit disjuncts they are joined to
// their common facts.
func reduceStates(sts []*State, limit int) []*State {
	if len(sts) < 2 {
		return sts
	}
	type fs struct {
		st *State
		f  map[int]bool
		ch bool
	}
	var l []*fs
	for _, s := range sts {
		l = append(l, &fs{st: s, f: s.factIDs()})
	}
	subset := func(a, b map[int]bool) bool {
		for k := range a {
			if !b[k] {
				return false
			}
		}
		return true
	}
	for again := true; again && len(l) > 1; {
		again = false
	pairs:
		for i := range l {
			for j := range l {
				if i == j {
					continue
				}
				a, b := l[i], l[j]
				if subset(a.f, b.f) { // b implies a
					l = append(l[:j:j], l[j+1:]...)
					again = true
					break pairs
				}
				// a = {p} u X, b = {!p} u Y with X within Y: drop !p from b
				for p := range a.f {
					np := negID(p)
					if np == 0 || !b.f[np] {
						continue
					}
					delete(a.f, p)
					ok := subset(a.f, b.f)
					a.f[p] = true
					if ok {
						delete(b.f, np)
						b.ch = true
						again = true
						break pairs
					}
				}
			}
		}
	}
	var out []*State
	for _, x := range l {
		s := x.st
		if x.ch {
			s = s.keepFacts(x.f)
		}
		out = append(out, s)
	}
	if len(out) > limit {
		r := out[0]
		for _, s := range out[1:] {
			r = joinFacts(r, s)
		}
		out = []*State{r}
	}
	return out
}

// factIDs: positive literals by term ID, negative ones by minus the ID,
// linear facts by the ID of their term.
func (s *State) factIDs() map[int]bool {
	f := map[int]bool{}
	for id, v := range s.lits {
		if v {
			f[id] = true
		} else {
			f[-id] = true
		}
	}
	for _, z := range s.zone {
		f[LeZero(z).ID] = true
	}
	return f
}

func negID(id int) int {
	if id < 0 {
		return -id
	}
	t := termByID(id)
	if t.Op == "le" {
		if n := Not(t); n.Op == "le" {
			return n.ID
		}
		return 0
	}
	return -id
}

func (s *State) keepFacts(f map[int]bool) *State {
	r := s.Copy()
	r.lits = map[int]bool{}
	for id, v := range s.lits {
		if v && f[id] || !v && f[-id] {
			r.lits[id] = v
		}
	}
	r.zone = nil
	for _, z := range s.zone {
		if f[LeZero(z).ID] {
			r.zone = append(r.zone, z)
		}
	}
	return r
}

func joinFacts(a, b *State) *State {
	r := a.Copy()
	r.lits = map[int]bool{}
	for id, v := range a.lits {
		if w, ok := b.lits[id]; ok && w == v {
			r.lits[id] = v
		}
	}
	inB := map[int]bool{}
	for _, z := range b.zone {
		inB[z.Term().ID] = true
	}
	r.zone = nil
	for _, z := range a.zone {
		if inB[z.Term().ID] {
			r.zone = append(r.zone, z)
		}
	}
	return r
}

func (m *Machine) envKey(fr *frame, p pt) string {
	lv := fr.fi.live[p.b]
	var ks []string
	for v, t := range p.env {
		if lv[v] || isPhiOf(v, p.b) {
			ks = append(ks, v.Name()+"="+strconv.Itoa(t.ID))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ",") + fmt.Sprintf("|%d", len(p.defers))
}

// region explores from the given points until the function or the loop ends.
// If L is non-nil, starts are at L's header with phis already set.
func (m *Machine) region(fr *frame, starts []pt, L *loop) []end {
	var ends []end
	type item struct {
		p     pt
		first bool // already positioned (phis evaluated)
	}
	work := map[int][]item{}
	push := func(it item) {
		k := fr.fi.rpo[it.p.b]
		work[k] = append(work[k], it)
	}
	for _, p := range starts {
		push(item{p, L != nil})
	}
	route := func(p pt) {
		// p.b is the target, p.pred the index of the edge
		if L != nil {
			if p.b == L.header {
				ends = append(ends, end{kind: "back", p: p})
				return
			}
			if !L.blocks[p.b] {
				ends = append(ends, end{kind: "exitloop", p: p})
				return
			}
		}
		push(item{p, false})
	}
	for len(work) > 0 {
		min := -1
		for k := range work {
			if min < 0 || k < min {
				min = k
			}
		}
		items := work[min]
		delete(work, min)
		// evaluate phis, deduplicate
		var ps []pt
		seen := map[string]bool{}
		for _, it := range items {
			p := it.p
			if !it.first {
				m.evalPhis(fr, &p)
			}
			k := m.envKey(fr, p) + "\x00" + p.st.key()
			if seen[k] {
				continue
			}
			seen[k] = true
			ps = append(ps, p)
			if it.first {
				// a loop start: run it directly below
			}
		}
		if len(ps) > m.MergeLimit {
			ps = m.mergePts(fr, ps)
		}
		for _, p := range ps {
			if l := fr.fi.loops[p.b]; l != nil && l != L {
				for _, e := range m.execLoop(fr, l, p) {
					if e.kind == "exitloop" {
						route(e.p)
					} else {
						ends = append(ends, e)
					}
				}
				continue
			}
			m.steps++
			m.Stat.Blocks++
			if m.steps > 3000000 {
				m.problem("analysis budget exhausted in %s", fr.fn)
				return ends
			}
			for _, e := range m.instrs(fr, p, 0) {
				if e.kind == "goto" {
					route(e.p)
				} else {
					ends = append(ends, e)
				}
			}
		}
	}
	return ends
}

func (m *Machine) mergePts(fr *frame, ps []pt) []pt {
	groups := map[string]int{}
	var res []pt
	var sts [][]*State
	for _, p := range ps {
		s := p.st
		l, z := s.lits, s.zone
		s.lits, s.zone = nil, nil
		k := m.envKey(fr, p) + "\x00" + s.key()
		s.lits, s.zone = l, z
		i, ok := groups[k]
		if !ok {
			i = len(res)
			groups[k] = i
			res = append(res, p)
			sts = append(sts, nil)
		}
		sts[i] = append(sts[i], s)
	}
	var fin []pt
	for i, p := range res {
		for _, s := range reduceStates(sts[i], limitOr(m.PtLimit, 4)) {
			p.st = s
			fin = append(fin, p)
		}
	}
	return fin
}

func (m *Machine) evalPhis(fr *frame, p *pt) {
	if p.pred < 0 {
		return
	}
	var vals []*Term
	var phis []*ssa.Phi
	for _, in := range p.b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, m.val(fr, p.env, ph.Edges[p.pred]))
	}
	if len(phis) > 0 {
		env := make(map[ssa.Value]*Term, len(p.env)+len(phis))
		for k, v := range p.env {
			env[k] = v
		}
		for i, ph := range phis {
			env[ph] = vals[i]
		}
		p.env = env
	}
}

func predIndex(from, to *ssa.BasicBlock, succ int) int {
	// number of earlier successor edges from->to
	k := 0
	for i := 0; i < succ; i++ {
		if from.Succs[i] == to {
			k++
		}
	}
	for i, p := range to.Preds {
		if p == from {
			if k == 0 {
				return i
			}
			k--
		}
	}
	return -1
}

// val evaluates an operand.
func (m *Machine) val(fr *frame, env map[ssa.Value]*Term, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			if _, ok := v.Type().Underlying().(*types.Basic); ok {
				return Nil()
			}
			return Zero(v.Type())
		}
		c := v.Value
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if i := constant.ToInt(c); i.Kind() == constant.Int {
				c = i
			}
		}
		return K(c, v.Type())
	case *ssa.Function:
		return FnT(v)
	case *ssa.Global:
		return GlobT(v)
	case *ssa.Builtin:
		return Sym("builtin:"+v.Name(), v.Type())
	}
	if t, ok := env[v]; ok {
		return t
	}
	m.problem("no value for %s in %s", v.Name(), fr.fn)
	return Sym("undef:"+fr.fn.String()+":"+v.Name(), v.Type())
}

func (m *Machine) site(fr *frame, in ssa.Instruction) string {
	return fr.path + "/" + fr.fn.Name() + ":" + strconv.Itoa(fr.fi.ids[in])
}

func (m *Machine) emit(s *State, e *Event) {
	if m.Keep != nil && !m.Keep(e) {
		return
	}
	if s.inDefer > 0 {
		e.Defer = true
	}
	snap := s.Copy()
	e.St = snap
	s.trace = s.trace.add(e)
}

func cpEnv(e map[ssa.Value]*Term) map[ssa.Value]*Term {
	r := make(map[ssa.Value]*Term, len(e)+4)
	for k, v := range e {
		r[k] = v
	}
	return r
}

// instrs runs the instructions of p.b from index i.
func (m *Machine) instrs(fr *frame, p pt, i int) []end {
	env := cpEnv(p.env)
	p.env = env
	st := p.st
	for ; i < len(p.b.Instrs); i++ {
		in := p.b.Instrs[i]
		set := func(v ssa.Value, t *Term) { env[v] = t }
		get := func(v ssa.Value) *Term { return m.val(fr, env, v) }
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Alloc:
			o := st.NewObj(m.site(fr, in)+":"+in.Comment, in.Type().(*types.Pointer).Elem())
			if m.boxFrozen(in) {
				m.frozenO[o.S] = true
			}
			set(in, o)
		case *ssa.MakeMap:
			o := st.NewObj(m.site(fr, in)+":map", in.Type())
			st.maps[o.ID] = &MapState{Base: "empty"}
			set(in, o)
		case *ssa.MakeChan:
			set(in, st.NewObj(m.site(fr, in)+":chan", in.Type()))
		case *ssa.MakeSlice:
			et := in.Type().Underlying().(*types.Slice).Elem()
			o := st.NewObj(m.site(fr, in)+":slice", et)
			set(in, SlT(o, Int(0), get(in.Len), in.Type()))
		case *ssa.MakeInterface:
			set(in, IfcT(in.X.Type(), get(in.X)))
		case *ssa.MakeClosure:
			var bs []*Term
			for _, b := range in.Bindings {
				bs = append(bs, get(b))
			}
			set(in, CloT(in.Fn.(*ssa.Function), bs))
		case *ssa.ChangeType:
			set(in, retype(get(in.X), in.Type()))
		case *ssa.ChangeInterface:
			set(in, get(in.X))
		case *ssa.Convert:
			if v := m.spell(st, get(in.X), in.X.Type(), in.Type()); v != nil {
				set(in, v)
				break
			}
			set(in, m.convert(get(in.X), in.X.Type(), in.Type()))
		case *ssa.MultiConvert:
			set(in, App("conv:"+typeStr(in.Type()), in.Type(), get(in.X)))
		case *ssa.SliceToArrayPointer:
			set(in, App("s2ap", in.Type(), get(in.X)))
		case *ssa.BinOp:
			set(in, m.binop(in.Op, get(in.X), get(in.Y), in.X.Type(), in.Type()))
		case *ssa.UnOp:
			x := get(in.X)
			switch in.Op {
			case token.MUL:
				m.access(fr, st, x, false, in.Type(), in.Pos())
				if x.Op == "glob" && !m.inModule(x) {
					set(in, App("stdvar", in.Type(), x))
				} else {
					set(in, m.Load(st, x, in.Type()))
				}
			case token.NOT:
				set(in, Not(x))
			case token.SUB:
				if isLinear(x) || x.IsConst() {
					if x.IsConst() && x.C.Kind() != constant.Int {
						set(in, K(constant.UnaryOp(token.SUB, x.C, 0), in.Type()))
					} else {
						set(in, Sub(Int(0), x))
					}
				} else {
					set(in, App("neg", in.Type(), x))
				}
			case token.XOR:
				set(in, App("^", in.Type(), x))
			case token.ARROW:
				var vt types.Type = in.Type()
				if in.CommaOk {
					tup := in.Type().(*types.Tuple)
					v := st.Fresh("recv:"+m.site(fr, in), tup.At(0).Type())
					ok := st.Fresh("recvok:"+m.site(fr, in), tup.At(1).Type())
					m.emit(st, &Event{Kind: "recv", Args: []*Term{x}, Res: []*Term{v, ok}, Pos: in.Pos(), Fn: fr.fn.String(), Site: m.site(fr, in)})
					set(in, TupT(v, ok))
				} else {
					v := st.Fresh("recv:"+m.site(fr, in), vt)
					m.emit(st, &Event{Kind: "recv", Args: []*Term{x}, Res: []*Term{v}, Pos: in.Pos(), Fn: fr.fn.String(), Site: m.site(fr, in)})
					set(in, v)
				}
			}
		case *ssa.Store:
			a := get(in.Addr)
			t := in.Val.Type()
			m.access(fr, st, a, true, t, in.Pos())
			v := get(in.Val)
			r := a.Root()
			shared := r.Op != "obj" || st.esc[r.ID]
			m.Store(st, a, v, t)
			if shared {
				m.escape(st, v)
			}
			if !shared && !m.LocalStores {
				break
			}
			m.emit(st, &Event{Kind: "store", Args: []*Term{a, v}, Pos: in.Pos(), Fn: fr.fn.String(), Site: m.site(fr, in)})
		case *ssa.FieldAddr:
			pt := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			set(in, FA(get(in.X), in.Field, pt.Field(in.Field).Type()))
		case *ssa.Field:
			set(in, FieldT(get(in.X), in.Field, in.Type()))
		case *ssa.IndexAddr:
			x := get(in.X)
			et := in.Type().(*types.Pointer).Elem()
			if _, ok := in.X.Type().Underlying().(*types.Slice); ok {
				set(in, ElemAddr(x, get(in.Index), et))
			} else {
				set(in, IA(x, get(in.Index), et))
			}
		case *ssa.Index:
			x, ix := get(in.X), get(in.Index)
			set(in, indexVal(x, ix, in.Type()))
		case *ssa.Lookup:
			x, k := get(in.X), get(in.Index)
			if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
				set(in, indexVal(x, k, in.Type()))
				break
			}
			mt := in.X.Type().Underlying().(*types.Map)
			m.mapAccess(fr, st, x, false, in.Pos())
			v, has := m.MapGet(st, x, k, mt.Elem())
			if in.CommaOk {
				// presence must be decided so that the value is zero when absent
				switch st.Decide(has) {
				case 1:
					set(in, TupT(v, True()))
				case -1:
					set(in, TupT(Zero(mt.Elem()), False()))
				default:
					return m.fork(fr, p, i, has, in, TupT(v, True()), TupT(Zero(mt.Elem()), False()))
				}
			} else {
				switch st.Decide(has) {
				case 1:
					set(in, v)
				case -1:
					set(in, Zero(mt.Elem()))
				default:
					return m.fork(fr, p, i, has, in, v, Zero(mt.Elem()))
				}
			}
		case *ssa.MapUpdate:
			M, k, v := get(in.Map), get(in.Key), get(in.Value)
			m.mapAccess(fr, st, M, true, in.Pos())
			m.emit(st, &Event{Kind: "mapset", Args: []*Term{M, k, v}, Pos: in.Pos(), Fn: fr.fn.String(), Site: m.site(fr, in)})
			if st.Decide(Eq(M, Nil())) == 1 {
				pv := Sym("nonnil:panic:nilmap", nil)
				return m.unwind(fr, p, pv, in.Pos())
			}
			st.Assume(Eq(M, Nil()), false)
			m.mapPut(st, M, k, True(), v)
			if M.Op != "obj" || st.esc[M.ID] {
				m.escape(st, k, v)
			}
		case *ssa.Range:
			set(in, TupT(get(in.X), Int(0)))
			if _, ok := in.X.Type().Underlying().(*types.Map); ok {
				m.mapAccess(fr, st, get(in.X), false, in.Pos())
			}
		case *ssa.Next:
			ends := m.next(fr, p, i, in)
			return ends
		case *ssa.Slice:
			set(in, m.slice(st, in, get))
		case *ssa.TypeAssert:
			x := get(in.X)
			cond, v := m.typeAssert(st, x, in.X.Type(), in.AssertedType)
			zero := Zero(in.AssertedType)
			d := st.Decide(cond)
			if in.CommaOk {
				if d == 1 {
					set(in, TupT(v, True()))
				} else if d == -1 {
					set(in, TupT(zero, False()))
				} else {
					return m.fork(fr, p, i, cond, in, TupT(v, True()), TupT(zero, False()))
				}
				break
			}
			if d == 1 {
				set(in, v)
				break
			}
			var ends []end
			if d == 0 {
				q := p
				q.st = st.Copy()
				q.env = cpEnv(env)
				if q.st.Assume(cond, true) {
					q.env[in] = v
					ends = append(ends, m.instrs(fr, q, i+1)...)
				}
			}
			if st.Assume(cond, false) {
				pv := Sym("nonnil:panic:typeassert:"+m.site(fr, in), nil)
				m.emit(st, &Event{Kind: "assertpanic", Args: []*Term{x, cond}, Pos: in.Pos(), Fn: fr.fn.String(), Site: m.site(fr, in)})
				ends = append(ends, m.unwind(fr, p, pv, in.Pos())...)
			}
			return ends
		case *ssa.Extract:
			t := get(in.Tuple)
			if t.Op == "tup" && in.Index < len(t.Args) {
				set(in, t.Args[in.Index])
			} else {
				set(in, App("extract"+strconv.Itoa(in.Index), in.Type(), t))
			}
		case *ssa.Call:
			outs := m.doCall(fr, st, env, &in.Call, m.site(fr, in), in.Pos(), false, nil)
			var ends []end
			for k := range outs {
				o := outs[k]
				q := p
				q.st = o.St
				if k+1 < len(outs) {
					q.env = cpEnv(env)
				}
				switch o.Kind {
				case Ret:
					q.env[in] = pack(o.Vals, in.Type())
					if len(outs) == 1 {
						st = o.St
						p.st = st
						env = q.env
						goto nextInstr
					}
					ends = append(ends, m.instrs(fr, q, i+1)...)
				case Panic:
					ends = append(ends, m.unwind(fr, q, o.Pan, in.Pos())...)
				default:
					ends = append(ends, end{kind: o.Kind, out: o})
				}
			}
			return ends
		case *ssa.Defer:
			d := deferred{call: &in.Call, pos: in.Pos(), site: m.site(fr, in)}
			if in.Call.IsInvoke() || in.Call.StaticCallee() == nil {
				d.fun = get(in.Call.Value)
			} else if _, ok := in.Call.Value.(*ssa.MakeClosure); ok {
				d.fun = get(in.Call.Value)
			}
			for _, a := range in.Call.Args {
				d.args = append(d.args, get(a))
			}
			p.defers = append(p.defers[:len(p.defers):len(p.defers)], d)
		case *ssa.RunDefers:
			sts := m.runDefers(fr, p, nil)
			p.defers = nil
			if len(sts) == 1 && sts[0].Kind == Ret {
				st = sts[0].St
				p.st = st
				break
			}
			var ends []end
			for _, o := range sts {
				switch o.Kind {
				case Ret:
					q := p
					q.st = o.St
					q.env = cpEnv(env)
					ends = append(ends, m.instrs(fr, q, i+1)...)
				case Panic:
					ends = append(ends, end{kind: Panic, out: o})
				default:
					ends = append(ends, end{kind: o.Kind, out: o})
				}
			}
			return ends
		case *ssa.Go:
			var as []*Term
			for _, a := range in.Call.Args {
				as = append(as, get(a))
			}
			var f *Term
			name := ""
			if in.Call.IsInvoke() {
				f = get(in.Call.Value)
				name = in.Call.Method.FullName()
			} else {
				f = get(in.Call.Value)
			}
			m.escape(st, append([]*Term{f}, as...)...)
			m.emit(st, &Event{Kind: "go", Name: name, Args: append([]*Term{f}, as...), Pos: in.Pos(), Fn: fr.fn.String(), Site: m.site(fr, in), Instr: in})
		case *ssa.Send:
			m.escape(st, get(in.X))
			m.emit(st, &Event{Kind: "send", Args: []*Term{get(in.Chan), get(in.X)}, Pos: in.Pos(), Fn: fr.fn.String(), Site: m.site(fr, in)})
		case *ssa.Select:
			return m.sel(fr, p, i, in)
		case *ssa.Panic:
			v := get(in.X)
			m.emit(st, &Event{Kind: "panic", Args: []*Term{v}, Pos: in.Pos(), Fn: fr.fn.String(), Site: m.site(fr, in)})
			return m.unwind(fr, p, v, in.Pos())
		case *ssa.Return:
			var vs []*Term
			for _, r := range in.Results {
				vs = append(vs, get(r))
			}
			m.Stat.Paths++
			return []end{{kind: Ret, out: Outcome{Kind: Ret, Vals: vs, St: st}}}
		case *ssa.Jump:
			t := p.b.Succs[0]
			return []end{{kind: "goto", p: pt{b: t, pred: predIndex(p.b, t, 0), env: env, st: st, defers: p.defers, org: p.org}}}
		case *ssa.If:
			c := get(in.Cond)
			var ends []end
			d := st.Decide(c)
			for i, t := range p.b.Succs {
				if i == 0 && d < 0 || i == 1 && d > 0 {
					continue
				}
				s := st
				if i == 0 && d == 0 {
					s = st.Copy()
				}
				for _, s := range assumeParts(s, c, i == 0) {
					ends = append(ends, end{kind: "goto", p: pt{b: t, pred: predIndex(p.b, t, i), env: env, st: s, defers: p.defers, org: p.org}})
				}
			}
			if d == 0 && len(ends) >= 2 {
				m.noteFork(fr, p.b)
			}
			return ends
		default:
			m.problem("%s: unsupported instruction %T in %s", m.P.Pos(in.Pos()), in, fr.fn)
			if v, ok := in.(ssa.Value); ok {
				set(v, st.Fresh("unsupported:"+m.site(fr, in), v.Type()))
			}
		}
	nextInstr:
	}
	return nil
}

// assumeParts gives the states in which t has the value; what falsifies a
// conjunction is taken apart.
func assumeParts(st *State, t *Term, val bool) []*State {
	if t.Op == "not" {
		return assumeParts(st, t.Args[0], !val)
	}
	var out []*State
	if t.Op == "and" && !val && st.Decide(t) == 0 {
		s := st.Copy()
		if s.Assume(t.Args[0], true) {
			out = assumeParts(s, t.Args[1], false)
		}
		t = t.Args[0]
	}
	if st.Assume(t, val) {
		out = append(out, st)
	}
	return out
}

var forked map[*ssa.BasicBlock]bool

func (m *Machine) noteFork(fr *frame, b *ssa.BasicBlock) {
	if forked != nil {
		forked[b] = true
	}
}

func pack(vs []*Term, t types.Type) *Term {
	if tup, ok := t.(*types.Tuple); ok {
		if tup.Len() == 0 {
			return TupT()
		}
		return TupT(vs...)
	}
	if len(vs) > 0 {
		return vs[0]
	}
	return TupT()
}

func retype(t *Term, typ types.Type) *Term {
	if t.Op == "agg" {
		return AggT(typ, t.Args)
	}
	if t.Op == "zero" {
		return Zero(typ)
	}
	if t.Op == "sl" {
		return SlT(t.Args[0], t.Args[1], t.Args[2], typ)
	}
	if t.Typ == nil || t.Op == "const" || t.Op == "nil" {
		return t
	}
	return t
}

// fork continues after instruction i under both truth values of cond.
func (m *Machine) fork(fr *frame, p pt, i int, cond *Term, v ssa.Value, yes, no *Term) []end {
	var ends []end
	q := p
	q.st = p.st.Copy()
	q.env = cpEnv(p.env)
	if q.st.Assume(cond, true) {
		q.env[v] = yes
		ends = append(ends, m.instrs(fr, q, i+1)...)
	}
	if p.st.Assume(cond, false) {
		p.env[v] = no
		ends = append(ends, m.instrs(fr, p, i+1)...)
	}
	return ends
}

func (m *Machine) access(fr *frame, s *State, a *Term, w bool, t types.Type, pos token.Pos) {
	if m.OnAccess == nil || m.noAccess > 0 {
		return
	}
	r := a.Root()
	if r.Op == "obj" && !s.esc[r.ID] && !m.AllAccess {
		return
	}
	m.OnAccess(s, &Access{Addr: a, Write: w, Typ: t, Pos: pos, In: fr.fn})
}

// mapAccess reports an access to the content of a map.
func (m *Machine) mapAccess(fr *frame, s *State, M *Term, w bool, pos token.Pos) {
	if m.OnAccess == nil || m.noAccess > 0 || M.IsNil() {
		return
	}
	if M.Op == "obj" && !s.esc[M.ID] {
		return
	}
	m.OnAccess(s, &Access{Addr: mk("mapcontent", "", M.Typ, false, nil, nil, M), Write: w, Typ: M.Typ, Pos: pos, In: fr.fn})
}

// unwind runs the deferred calls after a panic.
func (m *Machine) unwind(fr *frame, p pt, val *Term, pos token.Pos) []end {
	outs := m.runDefers(fr, p, val)
	var ends []end
	for _, o := range outs {
		switch o.Kind {
		case Ret: // recovered
			if fr.fn.Recover != nil {
				q := p
				q.st = o.St
				q.b = fr.fn.Recover
				q.pred = -1
				q.defers = nil
				ends = append(ends, m.region(fr, []pt{q}, nil)...)
			} else {
				var vs []*Term
				rs := fr.fn.Signature.Results()
				for i := 0; i < rs.Len(); i++ {
					vs = append(vs, Zero(rs.At(i).Type()))
				}
				ends = append(ends, end{kind: Ret, out: Outcome{Kind: Ret, Vals: vs, St: o.St}})
			}
		default:
			ends = append(ends, end{kind: o.Kind, out: o})
		}
	}
	return ends
}

// runDefers runs the pending deferred calls, with pan in flight (or nil).
// Ret outcomes mean "no panic in flight any more".
func (m *Machine) runDefers(fr *frame, p pt, pan *Term) []Outcome {
	outer := p.st.PanVal
	cur := []Outcome{{Kind: Ret, St: p.st, Pan: pan}}
	for i := len(p.defers) - 1; i >= 0; i-- {
		d := p.defers[i]
		var nxt []Outcome
		for _, c := range cur {
			if c.Kind != Ret {
				nxt = append(nxt, c)
				continue
			}
			st := c.St
			st.PanVal = c.Pan
			st.inDefer++
			outs := m.doCall(fr, st, nil, d.call, d.site, d.pos, true, &d)
			for _, o := range outs {
				o.St.inDefer--
				switch o.Kind {
				case Ret:
					nxt = append(nxt, Outcome{Kind: Ret, St: o.St, Pan: o.St.PanVal})
				case Panic:
					nxt = append(nxt, Outcome{Kind: Ret, St: o.St, Pan: o.Pan})
				default:
					nxt = append(nxt, o)
				}
			}
		}
		cur = nxt
	}
	var res []Outcome
	for _, c := range cur {
		if c.Kind != Ret {
			res = append(res, c)
			continue
		}
		c.St.PanVal = outer
		if c.Pan != nil {
			res = append(res, Outcome{Kind: Panic, Pan: c.Pan, St: c.St})
		} else {
			res = append(res, Outcome{Kind: Ret, St: c.St})
		}
	}
	return res
}

func indexVal(x, i *Term, typ types.Type) *Term {
	if x.Op == "arr" {
		if n, ok := i.Int(); ok && int(n) < len(x.Args) {
			return x.Args[n]
		}
	}
	if x.Op == "zero" {
		return Zero(typ)
	}
	if s, ok := x.Str(); ok {
		if n, ok := i.Int(); ok && n >= 0 && int(n) < len(s) {
			return K(constant.MakeInt64(int64(s[n])), typ)
		}
	}
	if x.Op == "substr" {
		return App("index", typ, x.Args[0], Add(x.Args[1], i))
	}
	return App("index", typ, x, i)
}

func (m *Machine) typeAssert(s *State, x *Term, from, to types.Type) (cond, v *Term) {
	if types.IsInterface(to) {
		v = x
		if types.Implements(from, to.Underlying().(*types.Interface)) {
			return Not(Eq(x, Nil())), v
		}
		return IsT(to, x), v
	}
	return IsT(to, x), TA(to, x)
}

// spell is the string made of the bytes or runes of a short slice.
func (m *Machine) spell(st *State, x *Term, from, to types.Type) *Term {
	sl, ok := from.Underlying().(*types.Slice)
	b, isB := to.Underlying().(*types.Basic)
	if !ok || !isB || b.Info()&types.IsString == 0 {
		return nil
	}
	n, ok := Len(x).Int()
	if !ok || n > 8 {
		return nil
	}
	elems := make([]*Term, n)
	for i := range elems {
		elems[i] = m.Load(st, ElemAddr(x, Int(int64(i)), sl.Elem()), sl.Elem())
	}
	return App("spell:"+typeStr(sl.Elem()), to, elems...)
}

func (m *Machine) convert(x *Term, from, to types.Type) *Term {
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	if isPtrLike(from) && isPtrLike(to) {
		return x
	}
	if fok && tok {
		if x.IsConst() {
			switch {
			case tb.Info()&types.IsInteger != 0 && x.C.Kind() == constant.Int:
				if representable(x.C, tb, m.P.Sizes) {
					return K(x.C, to)
				}
			case tb.Info()&types.IsFloat != 0 && x.C.Kind() != constant.String && x.C.Kind() != constant.Bool:
				return K(constant.ToFloat(x.C), to)
			case tb.Info()&types.IsString != 0 && x.C.Kind() == constant.String:
				return K(x.C, to)
			}
		}
		if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
			return x
		}
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			if widening(fb, tb, m.P.Sizes) {
				return x
			}
		}
	}
	if x.Op == "app" && strings.HasPrefix(x.S, "conv:") && len(x.Args) == 1 {
		// string([]byte(s)) == s
		if a := x.Args[0]; a.Typ != nil && tok && tb.Info()&types.IsString != 0 && isStringTerm(a) {
			return a
		}
	}
	return App("conv:"+typeStr(to), to, x)
}

func isPtrLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

func widening(f, t *types.Basic, sz types.Sizes) bool {
	fs, ts := sz.Sizeof(f), sz.Sizeof(t)
	fu, tu := f.Info()&types.IsUnsigned != 0, t.Info()&types.IsUnsigned != 0
	switch {
	case fu == tu:
		return ts >= fs
	case fu && !tu:
		return ts > fs
	}
	return false
}

func representable(c constant.Value, b *types.Basic, sz types.Sizes) bool {
	bits := uint(sz.Sizeof(b) * 8)
	if b.Info()&types.IsUntyped != 0 {
		return true
	}
	if b.Info()&types.IsUnsigned != 0 {
		if constant.Sign(c) < 0 {
			return false
		}
		return constant.BitLen(c) <= int(bits)
	}
	return constant.BitLen(c) < int(bits)
}

func (m *Machine) binop(op token.Token, x, y *Term, xt, rt types.Type) *Term {
	b, _ := xt.Underlying().(*types.Basic)
	isInt := b != nil && b.Info()&types.IsInteger != 0
	signed := isInt && b.Info()&types.IsUnsigned == 0
	isStr := b != nil && b.Info()&types.IsString != 0
	if x.IsConst() && y.IsConst() && b != nil {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if x.C.Kind() == y.C.Kind() || isInt {
				return Bool(constant.Compare(x.C, op, y.C))
			}
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(y.C); ok && n < 128 && x.C.Kind() == constant.Int {
				v := constant.Shift(x.C, op, uint(n))
				if representable(v, b, m.P.Sizes) {
					return K(v, rt)
				}
			}
		case token.QUO, token.REM:
			if isInt && constant.Sign(y.C) != 0 {
				o := op
				if op == token.QUO {
					o = token.QUO_ASSIGN
				}
				return K(constant.BinaryOp(x.C, o, y.C), rt)
			}
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
			if x.C.Kind() == y.C.Kind() {
				v := constant.BinaryOp(x.C, op, y.C)
				if !isInt || representable(v, b, m.P.Sizes) {
					return K(v, rt)
				}
			}
		}
	}
	switch op {
	case token.EQL:
		return m.eq(x, y, xt)
	case token.NEQ:
		return Not(m.eq(x, y, xt))
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		neg := false
		if op == token.GTR {
			x, y = y, x
		} else if op == token.LEQ {
			x, y, neg = y, x, true
		} else if op == token.GEQ {
			neg = true
		}
		var t *Term
		if signed {
			t = Lt(x, y)
		} else {
			t = mk("lt", "", types.Typ[types.Bool], false, nil, nil, x, y)
			if isStr && x == y {
				t = False()
			}
		}
		if neg {
			t = Not(t)
		}
		return t
	case token.ADD:
		if isStr {
			return Concat(x, y)
		}
		if signed {
			return Add(x, y)
		}
	case token.SUB:
		if signed {
			return Sub(x, y)
		}
	case token.MUL:
		if signed {
			if n, ok := y.Int(); ok {
				return linOf(x).scale(n).Term()
			}
			if n, ok := x.Int(); ok {
				return linOf(y).scale(n).Term()
			}
		}
	case token.AND, token.OR, token.XOR:
		if x.ID > y.ID {
			x, y = y, x
		}
	}
	return App(op.String(), rt, x, y)
}

func (m *Machine) eq(x, y *Term, t types.Type) *Term {
	if _, ok := t.Underlying().(*types.Struct); ok {
		if x == y {
			return True()
		}
		st := t.Underlying().(*types.Struct)
		r := True()
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			r = And(r, m.eq(FieldT(x, i, ft), FieldT(y, i, ft), ft))
		}
		return r
	}
	return Eq(x, y)
}

// And of two booleans.
func And(a, b *Term) *Term {
	if v, ok := a.Bool(); ok {
		if v {
			return b
		}
		return a
	}
	if v, ok := b.Bool(); ok {
		if v {
			return a
		}
		return b
	}
	return mk("and", "", types.Typ[types.Bool], false, nil, nil, a, b)
}

func (m *Machine) slice(s *State, in *ssa.Slice, get func(ssa.Value) *Term) *Term {
	x := get(in.X)
	lo := Int(0)
	if in.Low != nil {
		lo = get(in.Low)
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic: // string
		hi := Len(x)
		if in.High != nil {
			hi = get(in.High)
		}
		return SubStr(x, lo, hi)
	case *types.Pointer: // *array
		at := u.Elem().Underlying().(*types.Array)
		hi := Int(at.Len())
		if in.High != nil {
			hi = get(in.High)
		}
		return SlT(x, lo, Sub(hi, lo), in.Type())
	default:
		b, off, n := SliceParts(x)
		hi := n
		if in.High != nil {
			hi = get(in.High)
		}
		if x.Op != "sl" && lo == Int(0) && hi == n {
			return x
		}
		return SlT(b, Add(off, lo), Sub(hi, lo), in.Type())
	}
}

// next implements iteration over maps and strings.
func (m *Machine) next(fr *frame, p pt, i int, in *ssa.Next) []end {
	it := m.val(fr, p.env, in.Iter)
	tup := in.Type().(*types.Tuple)
	site := m.site(fr, in)
	rng, _ := in.Iter.(*ssa.Range)
	if !in.IsString && it.Op == "tup" && rng != nil {
		M := it.Args[0]
		ms := m.mapState(p.st, M)
		known := ms.Base == "empty" && !m.GenericRange
		for _, e := range ms.Entries {
			if v, ok := e.Present.Bool(); !ok || !v {
				known = false
			}
		}
		m.mapAccess(fr, p.st, M, false, in.Pos())
		key := "range:" + m.rangeKey(fr, rng)
		pos := 0
		if g := p.st.Ghost[key]; g != nil {
			n, ok := g.Int()
			pos = int(n)
			known = known && ok // otherwise any number of iterations in
		}
		if known {
			if pos < len(ms.Entries) {
				e := ms.Entries[pos]
				p.st.Ghost[key] = Int(int64(pos + 1))
				p.env[in] = TupT(True(), e.Key, e.Val)
			} else {
				delete(p.st.Ghost, key)
				p.env[in] = TupT(False(), Zero(tupT(tup, 1)), Zero(tupT(tup, 2)))
			}
			return m.instrs(fr, p, i+1)
		}
		// unknown content
		delete(p.st.Ghost, key)
		ok := p.st.Fresh("more:"+site, types.Typ[types.Bool])
		var kt, vt types.Type = tupT(tup, 1), tupT(tup, 2)
		mt := rng.X.Type().Underlying().(*types.Map)
		if kt == types.Typ[types.Invalid] || kt == nil {
			kt = mt.Key()
		}
		if vt == types.Typ[types.Invalid] || vt == nil {
			vt = mt.Elem()
		}
		k := p.st.Fresh("key:"+site, kt)
		v, has := m.MapGet(p.st, M, k, vt)
		yes := TupT(True(), k, v)
		no := TupT(False(), Zero(kt), Zero(vt))
		q := p
		q.st = p.st.Copy()
		q.env = cpEnv(p.env)
		var ends []end
		if q.st.Assume(ok, true) && q.st.Assume(has, true) && q.st.Assume(Eq(M, Nil()), false) {
			q.env[in] = yes
			m.emit(q.st, &Event{Kind: "next", Args: []*Term{M, k, v}, Pos: in.Pos(), Fn: fr.fn.String(), Site: site})
			ends = append(ends, m.instrs(fr, q, i+1)...)
		}
		if p.st.Assume(ok, false) {
			p.env[in] = no
			m.emit(p.st, &Event{Kind: "nextend", Args: []*Term{M}, Pos: in.Pos(), Fn: fr.fn.String(), Site: site})
			ends = append(ends, m.instrs(fr, p, i+1)...)
		}
		m.noteFork(fr, p.b)
		return ends
	}
	// strings
	ok := p.st.Fresh("more:"+site, types.Typ[types.Bool])
	p.env[in] = TupT(ok, p.st.Fresh("idx:"+site, types.Typ[types.Int]), p.st.Fresh("rune:"+site, types.Typ[types.Int32]))
	return m.instrs(fr, p, i+1)
}

func (m *Machine) rangeKey(fr *frame, r *ssa.Range) string { return m.site(fr, r) }

func tupT(t *types.Tuple, i int) types.Type { return t.At(i).Type() }

func (m *Machine) sel(fr *frame, p pt, i int, in *ssa.Select) []end {
	site := m.site(fr, in)
	tup := in.Type().(*types.Tuple)
	n := len(in.States)
	var ends []end
	lo := 0
	if !in.Blocking {
		lo = -1
	}
	for k := lo; k < n; k++ {
		q := p
		q.st = p.st.Copy()
		q.env = cpEnv(p.env)
		vs := []*Term{Int(int64(k)), q.st.Fresh("selok:"+site, types.Typ[types.Bool])}
		r := 2
		for j, s := range in.States {
			ch := m.val(fr, q.env, s.Chan)
			if s.Dir == types.RecvOnly {
				var v *Term
				if j == k {
					v = q.st.Fresh("recv:"+site, tup.At(r).Type())
					m.emit(q.st, &Event{Kind: "recv", Name: "select", Args: []*Term{ch}, Res: []*Term{v, vs[1]}, Pos: in.Pos(), Fn: fr.fn.String(), Site: site})
				} else {
					v = Zero(tup.At(r).Type())
				}
				vs = append(vs, v)
				r++
			} else if j == k {
				v := m.val(fr, q.env, s.Send)
				m.escape(q.st, v)
				m.emit(q.st, &Event{Kind: "send", Name: "select", Args: []*Term{ch, v}, Pos: in.Pos(), Fn: fr.fn.String(), Site: site})
			}
		}
		if k == -1 {
			m.emit(q.st, &Event{Kind: "default", Name: "select", Pos: in.Pos(), Fn: fr.fn.String(), Site: site})
		}
		q.env[in] = TupT(vs...)
		ends = append(ends, m.instrs(fr, q, i+1)...)
	}
	return ends
}

// StrLess is the term for a < b on strings.
func (m *Machine) StrLess(a, b *Term) *Term {
	return m.binop(token.LSS, a, b, types.Typ[types.String], types.Typ[types.Bool])
}

// BitAnd is the term for a & b on integers.
func (m *Machine) BitAnd(a, b *Term) *Term {
	return m.binop(token.AND, a, b, types.Typ[types.Int], types.Typ[types.Int])
}
