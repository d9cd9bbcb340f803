package ai

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// UnrollLimit bounds concrete unrolling of loops whose exit tests are decided.
const UnrollLimit = 64

// exitTests are the blocks of l ending in a conditional exit that every
// iteration passes.
func exitTests(fi *funcInfo, l *loop) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	for b := range l.blocks {
		if fi.inner[b] != l || len(b.Succs) != 2 {
			continue
		}
		if l.blocks[b.Succs[0]] && l.blocks[b.Succs[1]] {
			continue
		}
		dom := true
		for _, x := range l.latches {
			if !b.Dominates(x) {
				dom = false
			}
		}
		if dom {
			out = append(out, b)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Index < out[j].Index })
	return out
}

// execLoop analyses a loop entered at p (header, phis evaluated). It returns
// exits ("exitloop") and function ends.
func (m *Machine) execLoop(fr *frame, l *loop, p pt) []end {
	m.Stat.Loops++
	if ends, ok := m.unroll(fr, l, p); ok {
		return ends
	}
	if m.Peel && p.st.ctx == "" && l.parent == nil {
		return m.peel(fr, l, p)
	}
	return m.generic(fr, l, p)
}

// peel analyses the first iteration of a loop apart from the others.
func (m *Machine) peel(fr *frame, l *loop, p pt) []end {
	q := p
	q.st = p.st.Copy()
	q.env = cpEnv(p.env)
	var outs []end
	var backs []pt
	for _, e := range m.region(fr, []pt{q}, l) {
		if e.kind != "back" {
			outs = append(outs, e)
			continue
		}
		b := e.p
		m.evalPhis(fr, &b)
		backs = append(backs, b)
	}
	for _, b := range m.dedupPts(fr, backs) {
		outs = append(outs, m.generic(fr, l, b)...)
	}
	return outs
}

// parted says whether some ways through an iteration from one start leave the
// loop at a test and others go on: what is tested was not known at the start.
func parted(ends []end, b *ssa.BasicBlock) bool {
	left, on := map[int]bool{}, map[int]bool{}
	for _, e := range ends {
		switch {
		case e.kind == "back":
			on[e.p.org] = true
		case e.kind == "exitloop" && e.p.pred < len(e.p.b.Preds) && e.p.b.Preds[e.p.pred] == b:
			left[e.p.org] = true
		}
	}
	for o := range left {
		if on[o] {
			return true
		}
	}
	return false
}

func (m *Machine) unroll(fr *frame, l *loop, p pt) ([]end, bool) {
	tests := exitTests(fr.fi, l)
	if len(tests) == 0 {
		return nil, false
	}
	saved := forked
	defer func() {
		for b := range forked {
			if saved != nil {
				saved[b] = true
			}
		}
		forked = saved
	}()
	all := map[*ssa.BasicBlock]bool{}
	var res []end
	cur := []pt{{b: p.b, pred: p.pred, env: p.env, st: p.st.Copy(), defers: p.defers}}
	total := 0
	for it := 0; len(cur) > 0; it++ {
		if len(cur) > 8 {
			total += len(cur)
		}
		if it > UnrollLimit || !m.Unroll && (total > 384 && len(cur) > m.MergeLimit || len(cur) > 256 && len(cur) > m.MergeLimit || len(res) > 4096 && len(res) > m.MergeLimit) {
			return nil, false
		}
		forked = map[*ssa.BasicBlock]bool{}
		for i := range cur {
			cur[i].org = i
		}
		ends := m.region(fr, cur, l)
		decided := false
		for _, b := range tests {
			if !forked[b] && !parted(ends, b) {
				decided = true
			}
		}
		for b := range forked {
			all[b] = true
		}
		if !decided {
			forked = all
			return nil, false
		}
		cur = nil
		for _, e := range ends {
			if e.kind != "back" {
				e.p.org = p.org
				res = append(res, e)
				continue
			}
			q := e.p
			m.evalPhis(fr, &q)
			cur = append(cur, q)
		}
		cur = m.dedupPts(fr, cur)
		if len(cur) > m.MergeLimit {
			cur = m.mergePts(fr, cur)
		}
	}
	forked = all
	return res, true
}

func (m *Machine) dedupPts(fr *frame, ps []pt) []pt {
	seen := map[string]bool{}
	var out []pt
	for _, p := range ps {
		k := m.envKey(fr, p) + "\x00" + p.st.key()
		if !seen[k] {
			seen[k] = true
			out = append(out, p)
		}
	}
	return out
}

type widening_ struct {
	phi    map[*ssa.Phi]bool
	cell   map[int]bool // widened cells (address ID)
	root   map[int]bool // havoced roots
	maps   map[int]bool
	logs   map[int]bool
	ghost  map[string]bool
	epoch  bool
	esc    map[int]bool
	rootEp map[int]bool
	cands  map[int]bool // candidate invariants (literal term IDs) still standing
	tried  map[int]bool
	dead   map[int]bool
	copies map[int]*logEntry // what the iterations so far copied, a hypothesis
	noCopy map[int]bool
}

// derive guesses that the loop copies elements one by one into backing b: each
// iteration writes element sym+k with element sym+d of another backing, or of
// this one as it was before the loop.
func (m *Machine) deriveCopy(base *State, b *Term, junk string, backs []pt, syms map[*Term]*Term, next func(q pt, sym *Term) *Term) *logEntry {
	if len(backs) == 0 {
		return nil
	}
	last := func(q pt) *logEntry {
		l := q.st.logs[b.ID]
		n := len(base.logs[b.ID]) + 1
		if len(l) != n+1 || l[n].Val == nil {
			return nil
		}
		return &l[n]
	}
	e := last(backs[0])
	if e == nil {
		return nil
	}
	lo := linOf(e.Lo)
	for sym, init := range syms {
		k := lo.minus(linOf(sym))
		if varies(k.Term(), junk) {
			continue
		}
		step := linOf(next(backs[0], sym)).minus(linOf(sym))
		if len(step.At) != 0 || step.K != 1 && step.K != -1 {
			continue
		}
		var src *Term
		var d *Lin
		bad := false
		e.Val.Subterms(func(u *Term) {
			var s, i *Term
			switch {
			case u.Op == "ia":
				s, i = u.Args[0], u.Args[1]
			case u.Op == "app" && u.S == "junk" && len(u.Args) == 2 && u.Args[1] == Str(junk):
				s, i = b, u.Args[0]
			default:
				return
			}
			dd := linOf(i).minus(linOf(sym))
			if varies(dd.Term(), junk) {
				return
			}
			if src != nil && (src != s || d.Term() != dd.Term()) {
				bad = true
			}
			src, d = s, dd
		})
		if src == nil || bad {
			continue
		}
		ent := &logEntry{Src: src, SrcVer: len(base.logs[src.ID])}
		if ent.SrcVer == 0 && !base.freshRoot(src.Root()) {
			if ent.SrcEp = base.epochOf(src.Root()); ent.SrcEp == "" {
				ent.SrcEp = "0"
			}
		}
		if step.K == 1 {
			ent.Lo, ent.N, ent.SrcLo = Add(init, k.Term()), Sub(sym, init), Add(init, d.Term())
		} else {
			first := Add(sym, Int(1))
			ent.Lo, ent.N, ent.SrcLo = Add(first, k.Term()), Sub(init, sym), Add(first, d.Term())
		}
		return ent
	}
	return nil
}

// varies reports whether a value may differ between iterations of the loop
// with the given junk name.
func varies(t *Term, junk string) bool {
	inst := junk[:strings.LastIndexByte(junk, '#')]
	f := false
	t.Subterms(func(u *Term) { f = f || strings.HasPrefix(u.S, inst) || u.Op == "app" && u.S == "junk" })
	return f
}

// keepsCopy checks the hypothesis about a copying loop for one more iteration.
func (m *Machine) keepsCopy(base *State, b *Term, ent *logEntry, backs []pt, syms map[*Term]*Term, next func(q pt, sym *Term) *Term) bool {
	if len(backs) == 0 {
		return false
	}
	for _, q := range backs {
		l := q.st.logs[b.ID]
		n := len(base.logs[b.ID]) + 1
		if len(l) != n+1 || l[n].Val == nil {
			return false
		}
		w := l[n]
		// the induction variable
		var sym, init *Term
		for s, i := range syms {
			if ent.N == Sub(s, i) || ent.N == Sub(i, s) {
				sym, init = s, i
			}
		}
		if sym == nil {
			return false
		}
		st := linOf(next(q, sym)).minus(linOf(sym))
		if len(st.At) != 0 {
			return false
		}
		var want, from *Term
		switch {
		case st.K == 1 && ent.N == Sub(sym, init):
			want, from = Add(ent.Lo, ent.N), Add(ent.SrcLo, ent.N)
		case st.K == -1 && ent.N == Sub(init, sym):
			want, from = Add(ent.Lo, Int(-1)), Add(ent.SrcLo, Int(-1))
		default:
			return false
		}
		if w.Lo != want {
			return false
		}
		if len(l[n].Lo.Args) > 0 && w.N != Int(1) {
			return false
		}
		probe := base.Copy()
		probe.lits, probe.zone = cp(q.st.lits), append([]*Lin{}, q.st.zone...)
		if w.Val != m.readSrc(probe, *ent, from, w.Val.Typ) && w.Val != m.readSrc(probe, *ent, from, elemTypeOfVal(w.Val, b)) {
			return false
		}
	}
	return true
}

func elemTypeOfVal(v, b *Term) types.Type {
	if et := elemOfBacking(b); et != nil {
		return et
	}
	return v.Typ
}

// stepOf is the constant by which every iteration changes a quantity.
func stepOf(backs []pt, cur *Term, next func(q pt) *Term) (int64, bool) {
	if len(backs) == 0 {
		return 0, false
	}
	var k int64
	for i, q := range backs {
		d := linOf(next(q)).minus(linOf(cur))
		if len(d.At) != 0 || i > 0 && d.K != k {
			return 0, false
		}
		k = d.K
	}
	return k, true
}

func headerPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

// generic analyses an arbitrary iteration of a loop.
func (m *Machine) generic(fr *frame, l *loop, p pt) []end {
	entry := p.st
	name := fmt.Sprintf("%s/%s:L%d", fr.path, fr.fn.Name(), l.idx)
	base := entry.Copy()
	inst := base.freshName("loop@" + name) // counts the occurrence in base.cnt
	phis := headerPhis(l.header)
	w := &widening_{phi: map[*ssa.Phi]bool{}, cell: map[int]bool{}, root: map[int]bool{}, maps: map[int]bool{}, logs: map[int]bool{}, ghost: map[string]bool{}, esc: map[int]bool{}, rootEp: map[int]bool{}, cands: map[int]bool{}, tried: map[int]bool{}, dead: map[int]bool{}, copies: map[int]*logEntry{}, noCopy: map[int]bool{}}
	junkID := func(id int) string { return fmt.Sprintf("%s#%d", inst, id) }

	phiSym := func(ph *ssa.Phi) *Term {
		nm := ph.Comment
		if nm == "" {
			nm = ph.Name()
		}
		return Sym(inst+"."+nm+"."+ph.Name(), ph.Type())
	}
	// widened values, to mark what they might be as escaped
	var widened []*Term
	cellSym := map[int]*Term{}

	mkHead := func() pt {
		h := p
		h.env = cpEnv(p.env)
		s := base.Copy()
		h.st = s
		s.ctx = inst + "/"
		s.trace = nil
		for _, ph := range phis {
			if w.phi[ph] {
				h.env[ph] = phiSym(ph)
			}
		}
		for _, id := range sortedKeys(w.cell) {
			a := termByID(id)
			t := a.Typ
			if pt := pointee(a); pt != nil {
				t = pt
			}
			cellSym[id] = Sym(fmt.Sprintf("%s.cell%d", inst, id), t)
			s.cells[id] = cellSym[id]
		}
		for _, id := range sortedKeys(w.root) {
			for _, cid := range sortedKeys(s.cells) {
				if termByID(cid).Root().ID == id && !w.cell[cid] {
					delete(s.cells, cid)
				}
			}
			s.rootEp[id] = inst
		}
		if w.epoch {
			s.epoch = inst
			for _, cid := range sortedKeys(s.cells) {
				if w.cell[cid] {
					continue
				}
				r := termByID(cid).Root()
				if r.Op == "obj" && !s.esc[r.ID] && !w.esc[r.ID] {
					continue
				}
			}
		}
		for _, id := range sortedKeys(w.rootEp) {
			if t := termByID(id); t.Op == "obj" {
				s.hav[id] = inst
			} else {
				s.rootEp[id] = inst
			}
		}
		for _, id := range sortedKeys(w.maps) {
			s.maps[id] = &MapState{Base: "e" + inst}
		}
		for _, id := range sortedKeys(w.logs) {
			e := logEntry{Junk: true, JunkID: junkID(id)}
			if w.copies[id] != nil {
				e = *w.copies[id]
			}
			s.logs[id] = append(s.logs[id][:len(s.logs[id]):len(s.logs[id])], e)
		}
		for k := range w.ghost {
			s.Ghost[k] = Sym(inst+".ghost."+k, types.Typ[types.Int])
		}
		for id := range w.esc {
			if s.objs[id] {
				s.esc[id] = true
			}
		}
		m.escape(s, widened...)
		for _, id := range sortedKeys(w.cands) {
			s.Assume(termByID(id), true)
		}
		return h
	}

	// valueAt gives the next value of a widened term.
	substOf := func(q pt) map[*Term]*Term {
		sb := map[*Term]*Term{}
		for _, ph := range phis {
			if w.phi[ph] {
				sb[phiSym(ph)] = q.env[ph]
			}
		}
		for id := range w.cell {
			if v, ok := q.st.cells[id]; ok {
				sb[cellSym[id]] = v
			}
		}
		return sb
	}
	initSubst := func() map[*Term]*Term {
		sb := map[*Term]*Term{}
		for _, ph := range phis {
			if w.phi[ph] {
				sb[phiSym(ph)] = p.env[ph]
			}
		}
		for id := range w.cell {
			if v, ok := base.cells[id]; ok {
				sb[cellSym[id]] = v
			}
		}
		return sb
	}
	mentionsBody := func(t *Term) bool {
		f := false
		t.Subterms(func(u *Term) {
			if strings.Contains(u.S, inst+"/") {
				f = true
			}
		})
		return f
	}

	var ends []end
	var backs []pt
	quiet := m.quiet
	round, shifts := 0, 0
	for {
		round++
		if round > 60 {
			m.problem("loop in %s does not stabilise", fr.fn)
			break
		}
		h := mkHead()
		head := h.st.Copy()
		m.quiet = true
		m.noAccess++
		ends = m.region(fr, []pt{h}, l)
		m.noAccess--
		m.quiet = quiet
		backs = nil
		changed := false
		markPhi := func(ph *ssa.Phi, v *Term) {
			if !w.phi[ph] {
				w.phi[ph] = true
				changed = true
			}
			widened = append(widened, v, p.env[ph])
		}
		for _, e := range ends {
			if e.kind != "back" {
				continue
			}
			q := e.p
			m.evalPhis(fr, &q)
			backs = append(backs, q)
			s := q.st
			for _, ph := range phis {
				if !w.phi[ph] {
					if q.env[ph] != h.env[ph] {
						markPhi(ph, q.env[ph])
					}
				} else {
					n := len(head.esc)
					m.escape(head, q.env[ph])
					if len(head.esc) > n {
						widened = append(widened, q.env[ph])
						changed = true
					}
				}
			}
			// epoch
			if s.epoch != head.epoch && !w.epoch {
				w.epoch = true
				changed = true
			}
			for _, id := range sortedKeys(s.esc) {
				if !head.esc[id] && head.objs[id] && !w.esc[id] {
					w.esc[id] = true
					changed = true
				}
			}
			for _, id := range sortedKeys(s.hav) {
				if s.hav[id] != head.hav[id] && head.objs[id] && !w.rootEp[id] {
					w.rootEp[id] = true
					changed = true
				}
			}
			for _, id := range sortedKeys(s.rootEp) {
				if s.rootEp[id] != head.rootEp[id] && !w.rootEp[id] && !mentionsBody(termByID(id)) {
					w.rootEp[id] = true
					changed = true
				}
			}
			// cells present at the back edge
			probe := head.Copy()
			for _, id := range sortedKeys(s.cells) {
				if w.cell[id] {
					continue
				}
				a := termByID(id)
				r := a.Root()
				if r.Op == "obj" && !head.objs[r.ID] && strings.Contains(r.S, inst+"/") {
					continue // allocated in the body
				}
				iter := mentionsBody(a) || mentionsHead(a, inst)
				var hv *Term
				if v, ok := head.cells[id]; ok {
					hv = v
				} else {
					hv = m.peek(probe, a, s.cells[id].Typ)
				}
				if hv == s.cells[id] {
					continue
				}
				if iter {
					if (r.Op == "obj" && head.objs[r.ID] || r.Op == "glob" || r.Op != "obj" && !mentionsBody(r) && !mentionsHead(r, inst)) && !w.root[r.ID] {
						w.root[r.ID] = true
						changed = true
					}
					continue
				}
				w.cell[id] = true
				widened = append(widened, s.cells[id], hv)
				changed = true
			}
			// cells lost
			for _, id := range sortedKeys(head.cells) {
				if _, ok := s.cells[id]; !ok && !w.cell[id] {
					w.cell[id] = true
					widened = append(widened, head.cells[id])
					changed = true
				}
			}
			for _, id := range sortedKeys(s.maps) {
				t := termByID(id)
				if w.maps[id] || t.Op == "obj" && !head.objs[id] || mentionsBody(t) {
					continue
				}
				hm := head.maps[id]
				if hm == nil {
					hm = m.mapState(head, t)
				}
				if !sameMap(hm, s.maps[id]) {
					w.maps[id] = true
					changed = true
				}
			}
			for _, id := range sortedKeys(s.logs) {
				t := termByID(id)
				if w.logs[id] || t.Op == "obj" && !head.objs[id] || mentionsBody(t) {
					continue
				}
				if logKey(head.logs[id]) != logKey(s.logs[id]) {
					w.logs[id] = true
					changed = true
				}
			}
			for k, v := range s.Ghost {
				if head.Ghost[k] != v && !w.ghost[k] {
					w.ghost[k] = true
					changed = true
				}
			}
			for id := range s.Locks {
				if s.Locks[id] != head.Locks[id] {
					m.problem("%s: locks differ between iterations of a loop in %s", m.P.Pos(l.header.Instrs[0].Pos()), fr.fn)
				}
			}
			for id := range head.Locks {
				if s.Locks[id] != head.Locks[id] {
					m.problem("%s: locks differ between iterations of a loop in %s", m.P.Pos(l.header.Instrs[0].Pos()), fr.fn)
				}
			}
			if len(q.defers) != len(p.defers) {
				m.problem("%s: defer in a loop in %s", m.P.Pos(l.header.Instrs[0].Pos()), fr.fn)
			}
		}
		if changed {
			// candidates must be re-derived for the new symbols
			w.cands = map[int]bool{}
			w.tried = map[int]bool{}
			w.dead = map[int]bool{}
			shifts = 0
			continue
		}
		// inductive candidates
		is := initSubst()
		added := false
		try := func(t *Term) {
			if t.IsConst() || w.tried[t.ID] || mentionsBody(t) {
				return
			}
			w.tried[t.ID] = true
			it := t.Subst(is)
			es := base.Copy()
			if es.Decide(it) != 1 {
				return
			}
			w.cands[t.ID] = true
			added = true
		}
		for _, ph := range phis {
			if !w.phi[ph] {
				continue
			}
			sym := phiSym(ph)
			if isIntType(ph.Type()) {
				up, down := len(backs) > 0, len(backs) > 0
				for _, q := range backs {
					d := linOf(q.env[ph]).minus(linOf(sym))
					if q.st.Decide(LeZero(d)) != 1 {
						down = false
					}
					if q.st.Decide(LeZero(d.scale(-1))) != 1 {
						up = false
					}
				}
				if up {
					try(Le(p.env[ph], sym))
				}
				if down {
					try(Le(sym, p.env[ph]))
				}
				// a bound that grows with every round is none
				for _, q := range backs {
					if shifts > 6 {
						break
					}
					for _, z := range q.st.zone {
						if t := shiftFact(z, sym, q.env[ph]); t != nil {
							try(t)
						}
					}
				}
			}
			// a slice that grows as an index does
			if _, ok := ph.Type().Underlying().(*types.Slice); ok {
				k, ok := stepOf(backs, Len(sym), func(q pt) *Term { return Len(q.env[ph]) })
				for _, ix := range phis {
					if !ok || k == 0 || !w.phi[ix] || !isIntType(ix.Type()) {
						continue
					}
					is := phiSym(ix)
					if d, ok := stepOf(backs, is, func(q pt) *Term { return q.env[ix] }); ok && (d == 1 || d == -1) {
						l := linOf(Len(sym)).minus(linOf(Len(p.env[ph]))).minus(linOf(is).minus(linOf(p.env[ix])).scale(k * d))
						try(Eq(l.Term(), Int(0)))
					}
				}
			}
			// simple facts about the symbol that hold initially and are kept
			for _, f := range []*Term{Not(Eq(sym, Nil())), Eq(sym, Nil())} {
				if !isNilable(ph.Type()) {
					break
				}
				broken := false
				for _, q := range backs {
					broken = broken || q.st.Decide(f.Subst(map[*Term]*Term{sym: q.env[ph]})) == -1
				}
				if !broken {
					try(f)
				}
			}
		}
		shifts++
		// drop candidates that are not kept
		dropped := false
		if !added {
			for _, id := range sortedKeys(w.cands) {
				t := termByID(id)
				for _, q := range backs {
					nt := t.Subst(substOf(q))
					if q.st.Decide(nt) != 1 {
						delete(w.cands, id)
						dropped = true
						break
					}
				}
			}
		}
		if added || dropped {
			continue
		}
		// loops that copy elements one by one
		syms := map[*Term]*Term{}
		for _, ph := range phis {
			if w.phi[ph] && isIntType(ph.Type()) {
				syms[phiSym(ph)] = p.env[ph]
			}
		}
		next := func(q pt, sym *Term) *Term {
			if v := substOf(q)[sym]; v != nil {
				return v
			}
			return sym
		}
		again := false
		for _, id := range sortedKeys(w.logs) {
			if w.noCopy[id] {
				continue
			}
			b := termByID(id)
			if h := w.copies[id]; h == nil {
				h = m.deriveCopy(base, b, junkID(id), backs, syms, next)
				if h == nil || mentionsBody(h.Lo) || mentionsBody(h.SrcLo) || mentionsBody(h.Src) || h.Src.ID != id && (w.logs[h.Src.ID] || mentionsHead(h.Src, inst)) {
					w.noCopy[id] = true
					continue
				}
				w.copies[id] = h
				again = true
			} else if !m.keepsCopy(base, b, h, backs, syms, next) {
				w.noCopy[id] = true
				delete(w.copies, id)
				w.cands, w.tried = map[int]bool{}, map[int]bool{}
				again = true
			}
		}
		if again {
			continue
		}
		break
	}
	// final run with accesses reported
	h := mkHead()
	headSt := h.st.Copy()
	ends = m.region(fr, []pt{h}, l)
	node := &LoopNode{Site: name, Pos: l.header.Instrs[0].Pos(), Head: headSt}
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			node.Pos = in.Pos()
			break
		}
	}
	seenIt := map[string]bool{}
	var outs []end
	for _, e := range ends {
		if e.kind != "back" {
			outs = append(outs, e)
			continue
		}
		q := e.p
		m.evalPhis(fr, &q)
		it := LoopIter{Trace: q.st.trace, St: q.st, Next: map[*Term]*Term{}}
		var k strings.Builder
		for _, ph := range phis {
			if w.phi[ph] {
				it.Next[phiSym(ph)] = q.env[ph]
				fmt.Fprintf(&k, "%d,", q.env[ph].ID)
			}
		}
		for _, id := range sortedKeys(w.cell) {
			if v, ok := q.st.cells[id]; ok {
				it.Next[headSt.cells[id]] = v
				fmt.Fprintf(&k, "c%d,", v.ID)
			}
		}
		k.WriteString(q.st.key())
		if seenIt[k.String()] {
			continue
		}
		seenIt[k.String()] = true
		node.Iters = append(node.Iters, it)
	}
	for _, ph := range phis {
		if !w.phi[ph] {
			continue
		}
		lp := LoopPhi{Sym: phiSym(ph), Init: p.env[ph]}
		var step *Lin
		same := true
		for _, it := range node.Iters {
			n := it.Next[lp.Sym]
			lp.Next = append(lp.Next, n)
			if isIntType(ph.Type()) {
				d := linOf(n).minus(linOf(lp.Sym))
				if step != nil && step.Term() != d.Term() {
					same = false
				}
				step = d
			}
		}
		if same && step != nil && len(step.At) == 0 {
			lp.Step = step
		}
		node.Phis = append(node.Phis, lp)
	}
	for _, id := range sortedKeys(w.cell) {
		a := termByID(id)
		iv := base.cells[id]
		if iv == nil {
			iv = m.peek(base, a, headSt.cells[id].Typ)
		}
		lp := LoopPhi{Sym: headSt.cells[id], Init: iv, Cell: a}
		for _, it := range node.Iters {
			if n, ok := it.Next[lp.Sym]; ok {
				lp.Next = append(lp.Next, n)
			}
		}
		node.Phis = append(node.Phis, lp)
	}
	ev := &Event{Kind: "loop", Loop: node, Pos: node.Pos, Fn: fr.fn.String(), Site: name, St: entry}
	if m.OnLoop != nil {
		m.OnLoop(fr.fn, entry, node)
	}
	for i := range outs {
		e := &outs[i]
		s := e.out.St
		if e.kind == "exitloop" {
			s = e.p.st
		}
		s.ctx = entry.ctx
		for k := range s.cnt {
			if strings.HasPrefix(k, inst+"/") {
				delete(s.cnt, k)
			}
		}
		tr := entry.trace
		if len(node.Iters) > 0 && (m.Keep == nil || m.Keep(ev)) {
			tr = tr.add(ev)
		}
		for _, x := range s.trace.Events() {
			tr = tr.add(x)
		}
		s.trace = tr
	}
	return outs
}

// mentionsHead reports whether t mentions a symbol of the loop head.
func mentionsHead(t *Term, inst string) bool {
	f := false
	t.Subterms(func(u *Term) {
		if strings.HasPrefix(u.S, inst+".") {
			f = true
		}
	})
	return f
}

func sameMap(a, b *MapState) bool {
	if a.Base != b.Base || a.Of != b.Of || len(a.Entries) != len(b.Entries) {
		return false
	}
	for i := range a.Entries {
		if a.Entries[i] != b.Entries[i] {
			return false
		}
	}
	return true
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isNilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature, *types.Chan, *types.Slice:
		return true
	}
	return false
}

// shiftFact turns a fact z (z <= 0) about sym, known when the next value of the
// symbol is next = sym + d, into a candidate fact about the next value.
func shiftFact(z *Lin, sym, next *Term) *Term {
	co := int64(0)
	for i, t := range z.At {
		if t == sym {
			co = z.Co[i]
		}
	}
	if co == 0 {
		return nil
	}
	d := linOf(next).minus(linOf(sym))
	if len(d.At) != 0 {
		return nil
	}
	// z(sym) <= 0; with sym = next - d: z(next) - co*d <= 0
	n := &Lin{At: z.At, Co: z.Co, K: z.K - co*d.K}
	return LeZero(n)
}
