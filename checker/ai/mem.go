package ai

import (
	"fmt"
	"go/types"
	"strconv"
)

// maxArray is the largest array whose elements are separate cells.
const maxArray = 16

func (s *State) epochOf(root *Term) string {
	if e, ok := s.rootEp[root.ID]; ok {
		return e
	}
	if root.Op == "obj" {
		return s.hav[root.ID]
	}
	return s.epoch
}

// NewObj allocates an object.
func (s *State) NewObj(site string, elem types.Type) *Term {
	o := ObjT(s.freshName(site), elem)
	s.objs[o.ID] = true
	return o
}

// freshRoot reports whether the object's content is fully known (allocated on
// this path and not modified by unknown code).
func (s *State) freshRoot(r *Term) bool {
	if r.Op != "obj" || !s.objs[r.ID] {
		return false
	}
	_, h := s.hav[r.ID]
	_, e := s.rootEp[r.ID]
	return !h && !e
}

// peek returns the content of a leaf cell without creating it.
func (m *Machine) peek(s *State, addr *Term, typ types.Type) *Term {
	if v, ok := s.cells[addr.ID]; ok {
		return v
	}
	// cells of an element whose backing has a write log
	if b, idx, path := elemPath(addr); b != nil {
		if len(s.logs[b.ID]) > 0 {
			et := elemTypeOf(b, addr)
			v := m.readLog(s, b, idx, len(s.logs[b.ID]), et)
			for _, i := range path {
				v = FieldT(v, i, fieldType(v, i))
			}
			return v
		}
	}
	r := addr.Root()
	if s.freshRoot(r) || m.Private != nil && r.Op == "obj" && s.objs[r.ID] && m.Private(s, addr) {
		return Zero(typ)
	}
	if r.Op == "glob" {
		if v := m.immutableGlobal(r, addr, typ); v != nil {
			return v
		}
	}
	if v := m.immRead(s, addr, typ); v != nil {
		return v
	}
	if m.Stable != nil && r.Op != "obj" && m.Stable(s, addr) {
		return ldT(addr, "", typ)
	}
	return ldT(addr, s.epochOf(r), typ)
}

// immRead reads the content of an object made at initialisation and never
// modified.
func (m *Machine) immRead(s *State, addr *Term, typ types.Type) *Term {
	r := addr.Root()
	if r.Op != "obj" || s.objs[r.ID] || m.initMode || m.initTrunc || len(m.initStates) == 0 || !m.immutableContent(r) {
		return nil
	}
	var v *Term
	for _, is := range m.initStates {
		if is == s {
			return nil
		}
		u := m.Load(is.Copy(), addr, typ)
		if v != nil && u != v {
			return nil
		}
		v = u
	}
	return v
}

// elemPath splits an address into backing, element index and field path below
// the element, for addresses whose innermost step is an element of a backing.
func elemPath(addr *Term) (b, idx *Term, path []int) {
	t := addr
	for t.Op == "fa" {
		i, _ := strconv.Atoi(t.S)
		path = append([]int{i}, path...)
		t = t.Args[0]
	}
	if t.Op == "ia" {
		return t.Args[0], t.Args[1], path
	}
	return nil, nil, nil
}

func fieldType(v *Term, i int) types.Type {
	if v.Typ != nil {
		if st, ok := v.Typ.Underlying().(*types.Struct); ok && i < st.NumFields() {
			return st.Field(i).Type()
		}
	}
	return nil
}

func elemTypeOf(b, addr *Term) types.Type {
	t := addr
	for t.Op == "fa" {
		t = t.Args[0]
	}
	return t.Typ
}

// Load reads a value of the given type.
func (m *Machine) Load(s *State, addr *Term, typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		if b, idx, path := elemPath(addr); b != nil && len(s.logs[b.ID]) > 0 {
			v := m.readLog(s, b, idx, len(s.logs[b.ID]), elemTypeOf(b, addr))
			for _, i := range path {
				v = FieldT(v, i, fieldType(v, i))
			}
			return v
		}
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			ft := u.Field(i).Type()
			fs[i] = m.Load(s, FA(addr, i, ft), ft)
		}
		return AggT(typ, fs)
	case *types.Array:
		if u.Len() <= maxArray && isLeaf(u.Elem()) {
			fs := make([]*Term, u.Len())
			for i := range fs {
				fs[i] = m.Load(s, IA(addr, Int(int64(i)), u.Elem()), u.Elem())
			}
			return mk("arr", "", typ, true, nil, nil, fs...)
		}
	}
	v := m.peek(s, addr, typ)
	s.cells[addr.ID] = v
	return v
}

func isLeaf(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return false
	}
	return true
}

// Store writes a value.
func (m *Machine) Store(s *State, addr, v *Term, typ types.Type) {
	// element of a backing: whole-element stores (and stores below elements of
	// backings with a log) go through the write log.
	if b, idx, path := elemPath(addr); b != nil && (len(path) == 0 || len(s.logs[b.ID]) > 0) {
		et := elemTypeOf(b, addr)
		if at, ok := arrayOf(b); ok && at.Len() <= maxArray && isLeaf(at.Elem()) && len(s.logs[b.ID]) == 0 {
			if _, c := idx.Int(); c {
				m.storeLeafs(s, addr, v, typ)
				return
			}
		}
		if len(path) > 0 {
			old := m.readLog(s, b, idx, len(s.logs[b.ID]), et)
			v = setPath(old, path, v, et)
		}
		m.logWrite(s, b, logEntry{Lo: idx, N: Int(1), Val: v})
		return
	}
	m.storeLeafs(s, addr, v, typ)
}

func arrayOf(b *Term) (*types.Array, bool) {
	if t := pointee(b); t != nil {
		a, ok := t.Underlying().(*types.Array)
		return a, ok
	}
	return nil, false
}

func setPath(old *Term, path []int, v *Term, typ types.Type) *Term {
	st, ok := typ.Underlying().(*types.Struct)
	if !ok {
		return v
	}
	fs := make([]*Term, st.NumFields())
	for i := range fs {
		fs[i] = FieldT(old, i, st.Field(i).Type())
	}
	if len(path) == 1 {
		fs[path[0]] = v
	} else {
		fs[path[0]] = setPath(fs[path[0]], path[1:], v, st.Field(path[0]).Type())
	}
	return AggT(typ, fs)
}

func (m *Machine) storeLeafs(s *State, addr, v *Term, typ types.Type) {
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			m.storeLeafs(s, FA(addr, i, ft), FieldT(v, i, ft), ft)
		}
		return
	case *types.Array:
		if u.Len() <= maxArray && isLeaf(u.Elem()) {
			for i := int64(0); i < u.Len(); i++ {
				e := Zero(u.Elem())
				if v.Op == "arr" {
					e = v.Args[i]
				} else if v.Op != "zero" {
					e = App("index", u.Elem(), v, Int(i))
				}
				m.storeLeafs(s, IA(addr, Int(i), u.Elem()), e, u.Elem())
			}
			return
		}
	}
	m.killAliases(s, addr, typ)
	s.cells[addr.ID] = v
}

// killAliases forgets cells which might be the same memory as addr.
func (m *Machine) killAliases(s *State, addr *Term, typ types.Type) {
	root := addr.Root()
	fresh := root.Op == "obj" && !s.esc[root.ID]
	for _, id := range sortedKeys(s.cells) {
		if id == addr.ID {
			continue
		}
		a := termByID(id)
		if a.Op != addr.Op {
			continue
		}
		r := a.Root()
		if r == root {
			// same root: may alias only through different symbolic indices
			if addr.Op == "fa" || addr.Op == "ia" {
				if sameShape(a, addr) && !m.distinct(s, a, addr) {
					s.cells[id] = m.unknownCell(s, a)
				}
			}
			continue
		}
		if fresh || (r.Op == "obj" && !s.esc[r.ID]) || (r.Op == "obj" && root.Op == "obj") || (r.Op == "glob" && root.Op == "glob") {
			continue
		}
		if (r.Op == "glob") != (root.Op == "glob") && a.Op == "fa" {
			// a pointer may point to a global, keep sound
		}
		if !sameShape(a, addr) {
			continue
		}
		if s.lits[Eq(r, root).ID] == false {
			if _, known := s.lits[Eq(r, root).ID]; known {
				continue
			}
		}
		s.cells[id] = m.unknownCell(s, a)
	}
}

func (m *Machine) unknownCell(s *State, a *Term) *Term {
	return s.Fresh(fmt.Sprintf("alias%d", a.ID), a.Typ)
}

// sameShape reports whether two addresses have the same field path and element
// type, so that they could denote the same cell for equal roots.
func sameShape(a, b *Term) bool {
	for {
		if a.Op != b.Op {
			// roots of differing kinds
			return a.Op != "fa" && a.Op != "ia" && b.Op != "fa" && b.Op != "ia" && sameElem(a, b)
		}
		switch a.Op {
		case "fa":
			if a.S != b.S {
				return false
			}
			if a.Typ != nil && b.Typ != nil && !types.Identical(a.Typ, b.Typ) {
				return false
			}
		case "ia":
			if a.Typ != nil && b.Typ != nil && !types.Identical(a.Typ, b.Typ) {
				return false
			}
		default:
			return sameElem(a, b)
		}
		a, b = a.Args[0], b.Args[0]
	}
}

func sameElem(a, b *Term) bool {
	pa, pb := pointee(a), pointee(b)
	if pa == nil || pb == nil {
		return true
	}
	return types.Identical(pa, pb)
}

func (m *Machine) distinct(s *State, a, b *Term) bool {
	for a.Op == b.Op && (a.Op == "fa" || a.Op == "ia") {
		if a.Op == "ia" && s.Decide(Eq(a.Args[1], b.Args[1])) == -1 {
			return true
		}
		a, b = a.Args[0], b.Args[0]
	}
	return false
}

// --- write logs of slice backings

func (m *Machine) logWrite(s *State, b *Term, e logEntry) {
	l := s.logs[b.ID]
	// drop cells below elements: they are superseded by the log, unless
	// this is the first entry, in which case they remain the base content.
	l = append(l[:len(l):len(l)], e)
	s.logs[b.ID] = l
}

// readLog reads element idx of backing b as of log version ver.
func (m *Machine) readLog(s *State, b, idx *Term, ver int, et types.Type) *Term {
	l := s.logs[b.ID]
	if ver > len(l) {
		ver = len(l)
	}
	for i := ver - 1; i >= 0; i-- {
		e := l[i]
		if e.N == nil {
			return App("junk", et, idx, Str(e.JunkID))
		}
		ge, lt := s.Decide(Le(e.Lo, idx)), s.Decide(Lt(idx, Add(e.Lo, e.N)))
		if ge == -1 || lt == -1 {
			continue
		}
		if ge == 1 && lt == 1 || e.Val != nil && e.Lo == idx {
			if e.Junk {
				return App("junk", et, idx, Str(e.JunkID))
			}
			if e.Val != nil {
				return e.Val
			}
			si := Add(e.SrcLo, Sub(idx, e.Lo))
			return m.readSrc(s, e, si, et)
		}
		if e.Val != nil && s.Decide(Eq(e.Lo, idx)) == -1 {
			continue
		}
		// undecided
		return App("ite", et, idx, e.Lo, e.N, Str(logKey(l[:ver])))
	}
	return m.baseElem(s, b, idx, et, "")
}

func (m *Machine) readSrc(s *State, e logEntry, si *Term, et types.Type) *Term {
	if e.SrcVer == 0 {
		return m.baseElem(s, e.Src, si, et, e.SrcEp)
	}
	return m.readLog(s, e.Src, si, e.SrcVer, et)
}

// baseElem is the element content before any logged write.
func (m *Machine) baseElem(s *State, b, idx *Term, et types.Type, ep string) *Term {
	a := IA(b, idx, et)
	if b.Op == "nil" {
		return Zero(et)
	}
	if s.freshRoot(b) {
		if v, ok := s.cells[a.ID]; ok {
			return v
		}
		return Zero(et)
	}
	if ep == "" {
		ep = s.epochOf(b.Root())
	}
	return m.baseLoad(s, a, et, ep)
}

func (m *Machine) baseLoad(s *State, a *Term, et types.Type, ep string) *Term {
	if st, ok := et.Underlying().(*types.Struct); ok {
		fs := make([]*Term, st.NumFields())
		for i := range fs {
			ft := st.Field(i).Type()
			fs[i] = m.baseLoad(s, FA(a, i, ft), ft, ep)
		}
		return AggT(et, fs)
	}
	if v, ok := s.cells[a.ID]; ok {
		return v
	}
	if r := a.Root(); r.Op == "glob" {
		if v := m.immutableGlobal(r, a, et); v != nil {
			return v
		}
	}
	if v := m.immRead(s, a, et); v != nil {
		return v
	}
	if m.Stable != nil && a.Root().Op != "obj" && m.Stable(s, a) {
		ep = ""
	}
	return ldT(a, ep, et)
}

// --- slices

// SliceParts views a slice value as backing, offset and length.
func SliceParts(x *Term) (b, lo, n *Term) {
	if x.Op == "sl" {
		return x.Args[0], x.Args[1], x.Args[2]
	}
	return x, Int(0), Len(x)
}

// ElemAddr is the address of element i of slice x.
func ElemAddr(x, i *Term, et types.Type) *Term {
	b, lo, _ := SliceParts(x)
	return IA(b, Add(lo, i), et)
}

// --- maps

func (m *Machine) mapState(s *State, M *Term) *MapState {
	if ms := s.maps[M.ID]; ms != nil {
		return ms
	}
	if M.IsNil() {
		return &MapState{Base: "empty"}
	}
	if ms := m.immutableMap(M); ms != nil {
		return ms
	}
	return &MapState{Base: "e" + s.epoch}
}

// distinctKeys reports whether two map keys are certainly different.
func (s *State) keysDiffer(a, b *Term) bool { return s.Decide(Eq(a, b)) == -1 }

// MapGet looks a key up, returning its value (the zero value if absent) and
// presence term.
func (m *Machine) MapGet(s *State, M, k *Term, vt types.Type) (val, present *Term) {
	ms := m.mapState(s, M)
	for _, e := range ms.Entries {
		if e.Key == k || s.Decide(Eq(e.Key, k)) == 1 {
			return e.Val, e.Present
		}
		if !s.keysDiffer(e.Key, k) {
			n := fmt.Sprintf("%s.%d", ms.Base, len(ms.Entries))
			return App("mget?"+n, vt, M, k), App("mhas?"+n, types.Typ[types.Bool], M, k)
		}
	}
	if ms.Base == "empty" {
		return Zero(vt), False()
	}
	if ms.Of != nil {
		M = ms.Of
	}
	return App("mget@"+ms.Base, vt, M, k), App("mhas@"+ms.Base, types.Typ[types.Bool], M, k)
}

// mapPut sets the state of one key.
func (m *Machine) mapPut(s *State, M, k, present, v *Term) {
	old := m.mapState(s, M)
	n := &MapState{Base: old.Base, Of: old.Of}
	for _, e := range old.Entries {
		if e.Key == k || s.Decide(Eq(e.Key, k)) == 1 {
			continue
		}
		if !s.keysDiffer(e.Key, k) {
			// may be overwritten: forget
			nm := s.freshName(fmt.Sprintf("mapalias%d", M.ID))
			e = mapEntry{e.Key, Sym(nm+".p", types.Typ[types.Bool]), Sym(nm+".v", e.Val.Typ)}
		}
		n.Entries = append(n.Entries, e)
	}
	// canonical order: by key ID
	i := 0
	for i < len(n.Entries) && n.Entries[i].Key.ID < k.ID {
		i++
	}
	n.Entries = append(n.Entries[:i:i], append([]mapEntry{{k, present, v}}, n.Entries[i:]...)...)
	s.maps[M.ID] = n
	// other map terms of the same type may be the same map
	if M.Op != "obj" || s.esc[M.ID] {
		for _, id := range sortedKeys(s.maps) {
			if id == M.ID {
				continue
			}
			o := termByID(id)
			if o.Op == "obj" && (M.Op == "obj" || !s.esc[id]) {
				continue
			}
			if o.Typ != nil && M.Typ != nil && !types.Identical(o.Typ.Underlying(), M.Typ.Underlying()) {
				continue
			}
			if (o.Op == "app" && o.S == "Header") != (M.Op == "app" && M.S == "Header") {
				continue // a writer's header map is not the request's
			}
			if s.Decide(Eq(o, M)) == -1 {
				continue
			}
			// only the entry for k can be affected
			om := s.maps[id]
			on := &MapState{Base: om.Base, Of: om.Of}
			hit := false
			nm := s.freshName(fmt.Sprintf("mapalias%d", id))
			for _, e := range om.Entries {
				if !s.keysDiffer(e.Key, k) {
					hit = hit || e.Key == k
					e = mapEntry{e.Key, Sym(fmt.Sprintf("%s.%d.p", nm, e.Key.ID), types.Typ[types.Bool]), Sym(fmt.Sprintf("%s.%d.v", nm, e.Key.ID), e.Val.Typ)}
				}
				on.Entries = append(on.Entries, e)
			}
			if !hit {
				i := 0
				for i < len(on.Entries) && on.Entries[i].Key.ID < k.ID {
					i++
				}
				e := mapEntry{k, Sym(nm+".p", types.Typ[types.Bool]), Sym(nm+".v", v.Typ)}
				on.Entries = append(on.Entries[:i:i], append([]mapEntry{e}, on.Entries[i:]...)...)
			}
			s.maps[id] = on
		}
	}
}

// MapContent exposes the tracked content of a map.
func (m *Machine) MapContent(s *State, M *Term) (base string, keys, present, vals []*Term) {
	ms := m.mapState(s, M)
	for _, e := range ms.Entries {
		keys = append(keys, e.Key)
		present = append(present, e.Present)
		vals = append(vals, e.Val)
	}
	return ms.Base, keys, present, vals
}

// mapClone makes the content of one map that of another.
func (m *Machine) mapClone(s *State, dst, src *Term) {
	ms := m.mapState(s, src)
	n := &MapState{Base: ms.Base, Of: ms.Of, Entries: ms.Entries[:len(ms.Entries):len(ms.Entries)]}
	if n.Of == nil && n.Base != "empty" {
		n.Of = src
	}
	s.maps[dst.ID] = n
}

// mapCopy puts every entry of one map into another.
func (m *Machine) mapCopy(s *State, dst, src *Term, site string) {
	ms := m.mapState(s, src)
	known := ms.Base == "empty"
	for _, e := range ms.Entries {
		_, ok := e.Present.Bool()
		known = known && ok
	}
	if known {
		for _, e := range ms.Entries {
			if v, _ := e.Present.Bool(); v {
				m.mapPut(s, dst, e.Key, e.Present, e.Val)
			}
		}
		return
	}
	ep := s.freshName("mc@" + site)
	for _, id := range sortedKeys(s.maps) {
		o := termByID(id)
		if o == dst || (dst.Op != "obj" || s.esc[dst.ID]) && (o.Op != "obj" || s.esc[id]) && s.Decide(Eq(o, dst)) != -1 {
			s.maps[id] = &MapState{Base: "e" + ep}
		}
	}
	s.maps[dst.ID] = &MapState{Base: "e" + ep}
}

// SetMap presets the content of one key (for building initial states).
func (m *Machine) SetMap(s *State, M, k, present, v *Term) { m.mapPut(s, M, k, present, v) }

// SetMapBase presets the unknown part of a map.
func (m *Machine) SetMapBase(s *State, M *Term, base string) {
	s.maps[M.ID] = &MapState{Base: base}
}

// SetCell presets a memory cell.
func (m *Machine) SetCell(s *State, addr, v *Term) { s.cells[addr.ID] = v }

// --- unknown code

// escape marks everything reachable from the given values as known to
// unknown code.
func (m *Machine) escape(s *State, vs ...*Term) {
	var work []*Term
	seen := map[int]bool{}
	visit := func(v *Term) {
		v.Subterms(func(t *Term) {
			if t.Op == "obj" && !s.esc[t.ID] && s.objs[t.ID] {
				s.esc[t.ID] = true
				work = append(work, t)
			}
		})
	}
	for _, v := range vs {
		visit(v)
	}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[o.ID] {
			continue
		}
		seen[o.ID] = true
		for _, id := range sortedKeys(s.cells) {
			if termByID(id).Root() == o {
				visit(s.cells[id])
			}
		}
		if ms := s.maps[o.ID]; ms != nil {
			for _, e := range ms.Entries {
				visit(e.Key)
				visit(e.Val)
			}
		}
		for _, e := range s.logs[o.ID] {
			if e.Val != nil {
				visit(e.Val)
			}
			if e.Src != nil {
				visit(e.Src)
			}
		}
	}
}

// Havoc models unknown code running: everything it can reach may change.
func (m *Machine) Havoc(s *State, site string) {
	if m.initMode {
		return // library code run at initialisation has no access to the packages' variables
	}
	ep := s.freshName("e@" + site)
	s.epoch = ep
	for _, id := range sortedKeys(s.cells) {
		a := termByID(id)
		r := a.Root()
		if r.Op == "obj" {
			if !s.esc[r.ID] || m.frozen(r) || m.Private != nil && m.Private(s, a) {
				continue
			}
		} else if m.Stable != nil && m.Stable(s, a) {
			continue
		} else if r.Op == "glob" && m.globalOutOfReach(r) {
			continue
		}
		delete(s.cells, id)
	}
	for _, id := range sortedKeys(s.esc) {
		if t := termByID(id); !m.frozen(t) {
			s.hav[id] = ep
		}
	}
	for _, id := range sortedKeys(s.rootEp) {
		t := termByID(id)
		if t.Op == "obj" && !s.esc[id] || m.Stable != nil && m.Stable(s, t) {
			continue
		}
		delete(s.rootEp, id)
	}
	for _, id := range sortedKeys(s.maps) {
		t := termByID(id)
		if t.Op == "obj" && !s.esc[id] {
			continue
		}
		if m.Stable != nil && m.Stable(s, t) {
			continue
		}
		s.maps[id] = &MapState{Base: "e" + ep}
	}
	for _, id := range sortedKeys(s.logs) {
		t := termByID(id)
		if t.Op == "obj" && !s.esc[id] {
			continue
		}
		if m.Stable != nil && m.Stable(s, t) {
			continue
		}
		s.logs[id] = append(s.logs[id][:len(s.logs[id]):len(s.logs[id])], logEntry{Junk: true, JunkID: ep})
	}
}

// HavocRoot makes the content of one object unknown.
func (m *Machine) HavocRoot(s *State, r *Term, site string) {
	ep := s.freshName("h@" + site)
	for _, id := range sortedKeys(s.cells) {
		if termByID(id).Root() == r {
			delete(s.cells, id)
		}
	}
	s.rootEp[r.ID] = ep
	if s.maps[r.ID] != nil {
		s.maps[r.ID] = &MapState{Base: "e" + ep}
	}
	if len(s.logs[r.ID]) > 0 {
		s.logs[r.ID] = append(s.logs[r.ID][:len(s.logs[r.ID]):len(s.logs[r.ID])], logEntry{Junk: true, JunkID: ep})
	}
}
