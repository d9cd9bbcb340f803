package ai

// gc forgets objects allocated since `before` that nothing can reach any more.
func (m *Machine) gc(o *Outcome, before map[int]bool) {
	s := o.St
	var fresh []int
	for _, id := range sortedKeys(s.objs) {
		if !before[id] && !s.esc[id] {
			fresh = append(fresh, id)
		}
	}
	if len(fresh) == 0 {
		return
	}
	isFresh := map[int]bool{}
	for _, id := range fresh {
		isFresh[id] = true
	}
	reach := map[int]bool{}
	var work []int
	seen := map[int]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || seen[t.ID] {
			return
		}
		seen[t.ID] = true
		if isFresh[t.ID] && !reach[t.ID] {
			reach[t.ID] = true
			work = append(work, t.ID)
		}
		for _, a := range t.Args {
			visit(a)
		}
	}
	byRoot := map[int][]int{}
	for id := range s.cells {
		if r := termByID(id).Root(); isFresh[r.ID] {
			byRoot[r.ID] = append(byRoot[r.ID], id)
		}
	}
	for _, v := range o.Vals {
		visit(v)
	}
	visit(o.Pan)
	visit(s.PanVal)
	for _, v := range s.Ghost {
		visit(v)
	}
	for id, v := range s.cells {
		if !isFresh[termByID(id).Root().ID] {
			visit(v)
		}
	}
	vm := func(id int) {
		if ms := s.maps[id]; ms != nil {
			for _, e := range ms.Entries {
				visit(e.Key)
				visit(e.Val)
			}
		}
		for _, e := range s.logs[id] {
			visit(e.Val)
			visit(e.Src)
		}
	}
	for id := range s.maps {
		if !isFresh[id] {
			vm(id)
		}
	}
	for id := range s.logs {
		if !isFresh[id] {
			vm(id)
		}
	}
	for id := range s.Locks {
		visit(termByID(id).Root())
	}
	for len(work) > 0 {
		id := work[len(work)-1]
		work = work[:len(work)-1]
		for _, c := range byRoot[id] {
			visit(s.cells[c])
		}
		vm(id)
	}
	for _, id := range fresh {
		if reach[id] {
			continue
		}
		for _, c := range byRoot[id] {
			delete(s.cells, c)
		}
		delete(s.maps, id)
		delete(s.logs, id)
		delete(s.hav, id)
		delete(s.rootEp, id)
		delete(s.objs, id)
	}
}
