package main

import (
	"strconv"
	"strings"
)

// Worklist is a search loop: it takes items off a list (or runs over a list
// that grows, or calls itself) and adds further items.
type Worklist struct {
	loop  *Loop
	lv    *Term    // the list
	item  *Term    // the item being processed
	inner *Loop    // the loop over one generation of the list, if any
	back  []Source // items added while running
	seed  []Source // items present at the start
	bad   string
}

func (s *Sem) findWorklists() {
	s.wl = nil
	used := map[*Loop]bool{}
	for _, ef := range s.e.effects {
		for _, L := range ef.loops {
			used[L] = true
		}
	}
	for _, L := range s.e.allLoops {
		if !used[L] {
			continue
		}
		if w := s.worklist(L); w != nil {
			s.wl = append(s.wl, w)
			if w.lv != nil {
				s.q.stop[w.lv] = true
			}
		}
	}
}

func (s *Sem) emptyTest(lv *Term) Node {
	return s.e.Cond(s.e.Eq(s.e.Len(lv), s.e.Int(0)))
}

// worklist recognises the search loop L.
func (s *Sem) worklist(L *Loop) *Worklist {
	e := s.e
	switch L.kind {
	case "while":
		for lv := range L.init {
			if sliceElem(lv.typ) == nil || L.back[lv] == nil {
				continue
			}
			ne := e.bdd.Not(s.emptyTest(lv))
			if L.cont != ne {
				ok := false
				for _, x := range L.exits {
					if L.cont == True && x.cond == e.bdd.Not(ne) {
						ok = true
					}
				}
				if !ok {
					continue
				}
			}
			w := &Worklist{loop: L, lv: lv}
			rest := s.rest(L.back[lv], lv, map[*Term]bool{})
			switch rest {
			case "first":
				w.item = e.mk(OIndex, "", sliceElem(lv.typ), lv, e.Int(0))
			case "last":
				n := e.mk(OBin, "-", nil, e.Len(lv), e.Int(1))
				w.item = e.mk(OIndex, "", sliceElem(lv.typ), lv, n)
			case "none":
				// one generation at a time
				for _, ef := range e.effects {
					for i, x := range ef.loops {
						if x == L && i+1 < len(ef.loops) && ef.loops[i+1].container == lv {
							w.inner = ef.loops[i+1]
						}
					}
				}
				if w.inner == nil {
					continue
				}
				w.item = s.q.elemOf(lv, w.inner)
			default:
				w.bad = rest
				continue
			}
			w.seed = s.q.elems(L.init[lv], nil)
			w.back = s.q.elems(L.back[lv], nil, lv)
			return w
		}
	case "index":
		lv := L.container
		if lv == nil || lv.op != OLV || lv.loop != L || L.back[lv] == nil || L.back[lv] == lv {
			return nil
		}
		w := &Worklist{loop: L, lv: lv, item: s.q.elemOf(lv, L)}
		w.seed = s.q.elems(L.init[lv], nil)
		w.back = s.q.elems(L.back[lv], nil, lv)
		return w
	case "rec":
		if len(L.recParams) == 0 {
			return nil
		}
		return &Worklist{loop: L, item: L.recParams[0]}
	}
	return nil
}

// rest says what the list lv has become in t before items are added: without
// its first element, without its last, or replaced.
func (s *Sem) rest(t, lv *Term, seen map[*Term]bool) string {
	e := s.e
	if seen[t] {
		return ""
	}
	seen[t] = true
	join := func(a, b string) string {
		if a == "" || a == b {
			return b
		}
		if b == "" {
			return a
		}
		return "mixed"
	}
	switch t.op {
	case OGate:
		r := ""
		for _, x := range t.args {
			r = join(r, s.rest(x, lv, seen))
		}
		return r
	case OLV:
		if t == lv {
			return "unchanged"
		}
		r := ""
		if x := t.loop.init[t]; x != nil {
			r = join(r, s.rest(x, lv, seen))
		}
		if x := t.loop.back[t]; x != nil {
			r = join(r, s.rest(x, lv, seen))
		}
		return r
	case OAppend:
		return s.rest(t.args[0], lv, seen)
	case OSlice:
		if t.aux == "empty" {
			return "none"
		}
		if t.args[0] != lv {
			return s.rest(t.args[0], lv, seen)
		}
		lo, hi := t.args[1], t.args[2]
		if lo.aux == "1" && e.isNil(hi) {
			return "first"
		}
		if lo.aux == "0" && hi.op == OBin && hi.aux == "-" && hi.args[1].aux == strconv.Itoa(1) && hi.args[0] == e.Len(lv) {
			return "last"
		}
		return "cut"
	case OConst, OList:
		return "none"
	case OCall:
		if strings.HasPrefix(t.aux, "sorted:") || strings.HasPrefix(t.aux, "collect:") {
			return "none"
		}
	}
	return "other"
}

// worklistOf is the innermost search loop around an effect.
func (s *Sem) worklistOf(loops []*Loop) *Worklist {
	for i := len(loops) - 1; i >= 0; i-- {
		for _, w := range s.wl {
			if w.loop == loops[i] {
				return w
			}
		}
	}
	return nil
}
