package main

import (
	"strconv"
)

// A tally is a number kept per key in a map: either the map's value itself or
// a field of it.
type tally struct {
	m     *Term  // the map
	field string // "" when the values are the numbers
}

// add is one place where a tally changes.
type tallyAdd struct {
	ev    Event
	key   *Term
	delta int
	ok    bool // delta is known
	why   string
}

// fieldOf reads field f of a map value v (pointer, struct or number).
func (s *Sem) fieldOf(v *Term, f string, mem *Mem) *Term {
	if f == "" {
		return v
	}
	e := s.e
	return e.dist(v, nil, func(v *Term) *Term {
		if v.op == OObj {
			return e.load(mem, e.FAddr(v, f, nil), nil)
		}
		return e.Field(v, f, nil)
	})
}

// plus splits x into base+n.
func plus(x *Term) (*Term, int, bool) {
	if x.op == OBin && x.aux == "+" {
		for i := 0; i < 2; i++ {
			if x.args[i].op == OConst {
				if n, err := strconv.Atoi(x.args[i].aux); err == nil {
					return x.args[1-i], n, true
				}
			}
		}
	}
	if x.op == OConst {
		if n, err := strconv.Atoi(x.aux); err == nil {
			return nil, n, true
		}
	}
	return x, 0, true
}

// adds lists the changes made to a tally.
func (s *Sem) adds(t tally) []tallyAdd {
	e := s.e
	var out []tallyAdd
	in := func(k *Term) Node {
		r := False
		for _, a := range e.alts(k) {
			r = e.bdd.Or(r, e.bdd.And(a.c, e.Atom(e.mk(OIn, "", nil, t.m, a.t))))
		}
		return r
	}
	values := map[*Term]*Term{} // objects stored in the map, with their key
	inserted := map[*Term]*Effect{}
	emit := func(ef *Effect, pc Node, key *Term, delta int, ok bool, why string) {
		ev := Event{pc: pc, loops: ef.loops, terms: []*Term{key}, eff: ef, cont: map[*Loop]*Term{}}
		out = append(out, tallyAdd{ev: ev, key: key, delta: delta, ok: ok, why: why})
	}
	zero := func(t *Term) *Term {
		if e.isNil(t) {
			return e.Int(0)
		}
		return t
	}
	none := e.Int(0)
	change := func(ef *Effect, pc Node, key, old, val *Term, what string) {
		for _, a := range e.alts(val) {
			for _, b := range e.alts(old) {
				c := e.bdd.And(pc, a.c, b.c)
				if c == False {
					continue
				}
				ob, on, _ := plus(zero(b.t))
				vb, vn, _ := plus(zero(a.t))
				if b.t == none && vb != nil && vb.op == OLookup && vb.args[0] == t.m && t.field == "" {
					// Nothing is in the map under the key, so it reads as zero.
					if vb.args[1] == key {
						vb = nil
					}
				}
				if ob != vb {
					emit(ef, c, key, 0, false, what+" becomes "+s.short(a.t)+" instead of being counted up")
					continue
				}
				emit(ef, c, key, vn-on, true, "")
			}
		}
	}
	for _, ef := range s.q.mi.sets[t.m] {
		key, v := ef.args[1], ef.args[2]
		pc := e.bdd.And(ef.pc, altCond(e, ef.args[0], t.m))
		old, _ := e.lookup(ef.mem, t.m, key, mapElem(t.m.typ))
		fresh := e.bdd.And(pc, e.bdd.Not(in(key)))
		if fresh != False {
			change(ef, fresh, key, none, s.fieldOf(v, t.field, ef.mem), "the number")
		}
		if again := e.bdd.And(pc, in(key)); again != False {
			change(ef, again, key, s.fieldOf(old, t.field, ef.mem), s.fieldOf(v, t.field, ef.mem), "the number")
		}
		for _, a := range e.alts(v) {
			if a.t.op == OObj {
				values[a.t] = key
				inserted[a.t] = ef
			}
		}
	}
	if t.field == "" {
		return out
	}
	for _, ef := range e.effects {
		if ef.kind != "store" && ef.kind != "fieldset" {
			continue
		}
		for _, a := range e.alts(ef.args[0]) {
			if a.t.op != OFAddr || a.t.aux != t.field {
				continue
			}
			base := a.t.args[0]
			var key *Term
			switch {
			case base.op == OLookup && base.args[0] == t.m:
				key = base.args[1]
			case values[base] != nil && ef.seq > inserted[base].seq:
				key = values[base]
			default:
				continue
			}
			change(ef, e.bdd.And(ef.pc, a.c), key, e.load1(ef.mem, a.t, nil), ef.args[1], "the number")
		}
	}
	return out
}

// tallyReports turns the changes of a tally into reports, checking that each
// adds exactly one.
func (s *Sem) tallyReports(rule string, t tally) []report {
	var reps []report
	for _, a := range s.adds(t) {
		if !a.ok {
			s.c.failEff(rule, a.ev.eff, "%s", a.why)
			continue
		}
		if a.delta == 0 {
			continue
		}
		if a.delta != 1 {
			s.c.failEff(rule, a.ev.eff, "a reported function changes the number by %d", a.delta)
		}
		for _, x := range s.q.expand(a.ev) {
			for _, k := range s.e.alts(x.terms[0]) {
				y := x
				y.pc = s.e.bdd.And(x.pc, k.c)
				if y.pc == False {
					continue
				}
				reps = append(reps, report{ev: y, cp: s.norm(s.capOfString(k.t), a.ev.eff)})
			}
		}
	}
	return reps
}
