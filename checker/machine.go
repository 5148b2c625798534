package main

import (
	"go/types"
	"sort"
	"strings"
)

// valuation gives atoms their truth value; known is false for atoms it says
// nothing about.
type valuation func(a *Term) (val, known bool)

// decide evaluates a boolean function under a valuation. An atom the
// valuation does not know is returned when the result depends on it.
func (e *Eval) decide(n Node, v valuation) (bool, *Term) {
	var unknown *Term
	for n != False && n != True {
		vs := e.bdd.Support(n)
		moved := false
		for _, x := range vs {
			if b, known := v(e.atoms[x]); known {
				n = e.bdd.Cofactor(n, x, b)
				moved = true
				break
			}
			unknown = e.atoms[x]
		}
		if !moved {
			return false, unknown
		}
	}
	return n == True, nil
}

// machine is a loop over a list seen as a finite automaton: its states are
// the values of its boolean loop variables, and its input the atoms about the
// current element.
type machine struct {
	e     *Eval
	L     *Loop
	rets  []Ret
	state []*Term
	input func(a *Term, item any, first bool) (val, known bool)
}

func newMachine(e *Eval, L *Loop, rets []Ret) *machine {
	m := &machine{e: e, L: L, rets: rets}
	for lv := range L.init {
		if lv.typ != nil && types.Identical(lv.typ.Underlying(), types.Typ[types.Bool]) {
			m.state = append(m.state, lv)
		}
	}
	sort.Slice(m.state, func(i, j int) bool { return m.state[i].id < m.state[j].id })
	return m
}

// mstate is one state: the loop variables in order, "first" before any item.
type mstate struct {
	bits  string
	first bool
}

// outcome is what happens to an item.
type outcome struct {
	next mstate
	ret  *Ret      // set if the function returns
	v    valuation // the valuation at the return
}

func (m *machine) valuation(st mstate, item any, exit *Term, ended bool) valuation {
	return func(a *Term) (bool, bool) {
		for i, lv := range m.state {
			if a == lv {
				return st.bits[i] == '1', true
			}
		}
		if a.op == OExists && a.loop == m.L {
			return a == exit, true
		}
		if a.op == OEq && a.args[0].op == OIdx && a.args[0].loop == m.L && a.args[1].op == OConst && a.args[1].aux == "0" {
			return st.first, true
		}
		return m.input(a, item, st.first)
	}
}

func (m *machine) start() (mstate, *Term) {
	st := mstate{first: true}
	var sb strings.Builder
	for _, lv := range m.state {
		b, unk := m.e.decide(m.e.Cond(m.L.init[lv]), func(a *Term) (bool, bool) { return m.input(a, nil, true) })
		if unk != nil {
			return st, unk
		}
		if b {
			sb.WriteByte('1')
		} else {
			sb.WriteByte('0')
		}
	}
	st.bits = sb.String()
	return st, nil
}

// step runs one iteration on an item.
func (m *machine) step(st mstate, item any) (outcome, *Term) {
	e := m.e
	for _, x := range m.L.exits {
		v := m.valuation(st, item, nil, false)
		b, unk := e.decide(x.cond, v)
		if unk != nil {
			return outcome{}, unk
		}
		if b {
			return m.leave(m.valuation(st, item, x.atom, false))
		}
	}
	var sb strings.Builder
	v := m.valuation(st, item, nil, false)
	for _, lv := range m.state {
		b, unk := e.decide(e.Cond(m.L.back[lv]), v)
		if unk != nil {
			return outcome{}, unk
		}
		if b {
			sb.WriteByte('1')
		} else {
			sb.WriteByte('0')
		}
	}
	return outcome{next: mstate{bits: sb.String()}}, nil
}

// end runs what follows the loop when the list is exhausted.
func (m *machine) end(st mstate) (outcome, *Term) {
	return m.leave(m.valuation(st, nil, nil, true))
}

func (m *machine) leave(v valuation) (outcome, *Term) {
	for i := range m.rets {
		b, unk := m.e.decide(m.rets[i].st.pc, v)
		if unk != nil {
			return outcome{}, unk
		}
		if b {
			return outcome{ret: &m.rets[i], v: v}, nil
		}
	}
	return outcome{}, nil
}

// atomOf gives the single atom a boolean term stands for.
func (e *Eval) atomOf(t *Term) *Term {
	if vs := e.bdd.Support(e.Cond(t)); len(vs) == 1 {
		return e.atoms[vs[0]]
	}
	return t
}
