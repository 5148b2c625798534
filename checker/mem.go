package main

// Mem is an immutable map from location terms to value terms: a 16-way trie on
// the term id, so that states can be forked and joined cheaply.
type Mem struct {
	kids [16]*Mem
	loc  *Term // leaf
	val  *Term
	leaf bool
}

const memLevels = 6 // 24 bits of term id

func (m *Mem) get(loc *Term) *Term {
	k := loc.id
	for l := 0; l < memLevels && m != nil; l++ {
		m = m.kids[k&15]
		k >>= 4
	}
	if m == nil {
		return nil
	}
	return m.val
}

func (m *Mem) set(loc, val *Term) *Mem { return m.put(loc, val, loc.id, 0) }

func (m *Mem) put(loc, val *Term, k, l int) *Mem {
	if l == memLevels {
		if val == nil {
			return nil
		}
		return &Mem{leaf: true, loc: loc, val: val}
	}
	n := new(Mem)
	if m != nil {
		*n = *m
	}
	var kid *Mem
	if m != nil {
		kid = m.kids[k&15]
	}
	n.kids[k&15] = kid.put(loc, val, k>>4, l+1)
	return n
}

func (m *Mem) each(f func(loc, val *Term)) {
	if m == nil {
		return
	}
	if m.leaf {
		f(m.loc, m.val)
		return
	}
	for _, k := range m.kids {
		k.each(f)
	}
}

// diff calls f for each location whose value differs (nil when absent).
func diff(a, b *Mem, f func(loc, x, y *Term)) {
	if a == b {
		return
	}
	if a == nil {
		b.each(func(l, v *Term) { f(l, nil, v) })
		return
	}
	if b == nil {
		a.each(func(l, v *Term) { f(l, v, nil) })
		return
	}
	if a.leaf || b.leaf {
		if a.val != b.val {
			f(a.loc, a.val, b.val)
		}
		return
	}
	for i := range a.kids {
		diff(a.kids[i], b.kids[i], f)
	}
}
