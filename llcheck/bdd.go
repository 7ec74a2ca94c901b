package main

// Reduced ordered binary decision diagrams: the Boolean domain in which gates
// (path predicates of the gated value-dependence graph) are kept canonical.

type B int32

const (
	False B = 0
	True  B = 1
)

type bddNode struct {
	v      int32
	lo, hi B
}

type bddKey struct {
	op      int8
	a, b, c B
}

type iteEntry struct{ f, g, h, r B }

type BDD struct {
	nodes []bddNode
	table []B // unique nodes, open addressing
	ites  []iteEntry
	cache map[bddKey]B
	limit int // nodes, 0: no limit
}

func NewBDD() *BDD {
	return &BDD{
		nodes: []bddNode{{v: 1 << 30}, {v: 1 << 30}},
		table: make([]B, 1<<10),
		ites:  make([]iteEntry, 1<<10),
		cache: map[bddKey]B{},
	}
}

func hash3(a, b, c B) uint32 {
	h := uint64(uint32(a))*0x9E3779B97F4A7C15 ^ uint64(uint32(b))*0xC2B2AE3D27D4EB4F ^ uint64(uint32(c))*0x165667B19E3779F9
	h ^= h >> 29
	h *= 0xBF58476D1CE4E5B9
	return uint32(h >> 32)
}

func (m *BDD) mk(v int32, lo, hi B) B {
	if lo == hi {
		return lo
	}
	n := bddNode{v, lo, hi}
	mask := uint32(len(m.table) - 1)
	i := hash3(B(v), lo, hi) & mask
	for ; m.table[i] != 0; i = (i + 1) & mask {
		if r := m.table[i]; m.nodes[r] == n {
			return r
		}
	}
	r := B(len(m.nodes))
	burnt()
	if m.limit > 0 && len(m.nodes) > m.limit {
		panic(abort{"conditions of this size"})
	}
	m.nodes = append(m.nodes, n)
	m.table[i] = r
	if len(m.nodes)*2 > len(m.table) {
		m.grow()
	}
	return r
}

func (m *BDD) grow() {
	t := make([]B, 2*len(m.table))
	mask := uint32(len(t) - 1)
	for r := 2; r < len(m.nodes); r++ {
		n := m.nodes[r]
		i := hash3(B(n.v), n.lo, n.hi) & mask
		for t[i] != 0 {
			i = (i + 1) & mask
		}
		t[i] = B(r)
	}
	m.table = t
	if len(m.ites) < 1<<22 {
		old := m.ites
		m.ites = make([]iteEntry, 2*len(old))
		for _, e := range old {
			if e.f != 0 {
				m.ites[hash3(e.f, e.g, e.h)&uint32(len(m.ites)-1)] = e
			}
		}
	}
}

// full: the limit has been reached.
func (m *BDD) full() bool { return m.limit > 0 && len(m.nodes) > m.limit }

// top is the first variable of f.
func (m *BDD) top(f B) int32 { return m.nodes[f].v }

func (m *BDD) Var(v int) B { return m.mk(int32(v), False, True) }

func (m *BDD) Ite(f, g, h B) B {
	switch {
	case f == True:
		return g
	case f == False:
		return h
	case g == h:
		return g
	case g == True && h == False:
		return f
	}
	hk := hash3(f, g, h)
	if e := &m.ites[hk&uint32(len(m.ites)-1)]; e.f == f && e.g == g && e.h == h {
		return e.r
	}
	v := m.nodes[f].v
	if m.nodes[g].v < v {
		v = m.nodes[g].v
	}
	if m.nodes[h].v < v {
		v = m.nodes[h].v
	}
	f0, f1 := m.cof(f, v)
	g0, g1 := m.cof(g, v)
	h0, h1 := m.cof(h, v)
	r := m.mk(v, m.Ite(f0, g0, h0), m.Ite(f1, g1, h1))
	m.ites[hk&uint32(len(m.ites)-1)] = iteEntry{f, g, h, r}
	return r
}

func (m *BDD) cof(f B, v int32) (B, B) {
	n := m.nodes[f]
	if n.v != v {
		return f, f
	}
	return n.lo, n.hi
}

func (m *BDD) Not(f B) B    { return m.Ite(f, False, True) }
func (m *BDD) And(f, g B) B { return m.Ite(f, g, False) }
func (m *BDD) Or(f, g B) B  { return m.Ite(f, True, g) }
func (m *BDD) Xor(f, g B) B { return m.Ite(f, m.Not(g), g) }
func (m *BDD) Imp(f, g B) B { return m.Ite(f, g, True) }
func (m *BDD) AndN(fs ...B) B {
	r := True
	for _, f := range fs {
		r = m.And(r, f)
	}
	return r
}

// Restrict simplifies f using c as a care set (Coudert/Madre): the result
// agrees with f wherever c holds.
func (m *BDD) Restrict(f, c B) B {
	if c == False {
		return False
	}
	if c == True || f == True || f == False {
		return f
	}
	k := bddKey{1, f, c, 0}
	if r, ok := m.cache[k]; ok {
		return r
	}
	var r B
	fv, cv := m.nodes[f].v, m.nodes[c].v
	switch {
	case cv < fv:
		n := m.nodes[c]
		r = m.Restrict(f, m.Or(n.lo, n.hi))
	default:
		c0, c1 := m.cof(c, fv)
		n := m.nodes[f]
		switch {
		case c0 == False:
			r = m.Restrict(n.hi, c1)
		case c1 == False:
			r = m.Restrict(n.lo, c0)
		default:
			r = m.mk(fv, m.Restrict(n.lo, c0), m.Restrict(n.hi, c1))
		}
	}
	m.cache[k] = r
	return r
}

// Cofactor fixes variable v in f.
func (m *BDD) Cofactor(f B, v int, val bool) B {
	if f == True || f == False {
		return f
	}
	n := m.nodes[f]
	if int(n.v) > v {
		return f
	}
	var kc B
	if val {
		kc = 1
	}
	k := bddKey{2, f, B(v), kc}
	if r, ok := m.cache[k]; ok {
		return r
	}
	var r B
	if int(n.v) == v {
		if val {
			r = n.hi
		} else {
			r = n.lo
		}
	} else {
		r = m.mk(n.v, m.Cofactor(n.lo, v, val), m.Cofactor(n.hi, v, val))
	}
	m.cache[k] = r
	return r
}

// Exists quantifies v away.
func (m *BDD) Exists(f B, v int) B {
	return m.Or(m.Cofactor(f, v, false), m.Cofactor(f, v, true))
}

func (m *BDD) Support(f B) []int {
	seen := map[B]bool{}
	vars := map[int]bool{}
	var walk func(B)
	walk = func(b B) {
		if b <= True || seen[b] {
			return
		}
		seen[b] = true
		n := m.nodes[b]
		vars[int(n.v)] = true
		walk(n.lo)
		walk(n.hi)
	}
	walk(f)
	res := make([]int, 0, len(vars))
	for v := range vars {
		res = append(res, v)
	}
	sortInts(res)
	return res
}

// Cubes enumerates paths to True as var->bool assignments, up to max.
func (m *BDD) Cubes(f B, max int) [][]lit {
	var res [][]lit
	var cur []lit
	var walk func(B) bool
	walk = func(b B) bool {
		if b == False {
			return true
		}
		if b == True {
			res = append(res, append([]lit{}, cur...))
			return len(res) < max
		}
		n := m.nodes[b]
		cur = append(cur, lit{int(n.v), false})
		ok := walk(n.lo)
		cur = cur[:len(cur)-1]
		if !ok {
			return false
		}
		cur = append(cur, lit{int(n.v), true})
		ok = walk(n.hi)
		cur = cur[:len(cur)-1]
		return ok
	}
	walk(f)
	return res
}

type lit struct {
	v   int
	pos bool
}

// size is the number of nodes of f.
func (m *BDD) size(f B) int {
	seen := map[B]bool{}
	var walk func(f B)
	walk = func(f B) {
		if f <= True || seen[f] {
			return
		}
		seen[f] = true
		walk(m.nodes[f].lo)
		walk(m.nodes[f].hi)
	}
	walk(f)
	return len(seen)
}
