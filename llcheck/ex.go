package main

import (
	"fmt"
	"go/types"
)

// Quantified conditions: in(L,x) "x is an element of L" and ex(n,P) "P holds
// for some i with 0 <= i < n".

func (e *Eng) member(L, x *Term) B {
	if L.op == "phi" {
		return e.phiB(L, func(l *Term) B { return e.member(l, x) })
	}
	if x.op == "phi" {
		return e.phiB(x, func(y *Term) B { return e.member(L, y) })
	}
	switch L.op {
	case "nil", "nilslice":
		return False
	case "call":
		if (L.k == "sorted" || L.k == "sortedby" || L.k == "reversed" || L.k == "slices.Clone") && len(L.args) > 0 {
			return e.member(L.args[0], x)
		}
	case "list":
		r := False
		for _, s := range L.args {
			switch s.op {
			case "elem":
				r = e.bdd.Or(r, e.eqElem(s.args[0], x))
			case "all":
				r = e.bdd.Or(r, e.member(s.args[0], x))
			case "comp":
				for _, b := range s.args[1:] {
					r = e.bdd.Or(r, e.mkEx(s.args[0], e.boundOf(s), e.eqElem(b, x)))
				}
			default:
				return e.atomVar(e.mk("in", "", nil, L, x))
			}
		}
		return r
	}
	return e.atomVar(e.mk("in", "", nil, L, x))
}

func (e *Eng) eqElem(a, b *Term) B {
	if isLinTerm(a) || isLinTerm(b) {
		return e.eqInts(a, b)
	}
	return e.eqTerms(a, b)
}

// mkEx: P holds for some kappa in 0..n-1
func (e *Eng) mkEx(n, kappa *Term, P B) B {
	if n.op == "phi" || P == False {
		return e.mkEx1(n, kappa, P)
	}
	if e.unroll != nil && n == e.addc(e.unroll, 1) {
		return e.bdd.Or(e.mkEx(e.unroll, kappa, P), e.substB(P, map[*Term]*Term{kappa: e.unroll}, map[*Term]*Term{}))
	}
	k := exKey{n, kappa, P}
	if r, ok := e.exMemo[k]; ok {
		return r
	}
	r := e.mkEx1(n, kappa, P)
	if e.exMemo == nil {
		e.exMemo = map[exKey]B{}
	}
	e.exMemo[k] = r
	return r
}

type exKey struct {
	n, kappa *Term
	P        B
}

func (e *Eng) mkEx1(n, kappa *Term, P B) B {
	if n.op == "phi" {
		return e.phiB(n, func(m *Term) B { return e.mkEx(m, kappa, P) })
	}
	if P == False {
		return False
	}
	pos := e.bdd.Not(e.le0(n))
	if P == True || pos == False {
		return pos
	}
	sup := e.bdd.Support(P)
	for _, v := range sup {
		if !e.mentions(e.atoms[v], kappa) {
			return e.bdd.Ite(e.bdd.Var(v), e.mkEx(n, kappa, e.bdd.Cofactor(P, v, true)), e.mkEx(n, kappa, e.bdd.Cofactor(P, v, false)))
		}
	}
	if v, ok := n.isNum(); ok && v <= 16 {
		r := False
		for i := int64(0); i < v; i++ {
			r = e.bdd.Or(r, e.boolOf(e.substOne(e.boolTerm(P), kappa, e.num(i))))
		}
		return r
	}
	// facts about the range of kappa
	rng := e.bdd.And(e.le0(e.scale(kappa, -1)), e.le0(e.addc(e.sub(kappa, n), 1)))
	P = e.restrictTh(P, rng)
	if P <= True {
		return e.mkEx(n, kappa, P)
	}
	// the element is given by an equation
	for _, v := range sup {
		at := e.atoms[v]
		if at.op != "eq0" || e.bdd.Cofactor(P, v, false) != False {
			continue
		}
		if i := e.solved(at.args[0], kappa); i != nil {
			return e.bdd.And(e.inRange(i, n), e.substB(P, map[*Term]*Term{kappa: i}, map[*Term]*Term{}))
		}
	}
	// a single equation with an element of a list as long as the range
	if nd := e.bdd.nodes[P]; nd.lo == False && nd.hi == True {
		at := e.atoms[nd.v]
		try := func(a, b *Term) (B, bool) {
			if a.op == "index" && a.args[1] == kappa && !e.mentions(a.args[0], kappa) && !e.mentions(b, kappa) && e.lenOf(a.args[0]) == n {
				return e.member(a.args[0], b), true
			}
			return False, false
		}
		switch at.op {
		case "eq":
			if r, ok := try(at.args[0], at.args[1]); ok {
				return r
			}
			if r, ok := try(at.args[1], at.args[0]); ok {
				return r
			}
		case "eq0":
			l := e.toLin(at.args[0])
			for _, x := range l.ts {
				if x.t.op == "index" && (x.coef == 1 || x.coef == -1) {
					rest := linScale(linAdd(l, Lin{ts: []linT{{x.t, x.coef}}}, -1), -x.coef)
					if r, ok := try(x.t, e.fromLin(rest)); ok {
						return r
					}
				}
			}
		}
	}
	return e.atomVar(e.comp("ex", n, kappa, e.boolTerm(P)))
}

// exBody gives the condition of an ex atom at index i.
func (e *Eng) exBody(ex, i *Term) B { return e.boolOf(e.instBound(ex, ex.args[1], i)) }

func (e *Eng) axiomEx(a, b *Term, av, bv B) (B, bool) {
	m := e.bdd
	switch {
	case a.op == "ex" && b.op == "le0" && b.args[0] == a.args[0]:
		return m.Not(m.And(av, bv)), true
	case a.op == "ex" && b.op == "ex" && a.args[0] == b.args[0]:
		// comparing the bodies can come back here for ranges inside of them
		e.chis++
		defer func() { e.chis-- }()
		k := e.mk("sym", fmt.Sprintf("χ%d", e.chis), types.Typ[types.Int])
		P, Q := e.exBody(a, k), e.exBody(b, k)
		r := True
		if e.implies(P, Q) {
			r = m.And(r, m.Imp(av, bv))
		}
		if e.implies(Q, P) {
			r = m.And(r, m.Imp(bv, av))
		}
		return r, true
	case a.op == "in" && b.op == "le0" && b.args[0].op == "len" && b.args[0].args[0] == a.args[0]:
		return m.Not(m.And(av, bv)), true
	case a.op == "in" && b.op == "isnil" && b.args[0] == a.args[0]:
		return m.Not(m.And(av, bv)), true
	case a.op == "in" && b.op == "le0" && b.args[0].op == "lin":
		// found implies that the search ends inside the list
		for _, x := range b.args[0].lin.ts {
			if x.t.op == "call" && x.t.k == "sort.SearchInts" && len(x.t.args) == 2 && x.t.args[1] == a.args[1] && e.member(x.t.args[0], x.t.args[1]) == av {
				f := e.le0(e.addc(e.sub(x.t, e.lenOf(x.t.args[0])), 1))
				sup := m.Support(f)
				if len(sup) == 1 && m.Var(sup[0]) == bv {
					return m.Imp(av, f), true
				}
			}
		}
	}
	return True, false
}

// searchEq recognises "the element found by a binary search is x".
func (e *Eng) searchEq(l Lin) (B, bool) {
	if l.c != 0 || len(l.ts) != 2 {
		return False, false
	}
	for i := 0; i < 2; i++ {
		x, y := l.ts[i], l.ts[1-i]
		if x.t.op != "index" || x.coef != -y.coef || x.coef != 1 && x.coef != -1 {
			continue
		}
		s := x.t.args[1]
		if s.op == "call" && s.k == "sort.SearchInts" && s.args[0] == x.t.args[0] && s.args[1] == y.t && s.args[0].op == "call" && s.args[0].k == "sorted" {
			return e.member(s.args[0], y.t), true
		}
	}
	return False, false
}

// attach records facts that hold whenever an atom is used.
func (e *Eng) attach(v int, key string, f B) {
	if e.attachedBy == nil {
		e.attachedBy = map[int]map[string]B{}
	}
	m := e.attachedBy[v]
	if m == nil {
		m = map[string]B{}
		e.attachedBy[v] = m
	}
	if old, ok := m[key]; ok && old == f {
		return
	}
	m[key] = f
	r := True
	for _, g := range m {
		r = e.bdd.And(r, g)
	}
	e.attached[v] = r
	e.satMemo = map[B]bool{}
}

// nonNilList: a list that starts empty and only ever gets elements that are
// not nil.
func (e *Eng) nonNilList(lv *LoopVar) {
	if lv.mu.op != "mu" {
		return
	}
	delete(e.nnLists, lv.mu.k)
	if lv.closed != nil || lv.next == nil || lv.init == nil || lv.typ == nil {
		return
	}
	if _, ok := lv.typ.Underlying().(*types.Slice); !ok {
		return
	}
	ok := func(t *Term) bool {
		switch {
		case t == lv.mu, t.op == "nil", t.op == "nilslice", t.op == "mu" && e.nnLists[t.k]:
			return true
		case t.op == "list":
			for _, s := range t.args {
				switch {
				case s.op == "elem" && e.isNil(s.args[0]) == False:
				case s.op == "all" && (s.args[0] == lv.mu || s.args[0].op == "mu" && e.nnLists[s.args[0].k]):
				default:
					return false
				}
			}
			return true
		}
		return false
	}
	for _, src := range []*Term{lv.init, lv.next} {
		for _, g := range e.leaves(src) {
			if !ok(g.t) {
				return
			}
		}
	}
	if e.nnLists == nil {
		e.nnLists = map[string]bool{}
	}
	e.nnLists[lv.mu.k] = true
}

// errDomain: an error variable that only ever holds nil or given errors
func (e *Eng) errDomain(li *LoopInst, lv *LoopVar) {
	if lv.closed != nil || lv.next == nil || lv.typ == nil || !types.IsInterface(lv.typ) {
		return
	}
	// where the errors it may hold are created
	sites, known := map[string]bool{}, lv.mu.op == "mu"
	for _, src := range []*Term{lv.init, lv.next} {
		for _, g := range e.leaves(src) {
			switch {
			case g.t == lv.mu, g.t.op == "nil", g.t.op == "iface":
			case g.t.op == "err":
				sites[g.t.k] = true
			case g.t.op == "mu" && e.errSites[g.t.k] != nil:
				for k := range e.errSites[g.t.k] {
					sites[k] = true
				}
			default:
				known = false
			}
		}
	}
	if e.errSites == nil {
		e.errSites = map[string]map[string]bool{}
	}
	delete(e.errSites, lv.mu.k)
	if known {
		e.errSites[lv.mu.k] = sites
	}
	dom := map[*Term]bool{}
	hasNil := false
	for _, src := range []*Term{lv.init, lv.next} {
		for _, g := range e.leaves(src) {
			switch {
			case g.t == lv.mu:
			case g.t.op == "nil":
				hasNil = true
			case g.t.op == "err" && !e.mentions(g.t, li.kappa) && !e.mentionsLoop(li, g.t):
				dom[g.t] = true
			default:
				return
			}
		}
	}
	f := False
	if hasNil {
		f = e.isNil(lv.mu)
	}
	for t := range dom {
		f = e.bdd.Or(f, e.eqTerms(t, lv.mu))
	}
	for _, v := range e.bdd.Support(f) {
		e.attach(v, "dom:"+li.key+"|"+lv.key, f)
	}
}

// linkVars: clauses over two variables of a loop that hold at its head whenever
// it gets there (found implies that there is an error, say): those of the
// candidates that hold at the start and that every iteration keeps.
func (e *Eng) linkVars(li *LoopInst) {
	type pred struct {
		lv *LoopVar
		b  B
	}
	var ps []pred
	single := func(b B) bool { return b != True && b != False && len(e.bdd.Support(b)) == 1 }
	errs := false
	for _, lv := range li.vars {
		if lv.closed != nil || lv.exit != nil || lv.next == nil || lv.init == nil || lv.typ == nil {
			continue
		}
		switch lv.typ.Underlying().(type) {
		case *types.Interface, *types.Pointer:
			if b := e.isNil(lv.mu); single(b) {
				ps = append(ps, pred{lv, b})
			}
			dom := map[*Term]bool{}
			for _, src := range []*Term{lv.init, lv.next} {
				for _, g := range e.leaves(src) {
					if g.t.op == "err" && !dom[g.t] && !e.mentions(g.t, li.kappa) && !e.mentionsLoop(li, g.t) {
						dom[g.t] = true
						errs = true
						if b := e.eqTerms(g.t, lv.mu); single(b) {
							ps = append(ps, pred{lv, b})
						}
					}
				}
			}
		case *types.Basic:
			if isBool(lv.typ) {
				if b := e.boolOf(lv.mu); single(b) {
					ps = append(ps, pred{lv, b})
				}
			}
		}
	}
	if !errs || len(ps) > 10 {
		return
	}
	ini, nxt := map[*Term]*Term{}, map[*Term]*Term{}
	for _, lv := range li.vars {
		if lv.closed == nil && lv.next != nil && lv.init != nil {
			ini[lv.mu], nxt[lv.mu] = lv.init, lv.next
		}
	}
	type clause struct{ f, at0, at1 B }
	var cs []clause
	m0, m1 := map[*Term]*Term{}, map[*Term]*Term{}
	for i, p := range ps {
		for _, q := range ps[i+1:] {
			if p.lv == q.lv {
				continue
			}
			for s := 0; s < 4; s++ {
				a, b := p.b, q.b
				if s&1 != 0 {
					a = e.bdd.Not(a)
				}
				if s&2 != 0 {
					b = e.bdd.Not(b)
				}
				f := e.bdd.Or(a, b)
				c := clause{f, e.substB(f, ini, m0), 0}
				if !e.implies(li.entryPc, c.at0) {
					continue
				}
				c.at1 = e.substB(f, nxt, m1)
				cs = append(cs, c)
			}
		}
	}
	for {
		all := li.backPc
		for _, c := range cs {
			all = e.bdd.And(all, c.f)
		}
		n := 0
		for _, c := range cs {
			if e.implies(all, c.at1) {
				cs[n] = c
				n++
			}
		}
		if n == len(cs) {
			break
		}
		cs = cs[:n]
	}
	facts := True
	for _, c := range cs {
		facts = e.bdd.And(facts, c.f)
	}
	if facts == True {
		return
	}
	for _, v := range e.bdd.Support(facts) {
		e.attach(v, "link:"+li.key, facts)
	}
}

// boolFold is the value of a flag after kappa iterations: init or some P, or
// init and all P.
func (e *Eng) boolFold(li *LoopInst, lv *LoopVar) *Term {
	if !e.isBoolTerm(lv.next) {
		return nil
	}
	mb := e.boolOf(lv.mu)
	sup := e.bdd.Support(mb)
	if len(sup) != 1 || e.bdd.Var(sup[0]) != mb {
		return nil
	}
	n := e.boolOf(lv.next)
	t1 := e.restrictTh(e.bdd.Cofactor(n, sup[0], true), e.bdd.Cofactor(li.backPc, sup[0], true))
	t0 := e.restrictTh(e.bdd.Cofactor(n, sup[0], false), e.bdd.Cofactor(li.backPc, sup[0], false))
	ok := func(b B) bool {
		for _, v := range e.bdd.Support(b) {
			if e.mentionsLoop(li, e.atoms[v]) {
				return false
			}
		}
		return true
	}
	if dbgTrace {
		e.names = map[*Term]string{}
		fmt.Println("FOLD", li.key, lv.name, t1, t0, ok(t0), ok(t1))
		e.pl("t1", e.bs(t1))
		e.names = nil
	}
	ini := e.boolOf(lv.init)
	switch {
	case t1 == True && ok(t0):
		return e.boolTerm(e.bdd.Or(ini, e.exUpTo(li, t0)))
	case t0 == False && ok(t1):
		return e.boolTerm(e.bdd.And(ini, e.bdd.Not(e.exUpTo(li, e.bdd.Not(t1)))))
	}
	return nil
}

// exUpTo: P held in one of the first kappa iterations
func (e *Eng) exUpTo(li *LoopInst, P B) B {
	i := e.mk("sym", "ι", types.Typ[types.Int])
	return e.mkEx(li.kappa, i, e.boolOf(e.substOne(e.boolTerm(P), li.kappa, i)))
}

var _ = fmt.Sprint

// solved: the value of kappa for which a sum is zero
func (e *Eng) solved(x, kappa *Term) *Term {
	for _, y := range e.toLin(x).ts {
		if y.t == kappa && (y.coef == 1 || y.coef == -1) {
			r := e.sub(kappa, e.scale(x, y.coef))
			if e.mentions(r, kappa) {
				return nil
			}
			return r
		}
	}
	return nil
}
