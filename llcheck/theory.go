package main

import (
	"go/types"
)

// Axioms relating atoms to each other: type exclusivity, equality with
// different constants, linear facts, closed worlds, and facts attached to
// loop exits.

func (e *Eng) axioms(vars []int) B {
	r := True
	for i, v := range vars {
		r = e.bdd.And(r, e.axiom1(v))
		for _, w := range vars[:i] {
			r = e.bdd.And(r, e.axiom2(w, v))
		}
	}
	// l <= 0 and l >= 0 give l == 0
	for _, v := range vars {
		q := e.atoms[v]
		if q.op != "eq0" {
			continue
		}
		l := e.toLin(q.args[0])
		n := linScale(l, -1)
		lt, nt := e.fromLin(l), e.fromLin(n)
		ups, downs := False, False
		for _, w := range vars {
			o := e.atoms[w]
			if o.op != "le0" {
				continue
			}
			ov := e.bdd.Var(w)
			on := linScale(e.toLin(o.args[0]), -1)
			on.c++
			for _, f := range []gv{{ov, o.args[0]}, {e.bdd.Not(ov), e.fromLin(on)}} {
				if f.t == lt {
					ups = e.bdd.Or(ups, f.g)
				}
				if f.t == nt {
					downs = e.bdd.Or(downs, f.g)
				}
			}
		}
		if l1, ok := e.le0Known(l); ok && l1 {
			ups = True
		}
		if l1, ok := e.le0Known(n); ok && l1 {
			downs = True
		}
		r = e.bdd.And(r, e.bdd.Imp(e.bdd.And(ups, downs), e.bdd.Var(v)))
	}
	// closed worlds
	seen := map[*Term]bool{}
	for _, v := range vars {
		at := e.atoms[v]
		if at.op != "is" {
			continue
		}
		x := at.args[0]
		if seen[x] || x.typ == nil {
			continue
		}
		seen[x] = true
		if impls := e.closed(x.typ); impls != nil {
			c := False
			for _, T := range impls {
				c = e.bdd.Or(c, e.isType(x, T))
			}
			r = e.bdd.And(r, c)
		}
	}
	return r
}

func (e *Eng) axiom1(v int) B {
	if a, ok := e.attached[v]; ok {
		return a
	}
	return True
}

func (e *Eng) axiom2(v, w int) B {
	k := [2]int{v, w}
	if r, ok := e.ax2[k]; ok {
		return r
	}
	r := e.axiom2raw(v, w)
	e.ax2[k] = r
	return r
}

func (e *Eng) axiom2raw(v, w int) B {
	a, b := e.atoms[v], e.atoms[w]
	av, bv := e.bdd.Var(v), e.bdd.Var(w)
	m := e.bdd
	nand := func(x, y B) B { return m.Not(m.And(x, y)) }
	isLin := func(t *Term) bool { return t.op == "le0" || t.op == "eq0" }
	if isLin(a) && isLin(b) {
		r := True
		la, lb := e.toLin(a.args[0]), e.toLin(b.args[0])
		type cons struct {
			g B
			l Lin
		}
		forms := func(t *Term, l Lin, v B) []cons {
			n := linScale(l, -1)
			if t.op == "le0" {
				n1 := n
				n1.c++
				return []cons{{v, l}, {m.Not(v), n1}}
			}
			return []cons{{v, l}, {v, n}}
		}
		for _, x := range forms(a, la, av) {
			for _, y := range forms(b, lb, bv) {
				if val, ok := e.le0Known(linAdd(x.l, y.l, 1)); ok && !val {
					r = m.And(r, nand(x.g, y.g))
				}
			}
		}
		return r
	}
	if r, ok := e.axiomEx(a, b, av, bv); ok {
		return r
	}
	if r, ok := e.axiomEx(b, a, bv, av); ok {
		return r
	}
	if b.op == "is" && a.op != "is" || b.op == "isnil" && a.op == "eq" {
		a, b, av, bv = b, a, bv, av
	}
	switch {
	case a.op == "is" && b.op == "is" && a.args[0] == b.args[0]:
		ta, tb := a.aux.(types.Type), b.aux.(types.Type)
		ia, oka := ta.Underlying().(*types.Interface)
		ib, okb := tb.Underlying().(*types.Interface)
		switch {
		case !oka && !okb:
			return nand(av, bv)
		case !oka && okb:
			if types.Implements(ta, ib) {
				return m.Imp(av, bv)
			}
			return nand(av, bv)
		case oka && !okb:
			if types.Implements(tb, ia) {
				return m.Imp(bv, av)
			}
			return nand(av, bv)
		}
	case a.op == "is" && b.op == "isnil" && a.args[0] == b.args[0]:
		return nand(av, bv)
	case a.op == "eq" && b.op == "eq":
		for i := 0; i < 2; i++ {
			for j := 0; j < 2; j++ {
				if a.args[i] == b.args[j] && e.eqTerms(a.args[1-i], b.args[1-j]) == False {
					return nand(av, bv)
				}
			}
		}
	case a.op == "isnil" && b.op == "eq":
		for i := 0; i < 2; i++ {
			if b.args[i] == a.args[0] && e.isNil(b.args[1-i]) == False {
				return nand(av, bv)
			}
		}
	case a.op == "isnil" && b.op == "has" && b.args[0] == a.args[0]:
		return nand(av, bv)
	case a.op == "has" && b.op == "isnil" && b.args[0] == a.args[0]:
		return nand(av, bv)
	case (a.op == "has" && b.op == "le0") || (a.op == "le0" && b.op == "has"):
		h, hv, l, lv := a, av, b, bv
		if a.op == "le0" {
			h, hv, l, lv = b, bv, a, av
		}
		if l.args[0] == e.mapLen(h.args[0]) {
			return nand(hv, lv)
		}
	case a.op == "isnil" && b.op == "le0":
		// a nil list is empty
		if b.args[0].op == "len" && b.args[0].args[0] == a.args[0] {
			return m.Imp(av, bv)
		}
	case a.op == "le0" && b.op == "isnil":
		if a.args[0].op == "len" && a.args[0].args[0] == b.args[0] {
			return m.Imp(bv, av)
		}
	}
	return True
}

// closure of the support under attached axioms
func (e *Eng) supportClosure(fs ...B) []int {
	seen := map[int]bool{}
	var todo []int
	add := func(f B) {
		for _, v := range e.bdd.Support(f) {
			if !seen[v] {
				seen[v] = true
				todo = append(todo, v)
			}
		}
	}
	for _, f := range fs {
		add(f)
	}
	for i := 0; i < len(todo); i++ {
		if a, ok := e.attached[todo[i]]; ok {
			add(a)
		}
	}
	sortInts(todo)
	return todo
}

func (e *Eng) sat(f B) bool {
	if f <= True {
		return f == True
	}
	if r, ok := e.satMemo[f]; ok {
		return r
	}
	vars := e.supportClosure(f)
	r := e.bdd.And(f, e.axioms(vars)) != False
	e.satMemo[f] = r
	return r
}

func (e *Eng) implies(f, g B) bool { return !e.sat(e.bdd.And(f, e.bdd.Not(g))) }

func (e *Eng) equivUnder(pc, f, g B) bool {
	return !e.sat(e.bdd.And(pc, e.bdd.Xor(f, g)))
}

// restrictTh simplifies f under a care set and the axioms.
func (e *Eng) restrictTh(f, pc B) B {
	if f <= True {
		return f
	}
	vars := e.supportClosure(f, pc)
	c := e.bdd.And(pc, e.axioms(vars))
	if c == False {
		return False
	}
	if e.bdd.And(f, c) == False {
		return False
	}
	if e.bdd.Imp(c, f) == True {
		return True
	}
	r := e.bdd.Restrict(f, c)
	return e.dropVars(r, c)
}

// dropVars removes variables the care set makes irrelevant.
func (e *Eng) dropVars(r, c B) B {
	sup := e.bdd.Support(r)
	if len(sup) > 24 {
		return r
	}
	for i := len(sup) - 1; i >= 0; i-- {
		for _, val := range []bool{false, true} {
			q := e.bdd.Cofactor(r, sup[i], val)
			if q != r && e.bdd.And(c, e.bdd.Xor(q, r)) == False {
				r = q
				break
			}
		}
		if r <= True {
			break
		}
	}
	return r
}
