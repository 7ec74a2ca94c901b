package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Stable mode. A round of a fixpoint computation over an array of byte sets is
// analysed against the contents the array has, without following the changes
// the round makes: every write is recorded with what it adds, and a ghost flag
// per array says whether the round wrote anything new. A round that left the
// flag down is one after which the array satisfies everything the writes of
// the round would add.

type loopDef struct {
	li    *LoopInst
	n     *Term
	outer []*Term
	ok    bool
	pcs   []B // exit conditions at kappa, for the exits other than the counted one
	any   B
	pre   B // at kappa: no earlier iteration left the loop
	gates []B
	exits []*LoopExit
}

func (e *Eng) isSetArray(o *Object) bool {
	if o.typ == nil {
		return false
	}
	switch u := o.typ.Underlying().(type) {
	case *types.Slice:
		return isByteSet(u.Elem())
	case *types.Array:
		return isByteSet(u.Elem())
	}
	return false
}

// stabSym is the unknown, unchanging content of a set array.
func (e *Eng) stabSym(key string, init *Term) *Term {
	s := e.sym("stab:"+key, nil)
	if init == s {
		return s
	}
	if e.stabLen == nil {
		e.stabLen = map[*Term]*Term{}
	}
	e.stabLen[s] = e.lenOf(init)
	return s
}

func isStab(t *Term) bool { return t.op == "sym" && strings.HasPrefix(t.k, "stab:") }

func (e *Eng) kexit(li *LoopInst) *Term {
	return e.mk("kexit", li.key, types.Typ[types.Int], li.kappas()...)
}

// canon gives the exits of a loop over a range as conditions on the first
// iteration that leaves it.
func (e *Eng) canon(li *LoopInst, ex []*LoopExit) *loopDef {
	d := &loopDef{li: li, outer: li.kappas(), exits: ex}
	if e.loopDefs == nil {
		e.loopDefs = map[string]*loopDef{}
	}
	e.loopDefs[li.key] = d
	if len(ex) == 0 || ex[len(ex)-1].trip == nil {
		return d
	}
	d.n = ex[len(ex)-1].trip
	if len(ex) == 1 {
		d.ok = true
		d.pre = True
		return d
	}
	m := map[*Term]*Term{}
	for _, lv := range li.vars {
		if lv.closed == nil && lv.exit != nil {
			m[lv.mu] = lv.exit
		}
	}
	care := e.bdd.And(li.entryPc, e.bdd.Not(ex[len(ex)-1].pc))
	for _, x := range ex[:len(ex)-1] {
		if x.trip != nil {
			return d
		}
		P := e.restrictTh(x.pc, care)
		if len(m) > 0 {
			P = e.substB(P, m, map[*Term]*Term{})
		}
		for _, v := range e.bdd.Support(P) {
			if e.mentionsLoop(li, e.atoms[v]) {
				return d
			}
		}
		d.pcs = append(d.pcs, P)
		d.any = e.bdd.Or(d.any, P)
	}
	d.ok = true
	d.pre = e.bdd.Not(e.exUpTo(li, d.any))
	return d
}

// canonGates: the gates of the exits
func (e *Eng) canonGates(d *loopDef) []B {
	k := len(d.pcs)
	found := e.mkEx(d.n, d.li.kappa, d.any)
	rest := found
	for i := 0; i < k; i++ {
		if i == k-1 {
			d.gates = append(d.gates, rest)
			break
		}
		E := e.mkEx(d.n, d.li.kappa, e.bdd.And(d.pre, d.pcs[i]))
		d.gates = append(d.gates, e.bdd.And(rest, E))
		rest = e.bdd.And(rest, e.bdd.Not(E))
	}
	d.gates = append(d.gates, e.bdd.Not(found))
	return d.gates
}

// kexits lists the exit counters a term depends on, those of inner loops first.
func (e *Eng) kexits(ts ...*Term) []*Term {
	var r []*Term
	for _, d := range e.loopDefs {
		if !d.ok || len(d.pcs) == 0 {
			continue
		}
		for _, t := range ts {
			e.findOp(t, "kexit", d.li.key, map[*Term]bool{}, &r)
		}
	}
	sort.Slice(r, func(i, j int) bool {
		if len(r[i].args) != len(r[j].args) {
			return len(r[i].args) > len(r[j].args)
		}
		return r[i].id < r[j].id
	})
	return r
}

func (e *Eng) findOp(t *Term, op, k string, seen map[*Term]bool, out *[]*Term) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == op && t.k == k {
		for _, x := range *out {
			if x == t {
				return
			}
		}
		*out = append(*out, t)
	}
	e.eachChild(t, func(c *Term) { e.findOp(c, op, k, seen, out) })
}

// inst gives a condition of the loop for the outer iterations an exit counter
// belongs to.
func (e *Eng) defInst(d *loopDef, kx *Term, b B, at *Term) B {
	m := map[*Term]*Term{d.li.kappa: at}
	for i, o := range d.outer {
		if i < len(kx.args) && kx.args[i] != o {
			m[o] = kx.args[i]
		}
	}
	return e.substB(b, m, map[*Term]*Term{})
}

func (e *Eng) defN(d *loopDef, kx *Term) *Term {
	m := map[*Term]*Term{}
	for i, o := range d.outer {
		if i < len(kx.args) && kx.args[i] != o {
			m[o] = kx.args[i]
		}
	}
	if len(m) == 0 {
		return d.n
	}
	return e.subst(d.n, m, map[*Term]*Term{})
}

// elim rewrites sets and flags that depend on where a loop was left into ones
// that say so for every iteration it may have been left in.
func (e *Eng) elim(t *Term, pc B) *Term {
	if !e.stable || t == nil || t.op != "set" && t.op != "bool" {
		return t
	}
	for round := 0; round < 6; round++ {
		ks := e.kexits(t)
		if len(ks) == 0 {
			return t
		}
		kx := ks[0]
		d := e.loopDefs[kx.k]
		if t.op == "bool" {
			t = e.boolTerm(e.elimB(d, kx, t.b, pc))
			if t.op != "bool" {
				return t
			}
			continue
		}
		var parts []gv
		for i, p := range t.args {
			g := t.bs[i]
			if !e.mentions(p, kx) && !e.mentionsB(g, kx) {
				parts = append(parts, gv{g, p})
				continue
			}
			for j := range d.gates {
				gj := e.defInst(d, kx, d.gates[j], d.li.kappa)
				if !e.sat(e.bdd.AndN(g, gj, pc)) {
					continue
				}
				g2 := e.restrictTh(g, e.bdd.And(gj, pc))
				if j == len(d.pcs) {
					parts = append(parts, gv{e.bdd.And(gj, g2), p})
					continue
				}
				b := e.sym("ι", types.Typ[types.Int])
				cond := e.bdd.And(e.defInst(d, kx, d.pre, b), e.defInst(d, kx, d.pcs[j], b))
				cond = e.bdd.And(cond, e.substB(g2, map[*Term]*Term{kx: b}, map[*Term]*Term{}))
				parts = append(parts, e.mkUcomp(e.defN(d, kx), b, e.substOne(p, kx, b), cond)...)
			}
		}
		eos := t.b
		if e.mentionsB(eos, kx) {
			eos = e.elimB(d, kx, eos, pc)
		}
		t = e.mkSet(parts, eos)
	}
	return t
}

func (e *Eng) mentionsB(b B, x *Term) bool {
	for _, v := range e.bdd.Support(b) {
		if e.mentions(e.atoms[v], x) {
			return true
		}
	}
	return false
}

func (e *Eng) elimB(d *loopDef, kx *Term, b, pc B) B {
	r := False
	for j := range d.gates {
		gj := e.defInst(d, kx, d.gates[j], d.li.kappa)
		if !e.sat(e.bdd.AndN(b, gj, pc)) {
			continue
		}
		g2 := e.restrictTh(b, e.bdd.And(gj, pc))
		if j == len(d.pcs) || !e.mentionsB(g2, kx) {
			r = e.bdd.Or(r, e.bdd.And(gj, g2))
			continue
		}
		i := e.sym("ι", types.Typ[types.Int])
		cond := e.bdd.And(e.defInst(d, kx, d.pre, i), e.defInst(d, kx, d.pcs[j], i))
		cond = e.bdd.And(cond, e.substB(g2, map[*Term]*Term{kx: i}, map[*Term]*Term{}))
		r = e.bdd.Or(r, e.mkEx(e.defN(d, kx), i, cond))
	}
	return r
}

// mkUcomp: the union of a part over kappa = 0..n-1, where the gate holds
func (e *Eng) mkUcomp(n, kappa, part *Term, gate B) []gv {
	if gate == False {
		return nil
	}
	if n.op == "phi" {
		var r []gv
		for _, x := range e.leaves(n) {
			for _, y := range e.mkUcomp(x.t, kappa, part, gate) {
				r = append(r, gv{e.bdd.And(x.g, y.g), y.t})
			}
		}
		return r
	}
	// conditions that do not depend on the iteration
	for _, v := range e.bdd.Support(gate) {
		if !e.mentions(e.atoms[v], kappa) {
			var r []gv
			for _, x := range e.mkUcomp(n, kappa, part, e.bdd.Cofactor(gate, v, true)) {
				r = append(r, gv{e.bdd.And(e.bdd.Var(v), x.g), x.t})
			}
			for _, x := range e.mkUcomp(n, kappa, part, e.bdd.Cofactor(gate, v, false)) {
				r = append(r, gv{e.bdd.And(e.bdd.Not(e.bdd.Var(v)), x.g), x.t})
			}
			return r
		}
	}
	pos := e.bdd.Not(e.le0(n))
	if !e.mentions(part, kappa) && gate == True {
		return []gv{{pos, part}}
	}
	if part.op == "nz" && part.args[0].op == "set" {
		var r []gv
		for i, q := range part.args[0].args {
			r = append(r, e.mkUcomp(n, kappa, q, e.bdd.And(gate, part.args[0].bs[i]))...)
		}
		return r
	}
	if v, ok := n.isNum(); ok && v <= 0 {
		return nil
	}
	u := e.comp("ucomp", n, kappa, part, e.boolTerm(gate))
	return []gv{{True, u}}
}

// sup1: a set holds all of a part
func (e *Eng) sup1(a, x *Term) B {
	if x.op == "set" {
		r := True
		for i, p := range x.args {
			r = e.bdd.And(r, e.bdd.Imp(x.bs[i], e.sup1(a, p)))
		}
		return r
	}
	a = e.setAtom(a)
	if x.op == "nz" && x.args[0].op == "phi" {
		return e.phiB(x.args[0], func(y *Term) B {
			s := e.setAtom(y)
			return e.sup1(a, e.supKey(s))
		})
	}
	if x.op == "nz" && x.args[0].op == "set" {
		return e.sup1(a, e.supKey(x.args[0]))
	}
	for i, p := range a.args {
		if p == x {
			if a.bs[i] == True {
				return True
			}
			break
		}
	}
	if x.op == "ucomp" {
		return e.bdd.Not(e.mkExFresh(x.args[0], func(b *Term) B {
			return e.bdd.And(e.boolOf(e.instBound(x, x.args[2], b)), e.bdd.Not(e.sup1(a, e.instBound(x, x.args[1], b))))
		}))
	}
	if e.stable {
		for i := range a.args {
			if g := a.bs[i]; g != True {
				v := e.bdd.Support(g)[0]
				return e.bdd.Ite(e.bdd.Var(v), e.sup1(e.cofSet(a, v, true), x), e.sup1(e.cofSet(a, v, false), x))
			}
		}
	}
	return e.atomVar(e.mk("sup", "", nil, a, x))
}

func (e *Eng) cofSet(a *Term, v int, val bool) *Term {
	var parts []gv
	for i, p := range a.args {
		parts = append(parts, gv{e.bdd.Cofactor(a.bs[i], v, val), p})
	}
	return e.mkSet(parts, e.bdd.Cofactor(a.b, v, val))
}

// mkExFresh: some index below n satisfies P
func (e *Eng) mkExFresh(n *Term, P func(*Term) B) B {
	e.iotas++
	b := e.sym(fmt.Sprintf("ξ%d", e.iotas), types.Typ[types.Int])
	r := e.mkEx(n, b, P(b))
	e.iotas--
	return r
}

// setForm: a set that collects parts, one iteration after another
func (e *Eng) setForm(li *LoopInst, lv *LoopVar, d *loopDef) bool {
	if lv.typ == nil || !isByteSet(lv.typ) || lv.next == nil {
		return false
	}
	n, mu := e.setAtom(lv.next), e.setAtom(lv.mu)
	if len(mu.args) != 1 {
		return false
	}
	own := mu.args[0]
	kept := False
	var parts []gv
	N := li.kappa
	extra := True
	if d.ok {
		N = d.n
		if len(d.pcs) > 0 {
			extra = e.bdd.And(d.pre, e.bdd.Not(d.any))
		}
	}
	for i, p := range n.args {
		if p == own {
			kept = n.bs[i]
			continue
		}
		if e.mentionsLoop(li, p) {
			return false
		}
		for _, v := range e.bdd.Support(n.bs[i]) {
			if e.mentionsLoop(li, e.atoms[v]) {
				return false
			}
		}
		parts = append(parts, e.mkUcomp(N, li.kappa, p, e.bdd.And(extra, n.bs[i]))...)
	}
	if kept != True {
		return false
	}
	var eos B
	sup := e.bdd.Support(mu.b)
	if len(sup) != 1 {
		return false
	}
	t1 := e.restrictTh(e.bdd.Cofactor(n.b, sup[0], true), e.bdd.Cofactor(li.backPc, sup[0], true))
	t0 := e.restrictTh(e.bdd.Cofactor(n.b, sup[0], false), e.bdd.Cofactor(li.backPc, sup[0], false))
	for _, b := range []B{t1, t0} {
		for _, v := range e.bdd.Support(b) {
			if e.mentionsLoop(li, e.atoms[v]) {
				return false
			}
		}
	}
	init := e.setAtom(lv.init)
	switch {
	case t1 == t0:
		// what the last iteration left
		last := e.boolOf(e.substOne(e.boolTerm(t1), li.kappa, e.addc(li.kappa, -1)))
		eos = e.bdd.Ite(e.le0(li.kappa), init.b, last)
	case t1 == True:
		eos = e.bdd.Or(init.b, e.exUpTo(li, t0))
	case t0 == False:
		eos = e.bdd.And(init.b, e.bdd.Not(e.exUpTo(li, e.bdd.Not(t1))))
	default:
		return false
	}
	lv.exit = e.setUnion(init, e.mkSet(parts, False))
	lv.exit = e.mkSet(partsOf(lv.exit), eos)
	return true
}

func partsOf(s *Term) []gv {
	var r []gv
	for i, p := range s.args {
		r = append(r, gv{s.bs[i], p})
	}
	return r
}

// cellForm: one cell of a map gets a list appended to in every iteration
func (e *Eng) cellForm(li *LoopInst, lv *LoopVar) bool {
	if lv.next == nil || lv.typ == nil {
		return false
	}
	if _, ok := lv.typ.Underlying().(*types.Map); !ok {
		return false
	}
	var key *Term
	var bodies, first []gv
	for _, x := range e.leaves(lv.next) {
		n := x.t
		if n.op != "mapstore" || n.args[0] != lv.mu || e.mentions(n.args[1], li.kappa) || e.mentionsLoop(li, n.args[1]) {
			return false
		}
		if key != nil && key != n.args[1] {
			return false
		}
		key = n.args[1]
		has := e.mapHas(lv.mu, key)
		for _, y := range e.leaves(n.args[2]) {
			v := y.t
			g := e.bdd.And(x.g, y.g)
			if v.op == "list" && len(v.args) == 2 && v.args[0].op == "all" && v.args[1].op == "elem" {
				// appended to what is there
				old := v.args[0].args[0]
				if old.op != "mget" || old.args[0] != lv.mu || old.args[1] != key || e.mentionsLoop(li, v.args[1].args[0]) {
					return false
				}
				if sup := e.bdd.Support(has); len(sup) == 1 {
					g = e.bdd.Cofactor(g, sup[0], true)
				}
				bodies = append(bodies, gv{g, v.args[1].args[0]})
				continue
			}
			// the first element
			if v.op == "list" && len(v.args) == 1 && v.args[0].op == "elem" && e.bdd.And(g, has) == False && !e.mentionsLoop(li, v.args[0].args[0]) {
				if sup := e.bdd.Support(has); len(sup) == 1 {
					first = append(first, gv{e.bdd.Cofactor(g, sup[0], false), v.args[0].args[0]})
					continue
				}
			}
			return false
		}
	}
	for _, x := range first {
		ok := False
		for _, y := range bodies {
			if x.t == y.t {
				ok = e.bdd.Or(ok, y.g)
			}
		}
		if e.sat(e.bdd.And(x.g, e.bdd.Not(ok))) {
			return false
		}
	}
	if key == nil {
		return false
	}
	for _, b := range bodies {
		for _, v := range e.bdd.Support(b.g) {
			if e.mentionsLoop(li, e.atoms[v]) {
				return false
			}
		}
	}
	c := e.comp("comp", li.kappa, li.kappa, e.phi(bodies))
	full := e.mapStore(lv.init, key, e.list(e.normSegs([]*Term{c})...))
	if had := e.mapHas(lv.init, key); e.sat(e.bdd.And(li.entryPc, had)) {
		// what the cell holds already comes first
		typ := lv.typ.Underlying().(*types.Map).Elem()
		old := e.mapGet(lv.init, key, typ)
		more := e.lift(e.under(old, e.bdd.And(li.entryPc, had)), func(x *Term) *Term {
			return e.mapStore(lv.init, key, e.list(e.normSegs(append(append([]*Term{}, e.segs(x)...), c))...))
		})
		full = e.iteTerm(had, more, full)
	}
	lv.exit = e.iteTerm(e.le0(li.kappa), lv.init, full)
	return true
}

// listForm: a list that gets one of several values appended in every iteration
func (e *Eng) listForm(li *LoopInst, lv *LoopVar) bool {
	if lv.next == nil || lv.next.op != "phi" {
		return false
	}
	var bodies []gv
	for _, x := range e.leaves(lv.next) {
		n := x.t
		if n.op != "list" || len(n.args) != 2 || n.args[0].op != "all" || n.args[0].args[0] != lv.mu || n.args[1].op != "elem" || e.mentionsLoop(li, n.args[1].args[0]) {
			return false
		}
		for _, v := range e.bdd.Support(x.g) {
			if e.mentionsLoop(li, e.atoms[v]) {
				return false
			}
		}
		bodies = append(bodies, gv{x.g, n.args[1].args[0]})
	}
	c := e.comp("comp", li.kappa, li.kappa, e.phi(bodies))
	lv.exit = e.list(e.normSegs(append(append([]*Term{}, e.segs(lv.init)...), c))...)
	return true
}

// setStore records a write to an element of a set array and raises the ghost
// flag of the array if it adds something. It reports whether the array is in
// its stable state, in which the write itself is not followed.
func (e *Eng) setStore(f *frame, base, idx, p, v *Term, in ssa.Instruction) bool {
	if base.op == "phi" || base.op == "aslice" || p.k != "" {
		return false
	}
	c := e.resolve(f.mem, base)
	i := idx
	for c.op == "slice" {
		i = e.add(c.args[1], i)
		c = c.args[0]
	}
	if !isStab(c) {
		return false
	}
	old := e.setAtom(e.index(c, i))
	nw := e.setAtom(v)
	e.event("setstore", f, in, "write to a byte set of an array", c, i, old, nw)
	o := e.ghost(c)
	g := e.bdd.Not(e.setSup(old, nw))
	f.mem.m[o] = e.boolTerm(e.bdd.Or(e.boolOf(e.content(f.mem, o)), g))
	return true
}

func (e *Eng) ghost(stab *Term) *Object {
	o := e.object("ghost:"+stab.k, "ghost", types.Typ[types.Bool])
	if o.initTerm == nil {
		o.initTerm = e.boolTerm(False)
	}
	return o
}
