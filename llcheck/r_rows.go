package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules for the rows of the table: which cells are written, by what
// alternative, and with what.

func init() {
	reg("C10", "gated value-flow analysis of the cell writes", checkC10)
	reg("C11", "path-sensitive gated value-flow analysis", checkC11)
	reg("C15", "gated value-flow analysis of the table and its rows", checkC15)
}

// cellWrite is a write that gives a cell of a row its value.
type cellWrite struct {
	ev     *Event
	at     string
	loops  []*LoopInst // row loop, alternative loop, byte loop
	pc     B
	key    *Term
	val    *Term
	prior  *Term
	rule   *Term // the row
	alt    *Term
	set    *Term // the set the keys are taken from
	byteAt *LoopInst
	has    B    // the test for the key to be in the set, if the loop is over all bytes
	follow bool // the cells of what follows the rule
}

type rowInfo struct {
	err   string
	loop  *LoopInst // over the rules
	key   *Term     // the key of the row made in an iteration
	outer *Event
	cells []*cellWrite
}

func (c *Check) rowInfo(t *tableRun) *rowInfo {
	return cached(c, "rows", func() *rowInfo {
		ri := &rowInfo{}
		ri.err = guard(func() { t.findRows(ri) })
		return ri
	})
}

func (t *tableRun) mapTypeOf(ev *Event) *types.Map {
	if u, ok := ev.instr.(*ssa.MapUpdate); ok {
		return u.Map.Type().Underlying().(*types.Map)
	}
	return nil
}

func (t *tableRun) isOps(T types.Type) bool {
	op := t.e.P.namedType("pkg/parser", "ParserOp")
	s, ok := T.Underlying().(*types.Slice)
	return ok && op != nil && types.Identical(s.Elem(), op)
}

func isByteT(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (t *tableRun) findRows(ri *rowInfo) {
	e := t.e
	for _, ev := range e.events {
		if ev.kind != "mapwrite" {
			continue
		}
		mt := t.mapTypeOf(ev)
		if mt == nil {
			continue
		}
		if inner, ok := mt.Elem().Underlying().(*types.Map); ok && t.isOps(inner.Elem()) {
			if ri.outer != nil {
				panic(abort{"rows are added to the table at more than one place"})
			}
			ri.outer = ev
			continue
		}
		if t.isOps(mt.Elem()) && isByteT(mt.Key()) {
			ri.cells = append(ri.cells, &cellWrite{ev: ev, at: e.evPos(ev), pc: ev.pc, key: ev.args[1], val: ev.args[2], prior: ev.args[3]})
		}
	}
	if ri.outer == nil || len(ri.outer.loops) == 0 {
		panic(abort{"no loop adds the rows to the table"})
	}
	ri.loop = t.doneLoop(ri.outer.loops[0])
	ri.key = ri.outer.args[1]
	if len(ri.cells) == 0 {
		panic(abort{"no cell of a row is ever written"})
	}
	var cells []*cellWrite
	seen := map[string]bool{}
	for _, w := range ri.cells {
		for _, l := range w.ev.loops {
			w.loops = append(w.loops, t.doneLoop(l))
		}
		if len(w.loops) == 0 || w.loops[0].key != ri.loop.key {
			panic(abort{"a cell is written outside of the loop over the rules at " + w.at})
		}
		if len(w.loops) < 3 {
			panic(abort{"a cell is written outside of the loops over the alternatives and over a set of bytes at " + w.at})
		}
		if in := w.loops[2]; !seen[in.key] {
			seen[in.key] = true
			cells = append(cells, t.netWrites(w, in)...)
		}
	}
	ri.cells = cells
	for _, w := range ri.cells {
		w.rule = ri.key
		w.alt = w.loops[1].kappa
		w.byteAt = w.loops[2]
		k := e.under(w.key, w.pc)
		if k.op == "index" && k.args[0].op == "call" && k.args[0].k == "setbytes" {
			w.set = e.setAtom(k.args[0].args[0])
		} else if s, has := t.tested(k, w.byteAt, w.pc); s != nil {
			w.set, w.has = s, has
		} else {
			panic(abort{"the cells written at " + w.at + " are not those of a set of bytes: " + e.show(k)})
		}
		for _, p := range w.set.args {
			if e.mentions(p, t.G) {
				w.follow = true
			}
		}
	}
}

// tested: a loop over all 256 bytes that does something for those in a set
func (t *tableRun) tested(k *Term, li *LoopInst, pc B) (*Term, B) {
	e := t.e
	if k.op != "narrow" || !isByteT(k.typ) || li.trip == nil || li.trip != e.num(256) {
		return nil, False
	}
	if x := k.args[0]; x != li.kappa && e.add(x, li.kappa) != e.num(255) {
		return nil, False
	}
	for _, v := range e.bdd.Support(pc) {
		var s []*Term
		e.findOp(e.atoms[v], "call", "setcontains", map[*Term]bool{}, &s)
		for _, x := range s {
			if b := e.boolOf(x); x.args[1] == k && e.implies(pc, b) {
				return e.setAtom(x.args[0]), b
			}
		}
	}
	return nil, False
}

// netWrites: what an iteration of a loop over a set of bytes leaves in the row
func (t *tableRun) netWrites(w *cellWrite, in *LoopInst) []*cellWrite {
	e := t.e
	var r []*cellWrite
	for _, lv := range in.vars {
		if lv.next == nil || lv.mu == nil || lv.typ == nil {
			continue
		}
		if mt, ok := lv.typ.Underlying().(*types.Map); !ok || !t.isOps(mt.Elem()) {
			continue
		}
		for _, x := range e.leaves(e.under(lv.next, in.backPc)) {
			pc := e.bdd.And(in.backPc, x.g)
			if x.t == lv.mu || !e.sat(pc) {
				continue
			}
			if x.t.op != "mapstore" || x.t.args[0] != lv.mu {
				panic(abort{"what an iteration adds to a row at " + w.at + " is not known: " + e.show(x.t)})
			}
			n := *w
			n.loops = w.loops[:3]
			n.pc, n.key, n.val, n.prior = pc, x.t.args[1], x.t.args[2], lv.mu
			r = append(r, &n)
		}
	}
	if len(r) == 0 {
		panic(abort{"what an iteration adds to a row at " + w.at + " is not known"})
	}
	return r
}

// gates of the exits of a loop, the counted one last
func (t *tableRun) exits(li *LoopInst) ([]B, bool) {
	d := t.e.loopDefs[li.key]
	if d == nil || len(d.gates) == 0 || len(d.gates) != len(d.exits) {
		return nil, len(li.exits) == 1 && li.exits[0].trip != nil
	}
	return d.gates, d.exits[len(d.exits)-1].trip != nil
}

// full: the loop runs over its whole range whenever f holds afterwards
func (c *Check) full(t *tableRun, rule string, li *LoopInst, what string, f B) {
	gs, ok := t.exits(li)
	at := t.loopAt(li)
	if !c.ob(rule, at, what, ok, "the loop is not over a range") {
		return
	}
	if len(gs) == 0 {
		return
	}
	c.refuted(t.e, rule, at, what, t.e.bdd.AndN(f, li.entryPc, t.e.bdd.Not(gs[len(gs)-1])))
}

func (c *Check) cells(t *tableRun, rule, where string) *rowInfo {
	ri := c.rowInfo(t)
	if !c.ob(rule, where, "the writes to the cells of the table are found", ri.err == "", ri.err) {
		return nil
	}
	return ri
}

// goesOn: the iteration of a loop is one of a loop that runs to its end
func (t *tableRun) goesOn(li *LoopInst) B {
	return t.e.bdd.AndN(li.entryPc, t.e.inRange(li.kappa, li.trip), li.backPc)
}

// ranges: every row and every alternative is looked at
func (c *Check) ranges(t *tableRun, ri *rowInfo, rule string) {
	e := t.e
	L0 := ri.loop
	at := t.loopAt(L0)
	c.imp(e, rule, at, "the rows are made before a table is returned", t.succ, L0.entryPc)
	c.full(t, rule, L0, "every row is made before a table is returned", t.succ)
	seen := map[string]bool{}
	for _, w := range ri.cells {
		L1, L2 := w.loops[1], w.loops[2]
		if L1.trip == nil || L2.trip == nil || L0.trip == nil {
			c.fail(rule, w.at, "cells are written in loops over ranges", "the number of iterations is not known")
			continue
		}
		if !seen[L1.key] {
			seen[L1.key] = true
			c.refuted(e, rule, t.loopAt(L1), "every alternative of a rule is looked at", e.bdd.And(L1.entryPc, e.bdd.Not(e.eq0(e.sub(L1.trip, e.lenOf(t.alts(w.rule)))))))
			c.refuted(e, rule, t.loopAt(L1), "the alternatives of every rule are looked at", e.bdd.And(t.goesOn(L0), e.bdd.Not(L1.entryPc)))
			c.full(t, rule, L1, "every alternative of a rule is looked at", L0.backPc)
		}
		if !seen[L2.key] {
			seen[L2.key] = true
			c.full(t, rule, L2, "every byte of the set is given its cell", e.bdd.And(t.goesOn(L0), t.goesOn(L1)))
			any := e.bdd.Not(w.has)
			if w.has == False {
				any = False
			}
			for _, x := range ri.cells {
				if x.loops[2].key == L2.key {
					any = e.bdd.Or(any, x.pc)
					if x.set != w.set && (x.has != False || w.has != False) {
						c.fail(rule, x.at, "every byte of the set is given its cell", "the loop is over more than one set")
					}
				}
			}
			c.refuted(e, rule, w.at, "every byte of the set is given its cell", e.bdd.AndN(t.goesOn(L0), t.goesOn(L1), t.goesOn(L2), e.bdd.Not(any)))
		}
	}
}

// firstCells, followCells: the cells of an alternative are the right ones
func (c *Check) firstCells(t *tableRun, ri *rowInfo, complete, sound bool) {
	e := t.e
	m := e.bdd
	any := map[string]B{}
	q := t.quiet(t.roundF, t.F)
	_ = q
	n := 0
	var at string
	for _, w := range ri.cells {
		if w.follow {
			continue
		}
		n++
		at = w.at
		j := t.pos("j")
		S := t.symb(w.rule, w.alt, j)
		hyp := m.AndN(w.byteAt.entryPc, e.inRange(j, e.lenOf(t.syms(w.rule, w.alt))), t.nullRun(w.rule, w.alt, e.num(0), j))
		if complete {
			c.refuted(e, "cells", w.at, "a production is predicted on the first byte of every terminal it can start with",
				m.AndN(hyp, t.is(S, "SymbolTerminal"), m.Not(t.holds(w.set, t.single(S)))))
			ix, _ := t.idx(S)
			c.refuted(e, "cells", w.at, "a production is predicted on the first bytes of every non-terminal it can start with",
				m.AndN(hyp, t.is(S, "SymbolNonTerminal"), m.Not(t.holds(w.set, t.nz(e.index(t.F, ix))))))
			any[w.loops[1].key] = m.Or(any[w.loops[1].key], w.byteAt.entryPc)
		}
		if sound {
			for i, p := range w.set.args {
				for _, x := range t.flatten(p, m.And(w.pc, w.set.bs[i]), 0) {
					if x.t.op != "single" && x.t.op != "nz" {
						c.fail("cells", w.at, "the bytes a production is predicted on are known", e.show(x.t))
						continue
					}
					ok := t.someSym(w.rule, w.alt, func(j *Term) B {
						return m.And(t.nullRun(w.rule, w.alt, e.num(0), j), t.startsWith(t.symb(w.rule, w.alt, j), x.t))
					})
					c.refuted(e, "cells", w.at, "a production is predicted only on bytes it can start with: "+e.show(x.t), m.And(x.g, m.Not(ok)))
				}
			}
			c.refuted(e, "cells", w.at, "a production that is not empty is not predicted on byte 0", m.And(w.pc, w.set.b))
		}
	}
	c.ob("cells", at, "productions get cells", n > 0, "no cell is written for the bytes an alternative can start with")
	if !complete {
		return
	}
	for _, w := range ri.cells {
		g, ok := any[w.loops[1].key]
		if w.follow || !ok {
			continue
		}
		delete(any, w.loops[1].key)
		j := t.pos("j")
		S := t.symb(w.rule, w.alt, j)
		hyp := m.AndN(t.goesOn(ri.loop), t.goesOn(w.loops[1]), e.inRange(j, e.lenOf(t.syms(w.rule, w.alt))), t.nullRun(w.rule, w.alt, e.num(0), j), m.Not(t.is(S, "SymbolNothing")))
		c.refuted(e, "cells", w.at, "every alternative that can start with a byte gets its cells", m.And(hyp, m.Not(g)))
	}
}

func (c *Check) followCells(t *tableRun, ri *rowInfo, complete, sound bool) {
	e := t.e
	m := e.bdd
	any := map[string]B{}
	n := 0
	at := t.loopAt(ri.loop)
	for _, w := range ri.cells {
		if !w.follow {
			continue
		}
		n++
		at = w.at
		nz := t.nz(e.index(t.G, w.rule))
		own := t.set(t.G, w.rule)
		if complete {
			c.refuted(e, "cells", w.at, "the empty production is predicted on every byte that can follow the rule", m.And(w.byteAt.entryPc, m.Not(t.holds(w.set, nz))))
			c.refuted(e, "cells", w.at, "the empty production is predicted at the end of input if that can follow the rule", m.AndN(w.byteAt.entryPc, own.b, m.Not(w.set.b)))
			any[w.loops[1].key] = m.Or(any[w.loops[1].key], w.byteAt.entryPc)
		}
		if sound {
			for i, p := range w.set.args {
				if p != nz {
					c.refuted(e, "cells", w.at, "the empty production is predicted only on bytes that can follow the rule: "+e.show(p), m.And(w.pc, w.set.bs[i]))
				}
			}
			c.refuted(e, "cells", w.at, "the empty production is predicted at the end of input only if that can follow the rule", m.AndN(w.pc, w.set.b, m.Not(own.b)))
			c.refuted(e, "cells", w.at, "the empty production is predicted only for an alternative that can be empty", m.And(w.pc, m.Not(t.nullAlt(w.rule, w.alt))))
			c.refuted(e, "cells", w.at, "the empty production has no operations", m.And(w.pc, m.Not(e.le0(e.lenOf(w.val)))))
		}
	}
	if !c.ob("cells", at, "rules that can be empty get cells", n > 0, "no cell is written for the bytes that can follow a rule") || !complete {
		return
	}
	for _, w := range ri.cells {
		g, ok := any[w.loops[1].key]
		if !w.follow || !ok {
			continue
		}
		delete(any, w.loops[1].key)
		c.refuted(e, "cells", w.at, "every alternative that can be empty gets its cells", m.AndN(t.goesOn(ri.loop), t.goesOn(w.loops[1]), t.nullAlt(w.rule, w.alt), m.Not(g)))
	}
}

// holds: a part is one of those a set is made of
func (t *tableRun) holds(set, x *Term) B {
	e := t.e
	set = e.setAtom(set)
	r := False
	for i, p := range set.args {
		r = e.bdd.Or(r, e.bdd.And(set.bs[i], t.match(p, x)))
	}
	return r
}

func (t *tableRun) match(p, x *Term) B {
	e := t.e
	switch {
	case p == x:
		return True
	case p.op == "ucomp":
		return e.mkExFresh(p.args[0], func(b *Term) B {
			return e.bdd.And(e.boolOf(e.instBound(p, p.args[2], b)), t.match(e.instBound(p, p.args[1], b), x))
		})
	case p.op == "nz" && (p.args[0].op == "set" || p.args[0].op == "phi"):
		return t.holds(p.args[0], x)
	case p.op == "single" && x.op == "single":
		return e.eqTerms(p.args[0], x.args[0])
	case p.op == "nz" && x.op == "nz" && p.args[0].op == "index" && x.args[0].op == "index" && p.args[0].args[0] == x.args[0].args[0]:
		return e.eq0(e.sub(p.args[0].args[1], x.args[0].args[1]))
	}
	return False
}

// rowKeys: every iteration makes the row of another rule
func (c *Check) rowKeys(t *tableRun, ri *rowInfo, rule string) {
	e := t.e
	k := e.under(ri.key, ri.outer.pc)
	up, down := e.sub(k, ri.loop.kappa), e.add(k, ri.loop.kappa)
	ok := false
	if n, is := up.isNum(); is && n == 0 {
		ok = true
	}
	if down == e.addc(t.n, -1) {
		ok = true
	}
	c.ob(rule, e.evPos(ri.outer), "every rule has a row of its own", ok, "key of the row: "+e.show(k))
}

func checkC10(c *Check) {
	t := c.tableRun()
	if t == nil || !c.roleOK(t) {
		return
	}
	c.setMethods()
	c.roundsOf(t, "first")
	c.roundsOf(t, "follow")
	e := t.e
	ri := c.cells(t, "cells", where(e, t.fn))
	if ri == nil {
		return
	}
	c.guarded("cells", t.loopAt(ri.loop), func() {
		for _, w := range ri.cells {
			taken := e.mapHas(w.prior, w.key)
			for _, lv := range w.byteAt.vars {
				if lv.mu == w.prior && lv.closed == nil && lv.exit != nil {
					// the same, seen from the start of the loop
					taken = e.bdd.And(taken, e.mapHas(lv.exit, w.key))
				}
			}
			c.refuted(e, "conflict", w.at, "no cell is written that an alternative has taken already", e.bdd.And(w.pc, taken))
		}
		c.rowKeys(t, ri, "conflict")
		c.ranges(t, ri, "cells")
		c.firstCells(t, ri, true, false)
		c.followCells(t, ri, true, false)
	})
	c.guarded("first", t.loopAt(t.roundF), func() { c.firstRules(t, false) })
	c.guarded("follow", t.loopAt(t.rndG), func() { c.followRules(t, false) })
}

var _ = fmt.Sprint

// checkC11: success means that nothing is wrong with the grammar, and no path
// panics.
func checkC11(c *Check) {
	t := c.tableRun()
	if t == nil {
		return
	}
	e := t.e
	m := e.bdd
	at := where(e, t.fn)
	c.guarded("malformed", at, func() {
		r, r2, a, j := t.pos("r"), t.pos("r2"), t.pos("a"), t.pos("j")
		inr := m.And(t.succ, e.inRange(r, t.n))
		ina := m.And(inr, e.inRange(a, e.lenOf(t.alts(r))))
		n := e.lenOf(t.syms(r, a))
		inj := m.And(ina, e.inRange(j, n))
		S := t.symb(r, a, j)
		no := func(what string, f B) {
			c.refuted(e, "malformed", at, "no table is returned for a grammar with "+what, f)
		}
		no("no rules", m.And(t.succ, e.le0(t.n)))
		no("two rules with the same head", m.AndN(inr, e.le0(e.addc(e.sub(r2, r), 1)), e.eqTerms(t.head(r), t.head(r2))))
		no("an alternative without symbols", m.And(ina, e.le0(n)))
		_, has := t.idx(S)
		no("a reference to a non-terminal without rule", m.AndN(inj, t.is(S, "SymbolNonTerminal"), m.Not(has)))
		nm := t.name(S, "SymbolTerminal")
		term := m.And(inj, t.is(S, "SymbolTerminal"))
		no("an empty terminal", m.And(term, e.le0(e.lenOf(nm))))
		no("a terminal starting with a zero byte", m.AndN(term, m.Not(e.le0(e.lenOf(nm))), e.eqTerms(t.firstByte(S), e.mk("const", "0", types.Typ[types.Byte]))))
		no("an empty-string symbol that is not alone in its alternative", m.AndN(inj, t.is(S, "SymbolNothing"), m.Not(e.le0(e.addc(n, -1)))))
		no("a symbol of a foreign type", m.AndN(inj, m.Not(t.is(S, "SymbolTerminal")), m.Not(t.is(S, "SymbolNonTerminal")), m.Not(t.is(S, "SymbolNothing"))))
	})
	c.noPanics(t)
}

// noPanics: no path of the analysis panics
func (c *Check) noPanics(t *tableRun) {
	e := t.e
	n := 0
	for _, ev := range e.events {
		switch ev.kind {
		case "panic", "bounds", "nilderef", "typeassert", "nilmap", "nilcall", "div0", "recursion", "unsupported":
			n++
			c.refuted(e, "panics", e.evPos(ev), "FromGrammar does not panic: "+ev.what, e.opened(e.forget(ev.pc)))
		}
	}
	c.ob("panics", where(e, t.fn), fmt.Sprintf("%d operations that can panic on some values are looked at", n), true, "")
}

// opened adds to a condition what is known about the iterations in which the
// loops it depends on were left.
func (e *Eng) opened(f B) B {
	done := map[*Term]bool{}
	for round := 0; round < 6; round++ {
		var ks []*Term
		for _, d := range e.loopDefs {
			for _, v := range e.bdd.Support(f) {
				e.findOp(e.atoms[v], "kexit", d.li.key, map[*Term]bool{}, &ks)
				if a := e.atoms[v]; a.op == "exit" && strings.HasPrefix(a.k, d.li.key+"/") && !strings.Contains(a.k[len(d.li.key)+1:], "/") {
					kx := e.mk("kexit", d.li.key, types.Typ[types.Int], a.args...)
					e.findOp(kx, "kexit", d.li.key, map[*Term]bool{}, &ks)
				}
			}
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
		ch := false
		for _, kx := range ks {
			if done[kx] || e.hasBoundVar(kx) {
				continue
			}
			done[kx] = true
			ch = true
			d := e.loopDefs[kx.k]
			f = e.bdd.And(f, e.leftAt(d, kx))
		}
		if !ch {
			break
		}
	}
	return e.bdd.And(f, e.nonEmpty(f))
}

// nonEmpty: a set whose bytes are listed has at least one if the list does, and
// so has one that holds a byte
func (e *Eng) nonEmpty(f B) B {
	var bs, cs []*Term
	seen, seen1 := map[*Term]bool{}, map[*Term]bool{}
	for _, v := range e.bdd.Support(f) {
		e.findOp(e.atoms[v], "call", "setbytes", seen, &bs)
		e.findOp(e.atoms[v], "call", "setcontains", seen1, &cs)
	}
	r := True
	for _, x := range cs {
		if !e.hasBoundVar(x) {
			r = e.bdd.And(r, e.bdd.Imp(e.boolOf(x), e.hasBytes(x.args[0])))
		}
	}
	for _, x := range bs {
		if !e.hasBoundVar(x) {
			r = e.bdd.And(r, e.bdd.Imp(e.bdd.Not(e.le0(e.lenOf(x))), e.hasBytes(x.args[0])))
		}
	}
	return r
}

func (e *Eng) hasBytes(set *Term) B {
	s := e.setAtom(set)
	r := s.b
	for i, p := range s.args {
		g := s.bs[i]
		if p.op == "ucomp" {
			g = e.bdd.And(g, e.mkExFresh(p.args[0], func(b *Term) B {
				part := e.instBound(p, p.args[1], b)
				h := True
				if part.op == "ucomp" || part.op == "nz" && part.args[0].op == "set" {
					if part.op == "nz" {
						part = part.args[0]
					}
					h = e.hasBytes(e.mkSet([]gv{{True, part}}, False))
				}
				return e.bdd.And(e.boolOf(e.instBound(p, p.args[2], b)), h)
			}))
		}
		r = e.bdd.Or(r, g)
	}
	return r
}

// forget drops what a condition says about the sets growing.
func (e *Eng) forget(f B) B {
	for _, v := range e.bdd.Support(f) {
		var s []*Term
		e.findOp(e.atoms[v], "sup", "", map[*Term]bool{}, &s)
		if len(s) > 0 {
			f = e.bdd.Or(e.bdd.Cofactor(f, v, true), e.bdd.Cofactor(f, v, false))
		}
	}
	return f
}

// leftAt: the loop was left in iteration kx
func (e *Eng) leftAt(d *loopDef, kx *Term) B {
	m := e.bdd
	r := True
	if d.ok && len(d.pcs) > 0 {
		for j := range d.pcs {
			g := e.defInst(d, kx, d.gates[j], d.li.kappa)
			n := e.defN(d, kx)
			r = m.And(r, m.Imp(g, m.AndN(e.inRange(kx, n), e.defInst(d, kx, d.pre, kx), e.defInst(d, kx, d.pcs[j], kx))))
		}
		return r
	}
	ends := map[*Term]*Term{}
	for _, lv := range d.li.vars {
		if lv.closed == nil && lv.exit != nil {
			ends[lv.mu] = lv.exit
		}
	}
	for i, x := range d.exits {
		if i >= len(d.gates) || x.trip != nil {
			continue
		}
		pc := m.And(d.li.entryPc, x.pc)
		if len(ends) > 0 {
			pc = e.substB(pc, ends, map[*Term]*Term{})
		}
		f := e.defInst(d, kx, pc, kx)
		if d.n != nil {
			f = m.And(f, e.inRange(kx, e.defN(d, kx)))
		}
		r = m.And(r, m.Imp(e.defInst(d, kx, d.gates[i], d.li.kappa), f))
	}
	return r
}

// hasBoundVar: a bound variable of a range occurs
func (e *Eng) hasBoundVar(t *Term) bool {
	return (&prover{e: e}).hasBound(t)
}

// mapEntry: a key of a map and its value, for every i below n
type mapEntry struct {
	pc       B
	key, val *Term
}

// entries lists what a map built here can hold.
func (t *tableRun) entries(m *Term, pc B, nm string) []mapEntry {
	e := t.e
	switch m.op {
	case "mapempty":
		return nil
	case "phi":
		var r []mapEntry
		for _, x := range e.leaves(m) {
			if g := e.bdd.And(pc, x.g); e.sat(g) {
				r = append(r, t.entries(x.t, g, nm)...)
			}
		}
		return r
	case "mapadd":
		if c := m.args[1]; c.op == "mapcomp" {
			i := t.pos(nm)
			g := e.bdd.And(pc, e.inRange(i, c.args[0]))
			x := mapEntry{g, e.instBound(c, c.args[1], i), e.instBound(c, c.args[2], i)}
			return append(t.entries(m.args[0], pc, nm+"'"), x)
		}
	case "mapstore":
		return append(t.entries(m.args[0], pc, nm+"'"), mapEntry{pc, m.args[1], m.args[2]})
	}
	panic(abort{"the entries of a map are not known: " + e.show(m)})
}

// built is the content of the map a result points to.
func (t *tableRun) built(x retRec, i int) *Term {
	e := t.e
	v := e.under(e.freeze(x.mem, x.vals[i]), x.pc)
	if v.op == "fptr" {
		v = e.under(v.args[0], x.pc)
	}
	if v.op == "fmap" {
		return t.unranged(e.under(v.args[0], x.pc), x.pc)
	}
	panic(abort{"what a result holds is not known: " + e.show(v)})
}

// unranged rewrites entries made in a loop over another map built from
// distinct keys: the loop meets every entry once.
func (t *tableRun) unranged(m *Term, pc B) *Term {
	e := t.e
	if m.op == "phi" {
		return e.lift(m, func(x *Term) *Term { return t.unranged(x, pc) })
	}
	if m.op != "mapadd" {
		return m
	}
	init, c := t.unranged(m.args[0], pc), m.args[1]
	if c.op == "mapcomp" && c.args[0].op == "mlen" {
		src := c.args[0].args[0]
		if src.op == "mapadd" && src.args[0].op == "mapempty" && src.args[1].op == "mapcomp" && t.distinct(src.args[1], pc) {
			k := e.sym("κU", types.Typ[types.Int])
			key, val := e.instBound(c, c.args[1], k), e.instBound(c, c.args[2], k)
			mk := e.mk("mapkey", "", nil, src, k)
			sc := src.args[1]
			h := e.instBound(sc, sc.args[1], k)
			v := e.instBound(sc, sc.args[2], k)
			for _, x := range []*Term{key, val} {
				var ks []*Term
				e.findOp(x, "mapkey", "", map[*Term]bool{}, &ks)
				for _, y := range ks {
					if y.args[0] == src && y.args[1] == k {
						mk = y
					}
				}
			}
			m1, m2 := map[*Term]*Term{}, map[*Term]*Term{mk: h}
			for _, x := range []*Term{key, val} {
				var gs []*Term
				e.findOp(x, "mget", "", map[*Term]bool{}, &gs)
				for _, g := range gs {
					if g.args[0] == src && g.args[1] == mk {
						m1[g] = v
					}
				}
			}
			re := func(x *Term) *Term {
				return e.subst(e.subst(x, m1, map[*Term]*Term{}), m2, map[*Term]*Term{})
			}
			return e.mapAdd(init, e.comp("mapcomp", sc.args[0], k, re(key), re(val)))
		}
	}
	return e.mk("mapadd", "", nil, init, c)
}

// distinct: no two of the keys are the same
func (t *tableRun) distinct(c *Term, pc B) bool {
	e := t.e
	i, j := t.pos("u"), t.pos("v")
	return e.refute(e.bdd.AndN(pc, e.inRange(i, c.args[0]), e.inRange(j, c.args[0]), e.bdd.Not(e.le0(e.sub(i, j))), e.eqElem(e.instBound(c, c.args[1], i), e.instBound(c, c.args[1], j))))
}

func checkC15(c *Check) {
	t := c.tableRun()
	if t == nil || !c.roleOK(t) {
		return
	}
	e := t.e
	m := e.bdd
	ri := c.cells(t, "rows", where(e, t.fn))
	if ri == nil {
		return
	}
	c.guarded("rows", t.loopAt(ri.loop), func() {
		c.rowKeys(t, ri, "rows")
		c.ranges(t, ri, "rows")
		for _, x := range t.rets {
			at := where(e, t.fn)
			i := t.pos("i")
			tb, nm := t.built(x, 0), t.built(x, 1)
			for _, y := range []struct {
				what string
				m    *Term
			}{{"table", tb}, {"naming map", nm}} {
				c.refuted(e, "rows", at, "the "+y.what+" has an entry for every rule", m.AndN(x.pc, e.inRange(i, t.n), m.Not(e.mapHas(y.m, i))))
				c.refuted(e, "rows", at, "the "+y.what+" has an entry only for positions of rules", m.AndN(x.pc, m.Not(e.inRange(i, t.n)), e.mapHas(y.m, i)))
			}
			for _, y := range t.entries(nm, x.pc, "e") {
				c.refuted(e, "names", at, "the naming map gives every position the head of the rule there", m.AndN(y.pc, e.inRange(y.key, t.n), m.Not(e.eqElem(y.val, t.head(y.key)))))
			}
		}
		c.rowValue(t, ri)
		c.ops(t, ri)
	})
}

// rowValue: the row that is added is the one the cells were written to
func (c *Check) rowValue(t *tableRun, ri *rowInfo) {
	e := t.e
	pc := t.goesOn(ri.loop)
	at := e.evPos(ri.outer)
	objs := map[*Object]bool{}
	for _, w := range ri.cells {
		for _, x := range e.leaves(w.ev.args[0]) {
			if x.t.op == "mref" {
				objs[x.t.obj] = true
				continue
			}
			c.refuted(e, "rows", w.at, "cells are written to a row made for the table: "+e.show(x.t), e.bdd.And(w.ev.pc, x.g))
		}
		fresh := false
		for _, lv := range w.loops[1].vars {
			if lv.obj != nil && objs[lv.obj] && lv.init != nil {
				fresh = e.under(lv.init, lv.loop.entryPc).op == "mapempty"
			}
		}
		c.ob("rows", w.at, "a row starts out without cells", fresh, "the row holds cells before its first alternative")
	}
	c.ob("rows", at, "the cells of a row are all written to one map", len(objs) == 1, fmt.Sprintf("%d maps", len(objs)))
	for _, x := range e.leaves(ri.outer.args[2]) {
		if x.t.op != "mref" || !objs[x.t.obj] {
			c.refuted(e, "rows", at, "the row added to the table is the one whose cells are written: "+e.show(x.t), e.bdd.AndN(pc, x.g))
		}
	}
	for _, ev := range e.events {
		if ev.kind == "mapdelete" {
			c.refuted(e, "rows", e.evPos(ev), "nothing is removed from a map", ev.pc)
		}
	}
}

// ops: the operations of a production
func (c *Check) ops(t *tableRun, ri *rowInfo) {
	e := t.e
	m := e.bdd
	mk := func(name string, arg *Term) *Term {
		fn := e.P.fn("pkg/parser", name)
		if fn == nil {
			panic(abort{"parser." + name + " not found"})
		}
		r := e.call(fn, []*Term{arg}, nil, True, newMem(), "op:"+name)
		return e.freeze(r.mem, r.vals[0])
	}
	for _, w := range ri.cells {
		if w.follow {
			continue
		}
		n := e.lenOf(t.syms(w.rule, w.alt))
		c.refuted(e, "ops", w.at, "a production has one operation per symbol", m.And(w.pc, m.Not(e.eq0(e.sub(e.lenOf(w.val), n)))))
		k := t.pos("k")
		S := t.symb(w.rule, w.alt, k)
		hyp := m.And(w.pc, e.inRange(k, n))
		ix, _ := t.idx(S)
		term := mk("OpTerminal", t.name(S, "SymbolTerminal"))
		nont := mk("OpNonTerminal", ix)
		for _, x := range e.atCases(w.val, k, hyp) {
			g := m.And(hyp, x.g)
			c.refuted(e, "ops", w.at, "the operation for a terminal is its string", m.AndN(g, t.is(S, "SymbolTerminal"), m.Not(e.eqElem(x.t, term))))
			c.refuted(e, "ops", w.at, "the operation for a non-terminal is the position of the rule with that head", m.AndN(g, t.is(S, "SymbolNonTerminal"), m.Not(e.eqElem(x.t, nont))))
		}
		c.refuted(e, "ops", w.at, "a production with operations has only terminals and non-terminals", m.AndN(e.opened(hyp), t.is(S, "SymbolNothing")))
	}
}
