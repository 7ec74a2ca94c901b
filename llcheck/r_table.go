package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Rules for the table generator, on the analysis of FromGrammar in stable
// mode: the fixpoint rounds are analysed for the contents a round starts with.

func init() {
	reg("C12", "gated value-flow analysis with fixpoint-round abstraction", checkC12)
	reg("C13", "gated value-flow analysis with fixpoint-round abstraction", checkC13)
	reg("C14", "gated value-flow analysis with fixpoint-round abstraction", checkC14)
}

// tableRun is the analysis of FromGrammar with the roles of what it computes.
type tableRun struct {
	r    *Run
	e    *Eng
	fn   *ssa.Function
	err  string
	succ B // a table is returned
	rets []retRec

	T            map[string]types.Type
	g, rules, n  *Term
	M            *Term
	F, G         *Term // the first and follow sets
	evF, evG     []*Event
	roundF, rndG *LoopInst
	roleErr      string
}

func (c *Check) tableRun() *tableRun {
	t := cached(c, "table", func() *tableRun { return newTableRun(c.P) })
	c.use(t.e)
	if t.err != "" {
		c.fail("analysis", "FromGrammar", "FromGrammar is analysed", t.err)
		return nil
	}
	return t
}

func newTableRun(p *Prog) *tableRun {
	e := newEng(p)
	e.initGlobals()
	e.setMode, e.stable = true, true
	t := &tableRun{e: e, fn: p.fn("pkg/bnf/tablegen", "FromGrammar"), T: map[string]types.Type{}}
	if t.fn == nil {
		t.err = "FromGrammar not found"
		return t
	}
	t.r = e.runFn(t.fn)
	if t.r.err != "" {
		t.err = t.r.err
		return t
	}
	t.err = guard(func() { t.setup() })
	return t
}

func (t *tableRun) setup() {
	e := t.e
	for _, x := range []string{"Grammar", "Rule", "Head", "Substitution", "Sequence", "SymbolTerminal", "SymbolNonTerminal", "SymbolNothing"} {
		T := e.P.namedType("pkg/bnf", x)
		if T == nil && x != "Head" {
			panic(abort{"type bnf." + x + " not found"})
		}
		t.T[x] = T
	}
	t.g = t.r.args[0]
	t.rules, _ = e.fld(t.g, t.T["Grammar"], "Rules")
	t.n = e.lenOf(t.rules)
	k := e.sym("κM", types.Typ[types.Int])
	t.M = e.mapAdd(e.mk("mapempty", "", nil), e.comp("mapcomp", t.n, k, t.head(k), k))
	for _, x := range t.r.res.rets {
		if len(x.vals) != 3 {
			panic(abort{"FromGrammar does not return three results"})
		}
		ok := e.bdd.And(x.pc, e.isNil(e.freeze(x.mem, x.vals[2])))
		if e.sat(ok) {
			x.pc = ok
			t.rets = append(t.rets, x)
			t.succ = e.bdd.Or(t.succ, ok)
		}
	}
	t.roleErr = guard(func() { t.roles() })
}

// roles finds the two arrays of sets and the loops that fill them.
func (t *tableRun) roles() {
	e := t.e
	by := map[*Term][]*Event{}
	var arrs []*Term
	for _, ev := range e.events {
		if ev.kind == "setstore" {
			a := ev.args[0]
			if by[a] == nil {
				arrs = append(arrs, a)
			}
			by[a] = append(by[a], ev)
		}
	}
	if len(arrs) != 2 {
		panic(abort{fmt.Sprintf("%d arrays of byte sets grow in rounds, two are expected: one of first sets and one of follow sets", len(arrs))})
	}
	uses := func(a, b *Term) bool {
		for _, ev := range by[a] {
			if e.mentions(ev.args[3], b) {
				return true
			}
		}
		return false
	}
	a, b := arrs[0], arrs[1]
	switch {
	case uses(a, b) && !uses(b, a):
		a, b = b, a
	case uses(b, a) && !uses(a, b):
	default:
		panic(abort{"neither array of byte sets is computed from the other one"})
	}
	t.F, t.G, t.evF, t.evG = a, b, by[a], by[b]
	round := func(evs []*Event, what string) *LoopInst {
		var r *LoopInst
		for _, ev := range evs {
			if len(ev.loops) == 0 {
				panic(abort{"the " + what + " sets are written outside of any loop at " + e.evPos(ev)})
			}
			if r != nil && r.key != ev.loops[0].key {
				panic(abort{"the " + what + " sets grow in more than one loop"})
			}
			r = ev.loops[0]
		}
		for _, li := range e.done {
			if li.key == r.key {
				return li
			}
		}
		panic(abort{"no summary of the loop over the " + what + " sets"})
	}
	t.roundF = round(t.evF, "first")
	t.rndG = round(t.evG, "follow")
}

// ---- the grammar

func (t *tableRun) rule(i *Term) *Term {
	r := t.e.index(t.rules, i)
	t.e.setTyp(r, t.T["Rule"])
	return r
}

func (t *tableRun) head(i *Term) *Term {
	h, hT := t.e.fld(t.rule(i), t.T["Rule"], "Head")
	nm, _ := t.e.fld(h, hT, "Name")
	return nm
}

func (t *tableRun) alts(i *Term) *Term {
	tl, tT := t.e.fld(t.rule(i), t.T["Rule"], "Tail")
	s, _ := t.e.fld(tl, tT, "Sequences")
	return s
}

func (t *tableRun) syms(i, a *Term) *Term {
	al := t.alts(i)
	sT := elemType(al.typ)
	s := t.e.index(al, a)
	t.e.setTyp(s, sT)
	x, _ := t.e.fld(s, sT, "Symbols")
	return x
}

func (t *tableRun) symb(i, a, j *Term) *Term {
	x := t.syms(i, a)
	s := t.e.index(x, j)
	t.e.setTyp(s, elemType(x.typ))
	return s
}

func (t *tableRun) is(s *Term, k string) B { return t.e.isType(s, t.T[k]) }

func (t *tableRun) name(s *Term, k string) *Term {
	n, _ := t.e.fld(t.e.unbox(s, t.T[k]), t.T[k], "Name")
	return n
}

// idx: the position of the rule a non-terminal stands for
func (t *tableRun) idx(s *Term) (*Term, B) {
	nm := t.name(s, "SymbolNonTerminal")
	return t.e.mapGet(t.M, nm, types.Typ[types.Int]), t.e.mapHas(t.M, nm)
}

func (t *tableRun) set(arr, i *Term) *Term { return t.e.setAtom(t.e.index(arr, i)) }

// nullSym: a symbol that can be empty
func (t *tableRun) nullSym(s *Term) B {
	i, has := t.idx(s)
	return t.e.bdd.AndN(t.is(s, "SymbolNonTerminal"), has, t.set(t.F, i).b)
}

// nullRun: the symbols from..from+n-1 of an alternative can be empty
func (t *tableRun) nullRun(i, a, from, n *Term) B {
	e := t.e
	k := e.sym("ιnull", types.Typ[types.Int])
	return e.bdd.Not(e.mkEx(n, k, e.bdd.Not(t.nullSym(t.symb(i, a, e.add(from, k))))))
}

// nullAlt: an alternative that can be empty
func (t *tableRun) nullAlt(i, a *Term) B {
	e := t.e
	n := e.lenOf(t.syms(i, a))
	k := e.sym("ιnothing", types.Typ[types.Int])
	return e.bdd.Or(e.mkEx(n, k, t.is(t.symb(i, a, k), "SymbolNothing")), t.nullRun(i, a, e.num(0), n))
}

// firstByte: the byte a terminal starts with
func (t *tableRun) firstByte(s *Term) *Term {
	return t.e.index(t.name(s, "SymbolTerminal"), t.e.num(0))
}

func (t *tableRun) pos(name string) *Term {
	x := t.e.sym("?"+name, types.Typ[types.Int])
	t.e.nonneg[x] = true
	return x
}

// part: a byte of the set is missing from the set at an element of an array
func (t *tableRun) lacks(arr, i *Term, part *Term) B {
	e := t.e
	return e.bdd.Not(e.sup1(e.supKey(t.set(arr, i)), part))
}

func (t *tableRun) nz(set *Term) *Term {
	return t.e.mk("nz", "", nil, set)
}

func (t *tableRun) single(s *Term) *Term {
	return t.e.mk("single", "", nil, t.firstByte(s))
}

// refuted records an obligation: f cannot hold
func (c *Check) refuted(e *Eng, rule, where, what string, f B) bool {
	dbgWhat = c.id + " " + where + " " + what
	// once something is known to be broken the rest is looked at less hard
	e.short = false
	for _, o := range c.obls {
		e.short = e.short || !o.OK
	}
	ok, why := e.refuteWhy(f)
	e.short = false
	return c.ob(rule, where, what, ok, why)
}

func (t *tableRun) loopAt(li *LoopInst) string {
	return t.e.P.pos(li.pos) + " (" + short(li.fn.RelString(nil)) + ")"
}

// roleOK reports that the sets and their loops are known.
func (c *Check) roleOK(t *tableRun) bool {
	return c.ob("roles", where(t.e, t.fn), "first and follow sets are each computed by one loop of rounds", t.roleErr == "", t.roleErr)
}

// ---- rounds

// changed: the condition under which a round adds something to an array
func (t *tableRun) changed(li *LoopInst, arr *Term) (B, *LoopVar, string) {
	e := t.e
	o := e.ghost(arr)
	for _, lv := range li.vars {
		if lv.obj == o {
			m := e.boolOf(lv.mu)
			sup := e.bdd.Support(m)
			if len(sup) != 1 || lv.next == nil || !e.isBoolTerm(lv.next) {
				return False, nil, "whether a round changes a set is not known"
			}
			return e.bdd.Cofactor(e.boolOf(lv.next), sup[0], false), lv, ""
		}
	}
	return False, nil, "no round of the loop changes a set"
}

// lastRound is a way for the rounds to end. What is known then follows from
// the round before if the loop is left before another one (head), and from
// the part of the round that was done otherwise.
type lastRound struct {
	ex      *LoopExit
	head    bool
	pc      B
	changed B // the part that was done changed a set
}

// lastRounds lists the ways for the rounds to end other than with an error.
func (t *tableRun) lastRounds(li *LoopInst, arr *Term, lv *LoopVar) []lastRound {
	e := t.e
	ends := map[*Term]*Term{}
	for _, v := range li.vars {
		if v.closed == nil && v.exit != nil {
			ends[v.mu] = v.exit
		}
	}
	d := e.loopDefs[li.key]
	var r []lastRound
	for i, ex := range li.exits {
		pc := e.substB(ex.pc, ends, map[*Term]*Term{})
		if e.refute(e.bdd.And(li.entryPc, pc)) {
			continue
		}
		now := e.content(ex.edge.mem, e.ghost(arr))
		if now == lv.exit || e.isBoolTerm(now) && e.boolOf(now) == e.boolOf(lv.mu) {
			r = append(r, lastRound{ex, true, pc, False})
			continue
		}
		if d != nil && len(d.gates) == len(li.exits) && e.refute(e.bdd.And(t.succ, d.gates[i])) {
			continue
		}
		if !e.isBoolTerm(now) {
			panic(abort{"whether the last round changes a set is not known"})
		}
		sup := e.bdd.Support(e.boolOf(lv.mu))
		r = append(r, lastRound{ex, false, ex.pc, e.bdd.Cofactor(e.boolOf(now), sup[0], false)})
	}
	return r
}

// quiet: what is known after the last round
func (t *tableRun) quiet(li *LoopInst, arr *Term) B {
	e := t.e
	P, lv, err := t.changed(li, arr)
	if err != "" {
		panic(abort{err})
	}
	r := False
	for _, x := range t.lastRounds(li, arr, lv) {
		if x.head {
			r = e.bdd.Or(r, e.bdd.And(li.backPc, e.bdd.Not(P)))
		} else {
			r = e.bdd.Or(r, e.bdd.And(x.pc, e.bdd.Not(x.changed)))
		}
	}
	r = e.bdd.And(li.entryPc, r)
	if e.refute(r) {
		panic(abort{"no round of the loop at " + t.loopAt(li) + " can be the last one"})
	}
	return r
}

func checkC14(c *Check) {
	t := c.tableRun()
	if t == nil || !c.roleOK(t) {
		return
	}
	c.setMethods()
	c.roundsOf(t, "first")
	c.roundsOf(t, "follow")
	e := t.e
	for _, x := range t.arrays() {
		P, _, err := t.changed(x.li, x.arr)
		if err != "" {
			continue
		}
		c.refuted(e, "termination", t.loopAt(x.li), "another round over the "+x.what+" sets follows only if one of them grew", e.bdd.AndN(x.li.entryPc, x.li.backPc, e.bdd.Not(e.le0(x.li.kappa)), e.bdd.Not(P)))
		for _, ev := range x.evs {
			old, nw := ev.args[2], ev.args[3]
			c.refuted(e, "termination", e.evPos(ev), "a write to a "+x.what+" set only adds to it", e.bdd.And(ev.pc, e.bdd.Not(e.setSup(nw, old))))
			for _, l := range ev.loops[1:] {
				l = t.doneLoop(l)
				c.ob("termination", t.loopAt(l), "a round is a loop nest over ranges", l != nil && l.trip != nil, "the number of iterations is not known")
			}
		}
	}
}

// setArray is one of the two arrays of sets, and the loop that fills it.
type setArray struct {
	what string
	li   *LoopInst
	arr  *Term
	evs  []*Event
}

func (t *tableRun) arrays() []setArray {
	return []setArray{{"first", t.roundF, t.F, t.evF}, {"follow", t.rndG, t.G, t.evG}}
}

// roundsOf: the rounds over one of the arrays end with one over all rules that
// changed nothing.
func (c *Check) roundsOf(t *tableRun, what string) {
	e := t.e
	for _, x := range t.arrays() {
		if x.what != what {
			continue
		}
		li := x.li
		at := t.loopAt(li)
		c.imp(e, "rounds", at, "the rounds over the "+x.what+" sets come before any table is returned", t.succ, li.entryPc)
		P, lv, err := t.changed(li, x.arr)
		if !c.ob("rounds", at, "it is known which rounds change a "+x.what+" set", err == "", err) {
			continue
		}
		left := 0
		if er := guard(func() {
			for _, y := range t.lastRounds(li, x.arr, lv) {
				left++
				bad := y.changed
				if y.head {
					bad = e.bdd.Or(P, e.le0(li.kappa))
				}
				c.refuted(e, "rounds", at, "the rounds over the "+x.what+" sets end only after a round that changed none of them", e.bdd.AndN(li.entryPc, y.pc, bad))
				full := e.bdd.And(y.pc, e.bdd.Not(y.changed))
				if y.head {
					full = e.bdd.And(li.backPc, e.bdd.Not(P))
				}
				c.fullRound(t, x.what, li, e.bdd.And(li.entryPc, full), x.evs)
			}
		}); er != "" {
			c.fail("rounds", at, "it is known how the rounds over the "+x.what+" sets end", er)
			continue
		}
		c.ob("rounds", at, "the rounds over the "+x.what+" sets end", left > 0, "no exit of the loop can be taken")
	}
}

// fullRound: a round that ends as described by pc has been over all rules
func (c *Check) fullRound(t *tableRun, what string, li *LoopInst, pc B, evs []*Event) {
	e := t.e
	seen := map[string]bool{}
	for _, ev := range evs {
		var in *LoopInst
		for i, l := range ev.loops {
			if l.key == li.key && i+1 < len(ev.loops) {
				in = t.doneLoop(ev.loops[i+1])
			}
		}
		if in == nil {
			c.fail("rounds", e.evPos(ev), "a write to a "+what+" set is made in a loop over the rules", "no loop found")
			continue
		}
		if seen[in.key] {
			continue
		}
		seen[in.key] = true
		c.refuted(e, "rounds", t.loopAt(in), "the last round over the "+what+" sets gets to the loop over the rules", e.bdd.And(pc, e.bdd.Not(in.entryPc)))
		c.ob("rounds", t.loopAt(in), "a round over the "+what+" sets is a loop over all rules", in.trip != nil && e.eqTerms(in.trip, t.n) == True, "it is a loop over "+e.show(in.trip))
		for _, x := range in.exits {
			if x.trip == nil {
				c.refuted(e, "rounds", t.loopAt(in), "the last round over the "+what+" sets does not end before it was over all rules", e.bdd.And(pc, x.gate))
			}
		}
	}
}

func (t *tableRun) doneLoop(l *LoopInst) *LoopInst {
	for _, d := range t.e.done {
		if d.key == l.key {
			return d
		}
	}
	return l
}

func (c *Check) guarded(rule, at string, f func()) {
	if m := guard(f); m != "" {
		c.fail(rule, at, "the rule applies", m)
	}
}

// ---- first sets

func checkC12(c *Check) {
	t := c.tableRun()
	if t == nil || !c.roleOK(t) {
		return
	}
	c.setMethods()
	c.roundsOf(t, "first")
	c.guarded("first", t.loopAt(t.roundF), func() { c.firstRules(t, true) })
	if ri := c.cells(t, "cells", where(t.e, t.fn)); ri != nil {
		c.guarded("cells", t.loopAt(ri.loop), func() {
			c.rowKeys(t, ri, "cells")
			c.ranges(t, ri, "cells")
			c.rowValue(t, ri)
			c.firstCells(t, ri, true, true)
		})
	}
}

func (c *Check) firstRules(t *tableRun, sound bool) {
	e := t.e
	m := e.bdd
	at := t.loopAt(t.roundF)
	q := t.quiet(t.roundF, t.F)
	r, a, j := t.pos("r"), t.pos("a"), t.pos("j")
	S := t.symb(r, a, j)
	in := m.AndN(e.inRange(r, t.n), e.inRange(a, e.lenOf(t.alts(r))))
	inj := m.And(in, e.inRange(j, e.lenOf(t.syms(r, a))))
	pre := t.nullRun(r, a, e.num(0), j)
	c.refuted(e, "complete", at, "the first set of a rule has the first byte of every terminal that follows symbols that can be empty",
		m.AndN(q, inj, pre, t.is(S, "SymbolTerminal"), t.lacks(t.F, r, t.single(S))))
	ix, _ := t.idx(S)
	c.refuted(e, "complete", at, "the first set of a rule has the first set of every non-terminal that follows symbols that can be empty",
		m.AndN(q, inj, pre, t.is(S, "SymbolNonTerminal"), t.lacks(t.F, r, t.nz(e.index(t.F, ix)))))
	c.refuted(e, "complete", at, "a rule with an alternative that can be empty can be empty",
		m.AndN(q, in, t.nullAlt(r, a), m.Not(t.set(t.F, r).b)))
	if !sound {
		return
	}
	for _, ev := range t.evF {
		c.justify(t, ev, "first", func(p *Term) B { return t.firstOf(ev.args[1], p) }, t.someAlt(ev.args[1], func(a *Term) B { return t.nullAlt(ev.args[1], a) }))
	}
	c.initial(t, t.roundF, t.F, "first", False)
}

// some: P holds for some index below n
func (t *tableRun) some(n *Term, nm string, P func(*Term) B) B {
	k := t.e.sym("ι"+nm, types.Typ[types.Int])
	return t.e.mkEx(n, k, P(k))
}

func (t *tableRun) someRule(P func(*Term) B) B { return t.some(t.n, "rule", P) }
func (t *tableRun) someAlt(r *Term, P func(*Term) B) B {
	return t.some(t.e.lenOf(t.alts(r)), "alt", P)
}
func (t *tableRun) someSym(r, a *Term, P func(*Term) B) B {
	return t.some(t.e.lenOf(t.syms(r, a)), "sym", P)
}

// startsWith: a part of a set is what the symbol at a position starts with
func (t *tableRun) startsWith(s, part *Term) B {
	e := t.e
	switch part.op {
	case "single":
		return e.bdd.And(t.is(s, "SymbolTerminal"), e.eqTerms(t.firstByte(s), part.args[0]))
	case "nz":
		x := part.args[0]
		if x.op == "index" && x.args[0] == t.F {
			ix, has := t.idx(s)
			return e.bdd.AndN(t.is(s, "SymbolNonTerminal"), has, e.eq0(e.sub(ix, x.args[1])))
		}
	}
	return False
}

// firstOf: a part belongs to the first set of a rule
func (t *tableRun) firstOf(r, part *Term) B {
	e := t.e
	if part.op == "nz" && part.args[0] == e.index(t.F, r) {
		return True
	}
	return t.someAlt(r, func(a *Term) B {
		return t.someSym(r, a, func(j *Term) B {
			return e.bdd.And(t.nullRun(r, a, e.num(0), j), t.startsWith(t.symb(r, a, j), part))
		})
	})
}

// justify: everything a write adds to a set belongs there
func (c *Check) justify(t *tableRun, ev *Event, what string, spec func(*Term) B, eos B) {
	e := t.e
	old, nw := ev.args[2], ev.args[3]
	at := e.evPos(ev)
	have := map[*Term]bool{}
	for i, p := range old.args {
		if old.bs[i] == True {
			have[p] = true
		}
	}
	for i, p := range nw.args {
		if have[p] {
			continue
		}
		for _, x := range t.flatten(p, e.bdd.And(ev.pc, nw.bs[i]), 0) {
			if x.t.op != "single" && x.t.op != "nz" {
				c.fail("sound", at, "what is added to a "+what+" set is known", "added: "+e.show(x.t))
				continue
			}
			c.refuted(e, "sound", at, "what is added to a "+what+" set belongs to it: "+e.show(x.t), e.bdd.And(x.g, e.bdd.Not(spec(x.t))))
		}
	}
	c.refuted(e, "sound", at, "a "+what+" set gets byte 0 only where it belongs", e.bdd.AndN(ev.pc, nw.b, e.bdd.Not(old.b), e.bdd.Not(eos)))
}

// flatten lists the parts of a union over ranges, each for one element.
func (t *tableRun) flatten(p *Term, g B, d int) []gv {
	e := t.e
	if p.op == "ucomp" && d < 8 {
		k := t.pos(fmt.Sprintf("skp%d", d))
		g = e.bdd.AndN(g, e.inRange(k, p.args[0]), e.boolOf(e.instBound(p, p.args[2], k)))
		return t.flatten(e.instBound(p, p.args[1], k), g, d+1)
	}
	if p.op == "nz" && (p.args[0].op == "set" || p.args[0].op == "phi") {
		s := e.setAtom(p.args[0])
		var r []gv
		for i, q := range s.args {
			r = append(r, t.flatten(q, e.bdd.And(g, s.bs[i]), d)...)
		}
		return r
	}
	return []gv{{g, p}}
}

// initial: what the sets hold before the first round
func (c *Check) initial(t *tableRun, li *LoopInst, arr *Term, what string, eos B) {
	e := t.e
	at := t.loopAt(li)
	for _, lv := range li.vars {
		if lv.closed != arr || lv.init == nil {
			continue
		}
		i := t.pos("i0")
		in := e.bdd.And(li.entryPc, e.inRange(i, t.n))
		c.refuted(e, "initial", at, "there is a "+what+" set for every rule", e.bdd.And(li.entryPc, e.bdd.Not(e.eq0(e.sub(e.lenOf(lv.init), t.n)))))
		for _, x := range e.atCases(lv.init, i, in) {
			s := e.setAtom(x.t)
			for k, p := range s.args {
				c.refuted(e, "initial", at, "the "+what+" sets hold no byte before the first round: "+e.show(p), e.bdd.AndN(in, x.g, s.bs[k]))
			}
			want := eos
			if eos == True {
				want = e.eq0(i)
			}
			c.refuted(e, "initial", at, "which "+what+" sets hold byte 0 before the first round", e.bdd.AndN(in, x.g, e.bdd.Xor(s.b, want)))
		}
		return
	}
	c.fail("initial", at, "the contents of the "+what+" sets before the first round are known", "no such variable of the loop")
}

// ---- follow sets

func checkC13(c *Check) {
	t := c.tableRun()
	if t == nil || !c.roleOK(t) {
		return
	}
	c.setMethods()
	c.roundsOf(t, "first")
	c.roundsOf(t, "follow")
	c.guarded("first", t.loopAt(t.roundF), func() { c.firstRules(t, true) })
	c.guarded("follow", t.loopAt(t.rndG), func() { c.followRules(t, true) })
	if ri := c.cells(t, "cells", where(t.e, t.fn)); ri != nil {
		c.guarded("cells", t.loopAt(ri.loop), func() {
			c.rowKeys(t, ri, "cells")
			c.ranges(t, ri, "cells")
			c.rowValue(t, ri)
			c.followCells(t, ri, true, true)
		})
	}
}

// occurs: the symbol at a position stands for rule r
func (t *tableRun) occurs(r, A, a, p *Term) B {
	s := t.symb(A, a, p)
	return t.e.bdd.And(t.is(s, "SymbolNonTerminal"), t.e.eqTerms(t.head(r), t.name(s, "SymbolNonTerminal")))
}

func (c *Check) followRules(t *tableRun, sound bool) {
	e := t.e
	m := e.bdd
	at := t.loopAt(t.rndG)
	q := t.quiet(t.rndG, t.G)
	r, A, a, p, d := t.pos("r"), t.pos("A"), t.pos("a"), t.pos("p"), t.pos("d")
	n := e.lenOf(t.syms(A, a))
	occ := m.AndN(q, e.inRange(r, t.n), e.inRange(A, t.n), e.inRange(a, e.lenOf(t.alts(A))), e.inRange(p, n), t.occurs(r, A, a, p))
	p1 := e.addc(p, 1)
	S := t.symb(A, a, e.add(p1, d))
	next := m.AndN(occ, e.inRange(e.add(p1, d), n), t.nullRun(A, a, p1, d))
	c.refuted(e, "complete", at, "the follow set of a rule has the first byte of every terminal that follows an occurrence of the rule and symbols that can be empty",
		m.AndN(next, t.is(S, "SymbolTerminal"), t.lacks(t.G, r, t.single(S))))
	ix, _ := t.idx(S)
	c.refuted(e, "complete", at, "the follow set of a rule has the first set of every non-terminal that follows an occurrence of the rule and symbols that can be empty",
		m.AndN(next, t.is(S, "SymbolNonTerminal"), t.lacks(t.G, r, t.nz(e.index(t.F, ix)))))
	last := m.And(occ, t.nullRun(A, a, p1, e.sub(n, p1)))
	c.refuted(e, "complete", at, "the follow set of a rule has all that follows a rule an alternative of which can end in it",
		m.AndN(last, t.lacks(t.G, r, t.nz(e.index(t.G, A)))))
	c.refuted(e, "complete", at, "a rule is followed by the end of input if it can end an alternative of a rule that is",
		m.AndN(last, t.set(t.G, A).b, m.Not(t.set(t.G, r).b)))
	if !sound {
		return
	}
	for _, ev := range t.evG {
		x := ev.args[1]
		c.justify(t, ev, "follow", func(part *Term) B { return t.followOf(x, part) }, t.endsIn(x, func(A *Term) B { return t.set(t.G, A).b }))
	}
	c.initial(t, t.rndG, t.G, "follow", True)
}

// endsIn: a rule A with an alternative that can end in r, and P(A)
func (t *tableRun) endsIn(r *Term, P func(*Term) B) B {
	e := t.e
	return t.someRule(func(A *Term) B {
		return e.bdd.And(P(A), t.someAlt(A, func(a *Term) B {
			return t.someSym(A, a, func(p *Term) B {
				p1 := e.addc(p, 1)
				return e.bdd.And(t.occurs(r, A, a, p), t.nullRun(A, a, p1, e.sub(e.lenOf(t.syms(A, a)), p1)))
			})
		}))
	})
}

func (t *tableRun) followOf(r, part *Term) B {
	e := t.e
	if part.op == "nz" && part.args[0].op == "index" && part.args[0].args[0] == t.G {
		i := part.args[0].args[1]
		return e.bdd.Or(e.eq0(e.sub(i, r)), t.endsIn(r, func(A *Term) B { return e.eq0(e.sub(A, i)) }))
	}
	return t.someRule(func(A *Term) B {
		return t.someAlt(A, func(a *Term) B {
			return t.someSym(A, a, func(p *Term) B {
				p1 := e.addc(p, 1)
				k := e.sub(e.lenOf(t.syms(A, a)), p1)
				return e.bdd.And(t.occurs(r, A, a, p), t.some(k, "after", func(d *Term) B {
					return e.bdd.And(t.nullRun(A, a, p1, d), t.startsWith(t.symb(A, a, e.add(p1, d)), part))
				}))
			})
		})
	})
}

var _ = sort.Ints
