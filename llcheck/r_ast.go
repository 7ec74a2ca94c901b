package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Rules for fromcst: ToAST is a nest of searches of the tree, each a fold over
// the nodes Walk visits. Every fold is summarised by its transfer function;
// the rules say what each of them collects or finds first.

func init() {
	reg("C17", "gated value-flow analysis of results and errors", checkC17)
	reg("C27", "gated value-flow analysis of the tree folds", checkC27)
	reg("C28", "ownership and effect analysis of ToAST", checkC28)
	reg("C29", "dependence analysis of node types in ToAST", checkC29)
}

type astRun struct {
	e     *Eng
	r     *Run
	fn    *ssa.Function
	T     types.Type // of the bindings
	b     *Term
	root  *Term
	str   *Term
	at    string
	c     *Check
	want  map[string]bool // kinds of obligations reported
	roles map[*LoopInst]string
	err   string
}

func (c *Check) astRun(kinds ...string) *astRun {
	a := cached(c, "ast", func() *astRun { return newAstRun(c.P) })
	c.use(a.e)
	if a.err != "" {
		c.fail("analysis", "ToAST", "ToAST is analysed", a.err)
		return nil
	}
	x := *a
	x.c = c
	x.want = map[string]bool{}
	x.roles = map[*LoopInst]string{}
	for _, k := range kinds {
		x.want[k] = true
	}
	return &x
}

func newAstRun(p *Prog) *astRun {
	e := newEng(p)
	e.initGlobals()
	a := &astRun{e: e, fn: p.method("pkg/bnf/fromcst", "BNFCSTtoASTBindings", "ToAST"), T: p.namedType("pkg/bnf/fromcst", "BNFCSTtoASTBindings")}
	if a.fn == nil || a.T == nil {
		a.err = "BNFCSTtoASTBindings.ToAST not found"
		return a
	}
	a.at = where(e, a.fn)
	a.r = e.runFn(a.fn)
	a.err = a.r.err
	if a.err == "" && (len(a.r.args) != 3 || fieldNamed(a.T, "RuleType") < 0) {
		a.err = "ToAST takes other arguments than a tree and a text"
	}
	if a.err == "" {
		a.b, a.root, a.str = a.r.args[0], a.r.args[1], a.r.args[2]
	}
	return a
}

// ob reports an obligation of one of the kinds the property is about.
func (a *astRun) ob(kind, at, what string, ok bool, detail string) bool {
	if a.want[kind] {
		a.c.ob(kind, at, what, ok, detail)
	}
	return ok
}

func (a *astRun) imp(kind, at, what string, pc, cond B) bool {
	if !a.want[kind] {
		return true
	}
	return a.c.imp(a.e, kind, at, what, pc, cond)
}

func (a *astRun) never(kind, at, what string, pc B) bool { return a.imp(kind, at, what, pc, False) }

func (a *astRun) field(name string) *Term {
	t, _ := a.e.fld(a.b, a.T, name)
	return t
}

func (a *astRun) inv(x *Term, m string) *Term {
	return a.e.mk("call", "invoke."+m, types.Typ[types.Int], x)
}

func (a *astRun) typeIs(x *Term, field string) B { return a.e.eqElem(a.field(field), a.inv(x, "Type")) }

func (a *astRun) ignored(x *Term) B { return a.e.member(a.field("IgnoreNodeTypes"), a.inv(x, "Type")) }

func (a *astRun) text(x *Term) *Term { return a.e.slice(a.str, a.inv(x, "Pos"), a.inv(x, "End")) }

// facts adds what is known about the exits of the loops f depends on, and that
// an error is none of those made elsewhere.
func (e *Eng) facts(f B) B {
	r := f
	for _, v := range e.supportClosure(f) {
		if g, ok := e.attached[v]; ok {
			r = e.bdd.And(r, g)
		}
		q := e.atoms[v]
		if q.op != "eq" || len(q.args) != 2 {
			continue
		}
		x, y := q.args[0], q.args[1]
		if x.op != "err" {
			x, y = y, x
		}
		if x.op != "err" {
			continue
		}
		if o := (map[string]bool{}); e.errOrigins(y, o, map[*Term]bool{}) && !o[x.k] {
			r = e.bdd.And(r, e.bdd.Not(e.bdd.Var(v)))
		}
	}
	return r
}

// errOrigins collects the places at which an error value can have been made;
// false if that is not known.
func (e *Eng) errOrigins(t *Term, out map[string]bool, seen map[*Term]bool) bool {
	if seen[t] {
		return true
	}
	seen[t] = true
	switch t.op {
	case "err":
		out[t.k] = true
		return true
	case "nil":
		return true
	case "phi":
		for _, x := range t.args {
			if !e.errOrigins(x, out, seen) {
				return false
			}
		}
		return true
	case "mu":
		for _, li := range e.done {
			for _, lv := range li.vars {
				if lv.mu == t || lv.exit == t {
					return lv.next != nil && e.errOrigins(lv.init, out, seen) && e.errOrigins(lv.next, out, seen)
				}
			}
		}
	}
	return false
}

// loopOf finds the search whose outcome a value is.
func (a *astRun) loopOf(v *Term) *LoopInst {
	var r *LoopInst
	for _, li := range a.e.done {
		if li.kind != "walk" {
			continue
		}
		for _, lv := range li.vars {
			if a.e.mentions(v, lv.mu) {
				if r != nil && r != li {
					return nil
				}
				r = li
			}
		}
	}
	return r
}

// own drops from a condition how the search was left: the facts about that,
// which are in f, are about the outcome of the search, which is what changes
// from node to node.
func (a *astRun) own(f B, li *LoopInst) B {
	e := a.e
	for _, v := range e.bdd.Support(f) {
		g, ok := e.attached[v]
		if q := e.atoms[v]; !ok || q.op != "ex" && q.op != "exit" {
			continue
		}
		for _, lv := range li.vars {
			if e.mentionsB(g, lv.mu) {
				f = e.bdd.Exists(f, v)
				break
			}
		}
	}
	return f
}

// step gives a value and a condition before the first node and after one more.
type walkStep struct {
	a      *astRun
	li     *LoopInst
	at     string
	x      *Term
	entry  B
	toNext map[*Term]*Term
	toInit map[*Term]*Term
}

func (a *astRun) stepOf(li *LoopInst) *walkStep {
	s := &walkStep{a: a, li: li, at: a.e.P.pos(li.pos), x: li.node, entry: li.entryPc, toNext: map[*Term]*Term{}, toInit: map[*Term]*Term{}}
	for _, lv := range li.vars {
		if lv.closed == nil && lv.next != nil {
			s.toNext[lv.mu] = lv.next
			s.toInit[lv.mu] = lv.init
			if lv.exit != nil && a.e.isBoolTerm(lv.exit) {
				// a flag for what was seen so far
				s.entry = a.e.bdd.And(s.entry, a.e.bdd.Not(a.e.bdd.Xor(a.e.boolOf(lv.mu), a.e.boolOf(lv.exit))))
			}
		}
	}
	// what is known of the nodes seen so far
	s.toNext[li.kappa] = a.e.addc(li.kappa, 1)
	s.toInit[li.kappa] = a.e.num(0)
	return s
}

func (s *walkStep) next(t *Term) *Term {
	s.a.e.unroll = s.li.kappa
	defer func() { s.a.e.unroll = nil }()
	return s.a.e.subst(t, s.toNext, map[*Term]*Term{})
}
func (s *walkStep) init(t *Term) *Term { return s.a.e.subst(t, s.toInit, map[*Term]*Term{}) }
func (s *walkStep) nextB(f B) B {
	s.a.e.unroll = s.li.kappa
	defer func() { s.a.e.unroll = nil }()
	return s.a.e.substB(f, s.toNext, map[*Term]*Term{})
}
func (s *walkStep) initB(f B) B { return s.a.e.substB(f, s.toInit, map[*Term]*Term{}) }

// goes: the condition that nothing was found yet and nothing failed
func (s *walkStep) goes(A, skip, hit B) (B, string) {
	e := s.a.e
	m := e.bdd
	var cands []B
	for _, lv := range s.li.vars {
		for _, t := range []*Term{lv.closed, lv.exit} {
			if t != nil && e.isBoolTerm(t) {
				cands = append(cands, e.boolOf(t), m.Not(e.boolOf(t)))
			}
		}
		if lv.closed != nil || lv.next == nil || lv.typ == nil {
			continue
		}
		if types.IsInterface(lv.typ) || isPtrType(lv.typ) {
			cands = append(cands, e.isNil(lv.mu))
		}
		if b, ok := lv.typ.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			cands = append(cands, e.boolOf(lv.mu), m.Not(e.boolOf(lv.mu)))
		}
	}
	n := len(cands)
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			cands = append(cands, m.And(cands[i], cands[j]))
		}
	}
	why := "no variable says whether the search goes on"
	for _, G := range cands {
		G1 := s.nextB(G)
		switch {
		case !e.implies(s.entry, s.initB(G)):
			why = "the search does not start anew"
		case e.sat(m.AndN(s.entry, G, A)):
			why = "it can count as found before anything was"
		case e.sat(m.AndN(s.entry, G, m.Or(skip, m.Not(hit)), m.Not(G1))):
			why = "the search can end at another node"
		case e.sat(m.AndN(s.entry, G, m.Not(skip), hit, G1)):
			why = "the search goes on after the first node of the type, so a later one counts"
		case e.sat(m.AndN(s.entry, m.Not(G), G1)):
			why = "the search starts again after it ended"
		default:
			return G, ""
		}
	}
	return False, why
}

// first: v is, where A holds, what val demands for the first visited node
// with the type; A fails if there is none.
func (a *astRun) first(what string, v *Term, A B, root *Term, hitOf func(x *Term) B, ignore bool, val func(x, v *Term, pc B)) (G B, li *LoopInst) {
	e, m := a.e, a.e.bdd
	A = e.facts(A)
	li = a.loopOf(v)
	if li == nil {
		if !e.sat(A) {
			return False, nil
		}
		a.ob("structure", a.at, what+" is found by a search of the tree", false, "it is "+e.show(v))
		a.ob("errors", a.at, what+" is found by a search of the tree", false, "it is "+e.show(v))
		return False, nil
	}
	if li.root != root && li.root.op == "mu" && a.loopOf(li.root) != nil && a.loopOf(li.root) != li {
		// found first, and looked into afterwards
		A = m.And(A, li.entryPc)
		node := li.root
		G, li = a.first(what, node, A, root, hitOf, ignore, func(x, v *Term, pc B) {
			a.is("structure", a.at, what+" is what was searched for", v, x, pc)
		})
		if li != nil && val != nil {
			val(node, v, A)
		}
		return G, li
	}
	s := a.stepOf(li)
	a.roles[li] = what
	A = a.own(m.And(A, li.entryPc), li)
	a.ob("structure", s.at, what+" is searched below the right node", li.root == root, "below "+e.show(li.root))
	x := s.x
	hit, skip := hitOf(x), False
	if ignore {
		skip = a.ignored(x)
	}
	A1, v1 := s.nextB(A), s.next(v)
	a.never("errors", s.at, "a missing node makes ToAST fail: "+what, m.And(s.entry, s.initB(A)))
	G, why := s.goes(A, skip, hit)
	a.ob("structure", s.at, what+" is the first node of its type", why == "", why)
	if why != "" {
		a.ob("errors", s.at, "a missing node makes ToAST fail: "+what, why == "", why)
		a.ob("ignored", s.at, "ignored nodes are not taken for "+what, why == "", why)
		return False, li
	}
	a.never("errors", s.at, "a missing node makes ToAST fail: "+what, m.AndN(s.entry, G, m.Or(skip, m.Not(hit)), A1))
	a.never("errors", s.at, "a failure is not forgotten: "+what, m.AndN(s.entry, m.Not(G), A1, m.Not(A)))
	late := m.AndN(s.entry, m.Not(G), A1)
	if a.want["structure"] && e.sat(late) {
		ok, d := e.sameVal(v1, v, late)
		a.ob("structure", s.at, "later nodes change nothing about "+what, ok, d)
	}
	a.prune(s, what, m.And(s.entry, G), skip, hit)
	if val != nil {
		pc := m.AndN(s.entry, G, m.Not(skip), hit, A1)
		val(x, e.deep(v1, pc), pc)
	}
	return G, li
}

// prune: below which nodes the search goes on
func (a *astRun) prune(s *walkStep, what string, pc, skip, hit B) {
	e, m := a.e, a.e.bdd
	nores := e.isNil(s.li.result)
	if s.li.result.op == "nil" {
		nores = True
	}
	a.imp("ignored", s.at, "nothing below an ignored node is searched for "+what, m.And(pc, skip), nores)
	a.never("structure", s.at, "the search for "+what+" goes down everywhere else", m.AndN(pc, m.Not(skip), m.Not(hit), nores))
}

// sameVal: the same value under a condition
func (e *Eng) sameVal(x, y *Term, pc B) (bool, string) {
	for _, l := range e.leaves(e.deep(x, pc)) {
		g := e.bdd.And(pc, l.g)
		if !e.sat(g) {
			continue
		}
		for _, k := range e.leaves(e.deep(y, g)) {
			h := e.bdd.And(g, k.g)
			if l.t != k.t && e.sat(h) && e.sat(e.bdd.And(h, e.bdd.Not(e.eqAny(l.t, k.t)))) {
				return false, e.show(l.t) + " instead of " + e.show(k.t)
			}
		}
	}
	return true, ""
}

// eqAny: equality where it is defined for the terms
func (e *Eng) eqAny(x, y *Term) B {
	if x == y {
		return True
	}
	r := False
	guard(func() { r = e.eqTerms(x, y) })
	return r
}

// overNodes: v has one element for each of a list of nodes that li collects.
// The loop that makes it, and what it adds for the node at its index.
func (a *astRun) overNodes(v *Term, li *LoopInst) (nodes, body *Term, f *LoopInst) {
	e := a.e
	if v.op != "list" || len(v.args) != 1 || v.args[0].op != "comp" || len(v.args[0].args) != 2 {
		return nil, nil, nil
	}
	c := v.args[0]
	for _, lv := range li.vars {
		if _, ok := lv.typ.Underlying().(*types.Slice); !ok || e.lenOf(lv.mu) != c.args[0] {
			continue
		}
		for _, d := range e.done {
			if d.kind != "for" || d.trip != c.args[0] {
				continue
			}
			b := e.instBound(c, c.args[1], d.kappa)
			for _, x := range d.vars {
				if x.next != nil && x.next.op == "list" && len(x.next.args) == 2 && x.next.args[1] == e.mk("elem", "", nil, b) {
					return lv.mu, b, d
				}
			}
		}
	}
	return nil, nil, nil
}

// collect: v is, where A holds, the list of what elem demands for each visited
// node with the type, in order.
func (a *astRun) collect(what string, v *Term, A B, root *Term, hitOf func(x *Term) B, ignore bool, empty func(v *Term) B, elem func(x, old, new *Term, pc B)) {
	e, m := a.e, a.e.bdd
	A = e.facts(A)
	li := a.loopOf(v)
	if li == nil {
		if e.sat(A) {
			a.ob("structure", a.at, what+" are collected by a search of the tree", false, "they are "+e.show(v))
			a.ob("errors", a.at, what+" are collected by a search of the tree", false, "they are "+e.show(v))
		}
		return
	}
	if nodes, body, f := a.overNodes(v, li); f != nil {
		// the nodes are collected first, and looked into one after the other
		A = m.And(A, f.entryPc)
		at := e.P.pos(f.pos)
		a.imp("structure", at, what+": none are there before the first", A, empty(e.mk("nilslice", "", nil)))
		for _, ex := range f.exits {
			if ex.trip == nil {
				a.never("errors", at, "a failure is not forgotten: "+what, m.AndN(A, ex.gate, ex.pc))
			}
		}
		a.collect("the nodes of "+what, nodes, A, root, hitOf, ignore, a.noElems, func(x, old, new *Term, pc B) {
			a.appended("the nodes of "+what, x, old, new, pc, func(y *Term, pc B) {
				a.is("structure", a.at, "a node of "+what+" is what was searched for", y, x, pc)
			})
		})
		old := e.sym("old:"+what, v.typ)
		x := e.index(nodes, f.kappa)
		elem(x, old, e.list(e.mk("all", "", nil, old), e.mk("elem", "", nil, body)), m.And(f.entryPc, f.backPc))
		return
	}
	s := a.stepOf(li)
	a.roles[li] = what
	A = a.own(m.And(A, li.entryPc), li)
	a.ob("structure", s.at, what+" are searched below the right node", li.root == root, "below "+e.show(li.root))
	x := s.x
	hit, skip := hitOf(x), False
	if ignore {
		skip = a.ignored(x)
	}
	A1, v1 := s.nextB(A), s.next(v)
	pc0 := m.And(s.entry, s.initB(A))
	a.imp("structure", s.at, what+": none are there before the first", pc0, empty(e.deep(s.init(v), pc0)))
	a.never("errors", s.at, "a failure is not forgotten: "+what, m.AndN(s.entry, A1, m.Not(A)))
	both := m.AndN(s.entry, A, A1)
	for _, k := range []struct {
		kind, what string
		f          B
	}{{"ignored", "ignored nodes add nothing to " + what, skip}, {"structure", "other nodes add nothing to " + what, m.AndN(m.Not(skip), m.Not(hit))}} {
		pc := m.And(both, k.f)
		if !a.want[k.kind] || !e.sat(pc) {
			continue
		}
		ok, d := e.sameVal(v1, v, pc)
		a.ob(k.kind, s.at, k.what, ok, d)
	}
	a.prune(s, what, both, skip, hit)
	if li.result.op != "nil" {
		a.imp("structure", s.at, "nothing below one of "+what+" is searched for another", m.AndN(both, hit), e.isNil(li.result))
	}
	pc := m.AndN(both, m.Not(skip), hit)
	if a.ob("structure", s.at, what+" can be collected", e.sat(pc), "no node is taken for one") {
		elem(x, v, e.deep(v1, pc), pc)
	}
}

// appended takes a list that is another one and one element more apart.
func (a *astRun) appended(what string, x, old, new *Term, pc B, f func(y *Term, pc B)) {
	e := a.e
	at := a.e.P.pos(a.r.e.done[0].pos)
	if li := a.loopOf(old); li != nil {
		at = e.P.pos(li.pos)
	}
	n := 0
	for _, l := range e.leaves(new) {
		g := e.bdd.And(pc, l.g)
		if !e.sat(g) {
			continue
		}
		n++
		segs := e.segs(l.t)
		ok := len(segs) == 2 && segs[0].op == "all" && segs[0].args[0] == old && segs[1].op == "elem"
		if li := a.loopOf(old); !ok && li != nil {
			for _, lv := range li.vars {
				if lv.next != nil && isErrorType(lv.mu.typ) {
					a.never("errors", at, "a node of which nothing becomes part of "+what+" makes ToAST fail", e.bdd.And(g, e.bdd.Not(e.isNil(e.deep(lv.next, g)))))
				}
			}
		}
		if a.ob("structure", at, "each node adds exactly one to "+what+", at the end", ok, "the list becomes "+e.show(l.t)) {
			f(segs[1].args[0], g)
		}
	}
	a.ob("structure", at, "each node adds one to "+what, n > 0, "")
}

func (a *astRun) noElems(v *Term) B { return a.e.le0(a.e.lenOf(v)) }

// structure goes through the searches from the grammar returned inwards.
func (a *astRun) structure() {
	e, m := a.e, a.e.bdd
	G := e.P.namedType("pkg/bnf", "Grammar")
	R := e.P.namedType("pkg/bnf", "Rule")
	S := e.P.namedType("pkg/bnf", "Sequence")
	if G == nil || R == nil || S == nil {
		panic(abort{"the types of a grammar are not found"})
	}
	n := 0
	for _, x := range a.r.res.rets {
		if len(x.vals) != 2 {
			panic(abort{"ToAST does not return two results"})
		}
		A := m.And(x.pc, e.isNil(e.freeze(x.mem, x.vals[1])))
		if !e.sat(A) {
			continue
		}
		at := e.P.pos(x.pos)
		for _, l := range e.leaves(e.deep(e.freeze(x.mem, x.vals[0]), A)) {
			A := m.And(A, l.g)
			if !e.sat(A) {
				continue
			}
			if !a.ob("structure", at, "the grammar returned was made in this call", l.t.op == "fptr", "it is "+e.show(l.t)) {
				continue
			}
			n++
			rules, _ := e.fld(l.t.args[0], G, "Rules")
			a.collect("the rules", rules, A, a.root, func(x *Term) B { return a.typeIs(x, "RuleType") }, true, a.noElems, func(x, old, new *Term, pc B) {
				a.appended("the rules", x, old, new, pc, func(y *Term, pc B) { a.rule(R, S, x, y, pc) })
			})
		}
	}
	a.ob("structure", a.at, "ToAST can succeed", n > 0, "")
}

func (a *astRun) is(kind, at, what string, got, want *Term, pc B) {
	if !a.want[kind] {
		return
	}
	ok, d := a.e.sameVal(got, want, pc)
	a.ob(kind, at, what, ok, d)
}

func (a *astRun) rule(R, S types.Type, x, y *Term, pc B) {
	e := a.e
	h, ht := e.fld(y, R, "Head")
	name, _ := e.fld(h, ht, "Name")
	tl, tt := e.fld(y, R, "Tail")
	seqs, _ := e.fld(tl, tt, "Sequences")
	type has = func(x *Term) B
	of := func(f string) has { return func(x *Term) B { return a.typeIs(x, f) } }
	a.each(name, pc, func(name *Term, pc B) {
		a.first("the head", name, pc, x, of("RuleHeadType"), true, func(x, v *Term, pc B) {
			a.is("structure", a.at, "the name of a rule is exactly the text of its head", v, a.text(x), pc)
		})
	})
	a.each(seqs, pc, func(seqs *Term, pc B) {
		a.first("the tail", seqs, pc, x, of("RuleTailType"), true, func(x, v *Term, pc B) {
			a.each(v, pc, func(v *Term, pc B) {
				a.collect("the alternatives", v, pc, x, of("ExpressionSequencesType"), true, a.noElems, func(x, old, new *Term, pc B) {
					a.appended("the alternatives", x, old, new, pc, func(y *Term, pc B) {
						syms, _ := e.fld(y, S, "Symbols")
						a.collect("the symbols", syms, pc, x, of("SequencesSymbolType"), true, a.noElems, func(x, old, new *Term, pc B) {
							a.appended("the symbols", x, old, new, pc, func(y *Term, pc B) { a.symbol(x, y, pc) })
						})
					})
				})
			})
		})
	})
}

func (a *astRun) each(t *Term, pc B, f func(t *Term, pc B)) {
	pc = a.e.facts(pc)
	for _, l := range a.e.leaves(a.e.deep(t, pc)) {
		if g := a.e.bdd.And(pc, l.g); a.e.sat(g) {
			f(l.t, g)
		}
	}
}

func (a *astRun) symbol(x, y *Term, pc B) {
	e, m := a.e, a.e.bdd
	lits := a.field("SymbolTerminalTypes")
	var lit, non []gv
	for _, l := range e.leaves(y) {
		g := m.And(pc, l.g)
		if !e.sat(g) {
			continue
		}
		li := a.loopOf(l.t)
		if li == nil {
			a.ob("structure", a.at, "a symbol is found by a search of the tree", false, "it is "+e.show(l.t))
			a.ob("errors", a.at, "a symbol node with neither literal nor name makes ToAST fail", false, "the symbol is "+e.show(l.t))
			continue
		}
		k := false
		for _, lv := range li.vars {
			k = k || lv.next != nil && e.mentions(e.boolTermsOf(lv.next), lits)
		}
		if k {
			lit = append(lit, gv{g, l.t})
		} else {
			non = append(non, gv{g, l.t})
		}
	}
	a.ob("structure", a.at, "a symbol can be a literal", len(lit) > 0, "no search for the types of literals")
	a.ob("structure", a.at, "a symbol can be a non-terminal", len(non) > 0, "no search for the type of names")
	type src struct {
		G  B
		li *LoopInst
		f  *LoopInst
	}
	var found []src
	for _, l := range lit {
		li := a.loopOf(l.t)
		var f *LoopInst
		if n := len(li.outer); n > 0 && li.outer[n-1].kind == "for" {
			f = a.doneLoop(li.outer[n-1])
			if f.trip != nil && a.loopOf(f.trip) != nil {
				f = nil // a loop over nodes
			}
		}
		hit := func(x *Term) B { return e.member(lits, a.inv(x, "Type")) }
		if f != nil {
			hit = func(x *Term) B { return e.eqElem(e.index(lits, f.kappa), a.inv(x, "Type")) }
		}
		G, li := a.first("a literal", l.t, l.g, x, hit, true, a.literal)
		if li != nil {
			found = append(found, src{G, li, f})
		}
	}
	for _, l := range non {
		a.first("a non-terminal's name", l.t, l.g, x, func(x *Term) B { return a.typeIs(x, "SymbolNonTerminalType") }, true, func(x, v *Term, pc B) {
			N := e.P.namedType("pkg/bnf", "SymbolNonTerminal")
			a.each(v, pc, func(v *Term, pc B) {
				ok := v.op == "iface" && types.Identical(v.aux.(types.Type), N)
				if a.ob("structure", a.at, "a name becomes a non-terminal", ok, "it becomes "+e.show(v)) {
					nm, _ := e.fld(v.args[0], N, "Name")
					a.is("structure", a.at, "the name of a non-terminal is exactly the text of its node", nm, a.text(x), pc)
				}
			})
		})
		// only if there is no literal
		for _, s := range found {
			at := e.P.pos(s.li.pos)
			if s.f == nil {
				a.imp("structure", at, "a symbol with a literal becomes a terminal", e.facts(l.g), s.G)
				continue
			}
			f := s.f
			a.ob("structure", at, "all types of literals are searched for", f.trip != nil && f.trip == e.lenOf(lits), "the loop is not over all of them")
			a.imp("structure", at, "the next type of literals is searched for only if there is none of this type", m.And(f.entryPc, f.backPc), s.G)
			for _, ex := range f.exits {
				if ex.trip == nil {
					a.imp("structure", at, "a symbol with a literal becomes a terminal", m.AndN(l.g, ex.gate, ex.pc), s.G)
				}
			}
		}
	}
}

// boolTermsOf collects the conditions in a value into one term.
func (e *Eng) boolTermsOf(t *Term) *Term {
	var xs []*Term
	for _, l := range e.leaves(t) {
		xs = append(xs, e.boolTerm(l.g), l.t)
	}
	return e.mk("tuple", "", nil, xs...)
}

func (a *astRun) doneLoop(l *LoopInst) *LoopInst {
	for _, d := range a.e.done {
		if d.key == l.key {
			return d
		}
	}
	return l
}

// literal: the node x becomes a terminal with its text, or an empty string
func (a *astRun) literal(x, v *Term, pc B) {
	e, m := a.e, a.e.bdd
	T := e.P.namedType("pkg/bnf", "SymbolTerminal")
	N := e.P.namedType("pkg/bnf", "SymbolNothing")
	var name *Term
	term, none := False, False
	a.each(v, pc, func(v *Term, pc B) {
		switch {
		case v.op == "iface" && types.Identical(v.aux.(types.Type), T):
			nm, _ := e.fld(v.args[0], T, "Name")
			a.ob("structure", a.at, "a terminal has one text", name == nil || name == nm, "")
			name = nm
			term = m.Or(term, pc)
		case v.op == "iface" && types.Identical(v.aux.(types.Type), N):
			none = m.Or(none, pc)
		default:
			a.ob("structure", a.at, "a literal becomes a terminal or an empty string", false, "it becomes "+e.show(v))
			a.ob("errors", a.at, "a literal that is not understood makes ToAST fail", false, "it becomes "+e.show(v))
		}
	})
	if !a.ob("structure", a.at, "a literal becomes a terminal", name != nil, "never") {
		a.ob("errors", a.at, "a literal becomes a terminal", name != nil, "never")
		return
	}
	empty := e.le0(e.lenOf(name))
	a.never("structure", a.at, "an empty literal becomes an empty string", m.And(term, empty))
	a.never("structure", a.at, "a literal with text becomes a terminal", m.And(none, m.Not(empty)))
	lit, ok := a.c.constOf("pkg/parser", "BuiltinTerminal")
	if !ok {
		panic(abort{"parser.BuiltinTerminal not found"})
	}
	isLit := func(x *Term) B { return e.eqElem(e.num(lit), a.inv(x, "Type")) }
	isEsc := func(x *Term) B { return m.And(a.typeIs(x, "EscapeSequenceType"), m.Not(isLit(x))) }
	noText := func(v *Term) B { return e.le0(e.lenOf(v)) }
	a.collect("the parts of a literal", name, m.Or(term, none), x, func(x *Term) B { return m.Or(isLit(x), isEsc(x)) }, false, noText, func(x, old, new *Term, pc B) {
		a.is("structure", a.at, "text is taken over exactly", new, e.cat(old, a.text(x)), m.And(pc, isLit(x)))
		esc := m.And(pc, isEsc(x))
		k := 0
		for _, l := range e.leaves(e.deep(new, esc)) {
			g := m.And(esc, l.g)
			if !e.sat(g) {
				continue
			}
			t := l.t
			var rest *Term
			if t.op == "cat" && len(t.args) > 1 && t.args[0] == old {
				rest = e.cat(t.args[1:]...)
			}
			if !a.ob("structure", a.at, "an escape adds to the text", rest != nil, "the text becomes "+e.show(t)) {
				a.ob("errors", a.at, "an unknown escape makes ToAST fail", rest != nil, "the text becomes "+e.show(t))
				continue
			}
			k++
			a.each(rest, g, func(rest *Term, pc B) {
				a.first("an escaped character", rest, pc, x, func(x *Term) B { return a.typeIs(x, "EscapeCharacterType") }, true, func(x, v *Term, pc B) {
					em := a.field("EscapeMapping")
					key := a.text(x)
					a.imp("errors", a.at, "an unknown escape makes ToAST fail", pc, e.mapHas(em, key))
					a.each(v, pc, func(v *Term, pc B) {
						for len(v.args) == 1 && (v.op == "bytes" || v.op == "conv" || v.op == "str") {
							v = v.args[0]
						}
						a.is("structure", a.at, "an escape stands for what the mapping says", v, e.mapGet(em, key, types.Typ[types.String]), pc)
					})
				})
			})
		}
		a.ob("structure", a.at, "escapes are taken into account", k > 0, "")
	})
}

func checkC27(c *Check) {
	a := c.astRun("structure")
	if a == nil {
		return
	}
	c.clean(a.e, a.r)
	c.guarded("structure", a.at, a.structure)
}

func checkC17(c *Check) {
	a := c.astRun("errors")
	if a == nil {
		return
	}
	c.clean(a.e, a.r)
	c.results(a.e, a.r, "ToAST")
	c.guarded("errors", a.at, a.structure)
	t := c.tableRun()
	if t == nil {
		return
	}
	c.results(t.e, t.r, "FromGrammar")
	n := 0
	for _, ev := range t.e.events {
		if ev.kind == "newerror" && t.e.sat(ev.pc) {
			n++
			c.carried(t.e, ev, t.succ)
		}
	}
	c.ob("errors", where(t.e, t.fn), "FromGrammar has errors to report", n > 0, "it makes no error")
}

// carried: once an error was made, every loop it was made in is left, in a way
// that is not that of a success.
func (c *Check) carried(e *Eng, ev *Event, succ B) {
	m := e.bdd
	at := e.evPos(ev)
	f := ev.pc
	for i := len(ev.loops) - 1; i >= 0; i-- {
		li := ev.loops[i]
		for _, d := range e.done {
			if d.key == li.key {
				li = d
			}
		}
		if li.kind != "for" {
			c.fail("errors", at, "an error is made in a loop that is understood", li.kind)
			return
		}
		if !c.never(e, "errors", at, "an error ends the loop it is made in", m.And(f, li.backPc)) {
			return
		}
		g := False
		for _, x := range li.exits {
			if e.sat(m.And(f, x.pc)) {
				g = m.Or(g, x.gate)
			}
		}
		f = m.And(li.entryPc, g)
	}
	c.never(e, "errors", at, "an error makes FromGrammar fail", m.And(f, succ))
}

// results: all results or only an error
func (c *Check) results(e *Eng, r *Run, name string) {
	some := False
	for _, x := range r.res.rets {
		at := e.P.pos(x.pos)
		n := len(x.vals)
		if n < 2 {
			c.fail("results", at, name+" returns results and an error", "")
			continue
		}
		ok := e.isNil(e.freeze(x.mem, x.vals[n-1]))
		good := e.bdd.And(x.pc, ok)
		some = e.bdd.Or(some, good)
		for i := 0; i < n-1; i++ {
			v := e.isNil(x.vals[i])
			c.imp(e, "results", at, fmt.Sprintf("with an error result %d is nil", i+1), e.bdd.And(x.pc, e.bdd.Not(ok)), v)
			c.imp(e, "results", at, fmt.Sprintf("without an error result %d is not nil", i+1), good, e.bdd.Not(v))
		}
	}
	c.ob("results", name, name+" can succeed", e.sat(some), "no path returns a nil error")
}

func checkC28(c *Check) {
	a := c.astRun()
	if a == nil {
		return
	}
	e := a.e
	c.owned(e, "ToAST writes only to memory of its own")
}

func checkC29(c *Check) {
	a := c.astRun("ignored")
	if a == nil {
		return
	}
	e := a.e
	c.guarded("ignored", a.at, a.structure)
	lit, ok := c.constOf("pkg/parser", "BuiltinTerminal")
	if !ok {
		c.fail("types", a.at, "the type of literal nodes is known", "parser.BuiltinTerminal not found")
		return
	}
	fields := map[*Term]bool{}
	st := a.T.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		fields[a.field(st.Field(i).Name())] = true
	}
	seen := map[B]bool{}
	var badValue *Term
	n := 0
	node := func(t *Term) bool { return t.op == "call" && t.k == "invoke.Type" }
	var hasType func(t *Term, memo map[*Term]bool) bool
	hasType = func(t *Term, memo map[*Term]bool) bool {
		if v, ok := memo[t]; ok {
			return v
		}
		memo[t] = false
		r := node(t)
		e.eachChild(t, func(x *Term) { r = r || hasType(x, memo) })
		memo[t] = r
		return r
	}
	// an element of the bindings
	var bound func(t *Term) bool
	bound = func(t *Term) bool {
		switch {
		case fields[t]:
			return true
		case t.op == "index" || t.op == "call" && t.k == "sorted" || t.op == "list" && len(t.args) == 1 || t.op == "all":
			return bound(t.args[0])
		}
		return false
	}
	memo := map[*Term]bool{}
	bad := map[string]string{}
	atom := func(v int, at string) {
		q := e.atoms[v]
		if q.op == "ex" || q.op == "exit" || !hasType(q, memo) && q.op != "ex" {
			return
		}
		n++
		switch q.op {
		case "in":
			if node(q.args[1]) && fields[q.args[0]] {
				return
			}
		case "eq0":
			l := e.toLin(q.args[0])
			var ty, other *Term
			okc := true
			for _, t := range l.ts {
				switch {
				case node(t.t) && ty == nil:
					ty = t.t
				case other == nil:
					other = t.t
				default:
					okc = false
				}
			}
			if okc && ty != nil && len(l.ts) == 1 && (l.c == -lit*l.ts[0].coef) {
				return
			}
			if okc && ty != nil && other != nil && l.c == 0 && len(l.ts) == 2 && l.ts[0].coef == -l.ts[1].coef && bound(other) {
				return
			}
		}
		bad[at] = e.show(q)
	}
	cond := func(f B, at string) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, v := range e.bdd.Support(f) {
			atom(v, at)
			if q := e.atoms[v]; q.op == "ex" {
				for _, w := range e.bdd.Support(q.b) {
					atom(w, at)
				}
			}
		}
	}
	vals := map[*Term]bool{}
	var value func(t *Term, at string)
	value = func(t *Term, at string) {
		if t == nil || vals[t] {
			return
		}
		vals[t] = true
		if node(t) && badValue == nil {
			badValue = t
			bad[at] = "a value depends on " + e.show(t)
		}
		if t.op == "err" || t.op == "walknode" {
			return
		}
		for _, b := range t.bs {
			cond(b, at)
		}
		if t.op == "bool" {
			cond(t.b, at)
		}
		for _, x := range t.args {
			value(x, at)
		}
		if t.lin != nil {
			for _, x := range t.lin.ts {
				value(x.t, at)
			}
		}
	}
	for _, li := range e.done {
		at := e.P.pos(li.pos)
		for _, lv := range li.vars {
			value(lv.next, at)
		}
		if li.result != nil {
			value(li.result, at)
		}
		cond(e.restrictTh(li.backPc, li.entryPc), at)
	}
	for _, x := range a.r.res.rets {
		cond(x.pc, e.P.pos(x.pos))
		for _, v := range x.vals {
			value(e.freeze(x.mem, v), e.P.pos(x.pos))
		}
	}
	c.note["type_comparisons"] = n
	for at, d := range bad {
		c.fail("types", at, "types of nodes are only compared for equality with the bindings", d)
	}
	c.ob("types", a.at, fmt.Sprintf("%d comparisons of node types, all for equality with the bindings or parser.BuiltinTerminal", n), len(bad) == 0 && n > 0, "")
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}
