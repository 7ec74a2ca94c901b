package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C20", "gated value numbering", checkC20)
	reg("C21", "call-trace analysis with loop summary", checkC21)
	reg("C22", "string-term analysis of the String methods", checkC22)
	reg("C24", "constant propagation", checkC24)
	reg("C32", "value-flow and freshness analysis", checkC32)
}

// run analyses a function on symbolic arguments and reports what the
// analysis does not know.
func (c *Check) run(fn *ssa.Function, what string) *Run {
	if fn == nil {
		c.fail("analysis", what, what+" is analysed", "not found")
		return nil
	}
	e := newEng(c.P)
	e.initGlobals()
	r := e.runFn(fn)
	c.use(e)
	if r.err != "" {
		c.fail("analysis", what, what+" is analysed", r.err)
		return nil
	}
	return r
}

func where(e *Eng, fn *ssa.Function) string {
	return e.P.pos(fn.Pos()) + " (" + short(fn.RelString(nil)) + ")"
}

func checkC20(c *Check) {
	fn := c.P.fn("pkg/cst", "NewNode")
	r := c.run(fn, "cst.NewNode")
	if r == nil {
		return
	}
	e := r.e
	if len(r.args) != 4 {
		c.fail("node", where(e, fn), "NewNode takes type, start, end and children", "other parameters")
		return
	}
	for _, x := range r.res.rets {
		v := e.freeze(x.mem, x.vals[0])
		at := e.P.pos(x.pos)
		for i, name := range []string{"Type", "Pos", "End"} {
			g := e.accessor(v, name, x.pc)
			if g == nil {
				c.fail("node", at, name+" of the node made is known", "the node is "+e.show(v))
				continue
			}
			if !c.ob("node", at, fmt.Sprintf("%s returns argument %d of NewNode", name, i+1), e.implies(x.pc, e.eqTerms(g, r.args[i])), "it is "+e.show(g)) {
				continue
			}
		}
		g := e.accessor(v, "Childs", x.pc)
		if g == nil {
			c.fail("node", at, "Childs of the node made is known", "the node is "+e.show(v))
			continue
		}
		ok, why := e.listEq(g, r.args[3], x.pc)
		c.ob("node", at, "Childs returns the children given to NewNode", ok, why)
	}
	c.ob("node", where(e, fn), "NewNode always returns", e.implies(True, r.res.pc), "")
	for _, ev := range e.events {
		if panicKind(ev.kind) {
			c.never(e, "node", e.evPos(ev), "NewNode and the accessors do not fail: "+ev.kind+" "+ev.what, ev.pc)
		}
	}
	c.owned(e, "NewNode and the accessors write only to memory of their own")
	// what accessors do to a node made earlier
	nt := c.P.namedType("pkg/cst", "Node")
	if nt == nil {
		return
	}
	var dts []types.Type
	for _, x := range r.res.rets {
		for _, l := range e.leaves(e.freeze(x.mem, x.vals[0])) {
			if l.t.op == "iface" {
				dts = append(dts, l.t.aux.(types.Type))
			}
		}
	}
	for _, dt := range dts {
		for _, name := range []string{"Type", "Pos", "End", "Childs"} {
			sel := c.P.prog.MethodSets.MethodSet(dt).Lookup(nil, name)
			if sel == nil {
				continue
			}
			mr := c.run(c.P.prog.MethodValue(sel), name)
			if mr == nil {
				continue
			}
			for _, ev := range mr.e.events {
				switch ev.kind {
				case "store-ext", "append-ext", "store-global", "call-std", "call-unknown", "consume-ext":
					c.never(mr.e, "effects", mr.e.evPos(ev), name+" does not change the node: "+ev.what, ev.pc)
				}
			}
		}
	}
}

// ---- traces

// trace is the sequence of events of a kind as a list term: an element per
// event, a comprehension per counted loop.
func (c *Check) trace(e *Eng, pick func(*Event) *Term) (*Term, string) {
	type item struct {
		li  *LoopInst
		seg *Term
		g   B
	}
	var segs []*Term
	out := e.list()
	_ = segs
	add := func(g B, seg *Term) {
		var gs []gv
		for _, l := range e.leaves(out) {
			withIt := e.bdd.And(l.g, g)
			if e.sat(withIt) {
				gs = append(gs, gv{withIt, e.list(e.normSegs(append(append([]*Term{}, e.segs(l.t)...), seg))...)})
			}
			without := e.bdd.And(l.g, e.bdd.Not(g))
			if e.sat(without) {
				gs = append(gs, gv{without, l.t})
			}
		}
		out = e.phi(gs)
	}
	done := map[*LoopInst]bool{}
	for _, ev := range e.events {
		t := pick(ev)
		if t == nil || !e.sat(ev.pc) {
			continue
		}
		switch len(ev.loops) {
		case 0:
			add(ev.pc, e.elem(t))
		case 1:
			li := ev.loops[0]
			if done[li] {
				return nil, "the loop at " + e.P.pos(li.pos) + " makes several such calls in one iteration"
			}
			done[li] = true
			if li.trip == nil || len(li.exits) != 1 {
				return nil, "the loop at " + e.P.pos(li.pos) + " does not run a fixed number of times"
			}
			in := e.bdd.And(li.entryPc, e.le0(e.addc(e.sub(li.kappa, li.trip), 1)))
			if !e.implies(in, ev.pc) {
				return nil, "not made in every iteration: skipped when " + e.why(e.bdd.And(in, e.bdd.Not(ev.pc)))
			}
			add(li.entryPc, e.comp("comp", li.trip, li.kappa, e.deep(t, in)))
		default:
			return nil, "made in nested loops"
		}
	}
	return out, ""
}

func checkC21(c *Check) {
	fn := c.P.fn("pkg/cst", "Walk")
	r := c.run(fn, "cst.Walk")
	if r == nil {
		return
	}
	e := r.e
	v, node := r.args[0], r.args[1]
	at := where(e, fn)
	var first *Event
	var rec *ssa.Function
	var recBase []*Term
	visits := 0
	for _, ev := range e.events {
		switch ev.kind {
		case "invoke":
			if ev.what == "Visit" {
				visits++
				if first == nil {
					first = ev
				}
			}
		case "recursion":
			if rec != nil && rec != ev.target {
				c.fail("walk", e.evPos(ev), "Walk goes down by one recursive function", "several")
				return
			}
			rec, recBase = ev.target, ev.base
		case "call-unknown", "call-std", "unsupported", "go", "store-global", "store-ext":
			c.never(e, "walk", e.evPos(ev), "Walk does nothing but visit: "+ev.kind+" "+ev.what, ev.pc)
		}
	}
	if first == nil {
		c.fail("walk", at, "Walk visits the node it is given", "no call of Visit")
		return
	}
	c.ob("walk", e.evPos(first), "the node given is visited by the visitor given", first.args[0] == v && first.args[1] == node && len(first.loops) == 0, "Visit("+e.show(first.args[1])+") of "+e.show(first.args[0]))
	c.imp(e, "walk", e.evPos(first), "the node given is visited always", True, first.pc)
	if rec == nil {
		c.fail("walk", at, "Walk goes down to the children", "no recursive call")
		return
	}
	w := e.mk("call", "invoke.Visit", first.instrType(), v, node)
	kids := e.mk("call", "invoke.Childs", nil, node)
	for _, t := range e.termList {
		if t.op == "call" && t.k == "invoke.Visit" && len(t.args) == 2 && t.args[0] == v && t.args[1] == node {
			w = t
		}
		if t.op == "call" && t.k == "invoke.Childs" && len(t.args) == 1 && t.args[0] == node {
			kids = t
		}
	}
	down := e.bdd.Not(e.isNil(w))
	isNode := e.bdd.Not(e.isNil(node))
	down = e.bdd.And(down, isNode)
	nodeAt := -1
	switch {
	case len(recBase) == 2 && recBase[0] == v && recBase[1] == node:
		// the function recursed to is Walk itself, or called by it with the same arguments
		c.ob("walk", e.evPos(first), "a node is visited once", visits == 1, fmt.Sprintf("Visit is called at %d places", visits))
		nodeAt = 1
	case len(recBase) == 2 && recBase[0] == w && recBase[1] == node:
		// a function that walks the children of a node already visited
		c.ob("walk", e.evPos(first), "a node is visited once", visits == 2, fmt.Sprintf("Visit is called at %d places", visits))
		nodeAt = 2
	default:
		c.fail("walk", at, "the recursion of Walk is understood", "it starts from other arguments")
		return
	}
	tr, why := c.trace(e, func(ev *Event) *Term {
		if ev.kind == "recursion" {
			x := ev.args[1]
			if nodeAt == 1 {
				c.ob("walk", e.evPos(ev), "children are walked with the visitor that Visit returned", e.implies(ev.pc, e.eqTerms(ev.args[0], w)) || ev.args[0] == w, "with "+e.show(ev.args[0]))
			}
			return x
		}
		return nil
	})
	if nodeAt == 2 {
		// Visit(w, child) and, if not nil, recursion with its result
		tr, why = c.trace(e, func(ev *Event) *Term {
			if ev.kind == "invoke" && ev.what == "Visit" && ev != first {
				c.ob("walk", e.evPos(ev), "children are walked with the visitor that Visit returned", ev.args[0] == w, "with "+e.show(ev.args[0]))
				return ev.args[1]
			}
			return nil
		})
		for _, ev := range e.events {
			if ev.kind != "recursion" {
				continue
			}
			for _, ev2 := range e.events {
				if ev2.kind == "invoke" && ev2.what == "Visit" && ev2 != first {
					r2 := e.mk("call", "invoke.Visit", ev2.instrType(), ev2.args[0], ev2.args[1])
					for _, t := range e.termList {
						if t.op == "call" && t.k == "invoke.Visit" && len(t.args) == 2 && t.args[0] == ev2.args[0] && t.args[1] == ev2.args[1] {
							r2 = t
						}
					}
					c.ob("walk", e.evPos(ev), "the children of a visited child are walked with the visitor Visit returned for it", ev.args[0] == r2 && ev.args[1] == ev2.args[1], e.show(ev.args[0]))
					c.same(e, "walk", e.evPos(ev), "a child is gone down to exactly if Visit returned a visitor for it", ev2.pc, ev.pc, e.bdd.And(ev2.pc, e.bdd.Not(e.isNil(r2))))
				}
			}
		}
	}
	if tr == nil {
		c.fail("walk", at, "Walk goes down to every child once, in order", why)
		return
	}
	ok, why := e.listEq(tr, kids, down)
	c.ob("walk", at, "if Visit returned a visitor, Walk goes down to exactly the children of the node, from the first to the last", ok, why)
	ok, why = e.listEq(tr, e.list(), e.isNil(w))
	c.ob("walk", at, "if Visit returned nil, Walk goes down to no child", ok, why)
	for _, ev := range e.events {
		if panicKind(ev.kind) && ev.kind != "recursion" {
			pc := e.bdd.AndN(ev.pc, isNode, e.bdd.Not(e.isNil(v)))
			mentions := false
			for _, a := range ev.args {
				if a != v && a != node && e.mentions(a, kids) {
					mentions = true
				}
			}
			if !mentions {
				c.never(e, "walk", e.evPos(ev), "Walk does not fail: "+ev.kind+" "+ev.what, pc)
			}
		}
	}
}

func (ev *Event) instrType() types.Type {
	if v, ok := ev.instr.(ssa.Value); ok {
		return v.Type()
	}
	return nil
}

// ---- C24

func checkC24(c *Check) {
	vals := map[int64]string{}
	for _, x := range [][2]string{{"SymbolNonTerminal", "TypeNonTerminal"}, {"SymbolTerminal", "TypeTerminal"}, {"SymbolNothing", "TypeNothing"}} {
		k, ok := c.constOf("pkg/bnf", x[1])
		if !c.ob("kinds", "pkg/bnf", "the constant "+x[1]+" is exported", ok, "not found") {
			continue
		}
		o, dup := vals[k]
		c.ob("kinds", "pkg/bnf", "the constant "+x[1]+" differs from the others", !dup, "it equals "+o)
		vals[k] = x[1]
		fn := c.P.method("pkg/bnf", x[0], "Type")
		r := c.run(fn, x[0]+".Type")
		if r == nil {
			continue
		}
		e := r.e
		for _, ret := range r.res.rets {
			v := e.freeze(ret.mem, ret.vals[0])
			c.ob("kinds", e.P.pos(ret.pos), "Type of a "+x[0]+" is "+x[1], e.implies(ret.pc, e.eqTerms(v, e.num(k))), "it is "+e.show(v))
		}
		c.imp(e, "kinds", where(e, fn), "Type of a "+x[0]+" always returns", True, r.res.pc)
	}
}

// ---- C32

func checkC32(c *Check) {
	fn := c.P.fn("pkg/parser", "NewParserOpList")
	r := c.run(fn, "parser.NewParserOpList")
	if r != nil {
		e := r.e
		for _, x := range r.res.rets {
			at := e.P.pos(x.pos)
			v := x.vals[0]
			ok, why := e.listEq(e.freeze(x.mem, v), r.args[0], x.pc)
			c.ob("list", at, "the list holds exactly the operations given, in order", ok, why)
			fresh := true
			for _, l := range e.leaves(v) {
				if !e.sat(e.bdd.And(x.pc, l.g)) || e.zeroLen(l.t) {
					continue
				}
				if !e.freshSlice(l.t) && e.sat(e.bdd.AndN(x.pc, l.g, e.bdd.Not(e.le0(e.lenOf(l.t))))) {
					fresh = false
				}
			}
			c.ob("list", at, "the list has memory of its own", fresh, "it is "+e.show(v))
		}
		c.imp(e, "list", where(e, fn), "NewParserOpList always returns", True, r.res.pc)
		c.owned(e, "NewParserOpList writes only to memory of its own")
	}
	for _, n := range []string{"OpTerminal", "OpNonTerminal"} {
		e := newEng(c.P)
		_, _, msg := c.ctor(e, n)
		c.ob("ctor", "pkg/parser "+n, n+" makes an operation holding exactly its argument", msg == "", msg)
	}
	m := c.machine()
	if m == nil {
		return
	}
	c.matchObl(m)
	c.groupObl(m, true, false, false, false)
}

// ---- string equality

// strEq decides whether two string terms are equal under pc, part by part.
func (e *Eng) strEq(a, b *Term, pc B) (bool, string) {
	fuel := 4000
	return e.strEq1([]*Term{a}, []*Term{b}, pc, &fuel)
}

func (e *Eng) strEq1(a, b []*Term, pc B, fuel *int) (bool, string) {
	if !e.sat(pc) {
		return true, ""
	}
	*fuel--
	if *fuel < 0 {
		return false, "too many cases"
	}
	norm := func(x []*Term) []*Term {
		var out []*Term
		for i, t := range x {
			if i == 0 {
				t = e.under(t, pc)
			}
			if t.op == "cat" {
				out = append(out, t.args...)
				if i == 0 && len(out) > 0 {
					out[0] = e.under(out[0], pc)
				}
				continue
			}
			if t.op == "str" && t.k == "" {
				continue
			}
			out = append(out, t)
		}
		return out
	}
	for {
		a, b = norm(a), norm(b)
		if len(a) > 0 && (a[0].op == "cat" || a[0].op == "str" && a[0].k == "") || len(b) > 0 && (b[0].op == "cat" || b[0].op == "str" && b[0].k == "") {
			continue
		}
		if len(a) == 0 && len(b) == 0 {
			return true, ""
		}
		if len(a) > 0 && len(b) > 0 && a[0] == b[0] {
			a, b = a[1:], b[1:]
			continue
		}
		break
	}
	for k, p := range [2][]*Term{a, b} {
		if len(p) == 0 || p[0].op != "phi" {
			continue
		}
		for _, l := range e.leaves(p[0]) {
			q := append([]*Term{l.t}, p[1:]...)
			x, y := q, b
			if k == 1 {
				x, y = a, q
			}
			if ok, why := e.strEq1(x, y, e.bdd.And(pc, l.g), fuel); !ok {
				return false, why
			}
		}
		return true, ""
	}
	one := func(p []*Term) *Term {
		if len(p) == 0 {
			return nil
		}
		return p[0]
	}
	x, y := one(a), one(b)
	if x != nil && y != nil && x.op == "str" && y.op == "str" {
		n := 0
		for n < len(x.k) && n < len(y.k) && x.k[n] == y.k[n] {
			n++
		}
		if n == 0 {
			return false, fmt.Sprintf("%q instead of %q", x.k, y.k)
		}
		return e.strEq1(append([]*Term{e.str(x.k[n:])}, a[1:]...), append([]*Term{e.str(y.k[n:])}, b[1:]...), pc, fuel)
	}
	if x != nil && y != nil && x.op == "rep" && y.op == "rep" && e.implies(pc, e.eq0(e.sub(x.args[0], y.args[0]))) {
		i := e.mk("sym", fmt.Sprintf("ι%d", e.iotas), types.Typ[types.Int])
		e.iotas++
		e.nonneg[i] = true
		g := e.bdd.And(pc, e.le0(e.addc(e.sub(i, x.args[0]), 1)))
		if ok, _ := e.strEq1([]*Term{e.instBound(x, x.args[1], i)}, []*Term{e.instBound(y, y.args[1], i)}, g, fuel); ok {
			return e.strEq1(a[1:], b[1:], pc, fuel)
		}
	}
	// an iteration of a repetition at a time
	for k, p := range [2][]*Term{a, b} {
		t := one(p)
		if t == nil || t.op != "rep" {
			continue
		}
		n := t.args[0]
		z := e.le0(n)
		var restE, restN []*Term
		restE = p[1:]
		r := e.mk("rep", t.k, t.typ, e.addc(n, -1), e.substOne(t.args[1], e.boundOf(t), e.addc(e.boundOf(t), 1)))
		r.aux = t.aux
		restN = append([]*Term{e.instBound(t, t.args[1], e.num(0)), r}, p[1:]...)
		if e.unrolls > 3 {
			break
		}
		e.unrolls++
		sel := func(q []*Term) ([]*Term, []*Term) {
			if k == 0 {
				return q, b
			}
			return a, q
		}
		xa, xb := sel(restE)
		ok, why := e.strEq1(xa, xb, e.bdd.And(pc, z), fuel)
		if ok {
			xa, xb = sel(restN)
			ok, why = e.strEq1(xa, xb, e.bdd.And(pc, e.bdd.Not(z)), fuel)
		}
		e.unrolls--
		return ok, why
	}
	if x != nil && y != nil {
		if e.implies(pc, e.eqTerms(e.deep(x, pc), e.deep(y, pc))) || e.deep(x, pc) == e.deep(y, pc) {
			return e.strEq1(a[1:], b[1:], pc, fuel)
		}
		// a symbol printed in place of a call of its String method
		for k, t := range []*Term{x, y} {
			if t.op != "call" || t.k != "invoke.String" || len(t.args) != 1 {
				continue
			}
			ex := e.expandString(t.args[0], pc)
			if ex == nil {
				continue
			}
			if k == 0 {
				return e.strEq1(append([]*Term{ex}, a[1:]...), b, pc, fuel)
			}
			return e.strEq1(a, append([]*Term{ex}, b[1:]...), pc, fuel)
		}
	}
	s := func(t *Term) string {
		if t == nil {
			return "nothing"
		}
		return e.show(t)
	}
	return false, s(x) + " instead of " + s(y)
}

// expandString is the printed form of an interface value whose type is known
// under pc.
func (e *Eng) expandString(x *Term, pc B) *Term {
	for _, T := range e.P.all {
		if types.IsInterface(T) || e.P.methodOf(T, "String") == nil {
			continue
		}
		if !e.implies(pc, e.isType(x, T)) {
			continue
		}
		r := e.accessor(e.mkIface(e.unbox(x, T), T, x.typ), "String", pc)
		return r
	}
	return nil
}

// ---- C22

// field index by name and type
func fieldNamed(t types.Type, name string) int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// fld reads an exported field of a struct value.
func (e *Eng) fld(t *Term, T types.Type, name string) (*Term, types.Type) {
	i := fieldNamed(T, name)
	if i < 0 {
		panic(abort{"no field " + name + " in " + tkey(T)})
	}
	ft := T.Underlying().(*types.Struct).Field(i).Type()
	r := e.field(t, i, ft)
	e.setTyp(r, ft)
	return r, ft
}

func (e *Eng) specSymbol(x *Term) *Term {
	return e.mk("call", "invoke.String", types.Typ[types.String], x)
}

// specRule: head ::= alternatives separated by |
func (e *Eng) specRule(r *Term) *Term {
	T := e.P.namedType("pkg/bnf", "Rule")
	h, hT := e.fld(r, T, "Head")
	name, _ := e.fld(h, hT, "Name")
	t, tT := e.fld(r, T, "Tail")
	seqs, sT := e.fld(t, tT, "Sequences")
	k1 := e.mk("kappa", "κs1", types.Typ[types.Int])
	k2 := e.mk("kappa", "κs2", types.Typ[types.Int])
	e.nonneg[k1], e.nonneg[k2] = true, true
	seq := e.index(seqs, k1)
	e.setTyp(seq, elemType(sT))
	syms, _ := e.fld(seq, elemType(sT), "Symbols")
	one := e.repStr(e.lenOf(syms), k2, e.cat(e.str(" "), e.specSymbol(e.index(syms, k2))))
	bar := e.iteTerm(e.le0(k1), e.str(""), e.str(" |"))
	alts := e.repStr(e.lenOf(seqs), k1, e.cat(bar, one))
	return e.cat(e.str("<"), name, e.str("> ::="), alts)
}

func (e *Eng) specGrammar(g *Term) *Term {
	T := e.P.namedType("pkg/bnf", "Grammar")
	rules, _ := e.fld(g, T, "Rules")
	k := e.mk("kappa", "κs0", types.Typ[types.Int])
	e.nonneg[k] = true
	r := e.index(rules, k)
	e.setTyp(r, elemType(rules.typ))
	nl := e.iteTerm(e.le0(k), e.str(""), e.str("\n"))
	return e.repStr(e.lenOf(rules), k, e.cat(nl, e.specRule(r)))
}

func checkC22(c *Check) {
	type spec struct {
		typ  string
		what string
		want func(e *Eng, x *Term) *Term
	}
	for _, s := range []spec{
		{"SymbolNonTerminal", "a non-terminal prints as its name in angle brackets", func(e *Eng, x *Term) *Term {
			n, _ := e.fld(x, e.P.namedType("pkg/bnf", "SymbolNonTerminal"), "Name")
			return e.cat(e.str("<"), n, e.str(">"))
		}},
		{"SymbolNothing", "an empty string prints as \"\" in double quotes", func(e *Eng, x *Term) *Term { return e.str("\"\"") }},
		{"Rule", "a rule prints as its head, ::= and its alternatives, every symbol in order", (*Eng).specRule},
		{"Grammar", "a grammar prints as its rules in order, one per line", (*Eng).specGrammar},
	} {
		fn := c.P.method("pkg/bnf", s.typ, "String")
		r := c.run(fn, s.typ+".String")
		if r == nil {
			continue
		}
		e := r.e
		for _, x := range r.res.rets {
			got := e.freeze(x.mem, x.vals[0])
			ok, why := e.strEq(got, s.want(e, r.args[0]), x.pc)
			c.ob("print", e.P.pos(x.pos)+" ("+s.typ+".String)", s.what, ok, why)
		}
		// a nil symbol may panic, nothing else
		some := False
		for _, ev := range e.events {
			if panicKind(ev.kind) {
				nilsym := ev.kind == "nilderef" && len(ev.args) == 1 && ev.args[0].typ != nil && types.IsInterface(ev.args[0].typ)
				if !nilsym {
					c.never(e, "print", e.evPos(ev), "printing does not fail: "+ev.kind+" "+ev.what, ev.pc)
				}
				some = e.bdd.Or(some, ev.pc)
			}
			switch ev.kind {
			case "store-ext", "append-ext", "store-global", "call-std", "call-unknown", "unsupported", "go", "io":
				c.never(e, "print", e.evPos(ev), "printing changes nothing and uses known operations only: "+ev.kind+" "+ev.what, ev.pc)
			}
		}
		c.imp(e, "print", where(e, fn), s.typ+".String always returns", True, r.res.pc)
	}
}

var _ = sort.Strings
