package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C37", "gated value numbering of the example with the library as opaque steps; structural equality as a quantified condition", checkC37)
	reg("C39", "gated value numbering of the example with the library as opaque steps", checkC39)
}

// steps: library functions an example calls, which are not looked into.
type exStep struct {
	args []*Term
	res  *Term
	at   string
	pc   B
}

type exSteps struct {
	c   *Check
	e   *Eng
	pkg string
	m   map[string][]exStep
	// contents of the memory at the walk
	held map[*Object]*Term
}

func newSteps(c *Check, e *Eng, pkg string) *exSteps {
	return &exSteps{c, e, pkg, map[string][]exStep{}, map[*Object]*Term{}}
}

func (s *exSteps) opaque(name string, f *ssa.Function) {
	if f == nil {
		s.c.fail("analysis", s.pkg, name+" exists", "not found")
		return
	}
	s.e.opaque[f] = func(e *Eng, cc *callCtx) *Term {
		var args []*Term
		for _, a := range cc.args {
			args = append(args, e.freeze(cc.f.mem, a))
		}
		if name == "Walk" {
			for o, x := range cc.f.mem.m {
				s.held[o] = e.freeze(cc.f.mem, x)
			}
		}
		pc := cc.f.pc
		t := e.opaqueResult(cc, name, args...)
		res := t
		if name == "NewLL1Parser" && t != nil {
			e.nonnil[t] = true
		}
		if t != nil && t.op == "tuple" {
			// C17: either a result or an error
			failed := e.bdd.Not(e.isNil(t.args[len(t.args)-1]))
			var as []*Term
			for _, x := range t.args {
				if x.typ != nil && pointee(x.typ) != nil {
					e.nonnil[x] = true
					x = e.phi([]gv{{e.bdd.Not(failed), x}, {failed, e.nilTerm()}})
				}
				as = append(as, x)
			}
			t = e.mk("tuple", "", nil, as...)
		}
		s.m[name] = append(s.m[name], exStep{args, res, e.P.pos(cc.in.Pos()), pc})
		return t
	}
}

// ---- C37: the self-parsing example succeeds exactly when what it promises
// holds. The library functions are steps whose results are not looked into;
// everything of the example itself is evaluated.

func checkC37(c *Check) {
	const pkg = "examples/parseownsyntax"
	fn := c.P.fn(pkg, "main")
	if fn == nil {
		c.fail("analysis", pkg, "the example has a main function", "not found")
		return
	}
	e := newEng(c.P)
	e.initGlobals()
	symT := c.P.namedType("pkg/bnf", "Symbol")
	gramT := c.P.namedType("pkg/bnf", "Grammar")
	if symT == nil || gramT == nil {
		c.fail("analysis", pkg, "the types of a grammar are known", "not found")
		return
	}
	// the symbols of a grammar the library makes are of its own types
	var kinds []types.Type
	for _, n := range []string{"SymbolNonTerminal", "SymbolTerminal", "SymbolNothing"} {
		if t := c.P.namedType("pkg/bnf", n); t != nil {
			kinds = append(kinds, t)
		}
	}
	e.closedM[symT] = kinds

	sr := newSteps(c, e, pkg)
	steps, opaque := sr.m, sr.opaque
	opaque("SelfGrammar", c.P.fn("pkg/bnf", "SelfGrammar"))
	opaque("String", c.P.method("pkg/bnf", "Grammar", "String"))
	opaque("FromGrammar", c.P.fn("pkg/bnf/tablegen", "FromGrammar"))
	opaque("NewLL1Parser", c.P.fn("pkg/parser", "NewLL1Parser"))
	opaque("SelfBindings", c.P.fn("pkg/bnf/fromcst", "SelfCSTtoASTBindings"))
	opaque("ToAST", c.P.method("pkg/bnf/fromcst", "BNFCSTtoASTBindings", "ToAST"))
	r := e.runFn(fn)
	c.use(e)
	if r.err != "" {
		c.fail("analysis", where(e, fn), "the example is analysed", r.err)
		return
	}
	at := where(e, fn)
	one := func(name string) *Term {
		var t *Term
		for _, s := range steps[name] {
			if t != nil && t != s.res {
				c.fail("steps", s.at, name+" is used in one way", "other arguments here")
				return nil
			}
			t = s.res
		}
		if t == nil {
			c.fail("steps", at, name+" is used", "it is not called")
		}
		return t
	}
	self, text, from, mk, bind := one("SelfGrammar"), one("String"), one("FromGrammar"), one("NewLL1Parser"), one("SelfBindings")
	ast := one("ToAST")
	if self == nil || text == nil || from == nil || mk == nil || bind == nil || ast == nil {
		return
	}
	arg := func(name string, i int) *Term { return steps[name][0].args[i] }
	is := func(name string, i int, want *Term, what string) {
		g := arg(name, i)
		c.ob("steps", steps[name][0].at, what, g == want || e.implies(steps[name][0].pc, e.eqTerms(g, want)), "it is "+e.show(g))
	}
	is("String", 0, self, "the text is the printed self grammar")
	is("FromGrammar", 0, self, "the table is built from the self grammar")
	mem := newMem()
	deref := func(p *Term) *Term {
		t := pointee(p.typ)
		return e.content(mem, e.extObj(p, t))
	}
	is("NewLL1Parser", 0, deref(from.args[0]), "the parser gets the table built")
	is("NewLL1Parser", 1, deref(from.args[1]), "the parser gets the names built")
	// the parse
	var parse *Term
	for _, ev := range e.events {
		if ev.kind != "invoke" || ev.what != "Parse" {
			continue
		}
		pos := e.evPos(ev)
		if !c.ob("steps", pos, "the parser made from the table is used", ev.args[0] == mk, "it is "+e.show(ev.args[0])) {
			return
		}
		src := ev.args[1]
		c.ob("steps", pos, "the text of the self grammar is parsed", src.op == "iface" && (src.args[0] == text || e.implies(True, e.eqTerms(src.args[0], text))), "it is "+e.show(src))
		t := e.mk("call", "invoke.Parse", nil, ev.args...)
		if parse != nil && parse != t {
			c.fail("steps", pos, "the text is parsed once", "other arguments here")
			return
		}
		parse = t
	}
	if parse == nil {
		c.fail("steps", at, "the text is parsed", "Parse is not called")
		return
	}
	pm := c.P.method("pkg/parser", "ll1parser_t", "Parse")
	res := resultsOf(mk.typ, "Parse")
	if res == nil && pm != nil {
		res = pm.Signature.Results()
	}
	if res == nil || res.Len() != 3 {
		c.fail("analysis", at, "Parse gives a tree, names and an error", "another signature")
		return
	}
	proj := func(i int) *Term { return e.mk("proj", fmt.Sprint(i), res.At(i).Type(), parse) }
	is("ToAST", 0, bind, "the tree is converted with the self bindings")
	is("ToAST", 1, proj(0), "the tree converted is the one parsed")
	is("ToAST", 2, text, "the tree is read with the text it was parsed from")
	ok := e.bdd.AndN(e.isNil(from.args[2]), e.isNil(proj(2)), e.isNil(ast.args[1]),
		e.structEq(self, deref(ast.args[0]), gramT))
	imp := func(rule, pos, what string, pc, cond B) {
		f := e.bdd.And(pc, e.bdd.Not(cond))
		if !e.sat(f) || e.refute(f) {
			c.ob(rule, pos, what, true, "")
			return
		}
		c.ob(rule, pos, what, false, "possible: "+e.why(f))
	}
	exit := func(pos string, pc B, code *Term) {
		if code == nil || code.typ == nil && code.op != "num" {
			if _, isn := code.isNum(); !isn {
				c.fail("status", pos, "the exit status is known", "it is "+e.show(code))
				return
			}
		}
		zero := e.eq0(code)
		imp("status", pos, "status 0 only if all steps succeeded and the grammars are equal", e.bdd.And(pc, zero), ok)
		imp("status", pos, "another status only if a step failed or the grammars differ", e.bdd.And(pc, e.bdd.Not(zero)), e.bdd.Not(ok))
	}
	n := 0
	for _, ev := range e.events {
		switch {
		case ev.kind == "exit":
			n++
			exit(e.evPos(ev), ev.pc, ev.args[0])
		case ev.kind == "nilderef" && len(ev.args) > 0 && ev.args[0].typ == symT:
			// the grammars hold no nil symbols (C25, C27)
		case panicKind(ev.kind):
			imp("status", e.evPos(ev), "the example panics only if a step failed or the grammars differ ("+ev.what+")", ev.pc, e.bdd.Not(ok))
		}
	}
	for _, x := range r.res.rets {
		n++
		exit(e.P.pos(x.pos), x.pc, e.num(0))
	}
	c.ob("status", at, "the example ends", n > 0, "no exit found")
}

func resultsOf(t types.Type, name string) *types.Tuple {
	if t == nil {
		return nil
	}
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, name)
	if f, ok := o.(*types.Func); ok {
		return f.Type().(*types.Signature).Results()
	}
	return nil
}

// structEq: a and b agree in every part.
func (e *Eng) structEq(a, b *Term, t types.Type) B {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		r := True
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			r = e.bdd.And(r, e.structEq(e.field(a, i, ft), e.field(b, i, ft), ft))
		}
		return r
	case *types.Slice:
		e.setTyp(a, t)
		e.setTyp(b, t)
		la := e.lenOf(a)
		return e.bdd.And(e.eqInts(la, e.lenOf(b)), e.bdd.Not(e.mkExFresh(la, func(i *Term) B {
			x, y := e.index(a, i), e.index(b, i)
			e.setTyp(x, u.Elem())
			e.setTyp(y, u.Elem())
			return e.bdd.Not(e.structEq(x, y, u.Elem()))
		})))
	case *types.Interface:
		r := True
		for _, T := range e.closed(t) {
			x, y := e.isType(a, T), e.isType(b, T)
			r = e.bdd.AndN(r, e.bdd.Not(e.bdd.Xor(x, y)), e.bdd.Imp(x, e.structEq(e.unbox(a, T), e.unbox(b, T), T)))
		}
		return r
	}
	return e.eqTerms(a, b)
}

// visitor: what the visitor of the JSON example does at a node of each type
// of its grammar.
func (c *Check) visitor(g *cgram, gw string, visit *ssa.Function, obj, arr, kv int) {
	r := c.run(visit, "the visitor")
	if r == nil {
		return
	}
	e, m := r.e, r.e.bdd
	at := where(e, visit)
	if len(r.args) != 2 {
		c.fail("visitor", at, "Visit takes a node", "other parameters")
		return
	}
	node, recv := r.args[1], r.args[0]
	T := e.mk("call", "invoke.Type", types.Typ[types.Int], node)
	// which rules can contain a key-value below them
	reach := make([]bool, len(g.rules))
	for ch := true; ch; {
		ch = false
		for i, as := range g.rules {
			for _, a := range as {
				for _, s := range a {
					if s.kind != 'n' || reach[i] {
						continue
					}
					if k, ok := g.idx[s.s]; ok && (k == kv || reach[k]) {
						reach[i], ch = true, true
					}
				}
			}
		}
	}
	down := func(x *retRec) B { return m.And(x.pc, m.Not(e.isNil(e.freeze(x.mem, x.vals[0])))) }
	for t := range g.rules {
		is := m.And(m.Not(e.isNil(node)), e.eq0(e.addc(T, int64(-t))))
		// printing
		prints := False
		for _, ev := range e.events {
			if ev.kind != "io" {
				continue
			}
			if t != kv {
				c.never(e, "visitor", e.evPos(ev), "nothing is printed at <"+g.heads[t]+">", m.And(is, ev.pc))
			} else if len(ev.loops) == 0 {
				prints = m.Or(prints, ev.pc)
			}
		}
		if t == kv {
			c.imp(e, "visitor", at, "something is printed at every <"+g.heads[t]+">", is, prints)
		}
		// the way down
		if reach[t] {
			d := False
			for i := range r.res.rets {
				d = m.Or(d, down(&r.res.rets[i]))
			}
			c.imp(e, "visitor", at, "the visitor goes on below <"+g.heads[t]+">, which can contain a key-value", is, d)
		}
		step := int64(0)
		if t == obj || t == arr {
			step = 1
		}
		for i := range r.res.rets {
			x := &r.res.rets[i]
			pc := m.And(is, down(x))
			if !reach[t] || !e.sat(pc) {
				continue
			}
			for _, l := range e.leaves(e.freeze(x.mem, x.vals[0])) {
				if g := m.And(pc, l.g); e.sat(g) {
					c.level(e, e.P.pos(x.pos), t, l.t, recv, g, step)
				}
			}
		}
	}
	// the text printed at a key-value
	path := keyPath(g, kv)
	if path == nil {
		c.fail("visitor", gw, "a key-value starts with its key in quotes", "other symbols")
		return
	}
	isKv := m.And(m.Not(e.isNil(node)), e.eq0(e.addc(T, int64(-kv))))
	shown := False
	for _, ev := range e.events {
		if ev.kind != "io" {
			continue
		}
		for _, a := range ev.args {
			if hasKeyText(e, a, node, path) {
				shown = m.Or(shown, ev.pc)
			}
		}
	}
	c.imp(e, "visitor", at, "the text between the quotes of the key is printed", isKv, shown)
}

// level: the visitor handed down counts one level more or is the same.
func (c *Check) level(e *Eng, at string, t int, v, recv *Term, pc B, step int64) {
	what := fmt.Sprintf("the visitor handed down from a node of type %d counts %d more", t, step)
	if v.op != "iface" {
		c.fail("visitor", at, what, "it is "+e.show(v))
		return
	}
	v = v.args[0]
	st, ok := recv.typ.Underlying().(*types.Struct)
	if !ok || v.typ != nil && pointee(v.typ) != nil {
		return // a visitor that is not a plain value
	}
	var changed []string
	up := 0
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		a, b := e.field(recv, i, ft), e.field(v, i, ft)
		if e.implies(pc, e.eqElem(a, b)) {
			continue
		}
		if b, ok := ft.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && e.implies(pc, e.eqInts(e.field(v, i, ft), e.addc(a, 1))) {
			up++
			continue
		}
		changed = append(changed, st.Field(i).Name()+" is "+e.show(b))
	}
	c.ob("visitor", at, what, int64(up) == step && len(changed) == 0, fmt.Sprintf("%d counted; %v", up, changed))
}

// keyPath: where the text of the key is below a key-value.
func keyPath(g *cgram, kv int) []int64 {
	var res []int64
	for _, a := range g.rules[kv] {
		for i, s := range a {
			if s.kind != 'n' {
				continue
			}
			k, ok := g.idx[s.s]
			if !ok || len(g.rules[k]) != 1 || len(g.rules[k][0]) != 3 || g.rules[k][0][0].kind != 't' || g.rules[k][0][1].kind != 'n' || g.rules[k][0][2] != g.rules[k][0][0] {
				break
			}
			p := []int64{int64(i), 1}
			if res != nil && res[0] != p[0] {
				return nil
			}
			res = p
			break
		}
	}
	return res
}

func hasKeyText(e *Eng, t, node *Term, path []int64) bool {
	seen := map[*Term]bool{}
	at := func(x *Term) bool {
		for i := len(path) - 1; i >= 0; i-- {
			if x.op != "index" {
				return false
			}
			if n, ok := x.args[1].isNum(); !ok || n != path[i] {
				return false
			}
			x = x.args[0]
			if x.op != "call" || x.k != "invoke.Childs" {
				return false
			}
			x = x.args[0]
		}
		return x == node
	}
	found := false
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || found {
			return
		}
		seen[t] = true
		if t.op == "slice" && len(t.args) == 3 {
			p, q := t.args[1], t.args[2]
			if p.op == "call" && p.k == "invoke.Pos" && q.op == "call" && q.k == "invoke.End" && p.args[0] == q.args[0] && at(p.args[0]) {
				found = true
			}
		}
		e.eachChild(t, walk)
	}
	walk(t)
	return found
}

// ---- C39: the JSON example goes from the two files to the walk, and stops
// at what fails.

func checkC39(c *Check) {
	const pkg = "examples/json"
	fn := c.P.fn(pkg, "main")
	if fn == nil {
		c.fail("analysis", pkg, "the example has a main function", "not found")
		return
	}
	e := newEng(c.P)
	e.initGlobals()
	m := e.bdd
	sr := newSteps(c, e, pkg)
	sr.opaque("SelfGrammar", c.P.fn("pkg/bnf", "SelfGrammar"))
	sr.opaque("FromGrammar", c.P.fn("pkg/bnf/tablegen", "FromGrammar"))
	sr.opaque("NewLL1Parser", c.P.fn("pkg/parser", "NewLL1Parser"))
	sr.opaque("SelfBindings", c.P.fn("pkg/bnf/fromcst", "SelfCSTtoASTBindings"))
	sr.opaque("ToAST", c.P.method("pkg/bnf/fromcst", "BNFCSTtoASTBindings", "ToAST"))
	sr.opaque("Walk", c.P.fn("pkg/cst", "Walk"))
	r := e.runFn(fn)
	c.use(e)
	at := where(e, fn)
	if r.err != "" {
		c.fail("analysis", at, "the example is analysed", r.err)
		return
	}
	// what can fail
	failed := False
	nfail := 0
	fails := func(pc B, err *Term) {
		nfail++
		failed = m.Or(failed, m.And(pc, m.Not(e.isNil(err))))
	}
	for _, n := range []string{"FromGrammar", "ToAST"} {
		for _, s := range sr.m[n] {
			fails(s.pc, s.res.args[len(s.res.args)-1])
		}
	}
	type parse struct {
		p, src, res *Term
		at          string
	}
	var parses []parse
	errT := types.Universe.Lookup("error").Type()
	reads := map[*Term]bool{}
	for _, ev := range e.events {
		switch {
		case ev.kind == "invoke" && ev.what == "Parse" && len(ev.args) == 2:
			t := e.mk("call", "invoke.Parse", nil, ev.args...)
			fails(ev.pc, e.mk("proj", "2", errT, t))
			parses = append(parses, parse{ev.args[0], ev.args[1], t, e.evPos(ev)})
		case ev.kind == "call-std" && (ev.what == "os.ReadFile" || ev.what == "io/ioutil.ReadFile"):
			t := e.mk("call", ev.what, nil, ev.args...)
			fails(ev.pc, e.mk("proj", "1", errT, t))
			reads[t] = true
		}
	}
	walks := sr.m["Walk"]
	if !c.ob("steps", at, "the tree is walked", len(walks) > 0, "Walk is not called") {
		return
	}
	walked := False
	for _, w := range walks {
		walked = m.Or(walked, w.pc)
		c.jsonChain(e, sr, w.at, w.pc, w.args[0], w.args[1], func(t *Term) (p, src *Term) {
			for _, x := range parses {
				if t.op == "proj" && t.k == "0" && t.args[0] == x.res {
					return x.p, x.src
				}
			}
			return nil, nil
		}, reads)
	}
	imp := func(pos, what string, pc, cond B) {
		f := m.And(pc, m.Not(cond))
		if !e.sat(f) || e.refute(f) {
			c.ob("status", pos, what, true, "")
			return
		}
		c.ob("status", pos, what, false, "possible: "+e.why(f))
	}
	ok := m.And(walked, m.Not(failed))
	exit := func(pos string, pc B, code *Term) {
		zero := e.eq0(code)
		imp(pos, "status 0 only if no step failed and the tree was walked", m.And(pc, zero), ok)
		imp(pos, "another status only if a step failed", m.And(pc, m.Not(zero)), failed)
	}
	n := 0
	for _, ev := range e.events {
		switch {
		case ev.kind == "exit":
			n++
			exit(e.evPos(ev), ev.pc, ev.args[0])
		case panicKind(ev.kind):
			imp(e.evPos(ev), "the example panics only if a step failed ("+ev.what+")", ev.pc, failed)
		}
	}
	for _, x := range r.res.rets {
		n++
		exit(e.P.pos(x.pos), x.pc, e.num(0))
	}
	c.ob("status", at, "the example ends", n > 0, "no exit found")
	c.ob("steps", at, "the steps that can fail are known", nfail >= 7 || nfail >= 6 && len(reads) > 0, fmt.Sprint(nfail, " found"))
}

// jsonChain: what is walked comes from the two files in the way it should.
func (c *Check) jsonChain(e *Eng, sr *exSteps, at string, pc B, v, tree *Term, parsed func(*Term) (p, src *Term), reads map[*Term]bool) {
	mem := newMem()
	no := func(what string, t *Term) {
		c.fail("steps", at, what, "it is "+e.show(t))
	}
	only := func(t *Term) *Term { return e.under(t, pc) }
	// the table some parser was made from
	table := func(p *Term) *Term {
		for _, s := range sr.m["NewLL1Parser"] {
			if s.res != p {
				continue
			}
			for _, f := range sr.m["FromGrammar"] {
				good := true
				for i := 0; i < 2; i++ {
					q := f.res.args[i]
					want := e.content(mem, e.extObj(q, pointee(q.typ)))
					if only(s.args[i]) != want && !e.implies(pc, e.eqTerms(s.args[i], want)) {
						good = false
					}
				}
				if good {
					return f.args[0]
				}
			}
		}
		return nil
	}
	file := func(src *Term) *Term {
		if src.op == "iface" {
			src = src.args[0]
		}
		src = only(src)
		x := src
		for x.op == "string" || x.op == "bytes" {
			x = x.args[0]
		}
		if x.op == "proj" && x.k == "0" && reads[x.args[0]] {
			return x
		}
		return nil
	}
	p1, src1 := parsed(only(tree))
	if p1 == nil {
		no("the tree walked is one that was parsed", tree)
		return
	}
	data := file(src1)
	if data == nil {
		no("the text parsed is that of a file", src1)
		return
	}
	g1 := table(p1)
	if g1 == nil {
		no("the parser is made from a table and its names", p1)
		return
	}
	var conv *exStep
	for i := range sr.m["ToAST"] {
		s := &sr.m["ToAST"][i]
		q := s.res.args[0]
		want := e.content(mem, e.extObj(q, pointee(q.typ)))
		if only(g1) == want || e.implies(pc, e.eqTerms(g1, want)) {
			conv = s
		}
	}
	if conv == nil {
		no("the table is that of the grammar converted", g1)
		return
	}
	c.ob("steps", conv.at, "the conversion is done with the self bindings", len(sr.m["SelfBindings"]) > 0 && only(conv.args[0]) == sr.m["SelfBindings"][0].res, "it is "+e.show(conv.args[0]))
	p0, src0 := parsed(only(conv.args[1]))
	if p0 == nil {
		no("the tree converted is one that was parsed", conv.args[1])
		return
	}
	bnf := file(src0)
	c.ob("steps", conv.at, "the grammar is that of a file", bnf != nil && bnf != data, "it is "+e.show(src0))
	c.ob("steps", conv.at, "the tree is converted with the text it was parsed from", bnf != nil && file(conv.args[2]) == bnf, "it is "+e.show(conv.args[2]))
	g0 := table(p0)
	c.ob("steps", at, "the grammar is parsed with the table of the self grammar", g0 != nil && len(sr.m["SelfGrammar"]) > 0 && only(g0) == sr.m["SelfGrammar"][0].res, "another grammar")
	// the visitor holds the text of the data
	has := false
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || has {
			return
		}
		seen[t] = true
		if file(t) == data {
			has = true
			return
		}
		if t.op == "ptr" && t.obj != nil {
			if x, ok := sr.held[t.obj]; ok {
				walk(x)
			}
		}
		e.eachChild(t, walk)
	}
	walk(v)
	c.ob("steps", at, "the visitor has the text of the tree it walks", has, "it is "+e.show(v))
}
