package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	reg("C02", "gated value-flow analysis per kind of source", checkC02)
	reg("C03", "ownership and effect analysis of every write", checkC03)
	reg("C04", "gated value-flow analysis of results and errors", checkC04)
	reg("C05", "gated value-flow analysis of the naming map", checkC05)
	reg("C09", "panic reachability over exact path conditions", checkC09)
	reg("C01", "gated value-flow analysis of the matching machine", checkC01)
	reg("C06", "stack effects of the machine's transfer function", checkC06)
	reg("C07", "gated value-flow analysis of node positions", checkC07)
	reg("C08", "path conditions of the machine's transfer function", checkC08)
}

// C01: acceptance
func checkC01(c *Check) {
	m := c.machine()
	if m == nil {
		return
	}
	e := m.e
	c.initObl(m)
	if !e.sat(m.success) {
		c.fail("accept", m.where, "Parse can succeed", "no path returns a nil error")
	}
	// the state at the exit taken
	c.imp(e, "accept", m.where, "Parse returns a nil error only after leaving its main loop with the whole source read", m.success, m.atEnd)
	c.matchObl(m)
	c.groupObl(m, true, false, false, false)
}

// matchObl: the reading position moves by one, exactly past a matched byte.
func (c *Check) matchObl(m *Machine) {
	e := m.e
	isC := m.is(m.charTs[0])
	eq := e.bdd.And(e.bdd.Not(m.atEnd), e.eqTerms(m.charVal(), m.peek))
	c.imp(e, "match", m.where, "a byte operation goes on only if a byte is left and equals its own", e.bdd.And(m.back, isC), eq)
	c.imp(e, "match", m.where, "a byte operation moves the position by exactly one", e.bdd.And(m.back, isC), e.eqTerms(m.O.next, e.addc(m.o, 1)))
	c.imp(e, "match", m.where, "no other operation moves the position", e.bdd.And(m.back, e.bdd.Not(isC)), e.eqTerms(m.O.next, m.o))
}

func checkC06(c *Check) {
	m := c.machine()
	if m == nil {
		return
	}
	c.initObl(m)
	c.groupObl(m, true, false, true, true)
	c.buildObl(m, true, false)
	c.resultObl(m)
}

func checkC07(c *Check) {
	m := c.machine()
	if m == nil {
		return
	}
	c.initObl(m)
	c.matchObl(m)
	c.groupObl(m, true, true, true, false)
	c.buildObl(m, false, true)
}

// lemma replaces the number of parts of a building operation by the size of
// the node stack less some 0 <= δ <= size: every building operation was pushed
// below exactly as many operations as it takes parts, each of which leaves
// one node (checked by groupObl and buildObl).
func (m *Machine) lemma() (map[*Term]*Term, *Term, B) {
	e := m.e
	d := e.mk("sym", "δ", types.Typ[types.Int])
	e.nonneg[d] = true
	a := e.sub(e.lenOf(m.n), d)
	amt := m.fieldOf(m.top, m.funTs[0], m.fAmt)
	return map[*Term]*Term{amt: a}, a, e.le0(e.scale(a, -1))
}

type nodeCase struct {
	what                   string
	pc                     B
	typ, pos, end, childs  *Term
	pos2                   *Term
	drop                   *Term
	childFree, nothing, ok bool
}

// buildObl: the effect of every operation on the stack of nodes.
func (c *Check) buildObl(m *Machine, shape, pos bool) {
	e := m.e
	F := m.funTs[0]
	name := m.fieldOf(m.top, F, m.fName)
	sub, a, fact := m.lemma()
	sb := func(b B) B { return e.substB(b, sub, map[*Term]*Term{}) }
	st := func(t *Term) *Term { return e.subst(t, sub, map[*Term]*Term{}) }
	isF := e.bdd.And(m.back, m.is(F))
	lit := e.eqTerms(name, m.litType)
	zero := e.eq0(a)
	pcF := e.bdd.And(fact, sb(isF))
	var cases []nodeCase
	n := st(m.n)
	var start *Term
	if m.fPos >= 0 {
		start = m.fieldOf(m.top, F, m.fPos)
	}
	nodes := e.slice(n, e.sub(st(e.lenOf(m.n)), a), st(e.lenOf(m.n)))
	cases = append(cases,
		nodeCase{what: "an empty production", pc: e.bdd.AndN(pcF, zero, e.bdd.Not(lit)), typ: name, pos: start, pos2: m.o, end: m.o, nothing: true, drop: e.num(0)},
		nodeCase{what: "a production with symbols", pc: e.bdd.AndN(pcF, e.bdd.Not(zero), e.bdd.Not(lit)), typ: name, pos: start, end: m.o, childs: nodes, drop: a},
		nodeCase{what: "a terminal", pc: e.bdd.AndN(pcF, e.bdd.Not(zero), lit), typ: m.litType, pos: start, end: m.o, childFree: true, drop: a})
	pcC := e.bdd.And(m.back, m.is(m.charTs[0]))
	cases = append(cases, nodeCase{what: "a byte", pc: pcC, typ: m.litType, pos: m.o, end: e.addc(m.o, 1), childFree: true, drop: e.num(0)})
	for _, k := range cases {
		if !e.sat(k.pc) {
			c.fail("node", m.where, "Parse goes on after "+k.what, "no path does")
			continue
		}
		ln := e.lenOf(m.n)
		nn := m.n
		if k.what != "a byte" {
			ln, nn = st(ln), n
		}
		rest := e.slice(nn, e.num(0), e.sub(ln, k.drop))
		lv := *m.N
		if k.what != "a byte" {
			lv.next = e.deep(st(m.N.next), k.pc)
		}
		for _, p := range m.pushesLen(&lv, k.pc, rest, ln) {
			segs := []*Term{}
			if p.pop {
				segs = e.segs(p.list)
			}
			if !p.pop || len(segs) != 1 || segs[0].op != "elem" {
				c.fail("node", m.where, k.what+" leaves exactly one node in place of the nodes of its parts", "the stack becomes "+e.show(p.all))
				continue
			}
			c.nodeObl(m, k, p.g, segs[0].args[0], shape, pos, start)
		}
	}
	// no other kind of operation touches the nodes
	other := e.bdd.AndN(m.back, e.bdd.Not(m.is(F)), e.bdd.Not(m.is(m.charTs[0])))
	same, why := e.listEq(e.under(m.N.next, other), m.n, other)
	c.ob("node", m.where, "the other operations leave the stack of nodes alone", same, why)
}

func (m *Machine) pushesLen(v *LoopVar, pc B, rest, ln *Term) []push { return m.pushes(v, pc, rest) }

func (c *Check) nodeObl(m *Machine, k nodeCase, g B, node *Term, shape, pos bool, start *Term) {
	e := m.e
	get := func(x *Term, name string) *Term {
		r := e.accessor(x, name, g)
		if r == nil {
			return nil
		}
		return e.deep(r, g)
	}
	check := func(x *Term, label, field string, pc B, want ...*Term) {
		v := get(x, field)
		if v == nil {
			c.fail("node", m.where, label, "the node is "+e.show(x))
			return
		}
		cond := False
		for _, w := range want {
			if w != nil {
				cond = e.bdd.Or(cond, e.eqTerms(v, w))
			}
		}
		if !e.implies(pc, cond) {
			c.fail("node", m.where, label, "it is "+e.show(v))
			return
		}
		c.ob("node", m.where, label, true, "")
	}
	if shape {
		check(node, "the node of "+k.what+" has the type of its symbol", "Type", g, k.typ)
	}
	if pos {
		check(node, "the node of "+k.what+" starts where its symbol was started", "Pos", g, k.pos, k.pos2)
		end2 := k.end
		if k.nothing && start != nil {
			end2 = start // nothing is read between the two
		}
		check(node, "the node of "+k.what+" ends at the position reached", "End", g, k.end, end2)
	}
	ch := get(node, "Childs")
	if ch == nil {
		c.fail("node", m.where, "the children of the node of "+k.what+" are known", "the node is "+e.show(node))
		return
	}
	switch {
	case k.childFree:
		if shape {
			c.imp(e, "node", m.where, "the node of "+k.what+" has no children", g, e.eq0(e.lenOf(ch)))
		}
	case k.nothing:
		segs := e.segs(ch)
		if len(segs) != 1 || segs[0].op != "elem" {
			c.fail("node", m.where, "the node of "+k.what+" has exactly one child", "children: "+e.show(ch))
			return
		}
		x := segs[0].args[0]
		if shape {
			check(x, "the child of "+k.what+" has the type of empty nodes", "Type", g, e.num(-2))
			cc := get(x, "Childs")
			c.ob("node", m.where, "the child of "+k.what+" has no children", cc != nil && e.implies(g, e.eq0(e.lenOf(cc))), e.show(cc))
		}
		if pos {
			check(x, "the child of "+k.what+" starts where the production was used", "Pos", g, m.o, start)
			check(x, "the child of "+k.what+" ends where the production was used", "End", g, m.o, start)
		}
	default:
		if shape {
			ok, why := e.listEq(ch, k.childs, g)
			c.ob("node", m.where, "the node of "+k.what+" has the nodes of its symbols as children, in order", ok, why)
		}
	}
}

// resultObl: the tree returned is the last node on the stack.
func (c *Check) resultObl(m *Machine) {
	e := m.e
	want := e.index(m.n, e.addc(e.lenOf(m.n), -1))
	for _, r := range m.run.res.rets {
		if len(r.vals) != 3 {
			continue
		}
		ok := e.bdd.And(r.pc, e.isNil(e.freeze(r.mem, r.vals[2])))
		if !e.sat(ok) {
			continue
		}
		got := e.deep(e.freeze(r.mem, r.vals[0]), ok)
		first := e.index(m.n, e.num(0))
		good := got == want || got == first || e.implies(ok, e.eqTerms(got, want))
		c.ob("result", e.P.pos(r.pos), "the tree returned is the node of the start symbol", good, "it is "+e.show(got))
	}
}

func checkC08(c *Check) {
	m := c.machine()
	if m == nil {
		return
	}
	e := m.e
	c.initObl(m)
	c.groupObl(m, true, false, false, false)
	c.goOn(m)
	// parsing starts whenever the table has a row for non-terminal 0
	c.imp(e, "go-on", m.where, "parsing starts whenever the table has a row for non-terminal 0", e.bdd.And(e.mapHas(m.table, e.num(0)), e.bdd.Not(e.le0(e.mapLen(m.table)))), m.start)
	c.imp(e, "go-on", m.where, "Parse fails if the table has no row for non-terminal 0", m.success, e.mapHas(m.table, e.num(0)))
	c.stuck(m)
}

// goOn: the exact condition under which each kind of operation goes on.
func (c *Check) goOn(m *Machine) {
	e := m.e
	name := m.ntName()
	nonempty := e.bdd.Not(e.le0(e.lenOf(m.s)))
	nt := e.bdd.And(nonempty, m.is(m.ntT))
	mt := m.table.typ.Underlying().(*types.Map)
	has := e.mapHas(m.table, name)
	row := e.mapGet(m.table, name, mt.Elem())
	pos := e.le0(e.scale(name, -1))
	not := e.bdd.Not
	cellIn, cellEnd := e.mapHas(row, m.peek), e.mapHas(row, e.byteConst(0))
	c.same(e, "go-on", m.where, "a non-terminal is expanded before the end of the source exactly if the table has a cell for the next byte", e.bdd.AndN(m.entry, nt, pos, not(m.atEnd)), m.back, e.bdd.And(has, cellIn))
	c.same(e, "go-on", m.where, "a non-terminal is expanded at the end of the source exactly if the table has a cell for the zero byte", e.bdd.AndN(m.entry, nt, pos, m.atEnd), m.back, e.bdd.And(has, cellEnd))
	eol := e.bdd.AndN(e.eqTerms(name, e.num(-2)), not(m.atEnd), e.bdd.Or(e.eqTerms(m.peek, e.byteConst('\n')), e.eqTerms(m.peek, e.byteConst('\r'))))
	c.same(e, "go-on", m.where, "a negative non-terminal is expanded exactly if it is the built-in end of line at a line feed or carriage return", e.bdd.AndN(m.entry, nt, not(pos)), m.back, eol)
	c.imp(e, "go-on", m.where, "a terminal is always expanded", e.bdd.AndN(m.entry, nonempty, m.is(m.tT)), m.back)
	eq := e.bdd.And(not(m.atEnd), e.eqTerms(m.charVal(), m.peek))
	c.same(e, "go-on", m.where, "a byte operation goes on exactly if its byte is next", e.bdd.AndN(m.entry, nonempty, m.is(m.charTs[0])), m.back, eq)
}

// stuck: leaving the loop at a symbol is an error, having built the root is
// a success.
func (c *Check) stuck(m *Machine) {
	e := m.e
	nonempty := e.bdd.Not(e.le0(e.lenOf(m.s)))
	// leaving the loop on any of these is an error
	bad := e.bdd.Or(m.is(m.ntT), e.bdd.Or(m.is(m.tT), e.bdd.Or(m.is(m.charTs[0]), m.is(m.funTs[0]))))
	for i, x := range m.main.exits {
		pc := e.bdd.AndN(m.success, e.exitAtom(m.main, i), x.pc)
		c.never(e, "go-on", m.where, "stopping at a symbol that cannot be matched is an error", e.bdd.And(pc, e.bdd.And(nonempty, bad)))
	}
	// a node of the start symbol and nothing left over is success
	end := e.bdd.AndN(m.atEnd, e.bdd.Not(e.le0(e.lenOf(m.n))))
	for i, x := range m.main.exits {
		done := e.bdd.AndN(x.pc, e.exitAtom(m.main, i), e.bdd.Or(e.bdd.Not(nonempty), e.bdd.Not(bad)))
		known := False
		for _, k := range m.ot {
			known = e.bdd.Or(known, m.is(k))
		}
		done = e.bdd.And(done, e.bdd.Or(e.bdd.Not(nonempty), known))
		if e.sat(done) && len(m.ot) > 0 {
			done = e.bdd.AndN(done, nonempty, m.entry)
			c.imp(e, "go-on", m.where, "having built the node of the start symbol with the whole source read is a success", e.bdd.And(done, end), m.success)
		}
	}
}

// clean: the run used nothing the analysis does not know.
func (c *Check) clean(e *Eng, r *Run, kinds ...string) {
	n := 0
	for _, ev := range e.events {
		switch ev.kind {
		case "unsupported", "call-unknown", "recursion", "go", "call-std":
			if e.sat(ev.pc) {
				c.fail("coverage", e.evPos(ev), "the analysis knows every operation Parse uses", ev.kind+" "+ev.what)
				n++
			}
		}
	}
	if n == 0 {
		c.ob("coverage", "all analysed functions", "the analysis knows every operation used", true, "")
	}
}

func (c *Check) parseRun() *Run {
	r := parseG(c)
	c.use(r.e)
	if r.err != "" {
		c.fail("machine", "pkg/parser", "Parse can be analysed", r.err)
		return nil
	}
	return r
}

type sourceKind struct {
	what string
	text *Term
	pc   B
}

func (c *Check) sources(r *Run) []sourceKind {
	e := r.e
	src := r.args[2]
	str := types.Typ[types.String]
	byt := types.NewSlice(types.Universe.Lookup("byte").Type())
	isS, isB := e.isType(src, str), e.isType(src, byt)
	ks := []sourceKind{
		{"a string", e.unbox(src, str), isS},
		{"a byte slice", e.unbox(src, byt), isB},
	}
	var bufPC B = False
	for _, a := range e.termList {
		if a.op == "unbox" && a.args[0] == src && strings.HasSuffix(a.k, "bytes.Buffer") {
			T := a.aux.(types.Type)
			bufPC = e.isType(src, T)
			for _, t := range e.termList {
				if t.op == "call" && len(t.args) == 1 && t.args[0] == a && (t.k == "(*bytes.Buffer).Bytes" || t.k == "(*bytes.Buffer).String") {
					ks = append(ks, sourceKind{"a *bytes.Buffer", t, e.bdd.And(bufPC, e.bdd.Not(e.isNil(a)))})
				}
			}
			break
		}
	}
	for _, t := range e.termList {
		if t.op == "proj" && t.k == "0" && t.args[0].op == "call" && t.args[0].k == "io.ReadAll" && len(t.args[0].args) == 1 && t.args[0].args[0] == src {
			for _, a := range e.atoms {
				if a.op == "is" && a.args[0] == src && strings.HasSuffix(a.k, "io.Reader") {
					pc := e.bdd.AndN(e.atomVar(a), e.bdd.Not(isS), e.bdd.Not(isB), e.bdd.Not(bufPC), e.isNil(e.mk("proj", "1", nil, t.args[0])))
					ks = append(ks, sourceKind{"an io.Reader", t, pc})
				}
			}
		}
	}
	return ks
}

func checkC02(c *Check) {
	r := c.parseRun()
	if r == nil {
		return
	}
	e := r.e
	c.clean(e, r)
	valid := False
	seen := map[string]bool{}
	ready := e.bdd.And(e.mapHas(r.args[0], e.num(0)), e.bdd.Not(e.le0(e.mapLen(r.args[0]))))
	for _, k := range c.sources(r) {
		if !e.sat(k.pc) {
			continue
		}
		seen[k.what] = true
		valid = e.bdd.Or(valid, k.pc)
		m := machineFor(c, k.text, k.pc)
		if m.err != "" {
			c.fail("source", "pkg/parser Parse", "given "+k.what+" Parse matches exactly its bytes", m.err)
			continue
		}
		n0 := len(c.obls)
		c.imp(e, "source", m.where, "given a valid source Parse starts matching", e.bdd.And(ready, k.pc), m.start)
		c.matchObl(m)
		c.groupObl(m, false, false, false, false)
		c.imp(e, "accept", m.where, "a nil error means that the whole source was read", m.success, m.atEnd)
		c.goOn(m)
		for _, o := range c.obls[n0:] {
			o.What = "given " + k.what + ": " + o.What
		}
		// nothing else is read
		for _, a := range e.atoms {
			_ = a
		}
	}
	for _, w := range []string{"a string", "a byte slice", "a *bytes.Buffer", "an io.Reader"} {
		c.ob("source", "pkg/parser Parse", "Parse handles "+w+" by its own bytes", seen[w], "no path of Parse takes the bytes of such a source whole")
	}
	succ := False
	for _, x := range r.res.rets {
		if len(x.vals) == 3 {
			succ = e.bdd.Or(succ, e.bdd.And(x.pc, e.isNil(e.freeze(x.mem, x.vals[2]))))
		}
	}
	c.imp(e, "refuse", "pkg/parser Parse", "Parse succeeds only for a string, a byte slice, a non-nil *bytes.Buffer or a reader that delivered without error", succ, valid)
	for _, ev := range e.events {
		if (ev.kind == "nilderef" || ev.kind == "typeassert") && len(ev.loops) == 0 {
			mentions := false
			for _, a := range ev.args {
				if e.mentions(a, r.args[2]) {
					mentions = true
				}
			}
			if mentions {
				c.never(e, "refuse", e.evPos(ev), "an invalid source is refused with an error, not a panic", ev.pc)
			}
		}
	}
}

// owned: effects on memory that was not allocated in this call.
func (c *Check) owned(e *Eng, what string) {
	n := 0
	for _, ev := range e.events {
		switch ev.kind {
		case "store-ext", "append-ext", "store-global", "consume-ext":
			n++
			c.never(e, "effects", e.evPos(ev), what+": "+ev.what, ev.pc)
		case "mapwrite", "mapdelete":
			n++
			c.ob("effects", e.evPos(ev), what+": "+ev.what, true, "")
		case "call-std", "call-unknown", "unsupported", "go", "recursion":
			n++
			c.never(e, "effects", e.evPos(ev), "every call made has known effects: "+ev.kind+" "+ev.what, ev.pc)
		}
	}
	c.note["effect_sites"] = n
	if n == 0 {
		c.ob("effects", "all analysed functions", what+": no write to memory not allocated in the call", true, "")
	}
}

func checkC03(c *Check) {
	r := c.parseRun()
	if r == nil {
		return
	}
	e := r.e
	c.owned(e, "Parse writes only to memory of its own")
	for _, ev := range e.events {
		if ev.kind == "invoke" && len(ev.args) > 0 && e.mentions(ev.args[0], r.args[2]) {
			c.never(e, "effects", e.evPos(ev), "the only method called on the source is that of a reader", ev.pc)
		}
		if ev.kind == "readall" && len(ev.args) > 0 {
			if T := c.P.stdType("bytes", "Buffer"); T != nil {
				c.never(e, "effects", e.evPos(ev), "a *bytes.Buffer given as the source is not read empty", e.bdd.And(ev.pc, e.isType(ev.args[0], types.NewPointer(T))))
			}
		}
	}
	// what is returned is new
	for _, x := range r.res.rets {
		if len(x.vals) != 3 {
			continue
		}
		ok := e.bdd.And(x.pc, e.isNil(e.freeze(x.mem, x.vals[2])))
		if !e.sat(ok) {
			continue
		}
		why := e.notFresh(x.mem, x.vals[1], ok)
		c.ob("fresh", e.P.pos(x.pos), "the naming map returned was made in this call", why == "", why)
	}
	m := c.machine()
	if m == nil {
		return
	}
	c.freshChildren(m)
}

// notFresh explains why a returned pointer to a map is not new.
func (e *Eng) notFresh(mem *Mem, t *Term, pc B) string {
	if !e.sat(pc) {
		return ""
	}
	switch t.op {
	case "phi":
		for _, l := range e.leaves(t) {
			if w := e.notFresh(mem, l.t, e.bdd.And(pc, l.g)); w != "" {
				return w
			}
		}
		return ""
	case "nil":
		return ""
	case "ptr":
		if t.obj.ext || t.obj.kind == "global" || foreignKey(t.obj.key) {
			return "it points to " + e.show(t)
		}
		v := e.access(e.content(mem, t.obj), pathSteps(t.k), t.args, t.obj.typ)
		return e.notFresh(mem, v, pc)
	case "mref":
		if t.obj.ext || foreignKey(t.obj.key) {
			return "it is a map that outlives the call"
		}
		return ""
	}
	return "it is " + e.show(t)
}

func foreignKey(k string) bool { return strings.HasPrefix(k, "init:") || strings.HasPrefix(k, "new/") }

// freshChildren: the lists of children do not share memory with the stack of
// nodes, which is overwritten later.
func (c *Check) freshChildren(m *Machine) {
	e := m.e
	n := 0
	var bad *Term
	var visit func(t *Term, seen map[*Term]bool)
	var alias func(t *Term) bool
	alias = func(t *Term) bool {
		switch t.op {
		case "phi":
			for _, a := range t.args {
				if alias(a) {
					return true
				}
			}
		case "slice", "mu":
			return !e.zeroLen(t)
		}
		return false
	}
	visit = func(t *Term, seen map[*Term]bool) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "struct" {
			for _, a := range t.args {
				n++
				if alias(a) && (a.op == "slice" || isSliceTyp(a)) {
					bad = a
				}
			}
		}
		if t.op == "mu" || t.op == "unbox" {
			return
		}
		for _, a := range t.args {
			visit(a, seen)
		}
	}
	visit(m.N.next, map[*Term]bool{})
	d := ""
	if bad != nil {
		d = "it is " + e.show(bad)
	}
	c.ob("fresh", m.where, "the children of a new node have memory of their own, apart from the stack of nodes", bad == nil, d)
	c.ob("fresh", m.where, "new nodes are recognised", n > 0, "no node is built")
}

func isSliceTyp(t *Term) bool {
	if t.typ == nil {
		return false
	}
	_, ok := t.typ.Underlying().(*types.Slice)
	return ok
}

func (e *Eng) zeroLen(t *Term) bool {
	n, ok := e.lenOf(t).isNum()
	return ok && n == 0
}

// nodesNonNil: all nodes ever put on the stack of nodes are non-nil. It
// returns the assumption that its elements are.
func (m *Machine) nodesNonNil() B {
	e := m.e
	ok := true
	var walk func(t *Term)
	walk = func(t *Term) {
		for _, l := range e.leaves(t) {
			x := l.t
			if x == m.n || (x.op == "slice" && x.args[0] == m.n) {
				continue
			}
			for _, s := range e.segs(x) {
				switch s.op {
				case "elem":
					for _, y := range e.leaves(s.args[0]) {
						if y.t.op != "iface" {
							ok = false
						}
					}
				case "all", "sub":
					if s.args[0] != m.n {
						ok = false
					}
				default:
					ok = false
				}
			}
		}
	}
	walk(e.under(m.N.next, m.back))
	walk(m.N.init)
	if !ok {
		return True
	}
	r := True
	for i := range e.atoms {
		a := e.atoms[i]
		if a.op == "isnil" && a.args[0].op == "index" && a.args[0].args[0] == m.n {
			r = e.bdd.And(r, e.bdd.Not(e.bdd.Var(i)))
		}
	}
	return r
}

func checkC04(c *Check) {
	r := c.parseRun()
	if r == nil {
		return
	}
	e := r.e
	c.clean(e, r)
	m := machineFor(c, e.unbox(r.args[2], types.Typ[types.String]), True)
	nn := True
	if m.main != nil {
		nn = m.nodesNonNil()
	} else {
		c.fail("machine", "pkg/parser", "Parse is a stack machine the analysis understands", m.err)
	}
	some := False
	for _, x := range r.res.rets {
		at := e.P.pos(x.pos)
		if len(x.vals) != 3 {
			continue
		}
		v := func(i int) *Term { return e.freeze(x.mem, x.vals[i]) }
		ok := e.isNil(v(2))
		for _, t := range []*Term{v(0), v(1)} {
			e.isNil(t)
		}
		if m.main != nil {
			nn = m.nodesNonNil()
		}
		some = e.bdd.Or(some, e.bdd.And(x.pc, ok))
		fail := e.bdd.And(x.pc, e.bdd.Not(ok))
		good := e.bdd.AndN(x.pc, ok, nn)
		c.imp(e, "results", at, "with an error the tree is nil", fail, e.isNil(v(0)))
		c.imp(e, "results", at, "with an error the naming map is nil", fail, e.isNil(v(1)))
		c.imp(e, "results", at, "without an error the tree is not nil", good, e.bdd.Not(e.isNil(v(0))))
		c.imp(e, "results", at, "without an error the naming map is not nil", good, e.bdd.Not(e.isNil(v(1))))
	}
	c.ob("results", "pkg/parser Parse", "Parse can succeed", e.sat(some), "no path returns a nil error")
	// failures are reported
	for _, ev := range e.events {
		if ev.kind == "readall" {
			res := e.mk("proj", "1", nil, e.mk("call", "io.ReadAll", nil, ev.args...))
			found := false
			for _, a := range e.atoms {
				if a.op == "isnil" && a.args[0].op == "proj" && a.args[0].k == "1" && a.args[0].args[0].op == "call" && a.args[0].args[0].k == "io.ReadAll" {
					found = true
					c.imp(e, "failures", e.evPos(ev), "an error of the reader is never turned into a success", e.bdd.And(some, ev.pc), e.atomVar(a))
				}
			}
			c.ob("failures", e.evPos(ev), "the error of the reader is looked at", found, "the error of io.ReadAll is dropped"+fmt.Sprint(res == nil)[:0])
		}
	}
	m1 := c.machine()
	if m1 == nil {
		return
	}
	c.imp(m1.e, "failures", m1.where, "source left over is never turned into a success", m1.success, m1.atEnd)
	c.stuck(m1)
}

func checkC05(c *Check) {
	r := c.parseRun()
	if r == nil {
		return
	}
	e := r.e
	names := r.args[1]
	lit, ok := c.constOf("pkg/parser", "BuiltinTerminal")
	c.ob("names", "pkg/parser", "the constant BuiltinTerminal is exported", ok, "not found")
	n := 0
	for _, x := range r.res.rets {
		if len(x.vals) != 3 {
			continue
		}
		good := e.bdd.And(x.pc, e.isNil(e.freeze(x.mem, x.vals[2])))
		if !e.sat(good) {
			continue
		}
		at := e.P.pos(x.pos)
		mp := e.freeze(x.mem, x.vals[1])
		for _, l := range e.leaves(mp) {
			g := e.bdd.And(good, l.g)
			if !e.sat(g) {
				continue
			}
			n++
			t := l.t
			if t.op == "fptr" {
				t = t.args[0]
			}
			if t.op == "fmap" {
				t = t.args[0]
			} else {
				c.fail("names", at, "the naming map returned is a map made by Parse", "it is "+e.show(l.t))
				continue
			}
			for _, k := range []struct {
				key  *Term
				what string
			}{{e.num(lit), "_literal"}, {e.num(-2), "_nothing"}} {
				has, v := e.lookup(t, k.key, g)
				c.imp(e, "names", at, fmt.Sprintf("the map holds a name for type %s", e.show(k.key)), g, has)
				c.ob("names", at, fmt.Sprintf("the name of type %s is %q", e.show(k.key), k.what), v == e.str(k.what), "it is "+e.show(v))
			}
			K := e.mk("sym", "K", types.Typ[types.Int])
			pc := e.bdd.AndN(g, e.bdd.Not(e.eqTerms(K, e.num(lit))), e.bdd.Not(e.eqTerms(K, e.num(-2))))
			has, v := e.lookup(t, K, pc)
			c.same(e, "names", at, "the map has exactly the other keys of the given names", pc, has, e.mapHas(names, K))
			want := e.mapGet(names, K, types.Typ[types.String])
			c.ob("names", at, "the other names are those given", v == want, "the name of K is "+e.show(v))
		}
	}
	c.ob("names", "pkg/parser Parse", "a naming map is returned on success", n > 0, "none found")
	// literal nodes have the type of the constant
	m := c.machine()
	if m == nil {
		return
	}
	c.buildObl(m, true, false)
}

// lookup finds a key in a map content under pc, where every comparison of
// keys is decided.
func (e *Eng) lookup(t, k *Term, pc B) (B, *Term) {
	switch t.op {
	case "phi":
		has := False
		var vs []gv
		for _, l := range e.leaves(t) {
			g := e.bdd.And(pc, l.g)
			if !e.sat(g) {
				continue
			}
			h, v := e.lookup(l.t, k, g)
			has = e.bdd.Or(has, e.bdd.And(l.g, h))
			vs = append(vs, gv{l.g, v})
		}
		if len(vs) == 1 {
			return has, vs[0].t
		}
		same := true
		for _, v := range vs {
			if v.t != vs[0].t {
				same = false
			}
		}
		if same && len(vs) > 0 {
			return has, vs[0].t
		}
		return has, e.phi(vs)
	case "mapstore":
		q := e.eqTerms(t.args[1], k)
		if e.implies(pc, q) {
			return True, t.args[2]
		}
		if !e.sat(e.bdd.And(pc, q)) {
			return e.lookup(t.args[0], k, pc)
		}
	case "mapunion":
		h2, v2 := e.lookup(t.args[1], k, pc)
		h1, v1 := e.lookup(t.args[0], k, pc)
		if h2 == False {
			return h1, v1
		}
		if h1 == False {
			return h2, v2
		}
	case "mapfilter":
		q := e.filterGate(t, k)
		if e.implies(pc, q) {
			return e.lookup(t.args[0], k, pc)
		}
		if !e.sat(e.bdd.And(pc, q)) {
			return False, e.zeroTerm(types.Typ[types.String])
		}
	case "fmap":
		return e.lookup(t.args[0], k, pc)
	}
	return e.mapHas(t, k), e.mapGet(t, k, types.Typ[types.String])
}

// checkC09: no panic
func checkC09(c *Check) {
	r := c.parseRun()
	if r == nil {
		return
	}
	e := r.e
	c.clean(e, r)
	m := c.machine()
	if m == nil {
		return
	}
	// the discipline the lemma rests on
	c.initObl(m)
	c.groupObl(m, true, false, true, true)
	c.buildObl(m, true, false)
	c.panics(m)
	// what happens around the main loop, for every kind of source
	mg := machineFor(c, e.unbox(r.args[2], types.Typ[types.String]), True)
	past := True
	if mg.err == "" {
		past = mg.pastEnd()
	}
	for _, k := range c.sources(r) {
		if m := machineFor(c, k.text, k.pc); m.err == "" {
			past = e.bdd.And(past, e.bdd.Imp(k.pc, m.inv))
		}
	}
	for _, ev := range e.events {
		if !panicKind(ev.kind) || len(ev.loops) > 0 {
			continue
		}
		c.never(e, "panic", e.evPos(ev), "unreachable: "+ev.kind+" "+ev.what, e.bdd.And(ev.pc, past))
	}
}

func panicKind(k string) bool {
	switch k {
	case "bounds", "nilderef", "typeassert", "panic", "nilmap", "nilcall", "recursion", "divzero":
		return true
	}
	return false
}

// panics: every instruction that could panic is unreachable.
func (c *Check) panics(m *Machine) {
	e := m.e
	sub, _, fact := m.lemma()
	name := m.fieldOf(m.top, m.funTs[0], m.fName)
	ops := map[string]int{}
	for _, ev := range e.events {
		if !panicKind(ev.kind) {
			continue
		}
		ops[ev.kind]++
		pc := ev.pc
		if !e.sat(pc) {
			c.ob("panic", e.evPos(ev), "unreachable: "+ev.kind+" "+ev.what, true, "")
			continue
		}
		// conjoin what is known about the atoms of the condition
		for _, v := range e.supportClosure(pc) {
			if a, ok := e.attached[v]; ok {
				pc = e.bdd.And(pc, e.bdd.Imp(e.bdd.Var(v), a))
			}
		}
		pc = e.bdd.And(fact, e.substB(pc, sub, map[*Term]*Term{}))
		pc = e.filled(pc)
		pc = e.bdd.And(pc, m.invariants(pc, name, len(ev.loops) == 0))
		c.never(e, "panic", e.evPos(ev), "unreachable: "+ev.kind+" "+ev.what, pc)
	}
	c.note["panic_sites_by_kind"] = ops
}

// filled: where all elements of an array are known to be written, what they
// are takes the place of the writes.
func (e *Eng) filled(pc B) B {
	fills := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "fill" {
			fills[t] = true
		}
		for _, a := range t.args {
			walk(a)
		}
		if t.lin != nil {
			for _, x := range t.lin.ts {
				walk(x.t)
			}
		}
		for _, b := range append([]B{t.b}, t.bs...) {
			if b > True {
				for _, v := range e.bdd.Support(b) {
					walk(e.atoms[v])
				}
			}
		}
	}
	for _, v := range e.bdd.Support(pc) {
		walk(e.atoms[v])
	}
	sub := map[*Term]*Term{}
	for t := range fills {
		if d := e.deep(t, pc); d != t {
			sub[t] = d
		}
	}
	if len(sub) == 0 {
		return pc
	}
	return e.substB(pc, sub, map[*Term]*Term{})
}

// invariants of the two stacks: the stack of operations is not empty before
// the end mark is taken, no node is nil, and the nodes combined by the
// building operation of a terminal are those of its bytes.
// after says that the state of the main loop is its last one: in a round it
// is the state of that round, of which how the loop is left says nothing.
func (m *Machine) invariants(pc B, name *Term, after bool) B {
	e := m.e
	r := e.bdd.And(m.inv, e.bdd.Not(e.le0(e.lenOf(m.s))))
	nn := m.nodesNonNil()
	r = e.bdd.And(r, nn)
	lit := e.eqTerms(name, m.litType)
	for _, v := range e.supportClosure(pc) {
		at := e.atoms[v]
		if at.op != "eq0" && at.op != "ex" {
			continue
		}
		r = e.bdd.And(r, m.litFact(v, at, lit))
	}
	if after {
		r = e.bdd.And(r, m.pastEnd())
	}
	return r
}

// pastEnd: the stack of operations runs empty only past the end mark, which
// is never pushed back.
func (m *Machine) pastEnd() B {
	e := m.e
	r := True
	segs := e.segs(m.S.init)
	if len(m.ot) > 0 && len(segs) > 1 && segs[0].op == "elem" {
		for i, x := range m.main.exits {
			if e.implies(x.pc, e.le0(e.lenOf(m.s))) {
				r = e.bdd.And(r, e.bdd.Not(e.exitAtom(m.main, i)))
			}
		}
	}
	return r
}

func (m *Machine) litFact(v int, at *Term, lit B) B {
	e := m.e
	if at.op == "ex" {
		return True
	}
	for _, x := range e.toLin(at.args[0]).ts {
		t := x.t
		if t.op == "call" && strings.HasSuffix(t.k, ".Type") && len(t.args) == 1 && t.args[0].op == "index" && t.args[0].args[0] == m.n {
			if e.eqTerms(t, m.litType) == e.bdd.Var(v) {
				return e.bdd.Imp(lit, e.bdd.Var(v))
			}
		}
	}
	return True
}
