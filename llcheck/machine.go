package main

import (
	"fmt"
	"go/types"
	"sort"
)

// Machine is what the analysis of Parse finds out about the stack machine.
type Machine struct {
	e       *Eng
	run     *Run
	err     string
	text    *Term
	table   *Term
	names   *Term
	main    *LoopInst
	S, N, O *LoopVar
	s, n, o *Term // values at the loop head
	top     *Term
	back    B
	start   B
	inv     B // of the main loop: the position is not past the end
	entry   B
	assume  B
	peek    *Term
	atEnd   B
	where   string
	// operation types
	ntT, tT           types.Type
	ntF, tF           int // fields
	charTs, funTs, ot []types.Type
	fName, fPos, fAmt int
	litType           *Term // node type of literals (the constant BuiltinTerminal)
	success           B
}

func parse1(c *Check) *Run {
	return cached(c, "parse1", func() *Run { return runParse(c.P, true) })
}
func parseG(c *Check) *Run {
	return cached(c, "parse", func() *Run { return runParse(c.P, false) })
}

func isSliceOf(t types.Type, elem types.Type) bool {
	if t == nil || elem == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), elem)
}

// ctor finds the dynamic type an exported op constructor makes and the field
// that holds its argument.
func (c *Check) ctor(e *Eng, name string) (types.Type, int, string) {
	fn := c.P.fn("pkg/parser", name)
	if fn == nil {
		return nil, 0, name + " not found"
	}
	var t types.Type
	f := -1
	msg := guard(func() {
		a := e.sym("ctorarg", fn.Params[0].Type())
		ev, dn := len(e.events), len(e.done)
		r := e.call(fn, []*Term{a}, nil, True, newMem(), "ctor")
		e.events, e.done = e.events[:ev], e.done[:dn]
		v := e.freeze(r.mem, r.vals[0])
		if v.op != "iface" {
			return
		}
		t = v.aux.(types.Type)
		if s := structOf(v); s != nil {
			for i, x := range s.args {
				if x == a {
					f = i
				}
			}
		} else if v.args[0] == a {
			f = -2
		}
	})
	if msg != "" {
		return nil, 0, msg
	}
	if t == nil || f == -1 {
		return nil, 0, name + " does not make a value holding its argument"
	}
	return t, f, ""
}

func (m *Machine) fieldOf(v *Term, T types.Type, i int) *Term {
	u := m.e.unbox(v, T)
	if i == -2 {
		return u
	}
	st, ok := T.Underlying().(*types.Struct)
	if !ok {
		return u
	}
	return m.e.field(u, i, st.Field(i).Type())
}

func machine(c *Check) *Machine {
	return cached(c, "machine", func() *Machine {
		m := &Machine{assume: True, run: parse1(c)}
		if m.run.err != "" {
			m.err = m.run.err
			return m
		}
		m.text = m.run.e.unbox(m.run.args[2], types.Typ[types.String])
		if msg := guard(func() { m.build(c) }); msg != "" {
			m.err = msg
		}
		return m
	})
}

// machineFor is the machine as run on one kind of source.
func machineFor(c *Check, text *Term, assume B) *Machine {
	m := &Machine{assume: assume, run: parseG(c), text: text}
	if msg := guard(func() { m.build(c) }); msg != "" {
		m.err = msg
	}
	return m
}

func (m *Machine) build(c *Check) {
	e := m.run.e
	m.e = e
	m.table, m.names = m.run.args[0], m.run.args[1]
	opT := c.P.namedType("pkg/parser", "ParserOp")
	nodeT := c.P.namedType("pkg/cst", "Node")
	for _, l := range e.done {
		if len(l.outer) > 0 || l.kind != "for" {
			continue
		}
		var S, N *LoopVar
		for _, v := range l.vars {
			switch {
			case v.closed == nil && isSliceOf(v.typ, opT):
				S = v
			case v.closed == nil && isSliceOf(v.typ, nodeT):
				N = v
			}
		}
		if S != nil && N != nil {
			m.main, m.S, m.N = l, S, N
		}
	}
	if m.main == nil {
		m.err = "no loop of Parse carries a stack of operations and a stack of nodes"
		return
	}
	m.where = e.P.pos(m.main.pos) + " (" + m.main.fn.RelString(m.main.fn.Pkg.Pkg) + ")"
	m.s, m.n = m.S.mu, m.N.mu
	// the reading position is the integer the text is indexed with
	for _, v := range m.main.vars {
		if v.closed != nil || v.typ == nil || !isIntLin(v.typ) {
			continue
		}
		ix := e.index(m.text, v.mu)
		used := false
		for _, a := range e.atoms {
			if e.mentions(a, ix) {
				used = true
				break
			}
		}
		if used {
			m.O = v
		}
	}
	if m.O == nil {
		m.err = "no variable of the main loop is a position in the source"
		return
	}
	m.o = m.O.mu
	m.top = e.index(m.s, e.addc(e.lenOf(m.s), -1))
	e.setTyp(m.top, opT)
	m.inv = True
	// the position never passes the end, if that is an invariant of the loop
	inv := e.le0(e.sub(m.o, e.lenOf(m.text)))
	n := e.lenOf(m.text)
	if e.implies(e.bdd.And(m.main.entryPc, m.assume), e.le0(e.sub(m.O.init, n))) &&
		e.implies(e.bdd.AndN(m.main.backPc, m.assume, inv), e.phiB(m.O.next, func(t *Term) B { return e.le0(e.sub(t, n)) })) {
		m.inv = inv
	}
	m.start = e.bdd.And(m.main.entryPc, m.assume)
	m.assume = e.bdd.And(m.assume, m.inv)
	m.back = e.bdd.And(m.main.backPc, m.assume)
	m.entry = e.bdd.And(m.main.entryPc, m.assume)
	m.atEnd = e.le0(e.sub(e.lenOf(m.text), m.o))
	m.peek = e.index(m.text, m.o)
	var msg string
	if m.ntT, m.ntF, msg = c.ctor(e, "OpNonTerminal"); msg != "" {
		m.err = msg
		return
	}
	if m.tT, m.tF, msg = c.ctor(e, "OpTerminal"); msg != "" {
		m.err = msg
		return
	}
	var kinds []types.Type
	kinds = append(kinds, e.closed(opT)...)
	sort.Slice(kinds, func(i, j int) bool { return tkey(kinds[i]) < tkey(kinds[j]) })
	for _, k := range kinds {
		if types.Identical(k, m.ntT) || types.Identical(k, m.tT) {
			continue
		}
		pc := e.bdd.And(m.back, m.is(k))
		if !e.sat(pc) {
			m.ot = append(m.ot, k)
			continue
		}
		if !e.implies(pc, e.eq0(e.sub(e.under(m.O.next, pc), m.o))) {
			m.charTs = append(m.charTs, k)
		} else {
			m.funTs = append(m.funTs, k)
		}
	}
	m.litType = e.num(-1)
	if k, ok := c.constOf("pkg/parser", "BuiltinTerminal"); ok {
		m.litType = e.num(k)
	}
	// when the run ends with a result
	m.success = False
	for _, r := range m.run.res.rets {
		n := len(r.vals)
		if n == 0 {
			continue
		}
		m.success = e.bdd.Or(m.success, e.bdd.AndN(m.assume, r.pc, e.isNil(e.freeze(r.mem, r.vals[n-1]))))
	}
	if len(m.charTs) != 1 || len(m.funTs) != 1 {
		m.err = fmt.Sprintf("the kinds of operations are not recognised: %d kinds move the reading position, %d others go on", len(m.charTs), len(m.funTs))
		return
	}
	m.roles()
}

func (c *Check) constOf(rel, name string) (int64, bool) {
	sp := c.P.pkg(rel)
	if sp == nil {
		return 0, false
	}
	k, ok := sp.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	var n int64
	if _, err := fmt.Sscan(k.Val().ExactString(), &n); err != nil {
		return 0, false
	}
	return n, true
}

func (m *Machine) is(T types.Type) B { return m.e.isType(m.top, T) }

func (m *Machine) ntName() *Term { return m.fieldOf(m.top, m.ntT, m.ntF) }
func (m *Machine) tVal() *Term   { return m.fieldOf(m.top, m.tT, m.tF) }

// push is what one step leaves on top of the popped operation stack.
type push struct {
	g    B
	pop  bool // exactly the top was removed below the pushed part
	list *Term
	all  *Term
}

// pushes splits what a step under pc does to a stack. rest is the part of the
// stack expected to stay.
func (m *Machine) pushes(v *LoopVar, pc B, rest *Term) []push {
	e := m.e
	var out []push
	if !e.sat(pc) {
		return nil
	}
	keep := e.lenOf(rest)
	var walk func(t *Term, g B)
	walk = func(t *Term, g B) {
		if !e.sat(g) {
			return
		}
		t = e.under(t, g)
		if t.op == "phi" {
			for _, l := range e.leaves(t) {
				walk(l.t, e.bdd.And(g, l.g))
			}
			return
		}
		p := push{g: g, all: t}
		n := e.lenOf(t)
		// the kept part
		segs := e.segs(t)
		if len(segs) > 0 {
			pre := e.list(segs[:1]...)
			if ok, _ := e.listEq(pre, rest, g); ok {
				p.pop = true
				p.list = e.list(segs[1:]...)
			}
		}
		if !p.pop {
			if ok, _ := e.listEq(e.list(), rest, g); ok {
				p.pop = true
				p.list = t
			}
		}
		if !p.pop {
			_ = n
			_ = keep
		}
		out = append(out, p)
	}
	walk(v.next, pc)
	return out
}

func (m *Machine) rest() *Term {
	return m.e.slice(m.s, m.e.num(0), m.e.addc(m.e.lenOf(m.s), -1))
}

// fun finds the function operation at the bottom of a pushed group.
func (m *Machine) fun(p push) (*Term, *Term, bool) {
	if !p.pop || p.list == nil {
		return nil, nil, false
	}
	segs := m.e.segs(p.list)
	if len(segs) == 0 || segs[0].op != "elem" {
		return nil, nil, false
	}
	x := segs[0].args[0]
	x = m.e.under(x, p.g)
	if x.op != "iface" || !types.Identical(x.aux.(types.Type), m.funTs[0]) {
		return nil, nil, false
	}
	st := structOf(x)
	if st == nil {
		return nil, nil, false
	}
	return st, m.e.list(segs[1:]...), true
}

// roles finds which field of the function operation holds the node type, the
// start and the number of parts, from what is pushed for a non-terminal.
func (m *Machine) roles() {
	e := m.e
	m.fName, m.fPos, m.fAmt = -1, -1, -1
	name := m.ntName()
	pc := e.bdd.AndN(m.back, m.is(m.ntT), e.le0(e.scale(name, -1)))
	for _, p := range m.pushes(m.S, pc, m.rest()) {
		st, ops, ok := m.fun(p)
		if !ok {
			continue
		}
		for i, x := range st.args {
			x = e.under(x, p.g)
			if !isLinTerm(x) && x.op != "phi" {
				continue
			}
			switch {
			case x == name:
				m.fName = i
			case x == m.o:
				m.fPos = i
			case e.implies(p.g, e.eqTerms(x, e.lenOf(ops))):
				m.fAmt = i
			}
		}
	}
	if m.fName < 0 || m.fAmt < 0 {
		m.err = "the operation that builds a node is not recognised in what is pushed for a non-terminal"
	}
}

// ---- obligations about the machine, used by several properties

func (c *Check) machine() *Machine {
	m := machine(c)
	if m.e != nil {
		c.use(m.e)
	}
	if m.err != "" {
		c.fail("machine", "pkg/parser", "Parse is a stack machine the analysis understands", m.err)
		return nil
	}
	return m
}

type group struct {
	what string
	pc   B
	name *Term // node type of the group
	ops  *Term // operations in order of processing
}

// groups: the expansions Parse may make, by kind of the top operation.
func (m *Machine) groups() []group {
	e := m.e
	var gs []group
	name := m.ntName()
	nt := e.bdd.And(m.back, m.is(m.ntT))
	pos := e.bdd.And(nt, e.le0(e.scale(name, -1)))
	cell := func(key *Term) *Term {
		mt := m.table.typ.Underlying().(*types.Map)
		row := e.mapGet(m.table, name, mt.Elem())
		rt := mt.Elem().Underlying().(*types.Map)
		return e.mapGet(row, key, rt.Elem())
	}
	gs = append(gs, group{"a non-terminal before the end of the source", e.bdd.And(pos, e.bdd.Not(m.atEnd)), name, cell(m.peek)})
	gs = append(gs, group{"a non-terminal at the end of the source", e.bdd.And(pos, m.atEnd), name, cell(e.byteConst(0))})
	neg := e.bdd.And(nt, e.bdd.Not(e.le0(e.scale(name, -1))))
	term := func(s string) *Term { return m.ctorVal(m.tT, m.tF, e.str(s)) }
	lf := e.bdd.And(e.bdd.Not(m.atEnd), e.eqTerms(m.peek, e.byteConst('\n')))
	cr := e.bdd.And(e.bdd.Not(m.atEnd), e.eqTerms(m.peek, e.byteConst('\r')))
	gs = append(gs, group{"the built-in end of line at a line feed", e.bdd.And(neg, lf), e.num(-2), e.list(e.elem(term("\n")))})
	gs = append(gs, group{"the built-in end of line at a carriage return", e.bdd.And(neg, cr), e.num(-2), e.list(e.elem(term("\r")), e.elem(term("\n")))})
	return gs
}

func (e *Eng) byteConst(b byte) *Term {
	return e.mk("const", fmt.Sprint(int(b)), types.Typ[types.Byte])
}

func (m *Machine) ctorVal(T types.Type, f int, v *Term) *Term {
	e := m.e
	opT := e.P.namedType("pkg/parser", "ParserOp")
	if f == -2 {
		return e.mkIface(v, T, opT)
	}
	st := T.Underlying().(*types.Struct)
	args := make([]*Term, st.NumFields())
	for i := range args {
		args[i] = e.zeroTerm(st.Field(i).Type())
	}
	args[f] = v
	return e.mkIface(e.mk("struct", "", T, args...), T, opT)
}

func (e *Eng) reversed(l *Term) *Term {
	n := e.lenOf(l)
	k := e.mk("sym", "ρ", types.Typ[types.Int])
	r := e.comp("comp", n, k, e.index(l, e.sub(e.addc(n, -1), k)))
	return e.list(e.normSegs([]*Term{r})...)
}

// groupObl: what is pushed for every kind of expansion.
func (c *Check) groupObl(m *Machine, ops, pos, amt, nm bool) {
	e := m.e
	for _, g := range m.groups() {
		if !e.sat(g.pc) {
			c.fail("expansion", m.where, "Parse goes on after expanding "+g.what, "no path does")
			continue
		}
		for _, p := range m.pushes(m.S, g.pc, m.rest()) {
			st, rest, ok := m.fun(p)
			if !ok {
				c.fail("expansion", m.where, "expanding "+g.what+" replaces it by one building operation below the operations of its production", "the stack becomes "+e.show(p.all))
				continue
			}
			if ops {
				ok, why := e.listEq(rest, e.revList(g.ops), p.g)
				c.ob("expansion", m.where, "expanding "+g.what+" pushes exactly the operations of its production, the first on top", ok, why)
			}
			f := func(i int) *Term { return e.under(st.args[i], p.g) }
			if nm {
				c.imp(e, "expansion", m.where, "the building operation of "+g.what+" carries the type of that non-terminal", p.g, e.eqTerms(f(m.fName), g.name))
			}
			if pos {
				if m.fPos < 0 {
					c.fail("expansion", m.where, "the building operation of "+g.what+" remembers the reading position", "no field holds it")
				} else {
					c.imp(e, "expansion", m.where, "the building operation of "+g.what+" remembers the reading position", p.g, e.eqTerms(f(m.fPos), m.o))
				}
			}
			if amt {
				c.imp(e, "expansion", m.where, "the building operation of "+g.what+" takes as many parts as operations were pushed", p.g, e.eqTerms(f(m.fAmt), e.lenOf(g.ops)))
			}
		}
	}
	// terminals
	v := m.tVal()
	pc := e.bdd.And(m.back, m.is(m.tT))
	if !e.sat(pc) {
		c.fail("expansion", m.where, "Parse goes on after a terminal", "no path does")
	}
	for _, p := range m.pushes(m.S, pc, m.rest()) {
		st, rest, ok := m.fun(p)
		if !ok {
			c.fail("expansion", m.where, "a terminal is replaced by one building operation below one operation per byte", "the stack becomes "+e.show(p.all))
			continue
		}
		if ops {
			ok, why := e.listEq(rest, m.charsRev(v), p.g)
			c.ob("expansion", m.where, "a terminal pushes exactly one operation for each of its bytes, the first byte on top", ok, why)
		}
		f := func(i int) *Term { return e.under(st.args[i], p.g) }
		if nm {
			c.imp(e, "expansion", m.where, "the building operation of a terminal carries the type of literals", p.g, e.eqTerms(f(m.fName), m.litType))
		}
		if pos {
			if m.fPos >= 0 {
				c.imp(e, "expansion", m.where, "the building operation of a terminal remembers the reading position", p.g, e.eqTerms(f(m.fPos), m.o))
			}
		}
		if amt {
			c.imp(e, "expansion", m.where, "the building operation of a terminal takes as many parts as the terminal has bytes", p.g, e.eqTerms(f(m.fAmt), e.lenOf(v)))
		}
	}
	// the others only pop
	for _, k := range append(append([]types.Type{}, m.charTs...), m.funTs...) {
		for _, p := range m.pushes(m.S, e.bdd.And(m.back, m.is(k)), m.rest()) {
			good := p.pop && len(e.segs(p.list)) == 0
			c.ob("expansion", m.where, "a "+short(tkey(k))+" operation only takes itself off the stack", good, "the stack becomes "+e.show(p.all))
		}
	}
}

// revList: the list in reverse order, elements spelled out where known.
func (e *Eng) revList(l *Term) *Term {
	segs := e.segs(l)
	all := true
	for _, s := range segs {
		if s.op != "elem" {
			all = false
		}
	}
	if all {
		var r []*Term
		for i := len(segs) - 1; i >= 0; i-- {
			r = append(r, segs[i])
		}
		return e.list(r...)
	}
	return e.reversed(l)
}

// charsRev: one character operation per byte of v, last byte first.
func (m *Machine) charsRev(v *Term) *Term {
	e := m.e
	n := e.lenOf(v)
	k := e.mk("sym", "ρ", types.Typ[types.Int])
	b := e.index(v, e.sub(e.addc(n, -1), k))
	r := e.comp("comp", n, k, m.ctorVal(m.charTs[0], m.charF(), b))
	return e.list(e.normSegs([]*Term{r})...)
}

// charF: the field of the character operation that holds the byte.
func (m *Machine) charF() int {
	T := m.charTs[0]
	if st, ok := T.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && (b.Kind() == types.Byte || b.Kind() == types.Uint8) {
				return i
			}
		}
		return 0
	}
	return -2
}

func (m *Machine) charVal() *Term { return m.fieldOf(m.top, m.charTs[0], m.charF()) }

// initObl: what is on the stacks when the loop starts.
func (c *Check) initObl(m *Machine) {
	e := m.e
	segs := e.segs(m.S.init)
	start := m.ctorVal(m.ntT, m.ntF, e.num(0))
	ok := len(segs) > 0 && segs[len(segs)-1].op == "elem" && segs[len(segs)-1].args[0] == start
	c.ob("start", m.where, "parsing starts with non-terminal 0 on top of the stack", ok, "the stack starts as "+e.show(m.S.init))
	for i := 0; i+1 < len(segs); i++ {
		good := segs[i].op == "elem"
		if good {
			good = false
			for _, k := range m.ot {
				if e.isType(segs[i].args[0], k) == True {
					good = true
				}
			}
		}
		c.ob("start", m.where, "nothing but the end mark lies below the start symbol", good, "the stack starts as "+e.show(m.S.init))
	}
	c.imp(e, "start", m.where, "the stack of nodes starts empty", m.start, e.eq0(e.lenOf(m.N.init)))
	c.imp(e, "start", m.where, "reading starts at position 0", m.start, e.eqTerms(m.O.init, e.num(0)))
}
