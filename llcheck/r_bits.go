package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about byte sets, decided bit by bit for all sets at once.

func init() {
	reg("C18", "bit-precise abstract interpretation over BDDs", checkC18)
	reg("C19", "bit-precise abstract interpretation over BDDs", checkC19)
}

const bytesetRel = "pkg/bnf/tablegen/byteset"

// byteSets is the analysis of the package byteset with two unknown sets.
type byteSets struct {
	c    *Check
	x    *bitx
	T    types.Type
	v    bval // an unknown byte
	s, t bval // unknown sets
	mem  bMem
	base int

	S, U  [256]B          // the members of the unknown sets
	only  map[string]bool // the functions to look at, all if nil
	mixed bool            // the words of a set are mixed bit by bit in the order of variables
}

// setUp prepares the unknown values, after what was built has become too large
// as well.
func (b *byteSets) setUp(mixed bool) {
	b.mixed = mixed
	old := b.x
	b.x = newBitx(b.c.P)
	if old != nil {
		b.x.fns, b.x.loops, b.x.steps = old.fns, old.loops, old.steps/2
	}
	b.x.initPkg(bytesetRel)
	b.v = b.x.symbolic(types.Typ[types.Byte], 1)[0]
	n := b.x.vars
	st := b.x.symbolic(b.T, 2)
	if mixed {
		var leaves [][]*B
		var walk func(v bval)
		walk = func(v bval) {
			switch c := v.(type) {
			case *bInt:
				var l []*B
				for i := range c.bs {
					l = append(l, &c.bs[i])
				}
				leaves = append(leaves, l)
			case *bAgg:
				for _, e := range c.elems {
					walk(e)
				}
			}
		}
		walk(st[0])
		walk(st[1])
		for i, more := 0, true; more; i++ {
			more = false
			for _, l := range leaves {
				if i < len(l) {
					more = true
					*l[i] = b.x.m.Var(n)
					n++
				}
			}
		}
	}
	b.s, b.t = st[0], st[1]
	b.mem, b.base = b.x.mem0, b.x.nobj
	b.S, b.U = b.members(b.s), b.members(b.t)
}

func (c *Check) byteSets() *byteSets {
	T := c.P.namedType(bytesetRel, "ByteSet")
	if T == nil {
		c.fail("type", bytesetRel, "the type ByteSet is declared", "not found")
		return nil
	}
	b := &byteSets{c: c, T: T}
	if !c.ob("copies", c.typePos(T), "a copy of a set shares no memory with it", !hasRefs(T), "the type "+T.Underlying().String()+" contains references") {
		return nil
	}
	if b.method("Contains") == nil {
		return nil
	}
	if d := guard(func() { b.setUp(false) }); d != "" {
		c.fail("coverage", bytesetRel, "the analysis covers the package", d)
		return nil
	}
	return b
}

func (c *Check) typePos(T types.Type) string {
	if n, ok := T.(*types.Named); ok {
		return c.P.pos(n.Obj().Pos())
	}
	return T.String()
}

// out is the outcome of a call.
type bout struct {
	vals []bval
	recv bval // what the receiver holds afterwards
	mem  bMem
	ret  B
}

// do calls a function or method. A parameter that is a pointer to a set gets
// the address of an object holding the argument.
func (b *byteSets) do(fn *ssa.Function, args ...bval) *bout {
	x := b.x
	x.nobj = b.base
	x.issues = nil
	mem := b.mem.clone()
	var objs []*bObj
	var as []bval
	for i, p := range fn.Params {
		if i >= len(args) {
			x.unsupported("the parameters of %s", fn.RelString(nil))
		}
		pt, isP := p.Type().Underlying().(*types.Pointer)
		if isP && types.Identical(pt.Elem(), b.T) {
			o := x.newObj(b.T, nil)
			x.given[o] = true
			mem[o] = args[i]
			objs = append(objs, o)
			as = append(as, x.ptrTo(o))
			continue
		}
		objs = append(objs, nil)
		as = append(as, args[i])
	}
	r := &bout{}
	r.vals, r.ret, r.mem = x.run(fn, as, nil, True, mem)
	if r.ret == False {
		x.unsupported("%s, which never returns", fn.RelString(nil))
	}
	for i, o := range objs {
		if o == nil {
			continue
		}
		if i == 0 {
			r.recv = r.mem[o]
		} else if !x.same(r.mem[o], args[i]) {
			b.c.fail("effects", b.c.P.pos(fn.Pos()), "an argument of "+fn.Name()+" stays unchanged", "it is written")
		}
		delete(x.given, o)
		delete(x.stored, o)
	}
	if r.recv == nil && len(args) > 0 {
		r.recv = args[0]
	}
	for o := range x.stored {
		b.c.fail("effects", b.c.P.pos(fn.Pos()), fn.Name()+" writes to nothing but its receiver", fmt.Sprintf("a package-level variable of type %s is written", o.typ))
		delete(x.stored, o)
	}
	seen := map[string]bool{}
	for _, ob := range b.c.obls {
		seen[ob.Where+ob.Detail] = ob.Rule == "panic"
	}
	for _, is := range x.issues {
		if seen[is.where+is.what] {
			continue
		}
		seen[is.where+is.what] = true
		b.c.fail("panic", is.where, fn.Name()+" does not panic", is.what)
	}
	return r
}

func (b *byteSets) method(name string) *ssa.Function {
	fn := b.c.P.method(bytesetRel, "ByteSet", name)
	if fn == nil {
		b.c.fail("coverage", bytesetRel, "the method "+name+" exists", "not found")
	}
	return fn
}

func (b *byteSets) num(n int) bval { return b.x.num(int64(n), types.Typ[types.Byte]) }

// members gives the condition for each byte to be in a set.
func (b *byteSets) members(s bval) [256]B {
	var r [256]B
	fn := b.method("Contains")
	for i := range r {
		o := b.do(fn, s, b.num(i))
		v, ok := o.vals[0].(bBool)
		if !ok {
			b.x.unsupported("the result of Contains")
		}
		r[i] = v.b
		if !b.x.same(o.recv, s) {
			b.c.fail("effects", b.c.P.pos(fn.Pos()), "Contains changes no set", "the receiver is written")
		}
	}
	return r
}

// equal: two families of conditions are the same.
func (b *byteSets) equal(rule string, fn *ssa.Function, what string, got, want [256]B) {
	var bad []string
	for i := range got {
		if got[i] != want[i] {
			w := ""
			d := b.x.m.Xor(got[i], want[i])
			if b.x.m.And(d, got[i]) != False {
				w = "can wrongly be a member"
			} else {
				w = "can be missing"
			}
			bad = append(bad, fmt.Sprintf("byte %#02x %s", i, w))
		}
	}
	n := len(bad)
	if n > 4 {
		bad = append(bad[:4], fmt.Sprintf("and %d more", n-4))
	}
	b.c.ob(rule, b.c.P.pos(fn.Pos()), what, n == 0, strings.Join(bad, "; "))
}

// try runs a rule; if the conditions get too large, once more with another
// order of variables.
func (b *byteSets) try(what string, fn *ssa.Function, f func()) {
	if fn == nil || b.only != nil && !b.only[fn.Name()] {
		return
	}
	n := len(b.c.obls)
	was := b.mixed
	d := guard(f)
	if d == "" {
		return
	}
	if b.x.m.full() {
		b.c.obls = b.c.obls[:n]
		d = guard(func() { b.setUp(!was); f() })
		if b.x.m.full() {
			if guard(func() { b.setUp(was) }) != "" {
				b.c.fail("coverage", bytesetRel, "the analysis covers the package", d)
			}
		}
	}
	if d != "" {
		b.c.fail("coverage", b.c.P.pos(fn.Pos()), what, d)
	}
}

func (b *byteSets) done() {
	for f := range b.x.fns {
		b.c.fns[strings.TrimPrefix(f.RelString(nil), modPath+"/")] = true
	}
	b.c.nl += b.x.loops
	b.c.ni += b.x.steps
	b.c.note["bdd_nodes"] = len(b.x.m.nodes)
	b.c.note["bdd_variables"] = b.x.vars
}

func checkC18(c *Check) {
	b := c.byteSets()
	if b == nil {
		return
	}
	defer b.done()
	b.rules18()
}

func (b *byteSets) rules18() {
	c := b.c
	contains := b.method("Contains")
	vIs := func(i int) B { return b.x.eqNum(b.v.(*bInt), int64(i)) }
	b.try("an unknown byte", contains, func() {
		m, S := b.x.m, b.S
		o := b.do(contains, b.s, b.v)
		want := False
		for i := range S {
			want = m.Or(want, m.And(vIs(i), S[i]))
		}
		c.ob("contains", c.P.pos(contains.Pos()), "Contains answers the same for a byte however it was computed", o.vals[0].(bBool).b == want, "it does not")
	})
	b.try("the zero value is the empty set", contains, func() {
		b.equal("empty", contains, "the zero value holds no byte", b.members(b.x.zero(b.T)), [256]B{})
	})
	for _, name := range []string{"Add", "Remove"} {
		fn := b.method(name)
		name := name
		b.try(name+" is analysed", fn, func() {
			m, S := b.x.m, b.S
			o := b.do(fn, b.s, b.v)
			var want [256]B
			for i := range want {
				if name == "Add" {
					want[i] = m.Or(S[i], vIs(i))
				} else {
					want[i] = m.And(S[i], m.Not(vIs(i)))
				}
			}
			b.equal("change", fn, name+" changes the membership of its argument only", b.members(o.recv), want)
		})
	}
	keep := func(fn *ssa.Function, o *bout) {
		c.ob("effects", c.P.pos(fn.Pos()), fn.Name()+" changes no set", b.x.same(o.recv, b.s), "the receiver is written")
	}
	union := b.method("Union")
	b.try("Union is analysed", union, func() {
		m, S, T := b.x.m, b.S, b.U
		o := b.do(union, b.s, b.t)
		var want [256]B
		for i := range want {
			want[i] = m.Or(S[i], T[i])
		}
		b.equal("union", union, "Union holds exactly the members of both sets", b.members(b.setOf(o.vals[0], o.mem)), want)
		keep(union, o)
	})
	for _, name := range []string{"Equal", "IsSubSet", "IsSuperSet"} {
		fn := b.method(name)
		name := name
		b.try(name+" is analysed", fn, func() {
			m, S, T := b.x.m, b.S, b.U
			o := b.do(fn, b.s, b.t)
			want := True
			for i := 255; i >= 0; i-- {
				w := True
				if name != "IsSuperSet" {
					w = m.And(w, m.Imp(S[i], T[i]))
				}
				if name != "IsSubSet" {
					w = m.And(w, m.Imp(T[i], S[i]))
				}
				want = m.And(w, want)
			}
			got := o.vals[0].(bBool).b
			d := ""
			if m.And(got, m.Not(want)) != False {
				d = "it can wrongly be true: " + b.example(m.And(got, m.Not(want)), S, T)
			} else if got != want {
				d = "it can wrongly be false: " + b.example(m.And(want, m.Not(got)), S, T)
			}
			c.ob("compare", c.P.pos(fn.Pos()), name+" compares the membership of all 256 bytes", got == want, d)
			keep(fn, o)
		})
	}
	// the others change nothing
	for _, name := range []string{"Len", "Bytes", "String"} {
		fn := b.method(name)
		if fn != nil && len(fn.Params) > 0 && types.Identical(fn.Params[0].Type(), b.T) {
			c.ob("effects", c.P.pos(fn.Pos()), name+" changes no set", true, "") // it works on a copy
			continue
		}
		b.try(name+" is analysed", fn, func() { keep(fn, b.do(fn, b.s)) })
	}
	b.checkNew()
}

// example describes one case in which a condition holds.
func (b *byteSets) example(f B, S, T [256]B) string {
	m := b.x.m
	// make the condition definite, byte by byte
	var in, inT []string
	n := 0
	for i := range S {
		for k, g := range []B{S[i], T[i]} {
			if y := m.And(f, m.Not(g)); y != False {
				f = y
				continue
			}
			f = m.And(f, g)
			n++
			if n > 8 {
				continue
			}
			if k == 0 {
				in = append(in, fmt.Sprintf("%#02x", i))
			} else {
				inT = append(inT, fmt.Sprintf("%#02x", i))
			}
		}
	}
	return "for the receiver {" + strings.Join(in, ",") + "} and the argument {" + strings.Join(inT, ",") + "}"
}

// setOf reads a set that may be returned by address.
func (b *byteSets) setOf(v bval, mem bMem) bval {
	if p, ok := v.(*bPtr); ok && len(p.locs) == 1 && p.null == False {
		return b.x.get(mem[p.locs[0].obj], p.locs[0].path)
	}
	return v
}

// checkNew: New goes over its arguments; the result for none of them is the
// empty set, and one more argument adds exactly that byte to the result.
func (b *byteSets) checkNew() {
	c := b.c
	fn := c.P.fn(bytesetRel, "New")
	if fn == nil || len(fn.Params) != 1 {
		c.fail("coverage", bytesetRel, "the function New exists", "not found")
		return
	}
	b.try("New is analysed", fn, func() {
		x, m := b.x, b.x.m
		elem := x.newObj(types.Typ[types.Byte], nil)
		x.given[elem] = true
		u := &bMany{elem: elem, body: b.v}
		b.base = x.nobj
		b.mem = b.mem.clone()
		b.mem[elem] = b.v
		at := func(mode int, zero bool) [256]B {
			x.mode, x.folds, x.lenZero = mode, 0, zero
			o := b.do(fn, u)
			if !zero && x.folds != 1 {
				x.unsupported("New without a loop over its arguments")
			}
			return b.members(b.setOf(o.vals[0], o.mem))
		}
		b.equal("new", fn, "New of nothing is the empty set", at(foldInit, true), [256]B{})
		b.equal("new", fn, "New starts with the empty set", at(foldInit, false), [256]B{})
		before, after := at(foldAny, false), at(foldNext, false)
		var want [256]B
		for i := range want {
			want[i] = m.Or(before[i], x.eqNum(b.v.(*bInt), int64(i)))
		}
		b.equal("new", fn, "every argument of New adds exactly that byte", after, want)
	})
}

// ---- C19

func checkC19(c *Check) {
	b := c.byteSets()
	if b == nil {
		return
	}
	defer b.done()
	b.rules19()
}

func (b *byteSets) rules19() {
	c := b.c
	fn := b.method("Len")
	b.try("Len is analysed", fn, func() {
		x, S := b.x, b.S
		o := b.do(fn, b.s)
		s := &bSeq{}
		for _, g := range S {
			s.items = append(s.items, bItem{g, nil})
		}
		got, want := x.force(o.vals[0]), x.force(&bCount{s, -1, 0, nil})
		c.ob("len", c.P.pos(fn.Pos()), "Len is the number of members", x.same(got, want), "it differs for some set")
	})
	fn = b.method("Bytes")
	b.try("Bytes is analysed", fn, func() {
		x, m, S := b.x, b.x.m, b.S
		o := b.do(fn, b.s)
		sl, ok := o.vals[0].(*bSlice)
		if !ok {
			x.unsupported("the result of Bytes")
		}
		seq := x.listOf(sl, True, o.mem)
		var got [256]B
		var vals []int
		for _, it := range seq.items {
			n, ok := x.force(it.v).isNum()
			if !ok {
				x.unsupported("an element of the result of Bytes whose value is not known")
			}
			v := int(byte(n))
			vals = append(vals, v)
			got[v] = m.Or(got[v], it.g)
		}
		b.equal("bytes", fn, "Bytes lists exactly the members", got, S)
		// an earlier element is smaller; it is enough to look at those at
		// or above the smallest that follows
		bad := ""
		for j := range vals {
			for i := 0; i < j && bad == ""; i++ {
				if (vals[i] == vals[j] || vals[i] > vals[j] && b.only == nil) && m.And(seq.items[i].g, seq.items[j].g) != False {
					bad = fmt.Sprintf("%#02x can stand before %#02x", vals[i], vals[j])
				}
			}
		}
		what := "Bytes lists them in increasing order, each once"
		if b.only != nil {
			what = "Bytes lists each of them once"
		}
		c.ob("bytes", c.P.pos(fn.Pos()), what, bad == "", bad)
		c.note["elements_of_Bytes"] = len(seq.items)
	})
	fn = b.method("String")
	b.try("String is analysed", fn, func() {
		x, m, S := b.x, b.x.m, b.S
		o := b.do(fn, b.s)
		got, ok := o.vals[0].(*bSeq)
		if !ok {
			x.unsupported("the result of String")
		}
		empty := True
		for i := range S {
			empty = m.And(empty, m.Not(S[i]))
		}
		c.ob("string", c.P.pos(fn.Pos()), `String of the empty set is "[]"`, x.sameText(empty, got, x.str("[]")), "it is not")
		// the blank before a member, or after one
		// (a bracket after the last)
		pre, post, each := &bSeq{}, &bSeq{}, &bSeq{}
		add := func(s *bSeq, g B, t string) {
			for _, it := range x.str(t).items {
				s.items = append(s.items, bItem{g, it.v})
			}
		}
		add(pre, True, "[")
		add(post, True, "[")
		add(each, True, "[")
		later := make([]B, 257)
		for i := 255; i >= 0; i-- {
			later[i] = m.Or(later[i+1], S[i])
		}
		before := False
		for i := range S {
			add(pre, m.And(S[i], before), " ")
			add(pre, S[i], fmt.Sprintf("%02X", i))
			add(post, S[i], fmt.Sprintf("%02X", i))
			add(post, m.And(S[i], later[i+1]), " ")
			add(each, S[i], fmt.Sprintf("%02X", i))
			end := &bInt{append([]B{}, x.force(b.num(' ')).bs...), false}
			for k, y := range x.force(b.num(']')).bs {
				end.bs[k] = m.Ite(later[i+1], end.bs[k], y)
			}
			each.items = append(each.items, bItem{S[i], end})
			before = m.Or(before, S[i])
		}
		add(pre, True, "]")
		add(post, True, "]")
		ne := m.Not(empty)
		c.ob("string", c.P.pos(fn.Pos()), "String of another set lists its members in hexadecimal, separated by blanks", x.sameAsOne(ne, got, each, post, pre), "it can be something else")
		c.note["characters_of_String"] = len(got.items)
	})
}

// sameAsOne compares with texts that are equal to each other.
func (x *bitx) sameAsOne(g B, a *bSeq, forms ...*bSeq) bool {
	var last *abort
	for _, f := range forms {
		r := false
		if d := tryAbort(func() { r = x.sameText(g, a, f) }); d != nil {
			last = d
			continue
		}
		return r
	}
	panic(*last)
}

// sameText: two strings are equal under g. It goes through both at the same
// time; a character only one of them has shifts them against each other.
func (x *bitx) sameText(g B, a, b *bSeq) bool {
	m := x.m
	under := func(s *bSeq) []bItem {
		var r []bItem
		for _, it := range s.items {
			y := m.And(g, it.g)
			if y == False {
				continue
			}
			r = append(r, bItem{y, it.v})
		}
		return r
	}
	p, q := under(a), under(b)
	// where[k]: under which condition k characters of q have been matched
	// when i characters of p have been looked at
	type state map[int]B
	cur := state{0: g}
	work := 0
	for _, it := range p {
		next := state{}
		ks := make([]int, 0, len(cur))
		for k := range cur {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		for _, k := range ks {
			c := cur[k]
			// not present: pass one that q has not either
			if y := m.And(c, m.Not(it.g)); y != False {
				kk := k
				if kk < len(q) && m.And(y, q[kk].g) == False {
					kk++
				}
				next[kk] = m.Or(next[kk], y)
			}
			y := m.And(c, it.g)
			for kk := k; y != False; kk++ {
				if kk >= len(q) {
					return false // q is too short
				}
				work++
				if work > 60000 {
					x.unsupported("comparing texts of this form")
				}
				if z := m.And(y, q[kk].g); z != False {
					if m.And(z, m.Not(x.eqInt(it.v.(*bInt), q[kk].v.(*bInt)))) != False {
						return false
					}
					next[kk+1] = m.Or(next[kk+1], z)
				}
				y = m.And(y, m.Not(q[kk].g))
			}
		}
		cur = next
	}
	for k, c := range cur {
		for ; k < len(q); k++ {
			if m.And(c, q[k].g) != False {
				return false
			}
		}
	}
	return true
}

// setMethods: what the rules about table generation take for granted of byte
// sets holds for the functions it calls.
func (c *Check) setMethods() {
	type found struct {
		obls  []*Obl
		names []string
		fns   map[string]bool
	}
	r := cached(c, "setMethods", func() found {
		used := map[string]bool{}
		sp := c.P.pkg("pkg/bnf/tablegen")
		if sp == nil {
			return found{}
		}
		set := modPath + "/" + bytesetRel
		for _, fn := range c.P.pkgFuncs(sp) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if f, ok := (*op).(*ssa.Function); ok && f.Object() != nil && f.Object().Pkg() != nil && f.Object().Pkg().Path() == set {
							used[f.Name()] = true
						}
					}
				}
			}
		}
		d := &Check{P: c.P, id: c.id, runs: c.runs, note: map[string]any{}, fns: map[string]bool{}, seen: map[*Eng]bool{}}
		if b := d.byteSets(); b != nil {
			b.only = used
			b.rules18()
			b.rules19()
			b.done()
		}
		var names []string
		for n := range used {
			names = append(names, n)
		}
		sort.Strings(names)
		return found{d.obls, names, d.fns}
	})
	for f := range r.fns {
		c.fns[f] = true
	}
	bad := 0
	for _, o := range r.obls {
		if !o.OK {
			bad++
			c.obls = append(c.obls, &Obl{Rule: "sets", What: o.What, Where: o.Where, Detail: o.Detail})
		}
	}
	c.ob("sets", bytesetRel, "the byte sets table generation works with are mathematical sets", bad == 0, "see the reports above")
	c.note["set_methods_used"] = strings.Join(r.names, ", ")
}
