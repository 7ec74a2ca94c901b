package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Byte sets as values of a set algebra: a set is a union of named parts, each
// under a gate, none of which contains the byte 0 (the mark for "can be empty"
// resp. "end of input"), plus the gate under which byte 0 is a member.

func (e *Eng) emptySet() *Term { return e.mkSet(nil, False) }

func (e *Eng) mkSet(parts []gv, eos B) *Term {
	m := map[*Term]B{}
	for _, p := range parts {
		if p.g != False {
			m[p.t] = e.bdd.Or(m[p.t], p.g)
		}
	}
	var ts []*Term
	for t := range m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	t := Term{op: "set", b: eos, args: ts, typ: e.byteSetType()}
	for _, x := range ts {
		t.bs = append(t.bs, m[x])
	}
	return e.intern(t)
}

func (e *Eng) byteSetType() types.Type { return e.P.namedType("pkg/bnf/tablegen/byteset", "ByteSet") }

// setAtom views an unknown set value as a set term.
func (e *Eng) setAtom(t *Term) *Term {
	switch t.op {
	case "set":
		return t
	case "phi":
		return e.setPhi(e.leaves(t))
	}
	part := e.mk("nz", "", nil, t)
	return e.mkSet([]gv{{True, part}}, e.atomVar(e.mk("b", "", nil, e.mk("eos", "", nil, t))))
}

func (e *Eng) setPhi(gs []gv) *Term {
	var parts []gv
	eos := False
	for _, x := range gs {
		s := e.setAtom(x.t)
		for i, p := range s.args {
			parts = append(parts, gv{e.bdd.And(x.g, s.bs[i]), p})
		}
		eos = e.bdd.Or(eos, e.bdd.And(x.g, s.b))
	}
	return e.mkSet(parts, eos)
}

func (e *Eng) setUnion(a, b *Term) *Term {
	a, b = e.setAtom(a), e.setAtom(b)
	var parts []gv
	for i, p := range a.args {
		parts = append(parts, gv{a.bs[i], p})
	}
	for i, p := range b.args {
		parts = append(parts, gv{b.bs[i], p})
	}
	return e.mkSet(parts, e.bdd.Or(a.b, b.b))
}

// setSingle: the set holding one byte
func (e *Eng) setSingle(v *Term) *Term {
	if n, ok := constInt(v); ok {
		if n == 0 {
			return e.mkSet(nil, True)
		}
		return e.mkSet([]gv{{True, e.mk("single", "", nil, v)}}, False)
	}
	z := e.eqTerms(v, e.mk("const", "0", types.Typ[types.Byte]))
	return e.mkSet([]gv{{e.bdd.Not(z), e.mk("single", "", nil, v)}}, z)
}

func (e *Eng) setLoad(f *frame, p *Term, in ssa.Instruction) *Term {
	return e.setAtom(e.load(f, p, e.byteSetType(), in))
}

// setSup: a is a superset of b
func (e *Eng) setSup(a, b *Term) B {
	a, b = e.setAtom(a), e.setAtom(b)
	// parts of b that a has anyway
	have := map[*Term]B{}
	for i, p := range a.args {
		have[p] = a.bs[i]
	}
	var rest []gv
	for i, p := range b.args {
		g := e.bdd.And(b.bs[i], e.bdd.Not(have[p]))
		rest = append(rest, gv{g, p})
	}
	r := True
	eos := e.bdd.And(b.b, e.bdd.Not(a.b))
	for _, x := range rest {
		if x.g == False {
			continue
		}
		r = e.bdd.And(r, e.bdd.Imp(x.g, e.sup1(e.supKey(a), x.t)))
	}
	return e.bdd.And(r, e.bdd.Not(eos))
}

// supKey: the receiver of a superset test without its end mark
func (e *Eng) supKey(a *Term) *Term {
	var parts []gv
	for i, p := range a.args {
		parts = append(parts, gv{a.bs[i], p})
	}
	return e.mkSet(parts, False)
}

func (e *Eng) setEq(a, b *Term) B { return e.bdd.And(e.setSup(a, b), e.setSup(b, a)) }

// setSizes: the difference between the sizes of two sets, where one is made of
// the parts of the other and more. When they are the same size, and the sign of
// the bigger one in the difference (0 if it is not of that form).
func (e *Eng) setSizes(l Lin) (B, int) {
	if len(l.ts) != 2 || l.ts[0].coef != -l.ts[1].coef || l.ts[0].coef != 1 && l.ts[0].coef != -1 {
		return False, 0
	}
	for i := 0; i < 2; i++ {
		x, y := l.ts[i], l.ts[1-i]
		if x.t.op != "call" || x.t.k != "setlen" || y.t.op != "call" || y.t.k != "setlen" {
			return False, 0
		}
		big, small := e.setAtom(x.t.args[0]), e.setAtom(y.t.args[0])
		have := map[*Term]B{}
		for j, p := range big.args {
			have[p] = big.bs[j]
		}
		ok := e.bdd.Imp(small.b, big.b) == True
		for j, p := range small.args {
			h, in := have[p]
			ok = ok && in && e.bdd.Imp(small.bs[j], h) == True
		}
		if ok {
			return e.setSup(small, big), int(x.coef)
		}
	}
	return False, 0
}

// setCall models the methods of byteset.ByteSet.
func (e *Eng) setCall(cc *callCtx, fn *ssa.Function, args []*Term) (*Term, bool) {
	var pk *types.Package
	if fn.Pkg != nil {
		pk = fn.Pkg.Pkg
	} else if fn.Object() != nil {
		pk = fn.Object().Pkg()
	}
	if pk == nil || pk.Path() != modPath+"/pkg/bnf/tablegen/byteset" {
		return nil, false
	}
	f, in := cc.f, cc.in
	recv := func() *Term {
		a := args[0]
		if isPtr(fn.Params[0].Type()) {
			return e.setLoad(f, a, in)
		}
		return e.setAtom(a)
	}
	other := func() *Term {
		a := args[1]
		if isPtr(fn.Params[1].Type()) {
			return e.setLoad(f, a, in)
		}
		return e.setAtom(a)
	}
	if fn.Signature.Recv() == nil {
		if fn.Name() == "New" {
			r := e.emptySet()
			c := e.resolve(f.mem, args[0])
			for _, s := range e.segs(c) {
				switch s.op {
				case "elem":
					r = e.setUnion(r, e.setSingle(s.args[0]))
				default:
					r = e.setUnion(r, e.mk("call", "setfrom", e.byteSetType(), s))
				}
			}
			return r, true
		}
		return nil, false
	}
	zero := func(v *Term) bool { n, ok := constInt(v); return ok && n == 0 }
	switch fn.Name() {
	case "Add":
		s := e.setUnion(recv(), e.setSingle(args[1]))
		e.store(f, args[0], s, in)
		return nil, true
	case "Remove":
		s := recv()
		var r *Term
		if zero(args[1]) {
			var parts []gv
			for i, p := range s.args {
				parts = append(parts, gv{s.bs[i], p})
			}
			r = e.mkSet(parts, False)
		} else {
			r = e.setAtom(e.mk("call", "setremove", e.byteSetType(), s, args[1]))
		}
		e.store(f, args[0], r, in)
		return nil, true
	case "Contains":
		s := recv()
		if zero(args[1]) {
			return e.boolTerm(s.b), true
		}
		r := e.mk("call", "setcontains", types.Typ[types.Bool], s, args[1])
		return e.boolTerm(e.boolOf(r)), true
	case "Union":
		return e.setUnion(recv(), other()), true
	case "IsSuperSet":
		return e.boolTerm(e.setSup(recv(), other())), true
	case "IsSubSet":
		return e.boolTerm(e.setSup(other(), recv())), true
	case "Equal":
		return e.boolTerm(e.setEq(recv(), other())), true
	case "Len":
		return e.mk("call", "setlen", types.Typ[types.Int], recv()), true
	case "Bytes":
		r := e.mk("call", "setbytes", nil, recv())
		e.nonnil[r] = true
		return r, true
	case "String":
		return e.mk("call", "setstring", types.Typ[types.String], recv()), true
	}
	if !strings.HasPrefix(fn.Name(), "_") {
		return nil, false
	}
	return nil, false
}
