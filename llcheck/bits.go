package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Bit-level domain: an integer is a vector of gates, one per bit.

func bitWidth(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64
	}
	switch b.Kind() {
	case types.Uint8, types.Int8:
		return 8
	case types.Uint16, types.Int16:
		return 16
	case types.Uint32, types.Int32:
		return 32
	}
	return 64
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

func (e *Eng) vec(bs []B, t types.Type) *Term {
	return e.intern(Term{op: "vec", bs: bs, typ: t, k: tkey(t)})
}

func (e *Eng) vecConst(n uint64, t types.Type) *Term {
	w := bitWidth(t)
	bs := make([]B, w)
	for i := range bs {
		if n>>uint(i)&1 == 1 {
			bs[i] = True
		}
	}
	return e.vec(bs, t)
}

func (e *Eng) vecOfConst(c *ssa.Const) *Term {
	if isSigned(c.Type()) {
		return e.vecConst(uint64(c.Int64()), c.Type())
	}
	return e.vecConst(c.Uint64(), c.Type())
}

// vecSym: unknown integer, one atom per bit
func (e *Eng) vecSym(t *Term, typ types.Type) *Term {
	w := bitWidth(typ)
	bs := make([]B, w)
	for i := range bs {
		bs[i] = e.atomVar(e.mk("bit", string(rune('0'+i/10))+string(rune('0'+i%10)), nil, t))
	}
	return e.vec(bs, typ)
}

func (e *Eng) asVec(t *Term, typ types.Type) *Term {
	if t.op == "vec" {
		return t
	}
	if n, ok := constInt(t); ok {
		return e.vecConst(uint64(n), typ)
	}
	if t.op == "phi" {
		w := bitWidth(typ)
		bs := make([]B, w)
		for _, x := range e.leaves(t) {
			v := e.asVec(x.t, typ)
			for i := range bs {
				bs[i] = e.bdd.Or(bs[i], e.bdd.And(x.g, v.bs[i]))
			}
		}
		return e.vec(bs, typ)
	}
	return e.vecSym(t, typ)
}

func (e *Eng) vecNum(t *Term) (int64, bool) {
	var n uint64
	for i, b := range t.bs {
		switch b {
		case True:
			n |= 1 << uint(i)
		case False:
		default:
			return 0, false
		}
	}
	if t.typ != nil && isSigned(t.typ) && len(t.bs) < 64 && len(t.bs) > 0 && t.bs[len(t.bs)-1] == True {
		n |= ^uint64(0) << uint(len(t.bs))
	}
	return int64(n), true
}

func (e *Eng) vecNot(v *Term) *Term {
	bs := make([]B, len(v.bs))
	for i := range bs {
		bs[i] = e.bdd.Not(v.bs[i])
	}
	return e.vec(bs, v.typ)
}

func (e *Eng) vecNeg(v *Term, t types.Type) *Term {
	return e.vecAdd(e.vecNot(v), e.vecConst(1, t), t)
}

func (e *Eng) vecAdd(a, b *Term, t types.Type) *Term {
	bs := make([]B, len(a.bs))
	c := False
	m := e.bdd
	for i := range bs {
		x, y := a.bs[i], b.bs[i]
		bs[i] = m.Xor(m.Xor(x, y), c)
		c = m.Or(m.And(x, y), m.And(c, m.Or(x, y)))
	}
	return e.vec(bs, t)
}

func (e *Eng) vecMux(g B, a, b *Term) *Term {
	bs := make([]B, len(a.bs))
	for i := range bs {
		bs[i] = e.bdd.Ite(g, a.bs[i], b.bs[i])
	}
	return e.vec(bs, a.typ)
}

func (e *Eng) vecConv(v *Term, from, to types.Type) *Term {
	w := bitWidth(to)
	bs := make([]B, w)
	for i := range bs {
		if i < len(v.bs) {
			bs[i] = v.bs[i]
		} else if isSigned(from) {
			bs[i] = v.bs[len(v.bs)-1]
		}
	}
	return e.vec(bs, to)
}

func (e *Eng) vecEqConst(v *Term, n uint64) B {
	r := True
	for i, b := range v.bs {
		if i < 64 && n>>uint(i)&1 == 1 {
			r = e.bdd.And(r, b)
		} else {
			r = e.bdd.And(r, e.bdd.Not(b))
		}
	}
	return r
}

func (e *Eng) vecShift(a, s *Term, left bool, rt types.Type) *Term {
	w := len(a.bs)
	cur := append([]B{}, a.bs...)
	fillB := False
	if !left && isSigned(rt) {
		fillB = a.bs[w-1]
	}
	for k := 0; k < len(s.bs); k++ {
		if s.bs[k] == False {
			continue
		}
		sh := w
		if k < 7 {
			sh = 1 << uint(k)
		}
		nx := make([]B, w)
		for i := 0; i < w; i++ {
			src := i - sh
			if !left {
				src = i + sh
			}
			x := fillB
			if left {
				x = False
			}
			if src >= 0 && src < w {
				x = cur[src]
			}
			nx[i] = e.bdd.Ite(s.bs[k], x, cur[i])
		}
		cur = nx
	}
	return e.vec(cur, rt)
}

func (e *Eng) vecBin(op token.Token, a, b *Term, ot, rt types.Type) *Term {
	if a.op == "phi" || b.op == "phi" {
	}
	m := e.bdd
	switch op {
	case token.SHL, token.SHR:
		av := e.asVec(a, rt)
		bt := b.typ
		if bt == nil {
			bt = types.Typ[types.Uint]
		}
		return e.vecShift(av, e.asVec(b, bt), op == token.SHL, rt)
	}
	x, y := e.asVec(a, ot), e.asVec(b, ot)
	bit := func(f func(p, q B) B) *Term {
		bs := make([]B, len(x.bs))
		for i := range bs {
			bs[i] = f(x.bs[i], y.bs[i])
		}
		return e.vec(bs, rt)
	}
	switch op {
	case token.AND:
		return bit(m.And)
	case token.OR:
		return bit(m.Or)
	case token.XOR:
		return bit(m.Xor)
	case token.AND_NOT:
		return bit(func(p, q B) B { return m.And(p, m.Not(q)) })
	case token.ADD:
		return e.vecAdd(x, y, rt)
	case token.SUB:
		n := e.vecNot(y)
		bs := make([]B, len(x.bs))
		c := True
		for i := range bs {
			p, q := x.bs[i], n.bs[i]
			bs[i] = m.Xor(m.Xor(p, q), c)
			c = m.Or(m.And(p, q), m.And(c, m.Or(p, q)))
		}
		return e.vec(bs, rt)
	case token.MUL:
		if n, ok := e.vecNum(y); ok {
			acc := e.vecConst(0, rt)
			for i := 0; i < len(x.bs); i++ {
				if uint64(n)>>uint(i)&1 == 1 {
					acc = e.vecAdd(acc, e.vecShift(x, e.vecConst(uint64(i), types.Typ[types.Uint]), true, rt), rt)
				}
			}
			return acc
		}
	case token.QUO, token.REM:
		if n, ok := e.vecNum(y); ok && n > 0 && n&(n-1) == 0 && (!isSigned(ot) || x.bs[len(x.bs)-1] == False) {
			k := 0
			for 1<<uint(k) < n {
				k++
			}
			bs := make([]B, len(x.bs))
			for i := range bs {
				if op == token.QUO {
					if i+k < len(x.bs) {
						bs[i] = x.bs[i+k]
					}
				} else if i < k {
					bs[i] = x.bs[i]
				}
			}
			return e.vec(bs, rt)
		}
		if p, ok := e.vecNum(x); ok {
			if q, ok := e.vecNum(y); ok && q != 0 {
				if op == token.QUO {
					return e.vecConst(uint64(p/q), rt)
				}
				return e.vecConst(uint64(p%q), rt)
			}
		}
	case token.EQL, token.NEQ:
		r := True
		for i := range x.bs {
			r = m.And(r, m.Not(m.Xor(x.bs[i], y.bs[i])))
		}
		if op == token.NEQ {
			r = m.Not(r)
		}
		return e.boolTerm(r)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if op == token.GTR || op == token.LEQ {
			x, y = y, x
		}
		// x < y unsigned (signed: flip top bits)
		lt := False
		for i := range x.bs {
			p, q := x.bs[i], y.bs[i]
			if i == len(x.bs)-1 && isSigned(ot) {
				p, q = q, p
			}
			lt = m.Ite(m.Xor(p, q), q, lt)
		}
		if op == token.LEQ || op == token.GEQ {
			lt = m.Not(lt)
		}
		return e.boolTerm(lt)
	}
	return e.mk("unknown", "vecop"+op.String(), rt)
}

// vecIndex: element of an array at a gated index
func (e *Eng) vecIndex(a, i *Term) *Term {
	n, ok := e.lenOf(a).isNum()
	if !ok || n > 512 {
		return e.mk("unknown", "vecindex", nil)
	}
	var r *Term
	for j := int64(0); j < n; j++ {
		el := e.index(a, e.num(j))
		if r == nil {
			r = el
			continue
		}
		g := e.vecEqConst(i, uint64(j))
		if r.op == "vec" && el.op == "vec" {
			r = e.vecMux(g, el, r)
		} else {
			r = e.iteTerm(g, el, r)
		}
	}
	if r == nil {
		return e.mk("unknown", "vecindex", nil)
	}
	return r
}

func (e *Eng) vecStore(a, i, v *Term) *Term {
	n, ok := e.lenOf(a).isNum()
	if !ok || n > 512 {
		return e.mk("unknown", "vecstore", nil)
	}
	var segs []*Term
	for j := int64(0); j < n; j++ {
		el := e.index(a, e.num(j))
		g := e.vecEqConst(i, uint64(j))
		if el.op == "vec" && v.op == "vec" {
			segs = append(segs, e.elem(e.vecMux(g, v, el)))
		} else {
			segs = append(segs, e.elem(e.iteTerm(g, v, el)))
		}
	}
	return e.list(segs...)
}
