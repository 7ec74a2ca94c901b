package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A loop over a list of any length. What it carries is a state; the function
// can be asked for its result if the loop is left at once, from an unknown
// state, or from the state one more element leads to.

const (
	foldInit = iota
	foldAny
	foldNext
)

// bMany is a list of any length.
type bMany struct {
	elem *bObj // holds the element looked at
	body bval
}

// bLen is the length of the list, bIdx the position of the element looked at,
// plus off.
type bLen struct {
	u   *bMany
	off int64
}

type bIdx struct {
	u   *bMany
	off int64
}

func (x *bitx) idxOp(in *ssa.BinOp, a, b bval) bval {
	off := func(v bval) (kind int, u *bMany, n int64) {
		switch c := v.(type) {
		case *bIdx:
			return 1, c.u, c.off
		case *bLen:
			return 2, c.u, c.off
		case *bInt:
			if n, ok := c.isNum(); ok {
				return 0, nil, n
			}
		}
		return -1, nil, 0
	}
	ka, ua, na := off(a)
	kb, ub, nb := off(b)
	switch {
	case in.Op == token.ADD && ka == 1 && kb == 0:
		return &bIdx{ua, na + nb}
	case in.Op == token.ADD && ka == 0 && kb == 1:
		return &bIdx{ub, na + nb}
	case in.Op == token.SUB && ka == 1 && kb == 0:
		return &bIdx{ua, na - nb}
	case ka == 2 && kb == 0 && x.lenZero:
		return bBool{x.constCmp(in.Op, na, nb)}
	case ka == 2 && kb == 0 && na == 0:
		// there is at least one
		switch {
		case nb <= 0 && (in.Op == token.EQL || in.Op == token.LEQ || in.Op == token.LSS), nb == 1 && in.Op == token.LSS:
			return bBool{False}
		case nb <= 0 && (in.Op == token.NEQ || in.Op == token.GTR || in.Op == token.GEQ), nb == 1 && in.Op == token.GEQ:
			return bBool{True}
		}
	case ka == 1 && kb == 2 && ua == ub && (x.mode == foldNext && na-nb < 0 || na == nb):
		// the position is less than the length if there is another element,
		// and equal to it at the end
		lt := x.mode == foldNext
		if na < nb {
			return x.boolOf(in.Op == token.LSS || in.Op == token.LEQ || in.Op == token.NEQ)
		}
		switch in.Op {
		case token.LSS, token.NEQ:
			return x.boolOf(lt)
		case token.GEQ, token.EQL:
			return x.boolOf(!lt)
		}
	case ka == 2 && kb == 1 && ua == ub && na == nb:
		lt := x.mode == foldNext
		switch in.Op {
		case token.GTR, token.NEQ:
			return x.boolOf(lt)
		case token.LEQ, token.EQL:
			return x.boolOf(!lt)
		}
	}
	x.unsupported("the operation %s on a position at %s", in.Op, x.at(in))
	return nil
}

func (x *bitx) boolOf(b bool) bval {
	if b {
		return bBool{True}
	}
	return bBool{False}
}

// sym is an unknown value, the same for every run.
func (x *bitx) sym(key string, t types.Type) bval {
	if x.syms == nil {
		x.syms = map[string]bval{}
	}
	if v, ok := x.syms[key]; ok {
		return v
	}
	v := x.symbolic(t, 1)[0]
	x.syms[key] = v
	return v
}

func (x *bitx) foldLoop(f *bframe, L *natLoop, st bstate) ([]bedge, bool) {
	br, ok := L.header.Instrs[len(L.header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, false
	}
	c, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return nil, false
	}
	// the length of such a list, known before the loop or taken in its head
	var u *bMany
	for _, o := range []ssa.Value{c.X, c.Y} {
		if l, ok := f.env[o].(*bLen); ok {
			u = l.u
		}
		if call, ok := o.(*ssa.Call); ok && u == nil {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if m, ok := f.env[call.Call.Args[0]].(*bMany); ok {
					u = m
				}
			}
		}
	}
	if u == nil {
		return nil, false
	}
	x.folds++
	if x.folds > 1 {
		x.unsupported("more than one loop over the arguments")
	}
	var idx *ssa.Phi
	start := int64(0)
	for _, i := range L.header.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		if v, ok := st.phis[ph].(*bInt); ok && isInteger(ph.Type()) {
			if n, ok := v.isNum(); ok && (n == 0 || n == -1) && isCounter(ph, L) {
				idx, start = ph, n
			}
		}
	}
	if idx == nil {
		x.unsupported("the loop over the arguments at %s", x.p.pos(c.Pos()))
	}
	run := func(s bstate, mode int) (back, exits []bedge) {
		m := x.mode
		x.mode = mode
		defer func() { x.mode = m }()
		p := map[*ssa.Phi]bval{}
		for k, v := range s.phis {
			p[k] = v
		}
		p[idx] = &bIdx{u, start}
		in := map[*ssa.BasicBlock][]bedge{L.header: {{nil, L.header, s.pc, s.mem.clone(), p}}}
		back, exits = x.region(f, in, L)
		return
	}
	leave := func(s bstate) []bedge {
		_, ex := run(s, foldInit)
		if len(ex) == 0 {
			x.unsupported("the end of the loop at %s", x.p.pos(c.Pos()))
		}
		return ex
	}
	if x.mode == foldInit {
		return leave(st), true
	}
	// the unknown state: whatever an iteration changes
	cur := bstate{st.pc, st.mem.clone(), map[*ssa.Phi]bval{}}
	for k, v := range st.phis {
		cur.phis[k] = v
	}
	nis := len(x.issues)
	for n := 0; ; n++ {
		x.issues = x.issues[:nis]
		cur.mem[u.elem] = u.body
		back, ex := run(cur, foldNext)
		if len(back) == 0 || len(ex) > 0 {
			x.unsupported("the loop over the arguments at %s is left early", x.p.pos(c.Pos()))
		}
		phis := x.enter(f, L.header, back)
		mem := f.mem
		if f.pc != cur.pc {
			x.unsupported("the loop over the arguments at %s", x.p.pos(c.Pos()))
		}
		changed := false
		for o, v := range cur.mem {
			if y, ok := x.syms[fmt.Sprintf("%d", o.id)]; ok {
				if !x.same(y, v) {
					cur.mem[o] = y
					changed = true
				}
				continue
			}
			if !x.same(mem[o], v) {
				cur.mem[o] = x.sym(fmt.Sprintf("%d", o.id), o.typ)
				changed = true
			}
		}
		for ph, v := range cur.phis {
			if ph == idx {
				continue
			}
			k := "phi " + ph.Name()
			if y, ok := x.syms[k]; ok {
				if !x.same(y, v) {
					cur.phis[ph] = y
					changed = true
				}
				continue
			}
			if !x.same(phis[ph], v) {
				cur.phis[ph] = x.sym(k, ph.Type())
				changed = true
			}
		}
		if changed {
			if n > 20 {
				x.unsupported("the loop over the arguments at %s", x.p.pos(c.Pos()))
			}
			continue
		}
		if i, ok := phis[idx].(*bIdx); !ok || i.off != start+1 {
			x.unsupported("the counter of the loop at %s", x.p.pos(c.Pos()))
		}
		if x.mode == foldNext {
			return leave(bstate{cur.pc, mem, phis}), true
		}
		return leave(cur), true
	}
}

// isCounter: the variable grows by one.
func isCounter(ph *ssa.Phi, L *natLoop) bool {
	for i, p := range ph.Block().Preds {
		if !L.body[p] {
			continue
		}
		b, ok := ph.Edges[i].(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return false
		}
		k, ok := b.Y.(*ssa.Const)
		if !ok || b.X != ph || k.Value == nil || k.Int64() != 1 {
			return false
		}
	}
	return true
}
