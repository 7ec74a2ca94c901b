package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func sortInts(x []int) { sort.Ints(x) }

// Term is a hash-consed node of the value-dependence graph.
type Term struct {
	id   int
	op   string
	k    string
	args []*Term
	typ  types.Type
	b    B
	bs   []B // phi: guards of the leaves
	lin  *Lin
	obj  *Object
	fn   *ssa.Function
	aux  any
}

// Lin is an integer linear combination c + sum(coef*t).
type Lin struct {
	c  int64
	ts []linT
}
type linT struct {
	t    *Term
	coef int64
}

type Object struct {
	id       int
	key      string
	kind     string // local, slice, map, builder, global, ext
	typ      types.Type
	length   *Term // slice objects
	ext      bool
	frozen   bool
	born     int // loop nesting serial at creation
	ctx      string
	instr    ssa.Instruction
	initTerm *Term // ext: term whose pointee this is
}

func (e *Eng) intern(t Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.k)
	sb.WriteByte('|')
	for _, a := range t.args {
		sb.WriteString(strconv.Itoa(a.id))
		sb.WriteByte(',')
	}
	if t.b != 0 {
		sb.WriteString("|b" + strconv.Itoa(int(t.b)))
	}
	for _, g := range t.bs {
		sb.WriteString("|g" + strconv.Itoa(int(g)))
	}
	if t.lin != nil {
		fmt.Fprintf(&sb, "|l%d", t.lin.c)
		for _, x := range t.lin.ts {
			fmt.Fprintf(&sb, "+%d*%d", x.coef, x.t.id)
		}
	}
	if t.obj != nil {
		fmt.Fprintf(&sb, "|o%d", t.obj.id)
	}
	if t.fn != nil {
		fmt.Fprintf(&sb, "|f%p", t.fn)
	}
	key := sb.String()
	if r, ok := e.terms[key]; ok {
		return r
	}
	burnt()
	r := new(Term)
	*r = t
	r.id = len(e.termList)
	e.terms[key] = r
	e.termList = append(e.termList, r)
	return r
}

func (e *Eng) mk(op, k string, typ types.Type, args ...*Term) *Term {
	return e.intern(Term{op: op, k: k, typ: typ, args: args})
}

func (e *Eng) sym(name string, typ types.Type) *Term { return e.mk("sym", name, typ) }

// ---- linear integers

func (e *Eng) toLin(t *Term) Lin {
	if t.lin != nil && t.op == "lin" {
		return *t.lin
	}
	return Lin{ts: []linT{{t, 1}}}
}

func (e *Eng) fromLin(l Lin) *Term {
	if l.c == 0 && len(l.ts) == 1 && l.ts[0].coef == 1 {
		return l.ts[0].t
	}
	cp := l
	return e.intern(Term{op: "lin", lin: &cp, typ: types.Typ[types.Int]})
}

func linAdd(a, b Lin, s int64) Lin {
	r := Lin{c: a.c + s*b.c}
	i, j := 0, 0
	for i < len(a.ts) || j < len(b.ts) {
		switch {
		case j >= len(b.ts) || i < len(a.ts) && a.ts[i].t.id < b.ts[j].t.id:
			r.ts = append(r.ts, a.ts[i])
			i++
		case i >= len(a.ts) || b.ts[j].t.id < a.ts[i].t.id:
			r.ts = append(r.ts, linT{b.ts[j].t, s * b.ts[j].coef})
			j++
		default:
			c := a.ts[i].coef + s*b.ts[j].coef
			if c != 0 {
				r.ts = append(r.ts, linT{a.ts[i].t, c})
			}
			i++
			j++
		}
	}
	return r
}

func linScale(a Lin, s int64) Lin {
	if s == 0 {
		return Lin{}
	}
	r := Lin{c: a.c * s}
	for _, x := range a.ts {
		r.ts = append(r.ts, linT{x.t, x.coef * s})
	}
	return r
}

func (e *Eng) num(n int64) *Term { return e.fromLin(Lin{c: n}) }
func (e *Eng) add(a, b *Term) *Term {
	return e.lift2(a, b, func(a, b *Term) *Term {
		return e.fromLin(linAdd(e.toLin(a), e.toLin(b), 1))
	})
}
func (e *Eng) sub(a, b *Term) *Term {
	return e.lift2(a, b, func(a, b *Term) *Term {
		return e.fromLin(linAdd(e.toLin(a), e.toLin(b), -1))
	})
}
func (e *Eng) scale(a *Term, c int64) *Term {
	return e.lift(a, func(a *Term) *Term { return e.fromLin(linScale(e.toLin(a), c)) })
}
func (e *Eng) addc(a *Term, c int64) *Term { return e.add(a, e.num(c)) }

func (t *Term) isNum() (int64, bool) {
	if t.op == "lin" && len(t.lin.ts) == 0 {
		return t.lin.c, true
	}
	return 0, false
}

// nonneg: terms which are non-negative by nature.
func (e *Eng) nonnegAtom(t *Term) bool {
	switch t.op {
	case "len", "kappa", "mlen", "trip", "kexit":
		return true
	case "sym":
		return strings.HasPrefix(t.k, "β") || t.aux == "nonneg" || e.nonneg[t]
	case "conv":
		return true && strings.HasPrefix(t.k, "u")
	case "call":
		return t.k == "setlen"
	case "mu":
		return strings.HasSuffix(t.k, "+")
	}
	return e.nonneg[t]
}

// linSign: -1 if l<=0 always (as far as known), +1 if l>=1 always, 0 unknown
func (e *Eng) le0Known(l Lin) (val, known bool) {
	if len(l.ts) == 2 {
		// a position found by a binary search is at most the length
		for i := 0; i < 2; i++ {
			x, y := l.ts[i], l.ts[1-i]
			if x.t.op == "call" && x.t.k == "sort.SearchInts" && x.coef == -y.coef && e.lenOf(x.t.args[0]) == y.t {
				if x.coef == 1 && l.c <= 0 {
					return true, true
				}
				if x.coef == -1 && l.c >= 1 {
					return false, true
				}
			}
		}
	}
	allNeg, allPos := true, true
	for _, x := range l.ts {
		if !e.nonnegAtom(x.t) {
			return false, false
		}
		if x.coef > 0 {
			allNeg = false
		} else {
			allPos = false
		}
	}
	if allNeg && l.c <= 0 {
		return true, true
	}
	if allPos && l.c >= 1 {
		return false, true
	}
	return false, false
}

// ---- strings / consts

func (e *Eng) str(s string) *Term { return e.mk("str", s, types.Typ[types.String]) }

func (e *Eng) constTerm(v constant.Value, typ types.Type) *Term {
	u := typ.Underlying()
	if v == nil {
		switch u.(type) {
		case *types.Slice:
			return e.nilSlice()
		}
		return e.nilTerm()
	}
	switch v.Kind() {
	case constant.String:
		return e.str(constant.StringVal(v))
	case constant.Int, constant.Float:
		if isIntLin(typ) {
			if n, ok := constant.Int64Val(constant.ToInt(v)); ok {
				return e.num(n)
			}
		}
		if b, ok := u.(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return e.mk("const", constant.ToInt(v).ExactString(), typ)
		}
	}
	return e.mk("const", v.ExactString(), typ)
}

func (e *Eng) nilTerm() *Term  { return e.mk("nil", "", nil) }
func (e *Eng) nilSlice() *Term { return e.mk("nilslice", "", nil) }

func isIntLin(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int || b.Kind() == types.UntypedInt || b.Kind() == types.Int64 || b.Kind() == types.Int32 || b.Kind() == types.UntypedRune)
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func tkey(t types.Type) string { return types.TypeString(t, nil) }

// ---- string concatenation

func (e *Eng) catParts(t *Term) []*Term {
	switch t.op {
	case "cat":
		return t.args
	case "str":
		if t.k == "" {
			return nil
		}
	}
	return []*Term{t}
}

func (e *Eng) cat(parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		for _, q := range e.catParts(p) {
			if q.op == "str" && len(out) > 0 && out[len(out)-1].op == "str" {
				out[len(out)-1] = e.str(out[len(out)-1].k + q.k)
				continue
			}
			out = append(out, q)
		}
	}
	switch len(out) {
	case 0:
		return e.str("")
	case 1:
		return out[0]
	}
	return e.mk("cat", "", types.Typ[types.String], out...)
}

// ---- lists

func (e *Eng) list(segs ...*Term) *Term {
	return e.mk("list", "", nil, segs...)
}

func (e *Eng) segs(t *Term) []*Term {
	switch t.op {
	case "list":
		return t.args
	case "nilslice":
		return nil
	case "nil":
		return nil
	case "slice":
		return []*Term{e.mk("sub", "", nil, t.args...)}
	}
	return []*Term{e.mk("all", "", nil, t)}
}

// normSegs makes a canonical segment list.
func (e *Eng) normSegs(in []*Term) []*Term {
	var out []*Term
	for _, s := range in {
		switch s.op {
		case "all":
			switch s.args[0].op {
			case "list":
				out = append(out, e.normSegs(s.args[0].args)...)
				continue
			case "nilslice", "nil":
				continue
			case "slice":
				out = append(out, e.normSegs([]*Term{e.mk("sub", "", nil, s.args[0].args...)})...)
				continue
			case "zeros":
				if n, ok := s.args[0].args[0].isNum(); ok && n == 0 {
					continue
				}
			}
		case "sub":
			x, lo, hi := s.args[0], s.args[1], s.args[2]
			if x.op == "list" || x.op == "slice" {
				r := e.slice(x, lo, hi)
				if r.op == "list" {
					out = append(out, e.normSegs(r.args)...)
					continue
				}
				if r.op == "slice" {
					s = e.mk("sub", "", nil, r.args...)
				} else {
					s = e.mk("all", "", nil, r)
				}
				x = s.args[0]
				if s.op == "all" {
					break
				}
				lo, hi = s.args[1], s.args[2]
			}
			if lo == hi {
				continue
			}
			if n, ok := lo.isNum(); ok && n == 0 && hi == e.lenOf(x) {
				s = e.mk("all", "", nil, x)
			} else if len(out) > 0 && out[len(out)-1].op == "sub" && out[len(out)-1].args[0] == x && out[len(out)-1].args[2] == lo {
				s = e.mk("sub", "", nil, x, out[len(out)-1].args[1], hi)
				out = out[:len(out)-1]
				out = append(out, e.normSegs([]*Term{s})...)
				continue
			}
		case "comp":
			if n, ok := s.args[0].isNum(); ok {
				if n == 0 {
					continue
				}
				if n <= 8 {
					for i := int64(0); i < n; i++ {
						for _, b := range s.args[1:] {
							out = append(out, e.mk("elem", "", nil, e.instBound(s, b, e.num(i))))
						}
					}
					continue
				}
			}
			// comp(n, index(x, β)) is sub(x, 0, n)
			if len(s.args) == 2 {
				if x, off, ok := e.affIndexOf(s.args[1], e.boundOf(s)); ok {
					out = append(out, e.normSegs([]*Term{e.mk("sub", "", nil, x, off, e.add(off, s.args[0]))})...)
					continue
				}
			}
		}
		out = append(out, s)
	}
	return out
}

// affIndexOf: t == index(x, β+off) with x, off not mentioning β
func (e *Eng) affIndexOf(t, beta *Term) (x, off *Term, ok bool) {
	if t.op != "index" {
		return
	}
	l := e.toLin(t.args[1])
	found := false
	for _, lt := range l.ts {
		if lt.t == beta {
			if lt.coef != 1 {
				return
			}
			found = true
		}
	}
	if !found {
		return
	}
	off = e.sub(t.args[1], beta)
	if e.mentions(off, beta) || e.mentions(t.args[0], beta) {
		return
	}
	return t.args[0], off, true
}

func (e *Eng) boundOf(comp *Term) *Term { return comp.aux.(*Term) }

// isBinder: terms that bind their symbol aux in all arguments but the first
func isBinder(t *Term) bool {
	switch t.op {
	case "comp", "flat", "fillc", "mapcomp", "ucomp", "ex", "rep":
		_, ok := t.aux.(*Term)
		return ok
	}
	return false
}

// boundDepth is the highest number of a symbol bound inside t.
func (e *Eng) boundDepth(t *Term) int {
	if d, ok := e.depthMemo[t]; ok {
		return d
	}
	d := 0
	if isBinder(t) {
		fmt.Sscanf(t.aux.(*Term).k, "β%d", &d)
	}
	e.eachChild(t, func(c *Term) {
		if x := e.boundDepth(c); x > d {
			d = x
		}
	})
	e.depthMemo[t] = d
	return d
}

func (e *Eng) eachChild(t *Term, f func(*Term)) {
	for _, a := range t.args {
		f(a)
	}
	if t.lin != nil {
		for _, x := range t.lin.ts {
			f(x.t)
		}
	}
	if t.b > True {
		for _, v := range e.bdd.Support(t.b) {
			f(e.atoms[v])
		}
	}
	for _, g := range t.bs {
		for _, v := range e.bdd.Support(g) {
			f(e.atoms[v])
		}
	}
}

// comp builds the list of bodies for kappa = 0..n-1.
func (e *Eng) comp(op string, n *Term, kappa *Term, bodies ...*Term) *Term {
	d := 0
	for _, b := range bodies {
		if x := e.boundDepth(b); x > d {
			d = x
		}
	}
	var beta *Term
	for {
		d++
		beta = e.sym(fmt.Sprintf("β%d", d), types.Typ[types.Int])
		if beta == kappa {
			break
		}
		free := true
		for _, b := range bodies {
			if e.mentions(b, beta) {
				free = false
			}
		}
		if free {
			break
		}
	}
	args := []*Term{n}
	for _, b := range bodies {
		if beta != kappa {
			b = e.substOne(b, kappa, beta)
		}
		args = append(args, b)
	}
	t := e.mk(op, beta.k, nil, args...)
	t.aux = beta
	return t
}

// freshBound renames the bound symbol of t if m brings it in from outside.
func (e *Eng) freshBound(t *Term, m map[*Term]*Term) *Term {
	b := t.aux.(*Term)
	hit := false
	for f, v := range m {
		if f != b && e.mentions(v, b) && e.mentions(t, f) {
			hit = true
		}
	}
	if !hit {
		return t
	}
	e.iotas++
	nb := e.sym(fmt.Sprintf("βf%d", e.iotas), types.Typ[types.Int])
	args := []*Term{t.args[0]}
	for _, a := range t.args[1:] {
		args = append(args, e.substOne(a, b, nb))
	}
	r := e.mk(t.op, nb.k, t.typ, args...)
	r.aux = nb
	return r
}

func (e *Eng) instBound(comp, body, at *Term) *Term {
	return e.substOne(body, e.boundOf(comp), at)
}

func (e *Eng) lenOf(t *Term) *Term {
	if t.op == "phi" {
		return e.lift(t, e.lenOf)
	}
	switch t.op {
	case "nilslice", "nil":
		return e.num(0)
	case "str":
		return e.num(int64(len(t.k)))
	case "bytes", "string":
		return e.lenOf(t.args[0])
	case "slice":
		return e.sub(t.args[2], t.args[1])
	case "sref":
		return t.obj.length
	case "sym":
		if n := e.stabLen[t]; n != nil {
			return n
		}
	case "list":
		r := e.num(0)
		for _, s := range t.args {
			r = e.add(r, e.segLen(s))
		}
		return r
	case "cat":
		r := e.num(0)
		for _, s := range t.args {
			r = e.add(r, e.lenOf(s))
		}
		return r
	case "store":
		return e.lenOf(t.args[0])
	case "zeros":
		return t.args[0]
	case "fill":
		return e.lenOf(t.args[0])
	case "mu":
		if lv, ok := t.aux.(*LoopVar); ok && lv.keepLen && lv.mu == t {
			return e.lenOf(lv.init)
		}
	case "call":
		if t.k == "sorted" || t.k == "sortedby" || t.k == "reversed" {
			return e.lenOf(t.args[0])
		}
	}
	return e.mk("len", "", types.Typ[types.Int], t)
}

func (e *Eng) segLen(s *Term) *Term {
	switch s.op {
	case "elem":
		return e.num(1)
	case "all":
		return e.lenOf(s.args[0])
	case "sub":
		return e.sub(s.args[2], s.args[1])
	case "comp":
		return e.fromLin(linScale(e.toLin(s.args[0]), int64(len(s.args)-1)))
	}
	return e.mk("seglen", "", types.Typ[types.Int], s)
}

func (e *Eng) segAt(s *Term, i *Term) *Term {
	switch s.op {
	case "elem":
		return s.args[0]
	case "all":
		return e.index(s.args[0], i)
	case "sub":
		return e.index(s.args[0], e.add(s.args[1], i))
	case "comp":
		if len(s.args) == 2 {
			return e.instBound(s, s.args[1], i)
		}
	}
	return nil
}

// index gives element i of a list-like term.
func (e *Eng) index(x, i *Term) *Term {
	if i.op == "vec" {
		if n, ok := e.vecNum(i); ok {
			return e.index(x, e.num(n))
		}
		return e.vecIndex(x, i)
	}
	if x.op == "phi" || i.op == "phi" {
		return e.lift2(x, i, e.index)
	}
	switch x.op {
	case "bytes", "string":
		return e.index(x.args[0], i)
	case "slice":
		return e.index(x.args[0], e.add(x.args[1], i))
	case "str":
		if n, ok := i.isNum(); ok && n >= 0 && int(n) < len(x.k) {
			return e.mk("const", strconv.Itoa(int(x.k[n])), types.Typ[types.Byte])
		}
	case "zeros":
		return x.aux.(*Term)
	case "store":
		if x.args[1] == i {
			return x.args[2]
		}
		if e.distinct(x.args[1], i) {
			return e.index(x.args[0], i)
		}
	case "list":
		if len(x.args) == 1 {
			if r := e.segAt(x.args[0], i); r != nil {
				return r
			}
		}
		// from the front
		pos := e.num(0)
		for _, s := range x.args {
			d, ok := e.sub(i, pos).isNum()
			if s.op == "elem" {
				if ok && d == 0 {
					return s.args[0]
				}
				pos = e.addc(pos, 1)
				continue
			}
			l := e.segLen(s)
			if d2, ok2 := e.sub(i, e.add(pos, l)).isNum(); ok2 && d2 >= 0 {
				pos = e.add(pos, l)
				continue
			}
			if ln, ok3 := l.isNum(); ok && ok3 && d >= 0 && d < ln {
				if r := e.segAt(s, e.num(d)); r != nil {
					return r
				}
			}
			break
		}
		// from the back
		end := e.lenOf(x)
		for j := len(x.args) - 1; j >= 0; j-- {
			s := x.args[j]
			d, ok := e.sub(end, i).isNum()
			if s.op == "elem" {
				if ok && d == 1 {
					return s.args[0]
				}
				end = e.addc(end, -1)
				continue
			}
			sl := e.segLen(s)
			if ln, ok2 := sl.isNum(); ok && ok2 && d > ln {
				end = e.sub(end, sl)
				continue
			}
			if _, ok2 := sl.isNum(); ok && d >= 1 && (ok2 || j == 0) {
				if r := e.segAt(s, e.sub(sl, e.num(d))); r != nil {
					return r
				}
			}
			break
		}
	}
	return e.mk("index", "", nil, x, i)
}

// distinct: provably different index terms
func (e *Eng) distinct(a, b *Term) bool {
	if n, ok := e.sub(a, b).isNum(); ok && n != 0 {
		return true
	}
	return false
}

// slice x[lo:hi]
func (e *Eng) slice(x, lo, hi *Term) *Term {
	if x.op == "phi" || lo.op == "phi" || hi.op == "phi" {
		return e.lift(x, func(x *Term) *Term {
			return e.lift2(lo, hi, func(lo, hi *Term) *Term { return e.slice(x, lo, hi) })
		})
	}
	if x.op == "bytes" || x.op == "string" {
		r := e.slice(x.args[0], lo, hi)
		return e.mk(x.op, "", x.typ, r)
	}
	if n, ok := lo.isNum(); ok && n == 0 && hi == e.lenOf(x) {
		return x
	}
	switch x.op {
	case "nilslice":
		return x
	case "store":
		// the element replaced is cut off
		if d, ok := e.sub(x.args[1], hi).isNum(); ok && d >= 0 {
			return e.slice(x.args[0], lo, hi)
		}
		if d, ok := e.sub(lo, x.args[1]).isNum(); ok && d > 0 {
			return e.slice(x.args[0], lo, hi)
		}
	case "slice":
		return e.slice(x.args[0], e.add(x.args[1], lo), e.add(x.args[1], hi))
	case "str":
		a, ok1 := lo.isNum()
		b, ok2 := hi.isNum()
		if ok1 && ok2 && a >= 0 && a <= b && int(b) <= len(x.k) {
			return e.str(x.k[a:b])
		}
	case "list":
		segs := append([]*Term{}, x.args...)
		// cut from the back
		end := e.lenOf(x)
		for len(segs) > 0 {
			s := segs[len(segs)-1]
			d, ok := e.sub(end, hi).isNum()
			if !ok || d <= 0 {
				break
			}
			if s.op == "elem" {
				segs = segs[:len(segs)-1]
				end = e.addc(end, -1)
				continue
			}
			if s.op == "all" {
				segs[len(segs)-1] = e.mk("sub", "", nil, s.args[0], e.num(0), e.addc(e.segLen(s), -d))
				end = hi
			} else if s.op == "sub" {
				segs[len(segs)-1] = e.mk("sub", "", nil, s.args[0], s.args[1], e.addc(s.args[2], -d))
				end = hi
			} else if s.op == "comp" && len(s.args) == 2 {
				c := e.mk("comp", s.k, nil, e.addc(s.args[0], -d), s.args[1])
				c.aux = s.aux
				segs[len(segs)-1] = c
				end = hi
			}
			break
		}
		if end == hi {
			pos := e.num(0)
			for len(segs) > 0 {
				d, ok := e.sub(lo, pos).isNum()
				if !ok || d < 0 {
					break
				}
				if d == 0 {
					ns := e.normSegs(segs)
					if len(ns) == 1 && ns[0].op == "sub" {
						return e.mk("slice", "", nil, ns[0].args...)
					}
					if len(ns) == 1 && ns[0].op == "all" {
						return ns[0].args[0]
					}
					return e.list(ns...)
				}
				if segs[0].op != "elem" {
					break
				}
				segs = segs[1:]
				pos = e.addc(pos, 1)
			}
			if len(segs) == 0 {
				return e.list()
			}
		}
	}
	return e.mk("slice", "", nil, x, lo, hi)
}

func (e *Eng) appendList(x *Term, segs ...*Term) *Term {
	all := append(append([]*Term{}, e.segs(x)...), segs...)
	return e.list(e.normSegs(all)...)
}

func (e *Eng) elem(t *Term) *Term { return e.mk("elem", "", nil, t) }

// storeList writes element i of list content x.
func (e *Eng) storeList(x, i, v *Term) *Term {
	if i.op == "vec" {
		if n, ok := e.vecNum(i); ok {
			return e.storeList(x, e.num(n), v)
		}
		return e.vecStore(x, i, v)
	}
	if x.op == "list" {
		pos := e.num(0)
		for j, s := range x.args {
			if s.op != "elem" {
				break
			}
			if d, ok := e.sub(i, pos).isNum(); ok && d == 0 {
				ns := append([]*Term{}, x.args...)
				ns[j] = e.elem(v)
				return e.list(ns...)
			}
			pos = e.addc(pos, 1)
		}
	}
	if x.op == "zeros" {
		if n, ok := x.args[0].isNum(); ok && n <= 16 {
			if _, ok := i.isNum(); ok {
				var ns []*Term
				for j := int64(0); j < n; j++ {
					ns = append(ns, e.elem(x.aux.(*Term)))
				}
				return e.storeList(e.list(ns...), i, v)
			}
		}
	}
	if x.op == "store" && x.args[1] == i {
		x = x.args[0]
	}
	if e.index(x, i) == v {
		return x
	}
	return e.mk("store", "", nil, x, i, v)
}

// ---- structs

func (e *Eng) field(t *Term, i int, typ types.Type) *Term {
	if t.op == "phi" {
		return e.lift(t, func(x *Term) *Term { return e.field(x, i, typ) })
	}
	if t.op == "struct" && i < len(t.args) {
		return t.args[i]
	}
	return e.mk("field", strconv.Itoa(i), typ, t)
}

// ---- substitution

func (e *Eng) mentions(t, x *Term) bool {
	if t == x {
		return true
	}
	k := [2]int{t.id, x.id}
	if r, ok := e.mentMemo[k]; ok {
		return r
	}
	e.mentMemo[k] = false
	r := false
	e.eachChild(t, func(c *Term) {
		if !r && e.mentions(c, x) {
			r = true
		}
	})
	e.mentMemo[k] = r
	return r
}

func (e *Eng) substOne(t, from, to *Term) *Term {
	return e.subst(t, map[*Term]*Term{from: to}, map[*Term]*Term{})
}

func (e *Eng) subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if r, ok := memo[t]; ok {
		return r
	}
	hit := false
	for f := range m {
		if e.mentions(t, f) {
			hit = true
			break
		}
	}
	if !hit {
		return t
	}
	if t.op == "lin" {
		r := e.num(t.lin.c)
		for _, x := range t.lin.ts {
			r = e.add(r, e.scale(e.subst(x.t, m, memo), x.coef))
		}
		memo[t] = r
		return r
	}
	orig := t
	if isBinder(t) {
		t = e.freshBound(t, m)
	}
	na := make([]*Term, len(t.args))
	for i, a := range t.args {
		na[i] = e.subst(a, m, memo)
	}
	if t.op == "phi" {
		var gs []gv
		for i := range na {
			gs = append(gs, gv{e.substB(t.bs[i], m, memo), na[i]})
		}
		r := e.phi(gs)
		memo[t] = r
		return r
	}
	nb := t.b
	if nb > True {
		nb = e.substB(nb, m, memo)
	}
	if t.op == "set" {
		var parts []gv
		for i := range na {
			g := e.substB(t.bs[i], m, memo)
			if na[i].op == "nz" && na[i].args[0].op == "phi" {
				na[i] = e.mk("nz", "", nil, e.setAtom(na[i].args[0]))
			}
			if na[i].op == "nz" && na[i].args[0].op == "set" {
				for j, q := range na[i].args[0].args {
					parts = append(parts, gv{e.bdd.And(g, na[i].args[0].bs[j]), q})
				}
				continue
			}
			parts = append(parts, gv{g, na[i]})
		}
		r := e.mkSet(parts, nb)
		memo[t] = r
		return r
	}
	if t.op == "vec" {
		bs := make([]B, len(t.bs))
		for i := range bs {
			bs[i] = e.substB(t.bs[i], m, memo)
		}
		r := e.vec(bs, t.typ)
		memo[t] = r
		return r
	}
	r := e.rebuild(t, na, nb)
	memo[orig] = r
	return r
}

func (e *Eng) substB(b B, m map[*Term]*Term, memo map[*Term]*Term) B {
	if b <= True {
		return b
	}
	key := e.boolTerm(b)
	if r, ok := memo[key]; ok {
		return e.boolOf(r)
	}
	n := e.bdd.nodes[b]
	at := e.atoms[n.v]
	nat := e.substAtom(at, m, memo)
	r := e.bdd.Ite(nat, e.substB(n.hi, m, memo), e.substB(n.lo, m, memo))
	memo[key] = e.boolTerm(r)
	return r
}

func (e *Eng) substAtom(at *Term, m, memo map[*Term]*Term) B {
	hit := false
	for f := range m {
		if e.mentions(at, f) {
			hit = true
		}
	}
	if !hit {
		return e.atomVar(at)
	}
	if r, ok := m[at]; ok && r.op == "bool" {
		return r.b
	}
	if isBinder(at) {
		at = e.freshBound(at, m)
	}
	na := make([]*Term, len(at.args))
	for i, a := range at.args {
		na[i] = e.subst(a, m, memo)
	}
	switch at.op {
	case "le0":
		return e.le0(na[0])
	case "eq0":
		return e.eq0(na[0])
	case "eq":
		return e.eqTerms(na[0], na[1])
	case "isnil":
		return e.isNil(na[0])
	case "is":
		return e.isType(na[0], at.aux.(types.Type))
	case "has":
		return e.mapHas(na[0], na[1])
	case "b":
		return e.boolOf(na[0])
	case "in":
		return e.member(na[0], na[1])
	case "sup":
		return e.sup1(na[0], na[1])
	case "ex":
		return e.mkEx(na[0], at.aux.(*Term), e.boolOf(na[1]))
	}
	return e.atomVar(e.mk(at.op, at.k, at.typ, na...))
}

func (e *Eng) rebuild(t *Term, a []*Term, nb B) *Term {
	switch t.op {
	case "cat":
		return e.cat(a...)
	case "list":
		return e.list(e.normSegs(a)...)
	case "index":
		return e.index(a[0], a[1])
	case "slice":
		return e.slice(a[0], a[1], a[2])
	case "len":
		return e.lenOf(a[0])
	case "field":
		n, _ := strconv.Atoi(t.k)
		return e.field(a[0], n, t.typ)
	case "mget":
		return e.mapGet(a[0], a[1], t.typ)
	case "comp", "flat", "fillc", "mapcomp", "ucomp":
		return e.comp(t.op, a[0], t.aux.(*Term), a[1:]...)
	case "bool":
		return e.boolTerm(nb)
	case "rep":
		r := e.comp("rep", a[0], t.aux.(*Term), a[1:]...)
		r.typ = t.typ
		return e.normRep(r)
	case "fill":
		return e.normFill(e.mk("fill", "", nil, a...))
	case "struct":
		return e.mkStruct(t.k, t.typ, a...)
	case "proj":
		if a[0].op == "tuple" {
			n, _ := strconv.Atoi(t.k)
			return a[0].args[n]
		}
	case "runestr":
		if n, ok := constInt(a[0]); ok {
			return e.str(string(rune(n)))
		}
	case "mapadd":
		return e.mapAdd(a[0], a[1])
	case "bytes":
		if a[0].op == "string" {
			return a[0].args[0]
		}
	case "string":
		return e.stringOf(a[0])
	case "mapstore":
		return e.lift2(a[0], a[1], func(m, k *Term) *Term { return e.mapStore(m, k, a[2]) })
	case "unbox":
		return e.unbox(a[0], t.aux.(types.Type))
	case "store":
		return e.storeList(a[0], a[1], a[2])
	case "call":
		if t.k == "strings.Join" {
			return e.lift(a[0], func(c *Term) *Term { return e.joinStr(c, a[1]) })
		}
	}
	r := e.intern(Term{op: t.op, k: t.k, typ: t.typ, args: a, b: nb, obj: t.obj, fn: t.fn})
	if r.aux == nil {
		r.aux = t.aux
	}
	return r
}

func (e *Eng) iteTerm(c B, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	return e.phi([]gv{{c, a}, {e.bdd.Not(c), b}})
}

func (e *Eng) boolTerm(b B) *Term {
	switch b {
	case True:
		return e.mk("true", "", nil)
	case False:
		return e.mk("false", "", nil)
	}
	return e.intern(Term{op: "bool", b: b})
}

// ---- atoms

func (e *Eng) atomVar(t *Term) B {
	if v, ok := e.atomIdx[t]; ok {
		return e.bdd.Var(v)
	}
	v := len(e.atoms)
	e.atoms = append(e.atoms, t)
	e.atomIdx[t] = v
	return e.bdd.Var(v)
}

func (e *Eng) le0(t *Term) B {
	if t.op == "phi" {
		return e.phiB(t, e.le0)
	}
	l := e.toLin(t)
	if len(l.ts) == 0 {
		if l.c <= 0 {
			return True
		}
		return False
	}
	if v, ok := e.le0Known(l); ok {
		if v {
			return True
		}
		return False
	}
	if e.setMode {
		// sizes of sets, one of which holds the other
		if b, d := e.setSizes(l); d != 0 {
			switch {
			case l.c == 0 && d > 0:
				return b
			case l.c == 1 && d < 0:
				return e.bdd.Not(b)
			case l.c == 0 && d < 0:
				return True
			}
		}
	}
	// canonical orientation: first coefficient positive; l<=0 with negative
	// first coefficient is not(-l <= -1), i.e. not(-l+1<=0)
	g := l.ts[0].coef
	if g < 0 {
		n := linScale(l, -1)
		n.c++
		return e.bdd.Not(e.le0raw(n))
	}
	return e.le0raw(l)
}

func (e *Eng) le0raw(l Lin) B {
	return e.atomVar(e.mk("le0", "", nil, e.fromLin(l)))
}

func (e *Eng) eq0(t *Term) B {
	if t.op == "phi" {
		return e.phiB(t, e.eq0)
	}
	l := e.toLin(t)
	if len(l.ts) == 0 {
		if l.c == 0 {
			return True
		}
		return False
	}
	if r, ok := e.searchEq(l); ok {
		return r
	}
	if e.setMode && l.c == 0 {
		if b, d := e.setSizes(l); d != 0 {
			return b
		}
	}
	// known sign
	if v, ok := e.le0Known(l); ok && !v {
		return False
	}
	if v, ok := e.le0Known(linScale(l, -1)); ok && !v {
		return False
	}
	// len(x)==0 as len(x)<=0 when non-negative
	if v, ok := e.le0Known(linScale(l, -1)); ok && v {
		return e.le0(t)
	}
	if v, ok := e.le0Known(l); ok && v {
		return e.le0(e.fromLin(linScale(l, -1)))
	}
	if len(e.kapEnd) > 0 {
		for _, x := range l.ts {
			if N := e.kapEnd[x.t]; N != nil && (x.coef == 1 || x.coef == -1) {
				d := e.sub(N, x.t)
				if d == t || d == e.fromLin(linScale(l, -1)) {
					return e.le0(d)
				}
			}
		}
	}
	if l.ts[0].coef < 0 {
		l = linScale(l, -1)
	}
	return e.atomVar(e.mk("eq0", "", nil, e.fromLin(l)))
}

func isLinTerm(t *Term) bool {
	return t.op == "lin" || t.op == "len" || t.op == "kappa" || (t.typ != nil && isIntLin(t.typ))
}

// nonNilTerm / isNil
func (e *Eng) isNil(t *Term) B {
	switch t.op {
	case "nil", "nilslice":
		return True
	case "iface", "ptr", "err", "func", "sref", "mref", "eptr", "xptr", "list", "mapstore", "mapempty", "zeros", "struct", "str", "bytes", "fptr", "store":
		return False
	case "phi":
		return e.phiB(t, e.isNil)
	case "slice":
		return e.isNil(t.args[0])
	case "index":
		if t.args[0].op == "mu" && e.nnLists[t.args[0].k] {
			return False
		}
	}
	if e.nonnil[t] {
		return False
	}
	if t.typ != nil && e.closed(t.typ) != nil {
		return False
	}
	return e.atomVar(e.mk("isnil", "", nil, t))
}

func (e *Eng) eqTerms(a, b *Term) B {
	if a == b {
		return True
	}
	if a.op == "phi" {
		return e.phiB(a, func(x *Term) B { return e.eqTerms(x, b) })
	}
	if b.op == "phi" {
		return e.phiB(b, func(x *Term) B { return e.eqTerms(a, x) })
	}
	if a.op == "index" && b.op == "index" && a.args[0] == b.args[0] && a.args[0].op == "call" && a.args[0].k == "setbytes" {
		// a set lists every byte once
		return e.eq0(e.sub(a.args[1], b.args[1]))
	}
	if isLinTerm(a) && isLinTerm(b) {
		return e.eq0(e.sub(a, b))
	}
	lit := func(t *Term) bool { return t.op == "str" || t.op == "const" }
	if lit(a) && lit(b) {
		return False // different constants (same type assumed)
	}
	if a.op == "nil" {
		return e.isNil(b)
	}
	if b.op == "nil" {
		return e.isNil(a)
	}
	if a.op == "err" && b.op == "err" && a.k != b.k {
		return False
	}
	if (a.op == "err" && (b.op == "iface")) || (b.op == "err" && a.op == "iface") {
		return False
	}
	other := func(a, b *Term) bool {
		return a.op == "err" && b.op == "mu" && e.errSites[b.k] != nil && !e.errSites[b.k][a.k]
	}
	if other(a, b) || other(b, a) {
		return False
	}
	if a.op == "ptr" && b.op == "ptr" {
		return False
	}
	if a.op == "iface" && b.op == "iface" {
		if a.k != b.k {
			return False
		}
		return e.eqTerms(a.args[0], b.args[0])
	}
	// a value of a known type and one of several types, field by field
	if a.op != "iface" && b.op == "iface" {
		a, b = b, a
	}
	if T, ok := a.aux.(types.Type); ok && a.op == "iface" && b.op != "iface" && b.op != "err" && plainStruct(T) {
		return e.bdd.And(e.isType(b, T), e.structEq(a.args[0], e.unbox(b, T), T))
	}
	if a.op == "struct" && b.op == "struct" && len(a.args) == len(b.args) {
		r := True
		for i := range a.args {
			r = e.bdd.And(r, e.eqTerms(a.args[i], b.args[i]))
		}
		return r
	}
	if a.op == "true" || a.op == "false" || a.op == "bool" {
		return e.bdd.Not(e.bdd.Xor(e.boolOf(a), e.boolOf(b)))
	}
	// emptiness of strings
	if a.op == "str" && a.k == "" && (b.typ == nil || isString(b.typ)) {
		return e.le0(e.lenOf(b))
	}
	if b.op == "str" && b.k == "" && (a.typ == nil || isString(a.typ)) {
		return e.le0(e.lenOf(a))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return e.atomVar(e.mk("eq", "", nil, a, b))
}

func (e *Eng) boolOf(t *Term) B {
	switch t.op {
	case "true":
		return True
	case "false":
		return False
	case "bool":
		return t.b
	case "const":
		if t.k == "true" {
			return True
		}
		if t.k == "false" {
			return False
		}
	case "phi":
		return e.phiB(t, e.boolOf)
	case "eos":
		if t.args[0].op == "set" {
			return t.args[0].b
		}
		if t.args[0].op == "phi" {
			return e.phiB(t.args[0], func(x *Term) B { return e.setAtom(x).b })
		}
	case "mget":
		// zero value of a missing key is false
		return e.bdd.And(e.mapHas(t.args[0], t.args[1]), e.atomVar(e.mk("b", "", nil, t)))
	}
	return e.atomVar(e.mk("b", "", nil, t))
}

func (e *Eng) isType(x *Term, T types.Type) B {
	if x.op == "nil" {
		return False
	}
	if x.op == "phi" {
		return e.phiB(x, func(y *Term) B { return e.isType(y, T) })
	}
	if x.op == "iface" {
		dt := x.aux.(types.Type)
		if it, ok := T.Underlying().(*types.Interface); ok {
			if types.Implements(dt, it) {
				return True
			}
			return False
		}
		if types.Identical(dt, T) {
			return True
		}
		return False
	}
	if x.op == "err" {
		if it, ok := T.Underlying().(*types.Interface); ok && it.NumMethods() == 1 && it.Method(0).Name() == "Error" {
			return True
		}
	}
	if it, ok := T.Underlying().(*types.Interface); ok && x.typ != nil {
		if xt, ok2 := x.typ.Underlying().(*types.Interface); ok2 && types.Implements(xt, it) {
			return e.bdd.Not(e.isNil(x))
		}
	}
	at := e.mk("is", tkey(T), nil, x)
	at.aux = T
	return e.atomVar(at)
}

func (e *Eng) unbox(x *Term, T types.Type) *Term {
	if x.op == "iface" {
		return x.args[0]
	}
	if x.op == "phi" {
		return e.lift(x, func(y *Term) *Term { return e.unbox(y, T) })
	}
	r := e.mk("unbox", tkey(T), T, x)
	r.aux = T
	return r
}

// ---- maps (content terms)

func (e *Eng) mapHas(m, k *Term) B {
	if m.op == "phi" {
		return e.phiB(m, func(x *Term) B { return e.mapHas(x, k) })
	}
	if k.op == "phi" {
		return e.phiB(k, func(x *Term) B { return e.mapHas(m, x) })
	}
	if k.op == "mapkey" && k.args[0] == m {
		return True // the keys a range over the map visits
	}
	switch m.op {
	case "nil", "mapempty":
		return False
	case "mapfilter":
		return e.bdd.And(e.mapHas(m.args[0], k), e.filterGate(m, k))
	case "mapstore":
		q := e.eqTerms(m.args[1], k)
		return e.bdd.Or(q, e.mapHas(m.args[0], k))
	case "mapdel":
		return e.bdd.And(e.bdd.Not(e.eqTerms(m.args[1], k)), e.mapHas(m.args[0], k))
	case "mapunion":
		return e.bdd.Or(e.mapHas(m.args[0], k), e.mapHas(m.args[1], k))
	case "mapadd":
		c := m.args[1]
		return e.bdd.Or(e.mapHas(m.args[0], k), e.mkEx(c.args[0], e.boundOf(c), e.eqElem(c.args[1], k)))
	}
	return e.atomVar(e.mk("has", "", nil, m, k))
}

// mapGet is the value of a key that is present (or the zero value).
func (e *Eng) mapGet(m, k *Term, typ types.Type) *Term {
	if m.op == "phi" || k.op == "phi" {
		return e.lift2(m, k, func(m, k *Term) *Term { return e.mapGet(m, k, typ) })
	}
	switch m.op {
	case "mapstore":
		q := e.eqTerms(m.args[1], k)
		if q == True {
			return m.args[2]
		}
		if q == False {
			return e.mapGet(m.args[0], k, typ)
		}
	case "mapdel":
		q := e.eqTerms(m.args[1], k)
		if q == False {
			return e.mapGet(m.args[0], k, typ)
		}
	case "nil", "mapempty":
		if z := e.zeroTerm(typ); z != nil {
			return z
		}
	case "mapadd":
		// every key was added with the same value
		if c := m.args[1]; m.args[0].op == "mapempty" && !e.mentions(c.args[2], e.boundOf(c)) {
			return c.args[2]
		}
	}
	return e.mk("mget", "", typ, m, k)
}

func (e *Eng) mapStore(m, k, v *Term) *Term {
	if m.op == "mapstore" && m.args[1] == k {
		m = m.args[0]
	}
	return e.mk("mapstore", "", nil, m, k, v)
}

// ---- printing

func (e *Eng) ts(t *Term) string { return e.tsd(t, 0) }

// tsd prints a term; in legend mode big subterms get a name ($n), whose
// definition goes to e.legend.
func (e *Eng) tsd(t *Term, d int) string {
	if e.names == nil {
		return e.tsd1(t, d)
	}
	if n, ok := e.names[t]; ok {
		return n
	}
	if t.op == "mu" {
		if lv, ok := t.aux.(*LoopVar); ok && lv.loop != nil {
			k := lv.key
			if i := strings.LastIndex(k, "|"); i >= 0 && lv.obj != nil {
				k = lv.name + k[i+1:]
			} else {
				k = lv.name
			}
			r := "μ" + fmt.Sprint(e.loopNo(lv.loop.key)) + "." + k
			if t != lv.mu {
				r += fmt.Sprint("(", e.tsd1(e.mk("@", "", nil, t.args...), d+1), ")")
			}
			return r
		}
	}
	r := e.tsd1(t, d)
	if len(r) > 36 && d > 0 && t.op != "lin" {
		n := "$" + fmt.Sprint(len(e.names))
		e.names[t] = n
		e.legend = append(e.legend, n+" = "+r)
		return n
	}
	return r
}

func (e *Eng) tsd1(t *Term, d int) string {
	if d > 40 || e.names == nil && d > 12 {
		return "…"
	}
	args := func() string {
		var s []string
		for _, a := range t.args {
			s = append(s, e.tsd(a, d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.op {
	case "sym", "kappa":
		return t.k
	case "str":
		return strconv.Quote(t.k)
	case "const":
		return t.k
	case "lin":
		var s []string
		for _, x := range t.lin.ts {
			switch x.coef {
			case 1:
				s = append(s, "+"+e.tsd(x.t, d+1))
			case -1:
				s = append(s, "-"+e.tsd(x.t, d+1))
			default:
				s = append(s, fmt.Sprintf("%+d*%s", x.coef, e.tsd(x.t, d+1)))
			}
		}
		if t.lin.c != 0 || len(s) == 0 {
			s = append(s, fmt.Sprintf("%+d", t.lin.c))
		}
		return strings.TrimPrefix(strings.Join(s, ""), "+")
	case "field":
		return e.tsd(t.args[0], d+1) + "." + t.k
	case "index":
		return e.tsd(t.args[0], d+1) + "[" + e.tsd(t.args[1], d+1) + "]"
	case "iface":
		return "iface<" + short(t.k) + ">(" + args() + ")"
	case "ptr", "sref", "mref", "eptr":
		return fmt.Sprintf("%s(o%d:%s%s %s)", t.op, t.obj.id, t.obj.kind, t.k, args())
	case "phi":
		var s []string
		for i, a := range t.args {
			s = append(s, "["+e.bsd(t.bs[i], d+1)+"] "+e.tsd(a, d+1))
		}
		return "phi{" + strings.Join(s, " ; ") + "}"
	case "bool":
		return "{" + e.bsd(t.b, d+1) + "}"
	case "set":
		return "set{" + args() + " eos:" + e.bsd(t.b, d+1) + "}"
	case "err":
		return "err@" + short(t.k)
	case "func":
		return "func:" + t.fn.Name()
	}
	k := ""
	if t.k != "" {
		k = ":" + short(t.k)
	}
	return t.op + k + "(" + args() + ")"
}

func short(s string) string {
	return strings.ReplaceAll(s, "github.com/TooManySugar/ll1parser/pkg/", "")
}

func (e *Eng) bs(b B) string { return e.bsd(b, 0) }

func (e *Eng) bsd(b B, d int) string {
	if b == True {
		return "true"
	}
	if b == False {
		return "false"
	}
	if d > 40 || e.names == nil && d > 12 {
		return "…"
	}
	var ss []string
	for _, c := range e.bdd.Cubes(b, 12) {
		var s []string
		for _, l := range c {
			x := e.tsd(e.atoms[l.v], d+1)
			if !l.pos {
				x = "¬" + x
			}
			s = append(s, x)
		}
		ss = append(ss, strings.Join(s, " ∧ "))
	}
	return strings.Join(ss, "  ∨  ")
}

// ---- gated values

type gv struct {
	g B
	t *Term
}

func (e *Eng) leaves(t *Term) []gv {
	if t.op == "phi" {
		r := make([]gv, len(t.args))
		for i := range t.args {
			r[i] = gv{t.bs[i], t.args[i]}
		}
		return r
	}
	return []gv{{True, t}}
}

// phi joins gated values. The guards are disjoint; they cover the gate of the
// place the value is used at.
func (e *Eng) phi(in []gv) *Term {
	var out []gv
	pos := map[*Term]int{}
	var put func(g B, t *Term)
	put = func(g B, t *Term) {
		if g == False {
			return
		}
		if t.op == "phi" {
			for i := range t.args {
				put(e.bdd.And(g, t.bs[i]), t.args[i])
			}
			return
		}
		if i, ok := pos[t]; ok {
			out[i].g = e.bdd.Or(out[i].g, g)
			return
		}
		pos[t] = len(out)
		out = append(out, gv{g, t})
	}
	for _, x := range in {
		put(x.g, x.t)
	}
	if len(out) == 0 {
		if len(in) > 0 {
			return in[0].t
		}
		return e.mk("undef", "", nil)
	}
	if len(out) == 1 {
		return out[0].t
	}
	cover := False
	for _, x := range out {
		cover = e.bdd.Or(cover, x.g)
	}
	if cover != True {
		for i := range out {
			out[i].g = e.bdd.Restrict(out[i].g, cover)
		}
	}
	allBool, allStruct, allStr, anyCat := true, true, true, false
	for _, x := range out {
		switch x.t.op {
		case "true", "false", "bool":
		default:
			if !(x.t.op == "const" && (x.t.k == "true" || x.t.k == "false")) && !(x.t.typ != nil && isBool(x.t.typ)) {
				allBool = false
			}
		}
		if x.t.op != "struct" || len(x.t.args) != len(out[0].t.args) || x.t.k != out[0].t.k {
			allStruct = false
		}
		if x.t.op == "cat" {
			anyCat = true
		}
		if !(x.t.op == "str" || x.t.op == "cat" || x.t.typ != nil && isString(x.t.typ)) {
			allStr = false
		}
	}
	if allBool {
		r := False
		for _, x := range out {
			r = e.bdd.Or(r, e.bdd.And(x.g, e.boolOf(x.t)))
		}
		return e.boolTerm(r)
	}
	if allStruct && len(out[0].t.args) > 0 {
		n := len(out[0].t.args)
		fs := make([]*Term, n)
		for i := 0; i < n; i++ {
			var gs []gv
			for _, x := range out {
				gs = append(gs, gv{x.g, x.t.args[i]})
			}
			fs[i] = e.phi(gs)
		}
		r := e.mk("struct", out[0].t.k, out[0].t.typ, fs...)
		return r
	}
	allVec, allSet := true, true
	for _, x := range out {
		if x.t.op != "vec" || len(x.t.bs) != len(out[0].t.bs) {
			allVec = false
		}
		if x.t.op != "set" {
			allSet = false
		}
	}
	if allVec {
		r := make([]B, len(out[0].t.bs))
		for _, x := range out {
			for i, b := range x.t.bs {
				r[i] = e.bdd.Or(r[i], e.bdd.And(x.g, b))
			}
		}
		return e.vec(r, out[0].t.typ)
	}
	if allSet {
		return e.setPhi(out)
	}
	if allStr && anyCat {
		// factor the common prefix and suffix out
		parts := make([][]*Term, len(out))
		for i, x := range out {
			parts[i] = e.catParts(x.t)
		}
		var pre, suf []*Term
		for {
			if len(parts[0]) == 0 {
				break
			}
			h := parts[0][0]
			ok := true
			for _, p := range parts {
				if len(p) == 0 || p[0] != h {
					ok = false
				}
			}
			if !ok {
				break
			}
			pre = append(pre, h)
			for i := range parts {
				parts[i] = parts[i][1:]
			}
		}
		for {
			if len(parts[0]) == 0 {
				break
			}
			h := parts[0][len(parts[0])-1]
			ok := true
			for _, p := range parts {
				if len(p) == 0 || p[len(p)-1] != h {
					ok = false
				}
			}
			if !ok {
				break
			}
			suf = append([]*Term{h}, suf...)
			for i := range parts {
				parts[i] = parts[i][:len(parts[i])-1]
			}
		}
		if len(pre)+len(suf) > 0 {
			var gs []gv
			for i, x := range out {
				gs = append(gs, gv{x.g, e.cat(parts[i]...)})
			}
			mid := e.phi(gs)
			return e.cat(append(append(pre, mid), suf...)...)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].t.id < out[j].t.id })
	t := Term{op: "phi"}
	for _, x := range out {
		t.args = append(t.args, x.t)
		t.bs = append(t.bs, x.g)
		if t.typ == nil {
			t.typ = x.t.typ
		}
	}
	return e.intern(t)
}

func (e *Eng) lift(t *Term, f func(*Term) *Term) *Term {
	if t.op != "phi" {
		return f(t)
	}
	var gs []gv
	for i, a := range t.args {
		gs = append(gs, gv{t.bs[i], f(a)})
	}
	return e.phi(gs)
}

func (e *Eng) lift2(a, b *Term, f func(a, b *Term) *Term) *Term {
	if a.op != "phi" && b.op != "phi" {
		return f(a, b)
	}
	var gs []gv
	for _, x := range e.leaves(a) {
		for _, y := range e.leaves(b) {
			g := e.bdd.And(x.g, y.g)
			if g != False {
				gs = append(gs, gv{g, f(x.t, y.t)})
			}
		}
	}
	return e.phi(gs)
}

func (e *Eng) phiB(t *Term, f func(*Term) B) B {
	if t.op != "phi" {
		return f(t)
	}
	r := False
	for i, a := range t.args {
		r = e.bdd.Or(r, e.bdd.And(t.bs[i], f(a)))
	}
	return r
}

// under specialises the top gates of a value to a gate it is used under.
func (e *Eng) under(t *Term, pc B) *Term {
	if pc == True || pc == False {
		return t
	}
	switch t.op {
	case "phi":
		var gs []gv
		for i, a := range t.args {
			gs = append(gs, gv{e.restrictTh(t.bs[i], pc), e.under(a, pc)})
		}
		return e.phi(gs)
	case "bool":
		return e.boolTerm(e.restrictTh(t.b, pc))
	case "struct":
		ch := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = e.under(a, pc)
			ch = ch || na[i] != a
		}
		if ch {
			return e.mk("struct", t.k, t.typ, na...)
		}
	case "iface":
		if a := e.under(t.args[0], pc); a != t.args[0] {
			r := e.mk("iface", t.k, t.typ, a)
			r.aux = t.aux
			return r
		}
	}
	return t
}

// deep rewrites all gates inside t with what pc says about them.
func (e *Eng) deep(t *Term, pc B) *Term {
	return e.deep1(t, pc, map[*Term]*Term{})
}

func (e *Eng) deep1(t *Term, pc B, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	r := t
	switch t.op {
	case "phi":
		var gs []gv
		for i, a := range t.args {
			g := e.restrictTh(t.bs[i], pc)
			if g != False {
				gs = append(gs, gv{g, e.deep1(a, pc, memo)})
			}
		}
		if len(gs) > 0 {
			r = e.phi(gs)
		}
	case "bool":
		r = e.boolTerm(e.restrictTh(t.b, pc))
	case "lin":
		n := e.num(t.lin.c)
		for _, x := range t.lin.ts {
			n = e.add(n, e.scale(e.deep1(x.t, pc, memo), x.coef))
		}
		r = n
	case "mu", "set":
	default:
		if len(t.args) == 0 {
			break
		}
		ch := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = e.deep1(a, pc, memo)
			ch = ch || na[i] != a
		}
		if ch {
			r = e.rebuild(t, na, t.b)
		}
	}
	memo[t] = r
	return r
}
