package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Bit-precise abstract execution of small functions over values of a fixed
// size. An integer is a vector of gates, one per bit; a list or a string is a
// sequence of elements, each present under a gate. Paths are merged at joins.
// A loop is carried out element by element: over the bits of a word which its
// body clears one by one, over the elements of a list, or as long as its
// condition can hold.

type bval interface{}

type bInt struct {
	bs     []B
	signed bool
}

type bBool struct{ b B }

type bAgg struct {
	typ   types.Type
	elems []bval
}

type bItem struct {
	g B
	v bval
}

// bSeq is a list of elements, each present under its gate.
type bSeq struct{ items []bItem }

type bLoc struct {
	g    B
	obj  *bObj
	path []bStep
}

// bStep: a field or element of an aggregate, or an element of a list.
type bStep struct {
	i   int
	seq bool // i is the position in a list of gated elements
}

type bPtr struct {
	locs []bLoc
	null B
}

// bSlice refers to all elements of a list object.
type bSlice struct {
	obj  *bObj
	null B
}

type bFunc struct {
	fn   *ssa.Function
	bind []bval
}

type bIface struct {
	T types.Type // nil: the nil interface
	v bval
}

type bTup struct{ vs []bval }

// bCount is the number of gates that hold, plus off.
type bCount struct {
	seq  *bSeq
	q    int // elements before q, all if q < 0
	off  int64
	kind types.Type
}

type bObj struct {
	id    int
	typ   types.Type
	at    ssa.Instruction
	links []*bObj // lists that may share memory with this one
	kids  []*bObj // lists made by appending to this one
	base  *bObj   // the list this one is a part of, with more after it
}

type bMem map[*bObj]bval

func (m bMem) clone() bMem {
	r := make(bMem, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

type bIssue struct {
	where, what string
}

type bitx struct {
	p      *Prog
	m      *BDD
	vars   int
	nobj   int
	steps  int
	glob   map[*ssa.Global]*bObj
	mem0   bMem
	stale  map[*bObj]B
	issues []bIssue
	fns    map[*ssa.Function]bool
	depth  int
	loops  int
	stored map[*bObj]bool // objects given from outside that have been written
	given  map[*bObj]bool

	// a fold over a list of any length
	mode    int
	folds   int
	lenZero bool
	syms    map[string]bval
}

type bedge struct {
	from, to *ssa.BasicBlock
	pc       B
	mem      bMem
	env      map[*ssa.Phi]bval
}

type bret struct {
	pc   B
	mem  bMem
	vals []bval
}

type bframe struct {
	fn   *ssa.Function
	env  map[ssa.Value]bval
	pc   B
	mem  bMem
	rets []bret
	li   *loopForest
}

func newBitx(p *Prog) *bitx {
	x := &bitx{p: p, m: NewBDD(), glob: map[*ssa.Global]*bObj{}, mem0: bMem{}, stale: map[*bObj]B{}, fns: map[*ssa.Function]bool{}, stored: map[*bObj]bool{}, given: map[*bObj]bool{}}
	x.m.limit = 40000000
	return x
}

func (x *bitx) unsupported(f string, a ...any) {
	panic(abort{"not covered by the bit-level analysis: " + fmt.Sprintf(f, a...)})
}

func (x *bitx) at(in ssa.Instruction) string {
	if in == nil {
		return ""
	}
	return instrPos(x.p, in.Parent(), in) + " (" + short(in.Parent().RelString(nil)) + ")"
}

func (x *bitx) issue(in ssa.Instruction, pc B, what string) {
	if pc != False {
		x.issues = append(x.issues, bIssue{x.at(in), what})
	}
}

// ---- values

func (x *bitx) fresh() B {
	x.vars++
	return x.m.Var(x.vars - 1)
}

func (x *bitx) num(n int64, t types.Type) *bInt {
	w := bitWidth(t)
	r := &bInt{make([]B, w), isSigned(t)}
	for i := range r.bs {
		if uint64(n)>>uint(i)&1 == 1 {
			r.bs[i] = True
		}
	}
	return r
}

func (v *bInt) isNum() (int64, bool) {
	var n uint64
	for i, b := range v.bs {
		switch b {
		case True:
			n |= 1 << uint(i)
		case False:
		default:
			return 0, false
		}
	}
	if w := len(v.bs); v.signed && w < 64 && v.bs[w-1] == True {
		n |= ^uint64(0) << uint(w)
	}
	return int64(n), true
}

// symbolic gives n unknown values of a type; their bits alternate.
func (x *bitx) symbolic(t types.Type, n int) []bval {
	r := make([]bval, n)
	if isBuilderType(t) {
		x.unsupported("an unknown %s", t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			for i := range r {
				r[i] = bBool{x.fresh()}
			}
			return r
		case u.Info()&types.IsInteger != 0:
			for i := range r {
				r[i] = &bInt{make([]B, bitWidth(t)), isSigned(t)}
			}
			for b := 0; b < bitWidth(t); b++ {
				for i := range r {
					r[i].(*bInt).bs[b] = x.fresh()
				}
			}
			return r
		}
	case *types.Struct, *types.Array:
		for i := range r {
			r[i] = &bAgg{typ: t}
		}
		k := 0
		for et := x.part(t, k); et != nil; et = x.part(t, k) {
			for i, v := range x.symbolic(et, n) {
				r[i].(*bAgg).elems = append(r[i].(*bAgg).elems, v)
			}
			k++
		}
		return r
	}
	x.unsupported("an unknown value of type %s", t)
	return nil
}

// part is the type of the k-th part of a struct or array.
func (x *bitx) part(t types.Type, k int) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if k < u.NumFields() {
			return u.Field(k).Type()
		}
	case *types.Array:
		if int64(k) < u.Len() {
			return u.Elem()
		}
	}
	return nil
}

func (x *bitx) zero(t types.Type) bval {
	if isBuilderType(t) {
		return &bSeq{}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return bBool{False}
		case u.Info()&types.IsInteger != 0:
			return x.num(0, t)
		case u.Info()&types.IsString != 0:
			return &bSeq{}
		}
	case *types.Struct, *types.Array:
		r := &bAgg{typ: t}
		k := 0
		for et := x.part(t, k); et != nil; et = x.part(t, k) {
			r.elems = append(r.elems, x.zero(et))
			k++
		}
		return r
	case *types.Pointer:
		return &bPtr{null: True}
	case *types.Slice:
		return &bSlice{null: True}
	case *types.Interface:
		return &bIface{}
	}
	x.unsupported("the zero value of %s", t)
	return nil
}

func (x *bitx) str(s string) *bSeq {
	r := &bSeq{}
	for i := 0; i < len(s); i++ {
		r.items = append(r.items, bItem{True, x.num(int64(s[i]), types.Typ[types.Byte])})
	}
	return r
}

// text is the string a list of present constant bytes stands for.
func (s *bSeq) text() (string, bool) {
	var b []byte
	for _, it := range s.items {
		v, ok := it.v.(*bInt)
		if !ok || it.g != True {
			return "", false
		}
		n, ok := v.isNum()
		if !ok {
			return "", false
		}
		b = append(b, byte(n))
	}
	return string(b), true
}

func (x *bitx) cat(a, b *bSeq) *bSeq {
	return &bSeq{append(append([]bItem{}, a.items...), b.items...)}
}

func (x *bitx) newObj(t types.Type, in ssa.Instruction) *bObj {
	x.nobj++
	return &bObj{id: x.nobj, typ: t, at: in}
}

func link(a, b *bObj) {
	if a != nil && b != nil && a != b {
		a.links = append(a.links, b)
		b.links = append(b.links, a)
	}
}

// ---- comparing and merging values

func (x *bitx) same(a, b bval) bool {
	if a == b {
		return true
	}
	switch p := a.(type) {
	case *bInt:
		q, ok := b.(*bInt)
		if !ok || len(p.bs) != len(q.bs) {
			return false
		}
		for i := range p.bs {
			if p.bs[i] != q.bs[i] {
				return false
			}
		}
		return true
	case *bAgg:
		q, ok := b.(*bAgg)
		if !ok || len(p.elems) != len(q.elems) {
			return false
		}
		for i := range p.elems {
			if !x.same(p.elems[i], q.elems[i]) {
				return false
			}
		}
		return true
	case *bSeq:
		q, ok := b.(*bSeq)
		if !ok || len(p.items) != len(q.items) {
			return false
		}
		for i := range p.items {
			if p.items[i].g != q.items[i].g || !x.same(p.items[i].v, q.items[i].v) {
				return false
			}
		}
		return true
	case *bPtr:
		q, ok := b.(*bPtr)
		if !ok || p.null != q.null || len(p.locs) != len(q.locs) {
			return false
		}
		for i := range p.locs {
			if p.locs[i].g != q.locs[i].g || !sameLoc(p.locs[i], q.locs[i]) {
				return false
			}
		}
		return true
	case *bSlice:
		q, ok := b.(*bSlice)
		return ok && p.obj == q.obj && p.null == q.null
	case *bIdx:
		q, ok := b.(*bIdx)
		return ok && p.u == q.u && p.off == q.off
	case *bLen:
		q, ok := b.(*bLen)
		return ok && p.u == q.u && p.off == q.off
	case *bFunc:
		q, ok := b.(*bFunc)
		if !ok || p.fn != q.fn || len(p.bind) != len(q.bind) {
			return false
		}
		for i := range p.bind {
			if !x.same(p.bind[i], q.bind[i]) {
				return false
			}
		}
		return true
	case *bIface:
		q, ok := b.(*bIface)
		return ok && (p.T == nil) == (q.T == nil) && (p.T == nil || types.Identical(p.T, q.T) && x.same(p.v, q.v))
	case *bCount:
		q, ok := b.(*bCount)
		return ok && x.same(p.seq, q.seq) && p.q == q.q && p.off == q.off
	case *bTup:
		q, ok := b.(*bTup)
		if !ok || len(p.vs) != len(q.vs) {
			return false
		}
		for i := range p.vs {
			if !x.same(p.vs[i], q.vs[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func sameLoc(a, b bLoc) bool {
	if a.obj != b.obj || len(a.path) != len(b.path) {
		return false
	}
	for i := range a.path {
		if a.path[i] != b.path[i] {
			return false
		}
	}
	return true
}

type bcase struct {
	g   B
	v   bval
	mem bMem
}

// merge combines values of paths that exclude each other.
func (x *bitx) merge(cs []bcase, out bMem) bval {
	first := cs[0].v
	all := true
	for _, c := range cs[1:] {
		all = all && x.same(first, c.v)
	}
	if all {
		return first
	}
	switch p := first.(type) {
	case bBool:
		r := cs[len(cs)-1].v.(bBool).b
		for _, c := range cs[:len(cs)-1] {
			r = x.m.Ite(c.g, c.v.(bBool).b, r)
		}
		return bBool{r}
	case *bInt, *bCount:
		var t *bInt
		for _, c := range cs {
			if v, ok := c.v.(*bInt); ok {
				t = v
			}
		}
		if t == nil {
			t = x.force(p)
		}
		last := x.force(cs[len(cs)-1].v)
		r := &bInt{append([]B{}, last.bs...), t.signed}
		for _, c := range cs[:len(cs)-1] {
			v := x.force(c.v)
			for i := range r.bs {
				if v.bs[i] != r.bs[i] {
					r.bs[i] = x.m.Ite(c.g, v.bs[i], r.bs[i])
				}
			}
		}
		return r
	case *bAgg:
		r := &bAgg{typ: p.typ, elems: make([]bval, len(p.elems))}
		for i := range p.elems {
			sub := make([]bcase, len(cs))
			for k, c := range cs {
				sub[k] = bcase{c.g, c.v.(*bAgg).elems[i], c.mem}
			}
			r.elems[i] = x.merge(sub, out)
		}
		return r
	case *bSeq:
		n := -1
		for _, c := range cs {
			if l := len(c.v.(*bSeq).items); n < 0 || l < n {
				n = l
			}
		}
		k := 0
		for k < n {
			eq := true
			for _, c := range cs[1:] {
				it := c.v.(*bSeq).items[k]
				eq = eq && it.g == p.items[k].g && x.same(it.v, p.items[k].v)
			}
			if !eq {
				break
			}
			k++
		}
		r := &bSeq{append([]bItem{}, p.items[:k]...)}
		for _, c := range cs {
			for _, it := range c.v.(*bSeq).items[k:] {
				if g := x.m.And(c.g, it.g); g != False {
					r.items = append(r.items, bItem{g, it.v})
				}
			}
		}
		return r
	case *bSlice:
		null := False
		var o *bObj
		var sub []bcase
		for _, c := range cs {
			s := c.v.(*bSlice)
			null = x.m.Or(null, x.m.And(c.g, s.null))
			if s.obj == nil {
				sub = append(sub, bcase{c.g, &bSeq{}, c.mem})
				continue
			}
			if o == nil {
				o = x.newObj(s.obj.typ, s.obj.at)
			}
			link(o, s.obj)
			sub = append(sub, bcase{c.g, x.listOf(s, c.g, c.mem), c.mem})
		}
		out[o] = x.merge(sub, out)
		return &bSlice{o, null}
	case *bPtr:
		r := &bPtr{}
		for _, c := range cs {
			q := c.v.(*bPtr)
			r.null = x.m.Or(r.null, x.m.And(c.g, q.null))
			for _, l := range q.locs {
				g := x.m.And(c.g, l.g)
				hit := false
				for i := range r.locs {
					if sameLoc(r.locs[i], l) {
						r.locs[i].g = x.m.Or(r.locs[i].g, g)
						hit = true
					}
				}
				if !hit && g != False {
					r.locs = append(r.locs, bLoc{g, l.obj, l.path})
				}
			}
		}
		return r
	case *bTup:
		r := &bTup{make([]bval, len(p.vs))}
		for i := range p.vs {
			sub := make([]bcase, len(cs))
			for k, c := range cs {
				sub[k] = bcase{c.g, c.v.(*bTup).vs[i], c.mem}
			}
			r.vs[i] = x.merge(sub, out)
		}
		return r
	case *bIface:
		ok := p.T != nil
		for _, c := range cs {
			q := c.v.(*bIface)
			ok = ok && q.T != nil && types.Identical(p.T, q.T)
		}
		if ok {
			sub := make([]bcase, len(cs))
			for k, c := range cs {
				sub[k] = bcase{c.g, c.v.(*bIface).v, c.mem}
			}
			return &bIface{p.T, x.merge(sub, out)}
		}
	}
	x.unsupported("different values of type %T on different paths", first)
	return nil
}

func (x *bitx) mergeMem(cs []bcase) bMem {
	if len(cs) == 1 {
		return cs[0].mem.clone()
	}
	r := bMem{}
	done := map[*bObj]bool{}
	var objs []*bObj
	for _, c := range cs {
		for o := range c.mem {
			if !done[o] {
				done[o] = true
				objs = append(objs, o)
			}
		}
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
	for _, o := range objs {
		var sub []bcase
		for _, c := range cs {
			if v, ok := c.mem[o]; ok {
				sub = append(sub, bcase{c.g, v, c.mem})
			}
		}
		r[o] = x.merge(sub, r)
	}
	return r
}

// ---- lists

// listOf reads the elements of a slice.
func (x *bitx) listOf(s *bSlice, pc B, mem bMem) *bSeq {
	if s.obj == nil {
		return &bSeq{}
	}
	if x.m.And(pc, x.stale[s.obj]) != False {
		x.unsupported("a list that another one which was written may share memory with")
	}
	v, ok := mem[s.obj].(*bSeq)
	if !ok {
		x.unsupported("the elements of a slice")
	}
	return v
}

// touch: the elements of a list have been written under pc.
func (x *bitx) touch(o *bObj, pc B) {
	seen := map[*bObj]bool{o: true}
	work := []*bObj{o}
	for len(work) > 0 {
		y := work[0]
		work = work[1:]
		for _, z := range y.links {
			if !seen[z] {
				seen[z] = true
				x.stale[z] = x.m.Or(x.stale[z], pc)
				work = append(work, z)
			}
		}
	}
}

func gates(s *bSeq, lo, hi int) []B {
	var r []B
	for _, it := range s.items[lo:hi] {
		r = append(r, it.g)
	}
	return r
}

// atLeast: k of the gates hold.
func (x *bitx) atLeast(gs []B, k int64) B {
	if k <= 0 {
		return True
	}
	if k > int64(len(gs)) {
		return False
	}
	cur := make([]B, k+1) // cur[j]: at least j so far
	cur[0] = True
	for _, g := range gs {
		for j := k; j > 0; j-- {
			cur[j] = x.m.Or(cur[j], x.m.And(cur[j-1], g))
		}
	}
	return cur[k]
}

func (x *bitx) none(gs []B) B {
	r := False
	for _, g := range gs {
		r = x.m.Or(r, g)
	}
	return x.m.Not(r)
}

func (c *bCount) gates() []B {
	if c.q < 0 {
		return gates(c.seq, 0, len(c.seq.items))
	}
	return gates(c.seq, 0, c.q)
}

// count makes the length of a list, or a plain number if it is known.
func (x *bitx) count(s *bSeq, q int, off int64) bval {
	c := &bCount{s, q, off, types.Typ[types.Int]}
	n := int64(0)
	for _, g := range c.gates() {
		if g != True {
			return c
		}
		n++
	}
	return x.num(n+off, types.Typ[types.Int])
}

// force gives an integer as a vector.
func (x *bitx) force(v bval) *bInt {
	switch c := v.(type) {
	case *bInt:
		return c
	case *bCount:
		// the sum of the gates needs few bits
		gs := c.gates()
		w := 1
		for 1<<uint(w) <= len(gs) {
			w++
		}
		// bit by bit from the last gate on: cur[n] is the bit if n gates
		// before this one hold
		if len(gs) > 1 && x.m.top(gs[0]) > x.m.top(gs[len(gs)-1]) {
			rev := make([]B, len(gs))
			for i, g := range gs {
				rev[len(gs)-1-i] = g
			}
			gs = rev
		}
		sum := make([]B, w)
		for j := range sum {
			cur := make([]B, len(gs)+1)
			for n := range cur {
				if n>>uint(j)&1 == 1 {
					cur[n] = True
				}
			}
			for i := len(gs) - 1; i >= 0; i-- {
				for n := 0; n <= i; n++ {
					cur[n] = x.m.Ite(gs[i], cur[n+1], cur[n])
				}
			}
			sum[j] = cur[0]
		}
		r := &bInt{make([]B, 64), true}
		copy(r.bs, sum)
		if c.off != 0 {
			r = x.addInt(r, x.num(c.off, types.Typ[types.Int]), False)
		}
		return r
	}
	x.unsupported("a value of kind %T as a number", v)
	return nil
}

// cntCmp compares the number of gates that hold with k.
func (x *bitx) cntCmp(op token.Token, gs []B, k int64) B {
	switch op {
	case token.EQL:
		return x.m.And(x.atLeast(gs, k), x.m.Not(x.atLeast(gs, k+1)))
	case token.NEQ:
		return x.m.Not(x.cntCmp(token.EQL, gs, k))
	case token.LSS:
		return x.m.Not(x.atLeast(gs, k))
	case token.LEQ:
		return x.m.Not(x.atLeast(gs, k+1))
	case token.GTR:
		return x.atLeast(gs, k+1)
	}
	return x.atLeast(gs, k)
}

func swapCmp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// cmpCount compares where at least one side is a count. It reports whether
// it could.
func (x *bitx) cmpCount(op token.Token, a, b bval) (B, bool) {
	ca, aok := a.(*bCount)
	cb, bok := b.(*bCount)
	switch {
	case aok && bok && x.same(ca.seq, cb.seq):
		switch {
		case ca.q == cb.q:
			return x.constCmp(op, ca.off, cb.off), true
		case ca.q >= 0 && cb.q < 0:
			// idx+o against idx+1+r+o2, r: elements after q
			r := gates(ca.seq, ca.q+1, len(ca.seq.items))
			return x.cntCmp(swapCmp(op), r, ca.off-cb.off-1), true
		case cb.q >= 0 && ca.q < 0:
			r := gates(ca.seq, cb.q+1, len(ca.seq.items))
			return x.cntCmp(op, r, cb.off-ca.off-1), true
		}
	case aok && !bok:
		if n, ok := b.(*bInt).isNum(); ok {
			return x.cntCmp(op, ca.gates(), n-ca.off), true
		}
	case bok && !aok:
		if n, ok := a.(*bInt).isNum(); ok {
			return x.cntCmp(swapCmp(op), cb.gates(), n-cb.off), true
		}
	}
	return False, false
}

func (x *bitx) constCmp(op token.Token, a, b int64) B {
	if constant.Compare(constant.MakeInt64(a), op, constant.MakeInt64(b)) {
		return True
	}
	return False
}

// dropLast: a list without its last element, where c holds.
func (x *bitx) dropLast(s *bSeq, c B) *bSeq {
	r := &bSeq{}
	later := False
	for i := len(s.items) - 1; i >= 0; i-- {
		it := s.items[i]
		g := x.m.And(it.g, x.m.Or(later, x.m.Not(c)))
		later = x.m.Or(later, it.g)
		r.items = append([]bItem{{g, it.v}}, r.items...)
	}
	return r.trim()
}

func (x *bitx) dropFirst(s *bSeq) *bSeq {
	r := &bSeq{}
	before := False
	for _, it := range s.items {
		r.items = append(r.items, bItem{x.m.And(it.g, before), it.v})
		before = x.m.Or(before, it.g)
	}
	return r.trim()
}

func (s *bSeq) trim() *bSeq {
	r := &bSeq{}
	for _, it := range s.items {
		if it.g != False {
			r.items = append(r.items, it)
		}
	}
	return r
}

// part of a list: lo and hi are constants, or hi is its length less a few.
func (x *bitx) subList(in ssa.Instruction, pc B, s *bSeq, lo, hi bval) *bSeq {
	r := s
	n := int64(0)
	for _, it := range s.items {
		if it.g != True {
			break
		}
		n++
	}
	fixed := n == int64(len(s.items))
	if hi != nil {
		if c, ok := hi.(*bCount); ok && c.q < 0 && x.same(c.seq, s) {
			x.issue(in, x.m.And(pc, x.m.Not(x.atLeast(c.gates(), -c.off))), "slice bounds out of range")
			if c.off > 0 || c.off < -4 {
				x.unsupported("the bound of a slice expression")
			}
			for k := int64(0); k < -c.off; k++ {
				r = x.dropLast(r, True)
			}
		} else if v, ok := hi.(*bInt); ok {
			k, ok := v.isNum()
			if !ok || k < 0 || k > n {
				if fixed && ok {
					x.issue(in, pc, "slice bounds out of range")
					return &bSeq{}
				}
				x.unsupported("the bound of a slice expression")
			}
			r = &bSeq{s.items[:k]}
		} else {
			x.unsupported("the bound of a slice expression")
		}
	}
	if lo != nil {
		v, ok := lo.(*bInt)
		if !ok {
			x.unsupported("the bound of a slice expression")
		}
		k, ok := v.isNum()
		if !ok || k < 0 || k > 4 && !fixed {
			x.unsupported("the bound of a slice expression")
		}
		if fixed && hi == nil {
			if k > n {
				x.issue(in, pc, "slice bounds out of range")
				return &bSeq{}
			}
			return &bSeq{r.items[k:]}
		}
		x.issue(in, x.m.And(pc, x.m.Not(x.atLeast(gates(r, 0, len(r.items)), k))), "slice bounds out of range")
		for ; k > 0; k-- {
			r = x.dropFirst(r)
		}
	}
	return r
}

// ---- integers

func (x *bitx) addInt(a, b *bInt, carry B) *bInt {
	r := &bInt{make([]B, len(a.bs)), a.signed}
	m := x.m
	for i := range r.bs {
		p, q := a.bs[i], b.bs[i]
		r.bs[i] = m.Xor(m.Xor(p, q), carry)
		carry = m.Or(m.And(p, q), m.And(carry, m.Or(p, q)))
	}
	return r
}

func (x *bitx) notInt(a *bInt) *bInt {
	r := &bInt{make([]B, len(a.bs)), a.signed}
	for i := range r.bs {
		r.bs[i] = x.m.Not(a.bs[i])
	}
	return r
}

func (x *bitx) subInt(a, b *bInt) *bInt { return x.addInt(a, x.notInt(b), True) }

func (x *bitx) eqInt(a, b *bInt) B {
	r := True
	for i := range a.bs {
		r = x.m.And(r, x.m.Not(x.m.Xor(a.bs[i], b.bs[i])))
	}
	return r
}

func (x *bitx) eqNum(a *bInt, n int64) B {
	r := True
	for i, b := range a.bs {
		if uint64(n)>>uint(i)&1 == 1 {
			r = x.m.And(r, b)
		} else {
			r = x.m.And(r, x.m.Not(b))
		}
	}
	return r
}

func (x *bitx) ltInt(a, b *bInt) B {
	lt := False
	for i := range a.bs {
		p, q := a.bs[i], b.bs[i]
		if i == len(a.bs)-1 && a.signed {
			p, q = q, p
		}
		lt = x.m.Ite(x.m.Xor(p, q), q, lt)
	}
	return lt
}

func (x *bitx) shift(a, s *bInt, left bool) *bInt {
	w := len(a.bs)
	cur := append([]B{}, a.bs...)
	fill := False
	if !left && a.signed {
		fill = a.bs[w-1]
	}
	for k, sb := range s.bs {
		if sb == False {
			continue
		}
		sh := w
		if k < 7 && 1<<uint(k) < w {
			sh = 1 << uint(k)
		}
		nx := make([]B, w)
		for i := 0; i < w; i++ {
			src := i + sh
			y := fill
			if left {
				src, y = i-sh, False
			}
			if src >= 0 && src < w {
				y = cur[src]
			}
			nx[i] = x.m.Ite(sb, y, cur[i])
		}
		cur = nx
	}
	return &bInt{cur, a.signed}
}

func (x *bitx) mul(a, b *bInt) *bInt {
	if _, ok := b.isNum(); !ok {
		a, b = b, a
	}
	n, ok := b.isNum()
	if !ok {
		x.unsupported("the product of two unknown numbers")
	}
	r := &bInt{make([]B, len(a.bs)), a.signed}
	for i := range a.bs {
		if uint64(n)>>uint(i)&1 == 1 {
			sh := &bInt{make([]B, len(a.bs)), a.signed}
			copy(sh.bs[i:], a.bs)
			r = x.addInt(r, sh, False)
		}
	}
	return r
}

func (x *bitx) conv(a *bInt, to types.Type) *bInt {
	r := &bInt{make([]B, bitWidth(to)), isSigned(to)}
	for i := range r.bs {
		if i < len(a.bs) {
			r.bs[i] = a.bs[i]
		} else if a.signed {
			r.bs[i] = a.bs[len(a.bs)-1]
		}
	}
	return r
}

func (x *bitx) eqVal(a, b bval) B {
	switch p := a.(type) {
	case *bInt:
		if q, ok := b.(*bInt); ok {
			return x.eqInt(p, q)
		}
	case bBool:
		return x.m.Not(x.m.Xor(p.b, b.(bBool).b))
	case *bAgg:
		r := True
		for i := range p.elems {
			r = x.m.And(r, x.eqVal(p.elems[i], b.(*bAgg).elems[i]))
		}
		return r
	case *bSeq:
		q := b.(*bSeq)
		if len(p.items) == 0 {
			return x.none(gates(q, 0, len(q.items)))
		}
		if len(q.items) == 0 {
			return x.none(gates(p, 0, len(p.items)))
		}
		s, ok1 := p.text()
		t, ok2 := q.text()
		if ok1 && ok2 {
			if s == t {
				return True
			}
			return False
		}
	case *bSlice:
		if q, ok := b.(*bSlice); ok && q.obj == nil && q.null == True {
			return p.null
		}
		if p.obj == nil && p.null == True {
			return b.(*bSlice).null
		}
	case *bIface:
		q := b.(*bIface)
		if (p.T == nil) != (q.T == nil) {
			return False
		}
		if p.T == nil {
			return True
		}
	case *bPtr:
		q := b.(*bPtr)
		if len(q.locs) == 0 {
			return p.null
		}
		if len(p.locs) == 0 {
			return q.null
		}
	}
	x.unsupported("a comparison of values of kind %T", a)
	return False
}

func (x *bitx) binop(f *bframe, in *ssa.BinOp) bval {
	a, b := x.val(f, in.X), x.val(f, in.Y)
	m := x.m
	if p, ok := a.(bBool); ok {
		q := b.(bBool)
		switch in.Op {
		case token.EQL:
			return bBool{m.Not(m.Xor(p.b, q.b))}
		case token.NEQ, token.XOR:
			return bBool{m.Xor(p.b, q.b)}
		case token.AND:
			return bBool{m.And(p.b, q.b)}
		case token.OR:
			return bBool{m.Or(p.b, q.b)}
		}
	}
	if p, ok := a.(*bSeq); ok {
		if in.Op == token.ADD {
			return x.cat(p, b.(*bSeq))
		}
	}
	switch a.(type) {
	case *bInt, *bCount:
		if _, ok := b.(*bIdx); ok {
			return x.idxOp(in, a, b)
		}
		if _, ok := b.(*bLen); ok {
			return x.idxOp(in, a, b)
		}
		return x.intOp(f, in, a, b)
	case *bIdx, *bLen:
		return x.idxOp(in, a, b)
	}
	switch in.Op {
	case token.EQL:
		return bBool{x.eqVal(a, b)}
	case token.NEQ:
		return bBool{m.Not(x.eqVal(a, b))}
	}
	x.unsupported("operator %s on values of kind %T", in.Op, a)
	return nil
}

func (x *bitx) intOp(f *bframe, in *ssa.BinOp, a, b bval) bval {
	m := x.m
	_, ca := a.(*bCount)
	_, cb := b.(*bCount)
	if ca || cb {
		switch in.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if r, ok := x.cmpCount(in.Op, a, b); ok {
				return bBool{r}
			}
		case token.ADD, token.SUB:
			c, o := a, b
			if cb && in.Op == token.ADD {
				c, o = b, a
			}
			if k, ok := c.(*bCount); ok {
				if v, ok := o.(*bInt); ok {
					if n, ok := v.isNum(); ok {
						if in.Op == token.SUB {
							n = -n
						}
						return &bCount{k.seq, k.q, k.off + n, k.kind}
					}
				}
			}
		}
	}
	p, q := x.force(a), x.force(b)
	bit := func(h func(s, t B) B) bval {
		r := &bInt{make([]B, len(p.bs)), p.signed}
		for i := range r.bs {
			r.bs[i] = h(p.bs[i], q.bs[i])
		}
		return r
	}
	switch in.Op {
	case token.SHL, token.SHR:
		if q.signed {
			x.issue(in, m.And(f.pc, q.bs[len(q.bs)-1]), "negative shift")
		}
		return x.shift(p, q, in.Op == token.SHL)
	case token.AND:
		return bit(m.And)
	case token.OR:
		return bit(m.Or)
	case token.XOR:
		return bit(m.Xor)
	case token.AND_NOT:
		return bit(func(s, t B) B { return m.And(s, m.Not(t)) })
	case token.ADD:
		return x.addInt(p, q, False)
	case token.SUB:
		return x.subInt(p, q)
	case token.MUL:
		return x.mul(p, q)
	case token.EQL:
		return bBool{x.eqInt(p, q)}
	case token.NEQ:
		return bBool{m.Not(x.eqInt(p, q))}
	case token.LSS:
		return bBool{x.ltInt(p, q)}
	case token.GTR:
		return bBool{x.ltInt(q, p)}
	case token.LEQ:
		return bBool{m.Not(x.ltInt(q, p))}
	case token.GEQ:
		return bBool{m.Not(x.ltInt(p, q))}
	case token.QUO, token.REM:
		d, ok := q.isNum()
		if ok && d > 0 && d&(d-1) == 0 && (!p.signed || m.And(f.pc, p.bs[len(p.bs)-1]) == False) {
			k := 0
			for 1<<uint(k) < d {
				k++
			}
			r := &bInt{make([]B, len(p.bs)), p.signed}
			for i := range r.bs {
				if in.Op == token.QUO {
					if i+k < len(p.bs) {
						r.bs[i] = p.bs[i+k]
					}
				} else if i < k {
					r.bs[i] = p.bs[i]
				}
			}
			return r
		}
		if n, ok2 := p.isNum(); ok && ok2 && d != 0 && p.signed {
			if in.Op == token.QUO {
				return x.num(n/d, in.Type())
			}
			return x.num(n%d, in.Type())
		} else if ok && ok2 && d != 0 {
			if in.Op == token.QUO {
				return x.num(int64(uint64(n)/uint64(d)), in.Type())
			}
			return x.num(int64(uint64(n)%uint64(d)), in.Type())
		}
	}
	x.unsupported("operator %s on unknown numbers at %s", in.Op, x.at(in))
	return nil
}

// ---- memory

func (x *bitx) get(v bval, path []bStep) bval {
	for _, s := range path {
		if s.seq {
			v = v.(*bSeq).items[s.i].v
			continue
		}
		a, ok := v.(*bAgg)
		if !ok || s.i >= len(a.elems) {
			x.unsupported("a part of a value of kind %T", v)
		}
		v = a.elems[s.i]
	}
	return v
}

func (x *bitx) set(v bval, path []bStep, nv bval, g B, mem bMem) bval {
	if len(path) == 0 {
		if g == True {
			return nv
		}
		return x.merge([]bcase{{g, nv, mem}, {x.m.Not(g), v, mem}}, mem)
	}
	s := path[0]
	if s.seq {
		q := v.(*bSeq)
		r := &bSeq{append([]bItem{}, q.items...)}
		r.items[s.i].v = x.set(q.items[s.i].v, path[1:], nv, g, mem)
		return r
	}
	a, ok := v.(*bAgg)
	if !ok || s.i >= len(a.elems) {
		x.unsupported("a part of a value of kind %T", v)
	}
	r := &bAgg{a.typ, append([]bval{}, a.elems...)}
	r.elems[s.i] = x.set(a.elems[s.i], path[1:], nv, g, mem)
	return r
}

func (x *bitx) load(f *bframe, p bval, in ssa.Instruction) bval {
	q, ok := p.(*bPtr)
	if !ok {
		x.unsupported("a load at %s", x.at(in))
	}
	x.issue(in, x.m.And(f.pc, q.null), "nil pointer")
	var cs []bcase
	for _, l := range q.locs {
		if x.m.And(f.pc, x.m.And(l.g, x.stale[l.obj])) != False {
			x.unsupported("a list that another one which was written may share memory with at %s", x.at(in))
		}
		cs = append(cs, bcase{l.g, x.get(f.mem[l.obj], l.path), f.mem})
	}
	if len(cs) == 0 {
		x.unsupported("a load at %s", x.at(in))
	}
	return x.merge(cs, f.mem)
}

func (x *bitx) store(f *bframe, p, v bval, in ssa.Instruction) {
	q, ok := p.(*bPtr)
	if !ok {
		x.unsupported("a store at %s", x.at(in))
	}
	x.issue(in, x.m.And(f.pc, q.null), "nil pointer")
	for _, l := range q.locs {
		g := l.g
		if x.m.And(f.pc, x.m.Not(g)) == False {
			g = True
		}
		if x.m.And(f.pc, g) == False {
			continue
		}
		if x.given[l.obj] {
			x.stored[l.obj] = true
		}
		f.mem[l.obj] = x.set(f.mem[l.obj], l.path, v, g, f.mem)
		x.touch(l.obj, x.m.And(f.pc, g))
	}
}

func (x *bitx) ptrTo(o *bObj, path ...bStep) *bPtr {
	return &bPtr{locs: []bLoc{{True, o, path}}}
}

// ---- execution

func (x *bitx) val(f *bframe, v ssa.Value) bval {
	if r, ok := f.env[v]; ok {
		return r
	}
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			return x.zero(c.Type())
		}
		switch c.Value.Kind() {
		case constant.Bool:
			if constant.BoolVal(c.Value) {
				return bBool{True}
			}
			return bBool{False}
		case constant.String:
			return x.str(constant.StringVal(c.Value))
		case constant.Int:
			if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				if isSigned(c.Type()) {
					return x.num(c.Int64(), c.Type())
				}
				return x.num(int64(c.Uint64()), c.Type())
			}
		}
	case *ssa.Function:
		return &bFunc{fn: c}
	case *ssa.Global:
		o := x.glob[c]
		if o == nil {
			o = x.newObj(pointee(c.Type()), nil)
			x.glob[c] = o
			x.given[o] = true
		}
		if _, ok := f.mem[o]; !ok {
			if c.Pkg == nil || !strings.HasPrefix(c.Pkg.Pkg.Path(), modPath) {
				x.unsupported("the variable %s", c.RelString(nil))
			}
			v, ok := x.mem0[o]
			if !ok {
				v = x.zero(o.typ)
			}
			f.mem[o] = v
		}
		return x.ptrTo(o)
	}
	x.unsupported("the value %s of %s", v.Name(), f.fn.RelString(nil))
	return nil
}

// run executes a function. The results of all paths are merged.
func (x *bitx) run(fn *ssa.Function, args []bval, bind []bval, pc B, mem bMem) (vals []bval, ret B, out bMem) {
	if x.depth > 30 {
		x.unsupported("recursion of %s", fn.RelString(nil))
	}
	if fn.Blocks == nil {
		x.unsupported("the function %s", fn.RelString(nil))
	}
	x.depth++
	defer func() { x.depth-- }()
	x.fns[fn] = true
	f := &bframe{fn: fn, env: map[ssa.Value]bval{}, li: loopsOf(fn)}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		f.env[v] = bind[i]
	}
	in := map[*ssa.BasicBlock][]bedge{fn.Blocks[0]: {{nil, fn.Blocks[0], pc, mem, nil}}}
	x.region(f, in, nil)
	if len(f.rets) == 0 {
		return nil, False, nil
	}
	var cs []bcase
	for _, r := range f.rets {
		ret = x.m.Or(ret, r.pc)
		cs = append(cs, bcase{r.pc, nil, r.mem})
	}
	out = x.mergeMem(cs)
	for i := range f.rets[0].vals {
		for k, r := range f.rets {
			cs[k].v = r.vals[i]
		}
		vals = append(vals, x.merge(cs, out))
	}
	return vals, ret, out
}

// region executes the blocks of a function or of a loop's body.
func (x *bitx) region(f *bframe, in map[*ssa.BasicBlock][]bedge, cur *natLoop) (back, exits []bedge) {
	route := func(e bedge) {
		if e.pc == False {
			return
		}
		if cur != nil {
			if e.to == cur.header {
				back = append(back, e)
				return
			}
			if !cur.body[e.to] {
				exits = append(exits, e)
				return
			}
		}
		in[e.to] = append(in[e.to], e)
	}
	for _, b := range f.li.rpo {
		if cur != nil && !cur.body[b] || len(in[b]) == 0 {
			continue
		}
		if inner := f.li.innermost(b); inner != cur {
			if inner != nil && inner.header == b && inner.parentIs(cur) {
				for _, e := range x.loop(f, inner, in[b]) {
					route(e)
				}
			}
			if inner != nil && cur.contains(inner) {
				continue
			}
		}
		x.block(f, b, in[b], route)
	}
	return
}

// enter merges the edges into a block.
func (x *bitx) enter(f *bframe, b *ssa.BasicBlock, es []bedge) map[*ssa.Phi]bval {
	f.pc = False
	var cs []bcase
	for _, e := range es {
		f.pc = x.m.Or(f.pc, e.pc)
		cs = append(cs, bcase{e.pc, nil, e.mem})
	}
	f.mem = x.mergeMem(cs)
	phis := map[*ssa.Phi]bval{}
	for _, i := range b.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		for k, e := range es {
			cs[k].v = e.env[ph]
		}
		phis[ph] = x.merge(cs, f.mem)
	}
	return phis
}

func (x *bitx) block(f *bframe, b *ssa.BasicBlock, es []bedge, route func(bedge)) {
	for ph, v := range x.enter(f, b, es) {
		f.env[ph] = v
	}
	for _, i := range b.Instrs {
		x.steps++
		if x.steps > 3000000 {
			x.unsupported("a computation of this size")
		}
		switch s := i.(type) {
		case *ssa.Phi:
		case *ssa.Jump:
			route(x.edge(f, b, 0, f.pc))
		case *ssa.If:
			c := x.val(f, s.Cond).(bBool).b
			for k, g := range []B{x.m.And(f.pc, c), x.m.And(f.pc, x.m.Not(c))} {
				if g != False {
					route(x.edge(f, b, k, g))
				}
			}
		case *ssa.Return:
			var vs []bval
			for _, r := range s.Results {
				vs = append(vs, x.val(f, r))
			}
			f.rets = append(f.rets, bret{f.pc, f.mem, vs})
		case *ssa.Panic:
			x.issue(i, f.pc, "panic")
			return
		default:
			x.step(f, i)
			if f.pc == False {
				return
			}
		}
	}
}

func (x *bitx) edge(f *bframe, b *ssa.BasicBlock, succ int, pc B) bedge {
	to := b.Succs[succ]
	pi := -1
	for i, p := range to.Preds {
		if p == b && (pi < 0 || succ == 1 && b.Succs[0] == to) {
			pi = i
		}
	}
	e := bedge{b, to, pc, f.mem.clone(), map[*ssa.Phi]bval{}}
	for _, i := range to.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		e.env[ph] = x.val(f, ph.Edges[pi])
	}
	return e
}

// bstate is the state at the head of a loop.
type bstate struct {
	pc   B
	mem  bMem
	phis map[*ssa.Phi]bval
}

func (x *bitx) loop(f *bframe, L *natLoop, es []bedge) []bedge {
	x.loops++
	phis := x.enter(f, L.header, es)
	st := bstate{f.pc, f.mem, phis}
	if ex, ok := x.foldLoop(f, L, st); ok {
		return ex
	}
	body := func(st bstate) (back, exits []bedge) {
		in := map[*ssa.BasicBlock][]bedge{L.header: {{nil, L.header, st.pc, st.mem.clone(), st.phis}}}
		return x.region(f, in, L)
	}
	// values used after the loop
	var used []ssa.Value
	for b := range L.body {
		for _, i := range b.Instrs {
			v, ok := i.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if r.Block() != nil && !L.body[r.Block()] {
					used = append(used, v)
					break
				}
			}
		}
	}
	var exits []bedge
	type usedAt struct {
		pc  B
		env map[ssa.Value]bval
		mem bMem
	}
	var at []usedAt
	tried := false
	for n := 0; ; n++ {
		if n > 2000 {
			x.unsupported("the loop at %s", x.p.pos(L.header.Instrs[0].Pos()))
		}
		nis := len(x.issues)
		var back, ex []bedge
		if n == 0 {
			var e []bedge
			ok := false
			if tryAbort(func() { e, ok = x.elementwise(f, L, st, body, nis, true) }) == nil && ok {
				exits = e
				for _, v := range used {
					if y, ok := f.env[v]; ok {
						at = append(at, usedAt{True, map[ssa.Value]bval{v: y}, f.mem})
					}
				}
				break
			}
			x.issues = x.issues[:nis]
		}
		// what cannot be done for all iterations at once may be possible for
		// each of them
		stop := tryAbort(func() { back, ex = body(st) })
		if !tried && (stop != nil || len(back) > 0 && len(ex) > 0) {
			tried = true
			var e []bedge
			ok := false
			if s2 := tryAbort(func() { e, ok = x.elementwise(f, L, st, body, nis, false) }); s2 != nil && stop == nil {
				ok = false
			} else if s2 != nil {
				panic(*s2)
			}
			if ok {
				back, ex, stop = nil, e, nil
			} else {
				x.issues = x.issues[:nis]
				if stop == nil {
					back, ex = body(st)
				}
			}
		}
		if stop != nil {
			panic(*stop)
		}
		if len(ex) > 0 && len(used) > 0 {
			u := usedAt{False, map[ssa.Value]bval{}, f.mem}
			for _, e := range ex {
				u.pc = x.m.Or(u.pc, e.pc)
				u.mem = e.mem
			}
			for _, v := range used {
				if y, ok := f.env[v]; ok {
					u.env[v] = y
				}
			}
			at = append(at, u)
		}
		exits = append(exits, ex...)
		if len(back) == 0 {
			break
		}
		st.phis = x.enter(f, L.header, back)
		st.pc, st.mem = f.pc, f.mem
	}
	for _, v := range used {
		var cs []bcase
		for _, u := range at {
			if y, ok := u.env[v]; ok {
				cs = append(cs, bcase{u.pc, y, u.mem})
			}
		}
		if len(cs) > 0 {
			if len(cs) > 1 {
				for _, c := range cs {
					if _, ok := c.v.(*bSlice); ok && !x.same(c.v, cs[0].v) {
						x.unsupported("a slice made in a loop and used after it")
					}
				}
			}
			f.env[v] = x.merge(cs, bMem{})
		}
	}
	return exits
}

// elementwise tries to carry out a loop once for every set bit of a word that
// its body clears from the lowest on, or for every element of a list.
func (x *bitx) elementwise(f *bframe, L *natLoop, st bstate, body func(bstate) ([]bedge, []bedge), nis int, words bool) ([]bedge, bool) {
	try := func(ph *ssa.Phi, n int, gate func(q int) B, val, next func(q int) bval, last bval) (res []bedge, ok bool) {
		x.issues = x.issues[:nis]
		cur := st
		for q := 0; q < n; q++ {
			g := x.m.And(cur.pc, gate(q))
			if g == False {
				continue
			}
			it := bstate{g, cur.mem, map[*ssa.Phi]bval{}}
			for k, v := range cur.phis {
				it.phis[k] = v
			}
			it.phis[ph] = val(q)
			back, ex := body(it)
			if len(ex) > 0 || len(back) == 0 {
				return nil, false
			}
			phis := x.enter(f, L.header, back)
			if f.pc != g || !x.agree(g, phis[ph], next(q)) {
				return nil, false
			}
			rest := x.m.And(cur.pc, x.m.Not(g))
			if rest == False {
				cur = bstate{g, f.mem, phis}
				continue
			}
			delete(phis, ph)
			cs := []bcase{{g, nil, f.mem}, {rest, nil, cur.mem}}
			mem := x.mergeMem([]bcase{{rest, nil, cur.mem}, {g, nil, f.mem}})
			np := map[*ssa.Phi]bval{}
			for k, v := range phis {
				cs[0].v, cs[1].v = v, cur.phis[k]
				np[k] = x.merge([]bcase{cs[1], cs[0]}, mem)
			}
			cur = bstate{cur.pc, mem, np}
		}
		cp := map[*ssa.Phi]bval{}
		for k, v := range cur.phis {
			cp[k] = v
		}
		cp[ph] = last
		cur.phis = cp
		back, ex := body(cur)
		return ex, len(back) == 0
	}
	for _, i := range L.header.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		v, ok := st.phis[ph].(*bInt)
		if !ok {
			continue
		}
		open := 0
		for _, b := range v.bs {
			if b > True {
				open++
			}
		}
		if open >= 2 && !v.signed && words {
			word := func(q int, set bool) bval {
				r := &bInt{make([]B, len(v.bs)), v.signed}
				copy(r.bs[q+1:], v.bs[q+1:])
				if set {
					r.bs[q] = True
				}
				return r
			}
			if r, ok := try(ph, len(v.bs), func(q int) B { return v.bs[q] }, func(q int) bval { return word(q, true) }, func(q int) bval { return word(q, false) }, x.num(0, ph.Type())); ok {
				return r, true
			}
		}
		if n, ok := v.isNum(); ok && (n == 0 || n == -1) && !words {
			// a list whose length the condition compares with
			var s *bSeq
			if br, ok := L.header.Instrs[len(L.header.Instrs)-1].(*ssa.If); ok {
				if c, ok := br.Cond.(*ssa.BinOp); ok {
					for _, o := range []ssa.Value{c.X, c.Y} {
						if cv, ok := f.env[o].(*bCount); ok && cv.q < 0 {
							s = cv.seq
						}
					}
				}
			}
			if s == nil {
				continue
			}
			if r, ok := try(ph, len(s.items), func(q int) B { return s.items[q].g },
				func(q int) bval { return x.count(s, q, n) }, func(q int) bval { return x.count(s, q, n+1) }, x.count(s, -1, n)); ok {
				return r, true
			}
		}
	}
	return nil, false
}

func tryAbort(f func()) (r *abort) {
	defer func() {
		if y := recover(); y != nil {
			a, ok := y.(abort)
			if !ok {
				panic(y)
			}
			r = &a
		}
	}()
	f()
	return nil
}
