package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/bits"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// agree: two values are equal under g.
func (x *bitx) agree(g B, a, b bval) bool {
	if x.same(a, b) {
		return true
	}
	num := func(v bval) bool {
		switch v.(type) {
		case *bInt, *bCount:
			return true
		}
		return false
	}
	if num(a) && num(b) {
		p, q := x.force(a), x.force(b)
		if len(p.bs) != len(q.bs) {
			return false
		}
		for i := range p.bs {
			if x.m.And(g, x.m.Xor(p.bs[i], q.bs[i])) != False {
				return false
			}
		}
		return true
	}
	return false
}

// step executes one instruction.
func (x *bitx) step(f *bframe, in ssa.Instruction) {
	set := func(v bval) { f.env[in.(ssa.Value)] = v }
	switch s := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		o := x.newObj(pointee(s.Type()), in)
		f.mem[o] = x.zero(o.typ)
		set(x.ptrTo(o))
	case *ssa.Store:
		x.store(f, x.val(f, s.Addr), x.val(f, s.Val), in)
	case *ssa.UnOp:
		v := x.val(f, s.X)
		switch s.Op {
		case token.MUL:
			set(x.load(f, v, in))
		case token.NOT:
			set(bBool{x.m.Not(v.(bBool).b)})
		case token.SUB:
			set(x.subInt(x.num(0, s.Type()), x.force(v)))
		case token.XOR:
			set(x.notInt(x.force(v)))
		default:
			x.unsupported("operator %s", s.Op)
		}
	case *ssa.BinOp:
		set(x.binop(f, s))
	case *ssa.FieldAddr:
		p, ok := x.val(f, s.X).(*bPtr)
		if !ok {
			x.unsupported("an address at %s", x.at(in))
		}
		x.issue(in, x.m.And(f.pc, p.null), "nil pointer")
		r := &bPtr{}
		for _, l := range p.locs {
			r.locs = append(r.locs, bLoc{l.g, l.obj, addStep(l.path, bStep{i: s.Field})})
		}
		set(r)
	case *ssa.IndexAddr:
		set(x.indexAddr(f, s))
	case *ssa.Field:
		a, ok := x.val(f, s.X).(*bAgg)
		if !ok {
			x.unsupported("a field at %s", x.at(in))
		}
		set(a.elems[s.Field])
	case *ssa.Index:
		set(x.indexVal(f, in, x.val(f, s.X), x.val(f, s.Index)))
	case *ssa.Lookup:
		set(x.indexVal(f, in, x.val(f, s.X), x.val(f, s.Index)))
	case *ssa.Slice:
		set(x.slice(f, s))
	case *ssa.Convert:
		set(x.convert(f, in, x.val(f, s.X), s.X.Type(), s.Type()))
	case *ssa.ChangeType:
		set(x.val(f, s.X))
	case *ssa.ChangeInterface:
		set(x.val(f, s.X))
	case *ssa.MakeInterface:
		set(&bIface{s.X.Type(), x.val(f, s.X)})
	case *ssa.MakeClosure:
		b := &bFunc{fn: s.Fn.(*ssa.Function)}
		for _, v := range s.Bindings {
			b.bind = append(b.bind, x.val(f, v))
		}
		set(b)
	case *ssa.MakeSlice:
		n, ok := x.force(x.val(f, s.Len)).isNum()
		if !ok || n < 0 || n > 4096 {
			x.unsupported("a slice of unknown length at %s", x.at(in))
		}
		l := &bSeq{}
		for i := int64(0); i < n; i++ {
			l.items = append(l.items, bItem{True, x.zero(elemType(s.Type()))})
		}
		if c := x.val(f, s.Cap); s.Cap != s.Len {
			if cc, ok := c.(*bCount); ok {
				x.issue(in, x.m.And(f.pc, x.cntCmp(token.LSS, cc.gates(), n-cc.off)), "makeslice: cap out of range")
			} else {
				x.issue(in, x.m.And(f.pc, x.ltInt(x.force(c), x.num(n, types.Typ[types.Int]))), "makeslice: cap out of range")
			}
		}
		set(x.newList(f, s.Type(), l, in))
	case *ssa.Extract:
		t, ok := x.val(f, s.Tuple).(*bTup)
		if !ok {
			x.unsupported("a result at %s", x.at(in))
		}
		set(t.vs[s.Index])
	case *ssa.Call:
		v := x.call(f, in, &s.Call)
		if v != nil {
			set(v)
		}
	case *ssa.TypeAssert:
		i, ok := x.val(f, s.X).(*bIface)
		if !ok {
			x.unsupported("a type assertion at %s", x.at(in))
		}
		good := i.T != nil && types.Identical(i.T, s.AssertedType)
		if types.IsInterface(s.AssertedType) {
			x.unsupported("a type assertion to an interface at %s", x.at(in))
		}
		if s.CommaOk {
			if good {
				set(&bTup{[]bval{i.v, bBool{True}}})
			} else {
				set(&bTup{[]bval{x.zero(s.AssertedType), bBool{False}}})
			}
			return
		}
		if !good {
			x.issue(in, f.pc, "type assertion")
			f.pc = False
			return
		}
		set(i.v)
	default:
		x.unsupported("the instruction %s at %s", in, x.at(in))
	}
}

func addStep(p []bStep, s bStep) []bStep { return append(append([]bStep{}, p...), s) }

func (x *bitx) newList(f *bframe, t types.Type, l *bSeq, in ssa.Instruction) *bSlice {
	o := x.newObj(t, in)
	f.mem[o] = l
	return &bSlice{o, False}
}

// places gives the elements an index can be, each under its gate. ok is the
// condition that there is such an element.
func (x *bitx) places(s *bSeq, idx bval) (gs []B, ok B) {
	n := len(s.items)
	gs = make([]B, n)
	switch c := idx.(type) {
	case *bCount:
		if x.same(c.seq, s) && c.q >= 0 && c.off == 0 && c.q < n {
			gs[c.q] = True
			return gs, s.items[c.q].g
		}
		if x.same(c.seq, s) && c.q < 0 && c.off == -1 {
			later := False
			for i := n - 1; i >= 0; i-- {
				gs[i] = x.m.And(s.items[i].g, x.m.Not(later))
				later = x.m.Or(later, s.items[i].g)
			}
			return gs, later
		}
	}
	plain := true
	for _, it := range s.items {
		plain = plain && it.g == True
	}
	v := x.force(idx)
	if k, isN := v.isNum(); isN && k >= 0 {
		if k < int64(n) && plain {
			gs[k] = True
			return gs, True
		}
		if plain {
			return gs, False
		}
		if k > 8 {
			x.unsupported("an element of a list")
		}
		before := make([]B, k+1) // exactly j elements so far
		before[0] = True
		for i, it := range s.items {
			gs[i] = x.m.And(it.g, before[k])
			for j := k; j >= 0; j-- {
				up := False
				if j > 0 {
					up = before[j-1]
				}
				before[j] = x.m.Ite(it.g, up, before[j])
			}
			ok = x.m.Or(ok, gs[i])
		}
		return gs, ok
	}
	if !plain {
		x.unsupported("an element of a list")
	}
	for i := range s.items {
		gs[i] = x.eqNum(v, int64(i))
		if v.signed || bitsNeeded(n) <= len(v.bs) {
			ok = x.m.Or(ok, gs[i])
		} else if int64(i) < 1<<uint(len(v.bs)) {
			ok = x.m.Or(ok, gs[i])
		} else {
			gs[i] = False
		}
	}
	return gs, ok
}

func bitsNeeded(n int) int { return bits.Len(uint(n)) }

func aggSeq(a *bAgg) *bSeq {
	s := &bSeq{}
	for _, e := range a.elems {
		s.items = append(s.items, bItem{True, e})
	}
	return s
}

func (x *bitx) indexAddr(f *bframe, s *ssa.IndexAddr) bval {
	idx := x.val(f, s.Index)
	if u, ok := x.val(f, s.X).(*bMany); ok {
		i, ok := idx.(*bIdx)
		if !ok || i.u != u || i.off != 0 || x.mode != foldNext {
			x.unsupported("an element of the arguments at %s", x.at(s))
		}
		return x.ptrTo(u.elem)
	}
	r := &bPtr{}
	add := func(l bLoc, seq bool, list *bSeq) {
		gs, ok := x.places(list, idx)
		x.issue(s, x.m.And(f.pc, x.m.And(l.g, x.m.Not(ok))), "index out of range")
		for i, g := range gs {
			if g = x.m.And(l.g, g); x.m.And(f.pc, g) != False {
				if x.m.And(f.pc, x.m.Not(g)) == False {
					g = True
				}
				r.locs = append(r.locs, bLoc{g, l.obj, addStep(l.path, bStep{i, seq})})
			}
		}
	}
	switch v := x.val(f, s.X).(type) {
	case *bPtr:
		x.issue(s, x.m.And(f.pc, v.null), "nil pointer")
		for _, l := range v.locs {
			a, ok := x.get(f.mem[l.obj], l.path).(*bAgg)
			if !ok {
				x.unsupported("an element at %s", x.at(s))
			}
			add(l, false, aggSeq(a))
		}
	case *bSlice:
		if v.obj == nil {
			x.issue(s, f.pc, "index out of range")
			break
		}
		add(bLoc{True, v.obj, nil}, true, x.listOf(v, f.pc, f.mem))
	default:
		x.unsupported("an element at %s", x.at(s))
	}
	if len(r.locs) == 0 {
		f.pc = False // always panics
	}
	return r
}

func (x *bitx) indexVal(f *bframe, in ssa.Instruction, v, idx bval) bval {
	var s *bSeq
	switch c := v.(type) {
	case *bSeq:
		s = c
	case *bAgg:
		s = aggSeq(c)
	default:
		x.unsupported("an element at %s", x.at(in))
	}
	gs, ok := x.places(s, idx)
	x.issue(in, x.m.And(f.pc, x.m.Not(ok)), "index out of range")
	var cs []bcase
	for i, g := range gs {
		if x.m.And(f.pc, g) != False {
			cs = append(cs, bcase{g, s.items[i].v, f.mem})
		}
	}
	if len(cs) == 0 {
		f.pc = False
		return nil
	}
	return x.merge(cs, f.mem)
}

func (x *bitx) slice(f *bframe, s *ssa.Slice) bval {
	opt := func(v ssa.Value) bval {
		if v == nil {
			return nil
		}
		return x.val(f, v)
	}
	lo, hi := opt(s.Low), opt(s.High)
	switch v := x.val(f, s.X).(type) {
	case *bSeq:
		return x.subList(s, f.pc, v, lo, hi)
	case *bSlice:
		if v.obj == nil {
			return &bSlice{null: v.null}
		}
		r := x.newList(f, s.Type(), x.subList(s, f.pc, x.listOf(v, f.pc, f.mem), lo, hi), s)
		link(r.obj, v.obj)
		if hi != nil {
			// what is appended to the part overwrites the rest
			r.obj.base = v.obj
		}
		r.null = v.null
		return r
	case *bPtr:
		if len(v.locs) != 1 || len(v.locs[0].path) != 0 {
			x.unsupported("a slice of a part of a value at %s", x.at(s))
		}
		o := v.locs[0].obj
		a, ok := f.mem[o].(*bAgg)
		if !ok {
			x.unsupported("a slice at %s", x.at(s))
		}
		x.issue(s, x.m.And(f.pc, v.null), "nil pointer")
		r := x.newList(f, s.Type(), x.subList(s, f.pc, aggSeq(a), lo, hi), s)
		link(r.obj, o)
		r.obj.base = o
		return r
	}
	x.unsupported("a slice at %s", x.at(s))
	return nil
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (x *bitx) convert(f *bframe, in ssa.Instruction, v bval, from, to types.Type) bval {
	switch {
	case isInteger(from) && isInteger(to):
		if c, ok := v.(*bCount); ok && bitWidth(to) == 64 {
			return c
		}
		return x.conv(x.force(v), to)
	case isBytes(from) && isString(to):
		return x.listOf(v.(*bSlice), f.pc, f.mem)
	case isString(from) && isBytes(to):
		return x.newList(f, to, v.(*bSeq), in)
	case isInteger(from) && isString(to):
		n, ok := x.force(v).isNum()
		if ok {
			return x.str(string(rune(n)))
		}
	case types.Identical(from.Underlying(), to.Underlying()):
		return v
	}
	x.unsupported("a conversion from %s to %s at %s", from, to, x.at(in))
	return nil
}

// ---- calls

func (x *bitx) call(f *bframe, in ssa.Instruction, c *ssa.CallCommon) bval {
	var args []bval
	for _, a := range c.Args {
		args = append(args, x.val(f, a))
	}
	if c.IsInvoke() {
		i, ok := x.val(f, c.Value).(*bIface)
		if !ok || i.T == nil {
			x.unsupported("a call at %s", x.at(in))
		}
		fn := x.p.methodOf(i.T, c.Method.Name())
		if fn == nil {
			x.unsupported("a call of %s at %s", c.Method.Name(), x.at(in))
		}
		return x.callFn(f, in, fn, append([]bval{i.v}, args...), nil)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(f, in, b.Name(), c, args)
	}
	fv, ok := x.val(f, c.Value).(*bFunc)
	if !ok {
		x.unsupported("a call at %s", x.at(in))
	}
	return x.callFn(f, in, fv.fn, args, fv.bind)
}

func (x *bitx) callFn(f *bframe, in ssa.Instruction, fn *ssa.Function, args, bind []bval) bval {
	if fn.Name() == "init" && fn.Synthetic != "" {
		return &bTup{} // another package's
	}
	pk := fn.Pkg
	if pk == nil && fn.Origin() != nil {
		pk = fn.Origin().Pkg
	}
	if fn.Parent() != nil && pk == nil {
		pk = fn.Parent().Pkg
	}
	if pk != nil && !strings.HasPrefix(pk.Pkg.Path(), modPath) {
		return x.std(f, in, fn, args)
	}
	if pk == nil && fn.Object() != nil && fn.Object().Pkg() != nil && !strings.HasPrefix(fn.Object().Pkg().Path(), modPath) {
		return x.std(f, in, fn, args)
	}
	vals, ret, mem := x.run(fn, args, bind, f.pc, f.mem.clone())
	if ret == False {
		f.pc = False
		return nil
	}
	f.pc, f.mem = ret, mem
	if len(vals) == 1 {
		return vals[0]
	}
	return &bTup{vals}
}

func (x *bitx) builtin(f *bframe, in ssa.Instruction, name string, c *ssa.CallCommon, args []bval) bval {
	switch name {
	case "len":
		switch v := args[0].(type) {
		case *bMany:
			return &bLen{v, 0}
		case *bSeq:
			return x.count(v, -1, 0)
		case *bSlice:
			return x.count(x.listOf(v, f.pc, f.mem), -1, 0)
		case *bAgg:
			return x.num(int64(len(v.elems)), types.Typ[types.Int])
		case *bPtr:
			if a, ok := pointee(c.Args[0].Type()).Underlying().(*types.Array); ok {
				return x.num(a.Len(), types.Typ[types.Int])
			}
		}
	case "append":
		s := args[0].(*bSlice)
		var more *bSeq
		switch v := args[1].(type) {
		case *bSeq:
			more = v
		case *bSlice:
			more = x.listOf(v, f.pc, f.mem)
		}
		if more == nil {
			break
		}
		if len(more.items) == 0 {
			return s
		}
		r := x.newList(f, c.Args[0].Type(), x.cat(x.listOf(s, f.pc, f.mem), more), in)
		some := x.m.Not(x.none(gates(more, 0, len(more.items))))
		r.null = x.m.And(s.null, x.m.Not(some))
		if s.obj != nil {
			link(r.obj, s.obj)
			for _, k := range s.obj.kids {
				x.stale[k] = x.m.Or(x.stale[k], f.pc)
			}
			s.obj.kids = append(s.obj.kids, r.obj)
			for b := s.obj.base; b != nil; b = b.base {
				x.stale[b] = x.m.Or(x.stale[b], f.pc)
			}
			r.obj.base = s.obj.base
		}
		return r
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			p, q := x.force(r), x.force(a)
			less := x.ltInt(p, q)
			if name == "max" {
				less = x.ltInt(q, p)
			}
			r = x.merge([]bcase{{less, p, f.mem}, {x.m.Not(less), q, f.mem}}, f.mem)
		}
		return r
	}
	x.unsupported("%s at %s", name, x.at(in))
	return nil
}

// cell is the content of a text buffer a pointer refers to.
func (x *bitx) buffer(f *bframe, in ssa.Instruction, p bval) (get func() *bSeq, put func(*bSeq)) {
	q, ok := p.(*bPtr)
	if !ok || len(q.locs) != 1 || q.locs[0].g != True {
		x.unsupported("a buffer at %s", x.at(in))
	}
	x.issue(in, x.m.And(f.pc, q.null), "nil pointer")
	l := q.locs[0]
	return func() *bSeq {
			if x.m.And(f.pc, x.stale[l.obj]) != False {
				x.unsupported("a buffer whose bytes were changed at %s", x.at(in))
			}
			s, ok := x.get(f.mem[l.obj], l.path).(*bSeq)
			if !ok {
				x.unsupported("a buffer at %s", x.at(in))
			}
			return s
		}, func(s *bSeq) {
			if x.given[l.obj] {
				x.stored[l.obj] = true
			}
			f.mem[l.obj] = x.set(f.mem[l.obj], l.path, s, True, f.mem)
			x.touch(l.obj, f.pc)
		}
}

func (x *bitx) std(f *bframe, in ssa.Instruction, fn *ssa.Function, args []bval) bval {
	name := fn.RelString(nil)
	if o := fn.Origin(); o != nil {
		name = o.RelString(nil)
	}
	noErr := &bIface{}
	nErr := func(s *bSeq) bval { return &bTup{[]bval{x.count(s, -1, 0), noErr}} }
	vec := func() []B { return x.force(args[0]).bs }
	switch name {
	case "math/bits.OnesCount", "math/bits.OnesCount8", "math/bits.OnesCount16", "math/bits.OnesCount32", "math/bits.OnesCount64":
		s := &bSeq{}
		for _, b := range vec() {
			s.items = append(s.items, bItem{b, nil})
		}
		return x.count(s.trim(), -1, 0)
	case "math/bits.TrailingZeros", "math/bits.TrailingZeros8", "math/bits.TrailingZeros16", "math/bits.TrailingZeros32", "math/bits.TrailingZeros64":
		bs := vec()
		return x.firstOf(len(bs), func(i int) B { return bs[i] }, func(i int) int64 { return int64(i) })
	case "math/bits.LeadingZeros", "math/bits.LeadingZeros8", "math/bits.LeadingZeros16", "math/bits.LeadingZeros32", "math/bits.LeadingZeros64":
		bs := vec()
		return x.firstOf(len(bs), func(i int) B { return bs[len(bs)-1-i] }, func(i int) int64 { return int64(i) })
	case "math/bits.Len", "math/bits.Len8", "math/bits.Len16", "math/bits.Len32", "math/bits.Len64":
		bs := vec()
		return x.firstOf(len(bs), func(i int) B { return bs[len(bs)-1-i] }, func(i int) int64 { return int64(len(bs) - i) })
	case "math/bits.Reverse8", "math/bits.Reverse16", "math/bits.Reverse32", "math/bits.Reverse64", "math/bits.Reverse":
		a := x.force(args[0])
		r := &bInt{make([]B, len(a.bs)), a.signed}
		for i := range r.bs {
			r.bs[i] = a.bs[len(a.bs)-1-i]
		}
		return r
	case "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte":
		get, put := x.buffer(f, in, args[0])
		put(x.cat(get(), &bSeq{[]bItem{{True, x.force(args[1])}}}))
		return noErr
	case "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune":
		n, ok := x.force(args[1]).isNum()
		if !ok {
			break
		}
		t := x.str(string(rune(n)))
		get, put := x.buffer(f, in, args[0])
		put(x.cat(get(), t))
		return nErr(t)
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString":
		get, put := x.buffer(f, in, args[0])
		put(x.cat(get(), args[1].(*bSeq)))
		return nErr(args[1].(*bSeq))
	case "(*strings.Builder).Write", "(*bytes.Buffer).Write":
		get, put := x.buffer(f, in, args[0])
		t := x.listOf(args[1].(*bSlice), f.pc, f.mem)
		put(x.cat(get(), t))
		return nErr(t)
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		get, _ := x.buffer(f, in, args[0])
		return get()
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		get, _ := x.buffer(f, in, args[0])
		return x.count(get(), -1, 0)
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		if v, ok := args[1].(*bInt); ok {
			x.issue(in, x.m.And(f.pc, v.bs[len(v.bs)-1]), "negative count")
		} else if c := args[1].(*bCount); c.off < 0 {
			x.unsupported("the argument of Grow")
		}
		return &bTup{}
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		_, put := x.buffer(f, in, args[0])
		put(&bSeq{})
		return &bTup{}
	case "(*bytes.Buffer).Truncate":
		get, put := x.buffer(f, in, args[0])
		put(x.subList(in, f.pc, get(), nil, args[1]))
		return &bTup{}
	case "(*bytes.Buffer).Bytes":
		get, _ := x.buffer(f, in, args[0])
		l := args[0].(*bPtr).locs[0]
		if len(l.path) > 0 {
			break
		}
		r := x.newList(f, types.NewSlice(types.Typ[types.Byte]), get(), in)
		link(r.obj, l.obj)
		r.null = x.none(gates(get(), 0, len(get().items))) // may be nil or not: not known
		return r
	case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln", "io.WriteString":
		w, ok := args[0].(*bIface)
		if !ok || w.T == nil || !isPtr(w.T) || !isBuilderType(pointee(w.T)) {
			break
		}
		var t *bSeq
		switch name {
		case "fmt.Fprintf":
			t = x.format(f, in, args[1], args[2])
		case "io.WriteString":
			t = args[1].(*bSeq)
		default:
			t = x.print(f, in, args[1], name == "fmt.Fprintln")
		}
		get, put := x.buffer(f, in, w.v)
		put(x.cat(get(), t))
		return nErr(t)
	case "fmt.Sprintf":
		return x.format(f, in, args[0], args[1])
	case "fmt.Sprint":
		return x.print(f, in, args[0], false)
	case "fmt.Sprintln":
		return x.print(f, in, args[0], true)
	case "fmt.Appendf":
		t := x.format(f, in, args[1], args[2])
		s := args[0].(*bSlice)
		r := x.newList(f, types.NewSlice(types.Typ[types.Byte]), x.cat(x.listOf(s, f.pc, f.mem), t), in)
		if s.obj != nil {
			link(r.obj, s.obj)
			for _, k := range s.obj.kids {
				x.stale[k] = x.m.Or(x.stale[k], f.pc)
			}
			s.obj.kids = append(s.obj.kids, r.obj)
		}
		return r
	case "strings.Join":
		s := x.listOf(args[0].(*bSlice), f.pc, f.mem)
		sep, ok := args[1].(*bSeq)
		if !ok {
			break
		}
		r := &bSeq{}
		before := False
		for _, it := range s.items {
			g := x.m.And(it.g, before)
			for _, c := range sep.items {
				r.items = append(r.items, bItem{x.m.And(g, c.g), c.v})
			}
			for _, c := range it.v.(*bSeq).items {
				r.items = append(r.items, bItem{x.m.And(it.g, c.g), c.v})
			}
			before = x.m.Or(before, it.g)
		}
		return r.trim()
	case "strings.TrimSuffix", "strings.TrimRight":
		s, t := args[0].(*bSeq), args[1].(*bSeq)
		c, ok := t.text()
		if !ok || len(c) != 1 {
			break
		}
		is := x.lastIs(s, c[0])
		r := x.dropLast(s, is)
		if name == "strings.TrimRight" && x.m.And(f.pc, x.lastIs(r, c[0])) != False {
			break
		}
		return r
	case "strings.HasSuffix":
		s, t := args[0].(*bSeq), args[1].(*bSeq)
		if c, ok := t.text(); ok && len(c) == 1 {
			return bBool{x.lastIs(s, c[0])}
		}
	case "strings.TrimSpace":
		s := args[0].(*bSeq)
		r := x.dropLast(s, x.m.Or(x.lastIs(s, ' '), x.lastIs(s, '\n')))
		if x.m.And(f.pc, x.lastIs(r, ' ')) != False || x.m.And(f.pc, x.firstIs(r, ' ')) != False {
			break
		}
		for _, it := range r.items {
			v, ok := it.v.(*bInt)
			if !ok {
				x.unsupported("TrimSpace at %s", x.at(in))
			}
			n, ok := v.isNum()
			if !ok || n != ' ' && (n < 0x21 || n > 0x7e) {
				x.unsupported("TrimSpace at %s", x.at(in))
			}
		}
		return r
	case "strings.ToUpper", "strings.ToLower", "bytes.ToUpper", "bytes.ToLower":
		var s *bSeq
		switch v := args[0].(type) {
		case *bSeq:
			s = v
		case *bSlice:
			s = x.listOf(v, f.pc, f.mem)
		}
		r := &bSeq{}
		for _, it := range s.items {
			n, ok := it.v.(*bInt).isNum()
			if !ok || n < 0 || n > 0x7e {
				x.unsupported("%s at %s", name, x.at(in))
			}
			c := strings.ToUpper(string(rune(n)))
			if strings.HasSuffix(name, "Lower") {
				c = strings.ToLower(string(rune(n)))
			}
			r.items = append(r.items, bItem{it.g, x.num(int64(c[0]), types.Typ[types.Byte])})
		}
		if strings.HasPrefix(name, "bytes") {
			return x.newList(f, fn.Signature.Results().At(0).Type(), r, in)
		}
		return r
	case "encoding/hex.EncodeToString":
		return x.hexBytes("%02x", x.listOf(args[0].(*bSlice), f.pc, f.mem), False)
	case "strconv.Itoa":
		if n, ok := x.force(args[0]).isNum(); ok {
			return x.str(strconv.Itoa(int(n)))
		}
	case "strconv.FormatInt", "strconv.FormatUint":
		n, ok := x.force(args[0]).isNum()
		b, ok2 := x.force(args[1]).isNum()
		if ok && ok2 && b >= 2 && b <= 36 {
			if name == "strconv.FormatInt" {
				return x.str(strconv.FormatInt(n, int(b)))
			}
			return x.str(strconv.FormatUint(uint64(n), int(b)))
		}
	}
	x.unsupported("a call of %s at %s", name, x.at(in))
	return nil
}

// firstOf is the number for the first of n gates that holds, or the one for n.
func (x *bitx) firstOf(n int, g func(int) B, num func(int) int64) bval {
	r := x.num(num(n), types.Typ[types.Int])
	for i := n - 1; i >= 0; i-- {
		v := x.num(num(i), types.Typ[types.Int])
		for k := range r.bs {
			r.bs[k] = x.m.Ite(g(i), v.bs[k], r.bs[k])
		}
	}
	return r
}

// lastIs: the list is not empty and its last byte is c.
func (x *bitx) lastIs(s *bSeq, c byte) B {
	r, later := False, False
	for i := len(s.items) - 1; i >= 0; i-- {
		it := s.items[i]
		r = x.m.Or(r, x.m.And(x.m.And(it.g, x.m.Not(later)), x.eqNum(it.v.(*bInt), int64(c))))
		later = x.m.Or(later, it.g)
	}
	return r
}

func (x *bitx) firstIs(s *bSeq, c byte) B {
	r, before := False, False
	for _, it := range s.items {
		r = x.m.Or(r, x.m.And(x.m.And(it.g, x.m.Not(before)), x.eqNum(it.v.(*bInt), int64(c))))
		before = x.m.Or(before, it.g)
	}
	return r
}

// hexBytes prints every byte of a list by verb, with a blank in between where
// sep holds.
func (x *bitx) hexBytes(verb string, s *bSeq, sep B) *bSeq {
	r := &bSeq{}
	before := False
	for _, it := range s.items {
		n, ok := it.v.(*bInt).isNum()
		if !ok {
			x.unsupported("printing an unknown byte")
		}
		if g := x.m.And(sep, x.m.And(it.g, before)); g != False {
			r.items = append(r.items, bItem{g, x.num(' ', types.Typ[types.Byte])})
		}
		for _, c := range x.str(fmt.Sprintf(verb, byte(n))).items {
			r.items = append(r.items, bItem{it.g, c.v})
		}
		before = x.m.Or(before, it.g)
	}
	return r
}

func (x *bitx) argList(f *bframe, in ssa.Instruction, v bval) []*bIface {
	var r []*bIface
	for _, it := range x.listOf(v.(*bSlice), f.pc, f.mem).items {
		i, ok := it.v.(*bIface)
		if !ok || it.g != True {
			x.unsupported("arguments at %s", x.at(in))
		}
		r = append(r, i)
	}
	return r
}

// goNum gives a known number as a Go value of its kind.
func (x *bitx) goNum(i *bIface) (any, bool) {
	b, ok := i.T.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return nil, false
	}
	if types.NewMethodSet(i.T).Len() > 0 {
		return nil, false
	}
	n, ok := x.force(i.v).isNum()
	if !ok {
		return nil, false
	}
	if isSigned(i.T) {
		return n, true
	}
	return uint64(n), true
}

func (x *bitx) format(f *bframe, in ssa.Instruction, fv, av bval) *bSeq {
	form, ok := fv.(*bSeq).text()
	if !ok {
		x.unsupported("a format at %s", x.at(in))
	}
	args := x.argList(f, in, av)
	r := &bSeq{}
	n := 0
	for i := 0; i < len(form); {
		if form[i] != '%' {
			r.items = append(r.items, x.str(form[i:i+1]).items...)
			i++
			continue
		}
		j := i + 1
		for j < len(form) && strings.ContainsRune("+-# 0123456789.", rune(form[j])) {
			j++
		}
		if j >= len(form) {
			x.unsupported("the format %q at %s", form, x.at(in))
		}
		verb := form[i : j+1]
		i = j + 1
		if verb == "%%" {
			r.items = append(r.items, x.str("%").items...)
			continue
		}
		if n >= len(args) {
			x.unsupported("the format %q at %s", form, x.at(in))
		}
		a := args[n]
		n++
		if a.T == nil {
			x.unsupported("printing nil at %s", x.at(in))
		}
		if v, ok := x.goNum(a); ok {
			r.items = append(r.items, x.str(fmt.Sprintf(verb, v)).items...)
			continue
		}
		plain := types.NewMethodSet(a.T).Len() == 0
		switch {
		case plain && isString(a.T) && (verb == "%s" || verb == "%v"):
			r.items = append(r.items, a.v.(*bSeq).items...)
		case plain && isBytes(a.T) && verb == "%s":
			r.items = append(r.items, x.listOf(a.v.(*bSlice), f.pc, f.mem).items...)
		case plain && isBytes(a.T) && (verb == "%X" || verb == "%x" || verb == "% X" || verb == "% x"):
			sep := False
			if len(verb) == 3 {
				sep = True
			}
			r.items = append(r.items, x.hexBytes("%02"+verb[len(verb)-1:], x.listOf(a.v.(*bSlice), f.pc, f.mem), sep).items...)
		default:
			x.unsupported("printing a %s by %q at %s", a.T, verb, x.at(in))
		}
	}
	if n != len(args) {
		x.unsupported("the format %q at %s", form, x.at(in))
	}
	return r
}

func (x *bitx) print(f *bframe, in ssa.Instruction, av bval, ln bool) *bSeq {
	args := x.argList(f, in, av)
	r := &bSeq{}
	for k, a := range args {
		str := a.T != nil && isString(a.T)
		if k > 0 && (ln || !str && !(args[k-1].T != nil && isString(args[k-1].T))) {
			r.items = append(r.items, x.str(" ").items...)
		}
		if a.T == nil {
			x.unsupported("printing nil at %s", x.at(in))
		}
		if v, ok := x.goNum(a); ok {
			r.items = append(r.items, x.str(fmt.Sprint(v)).items...)
		} else if str && types.NewMethodSet(a.T).Len() == 0 {
			r.items = append(r.items, a.v.(*bSeq).items...)
		} else {
			x.unsupported("printing a %s at %s", a.T, x.at(in))
		}
	}
	if ln {
		r.items = append(r.items, x.str("\n").items...)
	}
	return r
}

// initPkg evaluates the initialiser of a package: what its variables hold.
func (x *bitx) initPkg(rel string) {
	sp := x.p.pkg(rel)
	if sp == nil || sp.Func("init") == nil {
		return
	}
	_, ret, mem := x.run(sp.Func("init"), nil, nil, True, x.mem0.clone())
	if ret != True {
		x.unsupported("the initialisation of %s", rel)
	}
	x.mem0 = mem
	x.stored = map[*bObj]bool{}
	delete(x.fns, sp.Func("init"))
	for g := range x.p.globalsWritten() {
		if o := x.glob[g]; o != nil && !strings.HasPrefix(g.Name(), "init$") {
			x.stale[o] = True
		}
	}
}
