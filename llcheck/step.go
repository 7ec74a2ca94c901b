package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// step interprets one instruction abstractly. It reports whether control
// continues after it.
func (e *Eng) step(f *frame, instr ssa.Instruction) bool {
	set := func(v ssa.Value, t *Term) {
		e.setTyp(t, v.Type())
		f.env[v] = t
	}
	switch x := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		o := e.object(f.ctx+"/a:"+f.fn.Name()+":"+x.Name(), "local", pointee(x.Type()))
		o.instr = x
		f.mem.m[o] = e.zeroTerm(pointee(x.Type()))
		set(x, e.objTerm("ptr", o, x.Type()))
	case *ssa.Store:
		e.store(f, e.val(f, x.Addr), e.val(f, x.Val), x)
	case *ssa.UnOp:
		set(x, e.unop(f, x))
	case *ssa.BinOp:
		set(x, e.binop(f, x, x.Op, e.val(f, x.X), e.val(f, x.Y), x.X.Type(), x.Type()))
	case *ssa.FieldAddr:
		p := e.val(f, x.X)
		set(x, e.addrStep(f, p, fmt.Sprintf(".%d", x.Field), nil, pointee(x.X.Type()), x))
	case *ssa.Field:
		st := x.X.Type().Underlying().(*types.Struct)
		set(x, e.field(e.val(f, x.X), x.Field, st.Field(x.Field).Type()))
	case *ssa.IndexAddr:
		p, i := e.val(f, x.X), e.idxVal(f, x.Index)
		if pt := pointee(x.X.Type()); pt != nil { // pointer to array
			n := pt.Underlying().(*types.Array).Len()
			e.boundsCheck(f, x, i, e.num(n), x.Index.Type())
			set(x, e.addrStep(f, p, "#", i, pt, x))
			break
		}
		e.boundsCheck(f, x, i, e.lenOf(e.resolve(f.mem, p)), x.Index.Type())
		set(x, e.elemPtr(p, i, elemType(x.X.Type()), x.Type()))
	case *ssa.Index:
		a, i := e.val(f, x.X), e.idxVal(f, x.Index)
		if at, ok := x.X.Type().Underlying().(*types.Array); ok {
			e.boundsCheck(f, x, i, e.num(at.Len()), x.Index.Type())
		} else {
			a = e.resolve(f.mem, a)
			e.boundsCheck(f, x, i, e.lenOf(a), x.Index.Type())
		}
		set(x, e.indexBits(a, i))
	case *ssa.Lookup:
		m, k := e.val(f, x.X), e.val(f, x.Index)
		if isString(x.X.Type()) {
			i := e.idxVal(f, x.Index)
			e.boundsCheck(f, x, i, e.lenOf(m), x.Index.Type())
			set(x, e.index(m, i))
			break
		}
		mt := x.X.Type().Underlying().(*types.Map)
		c := e.mapContent(f.mem, m)
		k = e.freeze(f.mem, k)
		has := e.mapHas(c, k)
		if e.stable {
			has = e.settled(f.pc, has)
		}
		v := e.mapGet(c, k, mt.Elem())
		e.setTyp(v, mt.Elem())
		v = e.iteTerm(has, v, e.zeroTerm(mt.Elem()))
		v = e.under(v, f.pc)
		if x.CommaOk {
			set(x, e.mk("tuple", "", nil, v, e.under(e.boolTerm(has), f.pc)))
		} else {
			set(x, v)
		}
	case *ssa.Extract:
		t := e.val(f, x.Tuple)
		set(x, e.lift(t, func(t *Term) *Term {
			if t.op == "tuple" {
				return t.args[x.Index]
			}
			r := e.mk("proj", strconv.Itoa(x.Index), x.Type(), t)
			if isBool(x.Type()) {
				return e.boolTerm(e.boolOf(r))
			}
			return r
		}))
	case *ssa.MakeInterface:
		v := e.val(f, x.X)
		set(x, e.mkIface(v, x.X.Type(), x.Type()))
	case *ssa.ChangeInterface:
		f.env[x] = e.val(f, x.X)
	case *ssa.ChangeType:
		f.env[x] = e.val(f, x.X)
	case *ssa.Convert:
		set(x, e.convert(f, x, e.val(f, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		set(x, e.mk("unknown", f.ctx+x.Name(), x.Type()))
	case *ssa.TypeAssert:
		set(x, e.typeAssert(f, x))
	case *ssa.MakeSlice:
		n := e.val(f, x.Len)
		et := elemType(x.Type())
		e.boundsNeg(f, x, n)
		o := e.object(f.ctx+"/s:"+f.fn.Name()+":"+x.Name(), "slice", x.Type())
		o.instr = x
		o.length = n
		f.mem.m[o] = e.makeZeros(n, et)
		set(x, e.objTerm("sref", o, x.Type()))
		// capacity is the length unless given
	case *ssa.MakeMap:
		o := e.object(f.ctx+"/m:"+f.fn.Name()+":"+x.Name(), "map", x.Type())
		o.instr = x
		f.mem.m[o] = e.mk("mapempty", "", nil)
		set(x, e.objTerm("mref", o, x.Type()))
	case *ssa.MapUpdate:
		e.mapUpdate(f, e.val(f, x.Map), e.freeze(f.mem, e.val(f, x.Key)), e.val(f, x.Value), x)
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, e.val(f, b))
		}
		f.env[x] = e.intern(Term{op: "func", fn: fn, typ: x.Type(), args: bs})
	case *ssa.Slice:
		set(x, e.sliceInstr(f, x))
	case *ssa.Range:
		m := e.val(f, x.X)
		f.env[x] = e.mk("iter", "", nil, m)
	case *ssa.Next:
		e.next(f, x)
	case *ssa.Call:
		t, cont := e.callInstr(f, &x.Call, x)
		if !cont {
			return false
		}
		if t != nil {
			set(x, e.under(t, f.pc))
		}
	case *ssa.RunDefers:
		return e.runDefers(f)
	case *ssa.Defer:
		if f.li == nil || f.li.innermost(x.Block()) != nil {
			e.event("unsupported", f, instr, "defer in a loop")
			return true
		}
		d := deferred{in: x, pc: f.pc}
		for _, a := range x.Call.Args {
			d.args = append(d.args, e.val(f, a))
		}
		if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
			d.fv = e.val(f, x.Call.Value)
		}
		f.defers = append(f.defers, d)
	case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		k := "unsupported"
		if _, ok := x.(*ssa.Go); ok {
			k = "go"
		}
		e.event(k, f, instr, fmt.Sprintf("%T", x))
		if v, ok := instr.(ssa.Value); ok {
			f.env[v] = e.mk("unknown", f.ctx+v.Name(), v.Type())
		}
	default:
		e.event("unsupported", f, instr, fmt.Sprintf("%T", x))
		if v, ok := instr.(ssa.Value); ok {
			f.env[v] = e.mk("unknown", f.ctx+v.Name(), v.Type())
		}
	}
	return true
}

func (e *Eng) mkIface(v *Term, dt, it types.Type) *Term {
	return e.lift(v, func(v *Term) *Term {
		t := e.mk("iface", tkey(dt), it, v)
		if t.aux == nil {
			t.aux = dt
		}
		return t
	})
}

func (e *Eng) makeZeros(n *Term, et types.Type) *Term {
	z := e.zeroTerm(et)
	if v, ok := n.isNum(); ok && v >= 0 && v <= 16 {
		var segs []*Term
		for i := int64(0); i < v; i++ {
			segs = append(segs, e.elem(z))
		}
		return e.list(segs...)
	}
	return e.zerosOf(n, z)
}

func (e *Eng) idxVal(f *frame, v ssa.Value) *Term {
	t := e.val(f, v)
	if t.op == "vec" {
		if n, ok := e.vecNum(t); ok {
			return e.num(n)
		}
		return t
	}
	return e.toInt(t, v.Type())
}

// toInt views an integer value of any type as a mathematical integer.
func (e *Eng) toInt(t *Term, typ types.Type) *Term {
	return e.lift(t, func(t *Term) *Term {
		if t.op == "vec" {
			if n, ok := e.vecNum(t); ok {
				return e.num(n)
			}
			return t
		}
		if isIntLin(typ) {
			return t
		}
		if t.op == "const" {
			if n, err := strconv.ParseInt(t.k, 10, 64); err == nil {
				return e.num(n)
			}
		}
		if t.op == "narrow" && t.typ != nil && types.Identical(t.typ, typ) {
			// conversion of an int known to fit
			if t.k == "fits" {
				return t.args[0]
			}
		}
		b, ok := typ.Underlying().(*types.Basic)
		k := "i"
		if ok && b.Info()&types.IsUnsigned != 0 {
			k = "u" + b.Name()
			if b.Kind() == types.Uint8 {
				k = "u8"
			}
		}
		return e.mk("conv", k, types.Typ[types.Int], t)
	})
}

func (e *Eng) boundsCheck(f *frame, in ssa.Instruction, i, n *Term, it types.Type) {
	if e.bits {
		return
	}
	bad := e.bdd.Or(e.le0(e.addc(i, 1)), e.le0(e.sub(n, i)))
	e.eventPC("bounds", f, in, "index out of range", e.bdd.And(f.pc, bad), i, n)
	e.assume(f, e.bdd.Not(bad))
}

func (e *Eng) boundsNeg(f *frame, in ssa.Instruction, n *Term) {
	if e.bits {
		return
	}
	bad := e.le0(e.addc(n, 1))
	e.eventPC("bounds", f, in, "negative length", e.bdd.And(f.pc, bad), n)
}

// assume: facts implied by not panicking are not added to the gates (the
// panic is reported separately).
func (e *Eng) assume(f *frame, b B) {}

func (e *Eng) addrStep(f *frame, p *Term, step string, idx *Term, typ types.Type, in ssa.Instruction) *Term {
	var rt types.Type
	if v, ok := in.(ssa.Value); ok {
		rt = v.Type()
	}
	return e.lift(p, func(p *Term) *Term {
		args := append([]*Term{}, p.args...)
		switch p.op {
		case "ptr", "eptr":
			if idx != nil {
				args = append(args, idx)
			}
			r := e.mk3(p.op, p.k+step, p.obj, rt, args...)
			if r.aux == nil {
				r.aux = p.aux
			}
			return r
		case "nil":
			e.event("nilderef", f, in, "field of nil pointer")
			return p
		}
		if !e.nonnil[p] {
			e.eventPC("nilderef", f, in, "pointer may be nil", e.bdd.And(f.pc, e.isNil(p)), p)
		}
		o := e.extObj(p, typ)
		var a []*Term
		if idx != nil {
			a = append(a, idx)
		}
		return e.mk3("ptr", step, o, rt, a...)
	})
}

func (e *Eng) elemPtr(p, i *Term, et, rt types.Type) *Term {
	return e.lift2(p, i, func(p, i *Term) *Term {
		if p.op == "fptrslice" {
			return p
		}
		r := e.mk3("eptr", "", nil, rt, p, i)
		if r.aux == nil {
			r.aux = et
		}
		return r
	})
}

func (e *Eng) indexBits(a, i *Term) *Term {
	if i.op == "vec" {
		return e.vecIndex(a, i)
	}
	return e.index(a, i)
}

func (e *Eng) unop(f *frame, x *ssa.UnOp) *Term {
	v := e.val(f, x.X)
	switch x.Op {
	case token.MUL:
		r := e.load(f, v, x.Type(), x)
		return e.under(r, f.pc)
	case token.NOT:
		return e.boolTerm(e.bdd.Not(e.boolOf(v)))
	case token.SUB:
		if v.op == "vec" {
			return e.vecNeg(v, x.Type())
		}
		if isIntLin(x.Type()) {
			return e.scale(v, -1)
		}
	case token.XOR:
		if v.op == "vec" {
			return e.vecNot(v)
		}
		if isIntLin(x.Type()) {
			// ^x = -x-1
			return e.addc(e.scale(v, -1), -1)
		}
	}
	return e.mk("un:"+x.Op.String(), "", x.Type(), v)
}

func constInt(t *Term) (int64, bool) {
	if n, ok := t.isNum(); ok {
		return n, true
	}
	if t.op == "const" {
		if n, err := strconv.ParseInt(t.k, 10, 64); err == nil {
			return n, true
		}
	}
	return 0, false
}

func (e *Eng) binop(f *frame, in ssa.Instruction, op token.Token, a, b *Term, ot, rt types.Type) *Term {
	if a.op == "vec" || b.op == "vec" {
		return e.vecBin(op, a, b, ot, rt)
	}
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return e.under(e.boolTerm(e.compare(f, op, a, b, ot)), f.pc)
	}
	if isString(rt) && op == token.ADD {
		return e.cat(a, b)
	}
	if isBool(rt) {
		switch op {
		case token.AND, token.LAND:
			return e.boolTerm(e.bdd.And(e.boolOf(a), e.boolOf(b)))
		case token.OR, token.LOR:
			return e.boolTerm(e.bdd.Or(e.boolOf(a), e.boolOf(b)))
		}
	}
	if isIntLin(rt) {
		switch op {
		case token.ADD:
			return e.add(a, b)
		case token.SUB:
			return e.sub(a, b)
		case token.MUL:
			if n, ok := constInt(a); ok {
				return e.scale(b, n)
			}
			if n, ok := constInt(b); ok {
				return e.scale(a, n)
			}
		}
	}
	if na, ok := constInt(a); ok {
		if nb, ok := constInt(b); ok {
			if r := e.foldConst(op, na, nb, rt); r != nil {
				return r
			}
		}
	}
	return e.lift2(a, b, func(a, b *Term) *Term { return e.mk("bin:"+op.String(), "", rt, a, b) })
}

func (e *Eng) foldConst(op token.Token, a, b int64, rt types.Type) *Term {
	x, y := constant.MakeInt64(a), constant.MakeInt64(b)
	var r constant.Value
	switch op {
	case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
		r = constant.BinaryOp(x, op, y)
	case token.QUO:
		if b == 0 {
			return nil
		}
		r = constant.BinaryOp(x, token.QUO_ASSIGN, y)
	case token.REM:
		if b == 0 {
			return nil
		}
		r = constant.BinaryOp(x, token.REM, y)
	case token.SHL, token.SHR:
		if b < 0 || b > 62 {
			return nil
		}
		r = constant.Shift(x, op, uint(b))
	default:
		return nil
	}
	// wrap to the type
	if bt, ok := rt.Underlying().(*types.Basic); ok {
		n, exact := constant.Int64Val(constant.ToInt(r))
		if !exact {
			return nil
		}
		switch bt.Kind() {
		case types.Uint8:
			n &= 0xff
		case types.Uint16:
			n &= 0xffff
		case types.Uint32:
			n &= 0xffffffff
		}
		return e.constTerm(constant.MakeInt64(n), rt)
	}
	return nil
}

func (e *Eng) compare(f *frame, op token.Token, a, b *Term, ot types.Type) B {
	not := e.bdd.Not
	bt, isB := ot.Underlying().(*types.Basic)
	switch op {
	case token.NEQ:
		return not(e.compare(f, token.EQL, a, b, ot))
	case token.GTR:
		return e.compare(f, token.LSS, b, a, ot)
	case token.GEQ:
		return not(e.compare(f, token.LSS, a, b, ot))
	case token.LEQ:
		return not(e.compare(f, token.LSS, b, a, ot))
	case token.LSS:
		if isB && bt.Info()&types.IsInteger != 0 {
			return e.le0(e.addc(e.sub(e.toInt(a, ot), e.toInt(b, ot)), 1))
		}
		return e.phiB2(a, b, func(a, b *Term) B { return e.atomVar(e.mk("b", "", nil, e.mk("lss", "", nil, a, b))) })
	}
	// EQL
	if isB && bt.Info()&types.IsInteger != 0 {
		if isIntLin(ot) {
			return e.eqInts(a, b)
		}
		return e.eqTerms(a, b)
	}
	if _, ok := ot.Underlying().(*types.Interface); ok {
		return e.eqTerms(a, b)
	}
	if plainStruct(ot) && !(e.setMode && isByteSet(ot)) {
		return e.phiB2(a, b, func(a, b *Term) B { return e.structEq(a, b, ot) })
	}
	switch ot.Underlying().(type) {
	case *types.Slice:
		// only comparable with nil
		if a.op == "nilslice" {
			return e.isNil(b)
		}
		return e.isNil(a)
	case *types.Map, *types.Signature:
		if a.op == "nil" {
			return e.isNil(b)
		}
		return e.isNil(a)
	}
	if e.setMode && isByteSet(ot) {
		return e.setEq(a, b)
	}
	return e.eqTerms(a, b)
}

func (e *Eng) phiB2(a, b *Term, f func(a, b *Term) B) B {
	r := False
	for _, x := range e.leaves(a) {
		for _, y := range e.leaves(b) {
			g := e.bdd.And(x.g, y.g)
			if g != False {
				r = e.bdd.Or(r, e.bdd.And(g, f(x.t, y.t)))
			}
		}
	}
	return r
}

// eqInts compares ints; comparisons of converted bytes with constants become
// comparisons of the bytes.
func (e *Eng) eqInts(a, b *Term) B {
	d := e.sub(a, b)
	if d.op == "lin" && len(d.lin.ts) == 1 {
		x := d.lin.ts[0]
		if x.t.op == "conv" && x.t.k == "u8" && (x.coef == 1 || x.coef == -1) {
			c := -d.lin.c * x.coef
			if c < 0 || c > 255 {
				return False
			}
			return e.eqTerms(x.t.args[0], e.mk("const", strconv.FormatInt(c, 10), types.Typ[types.Byte]))
		}
	}
	if d.op == "lin" && len(d.lin.ts) == 2 && d.lin.c == 0 {
		x, y := d.lin.ts[0], d.lin.ts[1]
		if x.t.op == "conv" && y.t.op == "conv" && x.t.k == "u8" && y.t.k == "u8" && x.coef == -y.coef && (x.coef == 1 || x.coef == -1) {
			return e.eqTerms(x.t.args[0], y.t.args[0])
		}
	}
	if d.op == "conv" && d.k == "u8" {
		return e.eqTerms(d.args[0], e.mk("const", "0", types.Typ[types.Byte]))
	}
	return e.eq0(d)
}

// narrowInt: all values of the type fit into 32 bits.
func narrowInt(b *types.Basic) bool {
	switch b.Kind() {
	case types.Int8, types.Int16, types.Uint8, types.Uint16, types.UntypedRune:
		return true
	}
	return false
}

func (e *Eng) convert(f *frame, in ssa.Instruction, v *Term, from, to types.Type) *Term {
	if v.op == "phi" {
		return e.lift(v, func(x *Term) *Term { return e.convert(f, in, x, from, to) })
	}
	fu, tu := from.Underlying(), to.Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		if v.op == "vec" {
			return e.vecConv(v, from, to)
		}
		if n, ok := constInt(v); ok {
			return e.constTerm(constant.MakeInt64(wrapInt(n, tb)), to)
		}
		if tb.Kind() == types.Int32 && fb.Kind() != types.Int32 && !narrowInt(fb) && !(v.op == "conv" && v.k == "u8") {
			// the upper half of the number is lost
			return e.mk("wrap32", "", to, e.toInt(v, from))
		}
		if isIntLin(to) {
			return e.toInt(v, from)
		}
		if types.Identical(fu, tu) {
			return v
		}
		// byte(int(b)) is b
		if v.op == "conv" && v.k == "u8" && tb.Kind() == types.Uint8 {
			return v.args[0]
		}
		return e.mk("narrow", tb.Name(), to, v)
	}
	if fok && fb.Info()&types.IsString != 0 {
		if tok && tb.Info()&types.IsString != 0 {
			return v
		}
		if _, ok := tu.(*types.Slice); ok {
			if eb, ok := elemType(to).Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
				if v.op == "string" {
					return v.args[0]
				}
				return e.mk("bytes", "", to, v)
			}
		}
		return e.mk("conv:"+tkey(to), "", to, v)
	}
	if _, ok := fu.(*types.Slice); ok && tok && tb.Info()&types.IsString != 0 {
		c := e.freeze(f.mem, v)
		return e.stringOf(c)
	}
	if fok && tok && tb.Info()&types.IsString != 0 {
		if n, ok := constInt(v); ok {
			return e.str(string(rune(n)))
		}
		return e.mk("runestr", "", to, v)
	}
	return e.mk("conv:"+tkey(to), "", to, v)
}

// stringOf: string(bytes)
func (e *Eng) stringOf(c *Term) *Term {
	if c.op == "phi" {
		return e.lift(c, e.stringOf)
	}
	switch c.op {
	case "bytes":
		return c.args[0]
	case "nilslice":
		return e.str("")
	case "list":
		r := e.str("")
		for _, s := range c.args {
			switch s.op {
			case "all":
				r = e.cat(r, e.stringOf(s.args[0]))
			case "elem":
				r = e.cat(r, e.byteStr(s.args[0]))
			case "sub":
				r = e.cat(r, e.stringOf(e.slice(s.args[0], s.args[1], s.args[2])))
			case "comp":
				parts := []*Term{}
				for _, b := range s.args[1:] {
					parts = append(parts, e.byteStr(b))
				}
				t := e.mk("rep", s.k, types.Typ[types.String], s.args[0], e.cat(parts...))
				t.aux = s.aux
				r = e.cat(r, e.normRep(t))
			case "flat":
				t := e.mk("rep", s.k, types.Typ[types.String], s.args[0], e.stringOf(e.list(s.args[1])))
				t.aux = s.aux
				r = e.cat(r, e.normRep(t))
			default:
				return e.mk("string", "", types.Typ[types.String], c)
			}
		}
		return r
	}
	return e.mk("string", "", types.Typ[types.String], c)
}

func (e *Eng) byteStr(b *Term) *Term {
	if n, ok := constInt(b); ok && n >= 0 && n < 256 {
		return e.str(string([]byte{byte(n)}))
	}
	return e.mk("bytestr", "", types.Typ[types.String], b)
}

func wrapInt(n int64, b *types.Basic) int64 {
	switch b.Kind() {
	case types.Uint8:
		return int64(uint8(n))
	case types.Int8:
		return int64(int8(n))
	case types.Uint16:
		return int64(uint16(n))
	case types.Int16:
		return int64(int16(n))
	case types.Uint32:
		return int64(uint32(n))
	case types.Int32:
		return int64(int32(n))
	}
	return n
}

func (e *Eng) typeAssert(f *frame, x *ssa.TypeAssert) *Term {
	v := e.val(f, x.X)
	T := x.AssertedType
	ok := e.isType(v, T)
	if e.stable {
		ok = e.settled(f.pc, ok)
	}
	var val *Term
	if types.IsInterface(T) {
		val = v
	} else {
		val = e.lift(v, func(y *Term) *Term {
			if y.op == "nil" || y.op == "iface" && !types.Identical(y.aux.(types.Type), T) {
				return e.zeroTerm(T)
			}
			return e.unbox(y, T)
		})
	}
	if x.CommaOk {
		val = e.iteTerm(ok, val, e.zeroTerm(T))
		e.setTyp(val, T)
		return e.mk("tuple", "", nil, e.under(val, f.pc), e.under(e.boolTerm(ok), f.pc))
	}
	e.eventPC("typeassert", f, x, "type assertion may fail", e.bdd.And(f.pc, e.bdd.Not(ok)), v)
	return e.under(val, e.bdd.And(f.pc, ok))
}

// ---- maps

func (e *Eng) mapContent(mem *Mem, m *Term) *Term {
	switch m.op {
	case "mref":
		return e.content(mem, m.obj)
	case "fmap":
		return m.args[0]
	case "phi":
		return e.lift(m, func(x *Term) *Term { return e.mapContent(mem, x) })
	case "mget", "deref", "sym", "field", "index":
	}
	if o, ok := e.objs["mv:"+fmt.Sprint(m.id)]; ok {
		if c, ok := mem.m[o]; ok {
			return c
		}
	}
	return m
}

func (e *Eng) mapUpdate(f *frame, m, k, v *Term, in ssa.Instruction) {
	switch m.op {
	case "mref":
		e.foreign(f, m.obj, in, m, v)
		c := e.content(f.mem, m.obj)
		f.mem.m[m.obj] = e.lift(c, func(c *Term) *Term { return e.mapStoreK(c, k, v) })
		e.event("mapwrite", f, in, "map write", m, k, v, c)
		return
	case "nil":
		e.event("nilmap", f, in, "write to nil map")
		return
	case "phi":
		for i, a := range m.args {
			pc := f.pc
			f.pc = e.bdd.And(pc, m.bs[i])
			if e.sat(f.pc) {
				if a.op == "mref" {
					e.foreign(f, a.obj, in, a, v)
					c := e.content(f.mem, a.obj)
					nc := e.lift(c, func(c *Term) *Term { return e.mapStoreK(c, k, v) })
					f.mem.m[a.obj] = e.phi([]gv{{m.bs[i], nc}, {e.bdd.Not(m.bs[i]), c}})
					e.event("mapwrite", f, in, "map write", a, k, v, c)
				} else {
					e.mapUpdate(f, a, k, v, in)
				}
			}
			f.pc = pc
		}
		return
	case "mget":
		// map of maps built here
		if m.args[0].op == "mapstore" || m.args[0].op == "mapadd" || m.args[0].op == "mu" {
			for o, c := range f.mem.m {
				if o.kind == "map" && c == m.args[0] {
					inner := e.mk("fmap", "", nil, e.mapStoreK(e.mapContent(f.mem, m), k, v))
					f.mem.m[o] = e.mapStoreK(c, m.args[1], inner)
					e.event("mapwrite", f, in, "map write", m, k, v, c)
					return
				}
			}
		}
	case "fmap":
		// a map stored in another map of this function
		for o, c := range f.mem.m {
			if o.kind == "map" {
				if c.op == "mapstore" && c.args[2] == m {
					inner := e.mk("fmap", "", nil, e.mapStoreK(m.args[0], k, v))
					f.mem.m[o] = e.mapStoreK(c.args[0], c.args[1], inner)
					e.event("mapwrite", f, in, "map write", m, k, v, m.args[0])
					return
				}
			}
		}
	}
	e.eventPC("nilmap", f, in, "write to a map that may be nil", e.bdd.And(f.pc, e.isNil(m)), m)
	e.event("store-ext", f, in, "write to a map the caller owns", m, k, v)
	o := e.object("mv:"+fmt.Sprint(m.id), "mapview", nil)
	o.initTerm = m
	f.mem.m[o] = e.mapStoreK(e.mapContent(f.mem, m), k, v)
}

func (e *Eng) mapStoreK(c, k, v *Term) *Term {
	if k.op == "phi" {
		var gs []gv
		for _, x := range e.leaves(k) {
			gs = append(gs, gv{x.g, e.mapStore(c, x.t, v)})
		}
		return e.phi(gs)
	}
	return e.mapStore(c, k, v)
}

func (e *Eng) mapLen(m *Term) *Term {
	switch m.op {
	case "nil", "mapempty":
		return e.num(0)
	case "phi":
		return e.lift(m, e.mapLen)
	}
	return e.mk("mlen", "", types.Typ[types.Int], m)
}

func (e *Eng) next(f *frame, x *ssa.Next) {
	it := e.val(f, x.Iter)
	src := it.args[0]
	var kappa *Term
	if len(e.loops) > 0 {
		kappa = e.loops[len(e.loops)-1].kappa
	} else {
		kappa = e.num(0)
	}
	if x.IsString {
		ok := e.atomVar(e.mk("b", "", nil, e.mk("runeok", "", nil, src, kappa)))
		f.env[x] = e.mk("tuple", "", nil, e.boolTerm(ok), e.mk("runepos", "", types.Typ[types.Int], src, kappa), e.mk("rune", "", types.Typ[types.Rune], src, kappa))
		return
	}
	c := e.mapContent(f.mem, src)
	rng := x.Iter.(*ssa.Range)
	mt := rng.X.Type().Underlying().(*types.Map)
	ok := e.le0(e.addc(e.sub(kappa, e.mapLen(c)), 1))
	k := e.mk("mapkey", "", mt.Key(), c, kappa)
	v := e.mapGet(c, k, mt.Elem())
	e.setTyp(v, mt.Elem())
	e.event("maprange", f, x, "map iteration", c)
	f.env[x] = e.mk("tuple", "", nil, e.boolTerm(ok), k, v)
}

// ---- slicing

func (e *Eng) sliceInstr(f *frame, x *ssa.Slice) *Term {
	v := e.val(f, x.X)
	get := func(y ssa.Value, def *Term) *Term {
		if y == nil {
			return def
		}
		return e.idxVal(f, y)
	}
	if pt := pointee(x.X.Type()); pt != nil {
		at := pt.Underlying().(*types.Array)
		lo, hi := get(x.Low, e.num(0)), get(x.High, e.num(at.Len()))
		if v.op == "ptr" && !v.obj.ext {
			// composite literal or variadic array: value semantics as long as
			// nobody writes through it later
			if a, ok := v.obj.instr.(*ssa.Alloc); ok && v.k == "" {
				if arrayOnlyInit(a) {
					return e.slice(e.content(f.mem, v.obj), lo, hi)
				}
			}
			return e.mk("aslice", "", x.Type(), v, lo, hi)
		}
		return e.slice(e.load(f, v, pt, x), lo, hi)
	}
	c := e.resolve(f.mem, v)
	n := e.lenOf(c)
	lo, hi := get(x.Low, e.num(0)), get(x.High, n)
	bad := e.bdd.Or(e.bdd.Or(e.le0(e.addc(lo, 1)), e.le0(e.addc(e.sub(hi, lo), 1))), e.le0(e.addc(e.sub(n, hi), 1)))
	if !e.bits {
		e.eventPC("bounds", f, x, "slice bounds out of range", e.bdd.And(f.pc, bad), lo, hi, n)
	}
	if v.op == "sref" {
		if z, ok := lo.isNum(); ok && z == 0 && hi == n {
			return v
		}
		return e.mk("slice", "", x.Type(), v, lo, hi)
	}
	r := e.slice(v, lo, hi)
	return r
}

// arrayOnlyInit: the array is written only before it is sliced, in the block
// of its allocation
func arrayOnlyInit(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.IndexAddr:
			for _, rr := range *x.Referrers() {
				st, ok := rr.(*ssa.Store)
				if !ok || st.Addr != x {
					// address of element taken and filled (struct literals)
					if fa, ok := rr.(*ssa.FieldAddr); ok && fa.Block() == a.Block() {
						continue
					}
					return false
				}
				if st.Block() != a.Block() {
					return false
				}
			}
		case *ssa.Slice:
			// the slice must not be written through
			for _, rr := range *x.Referrers() {
				if ia, ok := rr.(*ssa.IndexAddr); ok {
					for _, r3 := range *ia.Referrers() {
						if st, ok := r3.(*ssa.Store); ok && st.Addr == ia {
							return false
						}
					}
				}
			}
		default:
			return false
		}
	}
	return true
}

// plainStruct: a struct of basic values and such structs
func plainStruct(t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if _, ok := ft.Underlying().(*types.Basic); !ok && !plainStruct(ft) {
			return false
		}
	}
	return true
}
