package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	f    *frame
	in   ssa.Instruction
	args []*Term
	fn   *ssa.Function
	sig  *types.Signature
	name string
	typ  types.Type
}

func (e *Eng) siteKey(f *frame, in ssa.Instruction) string {
	idx := 0
	for i, x := range in.Block().Instrs {
		if x == in {
			idx = i
		}
	}
	return fmt.Sprintf("%s/%s@%d.%d", f.ctx, f.fn.Name(), in.Block().Index, idx)
}

func (e *Eng) callInstr(f *frame, c *ssa.CallCommon, in ssa.Instruction) (*Term, bool) {
	var args []*Term
	for _, a := range c.Args {
		args = append(args, e.val(f, a))
	}
	var typ types.Type
	if v, ok := in.(ssa.Value); ok {
		typ = v.Type()
	}
	var fv *Term
	if _, ok := c.Value.(*ssa.Builtin); !ok {
		fv = e.val(f, c.Value)
	}
	return e.callWith(f, c, in, args, fv, typ)
}

// runDefers makes the deferred calls, the last first.
func (e *Eng) runDefers(f *frame) bool {
	for i := len(f.defers) - 1; i >= 0; i-- {
		d := f.defers[i]
		pc0, mem0 := f.pc, f.mem
		on := e.bdd.And(pc0, d.pc)
		if !e.sat(on) {
			continue
		}
		off := e.bdd.And(pc0, e.bdd.Not(d.pc))
		f.pc, f.mem = on, mem0.clone()
		_, cont := e.callWith(f, &d.in.Call, d.in, d.args, d.fv, nil)
		var ms []gmem
		npc := False
		if cont {
			ms = append(ms, gmem{f.pc, f.mem})
			npc = f.pc
		}
		if e.sat(off) {
			ms = append(ms, gmem{off, mem0})
			npc = e.bdd.Or(npc, off)
		}
		if len(ms) == 0 {
			f.pc, f.mem = pc0, mem0
			return false
		}
		f.pc = npc
		f.mem = ms[0].m
		if len(ms) > 1 {
			f.mem = e.mergeMem(ms, npc)
		}
	}
	return true
}

func (e *Eng) callWith(f *frame, c *ssa.CallCommon, in ssa.Instruction, args []*Term, fv *Term, typ types.Type) (*Term, bool) {
	cc := &callCtx{f: f, in: in, args: args, typ: typ, sig: c.Signature()}
	if c.IsInvoke() {
		recv := fv
		cc.name = c.Method.Name()
		return e.invoke(cc, recv, c.Method)
	}
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		return e.builtin(cc, v.Name(), c)
	case *ssa.Function:
		cc.fn = v
		return e.callFn(cc, v, args, nil)
	}
	return e.callValue(cc, fv, args)
}

func (e *Eng) callValue(cc *callCtx, fv *Term, args []*Term) (*Term, bool) {
	f := cc.f
	switch fv.op {
	case "func":
		cc.fn = fv.fn
		return e.callFn(cc, fv.fn, args, fv.args)
	case "phi":
		return e.multi(cc, fv, func(t *Term) (*Term, bool) { return e.callValue(cc, t, args) })
	}
	e.eventPC("nilcall", f, cc.in, "call of a nil function", e.bdd.And(f.pc, e.isNil(fv)), fv)
	e.event("call-unknown", f, cc.in, "call of an unknown function value", append([]*Term{fv}, args...)...)
	return e.opaqueResult(cc, "callv", append([]*Term{fv}, args...)...), true
}

// multi evaluates alternatives of a gated callee or receiver.
func (e *Eng) multi(cc *callCtx, t *Term, do func(*Term) (*Term, bool)) (*Term, bool) {
	f := cc.f
	pc0, mem0 := f.pc, f.mem
	var gs []gv
	var ms []gmem
	npc := False
	ctx0 := f.ctx
	for i, a := range t.args {
		g := e.bdd.And(pc0, t.bs[i])
		if !e.sat(g) {
			continue
		}
		f.pc, f.mem = g, mem0.clone()
		f.ctx = ctx0 + "~" + strconv.Itoa(i)
		r, cont := do(a)
		f.ctx = ctx0
		if !cont {
			continue
		}
		if r == nil {
			r = e.mk("unit", "", nil)
		}
		gs = append(gs, gv{f.pc, r})
		ms = append(ms, gmem{f.pc, f.mem})
		npc = e.bdd.Or(npc, f.pc)
	}
	if npc == False {
		f.pc, f.mem = pc0, mem0
		return nil, false
	}
	f.pc = npc
	f.mem = e.mergeMem(ms, npc)
	return e.under(e.phiTuple(gs), npc), true
}

func (e *Eng) phiTuple(gs []gv) *Term {
	tup := true
	for _, x := range gs {
		if x.t.op != "tuple" || len(x.t.args) != len(gs[0].t.args) {
			tup = false
		}
	}
	if !tup || len(gs) == 0 {
		return e.phi(gs)
	}
	var as []*Term
	for i := range gs[0].t.args {
		var g2 []gv
		for _, x := range gs {
			g2 = append(g2, gv{x.g, x.t.args[i]})
		}
		as = append(as, e.phi(g2))
	}
	return e.mk("tuple", "", nil, as...)
}

func (e *Eng) inModule(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	pk := fn.Pkg
	if pk == nil {
		// wrappers and bound methods
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), modPath)
		}
		return fn.Synthetic != "" && len(fn.Blocks) > 0
	}
	return strings.HasPrefix(pk.Pkg.Path(), modPath)
}

func (e *Eng) callFn(cc *callCtx, fn *ssa.Function, args, free []*Term) (*Term, bool) {
	f := cc.f
	if m, ok := e.opaque[fn]; ok {
		cc.fn = fn
		cc.args = args
		return m(e, cc), true
	}
	if e.setMode {
		if t, ok := e.setCall(cc, fn, args); ok {
			return t, true
		}
	}
	if fn.Blocks != nil && e.inModule(fn) {
		if fn.Name() == "Walk" && fn.Pkg != nil && fn.Pkg.Pkg.Path() == modPath+"/pkg/cst" && len(e.stack) > 0 && len(args) == 2 && f.fn != fn {
			if t, ok := e.walkLoop(cc, args[0], args[1]); ok {
				return t, true
			}
		}
		if e.recursive(f, fn, args, free) {
			n := len(e.events)
			e.event("recursion", f, cc.in, fn.Name(), args...)
			if len(e.events) > n {
				ev := e.events[n]
				ev.target = fn
				for i, s := range e.stack {
					if s == fn {
						ev.base = e.argStack[i]
						break
					}
				}
			}
			return e.opaqueResult(cc, "rec:"+fn.RelString(nil), args...), true
		}
		r := e.call(fn, args, free, f.pc, f.mem, e.siteKey(f, cc.in))
		if r.pc == False || !e.sat(r.pc) {
			return nil, false
		}
		f.pc, f.mem = r.pc, r.mem
		switch len(r.vals) {
		case 0:
			return nil, true
		case 1:
			return r.vals[0], true
		}
		return e.mk("tuple", "", nil, r.vals...), true
	}
	return e.std(cc, fn, args, free)
}

// closurePrint names the functions a call gets as arguments: a function that
// is on the stack because one of its callbacks calls it again with other
// callbacks is not recursive.
func (e *Eng) closurePrint(mem *Mem, ts []*Term) string {
	set := map[string]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] || len(seen) > 2000 {
			return
		}
		seen[t] = true
		if t.op == "func" || t.op == "closure" {
			if t.fn != nil {
				set[t.fn.RelString(nil)] = true
			}
		}
		if t.op == "mu" || t.op == "call" {
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		if t.op == "ptr" && t.obj != nil {
			if c, ok := mem.m[t.obj]; ok {
				walk(c)
			}
		}
	}
	for _, t := range ts {
		walk(t)
	}
	var ks []string
	for k := range set {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func (e *Eng) recursive(f *frame, fn *ssa.Function, args, free []*Term) bool {
	pr, n := "", 0
	for i, s := range e.stack {
		if s != fn {
			continue
		}
		n++
		if pr == "" {
			pr = "(" + e.closurePrint(f.mem, append(append([]*Term{}, args...), free...)) + ")"
		}
		if pr == "()" || n > 8 {
			return true
		}
		if "("+e.prints[i]+")" == pr {
			return true
		}
	}
	return false
}

func (e *Eng) onStack(fn *ssa.Function) bool {
	for _, s := range e.stack {
		if s == fn {
			return true
		}
	}
	return false
}

func (e *Eng) opaqueResult(cc *callCtx, name string, args ...*Term) *Term {
	if cc.typ == nil {
		return nil
	}
	var fa []*Term
	for _, a := range args {
		fa = append(fa, e.freeze(cc.f.mem, a))
	}
	if tp, ok := cc.typ.(*types.Tuple); ok {
		if tp.Len() == 0 {
			return nil
		}
		base := e.mk("call", name, nil, fa...)
		var as []*Term
		for i := 0; i < tp.Len(); i++ {
			r := e.mk("proj", strconv.Itoa(i), tp.At(i).Type(), base)
			if isBool(tp.At(i).Type()) {
				r = e.boolTerm(e.boolOf(r))
			}
			as = append(as, r)
		}
		return e.mk("tuple", "", nil, as...)
	}
	r := e.mk("call", name, cc.typ, fa...)
	if isBool(cc.typ) {
		return e.boolTerm(e.boolOf(r))
	}
	return r
}

// ---- interface calls

func (e *Eng) invoke(cc *callCtx, recv *Term, m *types.Func) (*Term, bool) {
	f := cc.f
	switch recv.op {
	case "phi":
		return e.multi(cc, recv, func(t *Term) (*Term, bool) { return e.invoke(cc, t, m) })
	case "iface":
		dt := recv.aux.(types.Type)
		fn := e.findMethod(dt, m)
		if fn == nil {
			break
		}
		cc.fn = fn
		return e.callFn(cc, fn, append([]*Term{recv.args[0]}, cc.args...), nil)
	case "nil":
		e.event("nilderef", f, cc.in, "method call on nil interface")
		return nil, false
	}
	if recv.typ != nil {
		if impls := e.closed(recv.typ); impls != nil {
			var gs []gv
			for _, T := range impls {
				g := e.isType(recv, T)
				b := e.mkIface(e.unbox(recv, T), T, recv.typ)
				gs = append(gs, gv{g, b})
			}
			e.eventPC("nilderef", f, cc.in, "method call on nil interface", e.bdd.And(f.pc, e.isNil(recv)), recv)
			t := e.phi(gs)
			if t.op != "phi" {
				return e.invoke(cc, t, m)
			}
			return e.multi(cc, t, func(t *Term) (*Term, bool) { return e.invoke(cc, t, m) })
		}
	}
	if m.Name() == "Error" && len(cc.args) == 0 {
		if recv.op != "err" {
			e.eventPC("nilderef", f, cc.in, "method call on nil error", e.bdd.And(f.pc, e.isNil(recv)), recv)
		}
		return e.mk("call", "Error", types.Typ[types.String], recv), true
	}
	e.eventPC("nilderef", f, cc.in, "method call on nil interface", e.bdd.And(f.pc, e.isNil(recv)), recv)
	e.event("invoke", f, cc.in, m.Name(), append([]*Term{recv}, cc.args...)...)
	return e.opaqueResult(cc, "invoke."+m.Name(), append([]*Term{recv}, cc.args...)...), true
}

func (e *Eng) findMethod(dt types.Type, m *types.Func) *ssa.Function {
	sel := e.P.prog.MethodSets.MethodSet(dt).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return e.P.prog.MethodValue(sel)
}

// ---- builtins

func (e *Eng) builtin(cc *callCtx, name string, c *ssa.CallCommon) (*Term, bool) {
	f, a := cc.f, cc.args
	switch name {
	case "len":
		switch c.Args[0].Type().Underlying().(type) {
		case *types.Map:
			return e.mapLen(e.mapContent(f.mem, a[0])), true
		}
		r := e.lenOf(e.resolve(f.mem, a[0]))
		if e.bits {
			return r, true
		}
		return r, true
	case "cap":
		return e.mk("cap", "", types.Typ[types.Int], a[0]), true
	case "append":
		base := e.resolve(f.mem, a[0])
		if len(a) == 1 {
			return a[0], true
		}
		x := e.resolve(f.mem, a[1])
		if isString(c.Args[1].Type()) {
			x = e.mk("bytes", "", nil, x)
		}
		// may write into spare capacity of memory that is not ours
		e.writes("append-ext", f, cc.in, "append to a slice the function does not own", a[0])
		r := e.lift2(base, x, func(b, x *Term) *Term {
			if x.op == "list" || x.op == "nilslice" || x.op == "nil" {
				if len(e.segs(x)) == 0 {
					return b
				}
			}
			return e.appendList(b, e.segs(x)...)
		})
		return e.under(r, f.pc), true
	case "copy":
		d, s := a[0], e.resolve(f.mem, a[1])
		if isString(c.Args[1].Type()) {
			s = e.mk("bytes", "", nil, s)
		}
		e.copyTo(f, d, s, cc.in)
		return e.mk("copyn", "", types.Typ[types.Int], d, s), true
	case "delete":
		m, k := a[0], e.freeze(f.mem, a[1])
		if m.op == "mref" {
			e.foreign(f, m.obj, cc.in, m)
			ct := e.content(f.mem, m.obj)
			f.mem.m[m.obj] = e.lift(ct, func(c *Term) *Term { return e.mk("mapdel", "", nil, c, k) })
			e.event("mapdelete", f, cc.in, "map delete", m, k)
		} else {
			e.event("store-ext", f, cc.in, "delete from a map the caller owns", m, k)
		}
		return nil, true
	case "min", "max":
		if len(a) == 2 && isIntLin(cc.typ) {
			c := e.le0(e.sub(a[0], a[1])) // a<=b
			if name == "min" {
				return e.iteTerm(c, a[0], a[1]), true
			}
			return e.iteTerm(c, a[1], a[0]), true
		}
	case "print", "println":
		e.event("io", f, cc.in, "builtin "+name)
		return nil, true
	case "panic":
		e.event("panic", f, cc.in, "explicit panic", a...)
		return nil, false
	case "recover":
		e.event("unsupported", f, cc.in, "recover")
		return e.mk("unknown", f.ctx+"recover", cc.typ), true
	case "clear":
		if m := a[0]; m.op == "mref" {
			e.foreign(f, m.obj, cc.in, m)
			f.mem.m[m.obj] = e.mk("mapempty", "", nil)
			return nil, true
		}
		e.event("store-ext", f, cc.in, "clear", a...)
		return nil, true
	case "ssa:wrapnilchk":
		return a[0], true
	}
	e.event("unsupported", f, cc.in, "builtin "+name)
	return e.opaqueResult(cc, "builtin."+name, a...), true
}

func (e *Eng) copyTo(f *frame, d, s *Term, in ssa.Instruction) {
	switch d.op {
	case "sref":
		e.foreign(f, d.obj, in, d, s)
		c := e.content(f.mem, d.obj)
		dl, sl := e.lenOf(c), e.lenOf(s)
		if dl == sl {
			if s.op != "list" {
				f.mem.m[d.obj] = e.list(e.normSegs(e.segs(s))...)
			} else {
				f.mem.m[d.obj] = s
			}
			return
		}
		// prefix
		if !e.sat(e.bdd.And(f.pc, e.le0(e.addc(e.sub(dl, sl), 1)))) { // never dl<sl
			rest := e.slice(c, sl, dl)
			f.mem.m[d.obj] = e.list(e.normSegs(append(append([]*Term{}, e.segs(s)...), e.segs(rest)...))...)
			return
		}
		f.mem.m[d.obj] = e.mk("copied", "", nil, c, s)
	case "slice":
		if d.args[0].op == "sref" {
			o := d.args[0].obj
			c := e.content(f.mem, o)
			lo, hi := d.args[1], d.args[2]
			if e.sub(hi, lo) == e.lenOf(s) {
				segs := append([]*Term{}, e.segs(e.slice(c, e.num(0), lo))...)
				segs = append(segs, e.segs(s)...)
				segs = append(segs, e.segs(e.slice(c, hi, e.lenOf(c)))...)
				f.mem.m[o] = e.list(e.normSegs(segs)...)
				return
			}
			f.mem.m[o] = e.mk("copied", "", nil, c, s, lo)
			return
		}
		fallthrough
	default:
		e.writes("store-ext", f, in, "copy into memory the caller owns", d, s)
		o := e.overlay(d)
		f.mem.m[o] = e.mk("copied", "", nil, e.resolve(f.mem, d), s)
	}
}

// ---- Walk as a traversal loop

func (e *Eng) walkLoop(cc *callCtx, v, root *Term) (*Term, bool) {
	f := cc.f
	if v.op == "phi" {
		return nil, false
	}
	if v.op != "iface" {
		return nil, false
	}
	dt := v.aux.(types.Type)
	fn := e.P.methodOf(dt, "Visit")
	if fn == nil {
		return nil, false
	}
	sel := e.P.prog.MethodSets.MethodSet(dt).Lookup(nil, "Visit")
	if sel == nil {
		return nil, false
	}
	fn = e.P.prog.MethodValue(sel)
	key := e.siteKey(f, cc.in) + "/walk"
	li := &LoopInst{key: key, kind: "walk", fn: f.fn, pos: cc.in.Pos(), ctx: f.ctx, root: root, visitor: v}
	var nt types.Type
	if n := e.P.namedType("pkg/cst", "Node"); n != nil {
		nt = n
	}
	li.node = e.mk("walknode", key, nt, root, e.mk("kappa", "κ"+fmt.Sprint(e.loopNo(key)), types.Typ[types.Int]))
	e.nonnil[li.node] = true
	body := func(pc B, mem *Mem, _ map[*ssa.Phi]*Term) ([]edgeIn, []edgeIn) {
		exit := edgeIn{pc: pc, mem: mem.clone()}
		r := e.call(fn, []*Term{v.args[0], li.node}, nil, pc, mem.clone(), key)
		if r.pc == False {
			return nil, []edgeIn{exit}
		}
		li.result = r.vals[0]
		return []edgeIn{{pc: r.pc, mem: r.mem}}, []edgeIn{exit}
	}
	exits, _ := e.runLoop(li, f.pc, f.mem, nil, body)
	if len(exits) == 0 {
		return nil, true
	}
	f.mem = exits[0].mem
	return nil, true
}

var _ = token.NoPos
