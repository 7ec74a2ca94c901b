package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// LoopVar is a value that differs between iterations of a loop.
type LoopVar struct {
	key     string
	name    string
	phi     *ssa.Phi
	obj     *Object
	path    []int
	typ     types.Type
	mu      *Term
	val     *Term // value at the loop head as seen by the body (mu, or closed form)
	init    *Term
	next    *Term // value at the back edge, in terms of mu and kappa
	closed  *Term // value at the head of iteration kappa
	exit    *Term // closed form used after the loop (in terms of kappa)
	nonneg  bool  // init >= 0 and every iteration keeps it
	keepLen bool  // same length as init in every iteration
	busy    bool
	loop    *LoopInst
}

type LoopExit struct {
	pc   B // gate in terms of the body
	edge edgeIn
	trip *Term // kappa at this exit if counted
	gate B     // under which the loop is left here, after it
}

// LoopInst is one loop of the program in one calling context, summarised by
// its transfer function.
type LoopInst struct {
	key      string
	kind     string // for, walk
	fn       *ssa.Function
	header   *ssa.BasicBlock
	pos      token.Pos
	ctx      string
	kappa    *Term
	vars     []*LoopVar
	entryPc  B
	entryMem *Mem
	headMem  *Mem
	backPc   B
	backs    []edgeIn
	exits    []*LoopExit
	trip     *Term
	outer    []*LoopInst
	// walk loops
	root, visitor, node, result *Term
	events                      [2]int
}

type loopOut struct {
	back, exits []edgeIn
	started     bool
}

type varState struct {
	variant bool
	notNN   bool   // not provably >= 0
	notKL   bool   // length not kept
	form    string // closed form found
	stab    string // set array taken to be unchanged
	pinned  bool   // dropped once before
	tried   map[string]bool
	c       int64
	t       *Term
}

type loopState struct {
	vars map[string]*varState
}

type phiInit struct {
	phi *ssa.Phi
	t   *Term
}

func (e *Eng) evalLoop(f *frame, L *natLoop, es []edgeIn) []edgeIn {
	e.enter(f, L.header, es)
	var phis []phiInit
	for _, i := range L.header.Instrs {
		if ph, ok := i.(*ssa.Phi); ok {
			phis = append(phis, phiInit{ph, f.env[ph]})
		}
	}
	key := f.ctx + "/" + fmt.Sprintf("%s#%d", f.fn.Name(), L.header.Index)
	li := &LoopInst{key: key, kind: "for", fn: f.fn, header: L.header, ctx: f.ctx}
	for _, b := range append([]*ssa.BasicBlock{L.header}, f.li.rpo...) {
		if !L.body[b] || li.pos.IsValid() {
			continue
		}
		for _, i := range b.Instrs {
			if i.Pos().IsValid() {
				li.pos = i.Pos()
				break
			}
		}
	}
	body := func(pc B, mem *Mem, pv map[*ssa.Phi]*Term) ([]edgeIn, []edgeIn) {
		for ph, t := range pv {
			f.env[ph] = t
		}
		f.pc, f.mem, f.cur = pc, mem, L.header
		out := &loopOut{}
		in := map[*ssa.BasicBlock][]edgeIn{L.header: {{nil, L.header, pc, mem, nil}}}
		e.evalBlocks(f, f.li.rpo, in, L, out)
		return out.back, out.exits
	}
	pc0, mem0, ev0, ld0 := f.pc, f.mem, len(e.events), len(e.done)
	exits, sub := e.runLoop(li, f.pc, f.mem, phis, body)
	// values of the loop used after it
	var used []ssa.Value
	for b := range L.body {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil || f.env[v] == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if r.Block() != nil && !L.body[r.Block()] {
					used = append(used, v)
					break
				}
			}
		}
	}
	if e.wantUnroll(li) {
		if x, ok := e.unrollLoop(f, L, li, pc0, mem0, phis, used, ev0, ld0); ok {
			return x
		}
	}
	for _, v := range used {
		f.env[v] = sub(f.env[v])
	}
	return exits
}

// wantUnroll: a loop that is gone through a small constant number of times
// and changes something that has no closed form.
func (e *Eng) wantUnroll(li *LoopInst) bool {
	if li.trip == nil || e.stable {
		return false
	}
	n, ok := li.trip.isNum()
	if !ok || n < 0 || n > 16 {
		return false
	}
	for _, lv := range li.vars {
		if lv.closed == nil && (lv.exit == nil || e.mentionsMu(lv.exit, lv.mu.k)) {
			return true
		}
	}
	return false
}

// mentionsMu: a term still holds the unknown value of a loop variable.
func (e *Eng) mentionsMu(t *Term, k string) bool {
	seen := map[*Term]bool{}
	var visit func(t *Term) bool
	visit = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if t.op == "mu" && strings.HasPrefix(t.k, k) {
			return true
		}
		for _, a := range t.args {
			if visit(a) {
				return true
			}
		}
		if t.lin != nil {
			for _, x := range t.lin.ts {
				if visit(x.t) {
					return true
				}
			}
		}
		return false
	}
	return visit(t)
}

// unrollLoop evaluates such a loop one iteration after the other.
func (e *Eng) unrollLoop(f *frame, L *natLoop, li *LoopInst, pc B, mem *Mem, phis []phiInit, used []ssa.Value, ev0, ld0 int) ([]edgeIn, bool) {
	n, _ := li.trip.isNum()
	e.events, e.done = e.events[:ev0], e.done[:ld0]
	ctx := f.ctx
	defer func() { f.ctx = ctx }()
	pv := map[*ssa.Phi]*Term{}
	for _, p := range phis {
		pv[p.phi] = p.t
	}
	var exits []edgeIn
	type exitVals struct {
		pc B
		vs map[ssa.Value]*Term
	}
	var evs []exitVals
	mem = mem.clone()
	for k := int64(0); ; k++ {
		if k > n {
			return nil, false
		}
		f.ctx = fmt.Sprintf("%s/u%d:%d", ctx, L.header.Index, k)
		for _, v := range used {
			delete(f.env, v)
		}
		for ph, t := range pv {
			f.env[ph] = t
		}
		f.pc, f.mem, f.cur = pc, mem, L.header
		out := &loopOut{}
		in := map[*ssa.BasicBlock][]edgeIn{L.header: {{nil, L.header, pc, mem, nil}}}
		e.evalBlocks(f, f.li.rpo, in, L, out)
		any := False
		for _, x := range out.exits {
			if e.sat(x.pc) {
				exits = append(exits, x)
				any = e.bdd.Or(any, x.pc)
			}
		}
		if any != False {
			ev := exitVals{any, map[ssa.Value]*Term{}}
			for _, v := range used {
				if t := f.env[v]; t != nil {
					ev.vs[v] = t
				}
			}
			evs = append(evs, ev)
		}
		var ms []gmem
		back := False
		var bs []edgeIn
		for _, b := range out.back {
			if e.sat(b.pc) {
				bs = append(bs, b)
				back = e.bdd.Or(back, b.pc)
				ms = append(ms, gmem{b.pc, b.mem})
			}
		}
		if len(bs) == 0 {
			break
		}
		next := map[*ssa.Phi]*Term{}
		for _, p := range phis {
			var gs []gv
			for _, b := range bs {
				gs = append(gs, gv{b.pc, b.env[p.phi]})
			}
			next[p.phi] = e.under(e.phi(gs), back)
		}
		pv, mem, pc = next, e.mergeMem(ms, back), back
	}
	for _, v := range used {
		var gs []gv
		for _, x := range evs {
			if t := x.vs[v]; t != nil {
				gs = append(gs, gv{x.pc, t})
			}
		}
		if len(gs) > 0 {
			f.env[v] = e.phi(gs)
		}
	}
	return exits, true
}

func diffPaths(e *Eng, a, b *Term, path []int, out *[][]int) {
	if a == b {
		return
	}
	if b.op == "struct" && len(b.args) > 0 && a.op == "struct" && len(a.args) == len(b.args) {
		for i := range a.args {
			diffPaths(e, a.args[i], b.args[i], append(append([]int{}, path...), i), out)
		}
		return
	}
	if b.op == "struct" && a.op != "struct" && len(b.args) > 0 && b.typ != nil {
		if st, ok := b.typ.Underlying().(*types.Struct); ok && st.NumFields() == len(b.args) {
			for i := range b.args {
				diffPaths(e, e.field(a, i, st.Field(i).Type()), b.args[i], append(append([]int{}, path...), i), out)
			}
			return
		}
	}
	*out = append(*out, path)
}

func (e *Eng) atPath(t *Term, path []int, typ types.Type) (*Term, types.Type) {
	for _, i := range path {
		var ft types.Type
		if typ == nil {
			typ = t.typ
		}
		if typ != nil {
			if st, ok := typ.Underlying().(*types.Struct); ok && i < st.NumFields() {
				ft = st.Field(i).Type()
			}
		}
		t = e.field(t, i, ft)
		typ = ft
	}
	return t, typ
}

func (e *Eng) setPath(t *Term, path []int, typ types.Type, v *Term) *Term {
	var steps []string
	for _, i := range path {
		steps = append(steps, fmt.Sprintf(".%d", i))
	}
	if typ == nil {
		typ = t.typ
	}
	return e.update(t, steps, nil, typ, v)
}

func pathKey(p []int) string {
	s := ""
	for _, i := range p {
		s += fmt.Sprintf(".%d", i)
	}
	return s
}

func hasPrefixPath(p, q []int) bool {
	if len(q) > len(p) {
		return false
	}
	for i := range q {
		if p[i] != q[i] {
			return false
		}
	}
	return true
}

// muValue wraps the symbol of a loop variable in the representation its type
// asks for.
func (e *Eng) muValue(mu *Term) *Term {
	if mu.typ != nil && isBool(mu.typ) {
		return e.boolTerm(e.boolOf(mu))
	}
	if e.setMode && mu.typ != nil && isByteSet(mu.typ) {
		return e.setAtom(mu)
	}
	if e.bits && mu.typ != nil {
		if b, ok := mu.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return e.vecSym(mu, mu.typ)
		}
	}
	return mu
}

func (e *Eng) runLoop(li *LoopInst, pc B, mem *Mem, phis []phiInit, body func(B, *Mem, map[*ssa.Phi]*Term) ([]edgeIn, []edgeIn)) ([]edgeIn, func(*Term) *Term) {
	st := e.lcache[li.key]
	if st == nil {
		st = &loopState{vars: map[string]*varState{}}
		e.lcache[li.key] = st
	}
	li.kappa = e.mk("kappa", "κ"+fmt.Sprint(e.loopNo(li.key)), types.Typ[types.Int])
	delete(e.kapEnd, li.kappa)
	li.entryPc, li.entryMem = pc, mem.clone()
	li.outer = append([]*LoopInst{}, e.loops...)
	ev0, ld0 := len(e.events), len(e.done)
	e.loops = append(e.loops, li)
	depth := len(e.loops)
	var backs, exits []edgeIn
	for iter := 0; ; iter++ {
		if iter > 40 {
			panic(abort{"loop analysis does not converge: " + e.P.pos(li.pos)})
		}
		e.nLoopEval++
		e.burn()
		e.events = e.events[:ev0]
		e.done = e.done[:ld0]
		e.loops = e.loops[:depth]
		li.vars = nil
		pv := map[*ssa.Phi]*Term{}
		mkVar := func(key, name string, typ types.Type, init *Term, vs *varState) *LoopVar {
			lv := &LoopVar{key: key, name: name, typ: typ, init: init, loop: li}
			mk := li.key + "|" + key
			if !vs.notNN {
				if typ == nil || !isIntLin(typ) || e.bits || e.sat(e.bdd.And(pc, e.phiB(init, func(t *Term) B { return e.le0(e.addc(t, 1)) }))) {
					vs.notNN = true
				} else {
					mk += "+"
					lv.nonneg = true
				}
			}
			if !vs.notKL {
				if o := e.keyObj; o == nil || o.kind != "slice" && o.kind != "array" {
					vs.notKL = true
				} else {
					mk += "="
					lv.keepLen = true
				}
			}
			lv.mu = e.mk("mu", mk, typ, li.kappas()...)
			lv.mu.typ = typ
			lv.mu.aux = lv
			lv.val = e.muValue(lv.mu)
			switch vs.form {
			case "lin":
				lv.closed = e.add(init, e.scale(li.kappa, vs.c))
			case "const":
				lv.closed = e.iteTerm(e.le0(li.kappa), init, e.substOne(vs.t, li.kappa, e.addc(li.kappa, -1)))
			case "pop":
				lv.closed = e.slice(init, e.num(0), e.sub(e.lenOf(init), li.kappa))
			case "shift":
				lv.closed = e.slice(init, li.kappa, e.lenOf(init))
			case "stab":
				lv.closed = e.stabSym(vs.stab, init)
				vs.notNN, vs.notKL = true, true
			}
			if lv.closed != nil {
				lv.val = lv.closed
			}
			li.vars = append(li.vars, lv)
			return lv
		}
		for _, p := range phis {
			key := "phi:" + p.phi.Name()
			vs := st.vars[key]
			if vs == nil || !vs.variant {
				pv[p.phi] = p.t
				continue
			}
			lv := mkVar(key, p.phi.Comment, p.phi.Type(), p.t, vs)
			lv.phi = p.phi
			pv[p.phi] = lv.val
		}
		hm := mem.clone()
		var okeys []string
		for k, vs := range st.vars {
			if strings.HasPrefix(k, "obj:") && vs.variant {
				okeys = append(okeys, k)
			}
		}
		sort.Strings(okeys)
		objOf := map[string]*Object{}
		for o := range mem.m {
			objOf[o.key] = o
		}
		for _, o := range e.objList {
			if o.initTerm != nil {
				if _, ok := objOf[o.key]; !ok {
					objOf[o.key] = o
				}
			}
		}
		for _, k := range okeys {
			i := strings.LastIndex(k, "|")
			o := objOf[k[4:i]]
			if o == nil || e.headOv(li, o) {
				continue
			}
			var path []int
			for _, s := range strings.Split(k[i+1:], ".") {
				if s != "" {
					var n int
					fmt.Sscan(s, &n)
					path = append(path, n)
				}
			}
			c := e.content(hm, o)
			init, typ := e.atPath(e.content(mem, o), path, o.typ)
			e.keyObj = nil
			if len(path) == 0 {
				e.keyObj = o
			}
			if typ != nil && isBuilderType(typ) {
				typ = types.Typ[types.String]
			}
			if e.stable && len(path) == 0 && e.isSetArray(o) {
				st.vars[k].form, st.vars[k].stab = "stab", o.key
			}
			lv := mkVar(k, objName(o), typ, init, st.vars[k])
			e.keyObj = nil
			lv.obj, lv.path = o, path
			hm.m[o] = e.setPath(c, path, o.typ, lv.val)
		}
		li.headMem = hm.clone()
		bpc := pc
		for _, lv := range li.vars {
			if lv.closed != nil && st.vars[lv.key].form == "pop" {
				// every earlier iteration took one element off
				bpc = e.bdd.And(bpc, e.le0(e.sub(li.kappa, e.lenOf(lv.init))))
			}
		}
		li.entryPc = bpc
		backs, exits = body(bpc, hm, pv)
		li.backPc = False
		for _, b := range backs {
			li.backPc = e.bdd.Or(li.backPc, b.pc)
		}
		li.backs = backs
		if len(backs) == 0 {
			break
		}
		changed := false
		// values at the back edge
		local := func(o *Object) bool {
			_, ok := mem.m[o]
			return !ok && o.kind != "global" && !o.ext || e.headOv(li, o)
		}
		var ms []gmem
		for _, b := range backs {
			ms = append(ms, gmem{b.pc, b.mem})
		}
		bm := e.mergeMem(ms, li.backPc)
		frz := func(t *Term) *Term { return e.freezeSel(bm, t, local, map[*Term]*Term{}) }
		byPhi := map[*ssa.Phi]*LoopVar{}
		for _, lv := range li.vars {
			if lv.phi != nil {
				byPhi[lv.phi] = lv
			}
		}
		for _, p := range phis {
			var gs []gv
			for _, b := range backs {
				gs = append(gs, gv{b.pc, b.env[p.phi]})
			}
			nx := frz(e.under(e.phi(gs), li.backPc))
			key := "phi:" + p.phi.Name()
			lv := byPhi[p.phi]
			if lv == nil {
				if nx != p.t && !e.sameUnder(nx, p.t, li.backPc) {
					if e.vstate(st, key).variant {
						panic(abort{"internal: variant"})
					}
					e.vstate(st, key).variant = true
					changed = true
				}
				continue
			}
			lv.next = nx
			if e.checkForm(li, lv, e.vstate(st, key)) {
				changed = true
			}
		}
		// memory
		var objs []*Object
		for o := range bm.m {
			objs = append(objs, o)
		}
		sort.Slice(objs, func(i, j int) bool {
			a, b := objs[i], objs[j]
			if a, b := a.kind == "overlay", b.kind == "overlay"; a != b {
				return b
			}
			return a.id < b.id
		})
		for _, o := range objs {
			if o.kind == "overlay" && changed {
				// what holds the slice is found to change: its name is not settled
				break
			}
			if local(o) && o.initTerm == nil || e.headOv(li, o) {
				continue
			}
			head := e.content(hm0(li, o, e), o)
			nx := frz(bm.m[o])
			var paths [][]int
			diffPaths(e, head, nx, nil, &paths)
			for _, p := range paths {
				// inside an existing variable?
				inside := false
				for _, lv := range li.vars {
					if lv.obj == o && hasPrefixPath(p, lv.path) {
						inside = true
					}
				}
				if inside {
					continue
				}
				hv, _ := e.atPath(head, p, o.typ)
				nv, _ := e.atPath(nx, p, o.typ)
				if e.sameUnder(hv, nv, li.backPc) {
					continue
				}
				k := "obj:" + o.key + "|" + pathKey(p)
				// drop variables below
				for kk := range st.vars {
					if strings.HasPrefix(kk, k) && kk != k {
						delete(st.vars, kk)
					}
				}
				vs := e.vstate(st, k)
				if !vs.variant {
					vs.variant = true
					changed = true
				}
			}
		}
		for _, lv := range li.vars {
			if lv.obj == nil {
				continue
			}
			nx := frz(e.content(bm, lv.obj))
			lv.next, _ = e.atPath(nx, lv.path, lv.obj.typ)
			lv.next = e.under(lv.next, li.backPc)
			if e.checkForm(li, lv, e.vstate(st, lv.key)) {
				changed = true
			}
		}
		if !changed {
			// variables that turned out not to change
			for _, lv := range li.vars {
				vs := e.vstate(st, lv.key)
				if lv.closed == nil && lv.next == lv.mu && !vs.pinned {
					vs.pinned, vs.variant = true, false
					changed = true
				}
			}
			if changed || e.endsAt(li, exits) {
				continue
			}
			break
		}
	}
	e.loops = e.loops[:depth-1]
	// exits
	li.exits = nil
	for _, x := range exits {
		if e.sat(x.pc) {
			li.exits = append(li.exits, &LoopExit{pc: x.pc, edge: x})
		}
	}
	for _, lv := range li.vars {
		e.exitForm(li, lv)
		e.errDomain(li, lv)
		e.nonNilList(lv)
	}
	e.linkVars(li)
	for _, x := range li.exits {
		x.trip = e.countedTrip(li, x.pc)
		if x.trip != nil && li.trip == nil {
			li.trip = x.trip
		}
	}
	// merge several edges that belong to one exit test is not attempted; order:
	// counted exit last
	ex := append([]*LoopExit{}, li.exits...)
	sort.SliceStable(ex, func(i, j int) bool { return ex[i].trip == nil && ex[j].trip != nil })
	e.done = append(e.done, li)
	e.loopSize(li, ev0)
	var def *loopDef
	if e.stable {
		def = e.canon(li, ex)
		for _, lv := range li.vars {
			if isSetVar(lv) && lv.closed == nil {
				e.setForm(li, lv, def)
			}
		}
	}

	sigma := func(x *LoopExit) func(*Term) *Term {
		m := map[*Term]*Term{}
		for _, lv := range li.vars {
			if lv.closed == nil && lv.exit != nil {
				m[lv.mu] = lv.exit
			}
		}
		memo1, memo2 := map[*Term]*Term{}, map[*Term]*Term{}
		return func(t *Term) *Term {
			if len(m) > 0 {
				t = e.subst(t, m, memo1)
			}
			if x.trip != nil {
				t = e.subst(t, map[*Term]*Term{li.kappa: x.trip}, memo2)
			} else if e.stable {
				t = e.subst(t, map[*Term]*Term{li.kappa: e.kexit(li)}, memo2)
			}
			return t
		}
	}
	var res []edgeIn
	var gates []B
	rest := True
	canon := def != nil && def.ok && len(def.pcs) > 0
	if !canon && def == nil {
		if g, ok := e.searchGate(li, ex); ok {
			rest = g
		}
	}
	found := rest
	if canon {
		gates = e.canonGates(def)
	}
	for i := range ex {
		if canon {
			break
		}
		var g B
		if found != True && i == len(ex)-1 {
			g = e.bdd.Not(found)
		} else if found != True && i == len(ex)-2 {
			g = rest
		} else if i == len(ex)-1 {
			g = rest
		} else {
			g = e.bdd.And(rest, e.exitAtom(li, i))
			rest = e.bdd.And(rest, e.bdd.Not(e.exitAtom(li, i)))
		}
		gates = append(gates, g)
	}
	if len(ex) > 1 && !canon {
		facts := True
		for i, x := range ex {
			fact := e.restrictTh(x.pc, pc)
			if x.trip != nil {
				fact = True
			}
			facts = e.bdd.And(facts, e.bdd.Imp(gates[i], fact))
		}
		if e.stable {
			facts = e.substB(facts, map[*Term]*Term{li.kappa: e.kexit(li)}, map[*Term]*Term{})
		}
		for i := range ex[:len(ex)-1] {
			v := e.bdd.nodes[e.exitAtom(li, i)].v
			e.attach(int(v), li.key, facts)
		}
		if found != True {
			// the exit at kappa is the first one found
			for _, v := range e.bdd.Support(found) {
				if e.atoms[v].op == "ex" {
					e.attach(v, li.key, facts)
				}
			}
		}
	}
	if def != nil {
		def.gates = gates
	}
	for i, x := range ex {
		x.gate = gates[i]
	}
	subs := make([]func(*Term) *Term, len(ex))
	for i, x := range ex {
		subs[i] = sigma(x)
		npc := e.bdd.And(pc, gates[i])
		ne := edgeIn{from: x.edge.from, to: x.edge.to, pc: npc, mem: newMem(), env: map[*ssa.Phi]*Term{}}
		here := func(o *Object) bool { return e.headOv(li, o) }
		fz := func(t *Term) *Term { return e.freezeSel(x.edge.mem, t, here, map[*Term]*Term{}) }
		for o, t := range x.edge.mem.m {
			if here(o) {
				ne.mem.m[o] = subs[i](t)
			} else {
				ne.mem.m[o] = subs[i](fz(t))
			}
		}
		for ph, t := range x.edge.env {
			ne.env[ph] = subs[i](fz(t))
		}
		res = append(res, ne)
	}
	subAll := func(t *Term) *Term {
		var gs []gv
		for i, x := range ex {
			gs = append(gs, gv{gates[i], subs[i](e.under(t, x.pc))})
		}
		if len(gs) == 0 {
			return t
		}
		return e.phi(gs)
	}
	return res, subAll
}

// headOv: what is written into a slice that a variable of this loop holds. At
// the head of the loop nothing has been written to the slice it holds now.
func (e *Eng) headOv(li *LoopInst, o *Object) bool {
	if o.kind != "overlay" || o.initTerm == nil {
		return false
	}
	t := o.initTerm
	for t.op == "slice" {
		if e.mentions(t.args[1], li.kappa) || e.mentions(t.args[2], li.kappa) {
			return true
		}
		t = t.args[0]
	}
	return t.op == "mu" && strings.HasPrefix(t.k, li.key+"|")
}

// endsAt: a loop that is left when the number of iterations is N, and gets to
// that test in every iteration, has at most N of them. Being N then means being
// N at least.
func (e *Eng) endsAt(li *LoopInst, exits []edgeIn) bool {
	if e.kapEnd[li.kappa] != nil {
		return false
	}
	for _, x := range exits {
		if !e.sat(x.pc) {
			continue
		}
		g := e.restrictTh(x.pc, li.entryPc)
		if g <= True || len(e.bdd.Support(g)) != 1 {
			continue
		}
		at := e.atoms[e.bdd.nodes[g].v]
		if at.op != "eq0" {
			continue
		}
		N := e.countedTrip(li, x.pc)
		if N == nil || N.op == "phi" || e.sat(e.bdd.And(li.backPc, e.atomVar(at))) {
			continue
		}
		if e.kapEnd == nil {
			e.kapEnd = map[*Term]*Term{}
		}
		e.kapEnd[li.kappa] = N
		return true
	}
	return false
}

// searchGate: a loop over a range that is left early if a condition on the
// element holds; the gate says that there is such an element.
func (e *Eng) searchGate(li *LoopInst, ex []*LoopExit) (B, bool) {
	if len(ex) < 2 {
		return True, false
	}
	last := ex[len(ex)-1]
	if last.trip == nil {
		return True, false
	}
	m := map[*Term]*Term{}
	for _, lv := range li.vars {
		if lv.closed == nil && lv.exit != nil {
			m[lv.mu] = lv.exit
		}
	}
	P := False
	care := e.bdd.And(li.entryPc, e.bdd.Not(last.pc))
	for _, x := range ex[:len(ex)-1] {
		if x.trip != nil {
			return True, false
		}
		P = e.bdd.Or(P, x.pc)
	}
	P = e.restrictTh(P, care)
	if len(m) > 0 {
		P = e.substB(P, m, map[*Term]*Term{})
	}
	for _, v := range e.bdd.Support(P) {
		if e.mentionsLoop(li, e.atoms[v]) {
			return True, false
		}
	}
	r := e.mkEx(last.trip, li.kappa, P)
	if r <= True {
		return True, false
	}
	return r, true
}

func isSetVar(lv *LoopVar) bool { return lv.typ != nil && isByteSet(lv.typ) }

func hm0(li *LoopInst, o *Object, e *Eng) *Mem { return li.headMem }

func objName(o *Object) string {
	if o.instr != nil {
		if a, ok := o.instr.(*ssa.Alloc); ok {
			return a.Comment
		}
	}
	return o.kind
}

func (e *Eng) loopNo(key string) int {
	if e.loopSizes == nil {
		e.loopSizes = map[string]int{}
	}
	if n, ok := e.loopSizes[key]; ok {
		return n
	}
	n := len(e.loopSizes)
	e.loopSizes[key] = n
	return n
}

func (e *Eng) loopSize(li *LoopInst, ev0 int) { li.events = [2]int{ev0, len(e.events)} }

// kappas are the iteration counters of the enclosing loops: a value made by an
// inner loop is a function of them.
func (li *LoopInst) kappas() []*Term {
	var r []*Term
	for _, o := range li.outer {
		r = append(r, o.kappa)
	}
	return r
}

func (e *Eng) exitAtom(li *LoopInst, i int) B {
	return e.atomVar(e.mk("exit", li.key+"/"+fmt.Sprint(i), nil, li.kappas()...))
}

func (e *Eng) vstate(st *loopState, k string) *varState {
	vs := st.vars[k]
	if vs == nil {
		vs = &varState{tried: map[string]bool{}}
		st.vars[k] = vs
	}
	return vs
}

func (e *Eng) sameUnder(a, b *Term, pc B) bool {
	if a == b {
		return true
	}
	a, b = e.under(a, pc), e.under(b, pc)
	if a == b {
		return true
	}
	if e.isBoolTerm(a) && e.isBoolTerm(b) {
		return e.equivUnder(pc, e.boolOf(a), e.boolOf(b))
	}
	la, lb := e.leaves(a), e.leaves(b)
	if len(la) == 1 && len(lb) == 1 {
		return false
	}
	for _, x := range la {
		for _, y := range lb {
			if x.t == y.t {
				continue
			}
			g := e.bdd.AndN(pc, x.g, y.g)
			if e.sat(g) && e.under(x.t, g) != e.under(y.t, g) {
				return false
			}
		}
	}
	return true
}

func (e *Eng) isBoolTerm(t *Term) bool {
	return t.op == "true" || t.op == "false" || t.op == "bool"
}

// mentionsLoop: does t mention a non-closed variable of the loop
func (e *Eng) mentionsLoop(li *LoopInst, t *Term) bool {
	for _, lv := range li.vars {
		if e.mentions(t, lv.mu) {
			return true
		}
	}
	return false
}

// checkForm verifies the closed form in use or tries to find one. It reports
// whether another round is needed.
func (e *Eng) checkForm(li *LoopInst, lv *LoopVar, vs *varState) bool {
	if vs.form == "stab" || lv.obj != nil && lv.obj.kind == "ghost" {
		return false
	}
	if lv.keepLen && lv.closed == nil && !e.sameUnder(e.lenOf(lv.next), e.lenOf(lv.init), li.backPc) {
		vs.notKL = true
		e.checkForm1(li, lv, vs)
		return true
	}
	if lv.nonneg && lv.closed == nil && e.sat(e.bdd.And(li.backPc, e.phiB(lv.next, func(t *Term) B { return e.le0(e.addc(t, 1)) }))) {
		vs.notNN = true
		e.checkForm1(li, lv, vs)
		return true
	}
	return e.checkForm1(li, lv, vs)
}

func (e *Eng) checkForm1(li *LoopInst, lv *LoopVar, vs *varState) bool {
	if lv.closed != nil {
		want := e.substOne(lv.closed, li.kappa, e.addc(li.kappa, 1))
		if e.sameUnder(lv.next, want, li.backPc) {
			return false
		}
		vs.form = ""
		return true
	}
	try := func(form string) bool {
		if vs.tried[form] {
			return false
		}
		vs.tried[form] = true
		vs.form = form
		return true
	}
	if vs.form != "" {
		return false
	}
	n := lv.next
	if lv.typ != nil && isIntLin(lv.typ) && !e.bits {
		if d, ok := e.sub(n, lv.mu).isNum(); ok {
			vs.c = d
			return try("lin")
		}
	}
	if !e.mentionsLoop(li, n) {
		vs.t = n
		return try("const")
	}
	if n.op == "slice" && n.args[0] == lv.mu && n == e.slice(lv.mu, e.num(0), e.addc(e.lenOf(lv.mu), -1)) {
		return try("pop")
	}
	if n.op == "slice" && n.args[0] == lv.mu && n == e.slice(lv.mu, e.num(1), e.lenOf(lv.mu)) {
		return try("shift")
	}
	return false
}

// exitForm finds the value of a variable after kappa iterations.
func (e *Eng) exitForm(li *LoopInst, lv *LoopVar) {
	lv.exit = nil
	if lv.closed != nil || lv.next == nil {
		return
	}
	if e.stable {
		if isSetVar(lv) {
			return // later
		}
		if e.cellForm(li, lv) || e.listForm(li, lv) {
			return
		}
	}
	if lv.next.op == "phi" && e.filterForm(li, lv) {
		return
	}
	if n := e.oneStore(lv.next, lv.mu); n != lv.next {
		l2 := *lv
		l2.next = n
		e.exitForm(li, &l2)
		if l2.exit != nil {
			lv.exit = l2.exit
			return
		}
	}
	if lv.next.op == "phi" {
		// the same case in every iteration
		var gs []gv
		for _, g := range e.leaves(lv.next) {
			if e.loopDep(li, g.g) {
				e.spreadForm(li, lv)
				return
			}
			l2 := *lv
			l2.next = g.t
			if g.t == lv.mu {
				l2.exit = lv.init
			} else {
				e.exitForm(li, &l2)
			}
			if l2.exit == nil {
				return
			}
			gs = append(gs, gv{g.g, l2.exit})
		}
		lv.exit = e.phi(gs)
		return
	}
	n, mu, k := lv.next, lv.mu, li.kappa
	noMu := func(ts ...*Term) bool {
		for _, t := range ts {
			if e.mentionsLoop(li, t) {
				return false
			}
		}
		return true
	}
	switch {
	case n.op == "list" && len(n.args) > 1 && n.args[0].op == "all" && n.args[0].args[0] == mu:
		var bodies []*Term
		for _, s := range n.args[1:] {
			if s.op != "elem" || !noMu(s.args[0]) {
				// one spread list per iteration
				if len(n.args) == 2 && (s.op == "all" || s.op == "sub") && noMu(s) {
					c := e.comp("flat", k, k, s)
					lv.exit = e.list(e.normSegs(append(append([]*Term{}, e.segs(lv.init)...), c))...)
				}
				return
			}
			bodies = append(bodies, s.args[0])
		}
		c := e.comp("comp", k, k, bodies...)
		lv.exit = e.list(e.normSegs(append(append([]*Term{}, e.segs(lv.init)...), c))...)
	case n.op == "cat" && n.args[0] == mu && noMu(n.args[1:]...):
		b := e.cat(n.args[1:]...)
		lv.exit = e.cat(lv.init, e.repStr(k, k, b))
	case n.op == "mapstore" && n.args[0] == mu && noMu(n.args[1:]...):
		key, v := n.args[1], n.args[2]
		if key.op == "mapkey" && key.args[1] == k && v.op == "mget" && v.args[0] == key.args[0] && v.args[1] == key {
			lv.exit = e.mk("mapunion", "", nil, lv.init, key.args[0])
			return
		}
		c := e.comp("mapcomp", k, k, key, v)
		lv.exit = e.mapAdd(lv.init, c)
	case e.isBoolTerm(n):
		lv.exit = e.boolFold(li, lv)
	case n.op == "store" && n.args[0] == mu && noMu(n.args[1:]...):
		lv.exit = e.fill(li, lv, n.args[1], n.args[2])
	}
}

// oneStore: every case writes the same element, each a value of its own.
func (e *Eng) oneStore(n, mu *Term) *Term {
	if n.op != "phi" {
		return n
	}
	var gs []gv
	var ix *Term
	for _, l := range e.leaves(n) {
		if l.t.op != "store" || l.t.args[0] != mu || ix != nil && l.t.args[1] != ix {
			return n
		}
		ix = l.t.args[1]
		gs = append(gs, gv{l.g, l.t.args[2]})
	}
	if ix == nil {
		return n
	}
	return e.mk("store", "", n.typ, mu, ix, e.phi(gs))
}

// spreadForm: bytes are added at the end, which and how many depends on the
// iteration.
func (e *Eng) spreadForm(li *LoopInst, lv *LoopVar) {
	el := elemType(lv.typ)
	if el == nil {
		return
	}
	if b, ok := el.Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
		return
	}
	var gs []gv
	for _, g := range e.leaves(lv.next) {
		n := g.t
		switch {
		case n == lv.mu:
			gs = append(gs, gv{g.g, e.list()})
		case n.op == "list" && len(n.args) > 0 && n.args[0].op == "all" && n.args[0].args[0] == lv.mu:
			for _, s := range n.args[1:] {
				if e.mentionsLoop(li, s) {
					return
				}
			}
			gs = append(gs, gv{g.g, e.list(n.args[1:]...)})
		default:
			return
		}
	}
	t := e.phi(gs)
	if e.mentionsLoop(li, t) {
		return
	}
	c := e.comp("flat", li.kappa, li.kappa, e.mk("all", "", nil, t))
	lv.exit = e.list(e.normSegs(append(append([]*Term{}, e.segs(lv.init)...), c))...)
}

// filterForm: entries of the map ranged over are added as they are, those for
// which a condition on the key holds.
func (e *Eng) filterForm(li *LoopInst, lv *LoopVar) bool {
	var src, key *Term
	gate := False
	for _, l := range e.leaves(lv.next) {
		if l.t == lv.mu {
			continue
		}
		n := l.t
		if n.op != "mapstore" || n.args[0] != lv.mu {
			return false
		}
		k, v := n.args[1], n.args[2]
		if k.op != "mapkey" || k.args[1] != li.kappa || v.op != "mget" || v.args[0] != k.args[0] || v.args[1] != k || key != nil && key != k {
			return false
		}
		src, key = k.args[0], k
		gate = e.bdd.Or(gate, l.g)
	}
	if src == nil || e.mentionsLoop(li, src) || e.mentions(src, li.kappa) {
		return false
	}
	gate = e.restrictTh(gate, e.inRange(li.kappa, e.mapLen(src)))
	q := e.mk("sym", "key◦", key.typ)
	gate = e.substB(gate, map[*Term]*Term{key: q}, map[*Term]*Term{})
	if e.loopDep(li, gate) {
		return false
	}
	lv.exit = e.mk("mapunion", "", nil, lv.init, e.mk("mapfilter", "", nil, src, e.boolTerm(gate)))
	return true
}

// filterGate is the condition a filtered map puts on a key.
func (e *Eng) filterGate(m, k *Term) B {
	q := e.mk("sym", "key◦", k.typ)
	b := e.boolOf(m.args[1])
	for _, v := range e.bdd.Support(b) {
		e.findSym(e.atoms[v], "key◦", &q)
	}
	return e.substB(b, map[*Term]*Term{q: k}, map[*Term]*Term{})
}

func (e *Eng) findSym(t *Term, k string, r **Term) {
	if t.op == "sym" && t.k == k {
		*r = t
		return
	}
	e.eachChild(t, func(c *Term) { e.findSym(c, k, r) })
}

// loopDep: does the gate depend on the iteration
func (e *Eng) loopDep(li *LoopInst, g B) bool {
	for _, v := range e.bdd.Support(g) {
		at := e.atoms[v]
		if e.mentions(at, li.kappa) || e.mentionsLoop(li, at) {
			return true
		}
	}
	return false
}

func (e *Eng) mapAdd(init, c *Term) *Term {
	if n, ok := constInt(c.args[0]); ok && c.op == "mapcomp" && n <= 256 {
		m := init
		for j := int64(0); j < n; j++ {
			m = e.mapStore(m, e.instBound(c, c.args[1], e.num(j)), e.instBound(c, c.args[2], e.num(j)))
		}
		return m
	}
	return e.mk("mapadd", "", nil, init, c)
}

// fill: array filled one element per iteration; at kappa = len every element
// is written
func (e *Eng) fill(li *LoopInst, lv *LoopVar, idx, v *Term) *Term {
	l := e.toLin(idx)
	var co int64
	for _, x := range l.ts {
		if x.t == li.kappa {
			co = x.coef
		}
	}
	if co != 1 && co != -1 {
		return nil
	}
	off := e.sub(idx, e.scale(li.kappa, co))
	if e.mentions(off, li.kappa) || e.mentionsLoop(li, off) {
		return nil
	}
	// filled(init, n, body): after n iterations
	beta := e.sub(idx, e.num(0))
	_ = beta
	// element at position p was written in iteration (p-off)*co
	t := e.comp("fillc", li.kappa, li.kappa, idx, v)
	r := e.mk("fill", "", nil, lv.init, t)
	return e.normFill(r)
}

// normFill turns a completely filled array into a list.
func (e *Eng) normFill(t *Term) *Term {
	init, c := t.args[0], t.args[1]
	n := c.args[0]
	if e.lenOf(init) != n {
		return t
	}
	b := e.boundOf(c)
	idx, v := c.args[1], c.args[2]
	if idx == b {
		r := e.mk("comp", c.k, nil, n, v)
		r.aux = b
		return e.list(e.normSegs([]*Term{r})...)
	}
	if e.add(idx, b) == e.addc(n, -1) {
		// descending
		nv := e.substOne(v, b, e.sub(e.addc(n, -1), b))
		r := e.mk("comp", c.k, nil, n, nv)
		r.aux = b
		return e.list(e.normSegs([]*Term{r})...)
	}
	return t
}

// countedTrip: gate "kappa has reached N"
func (e *Eng) countedTrip(li *LoopInst, pc B) *Term {
	return e.countedTrip1(li, pc, li.entryPc, 6)
}

func (e *Eng) countedTrip1(li *LoopInst, pc, entry B, depth int) *Term {
	g := e.restrictTh(pc, entry)
	n := e.bdd.nodes[g]
	if g > True && depth > 0 {
		for _, v := range e.bdd.Support(g) {
			at := e.atoms[v]
			if e.mentions(at, li.kappa) || e.mentionsLoop(li, at) {
				continue
			}
			var gs []gv
			for _, val := range []bool{true, false} {
				c := e.bdd.Var(v)
				if !val {
					c = e.bdd.Not(c)
				}
				en := e.bdd.And(entry, c)
				if !e.sat(en) {
					continue
				}
				t := e.countedTrip1(li, pc, en, depth-1)
				if t == nil {
					return nil
				}
				gs = append(gs, gv{c, t})
			}
			return e.phi(gs)
		}
	}
	if g <= True || !(n.lo == True && n.hi == False || n.lo == False && n.hi == True) {
		return nil
	}
	at := e.atoms[n.v]
	if at.op != "le0" && at.op != "eq0" {
		return nil
	}
	pos := n.hi == True
	l := e.toLin(at.args[0])
	if at.op == "le0" && !pos {
		// not(l<=0): 1-l<=0
		l = linScale(l, -1)
		l.c++
	}
	if at.op == "eq0" {
		if !pos {
			return nil
		}
		// kappa == N
		for _, x := range l.ts {
			if x.t == li.kappa && x.coef > 0 {
				l = linScale(l, -1)
				break
			}
		}
	}
	var co int64
	for _, x := range l.ts {
		if x.t == li.kappa {
			co = x.coef
		} else if e.mentions(x.t, li.kappa) {
			return nil
		}
	}
	if co != -1 {
		return nil
	}
	N := e.fromLin(linAdd(l, Lin{ts: []linT{{li.kappa, 1}}}, 1)) // l + kappa
	if e.mentionsLoop(li, N) {
		return nil
	}
	if at.op == "eq0" {
		// needs N >= 0
		if e.sat(e.bdd.And(entry, e.le0(e.addc(N, 1)))) {
			return nil
		}
		return N
	}
	if e.sat(e.bdd.And(entry, e.le0(e.addc(N, 1)))) {
		// N may be negative: then the loop ends at once
		neg := e.le0(N)
		return e.iteTerm(neg, e.num(0), N)
	}
	return N
}

// repStr is the concatenation of body for kappa = 0..n-1.
func (e *Eng) repStr(n, kappa, body *Term) *Term {
	t := e.comp("rep", n, kappa, body)
	t.typ = types.Typ[types.String]
	return e.normRep(t)
}

// normRep peels the first iteration off if it differs from the others.
func (e *Eng) normRep(t *Term) *Term {
	n, b := t.args[0], t.args[1]
	if v, ok := n.isNum(); ok {
		if v <= 0 {
			return e.str("")
		}
		if v <= 16 {
			r := e.str("")
			for i := int64(0); i < v; i++ {
				r = e.cat(r, e.instBound(t, b, e.num(i)))
			}
			return r
		}
	}
	if n.op == "kappa" {
		return t
	}
	if b.op == "str" && b.k == "" {
		return b
	}
	if n.op == "phi" {
		return e.lift(n, func(n *Term) *Term {
			r := e.mk("rep", t.k, t.typ, n, b)
			r.aux = t.aux
			return e.normRep(r)
		})
	}
	beta := e.boundOf(t)
	first := e.le0(beta)
	fv := e.bdd.nodes[first].v
	hit := false
	e.anyAtom(b, map[*Term]bool{}, func(v int) {
		if int32(v) == fv {
			hit = true
		}
	})
	if !hit {
		return t
	}
	b0 := e.substOne(b, beta, e.num(0))
	b1 := e.substOne(b, beta, e.addc(beta, 1))
	r := e.mk("rep", t.k, t.typ, e.addc(n, -1), b1)
	r.aux = t.aux
	return e.iteTerm(e.le0(n), e.str(""), e.cat(b0, e.normRep(r)))
}

func (e *Eng) anyAtom(t *Term, seen map[*Term]bool, f func(int)) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.b > True {
		for _, v := range e.bdd.Support(t.b) {
			f(v)
		}
	}
	for _, g := range t.bs {
		for _, v := range e.bdd.Support(g) {
			f(v)
		}
	}
	for _, a := range t.args {
		e.anyAtom(a, seen, f)
	}
}
