package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Discharging quantified conditions. refute shows that a condition cannot
// hold: known literals are collected, what they say about an element of a list
// is applied to the elements the condition mentions, equalities are applied by
// substitution, integer comparisons are combined, and cases are split.

type prover struct {
	e     *Eng
	nodes int
	max   int
	left  B // a case that could not be excluded
	found bool
	lcube map[int]bool
}

var dbgProve = envOr("LLPROVE", "") != ""
var dbgWhat string
var dbgTrace = envOr("LLTRACE", "") != ""

// deps is a set of case splits: what a condition was concluded from.
type deps [2]uint64

func (d deps) or(o deps) deps { return deps{d[0] | o[0], d[1] | o[1]} }
func level(n int) deps {
	var d deps
	d[n>>6&1] = 1 << (n & 63)
	return d
}
func (d deps) has(n int) bool { return d[n>>6&1]>>(n&63)&1 == 1 }
func (d deps) without(n int) deps {
	d[n>>6&1] &^= 1 << (n & 63)
	return d
}

func newNode(fs ...B) *pnode {
	return &pnode{cube: map[int]bool{}, cdep: map[int]deps{}, fs: fs, fdep: make([]deps, len(fs)), exs: map[*Term]bool{}, insts: map[[2]*Term]bool{}, tried: map[int]bool{}}
}

type pnode struct {
	cube  map[int]bool
	cdep  map[int]deps
	fs    []B // what is left of each condition; all of them hold
	fdep  []deps
	bad   bool
	bdep  deps // the cases the contradiction depends on
	sdep  map[*Term]deps
	exs   map[*Term]bool
	insts map[[2]*Term]bool
	tried map[int]bool
	sub   map[*Term]*Term // equalities applied so far
	memo  map[*Term]*Term
	depth int
	lim   int  // elements found by that many steps at most are looked at
	more  bool // there are others
	least []leastFact
}

// leastFact: an element that has been found in a range was the first one.
type leastFact struct {
	f B
	d deps
}

func (n *pnode) clone() *pnode {
	r := &pnode{cube: map[int]bool{}, cdep: map[int]deps{}, fs: append([]B{}, n.fs...), fdep: append([]deps{}, n.fdep...), bad: n.bad, bdep: n.bdep, sdep: n.sdep, exs: map[*Term]bool{}, insts: map[[2]*Term]bool{}, tried: map[int]bool{}, depth: n.depth + 1, sub: n.sub, memo: n.memo, lim: n.lim, more: n.more, least: append([]leastFact{}, n.least...)}
	for k, v := range n.cube {
		r.cube[k] = v
		r.cdep[k] = n.cdep[k]
	}
	for k, v := range n.exs {
		r.exs[k] = v
	}
	for k, v := range n.insts {
		r.insts[k] = v
	}
	for k, v := range n.tried {
		r.tried[k] = v
	}
	return r
}

// refute reports whether f cannot hold.
func (e *Eng) refute(f B) bool { ok, _ := e.refuteWhy(f); return ok }

func (e *Eng) refuteWhy(f B) (bool, string) {
	if f == False {
		return true, ""
	}
	if r, ok := e.refMemo[f]; ok {
		return r == "", r
	}
	if e.refMemo == nil {
		e.refMemo = map[B]string{}
	}
	ok := false
	var p *prover
	start := func(f B, max int) bool {
		p = &prover{e: e, max: max}
		return p.run(newNode(f))
	}
	grown, terms := len(e.bdd.nodes), len(e.termList)
	max, room := 3000, 6000000
	if e.short {
		max, room = 300, 500000
	}
	// a condition that grows far beyond what a proof takes is given up
	had := e.bdd.limit
	e.bdd.limit = len(e.bdd.nodes) + room
	big := false
	if a := tryAbort(func() { ok = start(f, max) }); a != nil {
		big = true
		ok = false
	}
	e.bdd.limit = had
	burnt()
	total := p.nodes
	why := ""
	if !ok {
		if why = "not decided"; !big && p.found {
			why = "possible: " + e.why(p.left)
		}
	}
	if ok || !e.short {
		e.refMemo[f] = why
	}
	if dbgProve {
		e.names = map[*Term]string{}
		fmt.Println("REFUTE", ok, "nodes", total, "grown", len(e.bdd.nodes)-grown, "terms", len(e.termList)-terms, dbgWhat)
		if !ok && p.found {
			for _, v := range p.order(p.lcube) {
				if p.lcube[v] {
					e.pl("   +", e.ts(e.atoms[v]))
				} else {
					e.pl("   -", e.ts(e.atoms[v]))
				}
			}
		}
		e.names = nil
	}
	return ok, why
}

// rangeFacts takes the facts that nothing in a range is so out of a condition.
// Small ones come first.
func (e *Eng) rangeFacts(f B) ([]int, B) {
	var r []int
	for _, v := range e.bdd.Support(f) {
		if e.atoms[v].op == "ex" && e.bdd.Cofactor(f, v, true) == False {
			r = append(r, v)
		}
	}
	size := map[int]int{}
	for _, v := range r {
		size[v] = e.termSize(e.atoms[v])
		f = e.bdd.Cofactor(f, v, false)
	}
	sort.Slice(r, func(i, j int) bool {
		if size[r[i]] != size[r[j]] {
			return size[r[i]] < size[r[j]]
		}
		return r[i] < r[j]
	})
	return r, f
}

// termSize counts the terms something is made of.
func (e *Eng) termSize(t *Term) int {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		e.eachChild(t, walk)
	}
	walk(t)
	return len(seen)
}

// assume adds a condition to the node.
func (p *prover) assume(n *pnode, f B, d deps) {
	e := p.e
	for i := 0; i < 4 && len(n.sub) > 0 && f > True; i++ {
		g := e.substB(f, n.sub, n.memo)
		if g == f {
			break
		}
		for x, sd := range n.sdep {
			if d.or(sd) != d && e.mentionsB(f, x) {
				d = d.or(sd)
			}
		}
		f = g
	}
	for _, v := range e.bdd.Support(f) {
		if pol, ok := n.cube[v]; ok {
			f = e.bdd.Cofactor(f, v, pol)
			d = d.or(n.cdep[v])
		}
	}
	switch f {
	case True:
	case False:
		n.fail(d)
	default:
		n.fs = append(n.fs, f)
		n.fdep = append(n.fdep, d)
	}
}

func (n *pnode) fail(d deps) {
	if !n.bad {
		n.bad, n.bdep = true, d
	}
}

// support lists what the remaining conditions are about.
func (p *prover) support(n *pnode) []int {
	seen := map[int]bool{}
	for _, f := range n.fs {
		for _, v := range p.e.bdd.Support(f) {
			seen[v] = true
		}
	}
	return p.order(seen)
}

func (p *prover) lit(v int, pol bool) B {
	if pol {
		return p.e.bdd.Var(v)
	}
	return p.e.bdd.Not(p.e.bdd.Var(v))
}

// units moves forced literals into the cube. It reports a contradiction.
func (p *prover) units(n *pnode) bool {
	e := p.e
	for {
		if n.bad {
			return true
		}
		var found []int
		for i, f := range n.fs {
			for _, v := range e.bdd.Support(f) {
				pol := false
				if e.bdd.Cofactor(f, v, false) == False {
					pol = true
				} else if e.bdd.Cofactor(f, v, true) != False {
					continue
				}
				if o, ok := n.cube[v]; !ok {
					n.cube[v] = pol
					n.cdep[v] = n.fdep[i]
					found = append(found, v)
				} else if o != pol {
					n.fail(n.cdep[v].or(n.fdep[i]))
					return true
				}
			}
		}
		if len(found) == 0 {
			return false
		}
		var fs []B
		var fd []deps
		for i, f := range n.fs {
			d := n.fdep[i]
			for _, v := range found {
				g := e.bdd.Cofactor(f, v, n.cube[v])
				if g != f {
					d = d.or(n.cdep[v])
				}
				f = g
			}
			if f == False {
				n.fail(d)
				return true
			}
			if f != True {
				fs = append(fs, f)
				fd = append(fd, d)
			}
		}
		n.fs, n.fdep = fs, fd
		sup := p.support(n)
		for _, v := range found {
			if a, ok := e.attached[v]; ok {
				p.assume(n, a, deps{})
			}
			for _, w := range sup {
				if ax := p.pair(v, w); ax != True {
					p.assume(n, ax, deps{})
				}
			}
			for _, w := range p.order(n.cube) {
				if w != v {
					if ax := p.pair(v, w); ax != True {
						p.assume(n, ax, deps{})
					}
				}
			}
			if n.bad {
				return true
			}
		}
	}
}

func (p *prover) pair(v, w int) B {
	if v == w {
		return True
	}
	if v > w {
		v, w = w, v
	}
	return p.e.axiom2(v, w)
}

func (p *prover) run(n *pnode) bool {
	e := p.e
	p.nodes++
	if p.nodes > p.max || n.depth > 120 {
		return false
	}
	for round := 0; round < 60; round++ {
		if p.units(n) {
			return true
		}
		// integer comparisons
		if r := p.linear(n); r == 1 {
			return true
		} else if r == 2 {
			continue
		}
		if p.equate(n) {
			continue
		}
		if p.worlds(n) {
			continue
		}
		if p.instances(n) {
			continue
		}
		break
	}
	if len(n.fs) == 0 {
		// a consistent case
		if p.extra(n) {
			return p.run(n)
		}
		p.found = true
		p.left, p.lcube = p.cubeB(n), n.cube
		return false
	}
	v := p.pick(n)
	if dbgTrace {
		fmt.Printf("%d split %d: %s\n", p.nodes, n.depth, e.show(e.atoms[v]))
	}
	all := deps{}
	for _, pol := range []bool{true, false} {
		m := n.clone()
		m.fs = append(m.fs, p.lit(v, pol))
		m.fdep = append(m.fdep, level(n.depth))
		if !p.run(m) {
			return false
		}
		if !m.bdep.has(n.depth) {
			// the other case fails for the same reason
			n.fail(m.bdep)
			return true
		}
		all = all.or(m.bdep.without(n.depth))
	}
	n.fail(all)
	return true
}

func (p *prover) cubeB(n *pnode) B {
	r := True
	for _, v := range p.order(n.cube) {
		r = p.e.bdd.And(r, p.lit(v, n.cube[v]))
	}
	return r
}

func (p *prover) order(m map[int]bool) []int {
	var vs []int
	for v := range m {
		vs = append(vs, v)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(vs)))
	return vs
}

// pick chooses the condition to split on: one of the smallest formula, and
// the one that leaves least of it.
func (p *prover) pick(n *pnode) int {
	e := p.e
	bf, bs := B(0), 1<<30
	for _, f := range n.fs {
		if s := e.bdd.size(f); s <= bs {
			bf, bs = f, s
		}
	}
	best, bc := -1, 1<<30
	for _, v := range e.bdd.Support(bf) {
		c := e.bdd.size(e.bdd.Cofactor(bf, v, true)) + e.bdd.size(e.bdd.Cofactor(bf, v, false))
		if c < bc {
			best, bc = v, c
		}
	}
	return best
}

// equate applies an equality by substitution.
func (p *prover) equate(n *pnode) bool {
	e := p.e
	for _, v := range p.order(n.cube) {
		if !n.cube[v] {
			continue
		}
		at := e.atoms[v]
		var from, to *Term
		switch at.op {
		case "le0":
			// a sum that is never negative
			l := e.toLin(at.args[0])
			ok := l.c == 0
			for _, x := range l.ts {
				ok = ok && x.coef > 0 && e.nonnegAtom(x.t)
			}
			if ok {
				from, to = l.ts[0].t, e.num(0)
			}
		case "eq0":
			l := e.toLin(at.args[0])
			for _, x := range l.ts {
				if x.coef != 1 && x.coef != -1 {
					continue
				}
				rest := e.fromLin(linScale(linAdd(l, Lin{ts: []linT{x}}, -1), -x.coef))
				if e.mentions(rest, x.t) {
					continue
				}
				if from == nil || better(x.t, from) {
					from, to = x.t, rest
				}
			}
		case "eq":
			a, b := at.args[0], at.args[1]
			switch {
			case e.mentions(b, a) && e.mentions(a, b):
			case e.mentions(a, b), isConstT(b):
				from, to = a, b
				if e.mentions(a, b) {
					from, to = b, a
					if e.mentions(to, from) {
						from = nil
					}
				}
			case e.mentions(b, a), isConstT(a):
				if e.mentions(b, a) {
					from = nil
				} else {
					from, to = b, a
				}
			case a.id > b.id:
				from, to = a, b
			default:
				from, to = b, a
			}
		}
		if from == nil {
			continue
		}
		p.substNode(n, from, to, n.cdep[v])
		return true
	}
	return false
}

func isConstT(t *Term) bool {
	_, ok := t.isNum()
	return ok || t.op == "str" || t.op == "const" || t.op == "nil"
}

// better: a symbol invented on the way goes first, then the younger term
func better(a, b *Term) bool {
	sa, sb := strings.HasPrefix(a.k, "sk"), strings.HasPrefix(b.k, "sk")
	if sa != sb {
		return sa
	}
	if (a.op == "sym") != (b.op == "sym") {
		return a.op == "sym"
	}
	return a.id > b.id
}

func (p *prover) substNode(n *pnode, from, to *Term, dep deps) {
	e := p.e
	m := map[*Term]*Term{from: to}
	memo := map[*Term]*Term{}
	sub := map[*Term]*Term{from: to}
	sdep := map[*Term]deps{from: dep}
	fresh := []*Term{from}
	type dB struct {
		f B
		d deps
	}
	var add []dB
	var keys []*Term
	for x := range n.sub {
		keys = append(keys, x)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	for _, k := range keys {
		x, y := e.subst(k, m, memo), e.subst(n.sub[k], m, memo)
		if x == y {
			continue
		}
		d := n.sdep[k]
		if x != k || y != n.sub[k] {
			d = d.or(dep)
		}
		if z, ok := sub[x]; ok && z != y || isConstT(x) || e.mentions(y, x) {
			if ok {
				add = append(add, dB{e.eqElem(z, y), d.or(sdep[x])})
			} else {
				add = append(add, dB{e.eqElem(x, y), d})
			}
			continue
		}
		if _, ok := sub[x]; !ok {
			sdep[x] = d
		}
		sub[x] = y
		if x != k {
			fresh = append(fresh, x)
		}
	}
	n.sub, n.sdep, n.memo = sub, sdep, map[*Term]*Term{}
	old, oldD := n.fs, n.fdep
	n.fs, n.fdep = nil, nil
	for _, v := range p.order(n.cube) {
		at, hit := e.atoms[v], false
		for _, x := range fresh {
			hit = hit || e.mentions(at, x)
		}
		if !hit {
			continue
		}
		add = append(add, dB{p.lit(v, n.cube[v]), n.cdep[v]})
		delete(n.cube, v)
		delete(n.cdep, v)
	}
	for x := range n.exs {
		if e.mentions(x, from) {
			b := e.substB(e.atomVar(x), m, memo)
			if sup := e.bdd.Support(b); len(sup) == 1 && e.atoms[sup[0]].op == "ex" {
				n.exs[e.atoms[sup[0]]] = true
			}
		}
	}
	for _, x := range add {
		p.assume(n, x.f, x.d)
	}
	for i, g := range old {
		p.assume(n, g, oldD[i])
	}
	// pairs among the remaining and the new literals are looked at again
	for v, pol := range n.cube {
		for w, pol2 := range n.cube {
			if v < w {
				ax := p.pair(v, w)
				if ax != True && e.bdd.AndN(ax, p.lit(v, pol), p.lit(w, pol2)) == False {
					n.fail(n.cdep[v].or(n.cdep[w]))
				}
			}
		}
	}
}

// worlds: what types a value can have
func (p *prover) worlds(n *pnode) bool {
	e := p.e
	seen := map[*Term]bool{}
	ch := false
	do := func(v int) {
		at := e.atoms[v]
		if at.op != "is" || seen[at.args[0]] {
			return
		}
		seen[at.args[0]] = true
		if at.args[0].typ == nil || n.insts[[2]*Term{at.args[0], nil}] {
			return
		}
		n.insts[[2]*Term{at.args[0], nil}] = true
		if impls := e.closed(at.args[0].typ); impls != nil {
			c := e.isNil(at.args[0])
			for _, T := range impls {
				c = e.bdd.Or(c, e.isType(at.args[0], T))
			}
			p.assume(n, c, deps{})
			ch = true
		}
	}
	for _, v := range p.order(n.cube) {
		do(v)
	}
	return ch
}

// ---- elements of ranges

type pattern struct {
	op   string
	L    *Term
	coef int64
	off  *Term // index = coef*beta + off
}

func (p *prover) patterns(ex *Term) []pattern {
	e := p.e
	if r, ok := e.patMemo[ex]; ok {
		return r
	}
	if e.patMemo == nil {
		e.patMemo = map[*Term][]pattern{}
	}
	xi := e.sym("ξpat", types.Typ[types.Int])
	body := e.instBound(ex, ex.args[1], xi)
	var r []pattern
	seen := map[*Term]bool{}
	bound := map[*Term]int{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !e.mentions(t, xi) {
			return
		}
		if seen[t] {
			return
		}
		seen[t] = true
		if (t.op == "index" || t.op == "mapkey") && !e.mentions(t.args[0], xi) && !p.hasBound(t) {
			l := e.toLin(t.args[1])
			for _, x := range l.ts {
				if x.t == xi && (x.coef == 1 || x.coef == -1) {
					off := e.fromLin(linAdd(l, Lin{ts: []linT{x}}, -1))
					if !e.mentions(off, xi) {
						q := pattern{t.op, t.args[0], x.coef, off}
						dup := false
						for _, o := range r {
							if o == q {
								dup = true
							}
						}
						if !dup {
							r = append(r, q)
						}
					}
				}
			}
		}
		e.eachChild(t, walk)
	}
	_ = bound
	walk(body)
	e.patMemo[ex] = r
	return r
}

// hasBound: a symbol bound further out is mentioned
func (p *prover) hasBound(t *Term) bool {
	e := p.e
	if r, ok := e.hbMemo[t]; ok {
		return r
	}
	if e.hbMemo == nil {
		e.hbMemo = map[*Term]bool{}
	}
	e.hbMemo[t] = false
	r := t.op == "sym" && strings.HasPrefix(t.k, "β")
	if !r {
		if isBinder(t) {
			b := t.aux.(*Term)
			xi := e.sym("ξhb", types.Typ[types.Int])
			r = p.hasBound(t.args[0])
			for _, a := range t.args[1:] {
				if !r && p.hasBound(e.substOne(a, b, xi)) {
					r = true
				}
			}
		} else {
			e.eachChild(t, func(c *Term) {
				if !r && p.hasBound(c) {
					r = true
				}
			})
		}
	}
	e.hbMemo[t] = r
	return r
}

// ground lists the index terms a condition mentions outside of ranges.
func (e *Eng) ground(p *prover, t *Term) []*Term {
	if r, ok := e.grMemo[t]; ok {
		return r
	}
	if e.grMemo == nil {
		e.grMemo = map[*Term][]*Term{}
	}
	e.grMemo[t] = nil
	var r []*Term
	seen := map[*Term]bool{}
	add := func(x *Term) {
		if !seen[x] {
			seen[x] = true
			r = append(r, x)
		}
	}
	if (t.op == "index" || t.op == "mapkey") && !p.hasBound(t) {
		add(t)
	}
	e.eachChild(t, func(c *Term) {
		for _, x := range e.ground(p, c) {
			add(x)
		}
	})
	e.grMemo[t] = r
	return r
}

func (p *prover) instances(n *pnode) bool {
	e := p.e
	ch := false
	var gts []*Term
	gseen := map[*Term]bool{}
	collect := func(v int) {
		for _, g := range e.ground(p, e.atoms[v]) {
			if !gseen[g] {
				gseen[g] = true
				gts = append(gts, g)
			}
		}
	}
	vs := p.order(n.cube)
	for _, v := range vs {
		collect(v)
	}
	for _, v := range p.support(n) {
		collect(v)
	}
	// what has been replaced is known all the same
	var gone []*Term
	for x := range n.sub {
		gone = append(gone, x)
	}
	sort.Slice(gone, func(i, j int) bool { return gone[i].id < gone[j].id })
	for _, x := range gone {
		for _, g := range e.ground(p, x) {
			if !gseen[g] {
				gseen[g] = true
				gts = append(gts, g)
			}
		}
	}
	if p.lookups(n, vs, gone, gts) {
		return true
	}
	// the first one in a range
	sup := map[int]bool{}
	for _, v := range p.support(n) {
		sup[v] = true
	}
	var rest []leastFact
	for _, l := range n.least {
		f, used := l.f, false
		if len(n.sub) > 0 {
			f = e.substB(l.f, n.sub, n.memo)
		}
		for _, v := range e.bdd.Support(f) {
			if _, ok := n.cube[v]; ok || sup[v] {
				used = true
			}
		}
		if used || f == False {
			p.assume(n, l.f, l.d)
			ch = true
		} else {
			rest = append(rest, l)
		}
	}
	n.least = rest
	if ch {
		return true
	}
	// something in the range
	for _, v := range vs {
		at := e.atoms[v]
		if at.op != "ex" || p.hasBound(at) || !n.cube[v] || n.exs[at] {
			continue
		}
		n.exs[at] = true
		if dbgTrace {
			fmt.Printf("%d sk%d: %s\n", p.nodes, at.id, e.show(at))
		}
		sk := e.sym(fmt.Sprintf("sk%d", at.id), types.Typ[types.Int])
		e.nonneg[sk] = true
		if e.skDepths == nil {
			e.skDepths = map[*Term]int{}
		}
		e.skDepths[sk] = p.skDepth(at) + 1
		p.assume(n, e.bdd.And(e.inRange(sk, at.args[0]), e.exBody(at, sk)), n.cdep[v])
		n.least = append(n.least, leastFact{e.bdd.Not(e.mkExFresh(sk, func(b *Term) B { return e.exBody(at, b) })), n.cdep[v]})
		ch = true
	}
	if ch {
		return true
	}
	// nothing in the range
	for _, v := range vs {
		at := e.atoms[v]
		if at.op != "ex" || p.hasBound(at) || n.cube[v] {
			continue
		}
		for _, pt := range p.patterns(at) {
			for _, g := range gts {
				if g.op != pt.op || g.args[0] != pt.L {
					continue
				}
				i := e.scale(e.sub(g.args[1], pt.off), pt.coef)
				k := [2]*Term{at, i}
				if n.insts[k] {
					continue
				}
				if p.skDepth(i) > n.lim+1 {
					n.more = true
					continue
				}
				n.insts[k] = true
				f := e.bdd.Not(e.bdd.And(e.inRange(i, at.args[0]), e.exBody(at, i)))
				if f != True {
					if dbgTrace {
						fmt.Printf("%d inst %s of %s\n", p.nodes, e.show(i), e.show(at))
					}
					p.assume(n, f, n.cdep[v])
					ch = true
				}
				if n.bad {
					return true
				}
			}
		}
	}
	return ch
}

// mgets lists the map lookups a condition makes outside of ranges.
func (p *prover) mgets(t *Term) []*Term {
	e := p.e
	if r, ok := e.mgMemo[t]; ok {
		return r
	}
	if e.mgMemo == nil {
		e.mgMemo = map[*Term][]*Term{}
	}
	e.mgMemo[t] = nil
	var r []*Term
	seen := map[*Term]bool{}
	add := func(x *Term) {
		if !seen[x] {
			seen[x] = true
			r = append(r, x)
		}
	}
	if t.op == "mget" && e.positions(t.args[0]) != nil && !p.hasBound(t) {
		add(t)
	}
	e.eachChild(t, func(c *Term) {
		for _, x := range p.mgets(c) {
			add(x)
		}
	})
	e.mgMemo[t] = r
	return r
}

// positions: a map that gives the (last) position of a key in a list
func (e *Eng) positions(m *Term) *Term {
	if m.op == "mapadd" && m.args[0].op == "mapempty" && m.args[1].op == "mapcomp" && m.args[1].args[2] == m.args[1].aux.(*Term) {
		return m.args[1]
	}
	return nil
}

// lookups: a key that is known to stand at a position of the list is found,
// there or later.
func (p *prover) lookups(n *pnode, vs []int, gone, gts []*Term) bool {
	e := p.e
	ch := false
	seen := map[*Term]bool{}
	look := func(t *Term) {
		for _, g := range p.mgets(t) {
			if seen[g] {
				continue
			}
			seen[g] = true
			c := e.positions(g.args[0])
			for _, x := range gts {
				k := [2]*Term{g, x}
				if x.op != "index" || n.insts[k] {
					continue
				}
				key := e.instBound(c, c.args[1], x.args[1])
				if !e.mentions(key, x) {
					continue
				}
				q := key
				if len(n.sub) > 0 {
					q = e.subst(q, n.sub, n.memo)
				}
				if q != g.args[1] {
					continue
				}
				n.insts[k] = true
				i := x.args[1]
				f := e.bdd.AndN(e.inRange(g, c.args[0]), e.le0(e.sub(i, g)), e.eqElem(e.instBound(c, c.args[1], g), key))
				f = e.bdd.Imp(e.bdd.And(e.inRange(i, c.args[0]), e.eqElem(key, g.args[1])), f)
				if f != True {
					p.assume(n, f, deps{})
					ch = true
				}
			}
		}
	}
	for _, v := range vs {
		look(e.atoms[v])
	}
	for _, x := range gone {
		look(x)
	}
	return ch
}

// skDepth: how many elements had to be found before a term could be written
func (p *prover) skDepth(t *Term) int {
	d := 0
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if k := p.e.skDepths[t]; k > d {
			d = k
		}
		p.e.eachChild(t, walk)
	}
	walk(t)
	return d
}

func (e *Eng) inRange(i, n *Term) B {
	return e.bdd.And(e.le0(e.scale(i, -1)), e.le0(e.addc(e.sub(i, n), 1)))
}

// extra adds facts that are only needed now and then: what a table lookup
// gives, and that two indexes may be the same.
func (p *prover) extra(n *pnode) bool {
	e := p.e
	ch := false
	if n.more && n.lim < 3 {
		n.lim++
		n.more = false
		return true
	}
	gets := map[*Term]bool{}
	var idx []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "mget" && !p.hasBound(t) {
			gets[t] = true
		}
		e.eachChild(t, walk)
	}
	for v := range n.cube {
		walk(e.atoms[v])
		for _, g := range e.ground(p, e.atoms[v]) {
			idx = append(idx, g)
		}
	}
	// what has been replaced is known all the same
	for x := range n.sub {
		walk(x)
	}
	var gs []*Term
	for g := range gets {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].id < gs[j].id })
	for _, g := range gs {
		k := [2]*Term{g, g}
		if n.insts[k] {
			continue
		}
		n.insts[k] = true
		m := g.args[0]
		if m.op == "mapadd" && m.args[0].op == "mapempty" && m.args[1].op == "mapcomp" && m.args[1].args[2] == m.args[1].aux.(*Term) {
			c := m.args[1]
			f := e.bdd.And(e.inRange(g, c.args[0]), e.eqTerms(e.instBound(c, c.args[1], g), g.args[1]))
			p.assume(n, e.bdd.Imp(e.mapHas(m, g.args[1]), f), deps{})
			ch = true
		}
	}
	if ch {
		return true
	}
	sort.Slice(idx, func(i, j int) bool { return idx[i].id < idx[j].id })
	for i, a := range idx {
		for _, b := range idx[:i] {
			if a == b || a.op != b.op || a.args[0] != b.args[0] {
				continue
			}
			q := e.eq0(e.sub(a.args[1], b.args[1]))
			sup := e.bdd.Support(q)
			if len(sup) != 1 {
				continue
			}
			if _, ok := n.cube[sup[0]]; ok || n.tried[sup[0]] {
				continue
			}
			n.tried[sup[0]] = true
			// a tautology that makes the case split happen
			m := n.clone()
			m.fs, m.fdep = []B{q}, []deps{level(n.depth)}
			if !p.run(m) {
				return false
			}
			p.assume(n, e.bdd.Not(q), m.bdep.without(n.depth))
			return true
		}
	}
	return false
}

// ---- integer comparisons

type dlin struct {
	Lin
	d deps
}

// linear: 1 contradiction, 2 something new, 0 nothing
func (p *prover) linear(n *pnode) int {
	e := p.e
	var cons []dlin
	var neq []dlin
	for _, v := range p.order(n.cube) {
		at := e.atoms[v]
		d := n.cdep[v]
		switch at.op {
		case "le0":
			l := e.toLin(at.args[0])
			if !n.cube[v] {
				l = linScale(l, -1)
				l.c++
			}
			cons = append(cons, dlin{l, d})
		case "eq0":
			l := e.toLin(at.args[0])
			if n.cube[v] {
				cons = append(cons, dlin{l, d}, dlin{linScale(l, -1), d})
			} else {
				neq = append(neq, dlin{l, d})
			}
		}
	}
	if len(cons) == 0 {
		return 0
	}
	if ok, d := p.fm(cons); ok {
		n.fail(d)
		return 1
	}
	with := func(l Lin, d deps) (bool, deps) { return p.fm(append(append([]dlin{}, cons...), dlin{l, d})) }
	up := func(l Lin) Lin { m := linScale(l, -1); m.c++; return m } // l > 0
	dn := func(l Lin) Lin { m := l; m.c++; return m }               // l < 0
	for _, l := range neq {
		u, ud := with(up(l.Lin), l.d)
		d, dd := with(dn(l.Lin), l.d)
		if u && d {
			n.fail(ud.or(dd).or(l.d))
			return 1
		}
		if u || d {
			c, cd := dn(l.Lin), ud.or(l.d)
			if d {
				c, cd = up(l.Lin), dd.or(l.d)
			}
			// l < 0 or l > 0 known from now on
			f := e.le0(e.fromLin(c))
			if sup := e.bdd.Support(f); len(sup) == 1 {
				if _, ok := n.cube[sup[0]]; !ok {
					p.assume(n, f, cd)
					return 2
				}
			} else if f == False {
				n.fail(cd)
				return 1
			}
		}
	}
	for _, l := range cons {
		// l <= 0 and never less: equal
		f := e.eq0(e.fromLin(l.Lin))
		if f == True {
			continue
		}
		if sup := e.bdd.Support(f); len(sup) == 1 {
			if _, ok := n.cube[sup[0]]; ok {
				continue
			}
		}
		for _, m := range cons {
			if s := linAdd(l.Lin, m.Lin, 1); len(s.ts) == 0 && s.c == 0 {
				p.assume(n, f, l.d.or(m.d))
				return 2
			}
		}
	}
	for _, v := range p.support(n) {
		at := e.atoms[v]
		switch at.op {
		case "le0":
			l := e.toLin(at.args[0])
			if ok, d := with(l, deps{}); ok {
				p.assume(n, p.lit(v, false), d)
				return 2
			}
			if ok, d := with(up(l), deps{}); ok {
				p.assume(n, p.lit(v, true), d)
				return 2
			}
		case "eq0":
			l := e.toLin(at.args[0])
			u, ud := with(up(l), deps{})
			d, dd := with(dn(l), deps{})
			if u && d {
				p.assume(n, p.lit(v, true), ud.or(dd))
				return 2
			}
			if ok, d := with(l, deps{}); ok {
				p.assume(n, p.lit(v, false), d)
				return 2
			}
			if ok, d := with(linScale(l, -1), deps{}); ok {
				p.assume(n, p.lit(v, false), d)
				return 2
			}
		}
	}
	return 0
}

// fm: the constraints l <= 0 cannot all hold
func (p *prover) fm(in []dlin) (bool, deps) {
	e := p.e
	terms := map[*Term]bool{}
	var cs []dlin
	for _, l := range in {
		cs = append(cs, l)
		for _, x := range l.ts {
			terms[x.t] = true
		}
	}
	var ts []*Term
	for t := range terms {
		ts = append(ts, t)
		if e.nonnegAtom(t) {
			cs = append(cs, dlin{Lin{ts: []linT{{t, -1}}}, deps{}})
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	coef := func(l dlin, t *Term) int64 {
		for _, x := range l.ts {
			if x.t == t {
				return x.coef
			}
		}
		return 0
	}
	for len(ts) > 0 {
		bi, bc := -1, 1<<30
		for i, t := range ts {
			var up, dn int
			for _, l := range cs {
				switch c := coef(l, t); {
				case c > 0:
					up++
				case c < 0:
					dn++
				}
			}
			if up*dn-up-dn < bc {
				bi, bc = i, up*dn-up-dn
			}
		}
		t := ts[bi]
		ts = append(append([]*Term{}, ts[:bi]...), ts[bi+1:]...)
		var keep, ups, dns []dlin
		for _, l := range cs {
			switch c := coef(l, t); {
			case c > 0:
				ups = append(ups, l)
			case c < 0:
				dns = append(dns, l)
			default:
				keep = append(keep, l)
			}
		}
		for _, u := range ups {
			for _, d := range dns {
				a, b := coef(u, t), -coef(d, t)
				r := dlin{tighten(linAdd(linScale(u.Lin, b), linScale(d.Lin, a), 1)), u.d.or(d.d)}
				if len(r.ts) == 0 {
					if r.c > 0 {
						return true, r.d
					}
					continue
				}
				keep = append(keep, r)
			}
		}
		if len(keep) > 400 {
			return false, deps{}
		}
		cs = dedupeLin(keep)
	}
	for _, l := range cs {
		if len(l.ts) == 0 && l.c > 0 {
			return true, l.d
		}
	}
	return false, deps{}
}

func dedupeLin(in []dlin) []dlin {
	best := map[string]int{}
	var out []dlin
	for _, l := range in {
		k := ""
		for _, x := range l.ts {
			k += fmt.Sprintf("%d*%d,", x.coef, x.t.id)
		}
		if i, ok := best[k]; ok {
			if l.c > out[i].c {
				out[i] = l
			}
			continue
		}
		best[k] = len(out)
		out = append(out, l)
	}
	return out
}

// tighten divides by the common factor; the terms are integers.
func tighten(l Lin) Lin {
	g := int64(0)
	for _, x := range l.ts {
		c := x.coef
		if c < 0 {
			c = -c
		}
		for c != 0 {
			g, c = c, g%c
		}
	}
	if g <= 1 {
		return l
	}
	r := Lin{}
	for _, x := range l.ts {
		r.ts = append(r.ts, linT{x.t, x.coef / g})
	}
	// sum <= -c/g rounded down
	q := -l.c
	d := q / g
	if q%g != 0 && q < 0 {
		d--
	}
	r.c = -d
	return r
}

// settled is a condition, or its constant value where the known facts about
// ranges leave it only one.
func (e *Eng) settled(pc, c B) B {
	hi, lo := e.bdd.And(pc, c), e.bdd.And(pc, e.bdd.Not(c))
	if !e.sat(hi) || !e.sat(lo) {
		return c
	}
	switch {
	case e.infeasible(lo):
		return True
	case e.infeasible(hi):
		return False
	}
	return c
}

// infeasible refutes a path condition by the facts about ranges that do not
// depend on what a round computes.
func (e *Eng) infeasible(f B) bool {
	if r, ok := e.infMemo[f]; ok {
		return r
	}
	if e.infMemo == nil {
		e.infMemo = map[B]bool{}
	}
	facts, rest := e.rangeFacts(f)
	g := rest
	n := 0
	for _, v := range facts {
		if e.mentionsStab(e.atoms[v]) || e.termSize(e.atoms[v]) > 120 {
			continue
		}
		n++
		g = e.bdd.And(g, e.bdd.Not(e.bdd.Var(v)))
	}
	r := false
	if n > 0 {
		for _, v := range e.bdd.Support(g) {
			if e.mentionsStab(e.atoms[v]) {
				g = e.bdd.Exists(g, v)
			}
		}
		p := &prover{e: e, max: 16}
		r = p.run(newNode(g))
		if dbgTrace {
			fmt.Println("feasible:", !r, p.nodes, n, e.bs(rest), "AFTER", e.bs(g))
		}
	}
	e.infMemo[f] = r
	return r
}

func (e *Eng) mentionsStab(t *Term) bool {
	if r, ok := e.stabMemo[t]; ok {
		return r
	}
	if e.stabMemo == nil {
		e.stabMemo = map[*Term]bool{}
	}
	r := isStab(t) || t.op == "mu"
	e.stabMemo[t] = r
	e.eachChild(t, func(c *Term) { r = r || e.mentionsStab(c) })
	e.stabMemo[t] = r
	return r
}
