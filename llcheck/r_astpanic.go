package main

import "go/types"

func init() {
	reg("C38", "reachability of panicking instructions under path conditions", checkC38)
}

// ---- C38: ToAST does not panic on a tree that belongs to the text.

func checkC38(c *Check) {
	fn := c.P.method("pkg/bnf/fromcst", "BNFCSTtoASTBindings", "ToAST")
	r := c.run(fn, "ToAST")
	if r == nil {
		return
	}
	e := r.e
	if len(r.args) != 3 {
		c.fail("panic", where(e, fn), "ToAST takes bindings, a tree and its text", "other parameters")
		return
	}
	root := r.args[1]
	e.nonnil[root] = true
	n := e.lenOf(r.args[2])
	m := e.bdd
	// facts: nodes lie within the text (C07); positions found by a search
	facts := func(f B) B {
		seen := map[*Term]bool{}
		res := True
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.op == "call" {
				switch t.k {
				case "invoke.Pos", "invoke.End":
					x := t.args[0]
					p := e.mk("call", "invoke.Pos", types.Typ[types.Int], x)
					q := e.mk("call", "invoke.End", types.Typ[types.Int], x)
					res = m.AndN(res, e.le0(e.scale(p, -1)), e.le0(e.sub(p, q)), e.le0(e.sub(q, n)))
				case "sort.SearchInts", "sort.SearchStrings":
					res = m.AndN(res, e.le0(e.scale(t, -1)), e.le0(e.sub(t, e.lenOf(t.args[0]))))
				}
			}
			e.eachChild(t, walk)
		}
		for _, v := range e.supportClosure(f) {
			walk(e.atoms[v])
		}
		return res
	}
	ops := map[string]int{}
	for _, ev := range e.events {
		switch {
		case panicKind(ev.kind):
			ops[ev.kind]++
			at := e.evPos(ev)
			what := "unreachable: " + ev.kind + " " + ev.what
			if ev.kind == "nilderef" && len(ev.args) > 0 && ev.args[0] == root {
				continue // the tree is not nil
			}
			f := m.And(ev.pc, facts(ev.pc))
			if !e.sat(f) || e.refute(f) {
				c.ob("panic", at, what, true, "")
				continue
			}
			c.ob("panic", at, what, false, "possible: "+e.why(f))
		case ev.kind == "unsupported" || ev.kind == "call-unknown":
			c.never(e, "panic", e.evPos(ev), "ToAST uses known operations only: "+ev.what, ev.pc)
		}
	}
	c.note["panic_sites_by_kind"] = ops
	c.imp(e, "panic", where(e, fn), "ToAST always returns", True, r.res.pc)
}
