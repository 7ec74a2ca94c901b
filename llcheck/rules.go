package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Obl is one proof obligation of a rule at one construct of the source.
type Obl struct {
	Rule   string `json:"rule"`
	What   string `json:"what"`
	Where  string `json:"where"`
	OK     bool   `json:"discharged"`
	Detail string `json:"detail,omitempty"`
	Key    string `json:"-"`
}

// Check collects the obligations of one property.
type Check struct {
	P    *Prog
	id   string
	obls []*Obl
	runs *runCache
	note map[string]any
	fns  map[string]bool
	nl   int
	ni   int
	seen map[*Eng]bool
}

type runCache struct {
	p *Prog
	m map[string]any
}

func cached[T any](c *Check, key string, f func() T) T {
	if v, ok := c.runs.m[key]; ok {
		return v.(T)
	}
	v := f()
	c.runs.m[key] = v
	return v
}

func (c *Check) ob(rule, where, what string, ok bool, detail string) bool {
	if ok {
		detail = ""
	}
	c.obls = append(c.obls, &Obl{Rule: rule, What: what, Where: where, OK: ok, Detail: detail})
	return ok
}

// need records a failed obligation when the analysis could not get as far
// as the rule.
func (c *Check) fail(rule, where, what, detail string) { c.ob(rule, where, what, false, detail) }

// imp: pc => cond
func (c *Check) imp(e *Eng, rule, where, what string, pc, cond B) bool {
	if e.implies(pc, cond) {
		return c.ob(rule, where, what, true, "")
	}
	return c.ob(rule, where, what, false, "possible: "+e.why(e.bdd.And(pc, e.bdd.Not(cond))))
}

// never: pc cannot hold
func (c *Check) never(e *Eng, rule, where, what string, pc B) bool {
	return c.imp(e, rule, where, what, pc, False)
}

func (c *Check) same(e *Eng, rule, where, what string, pc, f, g B) bool {
	if e.equivUnder(pc, f, g) {
		return c.ob(rule, where, what, true, "")
	}
	return c.ob(rule, where, what, false, "differs when: "+e.why(e.bdd.And(pc, e.bdd.Xor(f, g))))
}

// why prints a few ways in which a condition can hold.
func (e *Eng) why(f B) string {
	f2 := e.bdd.And(f, e.axioms(e.supportClosure(f)))
	n := e.names
	e.names = nil
	defer func() { e.names = n }()
	cs := e.bdd.Cubes(f2, 2)
	var out []string
	for _, cu := range cs {
		var ls []string
		for _, l := range cu {
			s := e.ts(e.atoms[l.v])
			if !l.pos {
				s = "¬" + s
			}
			ls = append(ls, clean(s))
			if len(ls) > 14 {
				ls = append(ls, "…")
				break
			}
		}
		out = append(out, strings.Join(ls, " ∧ "))
	}
	return trunc(strings.Join(out, "  ∨  "), 1500)
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// show prints a term for a diagnostic.
func (e *Eng) show(t *Term) string {
	n := e.names
	e.names = nil
	defer func() { e.names = n }()
	if t == nil {
		return "<none>"
	}
	return trunc(clean(e.ts(t)), 400)
}

func clean(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '@' || s[i] == '#' {
			j := i + 1
			for j < len(s) && (s[j] == '.' || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			i = j - 1
			continue
		}
		sb.WriteByte(s[i])
	}
	return sb.String()
}

// use notes an engine run as part of what the check analysed.
func (c *Check) use(e *Eng) {
	if c.seen[e] {
		return
	}
	c.seen[e] = true
	for f := range e.fnsSeen {
		c.fns[strings.TrimPrefix(f.RelString(nil), modPath+"/")] = true
	}
	c.nl += len(e.done)
	c.ni += e.instrs
}

type rule struct {
	technique string
	run       func(c *Check)
}

var rulesByID = map[string]rule{}

func reg(id, technique string, f func(c *Check)) { rulesByID[id] = rule{technique, f} }

// runCheck decides one property and writes its evidence. It returns the exit
// status.
func runCheck(p *Prog, loadErr error, id, verif string, rc *runCache) int {
	t0 := time.Now()
	c := &Check{P: p, id: id, runs: rc, note: map[string]any{}, fns: map[string]bool{}, seen: map[*Eng]bool{}}
	defer watch()()
	r, ok := rulesByID[id]
	if !ok {
		fmt.Println("unknown property", id)
		return 2
	}
	if loadErr != nil {
		c.fail("load", "/repo", "the packages of the module type-check and can be analysed", loadErr.Error())
	} else if msg := guard(func() { r.run(c) }); msg != "" {
		c.fail("analysis", "/repo", "the analysis of the property's code completes", msg)
	} else if len(c.obls) == 0 {
		c.fail("analysis", "/repo", "the rule finds code to analyse", "no obligation was generated")
	}
	known := loadKnown(filepath.Join(verif, "known_findings.txt"), id)
	var bad []*Obl
	for _, o := range c.obls {
		if o.OK {
			continue
		}
		if k, ok := known[o.Rule+" | "+o.What]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
			continue
		}
		bad = append(bad, o)
	}
	c.writeEvidence(verif, r, bad, t0)
	if len(bad) == 0 {
		fmt.Printf("ok property=%s obligations=%d functions=%d loops=%d instructions=%d wall=%.1fs\n", id, len(c.obls), len(c.fns), c.nl, c.ni, time.Since(t0).Seconds())
		return 0
	}
	for i, o := range bad {
		if i == 8 {
			fmt.Printf("… and %d more obligations\n", len(bad)-i)
			break
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, filepath.Join(verif, "evidence", id+".json"))
		fmt.Printf("  rule:  %s\n  where: %s\n  broken: %s\n", o.Rule, o.Where, o.What)
		if o.Detail != "" {
			fmt.Printf("  why:   %s\n", o.Detail)
		}
	}
	return 1
}

func loadKnown(file, id string) map[string]string {
	r := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=<id> <rule> | <what> | <description>
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: property="+id+" "), " | ", 3)
		if len(f) == 3 {
			r[f[0]+" | "+f[1]] = f[2]
		}
	}
	return r
}

func (c *Check) writeEvidence(verif string, r rule, bad []*Obl, t0 time.Time) {
	byRule := map[string][2]int{}
	var samples []*Obl
	var order []string
	ok := 0
	for _, o := range c.obls {
		x, seen := byRule[o.Rule]
		if !seen {
			order = append(order, o.Rule)
			samples = append(samples, o)
		}
		x[0]++
		if o.OK {
			x[1]++
			ok++
		}
		byRule[o.Rule] = x
	}
	rules := map[string]string{}
	for _, k := range order {
		rules[k] = fmt.Sprintf("%d of %d obligations discharged", byRule[k][1], byRule[k][0])
	}
	var fns []string
	for f := range c.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov := map[string]any{
		"explanation":           "Static analysis of the type-checked SSA form of /repo's current source (built with golang.org/x/tools/go/ssa on every run). " + r.technique + ". Each obligation below is one instance of a rule at one construct of the source; a violated obligation names the construct.",
		"obligations":           len(c.obls),
		"discharged":            ok,
		"rules":                 rules,
		"functions_analysed":    fns,
		"loops_summarised":      c.nl,
		"instructions_analysed": c.ni,
		"samples":               samples,
	}
	if len(bad) > 0 {
		cov["violated"] = bad
	}
	for k, v := range c.note {
		cov[k] = v
	}
	seed, _ := strconv.Atoi(envOr("VERIF_SEED", "1"))
	tier := envOr("VERIF_TIER", "quick")
	if tier != "thorough" {
		tier = "quick"
	}
	ev := map[string]any{"property": c.id, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": time.Since(t0).Seconds()}
	b, _ := json.MarshalIndent(ev, "", "  ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", c.id+".json"), append(b, '\n'), 0o644)
}

// ---- helpers shared by rules

// listEq: both lists have the same length and equal elements under pc.
func (e *Eng) listEq(a, b *Term, pc B) (bool, string) {
	if !e.sat(pc) {
		return true, ""
	}
	a, b = e.under(a, pc), e.under(b, pc)
	if a == b {
		return true, ""
	}
	if a.op == "phi" || b.op == "phi" {
		for _, x := range e.leaves(a) {
			for _, y := range e.leaves(b) {
				g := e.bdd.AndN(pc, x.g, y.g)
				if ok, why := e.listEq(x.t, y.t, g); !ok {
					return false, why
				}
			}
		}
		return true, ""
	}
	la, lb := e.lenOf(a), e.lenOf(b)
	if q := e.eq0(e.sub(la, lb)); !e.implies(pc, q) {
		return false, "length " + e.show(e.under(la, pc)) + " instead of " + e.show(e.under(lb, pc))
	}
	for _, l := range []*Term{la, lb} {
		if n, ok := l.isNum(); ok && n <= 16 {
			for i := int64(0); i < n; i++ {
				if ok, why := e.eqAt(a, b, e.num(i), pc); !ok {
					return false, why
				}
			}
			return true, ""
		}
	}
	e.chis++
	defer func() { e.chis-- }()
	i := e.mk("sym", fmt.Sprintf("χ%d", e.chis), types.Typ[types.Int])
	e.nonneg[i] = true
	pc = e.bdd.And(pc, e.le0(e.addc(e.sub(i, lb), 1)))
	if !e.sat(pc) {
		return true, ""
	}
	return e.eqAt(a, b, i, pc)
}

func (e *Eng) eqAt(a, b, i *Term, pc B) (bool, string) {
	for _, x := range e.atCases(a, i, pc) {
		for _, y := range e.atCases(b, i, x.g) {
			if !e.sat(y.g) {
				continue
			}
			p, q := e.deep(x.t, y.g), e.deep(y.t, y.g)
			if p == q {
				continue
			}
			if !e.implies(y.g, e.eqTerms(p, q)) {
				return false, "element ι is " + e.show(p) + " instead of " + e.show(q)
			}
		}
	}
	return true, ""
}

// atCases gives the element of a list at index i, split by the segment i
// lies in.
func (e *Eng) atCases(x, i *Term, pc B) []gv {
	if !e.sat(pc) {
		return nil
	}
	switch x.op {
	case "phi":
		var r []gv
		for _, l := range e.leaves(x) {
			r = append(r, e.atCases(l.t, i, e.bdd.And(pc, l.g))...)
		}
		return r
	case "bytes", "string":
		return e.atCases(x.args[0], i, pc)
	case "slice", "sub":
		return e.atCases(x.args[0], e.add(x.args[1], i), pc)
	case "all":
		return e.atCases(x.args[0], i, pc)
	case "zeros":
		return []gv{{pc, x.aux.(*Term)}}
	case "store":
		q := e.eq0(e.sub(x.args[1], i))
		r := e.atCases(x.args[0], i, e.bdd.And(pc, e.bdd.Not(q)))
		return append(r, gv{e.bdd.And(pc, q), x.args[2]})
	case "fill":
		f := x.args[1]
		beta := e.boundOf(f)
		off := e.sub(f.args[1], beta)
		j := e.sub(i, off)
		if e.mentions(off, beta) {
			off = e.add(f.args[1], beta)
			if e.mentions(off, beta) {
				break
			}
			j = e.sub(off, i)
		}
		in := e.bdd.And(e.le0(e.scale(j, -1)), e.le0(e.addc(e.sub(j, f.args[0]), 1)))
		r := e.atCases(x.args[0], i, e.bdd.And(pc, e.bdd.Not(in)))
		return append(r, gv{e.bdd.And(pc, in), e.instBound(f, f.args[2], j)})
	case "list":
		var r []gv
		pos := e.num(0)
		for _, s := range x.args {
			l := e.segLen(s)
			end := e.add(pos, l)
			in := e.bdd.And(e.le0(e.sub(pos, i)), e.le0(e.addc(e.sub(i, end), 1)))
			g := e.bdd.And(pc, in)
			if e.sat(g) {
				j := e.sub(i, pos)
				switch s.op {
				case "elem":
					r = append(r, gv{g, s.args[0]})
				case "all", "sub":
					r = append(r, e.atCases(s, j, g)...)
				default:
					if t := e.segAt(s, j); t != nil {
						r = append(r, gv{g, t})
					} else {
						r = append(r, gv{g, e.index(x, i)})
					}
				}
			}
			pos = end
		}
		return r
	}
	return []gv{{pc, e.index(x, i)}}
}

// accessor calls a method without arguments on a value of known dynamic type.
func (e *Eng) accessor(t *Term, name string, pc B) *Term {
	switch t.op {
	case "phi":
		var gs []gv
		for _, l := range e.leaves(t) {
			r := e.accessor(l.t, name, e.bdd.And(pc, l.g))
			if r == nil {
				return nil
			}
			gs = append(gs, gv{l.g, r})
		}
		return e.phi(gs)
	case "iface":
		dt := t.aux.(types.Type)
		sel := e.P.prog.MethodSets.MethodSet(dt).Lookup(nil, name)
		if sel == nil {
			return nil
		}
		fn := e.P.prog.MethodValue(sel)
		if fn == nil {
			return nil
		}
		ev, dn := len(e.events), len(e.done)
		r := e.call(fn, []*Term{t.args[0]}, nil, pc, newMem(), "accessor")
		e.events, e.done = e.events[:ev], e.done[:dn]
		if len(r.vals) != 1 {
			return nil
		}
		return e.freeze(r.mem, r.vals[0])
	}
	return nil
}

// fieldOf: the dynamic struct inside an interface value.
func structOf(t *Term) *Term {
	if t.op == "iface" {
		t = t.args[0]
	}
	if t.op == "struct" {
		return t
	}
	return nil
}
