package main

import (
	"bytes"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about grammars and bindings that are literals of the source: they are
// evaluated from the SSA form and analysed as context-free grammars.

func init() {
	reg("C25", "constant evaluation and grammar flow analysis", checkC25)
	reg("C26", "constant evaluation and grammar flow analysis", checkC26)
	reg("C33", "grammar flow analysis and dataflow", checkC33)
}

type gsym struct {
	kind byte // 'n', 't', 'e'
	s    string
}

type cgram struct {
	heads []string
	rules [][][]gsym
	idx   map[string]int

	nullable []bool
	first    []byteSet
	follow   []byteSet
	table    []map[int][]int // rule -> byte (256 = end) -> alternatives
}

type byteSet [257]bool

func (s *byteSet) union(o *byteSet) bool {
	ch := false
	for i := range o {
		if o[i] && !s[i] {
			s[i] = true
			ch = true
		}
	}
	return ch
}

func (g *cgram) index() {
	g.idx = map[string]int{}
	for i := len(g.heads) - 1; i >= 0; i-- {
		g.idx[g.heads[i]] = i
	}
}

// listOf: the elements of a constant list.
func (e *Eng) listOf(t *Term) ([]*Term, bool) {
	n, ok := e.lenOf(t).isNum()
	if !ok || n > 100000 {
		return nil, false
	}
	var r []*Term
	for i := int64(0); i < n; i++ {
		r = append(r, e.index(t, e.num(i)))
	}
	return r, true
}

func constStr(t *Term) (string, bool) {
	if t != nil && t.op == "str" {
		return t.k, true
	}
	return "", false
}

// concGrammar reads a constant value of type bnf.Grammar.
func (e *Eng) concGrammar(t *Term, G types.Type) (*cgram, string) {
	g := &cgram{}
	rules, rt := e.fld(t, G, "Rules")
	rl, ok := e.listOf(rules)
	if !ok {
		return nil, "the list of rules is not a constant: " + e.show(rules)
	}
	R := elemType(rt)
	for i, r := range rl {
		h, ht := e.fld(r, R, "Head")
		hn, _ := e.fld(h, ht, "Name")
		name, ok := constStr(hn)
		if !ok {
			return nil, fmt.Sprintf("the head of rule %d is not a constant: %s", i, e.show(hn))
		}
		tl, tt := e.fld(r, R, "Tail")
		sq, st := e.fld(tl, tt, "Sequences")
		sl, ok := e.listOf(sq)
		if !ok {
			return nil, "the alternatives of " + name + " are not constant"
		}
		var alts [][]gsym
		for _, s := range sl {
			ss, sst := e.fld(s, elemType(st), "Symbols")
			syl, ok := e.listOf(ss)
			if !ok {
				return nil, "an alternative of " + name + " is not constant"
			}
			_ = sst
			alt := []gsym{}
			for _, y := range syl {
				if y.op != "iface" {
					return nil, "a symbol of " + name + " is not constant: " + e.show(y)
				}
				dt := y.aux.(types.Type)
				tn := ""
				if n, ok := dt.(*types.Named); ok {
					tn = n.Obj().Name()
				}
				str := ""
				if tn == "SymbolNonTerminal" || tn == "SymbolTerminal" {
					nm, _ := e.fld(y.args[0], dt, "Name")
					if str, ok = constStr(nm); !ok {
						return nil, "a symbol of " + name + " is not constant: " + e.show(nm)
					}
				}
				switch tn {
				case "SymbolNonTerminal":
					alt = append(alt, gsym{'n', str})
				case "SymbolTerminal":
					alt = append(alt, gsym{'t', str})
				case "SymbolNothing":
					alt = append(alt, gsym{'e', ""})
				default:
					return nil, "a symbol of " + name + " has the foreign type " + dt.String()
				}
			}
			alts = append(alts, alt)
		}
		g.heads = append(g.heads, name)
		g.rules = append(g.rules, alts)
	}
	g.index()
	return g, ""
}

// analyse computes nullable, first, follow and the prediction table.
func (g *cgram) analyse() {
	n := len(g.heads)
	g.nullable = make([]bool, n)
	g.first = make([]byteSet, n)
	g.follow = make([]byteSet, n)
	for ch := true; ch; {
		ch = false
		for i := range g.rules {
			for _, a := range g.rules[i] {
				f, e := g.firstOf(a)
				if g.first[i].union(&f) {
					ch = true
				}
				if e && !g.nullable[i] {
					g.nullable[i] = true
					ch = true
				}
			}
		}
	}
	if n > 0 {
		g.follow[0][256] = true
	}
	for ch := true; ch; {
		ch = false
		for i := range g.rules {
			for _, a := range g.rules[i] {
				for k, s := range a {
					j, ok := g.idx[s.s]
					if s.kind != 'n' || !ok {
						continue
					}
					f, e := g.firstOf(a[k+1:])
					if g.follow[j].union(&f) {
						ch = true
					}
					if e && g.follow[j].union(&g.follow[i]) {
						ch = true
					}
				}
			}
		}
	}
	g.table = make([]map[int][]int, n)
	for i := range g.rules {
		g.table[i] = map[int][]int{}
		for k, a := range g.rules[i] {
			f, e := g.firstOf(a)
			if e {
				f.union(&g.follow[i])
			}
			for b := range f {
				if f[b] {
					g.table[i][b] = append(g.table[i][b], k)
				}
			}
		}
	}
}

func (g *cgram) firstOf(a []gsym) (byteSet, bool) {
	var f byteSet
	for _, s := range a {
		switch s.kind {
		case 't':
			if len(s.s) > 0 {
				f[s.s[0]] = true
				return f, false
			}
		case 'n':
			j, ok := g.idx[s.s]
			if !ok {
				return f, false
			}
			f.union(&g.first[j])
			if !g.nullable[j] {
				return f, false
			}
		}
	}
	return f, true
}

// wellFormed generates the obligations of a sound LL(1) grammar.
func (c *Check) wellFormed(g *cgram, where, name string) {
	c.ob("grammar", where, name+" has a rule", len(g.heads) > 0, "")
	seen := map[string]bool{}
	for _, h := range g.heads {
		c.ob("one rule", where, "<"+h+"> has exactly one rule", !seen[h], "a second rule for <"+h+">")
		seen[h] = true
	}
	for i, h := range g.heads {
		c.ob("alternatives", where, "<"+h+"> has an alternative", len(g.rules[i]) > 0, "")
		for k, a := range g.rules[i] {
			at := fmt.Sprintf("alternative %d of <%s>", k+1, h)
			c.ob("alternatives", where, at+" has symbols", len(a) > 0, "it has none")
			for _, s := range a {
				switch s.kind {
				case 'n':
					c.ob("references", where, at+": <"+s.s+"> is defined", seen[s.s], "no rule for <"+s.s+">")
				case 't':
					c.ob("terminals", where, at+": no terminal is empty or starts with a zero byte", s.s != "" && s.s[0] != 0, fmt.Sprintf("%q", s.s))
				case 'e':
					c.ob("alternatives", where, at+": the empty string stands alone", len(a) == 1, "")
				}
			}
		}
	}
	g.analyse()
	// productive
	prod := make([]bool, len(g.heads))
	for ch := true; ch; {
		ch = false
		for i := range g.rules {
			if prod[i] {
				continue
			}
			for _, a := range g.rules[i] {
				all := true
				for _, s := range a {
					if s.kind == 'n' {
						if j, ok := g.idx[s.s]; !ok || !prod[j] {
							all = false
						}
					}
				}
				if all {
					prod[i] = true
					ch = true
				}
			}
		}
	}
	reach := make([]bool, len(g.heads))
	var visit func(i int)
	visit = func(i int) {
		if reach[i] {
			return
		}
		reach[i] = true
		for _, a := range g.rules[i] {
			for _, s := range a {
				if j, ok := g.idx[s.s]; ok && s.kind == 'n' {
					visit(j)
				}
			}
		}
	}
	if len(g.heads) > 0 {
		visit(0)
	}
	for i, h := range g.heads {
		c.ob("derives", where, "<"+h+"> derives a string", prod[i], "every alternative needs a rule that derives nothing")
		c.ob("reachable", where, "<"+h+"> can be reached from the first rule", reach[i], "")
	}
	for i, h := range g.heads {
		var bad []string
		var bs []int
		for b := range g.table[i] {
			bs = append(bs, b)
		}
		sort.Ints(bs)
		for _, b := range bs {
			if k := g.table[i][b]; len(k) > 1 {
				what := "the end of the source"
				if b < 256 {
					what = fmt.Sprintf("%q", string([]byte{byte(b)}))
				}
				bad = append(bad, fmt.Sprintf("alternatives %d and %d compete for %s", k[0]+1, k[1]+1, what))
			}
		}
		// two empty alternatives compete even where nothing follows
		c.ob("LL(1)", where, "no two alternatives of <"+h+"> compete for the same next byte", len(bad) == 0, strings.Join(bad, "; "))
	}
	c.note["rules_of_"+strings.ReplaceAll(name, " ", "_")] = len(g.heads)
}

func (c *Check) evalConst(rel, fn string) (*Run, *Term) {
	type res struct {
		r *Run
		t *Term
	}
	x := cached(c, "const "+rel+"."+fn, func() res {
		f := c.P.fn(rel, fn)
		if f == nil {
			return res{}
		}
		e := newEng(c.P)
		e.initGlobals()
		r := e.runFn(f)
		if r.err != "" || len(r.res.vals) != 1 {
			return res{r, nil}
		}
		t := e.deep(e.freeze(r.res.mem, r.res.vals[0]), True)
		return res{r, t}
	})
	if x.r == nil {
		c.fail("analysis", rel, "function "+fn+" exists", "not found")
		return nil, nil
	}
	c.use(x.r.e)
	if x.t == nil {
		c.fail("analysis", rel+"."+fn, "the analysis of the function completes", x.r.err)
		return nil, nil
	}
	return x.r, x.t
}

func (c *Check) selfGrammar() *cgram {
	r, t := c.evalConst("pkg/bnf", "SelfGrammar")
	if t == nil {
		return nil
	}
	f := c.P.fn("pkg/bnf", "SelfGrammar")
	g, why := r.e.concGrammar(t, c.P.namedType("pkg/bnf", "Grammar"))
	if g == nil {
		c.fail("constant", c.P.pos(f.Pos()), "the grammar returned is the same on every call", why)
	}
	return g
}

func checkC25(c *Check) {
	f := c.P.fn("pkg/bnf", "SelfGrammar")
	g := c.selfGrammar()
	if g == nil {
		return
	}
	where := c.P.pos(f.Pos()) + " (bnf.SelfGrammar)"
	c.ob("constant", where, "the grammar returned is the same on every call", true, "")
	c.wellFormed(g, where, "the self grammar")
	c.ownResult(f, "every call returns a grammar in memory of its own")
	r, _ := c.evalConst("pkg/bnf", "SelfGrammar")
	c.owned(r.e, "SelfGrammar writes only to memory of its own")
}

// ---- trees

type ctree struct {
	typ        int // rule, -1 a literal byte run, -2 nothing
	start, end int
	kids       []*ctree
}

type cparse struct {
	g    *cgram
	s    string
	pos  int
	used map[[2]int]bool
	fail string
}

func (g *cgram) parse(s string, used map[[2]int]bool) (*ctree, string) {
	p := &cparse{g: g, s: s, used: used}
	t := p.nt(0, 0)
	if p.fail == "" && p.pos != len(s) {
		p.fail = fmt.Sprintf("the text after byte %d is not part of the language", p.pos)
	}
	return t, p.fail
}

func (p *cparse) nt(i, depth int) *ctree {
	if p.fail != "" {
		return nil
	}
	b := 256
	if p.pos < len(p.s) {
		b = int(p.s[p.pos])
	}
	k := p.g.table[i][b]
	if len(k) == 0 || depth > 5000 {
		p.fail = fmt.Sprintf("no alternative of <%s> for byte %d of %q", p.g.heads[i], p.pos, p.s)
		return nil
	}
	p.used[[2]int{i, k[0]}] = true
	t := &ctree{typ: i, start: p.pos}
	for _, s := range p.g.rules[i][k[0]] {
		switch s.kind {
		case 'n':
			x := p.nt(p.g.idx[s.s], depth+1)
			if x == nil {
				return nil
			}
			t.kids = append(t.kids, x)
		case 't':
			if !strings.HasPrefix(p.s[p.pos:], s.s) {
				p.fail = fmt.Sprintf("%q expected at byte %d of %q", s.s, p.pos, p.s)
				return nil
			}
			t.kids = append(t.kids, &ctree{typ: -1, start: p.pos, end: p.pos + len(s.s)})
			p.pos += len(s.s)
		case 'e':
			t.kids = append(t.kids, &ctree{typ: -2, start: p.pos, end: p.pos})
		}
	}
	t.end = p.pos
	return t
}

// ---- bindings

type cbind struct {
	ignore                                             map[int]bool
	rule, head, tail, seq, sym, nonterm, escSeq, escCh int
	terms                                              []int
	esc                                                map[string]string
}

func (c *Check) selfBindings() (*cbind, string) {
	r, t := c.evalConst("pkg/bnf/fromcst", "SelfCSTtoASTBindings")
	if t == nil {
		return nil, ""
	}
	e := r.e
	T := c.P.namedType("pkg/bnf/fromcst", "BNFCSTtoASTBindings")
	b := &cbind{ignore: map[int]bool{}, esc: map[string]string{}}
	bad := ""
	num := func(name string) int {
		x, _ := e.fld(t, T, name)
		n, ok := constInt(x)
		if !ok {
			bad = name + " is not a constant: " + e.show(x)
		}
		return int(n)
	}
	b.rule, b.head, b.tail = num("RuleType"), num("RuleHeadType"), num("RuleTailType")
	b.seq, b.sym, b.nonterm = num("ExpressionSequencesType"), num("SequencesSymbolType"), num("SymbolNonTerminalType")
	b.escSeq, b.escCh = num("EscapeSequenceType"), num("EscapeCharacterType")
	ints := func(name string) (r []int) {
		x, _ := e.fld(t, T, name)
		l, ok := e.listOf(x)
		if !ok {
			bad = name + " is not a constant: " + e.show(x)
		}
		for _, y := range l {
			n, ok := constInt(y)
			if !ok {
				bad = name + " is not a constant: " + e.show(x)
			}
			r = append(r, int(n))
		}
		return
	}
	for _, n := range ints("IgnoreNodeTypes") {
		b.ignore[n] = true
	}
	b.terms = ints("SymbolTerminalTypes")
	m, _ := e.fld(t, T, "EscapeMapping")
	if m.op == "fmap" {
		m = m.args[0]
	}
	var walk func(m *Term)
	walk = func(m *Term) {
		switch m.op {
		case "mapempty", "nil":
		case "mapstore":
			walk(m.args[0])
			k, ok1 := constStr(m.args[1])
			v, ok2 := constStr(m.args[2])
			if !ok1 || !ok2 {
				bad = "EscapeMapping is not a constant: " + e.show(m)
			}
			b.esc[k] = v
		case "mapdel":
			walk(m.args[0])
			k, ok1 := constStr(m.args[1])
			if !ok1 {
				bad = "EscapeMapping is not a constant"
			}
			delete(b.esc, k)
		default:
			bad = "EscapeMapping is not a constant: " + e.show(m)
		}
	}
	walk(m)
	return b, bad
}

// conv interprets a tree by bindings, as documented for ToAST.
type conv struct {
	b *cbind
	s string
}

// find lists the topmost nodes of a type below (or at) a node, leaving out
// what is ignored.
func (v *conv) find(t *ctree, typ func(int) bool, ignore bool, out *[]*ctree) {
	if ignore && v.b.ignore[t.typ] {
		return
	}
	if typ(t.typ) {
		*out = append(*out, t)
		return
	}
	for _, k := range t.kids {
		v.find(k, typ, ignore, out)
	}
}

func (v *conv) all(t *ctree, n int) []*ctree {
	var r []*ctree
	v.find(t, func(x int) bool { return x == n }, true, &r)
	return r
}

func (v *conv) text(t *ctree) string { return v.s[t.start:t.end] }

func (v *conv) grammar(t *ctree) (string, string) {
	var sb strings.Builder
	for _, r := range v.all(t, v.b.rule) {
		h := v.all(r, v.b.head)
		tl := v.all(r, v.b.tail)
		if len(h) == 0 || len(tl) == 0 {
			return "", "a rule without head or tail"
		}
		fmt.Fprintf(&sb, "%q:", v.text(h[0]))
		for _, q := range v.all(tl[0], v.b.seq) {
			sb.WriteString("[")
			for _, y := range v.all(q, v.b.sym) {
				str, why := v.symbol(y)
				if why != "" {
					return "", why
				}
				sb.WriteString(str + " ")
			}
			sb.WriteString("]")
		}
		sb.WriteString("\n")
	}
	return sb.String(), ""
}

func (v *conv) symbol(y *ctree) (string, string) {
	for _, ty := range v.b.terms {
		l := v.all(y, ty)
		if len(l) == 0 {
			continue
		}
		var parts []*ctree
		v.find(l[0], func(x int) bool { return x == -1 || x == v.b.escSeq }, false, &parts)
		s := ""
		for _, p := range parts {
			if p.typ == -1 {
				s += v.text(p)
				continue
			}
			ch := v.all(p, v.b.escCh)
			if len(ch) == 0 {
				return "", "an escape sequence without escaped character"
			}
			m, ok := v.b.esc[v.text(ch[0])]
			if !ok {
				return "", fmt.Sprintf("unknown escape character %q", v.text(ch[0]))
			}
			s += m
		}
		if s == "" {
			return "nothing", ""
		}
		return fmt.Sprintf("term %q", s), ""
	}
	l := v.all(y, v.b.nonterm)
	if len(l) == 0 {
		return "", "a symbol that is neither literal nor name"
	}
	return fmt.Sprintf("nonterm %q", v.text(l[0])), ""
}

type probe struct{ text, want string }

// probes: definitions in the notation of the self grammar and what they say.
func selfProbes() []probe {
	nt := func(s string) string { return fmt.Sprintf("nonterm %q ", s) }
	tm := func(s string) string { return fmt.Sprintf("term %q ", s) }
	rule := func(h string, alts ...string) string {
		s := fmt.Sprintf("%q:", h)
		for _, a := range alts {
			s += "[" + a + "]"
		}
		return s + "\n"
	}
	const no = "nothing "
	var ps []probe
	add := func(text string, want ...string) { ps = append(ps, probe{text, strings.Join(want, "")}) }
	add(`<a> ::= "b"`, rule("a", tm("b")))
	add(`<a>::=<b>`, rule("a", nt("b")))
	add(`   <a>   ::=   <b>   `, rule("a", nt("b")))
	add(`<a> ::= ""`, rule("a", no))
	add(`<a> ::= ''`, rule("a", no))
	add(`<a> ::= 'b'`, rule("a", tm("b")))
	add(`<a> ::= "b" | <c> | "" | ''`, rule("a", tm("b"), nt("c"), no, no))
	add(`<a> ::= "b"|<c>|'d' <e>"f"<g>'h'`, rule("a", tm("b"), nt("c"), tm("d")+nt("e")+tm("f")+nt("g")+tm("h")))
	add(`<a> ::= <b> <c> <d>`, rule("a", nt("b")+nt("c")+nt("d")))
	add("<a> ::= <b>\n<c> ::= 'd'", rule("a", nt("b")), rule("c", tm("d")))
	add("<a> ::= <b>\r\n<c> ::= 'd'\r\n", rule("a", nt("b")), rule("c", tm("d")))
	add("<a> ::= <b>\n\n   \n  <c> ::= 'd' | <a> 'e'\n\n<d>::=''", rule("a", nt("b")), rule("c", tm("d"), nt("a")+tm("e")), rule("d", no))
	add(`<a> ::= "it's" | 'say "x"'`, rule("a", tm("it's"), tm(`say "x"`)))
	add(`<a> ::= "::=" | "<b>" | '|' | "<b> ::= <c> | 'd'"`, rule("a", tm("::="), tm("<b>"), tm("|"), tm("<b> ::= <c> | 'd'")))
	add(`<rule-name-1> ::= <x-Y-9> <Zz>`, rule("rule-name-1", nt("x-Y-9")+nt("Zz")))
	// escapes, alone and among other characters
	for _, q := range []string{`"`, `'`} {
		for _, x := range [][2]string{{"t", "\t"}, {"n", "\n"}, {"r", "\r"}, {`"`, `"`}, {`\`, `\`}} {
			add(`<a> ::= `+q+`\`+x[0]+q, rule("a", tm(x[1])))
			add(`<a> ::= `+q+`0\`+x[0]+`1\`+x[0]+`\\`+q+` <b>`, rule("a", tm("0"+x[1]+"1"+x[1]+`\`)+nt("b")))
		}
		// every plain character
		for ch := 0x20; ch < 0x7f; ch++ {
			s := string(rune(ch))
			if s == q || s == `\` {
				continue
			}
			add(`<a> ::= `+q+s+q+`|`+q+"x"+s+s+q, rule("a", tm(s), tm("x"+s+s)))
		}
	}
	for ch := 0; ch < 128; ch++ {
		s := string(rune(ch))
		letter := ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z'
		if letter {
			add(`<`+s+`> ::= <`+s+`>`, rule(s, nt(s)))
		}
		if letter || ch >= '0' && ch <= '9' || ch == '-' {
			add(`<n`+s+`> ::= <n`+s+s+`>`, rule("n"+s, nt("n"+s+s)))
		}
	}
	return ps
}

func checkC26(c *Check) {
	f := c.P.fn("pkg/bnf/fromcst", "SelfCSTtoASTBindings")
	g := c.selfGrammar()
	if g == nil || f == nil {
		return
	}
	g.analyse()
	b, bad := c.selfBindings()
	if b == nil {
		return
	}
	where := c.P.pos(f.Pos()) + " (fromcst.SelfCSTtoASTBindings)"
	if !c.ob("constant", where, "the bindings are constants", bad == "", bad) {
		return
	}
	c.ownResult(f, "every call returns bindings in memory of their own")
	in := func(n int) bool { return n >= 0 && n < len(g.heads) }
	roles := []struct {
		name string
		n    int
	}{{"RuleType", b.rule}, {"RuleHeadType", b.head}, {"RuleTailType", b.tail}, {"ExpressionSequencesType", b.seq}, {"SequencesSymbolType", b.sym}, {"SymbolNonTerminalType", b.nonterm}, {"EscapeSequenceType", b.escSeq}, {"EscapeCharacterType", b.escCh}}
	for _, t := range b.terms {
		roles = append(roles, struct {
			name string
			n    int
		}{"SymbolTerminalTypes", t})
	}
	for _, r := range roles {
		if !c.ob("range", where, r.name+" is the position of a rule", in(r.n), fmt.Sprint(r.n)) {
			return
		}
	}
	below := func(i int) map[int]bool {
		m := map[int]bool{}
		var visit func(i int)
		visit = func(i int) {
			if m[i] {
				return
			}
			m[i] = true
			for _, a := range g.rules[i] {
				for _, s := range a {
					if j, ok := g.idx[s.s]; ok && s.kind == 'n' {
						visit(j)
					}
				}
			}
		}
		visit(i)
		return m
	}
	// grammar-wide facts: for every tree of the grammar
	for n := range b.ignore {
		if !in(n) {
			continue
		}
		bl := below(n)
		for _, r := range roles {
			c.ob("ignored", where, "nothing of ignored type holds a "+r.name, !bl[r.n], "<"+g.heads[n]+"> is ignored but can hold <"+g.heads[r.n]+">")
		}
	}
	must := func(outer, inner int, on, inn string) {
		c.ob("nesting", where, on+" can hold "+inn, below(outer)[inner], "<"+g.heads[outer]+"> never holds <"+g.heads[inner]+">")
	}
	must(b.rule, b.head, "RuleType", "RuleHeadType")
	must(b.rule, b.tail, "RuleType", "RuleTailType")
	must(b.tail, b.seq, "RuleTailType", "ExpressionSequencesType")
	must(b.seq, b.sym, "ExpressionSequencesType", "SequencesSymbolType")
	must(b.sym, b.nonterm, "SequencesSymbolType", "SymbolNonTerminalType")
	for _, t := range b.terms {
		must(b.sym, t, "SequencesSymbolType", "SymbolTerminalTypes")
		must(t, b.escSeq, "SymbolTerminalTypes", "EscapeSequenceType")
		c.ob("nesting", where, "a literal holds no non-terminal name", !below(t)[b.nonterm], "<"+g.heads[t]+"> can hold <"+g.heads[b.nonterm]+">")
	}
	must(b.escSeq, b.escCh, "EscapeSequenceType", "EscapeCharacterType")
	// roles, by sentences that together use every alternative
	used := map[[2]int]bool{}
	v := &conv{b: b}
	n, badN := 0, 0
	for _, p := range selfProbes() {
		t, why := g.parse(p.text, used)
		if t == nil || why != "" {
			// not in the language: no statement about roles
			continue
		}
		n++
		v.s = p.text
		got, why := v.grammar(t)
		if why != "" {
			got = why
		}
		if got != p.want {
			badN++
			if badN <= 5 {
				c.fail("roles", where, "the bindings read every definition as what it says", fmt.Sprintf("%q is read as %s instead of %s", p.text, strings.ReplaceAll(got, "\n", " "), strings.ReplaceAll(p.want, "\n", " ")))
			}
		}
	}
	c.ob("roles", where, "the definitions tried are in the language", n >= 20, fmt.Sprint(n))
	if badN == 0 {
		c.ob("roles", where, "the bindings read every definition as what it says", true, "")
	}
	missing := []string{}
	for i := range g.rules {
		if !below(0)[i] {
			continue
		}
		for k := range g.rules[i] {
			if !used[[2]int{i, k}] {
				missing = append(missing, fmt.Sprintf("<%s>/%d", g.heads[i], k+1))
			}
		}
	}
	// every escaped character of the grammar has a meaning
	for _, a := range g.rules[b.escCh] {
		if len(a) == 1 && a[0].kind == 't' {
			_, ok := b.esc[a[0].s]
			c.ob("escapes", where, fmt.Sprintf("the escape %q of the grammar is in the mapping", a[0].s), ok, "no entry")
		}
	}
	c.note["sentences"] = n
	c.note["alternatives_used"] = len(used)
	c.note["alternatives_not_used"] = missing
}

// ---- the JSON example

// readBNF reads a grammar in the notation of the self grammar.
func readBNF(s string) (*cgram, string) {
	g := &cgram{}
	for ln, line := range strings.Split(strings.ReplaceAll(s, "\r\n", "\n"), "\n") {
		if strings.TrimSpace(line) == "" {
			continue
		}
		i := 0
		skip := func() {
			for i < len(line) && line[i] == ' ' {
				i++
			}
		}
		bad := func(m string) string { return fmt.Sprintf("line %d, column %d: %s", ln+1, i+1, m) }
		name := func() string {
			j := strings.IndexByte(line[i:], '>')
			if line[i] != '<' || j < 0 {
				return ""
			}
			n := line[i+1 : i+j]
			i += j + 1
			return n
		}
		skip()
		h := name()
		if h == "" {
			return nil, bad("no rule name")
		}
		skip()
		if !strings.HasPrefix(line[i:], "::=") {
			return nil, bad("no ::=")
		}
		i += 3
		alts := [][]gsym{{}}
		for {
			skip()
			if i >= len(line) {
				break
			}
			cur := &alts[len(alts)-1]
			switch q := line[i]; q {
			case '|':
				i++
				alts = append(alts, []gsym{})
			case '<':
				n := name()
				if n == "" {
					return nil, bad("no name")
				}
				*cur = append(*cur, gsym{'n', n})
			case '"', '\'':
				i++
				var t []byte
				for i < len(line) && line[i] != q {
					if line[i] == '\\' {
						i++
						if i >= len(line) {
							return nil, bad("open escape")
						}
						k := strings.IndexByte(`tnr"\`, line[i])
						if k < 0 {
							return nil, bad("unknown escape")
						}
						t = append(t, "\t\n\r\"\\"[k])
						i++
						continue
					}
					t = append(t, line[i])
					i++
				}
				if i >= len(line) {
					return nil, bad("open literal")
				}
				i++
				if len(t) == 0 {
					*cur = append(*cur, gsym{'e', ""})
				} else {
					*cur = append(*cur, gsym{'t', string(t)})
				}
			default:
				return nil, bad("unknown symbol")
			}
		}
		g.heads = append(g.heads, h)
		g.rules = append(g.rules, alts)
	}
	g.index()
	return g, ""
}

func checkC33(c *Check) {
	repo := envOr("LLREPO", "/repo")
	where := "examples/json/json.bnf"
	b, err := os.ReadFile(filepath.Join(repo, where))
	if err != nil {
		c.fail("grammar", where, "the grammar of the example can be read", err.Error())
		return
	}
	g, why := readBNF(string(bytes.TrimSpace(b)))
	if g == nil {
		c.fail("grammar", where, "the grammar of the example is in the notation of the self grammar", why)
		return
	}
	c.wellFormed(g, where, "the JSON grammar")
	// structural roles: an object is enclosed in braces, an array in
	// brackets, a key-value has a colon
	obj, arr, kv := -1, -1, -1
	for i, as := range g.rules {
		for _, a := range as {
			if len(a) >= 2 && a[0] == (gsym{'t', "{"}) && a[len(a)-1] == (gsym{'t', "}"}) {
				obj = i
			}
			if len(a) >= 2 && a[0] == (gsym{'t', "["}) && a[len(a)-1] == (gsym{'t', "]"}) {
				arr = i
			}
			for k, s := range a {
				if k > 0 && k+1 < len(a) && s == (gsym{'t', ":"}) {
					kv = i
				}
			}
		}
	}
	if !c.ob("roles", where, "the grammar has rules for objects, arrays and key-values", obj >= 0 && arr >= 0 && kv >= 0, fmt.Sprint(obj, arr, kv)) {
		return
	}
	var visit *ssa.Function
	for path, sp := range c.P.pkgs {
		if !strings.HasSuffix(path, "examples/json") {
			continue
		}
		for _, f := range c.P.pkgFuncs(sp) {
			if f.Name() == "Visit" {
				visit = f
			}
		}
	}
	if visit == nil {
		c.fail("visitor", "examples/json/main.go", "the visitor is found", "no Visit method")
		return
	}
	c.fns[strings.TrimPrefix(visit.RelString(nil), modPath+"/")] = true
	c.visitor(g, where, visit, obj, arr, kv)
}
