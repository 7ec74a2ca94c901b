package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// Printed terminals. The value String returns is a term over the name of the
// terminal. It is evaluated as a homomorphism of strings: what every byte of
// the name is replaced by, between constant ends. Tests for the presence of a
// byte split the names into classes ("worlds"), in which every condition of
// the term has one value.

func init() {
	reg("C23", "string homomorphism analysis of the value-dependence graph, grammar flow analysis", checkC23)
}

// piece of a string: a constant, or the image of the name.
type hpiece struct {
	hom *[256]string
	s   string
}

type world struct {
	e    *Eng
	name *Term
	typ  types.Type
	rel  []byte        // bytes whose presence is decided
	has  map[byte]bool // for those
	more map[byte]bool // bytes to be decided as well
	env  map[*Term]byte
	dom  []byte
}

type needMore struct{}

func printable() []byte {
	var r []byte
	for b := 0; b < 256; b++ {
		if b >= 0x20 && b < 0x7f || b == '\t' || b == '\n' || b == '\r' {
			r = append(r, byte(b))
		}
	}
	return r
}

func (w *world) no(f string, a ...any) { panic(abort{fmt.Sprintf(f, a...)}) }

// possible: the name may hold the byte.
func (w *world) possible(b byte) bool {
	h, ok := w.has[b]
	return !ok || h
}

func (w *world) decide(b byte) {
	w.more[b] = true
	panic(needMore{})
}

// strings

func (w *world) cat(a, b []hpiece) []hpiece {
	r := append([]hpiece{}, a...)
	for _, p := range b {
		if p.hom == nil && p.s == "" {
			continue
		}
		if n := len(r); p.hom == nil && n > 0 && r[n-1].hom == nil {
			r[n-1].s += p.s
			continue
		}
		r = append(r, p)
	}
	return r
}

func (w *world) isName(t *Term) bool { return t == w.name }

// subst replaces single bytes in all pieces.
func (w *world) mapBytes(ps []hpiece, f func(byte) string) []hpiece {
	img := func(s string) string {
		var sb strings.Builder
		for i := 0; i < len(s); i++ {
			sb.WriteString(f(s[i]))
		}
		return sb.String()
	}
	var r []hpiece
	for _, p := range ps {
		if p.hom == nil {
			r = w.cat(r, []hpiece{{s: img(p.s)}})
			continue
		}
		h := new([256]string)
		for i := range h {
			h[i] = img(p.hom[i])
		}
		r = append(r, hpiece{hom: h})
	}
	return r
}

func (w *world) str(t *Term) []hpiece {
	if t == nil {
		w.no("an unknown text")
	}
	if w.isName(t) {
		h := new([256]string)
		for i := range h {
			h[i] = string([]byte{byte(i)})
		}
		return []hpiece{{hom: h}}
	}
	switch t.op {
	case "str":
		return w.cat(nil, []hpiece{{s: t.k}})
	case "cat":
		var r []hpiece
		for _, a := range t.args {
			r = w.cat(r, w.str(a))
		}
		return r
	case "phi":
		return w.str(w.leaf(t))
	case "bytestr":
		return []hpiece{{s: string([]byte{byte(w.num(t.args[0]))})}}
	case "runestr":
		return []hpiece{{s: string(rune(w.num(t.args[0])))}}
	case "mget":
		v := w.mget(t.args[0], t.args[1])
		if v == nil {
			return nil
		}
		return w.str(v)
	case "string", "bytes":
		if len(t.args) == 1 {
			return w.str(t.args[0])
		}
	case "index":
		return w.str(w.elem(t))
	case "rep":
		if !w.overName(t) {
			w.no("a repetition that is not over the bytes of the name: %s", w.e.show(t))
		}
		beta := w.e.boundOf(t)
		if _, in := w.env[beta]; in || len(w.env) > 0 {
			w.no("nested repetitions")
		}
		h := new([256]string)
		for _, b := range w.dom {
			if !w.possible(b) {
				continue
			}
			w.env[beta] = b
			ps := w.str(t.args[1])
			delete(w.env, beta)
			switch {
			case len(ps) == 0:
			case len(ps) == 1 && ps[0].hom == nil:
				h[b] = ps[0].s
			default:
				w.no("the whole name for every byte of it")
			}
		}
		return []hpiece{{hom: h}}
	case "call":
		switch t.k {
		case "strings.ReplaceAll", "strings.Replace":
			old, nw := w.konst(t.args[1]), w.konst(t.args[2])
			if t.k == "strings.Replace" {
				if w.num(t.args[3]) >= 0 {
					w.no("a replacement of some occurrences only: %s", w.e.show(t))
				}
			}
			if len(old) != 1 {
				w.no("a replacement of the text %q", old)
			}
			return w.mapBytes(w.str(t.args[0]), func(b byte) string {
				if b == old[0] {
					return nw
				}
				return string([]byte{b})
			})
		case "(*strings.Replacer).Replace":
			m := w.replacer(t.args[0])
			return w.mapBytes(w.str(t.args[1]), func(b byte) string {
				if r, ok := m[b]; ok {
					return r
				}
				return string([]byte{b})
			})
		case "strings.Clone":
			return w.str(t.args[0])
		case "strconv.Quote":
			ps := w.str(t.args[0])
			ps = w.mapBytes(ps, func(b byte) string {
				s := strconv.Quote(string([]byte{b}))
				return s[1 : len(s)-1]
			})
			return w.cat(w.cat([]hpiece{{s: `"`}}, ps), []hpiece{{s: `"`}})
		}
	}
	w.no("%s", w.e.show(t))
	return nil
}

// konst: a text that is constant in this world.
func (w *world) konst(t *Term) string {
	ps := w.str(t)
	if len(ps) == 0 {
		return ""
	}
	if len(ps) != 1 || ps[0].hom != nil {
		w.no("a text that is not constant: %s", w.e.show(t))
	}
	return ps[0].s
}

func (w *world) replacer(t *Term) map[byte]string {
	if t.op == "phi" {
		return w.replacer(w.leaf(t))
	}
	if t.op != "call" || t.k != "strings.NewReplacer" || len(t.args) != 1 {
		w.no("an unknown replacer: %s", w.e.show(t))
	}
	l, ok := w.e.listOf(t.args[0])
	if !ok || len(l)%2 != 0 {
		w.no("a replacer of unknown pairs: %s", w.e.show(t))
	}
	m := map[byte]string{}
	for i := 0; i < len(l); i += 2 {
		old, nw := w.konst(l[i]), w.konst(l[i+1])
		if len(old) != 1 {
			w.no("a replacement of the text %q", old)
		}
		if _, dup := m[old[0]]; !dup {
			m[old[0]] = nw
		}
	}
	return m
}

func (w *world) leaf(t *Term) *Term {
	for i, g := range t.bs {
		if w.truth(g) {
			return t.args[i]
		}
	}
	w.no("a value without a case: %s", w.e.show(t))
	return nil
}

func (w *world) mget(m, key *Term) *Term {
	k := w.num(key)
	for {
		switch m.op {
		case "phi":
			m = w.leaf(m)
			continue
		case "mapstore":
			if w.num(m.args[1]) == k {
				return m.args[2]
			}
			m = m.args[0]
			continue
		case "mapempty":
			return nil
		}
		w.no("an unknown table: %s", w.e.show(m))
	}
}

// elem: an entry of a constant list.
func (w *world) elem(t *Term) *Term {
	i := w.num(t.args[1])
	r := w.e.index(t.args[0], w.e.num(i))
	if r == nil || r.op == "index" {
		w.no("an unknown entry: %s", w.e.show(t))
	}
	return r
}

// overName: the repetition goes once through every byte of the name.
func (w *world) overName(t *Term) bool {
	n := t.args[0]
	if n == w.e.lenOf(w.name) {
		return true
	}
	if n.op != "kappa" {
		return false
	}
	for _, li := range w.e.done {
		if li.kappa != n || len(li.exits) != 1 {
			continue
		}
		// left at the end of the name only
		ok := w.e.atomVar(w.e.mk("b", "", nil, w.e.mk("runeok", "", nil, w.name, n)))
		return w.e.implies(li.exits[0].pc, w.e.bdd.Not(ok))
	}
	return false
}

// numbers

const inf = int64(1) << 60

type span struct{ lo, hi int64 }

func (w *world) num(t *Term) int64 {
	r := w.span(t)
	if r.lo != r.hi {
		w.no("a number that is not constant: %s", w.e.show(t))
	}
	return r.lo
}

func (w *world) span(t *Term) span {
	if n, ok := t.isNum(); ok {
		return span{n, n}
	}
	if n, ok := constInt(t); ok {
		return span{n, n}
	}
	switch t.op {
	case "lin":
		r := span{t.lin.c, t.lin.c}
		for _, x := range t.lin.ts {
			s := w.span(x.t)
			lo, hi := s.lo, s.hi
			if x.coef < 0 {
				lo, hi = hi, lo
			}
			r.lo = satAdd(r.lo, satMul(lo, x.coef))
			r.hi = satAdd(r.hi, satMul(hi, x.coef))
		}
		return r
	case "phi":
		return w.span(w.leaf(t))
	case "mget":
		v := w.mget(t.args[0], t.args[1])
		if v == nil {
			return span{0, 0}
		}
		return w.span(v)
	case "index":
		if w.isName(t.args[0]) {
			if b, ok := w.env[t.args[1]]; ok {
				return span{int64(b), int64(b)}
			}
			w.no("a byte at a certain place of the name: %s", w.e.show(t))
		}
		if t.args[0].op == "str" {
			i := w.num(t.args[1])
			if i < 0 || i >= int64(len(t.args[0].k)) {
				w.no("a byte outside of a text")
			}
			return span{int64(t.args[0].k[i]), int64(t.args[0].k[i])}
		}
		return w.span(w.elem(t))
	case "rune":
		if w.isName(t.args[0]) {
			if b, ok := w.env[t.args[1]]; ok {
				return span{int64(b), int64(b)}
			}
		}
	case "len":
		ps := w.str(t.args[0])
		r := span{0, 0}
		for _, p := range ps {
			if p.hom == nil {
				r.lo += int64(len(p.s))
				r.hi += int64(len(p.s))
				continue
			}
			r.hi = inf
			r.lo++ // the name is not empty
			for _, b := range w.dom {
				if w.possible(b) && p.hom[b] == "" {
					r.lo--
					break
				}
			}
		}
		return r
	case "call":
		switch t.k {
		case "strings.IndexByte", "strings.IndexRune", "strings.Index", "strings.IndexAny", "strings.LastIndex", "strings.LastIndexByte":
			if w.contains(t.k, t.args) {
				return span{0, inf}
			}
			return span{-1, -1}
		case "strings.Count":
			if w.contains(t.k, t.args) {
				return span{1, inf}
			}
			return span{0, 0}
		}
	}
	if strings.HasPrefix(t.op, "conv:") && len(t.args) == 1 {
		return w.span(t.args[0])
	}
	w.no("%s", w.e.show(t))
	return span{}
}

func satAdd(a, b int64) int64 {
	r := a + b
	if r > inf || a >= inf || b >= inf {
		return inf
	}
	if r < -inf || a <= -inf || b <= -inf {
		return -inf
	}
	return r
}

func satMul(a, k int64) int64 {
	if a >= inf || a <= -inf {
		if (a > 0) == (k > 0) {
			return inf
		}
		return -inf
	}
	return a * k
}

// contains: a test for some bytes in a text.
func (w *world) contains(k string, a []*Term) bool {
	ps := w.str(a[0])
	var set []byte
	switch k {
	case "strings.ContainsRune", "strings.IndexRune", "strings.IndexByte", "strings.LastIndexByte", "in":
		n := w.num(a[1])
		if n < 0 || n > 127 {
			w.no("a search for the character %d", n)
		}
		set = []byte{byte(n)}
	case "strings.ContainsAny", "strings.IndexAny":
		set = []byte(w.konst(a[1]))
	default:
		s := w.konst(a[1])
		if len(s) != 1 {
			w.no("a search for the text %q", s)
		}
		set = []byte{s[0]}
	}
	in := func(s string) bool { return strings.ContainsAny(s, string(set)) }
	for _, p := range ps {
		if p.hom == nil {
			if in(p.s) {
				return true
			}
			continue
		}
		for b, h := range w.has {
			if h && in(p.hom[b]) {
				return true
			}
		}
	}
	for _, p := range ps {
		if p.hom == nil {
			continue
		}
		for _, b := range w.dom {
			if _, dec := w.has[b]; !dec && in(p.hom[b]) {
				w.decide(b)
			}
		}
	}
	return false
}

// conditions

func (w *world) truth(f B) bool {
	for f != True && f != False {
		n := w.e.bdd.nodes[f]
		if w.atom(w.e.atoms[n.v]) {
			f = n.hi
		} else {
			f = n.lo
		}
	}
	return f == True
}

func (w *world) atom(a *Term) bool {
	switch a.op {
	case "b":
		x := a.args[0]
		if x.op == "call" && len(x.args) == 2 {
			switch x.k {
			case "strings.ContainsRune", "strings.Contains", "strings.ContainsAny":
				return w.contains(x.k, x.args)
			}
		}
		if x.op == "mget" || x.op == "index" {
			var v *Term
			if x.op == "mget" {
				v = w.mget(x.args[0], x.args[1])
			} else {
				v = w.elem(x)
			}
			if v == nil {
				return false
			}
			if v.op == "bool" {
				return w.truth(v.b)
			}
		}
	case "in":
		return w.contains("in", a.args)
	case "eq", "eq0":
		var s span
		if a.op == "eq0" {
			s = w.span(a.args[0])
		} else if isStrTerm(a.args[0]) || isStrTerm(a.args[1]) {
			return w.strEqual(a.args[0], a.args[1])
		} else {
			x, y := w.span(a.args[0]), w.span(a.args[1])
			s = span{satAdd(x.lo, satMul(y.hi, -1)), satAdd(x.hi, satMul(y.lo, -1))}
		}
		if s.lo > 0 || s.hi < 0 {
			return false
		}
		if s.lo == 0 && s.hi == 0 {
			return true
		}
	case "le0":
		s := w.span(a.args[0])
		if s.hi <= 0 {
			return true
		}
		if s.lo > 0 {
			return false
		}
	case "ex":
		// some byte of the name
		if a.args[0] == w.e.lenOf(w.name) && len(w.env) == 0 {
			beta := w.e.boundOf(a)
			var cond B
			if a.b != 0 {
				cond = a.b
			} else if len(a.args) > 1 && a.args[1].op == "bool" {
				cond = a.args[1].b
			} else {
				break
			}
			val := func(b byte) bool {
				w.env[beta] = b
				defer delete(w.env, beta)
				return w.truth(cond)
			}
			for _, b := range w.dom {
				if w.has[b] && val(b) {
					return true
				}
			}
			for _, b := range w.dom {
				if _, dec := w.has[b]; !dec && val(b) {
					w.decide(b)
				}
			}
			return false
		}
	}
	w.no("the condition %s", w.e.show(a))
	return false
}

func isStrTerm(t *Term) bool {
	if t.op == "str" || t.op == "cat" {
		return true
	}
	if t.typ == nil {
		return false
	}
	b, ok := t.typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (w *world) strEqual(a, b *Term) bool {
	x, y := w.str(a), w.str(b)
	k := func(p []hpiece) (string, bool) {
		if len(p) == 0 {
			return "", true
		}
		return p[0].s, len(p) == 1 && p[0].hom == nil
	}
	s, ok1 := k(x)
	t, ok2 := k(y)
	if ok1 && ok2 {
		return s == t
	}
	if ok1 && s == "" || ok2 && t == "" {
		for _, p := range append(append([]hpiece{}, x...), y...) {
			if p.hom == nil && p.s != "" {
				return false
			}
		}
		n := w.span(w.e.mk("len", "", types.Typ[types.Int], a))
		if s, ok := k(x); ok && s == "" {
			n = w.span(w.e.mk("len", "", types.Typ[types.Int], b))
		}
		if n.lo > 0 {
			return false
		}
	}
	w.no("a comparison of the name: %s", w.e.show(a)+" and "+w.e.show(b))
	return false
}

// eachWorld calls f for every class of names that matters.
func (w *world) eachWorld(f func()) {
	for {
		again := false
		for m := 0; m < 1<<len(w.rel) && !again; m++ {
			w.has = map[byte]bool{}
			for i, b := range w.rel {
				w.has[b] = m>>i&1 == 1
			}
			w.more = map[byte]bool{}
			func() {
				defer func() {
					if x := recover(); x != nil {
						if _, ok := x.(needMore); !ok {
							panic(x)
						}
						again = true
					}
				}()
				w.env = map[*Term]byte{}
				f()
			}()
		}
		if !again {
			return
		}
		for b := range w.more {
			w.rel = append(w.rel, b)
		}
		if len(w.rel) > 10 {
			w.no("a print that depends on the presence of more than ten bytes")
		}
	}
}

func checkC23(c *Check) {
	fn := c.P.method("pkg/bnf", "SymbolTerminal", "String")
	T := c.P.namedType("pkg/bnf", "SymbolTerminal")
	g := c.selfGrammar()
	if g == nil {
		return
	}
	b, bad := c.selfBindings()
	if b == nil || !c.ob("constant", "pkg/bnf/fromcst (SelfCSTtoASTBindings)", "the bindings are constants", bad == "", bad) {
		return
	}
	g.analyse()
	r := c.run(fn, "SymbolTerminal.String")
	if r == nil {
		return
	}
	e := r.e
	for _, ev := range e.events {
		if panicKind(ev.kind) {
			c.never(e, "print", e.evPos(ev), "printing does not fail: "+ev.kind+" "+ev.what, ev.pc)
		}
		switch ev.kind {
		case "store-ext", "append-ext", "store-global", "call-unknown", "unsupported", "go", "io":
			c.never(e, "print", e.evPos(ev), "printing changes nothing and uses known operations only: "+ev.kind+" "+ev.what, ev.pc)
		}
	}
	c.imp(e, "print", where(e, fn), "SymbolTerminal.String always returns", True, r.res.pc)
	name, nt := e.fld(r.args[0], T, "Name")
	w := &world{e: e, name: name, typ: nt, dom: printable()}
	at := c.P.pos(fn.Pos()) + " (SymbolTerminal.String)"

	// reading: does the text of the literal say what is printed?
	memo := map[string]string{}
	reads := func(lit, want string) string {
		key := lit + "\x00" + want
		if r, ok := memo[key]; ok {
			return r
		}
		res := func() string {
			text := "<a> ::= " + lit
			t, why := g.parse(text, map[[2]int]bool{})
			if t == nil || why != "" {
				return fmt.Sprintf("%q is printed as %s, which the self grammar does not accept: %s", want, lit, why)
			}
			v := &conv{b: b, s: text}
			got, why := v.grammar(t)
			if why != "" {
				return fmt.Sprintf("%q is printed as %s: %s", want, lit, why)
			}
			if got != fmt.Sprintf("%q:[term %q ]\n", "a", want) {
				return fmt.Sprintf("%q is printed as %s, which is read as %s", want, lit, strings.TrimSpace(got))
			}
			return ""
		}()
		memo[key] = res
		return res
	}
	frozen := map[int]*Term{}
	for i, x := range r.res.rets {
		frozen[i] = e.freeze(x.mem, x.vals[0])
	}
	type verdict struct{ where, why string }
	res := map[byte]verdict{}
	seen := map[byte]bool{}
	quotes := map[string]bool{}
	shape, single := verdict{}, verdict{}
	worlds := 0
	a := tryAbort(func() {
		w.eachWorld(func() {
			any := false
			for i, x := range r.res.rets {
				if !w.truth(x.pc) {
					continue
				}
				any = true
				ps := w.str(frozen[i])
				pos := c.P.pos(x.pos) + " (SymbolTerminal.String)"
				if len(ps) != 3 || ps[0].hom != nil || ps[1].hom == nil || ps[2].hom != nil || ps[0].s != ps[2].s || ps[0].s != `"` && ps[0].s != `'` {
					if shape.where == "" {
						shape = verdict{pos, "printed as " + w.describe(ps)}
					}
					continue
				}
				q, h := ps[0].s, ps[1].hom
				quotes[q] = true
				for _, ch := range w.dom {
					if !w.possible(ch) {
						continue
					}
					seen[ch] = true
					s := string([]byte{ch})
					if q == "'" && ch == '\'' && single.where == "" {
						single = verdict{pos, "a name with a single quote is printed in single quotes"}
					}
					if res[ch].where != "" {
						continue
					}
					if len(h[ch]) == 1 && (ch == '\\' || ch == '\t' || ch == '\n' || ch == '\r' || s == q) {
						res[ch] = verdict{pos, fmt.Sprintf("%q is not escaped in %s quotes", ch, q)}
						continue
					}
					why := reads(q+h[ch]+q, s)
					for _, o := range []byte{'\\', '"', '\'', '\t', 'n', 't', 'a', ' '} {
						if why == "" && w.possible(o) {
							if why = reads(q+h[ch]+h[o]+q, s+string([]byte{o})); why == "" {
								why = reads(q+h[o]+h[ch]+q, string([]byte{o})+s)
							}
						}
					}
					if why != "" {
						res[ch] = verdict{pos, why}
					}
				}
			}
			if !any {
				w.no("a name for which nothing is returned")
			}
			worlds++
		})
	})
	if a != nil {
		c.fail("homomorphism", at, "the printed form replaces every byte of the name on its own, between two quotes", "not covered: "+a.msg)
		return
	}
	ob := func(rule string, what string, v verdict) {
		p := v.where
		if p == "" {
			p = at
		}
		c.ob(rule, p, what, v.where == "", v.why)
	}
	ob("homomorphism", "the printed form is the image of the name between two equal quotes", shape)
	ob("quotes", "no name with a single quote is printed in single quotes", single)
	for _, ch := range w.dom {
		if !seen[ch] {
			continue
		}
		ob("escape", fmt.Sprintf("the byte %q of a name, alone and next to others, is printed so that it is read back as itself", ch), res[ch])
	}
	c.note["classes_of_names"] = worlds
	c.note["bytes_tested_for"] = len(w.rel)
	c.note["quotes"] = len(quotes)
	c.note["literals_read_back"] = len(memo)
}

func (w *world) describe(ps []hpiece) string {
	var r []string
	for _, p := range ps {
		if p.hom != nil {
			r = append(r, "the name's image")
		} else {
			r = append(r, fmt.Sprintf("%q", p.s))
		}
	}
	return strings.Join(r, " then ")
}
