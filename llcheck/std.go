package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of the standard library functions the module may use. A function
// without a model is an opaque pure value if its package is listed as pure,
// and reported otherwise.

func stdName(fn *ssa.Function) string {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Signature.Recv() != nil {
		return fn.RelString(nil)
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path() + "." + fn.Name()
	}
	return fn.RelString(nil)
}

// builderLoc: content of a strings.Builder / bytes.Buffer that lives in
// analysed memory
func (e *Eng) builderLoc(f *frame, p *Term, in ssa.Instruction) (get func() *Term, set func(*Term), ok bool) {
	if p.op == "iface" {
		p = p.args[0]
	}
	if p.op != "ptr" || p.obj.ext || p.obj.kind == "global" {
		return nil, nil, false
	}
	return func() *Term {
			c := e.access(e.content(f.mem, p.obj), pathSteps(p.k), p.args, p.obj.typ)
			return c
		}, func(t *Term) {
			f.mem.m[p.obj] = e.update(e.content(f.mem, p.obj), pathSteps(p.k), p.args, p.obj.typ, t)
		}, true
}

func (e *Eng) errTerm(cc *callCtx, args ...*Term) *Term {
	var errT types.Type = types.Universe.Lookup("error").Type()
	var fa []*Term
	for _, a := range args {
		fa = append(fa, e.freeze(cc.f.mem, a))
	}
	if len(e.loops) > 0 {
		// one value per iteration of the enclosing loops
		var ks []*Term
		for _, l := range e.loops {
			ks = append(ks, l.kappa)
		}
		fa = append(fa, e.mk("at", "", nil, ks...))
	}
	return e.mk("err", e.siteKey(cc.f, cc.in), errT, fa...)
}

// constCall: functions of constant strings
func (e *Eng) constCall(name string, args []*Term) *Term {
	var ss []string
	var ns []int64
	for _, a := range args {
		if n, ok := constInt(a); ok {
			ns = append(ns, n)
		} else if a.op == "str" {
			ss = append(ss, a.k)
		} else {
			return nil
		}
	}
	b := func(v bool) *Term {
		if v {
			return e.boolTerm(True)
		}
		return e.boolTerm(False)
	}
	switch {
	case len(ss) == 3 && len(ns) == 0 && name == "strings.ReplaceAll":
		return e.str(strings.ReplaceAll(ss[0], ss[1], ss[2]))
	case len(ss) == 1 && len(ns) == 1 && name == "strings.ContainsRune":
		return b(strings.ContainsRune(ss[0], rune(ns[0])))
	case len(ss) == 1 && len(ns) == 1 && name == "strings.IndexByte":
		return e.num(int64(strings.IndexByte(ss[0], byte(ns[0]))))
	case len(ss) != 2 || len(ns) != 0:
	case name == "strings.Contains":
		return b(strings.Contains(ss[0], ss[1]))
	case name == "strings.ContainsAny":
		return b(strings.ContainsAny(ss[0], ss[1]))
	case name == "strings.HasPrefix":
		return b(strings.HasPrefix(ss[0], ss[1]))
	case name == "strings.HasSuffix":
		return b(strings.HasSuffix(ss[0], ss[1]))
	case name == "strings.TrimPrefix":
		return e.str(strings.TrimPrefix(ss[0], ss[1]))
	case name == "strings.TrimSuffix":
		return e.str(strings.TrimSuffix(ss[0], ss[1]))
	case name == "strings.Index":
		return e.num(int64(strings.Index(ss[0], ss[1])))
	}
	return nil
}

// errorsIs: while nothing in the module wraps errors, errors.Is with an
// error created by the module is a comparison.
func (e *Eng) errorsIs(a, b *Term) (B, bool) {
	if b.op != "err" || e.P.wrapsErrors() {
		return False, false
	}
	return e.eqTerms(a, b), true
}

// wrapsErrors: some code of the module may put an error inside another.
func (p *Prog) wrapsErrors() bool {
	if p.wraps != 0 {
		return p.wraps > 0
	}
	p.wraps = -1
	for _, pk := range p.ppkgs {
		if pk.Module == nil || pk.Module.Path != modPath {
			continue
		}
		wrapper := func(id *ast.Ident) bool {
			f, ok := pk.TypesInfo.Uses[id].(*types.Func)
			return ok && f.Pkg() != nil && (f.Pkg().Path() == "fmt" && f.Name() == "Errorf" || f.Pkg().Path() == "errors" && f.Name() == "Join")
		}
		plain := map[*ast.Ident]bool{} // calls of fmt.Errorf without %w
		for _, file := range pk.Syntax {
			ast.Inspect(file, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.FuncDecl:
					if x.Recv != nil && (x.Name.Name == "Unwrap" || x.Name.Name == "Is") {
						p.wraps = 1
					}
				case *ast.CallExpr:
					if sel, ok := x.Fun.(*ast.SelectorExpr); ok && sel.Sel.Name == "Errorf" && len(x.Args) > 0 {
						v := pk.TypesInfo.Types[x.Args[0]].Value
						plain[sel.Sel] = v != nil && v.Kind() == constant.String && !strings.Contains(constant.StringVal(v), "%w")
					}
				case *ast.Ident:
					if wrapper(x) && !plain[x] {
						p.wraps = 1
					}
				}
				return true
			})
		}
	}
	return p.wraps > 0
}

// sortSearch recognises sort.Search(len(L), func(i) { return L[i] >= x })
// over a sorted L, which is sort.SearchInts(L, x).
func (e *Eng) sortSearch(cc *callCtx, n, fv *Term) *Term {
	f := cc.f
	if fv.op != "func" {
		return nil
	}
	j := e.sym("J@"+e.siteKey(f, cc.in), types.Typ[types.Int])
	pc0, mem0 := f.pc, f.mem
	pc := e.bdd.And(pc0, e.bdd.And(e.le0(e.sub(e.num(0), j)), e.le0(e.addc(e.sub(j, n), 1))))
	if !e.sat(pc) {
		return nil
	}
	f.pc, f.mem = pc, mem0.clone()
	c1 := *cc
	c1.typ = types.Typ[types.Bool]
	r, cont := e.callValue(&c1, fv, []*Term{j})
	pc1, mem1 := f.pc, f.mem
	f.pc, f.mem = pc0, mem0
	if !cont || r == nil || pc1 != pc {
		return nil
	}
	for o, t := range mem1.m {
		if t0, ok := mem0.m[o]; ok && t0 != t {
			return nil
		}
	}
	b := e.boolOf(r)
	sup := e.bdd.Support(b)
	if len(sup) != 1 || e.bdd.Var(sup[0]) != b {
		return nil
	}
	at := e.atoms[sup[0]]
	if at.op != "le0" || at.args[0].op != "lin" {
		return nil
	}
	for _, x := range at.args[0].lin.ts {
		L := x.t
		if x.coef != -1 || L.op != "index" || L.args[1] != j {
			continue
		}
		L = L.args[0]
		v := e.add(at.args[0], x.t)
		if L.op == "call" && L.k == "sorted" && e.lenOf(L) == n && !e.mentions(L, j) && !e.mentions(v, j) {
			return e.mk("call", "sort.SearchInts", types.Typ[types.Int], L, v)
		}
	}
	return nil
}

func (e *Eng) variadic(f *frame, t *Term) []*Term {
	c := e.resolve(f.mem, t)
	switch c.op {
	case "nilslice", "nil":
		return nil
	case "list":
		var r []*Term
		for _, s := range c.args {
			if s.op != "elem" {
				return []*Term{c}
			}
			r = append(r, s.args[0])
		}
		return r
	}
	return []*Term{c}
}

// text rendered by fmt for one argument
func (e *Eng) fmtArg(f *frame, in ssa.Instruction, verb string, a *Term) *Term {
	if a.op == "phi" {
		return e.lift(a, func(x *Term) *Term { return e.fmtArg(f, in, verb, x) })
	}
	v := a
	if a.op == "iface" {
		v = a.args[0]
		dt := a.aux.(types.Type)
		if verb == "%s" || verb == "%v" || verb == "" {
			if isString(dt) && e.P.methodOf(dt, "String") == nil && e.P.methodOf(dt, "Error") == nil {
				return v
			}
			if _, ok := dt.Underlying().(*types.Basic); !ok || dt.String() != dt.Underlying().String() {
				if m := e.P.methodOf(dt, "String"); m != nil && m.Signature.Params().Len() == 0 && m.Blocks != nil && e.inModule(m) && isPtrRecv(m) == isPtr(dt) {
					r := e.call(m, []*Term{v}, nil, f.pc, f.mem.clone(), e.siteKey(f, in)+"/fmt")
					if len(r.vals) == 1 {
						return r.vals[0]
					}
				}
			}
			if sl, ok := dt.Underlying().(*types.Slice); ok {
				if eb, ok := sl.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 && verb == "%s" {
					return e.stringOf(e.freeze(f.mem, v))
				}
			}
		}
		if verb == "%d" || verb == "%v" || verb == "" {
			if n, ok := constInt(v); ok {
				return e.str(fmt.Sprint(n))
			}
		}
		if verb == "%c" {
			if b, ok := dt.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				if n, ok := constInt(v); ok {
					return e.str(string(rune(n)))
				}
			}
		}
	} else if (verb == "%s" || verb == "%v" || verb == "") && a.typ != nil && e.hasString(a.typ) {
		return e.mk("call", "invoke.String", types.Typ[types.String], a)
	}
	return e.mk("fmt", verb, types.Typ[types.String], e.freeze(f.mem, a))
}

func (e *Eng) hasString(t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == "String" {
			return true
		}
	}
	return false
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }
func isPtrRecv(m *ssa.Function) bool {
	return m.Signature.Recv() != nil && isPtr(m.Signature.Recv().Type())
}

func (e *Eng) sprintf(f *frame, in ssa.Instruction, format *Term, args []*Term) *Term {
	if format.op != "str" {
		return e.mk("call", "fmt.Sprintf", types.Typ[types.String], append([]*Term{format}, args...)...)
	}
	var parts []*Term
	s := format.k
	ai := 0
	for len(s) > 0 {
		i := strings.IndexByte(s, '%')
		if i < 0 {
			parts = append(parts, e.str(s))
			break
		}
		parts = append(parts, e.str(s[:i]))
		j := i + 1
		for j < len(s) && strings.IndexByte("+-# 0123456789.[]*", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			parts = append(parts, e.str(s[i:]))
			break
		}
		verb := s[i : j+1]
		s = s[j+1:]
		if verb == "%%" {
			parts = append(parts, e.str("%"))
			continue
		}
		if ai < len(args) {
			parts = append(parts, e.fmtArg(f, in, verb, args[ai]))
			ai++
		} else {
			parts = append(parts, e.str("%!"+verb+"(MISSING)"))
		}
	}
	return e.cat(parts...)
}

var pureFns = map[string]bool{}

func init() {
	for _, n := range strings.Fields(`strings.ReplaceAll strings.Replace strings.ContainsRune strings.Contains strings.ContainsAny strings.IndexByte
 strings.IndexRune strings.Index strings.IndexAny strings.LastIndex strings.LastIndexByte strings.Count strings.HasPrefix strings.HasSuffix strings.Repeat strings.EqualFold
 strings.ToLower strings.ToUpper strings.TrimSpace strings.Trim strings.TrimLeft strings.TrimRight strings.TrimPrefix strings.TrimSuffix strings.Split strings.Fields strings.Compare strings.Title
 strings.Map strings.NewReplacer strings.SplitN strings.Clone strings.TrimFunc strings.ContainsFunc strings.Cut strings.IndexFunc
 strconv.Itoa strconv.Quote strconv.FormatInt strconv.Atoi strconv.AppendInt strconv.AppendQuote strconv.QuoteRune strconv.Unquote strconv.FormatUint strconv.ParseInt
 bytes.Equal bytes.Compare bytes.Contains bytes.IndexByte bytes.HasPrefix bytes.NewReader bytes.NewBuffer bytes.NewBufferString bytes.ToLower bytes.ToUpper bytes.TrimSpace bytes.EqualFold bytes.Trim bytes.TrimRight bytes.TrimLeft bytes.TrimSuffix bytes.TrimPrefix bytes.ReplaceAll bytes.Split bytes.Fields bytes.Runes bytes.Clone bytes.Index bytes.Replace
 strings.NewReader unicode/utf8.RuneLen unicode/utf8.DecodeRuneInString unicode/utf8.DecodeRune unicode/utf8.ValidString unicode/utf8.Valid unicode/utf8.RuneCountInString unicode/utf8.RuneCount unicode.ToLower unicode.ToUpper unicode.IsSpace unicode.IsLetter unicode.IsDigit unicode.IsPrint
 errors.Is errors.As errors.Unwrap errors.Join sort.SearchInts sort.SearchStrings slices.Contains slices.Index slices.BinarySearch slices.Equal slices.Max slices.Min
 math/bits.TrailingZeros64 math/bits.OnesCount64 math/bits.Len64 math/bits.LeadingZeros64 math/bits.TrailingZeros math/bits.OnesCount math/bits.Reverse64 reflect.TypeOf reflect.DeepEqual fmt.Sprint fmt.Sprintln fmt.Append fmt.Appendf
 slices.Clone maps.Clone sort.IntsAreSorted sort.SliceIsSorted sort.Search math.Log2 math.MaxInt strings.LastIndexAny strings.ToValidUTF8 bytes.ToValidUTF8 unicode/utf8.AppendRune unicode/utf8.EncodeRune html.EscapeString`) {
		pureFns[n] = true
	}
}

func (e *Eng) std(cc *callCtx, fn *ssa.Function, args, free []*Term) (*Term, bool) {
	f, in := cc.f, cc.in
	name := stdName(fn)
	T := types.Typ
	tup := func(ts ...*Term) *Term { return e.mk("tuple", "", nil, ts...) }
	nilErr := e.nilTerm()
	if r := e.constCall(name, args); r != nil {
		return r, true
	}
	switch name {
	case "os.Exit":
		e.event("exit", f, in, name, args...)
		return nil, false
	case "log.Fatal", "log.Fatalf", "log.Fatalln":
		e.event("exit", f, in, name, e.num(1))
		return nil, false
	case "errors.New":
		e.event("newerror", f, in, name)
		return e.errTerm(cc, args[0]), true
	case "fmt.Errorf":
		e.event("newerror", f, in, name)
		return e.errTerm(cc, append([]*Term{args[0]}, e.variadic(f, args[1])...)...), true
	case "fmt.Sprintf":
		return e.sprintf(f, in, args[0], e.variadic(f, args[1])), true
	case "fmt.Sprint":
		vs := e.variadic(f, args[0])
		if len(vs) == 1 {
			return e.fmtArg(f, in, "", vs[0]), true
		}
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
		if get, set, ok := e.builderLoc(f, args[0], in); ok {
			var t *Term
			switch name {
			case "fmt.Fprintf":
				t = e.sprintf(f, in, args[1], e.variadic(f, args[2]))
			case "io.WriteString":
				t = args[1]
			default:
				vs := e.variadic(f, args[1])
				if len(vs) == 1 {
					t = e.fmtArg(f, in, "", vs[0])
				} else {
					t = e.mk("call", name, T[types.String], vs...)
				}
				if name == "fmt.Fprintln" {
					t = e.cat(t, e.str("\n"))
				}
			}
			set(e.cat(get(), t))
			return tup(e.lenOfFmt(t), nilErr), true
		}
		e.event("io", f, in, name, args...)
		return e.opaqueResult(cc, name, args...), true
	case "io.ReadAll":
		e.event("readall", f, in, name, args...)
		r := e.opaqueResult(cc, name, args...)
		return r, true
	case "strings.Join":
		c := e.resolve(f.mem, args[0])
		return e.lift(c, func(c *Term) *Term { return e.joinStr(c, args[1]) }), true
	case "strings.Map":
		if args[0].op == "func" {
			return e.mk("call", name, T[types.String], args[1], args[0]), true
		}
	case "sort.Sort", "sort.Stable", "sort.Ints", "sort.Strings", "sort.Slice", "sort.SliceStable", "slices.Sort", "slices.Reverse", "slices.SortFunc", "slices.SortStableFunc":
		return e.sortModel(cc, name, args)
	case "(*strings.Replacer).Replace":
		return e.mk("call", name, T[types.String], args...), true
	case "(sort.IntSlice).Sort":
		return e.sortModel(cc, "sort.Ints", args)
	case "(*bytes.Buffer).Bytes":
		if get, _, ok := e.builderLoc(f, args[0], in); ok {
			return e.mk("bytes", "", nil, get()), true
		}
		e.eventPC("nilderef", f, in, "pointer may be nil", e.bdd.And(f.pc, e.isNil(args[0])), args[0])
		return e.opaqueResult(cc, name, args...), true
	case "(*bytes.Buffer).String", "(*bytes.Buffer).Len", "(*bytes.Buffer).Cap", "(*bytes.Buffer).Available":
		if get, _, ok := e.builderLoc(f, args[0], in); ok {
			if strings.HasSuffix(name, "String") {
				return get(), true
			}
			if strings.HasSuffix(name, "Len") {
				return e.lenOf(get()), true
			}
		}
		if !strings.HasSuffix(name, "String") {
			e.eventPC("nilderef", f, in, "pointer may be nil", e.bdd.And(f.pc, e.isNil(args[0])), args[0])
		}
		return e.opaqueResult(cc, name, args...), true
	case "maps.Copy":
		e.event("maprange", f, in, "map iteration", args[1])
		if args[0].op == "mref" {
			o := args[0].obj
			e.foreign(f, o, in, args...)
			f.mem.m[o] = e.mk("mapunion", "", nil, e.content(f.mem, o), e.mapContent(f.mem, args[1]))
			return nil, true
		}
		e.event("store-ext", f, in, "copy into a map the caller owns", args...)
		return nil, true
	case "maps.Clone":
		o := e.object(e.siteKey(f, in)+"/m", "map", nil)
		f.mem.m[o] = e.mk("mapunion", "", nil, e.mk("mapempty", "", nil), e.mapContent(f.mem, args[0]))
		nn := e.objTerm("mref", o, cc.typ)
		src := args[0]
		return e.iteTerm(e.isNil(src), e.nilTerm(), nn), true
	case "slices.Clone":
		c := e.resolve(f.mem, args[0])
		return e.appendList(e.list(), e.segs(c)...), true
	case "sort.SearchInts":
		return e.mk("call", name, T[types.Int], e.resolve(f.mem, args[0]), args[1]), true
	case "sort.Search":
		if r := e.sortSearch(cc, args[0], args[1]); r != nil {
			return r, true
		}
	case "errors.Is":
		if b, ok := e.errorsIs(args[0], args[1]); ok {
			return e.boolTerm(b), true
		}
	case "slices.Contains":
		return e.boolTerm(e.member(e.resolve(f.mem, args[0]), args[1])), true
	case "slices.BinarySearch":
		c := e.resolve(f.mem, args[0])
		if c.op == "call" && c.k == "sorted" {
			return tup(e.mk("call", "sort.SearchInts", T[types.Int], c, args[1]), e.boolTerm(e.member(c, args[1]))), true
		}
	}
	if i := strings.LastIndex(name, ")."); i >= 0 {
		m := name[i+2:]
		if strings.HasPrefix(name, "(*strings.Builder)") || strings.HasPrefix(name, "(*bytes.Buffer)") {
			if get, set, ok := e.builderLoc(f, args[0], in); ok {
				switch m {
				case "WriteString":
					set(e.cat(get(), args[1]))
					return tup(e.lenOf(args[1]), nilErr), true
				case "WriteByte":
					set(e.cat(get(), e.byteStr(args[1])))
					return nilErr, true
				case "WriteRune":
					if n, ok := constInt(args[1]); ok {
						set(e.cat(get(), e.str(string(rune(n)))))
					} else {
						set(e.cat(get(), e.mk("runestr", "", T[types.String], args[1])))
					}
					return tup(e.num(1), nilErr), true
				case "Write":
					set(e.cat(get(), e.stringOf(e.freeze(f.mem, args[1]))))
					return tup(e.lenOf(e.resolve(f.mem, args[1])), nilErr), true
				case "String":
					return get(), true
				case "Len":
					return e.lenOf(get()), true
				case "Grow":
					return nil, true
				case "Reset":
					set(e.str(""))
					return nil, true
				case "Truncate":
					set(e.sliceStr(get(), e.num(0), args[1]))
					return nil, true
				}
			}
			e.event("consume-ext", f, in, name, args...)
			return e.opaqueResult(cc, name, args...), true
		}
	}
	if pureFns[name] {
		// opaque pure function of its arguments
		return e.opaqueResult(cc, name, e.resolveAll(f, args)...), true
	}
	kind := "call-std"
	e.event(kind, f, in, name, args...)
	return e.opaqueResult(cc, name, args...), true
}

func (e *Eng) resolveAll(f *frame, args []*Term) []*Term {
	var r []*Term
	for _, a := range args {
		r = append(r, e.resolve(f.mem, a))
	}
	return r
}

func (e *Eng) sliceStr(x, lo, hi *Term) *Term { return e.slice(x, lo, hi) }

func (e *Eng) lenOfFmt(t *Term) *Term { return e.lenOf(t) }

// joinStr: elements of a list of strings with a separator between them
func (e *Eng) joinStr(c, sep *Term) *Term {
	if c.op == "list" && sep.op == "str" && sep.k == "" {
		r := e.str("")
		for _, s := range c.args {
			switch {
			case s.op == "elem":
				r = e.cat(r, s.args[0])
			case s.op == "comp" && len(s.args) == 2:
				t := e.mk("rep", s.k, types.Typ[types.String], s.args...)
				t.aux = s.aux
				r = e.cat(r, e.normRep(t))
			default:
				return e.mk("call", "strings.Join", types.Typ[types.String], c, sep)
			}
		}
		return r
	}
	if c.op == "list" {
		if len(c.args) == 1 && c.args[0].op == "comp" && len(c.args[0].args) == 2 {
			s := c.args[0]
			n, b := s.args[0], s.args[1]
			beta := e.boundOf(s)
			b0 := e.substOne(b, beta, e.num(0))
			b1 := e.cat(sep, e.substOne(b, beta, e.addc(beta, 1)))
			r := e.mk("rep", s.k, types.Typ[types.String], e.addc(n, -1), b1)
			r.aux = s.aux
			return e.iteTerm(e.le0(n), e.str(""), e.cat(b0, e.normRep(r)))
		}
		all := true
		for _, s := range c.args {
			if s.op != "elem" {
				all = false
			}
		}
		if all {
			r := e.str("")
			for i, s := range c.args {
				if i > 0 {
					r = e.cat(r, sep)
				}
				r = e.cat(r, s.args[0])
			}
			return r
		}
		// leading elements, then one comprehension
		if n := len(c.args); n >= 2 && c.args[n-1].op == "comp" && len(c.args[n-1].args) == 2 {
			r := e.str("")
			for i, s := range c.args[:n-1] {
				if s.op != "elem" {
					return e.mk("call", "strings.Join", types.Typ[types.String], c, sep)
				}
				if i > 0 {
					r = e.cat(r, sep)
				}
				r = e.cat(r, s.args[0])
			}
			s := c.args[n-1]
			t := e.mk("rep", s.k, types.Typ[types.String], s.args[0], e.cat(sep, s.args[1]))
			t.aux = s.aux
			return e.cat(r, e.normRep(t))
		}
	}
	if c.op == "nilslice" {
		return e.str("")
	}
	return e.mk("call", "strings.Join", types.Typ[types.String], c, sep)
}

func (e *Eng) sortModel(cc *callCtx, name string, args []*Term) (*Term, bool) {
	f, in := cc.f, cc.in
	t := args[0]
	for t.op == "iface" {
		t = t.args[0]
	}
	c := e.resolve(f.mem, t)
	k := "sorted"
	if name == "slices.Reverse" {
		k = "reversed"
	}
	if name == "sort.Slice" || name == "sort.SliceStable" || strings.HasSuffix(name, "Func") {
		k = "sortedby"
	}
	if t.op == "call" {
		// e.g. sort.Reverse(x)
		e.event("unsupported", f, in, name+" of wrapped data", t)
		e.event("store-ext", f, in, name+" reorders a slice the function does not own", t)
	} else {
		e.writes("store-ext", f, in, name+" reorders a slice the function does not own", t)
	}
	var nc *Term
	if k == "reversed" {
		nc = e.reverseList(c)
	} else {
		nc = e.mk("call", k, t.typ, c)
	}
	switch t.op {
	case "sref":
		e.foreign(f, t.obj, in, t)
		f.mem.m[t.obj] = nc
	default:
		if c.op == "nilslice" || c.op == "nil" {
			return nil, true
		}
		f.mem.m[e.overlay(t)] = nc
	}
	return nil, true
}

func (e *Eng) reverseList(c *Term) *Term {
	if c.op == "list" && len(c.args) == 1 && c.args[0].op == "comp" && len(c.args[0].args) == 2 {
		s := c.args[0]
		b := e.boundOf(s)
		nv := e.substOne(s.args[1], b, e.sub(e.addc(s.args[0], -1), b))
		r := e.mk("comp", s.k, nil, s.args[0], nv)
		r.aux = s.aux
		return e.list(e.normSegs([]*Term{r})...)
	}
	n := e.lenOf(c)
	kappa := e.mk("kappa", "κrev", types.Typ[types.Int])
	r := e.comp("comp", n, kappa, e.index(c, e.sub(e.addc(n, -1), kappa)))
	return e.list(e.normSegs([]*Term{r})...)
}
