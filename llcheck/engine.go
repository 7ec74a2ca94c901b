package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/TooManySugar/ll1parser"

// Prog is the loaded, type-checked program in SSA form.
type Prog struct {
	fset  *token.FileSet
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package // by path
	ppkgs map[string]*packages.Package
	all   []*types.Named // named types of the module
	funcs int
	wraps int // 1: some error may wrap another, -1: none does
}

func loadProg(repo string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: repo,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{prog: prog, fset: prog.Fset, pkgs: map[string]*ssa.Package{}, ppkgs: map[string]*packages.Package{}}
	for _, pk := range pkgs {
		sp := prog.Package(pk.Types)
		if sp == nil {
			continue
		}
		p.pkgs[pk.PkgPath] = sp
		p.ppkgs[pk.PkgPath] = pk
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 {
					p.all = append(p.all, nt)
				}
			}
		}
	}
	p.funcs = len(ssautil.AllFunctions(prog))
	return p, nil
}

func (p *Prog) pkg(rel string) *ssa.Package { return p.pkgs[modPath+"/"+rel] }

func (p *Prog) fn(rel, name string) *ssa.Function {
	pk := p.pkg(rel)
	if pk == nil {
		return nil
	}
	return pk.Func(name)
}

func (p *Prog) namedType(rel, name string) types.Type {
	pk := p.pkg(rel)
	if pk == nil {
		return nil
	}
	m := pk.Type(name)
	if m == nil {
		return nil
	}
	return m.Type()
}

// stdType finds a type of an imported package.
func (p *Prog) stdType(path, name string) types.Type {
	pk := p.prog.ImportedPackage(path)
	if pk == nil {
		return nil
	}
	if o := pk.Pkg.Scope().Lookup(name); o != nil {
		return o.Type()
	}
	return nil
}

func (p *Prog) method(rel, typ, name string) *ssa.Function {
	t := p.namedType(rel, typ)
	if t == nil {
		return nil
	}
	return p.methodOf(t, name)
}

func (p *Prog) methodOf(t types.Type, name string) *ssa.Function {
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		ms := p.prog.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return p.prog.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}

func (p *Prog) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "-"
	}
	q := p.fset.Position(ps)
	f := q.Filename
	if i := strings.Index(f, "/pkg/"); i >= 0 {
		f = f[i+1:]
	} else if i := strings.Index(f, "/examples/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// Mem maps objects to their contents.
type Mem struct {
	m map[*Object]*Term
}

func newMem() *Mem { return &Mem{m: map[*Object]*Term{}} }
func (m *Mem) clone() *Mem {
	r := &Mem{m: make(map[*Object]*Term, len(m.m))}
	for k, v := range m.m {
		r.m[k] = v
	}
	return r
}

type Event struct {
	kind  string // store-ext, map-ext, call, panic, bounds, nilmap, typeassert, unsupported, recursion, mutate-ext, global-store...
	pc    B
	args  []*Term
	instr ssa.Instruction
	pos   token.Pos
	fn    *ssa.Function
	ctx   string
	what  string
	loops []*LoopInst
	mem   *Mem
	// recursion: the function called again and its arguments further up
	target *ssa.Function
	base   []*Term
	settle bool // see settleOwn
}

type Eng struct {
	short    bool // proofs are given little room
	prints   []string
	keyObj   *Object
	names    map[*Term]string // printing
	legend   []string
	P        *Prog
	terms    map[string]*Term
	termList []*Term
	bdd      *BDD
	atoms    []*Term
	atomIdx  map[*Term]int
	nonneg   map[*Term]bool
	nonnil   map[*Term]bool

	depthMemo  map[*Term]int
	mentMemo   map[[2]int]bool
	ax2        map[[2]int]B
	attached   map[int]B
	nnLists    map[string]bool            // list variables of loops that hold no nil
	errSites   map[string]map[string]bool // error variables of loops: where what they hold is created
	attachedBy map[int]map[string]B
	satMemo    map[B]bool

	objs    map[string]*Object
	objList []*Object
	events  []*Event
	unroll  *Term       // a count n for which a search of n+1 is split
	loops   []*LoopInst // active stack
	done    []*LoopInst // finished instances
	lcache  map[string]*loopState
	stack   []*ssa.Function
	closedM map[types.Type][]types.Type
	fuel    int

	opaque    map[*ssa.Function]func(e *Eng, c *callCtx) *Term // modelled module functions
	globals   map[*ssa.Global]*Term                            // contents after package initialisation
	fnsSeen   map[*ssa.Function]bool
	instrs    int
	bits      bool
	openPure  bool
	setMode   bool
	exMemo    map[exKey]B
	stable    bool // set arrays are taken to keep their contents from one iteration to the next
	loopDefs  map[string]*loopDef
	infMemo   map[B]bool
	skDepths  map[*Term]int
	stabMemo  map[*Term]bool
	refMemo   map[B]string
	patMemo   map[*Term][]pattern
	hbMemo    map[*Term]bool
	grMemo    map[*Term][]*Term
	kapEnd    map[*Term]*Term // how many iterations a loop has at most
	mgMemo    map[*Term][]*Term
	stabLen   map[*Term]*Term
	setStores []*Event
	initing   bool
	loopSizes map[string]int
	argStack  [][]*Term
	chis      int // symbols in use for the elements of lists and ranges being compared
	iotas     int
	unrolls   int
	nLoopEval int
}

func newEng(p *Prog) *Eng {
	e := &Eng{P: p, terms: map[string]*Term{}, bdd: NewBDD(), atomIdx: map[*Term]int{}, nonneg: map[*Term]bool{}, nonnil: map[*Term]bool{},
		depthMemo: map[*Term]int{}, mentMemo: map[[2]int]bool{}, ax2: map[[2]int]B{}, attached: map[int]B{}, satMemo: map[B]bool{},
		objs: map[string]*Object{}, lcache: map[string]*loopState{}, closedM: map[types.Type][]types.Type{}, fuel: 4000000,
		opaque: map[*ssa.Function]func(*Eng, *callCtx) *Term{}, globals: map[*ssa.Global]*Term{}, fnsSeen: map[*ssa.Function]bool{}}
	return e
}

// closed gives the implementers of an interface of the module that has an
// unexported method, so that no type outside its package can implement it.
func (e *Eng) closed(t types.Type) []types.Type {
	if r, ok := e.closedM[t]; ok {
		return r
	}
	e.closedM[t] = nil
	n, ok := t.(*types.Named)
	if !ok {
		return nil
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	hidden := false
	for i := 0; i < it.NumMethods(); i++ {
		if !it.Method(i).Exported() {
			hidden = true
		}
	}
	if !hidden {
		return nil
	}
	var r []types.Type
	for _, c := range e.P.all {
		if types.IsInterface(c) {
			continue
		}
		if types.Implements(c, it) {
			r = append(r, c)
		} else if types.Implements(types.NewPointer(c), it) {
			r = append(r, types.NewPointer(c))
		}
	}
	e.closedM[t] = r
	return r
}

func (e *Eng) object(key, kind string, typ types.Type) *Object {
	if o, ok := e.objs[key]; ok {
		return o
	}
	o := &Object{id: len(e.objList), key: key, kind: kind, typ: typ}
	e.objs[key] = o
	e.objList = append(e.objList, o)
	return o
}

func (e *Eng) objTerm(op string, o *Object, typ types.Type) *Term {
	return e.intern(Term{op: op, obj: o, typ: typ})
}

// zeroTerm is the zero value of a type.
func (e *Eng) zeroTerm(t types.Type) *Term {
	if t == nil {
		return e.nilTerm()
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.boolTerm(False)
		case u.Info()&types.IsString != 0:
			return e.str("")
		case u.Info()&types.IsInteger != 0:
			if e.bits {
				return e.vecConst(0, t)
			}
			if isIntLin(t) {
				return e.num(0)
			}
			return e.mk("const", "0", t)
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return e.nilTerm()
		}
		return e.mk("const", "0", t)
	case *types.Struct:
		if e.setMode && isByteSet(t) {
			return e.emptySet()
		}
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = e.zeroTerm(u.Field(i).Type())
		}
		k := ""
		if isBuilderType(t) {
			return e.str("")
		}
		return e.mk("struct", k, t, args...)
	case *types.Array:
		if u.Len() <= 256 {
			var segs []*Term
			for i := int64(0); i < u.Len(); i++ {
				segs = append(segs, e.elem(e.zeroTerm(u.Elem())))
			}
			return e.list(segs...)
		}
		return e.zerosOf(e.num(u.Len()), e.zeroTerm(u.Elem()))
	case *types.Slice:
		return e.nilSlice()
	}
	return e.nilTerm()
}

func (e *Eng) zerosOf(n, z *Term) *Term {
	t := e.mk("zeros", "", nil, n, z)
	t.aux = z
	return t
}

func isBuilderType(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	q := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	return q == "strings.Builder" || q == "bytes.Buffer"
}

func isByteSet(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/pkg/bnf/tablegen/byteset" && n.Obj().Name() == "ByteSet"
}

// ---- access paths

// ptr terms: obj, k = path with '.<n>' for fields and '#' for an index taken
// from args in order.
func pathSteps(k string) []string {
	var r []string
	i := 0
	for i < len(k) {
		if k[i] == '#' {
			r = append(r, "#")
			i++
			continue
		}
		j := i + 1
		for j < len(k) && k[j] != '.' && k[j] != '#' {
			j++
		}
		r = append(r, k[i:j])
		i = j
	}
	return r
}

func (e *Eng) access(content *Term, steps []string, idx []*Term, typ types.Type) *Term {
	for _, s := range steps {
		if s == "#" {
			content = e.index(content, idx[0])
			idx = idx[1:]
			if at := elemType(typ); at != nil {
				typ = at
			}
			e.setTyp(content, typ)
			continue
		}
		n := 0
		fmt.Sscanf(s, ".%d", &n)
		var ft types.Type
		if typ != nil {
			if st, ok := typ.Underlying().(*types.Struct); ok && n < st.NumFields() {
				ft = st.Field(n).Type()
			}
		}
		content = e.field(content, n, ft)
		typ = ft
	}
	return content
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return types.Typ[types.Byte]
		}
	}
	return nil
}

func (e *Eng) setTyp(t *Term, typ types.Type) {
	if t.typ == nil && typ != nil {
		t.typ = typ
	}
	if t.op == "phi" {
		for _, a := range t.args {
			e.setTyp(a, typ)
		}
	}
}

func (e *Eng) update(content *Term, steps []string, idx []*Term, typ types.Type, v *Term) *Term {
	if len(steps) == 0 {
		return v
	}
	if content.op == "phi" {
		return e.lift(content, func(c *Term) *Term { return e.update(c, steps, idx, typ, v) })
	}
	s := steps[0]
	if s == "#" {
		sub := e.index(content, idx[0])
		at := elemType(typ)
		e.setTyp(sub, at)
		if content.op == "nil" || content.op == "nilslice" {
			return content
		}
		return e.storeListPhi(content, idx[0], e.update(sub, steps[1:], idx[1:], at, v))
	}
	n := 0
	fmt.Sscanf(s, ".%d", &n)
	var st *types.Struct
	if typ != nil {
		st, _ = typ.Underlying().(*types.Struct)
	}
	if content.op != "struct" {
		if st == nil {
			return e.mk("unknown", "update", typ)
		}
		args := make([]*Term, st.NumFields())
		for i := range args {
			args[i] = e.field(content, i, st.Field(i).Type())
		}
		content = e.mk("struct", "", typ, args...)
	}
	var ft types.Type
	if st != nil {
		ft = st.Field(n).Type()
	}
	na := append([]*Term{}, content.args...)
	na[n] = e.update(na[n], steps[1:], idx, ft, v)
	return e.mkStruct(content.k, content.typ, na...)
}

func (e *Eng) storeListPhi(content, i, v *Term) *Term {
	if i.op == "phi" {
		var gs []gv
		for _, x := range e.leaves(i) {
			gs = append(gs, gv{x.g, e.storeList(content, x.t, v)})
		}
		return e.phi(gs)
	}
	return e.storeList(content, i, v)
}

// mkStruct re-forms field-by-field copies into the original.
func (e *Eng) mkStruct(k string, typ types.Type, args ...*Term) *Term {
	if len(args) > 0 && args[0].op == "field" && args[0].k == "0" {
		src := args[0].args[0]
		same := src.typ != nil && typ != nil && types.Identical(src.typ, typ)
		for i, a := range args {
			if a.op != "field" || a.args[0] != src || a.k != fmt.Sprint(i) {
				same = false
			}
		}
		if same {
			return src
		}
	}
	return e.mk("struct", k, typ, args...)
}

// content of an object
func (e *Eng) content(mem *Mem, o *Object) *Term {
	if t, ok := mem.m[o]; ok {
		return t
	}
	if o.initTerm != nil {
		return o.initTerm
	}
	return e.mk("unknown", "obj"+o.key, o.typ)
}

func pointee(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// extObj makes an object for the pointee of an unknown pointer.
func (e *Eng) extObj(p *Term, typ types.Type) *Object {
	o := e.object("ext:"+fmt.Sprint(p.id), "ext", typ)
	o.ext = true
	if o.initTerm == nil {
		o.initTerm = e.mk("deref", "", typ, p)
	}
	return o
}

func (e *Eng) load(f *frame, p *Term, typ types.Type, in ssa.Instruction) *Term {
	mem := f.mem
	switch p.op {
	case "phi":
		var gs []gv
		for i, a := range p.args {
			gs = append(gs, gv{p.bs[i], e.load(f, a, typ, in)})
		}
		return e.phi(gs)
	case "ptr":
		r := e.access(e.content(mem, p.obj), pathSteps(p.k), p.args, p.obj.typ)
		e.setTyp(r, typ)
		return r
	case "eptr":
		base := e.resolve(mem, p.args[0])
		r := e.access(e.index(base, p.args[1]), pathSteps(p.k), p.args[2:], elemTypeOfEptr(p))
		if p.k == "" {
			e.setTyp(r, typ)
		}
		return r
	case "nil":
		e.event("nilderef", f, in, "load through nil pointer")
		return e.mk("undef", "", typ)
	}
	if !e.nonnil[p] {
		e.eventPC("nilderef", f, in, "pointer may be nil", e.bdd.And(f.pc, e.isNil(p)), p)
	}
	o := e.extObj(p, typ)
	r := e.content(mem, o)
	e.setTyp(r, typ)
	return r
}

func elemTypeOfEptr(p *Term) types.Type {
	if t, ok := p.aux.(types.Type); ok {
		return t
	}
	return nil
}

func (e *Eng) store(f *frame, p, v *Term, in ssa.Instruction) {
	switch p.op {
	case "phi":
		// weak update of each target
		for i, a := range p.args {
			old := e.load(f, a, v.typ, in)
			e.store(f, a, e.phi([]gv{{p.bs[i], v}, {e.bdd.Not(p.bs[i]), old}}), in)
		}
		return
	case "ptr":
		if p.obj.ext {
			e.event("store-ext", f, in, "write to memory the caller owns", p, v)
		}
		if p.obj.kind == "global" && !e.initing {
			e.event("store-global", f, in, "write to package-level variable", p, v)
		}
		e.foreign(f, p.obj, in, p, v)
		c := e.content(f.mem, p.obj)
		f.mem.m[p.obj] = e.update(c, pathSteps(p.k), p.args, p.obj.typ, v)
		return
	case "eptr":
		e.storeElem(f, p.args[0], p.args[1], p, v, in)
		return
	case "nil":
		e.event("nilderef", f, in, "store through nil pointer")
		return
	}
	o := e.extObj(p, v.typ)
	e.event("store-ext", f, in, "write to memory the caller owns", p, v)
	f.mem.m[o] = v
}

func (e *Eng) storeElem(f *frame, base, idx, p, v *Term, in ssa.Instruction) {
	if e.stable && e.setStore(f, base, idx, p, v, in) {
		return
	}
	upd := func(c *Term) *Term {
		return e.storeListPhi(c, idx, e.update(e.index(c, idx), pathSteps(p.k), p.args[2:], elemTypeOfEptr(p), v))
	}
	switch base.op {
	case "sref":
		e.foreign(f, base.obj, in, base, v)
		c := e.content(f.mem, base.obj)
		f.mem.m[base.obj] = upd(c)
		return
	case "slice":
		if base.args[0].op == "sref" {
			o := base.args[0].obj
			e.foreign(f, o, in, base, v)
			c := e.content(f.mem, o)
			i := e.add(base.args[1], idx)
			f.mem.m[o] = e.storeListPhi(c, i, e.update(e.index(c, i), pathSteps(p.k), p.args[2:], elemTypeOfEptr(p), v))
			return
		}
	case "aslice":
		// slice of a local array: args[0] is the pointer to it
		q := base.args[0]
		np := e.mk3("ptr", q.k+"#"+p.k, q.obj, p.typ, append(append(append([]*Term{}, q.args...), e.add(base.args[1], idx)), p.args[2:]...)...)
		e.store(f, np, v, in)
		return
	case "phi":
		for i, a := range base.args {
			old := e.index(e.resolve(f.mem, a), idx)
			nv := e.phi([]gv{{base.bs[i], v}, {e.bdd.Not(base.bs[i]), old}})
			e.storeElem(f, a, idx, p, nv, in)
		}
		return
	}
	e.writes("store-ext", f, in, "write to an element of a slice the function does not own", base, idx, v)
	o := e.overlay(base)
	c := e.resolve(f.mem, base)
	f.mem.m[o] = upd(c)
}

// foreign reports a write to memory made by a package initialiser or by the
// constructor of the value the analysed method is called on.
func (e *Eng) foreign(f *frame, o *Object, in ssa.Instruction, args ...*Term) {
	if e.initing || o.kind == "global" {
		return
	}
	if strings.HasPrefix(o.key, "init:") {
		e.event("store-global", f, in, "write to memory made at package initialisation", args...)
	}
	if strings.HasPrefix(o.key, "new/") && f.ctx != "new" && !strings.HasPrefix(f.ctx, "new/") {
		e.event("store-ext", f, in, "write to memory of the parser itself", args...)
	}
}

func (e *Eng) mk3(op, k string, o *Object, typ types.Type, args ...*Term) *Term {
	return e.intern(Term{op: op, k: k, obj: o, typ: typ, args: args})
}

func (e *Eng) overlay(base *Term) *Object {
	o := e.object("ov:"+fmt.Sprint(base.id), "overlay", nil)
	if o.initTerm == nil {
		o.initTerm = base
	}
	return o
}

// freshSlice: memory allocated by the analysed code. What a loop variable
// holds is known once the loop has been analysed; see settleOwn.
func (e *Eng) freshSlice(t *Term) bool { return e.fresh(t, map[*Term]bool{}) }

func (e *Eng) fresh(t *Term, seen map[*Term]bool) bool {
	switch t.op {
	case "list", "zeros", "nilslice", "nil", "aslice", "bytes":
		return true
	case "sref":
		return !t.obj.ext && !foreignKey(t.obj.key) || e.initing
	case "call":
		return t.k == "setbytes" || t.k == "bytesof" || t.k == "sorted"
	case "slice", "store":
		return e.fresh(t.args[0], seen)
	case "mu":
		if seen[t] {
			return true
		}
		seen[t] = true
		lv, ok := t.aux.(*LoopVar)
		return ok && e.fresh(lv.init, seen) && (lv.next == nil || e.fresh(lv.next, seen))
	case "phi":
		for _, a := range t.args {
			if !e.fresh(a, seen) {
				return false
			}
		}
		return true
	case "mget":
		return e.freshValues(t.args[0], seen)
	}
	return false
}

// freshValues: every value of the map is memory allocated by the analysed code.
func (e *Eng) freshValues(m *Term, seen map[*Term]bool) bool {
	switch m.op {
	case "mapempty", "nil":
		return true
	case "mapstore":
		return e.fresh(m.args[2], seen) && e.freshValues(m.args[0], seen)
	case "mapadd":
		return e.fresh(m.args[1].args[2], seen) && e.freshValues(m.args[0], seen)
	case "mapdel", "mapfilter":
		return e.freshValues(m.args[0], seen)
	case "mapunion":
		return e.freshValues(m.args[0], seen) && e.freshValues(m.args[1], seen)
	case "mu":
		if seen[m] {
			return true
		}
		seen[m] = true
		lv, ok := m.aux.(*LoopVar)
		return ok && e.freshValues(lv.init, seen) && (lv.next == nil || e.freshValues(lv.next, seen))
	case "phi":
		for _, a := range m.args {
			if !e.freshValues(a, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// settleOwn drops the reports of writes whose target turns out to be memory
// allocated by the analysed code, now that every loop is known.
func (e *Eng) settleOwn() {
	var out []*Event
	for _, ev := range e.events {
		if (ev.kind == "append-ext" || ev.kind == "store-ext") && ev.settle && e.freshSlice(ev.args[0]) {
			continue
		}
		out = append(out, ev)
	}
	e.events = out
}

// writes reports a write through the slice t unless it is certainly memory
// of the analysed code.
func (e *Eng) writes(kind string, f *frame, in ssa.Instruction, what string, t *Term, rest ...*Term) {
	if e.freshSlice(t) && !e.findMu(t) {
		return
	}
	n := len(e.events)
	e.event(kind, f, in, what, append([]*Term{t}, rest...)...)
	for _, ev := range e.events[n:] {
		ev.settle = true
	}
}

func (e *Eng) findMu(t *Term) bool {
	switch t.op {
	case "mu", "mget":
		return true
	case "slice", "store":
		return e.findMu(t.args[0])
	case "phi":
		for _, a := range t.args {
			if e.findMu(a) {
				return true
			}
		}
	}
	return false
}

// resolve gives the list content of a slice value.
func (e *Eng) resolve(mem *Mem, t *Term) *Term {
	switch t.op {
	case "sref":
		return e.content(mem, t.obj)
	case "aslice":
		q := t.args[0]
		c := e.access(e.content(mem, q.obj), pathSteps(q.k), q.args, q.obj.typ)
		return e.slice(c, t.args[1], t.args[2])
	case "slice":
		if t.args[0].op == "sref" || t.args[0].op == "aslice" {
			return e.slice(e.resolve(mem, t.args[0]), t.args[1], t.args[2])
		}
	case "phi":
		return e.lift(t, func(x *Term) *Term { return e.resolve(mem, x) })
	}
	if o, ok := e.objs["ov:"+fmt.Sprint(t.id)]; ok {
		if c, ok := mem.m[o]; ok {
			return c
		}
	}
	if t.op == "slice" {
		if c := e.resolve(mem, t.args[0]); c != t.args[0] {
			return e.slice(c, t.args[1], t.args[2])
		}
	}
	return t
}

// freeze replaces references to local memory by the contents.
func (e *Eng) freeze(mem *Mem, t *Term) *Term { return e.freezeSel(mem, t, nil, map[*Term]*Term{}) }

func (e *Eng) freezeSel(mem *Mem, t *Term, sel func(*Object) bool, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		if r == nil {
			return e.mk("cyc", "", nil)
		}
		return r
	}
	switch t.op {
	case "sref", "mref", "ptr":
		if t.obj.ext || t.obj.kind == "global" || (sel != nil && !sel(t.obj)) {
			return t
		}
		memo[t] = nil
		var r *Term
		c := e.content(mem, t.obj)
		switch t.op {
		case "sref":
			r = e.freezeSel(mem, c, sel, memo)
		case "mref":
			r = e.mk("fmap", "", t.typ, e.freezeSel(mem, c, sel, memo))
		default:
			c = e.access(c, pathSteps(t.k), t.args, t.obj.typ)
			r = e.mk("fptr", "", t.typ, e.freezeSel(mem, c, sel, memo))
		}
		memo[t] = r
		return r
	}
	if t.op == "aslice" {
		return e.freezeSel(mem, e.resolve(mem, t), sel, memo)
	}
	if o, ok := e.objs["ov:"+fmt.Sprint(t.id)]; ok && (sel == nil || sel(o)) {
		if c, ok := mem.m[o]; ok && c != t {
			// the content is written in terms of what was there before
			r := e.freezeSel(mem, c, sel, map[*Term]*Term{t: t})
			memo[t] = r
			return r
		}
	}
	if len(t.args) == 0 && t.op != "bool" || t.op == "lin" {
		return t
	}
	memo[t] = nil
	na := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		if i == 0 && (t.op == "store" || t.op == "index" || t.op == "all" || t.op == "sub") && a.op != "sref" && a.op != "aslice" {
			// what was read from memory earlier
			if o, ok := e.objs["ov:"+fmt.Sprint(a.id)]; ok && mem.m[o] != nil {
				na[i] = a
				continue
			}
		}
		na[i] = e.freezeSel(mem, a, sel, memo)
		ch = ch || na[i] != a
	}
	r := t
	if ch {
		if t.op == "phi" {
			var gs []gv
			for i := range na {
				gs = append(gs, gv{t.bs[i], na[i]})
			}
			r = e.phi(gs)
		} else {
			r = e.rebuild(t, na, t.b)
		}
	}
	memo[t] = r
	return r
}

// ---- events

func (e *Eng) event(kind string, f *frame, in ssa.Instruction, what string, args ...*Term) {
	e.eventPC(kind, f, in, what, f.pc, args...)
}

func (e *Eng) eventPC(kind string, f *frame, in ssa.Instruction, what string, pc B, args ...*Term) {
	if pc == False || !e.sat(pc) {
		return
	}
	ev := &Event{kind: kind, pc: pc, args: args, what: what, ctx: f.ctx, fn: f.fn, instr: in}
	if in != nil {
		ev.pos = in.Pos()
	}
	ev.loops = append([]*LoopInst{}, e.loops...)
	if f.mem != nil {
		ev.mem = f.mem.clone()
	}
	e.events = append(e.events, ev)
}

func (e *Eng) evPos(ev *Event) string {
	p := e.P.pos(ev.pos)
	if p == "-" && ev.instr != nil {
		// nearest position in the block
		for _, i := range ev.instr.Block().Instrs {
			if i.Pos().IsValid() {
				p = e.P.pos(i.Pos())
				break
			}
		}
	}
	fn := ""
	if ev.fn != nil {
		fn = ev.fn.RelString(nil)
	}
	return p + " (" + short(fn) + ")"
}

// ---- function evaluation

type frame struct {
	fn    *ssa.Function
	ctx   string
	env   map[ssa.Value]*Term
	pc    B
	mem   *Mem
	li    *loopForest
	rets  []retRec
	depth int
	cur   *ssa.BasicBlock

	defers []deferred
}

// deferred is a call to be made before returning.
type deferred struct {
	in   *ssa.Defer
	pc   B
	args []*Term
	fv   *Term
}

type retRec struct {
	pc   B
	vals []*Term
	mem  *Mem
	pos  token.Pos
}

type edgeIn struct {
	from *ssa.BasicBlock
	to   *ssa.BasicBlock
	pc   B
	mem  *Mem
	env  map[*ssa.Phi]*Term // values of the phis of 'to' along this edge
}

type result struct {
	pc   B
	vals []*Term
	mem  *Mem
	rets []retRec
}

type abort struct{ msg string }

func (e *Eng) burn() {
	e.fuel--
	if e.fuel < 0 {
		panic(abort{"analysis budget exhausted"})
	}
}

// call evaluates fn on args from the given state.
func (e *Eng) call(fn *ssa.Function, args []*Term, free []*Term, pc B, mem *Mem, ctx string) result {
	if len(e.stack) > 60 {
		panic(abort{"call depth"})
	}
	e.fnsSeen[fn] = true
	f := &frame{fn: fn, ctx: ctx, env: map[ssa.Value]*Term{}, pc: pc, mem: mem}
	for i, p := range fn.Params {
		f.env[p] = args[i]
		e.setTyp(args[i], p.Type())
	}
	for i, fv := range fn.FreeVars {
		f.env[fv] = free[i]
	}
	f.li = loopsOf(fn)
	e.stack = append(e.stack, fn)
	e.argStack = append(e.argStack, args)
	e.prints = append(e.prints, e.closurePrint(mem, append(append([]*Term{}, args...), free...)))
	in := map[*ssa.BasicBlock][]edgeIn{fn.Blocks[0]: {{nil, fn.Blocks[0], pc, mem, nil}}}
	e.evalBlocks(f, f.li.rpo, in, nil, nil)
	e.stack = e.stack[:len(e.stack)-1]
	e.argStack = e.argStack[:len(e.argStack)-1]
	e.prints = e.prints[:len(e.prints)-1]
	if len(e.stack) == 0 {
		e.settleOwn()
	}
	// merge returns
	r := result{pc: False, rets: f.rets}
	if len(f.rets) == 0 {
		r.mem = mem
		return r
	}
	for _, x := range f.rets {
		r.pc = e.bdd.Or(r.pc, x.pc)
	}
	n := len(f.rets[0].vals)
	for i := 0; i < n; i++ {
		var gs []gv
		for _, x := range f.rets {
			gs = append(gs, gv{x.pc, x.vals[i]})
		}
		r.vals = append(r.vals, e.elim(e.under(e.phi(gs), r.pc), r.pc))
	}
	var ms []gmem
	for _, x := range f.rets {
		ms = append(ms, gmem{x.pc, x.mem})
	}
	r.mem = e.mergeMem(ms, r.pc)
	return r
}

type gmem struct {
	g B
	m *Mem
}

func (e *Eng) mergeMem(ms []gmem, pc B) *Mem {
	r := e.mergeMem1(ms, pc)
	if e.stable {
		for o, t := range r.m {
			if t.op == "set" || t.op == "bool" {
				r.m[o] = e.elim(t, pc)
			}
		}
	}
	return r
}

func (e *Eng) mergeMem1(ms []gmem, pc B) *Mem {
	if len(ms) == 1 {
		return ms[0].m.clone()
	}
	r := newMem()
	seen := map[*Object]bool{}
	for _, x := range ms {
		for o := range x.m.m {
			if seen[o] {
				continue
			}
			seen[o] = true
			same := true
			var first *Term
			for i, y := range ms {
				t, ok := y.m.m[o]
				if !ok {
					t = o.initTerm
				}
				if i == 0 {
					first = t
				} else if t != first {
					same = false
				}
			}
			if same {
				if first != nil {
					r.m[o] = first
				}
				continue
			}
			var gs []gv
			for _, y := range ms {
				t, ok := y.m.m[o]
				if !ok {
					t = o.initTerm
				}
				if t == nil {
					continue // not allocated on that path: never read there
				}
				gs = append(gs, gv{y.g, t})
			}
			r.m[o] = e.under(e.phi(gs), pc)
		}
	}
	return r
}

// evalBlocks evaluates blocks in order; edges to header (of the loop being
// evaluated) and out of the set are handed back.
func (e *Eng) evalBlocks(f *frame, order []*ssa.BasicBlock, in map[*ssa.BasicBlock][]edgeIn, cur *natLoop, out *loopOut) {
	for _, b := range order {
		if cur != nil && !cur.body[b] {
			continue
		}
		es := in[b]
		if len(es) == 0 {
			continue
		}
		inner := f.li.innermost(b)
		if inner != cur {
			if inner != nil && inner.header == b && inner.parentIs(cur) {
				exits := e.evalLoop(f, inner, es)
				for _, x := range exits {
					e.route(f, x, in, cur, out)
				}
			}
			// blocks of inner loops are evaluated with the loop
			if inner != nil && cur.contains(inner) {
				continue
			}
		}
		if cur != nil && b == cur.header && out != nil && !out.started {
			out.started = true
		}
		e.evalBlock(f, b, es, in, cur, out)
	}
}

func (e *Eng) route(f *frame, x edgeIn, in map[*ssa.BasicBlock][]edgeIn, cur *natLoop, out *loopOut) {
	if x.pc == False || !e.sat(x.pc) {
		return
	}
	if cur != nil {
		if x.to == cur.header {
			out.back = append(out.back, x)
			return
		}
		if !cur.body[x.to] {
			out.exits = append(out.exits, x)
			return
		}
	}
	in[x.to] = append(in[x.to], x)
}

func (e *Eng) enter(f *frame, b *ssa.BasicBlock, es []edgeIn) {
	pc := False
	for _, x := range es {
		pc = e.bdd.Or(pc, x.pc)
	}
	var ms []gmem
	for _, x := range es {
		ms = append(ms, gmem{x.pc, x.mem})
	}
	f.pc = pc
	f.mem = e.mergeMem(ms, pc)
	f.cur = b
	// phis
	nv := map[*ssa.Phi]*Term{}
	for _, i := range b.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		var gs []gv
		for _, x := range es {
			gs = append(gs, gv{x.pc, x.env[ph]})
		}
		t := e.elim(e.under(e.phi(gs), pc), pc)
		e.setTyp(t, ph.Type())
		nv[ph] = t
	}
	for k, v := range nv {
		f.env[k] = v
	}
}

func (e *Eng) evalBlock(f *frame, b *ssa.BasicBlock, es []edgeIn, in map[*ssa.BasicBlock][]edgeIn, cur *natLoop, out *loopOut) {
	if !(cur != nil && b == cur.header) {
		e.enter(f, b, es)
	}
	for _, instr := range b.Instrs {
		if _, ok := instr.(*ssa.Phi); ok {
			continue
		}
		e.burn()
		e.instrs++
		switch x := instr.(type) {
		case *ssa.If:
			c := e.boolOf(e.val(f, x.Cond))
			if e.stable {
				c = e.settled(f.pc, c)
			}
			e.branch(f, b, 0, c, in, cur, out)
			e.branch(f, b, 1, e.bdd.Not(c), in, cur, out)
		case *ssa.Jump:
			e.branch(f, b, 0, True, in, cur, out)
		case *ssa.Return:
			var vs []*Term
			for _, r := range x.Results {
				vs = append(vs, e.under(e.val(f, r), f.pc))
			}
			f.rets = append(f.rets, retRec{f.pc, vs, f.mem, x.Pos()})
		case *ssa.Panic:
			e.event("panic", f, instr, "explicit panic", e.val(f, x.X))
			return
		default:
			if !e.step(f, instr) {
				return // does not continue
			}
		}
	}
}

func (e *Eng) branch(f *frame, b *ssa.BasicBlock, succ int, c B, in map[*ssa.BasicBlock][]edgeIn, cur *natLoop, out *loopOut) {
	pc := e.bdd.And(f.pc, c)
	if pc == False || !e.sat(pc) {
		return
	}
	to := b.Succs[succ]
	env := map[*ssa.Phi]*Term{}
	// which predecessor index (a block can be twice a predecessor)
	pi := -1
	for i, p := range to.Preds {
		if p == b {
			pi = i
			if len(b.Succs) == 2 && b.Succs[0] == b.Succs[1] && succ == 1 {
				// second occurrence
				for j := i + 1; j < len(to.Preds); j++ {
					if to.Preds[j] == b {
						pi = j
					}
				}
			}
			break
		}
	}
	for _, i := range to.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		env[ph] = e.under(e.val(f, ph.Edges[pi]), pc)
	}
	e.route(f, edgeIn{b, to, pc, f.mem.clone(), env}, in, cur, out)
}

func (e *Eng) val(f *frame, v ssa.Value) *Term {
	if t, ok := f.env[v]; ok {
		if t.op == "phi" || t.op == "bool" || t.op == "struct" {
			return e.under(t, f.pc)
		}
		return t
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return e.zeroTerm(x.Type())
		}
		if isBool(x.Type()) {
			if x.Value.ExactString() == "true" {
				return e.boolTerm(True)
			}
			return e.boolTerm(False)
		}
		if e.bits {
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return e.vecOfConst(x)
			}
		}
		return e.constTerm(x.Value, x.Type())
	case *ssa.Function:
		return e.intern(Term{op: "func", fn: x, typ: x.Type()})
	case *ssa.Global:
		o := e.object("glob:"+x.RelString(nil), "global", pointee(x.Type()))
		if o.initTerm == nil {
			if c, ok := e.globals[x]; ok && c != nil {
				o.initTerm = c
			} else {
				o.initTerm = e.mk("global", x.RelString(nil), pointee(x.Type()))
			}
		}
		return e.objTerm("ptr", o, x.Type())
	case *ssa.Builtin:
		return e.mk("builtin", x.Name(), nil)
	}
	if e.initing {
		return e.mk("unknown", v.Name(), v.Type())
	}
	return e.mk("unknown", f.ctx+v.Name(), v.Type())
}

// ---- loops (structure)

type natLoop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	parent *natLoop
}

func (l *natLoop) parentIs(p *natLoop) bool { return l.parent == p }
func (l *natLoop) contains(x *natLoop) bool {
	if l == nil {
		return true
	}
	for y := x; y != nil; y = y.parent {
		if y == l {
			return true
		}
	}
	return false
}

type loopForest struct {
	rpo   []*ssa.BasicBlock
	loops []*natLoop
	in    map[*ssa.BasicBlock]*natLoop
}

func (lf *loopForest) innermost(b *ssa.BasicBlock) *natLoop { return lf.in[b] }

var forestMemo = map[*ssa.Function]*loopForest{}

func loopsOf(fn *ssa.Function) *loopForest {
	if r, ok := forestMemo[fn]; ok {
		return r
	}
	lf := &loopForest{in: map[*ssa.BasicBlock]*natLoop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i := len(post) - 1; i >= 0; i-- {
		lf.rpo = append(lf.rpo, post[i])
	}
	byH := map[*ssa.BasicBlock]*natLoop{}
	for _, b := range lf.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := byH[s]
				if l == nil {
					l = &natLoop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					byH[s] = l
					lf.loops = append(lf.loops, l)
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.body[x] || !seen[x] {
						continue
					}
					l.body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	// nesting: smaller bodies inside larger
	sort.SliceStable(lf.loops, func(i, j int) bool { return len(lf.loops[i].body) < len(lf.loops[j].body) })
	for i, l := range lf.loops {
		for _, m := range lf.loops[i+1:] {
			if m.body[l.header] {
				l.parent = m
				break
			}
		}
		for b := range l.body {
			if lf.in[b] == nil {
				lf.in[b] = l
			}
		}
	}
	forestMemo[fn] = lf
	return lf
}
