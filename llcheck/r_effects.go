package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Call graph and whole-program effect rules (C30, C31).

func init() {
	reg("C30", "effect classification over the call graph", checkC30)
	reg("C31", "dependence analysis on map order and state", checkC31)
}

const libPrefix = modPath + "/pkg/"

func isLib(sp *ssa.Package) bool {
	return sp != nil && strings.HasPrefix(sp.Pkg.Path()+"/", libPrefix)
}

// Reach is the part of the library that its exported functions can reach.
type Reach struct {
	p     *Prog
	fns   []*ssa.Function
	in    map[*ssa.Function]bool
	from  map[*ssa.Function]*ssa.Function
	inits map[*ssa.Function]bool
	taken []*ssa.Function // functions used as values
	roots int
}

func (p *Prog) implementers(it *types.Interface) []types.Type {
	var r []types.Type
	for _, c := range p.all {
		if types.IsInterface(c) {
			continue
		}
		if types.Implements(c, it) {
			r = append(r, c)
		}
		if pt := types.NewPointer(c); types.Implements(pt, it) {
			r = append(r, pt)
		}
	}
	return r
}

func inModule(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath)
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return strings.HasPrefix(o.Pkg().Path(), modPath)
	}
	// wrappers and thunks
	return len(fn.Blocks) > 0
}

func newReach(p *Prog) *Reach {
	r := &Reach{p: p, in: map[*ssa.Function]bool{}, from: map[*ssa.Function]*ssa.Function{}, inits: map[*ssa.Function]bool{}}
	var work []*ssa.Function
	add := func(f, from *ssa.Function) {
		if f == nil || r.in[f] || !inModule(f) {
			return
		}
		r.in[f] = true
		r.from[f] = from
		r.fns = append(r.fns, f)
		work = append(work, f)
	}
	var paths []string
	for k := range p.pkgs {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		sp := p.pkgs[k]
		if !isLib(sp) {
			continue
		}
		for _, f := range p.pkgFuncs(sp) {
			if f.Object() != nil && f.Object().Exported() {
				r.roots++
				add(f, nil)
			}
		}
	}
	drain := func() {
		for len(work) > 0 {
			f := work[0]
			work = work[1:]
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok {
							if ci, isCall := in.(ssa.CallInstruction); !isCall || ci.Common().Value != *op {
								r.taken = append(r.taken, g)
							}
							add(g, f)
						}
					}
					if ci, ok := in.(ssa.CallInstruction); ok {
						for _, g := range r.callees(ci) {
							add(g, f)
						}
					}
					if mi, ok := in.(*ssa.MakeInterface); ok {
						// methods an outside caller (fmt, sort) can reach
						ms := p.prog.MethodSets.MethodSet(mi.X.Type())
						for i := 0; i < ms.Len(); i++ {
							add(p.prog.MethodValue(ms.At(i)), f)
						}
					}
				}
			}
		}
	}
	drain()
	// package initialisers run before everything else
	n := len(r.fns)
	for _, k := range paths {
		if isLib(p.pkgs[k]) {
			add(p.pkgs[k].Func("init"), nil)
		}
	}
	drain()
	for _, f := range r.fns[n:] {
		r.inits[f] = true
	}
	return r
}

// callees: module functions a call can reach.
func (r *Reach) callees(ci ssa.CallInstruction) []*ssa.Function {
	c := ci.Common()
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if c.IsInvoke() {
		it, ok := c.Value.Type().Underlying().(*types.Interface)
		if !ok {
			return nil
		}
		var out []*ssa.Function
		for _, t := range r.p.implementers(it) {
			if sel := r.p.prog.MethodSets.MethodSet(t).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
				out = append(out, r.p.prog.MethodValue(sel))
			}
		}
		return out
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	var out []*ssa.Function
	sig := c.Signature()
	for _, f := range r.taken {
		if types.Identical(f.Signature, sig) {
			out = append(out, f)
		}
	}
	return out
}

func (r *Reach) path(f *ssa.Function) string {
	var s []string
	for x := f; x != nil && len(s) < 8; x = r.from[x] {
		s = append([]string{strings.TrimPrefix(x.RelString(nil), modPath+"/")}, s...)
	}
	return strings.Join(s, " → ")
}

// outside classifies a reference to something outside the module: "" when it
// has no effect beyond its arguments.
func outside(o types.Object) string {
	if o == nil || o.Pkg() == nil {
		return ""
	}
	path, name := o.Pkg().Path(), o.Name()
	has := func(l string) bool {
		for _, x := range strings.Fields(l) {
			if x == name {
				return true
			}
		}
		return false
	}
	recv := ""
	if f, ok := o.(*types.Func); ok {
		if s, ok := f.Type().(*types.Signature); ok && s.Recv() != nil {
			recv = s.Recv().Type().String()
		}
	}
	switch path {
	case "fmt":
		if recv == "" && (has("Print Println Printf Scan Scanln Scanf")) {
			return "uses the standard streams"
		}
	case "os":
		if v, ok := o.(*types.Var); ok && !v.IsField() && strings.HasPrefix(name, "Err") {
			return ""
		}
		if _, ok := o.(*types.TypeName); ok {
			return ""
		}
		if has("IsExist IsNotExist IsPermission IsTimeout IsPathSeparator Expand") {
			return ""
		}
		return "touches the operating system"
	case "log", "log/slog":
		return "writes to the log"
	case "syscall", "plugin", "os/exec", "os/signal", "os/user", "net", "net/http", "expvar", "flag", "testing", "runtime/debug", "runtime/pprof", "runtime/trace", "net/url_":
		if has("ParseIP ParseCIDR") {
			return ""
		}
		return "touches the operating system or the process"
	case "io/ioutil":
		if has("ReadAll NopCloser Discard") {
			return ""
		}
		return "touches files"
	case "path/filepath":
		if has("Abs EvalSymlinks Glob Walk WalkDir") {
			return "touches files"
		}
	case "time":
		if recv == "" && has("Now Since Until Sleep After AfterFunc Tick NewTimer NewTicker LoadLocation") {
			return "reads the time"
		}
	case "math/rand", "math/rand/v2", "crypto/rand", "hash/maphash":
		return "reads randomness"
	case "runtime":
		if has("Goexit GC GOMAXPROCS LockOSThread UnlockOSThread Breakpoint SetFinalizer Gosched NumGoroutine ReadMemStats NumCPU Stack Caller Callers") && recv == "" {
			return "depends on or acts on the process"
		}
	}
	return ""
}

func (c *Check) reach() *Reach {
	return cached(c, "reach", func() *Reach { return newReach(c.P) })
}

func instrPos(p *Prog, f *ssa.Function, in ssa.Instruction) string {
	if in != nil && in.Pos().IsValid() {
		return p.pos(in.Pos())
	}
	return p.pos(f.Pos())
}

func checkC30(c *Check) {
	r := c.reach()
	refs, calls := 0, 0
	for _, f := range r.fns {
		c.fns[strings.TrimPrefix(f.RelString(nil), modPath+"/")] = true
		if len(f.Blocks) == 0 && f.Synthetic == "" {
			c.fail("effects", c.P.pos(f.Pos()), "every function of the library has a body to analyse", r.path(f))
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c.ni++
				if _, ok := in.(*ssa.Go); ok {
					c.fail("goroutine", instrPos(c.P, f, in), "no goroutine is started", r.path(f))
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					calls++
					cm := ci.Common()
					if bi, ok := cm.Value.(*ssa.Builtin); ok && (bi.Name() == "print" || bi.Name() == "println") {
						c.fail("calls", instrPos(c.P, f, in), "nothing is written to a standard stream", bi.Name()+" on "+r.path(f))
					}
					if cm.IsInvoke() {
						if w := outside(cm.Method); w != "" {
							refs++
							c.fail("calls", instrPos(c.P, f, in), "no effect outside the arguments", cm.Method.FullName()+" "+w+": "+r.path(f))
						}
					}
				}
				for _, op := range in.Operands(nil) {
					var o types.Object
					switch g := (*op).(type) {
					case *ssa.Function:
						if !inModule(g) {
							o = g.Object()
						}
					case *ssa.Global:
						if g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
							o = g.Object()
						}
					default:
						continue
					}
					if o == nil {
						continue
					}
					refs++
					if w := outside(o); w != "" {
						c.fail("calls", instrPos(c.P, f, in), "no effect outside the arguments", o.Pkg().Path()+"."+o.Name()+" "+w+": "+r.path(f))
					}
				}
			}
		}
	}
	c.ob("calls", "pkg/...", "every function and variable of another module that the library can reach is free of effects", true, "")
	ws := c.globalWrites()
	for _, w := range ws {
		c.fail("state", w.where, "package-level state is never changed after initialisation", w.what+": "+r.path(w.fn))
	}
	c.ob("state", "pkg/...", "writes through memory reachable from package-level variables were searched for", true, "")
	c.note["exported_roots"] = r.roots
	c.note["reachable_functions"] = len(r.fns)
	c.note["call_sites"] = calls
	c.note["outside_references"] = refs
}

// ---- writes to package-level state

type gwrite struct {
	fn    *ssa.Function
	where string
	what  string
	glob  *ssa.Global
}

func hasRefs(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Array:
		return hasRefs(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasRefs(u.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

type gflow struct {
	writes []gwrite
	rets   map[retOf]*ssa.Global // results that are memory a global refers to
}

// retOf is one of the results of a function.
type retOf struct {
	f *ssa.Function
	i int
}

func (c *Check) globalFlow() gflow {
	return cached(c, "gwrites", func() gflow {
		w, r := findGlobalWrites(c.P, c.reach())
		return gflow{w, r}
	})
}

func (c *Check) globalWrites() []gwrite { return c.globalFlow().writes }

// ownResult: nothing the function returns is memory that a package-level
// variable refers to. Errors hold nothing that can be changed.
func (c *Check) ownResult(f *ssa.Function, what string) {
	d := ""
	for i := 0; i < f.Signature.Results().Len(); i++ {
		g := c.globalFlow().rets[retOf{f, i}]
		if g != nil && !types.Identical(f.Signature.Results().At(i).Type(), types.Universe.Lookup("error").Type()) {
			d = "it can refer to memory of the package-level variable " + g.Name()
		}
	}
	c.ob("own memory", c.P.pos(f.Pos()), what, d == "", d)
}

// slot names a place in memory for the flow of references to globals.
func slotOf(a ssa.Value) any {
	switch x := a.(type) {
	case *ssa.Alloc:
		for _, u := range *x.Referrers() {
			switch y := u.(type) {
			case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.MakeClosure:
				continue
			case *ssa.IndexAddr:
				continue
			case *ssa.Store:
				if y.Val != ssa.Value(x) {
					continue
				}
			}
			// its address is known elsewhere
			return "ptr " + a.Type().String()
		}
		return x
	case *ssa.FieldAddr:
		return fmt.Sprintf("%s.%d", x.X.Type(), x.Field)
	case *ssa.IndexAddr:
		return "elem " + elemOf(x.X.Type()).String()
	case *ssa.FreeVar:
		return x
	}
	return "ptr " + a.Type().String()
}

// elemOf: the type of the elements of a slice, an array or what points to one
func elemOf(T types.Type) types.Type {
	switch u := T.Underlying().(type) {
	case *types.Pointer:
		return elemOf(u.Elem())
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	return types.Typ[types.Invalid]
}

// handedOn: the address of a part is used for more than loads and stores.
func handedOn(a ssa.Value) bool {
	for _, u := range *a.Referrers() {
		switch y := u.(type) {
		case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
			continue
		case *ssa.Store:
			if y.Val != a {
				continue
			}
		}
		return true
	}
	return false
}

// partSlots: the places inside of a value of a struct or array type.
func partSlots(T types.Type) []any {
	var r []any
	switch u := T.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs(u.Field(i).Type()) {
				r = append(r, fmt.Sprintf("%s.%d", types.NewPointer(T), i))
				r = append(r, partSlots(u.Field(i).Type())...)
			}
		}
	case *types.Array:
		if hasRefs(u.Elem()) {
			r = append(r, "elem "+u.Elem().String())
			r = append(r, partSlots(u.Elem())...)
		}
	}
	return r
}

func findGlobalWrites(p *Prog, r *Reach) ([]gwrite, map[retOf]*ssa.Global) {
	taint := map[ssa.Value]*ssa.Global{}
	slots := map[any]*ssa.Global{}
	rets := map[retOf]*ssa.Global{}
	changed := true
	set := func(v ssa.Value, g *ssa.Global) {
		if g == nil || v == nil || taint[v] != nil {
			return
		}
		taint[v] = g
		changed = true
	}
	get := func(v ssa.Value) *ssa.Global {
		if g, ok := v.(*ssa.Global); ok {
			if g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
				return g
			}
			return nil
		}
		return taint[v]
	}
	setSlot := func(k any, g *ssa.Global) {
		if g != nil && slots[k] == nil {
			slots[k] = g
			changed = true
		}
	}
	for changed {
		changed = false
		for _, f := range r.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.UnOp:
						if x.Op == token.MUL && hasRefs(x.Type()) {
							set(x, get(x.X))
							set(x, slots[slotOf(x.X)])
							for _, k := range partSlots(x.Type()) {
								set(x, slots[k])
							}
						}
					case *ssa.Store:
						if hasRefs(x.Val.Type()) {
							setSlot(slotOf(x.Addr), get(x.Val))
							for _, k := range partSlots(x.Val.Type()) {
								setSlot(k, get(x.Val))
							}
						}
					case *ssa.FieldAddr, *ssa.IndexAddr:
						a := in.(ssa.Value)
						set(a, get(*in.Operands(nil)[0]))
						if handedOn(a) {
							k := "ptr " + a.Type().String()
							setSlot(k, slots[slotOf(a)])
							setSlot(slotOf(a), slots[k])
						}
					case *ssa.Field:
						if hasRefs(x.Type()) {
							set(x, get(x.X))
						}
					case *ssa.Index:
						if hasRefs(x.Type()) {
							set(x, get(x.X))
						}
					case *ssa.Slice:
						if _, ok := x.Type().Underlying().(*types.Slice); ok {
							set(x, get(x.X))
						}
					case *ssa.ChangeType:
						set(x, get(x.X))
					case *ssa.ChangeInterface:
						set(x, get(x.X))
					case *ssa.MakeInterface:
						if hasRefs(x.X.Type()) {
							set(x, get(x.X))
						}
					case *ssa.TypeAssert:
						if hasRefs(x.Type()) {
							set(x, get(x.X))
						}
					case *ssa.Extract:
						if hasRefs(x.Type()) {
							set(x, get(x.Tuple))
						}
					case *ssa.Lookup:
						if hasRefs(x.Type()) {
							set(x, get(x.X))
							set(x, slots["map "+x.X.Type().String()])
						}
					case *ssa.Range:
						set(x, get(x.X))
					case *ssa.Next:
						set(x, get(x.Iter))
					case *ssa.Phi:
						for _, ed := range x.Edges {
							set(x, get(ed))
						}
					case *ssa.MapUpdate:
						if hasRefs(x.Value.Type()) {
							setSlot("map "+x.Map.Type().String(), get(x.Value))
						}
					case *ssa.MakeClosure:
						fn := x.Fn.(*ssa.Function)
						for i, bd := range x.Bindings {
							set(fn.FreeVars[i], get(bd))
							setSlot(fn.FreeVars[i], slots[slotOf(bd)])
							setSlot(slotOf(bd), slots[fn.FreeVars[i]])
						}
					case *ssa.Return:
						for i, v := range x.Results {
							if g := get(v); g != nil && hasRefs(v.Type()) && rets[retOf{f, i}] == nil {
								rets[retOf{f, i}] = g
								changed = true
							}
						}
					}
					if ci, ok := in.(ssa.CallInstruction); ok {
						cm := ci.Common()
						args := cm.Args
						for _, g := range r.callees(ci) {
							if g == nil {
								continue
							}
							ps := g.Params
							off := 0
							if cm.IsInvoke() && len(ps) > 0 {
								set(ps[0], get(cm.Value))
								off = 1
							}
							for i, a := range args {
								if i+off < len(ps) && hasRefs(a.Type()) {
									set(ps[i+off], get(a))
								}
							}
							v := ci.Value()
							if v == nil || !hasRefs(v.Type()) {
								continue
							}
							if g.Signature.Results().Len() == 1 {
								set(v, rets[retOf{g, 0}])
							} else {
								for _, u := range *v.Referrers() {
									if x, ok := u.(*ssa.Extract); ok && hasRefs(x.Type()) {
										set(x, rets[retOf{g, x.Index}])
									}
								}
							}
						}
						if bi, ok := cm.Value.(*ssa.Builtin); ok && (bi.Name() == "append" || bi.Name() == "copy") && len(args) > 1 {
							// the elements are copied
							if T := elemOf(args[0].Type()); hasRefs(T) {
								setSlot("elem "+T.String(), get(args[1]))
								for _, k := range partSlots(T) {
									setSlot(k, get(args[1]))
								}
							}
						}
						if v := ci.Value(); v != nil && hasRefs(v.Type()) {
							f := cm.StaticCallee()
							_, bi := cm.Value.(*ssa.Builtin)
							if bi || f != nil && !inModule(f) {
								for i, a := range args {
									if bi && i > 0 && cm.Value.Name() == "append" {
										continue
									}
									if hasRefs(a.Type()) {
										set(v, get(a))
									}
								}
							}
						}
					}
				}
			}
		}
	}
	var out []gwrite
	for _, f := range r.fns {
		if r.inits[f] {
			continue
		}
		add := func(in ssa.Instruction, g *ssa.Global, what string) {
			if g != nil {
				out = append(out, gwrite{f, instrPos(p, f, in), what + " reaches the package-level variable " + g.Name(), g})
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					add(in, get(x.Addr), "a store")
				case *ssa.MapUpdate:
					add(in, get(x.Map), "a map assignment")
				case *ssa.Send:
					add(in, get(x.Chan), "a send")
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cm := ci.Common()
				if bi, ok := cm.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append", "copy", "delete", "clear", "close":
						add(in, get(cm.Args[0]), bi.Name())
					}
					continue
				}
				cal := cm.StaticCallee()
				if cal == nil || inModule(cal) {
					continue
				}
				for i, a := range cm.Args {
					g := get(a)
					if g == nil || !hasRefs(a.Type()) {
						continue
					}
					if mutates(cal, i) {
						add(in, g, "a call of "+cal.RelString(nil))
					}
				}
			}
		}
	}
	return out, rets
}

// mutates: a standard library function may write through argument i.
func mutates(f *ssa.Function, i int) bool {
	o := f.Object()
	if o == nil {
		if f.Origin() != nil {
			o = f.Origin().Object()
		}
		if o == nil {
			return true
		}
	}
	if o.Pkg() == nil {
		return true
	}
	sig, _ := o.Type().(*types.Signature)
	if sig != nil && sig.Recv() != nil {
		if i != 0 {
			return false
		}
		switch strings.TrimPrefix(sig.Recv().Type().String(), "*") {
		case "strings.Replacer", "regexp.Regexp", "sync.Mutex", "sync.RWMutex", "unicode.RangeTable", "errors.errorString":
			return false
		}
		_, ptr := sig.Recv().Type().(*types.Pointer)
		return ptr
	}
	switch o.Pkg().Path() {
	case "sort":
		return strings.HasPrefix(o.Name(), "S") && !strings.HasPrefix(o.Name(), "Search") && !strings.HasSuffix(o.Name(), "AreSorted") || o.Name() == "Ints" || o.Name() == "Float64s" || o.Name() == "Stable"
	case "slices":
		for _, n := range []string{"Sort", "Reverse", "Delete", "Insert", "Compact", "Replace", "Grow", "Clip"} {
			if strings.HasPrefix(o.Name(), n) {
				return i == 0
			}
		}
		return false
	case "maps":
		return i == 0 && (o.Name() == "Copy" || o.Name() == "DeleteFunc" || o.Name() == "Insert")
	case "sync/atomic", "sync":
		return true
	case "io":
		return true
	case "fmt":
		return strings.HasPrefix(o.Name(), "F") && i == 0
	}
	return false
}

// ---- C31

func checkC31(c *Check) {
	r := c.reach()
	ranges := 0
	for _, f := range r.fns {
		c.fns[strings.TrimPrefix(f.RelString(nil), modPath+"/")] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c.ni++
				switch x := in.(type) {
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
						continue
					}
					ranges++
					why := newMapRange(c.P, r, f, x).check()
					c.ob("map order", instrPos(c.P, f, in), "what the loop over a map computes is the same for every iteration order", why == "", why+": "+r.path(f))
				case *ssa.Select:
					c.fail("schedule", instrPos(c.P, f, in), "no choice depends on the schedule", r.path(f))
				case *ssa.Go:
					c.fail("schedule", instrPos(c.P, f, in), "no goroutine is started", r.path(f))
				case *ssa.Convert:
					if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uintptr {
						if xt, ok := x.X.Type().Underlying().(*types.Basic); ok && xt.Kind() == types.UnsafePointer {
							c.fail("addresses", instrPos(c.P, f, in), "no address becomes a number", r.path(f))
						}
					}
				}
				for _, op := range in.Operands(nil) {
					var o types.Object
					switch g := (*op).(type) {
					case *ssa.Function:
						if !inModule(g) {
							o = g.Object()
							if o == nil && g.Origin() != nil {
								o = g.Origin().Object()
							}
						}
					case *ssa.Global:
						if g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
							o = g.Object()
						}
					}
					if o == nil || o.Pkg() == nil {
						continue
					}
					if w := outside(o); strings.HasPrefix(w, "reads") || strings.Contains(w, "operating system") || strings.HasPrefix(w, "depends") {
						c.fail("inputs", instrPos(c.P, f, in), "nothing but the arguments is read", o.Pkg().Path()+"."+o.Name()+" "+w+": "+r.path(f))
					}
					if q := o.Pkg().Path() + "." + o.Name(); q == "maps.Keys" || q == "maps.Values" || q == "maps.All" || strings.HasPrefix(q, "reflect.") && strings.Contains(o.Name(), "Map") || q == "reflect.MapKeys" || q == "reflect.MapRange" {
						ranges++
						v, _ := in.(ssa.Value)
						c.ob("map order", instrPos(c.P, f, in), "what a listing of a map is used for does not depend on its order", v != nil && sortedSoon(v), q+": "+r.path(f))
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					c.printing(r, f, ci)
				}
			}
		}
	}
	// state kept between calls
	read := map[*ssa.Global]bool{}
	for _, f := range r.fns {
		if r.inits[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						if _, st := in.(*ssa.Store); !st {
							read[g] = true
						}
					}
				}
			}
		}
	}
	for _, w := range c.globalWrites() {
		if read[w.glob] {
			c.fail("earlier calls", w.where, "no result depends on state left by earlier calls", w.what+", which the library also reads: "+r.path(w.fn))
		}
	}
	if pr := c.parseRun(); pr != nil {
		c.owned(pr.e, "Parse keeps nothing from one call to the next")
	}
	c.ob("earlier calls", "pkg/...", "writes to package-level state that is read again were searched for", true, "")
	c.note["map_loops"] = ranges
	c.note["exported_roots"] = r.roots
	c.note["reachable_functions"] = len(r.fns)
}

func sortedSoon(v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil || len(*refs) == 0 {
		return false
	}
	for _, u := range *refs {
		switch x := u.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f == nil {
				return false
			}
			o := f.Object()
			if o == nil && f.Origin() != nil {
				o = f.Origin().Object()
			}
			if o == nil || o.Pkg() == nil {
				return false
			}
			q := o.Pkg().Path() + "." + o.Name()
			if strings.HasPrefix(q, "slices.Sorted") {
				continue
			}
			if q == "slices.Collect" {
				if !onlySorted(x, x) {
					return false
				}
				continue
			}
			return false
		default:
			return false
		}
	}
	return true
}

// onlySorted: a list is sorted before anything else is done with it.
func onlySorted(v ssa.Value, after ssa.Instruction) bool {
	var sorts []ssa.Instruction
	var uses []ssa.Instruction
	var walk func(v ssa.Value)
	seen := map[ssa.Value]bool{}
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.DebugRef:
			case *ssa.ChangeType:
				walk(x)
			case *ssa.MakeInterface:
				walk(x)
			case *ssa.Call:
				if isSort(x) {
					sorts = append(sorts, x)
				} else {
					uses = append(uses, x)
				}
			default:
				uses = append(uses, u)
			}
		}
	}
	walk(v)
	for _, u := range uses {
		ok := false
		for _, s := range sorts {
			if s.Block() == u.Block() {
				for _, in := range s.Block().Instrs {
					if in == s {
						ok = true
						break
					}
					if in == u {
						break
					}
				}
			} else if s.Block().Dominates(u.Block()) {
				ok = true
			}
		}
		if bi, isB := u.(*ssa.Call); isB {
			if b, ok2 := bi.Call.Value.(*ssa.Builtin); ok2 && (b.Name() == "len" || b.Name() == "cap") {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return len(sorts) > 0
}

func isSort(x *ssa.Call) bool {
	f := x.Call.StaticCallee()
	if f == nil {
		return false
	}
	o := f.Object()
	if o == nil && f.Origin() != nil {
		o = f.Origin().Object()
	}
	if o == nil || o.Pkg() == nil {
		return false
	}
	switch o.Pkg().Path() + "." + o.Name() {
	case "sort.Ints", "sort.Strings", "sort.Float64s", "slices.Sort", "sort.Sort", "sort.Stable", "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		return true
	}
	return false
}

// printing: no address is printed.
func (c *Check) printing(r *Reach, f *ssa.Function, ci ssa.CallInstruction) {
	cal := ci.Common().StaticCallee()
	if cal == nil || cal.Object() == nil || cal.Object().Pkg() == nil || cal.Object().Pkg().Path() != "fmt" {
		return
	}
	name := cal.Name()
	format := ""
	if strings.HasSuffix(name, "f") {
		for _, a := range ci.Common().Args {
			if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
				format = constant.StringVal(k.Value)
			}
		}
	}
	where := instrPos(c.P, f, ci)
	if strings.Contains(format, "%p") {
		c.fail("addresses", where, "no address is printed", "%p on "+r.path(f))
	}
	// values given to it
	args := ci.Common().Args
	if len(args) == 0 {
		return
	}
	sl, ok := args[len(args)-1].(*ssa.Slice)
	if !ok {
		return
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return
	}
	for _, u := range *al.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k := int64(-1)
		if cn, ok := ia.Index.(*ssa.Const); ok {
			k = cn.Int64()
		}
		for _, w := range *ia.Referrers() {
			st, ok := w.(*ssa.Store)
			if !ok || st.Addr != ia {
				continue
			}
			mi, ok := st.Val.(*ssa.MakeInterface)
			if !ok {
				continue
			}
			verb := verbAt(format, int(k))
			if verb == 'T' || verb == 't' || verb == 'd' && !isPtrType(mi.X.Type()) {
				continue
			}
			bad := printsAddress(c.P, mi.X.Type(), 0)
			c.ob("addresses", where, "no address is printed", bad == "", "a value of type "+mi.X.Type().String()+" is printed"+bad+": "+r.path(f))
		}
	}
}

func isPtrType(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

func verbAt(format string, k int) byte {
	n := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && strings.IndexByte("+-# 0123456789.[]*", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			continue
		}
		if n == k {
			return format[i]
		}
		n++
	}
	return 0
}

var fmtStringer = func() *types.Interface {
	sig := types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.String])), false)
	it := types.NewInterfaceType([]*types.Func{types.NewFunc(0, nil, "String", sig)}, nil)
	it.Complete()
	return it
}()

var errIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func printsAddress(p *Prog, t types.Type, depth int) string {
	if types.Implements(t, fmtStringer) || types.Implements(t, errIface) {
		return ""
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Map, *types.Slice, *types.Array:
				return printsAddress(p, u.Elem(), 1)
			}
		}
		return " with the address it holds"
	case *types.Chan, *types.Signature:
		return " with the address it holds"
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return " with the address it holds"
		}
	case *types.Slice:
		return printsAddress(p, u.Elem(), depth+1)
	case *types.Array:
		return printsAddress(p, u.Elem(), depth+1)
	case *types.Map:
		if w := printsAddress(p, u.Key(), depth+1); w != "" {
			return w
		}
		return printsAddress(p, u.Elem(), depth+1)
	case *types.Struct:
		if depth > 6 {
			return ""
		}
		for i := 0; i < u.NumFields(); i++ {
			if w := printsAddress(p, u.Field(i).Type(), depth+1); w != "" {
				return w
			}
		}
	case *types.Interface:
		if depth > 3 {
			return ""
		}
		if u.NumMethods() > 0 {
			for _, x := range p.implementers(u) {
				if w := printsAddress(p, x, depth); w != "" {
					return w
				}
			}
		}
	}
	return ""
}

// mapRange decides whether a loop over a map computes the same for every
// order of its entries.
type mapRange struct {
	p      *Prog
	r      *Reach
	f      *ssa.Function
	rng    *ssa.Range
	blocks map[*ssa.BasicBlock]bool
	head   *ssa.BasicBlock
	dep    map[ssa.Value]bool // depends on the entry
	key    ssa.Value
	val    ssa.Value
}

func newMapRange(p *Prog, r *Reach, f *ssa.Function, rng *ssa.Range) *mapRange {
	m := &mapRange{p: p, r: r, f: f, rng: rng, blocks: map[*ssa.BasicBlock]bool{}, dep: map[ssa.Value]bool{}}
	return m
}

func (m *mapRange) check() string {
	var next *ssa.Next
	for _, u := range *m.rng.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			if next != nil {
				return "the iterator is advanced at two places"
			}
			next = n
		} else if _, ok := u.(*ssa.DebugRef); !ok {
			return "the iterator is used in an unknown way"
		}
	}
	if next == nil {
		return ""
	}
	m.head = next.Block()
	// natural loop of the head
	for _, p := range m.head.Preds {
		if m.head.Dominates(p) {
			m.collect(p)
		}
	}
	if len(m.blocks) == 0 {
		// taken once only: an arbitrary entry
		return "an arbitrary entry of a map is used"
	}
	m.blocks[m.head] = true
	for _, u := range *next.Referrers() {
		if x, ok := u.(*ssa.Extract); ok {
			switch x.Index {
			case 1:
				m.key = x
			case 2:
				m.val = x
			}
			if x.Index > 0 {
				m.dep[x] = true
			}
		}
	}
	// values that depend on the entry or on the iterations made so far
	acc := map[*ssa.Phi]bool{}
	for _, in := range m.head.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			m.dep[ph] = true
			acc[ph] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for b := range m.blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || m.dep[v] || in == ssa.Instruction(next) {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && m.dep[*op] {
						m.dep[v] = true
						ch = true
					}
				}
				if ph, ok := in.(*ssa.Phi); ok && !m.dep[v] {
					// a choice made inside the loop
					for _, e := range ph.Edges {
						if _, c := e.(*ssa.Const); !c || len(ph.Edges) > 1 {
							m.dep[v] = true
							ch = true
						}
					}
				}
			}
		}
	}
	early := false
	for b := range m.blocks {
		for _, s := range b.Succs {
			if m.blocks[s] || b == m.head {
				continue
			}
			early = true
			if w := m.exit(b, s); w != "" {
				return w
			}
		}
	}
	for b := range m.blocks {
		for _, in := range b.Instrs {
			if w := m.instr(in, next, early); w != "" {
				return w + " at " + instrPos(m.p, m.f, in)
			}
		}
	}
	return ""
}

func (m *mapRange) collect(b *ssa.BasicBlock) {
	if m.blocks[b] || b == m.head {
		m.blocks[b] = true
		return
	}
	m.blocks[b] = true
	for _, p := range b.Preds {
		m.collect(p)
	}
}

// exit: leaving the loop early must not tell which entry was met.
func (m *mapRange) exit(b, s *ssa.BasicBlock) string {
	// only one entry has a given key
	for x := range m.blocks {
		iff, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		eq, ok := iff.Cond.(*ssa.BinOp)
		if !ok || eq.Op != token.EQL && eq.Op != token.NEQ {
			continue
		}
		if !(eq.X == m.key && !m.dep[eq.Y] || eq.Y == m.key && !m.dep[eq.X]) || m.key == nil {
			continue
		}
		t := x.Succs[0]
		if eq.Op == token.NEQ {
			t = x.Succs[1]
		}
		if len(t.Preds) == 1 && (t == s || t.Dominates(b)) {
			acc := false
			for _, in := range m.head.Instrs {
				if _, ok := in.(*ssa.Phi); ok {
					acc = true
				}
			}
			if !acc {
				return ""
			}
		}
	}
	// values of the loop used afterwards on this way out
	seen := map[*ssa.BasicBlock]bool{}
	var bad string
	var walk func(x *ssa.BasicBlock, pred *ssa.BasicBlock)
	walk = func(x, pred *ssa.BasicBlock) {
		if seen[x] || m.blocks[x] {
			return
		}
		seen[x] = true
		for _, in := range x.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				for i, p := range x.Preds {
					if p == pred && m.dep[ph.Edges[i]] {
						bad = "which entry is met first is told by leaving the loop with " + ph.Edges[i].Name() + " at " + instrPos(m.p, m.f, b.Instrs[len(b.Instrs)-1])
					}
				}
				continue
			}
			for _, op := range in.Operands(nil) {
				if *op != nil && m.dep[*op] {
					bad = "the loop is left early with a value that depends on which entry is met first, used at " + instrPos(m.p, m.f, in)
				}
			}
		}
		for _, n := range x.Succs {
			walk(n, x)
		}
	}
	walk(s, b)
	return bad
}

func (m *mapRange) instr(in ssa.Instruction, next *ssa.Next, early bool) string {
	inLoop := func(v ssa.Value) bool {
		i, ok := v.(ssa.Instruction)
		return ok && m.blocks[i.Block()]
	}
	switch x := in.(type) {
	case *ssa.Phi:
		if x.Block() != m.head {
			return ""
		}
		return m.accumulator(x, early)
	case *ssa.MapUpdate:
		if early {
			return "entries are written to a map and the loop can be left early"
		}
		if inLoop(x.Map) && m.allocIn(x.Map) {
			return ""
		}
		if x.Key == m.key && m.key != nil {
			return m.pure(x.Value)
		}
		if !m.dep[x.Value] || constLike(x.Value) {
			return "" // the same value whatever the order
		}
		if m.injective(x.Key) {
			return m.pure(x.Value)
		}
		return "two entries may be written under one key, and the last one wins"
	case *ssa.Store:
		if m.allocRoot(x.Addr) {
			return ""
		}
		if !m.dep[x.Val] || constLike(x.Val) {
			return ""
		}
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok && !early && !m.dep[ia.X] && m.injective(ia.Index) {
			return m.pure(x.Val)
		}
		return m.memAccum(x, early)
	case *ssa.Send, *ssa.Go, *ssa.Defer:
		return "an effect in every iteration"
	case ssa.CallInstruction:
		return m.call(x, early)
	}
	return ""
}

func constLike(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

// pure: the value depends on this entry only, not on earlier iterations.
func (m *mapRange) pure(v ssa.Value) string {
	seen := map[ssa.Value]bool{}
	var bad bool
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		i, ok := v.(ssa.Instruction)
		if !ok || !m.blocks[i.Block()] {
			return
		}
		if ph, ok := v.(*ssa.Phi); ok && ph.Block() == m.head {
			bad = true
			return
		}
		for _, op := range i.Operands(nil) {
			if *op != nil {
				walk(*op)
			}
		}
	}
	walk(v)
	if bad {
		return "what is written depends on the entries met before"
	}
	return ""
}

func (m *mapRange) allocIn(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeMap, *ssa.MakeSlice:
		return true
	case *ssa.Alloc:
		return m.blocks[x.Block()]
	case *ssa.Phi:
		for _, e := range x.Edges {
			i, ok := e.(ssa.Instruction)
			if !ok || !m.blocks[i.Block()] || x.Block() == m.head || !m.allocIn(e) {
				return false
			}
		}
		return true
	}
	return false
}

func (m *mapRange) allocRoot(a ssa.Value) bool {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.Alloc:
			return m.blocks[x.Block()]
		case *ssa.Slice:
			a = x.X
		default:
			return false
		}
	}
}

// injective: different entries give different values.
func (m *mapRange) injective(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Convert:
		// widening keeps numbers apart
		f, ok1 := x.X.Type().Underlying().(*types.Basic)
		t, ok2 := x.Type().Underlying().(*types.Basic)
		if ok1 && ok2 && (f.Info()&types.IsInteger != 0 && t.Info()&types.IsInteger != 0 && bitWidth(t) >= bitWidth(f) || f.Info()&types.IsString != 0) {
			return m.injective(x.X)
		}
		return false
	case *ssa.ChangeType:
		return m.injective(x.X)
	case *ssa.BinOp:
		if (x.Op == token.ADD || x.Op == token.SUB) && !m.dep[x.Y] {
			return m.injective(x.X)
		}
		if x.Op == token.ADD && !m.dep[x.X] {
			return m.injective(x.Y)
		}
		return false
	}
	if v == m.key && m.key != nil {
		return true
	}
	if v == m.val && m.val != nil {
		return m.distinctValues()
	}
	return false
}

// distinctValues: every map this loop can be over was filled with the value
// of a counter, so that its values differ from one another.
func (m *mapRange) distinctValues() bool {
	t := m.rng.X.Type()
	n := 0
	for _, f := range m.r.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.MapUpdate)
				if !ok || !types.Identical(u.Map.Type().Underlying(), t.Underlying()) {
					continue
				}
				n++
				if !countsUp(u) {
					return false
				}
			}
		}
	}
	// a map given from outside
	return n > 0 && !fromOutside(m.r, m.rng.X, map[ssa.Value]bool{})
}

// countsUp: the value written is a loop counter that grows between any two
// executions of the write, and the map is made outside that loop only.
func countsUp(u *ssa.MapUpdate) bool {
	v := u.Value
	for {
		if c, ok := v.(*ssa.Convert); ok {
			v = c.X
			continue
		}
		break
	}
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		if _, ok := b.Y.(*ssa.Const); ok {
			v = b.X
		}
	}
	if isLenOf(v, u.Map) {
		return true
	}
	ph, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, e := range ph.Edges {
		if _, ok := e.(*ssa.Const); ok {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != ssa.Value(ph) {
			return false
		}
		k, ok := b.Y.(*ssa.Const)
		if !ok || k.Int64() <= 0 {
			return false
		}
	}
	// the write is in the innermost loop of the counter
	return ph.Block().Dominates(u.Block())
}

// isLenOf: m[k] = len(m) gives distinct values only for new keys.
func isLenOf(v, mp ssa.Value) bool { return false }

func fromOutside(r *Reach, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeMap:
		return false
	case *ssa.Phi:
		for _, e := range x.Edges {
			if fromOutside(r, e, seen) {
				return true
			}
		}
		return false
	case *ssa.Call:
		for _, g := range r.callees(x) {
			if g == nil || !inModule(g) {
				return true
			}
			for _, b := range g.Blocks {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					if len(rt.Results) != 1 || fromOutside(r, rt.Results[0], seen) {
						return true
					}
				}
			}
		}
		return false
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			for _, g := range r.callees(call) {
				if g == nil || !inModule(g) {
					return true
				}
				for _, b := range g.Blocks {
					if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && fromOutside(r, rt.Results[x.Index], seen) {
						return true
					}
				}
			}
			return false
		}
		return true
	case *ssa.Const:
		return false
	case *ssa.UnOp:
		if x.Op == token.MUL {
			k := slotOf(x.X)
			if _, isPtr := k.(string); isPtr {
				if _, ok := x.X.(*ssa.FieldAddr); !ok {
					return true
				}
			}
			for _, f := range r.fns {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok && slotOf(st.Addr) == k && fromOutside(r, st.Val, seen) {
							return true
						}
					}
				}
			}
			return false
		}
	case *ssa.Field:
		t := x.X.Type()
		k := fmt.Sprintf("%s.%d", types.NewPointer(t), x.Field)
		for _, f := range r.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && slotOf(st.Addr) == any(k) && fromOutside(r, st.Val, seen) {
						return true
					}
				}
			}
		}
		return false
	case *ssa.Parameter:
		f := x.Parent()
		if f.Object() != nil && f.Object().Exported() && f.Parent() == nil {
			return true
		}
		idx := -1
		for i, p := range f.Params {
			if p == x {
				idx = i
			}
		}
		for _, g := range r.fns {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					for _, cal := range r.callees(ci) {
						if cal != f {
							continue
						}
						args := ci.Common().Args
						if ci.Common().IsInvoke() {
							return true
						}
						if idx < len(args) && fromOutside(r, args[idx], seen) {
							return true
						}
					}
				}
			}
		}
		return false
	case *ssa.FreeVar:
		return true
	}
	return true
}

// accumulator: a loop-carried value whose final value is the same for every
// order.
func (m *mapRange) accumulator(ph *ssa.Phi, early bool) string {
	name := ph.Comment
	if name == "" {
		name = ph.Name()
	}
	for i, e := range ph.Edges {
		if !m.blocks[ph.Block().Preds[i]] {
			continue
		}
		if w := m.step(ph, e, map[ssa.Value]bool{}); w != "" {
			if w == "append" {
				if !early && m.sortedAfter(ph) {
					continue
				}
				return "the list " + name + " is built in the order of the map"
			}
			return "the final value of " + name + " depends on the order of the map"
		}
	}
	if early {
		for _, u := range *ph.Referrers() {
			if !m.blocks[u.Block()] {
				return "the loop can be left early with " + name
			}
		}
	}
	return ""
}

// step: e is ph, a constant, or ph combined with a pure value by one
// commutative and associative operation.
func (m *mapRange) step(ph *ssa.Phi, e ssa.Value, seen map[ssa.Value]bool) string {
	if e == ssa.Value(ph) || seen[e] {
		return ""
	}
	seen[e] = true
	ops := map[token.Token]bool{}
	consts := map[string]bool{}
	var bad string
	var walk func(v ssa.Value)
	vis := map[ssa.Value]bool{}
	walk = func(v ssa.Value) {
		if v == ssa.Value(ph) || vis[v] {
			return
		}
		vis[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			consts[x.String()] = true
		case *ssa.Phi:
			if !m.blocks[x.Block()] || x.Block() == m.head {
				bad = "phi"
				return
			}
			for _, ed := range x.Edges {
				walk(ed)
			}
		case *ssa.BinOp:
			bt, ok := x.Type().Underlying().(*types.Basic)
			if !ok || bt.Info()&(types.IsInteger|types.IsBoolean) == 0 {
				bad = "op"
				return
			}
			switch x.Op {
			case token.ADD, token.OR, token.AND, token.XOR, token.SUB, token.MUL, token.AND_NOT:
				o := x.Op
				if o == token.SUB {
					o = token.ADD
				}
				ops[o] = true
				if m.pure(x.Y) == "" {
					walk(x.X)
					return
				}
				if m.pure(x.X) == "" && x.Op != token.SUB && x.Op != token.AND_NOT {
					walk(x.Y)
					return
				}
			}
			bad = "op"
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "append" {
					bad = "append"
					return
				}
				if b.Name() == "min" || b.Name() == "max" {
					o := token.LSS
					if b.Name() == "max" {
						o = token.GTR
					}
					ops[o] = true
					for _, a := range x.Call.Args {
						if m.pure(a) != "" {
							walk(a)
						}
					}
					return
				}
			}
			if f := x.Call.StaticCallee(); f != nil && f.Name() == "Union" && inModule(f) && len(x.Call.Args) == 2 {
				ops[token.OR] = true
				for _, a := range x.Call.Args {
					if m.pure(a) != "" {
						walk(a)
					}
				}
				return
			}
			bad = "call"
		default:
			bad = "other"
		}
	}
	walk(e)
	if bad != "" {
		if bad != "append" && m.extremum(ph, e) {
			return ""
		}
		return bad
	}
	if len(consts) > 1 || len(consts) == 1 && len(ops) > 0 || len(ops) > 1 {
		return "mixed"
	}
	if len(ops) == 0 && len(consts) == 1 {
		return ""
	}
	return ""
}

// extremum: if v < best { best = v }
func (m *mapRange) extremum(ph *ssa.Phi, e ssa.Value) bool {
	q, ok := e.(*ssa.Phi)
	if !ok || !m.blocks[q.Block()] || q.Block() == m.head {
		return false
	}
	var other ssa.Value
	for _, ed := range q.Edges {
		if ed == ssa.Value(ph) {
			continue
		}
		if other != nil && other != ed {
			return false
		}
		other = ed
	}
	if other == nil || m.pure(other) != "" {
		return false
	}
	if _, ok := other.Type().Underlying().(*types.Basic); !ok {
		return false
	}
	for _, u := range *ph.Referrers() {
		b, ok := u.(*ssa.BinOp)
		if !ok {
			continue
		}
		switch b.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if (b.X == other && b.Y == ssa.Value(ph)) || (b.Y == other && b.X == ssa.Value(ph)) {
				return true
			}
		}
	}
	return false
}

// sortedAfter: the list is sorted after the loop before anything else.
func (m *mapRange) sortedAfter(ph *ssa.Phi) bool {
	n := 0
	var sorts, uses []ssa.Instruction
	var walk func(v ssa.Value)
	seen := map[ssa.Value]bool{}
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			if m.blocks[u.Block()] {
				continue
			}
			switch x := u.(type) {
			case *ssa.DebugRef:
			case *ssa.ChangeType:
				walk(x)
			case *ssa.MakeInterface:
				walk(x)
			case *ssa.Call:
				if isSort(x) {
					n++
					sorts = append(sorts, x)
				} else if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				} else {
					uses = append(uses, x)
				}
			default:
				uses = append(uses, u)
			}
		}
	}
	walk(ph)
	for _, u := range uses {
		ok := false
		for _, s := range sorts {
			if s.Block() == u.Block() {
				for _, in := range s.Block().Instrs {
					if in == s {
						ok = true
						break
					}
					if in == u {
						break
					}
				}
			} else if s.Block().Dominates(u.Block()) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return n > 0
}

// memAccum: a variable in memory (captured by a closure, say) updated by a
// commutative operation.
func (m *mapRange) memAccum(st *ssa.Store, early bool) string {
	if early {
		return "memory is written and the loop can be left early"
	}
	if b, ok := st.Val.(*ssa.BinOp); ok {
		bt, isB := b.Type().Underlying().(*types.Basic)
		if isB && bt.Info()&(types.IsInteger|types.IsBoolean) != 0 {
			switch b.Op {
			case token.ADD, token.OR, token.AND, token.XOR, token.SUB:
				if ld, ok := b.X.(*ssa.UnOp); ok && ld.Op == token.MUL && ld.X == st.Addr && m.pure(b.Y) == "" {
					return ""
				}
			}
		}
	}
	if c, ok := st.Val.(*ssa.Call); ok {
		if f := c.Call.StaticCallee(); f != nil && f.Name() == "Union" && inModule(f) {
			return ""
		}
	}
	return "memory is written in the order of the map"
}

// call: a call in the body must have no effect that lasts.
func (m *mapRange) call(ci ssa.CallInstruction, early bool) string {
	cm := ci.Common()
	if b, ok := cm.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete":
			if early {
				return "entries are deleted and the loop can be left early"
			}
			return ""
		case "copy":
			if !m.allocRoot(cm.Args[0]) {
				return "memory is written in the order of the map"
			}
		case "print", "println":
			return "something is printed in the order of the map"
		case "panic":
			return ""
		}
		return ""
	}
	cal := cm.StaticCallee()
	if cal != nil && !inModule(cal) {
		o := cal.Object()
		if o == nil && cal.Origin() != nil {
			o = cal.Origin().Object()
		}
		for i, a := range cm.Args {
			if hasRefs(a.Type()) && mutates(cal, i) && !m.allocRoot(a) {
				return "a call of " + cal.RelString(nil) + " acts in the order of the map"
			}
		}
		if o != nil && outside(o) != "" {
			return "a call of " + cal.RelString(nil) + " acts in the order of the map"
		}
		return ""
	}
	gs := m.r.callees(ci)
	if len(gs) == 0 {
		return "a call of unknown code in the order of the map"
	}
	for _, g := range gs {
		if g == nil {
			continue
		}
		if g.Name() == "Add" && g.Signature.Recv() != nil && !early {
			if n, ok := g.Signature.Recv().Type().(*types.Pointer); ok && isByteSet(n.Elem()) {
				continue
			}
		}
		if !effectFree(m.r, g, map[*ssa.Function]bool{}) {
			return "a call of " + g.RelString(nil) + " has an effect in the order of the map"
		}
	}
	return ""
}

// effectFree: the function writes to memory of its own only.
func effectFree(r *Reach, f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return true
	}
	seen[f] = true
	local := func(a ssa.Value) bool {
		for {
			switch x := a.(type) {
			case *ssa.FieldAddr:
				a = x.X
			case *ssa.IndexAddr:
				a = x.X
			case *ssa.Slice:
				a = x.X
			case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
				return true
			default:
				return false
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if !local(x.Addr) {
					return false
				}
			case *ssa.MapUpdate:
				if !local(x.Map) {
					return false
				}
			case *ssa.Send, *ssa.Go:
				return false
			case ssa.CallInstruction:
				cm := x.Common()
				if bi, ok := cm.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "delete", "copy", "clear", "close":
						if !local(cm.Args[0]) {
							return false
						}
					case "print", "println":
						return false
					}
					continue
				}
				if cal := cm.StaticCallee(); cal != nil && !inModule(cal) {
					for i, a := range cm.Args {
						if hasRefs(a.Type()) && mutates(cal, i) && !local(a) {
							return false
						}
					}
					if o := cal.Object(); o != nil && outside(o) != "" {
						return false
					}
					continue
				}
				gs := r.callees(x)
				if len(gs) == 0 {
					return false
				}
				for _, g := range gs {
					if g != nil && !effectFree(r, g, seen) {
						// a pointer receiver to a local variable is fine
						if len(cm.Args) > 0 && g.Signature.Recv() != nil && local(cm.Args[0]) && onlyReceiver(g) {
							continue
						}
						return false
					}
				}
			}
		}
	}
	return true
}

// onlyReceiver: all writes of the method go through its receiver.
func onlyReceiver(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				a := x.Addr
				for {
					if fa, ok := a.(*ssa.FieldAddr); ok {
						a = fa.X
						continue
					}
					if ia, ok := a.(*ssa.IndexAddr); ok {
						a = ia.X
						continue
					}
					break
				}
				if _, ok := a.(*ssa.Alloc); !ok && (len(f.Params) == 0 || a != ssa.Value(f.Params[0])) {
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go:
				return false
			case ssa.CallInstruction:
				if _, ok := x.Common().Value.(*ssa.Builtin); !ok {
					return false
				}
			}
		}
	}
	return true
}
