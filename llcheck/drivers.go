package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// initGlobals evaluates package initialisers to learn the contents of
// package-level variables that nothing writes later.
func (e *Eng) initGlobals(pkgs ...string) {
	e.initing = true
	defer func() { e.initing = false }()
	var paths []string
	for p := range e.P.pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	written := e.P.globalsWritten()
	for _, p := range paths {
		sp := e.P.pkgs[p]
		fn := sp.Func("init")
		if fn == nil || len(fn.Blocks) == 0 || sp.Pkg.Name() == "main" {
			continue
		}
		mem := newMem()
		var gl []*ssa.Global
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				gl = append(gl, g)
				o := e.object("glob:"+g.RelString(nil), "global", pointee(g.Type()))
				o.initTerm = e.zeroTerm(pointee(g.Type()))
			}
		}
		ev := len(e.events)
		r := e.call(fn, nil, nil, True, mem, "init:"+p)
		e.events = e.events[:ev]
		for _, g := range gl {
			o := e.object("glob:"+g.RelString(nil), "global", pointee(g.Type()))
			if written[g] {
				o.initTerm = e.mk("global", g.RelString(nil), pointee(g.Type()))
				continue
			}
			c := e.freeze(r.mem, e.content(r.mem, o))
			o.initTerm = c
			e.globals[g] = c
			if c.op == "err" || c.op == "fptr" {
				e.nonnil[c] = true
			}
		}
	}
	e.done = nil
}

// globalsWritten: package-level variables stored to (or whose address
// escapes to something else than a load) outside package initialisers.
func (p *Prog) globalsWritten() map[*ssa.Global]bool {
	res := map[*ssa.Global]bool{}
	var visit func(fn *ssa.Function)
	seen := map[*ssa.Function]bool{}
	visit = func(fn *ssa.Function) {
		if fn == nil || seen[fn] {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.Store:
						if x.Addr == g && fn.Name() == "init" && fn.Synthetic != "" {
							continue
						}
						res[g] = true
					case *ssa.IndexAddr, *ssa.FieldAddr:
						v := in.(ssa.Value)
						if addrWritten(v) && !(fn.Name() == "init" && fn.Synthetic != "") {
							res[g] = true
						}
					default:
						if !(fn.Name() == "init" && fn.Synthetic != "") {
							res[g] = true
						}
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
	}
	for _, sp := range p.pkgs {
		for _, fn := range p.pkgFuncs(sp) {
			visit(fn)
		}
	}
	return res
}

func addrWritten(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
		case *ssa.IndexAddr:
			if addrWritten(x) {
				return true
			}
		case *ssa.FieldAddr:
			if addrWritten(x) {
				return true
			}
		case *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

// pkgFuncs: all source functions and methods of a package.
func (p *Prog) pkgFuncs(sp *ssa.Package) []*ssa.Function {
	var r []*ssa.Function
	var names []string
	for n := range sp.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		switch m := sp.Members[n].(type) {
		case *ssa.Function:
			r = append(r, m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := p.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					fn := p.prog.MethodValue(ms.At(i))
					if fn != nil && fn.Synthetic == "" && fn.Pkg == sp {
						dup := false
						for _, x := range r {
							if x == fn {
								dup = true
							}
						}
						if !dup {
							r = append(r, fn)
						}
					}
				}
			}
		}
	}
	return r
}

// Run is the analysis of one entry point.
type Run struct {
	e    *Eng
	res  result
	args []*Term
	err  string
}

func guard(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(abort); ok {
				msg = a.msg
				return
			}
			msg = fmt.Sprint(r)
			if dbgPanics {
				panic(r)
			}
		}
	}()
	f()
	return ""
}

var dbgPanics = envOr("LLDEBUG", "") != ""

// runFn evaluates an exported function on symbolic arguments.
func (e *Eng) runFn(fn *ssa.Function, names ...string) *Run {
	r := &Run{e: e}
	for i, p := range fn.Params {
		n := p.Name()
		if i < len(names) {
			n = names[i]
		}
		t := e.sym(n, p.Type())
		r.args = append(r.args, e.muValue(t))
	}
	r.err = guard(func() { r.res = e.call(fn, r.args, nil, True, newMem(), "") })
	return r
}

func runParse(p *Prog, strSrc bool) *Run {
	e := newEng(p)
	e.initGlobals()
	r := &Run{e: e}
	mk := p.fn("pkg/parser", "NewLL1Parser")
	if mk == nil {
		r.err = "NewLL1Parser not found"
		return r
	}
	r.err = guard(func() {
		table := e.sym("table", mk.Params[0].Type())
		names := e.sym("names", mk.Params[1].Type())
		r0 := e.call(mk, []*Term{table, names}, nil, True, newMem(), "new")
		src := e.sym("src", types.NewInterfaceType(nil, nil))
		if strSrc {
			src = e.mkIface(e.sym("text", types.Typ[types.String]), types.Typ[types.String], types.NewInterfaceType(nil, nil))
		}
		r.args = []*Term{table, names, src}
		recv := r0.vals[0]
		if recv.op != "iface" {
			panic(abort{"NewLL1Parser: dynamic type of the parser unknown"})
		}
		dt := recv.aux.(types.Type)
		fn := p.methodOf(dt, "Parse")
		sel := p.prog.MethodSets.MethodSet(dt).Lookup(nil, "Parse")
		if sel != nil {
			fn = p.prog.MethodValue(sel)
		}
		if fn == nil {
			panic(abort{"Parse not found"})
		}
		r.res = e.call(fn, []*Term{recv.args[0], src}, nil, True, r0.mem, "")
	})
	return r
}

func (e *Eng) pl(a ...any) {
	fmt.Println(a...)
	for _, l := range e.legend {
		fmt.Println("\t\t\t" + l)
	}
	e.legend = nil
}

func (r *Run) dump() {
	e := r.e
	e.names = map[*Term]string{}
	e.pl("ERR:", r.err)
	e.pl("terms", len(e.termList), "atoms", len(e.atoms), "bdd", len(e.bdd.nodes), "instrs", e.instrs, "loopevals", e.nLoopEval, "fns", len(e.fnsSeen))
	e.pl("== returns pc", e.bs(r.res.pc))
	for _, x := range r.res.rets {
		e.pl("-- ret", e.P.pos(x.pos), "pc:", e.bs(x.pc))
		for _, v := range x.vals {
			e.pl("     ", e.ts(e.freeze(x.mem, v)))
		}
	}
	e.pl("== loops")
	for _, l := range e.done {
		l.dump(e)
	}
	e.pl("== events")
	for _, ev := range e.events {
		e.pl("--", ev.kind, ev.what, e.evPos(ev), "\n   pc:", e.bs(ev.pc))
		for _, a := range ev.args {
			e.pl("     ", e.ts(e.freeze(ev.mem, a)))
		}
	}
}

func (l *LoopInst) dump(e *Eng) {
	e.pl("-- loop", l.kind, l.kappa.k, e.P.pos(l.pos), short(l.key), "depth", len(l.outer))
	e.pl("   entry:", e.bs(l.entryPc))
	e.pl("   back:", e.bs(e.restrictTh(l.backPc, l.entryPc)))
	if l.trip != nil {
		e.pl("   trip:", e.ts(l.trip))
	}
	for _, v := range l.vars {
		e.pl("   var", v.name, short(v.key))
		e.pl("       init", e.ts(v.init))
		if v.closed != nil {
			e.pl("       closed", e.ts(v.closed))
		} else {
			e.pl("       next", e.ts(v.next))
			if v.exit != nil {
				e.pl("       exit", e.ts(v.exit))
			}
		}
	}
	for i, x := range l.exits {
		e.pl("   exit", i, "pc", e.bs(e.restrictTh(x.pc, l.entryPc)), "trip", x.trip != nil)
	}
	if l.result != nil {
		e.pl("   result", e.ts(l.result))
	}
}
