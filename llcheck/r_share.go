package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C16", "ownership analysis of every write; type-based separation", checkC16)
}

func checkC16(c *Check) {
	f := c.P.fn("pkg/bnf/tablegen", "FromGrammar")
	t := c.tableRun()
	if t == nil || f == nil {
		return
	}
	c.owned(t.e, "FromGrammar writes only to memory of its own")
	c.ownResult(f, "the table and the naming map refer to no memory that outlives the call")
	// sharing with the grammar
	in, out := map[string]types.Type{}, map[string]types.Type{}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		c.refCells(f.Signature.Params().At(i).Type(), in, map[string]bool{})
	}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		T := f.Signature.Results().At(i).Type()
		if types.Identical(T, types.Universe.Lookup("error").Type()) {
			continue
		}
		c.refCells(T, out, map[string]bool{})
	}
	c.ob("separation", c.P.pos(f.Pos()), "the results have mutable memory to look at", len(out) > 0, "none found")
	for k := range out {
		_, shared := in[k]
		c.ob("separation", c.P.pos(f.Pos()), "no memory of type "+k+" is reachable both from the grammar and from a result", !shared, "both can refer to such memory")
	}
	var got []string
	for k := range out {
		got = append(got, strings.ReplaceAll(k, modPath+"/", ""))
	}
	sort.Strings(got)
	c.note["result_memory"] = strings.Join(got, ", ")
}

// cells collects the types of the mutable memory reachable from a value: what
// its pointers point to, the elements of its slices, its maps.
func (c *Check) refCells(T types.Type, out map[string]types.Type, seen map[string]bool) {
	k := types.TypeString(T, nil)
	if seen[k] {
		return
	}
	seen[k] = true
	cell := func(kind string, t types.Type) { out[kind+types.TypeString(t, nil)] = t }
	switch u := T.Underlying().(type) {
	case *types.Pointer:
		cell("*", u.Elem())
		c.refCells(u.Elem(), out, seen)
	case *types.Slice:
		cell("[]", u.Elem())
		c.refCells(u.Elem(), out, seen)
	case *types.Array:
		c.refCells(u.Elem(), out, seen)
	case *types.Map:
		cell("", u)
		c.refCells(u.Key(), out, seen)
		c.refCells(u.Elem(), out, seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			c.refCells(u.Field(i).Type(), out, seen)
		}
	case *types.Chan:
		cell("chan ", u.Elem())
		c.refCells(u.Elem(), out, seen)
	case *types.Interface:
		for _, t := range c.boxed(u) {
			c.refCells(t, out, seen)
		}
	}
}

// boxed: the types the library puts into an interface of this kind.
func (c *Check) boxed(it *types.Interface) []types.Type {
	seen := map[string]bool{}
	var out []types.Type
	for _, f := range c.reach().fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				x, ok := in.(*ssa.MakeInterface)
				if !ok {
					continue
				}
				T := x.X.Type()
				if k := types.TypeString(T, nil); !seen[k] && types.Implements(T, it) && !it.Empty() {
					seen[k] = true
					out = append(out, T)
				}
			}
		}
	}
	for _, t := range c.P.implementers(it) {
		if k := types.TypeString(t, nil); !seen[k] {
			seen[k] = true
			out = append(out, t)
		}
	}
	return out
}
