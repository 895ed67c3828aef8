package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Write is a direct change of a field of a package type by a function.
type Write struct {
	fn    *ssa.Function
	field string // Type.field, or Type.* for a whole object
	pos   token.Pos
	fresh bool // the object was allocated by the same function
	op    string
}

func typeName(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, named := t.(*types.Named); !named {
			t = p.Elem()
		}
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	if a, ok := t.(*types.Alias); ok {
		return a.Obj().Name()
	}
	return ""
}

// fieldChain lists the fields an address lies in, innermost first, and the
// value the address is based on.
func fieldChain(v ssa.Value) (fields []string, base ssa.Value) {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			st := structOf(x.X.Type())
			fields = append(fields, typeName(x.X.Type())+"."+fieldName(st.Field(x.Field)))
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return fields, v
		}
	}
}

// source follows a value to the field it was loaded from.
func (w *World) source(v ssa.Value, seen map[ssa.Value]bool, f func(fields []string, base ssa.Value)) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			fs, b := fieldChain(x.X)
			if len(fs) > 0 {
				f(fs, b)
				return
			}
			if a, ok := b.(*ssa.Alloc); ok {
				// local variable: what was stored into it
				for _, r := range *a.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == a {
						w.source(s.Val, seen, f)
					}
				}
				return
			}
			if fv, ok := b.(*ssa.FreeVar); ok {
				f(nil, fv)
				return
			}
		}
		f(nil, v)
	case *ssa.Phi:
		for _, e := range x.Edges {
			w.source(e, seen, f)
		}
	case *ssa.ChangeType:
		w.source(x.X, seen, f)
	case *ssa.MakeInterface:
		w.source(x.X, seen, f)
	case *ssa.Field:
		st := structOf(x.X.Type())
		f([]string{typeName(x.X.Type()) + "." + fieldName(st.Field(x.Field))}, x.X)
	case *ssa.Extract:
		f(nil, x)
	default:
		f(nil, v)
	}
}

// freshBase: the object was made in this function.
func freshBase(v ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !freshBase(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		// a local variable holding only fresh objects
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			ok := false
			for _, r := range *a.Referrers() {
				if s, isS := r.(*ssa.Store); isS && s.Addr == a {
					if !freshBase(s.Val, d+1) {
						return false
					}
					ok = true
				}
			}
			return ok
		}
	}
	return false
}

// writes lists the direct writes of fn to fields of package types.
func (w *World) writes(fn *ssa.Function) []Write {
	var out []Write
	add := func(fields []string, base ssa.Value, pos token.Pos, op string) {
		fr := base != nil && freshBase(base, 0)
		for _, f := range fields {
			out = append(out, Write{fn: fn, field: f, pos: pos, fresh: fr, op: op})
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				fs, base := fieldChain(x.Addr)
				if len(fs) > 0 {
					add(fs, base, x.Pos(), "store")
				} else if n := typeName(x.Addr.Type()); n != "" && structOf(x.Addr.Type()) != nil {
					add([]string{n + ".*"}, base, x.Pos(), "store")
				}
			case *ssa.MapUpdate:
				w.source(x.Map, map[ssa.Value]bool{}, func(fs []string, base ssa.Value) {
					if fs == nil {
						// map of unknown origin: by its type
						if n := typeName(x.Map.Type()); n != "" {
							add([]string{n + "[]"}, base, x.Pos(), "mapupdate")
						}
						return
					}
					add(fs, base, x.Pos(), "mapupdate")
				})
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear" || bi.Name() == "copy") {
					w.source(x.Call.Args[0], map[ssa.Value]bool{}, func(fs []string, base ssa.Value) {
						if fs == nil {
							if n := typeName(x.Call.Args[0].Type()); n != "" {
								add([]string{n + "[]"}, base, x.Pos(), bi.Name())
							}
							return
						}
						add(fs, base, x.Pos(), bi.Name())
					})
				}
				// changes of library containers held in fields
				if cal := x.Call.StaticCallee(); cal != nil && cal.Pkg != nil && cal.Pkg != w.pkg && len(x.Call.Args) > 0 && mutExt[cal.Name()] && strings.Contains(cal.String(), "(") {
					fs, base := fieldChain(x.Call.Args[0])
					if len(fs) > 0 {
						add(fs, base, x.Pos(), cal.Name())
					} else {
						w.source(x.Call.Args[0], map[ssa.Value]bool{}, func(fs []string, base ssa.Value) {
							add(fs, base, x.Pos(), cal.Name())
						})
					}
				}
			}
		}
	}
	return out
}

var mutExt = map[string]bool{"PushBack": true, "PushFront": true, "Remove": true, "InsertBefore": true, "InsertAfter": true,
	"MoveToFront": true, "MoveToBack": true, "MoveBefore": true, "MoveAfter": true, "PushBackList": true, "PushFrontList": true, "Init": true,
	"Put": true, "Clear": true, "Swap": true, "Sort": true, "Set": true}

// callees gives the package functions fn may call or hand out as closures.
func (w *World) callees(fn *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] {
			if f.Pkg != w.pkg && f.Synthetic != "" {
				// wrapper: what it calls
				seen[f] = true
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if c, ok := in.(ssa.CallInstruction); ok {
							if cal := c.Common().StaticCallee(); cal != nil && cal.Pkg == w.pkg && !seen[cal] {
								seen[cal] = true
								out = append(out, cal)
							}
						}
					}
				}
				return
			}
			if f.Pkg != w.pkg && (f.Parent() == nil || f.Parent().Pkg != w.pkg) {
				return
			}
			seen[f] = true
			out = append(out, f)
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			var ops []*ssa.Value
			for _, op := range in.Operands(ops) {
				if *op == nil {
					continue
				}
				if f, ok := (*op).(*ssa.Function); ok {
					add(f)
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				add(mc.Fn.(*ssa.Function))
			}
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
				for _, f := range w.implementers(c.Common()) {
					add(f)
				}
			}
		}
	}
	return out
}

// implementers: methods of package types an interface call may reach.
func (w *World) implementers(cc *ssa.CallCommon) []*ssa.Function {
	it, ok := cc.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	var names []string
	for n := range w.pkg.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		t, ok := w.pkg.Members[n].(*ssa.Type)
		if !ok || types.IsInterface(t.Type()) {
			continue
		}
		for _, typ := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
			if types.Implements(typ, it) {
				if m := w.method(typ, cc.Method); m != nil {
					out = append(out, m)
					break
				}
			}
		}
	}
	return out
}

func exportedFn(f *ssa.Function) bool {
	if f.Parent() != nil || f.Synthetic != "" {
		return false
	}
	if !ast.IsExported(f.Name()) {
		return false
	}
	if r := f.Signature.Recv(); r != nil {
		return true
	}
	return true
}

// tracked reports whether a write concerns one of the given Type.field
// patterns (Type.* for all fields of a type).
func trackedBy(field string, pats []string) bool {
	t := field
	if i := strings.IndexAny(t, ".["); i > 0 {
		t = t[:i]
	}
	for _, p := range pats {
		if p == field || p == t+".*" || field == t+".*" && strings.HasPrefix(p, t+".") {
			return true
		}
	}
	return false
}

// checkWritersOf: fields matching the patterns are written only by functions
// the rules of this check interpret, and every exported function that can
// reach such a write does so through one of the entry points analysed.
func (c *Ctx) checkWritersOf(rule string, allowed []string, pats ...string) {
	okFn := map[string]bool{}
	for f := range c.fns {
		okFn[f] = true
	}
	for _, f := range allowed {
		okFn[f] = true
	}
	direct := map[*ssa.Function]bool{}
	n := 0
	for _, f := range c.w.all {
		if f.Synthetic != "" && f.Synthetic != "package initializer" || f.Name() == "init" {
			continue
		}
		for _, wr := range c.w.writes(f) {
			if wr.fresh || !trackedBy(wr.field, pats) {
				continue
			}
			n++
			direct[f] = true
			c.ob(rule, fnName(f), okFn[fnName(f)], wr.pos, "%s changes %s outside the analysed operations", fnName(f), wr.field)
		}
	}
	// the patterns name something
	for _, p := range pats {
		i := strings.Index(p, ".")
		st := structOf(c.typ(p[:i]))
		if st == nil {
			panic(anchorErr("type " + p[:i] + " is not a struct"))
		}
		if p[i+1:] != "*" {
			fieldType(c.typ(p[:i]), p[i+1:])
		}
	}
	// exported functions that reach a writer other than through an entry
	entry := map[string]bool{}
	for _, m := range mutEntries {
		entry[m.name] = true
	}
	for _, m := range unitEntries {
		if c.w.fn(m.name) != nil {
			entry[m.name] = true
		}
	}
	for _, f := range allowed {
		entry[f] = true
	}
	reach := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	visiting := map[*ssa.Function]bool{}
	rec = func(f *ssa.Function) bool {
		if v, ok := reach[f]; ok {
			return v
		}
		if visiting[f] {
			return false
		}
		visiting[f] = true
		r := direct[f]
		for _, g := range c.w.callees(f) {
			if entry[fnName(g)] {
				continue
			}
			if rec(g) {
				r = true
			}
		}
		visiting[f] = false
		reach[f] = r
		return r
	}
	for _, f := range c.w.all {
		if !exportedFn(f) || entry[fnName(f)] {
			continue
		}
		reach = map[*ssa.Function]bool{}
		c.ob(rule+"-entry", fnName(f), !rec(f), f.Pos(), "%s reaches a change of %v outside the analysed entry points", fnName(f), pats)
	}
}

// unitEntries are internal operations that are checked like entry points when
// they exist, because several exported functions use them.
var unitEntries = []struct{ name, kind string }{
	{"Graph.cloneNode", "newnode"}, {"Graph.cloneEdge", "newedge"},
}
