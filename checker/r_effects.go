package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// eff is a change a function may make: to a field of an object reached from
// a parameter (root >= 0; captured variables follow the parameters), or from
// elsewhere (-1).
type eff struct {
	field string
	root  int
}

type effWhy struct {
	pos token.Pos
	via string
}

type effAnalysis struct {
	w    *World
	sum  map[*ssa.Function]map[eff]effWhy
	dep  map[*ssa.Function]bool
	skip map[string]bool // functions whose effects are not followed
}

func newEffects(w *World) *effAnalysis {
	return &effAnalysis{w: w, sum: map[*ssa.Function]map[eff]effWhy{}, skip: map[string]bool{}}
}

// roots: where a value comes from. via gives the fields it was loaded
// through, outermost last.
type rootInfo struct {
	root   int // >=0 parameter, -1 elsewhere, -2 made here
	fields []string
}

func (a *effAnalysis) roots(fn *ssa.Function, v ssa.Value, seen map[ssa.Value]bool) []rootInfo {
	if seen[v] {
		return nil
	}
	seen[v] = true
	defer delete(seen, v)
	param := func(p ssa.Value) int {
		for i, q := range fn.Params {
			if q == p {
				return i
			}
		}
		for i, q := range fn.FreeVars {
			if q == p {
				return len(fn.Params) + i
			}
		}
		return -1
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		return []rootInfo{{root: param(x)}}
	case *ssa.FreeVar:
		return []rootInfo{{root: param(x)}}
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.Const, *ssa.MakeClosure, *ssa.Function:
		return []rootInfo{{root: -2}}
	case *ssa.Alloc:
		return []rootInfo{{root: -2}}
	case *ssa.FieldAddr:
		st := structOf(x.X.Type())
		var out []rootInfo
		for _, r := range a.roots(fn, x.X, seen) {
			out = append(out, rootInfo{r.root, append(append([]string(nil), r.fields...), typeName(x.X.Type())+"."+fieldName(st.Field(x.Field)))})
		}
		return out
	case *ssa.Field:
		st := structOf(x.X.Type())
		var out []rootInfo
		for _, r := range a.roots(fn, x.X, seen) {
			out = append(out, rootInfo{r.root, append(append([]string(nil), r.fields...), typeName(x.X.Type())+"."+fieldName(st.Field(x.Field)))})
		}
		return out
	case *ssa.IndexAddr:
		return a.roots(fn, x.X, seen)
	case *ssa.Slice:
		return a.roots(fn, x.X, seen)
	case *ssa.ChangeType:
		return a.roots(fn, x.X, seen)
	case *ssa.Convert:
		return a.roots(fn, x.X, seen)
	case *ssa.MakeInterface:
		return a.roots(fn, x.X, seen)
	case *ssa.ChangeInterface:
		return a.roots(fn, x.X, seen)
	case *ssa.TypeAssert:
		return a.roots(fn, x.X, seen)
	case *ssa.Extract:
		if _, ok := x.Tuple.(*ssa.TypeAssert); ok {
			return a.roots(fn, x.Tuple, seen)
		}
		return []rootInfo{{root: -1}}
	case *ssa.Phi:
		var out []rootInfo
		for _, e := range x.Edges {
			out = append(out, a.roots(fn, e, seen)...)
		}
		return out
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return []rootInfo{{root: -1}}
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			// a local variable: what it may hold
			var out []rootInfo
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == al {
					out = append(out, a.roots(fn, s.Val, seen)...)
				}
				if mc, ok := r.(*ssa.MakeClosure); ok {
					// captured: a closure may assign it
					_ = mc
					if a.assignedInClosure(al) {
						out = append(out, rootInfo{root: -1})
					}
				}
			}
			if out == nil {
				out = []rootInfo{{root: -2}}
			}
			return out
		}
		var out []rootInfo
		for _, r := range a.roots(fn, x.X, seen) {
			// an object loaded from a field of something made here may be
			// an existing one
			if r.root == -2 && len(r.fields) > 0 {
				if vals := a.fieldStores(fn, x.X); vals != nil {
					for _, v := range vals {
						for _, q := range a.roots(fn, v, seen) {
							out = append(out, rootInfo{q.root, append(append([]string(nil), q.fields...), r.fields...)})
						}
					}
					continue
				}
				r.root = -1
			}
			if g, ok := x.X.(*ssa.Global); ok {
				r = rootInfo{-1, []string{"global." + g.Name()}}
			}
			out = append(out, r)
		}
		return out
	case *ssa.Global:
		return []rootInfo{{-1, []string{"global." + x.Name()}}}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return append(a.roots(fn, x.Call.Args[0], seen), rootInfo{root: -2})
		}
		if cal := x.Call.StaticCallee(); cal != nil && a.w.returnsFresh(cal, 0) {
			return []rootInfo{{root: -2}}
		}
	}
	return []rootInfo{{root: -1}}
}

// fieldStores: all values stored in this function into the field of a local
// object that address points to, if the object is not given away before.
func (a *effAnalysis) fieldStores(fn *ssa.Function, addr ssa.Value) []ssa.Value {
	fa, ok := addr.(*ssa.FieldAddr)
	if !ok {
		return nil
	}
	al, ok := fa.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, r := range *al.Referrers() {
		switch y := r.(type) {
		case *ssa.FieldAddr:
			if y.Field != fa.Field {
				continue
			}
			for _, q := range *y.Referrers() {
				if s, ok := q.(*ssa.Store); ok && s.Addr == y {
					out = append(out, s.Val)
				}
			}
		case *ssa.Store:
			if y.Addr == al {
				return nil
			}
		}
	}
	return out
}

func (a *effAnalysis) assignedInClosure(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		mc, ok := r.(*ssa.MakeClosure)
		if !ok {
			continue
		}
		cf := mc.Fn.(*ssa.Function)
		for i, b := range mc.Bindings {
			if b != ssa.Value(al) {
				continue
			}
			for _, q := range *cf.FreeVars[i].Referrers() {
				if s, ok := q.(*ssa.Store); ok && s.Addr == cf.FreeVars[i] {
					return true
				}
			}
		}
	}
	return false
}

// returnsFresh: every result of the function is an object it made.
func (w *World) returnsFresh(fn *ssa.Function, d int) bool {
	if d > 6 || fn.Blocks == nil || fn.Signature.Results().Len() != 1 {
		return false
	}
	n := 0
	for _, b := range fn.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		n++
		v := r.Results[0]
		if c, ok := v.(*ssa.Call); ok {
			if cal := c.Call.StaticCallee(); cal != nil && w.returnsFresh(cal, d+1) {
				continue
			}
		}
		if !freshBase(v, 0) {
			return false
		}
	}
	return n > 0
}

// effects of a function, its callees and the closures it makes.
func (a *effAnalysis) run() {
	for changed := true; changed; {
		changed = false
		for _, f := range a.w.all {
			if a.sum[f] == nil {
				a.sum[f] = map[eff]effWhy{}
			}
			n := len(a.sum[f])
			a.one(f)
			if len(a.sum[f]) != n {
				changed = true
			}
		}
	}
}

func (a *effAnalysis) add(f *ssa.Function, e eff, why effWhy) {
	if e.root == -2 {
		return
	}
	if _, ok := a.sum[f][e]; !ok {
		a.sum[f][e] = why
	}
}

// change records a change through an address or container value.
func (a *effAnalysis) change(f *ssa.Function, v ssa.Value, own string, why effWhy) {
	for _, r := range a.roots(f, v, map[ssa.Value]bool{}) {
		if r.root == -2 && len(r.fields) == 0 {
			continue
		}
		for _, fd := range r.fields {
			a.add(f, eff{fd, r.root}, why)
		}
		if len(r.fields) == 0 {
			a.add(f, eff{own, r.root}, why)
		}
	}
}

func (a *effAnalysis) one(f *ssa.Function) {
	if a.skip[fnName(f)] {
		return
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if _, ok := x.Addr.(*ssa.Alloc); ok {
					continue
				}
				if _, ok := x.Addr.(*ssa.FreeVar); ok {
					// a captured local variable
					n := typeName(x.Addr.Type())
					if n == "" {
						n = "?"
					}
					for _, r := range a.roots(f, x.Addr, map[ssa.Value]bool{}) {
						a.add(f, eff{n + ".*", r.root}, effWhy{x.Pos(), ""})
					}
					continue
				}
				n := typeName(x.Addr.Type())
				if n == "" {
					n = "?"
				}
				a.change(f, x.Addr, n+".*", effWhy{x.Pos(), ""})
			case *ssa.MapUpdate:
				a.change(f, x.Map, typeName(x.Map.Type())+"[]", effWhy{x.Pos(), ""})
			case ssa.CallInstruction:
				a.call(f, x.Common(), x.Pos())
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				cf := mc.Fn.(*ssa.Function)
				for e, why := range a.sum[cf] {
					if e.root >= len(cf.Params) {
						a.map1(f, e, mc.Bindings[e.root-len(cf.Params)], cf, why)
					} else if e.root >= 0 {
						// parameter of a callback: element given by its caller
						a.add(f, eff{e.field, -1}, effWhy{why.pos, fnName(cf)})
					} else {
						a.add(f, eff{e.field, -1}, effWhy{why.pos, fnName(cf)})
					}
				}
			}
		}
	}
}

// map1 translates an effect on a parameter of a callee.
func (a *effAnalysis) map1(f *ssa.Function, e eff, arg ssa.Value, callee *ssa.Function, why effWhy) {
	w2 := effWhy{why.pos, fnName(callee)}
	if al, ok := arg.(*ssa.Alloc); ok && strings.HasSuffix(e.field, ".*") {
		_ = al // assignment to the local variable itself
	}
	rs := a.roots(f, arg, map[ssa.Value]bool{})
	if al, ok := arg.(*ssa.Alloc); ok && !strings.HasSuffix(e.field, ".*") {
		// the callee works on what the variable holds
		rs = nil
		if _, isPtr := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Pointer); isPtr {
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == al {
					rs = append(rs, a.roots(f, s.Val, map[ssa.Value]bool{})...)
				}
			}
		}
	}
	for _, r := range rs {
		if r.root == -2 && len(r.fields) == 0 {
			continue
		}
		if len(r.fields) > 0 {
			// the changed object hangs off these fields
			for _, fd := range r.fields {
				a.add(f, eff{fd, r.root}, w2)
			}
			if typeOfField(e.field) != "fastSet" {
				a.add(f, eff{e.field, r.root}, w2)
			}
			continue
		}
		a.add(f, eff{e.field, r.root}, w2)
	}
}

func typeOfField(s string) string {
	if i := strings.IndexAny(s, ".["); i >= 0 {
		return s[:i]
	}
	return s
}

func (a *effAnalysis) call(f *ssa.Function, cc *ssa.CallCommon, pos token.Pos) {
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "delete", "clear", "copy":
			a.change(f, cc.Args[0], typeName(cc.Args[0].Type())+"[]", effWhy{pos, ""})
		}
		return
	}
	apply := func(cal *ssa.Function, args []ssa.Value) {
		if a.skip[fnName(cal)] {
			return
		}
		for e, why := range a.sum[cal] {
			if e.root >= 0 && e.root < len(args) {
				a.map1(f, e, args[e.root], cal, why)
			} else if e.root < 0 {
				a.add(f, eff{e.field, -1}, effWhy{why.pos, fnName(cal)})
			}
		}
	}
	if cc.IsInvoke() {
		for _, m := range a.w.implementers(cc) {
			apply(m, append([]ssa.Value{cc.Value}, cc.Args...))
		}
		return
	}
	cal := cc.StaticCallee()
	if cal == nil {
		return
	}
	if cal.Pkg == a.w.pkg || cal.Parent() != nil && cal.Parent().Pkg == a.w.pkg {
		apply(cal, cc.Args)
		return
	}
	if cal.Synthetic != "" && cal.Blocks != nil && a.sum[cal] == nil {
		for _, b := range cal.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && g.Pkg == a.w.pkg {
						apply(g, cc.Args)
					}
				}
			}
		}
		return
	}
	if len(cc.Args) > 0 && mutExt[cal.Name()] && strings.Contains(cal.String(), "(") {
		a.change(f, cc.Args[0], typeName(cc.Args[0].Type())+".*", effWhy{pos, ""})
	}
	if cal.Pkg != nil && (cal.Pkg.Pkg.Path() == "sort" || cal.Pkg.Pkg.Path() == "slices" || cal.Pkg.Pkg.Path() == "maps") && len(cc.Args) > 0 {
		a.change(f, cc.Args[0], typeName(cc.Args[0].Type())+"[]", effWhy{pos, ""})
	}
}

// graph state: the fields of the objects a graph consists of.
var graphState = map[string]bool{"Graph": true, "Node": true, "Edge": true, "nodeList": true, "edgeMap": true, "edgeLabelLists": true, "edgeLabelList": true,
	"NodeMap": true, "graphIndex": true, "hashIndex": true, "setTree": true, "properties": true, "Element": true, "List": true, "Map": true, "Tree": true}

// readAPI lists the operations that only read graphs.
var readAPI = []string{
	"CheckIsomorphism", "CollectAllPaths", "ComparePropertyValue", "CopyGraphf", "DefaultDOTEdgeRender", "DefaultDOTNodeRender", "ForEachNode", "GetEdgeFilterFunc", "GetNodeFilterFunc",
	"Cursor.Backward", "Cursor.BackwardWith", "Cursor.Edges", "Cursor.EdgesWith", "Cursor.Forward", "Cursor.ForwardWith", "Cursor.GetPath", "Cursor.NextNodes", "Cursor.NextNodesWith", "Cursor.Nodes",
	"Cursor.NodesWith", "Cursor.PopFromPath", "Cursor.PrevNodes", "Cursor.PrevNodesWith", "Cursor.PushToPath", "Cursor.Set", "Cursor.StartPath",
	"DOTRenderer.Render", "DOTRenderer.RenderEdge", "DOTRenderer.RenderNode", "DOTRenderer.RenderNodesEdges",
	"DefaultMatchAccumulator.GetHeadNodes", "DefaultMatchAccumulator.GetTailNodes", "DefaultMatchAccumulator.StoreResult",
	"EdgeSlice", "EdgesBetweenNodes", "Edge.ForEachProperty", "Edge.GetFrom", "Edge.GetGraph", "Edge.GetID", "Edge.GetLabel", "Edge.GetProperty", "Edge.GetTo", "Edge.MarshalJSON", "Edge.String",
	"Graph.FindEdges", "Graph.FindNodes", "Graph.GetEdges", "Graph.GetEdgesWithAnyLabel", "Graph.GetEdgesWithProperty", "Graph.GetNodes", "Graph.GetNodesWithAllLabels", "Graph.GetNodesWithProperty", "Graph.NumEdges", "Graph.NumNodes",
	"JSON.Encode", "MatchPlan.CaptureSymbolValues", "MatchPlan.GetCurrentPath", "MatchPlan.Run", "MultiIterator",
	"NextNodesWith", "NodeSlice", "PrevNodesWith", "Sinks", "SourceNodes", "Sources", "TargetNodes", "SinksItr", "SourcesItr",
	"Node.ForEachProperty", "Node.GetEdges", "Node.GetEdgesWithAnyLabel", "Node.GetEdgesWithLabel", "Node.GetGraph", "Node.GetID", "Node.GetLabels", "Node.GetProperty", "Node.HasLabel", "Node.MarshalJSON", "Node.String",
	"NodeMap.IsEmpty", "NodeMap.Iterator", "NodeMap.IteratorAllLabels",
	"NewPathFromElements", "PathFromNode", "Path.Append", "Path.AppendPath", "Path.Clear", "Path.Clone", "Path.First", "Path.GetEdge", "Path.GetNode", "Path.HasPrefix", "Path.HasPrefixPath", "Path.IsEmpty", "Path.Last",
	"Path.NumEdges", "Path.NumNodes", "Path.RemoveLast", "Path.SetOnlyNode", "Path.Slice", "Path.String", "NewPathElementsFromEdges", "PathElement.GetSourceNode", "PathElement.GetTargetNode",
	"Pattern.FindNodes", "Pattern.FindPaths", "Pattern.GetPlan", "Pattern.GetSymbolNames", "Pattern.Run", "PatternSymbol.Add", "PatternSymbol.AddNode", "PatternSymbol.AddPath", "PatternSymbol.EdgeSlice", "PatternSymbol.NodeSlice",
	"NodeSet.Add", "NodeSet.Remove", "NodeSet.Has", "NodeSet.Iterator", "NodeSet.Slice", "EdgeSet.Add", "EdgeSet.Remove", "EdgeSet.Has", "EdgeSet.Iterator", "EdgeSet.Slice",
}

// copyAPI: copying operations and the parameter that may change.
var copyAPI = map[string]string{"CopyGraph": "target", "CopySubgraph": "target", "CopyNode": "target", "CopyEdge": "target", "CloneEdge": "target"}

func (c *Ctx) checkReadOnly(rule string) {
	a := newEffects(c.w)
	a.run()
	describe := func(f *ssa.Function, e eff) string {
		var path []string
		cur := f
		ee := e
		for i := 0; i < 12; i++ {
			why, ok := a.sum[cur][ee]
			if !ok {
				break
			}
			if why.via == "" {
				path = append(path, c.w.pos(why.pos))
				break
			}
			path = append(path, why.via)
			nxt := c.w.fn(why.via)
			if nxt == nil {
				path = append(path, c.w.pos(why.pos))
				break
			}
			cur = nxt
			found := false
			for k := range a.sum[cur] {
				if k.field == e.field {
					ee, found = k, true
				}
			}
			if !found {
				path = append(path, c.w.pos(why.pos))
				break
			}
		}
		return strings.Join(path, " > ")
	}
	n := 0
	for _, name := range readAPI {
		f := c.w.fn(name)
		if f == nil {
			continue
		}
		n++
		c.fns[name] = true
		var bad []string
		var pos token.Pos
		for e, why := range a.sum[f] {
			t := typeOfField(e.field)
			if t == "fastSet" && e.root >= 0 && !graphParam(f, e.root) {
				continue
			}
			if !graphState[t] && t != "fastSet" {
				continue
			}
			if t == "properties" && e.root >= 0 && !graphParam(f, e.root) {
				continue
			}
			bad = append(bad, fmt.Sprintf("%s (%s)", e.field, describe(f, e)))
			pos = why.pos
		}
		sort.Strings(bad)
		c.ob(rule, name, len(bad) == 0, pos, "%s may change %s", name, strings.Join(bad, ", "))
	}
	for name, target := range copyAPI {
		f := c.w.fn(name)
		if f == nil {
			continue
		}
		n++
		c.fns[name] = true
		var bad []string
		var pos token.Pos
		for e, why := range a.sum[f] {
			if e.root < 0 || e.root >= len(f.Params) || f.Params[e.root].Name() == target {
				continue
			}
			if _, ok := f.Params[e.root].Type().Underlying().(*types.Pointer); !ok || !graphParam(f, e.root) {
				continue
			}
			// new edges are listed at their end nodes
			t := typeOfField(e.field)
			if !graphState[t] {
				continue
			}
			bad = append(bad, fmt.Sprintf("%s of %s (%s)", e.field, f.Params[e.root].Name(), describe(f, e)))
			pos = why.pos
		}
		sort.Strings(bad)
		c.ob(rule, name, len(bad) == 0, pos, "%s may change its source: %s", name, strings.Join(bad, ", "))
	}
	if n < 100 {
		c.fail(rule, "read-operations", token.NoPos, "only %d of the read operations exist", n)
	}
}

func graphParam(f *ssa.Function, i int) bool {
	if i >= len(f.Params) {
		return true
	}
	t := f.Params[i].Type()
	n := typeName(t)
	return graphState[n]
}

// checkNoSharedState: no package-level state changes after initialisation
// and nothing runs in the background.
func (c *Ctx) checkNoSharedState(rule string) {
	a := newEffects(c.w)
	a.run()
	var names []string
	for n, m := range c.w.pkg.Members {
		if g, ok := m.(*ssa.Global); ok && !strings.HasPrefix(n, "init$") {
			names = append(names, n)
			// what the variable holds must not be changed by others
			c.ob(rule, "var "+n, true, g.Pos(), "")
		}
	}
	for _, f := range c.w.all {
		if f.Name() == "init" && f.Parent() == nil || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		con := fnName(f)
		c.fns[con] = true
		bad := ""
		var pos token.Pos
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Go:
					bad, pos = "starts a goroutine", x.Pos()
				case *ssa.Store:
					if g := globalBase(x.Addr); g != nil {
						bad, pos = "changes the package variable "+g.Name(), x.Pos()
					}
					al, local := x.Addr.(*ssa.Alloc)
					if g := heldGlobal(x.Val, 0); g != nil && (mutableType(x.Val.Type()) || isIfaceType(x.Val.Type())) && !(local && !al.Heap) {
						bad, pos = "keeps the package variable "+g.Name()+" in an object", x.Pos()
					}
				case *ssa.MapUpdate:
					if g := heldGlobal(x.Value, 0); g != nil && (mutableType(x.Value.Type()) || isIfaceType(x.Value.Type())) {
						bad, pos = "keeps the package variable "+g.Name()+" in a map", x.Pos()
					}
					if g := globalBase(x.Map); g != nil {
						bad, pos = "changes the package variable "+g.Name(), x.Pos()
					}
				case ssa.CallInstruction:
					cc := x.Common()
					if cal := cc.StaticCallee(); cal != nil {
						pk := ""
						if cal.Pkg != nil {
							pk = cal.Pkg.Pkg.Path()
						}
						if pk == "time" && (cal.Name() == "AfterFunc" || cal.Name() == "NewTicker" || cal.Name() == "Tick") || pk == "runtime" && (cal.Name() == "SetFinalizer" || cal.Name() == "AddCleanup") || pk == "context" && cal.Name() == "AfterFunc" {
							bad, pos = "starts background activity with "+cal.String(), x.Pos()
						}
						for i, arg := range cc.Args {
							g := globalBase(arg)
							if g == nil || pk == "" {
								continue
							}
							if c.readOnlyGlobalUse(a, cal, i, g) {
								continue
							}
							bad, pos = "hands the package variable "+g.Name()+" to "+cal.String(), x.Pos()
						}
					}
					if bi, ok := cc.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear" || bi.Name() == "copy" || bi.Name() == "append") && len(cc.Args) > 0 {
						if g := globalBase(cc.Args[0]); g != nil {
							bad, pos = "changes the package variable "+g.Name(), x.Pos()
						}
					}
				case *ssa.Return:
					for _, r := range x.Results {
						if g := heldGlobal(r, 0); g != nil && (mutableType(r.Type()) || isIfaceType(r.Type())) {
							bad, pos = "gives away the package variable "+g.Name(), x.Pos()
						}
					}
				}
			}
		}
		c.ob(rule, con, bad == "", pos, "%s %s", con, bad)
	}
}

// readOnlyGlobalUse: handing the variable to this function does not let it be
// changed.
func (c *Ctx) readOnlyGlobalUse(a *effAnalysis, cal *ssa.Function, i int, g *ssa.Global) bool {
	pt, ok := g.Type().Underlying().(*types.Pointer)
	if ok && !mutableType(pt.Elem()) {
		return true
	}
	if cal.Pkg == c.w.pkg {
		for e := range a.sum[cal] {
			if e.root == i {
				return false
			}
		}
		return true
	}
	pk := cal.Pkg.Pkg.Path()
	switch pk {
	case "bytes", "strings", "fmt", "errors", "io", "encoding/json", "regexp", "unicode/utf8", "strconv":
		return !strings.HasPrefix(cal.Name(), "Unmarshal") && cal.Name() != "Reset" && !strings.HasPrefix(cal.Name(), "Read")
	}
	if pk == "sync" && g != nil {
		return false
	}
	return false
}

// heldGlobal: the package variable a value may be.
func heldGlobal(v ssa.Value, d int) *ssa.Global {
	if d > 6 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if g := heldGlobal(e, d+1); g != nil {
				return g
			}
		}
		return nil
	case *ssa.MakeInterface:
		if !mutableType(x.X.Type()) {
			return nil
		}
		return heldGlobal(x.X, d+1)
	}
	g := globalBase(v)
	if g != nil && isIfaceType(v.Type()) && !holdsState(g) {
		return nil
	}
	return g
}

// holdsState: an interface variable initialised with a pointer to an object
// of this package that has fields.
func holdsState(g *ssa.Global) bool {
	ini := g.Pkg.Func("init")
	if ini == nil {
		return true
	}
	for _, b := range ini.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok || s.Addr != ssa.Value(g) {
				continue
			}
			mi, ok := s.Val.(*ssa.MakeInterface)
			if !ok {
				continue
			}
			p, ok := mi.X.Type().Underlying().(*types.Pointer)
			if ok {
				if n, ok := p.Elem().(*types.Named); ok && n.Obj().Pkg() == g.Pkg.Pkg && mutableType(p) {
					return true
				}
			}
		}
	}
	return false
}

func mutableType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Map, *types.Slice, *types.Chan:
		return true
	case *types.Pointer:
		if s := structOf(t); s != nil && s.NumFields() == 0 {
			return false
		}
		return true
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// globalBase: the package variable (of this package) an address or container
// belongs to.
func globalBase(v ssa.Value) *ssa.Global {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.Global:
			if strings.HasPrefix(x.Name(), "init$") {
				return nil
			}
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			v = x.X
		default:
			return nil
		}
	}
	return nil
}

func init() {
	reg("C12", "Effect analysis: for every function the fields it may change are computed to a fixpoint over the call graph (interface calls resolved to all implementations, closures followed where they are made), separating objects it made itself, objects reached from each parameter and others; no read operation may change a field of a graph, node, edge, list, label set or index, and copying operations change their target only.", 100, func(c *Ctx) {
		c.checkReadOnly("read-only")
		c.checkCopyOnWrite("label-set-copy-on-write")
	})
	reg("C13", "Effect analysis over every function of the package: no store, map update or container change reaches a package-level variable outside initialisation, none is handed to code that could change it or returned, and no goroutine, timer or finalizer is started.", 100, func(c *Ctx) {
		c.checkNoSharedState("shared-state")
	})
}
