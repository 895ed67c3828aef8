package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// itrOpaque keeps the package's iterators closed: moving one and reading it
// are events on the innermost iterator.
func (c *Ctx) itrOpaque() Hook {
	it := c.typ("Iterator").Underlying().(*types.Interface)
	return func(e *Eng, st *State, ci *CallInfo) ([]CallRes, bool) {
		name := ""
		switch {
		case ci.invoke:
			name = ci.name
		case ci.fn != nil && ci.fn.Signature.Recv() != nil:
			rt := ci.fn.Signature.Recv().Type()
			if !types.Implements(rt, it) && !types.Implements(types.NewPointer(rt), it) {
				return nil, false
			}
			name = ci.fn.Name()
		}
		if name != "Next" && name != "Value" && name != "Node" && name != "Edge" || len(ci.args) != 1 {
			return nil, false
		}
		n := *ci
		n.name, n.invoke, n.fn = name, true, nil
		n.args = []*Term{c.innerItr(st, ci.args[0])}
		return e.opaque0(st, &n), true
	}
}

// innerItr strips the typed views of an iterator.
func (c *Ctx) innerItr(st *State, t *Term) *Term {
	for i := 0; i < 6; i++ {
		t = st.canon(t)
		typ := t.typ
		x := t
		if t.op == OpIface {
			typ, x = t.typ, st.canon(t.args[0])
		}
		if typ == nil {
			return t
		}
		switch typeName(typ) {
		case "nodeIterator", "edgeIterator":
			if x.op == OpStruct && len(x.args) == 1 {
				t = x.args[0]
				continue
			}
			if _, ok := x.typ.Underlying().(*types.Struct); ok {
				s := structOf(x.typ)
				t = st.e.fieldOf(x, 0, fieldName(s.Field(0)), s.Field(0).Type())
				continue
			}
			t = st.get(x, x.typ, "Iterator")
			continue
		}
		return t
	}
	return t
}

// itrDen is den for an iterator stripped of its views.
func (c *Ctx) itrDen(e *Eng, st *State, t *Term) *Den {
	t = st.canon(t)
	if t.op != OpIface && t.op != OpUnk && t.typ != nil {
		if _, ok := t.typ.Underlying().(*types.Interface); !ok {
			return c.den(e, st, e.tt.Iface(t.typ, t))
		}
	}
	return c.den(e, st, t)
}

// vpath is the analysis of variable length expansion.
type vpath struct {
	c             *Ctx
	rule          string
	e             *Eng
	recName       string
	graph, from   *Term
	leg, filter   *Term
	dir, min, max *Term
	acc           *Term
}

func pathArg(fn *ssa.Function, free int) int {
	for i, p := range fn.Params {
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok && typeName(pt) == "Path" {
			return i
		}
	}
	return -1
}

func (c *Ctx) checkExpansion(rule string) {
	fn := c.fn("CollectAllPaths")
	con := "CollectAllPaths"
	c.guard(rule, con, func() {
		base := hooks(c.itrOpaque(), atoms("Path.Clone", "Path.Append", "Path.Last", "Node.GetEdges", "makeUniqueIterator", "PathFromNode"), stdModel)
		// the function that calls itself
		rec := map[*ssa.Function]bool{}
		for f := range c.reach(fn) {
			if c.callsItself(f) {
				rec[f] = true
			}
		}
		if len(rec) != 1 {
			panic(anchorErr("no single function that extends a path and calls itself"))
		}
		var R *ssa.Function
		for f := range rec {
			R = f
		}
		var at *State
		var rArgs, rFree []*Term
		hook := func(e *Eng, st *State, ci *CallInfo) ([]CallRes, bool) {
			if ci.fn == R {
				if at == nil {
					at = st.clone()
					rArgs, rFree = ci.args, ci.free
				}
				return e.opaque0(st, ci), true
			}
			return base(e, st, ci)
		}
		e, args, outs := c.runA(fn, hook)
		v := &vpath{c: c, rule: rule, e: e, recName: fnName(R), graph: args[0], from: args[1], leg: args[2], filter: args[3], dir: args[4], min: args[5], max: args[6], acc: args[7]}
		for _, o := range outs {
			if o.panic {
				c.fail(rule, con, o.pos, "may panic: %s", o.panicIs)
				continue
			}
			v.first(o, fn.Pos())
		}
		if at == nil {
			c.fail(rule, con, fn.Pos(), "no path is ever extended")
			return
		}
		pi := pathArg(R, len(rFree))
		if pi < 0 {
			panic(anchorErr("the extended path is not a parameter of " + fnName(R)))
		}
		in := append([]*Term(nil), rArgs...)
		prefix := e.tt.Param("prefix", R.Params[pi].Type())
		in[pi] = prefix
		st := at.clone()
		st.tr, st.frames = nil, nil
		st.nn[prefix] = true
		res := e.call(R, in, rFree, st, "rec")
		c.account(e, res)
		if e.over {
			panic(anchorErr("analysis budget exceeded in " + fnName(R)))
		}
		n := 0
		for _, o := range res {
			if o.st.dead {
				continue
			}
			n++
			if o.panic {
				c.fail(rule, con+" step", o.pos, "may panic: %s", o.panicIs)
				continue
			}
			v.step(o, in, pi, prefix, R.Pos())
		}
		c.ob(rule, con+" step", n > 0, R.Pos(), "no outcome")
	})
}

// reach: functions of the package reachable from fn, closures included.
func (c *Ctx) reach(fn *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || out[f] || !c.w.inline(f) {
			return
		}
		out[f] = true
		for _, a := range f.AnonFuncs {
			visit(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					visit(ci.Common().StaticCallee())
				}
			}
		}
	}
	visit(fn)
	return out
}

// callsItself: directly, or through a captured variable that only ever holds
// the closure.
func (c *Ctx) callsItself(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := ci.Common()
			if cc.StaticCallee() == f {
				return true
			}
			u, ok := cc.Value.(*ssa.UnOp)
			if !ok || u.Op != token.MUL || cc.IsInvoke() {
				continue
			}
			fv, ok := u.X.(*ssa.FreeVar)
			if !ok || f.Parent() == nil {
				continue
			}
			idx := -1
			for i, x := range f.FreeVars {
				if x == fv {
					idx = i
				}
			}
			// the cell bound to it in the parent
			for _, pb := range f.Parent().Blocks {
				for _, pin := range pb.Instrs {
					mc, ok := pin.(*ssa.MakeClosure)
					if !ok || mc.Fn != ssa.Value(f) || idx >= len(mc.Bindings) {
						continue
					}
					cell := mc.Bindings[idx]
					if cell.Referrers() == nil {
						continue
					}
					for _, r := range *cell.Referrers() {
						if s, ok := r.(*ssa.Store); ok && s.Addr == cell {
							if m2, ok := s.Val.(*ssa.MakeClosure); ok && m2.Fn == ssa.Value(f) {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

// oriented: the element is the edge in the orientation that starts at node.
func (v *vpath) oriented(st *State, edge, rev, node *Term) string {
	tt := v.e.tt
	et := v.c.typ("Edge")
	fr, to := st.get(edge, et, "from"), st.get(edge, et, "to")
	known := func(a, b *Term) (bool, bool) { return st.evalBool(st.canon(tt.eq(st.canon(a), st.canon(b)))) }
	if eq, k := known(fr, to); k && eq {
		return ""
	}
	r, ok := st.evalBool(st.canon(rev))
	if !ok {
		if rev == nil || st.canon(rev).op == OpUnk {
			return "the orientation of an edge is not decided"
		}
		for _, b := range []bool{true, false} {
			s := st.clone()
			s.assume(st.canon(rev), b)
			if s.dead {
				continue
			}
			if _, ok := s.evalBool(s.canon(rev)); !ok {
				return "the orientation of an edge is not decided"
			}
			if why := v.oriented(s, edge, rev, node); why != "" {
				return why
			}
		}
		return ""
	}
	if r {
		// the edge touches the node
		if eq, k := known(fr, node); k && !eq {
			return ""
		}
		if eq, k := known(to, node); k && eq {
			return ""
		}
		return "an edge is reversed though it does not end where the path ends"
	}
	if eq, k := known(fr, node); k && eq {
		return ""
	}
	if eq, k := known(to, node); k && !eq {
		return ""
	}
	return "an edge that may end where the path ends is not reversed"
}

// pathElem splits a PathElement value.
func (v *vpath) pathElem(st *State, t *Term) (edge, rev *Term) {
	pt := v.c.typ("PathElement")
	s := structOf(pt)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		x := st.canon(v.e.fieldOf(t, i, f.Name(), f.Type()))
		switch f.Name() {
		case "Edge":
			edge = x
		case "Reverse":
			rev = x
		}
	}
	return
}

// built describes a path: what it extends and the elements added.
func (v *vpath) built(st *State, evs []Ev, t *Term) (base *Term, how string, added []*Term, ok bool) {
	t = st.canon(t)
	e := v.e
	if cl := st.callOf(t); cl != nil && cl.name == "Path.Append" {
		t = st.canon(cl.args[0])
	}
	appends := func() {
		for _, x := range evs {
			if x.isCall("Path.Append") && x.args[0] == t {
				for _, a := range variadic(e, st, x.args[1:]) {
					added = append(added, a)
				}
			}
		}
	}
	if cl := st.callOf(t); cl != nil {
		switch cl.name {
		case "Path.Clone":
			appends()
			if xs, ok := v.stored(st, t); ok {
				added = append(added, xs...)
			} else {
				return nil, "", nil, false
			}
			return st.canon(cl.args[0]), "clone", added, true
		case "PathFromNode":
			appends()
			return st.canon(cl.args[0]), "node", added, true
		}
		return nil, "", nil, false
	}
	if t.op == OpNew {
		pt := types.NewPointer(v.c.typ("Path"))
		only := st.canon(st.get(t, pt, "only"))
		list := st.canon(st.get(t, pt, "path"))
		if app(list, "slicelit") {
			n, k := list.args[1].constInt()
			el := v.c.typ("PathElement")
			for i := int64(0); k && i < n; i++ {
				added = append(added, st.load(e.tt.Elem(list.args[0], e.tt.Int(i), el), el))
			}
			appends()
			return nil, "new", added, k && only.isNil()
		}
		if list.isNil() && only.isNil() {
			appends()
			return nil, "new", added, true
		}
	}
	return nil, "", nil, false
}

// stored: the elements added to a path by assigning its list.
func (v *vpath) stored(st *State, t *Term) ([]*Term, bool) {
	pt := types.NewPointer(v.c.typ("Path"))
	list := st.canon(st.get(t, pt, "path"))
	var out []*Term
	for k := 0; k < 4; k++ {
		if !app(list, "append") {
			break
		}
		xs := list.args
		if len(xs) < 1 {
			return nil, false
		}
		out = append(append([]*Term(nil), xs[1:]...), out...)
		list = st.canon(list.args[0])
	}
	return out, list.op == OpInit || list.op == OpUnk
}

// first checks the loop over the first leg.
func (v *vpath) first(o Outcome, pos token.Pos) {
	c, e := v.c, v.e
	con := "CollectAllPaths first"
	evs := o.st.tr.list()
	loops := 0
	for i, ev := range evs {
		if ev.kind != EvLoop {
			continue
		}
		it := e.iterOf(evs, i, o.st)
		if it.kind != "itr" {
			continue
		}
		loops++
		d := c.itrDen(e, o.st, it.coll)
		isLeg := func(t *Term) bool {
			t = o.st.canon(t)
			for k := 0; k < 4; k++ {
				if t == v.leg || strip(t) == v.leg {
					return true
				}
				cl := o.st.callOf(t)
				if cl == nil || cl.name != "makeUniqueIterator" {
					return false
				}
				t = o.st.canon(cl.args[0])
				if y, _, ok := asOf(t); ok {
					t = y
				}
			}
			return false
		}
		c.ob(v.rule, con+" edges", isLeg(it.coll) || d != nil && d.t != nil && isLeg(d.t), ev.pos, "the paths do not start with the given edges")
		stopped := false
		for _, x := range top(o.st)[i:] {
			if x.kind == EvCall && x.name == v.recName {
				if b, ok := o.st.evalBool(o.st.canon(x.Event.res)); ok && !b {
					stopped = true
				}
			}
		}
		c.ob(v.rule, con+" all", it.all() || stopped, ev.pos, "not all of the given edges are followed: %s", it.why)
		for _, sg := range ev.loop.segs {
			s := sg.st
			lv := line(sg.events, s)
			var calls []Ev
			for _, x := range lv {
				if x.kind == EvCall && x.name == v.recName {
					calls = append(calls, x)
				}
			}
			if !c.ob(v.rule, con+" once", len(calls) == 1, ev.pos, "a first edge is followed %d times", len(calls)) {
				continue
			}
			x := calls[0]
			b, ok := s.evalBool(s.canon(x.Event.res))
			c.ob(v.rule, con+" stop", ok && b, x.pos, "the search goes on after the receiver asked it to stop")
			v.firstPath(con, s, lv, x, isLeg)
		}
		// the call that ended the loop
		for _, x := range top(o.st)[i:] {
			if x.kind == EvCall && x.name == v.recName {
				v.firstPath(con, o.st, top(o.st), x, isLeg)
			}
		}
	}
	c.ob(v.rule, con, loops == 1, pos, "%d loops over the first edges", loops)
}

func (v *vpath) firstPath(con string, s *State, lv []Ev, x Ev, isLeg func(*Term) bool) {
	c := v.c
	pi := -1
	for i, a := range x.args {
		if a.typ != nil {
			if p, ok := a.typ.Underlying().(*types.Pointer); ok && typeName(p) == "Path" {
				pi = i
			}
		}
	}
	if pi < 0 {
		c.fail(v.rule, con+" path", x.pos, "no path is extended")
		return
	}
	base, how, added, ok := v.built(s, lv, x.args[pi])
	if !c.ob(v.rule, con+" path", ok && len(added) == 1 && (how == "new" || how == "node" && base == v.from), x.pos, "the path followed is not the first edge alone") {
		return
	}
	edge, rev := v.pathElem(s, added[0])
	c.ob(v.rule, con+" edge", v.edgeOf(s, edge, isLeg), x.pos, "the path does not start with the edge at hand")
	why := v.oriented(s, edge, rev, v.from)
	c.ob(v.rule, con+" orientation", why == "", x.pos, "%s", why)
}

// edgeOf: the edge was read from an iterator that satisfies is.
func (v *vpath) edgeOf(s *State, edge *Term, is func(*Term) bool) bool {
	if y, _, ok := asOf(edge); ok {
		edge = y
	}
	cl := s.callOf(edge)
	return cl != nil && cl.invoke && (cl.name == "Edge" || cl.name == "Value") && is(s.canon(cl.args[0]))
}

// step checks one outcome of extending a path.
func (v *vpath) step(o Outcome, in []*Term, pi int, prefix *Term, pos token.Pos) {
	c, e, st := v.c, v.e, o.st
	tt := e.tt
	con := "CollectAllPaths step"
	n := st.canon(tt.App("len", types.Typ[types.Int], st.get(prefix, prefix.typ, "path")))
	z := st.zoneOf(func(z *zone) { z.le(tt.Int(0), n, 0) })
	if z.empty() {
		return
	}
	truth := func(t *Term) (bool, bool) { return st.evalBool(st.canon(t)) }
	m1 := tt.Int(-1)
	lowOK, lowKnown := false, false
	if eq, k := truth(tt.eq(v.min, m1)); k && eq || z.holds(v.min, n, 0) {
		lowOK, lowKnown = true, true
	} else if z.holds(n, v.min, -1) {
		lowKnown = true
	}
	highOK, highKnown := false, false
	if eq, k := truth(tt.eq(v.max, m1)); k && eq || z.holds(n, v.max, 0) {
		highOK, highKnown = true, true
	} else if z.holds(v.max, n, -1) && (k && !eq || z.holds(tt.Int(0), v.max, 0)) {
		highKnown = true
	}
	evs := st.tr.list()
	tv := top(st)
	isAcc := func(x Ev) bool { return x.kind == EvCall && x.dynamic && x.args[0] == v.acc }
	var accs []Ev
	firstLoop := len(tv)
	for i, x := range tv {
		if isAcc(x) {
			accs = append(accs, x)
		}
		if x.kind == EvLoop && i < firstLoop {
			if it := e.iterOf(evs, x.idx, st); it.kind == "itr" {
				firstLoop = i
			}
		}
	}
	ret, retKnown := truth(o.ret[0])
	if !c.ob(v.rule, con+" result", retKnown, pos, "whether the search goes on is not decided") {
		return
	}
	out := lowKnown && !lowOK || highKnown && !highOK
	inb := lowKnown && highKnown && lowOK && highOK
	stopped := false
	switch {
	case len(accs) == 0:
		c.ob(v.rule, con+" bounds", out, pos, "a path whose length may be within the bounds is not reported: %s", outDesc(o))
	case len(accs) == 1:
		x := accs[0]
		c.ob(v.rule, con+" bounds", inb, x.pos, "a path whose length may be outside the bounds is reported: %s", outDesc(o))
		base, how, added, ok := v.built(st, tv, x.args[1])
		c.ob(v.rule, con+" copy", ok && how == "clone" && base == st.canon(prefix) && len(added) == 0, x.pos, "what is reported is not a copy of the path")
		b, k := truth(x.Event.res)
		if c.ob(v.rule, con+" asks", k, x.pos, "the receiver's answer is ignored") && !b {
			stopped = true
			c.ob(v.rule, con+" stop", !ret, x.pos, "the search goes on after the receiver asked it to stop")
		}
	default:
		c.fail(v.rule, con+" once", pos, "a path is reported %d times", len(accs))
	}
	loops := 0
	recFalse := false
	for i, ev := range evs {
		if ev.kind == EvCall && ev.name == v.recName {
			x := mkEv(ev, st, nil, i)
			b, k := truth(ev.res)
			if k && !b {
				recFalse = true
			}
			c.ob(v.rule, con+" goes on", k && !b || loops > 0, ev.pos, "a path is extended outside the loop over edges")
			v.extension(con, st, tv, x, in, pi, prefix, nil)
			if stopped {
				c.fail(v.rule, con+" stop", ev.pos, "the path is extended after the receiver asked to stop")
			}
		}
		if ev.kind != EvLoop {
			continue
		}
		it := e.iterOf(evs, i, st)
		if it.kind != "itr" {
			// only loops that extend paths matter
			for _, sg := range ev.loop.segs {
				for _, x := range line(sg.events, sg.st) {
					if x.kind == EvCall && x.name == v.recName || isAcc(x) {
						c.fail(v.rule, con+" edges", x.pos, "paths are extended in a loop that is not over edges")
					}
				}
			}
			continue
		}
		loops++
		if stopped {
			c.fail(v.rule, con+" stop", ev.pos, "the search goes on after the receiver asked it to stop")
		}
		rf := false
		for _, x := range tv {
			if x.idx > i && x.kind == EvCall && x.name == v.recName {
				if b, k := truth(x.Event.res); k && !b {
					rf = true
				}
			}
		}
		c.ob(v.rule, con+" all edges", it.all() || rf, ev.pos, "not all edges are followed: %s", it.why)
		filtered, why := v.edgesOf(st, it.coll, prefix)
		c.ob(v.rule, con+" edges", why == "", ev.pos, "%s", why)
		for _, sg := range ev.loop.segs {
			v.segment(con, sg, it, in, pi, prefix, filtered, isAcc, ev.pos)
		}
	}
	if ret {
		// everything longer was looked at, or is too long
		atMax := false
		if eq, k := truth(tt.eq(v.max, m1)); k && !eq || z.holds(tt.Int(0), v.max, 0) {
			atMax = z.holds(v.max, n, 0)
		}
		c.ob(v.rule, con+" extends", loops == 1 || loops == 0 && atMax, pos, "a path shorter than the maximum is not extended: %s", outDesc(o))
		c.ob(v.rule, con+" stop result", !recFalse, pos, "the search goes on after the receiver asked it to stop")
	} else {
		c.ob(v.rule, con+" stops", stopped || recFalse, pos, "the search stops though the receiver did not ask it to: %s", outDesc(o))
	}
}

// edgesOf: the loop is over the edges at the end of the prefix in the given
// direction; filtered tells whether the filter was applied.
func (v *vpath) edgesOf(st *State, coll, prefix *Term) (filtered bool, why string) {
	c, e := v.c, v.e
	d := c.itrDen(e, st, coll)
	for k := 0; k < 8; k++ {
		switch {
		case d.k == "filter":
			if v.isEdgeFilter(st, d.a[0]) {
				filtered = true
			} else {
				return filtered, "edges are left out by another filter"
			}
			d = d.sub[0]
		case d.k == "call:makeUniqueIterator":
			d = c.itrDen(e, st, d.a[0])
		case d.k == "call:Node.GetEdges":
			last := st.callOf(st.canon(d.a[0]))
			ok := last != nil && last.name == "Path.Last" && st.canon(last.args[0]) == st.canon(prefix)
			if !ok {
				return filtered, "the edges followed are not those of the path's last node"
			}
			if st.canon(d.a[1]) != st.canon(v.dir) {
				return filtered, "the edges followed do not have the given direction"
			}
			return filtered, ""
		default:
			return filtered, "the edges followed are not known: " + d.String()
		}
	}
	return filtered, "the edges followed are not known"
}

// isEdgeFilter: the closure gives the result of the edge filter for its item.
func (v *vpath) isEdgeFilter(st *State, f *Term) bool {
	f = st.canon(f)
	if f.op != OpClos && f.op != OpFunc {
		return false
	}
	et := types.NewPointer(v.c.typ("Edge"))
	x := v.e.tt.Unk("candidate", et)
	s := st.clone()
	s.nn[x] = true
	for _, o := range v.c.runClos(v.e, s, f, v.e.tt.Iface(et, x)) {
		if o.panic {
			return false
		}
		var res *Term
		for _, q := range top(o.st) {
			if q.kind == EvCall && q.dynamic && q.args[0] == v.filter && len(q.args) == 2 && strip(q.args[1]) == x {
				res = q.Event.res
			}
		}
		if res == nil {
			return false
		}
		r := o.st.canon(o.ret[0])
		if r == o.st.canon(res) {
			continue
		}
		a, ok := o.st.evalBool(r)
		b, ok2 := o.st.evalBool(o.st.canon(res))
		if !ok || !ok2 || a != b {
			return false
		}
	}
	return true
}

// repeated: what an iteration knows about the edge being in the prefix.
func (v *vpath) repeated(s *State, evs []*Event, edge, prefix *Term) (yes, no bool) {
	e := v.e
	el := v.c.typ("PathElement")
	list := s.canon(s.get(prefix, prefix.typ, "path"))
	edgeAt := func(st *State, i *Term) *Term {
		a, _ := v.pathElem(st, st.load(e.tt.Elem(list, i, el), el))
		return a
	}
	for i, ev := range evs {
		if ev.kind == EvAssume && ev.truth {
			f := s.canon(ev.args[0])
			f = ev.args[0]
			if app(f, "eq") {
				for _, p := range [][2]*Term{{f.args[0], f.args[1]}, {f.args[1], f.args[0]}} {
					if norm(s.canon(p[0])) == norm(s.canon(edge)) && anywhere(p[1], func(t *Term) bool { return t.op == OpElem && t.args[0] == list }) {
						yes = true
					}
				}
			}
		}
		if ev.kind != EvLoop {
			continue
		}
		it := e.iterOf(evs, i, s)
		if it.kind != "slice" && it.kind != "rslice" || it.coll != list {
			continue
		}
		if !it.all() {
			continue
		}
		all := true
		for _, sg := range ev.loop.segs {
			q := edgeAt(sg.st, it.keyOf(sg))
			differs := false
			if eq, k := sg.st.evalBool(sg.st.canon(e.tt.eq(sg.st.canon(q), sg.st.canon(edge)))); k && !eq {
				differs = true
			}
			for _, x := range line(sg.events, sg.st) {
				if x.kind == EvAssume && !x.truth && app(x.args[0], "eq") {
					a, b := norm(x.args[0].args[0]), norm(x.args[0].args[1])
					a0, b0 := norm(sg.st.canon(q)), norm(sg.st.canon(edge))
					if a == a0 && b == b0 || a == b0 && b == a0 {
						differs = true
					}
				}
			}
			if !differs {
				all = false
			}
		}
		if all {
			no = true
		}
	}
	// nothing can be repeated in an empty path
	if ln, ok := s.canon(e.tt.App("len", types.Typ[types.Int], list)).constInt(); ok && ln == 0 {
		no = true
	}
	return
}

// extension checks one recursive call.
func (v *vpath) extension(con string, s *State, lv []Ev, x Ev, in []*Term, pi int, prefix *Term, edge *Term) {
	c := v.c
	for i, a := range x.args {
		if i == pi || i >= len(in) {
			continue
		}
		c.ob(v.rule, con+" same search", a == s.canon(in[i]), x.pos, "the search goes on with other parameters")
	}
	base, how, added, ok := v.built(s, lv, x.args[pi])
	if !c.ob(v.rule, con+" longer path", ok && how == "clone" && base == s.canon(prefix) && len(added) == 1, x.pos, "the path extended is not a copy of the path at hand with one more edge") {
		return
	}
	ed, rev := v.pathElem(s, added[0])
	if edge != nil {
		c.ob(v.rule, con+" edge", norm(ed) == norm(edge), x.pos, "another edge is added to the path")
	}
	var last *Term
	for q := s.calls; q != nil; q = q.prev {
		if q.ev.kind == EvCall && q.ev.name == "Path.Last" && s.canon(q.ev.args[0]) == s.canon(prefix) {
			last = s.canon(q.ev.res)
			if why := v.oriented(s, ed, rev, last); why == "" {
				break
			}
		}
	}
	if last == nil {
		c.fail(v.rule, con+" orientation", x.pos, "an edge's orientation does not depend on where the path ends")
		return
	}
	why := v.oriented(s, ed, rev, last)
	c.ob(v.rule, con+" orientation", why == "", x.pos, "%s", why)
}

func (v *vpath) segment(con string, sg *Seg, it *Iter, in []*Term, pi int, prefix *Term, filtered bool, isAcc func(Ev) bool, pos token.Pos) {
	c, s := v.c, sg.st
	lv := line(sg.events, s)
	var calls []Ev
	var edge *Term
	accepted, rejected := filtered, false
	for _, x := range lv {
		switch {
		case isAcc(x):
			c.fail(v.rule, con+" once", x.pos, "a path is reported while it is extended")
		case x.kind == EvCall && x.name == v.recName:
			calls = append(calls, x)
		case x.kind == EvCall && x.invoke && (x.name == "Edge" || x.name == "Value") && x.args[0] == it.coll:
			edge = s.canon(x.res)
			if y, _, ok := asOf(edge); ok {
				edge = y
			}
		case x.kind == EvCall && x.dynamic && x.args[0] == v.filter && edge != nil && norm(x.args[1]) == norm(edge):
			if b, ok := s.evalBool(s.canon(x.Event.res)); ok {
				accepted, rejected = accepted || b, !b
			}
		}
	}
	if !c.ob(v.rule, con+" edge", edge != nil, pos, "an edge is skipped") {
		return
	}
	yes, no := v.repeated(s, sg.events, edge, prefix)
	if len(calls) == 0 {
		c.ob(v.rule, con+" follows", yes || rejected, pos, "an edge that is not part of the path is not followed")
		return
	}
	x := calls[0]
	c.ob(v.rule, con+" once", len(calls) == 1, x.pos, "an edge is followed %d times", len(calls))
	c.ob(v.rule, con+" filter", accepted && !rejected, x.pos, "an edge is followed that the filter may not accept")
	c.ob(v.rule, con+" repeats", no && !yes, x.pos, "an edge is followed that may be part of the path already")
	b, k := s.evalBool(s.canon(x.Event.res))
	c.ob(v.rule, con+" goes on", k && b, x.pos, "the search goes on after the receiver asked it to stop")
	v.extension(con, s, lv, x, in, pi, prefix, edge)
}

// norm is a value without interface wrapping and type assertions.
func norm(t *Term) *Term {
	for {
		u := strip(t)
		if y, _, ok := asOf(u); ok {
			u = y
		}
		if u == t {
			return t
		}
		t = u
	}
}

func init() {
	reg("C25", "induction over the length of paths on the function that extends them: report guard against the bounds (zones), copies, orientation, filter, repeated edges and stop requests on every abstract path", 24, func(c *Ctx) {
		c.checkExpansion("expansion")
	})
}
