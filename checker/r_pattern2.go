package main

import (
	"go/constant"
	"go/token"
	"go/types"
)

func (p *search) dirConst(name string) *Term {
	k, ok := p.c.w.tpkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		panic(anchorErr("constant " + name + " not found in the source"))
	}
	v, _ := constant.Int64Val(k.Val())
	return p.e.tt.Int(v)
}

// side tells how a relationship is written.
func (p *search) side(st *State, x *Term) map[string]bool {
	tl, k1 := st.evalBool(p.item(st, x, "ToLeft"))
	un, k2 := st.evalBool(p.item(st, x, "Undirected"))
	switch {
	case k1 && tl && k2 && un:
		return map[string]bool{"left": true, "any": true}
	case k1 && tl:
		return map[string]bool{"left": true}
	case k2 && un:
		return map[string]bool{"any": true}
	case k1 && k2:
		return map[string]bool{"right": true}
	}
	return nil
}

// earlier: the value is what the step for item x found.
func (p *search) earlier(r *stepRun, st *State, t *Term, x *Term) bool {
	is := func(t *Term) bool {
		y, _, ok := asOf(t)
		if !ok || !app(y, "result") {
			return false
		}
		i := p.itemOf(r.s, st.canon(y.args[0]))
		return i != nil && st.canon(i) == st.canon(x)
	}
	k := st.canon(t)
	if is(t) || is(k) {
		return true
	}
	for a := range st.subst {
		if st.canon(a) == k && is(a) {
			return true
		}
	}
	return false
}

func (p *search) off(r *stepRun, d int) *Term {
	return p.e.add(r.s.idx, p.e.tt.Int(int64(d)))
}

// satisfied: the element satisfies the labels, properties and bound set of the
// item.
func (p *search) satisfied(st *State, r *stepRun, elem *Term) string {
	elem = norm(st.canon(elem))
	if ok, _ := p.tested(st, r, elem); !ok {
		return "the labels and properties of the item may not hold"
	}
	if r.set == nil {
		return ""
	}
	s := st.clone()
	set := s.canon(r.set)
	if !s.assume(s.canon(p.e.tt.eq(set, p.e.tt.Nil())), false) || s.dead {
		return ""
	}
	if yes, _ := p.member(st, r, elem); !yes {
		return "the element may not be in the set bound to the variable"
	}
	return ""
}

// tested: the filter of the item was applied, with this answer.
func (p *search) tested(st *State, r *stepRun, elem *Term) (yes, no bool) {
	name := "GetEdgeFilterFunc"
	if r.s.node {
		name = "GetNodeFilterFunc"
	}
	for q := st.calls; q != nil; q = q.prev {
		ev := q.ev
		if ev.kind != EvCall || !ev.dynamic || len(ev.args) != 2 || norm(st.canon(ev.args[1])) != elem {
			continue
		}
		if !p.isFilter(st, r, ev.args[0], name) {
			continue
		}
		if b, k := st.evalBool(st.canon(ev.res)); k {
			if b {
				yes = true
			} else {
				no = true
			}
		}
	}
	return
}

func (p *search) isFilter(st *State, r *stepRun, f *Term, name string) bool {
	cl := st.callOf(st.canon(f))
	if cl == nil || cl.name != name || len(cl.args) != 2 {
		return false
	}
	return st.canon(cl.args[0]) == p.item(st, r.s.idx, "Labels") && st.canon(cl.args[1]) == p.item(st, r.s.idx, "Properties")
}

func (p *search) member(st *State, r *stepRun, elem *Term) (yes, no bool) {
	if r.set == nil {
		return
	}
	for q := st.calls; q != nil; q = q.prev {
		ev := q.ev
		if ev.kind != EvCall || ev.name != "NodeSet.Has" && ev.name != "EdgeSet.Has" {
			continue
		}
		if !p.sameSet(st, ev.args[0], r.set) || norm(st.canon(ev.args[1])) != elem {
			continue
		}
		if b, k := st.evalBool(st.canon(ev.res)); k {
			if b {
				yes = true
			} else {
				no = true
			}
		}
	}
	return
}

func (p *search) sameSet(st *State, a, set *Term) bool {
	a, set = st.canon(a), st.canon(set)
	if a == set {
		return true
	}
	pt, ok := set.typ.Underlying().(*types.Pointer)
	return ok && a == st.canon(st.load(set, pt.Elem()))
}

// through: the states in which a filter lets an element pass.
func (p *search) through(st *State, r *stepRun, f, elem *Term, et types.Type, con string, pos token.Pos) []*State {
	e := p.e
	f = st.canon(f)
	if f.op != OpClos && f.op != OpFunc {
		s := st.clone()
		res := e.tt.App("accepts", types.Typ[types.Bool], f, elem)
		s.event(&Event{kind: EvCall, name: "dynamic", dynamic: true, args: []*Term{f, elem}, res: res})
		s.assume(res, true)
		n := s.clone()
		n.event(&Event{kind: EvCall, name: "dynamic", dynamic: true, args: []*Term{f, elem}, res: res})
		_ = n
		return []*State{s}
	}
	arg := elem
	pt := f.fn.Params[len(f.fn.Params)-1].Type()
	if _, ok := pt.Underlying().(*types.Interface); ok {
		arg = e.tt.Iface(et, elem)
	}
	var out []*State
	s0 := st.clone()
	s0.nn[elem] = true
	for _, o := range p.c.runClos(e, s0, f, arg) {
		if o.panic {
			p.ob("satisfies", con, false, o.pos, "a filter may panic: %s", o.panicIs)
			continue
		}
		for _, b := range []bool{true, false} {
			s := o.st.clone()
			if !s.assume(s.canon(o.ret[0]), b) || s.dead {
				continue
			}
			if b {
				out = append(out, s)
				continue
			}
			_, no := p.tested(s, r, norm(elem))
			_, nm := p.member(s, r, norm(elem))
			p.ob("all", con, no || nm, pos, "an element that satisfies the item may be left out")
		}
	}
	return out
}

// candidates strips the filters of an iterator.
func (p *search) candidates(st *State, r *stepRun, itr, elem *Term, et types.Type, con string, pos token.Pos) (*Den, []*State) {
	d := p.c.itrDen(p.e, st, itr)
	states := []*State{st}
	for k := 0; k < 10; k++ {
		switch d.k {
		case "filter":
			var next []*State
			for _, s := range states {
				next = append(next, p.through(s, r, d.a[0], elem, et, con, pos)...)
			}
			states = next
			d = d.sub[0]
			continue
		case "call:makeUniqueIterator":
			d = p.c.itrDen(p.e, st, d.a[0])
			continue
		case "val":
			if y, _, ok := asOf(d.a[0]); ok {
				d = p.c.itrDen(p.e, st, y)
				continue
			}
		}
		break
	}
	return d, states
}

// from: the candidates are the edges of the neighbouring node in the right
// direction.
func (p *search) from(st *State, r *stepRun, d *Den) (node, dir *Term, why string) {
	want := p.side(st, r.s.idx)
	if want == nil {
		return nil, nil, "how the relationship is written is not decided"
	}
	switch d.k {
	case "call:Node.GetEdgesWithAnyLabel":
		p.ob("all", r.con+" edges", st.canon(d.a[2]) == p.item(st, r.s.idx, "Labels"), r.s.pos, "edges are looked up with other labels than those of the item")
	case "call:Node.GetEdges":
	default:
		return nil, nil, "the edges do not come from the neighbouring node: " + d.String()
	}
	node, dir = st.canon(d.a[0]), st.canon(d.a[1])
	if !p.earlier(r, st, node, p.off(r, -r.s.dir)) {
		return node, dir, "the edges are not those of the node found for the neighbouring item"
	}
	if !p.rightDir(r, dir, want) {
		return node, dir, "the edges do not run in the direction of the relationship"
	}
	return node, dir, ""
}

func (p *search) rightDir(r *stepRun, dir *Term, want map[string]bool) bool {
	for w := range want {
		n := "AnyEdge"
		if w != "any" {
			n = "OutgoingEdge"
			if (w == "left") == (r.s.dir > 0) {
				n = "IncomingEdge"
			}
		}
		if dir == p.dirConst(n) {
			return true
		}
	}
	return false
}

// handed checks what a step hands on to the next one.
func (p *search) handed(r *stepRun, sn *snapshot, x *expansion) {
	c, e, st := p.c, p.e, sn.st
	tt := e.tt
	con := r.con
	outs := p.callMethod(st, r.s.obj, "GetResult")
	if !p.ob("satisfies", con+" result", len(outs) == 1 && !outs[0].panic, sn.pos, "the result of a step is not known") {
		return
	}
	st = outs[0].st
	res := st.canon(outs[0].ret[0])
	want := "Path"
	if r.s.node {
		want = "Node"
	}
	if !p.ob("satisfies", con+" result", res.op == OpIface && typeName(res.typ) == want, sn.pos, "the result of a step is not a %s", want) {
		return
	}
	val := st.canon(res.args[0])
	nt, et := types.NewPointer(c.typ("Node")), types.NewPointer(c.typ("Edge"))
	vf := p.vpnField()
	var vpn *Term
	if vf != "" {
		vpn = st.canon(st.get(p.ctx, p.ctxT, vf))
	}
	switch {
	case r.s.node:
		p.ob("direction", con+" path end", vpn == nil || vpn.isNil(), sn.pos, "the end of a variable length edge is still set for later steps")
		if r.s.dir == 0 {
			p.first(r, st, val, nt, con, sn.pos)
			break
		}
		why := p.satisfied(st, r, val)
		p.ob("satisfies", con, why == "", sn.pos, "%s", why)
		why = p.nodeFrom(st, r, val)
		p.ob("direction", con, why == "", sn.pos, "%s", why)
	case x != nil:
		// one of the paths of a variable length edge
		p.ob("path", con+" result", val == x.args[len(x.args)-1], sn.pos, "the result is not the path that was found")
		if vf != "" {
			cl := st.callOf(vpn)
			p.ob("direction", con+" path end", cl != nil && cl.name == "Path.Last" && st.canon(cl.args[0]) == val, sn.pos, "the node after a variable length edge is not the end of its path")
		}
	default:
		v := &vpath{c: c, e: e}
		p.ob("direction", con+" path end", vpn == nil || vpn.isNil(), sn.pos, "the end of a variable length edge is still set for later steps")
		_, how, added, ok := v.built(st, line(st.tr.list(), st), val)
		if !p.ob("path", con+" result", ok && len(added) == 1 && how == "new", sn.pos, "the result is not a path with one edge") {
			return
		}
		edge, rev := v.pathElem(st, added[0])
		if r.s.dir == 0 {
			p.first(r, st, edge, et, con, sn.pos)
			a, k1 := st.evalBool(rev)
			b, k2 := st.evalBool(p.item(st, r.s.idx, "ToLeft"))
			p.ob("path", con+" orientation", rev == p.item(st, r.s.idx, "ToLeft") || k1 && k2 && a == b, sn.pos, "the edge the search starts with is not oriented the way it is written")
			break
		}
		src := st.callOf(norm(edge))
		if !p.ob("satisfies", con, src != nil && src.invoke && (src.name == "Edge" || src.name == "Value"), sn.pos, "the edge does not come from the candidates") {
			return
		}
		d, states := p.candidates(st, r, src.args[0], norm(edge), et, con, sn.pos)
		for _, s := range states {
			why := p.satisfied(s, r, edge)
			p.ob("satisfies", con, why == "", sn.pos, "%s", why)
		}
		node, dir, why := p.from(st, r, d)
		p.ob("direction", con, why == "", sn.pos, "%s", why)
		if why == "" {
			s := st.clone()
			et := c.typ("Edge")
			if dir == p.dirConst("OutgoingEdge") {
				s.assume(s.canon(tt.eq(s.canon(s.get(edge, et, "from")), node)), true)
			} else if dir == p.dirConst("IncomingEdge") {
				s.assume(s.canon(tt.eq(s.canon(s.get(edge, et, "to")), node)), true)
			}
			if !s.dead {
				why := v.oriented(s, s.canon(edge), s.canon(rev), s.canon(node))
				p.ob("path", con+" orientation", why == "", sn.pos, "%s", why)
			}
		}
		one := func(f string, low bool) bool {
			t := p.item(st, r.s.idx, f)
			z := st.zoneOf(func(z *zone) {})
			if low {
				return z.holds(t, tt.Int(1), 0)
			}
			return z.holds(t, tt.Int(1), 0) && z.holds(tt.Int(1), t, 0)
		}
		p.ob("all", con+" length", one("Min", true) && one("Max", false), sn.pos, "only single edges are matched though the relationship may be longer")
	}
	if r.other != nil {
		p.ob("satisfies", con+" kind", st.yes(tt.eq(st.canon(r.other), tt.Nil())), sn.pos, "a variable bound to the other kind of element is used as if it were not bound")
	}
	p.bound(r, sn, st, val, con)
}

// first checks a candidate for the item the search starts with.
func (p *search) first(r *stepRun, st *State, elem *Term, et types.Type, con string, pos token.Pos) {
	src := st.callOf(norm(elem))
	if !p.ob("satisfies", con, src != nil && src.invoke, pos, "the element does not come from the candidates") {
		return
	}
	d, states := p.candidates(st, r, src.args[0], norm(elem), et, con, pos)
	for _, s := range states {
		why := p.satisfied(s, r, norm(elem))
		p.ob("satisfies", con, why == "", pos, "%s", why)
	}
	p.ob("all", con+" candidates", d.k == "call:Pattern.getFastestElement", pos, "the search does not go through the candidates that were chosen: %v", d)
}

// nodeFrom: the node is the far end of the edge before it.
func (p *search) nodeFrom(st *State, r *stepRun, n *Term) string {
	tt := p.e.tt
	E := p.off(r, -r.s.dir)
	n = st.canon(n)
	if r.vpn != nil && n == st.canon(r.vpn) {
		return ""
	}
	if cl := st.callOf(n); cl != nil && cl.name == "Path.Last" && p.earlier(r, st, cl.args[0], E) && (r.s.dir > 0 || r.s.start.node) {
		return ""
	}
	if r.vpn != nil {
		return "the node after a variable length edge is not the end of its path"
	}
	end := ""
	var edge *Term
	for _, f := range []string{"from", "to"} {
		if b, ok := fieldInit(n, f); ok {
			end, edge = f, b
		}
	}
	if end == "" {
		return "the node is not an end of the edge found before"
	}
	b, ok := fieldInit(edge, "Edge")
	if !ok || b.op != OpElem {
		return "the edge is not the one found before"
	}
	pt := types.NewPointer(p.c.typ("Path"))
	var path *Term
	anywhere(b, func(t *Term) bool {
		if p.earlier(r, st, t, E) {
			path = t
			return true
		}
		return false
	})
	if path == nil {
		return "the edge is not the one found for the neighbouring item"
	}
	list := st.canon(st.get(path, pt, "path"))
	last := p.e.add(tt.App("len", types.Typ[types.Int], list), tt.Int(-1))
	i := st.canon(b.args[1])
	zero := false
	if k, ok := i.constInt(); ok && k == 0 && p.vpnField() != "" {
		zero = true
	}
	if b.args[0] != list || i != st.canon(last) && !zero {
		return "the edge is not the last one found for the neighbouring item"
	}
	side := p.side(st, E)
	if side == nil {
		return "how the relationship is written is not decided"
	}
	fwd := r.s.dir > 0
	if side["left"] && end == map[bool]string{true: "from", false: "to"}[fwd] {
		return ""
	}
	if side["right"] && end == map[bool]string{true: "to", false: "from"}[fwd] {
		return ""
	}
	if side["any"] {
		// the end that is not the node found before
		ft, tt2 := st.canon(st.get(edge, p.c.typ("Edge"), "from")), st.canon(st.get(edge, p.c.typ("Edge"), "to"))
		same, other := tt2, ft
		if end == "to" {
			same, other = ft, tt2
		}
		_ = other
		// the node found before is the other end
		var prev *Term
		for q := st.calls; q != nil; q = q.prev {
			if q.ev.kind == EvCall && app(q.ev.res, "result") {
				t := tt.App("as:*lpg.Node", types.NewPointer(p.c.typ("Node")), q.ev.res)
				if p.earlier(r, st, t, p.off(r, -2*r.s.dir)) {
					prev = st.canon(t)
				}
			}
		}
		if prev == nil {
			return "which end of an undirected edge was found before is not looked at"
		}
		if eq, k := st.evalBool(st.canon(tt.eq(same, prev))); k && eq {
			return ""
		}
		if eq, k := st.evalBool(st.canon(tt.eq(st.canon(st.get(edge, p.c.typ("Edge"), end)), prev))); k && !eq {
			return ""
		}
		return "the node may be the end of an undirected edge that was found before"
	}
	return "the node is at the wrong end of the edge"
}

// bound: the variable of the item stands for the element, and nothing else
// changed.
func (p *search) bound(r *stepRun, sn *snapshot, st *State, val *Term, con string) {
	ls := r.maps["LocalSymbols"]
	con += " variable"
	sym := r.maps["Symbols"]
	p.ob("binding", con+" given", st.maps[sym] == r.vers[sym], sn.pos, "variables given by the caller are changed")
	for q := st.calls; q != nil; q = q.prev {
		if isAddSymbol(q.ev) {
			p.ob("binding", con+" given", st.canon(q.ev.args[0]).op == OpNew, sn.pos, "a variable bound earlier is changed")
		}
	}
	h := st.maps[ls]
	if r.kase != "new variable" {
		p.ob("binding", con+" kept", h == r.vers[ls], sn.pos, "%s: the variables change", r.kase)
		return
	}
	ok := h != nil && h.kind == 0 && h.prev == r.vers[ls] && st.canon(h.k) == p.item(st, r.s.idx, "Name")
	if !p.ob("binding", con+" bound", ok, sn.pos, "the variable is not bound, or more than it is") {
		return
	}
	v := st.canon(h.v)
	n, good := 0, false
	for _, x := range line(sn.st.tr.list(), st) {
		if isAddSymbol(x.Event) && x.args[0] == v {
			n++
			good = norm(x.args[1]) == norm(val)
		}
	}
	empty := true
	t := p.c.typ("PatternSymbol")
	s := structOf(t)
	for i := 0; i < s.NumFields() && v.op == OpNew; i++ {
		empty = empty && st.canon(st.get(v, t, s.Field(i).Name())).isNil()
	}
	p.ob("binding", con+" bound", v.op == OpNew && n == 1 && good && empty, sn.pos, "the variable is not bound to exactly the element that was found")
}

func isAddSymbol(ev *Event) bool {
	return ev.kind == EvCall && (ev.name == "PatternSymbol.Add" || ev.name == "PatternSymbol.AddNode" || ev.name == "PatternSymbol.AddPath")
}

// isNext: the run of the next step.
func (p *search) isNext(x Ev) bool {
	return x.kind == EvCall && x.invoke && x.name == "Run" && x.args[0] == p.next
}

// restored: the variables are as they were.
func (p *search) restored(r *stepRun, st *State, con string, pos token.Pos) {
	for name, m := range r.maps {
		p.ob("binding", con+" variable unbound", st.maps[m] == r.vers[m], pos, "%s: %s is not as it was before the step", r.kase, name)
	}
	if vf := p.vpnField(); vf != "" && r.vpn == nil {
		v := st.canon(st.get(p.ctx, p.ctxT, vf))
		p.ob("direction", con+" path end", v.isNil(), pos, "the end of a variable length edge stays set")
	}
}

func (p *search) failed(st *State, err *Term) bool {
	b, k := st.evalBool(st.canon(p.e.tt.eq(st.canon(err), p.e.tt.Nil())))
	return k && !b
}

// ownError: a step fails only if a later one does or if its variable is bound
// to the other kind of element.
func (p *search) ownError(r *stepRun, st *State, err *Term, con string, pos token.Pos) {
	for _, x := range flat(st) {
		if x.isCall("CollectAllPaths") {
			r := p.expErr[x.Event]
			p.ob("all", con+" error", r != nil, pos, "the search fails though nothing did")
			return
		}
		if p.isNext(x) && (x.Event.res == err || st.canon(x.res) == err || x.st.canon(x.Event.res) == err) {
			return
		}
	}
	for _, sn := range p.snaps {
		if st.canon(sn.ok) == err {
			return
		}
	}
	ok := r.other != nil && st.no(p.e.tt.eq(st.canon(r.other), p.e.tt.Nil()))
	p.ob("all", con+" error", ok, pos, "the search fails though the variable is bound to the right kind of element: %v", err)
}

// after checks what a step leaves behind.
func (p *search) after(r *stepRun, o Outcome, pos token.Pos) {
	con := r.con
	st := o.st
	tt := p.e.tt
	err := st.canon(o.ret[0])
	if p.failed(st, err) {
		p.ownError(r, st, err, con, pos)
		return
	}
	p.restored(r, st, con, pos)
	// the search goes on only if nothing failed
	fine := func(st *State, y Ev) bool {
		return y.Event.res == err || st.canon(y.Event.res) == err || st.yes(tt.eq(y.Event.res, tt.Nil()))
	}
	for _, y := range line(st.tr.list(), st) {
		if p.isNext(y) {
			p.ob("all", con+" stop", fine(y.st, y) || fine(st, y), y.pos, "the error of a later step is lost")
		}
		if y.isCall("CollectAllPaths") {
			p.ob("all", con+" stop", p.expErr[y.Event] == nil, y.pos, "the error of a later step is lost")
		}
	}
	// every candidate is handed on
	runs, expands := 0, 0
	evs := st.tr.list()
	for i, ev := range evs {
		x := mkEv(ev, st, nil, i)
		if p.isNext(x) {
			runs++
		}
		if x.isCall("CollectAllPaths") {
			expands++
		}
		if ev.kind != EvLoop {
			continue
		}
		it := p.e.iterOf(evs, i, st)
		nrun := 0
		for _, sg := range ev.loop.segs {
			n := 0
			at := -1
			for j, y := range line(sg.events, sg.st) {
				if p.isNext(y) {
					n++
					at = j
					p.ob("all", con+" stop", sg.st.yes(tt.eq(y.Event.res, tt.Nil())), y.pos, "the search goes on after a later step failed")
				}
			}
			nrun += n
			if n == 0 {
				p.ob("all", con+" candidates", it.kind != "itr" || p.skipped(r, sg), ev.pos, "a candidate is not followed")
				continue
			}
			p.ob("all", con+" candidates", n == 1, ev.pos, "a candidate is followed %d times", n)
			if r.s.node {
				continue
			}
			res := p.callMethod(sg.st, r.s.obj, "GetResult")
			if len(res) == 1 {
				obj := norm(res[0].st.canon(res[0].ret[0]))
				p.ob("path", con+" fresh", obj.op == OpNew && !ev.loop.start.fresh[obj], ev.pos, "a path found earlier is reused for the next one")
				for _, y := range line(sg.events, sg.st)[at+1:] {
					if y.kind == EvStore && y.args[0].root() == obj {
						p.ob("path", con+" fresh", false, y.pos, "a path changes after it was found")
					}
				}
			}
		}
		if nrun > 0 {
			p.ob("all", con+" candidates", it.all(), ev.pos, "not all candidates are followed: %s", it.why)
			runs++
		}
	}
	if runs > 0 || expands > 0 {
		p.ob("all", con+" once", runs+expands == 1, pos, "an element is handed on %d times", runs+expands)
		return
	}
	// nothing was handed on
	if !r.s.node {
		p.ob("all", con+" candidates", false, pos, "the edges are not looked at")
		return
	}
	ok := false
	for q := st.calls; q != nil && !ok; q = q.prev {
		ev := q.ev
		if ev.kind != EvCall {
			continue
		}
		var elem *Term
		if ev.dynamic && len(ev.args) == 2 {
			elem = ev.args[1]
		} else if ev.name == "NodeSet.Has" {
			elem = ev.args[1]
		}
		if elem == nil {
			continue
		}
		elem = norm(st.canon(elem))
		_, no := p.tested(st, r, elem)
		_, nm := p.member(st, r, elem)
		ok = (no || nm) && p.nodeFrom(st, r, elem) == ""
	}
	p.ob("all", con+" candidates", ok, pos, "a node that satisfies the item is not handed on: %s", outDesc(o))
}

// skipped: the candidate of the iteration does not satisfy the item.
func (p *search) skipped(r *stepRun, sg *Seg) bool {
	for _, x := range line(sg.events, sg.st) {
		if x.kind != EvCall || !x.invoke || x.name != "Node" && x.name != "Edge" && x.name != "Value" {
			continue
		}
		elem := x.res
		if y, _, ok := asOf(elem); ok {
			elem = y
		}
		for _, el := range []*Term{elem, x.Event.res, p.e.tt.App("as:*lpg.Node", types.NewPointer(p.c.typ("Node")), elem), p.e.tt.App("as:*lpg.Edge", types.NewPointer(p.c.typ("Edge")), elem)} {
			el = norm(sg.st.canon(el))
			_, no := p.tested(sg.st, r, el)
			_, nm := p.member(sg.st, r, el)
			if no || nm {
				return true
			}
		}
	}
	return false
}

// expand checks the search for the paths of a variable length edge.
func (p *search) expand(r *stepRun, x *expansion) {
	c, e, st := p.c, p.e, x.st
	con := r.con + " paths"
	if r.s.node || r.s.dir == 0 {
		p.ob("direction", con, false, x.pos, "paths are expanded for an item that is not an edge next to a node")
		return
	}
	et := types.NewPointer(c.typ("Edge"))
	names := map[string]*Term{}
	fn := c.fn("CollectAllPaths")
	order := []string{"graph", "from", "leg", "filter", "dir", "min", "max", "acc"}
	for i := range fn.Params {
		if i < len(order) {
			names[order[i]] = st.canon(x.args[i])
		}
	}
	if !p.ob("direction", con, len(fn.Params) == len(order), x.pos, "CollectAllPaths takes other parameters") {
		return
	}
	want := p.side(st, r.s.idx)
	p.ob("direction", con, want != nil && p.rightDir(r, names["dir"], want), x.pos, "the paths do not run in the direction of the relationship")
	p.ob("direction", con, p.earlier(r, st, names["from"], p.off(r, -r.s.dir)), x.pos, "the paths do not start from the node found for the neighbouring item")
	p.ob("bounds", con, names["min"] == p.item(st, r.s.idx, "Min") && names["max"] == p.item(st, r.s.idx, "Max"), x.pos, "the paths do not have the lengths asked for")
	cand := e.tt.Unk("candidate", et)
	// the first edge
	d, states := p.candidates(st, r, names["leg"], cand, et, con, x.pos)
	for _, s := range states {
		why := p.satisfied(s, r, cand)
		p.ob("satisfies", con+" first edge", why == "", x.pos, "%s", why)
	}
	node, dir, why := p.from(st, r, d)
	p.ob("direction", con+" first edge", why == "", x.pos, "%s", why)
	p.ob("direction", con+" first edge", node == names["from"] && dir == names["dir"], x.pos, "the first edges do not start where the paths do")
	// the other edges
	for _, s := range p.through(st, r, names["filter"], cand, et, con, x.pos) {
		why := p.satisfied(s, r, cand)
		p.ob("satisfies", con+" other edges", why == "", x.pos, "%s", why)
	}
	// what is done for each path
	f := names["acc"]
	if f.op != OpClos && f.op != OpFunc {
		panic(anchorErr("what is done with the paths is not known"))
	}
	path := e.tt.Param("found", f.fn.Params[len(f.fn.Params)-1].Type())
	s := st.clone()
	s.nn[path] = true
	// whatever earlier paths left in the step
	for a, t := range p.written(r.s) {
		if a.name == "result" {
			s.store(a, e.tt.Unk("earlier."+a.name, t), t)
		}
	}
	p.snaps = nil
	ax := append(append([]*Term(nil), x.args...), path)
	outs := c.runClos(e, s, f, path)
	snaps := p.snaps
	for _, sn := range snaps {
		p.handed(r, sn, &expansion{st: st, args: ax, pos: x.pos})
	}
	for _, o := range outs {
		if o.panic {
			continue
		}
		n := 0
		var err *Term
		for _, y := range flat(o.st) {
			if p.isNext(y) {
				n++
				err = y.res
			}
			if y.kind == EvStore && y.args[0].root() == path {
				p.ob("path", con+" fresh", false, y.pos, "a path changes after it was found")
			}
		}
		go1, k := o.st.evalBool(o.st.canon(o.ret[0]))
		if !p.ob("all", con+" once", n == 1 && k, x.pos, "a path is handed on %d times", n) {
			continue
		}
		bad := p.failed(o.st, err)
		p.ob("all", con+" stop", go1 != bad, x.pos, "the search for paths stops without an error, or goes on after one")
		if !bad {
			p.restored(r, o.st, r.con, x.pos)
		}
	}
}

func (c *Ctx) runSearch(rule string, cats ...string) *search {
	p := c.newSearch(rule, cats...)
	c.guard(rule, "pattern search", func() {
		p.plan()
		p.steps()
	})
	return p
}

func init() {
	reg("C21", "every step object made by the plan is run in the state it was made in: what reaches the next step passed the item's filter and bound set on every abstract path", 6, func(c *Ctx) {
		c.runSearch("search", "satisfies")
	})
	reg("C22", "variables of the context compared (map update histories) before each step, when it hands on and when it returns, in the cases unnamed, given, bound and new", 6, func(c *Ctx) {
		c.runSearch("search", "binding")
		c.checkRun("search", map[string]bool{"binding": true})
		c.checkSymbols("symbols")
	})
	reg("C23", "plan table (which neighbouring step, which edge direction, which end) and order, decided on the step objects in the state they were made in", 6, func(c *Ctx) {
		c.runSearch("search", "plan", "direction")
		c.checkRun("search", map[string]bool{"plan": true, "direction": true})
		c.checkEstimates("start", map[string]bool{"direction": true})
	})
	reg("C24", "the path each step hands on is new and oriented; the report's path is decomposed into pieces of step results with their index ranges; map and slice updates of the report", 6, func(c *Ctx) {
		c.runSearch("search", "path")
		c.checkRun("search", map[string]bool{"path": true})
		c.checkReported("report")
		c.checkHeadTail("ends")
	})
	reg("C32", "every abstract path of a step on which a candidate is not handed on has a failed filter or bound set; loops over candidates run to exhaustion; candidate sources include all satisfying elements; the chain of steps is complete", 6, func(c *Ctx) {
		c.runSearch("search", "all", "bounds")
		c.checkRun("search", map[string]bool{"all": true, "plan": true})
		c.checkEstimates("start", map[string]bool{"all": true, "bounds": true})
		c.checkSearches("entry")
	})
}
