package main

import (
	"go/token"
	"go/types"
	"sort"
)

// shared vocabulary for rules about the mutating entry points

type lpgTypes struct{ node, edge, graph types.Type }

func (c *Ctx) lt() lpgTypes {
	return lpgTypes{types.NewPointer(c.typ("Node")), types.NewPointer(c.typ("Edge")), types.NewPointer(c.typ("Graph"))}
}

// created gives the new element an entry returns, or nil.
func created(o Outcome) *Term {
	if len(o.ret) != 1 {
		return nil
	}
	r := strip(o.st.canon(o.ret[0]))
	if r.op != OpNew {
		return nil
	}
	return r
}

// targetGraph is the graph an entry is to change.
func (c *Ctx) targetGraph(m *mentry, st *State) *Term {
	t := c.lt()
	if g := m.arg("*lpg.Graph"); g != nil {
		return g
	}
	if e := m.arg("*lpg.Edge"); e != nil {
		return st.get(st.get(e, t.edge, "from"), t.node, "graph")
	}
	if n := m.arg("*lpg.Node"); n != nil {
		return st.get(n, t.node, "graph")
	}
	return nil
}

// once checks that exactly one of the given operations happens, outside
// loops, on the given container and element.
func (c *Ctx) once(rule, con string, ops []COp, o Outcome, pos token.Pos, what string, owner, elem *Term) *COp {
	if len(ops) != 1 {
		if len(ops) > 1 {
			pos = ops[1].pos
		}
		c.fail(rule, con, pos, "%s happens %d times instead of once (%s)", what, len(ops), outDesc(o))
		return nil
	}
	x := ops[0]
	c.ob(rule, con, len(x.its) == 0, x.pos, "%s happens in a loop", what)
	c.ob(rule, con, x.owner == owner, x.pos, "%s: container of %v, expected %v", what, x.owner, owner)
	c.ob(rule, con, x.elem == elem, x.pos, "%s: element is %v, expected %v", what, x.elem, elem)
	return &x
}

func (c *Ctx) none(rule, con string, ops []COp, what string) {
	for _, x := range ops {
		c.fail(rule, con, x.pos, "%s: unexpected %s on %v", what, x.name, x.owner)
	}
	c.pass(rule, con)
}

// propsOf is the property map an element has at the end of a trace.
func (c *Ctx) propsOf(st *State, elem *Term, typ types.Type) *Term {
	return st.get(elem, typ, "properties")
}

func isLookup(t, m, k *Term) bool { return app(t, "mapget") && t.args[0] == m && t.args[1] == k }

// emptyMap: the map is known to have no entries.
func (st *State) emptyMap(m *Term) bool {
	m = st.canon(m)
	if m.isNil() {
		return true
	}
	iv := st.ivalOf(st.mapLen(m))
	return iv.hasHi && iv.hi <= 0
}

// wasEmpty: the map is known to have had no entries at entry.
func (st *State) wasEmpty(m *Term) bool {
	m = st.canon(m)
	if m.isNil() {
		return true
	}
	if st.maps[m] == nil {
		return st.emptyMap(m)
	}
	iv := st.ivalOf(st.canon(st.e.tt.App("len", types.Typ[types.Int], m, st.e.tt.Int(0))))
	return iv.hasHi && iv.hi <= 0
}

// absent: the state knows that k is not a key of m (or maps to nil).
func (st *State) absent(m, k *Term) bool {
	m, k = st.canon(m), st.canon(k)
	if st.emptyMap(m) {
		return true
	}
	v, has := st.mapLookup(m, k, nil)
	if b, known := st.evalBool(has); known && !b {
		return true
	}
	if v.isNil() {
		return true
	}
	if b, known := st.evalBool(st.e.tt.eq(v, st.e.tt.Nil())); known && b {
		return true
	}
	return false
}

// present: the state knows that k is a key of m.
func (st *State) present(m, k *Term) bool {
	m, k = st.canon(m), st.canon(k)
	v, has := st.mapLookup(m, k, nil)
	if b, known := st.evalBool(has); known && b {
		return true
	}
	return st.nonNil(v) && app(v, "mapget") && st.nn[v]
}

// sweep checks that all property indexes of a graph are updated for elem: a
// loop over its properties (or over the indexes) adds or removes exactly the
// indexed ones. evs is the event list that has to contain the loop.
func (c *Ctx) sweep(rule, con string, e *Eng, evs []*Event, st *State, typ types.Type, elem, graph *Term, how string, pos token.Pos) {
	field := "edgeProperties"
	what := "eix"
	if typeKey(typ) == "*lpg.Node" {
		field, what = "nodeProperties", "nix"
	}
	t := c.lt()
	P := st.canon(c.propsOf(st, elem, typ))
	M := st.canon(st.get(graph, t.graph, "index."+field))
	if how == "remove" {
		// what is removed is what the element had
		P = st.canon(e.tt.Init(e.fld(elem, typ, "properties"), fieldType(typ, "properties")))
	}
	if st.wasEmpty(P) || st.wasEmpty(M) || how != "remove" && st.emptyMap(P) {
		c.pass(rule, con)
		return
	}
	found := 0
	for i, ev := range evs {
		if ev.kind != EvLoop {
			continue
		}
		it := e.iterOf(evs, i, st)
		if it.kind != "map" || it.coll != P && it.coll != M {
			continue
		}
		// does it concern the indexes at all?
		other := M
		if it.coll == M {
			other = P
		}
		hasOp := false
		for _, s := range ev.loop.segs {
			if len(c.segOps(e, s, what)) > 0 {
				hasOp = true
			}
		}
		if !hasOp {
			continue
		}
		found++
		c.ob(rule, con, it.complete, ev.pos, "the loop over the %s may end early", field)
		for _, s := range ev.loop.segs {
			ops := c.segOps(e, s, what)
			if len(ops) == 0 {
				c.ob(rule, con, s.st.absent(other, it.key), pos, "an indexed property is skipped (%s)", segDesc(s))
				continue
			}
			c.ob(rule, con, len(ops) == 1, ops[0].pos, "%d index updates for one property", len(ops))
			c.ob(rule, con, s.st.present(other, it.key), ops[0].pos, "a property that may have no index is looked up in one (crash), or an absent one is indexed")
			x := ops[0]
			id := s.st.canon(st.get(elem, typ, "id"))
			c.ob(rule, con, x.how == how, x.pos, "%s instead of %s", x.how, how)
			c.ob(rule, con, x.key == it.key && x.owner == graph, x.pos, "the index of %v of %v is updated, not that of the property", x.key, x.owner)
			c.ob(rule, con, isLookup(x.val, P, it.key), x.pos, "the indexed value %v is not the value of the property", x.val)
			c.ob(rule, con, x.id == id, x.pos, "indexed under %v, the element's id is %v", x.id, id)
			if how == "add" {
				c.ob(rule, con, x.elem == elem, x.pos, "element %v is indexed instead of %v", x.elem, elem)
			}
		}
	}
	c.ob(rule, con, found == 1, pos, "the property indexes are updated %d times instead of once (%s)", found, how)
}

func segDesc(s *Seg) string {
	return outDesc(Outcome{st: &State{e: s.st.e, tr: traceOf(s.events), subst: s.st.subst}})
}

func traceOf(evs []*Event) *Trace {
	var t *Trace
	for _, e := range evs {
		t = t.add(e)
	}
	return t
}

func (c *Ctx) segOps(e *Eng, s *Seg, what string) []COp {
	o := Outcome{st: s.st}
	saved := s.st.tr
	s.st.tr = traceOf(s.events)
	defer func() { s.st.tr = saved }()
	return sel(c.ops(e, o), what, "")
}

// ---- C01

func (c *Ctx) checkNodeRegistry() {
	t := c.lt()
	for _, m := range c.entries() {
		m := m
		con := m.name
		c.guard("node-registry", con, func() {
			for _, o := range m.outs {
				ops := c.ops(m.e, o)
				nodes := sel(ops, "nodes", "")
				if o.panic {
					continue
				}
				switch m.kind {
				case "newnode":
					r := created(o)
					c.ob("node-registry", con, r != nil, m.pos(), "does not return a new node")
					if r == nil {
						continue
					}
					g := c.targetGraph(&m, o.st)
					c.once("node-registry", con, sel(ops, "nodes", "add"), o, m.pos(), "adding the new node to the node list", g, r)
					c.none("node-registry", con, sel(ops, "nodes", "remove"), "creation")
					c.ob("node-graph", con, o.st.canon(o.st.get(r, t.node, "graph")) == g, m.pos(), "the new node's graph is %v, not %v", o.st.get(r, t.node, "graph"), g)
				case "delnode":
					n := m.arg("*lpg.Node")
					g := m.e.tt.Init(m.e.fld(n, t.node, "graph"), nil)
					c.once("node-registry", con, sel(ops, "nodes", "remove"), o, m.pos(), "removing the node from the node list", g, n)
					c.none("node-registry", con, sel(ops, "nodes", "add"), "removal")
				default:
					c.none("node-registry", con, nodes, "operation that creates and removes no nodes")
				}
			}
		})
	}
}

// counters and list heads as the API reports them
func (c *Ctx) checkNodeEnum() {
	t := c.lt()
	c.guard("node-count", "Graph.NumNodes", func() {
		fn := c.fn("Graph.NumNodes")
		e, outs := c.run(fn, nil, nil)
		g := e.tt.Param(fn.Params[0].Name(), nil)
		for _, o := range outs {
			want := e.tt.Init(e.fld(g, t.graph, "allNodes.n"), nil)
			c.ob("node-count", "Graph.NumNodes", !o.panic && len(o.ret) == 1 && o.st.canon(o.ret[0]) == want, fn.Pos(), "returns %v, not the node list's count", o.ret)
		}
	})
	c.guard("node-enum", "Graph.GetNodes", func() {
		fn := c.fn("Graph.GetNodes")
		e, outs := c.run(fn, nil, nil)
		g := e.tt.Param(fn.Params[0].Name(), nil)
		for _, o := range outs {
			c.ob("node-enum", "Graph.GetNodes", !o.panic && len(o.ret) == 1, fn.Pos(), "may not return an iterator")
			if o.panic || len(o.ret) != 1 {
				continue
			}
			c.listItr("node-enum", "Graph.GetNodes", e, o.st, o.ret[0], e.fld(g, t.graph, "allNodes"), "nodeList", fn.Pos())
		}
	})
}

// listItr checks that an iterator value starts at the head of the list at
// address l, before its first element.
func (c *Ctx) listItr(rule, con string, e *Eng, st *State, it, l *Term, lname string, pos token.Pos) {
	it = st.canon(it)
	if it.op != OpIface {
		c.fail(rule, con, pos, "the iterator %v is not a list iterator", it)
		return
	}
	lt := types.NewPointer(c.typ(lname))
	head := e.tt.Init(e.fld(l, lt, "head"), nil)
	p := strip(it)
	nx := st.canon(st.get(p, it.typ, "next"))
	c.ob(rule, con, nx == st.canon(head), pos, "the iterator starts at %v, not at the first element", nx)
}

// ---- C02

type slots map[string]map[*Term]string

func (c *Ctx) checkEdgeRegistry() {
	t := c.lt()
	for _, m := range c.entries() {
		m := m
		con := m.name
		c.guard("edge-registry", con, func() {
			for _, o := range m.outs {
				if o.panic {
					continue
				}
				ops := c.ops(m.e, o)
				for _, x := range sel(ops, "?edges", "") {
					c.fail("edge-registry", con, x.pos, "edge list operation on an unknown container %v", x.args[0])
				}
				s := o.st
				switch m.kind {
				case "newedge":
					r := created(o)
					c.ob("edge-registry", con, r != nil, m.pos(), "does not return a new edge")
					if r == nil {
						continue
					}
					g := c.targetGraph(&m, s)
					c.edgeListed("edge-registry", con, ops, o, m.pos(), "add", g, r, s.canon(s.get(r, t.edge, "from")), s.canon(s.get(r, t.edge, "to")))
					for _, w := range []string{"edges", "in", "out"} {
						c.none("edge-registry", con, sel(ops, w, "remove"), "creation")
					}
				case "deledge":
					ed := m.arg("*lpg.Edge")
					g := s.canon(c.targetGraph(&m, s))
					c.edgeListed("edge-registry", con, ops, o, m.pos(), "remove", g, ed, s.canon(s.get(ed, t.edge, "from")), s.canon(s.get(ed, t.edge, "to")))
					for _, w := range []string{"edges", "in", "out"} {
						c.none("edge-registry", con, sel(ops, w, "add"), "removal")
					}
				case "setlabel":
					ed := m.arg("*lpg.Edge")
					any := len(sel(ops, "edges", ""))+len(sel(ops, "in", ""))+len(sel(ops, "out", "")) > 0
					if !any {
						c.pass("edge-registry", con)
						continue
					}
					g := s.canon(c.targetGraph(&m, s))
					for _, how := range []string{"remove", "add"} {
						c.edgeListed("edge-registry", con, ops, o, m.pos(), how, g, ed, s.canon(s.get(ed, t.edge, "from")), s.canon(s.get(ed, t.edge, "to")))
					}
				case "delnode", "detach":
					// checked per iteration in checkDetach
				default:
					for _, w := range []string{"edges", "in", "out"} {
						c.none("edge-registry", con, sel(ops, w, ""), "operation that creates and removes no edges")
					}
				}
			}
		})
	}
	c.checkDetach("edge-registry")
}

func (c *Ctx) edgeListed(rule, con string, ops []COp, o Outcome, pos token.Pos, how string, g, edge, from, to *Term) {
	prep := "to"
	if how == "remove" {
		prep = "from"
	}
	c.once(rule, con, sel(ops, "edges", how), o, pos, how+" "+prep+" the graph's edges", g, edge)
	c.once(rule, con, sel(ops, "out", how), o, pos, how+" "+prep+" the source's outgoing edges", from, edge)
	c.once(rule, con, sel(ops, "in", how), o, pos, how+" "+prep+" the target's incoming edges", to, edge)
}

// checkDetach: detaching a node removes every edge of both directions from
// the three lists, over a snapshot of each direction.
func (c *Ctx) checkDetach(rule string) {
	t := c.lt()
	for _, m := range c.entries("delnode", "detach") {
		m := m
		con := m.name
		c.guard(rule, con, func() {
			for _, o := range m.outs {
				if o.panic {
					c.fail(rule, con, o.pos, "may panic: %s", o.panicIs)
					continue
				}
				e := m.e
				n := m.arg("*lpg.Node")
				g := e.tt.Init(e.fld(n, t.node, "graph"), nil)
				dirs := map[string]int{}
				loopAt, snapAt := map[string]int{}, map[string]int{}
				skips := map[string]bool{}
				e.walkSeqs(o.st.tr.list(), o.st, func(sq seq) {
					for i, ev := range sq.evs {
						if ev.kind != EvLoop {
							continue
						}
						it := e.iterOf(sq.evs, i, sq.st)
						if it.kind != "slice" && it.kind != "itr" {
							continue
						}
						dir := c.snapshotOf(sq.st, it.coll, n)
						if dir == "" {
							continue
						}
						if it.kind == "itr" {
							c.fail(rule, con, it.pos, "edges are removed while the list of them is being iterated")
						}
						dirs[dir]++
						if len(sq.its) == 0 {
							loopAt[dir] = i
							snapAt[dir] = c.snapshotAt(sq.evs, sq.st, it.coll)
						} else {
							c.fail(rule, con, it.pos, "undecided: the edges are removed in a nested loop")
						}
						c.ob(rule, con, it.all(), it.pos, "not all %s edges are removed: %s", dir, it.why)
						for _, sg := range ev.loop.segs {
							segO := Outcome{st: sg.st}
							saved := sg.st.tr
							sg.st.tr = traceOf(sg.events)
							all := c.ops(e, segO)
							sg.st.tr = saved
							ops := all
							var edge *Term
							for _, x := range ops {
								if x.what == "edges" && x.how == "remove" {
									edge = x.elem
								}
							}
							if edge == nil && c.isSelfLoop(e, it, sg) && len(all) == 0 {
								skips[dir] = true
								continue
							}
							if edge == nil || !it.isElem(sg.st, edge) {
								c.fail(rule, con, it.pos, "an edge of the node stays in the graph's edges (%s)", segDesc(sg))
								continue
							}
							from := sg.st.canon(sg.st.get(edge, t.edge, "from"))
							to := sg.st.canon(sg.st.get(edge, t.edge, "to"))
							c.edgeListed(rule, con, ops, Outcome{st: sg.st}, it.pos, "remove", g, edge, from, to)
							for _, w := range []string{"edges", "in", "out"} {
								c.none(rule, con, sel(ops, w, "add"), "removal")
							}
							c.sweep(rule, con, e, sg.events, sg.st, t.edge, edge, g, "remove", it.pos)
						}
					}
					// removals outside the loops
					if len(sq.its) == 0 {
						for _, ev := range sq.evs {
							x := mkEv(ev, sq.st, nil, 0)
							if x.isCall("edgeMap.add", "edgeMap.remove") {
								c.fail(rule, con, x.pos, "edge list operation outside the loops over the node's edges")
							}
						}
					}
				})
				for _, d := range []string{"incoming", "outgoing"} {
					c.ob(rule, con, dirs[d] == 1, m.pos(), "the %s edges are gone through %d times", d, dirs[d])
				}
				// a self-loop is in both lists and is to be removed once
				first, second := "incoming", "outgoing"
				if loopAt[second] < loopAt[first] {
					first, second = second, first
				}
				switch {
				case skips[first] && skips[second]:
					c.fail(rule, con, m.pos(), "edges from the node to itself stay")
				case !skips[first] && !skips[second]:
					c.ob(rule, con, snapAt[second] > loopAt[first], m.pos(), "the %s edges are listed before the %s edges are removed: an edge from the node to itself is removed twice", second, first)
				}
				// a direction is emptied wholesale only after its edges were removed
				for i, ev := range o.st.tr.list() {
					if ev.kind != EvStore {
						continue
					}
					for _, f := range []string{"incoming", "outgoing"} {
						if b := fieldBase(o.st.canon(ev.args[0]), f); b == n {
							c.ob(rule, con, i > loopAt[f] && dirs[f] > 0, ev.pos, "the list of %s edges is dropped before the edges are removed", f)
						} else if b != nil {
							c.fail(rule, con, ev.pos, "the %s edges of %v change", f, b)
						}
					}
				}
			}
		})
	}
}

// snapshotAt: where the slice of edges t was taken.
func (c *Ctx) snapshotAt(evs []*Event, st *State, t *Term) int {
	call := st.callOf(strip(st.canon(t)))
	for i, ev := range evs {
		if ev == call {
			return i
		}
	}
	return -1
}

// isSelfLoop: the edge visited in this iteration is known to connect a node
// with itself.
func (c *Ctx) isSelfLoop(e *Eng, it *Iter, sg *Seg) bool {
	t := c.lt()
	var el *Term
	if it.kind == "slice" {
		el = sg.st.canon(e.tt.Init(e.elemAddr(it.coll, it.key, t.edge), t.edge))
	}
	if el == nil {
		return false
	}
	b, k := sg.st.evalBool(sg.st.canon(e.tt.eq(sg.st.get(el, t.edge, "from"), sg.st.get(el, t.edge, "to"))))
	return k && b
}

// snapshotOf: t is a slice (or iterator) of the edges of node n in one
// direction; gives the direction.
func (c *Ctx) snapshotOf(st *State, t, n *Term) string {
	if t == nil {
		return ""
	}
	t = strip(st.canon(t))
	if t.op != OpUnk || st.callOf(t) == nil {
		return ""
	}
	ev := st.callOf(t)
	switch ev.name {
	case "EdgeSlice":
		return c.snapshotOf(st, ev.args[0], n)
	case "edgeMap.iterator":
		for _, f := range []string{"incoming", "outgoing"} {
			if fieldBase(st.canon(ev.args[0]), f) == n {
				return f
			}
		}
	}
	return ""
}

// checkSlots: each container uses one slot of the edges' link fields
// everywhere, and no two containers share one.
func (c *Ctx) checkSlots() {
	rule := "edge-slots"
	use := map[string]map[*Term][]string{}
	vals := map[string]map[int64]string{}
	note := func(what string, slot *Term, where string, pos token.Pos) {
		if use[what] == nil {
			use[what] = map[*Term][]string{}
			vals[what] = map[int64]string{}
		}
		v, ok := slot.constInt()
		if !ok {
			c.fail(rule, where, pos, "the slot of the %s is not a constant: %v", what, slot)
			return
		}
		vals[what][v] = where
		c.ob(rule, where, len(vals[what]) == 1, pos, "the %s use slot %d here and another slot elsewhere", what, v)
	}
	name := map[string]string{"edges": "graph's edges", "in": "incoming edges", "out": "outgoing edges"}
	for _, m := range c.entries("newedge", "deledge", "setlabel", "delnode", "detach") {
		for _, o := range m.outs {
			for _, x := range c.ops(m.e, o) {
				if x.slot != nil && name[x.what] != "" {
					note(name[x.what], x.slot, m.name, x.pos)
				}
			}
			for _, x := range flat(o.st) {
				if x.isCall("edgeMap.iterator", "edgeMap.iteratorLabel", "edgeMap.iteratorAnyLabel") {
					for f, w := range map[string]string{"allEdges": "edges", "incoming": "in", "outgoing": "out"} {
						if fieldBase(x.args[0], f) != nil {
							note(name[w], x.args[len(x.args)-1], m.name, x.pos)
						}
					}
				}
			}
		}
	}
	// lookups
	for _, q := range []string{"Graph.GetEdges", "Graph.GetEdgesWithAnyLabel", "Node.GetEdges", "Node.GetEdgesWithLabel", "Node.GetEdgesWithAnyLabel"} {
		c.guard(rule, q, func() {
			fn := c.fn(q)
			_, outs := c.run(fn, c.mutHookQ(), func(e *Eng, st *State, args []*Term) { st.nn[args[0]] = true })
			n := 0
			for _, o := range outs {
				for _, x := range flat(o.st) {
					if x.isCall("edgeMap.iterator", "edgeMap.iteratorLabel", "edgeMap.iteratorAnyLabel") {
						for f, w := range map[string]string{"allEdges": "edges", "incoming": "in", "outgoing": "out"} {
							if fieldBase(x.args[0], f) != nil {
								note(name[w], x.args[len(x.args)-1], q, x.pos)
								n++
							}
						}
					}
				}
			}
			c.ob(rule, q, n > 0, fn.Pos(), "no edge list is looked up")
		})
	}
	seen := map[int64]string{}
	var ws []string
	for w := range vals {
		ws = append(ws, w)
	}
	sort.Strings(ws)
	for _, w := range ws {
		for v := range vals[w] {
			o, dup := seen[v]
			c.ob(rule, "distinct slots", !dup, token.NoPos, "the %s and the %s share slot %d", o, w, v)
			seen[v] = w
		}
	}
	// the slots exist
	n := int64(0)
	if a, ok := fieldType(c.typ("Edge"), "listElements").Underlying().(*types.Array); ok {
		n = a.Len()
	}
	for v, w := range seen {
		c.ob(rule, "distinct slots", v >= 0 && v < n, token.NoPos, "slot %d of the %s does not exist", v, w)
	}
}

// mutHookQ is mutHook with the listing functions interpreted.
func (c *Ctx) mutHookQ() Hook {
	return hooks(stdModel, atoms("edgeMap.iterator", "edgeMap.iteratorLabel", "edgeMap.iteratorAnyLabel", "NodeMap.Iterator", "NodeMap.IteratorAllLabels", "StringSet.Slice"))
}

// checkIterStep verifies the one-step behaviour of an iterator over an
// intrusive list: Next makes the pending element current, moves on by one
// link, and reports whether there is a current element.
func (c *Ctx) checkIntrusiveIter(rule, typ, link string, value string) {
	con := typ
	c.guard(rule, con, func() {
		it := types.NewPointer(c.typ(typ))
		fn := c.fn(typ + ".Next")
		e, outs := c.run(fn, nil, func(e *Eng, st *State, args []*Term) { st.nn[args[0]] = true })
		p := e.tt.Param(fn.Params[0].Name(), nil)
		nx0 := e.tt.Init(e.fld(p, it, "next"), nil)
		for _, o := range outs {
			s := o.st
			if o.panic {
				c.fail(rule, con, o.pos, "Next may panic: %s", o.panicIs)
				continue
			}
			has, known := s.evalBool(s.canon(e.tt.eq(nx0, e.tt.Nil())))
			r, rk := s.evalBool(s.canon(o.ret[0]))
			if !known && !rk {
				// result given as a comparison
				want := s.canon(e.tt.not(e.tt.eq(nx0, e.tt.Nil())))
				c.ob(rule, con, s.canon(o.ret[0]) == want, fn.Pos(), "Next reports %v", o.ret[0])
			} else {
				c.ob(rule, con, known && rk && r == !has, fn.Pos(), "Next reports %v when the pending element is %v", o.ret[0], nx0)
			}
			if !known || !has {
				c.ob(rule, con, s.canon(s.get(p, it, "current")) == s.canon(nx0), fn.Pos(), "Next does not move to the pending element: current is %v", s.get(p, it, "current"))
			}
			if known && !has {
				nn := s.canon(s.get(p, it, "next"))
				c.ob(rule, con, c.isLink(e, s, nn, s.canon(nx0), link, p, it), fn.Pos(), "Next goes on with %v, not with the next element", nn)
			} else if known {
				c.ob(rule, con, s.canon(s.get(p, it, "next")).isNil(), fn.Pos(), "Next goes on after the end")
			}
			for _, ev := range flat(s) {
				if ev.kind == EvStore && ev.args[0].root() != p {
					c.fail(rule, con, ev.pos, "Next changes %v", ev.args[0])
				}
			}
		}
		for _, v := range []string{"Value", value} {
			c.guard(rule, con, func() {
				vf := c.fn(typ + "." + v)
				e, outs := c.run(vf, nil, func(e *Eng, st *State, args []*Term) { st.nn[args[0]] = true })
				p := e.tt.Param(vf.Params[0].Name(), nil)
				cur := e.tt.Init(e.fld(p, it, "current"), nil)
				for _, o := range outs {
					c.ob(rule, con+"."+v, !o.panic && strip(o.st.canon(o.ret[0])) == cur, vf.Pos(), "returns %v, not the current element", o.ret)
				}
			})
		}
	})
}

// isLink: t is the element after x.
func (c *Ctx) isLink(e *Eng, s *State, t, x *Term, link string, p *Term, it types.Type) bool {
	if t.op != OpInit {
		return false
	}
	a := t.args[0]
	if a.op != OpField || a.name != "next" {
		return false
	}
	switch link {
	case "node":
		return a.args[0] == x
	case "edge":
		el := a.args[0]
		if el.op != OpElem || el.args[0].op != OpField || el.args[0].name != "listElements" || el.args[0].args[0] != x {
			return false
		}
		return el.args[1] == e.tt.Init(e.fld(p, it, "ix"), nil)
	}
	return false
}

func init() {
	reg("C01", "Shape analysis of the node list (every position of the removed or added cell) and typestate of node registration over every mutating entry point: each way of creating a node adds exactly that node once to the list of its own graph, removal takes it out once, nothing else touches the list; the count and the enumeration read that list.", 40, func(c *Ctx) {
		c.checkList("nodeList", false)
		c.checkNodeRegistry()
		c.checkNodeEnum()
		c.checkIntrusiveIter("node-enum", "nodeListIterator", "node", "Node")
		c.checkWritersOf("node-writers", nil, "nodeList.*", "Graph.allNodes", "Node.next", "Node.prev")
	})
	reg("C02", "Shape analysis of the edge list, abstract interpretation of the label-keyed edge map for 0, 1 and several edges, and a typestate rule over every mutating entry point: an edge enters or leaves the graph's list, its source's outgoing list and its target's incoming list together, once each, through its own link slot.", 60, func(c *Ctx) {
		c.checkList("edgeList", true)
		c.checkEdgeMap()
		c.checkEdgeRegistry()
		c.checkSlots()
		c.checkEdgeEnum()
		c.checkWritersOf("edge-writers", nil, "edgeList.*", "edgeMap.*", "edgeLabelList.*", "edgeElement.*", "Graph.allEdges", "Edge.listElements", "Edge.from", "Edge.to", "Node.incoming", "Node.outgoing")
	})
}
