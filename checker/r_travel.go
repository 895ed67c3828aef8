package main

import (
	"fmt"
	"go/token"
	"go/types"
)

// gather is a collection filled by a loop: per iteration, the values that are
// in it because of the element visited.
type gather struct {
	it   *Iter
	add  map[*Seg][]*Term
	set  bool // each value once
	pos  token.Pos
	init bool // starts empty
}

// gathered finds out which loop filled the slice ret, directly, through a map
// whose keys or values are collected afterwards, or skipping what is there.
func (c *Ctx) gathered(e *Eng, s *State, ret *Term) (*gather, string) {
	evs := s.tr.list()
	ret = s.canon(ret)
	loops := func(f func(i int, ev *Event) bool) {
		for i, ev := range evs {
			if ev.kind == EvLoop && f(i, ev) {
				return
			}
		}
	}
	var g *gather
	why := fmt.Sprintf("the result %v is not what a loop collected", ret)
	loops(func(i int, ev *Event) bool {
		for _, gr := range e.growths(ev.loop) {
			if !gr.res(ret) || len(ev.loop.segs) == 0 {
				continue
			}
			g = &gather{it: e.iterOf(evs, i, s), add: gr.add, pos: ev.pos, init: e.emptySlice(s, gr.init)}
			return true
		}
		return false
	})
	if g == nil {
		g = e.stored(evs, s, ret)
	}
	if cl := s.callOf(ret); g == nil && cl != nil && cl.name == "NodeSet.Slice" {
		return c.inNodeSet(e, evs, s, cl.args[0])
	}
	if g == nil {
		return nil, why
	}
	if !g.it.all() {
		return nil, "not all elements are visited: " + g.it.why
	}
	if g.it.kind != "map" {
		// elements already collected are left out
		for _, sg := range ev2segs(g.it) {
			if len(g.add[sg]) != 0 {
				continue
			}
			for _, x := range sg.st.marked() {
				if m := x.args[0]; e.filledWith(g, s, m) {
					g.add[sg] = []*Term{x.args[1]}
					g.set = true
				}
			}
		}
		if g.set {
			for _, sg := range ev2segs(g.it) {
				// what is added is marked and was not there
				for _, v := range g.add[sg] {
					if !e.marks(g, s, sg, v) {
						return nil, "an element is collected without being marked, or twice"
					}
				}
			}
		}
		return g, ""
	}
	// the keys or values of a map filled before
	m := g.it.coll
	useKey := true
	for _, sg := range ev2segs(g.it) {
		a := g.add[sg]
		if len(a) != 1 {
			return nil, "not every element of the set is in the result"
		}
		switch sg.st.canon(a[0]) {
		case sg.st.canon(g.it.key):
		case sg.st.canon(g.it.val):
			useKey = false
		default:
			return nil, fmt.Sprintf("the result holds %v", a[0])
		}
	}
	var h *gather
	if !m.isAlloc() {
		return nil, fmt.Sprintf("the result holds what is in %v", m)
	}
	node := c.typ("Node")
	why = "nothing fills the set"
	for i, ev := range evs {
		if ev.kind == EvMapUpd && s.canon(ev.args[0]) == m {
			return nil, "the set is changed outside the loop"
		}
		if ev.kind != EvLoop || len(ev.loop.segs) == 0 {
			continue
		}
		k := &gather{it: e.iterOf(evs, i, s), add: map[*Seg][]*Term{}, pos: ev.pos, set: true, init: g.init}
		any := false
		for _, sg := range ev.loop.segs {
			for _, x := range sg.events {
				if x.kind == EvLoop && updates(x.loop, m) {
					return nil, "undecided: the set is filled by nested loops"
				}
				if x.kind == EvMapDel && sg.st.canon(x.args[0]) == m {
					return nil, "elements leave the set again"
				}
				if x.kind != EvMapUpd || sg.st.canon(x.args[0]) != m {
					continue
				}
				any = true
				key, val := sg.st.canon(x.args[1]), sg.st.canon(x.args[2])
				if useKey {
					k.add[sg] = append(k.add[sg], key)
					continue
				}
				id := sg.st.canon(sg.st.get(val, types.NewPointer(node), "id"))
				if key != val && key != id {
					return nil, fmt.Sprintf("%v is kept under %v", val, key)
				}
				k.add[sg] = append(k.add[sg], val)
			}
		}
		if !any {
			continue
		}
		if h != nil {
			return nil, "the set is filled by several loops"
		}
		h = k
	}
	if h == nil {
		return nil, why
	}
	if !h.it.all() {
		return nil, "not all elements are visited: " + h.it.why
	}
	// an iteration that adds nothing because the value is there already
	for _, sg := range ev2segs(h.it) {
		if len(h.add[sg]) == 0 {
			for _, x := range sg.st.marked() {
				if sg.st.canon(x.args[0]) == m {
					h.add[sg] = []*Term{x.args[1]}
				}
			}
		}
	}
	return h, ""
}

func ev2segs(it *Iter) []*Seg { return it.loop.segs }

func updates(L *Loop, m *Term) bool {
	for _, sg := range L.segs {
		for _, x := range sg.events {
			if (x.kind == EvMapUpd || x.kind == EvMapDel) && sg.st.canon(x.args[0]) == m {
				return true
			}
			if x.kind == EvLoop && updates(x.loop, m) {
				return true
			}
		}
	}
	return false
}

// marked are the memberships in maps known to be true.
func (st *State) marked() []*Term {
	var out []*Term
	for f, b := range st.facts {
		if b && (app(f, "has") || app(f, "mapget")) {
			out = append(out, f)
		}
	}
	return out
}

// stored: a slice as long as a map, filled by position while going through it.
func (e *Eng) stored(evs []*Event, s *State, ret *Term) *gather {
	for i, ev := range evs {
		if ev.kind != EvLoop || len(ev.loop.segs) == 0 {
			continue
		}
		g := &gather{it: e.iterOf(evs, i, s), add: map[*Seg][]*Term{}, pos: ev.pos, init: true}
		n := s.canon(e.sliceLen(s, ret))
		ok := g.it.coll != nil && (n == s.canon(s.mapLen(g.it.coll)) || n == s.canon(e.sliceLen(s, g.it.coll)))
		for _, sg := range ev.loop.segs {
			var idx *Term
			for _, x := range sg.events {
				if x.kind != EvStore || x.args[0].op != OpElem || sg.st.canon(x.args[0].args[0]) != ret && !(app(ret, "makeslice") && sg.st.canon(x.args[0].args[0]) == ret.args[0]) {
					continue
				}
				ok = ok && idx == nil
				idx = x.args[0].args[1]
				g.add[sg] = []*Term{x.args[1]}
			}
			counted := false
			for ph, v := range ev.loop.init {
				b, o := sg.st.affine(sg.next[ph])
				if k, isC := v.constInt(); isC && k == 0 && idx != nil && sg.st.canon(idx) == sg.st.canon(sg.hdr[ph]) && b == sg.st.canon(sg.hdr[ph]) && o == 1 {
					counted = true
				}
				// a range index runs one ahead
				if k, isC := v.constInt(); isC && k == -1 && idx != nil && sg.st.canon(idx) == sg.st.canon(sg.next[ph]) && b == sg.st.canon(sg.hdr[ph]) && o == 1 {
					counted = true
				}
			}
			ok = ok && counted
		}
		if ok {
			return g
		}
	}
	return nil
}

// inNodeSet: the result is what was added to a set made here.
func (c *Ctx) inNodeSet(e *Eng, evs []*Event, s *State, set *Term) (*gather, string) {
	set = s.canon(set)
	for set.op == OpStruct {
		set = set.args[0]
	}
	if b := fieldBase(set, "set"); b != nil {
		set = b
	}
	if cl := s.callOf(set); cl == nil || cl.name != "NewNodeSet" {
		return nil, "the result is not a set made here"
	}
	var g *gather
	for i, ev := range evs {
		if ev.kind == EvCall && ev.name == "NodeSet.Add" {
			return nil, "the set is changed outside the loop"
		}
		if ev.kind != EvLoop || len(ev.loop.segs) == 0 {
			continue
		}
		k := &gather{it: e.iterOf(evs, i, s), add: map[*Seg][]*Term{}, pos: ev.pos, set: true, init: true}
		for _, sg := range ev.loop.segs {
			for _, x := range sg.events {
				if x.kind == EvCall && x.name == "NodeSet.Add" && sg.st.canon(x.args[0]) == set {
					k.add[sg] = append(k.add[sg], x.args[1])
				}
			}
		}
		if len(k.add) == 0 {
			continue
		}
		if g != nil {
			return nil, "the set is filled by several loops"
		}
		g = k
	}
	if g == nil {
		return nil, "nothing fills the set"
	}
	if !g.it.all() {
		return nil, "not all elements are visited: " + g.it.why
	}
	return g, ""
}

// filledWith: m is a map made here which is updated by this loop only.
func (e *Eng) filledWith(g *gather, s *State, m *Term) bool {
	m = s.canon(m)
	if !m.isAlloc() {
		return false
	}
	for _, ev := range s.tr.list() {
		if ev.kind == EvMapUpd && s.canon(ev.args[0]) == m {
			return false
		}
		if ev.kind == EvLoop && ev.loop != g.it.loop && updates(ev.loop, m) {
			return false
		}
	}
	return updates(g.it.loop, m)
}

// marks: the iteration that adds v records it in the map of what was seen.
func (e *Eng) marks(g *gather, s *State, sg *Seg, v *Term) bool {
	for _, x := range sg.st.marked() {
		if e.filledWith(g, s, x.args[0]) && x.args[1] == v {
			return true
		}
	}
	n := 0
	for _, x := range sg.events {
		if x.kind == EvMapUpd && e.filledWith(g, s, x.args[0]) {
			if sg.st.canon(x.args[1]) != sg.st.canon(v) {
				return false
			}
			n++
		}
	}
	return n > 0
}

// isAlloc: made by the function itself.
func (t *Term) isAlloc() bool { return t != nil && (t.op == OpNew) }

// edgeDen: what edges a collection stands for: those of a node in one
// direction, all (label nil) or with a label.
type edgeDen struct {
	node  *Term
	dir   int64
	label *Term
}

func (c *Ctx) edgeDens(e *Eng, s *State, t *Term) ([]edgeDen, string) {
	if cl := s.callOf(s.canon(strip(t))); cl != nil && (cl.name == "EdgeSlice" || cl.name == "NodeSlice") {
		return c.edgeDens(e, s, cl.args[0])
	}
	d := c.den(e, s, t)
	var out []edgeDen
	var rec func(d *Den) string
	rec = func(d *Den) string {
		switch d.k {
		case "concat":
			for _, x := range d.sub {
				if m := rec(x); m != "" {
					return m
				}
			}
			return ""
		case "empty":
			return ""
		case "call:rec:Node.GetEdges", "call:rec:Node.GetEdgesWithLabel":
			x := edgeDen{node: d.a[0]}
			k, ok := d.a[1].constInt()
			if !ok || k != c.dirConst("IncomingEdge") && k != c.dirConst("OutgoingEdge") {
				return fmt.Sprintf("edges come from %v", d)
			}
			x.dir = k
			if len(d.a) > 2 {
				x.label = d.a[2]
			}
			out = append(out, x)
			return ""
		case "call:edgeMap.iterator", "call:edgeMap.iteratorLabel":
			x := edgeDen{}
			if n := fieldBase(d.a[0], "incoming"); n != nil {
				x.node, x.dir = n, c.dirConst("IncomingEdge")
			} else if n := fieldBase(d.a[0], "outgoing"); n != nil {
				x.node, x.dir = n, c.dirConst("OutgoingEdge")
			} else {
				return fmt.Sprintf("edges come from %v", d.a[0])
			}
			if d.k == "call:edgeMap.iteratorLabel" {
				x.label = d.a[1]
			}
			out = append(out, x)
			return ""
		}
		return fmt.Sprintf("edges come from %v", d)
	}
	if m := rec(d); m != "" {
		return nil, m
	}
	return out, ""
}

// dirConst is the value of one of the direction constants.
func (c *Ctx) dirConst(name string) int64 {
	v, ok := c.pkgConst(name)
	if !ok {
		panic(anchorErr("no constant " + name))
	}
	return v
}

// wantEdges: exactly the edges of the node in the direction, with the label.
func (c *Ctx) wantEdges(e *Eng, s *State, got []edgeDen, node *Term, dir int64, label *Term) bool {
	in, out := c.dirConst("IncomingEdge"), c.dirConst("OutgoingEdge")
	want := map[int64]bool{}
	if dir != out {
		want[in] = true
	}
	if dir != in {
		want[out] = true
	}
	for _, g := range got {
		if !want[g.dir] || s.canon(g.node) != s.canon(node) || (g.label == nil) != (label == nil) || label != nil && s.canon(g.label) != s.canon(label) {
			return false
		}
		delete(want, g.dir)
	}
	return len(want) == 0
}

var travelAtoms = []string{"edgeMap.iterator", "edgeMap.iteratorLabel", "Graph.GetNodes", "NodeSlice", "EdgeSlice", "NewNodeSet", "NodeSet.Add", "NodeSet.Slice"}

// checkCursorMoves: what the cursor reports, without a node and with one.
func (c *Ctx) checkCursorMoves(rule string) {
	type want struct {
		name  string
		dir   string // "" given by the caller
		nodes bool
	}
	for _, q := range []want{
		{"Cursor.Edges", "", false}, {"Cursor.EdgesWith", "", false}, {"Cursor.Nodes", "", true}, {"Cursor.NodesWith", "", true},
		{"Cursor.Forward", "OutgoingEdge", false}, {"Cursor.ForwardWith", "OutgoingEdge", false}, {"Cursor.Backward", "IncomingEdge", false}, {"Cursor.BackwardWith", "IncomingEdge", false},
		{"Cursor.NextNodes", "OutgoingEdge", true}, {"Cursor.NextNodesWith", "OutgoingEdge", true}, {"Cursor.PrevNodes", "IncomingEdge", true}, {"Cursor.PrevNodesWith", "IncomingEdge", true},
	} {
		q := q
		c.guard(rule, q.name, func() {
			fn := c.fn(q.name)
			dirs := []string{q.dir}
			if q.dir == "" {
				dirs = []string{"IncomingEdge", "OutgoingEdge", "AnyEdge"}
			}
			for _, dn := range dirs {
				dir := c.dirConst(dn)
				for _, at := range []bool{false, true} {
					con := q.name + " " + dn
					if !at {
						con += " without a node"
					}
					e := newEng(c.w)
					e.hook = hooks(stdModel, atoms(travelAtoms...))
					st := e.newState()
					var args []*Term
					var label *Term
					for i, p := range fn.Params {
						a := e.tt.Param(p.Name(), p.Type())
						switch {
						case i == 0:
							st.nn[a] = true
						case typeName(p.Type()) == "EdgeDir":
							a = e.tt.Int(dir)
						default:
							label = a
						}
						args = append(args, a)
					}
					cur := fn.Params[0].Type()
					n := st.canon(st.get(args[0], cur, "node"))
					st.assume(e.tt.eq(n, e.tt.Nil()), !at)
					for _, o := range c.runArgs(e, fn, args, st) {
						if o.panic {
							c.fail(rule, con, o.pos, "may panic: %s", o.panicIs)
							continue
						}
						s := o.st
						d := c.den(e, s, o.ret[0])
						if !at {
							c.ob(rule, con, d.k == "empty" || d.k == "concat" && len(d.sub) == 0, fn.Pos(), "gives %v", d)
							continue
						}
						t := o.ret[0]
						if q.nodes {
							if !c.ob(rule, con, d.k == "farends" && s.canon(d.a[0]) == s.canon(n) && d.a[1] == e.tt.Int(dir), fn.Pos(), "gives %v, not the far ends of the node's edges in that direction", d) {
								continue
							}
							t = d.sub[0].t
						}
						got, m := c.edgeDens(e, s, t)
						c.ob(rule, con, m == "" && c.wantEdges(e, s, got, n, dir, label), fn.Pos(), "gives %v: wrong edges for this direction %s", d, m)
					}
				}
			}
		})
	}
}

// checkFarEnds: the node reported for an edge of a node is its other end.
func (c *Ctx) checkFarEnds(rule string) {
	typ := "nodesFromEdgesIterator"
	for _, meth := range []string{"Node", "Value"} {
		name := typ + "." + meth
		c.guard(rule, name, func() {
			fn := c.fn(name)
			pt := fn.Params[0].Type()
			edge := types.NewPointer(c.typ("Edge"))
			for _, dn := range []string{"IncomingEdge", "OutgoingEdge", "AnyEdge"} {
				for _, inc := range []bool{true, false} {
					if dn == "IncomingEdge" && !inc || dn == "OutgoingEdge" && inc {
						continue
					}
					con := name + " " + dn
					e := newEng(c.w)
					ed := e.tt.Unk("edge", edge)
					e.hook = hooks(func(e *Eng, st *State, ci *CallInfo) ([]CallRes, bool) {
						if ci.invoke && (ci.name == "Edge" || ci.name == "Value") {
							v := ed
							if ci.name == "Value" {
								v = e.tt.Iface(edge, ed)
							}
							st.event(&Event{kind: EvCall, name: ci.name, args: ci.args, res: v, pos: ci.pos, invoke: true})
							return []CallRes{{st: st, val: v}}, true
						}
						return nil, false
					}, stdModel)
					st := e.newState()
					p := e.tt.Param("itr", pt)
					st.nn[p] = true
					st.nn[ed] = true
					st.mem[e.fld(p, pt, "dir")] = e.tt.Int(c.dirConst(dn))
					n := st.canon(st.get(p, pt, "node"))
					st.assume(e.tt.eq(n, e.tt.Nil()), false)
					near, far := "from", "to"
					if inc {
						near, far = far, near
					}
					// it is an edge of the node
					st.mem[e.fld(ed, edge, near)] = n
					for _, o := range c.runArgs(e, fn, []*Term{p}, st) {
						if o.panic {
							c.fail(rule, con, o.pos, "may panic: %s", o.panicIs)
							continue
						}
						s := o.st
						got := s.canon(strip(s.canon(o.ret[0])))
						want := s.canon(s.get(ed, edge, far))
						c.ob(rule, con, got == want || s.yes(e.tt.eq(got, want)), fn.Pos(), "an edge with the node as %s leads to %v (%s)", near, got, outDesc(o))
					}
				}
			}
		})
	}
}

// checkEndNodes: functions that collect the ends of edges.
func (c *Ctx) checkEndNodes(rule string) {
	edge := types.NewPointer(c.typ("Edge"))
	for _, q := range []struct{ name, end, dir string }{
		{"TargetNodes", "to", ""}, {"SourceNodes", "from", ""}, {"NextNodesWith", "to", "OutgoingEdge"}, {"PrevNodesWith", "from", "IncomingEdge"},
	} {
		q := q
		c.guard(rule, q.name, func() {
			fn := c.fn(q.name)
			e, args, outs := c.runA(fn, hooks(stdModel, atoms(travelAtoms...)))
			for _, o := range outs {
				if o.panic {
					if o.panicIs == "nil" || len(args) == 2 {
						// a nil node
						continue
					}
					c.fail(rule, q.name, o.pos, "may panic: %s", o.panicIs)
					continue
				}
				s := o.st
				g, why := c.gathered(e, s, o.ret[0])
				if !c.ob(rule, q.name, g != nil, fn.Pos(), "%s", why) {
					continue
				}
				c.ob(rule, q.name, g.set, g.pos, "a node may be reported more than once")
				c.ob(rule, q.name, g.init, g.pos, "the result does not start empty")
				if q.dir == "" {
					coll := g.it.coll
					if cl := s.callOf(coll); cl != nil && cl.name == "EdgeSlice" {
						coll = s.canon(cl.args[0])
					}
					c.ob(rule, q.name, coll == s.canon(args[0]), g.pos, "goes through %v", coll)
				} else {
					got, m := c.edgeDens(e, s, g.it.coll)
					c.ob(rule, q.name, m == "" && c.wantEdges(e, s, got, args[0], c.dirConst(q.dir), args[1]), g.pos, "goes through the wrong edges %s", m)
				}
				for _, sg := range ev2segs(g.it) {
					ok := len(g.add[sg]) >= 1
					for _, v := range g.add[sg] {
						v = sg.st.canon(v)
						b, isF := fieldInit(v, q.end)
						ok = ok && isF && g.it.isElem(sg.st, b)
						_ = edge
					}
					c.ob(rule, q.name, ok, g.pos, "an edge adds %v, not its %s node (%s)", g.add[sg], q.end, segDesc(sg))
				}
			}
		})
	}
}

// checkEdgesBetween: exactly the edges from one node to the other.
func (c *Ctx) checkEdgesBetween(rule string) {
	name := "EdgesBetweenNodes"
	c.guard(rule, name, func() {
		fn := c.fn(name)
		e, args, outs := c.runA(fn, hooks(stdModel, atoms(travelAtoms...)))
		from, to := args[0], args[1]
		for _, o := range outs {
			if o.panic {
				continue
			}
			s := o.st
			g, why := c.gathered(e, s, o.ret[0])
			if !c.ob(rule, name, g != nil, fn.Pos(), "%s", why) {
				continue
			}
			c.ob(rule, name, g.init, g.pos, "the result does not start empty")
			got, m := c.edgeDens(e, s, g.it.coll)
			end, other := "to", to
			ok := m == "" && c.wantEdges(e, s, got, from, c.dirConst("OutgoingEdge"), nil)
			if !ok && m == "" && c.wantEdges(e, s, got, to, c.dirConst("IncomingEdge"), nil) {
				ok, end, other = true, "from", from
			}
			if !c.ob(rule, name, ok, g.pos, "goes through other edges than those leaving the first or entering the second node: %s", m) {
				continue
			}
			for _, sg := range ev2segs(g.it) {
				q := sg.st
				var same, known bool
				x := c.elemTerm(g, sg)
				if x != nil {
					same, known = q.evalBool(q.canon(e.tt.eq(q.get(x, types.NewPointer(c.typ("Edge")), end), other)))
				}
				a := g.add[sg]
				switch {
				case !known:
					c.fail(rule, name, g.pos, "an edge is decided on without looking at its %s node (%s)", end, segDesc(sg))
				case same:
					c.ob(rule, name, len(a) == 1 && g.it.isElem(q, q.canon(a[0])), g.pos, "an edge between the nodes is not collected once but %v", a)
				default:
					c.ob(rule, name, len(a) == 0, g.pos, "another edge is collected (%s)", segDesc(sg))
				}
			}
		}
	})
}

// noEdges tells whether a node is known to have edges in one direction.
func (c *Ctx) hasEdges(e *Eng, s *State, n *Term, dir int64) (has, known bool) {
	var rec func(evs []*Event)
	rec = func(evs []*Event) {
		for _, ev := range evs {
			if ev.kind == EvLoop {
				for _, sg := range ev.loop.segs {
					_ = sg
				}
				continue
			}
			if ev.kind != EvCall || ev.name != "Next" || !ev.invoke || known {
				continue
			}
			got, m := c.edgeDens(e, s, ev.args[0])
			if m != "" || !c.wantEdges(e, s, got, n, dir, nil) {
				continue
			}
			if b, k := s.evalBool(s.canon(ev.res)); k {
				has, known = b, true
			}
		}
	}
	rec(s.tr.list())
	if known {
		return
	}
	f := "incoming"
	if dir == c.dirConst("OutgoingEdge") {
		f = "outgoing"
	}
	node := types.NewPointer(c.typ("Node"))
	em := fieldType(node, f)
	if hasField(em, "n") {
		num := s.canon(s.load(e.fld(e.fld(n, node, f), types.NewPointer(em), "n"), types.Typ[types.Int]))
		// a count is not negative
		if s.no(e.tt.eq(num, e.tt.Int(0))) {
			return true, true
		}
		iv := s.ivalOf(num)
		if iv.hasLo && iv.lo > 0 {
			return true, true
		}
		if iv.hasHi && iv.hi <= 0 {
			return false, true
		}
	}
	return
}

// checkSources: exactly the nodes without edges of one direction.
func (c *Ctx) checkSources(rule string) {
	node := types.NewPointer(c.typ("Node"))
	for _, q := range []struct {
		name, dir string
		itr       bool
	}{{"SourcesItr", "IncomingEdge", true}, {"SinksItr", "OutgoingEdge", true}, {"Sources", "IncomingEdge", false}, {"Sinks", "OutgoingEdge", false}} {
		q := q
		c.guard(rule, q.name, func() {
			fn := c.fn(q.name)
			e, args, outs := c.runA(fn, hooks(stdModel, atoms(travelAtoms...)))
			dir := c.dirConst(q.dir)
			isNodes := func(s *State, t *Term) bool {
				for d := 0; d < 3; d++ {
					cl := s.callOf(s.canon(t))
					if cl == nil {
						return false
					}
					if cl.name == "Graph.GetNodes" {
						return s.canon(cl.args[0]) == s.canon(args[0])
					}
					if cl.name != "NodeSlice" {
						return false
					}
					t = cl.args[0]
				}
				return false
			}
			for _, o := range outs {
				if o.panic {
					c.fail(rule, q.name, o.pos, "may panic: %s", o.panicIs)
					continue
				}
				s := o.st
				t := s.canon(o.ret[0])
				if !q.itr {
					if cl := s.callOf(t); cl != nil && cl.name == "NodeSlice" {
						t = s.canon(cl.args[0])
					} else {
						g, why := c.gathered(e, s, t)
						if !c.ob(rule, q.name, g != nil, fn.Pos(), "%s", why) {
							continue
						}
						c.ob(rule, q.name, isNodes(s, g.it.coll) && g.init, g.pos, "goes through %v", g.it.coll)
						for _, sg := range ev2segs(g.it) {
							a := g.add[sg]
							c.sourceVerdict(rule, q.name, e, sg, g, a, dir)
						}
						continue
					}
				}
				d := c.den(e, s, t)
				if !c.ob(rule, q.name, d.k == "filter" && isNodes(s, d.sub[0].t), fn.Pos(), "gives %v, not the graph's nodes filtered", d) {
					continue
				}
				cand := e.tt.Unk("candidate", node)
				s2 := s.clone()
				s2.nn[cand] = true
				for _, r := range c.runClos(e, s2, d.a[0], e.tt.Iface(node, cand)) {
					if r.panic {
						c.fail(rule, q.name, r.pos, "the filter may panic: %s", r.panicIs)
						continue
					}
					has, known := c.hasEdges(e, r.st, cand, dir)
					v, k := r.st.evalBool(r.st.canon(r.ret[0]))
					if !known || !k {
						// the answer may be the emptiness itself
						ok := false
						for _, b := range []bool{false, true} {
							x := r.st.clone()
							if !x.assume(r.ret[0], b) {
								continue
							}
							h, kn := c.hasEdges(e, x, cand, dir)
							ok = kn && h != b
							if !ok {
								break
							}
						}
						c.ob(rule, q.name, ok, fn.Pos(), "a node is decided on without looking at its %s edges (%s)", q.dir, outDesc(r))
						continue
					}
					c.ob(rule, q.name, v == !has, fn.Pos(), "a node is taken %v though it has such edges: %v", v, has)
				}
			}
		})
	}
}

func (c *Ctx) sourceVerdict(rule, name string, e *Eng, sg *Seg, g *gather, a []*Term, dir int64) {
	cand := c.elemTerm(g, sg)
	if cand == nil {
		c.fail(rule, name, g.pos, "undecided: no element in the loop")
		return
	}
	s := sg.st.clone()
	s.tr = traceOf(sg.events)
	has, known := c.hasEdges(e, s, cand, dir)
	c.ob(rule, name, known && has == (len(a) == 0) && (len(a) == 0 || len(a) == 1 && g.it.isElem(sg.st, sg.st.canon(a[0]))), g.pos, "a node adds %v (%s)", a, segDesc(sg))
}

// elemTerm is the element visited in an iteration.
func (c *Ctx) elemTerm(g *gather, sg *Seg) *Term {
	for _, ev := range sg.events {
		if ev.res != nil && ev.kind == EvCall && g.it.isElem(sg.st, ev.res) {
			return ev.res
		}
		for _, a := range ev.args {
			if g.it.isElem(sg.st, a) && a.op == OpInit {
				return a
			}
		}
	}
	if g.it.kind == "slice" {
		if sl, ok := g.it.coll.typ.Underlying().(*types.Slice); ok {
			tt := sg.st.e.tt
			return sg.st.canon(sg.st.load(tt.Elem(g.it.coll, g.it.keyOf(sg), sl.Elem()), sl.Elem()))
		}
	}
	return nil
}

// checkHeadTail: the first and last nodes of all paths recorded.
func (c *Ctx) checkHeadTail(rule string) {
	for _, q := range []string{"GetHeadNodes", "GetTailNodes"} {
		name := "DefaultMatchAccumulator." + q
		if c.w.fn(name) == nil {
			continue
		}
		c.guard(rule, name, func() {
			fn := c.fn(name)
			e, args, outs := c.runA(fn, hooks(stdModel, atoms("Path.GetNode", "Path.First", "Path.Last", "Path.NumNodes", "Path.NumEdges", "NewNodeSet", "NodeSet.Add", "NodeSet.Slice")))
			for _, o := range outs {
				if o.panic {
					if o.panicIs == "nil" {
						continue
					}
					c.fail(rule, name, o.pos, "may panic: %s", o.panicIs)
					continue
				}
				s := o.st
				g, why := c.gathered(e, s, o.ret[0])
				if !c.ob(rule, name, g != nil, fn.Pos(), "%s", why) {
					continue
				}
				paths := s.canon(s.get(args[0], fn.Params[0].Type(), "Paths"))
				c.ob(rule, name, g.set && g.init, g.pos, "a node may be reported more than once")
				c.ob(rule, name, g.it.kind == "slice" && g.it.coll == paths, g.pos, "goes through %v", g.it.coll)
				for _, sg := range ev2segs(g.it) {
					ok := len(g.add[sg]) >= 1
					for _, v := range g.add[sg] {
						q2 := sg.st
						cl := q2.callOf(q2.canon(v))
						if cl == nil || !g.it.isElem(q2, q2.canon(cl.args[0])) {
							ok = false
							continue
						}
						p := q2.canon(cl.args[0])
						switch {
						case q == "GetHeadNodes":
							zero := len(cl.args) > 1 && q2.canon(cl.args[1]) == e.tt.Int(0)
							ok = ok && (cl.name == "Path.First" || cl.name == "Path.GetNode" && zero)
						case cl.name == "Path.GetNode":
							b, off := q2.affine(q2.canon(cl.args[1]))
							n := q2.callOf(b)
							ok = ok && n != nil && q2.canon(n.args[0]) == p && (n.name == "Path.NumNodes" && off == -1 || n.name == "Path.NumEdges" && off == 0)
						default:
							ok = ok && cl.name == "Path.Last"
						}
					}
					c.ob(rule, name, ok, g.pos, "a path adds %v (%s)", g.add[sg], segDesc(sg))
				}
			}
		})
	}
}

func init() {
	reg("C29", "abstract interpretation of every traversal helper for each direction constant, with and without a current node: which edge lists the result stands for, which end of an edge is reported, completeness and per-element verdict of collecting loops and filters", 55, func(c *Ctx) {
		c.listing("edges", "Node.GetEdges", func(dir int64, x *Term) []want { return dirWant("edgeMap.iterator", dir, nil) })
		c.listing("edges", "Node.GetEdgesWithLabel", func(dir int64, x *Term) []want { return dirWant("edgeMap.iteratorLabel", dir, x) })
		c.listing("edges", "Node.GetEdgesWithAnyLabel", func(dir int64, x *Term) []want { return dirWant("edgeMap.iteratorAnyLabel", dir, x) })
		c.guard("edges", "directions", func() {
			c.ob("edges", "directions", c.dirConst("IncomingEdge") == -1 && c.dirConst("OutgoingEdge") == 1 && c.dirConst("AnyEdge") == 0, token.NoPos, "undecided: direction constants changed")
		})
		c.checkSlots()
		c.checkCursorMoves("cursor")
		c.checkFarEnds("far-end")
		c.checkDedupItr("far-end")
		c.checkEndNodes("ends")
		c.checkEdgesBetween("between")
		c.checkSources("sources")
	})
}
