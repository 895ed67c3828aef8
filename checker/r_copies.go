package main

import (
	"fmt"
	"go/token"
	"go/types"
)

// copier calls of one trace level: how elements are copied.
type copied struct {
	ev  *Event
	src *Term
}

// nonNilResults: the results of these functions are not nil.
func nonNilResults(names ...string) Hook {
	h := atoms(names...)
	return func(e *Eng, st *State, ci *CallInfo) ([]CallRes, bool) {
		r, ok := h(e, st, ci)
		if ok {
			for _, x := range r {
				if x.val != nil {
					x.st.nn[x.val] = true
				}
			}
		}
		return r, ok
	}
}

// noCopy: key k is known not to be in m, or to stand for nothing.
func (q *State) noCopy(m, k *Term, typ types.Type) bool {
	v, has := q.mapLookup(m, k, typ)
	if has != nil && q.no(has) {
		return true
	}
	return v != nil && (v.isNil() || q.yes(q.e.tt.eq(v, q.e.tt.Nil())))
}

// imageOf: t is what m has for node n.
func (q *State) imageOf(t, m, n *Term, typ types.Type) bool {
	t = q.canon(t)
	if app(t, "mapget") && q.canon(t.args[0]) == m && q.canon(t.args[1]) == n {
		return true
	}
	v, _ := q.mapLookup(m, n, typ)
	return v != nil && q.canon(v) == t
}

// checkCopyGraph: all nodes, then all edges between copied nodes, are copied.
func (c *Ctx) checkCopyGraph() {
	nodeP, edgeP := types.NewPointer(c.typ("Node")), types.NewPointer(c.typ("Edge"))
	for _, name := range []string{"CopyGraph", "CopyGraphf"} {
		name := name
		c.guard("graph", name, func() {
			fn := c.fn(name)
			e, args, outs := c.runA(fn, hooks(stdModel, nonNilResults("Graph.cloneNode", "Graph.cloneEdge"), atoms("Graph.GetNodes", "Graph.GetEdges", "NodeSlice", "EdgeSlice")))
			src := args[0]
			direct := name == "CopyGraph"
			for _, o := range outs {
				if o.panic {
					if o.panicIs != "nil" {
						c.fail("graph", name, o.pos, "may panic: %s", o.panicIs)
					}
					continue
				}
				s := o.st
				evs := s.tr.list()
				m := s.canon(o.ret[0])
				if !c.ob("graph", name, m.isAlloc(), o.pos, "the mapping returned is %v", m) {
					continue
				}
				nodes, edges := -1, -1
				for i, ev := range evs {
					switch ev.kind {
					case EvMapUpd, EvMapDel:
						c.ob("graph", name, s.canon(ev.args[0]) != m, ev.pos, "the mapping is changed outside the loop")
					case EvCall:
						c.ob("graph", name, !c.copies(s, ev, args), ev.pos, "an element is copied outside the loops")
					case EvLoop:
						it := e.iterOf(evs, i, s)
						var of *Event
						if it.coll != nil {
							of = listOf(s, it.coll)
						}
						switch {
						case of != nil && of.name == "Graph.GetNodes" && s.canon(of.args[0]) == s.canon(src) && nodes < 0:
							nodes = i
						case of != nil && of.name == "Graph.GetEdges" && s.canon(of.args[0]) == s.canon(src) && edges < 0:
							edges = i
						default:
							if len(ev.loop.segs) > 0 {
								c.fail("graph", name, ev.pos, "undecided: a loop goes through %v", it.coll)
							}
							continue
						}
						c.ob("graph", name, it.all(), ev.pos, "not everything is copied: %s", it.why)
						for _, sg := range ev.loop.segs {
							if nodes == i {
								c.nodeCopied(name, e, sg, it, m, args, direct)
							} else {
								c.edgeCopied(name, e, sg, it, m, args, direct, nodeP, edgeP)
							}
						}
					}
				}
				c.ob("graph", name, nodes >= 0, o.pos, "the nodes are not copied")
				c.ob("graph", name, edges > nodes, o.pos, "the edges are not copied once all nodes are")
			}
		})
	}
}

// listOf is the call that gives the elements gone through.
func listOf(s *State, t *Term) *Event {
	cl := s.callOf(strip(t))
	if cl != nil && (cl.name == "NodeSlice" || cl.name == "EdgeSlice") {
		return s.callOf(strip(s.canon(cl.args[0])))
	}
	return cl
}

// copies: the event is a copying step.
func (c *Ctx) copies(s *State, ev *Event, args []*Term) bool {
	if ev.name == "Graph.cloneNode" || ev.name == "Graph.cloneEdge" {
		return true
	}
	if ev.dynamic {
		for _, a := range args[1:] {
			if s.canon(ev.args[0]) == s.canon(a) {
				return true
			}
		}
	}
	return false
}

// visited: x is the element the loop is at.
func visited(it *Iter, st *State, x *Term) bool { return it.isElem(st, st.canon(x)) }

func (c *Ctx) nodeCopied(name string, e *Eng, sg *Seg, it *Iter, m *Term, args []*Term, direct bool) {
	st := sg.st
	n, upd := 0, 0
	for _, ev := range sg.events {
		switch {
		case ev.kind == EvCall && c.copies(st, ev, args):
			n++
			if direct {
				ok := ev.name == "Graph.cloneNode" && st.canon(ev.args[0]) == st.canon(args[1]) && visited(it, st, ev.args[2]) && st.canon(ev.args[3]) == st.canon(args[2])
				c.ob("graph", name, ok, ev.pos, "a node is copied by %s%v", ev.name, ev.args)
			} else {
				ok := st.canon(ev.args[0]) == st.canon(args[1]) && visited(it, st, ev.args[1]) && st.canon(ev.args[2]) == m
				c.ob("graph", name, ok, ev.pos, "the copy function is called with %v", ev.args[1:])
			}
			stored := false
			for _, x := range sg.events {
				if x.kind == EvMapUpd && st.canon(x.args[0]) == m {
					upd++
					stored = visited(it, st, x.args[1]) && st.canon(x.args[2]) == st.canon(ev.res)
				}
			}
			isNil := st.canon(ev.res).isNil() || st.yes(e.tt.eq(ev.res, e.tt.Nil()))
			c.ob("graph", name, stored && upd == 1 && st.nonNil(st.canon(ev.res)) || upd == 0 && isNil, ev.pos, "the copy is not recorded for its node, or there is none")
		case ev.kind == EvMapDel || ev.kind == EvLoop:
			c.fail("graph", name, ev.pos, "undecided: a node is copied by a loop, or removed from the mapping")
		}
	}
	c.ob("graph", name, n == 1, it.pos, "a node is copied %d times", n)
}

func (c *Ctx) edgeCopied(name string, e *Eng, sg *Seg, it *Iter, m *Term, args []*Term, direct bool, nodeP, edgeP types.Type) {
	st := sg.st
	n := 0
	var edge *Term
	for _, ev := range sg.events {
		if ev.kind == EvCall && ev.invoke && ev.name == "Edge" && visited(it, st, ev.res) {
			edge = st.canon(ev.res)
		}
		// or the element of a list
		for _, a := range ev.args {
			anywhere(st.canon(a), func(t *Term) bool {
				if it.kind == "slice" && visited(it, st, t) {
					edge = t
				}
				return false
			})
		}
	}
	for _, ev := range sg.events {
		switch {
		case ev.kind == EvCall && c.copies(st, ev, args):
			n++
			if direct {
				ok := ev.name == "Graph.cloneEdge" && st.canon(ev.args[0]) == st.canon(args[1]) && visited(it, st, ev.args[3]) && st.canon(ev.args[4]) == st.canon(args[2])
				c.ob("graph", name, ok, ev.pos, "an edge is copied by %s%v", ev.name, ev.args)
				from, to := st.canon(st.get(ev.args[3], edgeP, "from")), st.canon(st.get(ev.args[3], edgeP, "to"))
				c.ob("graph", name, st.imageOf(ev.args[1], m, from, nodeP) && st.imageOf(ev.args[2], m, to, nodeP), ev.pos, "the copy connects %v and %v", ev.args[1], ev.args[2])
			} else {
				ok := st.canon(ev.args[0]) == st.canon(args[2]) && visited(it, st, ev.args[1]) && st.canon(ev.args[2]) == m
				c.ob("graph", name, ok, ev.pos, "the copy function is called with %v", ev.args[1:])
				edge = st.canon(ev.args[1])
				from, to := st.canon(st.get(edge, edgeP, "from")), st.canon(st.get(edge, edgeP, "to"))
				for _, x := range []*Term{from, to} {
					c.ob("graph", name, c.present(st, m, x, nodeP), ev.pos, "an edge is copied though %v was not", x)
				}
			}
		case ev.kind == EvMapUpd && st.canon(ev.args[0]) == m, ev.kind == EvMapDel, ev.kind == EvLoop:
			c.fail("graph", name, ev.pos, "undecided: what is done for an edge changes the mapping or is a loop")
		}
	}
	if n == 0 {
		ok := false
		if edge != nil {
			from, to := st.canon(st.get(edge, edgeP, "from")), st.canon(st.get(edge, edgeP, "to"))
			ok = st.noCopy(m, from, nodeP) || st.noCopy(m, to, nodeP)
		}
		c.ob("graph", name, ok, it.pos, "an edge between copied nodes is left out (%s)", segDesc(sg))
		return
	}
	c.ob("graph", name, n == 1, it.pos, "an edge is copied %d times", n)
}

// present: the node is known to have a copy.
func (c *Ctx) present(st *State, m, k *Term, nodeP types.Type) bool {
	v, has := st.mapLookup(m, k, nodeP)
	return has != nil && st.yes(has) || v != nil && st.nonNil(st.canon(v))
}

// checkCopySubgraph: a node seen for the first time is copied, then each of
// its outgoing edges after what it leads to.
func (c *Ctx) checkCopySubgraph() {
	name := "CopySubgraph"
	c.guard("subgraph", name, func() {
		nodeP, edgeP := types.NewPointer(c.typ("Node")), types.NewPointer(c.typ("Edge"))
		fn := c.fn(name)
		e, args, outs := c.runA(fn, hooks(stdModel, nonNilResults("Graph.cloneNode", "Graph.cloneEdge"), atoms(name, "Node.GetEdges", "EdgeSlice")))
		node, target, f, m := args[0], args[1], args[2], args[3]
		copiedOnce := 0
		for _, o := range outs {
			if o.panic {
				if o.panicIs != "nil" {
					c.fail("subgraph", name, o.pos, "may panic: %s", o.panicIs)
				}
				continue
			}
			s := o.st
			evs := s.tr.list()
			known, nodes, loops := false, 0, 0
			for i, ev := range evs {
				switch {
				case ev.kind == EvAssume && app(ev.args[0], "has") && s.canon(ev.args[0].args[0]) == s.canon(m) && s.canon(ev.args[0].args[1]) == s.canon(node) && ev.truth && nodes == 0:
					known = true
				case ev.kind == EvCall && ev.name == "Graph.cloneNode":
					nodes++
					ok := s.canon(ev.args[0]) == s.canon(target) && s.canon(ev.args[2]) == s.canon(node) && s.canon(ev.args[3]) == s.canon(f)
					c.ob("subgraph", name, ok, ev.pos, "the node is copied by %v", ev.args)
					stored := 0
					for j, x := range evs {
						if x.kind == EvMapUpd && s.canon(x.args[0]) == s.canon(m) {
							if s.canon(x.args[1]) == s.canon(node) && s.canon(x.args[2]) == s.canon(ev.res) && loopBefore(evs, j) < 0 {
								stored++
							} else {
								stored = 99
							}
						}
					}
					c.ob("subgraph", name, stored == 1, ev.pos, "the copy is not recorded for its node before its edges are followed")
				case ev.kind == EvCall && (ev.name == name || ev.name == "Graph.cloneEdge"):
					// the last iteration is not complete
					c.fail("subgraph", name, ev.pos, "edges are copied outside the loop")
				case ev.kind == EvMapDel:
					c.fail("subgraph", name, ev.pos, "a node leaves the mapping")
				case ev.kind == EvLoop:
					loops++
					it := e.iterOf(evs, i, s)
					var of *Event
					if it.coll != nil {
						of = listOf(s, it.coll)
					}
					out := false
					if of != nil && of.name == "Node.GetEdges" {
						k, isC := s.canon(of.args[1]).constInt()
						out = isC && k == c.dirConst("OutgoingEdge") && s.canon(of.args[0]) == s.canon(node)
					}
					c.ob("subgraph", name, out, ev.pos, "%v are not the outgoing edges of the node", it.coll)
					c.ob("subgraph", name, it.all(), ev.pos, "not all edges are followed: %s", it.why)
					for _, sg := range ev.loop.segs {
						c.subEdge(name, e, sg, it, args, nodeP, edgeP)
					}
				}
			}
			if nodes == 0 && (known || c.present(s, s.canon(m), s.canon(node), nodeP)) {
				c.ob("subgraph", name, loops == 0, o.pos, "the edges of a node copied before are followed again")
				continue
			}
			copiedOnce++
			c.ob("subgraph", name, nodes == 1, o.pos, "a node is copied %d times", nodes)
			absent := false
			for _, ev := range evs {
				if ev.kind == EvAssume && app(ev.args[0], "has") && s.canon(ev.args[0].args[0]) == s.canon(m) && s.canon(ev.args[0].args[1]) == s.canon(node) && !ev.truth {
					absent = true
				}
				if ev.kind == EvAssume && app(ev.args[0], "eq") && ev.truth {
					for _, a := range ev.args[0].args {
						absent = absent || app(a, "mapget") && s.canon(a.args[0]) == s.canon(m) && s.canon(a.args[1]) == s.canon(node)
					}
				}
			}
			c.ob("subgraph", name, absent, o.pos, "a node copied before may be copied again")
			c.ob("subgraph", name, loops == 1, o.pos, "the edges of the node are followed %d times", loops)
		}
		c.ob("subgraph", name, copiedOnce > 0, token.NoPos, "no node is copied")
	})
}

// loopBefore is the position of the first loop with iterations before i.
func loopBefore(evs []*Event, i int) int {
	for j := 0; j < i; j++ {
		if evs[j].kind == EvLoop {
			return j
		}
	}
	return -1
}

func (c *Ctx) subEdge(name string, e *Eng, sg *Seg, it *Iter, args []*Term, nodeP, edgeP types.Type) {
	st := sg.st
	target, f, m := st.canon(args[1]), st.canon(args[2]), st.canon(args[3])
	follow, n := -1, 0
	for i, ev := range sg.events {
		switch {
		case ev.kind == EvCall && ev.name == name:
			to := st.canon(ev.args[0])
			b := fieldBase2(to, "to")
			ok := b != nil && visited(it, st, b) && st.canon(ev.args[1]) == target && st.canon(ev.args[2]) == f && st.canon(ev.args[3]) == m
			c.ob("subgraph", name, ok, ev.pos, "what an edge leads to is copied by %v", ev.args)
			follow = i
		case ev.kind == EvCall && ev.name == "Graph.cloneEdge":
			n++
			edge := st.canon(ev.args[3])
			ok := st.canon(ev.args[0]) == target && visited(it, st, edge) && st.canon(ev.args[4]) == f
			c.ob("subgraph", name, ok, ev.pos, "an edge is copied by %v", ev.args)
			from, to := st.canon(st.get(edge, edgeP, "from")), st.canon(st.get(edge, edgeP, "to"))
			okFrom := c.imageAny(st, ev.args[1], m, from) || c.imageAny(st, ev.args[1], m, st.canon(args[0])) || st.imageOf(ev.args[1], m, st.canon(args[0]), nodeP) || st.imageOf(ev.args[1], m, from, nodeP)
			okTo := c.imageAny(st, ev.args[2], m, to) || st.imageOf(ev.args[2], m, to, nodeP)
			c.ob("subgraph", name, okFrom && okTo, ev.pos, "the copy connects %v and %v", ev.args[1], ev.args[2])
			c.ob("subgraph", name, follow >= 0 || c.present(st, m, to, nodeP), ev.pos, "an edge is copied before what it leads to")
		case ev.kind == EvMapUpd, ev.kind == EvMapDel, ev.kind == EvLoop:
			c.fail("subgraph", name, ev.pos, "undecided: what is done for an edge changes the mapping or is a loop")
		}
	}
	c.ob("subgraph", name, n == 1, it.pos, "an edge is copied %d times (%s)", n, segDesc(sg))
}

// imageAny: t was read from m for node n, at whatever time.
func (c *Ctx) imageAny(st *State, t, m, n *Term) bool {
	t = st.canon(t)
	return app(t, "mapget") && st.canon(t.args[0]) == m && st.canon(t.args[1]) == n
}

// fieldBase2: t is the content of field name of the object returned.
func fieldBase2(t *Term, name string) *Term {
	if b, ok := fieldInit(t, name); ok {
		return b
	}
	return nil
}

// checkElements: what a single copy consists of.
func (c *Ctx) checkElements() {
	same := func(e *Eng, st *State, ci *CallInfo) ([]CallRes, bool) {
		if ci.fn != nil && ci.name == "StringSet.Clone" {
			return []CallRes{{st: st, val: ci.args[0]}}, true
		}
		return nil, false
	}
	add := atoms("Graph.addNode", "Graph.addEdge", "Graph.connect", "properties.clone", "graphIndex.addNodeToIndex", "graphIndex.addEdgeToIndex", "NodeMap.add", "edgeMap.add", "nodeMap.add")
	for _, what := range []string{"Node", "Edge"} {
		what := what
		name := "Graph.clone" + what
		c.guard("element", name, func() {
			fn := c.fn(name)
			e, args, outs := c.runA(fn, hooks(stdModel, same, add))
			typ := types.NewPointer(c.typ(what))
			src := args[2]
			if what == "Edge" {
				src = args[3]
			}
			f := args[len(args)-1]
			done := 0
			for _, o := range outs {
				if o.panic {
					continue // refusals are C09
				}
				done++
				s := o.st
				r := s.canon(o.ret[0])
				if !c.ob("element", name, r.isAlloc(), o.pos, "the copy is %v", r) {
					continue
				}
				field := func(x *Term, n string) *Term { return s.canon(s.get(x, typ, n)) }
				if what == "Node" {
					c.ob("element", name, field(r, "labels") == field(src, "labels") || field(r, "labels.M") == field(src, "labels.M"), o.pos, "the labels are %v", field(r, "labels"))
				} else {
					c.ob("element", name, field(r, "label") == field(src, "label"), o.pos, "the label is %v", field(r, "label"))
					c.ob("element", name, field(r, "from") == s.canon(args[1]) && field(r, "to") == s.canon(args[2]), o.pos, "the copy connects %v and %v", field(r, "from"), field(r, "to"))
				}
				p, sp := field(r, "properties"), field(src, "properties")
				ok := false
				if cl := s.callOf(p); cl != nil && cl.name == "properties.clone" {
					ok = s.canon(cl.args[0]) == sp && s.canon(cl.args[len(cl.args)-1]) == s.canon(f)
				} else {
					empty := sp.isNil() || s.yes(e.tt.eq(sp, e.tt.Nil()))
					if iv := s.ivalOf(s.mapLen(sp)); iv.hasHi && iv.hi <= 0 {
						empty = true
					}
					ok = empty && (p.isNil() || p.isAlloc())
				}
				c.ob("element", name, ok, o.pos, "the properties are %v", p)
			}
			c.ob("element", name, done > 0, fn.Pos(), "nothing is copied")
		})
	}
	c.guard("element", "properties.clone", func() {
		fn := c.fn("properties.clone")
		e, args, outs := c.runA(fn, stdModel)
		p, f := args[0], args[len(args)-1]
		for _, o := range outs {
			if o.panic {
				c.ob("element", "properties.clone", o.panicIs == "nil", o.pos, "may panic: %s", o.panicIs)
				continue
			}
			s := o.st
			r := s.canon(o.ret[0])
			empty := s.yes(e.tt.eq(p, e.tt.Nil())) || s.canon(p).isNil()
			if iv := s.ivalOf(s.mapLen(s.canon(p))); iv.hasHi && iv.hi <= 0 {
				empty = true
			}
			if empty && r.isNil() {
				continue
			}
			c.ob("element", "properties.clone", r.isAlloc(), o.pos, "the copy is %v", r)
			full := false
			for i, ev := range s.tr.list() {
				if ev.kind != EvLoop || len(ev.loop.segs) == 0 {
					continue
				}
				it := e.iterOf(s.tr.list(), i, s)
				c.ob("element", "properties.clone", it.all() && it.kind == "map" && it.coll == s.canon(p), ev.pos, "not all properties are copied: %s", it.why)
				full = true
				for _, sg := range ev.loop.segs {
					c.propCopied(sg, it, r, f)
				}
			}
			c.ob("element", "properties.clone", full || empty, o.pos, "the properties are not copied one by one")
		}
	})
	c.guard("element", "StringSet.Clone", func() {
		fn := c.fn("StringSet.Clone")
		e, args, outs := c.runA(fn, stdModel)
		typ := c.typ("StringSet")
		for _, o := range outs {
			if o.panic {
				c.fail("element", "StringSet.Clone", o.pos, "may panic: %s", o.panicIs)
				continue
			}
			s := o.st
			m, src := e.mapOfSet(s, o.ret[0], typ), e.mapOfSet(s, args[0], typ)
			if m == src {
				c.pass("element", "StringSet.Clone")
				continue
			}
			c.ob("element", "StringSet.Clone", e.keysCopied(s, m, src), fn.Pos(), "the copy holds %v", m)
		}
	})
}

func (c *Ctx) propCopied(sg *Seg, it *Iter, r, f *Term) {
	st := sg.st
	n := 0
	for _, ev := range sg.events {
		if ev.kind != EvMapUpd || st.canon(ev.args[0]) != r {
			continue
		}
		n++
		v := st.callOf(strip(st.canon(ev.args[2])))
		ok := st.canon(ev.args[1]) == st.canon(it.key) && v != nil && v.dynamic && len(v.args) == 3 && st.canon(v.args[0]) == st.canon(f) && st.canon(v.args[1]) == st.canon(it.key) && st.canon(v.args[2]) == st.canon(it.val)
		c.ob("element", "properties.clone", ok, ev.pos, "property %v becomes %v", ev.args[1], ev.args[2])
	}
	c.ob("element", "properties.clone", n == 1, it.pos, "a property is copied %d times", n)
}

// mapOfSet is the map of a string set.
func (e *Eng) mapOfSet(s *State, t *Term, typ types.Type) *Term {
	t = s.canon(t)
	if t.op == OpStruct && len(t.args) == 1 {
		return s.canon(t.args[0])
	}
	return s.canon(s.load2(t, "M", typ))
}

// keysCopied: m is a new map with exactly the keys of src.
func (e *Eng) keysCopied(s *State, m, src *Term) bool {
	if !m.isAlloc() {
		if iv := s.ivalOf(s.mapLen(src)); m.isNil() && iv.hasHi && iv.hi <= 0 {
			return true
		}
		return false
	}
	n := 0
	ok := true
	for i, ev := range s.tr.list() {
		if ev.kind != EvLoop || len(ev.loop.segs) == 0 {
			continue
		}
		n++
		it := e.iterOf(s.tr.list(), i, s)
		ok = ok && it.all() && it.kind == "map" && it.coll == src
		for _, sg := range ev.loop.segs {
			k := 0
			for _, x := range sg.events {
				if x.kind == EvMapUpd && sg.st.canon(x.args[0]) == m {
					k++
					ok = ok && sg.st.canon(x.args[1]) == sg.st.canon(it.key)
				}
			}
			ok = ok && k == 1
		}
	}
	if n == 0 {
		iv := s.ivalOf(s.mapLen(src))
		return iv.hasHi && iv.hi <= 0
	}
	return ok && n == 1
}

// checkWrappers: the single-element functions copy what they are given.
func (c *Ctx) checkWrappers() {
	nodeP, edgeP := types.NewPointer(c.typ("Node")), types.NewPointer(c.typ("Edge"))
	for _, name := range []string{"CopyNode", "CopyEdge", "CloneEdge"} {
		name := name
		c.guard("wrapper", name, func() {
			fn := c.fn(name)
			_, args, outs := c.runA(fn, hooks(stdModel, atoms("Graph.cloneNode", "Graph.cloneEdge")))
			for _, o := range outs {
				if o.panic {
					if o.panicIs != "nil" {
						c.fail("wrapper", name, o.pos, "may panic: %s", o.panicIs)
					}
					continue
				}
				s := o.st
				cl := s.callOf(s.canon(o.ret[0]))
				n := 0
				for _, ev := range s.tr.list() {
					if ev.kind == EvCall && (ev.name == "Graph.cloneNode" || ev.name == "Graph.cloneEdge") {
						n++
					}
				}
				ok, why := cl != nil && n == 1, ""
				if ok {
					a := func(i int) *Term { return s.canon(cl.args[i]) }
					switch name {
					case "CopyNode":
						ok = cl.name == "Graph.cloneNode" && a(0) == s.canon(args[1]) && a(2) == s.canon(args[0]) && a(3) == s.canon(args[2])
					case "CopyEdge":
						from, to := s.canon(s.get(args[0], edgeP, "from")), s.canon(s.get(args[0], edgeP, "to"))
						ok = cl.name == "Graph.cloneEdge" && a(0) == s.canon(args[1]) && a(3) == s.canon(args[0]) && a(4) == s.canon(args[2]) &&
							s.imageOf(a(1), s.canon(args[3]), from, nodeP) && s.imageOf(a(2), s.canon(args[3]), to, nodeP)
					case "CloneEdge":
						ok = cl.name == "Graph.cloneEdge" && a(0) == s.canon(args[3]) && a(1) == s.canon(args[0]) && a(2) == s.canon(args[1]) && a(3) == s.canon(args[2]) && a(4) == s.canon(args[4])
					}
					why = fmt.Sprintf("%s%v", cl.name, cl.args)
				}
				c.ob("wrapper", name, ok, o.pos, "the copy is %v %s", o.ret[0], why)
			}
		})
	}
}

func init() {
	reg("C30", "abstract interpretation of every copying function: which loops copy nodes and edges, what each iteration copies and between which copies, when an element is left out, and where each field of a copied element comes from", 9, func(c *Ctx) {
		c.checkCopyGraph()
		c.checkCopySubgraph()
		c.checkElements()
		c.checkWrappers()
	})
}
