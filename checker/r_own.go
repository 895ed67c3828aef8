package main

import (
	"go/token"
	"strings"
)

// ---- C09: edges never cross graphs

func (c *Ctx) checkEdgeGraphs(rule string) {
	t := c.lt()
	for _, m := range c.entries("newedge") {
		m := m
		con := m.name
		c.guard(rule, con, func() {
			okOuts := 0
			for _, o := range m.outs {
				s := o.st
				g := s.canon(c.targetGraph(&m, s))
				if o.panic {
					// nothing may have happened yet
					for _, x := range c.ops(m.e, o) {
						c.fail(rule, con, x.pos, "the graph is changed before the panic: %s", x.name)
					}
					for _, ev := range flat(s) {
						if ev.kind == EvStore && !s.fresh[ev.args[0].root()] {
							c.fail(rule, con, ev.pos, "%v is changed before the panic", ev.args[0])
						}
						if (ev.kind == EvMapUpd || ev.kind == EvMapDel) && ev.args[0].op != OpNew {
							c.fail(rule, con, ev.pos, "the map %v is changed before the panic", ev.args[0])
						}
					}
					continue
				}
				okOuts++
				r := created(o)
				if r == nil {
					c.fail(rule, con, m.pos(), "does not return a new edge")
					continue
				}
				from, to := s.canon(s.get(r, t.edge, "from")), s.canon(s.get(r, t.edge, "to"))
				for _, end := range []struct {
					n    *Term
					what string
				}{{from, "source"}, {to, "target"}} {
					gr := s.canon(s.get(end.n, t.node, "graph"))
					c.ob(rule, con, gr == g, m.pos(), "an edge is created although the %s node's graph is %v, not %v (%s)", end.what, gr, g, outDesc(o))
				}
				// the edge connects the nodes given, in the direction given
				if fn := c.fn(m.name); len(fn.Params) > 0 {
					var ns []*Term
					for _, a := range m.args {
						if typeKey(a.typ) == "*lpg.Node" {
							ns = append(ns, a)
						}
					}
					if len(ns) == 2 {
						c.ob(rule, con, from == s.canon(ns[0]) && to == s.canon(ns[1]), m.pos(), "the edge connects %v with %v", from, to)
					}
				}
			}
			c.ob(rule, con, okOuts > 0, m.pos(), "never creates an edge")
		})
	}
	// an edge refused is one that would cross
	for _, m := range c.entries("newedge") {
		m := m
		con := m.name
		c.guard(rule+"-only", con, func() {
			for _, o := range m.outs {
				if !o.panic {
					continue
				}
				s := o.st
				g := s.canon(c.targetGraph(&m, s))
				crossing := false
				for f, b := range s.facts {
					if !b && app(f, "eq") {
						x, y := f.args[0], f.args[1]
						if y.op == OpInit && y.args[0].op == OpField && y.args[0].name == "graph" {
							x, y = y, x
						}
						if x.op == OpInit && x.args[0].op == OpField && x.args[0].name == "graph" && (y == g || y.op == OpInit && y.args[0].name == "graph" || y.op == OpParam) {
							crossing = true
						}
					}
				}
				if m.name == "CopyEdge" || strings.Contains(o.panicIs, "nil") {
					crossing = true // ends looked up in the caller's map may be missing
				}
				c.ob(rule+"-only", con, crossing, o.pos, "an edge within one graph is refused: %s", o.panicIs)
			}
		})
	}
	// removed nodes
	c.guard("removed-node-guard", "Graph.FastNewEdge", func() {
		m := c.entry("Node.DetachAndRemove", "delnode")
		n := m.arg("*lpg.Node")
		g := m.e.tt.Init(m.e.fld(n, t.node, "graph"), nil)
		ok := true
		for _, o := range m.outs {
			if !o.panic && o.st.canon(o.st.get(n, t.node, "graph")) == o.st.canon(g) {
				ok = false
			}
		}
		c.ob("removed-node-guard", "Graph.FastNewEdge", ok, m.pos(), "a removed node keeps its graph, so edges can still be attached to it")
	})
}

// ---- C10: identifiers

func (c *Ctx) checkIDs(rule string) {
	t := c.lt()
	type given struct {
		con   string
		k, o1 int64
		pos   token.Pos
	}
	var gs []given
	for _, m := range c.entries() {
		m := m
		con := m.name
		c.guard(rule, con, func() {
			for _, o := range m.outs {
				if o.panic {
					continue
				}
				s := o.st
				g := s.canon(c.targetGraph(&m, s))
				if g == nil {
					c.fail(rule, con, m.pos(), "undecided: no graph")
					continue
				}
				base0 := m.e.tt.Init(m.e.fld(g, t.graph, "idBase"), nil)
				b1, o1, ok1 := s.linear(s.canon(s.get(g, t.graph, "idBase")))
				switch m.kind {
				case "newnode", "newedge":
					r := created(o)
					if r == nil {
						c.fail(rule, con, m.pos(), "does not return a new element")
						continue
					}
					typ := t.node
					if m.kind == "newedge" {
						typ = t.edge
					}
					id := s.canon(s.get(r, typ, "id"))
					b, k, ok := s.linear(id)
					c.ob(rule, con, ok && ok1 && b == base0 && b1 == base0 && k >= 0, m.pos(), "the identifier %v is not taken from the graph's counter", id)
					gs = append(gs, given{con, k, o1, m.pos()})
					// the identifier is final before the element enters any index
					for _, x := range c.ops(m.e, o) {
						if x.id != nil && x.how == "add" {
							c.ob(rule, con, x.id == id, x.pos, "the element is indexed under %v before it has its identifier", x.id)
						}
						if x.what == "labels" && x.how == "add" {
							c.ob(rule, con, c.idSetBefore(s, r, x.seqNo), x.pos, "the node enters the label index before it has its identifier")
						}
					}
				default:
					c.ob(rule, con, b1 == base0 && o1 == 0 || b1 == base0 && o1 > 0, m.pos(), "the identifier counter becomes %v", s.get(g, t.graph, "idBase"))
					for _, ev := range flat(s) {
						if ev.kind == EvStore && ev.args[0].op == OpField && ev.args[0].name == "id" {
							c.fail(rule, con, ev.pos, "the identifier of an existing element changes")
						}
					}
				}
			}
		})
	}
	// every element takes its identifier from the part of the counter it uses up,
	// before or after moving it, all in the same way
	before, after := true, true
	for _, x := range gs {
		before = before && x.k >= 0 && x.k < x.o1
		after = after && x.k > 0 && x.k <= x.o1
	}
	for _, x := range gs {
		c.ob(rule, x.con, before || after || x.k < x.o1, x.pos, "the counter is not moved past the identifier given: the next element gets the same one")
	}
	for _, q := range []struct{ fn, typ string }{{"Node.GetID", "Node"}, {"Edge.GetID", "Edge"}} {
		c.guard(rule, q.fn, func() {
			fn := c.fn(q.fn)
			e, outs := c.run(fn, nil, func(e *Eng, st *State, args []*Term) { st.nn[args[0]] = true })
			typ := t.node
			if q.typ == "Edge" {
				typ = t.edge
			}
			for _, o := range outs {
				want := e.tt.Init(e.fld(e.tt.Param(fn.Params[0].Name(), nil), typ, "id"), nil)
				c.ob(rule, q.fn, !o.panic && o.st.canon(o.ret[0]) == want, fn.Pos(), "returns %v", o.ret)
			}
		})
	}
	// a new graph counts from the beginning, with no elements
	c.guard(rule, "NewGraph", func() {
		fn := c.fn("NewGraph")
		_, outs := c.run(fn, nil, nil)
		for _, o := range outs {
			r := created(o)
			if r == nil {
				c.fail(rule, "NewGraph", fn.Pos(), "does not return a new graph")
				continue
			}
			b, ok := o.st.canon(o.st.get(r, t.graph, "idBase")).constInt()
			c.ob(rule, "NewGraph", ok && b >= 0, fn.Pos(), "undecided: counter starts at %v", o.st.get(r, t.graph, "idBase"))
		}
	})
}

// idSetBefore: the last store to the element's id is before position seq of
// the trace (the value it was allocated with counts as such).
func (c *Ctx) idSetBefore(s *State, r *Term, seq int) bool {
	for i, ev := range s.tr.list() {
		if ev.kind == EvStore && s.canon(ev.args[0]).op == OpField && s.canon(ev.args[0]).name == "id" && s.canon(ev.args[0]).args[0] == r && i > seq {
			return false
		}
	}
	return true
}

func init() {
	reg("C09", "Abstract interpretation of every way to create an edge: on each path that does not panic both ends are proved to have the target graph, and on each path that does nothing was changed; the ends and the graph of an element are written by no other function.", 12, func(c *Ctx) {
		c.checkEdgeGraphs("edge-graphs")
		c.entries()
		c.checkWritersOf("end-writers", nil, "Edge.from", "Edge.to", "Node.graph")
	})
	reg("C10", "Abstract interpretation of every mutating entry point over the identifier counter: an element created gets the counter's value, the counter moves past it on the same path before anything else can use it, and no other function writes identifiers or the counter.", 25, func(c *Ctx) {
		c.checkIDs("ids")
		c.checkWritersOf("id-writers", nil, "Node.id", "Edge.id", "Graph.idBase")
	})
	_ = token.NoPos
}
