package main

// ---- C06

func (c *Ctx) checkRemoval(rule string) {
	t := c.lt()
	for _, m := range c.entries("delnode", "deledge") {
		m := m
		con := m.name
		c.guard(rule, con, func() {
			for _, o := range m.outs {
				if o.panic {
					c.fail(rule, con, o.pos, "may panic: %s", o.panicIs)
					continue
				}
				s := o.st
				ops := c.ops(m.e, o)
				for _, x := range ops {
					c.ob(rule, con, x.how == "remove", x.pos, "removal does %s on the %s", x.how, x.what)
				}
				if m.kind == "delnode" {
					n := m.arg("*lpg.Node")
					g := m.e.tt.Init(m.e.fld(n, t.node, "graph"), nil)
					c.once(rule, con, sel(ops, "nodes", "remove"), o, m.pos(), "removal from the node list", g, n)
					x := c.once(rule, con, sel(ops, "labels", "remove"), o, m.pos(), "removal from the label index", g, n)
					_ = x
					c.sweep(rule, con, m.e, s.tr.list(), s, t.node, n, g, "remove", m.pos())
					continue
				}
				ed := m.arg("*lpg.Edge")
				g := s.canon(c.targetGraph(&m, s))
				c.edgeListed(rule, con, ops, o, m.pos(), "remove", g, ed, s.canon(s.get(ed, t.edge, "from")), s.canon(s.get(ed, t.edge, "to")))
				c.sweep(rule, con, m.e, s.tr.list(), s, t.edge, ed, g, "remove", m.pos())
				c.none(rule, con, append(sel(ops, "nodes", ""), sel(ops, "labels", "")...), "removing an edge")
			}
		})
	}
	for _, m := range c.entries("detach") {
		m := m
		c.guard(rule, m.name, func() {
			for _, o := range m.outs {
				ops := c.ops(m.e, o)
				c.none(rule, m.name, append(append(sel(ops, "nodes", ""), sel(ops, "labels", "")...), sel(ops, "nix", "")...), "detaching")
			}
		})
	}
	// the elements keep what removal needs to find them
	for _, m := range c.entries("delnode", "deledge", "detach") {
		m := m
		c.guard(rule, m.name, func() {
			for _, o := range m.outs {
				for _, ev := range flat(o.st) {
					if ev.kind == EvStore && ev.args[0].op == OpField {
						f := ev.args[0].name
						if f == "label" || f == "labels" || f == "properties" || f == "id" || f == "from" || f == "to" || f == "graph" {
							c.fail(rule, m.name, ev.pos, "removal changes %v before the element has left all indexes", ev.args[0])
						}
					}
					if (ev.kind == EvMapUpd || ev.kind == EvMapDel) && ev.args[0].op != OpNew {
						c.fail(rule, m.name, ev.pos, "removal changes the map %v", ev.args[0])
					}
				}
			}
		})
	}
}

func init() {
	reg("C06", "Typestate of every way to remove an element: the removed node leaves the node list, the label index and every index on its properties, all its edges of both directions leave the graph's list, both adjacency lists and every index on their properties (self-loops once), over a snapshot of each list; nothing else leaves; plus shape analysis of the containers' removal operations.", 100, func(c *Ctx) {
		c.checkRemoval("removal")
		c.checkDetach("detach")
		c.checkList("nodeList", false)
		c.checkList("edgeList", true)
		c.checkEdgeMap()
		c.checkIndexImpls("index-impl")
		c.checkNodeMap()
		c.checkSlots()
	})
}
