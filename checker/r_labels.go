package main

// checkRelabel: an edge leaves the lists of its old label before its label
// changes, and enters those of the new one after that.
func (c *Ctx) checkRelabel() {
	rule := "relabel"
	t := c.lt()
	for _, m := range c.entries("setlabel") {
		m := m
		con := m.name
		c.guard(rule, con, func() {
			ed := m.arg("*lpg.Edge")
			lbl := m.arg("string")
			for _, o := range m.outs {
				if o.panic {
					c.fail(rule, con, o.pos, "may panic: %s", o.panicIs)
					continue
				}
				s := o.st
				e := m.e
				old := s.canon(e.tt.Init(e.fld(ed, t.edge, "label"), nil))
				cur := s.canon(s.get(ed, t.edge, "label"))
				same, known := s.evalBool(s.canon(e.tt.eq(old, s.canon(lbl))))
				c.ob(rule, con, cur == s.canon(lbl), m.pos(), "the label becomes %v, not %v", cur, lbl)
				ops := c.ops(e, o)
				var mine []COp
				for _, w := range []string{"edges", "in", "out", "?edges"} {
					mine = append(mine, sel(ops, w, "")...)
				}
				if len(mine) == 0 {
					c.ob(rule, con, known && same, m.pos(), "the label changes without the edge being moved in the edge lists")
					continue
				}
				st := -1
				evs := s.tr.list()
				addr := e.fld(ed, t.edge, "label")
				for i, ev := range evs {
					if ev.kind == EvStore && s.canon(ev.args[0]) == addr {
						if st >= 0 {
							c.fail(rule, con, ev.pos, "the label is set twice")
						}
						st = i
					}
				}
				if st < 0 {
					c.ob(rule, con, known && same, m.pos(), "the edge is moved but its label is not set")
					continue
				}
				for _, x := range mine {
					if len(x.its) > 0 {
						c.fail(rule, con, x.pos, "edge list operation in a loop")
						continue
					}
					if x.how == "remove" {
						c.ob(rule, con, x.seqNo < st, x.pos, "the edge is removed from the list of %s after its label changed", x.what)
					} else {
						c.ob(rule, con, x.seqNo > st, x.pos, "the edge is added to the list of %s before its label changed", x.what)
					}
				}
			}
		})
	}
	// the label of a listed edge changes nowhere else; creation sets it before
	// the edge is listed
	for _, m := range c.entries("newedge") {
		m := m
		c.guard(rule, m.name, func() {
			for _, o := range m.outs {
				r := created(o)
				if o.panic || r == nil {
					continue
				}
				addr := m.e.fld(r, t.edge, "label")
				last := -1
				for i, ev := range o.st.tr.list() {
					if ev.kind == EvStore && o.st.canon(ev.args[0]) == addr {
						last = i
					}
				}
				for _, x := range c.ops(m.e, o) {
					if (x.what == "edges" || x.what == "in" || x.what == "out") && x.elem == r {
						c.ob(rule, m.name, x.seqNo > last, x.pos, "the new edge is listed before its label is set")
					}
				}
				// the label comes from the caller
				lbl := o.st.canon(o.st.get(r, t.edge, "label"))
				var want *Term
				if l := m.arg("string"); l != nil {
					want = l
				} else if src := m.arg("*lpg.Edge"); src != nil {
					want = m.e.tt.Init(m.e.fld(src, t.edge, "label"), nil)
				}
				c.ob(rule, m.name, want == nil || lbl == o.st.canon(want), m.pos(), "the new edge's label is %v, expected %v", lbl, want)
			}
		})
	}
}

func init() {
	reg("C03", "Abstract interpretation of relabeling (old label's lists left before the label changes, new label's lists entered after it), of the label-keyed edge map's add, remove and lookups for 0, 1 and several edges including the generator of multi-label lookups, and of the API functions that give those lookups; closed-world check that no other code changes an edge's label or its lists.", 60, func(c *Ctx) {
		c.checkList("edgeList", true)
		c.checkEdgeMap()
		c.checkEdgeRegistry()
		c.checkRelabel()
		c.checkSlots()
		c.checkEdgeLabelLookup()
		c.checkWritersOf("label-writers", nil, "edgeList.*", "edgeMap.*", "edgeLabelList.*", "Edge.label")
	})
}
