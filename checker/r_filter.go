package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// conjunct is one requirement a filter decides.
type conjunct struct {
	name  string
	given bool // guaranteed by the candidates already
	// direct answer, if the path has one
	direct func(st *State) (v, known bool)
	// the loop over the elements of the requirement
	coll func(st *State, it *Iter) bool
	pred func(evs []*Event, st *State, it *Iter) (v, known bool)
	none func(st *State) bool
	// known not to hold without a look at the elements
	refute func(st *State) bool
}

// cmpHook makes the property comparison primitive: it gives some result or
// panics.
func cmpHook(e *Eng, st *State, ci *CallInfo) ([]CallRes, bool) {
	if ci.fn == nil || ci.name != "ComparePropertyValue" {
		return nil, false
	}
	s2 := st.clone()
	s2.event(&Event{kind: EvCall, name: "ComparePropertyValue!panic", fn: ci.fn, args: ci.args, pos: ci.pos})
	return append(e.opaque0(st, ci), CallRes{st: s2, panic: true}), true
}

// conj checks that a function answers whether all requirements hold.
func (c *Ctx) conj(rule, con string, e *Eng, outs []Outcome, pos token.Pos, cs []conjunct, cmpPair func(st *State, x Ev) bool) {
	var split []Outcome
	for _, o := range outs {
		if o.panic || len(o.ret) != 1 {
			split = append(split, o)
			continue
		}
		if _, k := o.st.evalBool(o.st.canon(o.ret[0])); k {
			split = append(split, o)
			continue
		}
		for _, b := range []bool{true, false} {
			s := o.st.clone()
			if s.assume(s.canon(o.ret[0]), b) && !s.dead {
				split = append(split, Outcome{st: s, ret: []*Term{e.tt.Bool(b)}})
			}
		}
	}
	for _, o := range split {
		if o.panic {
			c.fail(rule, con, o.pos, "may panic: %s", o.panicIs)
			continue
		}
		if len(o.ret) != 1 {
			c.fail(rule, con, pos, "undecided: %d results", len(o.ret))
			continue
		}
		s := o.st
		r, known := s.evalBool(s.canon(o.ret[0]))
		if !known {
			c.fail(rule, con, pos, "undecided: answers %v", o.ret[0])
			continue
		}
		evs := s.tr.list()
		refuted := ""
		holds := make([]bool, len(cs))
		for k, q := range cs {
			if q.given || q.none != nil && q.none(s) {
				holds[k] = true
			}
			if q.refute != nil && q.refute(s) {
				refuted = q.name
			}
			if q.direct != nil {
				if v, kn := q.direct(s); kn && v {
					holds[k] = true
				} else if kn && !v && !(q.none != nil && q.none(s)) {
					refuted = q.name
				}
			}
		}
		for i, ev := range evs {
			if ev.kind != EvLoop {
				continue
			}
			it := e.iterOf(evs, i, s)
			if it.kind == "" {
				ct := e.control(evs[i+1:], s)
				it.kind, it.coll, it.key, it.val = ct.kind, ct.coll, ct.key, ct.val
				it.complete = ct.ok && !ct.taken
				it.from0 = true
			}
			which := -1
			for k, q := range cs {
				if it.kind != "" && q.coll != nil && q.coll(s, it) {
					which = k
				}
			}
			if which < 0 {
				if len(ev.loop.segs) == 0 {
					continue
				}
				c.fail(rule, con, ev.pos, "undecided: loop over %v %v (%s)", it.kind, it.coll, it.why)
				continue
			}
			q := cs[which]
			for _, sg := range ev.loop.segs {
				v, k := q.pred(sg.events, sg.st, it)
				c.ob(rule, con, k && v, ev.pos, "%s: the next one is looked at although this one does not match or was not looked at (%s)", q.name, segDesc(sg))
			}
			c.ob(rule, con, it.from0, ev.pos, "%s", it.why)
			if it.complete && it.from0 {
				holds[which] = true
				continue
			}
			ct := e.control(evs[i+1:], s)
			it2 := *it
			if ct.kind == it.kind {
				it2.key, it2.val = ct.key, ct.val
			}
			if v, k := q.pred(evs[i+1:], s, &it2); k && !v {
				refuted = q.name
			}
		}
		for _, x := range flat(s) {
			switch x.kind {
			case EvMapUpd, EvMapDel:
				c.ob(rule, con, x.args[0].op == OpNew, x.pos, "changes %v while deciding", x.args[0])
			case EvStore:
				r := x.args[0].root()
				c.ob(rule, con, r.op == OpNew, x.pos, "changes %v while deciding", x.args[0])
			}
			if x.isCall("ComparePropertyValue!panic") {
				c.ob(rule, con, cmpPair(x.st, x), x.pos, "compares %v", x.args)
				c.ob(rule, con, !r, x.pos, "answers %v when the values cannot be compared", r)
				refuted = "incomparable"
			}
		}
		if r {
			for k, q := range cs {
				c.ob(rule, con, holds[k], pos, "accepts without requiring the %s (%s)", q.name, outDesc(o))
			}
			c.ob(rule, con, refuted == "", pos, "accepts although %s do not match", refuted)
		} else {
			c.ob(rule, con, refuted != "", pos, "rejects although nothing is known not to match (%s)", outDesc(o))
		}
	}
}

func (c *Ctx) mapNonEmpty(st *State, m *Term) bool {
	iv := st.ivalOf(st.mapLen(m))
	return iv.hasLo && iv.lo > 0 || !iv.contains(0)
}

// elemConj gives the requirements "has the labels" and "has the property
// values" of a candidate node or edge.
func (c *Ctx) elemConj(e *Eng, edge bool, cand *Term, lm, pm func(st *State) *Term) ([]conjunct, func(st *State, x Ev) bool) {
	t := c.lt()
	typ := t.node
	if edge {
		typ = t.edge
	}
	props := func(st *State) *Term { return st.canon(st.get(cand, typ, "properties")) }
	labels := conjunct{name: "labels", none: func(st *State) bool { return st.emptyMap(lm(st)) }}
	if edge {
		labels.direct = func(st *State) (bool, bool) {
			v, k := c.hasKey(st, lm(st), st.canon(st.get(cand, typ, "label")))
			if k && !v && !c.mapNonEmpty(st, lm(st)) {
				return false, false
			}
			return v, k
		}
	} else {
		labels.refute = func(st *State) bool {
			return c.fewer(st, st.canon(st.get(cand, typ, "labels.M")), lm(st))
		}
		labels.coll = func(st *State, it *Iter) bool { return it.kind == "map" && it.coll == lm(st) }
		labels.pred = func(evs []*Event, st *State, it *Iter) (bool, bool) {
			return c.hasKey(st, st.canon(st.get(cand, typ, "labels.M")), st.canon(it.key))
		}
	}
	pair := func(st *State, x Ev, want, have *Term) bool {
		a, b := x.args[0], x.args[1]
		return a == want && b == have || a == have && b == want
	}
	properties := conjunct{name: "property values", none: func(st *State) bool { return st.emptyMap(pm(st)) }}
	properties.coll = func(st *State, it *Iter) bool { return it.kind == "map" && it.coll == pm(st) }
	properties.pred = func(evs []*Event, st *State, it *Iter) (bool, bool) {
		P := props(st)
		k := st.canon(it.key)
		h, known := c.hasKey(st, P, k)
		if !known {
			return false, false
		}
		want, _ := st.mapLookup(pm(st), k, nil)
		want = st.canon(want)
		if !h {
			return st.evalBool(st.canon(e.tt.eq(want, e.tt.Nil())))
		}
		have, _ := st.mapLookup(P, k, nil)
		have = st.canon(have)
		for i, ev := range evs {
			x := mkEv(ev, st, nil, i)
			if x.isCall("ComparePropertyValue") && pair(st, x, want, have) {
				return st.evalBool(st.canon(e.tt.eq(x.res, e.tt.Int(0))))
			}
		}
		return false, false
	}
	cmp := func(st *State, x Ev) bool {
		P := props(st)
		for _, ab := range [][2]*Term{{x.args[0], x.args[1]}, {x.args[1], x.args[0]}} {
			want, have := ab[0], ab[1]
			if app(want, "mapget") && want.args[0] == pm(st) {
				v, _ := st.mapLookup(P, want.args[1], nil)
				if st.canon(v) == have {
					return true
				}
			}
		}
		return false
	}
	return []conjunct{labels, properties}, cmp
}

// checkFilterFuncs: the element filters decide labels and properties.
func (c *Ctx) checkFilterFuncs(rule string) {
	t := c.lt()
	for _, name := range []string{"GetNodeFilterFunc", "GetEdgeFilterFunc"} {
		name := name
		c.guard(rule, name, func() {
			fn := c.fn(name)
			edge := name == "GetEdgeFilterFunc"
			e, outs := c.run(fn, hooks(cmpHook, stdModel), nil)
			set := e.tt.Param(fn.Params[0].Name(), fn.Params[0].Type())
			pr := e.tt.Param(fn.Params[1].Name(), fn.Params[1].Type())
			for _, o := range outs {
				if o.panic {
					c.fail(rule, name, o.pos, "may panic: %s", o.panicIs)
					continue
				}
				c.filterClosure(rule, name, e, o.st, o.ret[0], edge, false, func(st *State) *Term { return c.setM(st, set) }, func(st *State) *Term { return st.canon(pr) }, nil, fn.Pos())
			}
		})
	}
	_ = t
}

// filterClosure checks a filter function value against a request.
func (c *Ctx) filterClosure(rule, con string, e *Eng, s *State, f *Term, edge, boxed bool, lm, pm func(st *State) *Term, given map[string]bool, pos token.Pos) {
	t := c.lt()
	typ := t.node
	if edge {
		typ = t.edge
	}
	cand := e.tt.Unk("candidate", typ)
	s = s.clone()
	s.nn[cand] = true
	arg := cand
	if boxed {
		arg = e.tt.Iface(typ, cand)
	}
	res := c.runClos(e, s, f, arg)
	cs, cmp := c.elemConj(e, edge, cand, lm, pm)
	for i := range cs {
		cs[i].given = given[cs[i].name]
	}
	c.conj(rule, con, e, res, pos, cs, cmp)
}

// movedOff: x is a loop variable that got one of the good values, known
// because some loop variable has left its initial value.
func (e *Eng) movedOff(st *State, x *Term, good func(sg *Seg, v *Term) bool) bool {
	for _, ev := range st.tr.list() {
		if ev.kind != EvLoop {
			continue
		}
		L := ev.loop
		var px *ssa.Phi
		for ph := range L.init {
			for _, sg := range L.segs {
				if sg.hdr[ph] == x {
					px = ph
				}
			}
		}
		if px == nil {
			continue
		}
		allGood := true
		for _, sg := range L.segs {
			if n := sg.next[px]; n != sg.hdr[px] && !good(sg, sg.st.canon(n)) {
				allGood = false
			}
		}
		if !allGood {
			return false
		}
		for py, init := range L.init {
			var hy *Term
			for _, sg := range L.segs {
				hy = sg.hdr[py]
			}
			if hy == nil {
				continue
			}
			if b, k := st.evalBool(st.canon(e.tt.eq(hy, init))); !k || b {
				continue
			}
			together := true
			for _, sg := range L.segs {
				if sg.next[py] != sg.hdr[py] && sg.next[px] == sg.hdr[px] {
					// the partner changes alone: fine only if it had left
					// its initial value before
					if b, k := sg.st.evalBool(sg.st.canon(e.tt.eq(sg.hdr[py], init))); !k || b {
						together = false
					}
				}
			}
			if together {
				return true
			}
		}
	}
	return false
}

// candidates decides which requirement the candidates of a search are limited
// to: "" for none; ok is false if they may leave out matching elements.
func (c *Ctx) candidates(e *Eng, st *State, d *Den, g, set, pr *Term, edge bool) (string, bool, string) {
	t := c.lt()
	nonNil := func(v *Term) bool {
		n, k := st.evalBool(st.canon(e.tt.eq(v, e.tt.Nil())))
		return k && !n || st.nonNil(v)
	}
	propItr := func(st *State, v *Term) bool {
		ev := st.callOf(st.canon(v))
		want := "graphIndex.GetIteratorForNodeProperty"
		if edge {
			want = "graphIndex.GetIteratorForEdgeProperty"
		}
		if ev == nil || ev.name != want {
			return false
		}
		k, val := st.canon(ev.args[1]), st.canon(ev.args[2])
		w, _ := st.mapLookup(st.canon(pr), k, nil)
		isNil, known := st.evalBool(st.canon(e.tt.eq(val, e.tt.Nil())))
		resNil, rk := st.evalBool(st.canon(e.tt.eq(v, e.tt.Nil())))
		return c.isField(st, ev.args[0], g, t.graph, "index") && st.canon(w) == val && known && !isNil && rk && !resNil
	}
	// a value kept in a local map of index lookups
	fromMap := func(st *State, m, key *Term) (bool, string) {
		n := 0
		for _, x := range flat(st) {
			if x.kind == EvMapUpd && x.args[0] == m {
				n++
				if !propItr(x.st, x.args[2]) {
					return false, "an iterator kept for later is not an index lookup of a required value"
				}
			}
			if x.kind == EvMapDel && x.args[0] == m {
				return false, "undecided: kept iterators are dropped"
			}
		}
		if n == 0 {
			return false, "no iterator was kept"
		}
		isKey := func(sg *Seg, v *Term) bool {
			for _, ev := range sg.events {
				if ev.kind == EvIter && sg.st.canon(ev.args[0]) == m && sg.st.canon(ev.args[1]) == v {
					return true
				}
			}
			return false
		}
		if st.present(m, key) || e.movedOff(st, key, isKey) {
			return true, ""
		}
		return false, "the kept iterator may be missing"
	}
	x := d.t
	switch {
	case d.k == "nodes" && !edge:
		ok := len(d.a) == 1 && st.canon(d.a[0]) == st.canon(e.tt.Init(e.fld(g, t.graph, "allNodes.head"), nil))
		return "", ok, "the nodes of something else than the graph"
	case d.k == "call:Graph.GetNodes" && !edge || d.k == "call:Graph.GetEdges" && edge:
		return "", st.canon(d.a[0]) == g, "the elements of another graph"
	case d.k == "call:edgeMap.iterator" && edge:
		ix, _ := d.a[1].constInt()
		return "", c.isField(st, d.a[0], g, t.graph, "allEdges") && ix == 0, "not the edges of the graph"
	case d.k == "call:NodeMap.IteratorAllLabels" && !edge:
		ok := c.setM(st, d.a[1]) == c.setM(st, set) && c.isField(st, d.a[0], g, t.graph, "index.nodesByLabel")
		return "labels", ok, "not the nodes of the required labels"
	case d.k == "call:Graph.GetEdgesWithAnyLabel" && edge:
		ok := st.canon(d.a[0]) == g && c.setM(st, d.a[1]) == c.setM(st, set) && c.mapNonEmpty(st, c.setM(st, set))
		return "labels", ok, "not the edges of the required labels, or no labels are required"
	case d.k == "call:edgeMap.iteratorAnyLabel" && edge:
		ix, _ := d.a[2].constInt()
		ok := c.isField(st, d.a[0], g, t.graph, "allEdges") && ix == 0 && c.setM(st, d.a[1]) == c.setM(st, set) && c.mapNonEmpty(st, c.setM(st, set))
		return "labels", ok, "not the edges of the required labels, or no labels are required"
	case d.k == "call:graphIndex.GetIteratorForNodeProperty" || d.k == "call:graphIndex.GetIteratorForEdgeProperty":
		return "", propItr(st, x), "an index lookup of something that is not required"
	}
	if d.k == "val" || d.k == "bad" {
		v := st.canon(x)
		if y, _, ok := asOf(v); ok {
			v = y
		}
		if app(v, "mapget") && v.args[0].op == OpNew {
			ok, why := fromMap(st, v.args[0], v.args[1])
			return "", ok, why
		}
		if isPhi(v) {
			// one of several candidates picked in a loop
			good := func(sg *Seg, y *Term) bool {
				if app(y, "mapget") && y.args[0].op == OpNew {
					ok, _ := fromMap(sg.st, y.args[0], y.args[1])
					if ok {
						return true
					}
					for _, ev := range sg.events {
						if ev.kind == EvIter && sg.st.canon(ev.args[0]) == y.args[0] && sg.st.canon(ev.args[2]) == y {
							ok, _ := fromMap(st, y.args[0], y.args[1])
							n := 0
							for _, u := range flat(st) {
								if u.kind == EvMapUpd && u.args[0] == y.args[0] {
									n++
									ok = propItr(u.st, u.args[2])
								}
							}
							return ok && n > 0 || ok
						}
					}
				}
				if coll, _ := elemAt(y); coll != nil {
					// an element of a list that holds index lookups only
					n := 0
					for _, ev := range st.tr.list() {
						if ev.kind != EvLoop {
							continue
						}
						for _, gr := range e.growths(ev.loop) {
							if !gr.res(coll) || !e.emptySlice(st, gr.init) {
								continue
							}
							for s, as := range gr.add {
								for _, a := range as {
									n++
									if !propItr(s.st, s.st.canon(a)) {
										return false
									}
								}
							}
						}
					}
					if n == 0 {
						return false
					}
					return true
				}
				return propItr(sg.st, y)
			}
			if e.movedOff(st, v, good) {
				return "", true, ""
			}
			if nonNil(v) {
				ok := true
				for _, ev := range st.tr.list() {
					if ev.kind != EvLoop {
						continue
					}
					for _, sg := range ev.loop.segs {
						for ph := range ev.loop.init {
							if sg.hdr[ph] == v && sg.next[ph] != v && !good(sg, sg.st.canon(sg.next[ph])) {
								ok = false
							}
							if sg.hdr[ph] == v && !st.canon(ev.loop.init[ph]).isNil() {
								ok = false
							}
						}
					}
				}
				return "", ok, "candidates picked in a loop are not index lookups of required values"
			}
		}
	}
	return "", false, "undecided candidates"
}

// checkFind: find queries.
func (c *Ctx) checkFind(rule string) {
	t := c.lt()
	for _, name := range []string{"Graph.FindNodes", "Graph.FindEdges"} {
		name := name
		edge := name == "Graph.FindEdges"
		c.guard(rule, name, func() {
			fn := c.fn(name)
			e, outs := c.run(fn, hooks(cmpHook, atoms("NodeMap.IteratorAllLabels", "edgeMap.iteratorAnyLabel", "edgeMap.iterator", "graphIndex.GetIteratorForNodeProperty", "graphIndex.GetIteratorForEdgeProperty"), stdModel), func(e *Eng, st *State, args []*Term) {
				st.nn[args[0]] = true
			})
			g := e.tt.Param(fn.Params[0].Name(), fn.Params[0].Type())
			set := e.tt.Param(fn.Params[1].Name(), fn.Params[1].Type())
			pr := e.tt.Param(fn.Params[2].Name(), fn.Params[2].Type())
			for _, o := range outs {
				if o.panic {
					c.fail(rule, name, o.pos, "may panic: %s (%s)", o.panicIs, outDesc(o))
					continue
				}
				c.findResult(rule, name, e, o, o.ret[0], g, set, pr, edge, fn.Pos())
			}
		})
	}
	for _, name := range []string{"Graph.GetNodesWithProperty", "Graph.GetEdgesWithProperty"} {
		name := name
		edge := name == "Graph.GetEdgesWithProperty"
		c.guard(rule, name, func() {
			fn := c.fn(name)
			e, outs := c.run(fn, hooks(cmpHook, atoms("edgeMap.iterator", "graphIndex.NodesWithProperty", "graphIndex.EdgesWithProperty"), stdModel), func(e *Eng, st *State, args []*Term) {
				st.nn[args[0]] = true
			})
			g := e.tt.Param(fn.Params[0].Name(), fn.Params[0].Type())
			key := e.tt.Param(fn.Params[1].Name(), fn.Params[1].Type())
			for _, o := range outs {
				if o.panic {
					c.fail(rule, name, o.pos, "may panic: %s", o.panicIs)
					continue
				}
				s := o.st
				d := c.den(e, s, o.ret[0])
				want := "call:graphIndex.NodesWithProperty"
				typ := t.node
				if edge {
					want, typ = "call:graphIndex.EdgesWithProperty", t.edge
				}
				switch {
				case d.k == want:
					n, k := s.evalBool(s.canon(e.tt.eq(d.t, e.tt.Nil())))
					c.ob(rule, name, c.isField(s, d.a[0], g, t.graph, "index") && d.a[1] == key && k && !n, fn.Pos(), "gives %v", d)
				case d.k == "filter":
					_, ok, why := c.candidates(e, s, d.sub[0], g, nil, nil, edge)
					c.ob(rule, name, ok, fn.Pos(), "candidates %v: %s", d.sub[0], why)
					cand := e.tt.Unk("candidate", typ)
					s2 := s.clone()
					s2.nn[cand] = true
					for _, r := range c.runClos(e, s2, d.a[0], e.tt.Iface(typ, cand)) {
						if r.panic {
							c.fail(rule, name, r.pos, "the filter may panic: %s", r.panicIs)
							continue
						}
						P := r.st.canon(r.st.get(cand, typ, "properties"))
						h, k := c.hasKey(r.st, P, key)
						_, has := r.st.mapLookup(P, key, nil)
						b, bk := r.st.evalBool(r.st.canon(r.ret[0]))
						c.ob(rule, name, k && bk && h == b || r.st.canon(r.ret[0]) == r.st.canon(has), fn.Pos(), "the filter answers %v (%s)", r.ret[0], outDesc(r))
					}
				default:
					c.fail(rule, name, fn.Pos(), "undecided: gives %v", d)
				}
			}
		})
	}
}

func (c *Ctx) findResult(rule, con string, e *Eng, o Outcome, ret, g, set, pr *Term, edge bool, pos token.Pos) {
	s := o.st
	d := c.den(e, s, ret)
	noLabels, noProps := s.emptyMap(c.setM(s, set)), s.emptyMap(s.canon(pr))
	if d.k == "empty" {
		c.fail(rule, con, pos, "gives nothing (%s)", outDesc(o))
		return
	}
	given := map[string]bool{}
	base := d
	for base.k == "filter" {
		base = base.sub[0]
	}
	lim, ok, why := c.candidates(e, s, base, g, set, pr, edge)
	c.ob(rule, con, ok, pos, "candidates %v: %s (%s)", base, why, outDesc(o))
	if lim != "" {
		given[lim] = true
	}
	if noLabels {
		given["labels"] = true
	}
	if noProps {
		given["property values"] = true
	}
	if d.k != "filter" {
		c.ob(rule, con, given["labels"] && given["property values"], pos, "gives all of %v although more is required (%s)", base, outDesc(o))
		return
	}
	c.ob(rule, con, d.sub[0] == base, pos, "undecided: nested filters")
	lm := func(st *State) *Term { return c.setM(st, set) }
	pm := func(st *State) *Term { return st.canon(pr) }
	c.filterClosure(rule, con, e, s, d.a[0], edge, true, lm, pm, given, pos)
}

func init() {
	reg("C08", "Abstract interpretation of the node and edge filter closures on a symbolic candidate: every accepting path has seen all requested labels and every requested property (loop completeness, per-iteration verdict of the comparison or of absence against nil), every rejecting path has a counterexample or a comparison that panicked and was recovered; no path panics.", 9, func(c *Ctx) {
		c.checkFilterFuncs("filter")
		c.checkSetQueries("labelset", "StringSet.Has", "StringSet.HasAllSet", "StringSet.HasAny", "StringSet.HasAll", "StringSet.HasAnySet")
		c.checkGetProperty("get-property")
	})
	reg("C07", "Abstract interpretation of the find queries: the returned iterator is decomposed into candidates and filter; candidates must contain every element satisfying the request on every path (all elements, the elements of the required labels, or an index lookup of a required non-nil value), and the filter closure must decide whatever the candidates do not guarantee. Index lookups and label lookups are verified by the rules of C03 to C05.", 20, func(c *Ctx) {
		c.checkFind("find")
		c.checkFilterFuncs("filter")
		c.checkIndexAccess("index-access")
		c.checkNodeMapLookups("node-lookup")
		c.checkEdgeLabelLookup()
		c.checkIterators("filter-iterator", "filterIterator")
	})
}

// checkGetProperty: the accessor the filters use.
func (c *Ctx) checkGetProperty(rule string) {
	t := c.lt()
	for _, q := range []struct {
		name string
		typ  types.Type
	}{{"Node.GetProperty", t.node}, {"Edge.GetProperty", t.edge}} {
		q := q
		if c.w.fn(q.name) == nil {
			continue
		}
		c.guard(rule, q.name, func() {
			fn := c.fn(q.name)
			e, outs := c.run(fn, nil, func(e *Eng, st *State, args []*Term) { st.nn[args[0]] = true })
			recv := e.tt.Param(fn.Params[0].Name(), fn.Params[0].Type())
			key := e.tt.Param(fn.Params[1].Name(), fn.Params[1].Type())
			for _, o := range outs {
				if o.panic {
					c.fail(rule, q.name, o.pos, "may panic: %s", o.panicIs)
					continue
				}
				s := o.st
				P := s.canon(s.get(recv, q.typ, "properties"))
				h, k := c.hasKey(s, P, key)
				v, has := s.mapLookup(P, key, nil)
				b, bk := s.evalBool(s.canon(o.ret[1]))
				c.ob(rule, q.name, k && bk && h == b || s.canon(o.ret[1]) == s.canon(has), fn.Pos(), "reports %v", o.ret)
				if !(k && !h) {
					c.ob(rule, q.name, s.canon(o.ret[0]) == s.canon(v), fn.Pos(), "gives %v", o.ret[0])
				}
			}
		})
	}
}

// isField: v is a field of base, as its address or as its value.
func (c *Ctx) isField(st *State, v, base *Term, typ types.Type, path string) bool {
	v = st.canon(v)
	a := st.e.fld(base, typ, path)
	if v == a {
		return true
	}
	return v == st.canon(st.load(a, fieldType(typ, path)))
}
