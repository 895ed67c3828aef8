package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// edgeListAtoms treats edgeList.add and remove as primitives that maintain n
// (their shape is checked by checkList).
func (c *Ctx) edgeListAtoms() Hook {
	el := types.NewPointer(c.typ("edgeList"))
	return func(e *Eng, st *State, ci *CallInfo) ([]CallRes, bool) {
		if ci.fn == nil || ci.name != "edgeList.add" && ci.name != "edgeList.remove" {
			return nil, false
		}
		l := ci.args[0]
		if !e.deref(st, l, ci.pos) {
			return []CallRes{{st: st, panic: true}}, true
		}
		st.event(&Event{kind: EvCall, name: ci.name, fn: ci.fn, args: ci.args, res: e.tt.Tuple(), pos: ci.pos})
		na := e.fld(l, el, "n")
		n := st.load(na, types.Typ[types.Int])
		if ci.name == "edgeList.add" {
			st.assume(e.tt.lt(n, e.tt.Int(0)), false)
			st.store(na, e.add(n, e.tt.Int(1)), types.Typ[types.Int])
		} else {
			st.assume(e.tt.lt(n, e.tt.Int(1)), false)
			st.store(na, e.add(n, e.tt.Int(-1)), types.Typ[types.Int])
		}
		return []CallRes{{st: st, val: e.tt.Tuple()}}, true
	}
}

type emCtx struct {
	em              types.Type
	ell             types.Type
	edge            types.Type
	lists, lmap, on *Term // field addresses
	n               *Term
}

func (c *Ctx) emFields(e *Eng, em *Term) emCtx {
	t := types.NewPointer(c.typ("edgeMap"))
	return emCtx{em: t, ell: types.NewPointer(c.typ("edgeLabelList")), edge: types.NewPointer(c.typ("Edge")),
		lists: e.fld(em, t, "edgeLabelLists"), lmap: e.fld(em, t, "labelMap"), on: e.fld(em, t, "only"), n: e.fld(em, t, "n")}
}

// ellOf matches &X.edges for a label list X and gives X.
func (c *Ctx) ellOf(t *Term) *Term {
	if t.op == OpField && t.name == "edges" {
		return t.args[0]
	}
	return nil
}

// labelListLookup matches the value of an entry of the label map:
// as:*edgeLabelList(mapget(m,k).Value); gives the map and the key.
func (c *Ctx) labelListLookup(t *Term) (m, k *Term, ok bool) {
	v, _, ok := asOf(t)
	if !ok {
		return nil, nil, false
	}
	el, ok := fieldInit(v, "Value")
	if !ok || !app(el, "mapget") {
		return nil, nil, false
	}
	return el.args[0], el.args[1], true
}

// checkEdgeMap verifies edgeMap.add and remove against the representation
// invariant:
//
//	n==0: nothing held, label map empty
//	n==1: only is the edge, label map empty
//	n>=2: the edges are in the lists of the label map, each under its label;
//	      the label map and the list of lists hold the same lists, none empty
func (c *Ctx) checkEdgeMap() {
	addFn, remFn := c.fn("edgeMap.add"), c.fn("edgeMap.remove")
	hook := hooks(stdModel, c.edgeListAtoms())
	reinit := true // add to a single-edge map starts with new lists
	c.guard("edgemap-add", "edgeMap.add with no edges", func() {
		con := "edgeMap.add with no edges"
		e, outs := c.runEM(addFn, hook, 0, 0)
		for _, o := range outs {
			if o.panic {
				c.fail("edgemap-add", con, o.pos, "may panic: %s", o.panicIs)
				continue
			}
			x := c.emFields(e, e.tt.Param("em", nil))
			edge := e.tt.Param("edge", nil)
			s := o.st
			c.ob("edgemap-add", con, s.load(x.on, x.edge) == edge, addFn.Pos(), "the single edge is not recorded: only is %v", s.load(x.on, x.edge))
			c.ob("edgemap-count", con, s.load(x.n, types.Typ[types.Int]) == e.tt.Int(1), addFn.Pos(), "count becomes %v, not 1", s.load(x.n, types.Typ[types.Int]))
			for _, ev := range flat(s) {
				if ev.isCall("edgeList.add", "edgeList.remove") || ev.kind == EvMapUpd {
					c.fail("edgemap-add", con, ev.pos, "the label lists change although the map holds a single edge")
				}
			}
		}
	})
	c.guard("edgemap-add", "edgeMap.add with one edge", func() {
		con := "edgeMap.add with one edge"
		e, outs := c.runEM(addFn, hook, 1, 1)
		x := c.emFields(e, e.tt.Param("em", nil))
		edge := e.tt.Param("edge", nil)
		only := e.tt.Init(x.on, x.edge)
		for _, o := range outs {
			if o.panic {
				c.fail("edgemap-add", con, o.pos, "may panic: %s", o.panicIs)
				continue
			}
			s := o.st
			c.ob("edgemap-count", con, s.load(x.n, types.Typ[types.Int]) == e.tt.Int(2), addFn.Pos(), "count becomes %v, not 2", s.load(x.n, types.Typ[types.Int]))
			c.emAdds(e, o, x, con, addFn, []*Term{edge, only})
			if r := s.load(x.lists, nil2list(c)).root(); r == x.lists.root() {
				reinit = false
			}
			if l := s.load(x.lists, nil2list(c)); l.op == OpInit {
				reinit = false
			}
		}
	})
	c.guard("edgemap-add", "edgeMap.add with two or more edges", func() {
		con := "edgeMap.add with two or more edges"
		e, outs := c.runEM(addFn, hook, 2, -1)
		x := c.emFields(e, e.tt.Param("em", nil))
		edge := e.tt.Param("edge", nil)
		n0 := e.tt.Init(x.n, nil)
		for _, o := range outs {
			if o.panic {
				c.fail("edgemap-add", con, o.pos, "may panic: %s", o.panicIs)
				continue
			}
			s := o.st
			c.ob("edgemap-count", con, s.load(x.n, types.Typ[types.Int]) == s.canon(e.add(n0, e.tt.Int(1))), addFn.Pos(), "count becomes %v, not one more", s.load(x.n, types.Typ[types.Int]))
			c.emAdds(e, o, x, con, addFn, []*Term{edge})
		}
	})
	c.guard("edgemap-remove", "edgeMap.remove of the single edge", func() {
		con := "edgeMap.remove of the single edge"
		e, outs := c.runEM(remFn, hook, 1, 1, func(e *Eng, st *State, x emCtx) {
			st.mem[x.on] = e.tt.Param("edge", x.edge)
		})
		x := c.emFields(e, e.tt.Param("em", nil))
		for _, o := range outs {
			if o.panic {
				c.fail("edgemap-remove", con, o.pos, "may panic: %s", o.panicIs)
				continue
			}
			s := o.st
			c.ob("edgemap-count", con, s.load(x.n, types.Typ[types.Int]) == e.tt.Int(0), remFn.Pos(), "count becomes %v, not 0", s.load(x.n, types.Typ[types.Int]))
			for _, ev := range flat(s) {
				if ev.isCall("edgeList.add", "edgeList.remove") || ev.kind == EvMapUpd {
					c.fail("edgemap-remove", con, ev.pos, "the label lists change although the map holds a single edge")
				}
			}
		}
	})
	c.guard("edgemap-remove", "edgeMap.remove with two or more edges", func() {
		con := "edgeMap.remove with two or more edges"
		e, outs := c.runEM(remFn, hook, 2, -1, func(e *Eng, st *State, x emCtx) {
			// the edge is in the map, so its label is
			lm := st.load(x.lmap, fieldType(x.em, "labelMap"))
			lbl := st.get(e.tt.Param("edge", x.edge), x.edge, "label")
			v, has := st.mapLookup(lm, lbl, fieldType(x.em, "labelMap").Underlying().(*types.Map).Elem())
			st.assume(has, true)
			st.nn[v] = true
		})
		x := c.emFields(e, e.tt.Param("em", nil))
		edge := e.tt.Param("edge", nil)
		n0 := e.tt.Init(x.n, nil)
		lm0 := e.tt.Init(x.lmap, nil)
		lists0 := e.tt.Init(x.lists, nil)
		intT := types.Typ[types.Int]
		sawOne, sawMany := false, false
		for _, o := range outs {
			if o.panic {
				c.fail("edgemap-remove", con, o.pos, "may panic: %s", o.panicIs)
				continue
			}
			s := o.st
			nrem := 0
			var ell *Term
			deleted, unlisted := false, false
			for _, ev := range flat(s) {
				switch {
				case ev.isCall("edgeList.remove"):
					nrem++
					ell = c.ellOf(ev.args[0])
					var m, k *Term
					ok := false
					if ell != nil {
						m, k, ok = c.labelListLookup(ell)
					}
					lbl := s.canon(s.get(edge, x.edge, "label"))
					c.ob("edgemap-remove", con, ok && m == lm0 && k == lbl && ev.args[1] == edge && len(ev.path) == 0, ev.pos,
						"the edge is not removed from the list of its own label: %v from %v", ev.args[1], ev.args[0])
					c.ob("edgemap-index", con, ev.args[2] == e.tt.Param("listIndex", nil), ev.pos, "list index %v is used instead of the caller's", ev.args[2])
				case ev.isCall("edgeList.add"):
					c.fail("edgemap-remove", con, ev.pos, "an edge is added")
				case ev.kind == EvMapDel && ev.args[0] == lm0:
					deleted = ev.args[1] == s.canon(s.get(edge, x.edge, "label")) || app(ev.args[1], "all")
				case ev.isCall("(*container/list.List).Remove") && ev.args[0] == lists0:
					elA, ok := fieldInit(ev.args[1], "elem")
					unlisted = ok && elA == ell || ell != nil && c.elemOfEll(ev.args[1], ell)
				}
			}
			c.ob("edgemap-remove", con, nrem == 1, remFn.Pos(), "the edge is removed from %d lists instead of one (%s)", nrem, outDesc(o))
			n1 := s.load(x.n, intT)
			c.ob("edgemap-count", con, s.canon(n1) == s.canon(e.add(n0, e.tt.Int(-1))), remFn.Pos(), "count becomes %v, not one less", n1)
			if ell == nil {
				continue
			}
			// is the label list empty now?
			en := s.load(e.fld(ell, x.ell, "edges.n"), intT)
			iv := s.ivalOf(en)
			zero := iv.hasHi && iv.hi <= 0
			some := iv.hasLo && iv.lo >= 1
			one := false
			if v, ok := s.canon(n0).constInt(); ok && v == 2 {
				one = true
			}
			many := s.ivalOf(s.canon(n0)).hasLo && s.ivalOf(s.canon(n0)).lo >= 3
			if !one && !many {
				// the code does not tell one remaining edge from more
				c.fail("edgemap-collapse", con, remFn.Pos(), "does not distinguish one remaining edge from several (%s)", outDesc(o))
				continue
			}
			if many {
				sawMany = true
				if !zero && !some {
					c.fail("edgemap-emptylist", con, remFn.Pos(), "does not check whether the label list became empty (%s)", outDesc(o))
				}
				if zero {
					c.ob("edgemap-emptylist", con, deleted, remFn.Pos(), "the emptied label list stays in the label map")
					c.ob("edgemap-emptylist", con, unlisted, remFn.Pos(), "the emptied label list stays in the list of label lists")
				}
				if some {
					c.ob("edgemap-emptylist", con, !deleted && !unlisted, remFn.Pos(), "a label list with edges is dropped")
				}
				c.ob("edgemap-collapse", con, s.load(x.lmap, nil2map(c)) == lm0 && s.load(x.lists, nil2list(c)) == lists0, remFn.Pos(), "the label lists are replaced while several edges remain")
				continue
			}
			if c.leftAtOnce(s, lm0) {
				continue // the label map still lists the remaining edge's label
			}
			sawOne = true
			// one edge remains
			ov := s.load(x.on, x.edge)
			good := 0
			for _, l := range e.provLeaves(ov) {
				l = s.canon(l)
				if l.isNil() || l == e.tt.Init(x.on, nil) {
					continue // not reached: the label map is not empty
				}
				if c.remaining(e, l, lm0, lists0, ell, !zero) {
					good++
				} else {
					c.fail("edgemap-collapse", con, remFn.Pos(), "with one edge left, it is taken from %v", l)
				}
			}
			c.ob("edgemap-collapse", con, good > 0, remFn.Pos(), "with one edge left, it is not recorded as the only edge (only is %v)", ov)
			if zero {
				c.ob("edgemap-collapse", con, deleted || s.load(x.lmap, nil2map(c)) != lm0 && false || deleted, remFn.Pos(), "the emptied label list may be taken for the remaining edge's")
			}
			// label map is empty again
			lm1 := s.load(x.lmap, nil2map(c))
			empty := lm1.isNil() || lm1.op == OpNew && s.maps[lm1] == nil
			if lm1 == lm0 {
				for _, ev := range flat(s) {
					if ev.kind == EvMapDel && ev.args[0] == lm0 && (app(ev.args[1], "all") || len(ev.path) > 0) {
						empty = true
					}
				}
			}
			c.ob("edgemap-collapse", con, empty, remFn.Pos(), "with one edge left, the label map still lists labels")
			ll := s.load(x.lists, nil2list(c))
			if !(ll.isNil() || ll != lists0) && !reinit {
				c.fail("edgemap-collapse", con, remFn.Pos(), "with one edge left, the list of label lists is neither cleared nor renewed when the next edge is added")
			}
		}
		c.ob("edgemap-collapse", con, sawOne && sawMany, remFn.Pos(), "no path for one or for several remaining edges")
	})
}

// leftAtOnce: a range over the map that never comes round to its head was left
// there, which only happens with an empty map.
func (c *Ctx) leftAtOnce(s *State, m *Term) bool {
	for _, ev := range s.tr.list() {
		if ev.kind != EvIter || s.canon(ev.args[0]) != m || s.yes(ev.res) || !s.no(ev.res) {
			continue
		}
		round := false
		for _, l := range s.tr.list() {
			if l.kind != EvLoop || l.loop == nil {
				continue
			}
			for _, g := range l.loop.segs {
				for _, x := range g.st.tr.list() {
					if x.kind == EvIter && x.pos == ev.pos {
						round = true
					}
				}
			}
		}
		if !round {
			return true
		}
	}
	return false
}

// elemOfEll: the element under which a label list is kept.
func (c *Ctx) elemOfEll(el, ell *Term) bool {
	// mapget(m,k) whose Value is ell
	v, _, ok := asOf(ell)
	if !ok {
		return false
	}
	b, ok := fieldInit(v, "Value")
	return ok && b == el
}

// remaining: l is the first edge of a label list that is still in the map.
func (c *Ctx) remaining(e *Eng, l, lm0, lists0, ell *Term, ellStays bool) bool {
	if l.op != OpInit {
		return false
	}
	a := l.args[0]
	if a.op != OpField || a.name != "head" && a.name != "tail" {
		return false
	}
	x := c.ellOf(a.args[0])
	if x == nil {
		return false
	}
	if x == ell {
		return ellStays
	}
	v, _, ok := asOf(x)
	if !ok {
		return false
	}
	el, ok := fieldInit(v, "Value")
	if !ok {
		return false
	}
	if app(el, "mapget") && el.args[0] == lm0 && el.args[1].op == OpUnk {
		return true
	}
	if (app(el, "list.Front") || app(el, "list.Back")) && el.args[0] == lists0 {
		return true
	}
	if el.op == OpUnk && e.tt.prov[el] != nil {
		for _, lf := range e.provLeaves(el) {
			if !(app(lf, "mapget") && lf.args[0] == lm0) && !lf.isNil() {
				return false
			}
		}
		return true
	}
	return false
}

func nil2map(c *Ctx) types.Type  { return fieldType(c.typ("edgeMap"), "labelMap") }
func nil2list(c *Ctx) types.Type { return fieldType(c.typ("edgeMap"), "edgeLabelLists") }

// runEM runs fn(em, edge, listIndex) on an edge map holding lo..hi edges.
func (c *Ctx) runEM(fn *ssa.Function, hook Hook, lo, hi int64, more ...func(e *Eng, st *State, x emCtx)) (*Eng, []Outcome) {
	e := newEng(c.w)
	e.hook = hook
	st := e.newState()
	em := e.tt.Param("em", types.NewPointer(c.typ("edgeMap")))
	edge := e.tt.Param("edge", types.NewPointer(c.typ("Edge")))
	ix := e.tt.Param("listIndex", types.Typ[types.Int])
	st.nn[em], st.nn[edge] = true, true
	x := c.emFields(e, em)
	intT := types.Typ[types.Int]
	n := e.tt.Init(x.n, intT)
	lm := e.tt.Init(x.lmap, nil2map(c))
	ll := e.tt.Init(x.lists, nil2list(c))
	only := e.tt.Init(x.on, x.edge)
	switch {
	case lo == hi:
		st.mem[x.n] = e.tt.Int(lo)
		if lo == 0 {
			st.mem[x.on] = e.tt.Nil()
		} else {
			st.nn[only] = true
			st.facts[e.tt.eq(only, edge)] = false
		}
		// nil or empty
		ln := e.tt.App("len", intT, lm, e.tt.Int(0))
		st.iv[ln] = ival{hasLo: true, hasHi: true}
	default:
		st.iv[n] = ival{hasLo: true, lo: lo}
		st.nn[lm], st.nn[ll] = true, true
	}
	for _, f := range more {
		f(e, st, x)
	}
	var args []*Term
	for i, p := range fn.Params {
		switch {
		case i == 0:
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				args = append(args, em)
			} else {
				args = append(args, st.load(em, p.Type()))
			}
		case typeKey(p.Type()) == "*lpg.Edge":
			args = append(args, edge)
		case isInt(p.Type()):
			args = append(args, ix)
		default:
			args = append(args, e.tt.Param(p.Name(), p.Type()))
		}
	}
	return e, c.runArgs(e, fn, args, st)
}

// emAdds checks that exactly the given edges are put into lists registered
// under their labels.
func (c *Ctx) emAdds(e *Eng, o Outcome, x emCtx, con string, fn *ssa.Function, want []*Term) {
	s := o.st
	lm1 := s.load(x.lmap, nil2map(c))
	lists1 := s.load(x.lists, nil2list(c))
	left := map[*Term]int{}
	for _, w := range want {
		left[s.canon(w)]++
	}
	evs := flat(s)
	for _, ev := range evs {
		if ev.isCall("edgeList.remove") {
			c.fail("edgemap-add", con, ev.pos, "an edge is removed")
		}
		if ev.kind == EvDeref {
			if ev.args[0] == e.tt.Init(x.lists, nil) || ev.args[0] == e.tt.Init(x.lmap, nil) {
				c.fail("edgemap-add", con, ev.pos, "the label lists may not exist yet")
			}
		}
		if !ev.isCall("edgeList.add") {
			continue
		}
		edge := ev.args[1]
		left[edge]--
		if left[edge] < 0 {
			c.fail("edgemap-add", con, ev.pos, "edge %v is added more than once", edge)
			continue
		}
		c.ob("edgemap-index", con, ev.args[2] == e.tt.Param("listIndex", nil), ev.pos, "list index %v is used instead of the caller's", ev.args[2])
		lbl := s.canon(s.get(edge, x.edge, "label"))
		ell := c.ellOf(ev.args[0])
		if ell == nil {
			c.fail("edgemap-add", con, ev.pos, "added to %v, which is not a label list", ev.args[0])
			continue
		}
		if m, k, ok := c.labelListLookup(ell); ok {
			c.ob("edgemap-add", con, m == lm1 && k == lbl, ev.pos, "edge is added to the list of label %v, its label is %v", k, lbl)
			continue
		}
		// a new list: must be registered under the label and pushed
		pushed := false
		var el *Term
		for _, p := range evs {
			if p.isCall("(*container/list.List).PushBack", "(*container/list.List).PushFront") && strip(p.args[1]) == ell {
				pushed = p.args[0] == lists1
				el = p.res
			}
		}
		c.ob("edgemap-add", con, pushed, ev.pos, "a new label list is not put on the list of label lists")
		reg := false
		for _, p := range evs {
			if p.kind == EvMapUpd && p.args[0] == lm1 {
				if s.canon(p.args[1]) == lbl && p.args[2] == el {
					reg = true
				}
			}
		}
		c.ob("edgemap-add", con, reg, ev.pos, "a new label list is not registered under the label %v of its edge", lbl)
		if el != nil {
			ea := s.load(e.fld(ell, x.ell, "elem"), fieldType(x.ell, "elem"))
			c.ob("edgemap-add", con, ea == el, ev.pos, "a new label list does not know its own element")
		}
	}
	for t, k := range left {
		c.ob("edgemap-add", con, k == 0, fn.Pos(), "edge %v is not added to any list (%s)", t, outDesc(o))
	}
	// nothing else is put into the label map
	for _, p := range evs {
		if p.kind == EvMapUpd && p.args[0] == lm1 {
			ok := false
			for _, w := range want {
				if s.canon(s.get(s.canon(w), x.edge, "label")) == s.canon(p.args[1]) {
					ok = true
				}
			}
			c.ob("edgemap-add", con, ok, p.pos, "label %v is registered without an edge", p.args[1])
		}
	}
}
