package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// runClos runs a closure (or function value) in a state.
func (c *Ctx) runClos(e *Eng, s *State, f *Term, args ...*Term) []Outcome {
	f = s.canon(f)
	if f.op != OpClos && f.op != OpFunc {
		panic(anchorErr("not a closure: " + f.String()))
	}
	st := s.clone()
	st.tr = nil
	st.frames = nil
	outs := e.call(f.fn, args, f.args, st, "clos")
	c.account(e, outs)
	if e.over {
		panic(anchorErr("analysis budget exceeded in " + fnName(f.fn)))
	}
	var live []Outcome
	for _, o := range outs {
		if !o.st.dead {
			live = append(live, o)
		}
	}
	if len(live) == 0 {
		panic(anchorErr("no outcome of " + fnName(f.fn)))
	}
	return live
}

// allLabelsPred: the filter accepts exactly the nodes having all labels of a
// set.
func (c *Ctx) allLabelsPred(rule, con string, e *Eng, s *State, f *Term, labels func(st *State) *Term, pos token.Pos) {
	t := c.lt()
	n := e.tt.Unk("candidate", t.node)
	s = s.clone()
	s.nn[n] = true
	outs := c.runClos(e, s, f, e.tt.Iface(t.node, n))
	c.quantifier(rule, con, e, outs, pos, true, func(st *State, it *Iter) bool {
		return it.kind == "map" && it.coll == labels(st)
	}, func(st *State) bool { return st.emptyMap(labels(st)) }, func(st *State, it *Iter) (bool, bool) {
		return c.hasKey(st, st.canon(st.get(n, t.node, "labels.M")), st.canon(it.key))
	}, func(st *State) bool { return c.fewer(st, st.canon(st.get(n, t.node, "labels.M")), labels(st)) })
}

// labelSetAccess: the set base was looked up in the label map lm for one of
// the labels of m.
func (c *Ctx) labelSetAccess(e *Eng, st *State, base, lm, m *Term) bool {
	leaves := e.provLeaves(st.canon(base))
	n := 0
	for _, l := range leaves {
		l = st.canon(l)
		if l.isNil() {
			continue
		}
		g := setOfLabel(st, l)
		if g == nil || st.canon(g.args[0]) != lm {
			return false
		}
		k := strip(st.canon(g.args[1]))
		ok := false
		for _, x := range flat(st) {
			if x.kind == EvIter && x.st.canon(x.args[0]) == m && x.args[1] == k {
				ok = true
			}
		}
		if !ok && !st.present(m, k) {
			return false
		}
		n++
	}
	return n > 0 && st.nonNil(st.canon(base))
}

// fsOf: the address of a fastSet given by address or by value.
func fsOf(t *Term) *Term {
	if b := setOf(nil, t); b != nil {
		return b
	}
	return t
}

func (c *Ctx) checkNodeMapLookups(rule string) {
	t := c.lt()
	nm := types.NewPointer(c.typ("NodeMap"))
	_ = nm
	c.guard(rule, "NodeMap.IteratorAllLabels", func() {
		con := "NodeMap.IteratorAllLabels"
		fn := c.fn(con)
		e := newEng(c.w)
		e.hook = hooks(stdModel, atoms("fastSet.iterator", "fastSet.size", "NodeMap.Iterator"))
		st := e.newState()
		var args []*Term
		for _, p := range fn.Params {
			args = append(args, e.tt.Param(p.Name(), p.Type()))
		}
		recv, labels := args[0], args[1]
		outs := c.runArgs(e, fn, args, st)
		m := c.setM(st, labels)
		for _, o := range outs {
			if o.panic {
				c.fail(rule, con, o.pos, "may panic: %s", o.panicIs)
				continue
			}
			s := o.st
			lm := s.canon(s.load2(recv, "m", c.typ("NodeMap")))
			d := c.den(e, s, o.ret[0])
			em := s.emptyMap(m)
			lo := s.ivalOf(s.mapLen(m))
			nonEmpty := lo.hasLo && lo.lo > 0
			switch d.k {
			case "call:NodeMap.Iterator":
				c.ob(rule, con, em, fn.Pos(), "all nodes are given although labels are required (%s)", outDesc(o))
			case "empty":
				missing := false
				for _, x := range top(s) {
					if x.isCall(lhm+"Get") && x.args[0] == lm && x.res.op == OpTuple {
						if b, k := s.evalBool(s.canon(x.res.args[1])); k && !b && c.keyOfRange(s, m, strip(x.args[1])) {
							missing = true
						}
					}
				}
				c.ob(rule, con, missing, fn.Pos(), "nothing is given although every required label may have nodes (%s)", outDesc(o))
			case "filter":
				c.ob(rule, con, nonEmpty || !em, fn.Pos(), "undecided: a filter for no labels")
				in := d.sub[0]
				ok := in.k == "call:fastSet.iterator" && c.labelSetAccess(e, s, fsOf(in.a[0]), lm, m)
				c.ob(rule, con, ok, fn.Pos(), "the candidates %v are not the nodes of one of the required labels", in)
				e.steps = 0
				c.allLabelsPred(rule, con, e, s, d.a[0], func(st *State) *Term { return st.canon(m) }, fn.Pos())
			case "call:fastSet.iterator":
				// one label only: its set
				c.ob(rule, con, lo.hasLo && lo.hasHi && lo.lo == 1 && lo.hi == 1 && c.labelSetAccess(e, s, fsOf(d.a[0]), lm, m), fn.Pos(), "the nodes of one label are given although more may be required")
			default:
				c.fail(rule, con, fn.Pos(), "undecided: gives %v", d)
			}
		}
	})
	c.guard(rule, "NodeMap.Iterator", func() {
		con := "NodeMap.Iterator"
		fn := c.fn(con)
		e := newEng(c.w)
		e.hook = stdModel
		st := e.newState()
		recv := e.tt.Param(fn.Params[0].Name(), fn.Params[0].Type())
		for _, o := range c.runArgs(e, fn, []*Term{recv}, st) {
			if o.panic {
				c.fail(rule, con, o.pos, "may panic: %s", o.panicIs)
				continue
			}
			s := o.st
			lm := s.canon(s.load2(recv, "m", c.typ("NodeMap")))
			nl := s.canon(s.load2(s.load2(recv, "nolabels", c.typ("NodeMap")), "l", c.typ("fastSet")))
			d := c.den(e, s, o.ret[0])
			if d.k != "concat" {
				c.fail(rule, con, fn.Pos(), "undecided: gives %v", d)
				continue
			}
			labeled, unlabeled := 0, 0
			for _, p := range d.sub {
				switch {
				case p.k == "filter" && p.sub[0].k == "labels":
					labeled++
					it := whole(s.canon(s.load(p.sub[0].a[0], elemType(p.sub[0].a[0]))))
					ok := it.op == OpUnk && s.callOf(it) != nil && s.callOf(it).name == lhm+"Iterator" && s.canon(s.callOf(it).args[0]) == lm
					c.ob(rule, con, ok, fn.Pos(), "the labels are taken from %v, not from the index", it)
					e.steps = 0
					c.firstLabelPred(rule, con, e, s, p.a[0], strip(p.sub[0].t), fn.Pos())
				case p.k == "list":
					unlabeled++
					c.ob(rule, con, app(p.a[0], "list.Front") && p.a[0].args[0] == nl, fn.Pos(), "%v is given instead of the unlabeled nodes", p)
				case p.k == "empty":
				default:
					c.fail(rule, con, fn.Pos(), "undecided: part %v", p)
				}
			}
			c.ob(rule, con, labeled == 1 && unlabeled == 1, fn.Pos(), "labeled nodes are given %d times, unlabeled ones %d times", labeled, unlabeled)
		}
	})
	c.guard(rule, "nodeMapIterator.Next records labels", func() {
		con := "nodeMapIterator.Next records labels"
		fn := c.fn("nodeMapIterator.Next")
		nmi := types.NewPointer(c.typ("nodeMapIterator"))
		e := newEng(c.w)
		e.hook = hooks(itrModel, stdModel)
		st := e.newState()
		p := e.tt.Param("itr", nmi)
		st.nn[p] = true
		st0 := st.clone()
		outs := c.runArgs(e, fn, []*Term{p}, st)
		lab := e.tt.Init(e.fld(p, nmi, "labels"), nil)
		for _, o := range outs {
			if o.panic {
				c.fail(rule, con, o.pos, "may panic: %s", o.panicIs)
				continue
			}
			for _, tr := range pieces(st0, o.st.tr.list(), o.st, true) {
				s := tr.to
				p0, p1 := s.canon(e.ghost(tr.from, s.canon(lab))), s.canon(e.ghost(s, s.canon(lab)))
				s0, s1 := s.canon(tr.from.get(p, nmi, "seenLabels")), s.canon(s.get(p, nmi, "seenLabels"))
				if p0 == p1 {
					c.ob(rule, con, s0 == s1, fn.Pos(), "the labels seen change without a new label")
					continue
				}
				m, k := s.evalBool(s.canon(e.tt.App("more", types.Typ[types.Bool], s.canon(lab), p1)))
				if k && !m {
					c.ob(rule, con, s0 == s1, fn.Pos(), "the labels seen change without a new label")
					continue
				}
				key := s.canon(e.tt.App("keyof", nil, s.canon(lab), p1))
				ok := k && app(s1, "append") && len(s1.args) == 2 && s1.args[0] == s0
				if ok {
					x := s1.args[1]
					if y, _, isAs := asOf(x); isAs {
						x = y
					}
					ok = x == key
				}
				c.ob(rule, con, ok, fn.Pos(), "a new label is not recorded once: %v becomes %v", s0, s1)
			}
		}
	})
	c.guard(rule, "Graph.GetNodesWithAllLabels", func() {
		con := "Graph.GetNodesWithAllLabels"
		fn := c.fn(con)
		e, outs := c.run(fn, hooks(stdModel, atoms("NodeMap.IteratorAllLabels")), func(e *Eng, st *State, args []*Term) { st.nn[args[0]] = true })
		g, set := e.tt.Param(fn.Params[0].Name(), nil), e.tt.Param(fn.Params[1].Name(), nil)
		for _, o := range outs {
			if o.panic {
				c.fail(rule, con, o.pos, "may panic: %s", o.panicIs)
				continue
			}
			d := c.den(e, o.st, o.ret[0])
			ok := d.k == "call:NodeMap.IteratorAllLabels" && c.setM(o.st, d.a[1]) == c.setM(o.st, set) && c.nodeMapOf(o.st, d.a[0], g)
			c.ob(rule, con, ok, fn.Pos(), "gives %v", d)
		}
	})
	_ = t
	c.checkIterators(rule, "nodeMapIterator", "filterIterator", "listIterator", "funcIterator", "iteratorWithSize")
}

// nodeMapOf: v is the label index of graph g (by address or by value).
func (c *Ctx) nodeMapOf(st *State, v, g *Term) bool {
	v = st.canon(v)
	if b := fieldBase(v, "nodesByLabel"); b != nil {
		return graphOfIndex(b) == g
	}
	if v.op == OpStruct && len(v.args) > 0 {
		if b := fieldBase(v.args[0], "nodesByLabel"); b != nil {
			return graphOfIndex(b) == g
		}
	}
	return false
}

// keyOfRange: k is the key of a range step over m.
func (c *Ctx) keyOfRange(st *State, m, k *Term) bool {
	for _, x := range flat(st) {
		if x.kind == EvIter && x.args[0] == x.st.canon(m) && x.args[1] == k {
			return true
		}
	}
	return false
}

// firstLabelPred: the filter of the all-nodes iterator accepts a node exactly
// when at most one of the labels seen so far is its own, so that each node is
// given for the first of its labels only.
func (c *Ctx) firstLabelPred(rule, con string, e *Eng, s *State, f, itr *Term, pos token.Pos) {
	t := c.lt()
	nmi := types.NewPointer(c.typ("nodeMapIterator"))
	s = s.clone()
	n := e.tt.Unk("candidate", t.node)
	s.nn[n] = true
	slT := types.NewSlice(types.Typ[types.String])
	seen := e.tt.Unk("seen", slT)
	s.mem[s.canon(e.fld(itr, nmi, "seenLabels"))] = seen
	outs := c.runClos(e, s, f, e.tt.Iface(t.node, n))
	for _, o := range outs {
		if o.panic {
			c.fail(rule, con, o.pos, "the filter may panic: %s", o.panicIs)
			continue
		}
		r, known := o.st.evalBool(o.st.canon(o.ret[0]))
		if !known {
			c.fail(rule, con, pos, "undecided: the filter answers %v", o.ret[0])
			continue
		}
		evs := o.st.tr.list()
		loops := 0
		has := func(st *State, key *Term) (bool, bool) {
			el := st.load(e.elemAddr(st.canon(seen), key, types.Typ[types.String]), types.Typ[types.String])
			return c.hasKey(st, st.canon(st.get(n, t.node, "labels.M")), st.canon(el))
		}
		for i, ev := range evs {
			if ev.kind != EvLoop {
				continue
			}
			it := e.iterOf(evs, i, o.st)
			if len(ev.loop.segs) == 0 {
				continue
			}
			if it.kind != "slice" || it.coll != o.st.canon(seen) || !it.from0 {
				c.fail(rule, con, ev.pos, "undecided: loop over %v %v", it.kind, it.coll)
				continue
			}
			loops++
			// how many own labels were seen, per kind of loop state; more
			// precisely by a counter if there is one
			lo, hi := c.countHits(e, ev.loop, func(sg *Seg) (bool, bool) { return has(sg.st, it.key) })
			cnt := c.counterOf(e, ev.loop, func(sg *Seg) (bool, bool) { return has(sg.st, it.key) })
			l, h := lo[ev.key], hi[ev.key]
			if cnt != nil {
				if iv := o.st.ivalOf(o.st.canon(ev.loop.hdr[ev.key].top().env[cnt])); true {
					if iv.hasLo && int(iv.lo) > l {
						l = int(iv.lo)
					}
					if iv.hasHi && int(iv.hi) < h {
						h = int(iv.hi)
					}
				}
			}
			if it.complete {
				if r {
					c.ob(rule, con, h <= 1, ev.pos, "a node with two of the labels seen may be given again")
				} else {
					c.ob(rule, con, l >= 2, ev.pos, "a node with one of the labels seen may be dropped")
				}
				continue
			}
			// decided within an iteration
			ct := e.control(evs[i+1:], o.st)
			v, k := has(o.st, ct.key)
			if k && v {
				l, h = l+1, h+1
			}
			c.ob(rule, con, !r && k && l >= 2, ev.pos, "answers %v after at least %d labels of the node were seen", r, l)
		}
		if loops == 0 {
			c.ob(rule, con, r && e.emptySlice(o.st, seen), pos, "answers %v without looking at the labels seen", r)
		}
	}
}

// countHits bounds, for each header partition of a loop, how many iterations
// so far satisfied a predicate (capped at 2).
func (c *Ctx) countHits(e *Eng, L *Loop, hit func(sg *Seg) (bool, bool)) (lo, hi map[string]int) {
	lo, hi = map[string]int{L.entry: 0}, map[string]int{L.entry: 0}
	for changed := true; changed; {
		changed = false
		for _, sg := range L.segs {
			l0, ok := lo[sg.from]
			if !ok {
				continue
			}
			h0 := hi[sg.from]
			v, k := hit(sg)
			l1, h1 := l0, h0
			if k && v {
				l1++
			}
			if !k || v {
				h1++
			}
			if l1 > 2 {
				l1 = 2
			}
			if h1 > 2 {
				h1 = 2
			}
			ol, ok := lo[sg.to]
			if !ok {
				lo[sg.to], hi[sg.to] = l1, h1
				changed = true
				continue
			}
			if l1 < ol {
				lo[sg.to] = l1
				changed = true
			}
			if h1 > hi[sg.to] {
				hi[sg.to] = h1
				changed = true
			}
		}
	}
	return
}

// counterOf finds a loop variable that counts the iterations satisfying a
// predicate, from 0.
func (c *Ctx) counterOf(e *Eng, L *Loop, hit func(sg *Seg) (bool, bool)) *ssa.Phi {
	for ph, v := range L.init {
		if k, ok := v.constInt(); !ok || k != 0 {
			continue
		}
		ok := true
		for _, sg := range L.segs {
			h, known := hit(sg)
			if !known {
				ok = false
				break
			}
			b, o, _ := sg.st.linear(sg.next[ph])
			b0, o0, _ := sg.st.linear(sg.st.canon(sg.hdr[ph]))
			want := int64(0)
			if h {
				want = 1
			}
			if b != b0 || o-o0 != want {
				ok = false
			}
		}
		if ok && len(L.segs) > 0 {
			return ph
		}
	}
	return nil
}
