package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// seqOf turns a denoted collection into the sequence of its elements.
func (c *Ctx) seqOf(d *Den) ([]atom, bool) {
	switch d.k {
	case "empty":
		return nil, true
	case "one":
		return []atom{{k: "one", a: d.a}}, true
	case "nodes":
		return []atom{{k: "node", a: d.a}}, true
	case "edges":
		return []atom{{k: "edge", a: d.a}}, true
	case "lists":
		return []atom{{k: "edge", a: []*Term{d.a[0], d.a[2]}}, {k: "lists", a: []*Term{d.a[1], d.a[2]}}}, true
	case "list":
		return []atom{{k: "lst", a: d.a}}, true
	case "concat":
		var out []atom
		for _, s := range d.sub {
			x, ok := c.seqOf(s)
			if !ok {
				return nil, false
			}
			out = append(out, x...)
		}
		return out, true
	}
	return nil, false
}

// labelSeq is what the edge map holds for a label.
func (c *Ctx) labelSeq(e *Eng, s *State, x emCtx, lm, label, ix *Term) ([]atom, bool) {
	elT := nil2map(c).Underlying().(*types.Map).Elem()
	v, has := s.mapLookup(lm, label, elT)
	known := false
	present := false
	if b, k := s.evalBool(has); k {
		known, present = true, b
	}
	if v.isNil() {
		known, present = true, false
	}
	if b, k := s.evalBool(s.canon(e.tt.eq(v, e.tt.Nil()))); k {
		known, present = true, !b
	}
	if s.emptyMap(lm) {
		known, present = true, false
	}
	if !known {
		return nil, false
	}
	if !present {
		return nil, true
	}
	val := s.canon(s.get(v, elT, "Value"))
	l := s.canon(e.tt.App("as:"+typeKey(x.ell), x.ell, val))
	return []atom{{k: "edge", a: []*Term{s.canon(s.get(l, x.ell, "edges.head")), ix}}}, true
}

// checkEdgeEnum: listing and counting all edges of an edge map.
func (c *Ctx) checkEdgeEnum() {
	rule := "edge-enum"
	fn := c.fn("edgeMap.iterator")
	for _, k := range [][2]int64{{0, 0}, {1, 1}, {2, -1}} {
		con := "edgeMap.iterator with " + []string{"no edges", "one edge", "two or more edges"}[k[0]]
		c.guard(rule, con, func() {
			e, outs := c.runEM(fn, stdModel, k[0], k[1])
			x := c.emFields(e, e.tt.Param("em", nil))
			for _, o := range outs {
				if o.panic {
					c.fail(rule, con, o.pos, "may panic: %s", o.panicIs)
					continue
				}
				s := o.st
				d := c.den(e, s, o.ret[0])
				got, ok := c.seqOf(d)
				var want []atom
				switch k[0] {
				case 1:
					want = []atom{{k: "one", a: []*Term{e.tt.Init(x.on, nil)}}}
				case 2:
					front := e.tt.App("list.Front", nil, e.tt.Init(x.lists, nil))
					want = []atom{{k: "lists", a: []*Term{front, e.tt.Param("listIndex", nil)}}}
				}
				c.ob(rule, con, ok && c.sameSeq(e, s, want, got), fn.Pos(), "the iterator gives %v, expected %s", d, atomsStr(want))
			}
		})
	}
	c.guard(rule, "edgeMap.size", func() {
		sf := c.fn("edgeMap.size")
		e, outs := c.runEM(sf, stdModel, 0, -1)
		x := c.emFields(e, e.tt.Param("em", nil))
		for _, o := range outs {
			c.ob(rule, "edgeMap.size", !o.panic && o.st.canon(o.ret[0]) == o.st.canon(e.tt.Init(x.n, nil)), sf.Pos(), "size is %v, not the count", o.ret)
		}
	})
	c.guard(rule, "Graph.NumEdges", func() {
		nf := c.fn("Graph.NumEdges")
		_, outs := c.run(nf, atoms("edgeMap.size"), nil)
		for _, o := range outs {
			ok := !o.panic && len(o.ret) == 1
			if ok {
				r := o.st.canon(o.ret[0])
				ok = r.op == OpUnk && o.st.callOf(r) != nil && o.st.callOf(r).name == "edgeMap.size" && fieldBase(o.st.canon(o.st.callOf(r).args[0]), "allEdges") != nil ||
					r.op == OpInit && r.args[0].op == OpField && r.args[0].name == "n" && fieldBase(r, "allEdges") != nil
			}
			c.ob(rule, "Graph.NumEdges", ok, nf.Pos(), "returns %v, not the size of the graph's edge list", o.ret)
		}
	})
	// the API functions
	c.listing(rule, "Graph.GetEdges", func(dir int64, x *Term) []want { return []want{{"edgeMap.iterator", "allEdges", nil}} })
	c.listing(rule, "Node.GetEdges", func(dir int64, x *Term) []want { return dirWant("edgeMap.iterator", dir, nil) })
	for _, it := range []string{"allEdgesItr", "singleEdgeIterator", "edgeListIterator"} {
		c.checkIterators(rule, it)
	}
	c.checkIterators(rule, "funcIterator", "iteratorWithSize")
}

type want struct {
	call, field string
	arg         *Term
}

func dirWant(call string, dir int64, arg *Term) []want {
	switch dir {
	case -1:
		return []want{{call, "incoming", arg}}
	case 1:
		return []want{{call, "outgoing", arg}}
	}
	return []want{{call, "incoming", arg}, {call, "outgoing", arg}}
}

// listing checks an API function that lists edges: in every case it must give
// exactly the expected edge lists of its receiver.
func (c *Ctx) listing(rule, name string, spec func(dir int64, set *Term) []want) {
	c.guard(rule, name, func() {
		fn := c.fn(name)
		dirP := -1
		var labelP *Term
		for i, p := range fn.Params {
			if typeName(p.Type()) == "EdgeDir" {
				dirP = i
			}
		}
		dirs := []int64{0}
		if dirP >= 0 {
			dirs = []int64{-1, 0, 1}
		}
		for _, dir := range dirs {
			e := newEng(c.w)
			e.hook = c.mutHookQ()
			st := e.newState()
			var args []*Term
			for i, p := range fn.Params {
				a := e.tt.Param(p.Name(), p.Type())
				if i == dirP {
					a = e.tt.Int(dir)
				}
				if i == 0 {
					st.nn[a] = true
				}
				switch typeKey(p.Type()) {
				case "string", "lpg.StringSet":
					labelP = a
				}
				args = append(args, a)
			}
			for _, o := range c.runArgs(e, fn, args, st) {
				if o.panic {
					c.fail(rule, name, o.pos, "may panic: %s", o.panicIs)
					continue
				}
				d := c.den(e, o.st, o.ret[0])
				var parts []*Den
				var flatten func(d *Den)
				flatten = func(d *Den) {
					if d.k == "concat" {
						for _, s := range d.sub {
							flatten(s)
						}
						return
					}
					parts = append(parts, d)
				}
				flatten(d)
				empty := false
				if labelP != nil && typeKey(labelP.typ) == "lpg.StringSet" {
					m := o.st.canon(o.st.load2(labelP, "M", c.typ("StringSet")))
					empty = o.st.emptyMap(m)
					if l := o.st.ivalOf(o.st.mapLen(m)); !empty && !(l.hasLo && l.lo > 0) {
						// not decided on this path: both readings apply
					}
				}
				ws := spec(dir, labelP)
				if empty && name == "Node.GetEdgesWithAnyLabel" {
					ws = dirWant("edgeMap.iterator", dir, nil)
				}
				used := map[int]bool{}
				ok := len(parts) == len(ws)
				for _, p := range parts {
					hit := false
					if p.k == "call:rec:"+name && dirP > 0 && len(p.a) == len(args) {
						// the function itself, for one direction
						if d, isC := p.a[dirP].constInt(); isC && d != dir && p.a[0] == args[0] && (labelP == nil || p.a[len(p.a)-1] == o.st.canon(labelP)) {
							for i, w := range ws {
								if !used[i] && (d < 0) == (w.field == "incoming") {
									used[i], hit = true, true
									break
								}
							}
						}
						ok = ok && hit
						continue
					}
					for i, w := range ws {
						if used[i] || p.k != "call:"+w.call || fieldBase(p.a[0], w.field) != args[0] {
							continue
						}
						if w.arg != nil && (len(p.a) < 2 || p.a[1] != o.st.canon(w.arg)) {
							continue
						}
						used[i], hit = true, true
						break
					}
					ok = ok && hit
				}
				c.ob(rule, name, ok, fn.Pos(), "direction %d: gives %v, expected %v", dir, d, ws)
			}
		}
	})
}

// load2 reads a field of a struct value or of the struct at an address.
func (st *State) load2(v *Term, f string, typ types.Type) *Term {
	s := structOf(typ)
	for i := 0; i < s.NumFields(); i++ {
		if fieldName(s.Field(i)) == f {
			return st.e.fieldOf(st.canon(v), i, f, s.Field(i).Type())
		}
	}
	panic(anchorErr("no field " + f))
}

// checkEdgeLabelLookup: lookups by one label and by a set of labels.
func (c *Ctx) checkEdgeLabelLookup() {
	rule := "label-lookup"
	fn := c.fn("edgeMap.iteratorLabel")
	for _, k := range [][2]int64{{0, 0}, {1, 1}, {2, -1}} {
		con := "edgeMap.iteratorLabel with " + []string{"no edges", "one edge", "two or more edges"}[k[0]]
		c.guard(rule, con, func() {
			e, outs := c.runEM(fn, stdModel, k[0], k[1])
			x := c.emFields(e, e.tt.Param("em", nil))
			for _, o := range outs {
				if o.panic {
					c.fail(rule, con, o.pos, "may panic: %s", o.panicIs)
					continue
				}
				s := o.st
				d := c.den(e, s, o.ret[0])
				got, ok := c.seqOf(d)
				label := e.tt.Param(fn.Params[1].Name(), nil)
				lm := s.canon(e.tt.Init(x.lmap, nil))
				var w []atom
				wok := true
				switch k[0] {
				case 1:
					only := e.tt.Init(x.on, nil)
					b, known := s.evalBool(s.canon(e.tt.eq(label, e.tt.Init(e.fld(only, x.edge, "label"), nil))))
					wok = known
					if b {
						w = []atom{{k: "one", a: []*Term{only}}}
					}
				case 2:
					w, wok = c.labelSeq(e, s, x, lm, label, e.tt.Param("listIndex", nil))
				}
				c.ob(rule, con, ok && wok && c.sameSeq(e, s, w, got), fn.Pos(), "the iterator gives %v, expected %s (%s)", d, atomsStr(w), outDesc(o))
			}
		})
	}
	any := c.fn("edgeMap.iteratorAnyLabel")
	hook := hooks(stdModel, atoms("StringSet.Slice"))
	for _, k := range [][2]int64{{0, 0}, {1, 1}, {2, -1}} {
		con := "edgeMap.iteratorAnyLabel with " + []string{"no edges", "one edge", "two or more edges"}[k[0]]
		c.guard(rule, con, func() {
			e, outs := c.runEM(any, hook, k[0], k[1])
			x := c.emFields(e, e.tt.Param("em", nil))
			set := e.tt.Param(any.Params[1].Name(), any.Params[1].Type())
			for _, o := range outs {
				if o.panic {
					c.fail(rule, con, o.pos, "may panic: %s", o.panicIs)
					continue
				}
				s := o.st
				d := c.den(e, s, o.ret[0])
				if d.k == "gen" {
					c.anyLabelGen(rule, con, e, s, x, d.a[0], set, k[0], any)
					continue
				}
				got, ok := c.seqOf(d)
				var w []atom
				wok := true
				m := s.canon(s.load2(set, "M", c.typ("StringSet")))
				switch k[0] {
				case 1:
					only := e.tt.Init(x.on, nil)
					lbl := s.canon(e.tt.Init(e.fld(only, x.edge, "label"), nil))
					if s.present(m, lbl) {
						w = []atom{{k: "one", a: []*Term{only}}}
					} else {
						wok = s.absent(m, lbl)
					}
				case 2:
					wok = s.emptyMap(m)
				}
				c.ob(rule, con, ok && wok && c.sameSeq(e, s, w, got), any.Pos(), "the iterator gives %v, expected %s (%s)", d, atomsStr(w), outDesc(o))
			}
		})
	}
	c.checkMapKeys(rule, "StringSet.Slice")
	c.listing(rule, "Graph.GetEdgesWithAnyLabel", func(dir int64, x *Term) []want { return []want{{"edgeMap.iteratorAnyLabel", "allEdges", x}} })
	c.listing(rule, "Node.GetEdgesWithLabel", func(dir int64, x *Term) []want { return dirWant("edgeMap.iteratorLabel", dir, x) })
	c.listing(rule, "Node.GetEdgesWithAnyLabel", func(dir int64, x *Term) []want { return dirWant("edgeMap.iteratorAnyLabel", dir, x) })
	c.checkIterators(rule, "singleEdgeIterator", "edgeListIterator", "funcIterator", "iteratorWithSize")
}

// sliceView splits a slice value into base, low bound and high bound.
func (e *Eng) sliceView(st *State, v *Term) (base, lo, hi *Term) {
	v = st.canon(v)
	if app(v, "slice") {
		return v.args[0], v.args[1], v.args[2]
	}
	return v, e.tt.Int(0), st.canon(e.sliceLen(st, v))
}

// anyLabelGen checks the generator of the label lookup: it goes through the
// requested labels once each and gives the list of each label that is there.
func (c *Ctx) anyLabelGen(rule, con string, e *Eng, s *State, x emCtx, f, set *Term, n int64, fn *ssa.Function) {
	pos := fn.Pos()
	if f.op != OpClos {
		c.fail(rule, con, pos, "undecided: the generator %v is not a closure", f)
		return
	}
	// the captured slice of labels
	var cell *Term
	for i, fv := range f.fn.FreeVars {
		if pt, ok := fv.Type().Underlying().(*types.Pointer); ok {
			if sl, ok := pt.Elem().Underlying().(*types.Slice); ok && typeKey(sl.Elem()) == "string" {
				cell = f.args[i]
			}
		}
	}
	if cell == nil {
		c.fail(rule, con, pos, "undecided: the generator does not go through a slice of labels")
		return
	}
	strT := types.Typ[types.String]
	slT := types.NewSlice(strT)
	init := s.canon(s.load(cell, slT))
	c.ob(rule, con, init.op == OpUnk && s.callOf(init) != nil && s.callOf(init).name == "StringSet.Slice" && s.canon(s.callOf(init).args[0]) == s.canon(set), pos, "the labels gone through are %v, not those requested", init)
	// how far it got: the slice is cut, or an index into it moves on
	var ixCell *Term
	for i, fv := range f.fn.FreeVars {
		if pt, ok := fv.Type().Underlying().(*types.Pointer); ok && isInt(pt.Elem()) {
			if s.canon(s.load(f.args[i], pt.Elem())) == e.tt.Int(0) {
				ixCell = f.args[i]
			}
		}
	}
	intT := types.Typ[types.Int]
	// run it on an arbitrary remaining slice
	st := s.clone()
	st.tr = nil
	rem := e.tt.Unk("remaining", slT)
	st.mem[cell] = rem
	if ixCell != nil {
		at := e.tt.Unk("labelAt", intT)
		st.mem[ixCell] = at
		st.assume(e.tt.lt(at, e.tt.Int(0)), false)
	}
	st0 := st.clone()
	outs := e.call(f.fn, nil, f.args, st, "gen")
	c.account(e, outs)
	lm0 := e.tt.Init(x.lmap, nil)
	ix := e.tt.Param("listIndex", nil)
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		if o.panic {
			c.fail(rule, con, o.pos, "the generator may panic: %s", o.panicIs)
			continue
		}
		for _, t := range pieces(st0, o.st.tr.list(), o.st, true) {
			to := t.to
			b0, l0, h0 := e.sliceView(to, t.from.load(cell, slT))
			b1, l1, h1 := e.sliceView(to, to.load(cell, slT))
			same := b0 == b1 && h0 == h1 && l0 == l1
			one := b0 == b1 && h0 == h1 && l1 == to.canon(e.add(l0, e.tt.Int(1)))
			if app(to.canon(to.load(cell, slT)), "slice") && !one && !same {
				// relative to the loop-carried slice
				v := to.canon(to.load(cell, slT))
				c0 := to.canon(t.from.load(cell, slT))
				one = v.args[0] == c0 && v.args[1] == e.tt.Int(1) && v.args[2] == to.canon(e.sliceLen(to, c0))
			}
			c0 := to.canon(t.from.load(cell, slT))
			at := e.tt.Int(0)
			if ixCell != nil {
				at = to.canon(t.from.load(ixCell, intT))
				at1 := to.canon(to.load(ixCell, intT))
				one = same && at1 == to.canon(e.add(at, e.tt.Int(1)))
				same = same && at1 == at
			}
			head := to.canon(to.load(e.elemAddr(c0, at, strT), strT))
			seq, known := c.labelSeq(e, to, x, to.canon(lm0), head, ix)
			if !t.final {
				if same {
					continue
				}
				c.ob(rule, con, one && known && len(seq) == 0, pos, "the generator skips a label that may have edges, or more than one label")
				continue
			}
			r := to.canon(o.ret[0])
			if r.isNil() {
				iv := to.ivalOf(to.canon(e.sliceLen(to, c0)))
				ended := iv.hasHi && iv.hi <= 0
				if ixCell != nil {
					ended = to.no(e.tt.lt(at, to.canon(e.sliceLen(to, c0))))
				}
				c.ob(rule, con, same && ended, pos, "the generator ends before all labels were gone through")
				continue
			}
			c.ob(rule, con, one, pos, "the generator takes a label and does not move on by one")
			d := c.den(e, to, r)
			got, ok := c.seqOf(d)
			c.ob(rule, con, ok && known && c.sameSeq(e, to, seq, got), pos, "for label %v the generator gives %v, expected %s", head, d, atomsStr(seq))
		}
	}
}

// growth describes how a loop extends a slice it builds.
type growth struct {
	init *Term
	add  map[*Seg][]*Term
	res  func(t *Term) bool // is t the value built so far at the loop's end
}

// growths finds the slices a loop builds by appending.
func (e *Eng) growths(L *Loop) []growth {
	var out []growth
	for ph, v := range L.init {
		g := growth{init: v, add: map[*Seg][]*Term{}}
		if _, ok := ph.Type().Underlying().(*types.Slice); !ok {
			continue
		}
		vals := map[*Term]bool{v: true}
		ok := true
		for _, s := range L.segs {
			h, n := s.hdr[ph], s.next[ph]
			vals[h] = true
			if n == h {
				g.add[s] = nil
				continue
			}
			if app(n, "append") && n.args[0] == h {
				g.add[s] = n.args[1:]
				continue
			}
			ok = false
		}
		if !ok {
			continue
		}
		g.res = func(t *Term) bool { return vals[t] }
		out = append(out, g)
	}
	return append(out, e.cellGrowths(L)...)
}

// cellGrowths: the same for slices kept in a variable or field.
func (e *Eng) cellGrowths(L *Loop) []growth {
	typs := map[*Term]types.Type{}
	for _, h := range L.hdr {
		for a, v := range h.mem {
			if v != nil && isPhi(v) && sliceElem(v.typ) != nil {
				typs[a] = v.typ
			}
		}
	}
	var order []*Term
	for a := range typs {
		order = append(order, a)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].String() < order[j].String() })
	var out []growth
	for _, a := range order {
		var g growth
		vals := map[*Term]bool{}
		in := L.start
		if in == nil {
			continue
		}
		ok := true
		for _, s := range L.segs {
			hd := L.hdr[s.from]
			if hd == nil || s.st.mem[a] == nil {
				ok = false
				break
			}
			h0 := hd.clone().load(a, typs[a])
			h := h0
			if g.add == nil {
				g = growth{init: in.canon(in.clone().load(a, typs[a])), add: map[*Seg][]*Term{}}
				vals[g.init] = true
			}
			n := s.st.canon(s.st.mem[a])
			h = s.st.canon(h)
			vals[h0], vals[h] = true, true
			switch {
			case n == h:
				g.add[s] = nil
			case app(n, "append") && n.args[0] == h:
				g.add[s] = n.args[1:]
			default:
				ok = false
			}
		}
		if !ok || g.add == nil {
			continue
		}
		g.res = func(t *Term) bool { return vals[t] }
		out = append(out, g)
	}
	return out
}

func (e *Eng) emptySlice(st *State, t *Term) bool {
	iv := st.ivalOf(st.canon(e.sliceLen(st, t)))
	return iv.hasHi && iv.hi <= 0
}

// checkMapKeys: the function returns the keys of the set's map, each once.
func (c *Ctx) checkMapKeys(rule, name string) {
	c.guard(rule, name, func() {
		fn := c.fn(name)
		e, outs := c.run(fn, nil, nil)
		set := e.tt.Param(fn.Params[0].Name(), fn.Params[0].Type())
		c.collects(rule, name, e, outs, fn.Pos(), func(st *State, it *Iter) bool {
			return it.kind == "map" && it.coll == st.canon(st.load2(set, "M", c.typ("StringSet")))
		}, func(sg *Seg, it *Iter, added []*Term) string {
			if len(added) == 1 && added[0] == it.key {
				return ""
			}
			return "an element is not collected exactly once"
		})
	})
}

// collects checks a function that returns the elements gathered by one loop.
func (c *Ctx) collects(rule, con string, e *Eng, outs []Outcome, pos token.Pos, coll func(st *State, it *Iter) bool, elem func(sg *Seg, it *Iter, added []*Term) string) {
	for _, o := range outs {
		if o.panic {
			c.fail(rule, con, o.pos, "may panic: %s", o.panicIs)
			continue
		}
		evs := o.st.tr.list()
		n := 0
		for i, ev := range evs {
			if ev.kind != EvLoop {
				continue
			}
			it := e.iterOf(evs, i, o.st)
			if it.kind == "" || !coll(o.st, it) {
				c.fail(rule, con, ev.pos, "undecided: loop over %v %v (%s)", it.kind, it.coll, it.why)
				continue
			}
			n++
			c.ob(rule, con, it.all(), ev.pos, "not all elements are visited: %s", it.why)
			ret := o.st.canon(o.ret[0])
			hit := false
			for _, g := range e.growths(ev.loop) {
				if !g.res(ret) {
					continue
				}
				hit = true
				c.ob(rule, con, e.emptySlice(o.st, g.init), ev.pos, "the result does not start empty")
				for _, s := range ev.loop.segs {
					if m := elem(s, it, g.add[s]); m != "" {
						c.fail(rule, con, ev.pos, "%s (%s)", m, segDesc(s))
					}
				}
			}
			if len(ev.loop.segs) == 0 {
				continue
			}
			c.ob(rule, con, hit, ev.pos, "the result %v is not what the loop collected", ret)
		}
		if n == 0 {
			// nothing to visit
			c.ob(rule, con, e.emptySlice(o.st, o.ret[0]), pos, "nothing is visited but the result is %v", o.ret[0])
			continue
		}
		c.ob(rule, con, n == 1, pos, "%d loops collect elements", n)
	}
}
