package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Where a search starts, and the small parts around a search.

// candRule: the candidates estimated for an item include every element that
// satisfies it.
func (c *Ctx) checkEstimates(rule string, cats map[string]bool) {
	for _, node := range []bool{true, false} {
		node := node
		name := "PatternItem.estimateEdgeSize"
		if node {
			name = "PatternItem.estimateNodeSize"
		}
		c.guard(rule, name, func() { c.estimate(rule, name, node, cats) })
	}
	c.guard(rule, "getFastestElement", func() { c.fastest(rule, cats) })
}

func (c *Ctx) estimate(rule, name string, node bool, cats map[string]bool) {
	fn := c.fn(name)
	ob := func(cat, con string, ok bool, pos token.Pos, f string, a ...interface{}) {
		if cats[cat] {
			c.ob(rule+" "+cat, con, ok, pos, f, a...)
		}
	}
	e, args, outs := c.runA(fn, hooks(c.itrOpaque(), atoms("NodeMap.IteratorAllLabels", "graphIndex.GetIteratorForNodeProperty", "graphIndex.GetIteratorForEdgeProperty",
		"Graph.GetNodes", "Graph.GetEdges", "Graph.GetEdgesWithAnyLabel", "Graph.GetEdgesWithAllLabels", "NodeSet.Iterator", "EdgeSet.Iterator", "NodeSet.Len", "EdgeSet.Len"), stdModel))
	item, g, symbols := args[0], args[1], args[2]
	itT := c.typ("PatternItem")
	gT := c.ptr("Graph")
	fld := func(st *State, f string) *Term {
		if _, ok := item.typ.Underlying().(*types.Pointer); ok {
			return st.canon(st.get(item, types.NewPointer(itT), f))
		}
		s := structOf(itT)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == f {
				return st.canon(e.fieldOf(item, i, f, s.Field(i).Type()))
			}
		}
		panic(anchorErr("PatternItem has no field " + f))
	}
	sameVal := func(st *State, a, b *Term) bool { return st.canon(a) == st.canon(b) }
	ssT := c.typ("StringSet")
	labelsOf := func(st *State, t *Term) *Term { return st.canon(e.fieldOf(st.canon(t), 0, "M", fieldType(ssT, "M"))) }
	sameLabels := func(st *State, t *Term) bool { return labelsOf(st, t) == labelsOf(st, fld(st, "Labels")) }
	n := 0
	for _, o := range outs {
		if o.panic || o.st.dead {
			continue
		}
		n++
		st := o.st
		// the state each call was made in
		at := map[*Term][]Ev{}
		for _, x := range flat(st) {
			if x.kind == EvCall && x.Event.res != nil {
				at[x.Event.res] = append(at[x.Event.res], x)
				if x.res != x.Event.res {
					at[x.res] = append(at[x.res], x)
				}
			}
		}
		var check func(t *Term, s *State, d int)
		check = func(t *Term, s *State, d int) {
			t = s.canon(t)
			if d > 6 {
				ob("all", name+" candidates", false, o.pos, "the candidates are not known")
				return
			}
			if isPhi(t) {
				for _, l := range e.provLeaves(t) {
					if l.isNil() {
						continue
					}
					check(l, s, d+1)
				}
				return
			}
			dn := c.itrDen(e, s, t)
			for dn.k == "val" || dn.k == "call:makeUniqueIterator" {
				y := dn.a[0]
				if x, _, ok := asOf(y); ok {
					y = x
				}
				if isPhi(y) {
					check(y, s, d+1)
					return
				}
				n := c.itrDen(e, s, y)
				if n.k == dn.k {
					break
				}
				dn = n
			}
			for _, x := range append(at[dn.t], Ev{})[:max(1, len(at[dn.t]))] {
				bad := ""
				sym := func() (val, has *Term) {
					return s.mapLookup(symbols, fld(s, "Name"), symbols.typ.Underlying().(*types.Map).Elem())
				}
				named := s.less(e.tt.Int(0), e.strLen(fld(s, "Name"))) || s.no(e.tt.eq(fld(s, "Name"), e.tt.Str("")))
				own := "Edges"
				if node {
					own = "Nodes"
				}
				switch dn.k {
				case "call:Graph.GetNodes", "call:Graph.GetEdges":
					if (dn.k == "call:Graph.GetNodes") != node || s.canon(dn.a[0]) != g {
						bad = "the candidates are not those of the graph"
					}
				case "call:NodeMap.IteratorAllLabels":
					m := s.load(e.fld(g, gT, "index.nodesByLabel"), fieldType(gT, "index.nodesByLabel"))
					if !node || !sameVal(s, dn.a[0], m) || !sameLabels(s, dn.a[1]) {
						bad = "the candidates are not the nodes with the labels of the item"
					}
				case "call:Graph.GetEdgesWithAnyLabel":
					if node || s.canon(dn.a[0]) != g || !sameLabels(s, dn.a[1]) {
						bad = "the candidates are not the edges with a label of the item"
					} else if x.Event != nil {
						lab := labelsOf(x.st, dn.a[1])
						if !x.st.less(e.tt.Int(0), x.st.mapLen(lab)) {
							bad = "edges are looked up by label though the item has no label"
						}
					}
				case "call:graphIndex.GetIteratorForNodeProperty", "call:graphIndex.GetIteratorForEdgeProperty":
					ok := (dn.k == "call:graphIndex.GetIteratorForNodeProperty") == node && x.Event != nil
					idx := e.fld(g, gT, "index")
					okg := dn.a[0] == idx || sameVal(s, dn.a[0], s.load(idx, fieldType(gT, "index")))
					if !ok || !okg {
						bad = "the candidates are not those of the index"
						break
					}
					props := fld(x.st, "Properties")
					key, val := x.st.canon(x.args[1]), x.st.canon(x.args[2])
					entry, has := x.st.mapLookup(props, key, fieldType(itT, "Properties").Underlying().(*types.Map).Elem())
					inRange := false
					for _, y := range flat(st) {
						if y.kind == EvIter && x.st.canon(y.Event.args[0]) == props && x.st.canon(y.Event.args[1]) == key {
							inRange = inRange || val == x.st.canon(y.Event.args[2])
						}
					}
					if !inRange && !(val == x.st.canon(entry) && x.st.yes(has)) {
						bad = "an index is asked for another property than that of the item"
					} else if !x.st.no(e.tt.eq(val, e.tt.Nil())) {
						bad = "an index is asked for elements without a property, which it does not hold"
					}
				case "call:NodeSet.Iterator", "call:EdgeSet.Iterator":
					val, has := sym()
					set := s.canon(s.get(val, symbols.typ.Underlying().(*types.Map).Elem(), own))
					p := &search{e: e}
					if (dn.k == "call:NodeSet.Iterator") != node || !s.yes(has) || !named || !p.sameSet(s, dn.a[0], set) {
						bad = "the candidates are not the elements bound to the variable of the item"
					}
				case "empty":
					val, has := sym()
					ok := false
					if named && s.yes(has) {
						ok = s.canon(s.get(val, symbols.typ.Underlying().(*types.Map).Elem(), own)).isNil()
					}
					if !ok {
						bad = "there are no candidates though elements may satisfy the item"
					}
				case "nil":
					bad = "there is no iterator for the candidates"
				default:
					bad = "the candidates are not known: " + dn.String()
				}
				ob("all", name+" candidates", bad == "", o.pos, "%s", bad)
			}
		}
		check(o.ret[0], st, 0)
		if node {
			continue
		}
		if k, isC := st.canon(o.ret[1]).constInt(); isC && k == -1 {
			continue
		}
		z := st.zoneOf(nil)
		most := fld(st, "Max")
		ok := st.no(fld(st, "Undirected"))
		ob("direction", name+" undirected", ok, o.pos, "the search may start with an undirected relationship, whose direction is then not known")
		one := z.holds(most, e.tt.Int(1), 0) && st.no(e.tt.eq(most, e.tt.Int(-1)))
		ob("bounds", name+" length", one && z.holds(fld(st, "Min"), e.tt.Int(1), 0), o.pos, "the search may start with a variable length relationship, which is then matched as a single edge")
	}
	ob("all", name, n > 0, fn.Pos(), "no candidates are found")
}

// fastest: the item the search starts from belongs to the candidates.
func (c *Ctx) fastest(rule string, cats map[string]bool) {
	ob := func(cat, con string, ok bool, pos token.Pos, f string, a ...interface{}) {
		if cats[cat] {
			c.ob(rule+" "+cat, con, ok, pos, f, a...)
		}
	}
	fn := c.fn("Pattern.getFastestElement")
	e, args, outs := c.runA(fn, hooks(atoms("PatternItem.estimateNodeSize", "PatternItem.estimateEdgeSize"), stdModel))
	pat, g, symbols := args[0], args[1], args[2]
	con := "getFastestElement"
	itT := c.typ("PatternItem")
	n := 0
	// pair: the iterator is the estimate for the item with this index.
	pair := func(st *State, itr, idx *Term, pos token.Pos) {
		itr = st.canon(itr)
		for i := 0; i < 3; i++ {
			if itr.op == OpIface {
				itr = st.canon(itr.args[0])
			}
		}
		var call *Event
		for q := st.calls; q != nil; q = q.prev {
			ev := q.ev
			if ev.kind == EvCall && (ev.name == "PatternItem.estimateNodeSize" || ev.name == "PatternItem.estimateEdgeSize") && ev.res != nil && ev.res.op == OpTuple {
				if t := st.canon(ev.res.args[0]); t == itr || norm(t) == norm(itr) {
					call = ev
					break
				}
			}
		}
		if !isPhi(itr) && call == nil {
			ob("all", con+" candidates", false, pos, "the candidates are not those estimated for an item")
			return
		}
		if call == nil {
			return
		}
		var p = &search{c: c, e: e, pat: pat, itemT: itT}
		var x *Term
		a := st.canon(call.args[0])
		if a.op == OpElem && a.args[0] == pat {
			x = st.canon(a.args[1])
		} else if a.op == OpNew {
			x = p.itemIndex(st, st.load(a, itT))
		} else {
			x = p.itemIndex(st, a)
		}
		ob("all", con+" candidates", x != nil && x == st.canon(idx), pos, "the candidates are those of another item than the one the search starts from")
		if x == nil {
			return
		}
		even, known := p.parity(st, x)
		ob("all", con+" kind", known && even == (call.name == "PatternItem.estimateNodeSize"), pos, "candidates for an edge are used for a node, or the other way round")
		ob("all", con+" arguments", st.canon(call.args[1]) == g && st.canon(call.args[2]) == symbols, pos, "the candidates are not those of the graph and the given variables")
		sz := st.canon(call.res.args[1])
		ob("direction", con+" size", st.no(e.tt.eq(sz, e.tt.Int(-1))), pos, "the search may start with an item that cannot be the first")
		ob("bounds", con+" size", st.no(e.tt.eq(sz, e.tt.Int(-1))), pos, "the search may start with an item that cannot be the first")
	}
	for _, o := range outs {
		if o.panic || o.st.dead {
			continue
		}
		n++
		st := o.st
		itr, idx := st.canon(o.ret[0]), st.canon(o.ret[1])
		if itr.isNil() {
			continue // no item can be the first
		}
		if !isPhi(itr) {
			pair(st, itr, idx, o.pos)
			continue
		}
		// loop variables
		found := false
		for _, ev := range st.tr.list() {
			if ev.kind != EvLoop {
				continue
			}
			L := ev.loop
			var pi, px *ssa.Phi
			for ph := range L.init {
				for _, sg := range L.segs {
					if sg.hdr[ph] == itr {
						pi = ph
					}
					if sg.hdr[ph] == idx {
						px = ph
					}
				}
			}
			if pi == nil || px == nil {
				continue
			}
			found = true
			for _, sg := range L.segs {
				ni, nx := sg.st.canon(sg.next[pi]), sg.st.canon(sg.next[px])
				hi, hx := sg.st.canon(sg.hdr[pi]), sg.st.canon(sg.hdr[px])
				if ni == hi {
					ob("all", con+" candidates", nx == hx || ni.isNil(), ev.pos, "the candidates are those of another item than the one the search starts from")
					continue
				}
				pair(sg.st, ni, nx, ev.pos)
			}
			ini := L.start.canon(L.init[pi])
			ob("all", con+" candidates", ini.isNil(), ev.pos, "the search starts with candidates of no item")
		}
		ob("all", con+" candidates", found, o.pos, "how the first item is chosen is not recognised")
	}
	ob("all", con, n > 0, fn.Pos(), "no first item is chosen")
}

// checkSymbols: adding to a variable adds the element.
func (c *Ctx) checkSymbols(rule string) {
	for _, k := range []string{"AddNode", "AddPath", "Add:Node", "Add:Edge", "Add:Path"} {
		k := k
		c.guard(rule, "PatternSymbol."+k, func() { c.addSymbol(rule, k) })
	}
	c.guard(rule, "GetSymbolNames", func() { c.symbolNames(rule) })
}

func (c *Ctx) addSymbol(rule, k string) {
	name, kind := k, k[3:]
	if k[3] == ':' {
		name, kind = "Add", k[4:]
	}
	fn := c.fn("PatternSymbol." + name)
	con := "PatternSymbol." + k
	e := newEng(c.w)
	e.hook = hooks(c.itrOpaque(), atoms("NodeSet.Add", "EdgeSet.Add"), stdModel)
	st := e.newState()
	at := c.ptr(kind)
	el := e.tt.Param("item", at)
	sym := e.tt.Param("sym", c.ptr("PatternSymbol"))
	st.nn[el], st.nn[sym] = true, true
	arg := el
	if isIfaceType(fn.Params[1].Type()) {
		arg = e.tt.Iface(at, el)
	}
	outs := c.runArgs(e, fn, []*Term{sym, arg}, st)
	field, add := "Edges", "EdgeSet.Add"
	if kind == "Node" {
		field, add = "Nodes", "NodeSet.Add"
	}
	n := 0
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		if o.panic {
			c.ob(rule, con, false, o.pos, "adding to a variable may panic: %s", o.panicIs)
			continue
		}
		n++
		st := o.st
		set := st.canon(st.get(sym, c.ptr("PatternSymbol"), field))
		old := st.canon(e.tt.Init(e.fld(sym, c.ptr("PatternSymbol"), field), fieldType(c.typ("PatternSymbol"), field)))
		c.ob(rule, con+" keeps", set == old || st.yes(e.tt.eq(old, e.tt.Nil())), o.pos, "the elements a variable stood for are lost")
		okSet := set.op == OpNew || st.no(e.tt.eq(set, e.tt.Nil()))
		c.ob(rule, con+" set", okSet, o.pos, "the element is added to no set")
		isSet := func(s *State, t *Term) bool { return s.canon(t) == s.canon(set) }
		added := false
		evs := st.tr.list()
		for i, ev := range evs {
			if ev.kind == EvCall && ev.name == add && kind != "Path" {
				added = added || isSet(st, ev.args[0]) && norm(st.canon(ev.args[1])) == el
			}
			if ev.kind != EvLoop || kind != "Path" {
				continue
			}
			it := e.iterOf(evs, i, st)
			list := st.canon(st.get(el, at, "path"))
			if !it.all() || it.kind != "slice" || st.canon(it.coll) != list {
				continue
			}
			every := true
			pe := c.typ("PathElement")
			for _, sg := range ev.loop.segs {
				want := sg.st.canon(sg.st.load(e.fld(e.tt.Elem(list, it.keyOf(sg), pe), types.NewPointer(pe), "Edge"), fieldType(pe, "Edge")))
				has := false
				for _, x := range sg.events {
					has = has || x.kind == EvCall && x.name == add && isSet(sg.st, x.args[0]) && sg.st.canon(x.args[1]) == want
				}
				every = every && has
			}
			added = added || every
		}
		c.ob(rule, con, added, o.pos, "an element is not added to what the variable stands for")
	}
	c.ob(rule, con, n > 0, fn.Pos(), "adding to a variable never returns")
}

func (c *Ctx) symbolNames(rule string) {
	fn := c.fn("Pattern.GetSymbolNames")
	e, args, outs := c.runA(fn, hooks(atoms("StringSet.Add", "NewStringSet"), stdModel))
	con := "GetSymbolNames"
	itT := c.typ("PatternItem")
	n := 0
	for _, o := range outs {
		if o.panic || o.st.dead {
			continue
		}
		n++
		st := o.st
		p := &search{c: c, e: e, pat: args[0], itemT: itT}
		all := false
		evs := st.tr.list()
		for i, ev := range evs {
			if ev.kind == EvCall && ev.name == "StringSet.Add" {
				c.ob(rule, con, false, ev.pos, "a name is listed that is not that of an item")
			}
			if ev.kind != EvLoop {
				continue
			}
			it := e.iterOf(evs, i, st)
			if !it.all() || it.kind != "slice" || st.canon(it.coll) != args[0] {
				continue
			}
			all = true
			for _, sg := range ev.loop.segs {
				s := sg.st
				name := p.item(s, it.keyOf(sg), "Name")
				added := false
				for _, x := range line(sg.events, s) {
					if x.kind == EvMapDel {
						c.ob(rule, con, false, x.pos, "a name is removed")
					}
					if x.isCall("StringSet.Add") {
						ok := false
						for _, a := range variadic(e, s, x.args[1:]) {
							ok = s.canon(a) == name
						}
						c.ob(rule, con, ok, x.pos, "a name is listed that is not that of an item")
						c.ob(rule, con, s.less(e.tt.Int(0), e.strLen(name)) || s.no(e.tt.eq(name, e.tt.Str(""))), x.pos, "an item without a name is listed as a variable")
						added = ok
					}
				}
				unnamed := s.less(e.strLen(name), e.tt.Int(1)) || s.yes(e.tt.eq(name, e.tt.Str("")))
				c.ob(rule, con+" all", added || unnamed, ev.pos, "a variable is not listed")
			}
		}
		c.ob(rule, con+" all", all, o.pos, "not all items are looked at")
	}
	c.ob(rule, con, n > 0, fn.Pos(), "no names are listed")
}

// checkSearches: the entry points run the plan of the pattern and report its
// outcome.
func (c *Ctx) checkSearches(rule string) {
	for _, f := range []string{"Run", "FindPaths", "FindNodes"} {
		f := f
		c.guard(rule, "Pattern."+f, func() { c.searchEntry(rule, f) })
	}
}

func (c *Ctx) searchEntry(rule, name string) {
	fn := c.fn("Pattern." + name)
	con := "Pattern." + name
	e, args, outs := c.runA(fn, hooks(atoms("Pattern.GetPlan", "MatchPlan.Run", "logf", "DefaultMatchAccumulator.GetHeadNodes"), stdModel))
	pat, g, symbols := args[0], args[1], args[2]
	n := 0
	for _, o := range outs {
		if o.panic || o.st.dead {
			continue
		}
		n++
		st := o.st
		var plan, run *Ev
		for _, x := range flat(st) {
			x := x
			if x.isCall("Pattern.GetPlan") {
				plan = &x
			}
			if x.isCall("MatchPlan.Run") {
				c.ob(rule, con+" once", run == nil && len(x.path) == 0, x.pos, "the plan is run more than once")
				run = &x
			}
		}
		if !c.ob(rule, con, plan != nil && st.canon(plan.args[0]) == pat && st.canon(plan.args[1]) == g && st.canon(plan.args[2]) == symbols, o.pos, "the plan is not made for the pattern, the graph and the variables") {
			continue
		}
		err := o.st.canon(o.ret[len(o.ret)-1])
		tup := plan.Event.res
		perr := st.canon(tup.args[1])
		if run == nil {
			c.ob(rule, con+" runs", st.no(e.tt.eq(perr, e.tt.Nil())), o.pos, "the plan is not run")
			c.ob(rule, con+" error", err == perr, o.pos, "an error of the plan is lost")
			continue
		}
		c.ob(rule, con+" runs", len(run.args) == 4 && st.canon(run.args[0]) == st.canon(tup.args[0]) && st.canon(run.args[1]) == g && st.canon(run.args[2]) == symbols, run.pos, "another plan is run, or in another graph, or with other variables")
		c.ob(rule, con+" runs", st.yes(e.tt.eq(perr, e.tt.Nil())), run.pos, "the plan is run though it could not be made")
		rerr := st.canon(run.res)
		okErr := err == rerr || st.yes(e.tt.eq(rerr, e.tt.Nil())) && err.isNil()
		c.ob(rule, con+" error", okErr, o.pos, "an error of the search is lost")
		acc := st.canon(run.args[3])
		switch name {
		case "Run":
			c.ob(rule, con+" results", acc == args[3], run.pos, "the matches are not reported to the given receiver")
		default:
			ok := acc.op == OpIface && acc.args[0].op == OpNew && typeName(acc.typ) == "DefaultMatchAccumulator"
			c.ob(rule, con+" results", ok, run.pos, "the matches are not collected in a new place")
			if !ok || !st.yes(e.tt.eq(rerr, e.tt.Nil())) {
				break
			}
			ret := st.canon(o.ret[0])
			if name == "FindNodes" {
				cl := st.callOf(ret)
				c.ob(rule, con+" results", cl != nil && cl.name == "DefaultMatchAccumulator.GetHeadNodes" && (st.canon(cl.args[0]) == acc.args[0] ||
					st.canon(st.load(st.canon(cl.args[0]), c.typ("DefaultMatchAccumulator"))) == st.canon(st.load(acc.args[0], c.typ("DefaultMatchAccumulator")))), o.pos, "the nodes are not the first nodes of the matches")
				break
			}
			dt := c.typ("DefaultMatchAccumulator")
			same := st.canon(st.load(acc.args[0], dt)) == ret
			c.ob(rule, con+" results", same, o.pos, "the matches found are not returned")
		}
	}
	c.ob(rule, con, n > 0, fn.Pos(), "a search never returns")
}
