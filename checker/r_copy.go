package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// isSetMap: a value whose type is that of StringSet.M.
func (c *Ctx) isSetMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	b, ok := m.Key().Underlying().(*types.Basic)
	if !ok || b.Kind() != types.String {
		return false
	}
	s, ok := m.Elem().Underlying().(*types.Struct)
	return ok && s.NumFields() == 0
}

// checkCopyOnWrite: maps of label sets are changed only by the operation that
// made them.
func (c *Ctx) checkCopyOnWrite(rule string) {
	n := 0
	for _, f := range c.w.all {
		f := f
		if f.Synthetic != "" {
			continue
		}
		touches := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var m ssa.Value
				switch x := in.(type) {
				case *ssa.MapUpdate:
					m = x.Map
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
						m = x.Call.Args[0]
					} else if cal := x.Call.StaticCallee(); cal != nil && cal.Pkg != nil && cal.Pkg.Pkg.Path() == "maps" && len(x.Call.Args) > 0 {
						m = x.Call.Args[0]
					}
				}
				if m != nil && c.isSetMap(m.Type()) {
					touches = true
				}
			}
		}
		if !touches {
			continue
		}
		n++
		con := fnName(f)
		c.guard(rule, con, func() {
			if f.Parent() != nil {
				panic(anchorErr("a closure changes a label set's map"))
			}
			_, outs := c.run(f, stdModel, nil)
			for _, o := range outs {
				for _, x := range flat(o.st) {
					if x.kind != EvMapUpd && x.kind != EvMapDel && !(x.kind == EvCall && len(x.args) > 0 && (x.name == "maps.Copy" || x.name == "maps.DeleteFunc" || x.name == "clear")) {
						continue
					}
					m := x.args[0]
					if mt := termType(m, nil); mt != nil && !c.isSetMap(mt) {
						continue
					}
					c.ob(rule, con, m.op == OpNew, x.pos, "%v is changed although other sets may share it", m)
				}
			}
		})
	}
	if n == 0 {
		c.ob(rule, "StringSet", true, 0, "")
	}
}

// fill is one step that fills or thins out a map.
type fill struct {
	it   *Iter
	loop *Loop
	ev   Ev // single update or delete outside loops
}

// fills lists the steps of a trace that change map m.
func (e *Eng) fills(evs []*Event, st *State, m *Term) []fill {
	var out []fill
	touch := func(s *Seg) bool {
		hit := false
		var rec func(evs []*Event, st *State)
		rec = func(evs []*Event, st *State) {
			for _, ev := range evs {
				if (ev.kind == EvMapUpd || ev.kind == EvMapDel) && st.canon(ev.args[0]) == m {
					hit = true
				}
				if ev.kind == EvLoop {
					for _, q := range ev.loop.segs {
						rec(q.events, q.st)
					}
				}
			}
		}
		rec(s.events, s.st)
		return hit
	}
	for i, ev := range evs {
		switch {
		case (ev.kind == EvMapUpd || ev.kind == EvMapDel) && st.canon(ev.args[0]) == m:
			out = append(out, fill{ev: mkEv(ev, st, nil, i)})
		case ev.kind == EvLoop:
			any := false
			for _, s := range ev.loop.segs {
				if touch(s) {
					any = true
				}
			}
			if any {
				out = append(out, fill{it: e.iterOf(evs, i, st), loop: ev.loop})
			}
		}
	}
	return out
}

// mapSegOps gives the updates and deletes of m in one iteration (inner loops
// excluded).
func mapSegOps(s *Seg, m *Term) (ups, dels []Ev) {
	for i, ev := range s.events {
		x := mkEv(ev, s.st, nil, i)
		if x.kind == EvMapUpd && x.args[0] == m {
			ups = append(ups, x)
		}
		if x.kind == EvMapDel && x.args[0] == m {
			dels = append(dels, x)
		}
	}
	return
}

// copiesAll: the loop stores every entry of src in m under its own key, and
// with its own value if vals is set.
func (c *Ctx) copiesAll(f fill, m, src *Term, vals bool) string {
	it := f.it
	if it == nil || it.kind != "map" || it.coll != src {
		return "not a loop over the source"
	}
	if !it.all() {
		return "not all entries are copied: " + it.why
	}
	for _, s := range f.loop.segs {
		ups, dels := mapSegOps(s, m)
		if len(ups) != 1 || len(dels) != 0 || ups[0].args[1] != s.st.canon(it.key) {
			return "an entry is not copied under its key (" + segDesc(s) + ")"
		}
		if vals {
			v, _ := s.st.mapLookup(src, it.key, nil)
			if ups[0].args[2] != s.st.canon(v) {
				return "an entry is copied with another value"
			}
		}
	}
	return ""
}

// isCopyOf: m is a map of its own holding the entries src had.
func (c *Ctx) isCopyOf(e *Eng, st *State, m, src *Term, vals bool) string {
	m, src = st.canon(m), st.canon(src)
	if m.op == OpUnk && st.callOf(m) != nil && len(st.callOf(m).args) == 1 && (st.callOf(m).name == "maps.Clone" || len(st.callOf(m).name) > 11 && st.callOf(m).name[:11] == "maps.Clone[") && st.canon(st.callOf(m).args[0]) == src {
		return ""
	}
	if st.emptyMap(src) {
		if m.isNil() || m.op == OpNew && len(e.fills(st.tr.list(), st, m)) == 0 {
			return ""
		}
		if m.op == OpNew {
			for _, f := range e.fills(st.tr.list(), st, m) {
				if f.it == nil || f.it.coll != src {
					return "entries are added"
				}
			}
			return ""
		}
		return "the map " + m.String() + " is shared"
	}
	if m.op != OpNew {
		return "the map " + m.String() + " is shared with the caller or lost"
	}
	fs := e.fills(st.tr.list(), st, m)
	if len(fs) != 1 {
		return "the new map is not filled by one copy of the given one"
	}
	return c.copiesAll(fs[0], m, src, vals)
}

// checkLabelSetOps: the operations of label sets give new sets with the right
// elements.
func (c *Ctx) checkLabelSetOps(rule string) {
	ss := c.typ("StringSet")
	sp := types.NewPointer(ss)
	c.guard(rule, "NewStringSet", func() {
		fn := c.fn("NewStringSet")
		e, outs := c.run(fn, stdModel, nil)
		arg := e.tt.Param(fn.Params[0].Name(), nil)
		for _, o := range outs {
			if o.panic {
				c.fail(rule, "NewStringSet", o.pos, "may panic: %s", o.panicIs)
				continue
			}
			m := c.setM(o.st, o.ret[0])
			msg := c.holdsList(e, o.st, m, arg, nil)
			c.ob(rule, "NewStringSet", msg == "", fn.Pos(), "%s", msg)
		}
	})
	for _, name := range []string{"StringSet.Add", "StringSet.AddSet", "StringSet.Remove"} {
		name := name
		c.guard(rule, name, func() {
			fn := c.fn(name)
			e, outs := c.run(fn, hooks(atoms("StringSet.Slice"), stdModel), func(e *Eng, st *State, args []*Term) { st.nn[args[0]] = true })
			recv, arg := e.tt.Param(fn.Params[0].Name(), nil), e.tt.Param(fn.Params[1].Name(), fn.Params[1].Type())
			// the elements of the other set, as a slice
			elems := func(s *State, v, m *Term) bool {
				cl := s.callOf(v)
				return cl != nil && cl.name == "StringSet.Slice" && c.setM(s, cl.args[0]) == m
			}
			old := e.tt.Init(e.fld(recv, sp, "M"), fieldType(sp, "M"))
			for _, o := range outs {
				if o.panic {
					c.fail(rule, name, o.pos, "may panic: %s", o.panicIs)
					continue
				}
				s := o.st
				m := s.canon(s.get(recv, sp, "M"))
				old := s.canon(old)
				ret := s.canon(o.ret[0])
				c.ob(rule, name, ret == recv, fn.Pos(), "returns %v instead of the set", ret)
				var src *Term // what is added or removed
				isSet := name == "StringSet.AddSet"
				nothing := false
				if isSet {
					src = c.setM(s, arg)
					nothing = s.emptyMap(src)
					for _, ev := range flat(s) {
						if ev.isCall("StringSet.Slice") && elems(s, ev.res, src) && e.emptySlice(s, ev.res) {
							nothing = true
						}
					}
				} else {
					src = s.canon(arg)
					nothing = e.emptySlice(s, arg)
				}
				if m == old {
					c.ob(rule, name, nothing || name == "StringSet.Remove" && s.wasEmpty(old), fn.Pos(), "the set is unchanged although there is something to do (%s)", outDesc(o))
					continue
				}
				if m.op != OpNew {
					// adding to an empty set may take a copy of the other
					ok := isSet && m == src && s.wasEmpty(old)
					c.ob(rule, name, ok || m.isNil() && s.wasEmpty(old), fn.Pos(), "the set becomes %v", m)
					continue
				}
				fs := e.fills(s.tr.list(), s, m)
				copied, done := s.wasEmpty(old), nothing
				for _, f := range fs {
					if f.it == nil {
						c.fail(rule, name, f.ev.pos, "undecided: %v outside a loop", f.ev.args)
						continue
					}
					switch {
					case f.it.kind == "map" && f.it.coll == old && name != "StringSet.Remove":
						msg := c.copiesAll(f, m, old, false)
						c.ob(rule, name, msg == "", fn.Pos(), "%s", msg)
						copied = true
					case f.it.kind == "map" && f.it.coll == old:
						// keeps exactly those not removed, or all
						msg, all := c.keepsOthers(e, s, f, m, old, src)
						c.ob(rule, name, msg == "", fn.Pos(), "%s", msg)
						copied = true
						if !all {
							done = true
						}
					case isSet && f.it.kind == "map" && f.it.coll == src:
						msg := c.copiesAll(f, m, src, false)
						c.ob(rule, name, msg == "", fn.Pos(), "%s", msg)
						done = true
					case f.it.kind == "slice" && (!isSet && f.it.coll == src || isSet && elems(s, f.it.coll, src)):
						c.ob(rule, name, f.it.all(), fn.Pos(), "not all given labels are handled: %s", f.it.why)
						for _, sg := range f.loop.segs {
							ups, dels := mapSegOps(sg, m)
							if name != "StringSet.Remove" {
								c.ob(rule, name, len(ups) == 1 && len(dels) == 0 && f.it.isElem(sg.st, ups[0].args[1]), fn.Pos(), "a given label is not added")
							} else {
								c.ob(rule, name, len(ups) == 0 && len(dels) == 1 && f.it.isElem(sg.st, dels[0].args[1]) && copied, fn.Pos(), "a given label is not removed")
							}
						}
						done = true
					default:
						c.fail(rule, name, fn.Pos(), "undecided: loop over %v", f.it.coll)
					}
				}
				c.ob(rule, name, copied, fn.Pos(), "the labels the set had are lost (%s)", outDesc(o))
				c.ob(rule, name, done, fn.Pos(), "the given labels are not handled (%s)", outDesc(o))
			}
		})
	}
	c.guard(rule, "StringSet.Clone", func() {
		fn := c.fn("StringSet.Clone")
		e, outs := c.run(fn, stdModel, nil)
		set := e.tt.Param(fn.Params[0].Name(), fn.Params[0].Type())
		for _, o := range outs {
			if o.panic {
				c.fail(rule, "StringSet.Clone", o.pos, "may panic: %s", o.panicIs)
				continue
			}
			m, src := c.setM(o.st, o.ret[0]), c.setM(o.st, set)
			if m == src {
				c.pass(rule, "StringSet.Clone")
				continue
			}
			msg := c.isCopyOf(e, o.st, m, src, false)
			c.ob(rule, "StringSet.Clone", msg == "", fn.Pos(), "%s", msg)
		}
	})
	c.guard(rule, "StringSet.IsEqual", func() {
		name := "StringSet.IsEqual"
		fn := c.fn(name)
		e, outs := c.run(fn, stdModel, nil)
		a, b := e.tt.Param(fn.Params[0].Name(), fn.Params[0].Type()), e.tt.Param(fn.Params[1].Name(), fn.Params[1].Type())
		lens := conjunct{name: "sizes", direct: func(st *State) (bool, bool) {
			return st.evalBool(st.canon(e.tt.eq(st.mapLen(c.setM(st, a)), st.mapLen(c.setM(st, b)))))
		}}
		elems := conjunct{name: "elements", coll: func(st *State, it *Iter) bool {
			return it.kind == "map" && (it.coll == c.setM(st, a) || it.coll == c.setM(st, b))
		}, pred: func(evs []*Event, st *State, it *Iter) (bool, bool) {
			o := c.setM(st, a)
			if it.coll == o {
				o = c.setM(st, b)
			}
			return c.hasKey(st, o, st.canon(it.key))
		}, none: func(st *State) bool { return st.emptyMap(c.setM(st, a)) || st.emptyMap(c.setM(st, b)) }}
		c.conj(rule, name, e, outs, fn.Pos(), []conjunct{lens, elems}, func(*State, Ev) bool { return false })
	})
	c.checkMapKeys(rule, "StringSet.Slice")
	c.guard(rule, "StringSet.Len", func() {
		fn := c.fn("StringSet.Len")
		e, outs := c.run(fn, stdModel, nil)
		set := e.tt.Param(fn.Params[0].Name(), fn.Params[0].Type())
		for _, o := range outs {
			c.ob(rule, "StringSet.Len", !o.panic && o.st.canon(o.ret[0]) == o.st.canon(o.st.mapLen(c.setM(o.st, set))), fn.Pos(), "returns %v", o.ret)
		}
	})
}

// keepsOthers: the loop over old keeps in m the keys not in the list gone;
// all reports that it keeps every key.
func (c *Ctx) keepsOthers(e *Eng, st *State, f fill, m, old, gone *Term) (msg string, all bool) {
	if !f.it.all() {
		return "not all labels are looked at: " + f.it.why, false
	}
	all = true
	for _, s := range f.loop.segs {
		ups, dels := mapSegOps(s, m)
		key := s.st.canon(f.it.key)
		if len(dels) > 0 {
			return "undecided: labels are deleted while copying", false
		}
		looked, in := false, false
		for i, ev := range s.events {
			if ev.kind != EvLoop {
				continue
			}
			it := e.iterOf(s.events, i, s.st)
			ct := e.control(s.events[i+1:], s.st)
			if it.kind == "" {
				it.kind, it.coll, it.key = ct.kind, ct.coll, ct.key
				it.complete, it.from0 = ct.ok && !ct.taken, true
			}
			if it.kind != "slice" || it.coll != gone || !it.from0 {
				return "undecided: inner loop over " + it.why, false
			}
			elem := func(st *State, k *Term) *Term {
				return st.canon(st.load(e.elemAddr(gone, k, types.Typ[types.String]), types.Typ[types.String]))
			}
			for _, q := range ev.loop.segs {
				b, k := q.st.evalBool(q.st.canon(e.tt.eq(key, elem(q.st, it.key))))
				if !k || b {
					return "the search for a removed label goes on or skips one (" + segDesc(q) + ")", false
				}
			}
			if it.complete {
				looked, in = true, false
				continue
			}
			b, k := s.st.evalBool(s.st.canon(e.tt.eq(key, elem(s.st, ct.key))))
			if !k || !b {
				return "the search for a removed label ends too early", false
			}
			looked, in = true, true
		}
		kept := len(ups) == 1 && ups[0].args[1] == key
		if len(ups) > 1 || len(ups) == 1 && !kept {
			return "another label is kept", false
		}
		if !looked {
			// or looked up in a set of those gone
			for h, b := range s.st.facts {
				if app(h, "has") && s.st.canon(h.args[1]) == key && c.holdsList(e, st, h.args[0], gone, nil) == "" {
					looked, in = true, b
				}
			}
		}
		if !looked {
			if !kept {
				return "a label is dropped without being named (" + segDesc(s) + ")", false
			}
			continue
		}
		all = false
		if kept == in {
			return "a label is kept although it is to be removed, or dropped although not (" + segDesc(s) + ")", false
		}
	}
	return "", all
}

// holdsList: the fresh map m holds exactly the elements of a slice.
func (c *Ctx) holdsList(e *Eng, st *State, m, list *Term, _ interface{}) string {
	m, list = st.canon(m), st.canon(list)
	if m.op != OpNew {
		if m.isNil() && e.emptySlice(st, list) {
			return ""
		}
		return "the labels are kept in " + m.String() + ", not in a set of their own"
	}
	fs := e.fills(st.tr.list(), st, m)
	if len(fs) == 0 && e.emptySlice(st, list) {
		return ""
	}
	if len(fs) != 1 || fs[0].it == nil || fs[0].it.kind != "slice" || fs[0].it.coll != list {
		return "the set is not filled from the given labels"
	}
	if !fs[0].it.all() {
		return "not all labels are taken: " + fs[0].it.why
	}
	for _, s := range fs[0].loop.segs {
		ups, dels := mapSegOps(s, m)
		if len(ups) != 1 || len(dels) != 0 || !fs[0].it.isElem(s.st, ups[0].args[1]) {
			return "a label is not taken (" + segDesc(s) + ")"
		}
	}
	return ""
}

// checkCopyingConstructors: NewNode and NewEdge keep copies.
func (c *Ctx) checkCopyingConstructors(rule string) {
	t := c.lt()
	for _, name := range []string{"Graph.NewNode", "Graph.NewEdge"} {
		name := name
		c.guard(rule, name, func() {
			fn := c.fn(name)
			typ := t.node
			if name == "Graph.NewEdge" {
				typ = t.edge
			}
			e, outs := c.run(fn, hooks(stdModel, atoms("nodeList.add", "nodeList.append", "edgeMap.add", "NodeMap.Add", "graphIndex.addNodeToIndex", "graphIndex.addEdgeToIndex", "Graph.addNode", "Graph.connect")), func(e *Eng, st *State, args []*Term) {
				st.nn[args[0]] = true
			})
			var props, labels *Term
			for _, p := range fn.Params {
				if m, ok := p.Type().Underlying().(*types.Map); ok && isIfaceType(m.Elem()) {
					props = e.tt.Param(p.Name(), p.Type())
				}
				if _, ok := p.Type().Underlying().(*types.Slice); ok {
					labels = e.tt.Param(p.Name(), p.Type())
				}
			}
			if props == nil {
				panic(anchorErr("no properties parameter"))
			}
			for _, o := range outs {
				if o.panic {
					continue // refusing foreign nodes is checked by C09
				}
				r := created(o)
				if r == nil {
					c.fail(rule, name, fn.Pos(), "does not return a new element")
					continue
				}
				msg := c.isCopyOf(e, o.st, o.st.get(r, typ, "properties"), props, true)
				c.ob(rule, name+" properties", msg == "", fn.Pos(), "%s (%s)", msg, outDesc(o))
				if labels != nil {
					msg := c.holdsList(e, o.st, o.st.get(r, typ, "labels.M"), labels, nil)
					c.ob(rule, name+" labels", msg == "", fn.Pos(), "%s (%s)", msg, outDesc(o))
				}
			}
		})
	}
}

// checkGivenOut: labels handed out or taken are label set values; no exported
// operation gives out an element's property map.
func (c *Ctx) checkGivenOut(rule string) {
	t := c.lt()
	for _, f := range c.w.all {
		if !exportedFn(f) || f.Signature.Recv() == nil {
			continue
		}
		rn := typeName(f.Signature.Recv().Type())
		if rn != "Node" && rn != "Edge" && rn != "Graph" && rn != "NodeMap" {
			continue
		}
		res := f.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			rt := res.At(i).Type()
			isMap := false
			switch u := rt.Underlying().(type) {
			case *types.Map:
				isMap = true
			case *types.Slice:
				isMap = true
				_ = u
			}
			if !isMap {
				continue
			}
			i, f := i, f
			con := fnName(f)
			c.guard(rule, con, func() {
				_, outs := c.run(f, stdModel, func(e *Eng, st *State, args []*Term) { st.nn[args[0]] = true })
				for _, o := range outs {
					if o.panic {
						continue
					}
					r := o.st.canon(o.ret[i])
					c.ob(rule, con, r.op != OpInit, f.Pos(), "gives out the element's own container %v", r)
				}
			})
		}
	}
	c.guard(rule, "Node.GetLabels", func() {
		fn := c.fn("Node.GetLabels")
		e, outs := c.run(fn, stdModel, func(e *Eng, st *State, args []*Term) { st.nn[args[0]] = true })
		n := e.tt.Param(fn.Params[0].Name(), nil)
		for _, o := range outs {
			if o.panic {
				c.fail(rule, "Node.GetLabels", o.pos, "may panic: %s", o.panicIs)
				continue
			}
			m, src := c.setM(o.st, o.ret[0]), o.st.canon(o.st.get(n, t.node, "labels.M"))
			if m == src {
				c.pass(rule, "Node.GetLabels")
				continue
			}
			msg := c.isCopyOf(e, o.st, m, src, false)
			c.ob(rule, "Node.GetLabels", msg == "", fn.Pos(), "%s", msg)
		}
	})
	_ = t
}

func init() {
	reg("C11", "Abstract interpretation of the constructors and of all label set operations: maps of label sets are changed only by the operation that made them (checked at every map update in the package), the copying constructors keep new maps holding exactly what was given (copy loops complete, key and value unchanged), and no operation gives out an element's own containers.", 14, func(c *Ctx) {
		c.checkCopyOnWrite("label-set-copy-on-write")
		c.checkLabelSetOps("label-set")
		c.checkCopyingConstructors("constructor-copies")
		c.checkGivenOut("given-out")
	})
}
