package main

import (
	"fmt"
	"go/types"
)

// checkDedupItr: nodesFromEdgesIterator takes edges one by one, delivers the
// node of an edge exactly if no earlier edge had it, and remembers it then.
func (c *Ctx) checkDedupItr(rule string) {
	typ := "nodesFromEdgesIterator"
	con := typ
	c.guard(rule, con, func() {
		fn := c.fn(typ + ".Next")
		nf := c.fn(typ + ".Node")
		vf := c.fn(typ + ".Value")
		pt := fn.Params[0].Type()
		node := types.NewPointer(c.typ("Node"))
		e := newEng(c.w)
		e.hook = hooks(itrModel, stdModel)
		st := e.newState()
		p := e.tt.Param("itr", pt)
		st.nn[p] = true
		in := e.tt.Init(e.fld(p, pt, "itr"), fieldType(pt, "itr"))
		seen := e.tt.Init(e.fld(p, pt, "seen"), fieldType(pt, "seen"))
		st0 := st.clone()
		outs := c.runArgs(e, fn, []*Term{p}, st)
		for _, o := range outs {
			if o.panic {
				c.fail(rule, con, o.pos, "Next may panic: %s", o.panicIs)
				continue
			}
			for _, t := range pieces(st0, o.st.tr.list(), o.st, true) {
				s := t.to
				steps := 0
				var upd []*Event
				for _, ev := range t.evs {
					if ev.kind == EvCall && ev.invoke && ev.name == "Next" {
						steps++
						c.ob(rule, con, s.canon(ev.args[0]) == s.canon(in), ev.pos, "moves %v", ev.args[0])
					}
					if ev.kind == EvMapUpd || ev.kind == EvMapDel {
						upd = append(upd, ev)
					}
				}
				more := func(b bool) bool {
					pos := s.load(e.tt.Field(s.canon(in), 0, "$pos", types.Typ[types.Int]), types.Typ[types.Int])
					v, k := s.evalBool(s.canon(e.tt.App("more", types.Typ[types.Bool], s.canon(in), pos)))
					return k && v == b
				}
				if steps == 0 && !t.final {
					// the way to the loop
					c.ob(rule, con, len(upd) == 0, fn.Pos(), "marks nodes before looking at an edge")
					continue
				}
				if t.final {
					r, k := s.evalBool(s.canon(o.ret[0]))
					if !k {
						c.fail(rule, con, fn.Pos(), "undecided: result %v", o.ret[0])
						continue
					}
					if !r {
						c.ob(rule, con, steps == 1 && more(false) && len(upd) == 0, fn.Pos(), "reports the end while edges may be left, or marks a node as seen (%s)", outDesc(o))
						continue
					}
				}
				if !c.ob(rule, con, steps == 1 && more(true), fn.Pos(), "takes %d edges at a time", steps) {
					continue
				}
				e.steps = 0
				for _, no := range c.runArgs(e, nf, []*Term{p}, s.clone()) {
					if no.panic {
						c.fail(rule, con+".Node", no.pos, "may panic after a successful Next: %s", no.panicIs)
						continue
					}
					n := no.st.canon(no.ret[0])
					isKey := func(k *Term) bool {
						k = strip(no.st.canon(k))
						return k == n || k == no.st.canon(no.st.get(n, node, "id"))
					}
					known, was := false, false
					for f, b := range no.st.facts {
						if app(f, "has") && no.st.canon(f.args[0]) == no.st.canon(seen) && isKey(f.args[1]) {
							if len(upd) == 0 || f.args[2].isConst() && f.args[2].cv != nil && f.args[2].String() == "0" {
								known, was = true, b
							}
						}
					}
					if !t.final {
						c.ob(rule, con, known && was && len(upd) == 0, fn.Pos(), "the node of an edge is passed over although no earlier edge had it (seen: %v %v)", known, was)
						continue
					}
					c.ob(rule, con, known && !was, fn.Pos(), "a node is delivered although an earlier edge had it (%s)", outDesc(o))
					c.ob(rule, con, len(upd) == 1 && upd[0].kind == EvMapUpd && no.st.canon(upd[0].args[0]) == no.st.canon(seen) && isKey(upd[0].args[1]), fn.Pos(), "the delivered node is not remembered")
					e.steps = 0
					for _, vo := range c.runArgs(e, vf, []*Term{p}, no.st.clone()) {
						c.ob(rule, con+".Value", !vo.panic && strip(vo.st.canon(vo.ret[0])) == n, vf.Pos(), "Value is not the node delivered")
					}
				}
			}
		}
		// built with nothing seen
		c.freshField(rule, typ, "seen")
	})
}

// freshField: wherever an object of the type is built, the map in the field is
// new and empty.
func (c *Ctx) freshField(rule, typ, field string) {
	n := 0
	for _, f := range c.w.all {
		for _, wr := range c.w.writes(f) {
			if wr.field == typ+"."+field && !wr.fresh && wr.op == "store" {
				c.fail(rule, fnName(f), wr.pos, "%s replaces what %s has seen", fnName(f), typ)
			}
		}
	}
	for _, f := range c.w.all {
		if f.Synthetic != "" || !allocsType(f, typ) {
			continue
		}
		f := f
		c.guard(rule, fnName(f), func() {
			e := newEng(c.w)
			e.hook = hooks(stdModel)
			st := e.newState()
			var args, free []*Term
			for _, p := range f.Params {
				args = append(args, e.tt.Param(p.Name(), p.Type()))
			}
			for _, p := range f.FreeVars {
				free = append(free, e.tt.Param(p.Name(), p.Type()))
			}
			outs := e.call(f, args, free, st, "r")
			c.account(e, outs)
			for _, o := range outs {
				if o.st.dead {
					continue
				}
				for a := range o.st.mem {
					x := a.root()
					if x.op == OpNew && typeName(x.typ) == typ {
						m := o.st.canon(o.st.get(x, x.typ, field))
						n++
						c.ob(rule, fnName(f), m.op == OpNew && o.st.emptyMap(m), f.Pos(), "a new %s starts with %v as seen", typ, m)
					}
				}
			}
		})
	}
	c.ob(rule, typ, n > 0, 0, "undecided: no %s is built", typ)
}

// checkUniqueFilter: makeUniqueIterator filters the given iterator by a
// function that accepts an item exactly if it did not see it before.
func (c *Ctx) checkUniqueFilter(rule string) {
	con := "makeUniqueIterator"
	c.guard(rule, con, func() {
		fn := c.fn(con)
		e, outs := c.run(fn, hooks(stdModel), nil)
		arg := e.tt.Param(fn.Params[0].Name(), fn.Params[0].Type())
		for _, o := range outs {
			if o.panic {
				c.fail(rule, con, o.pos, "may panic: %s", o.panicIs)
				continue
			}
			d := c.den(e, o.st, o.ret[0])
			if !c.ob(rule, con, d.k == "filter" && d.sub[0].k == "val" && d.sub[0].a[0] == arg, fn.Pos(), "the result is %v, not the given iterator filtered", d) {
				continue
			}
			it := e.tt.Param("item", fn.Signature.Results().At(0).Type())
			it = e.tt.Param("item", types.NewInterfaceType(nil, nil))
			nf, nt := 0, 0
			f := o.st.canon(d.a[0])
			if f.op != OpClos {
				c.fail(rule, con, fn.Pos(), "undecided: the filter is %v", f)
				continue
			}
			// whatever was seen before
			fst := e.newState()
			var free []*Term
			first := map[*Term]*Term{}
			for i, fv := range f.fn.FreeVars {
				a := e.tt.Param("captured", fv.Type())
				if i > 0 {
					a = e.tt.Param(fmt.Sprintf("captured%d", i), fv.Type())
				}
				fst.nn[a] = true
				free = append(free, a)
				if pt, ok := fv.Type().Underlying().(*types.Pointer); ok {
					first[e.tt.Init(a, pt.Elem())] = o.st.canon(o.st.load(f.args[i], pt.Elem()))
				} else {
					first[a] = o.st.canon(f.args[i])
				}
			}
			e.steps = 0
			fouts := e.call(f.fn, []*Term{it}, free, fst, "clos")
			c.account(e, fouts)
			for _, fo := range fouts {
				if fo.st.dead {
					continue
				}
				if fo.panic {
					c.fail(rule, con, fo.pos, "the filter may panic: %s", fo.panicIs)
					continue
				}
				s := fo.st
				var upd []Ev
				for _, ev := range flat(s) {
					if ev.kind == EvMapUpd || ev.kind == EvMapDel {
						upd = append(upd, ev)
					}
				}
				r, k := s.evalBool(s.canon(fo.ret[0]))
				var m *Term
				was, known := false, false
				for f, b := range s.facts {
					if app(f, "has") && strip(f.args[1]) == it && f.args[2].String() == "0" {
						m, was, known = f.args[0], b, true
					}
				}
				for f, b := range s.facts {
					// a map of booleans that are only ever set
					if m == nil && app(f, "mapget") && strip(f.args[1]) == it && f.args[2].String() == "0" {
						set := true
						for _, ev := range upd {
							set = set && ev.kind == EvMapUpd && s.yes(ev.args[2])
						}
						if set {
							m, was, known = f.args[0], b, true
						}
					}
				}
				if !k && !known {
					// the result is the membership itself
					c.fail(rule, con, fn.Pos(), "undecided: the filter returns %v", fo.ret[0])
					continue
				}
				if m == nil {
					// a new map has nothing in it: evaluate what the filter was given
					c.fail(rule, con, fn.Pos(), "undecided: the filter does not ask what was seen")
					continue
				}
				m0 := first[m]
				c.ob(rule, con, m0 != nil && m0.op == OpNew && o.st.emptyMap(m0), fn.Pos(), "the items seen are kept in %v, which is not new and empty at first", m0)
				if r {
					nt++
					c.ob(rule, con, known && !was && len(upd) == 1 && upd[0].kind == EvMapUpd && upd[0].args[0] == m && strip(upd[0].args[1]) == it, fn.Pos(), "an item is accepted without being new, or is not remembered")
				} else {
					nf++
					c.ob(rule, con, known && was && len(upd) == 0, fn.Pos(), "an item is dropped although it was not seen")
				}
			}
			c.ob(rule, con, nt > 0 && nf > 0, fn.Pos(), "the filter always decides alike")
		}
	})
}

// checkSliceCollector: the function returns all elements of its iterator, each
// once and in order.
func (c *Ctx) checkSliceCollector(rule, name string) {
	c.guard(rule, name, func() {
		fn := c.fn(name)
		e, outs := c.run(fn, hooks(stdModel), nil)
		in := e.tt.Param(fn.Params[0].Name(), fn.Params[0].Type())
		for _, o := range outs {
			end := false
			for _, ev := range o.st.tr.list() {
				if ev.kind == EvCall && ev.invoke && ev.name == "Next" && ev.args[0] == in {
					v, k := o.st.evalBool(o.st.canon(ev.res))
					end = k && !v
				}
			}
			c.ob(rule, name, o.panic || end, fn.Pos(), "the iterator is not read to its end")
		}
		c.collects(rule, name, e, outs, fn.Pos(), func(st *State, it *Iter) bool {
			return it.kind == "itr" && it.coll == in
		}, func(sg *Seg, it *Iter, added []*Term) string {
			if len(added) == 1 && it.isElem(sg.st, sg.st.canon(added[0])) {
				return ""
			}
			return "an element is not collected exactly once"
		})
	})
}
