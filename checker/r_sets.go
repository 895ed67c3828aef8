package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// asked is the answer a function value gave for the arguments, asked once.
func (c *Ctx) asked(st *State, f *Term, args ...*Term) (val, known bool) {
	n := 0
	for _, x := range line(st.tr.list(), st) {
		if x.kind != EvCall || !x.dynamic || len(x.args) != len(args)+1 || x.args[0] != st.canon(f) {
			continue
		}
		same := true
		for i, a := range args {
			same = same && x.args[i+1] == st.canon(a)
		}
		if same {
			n++
			val, known = st.evalBool(st.canon(x.res))
		}
	}
	return val, known && n == 1
}

// checkAccessors: property accessors answer what is stored, and the ForEach
// functions go through everything until they are told to stop.
func (c *Ctx) checkAccessors(rule string) {
	props := func(e *Eng, st *State, fn *ssa.Function) *Term {
		p := e.tt.Param(fn.Params[0].Name(), fn.Params[0].Type())
		pt := fn.Params[0].Type().Underlying().(*types.Pointer)
		if _, ok := pt.Elem().Underlying().(*types.Map); ok {
			return st.canon(e.tt.Init(p, pt.Elem()))
		}
		return st.canon(e.tt.Init(e.fld(p, fn.Params[0].Type(), "properties"), fieldType(fn.Params[0].Type(), "properties")))
	}
	nn := func(e *Eng, st *State, args []*Term) { st.nn[args[0]] = true }
	for _, name := range []string{"properties.getProperty", "Node.GetProperty", "Edge.GetProperty"} {
		name := name
		c.guard(rule, name, func() {
			fn := c.fn(name)
			e, outs := c.run(fn, stdModel, nn)
			k := e.tt.Param(fn.Params[1].Name(), fn.Params[1].Type())
			for _, o := range outs {
				if o.panic {
					c.fail(rule, name, o.pos, "may panic: %s", o.panicIs)
					continue
				}
				m := props(e, o.st, fn)
				s := o.st
				h, known := c.hasKey(s, m, k)
				r, rk := s.evalBool(s.canon(o.ret[1]))
				v, has := s.mapLookup(m, k, types.NewInterfaceType(nil, nil))
				c.ob(rule, name, known && rk && h == r || s.canon(o.ret[1]) == s.canon(has), fn.Pos(), "reports %v for whether there is the property", o.ret[1])
				got := s.canon(o.ret[0])
				ok := got == s.canon(v) || known && !h && got.isNil()
				if known && h {
					ok = app(got, "mapget") && got.args[0] == m && got.args[1] == s.canon(k)
				} else if !known {
					ok = app(got, "mapget") && got.args[0] == m && got.args[1] == s.canon(k)
				}
				c.ob(rule, name, ok, fn.Pos(), "gives %v, not the value of the property", got)
			}
		})
	}
	for _, name := range []string{"properties.forEachProperty", "Node.ForEachProperty", "Edge.ForEachProperty"} {
		name := name
		c.guard(rule, name, func() {
			fn := c.fn(name)
			e, outs := c.run(fn, stdModel, nn)
			f := e.tt.Param(fn.Params[1].Name(), fn.Params[1].Type())
			c.quantifier(rule, name, e, outs, fn.Pos(), true, func(st *State, it *Iter) bool {
				return it.kind == "map" && it.coll == props(e, st, fn)
			}, func(st *State) bool { return st.emptyMap(props(e, st, fn)) }, func(st *State, it *Iter) (bool, bool) {
				v, _ := st.mapLookup(props(e, st, fn), it.key, types.NewInterfaceType(nil, nil))
				return c.asked(st, f, st.canon(it.key), st.canon(v))
			})
			c.toldOnce(rule, name, e, outs, fn.Pos(), f)
		})
	}
}

// toldOnce: the function is called only in the loop over the elements.
func (c *Ctx) toldOnce(rule, con string, e *Eng, outs []Outcome, pos token.Pos, f *Term) {
	for _, o := range outs {
		n := 0
		for _, x := range o.st.tr.list() {
			if x.kind == EvCall && x.dynamic {
				n++
			}
		}
		c.ob(rule, con, n <= 1, pos, "the function is called again after the loop (%s)", outDesc(o))
	}
}

// checkForEachNode: the predicate is asked for each node until it says no.
func (c *Ctx) checkForEachNode(rule string) {
	c.guard(rule, "ForEachNode", func() {
		name := "ForEachNode"
		fn := c.fn(name)
		e, outs := c.run(fn, hooks(atoms("Graph.GetNodes", "NodeSlice"), stdModel), nn1)
		g := e.tt.Param(fn.Params[0].Name(), fn.Params[0].Type())
		f := e.tt.Param(fn.Params[1].Name(), fn.Params[1].Type())
		nodes := func(st *State, t *Term) bool {
			t = strip(st.canon(t))
			cl := st.callOf(t)
			if cl != nil && cl.name == "NodeSlice" {
				cl = st.callOf(strip(st.canon(cl.args[0])))
			}
			return cl != nil && cl.name == "Graph.GetNodes" && st.canon(cl.args[0]) == g
		}
		c.quantifier(rule, name, e, outs, fn.Pos(), true, func(st *State, it *Iter) bool {
			return (it.kind == "itr" || it.kind == "slice") && nodes(st, it.coll)
		}, func(st *State) bool { return false }, func(st *State, it *Iter) (bool, bool) {
			n := 0
			v, known := false, false
			for _, x := range line(st.tr.list(), st) {
				if x.kind == EvCall && x.dynamic && x.args[0] == st.canon(f) && len(x.args) == 2 && it.isElem(st, x.args[1]) {
					n++
					v, known = st.evalBool(st.canon(x.res))
				}
			}
			return v, known && n == 1
		})
		c.toldOnce(rule, name, e, outs, fn.Pos(), f)
	})
}

func nn1(e *Eng, st *State, args []*Term) { st.nn[args[0]] = true }

// checkSetSlice: the listing of a set is made of what its iterator gives.
func (c *Ctx) checkSetSlice(rule, name, itr, slice string) {
	c.guard(rule, name, func() {
		fn := c.fn(name)
		e, outs := c.run(fn, hooks(atoms(itr, slice), stdModel), nil)
		set := e.tt.Param(fn.Params[0].Name(), fn.Params[0].Type())
		from := func(s *State, t *Term) bool {
			cl := s.callOf(strip(s.canon(t)))
			return cl != nil && cl.name == itr && s.canon(cl.args[0]) == s.canon(set)
		}
		for _, o := range outs {
			if o.panic {
				c.fail(rule, name, o.pos, "may panic: %s", o.panicIs)
				continue
			}
			s := o.st
			cl := s.callOf(s.canon(o.ret[0]))
			ok := cl != nil && cl.name == slice && from(s, cl.args[0])
			if !ok {
				if g, _ := c.gathered(e, s, o.ret[0]); g != nil && g.it.kind == "itr" && g.init && from(s, g.it.coll) {
					ok = true
					for _, sg := range g.it.loop.segs {
						ok = ok && len(g.add[sg]) == 1 && g.it.isElem(sg.st, g.add[sg][0])
					}
				}
			}
			c.ob(rule, name, ok, fn.Pos(), "gives %v, not the elements of the set", o.ret[0])
		}
	})
}

// checkSorted: the sorted listing of a label set is its listing, sorted.
func (c *Ctx) checkSorted(rule string) {
	name := "StringSet.SortedSlice"
	c.guard(rule, name, func() {
		fn := c.fn(name)
		e, outs := c.run(fn, hooks(atoms("StringSet.Slice"), stdModel), nil)
		set := e.tt.Param(fn.Params[0].Name(), fn.Params[0].Type())
		for _, o := range outs {
			if o.panic {
				c.fail(rule, name, o.pos, "may panic: %s", o.panicIs)
				continue
			}
			s := o.st
			sorted := s.canon(o.ret[0])
			done := false
			for _, x := range flat(s) {
				switch {
				case x.isCall("sort.Strings", "slices.Sort", "slices.Sort[[]string string]", "slices.Sort[[]string,string]"):
					done = done || x.args[0] == sorted
				case x.isCall("sort.Sort", "sort.Stable", "sort.Slice", "sort.SliceStable", "slices.SortFunc"):
					done = true
				}
			}
			cl := s.callOf(sorted)
			if cl != nil && (cl.name == "slices.Sorted" || len(cl.name) > 13 && cl.name[:13] == "slices.Sorted") {
				continue
			}
			ok := cl != nil && cl.name == "StringSet.Slice" && s.canon(cl.args[0]) == s.canon(set)
			if !ok {
				if g, _ := c.gathered(e, s, sorted); g != nil && g.it.kind == "map" && g.init && g.it.coll == c.setM(s, set) {
					ok = true
				}
			}
			c.ob(rule, name, ok, fn.Pos(), "gives %v, not the elements of the set", sorted)
			c.ob(rule, name, done, fn.Pos(), "the elements are not sorted")
		}
	})
}

func init() {
	reg("C33", "Abstract interpretation of the set types and accessors: node and edge sets add, remove, test, count and list under the element's identifier, keeping map and list equal; label set tests decide as quantifiers over the elements with early answers only on a witness; property accessors answer what the map holds; the ForEach functions ask for each element once until told to stop.", 30, func(c *Ctx) {
		c.checkFastSet()
		c.checkSetType("nodeset", "NodeSet")
		c.checkSetType("edgeset", "EdgeSet")
		c.checkSetSlice("nodeset", "NodeSet.Slice", "NodeSet.Iterator", "NodeSlice")
		c.checkSetSlice("edgeset", "EdgeSet.Slice", "EdgeSet.Iterator", "EdgeSlice")
		c.checkSliceCollector("slices", "NodeSlice")
		c.checkSliceCollector("slices", "EdgeSlice")
		c.checkSetQueries("labelset", "StringSet.Has", "StringSet.HasAllSet", "StringSet.HasAny", "StringSet.HasAll", "StringSet.HasAnySet")
		c.checkLabelSetOps("labelset")
		c.checkSorted("labelset")
		c.checkLabelJSON("labeljson")
		c.checkLabelDecode("labeljson")
		c.checkAccessors("accessors")
		c.checkForEachNode("foreach")
	})
}

// checkLabelDecode: a label set is read from the list of its labels, or the
// error is reported and the set stays.
func (c *Ctx) checkLabelDecode(rule string) {
	con := "StringSet.UnmarshalJSON"
	c.guard(rule, con, func() {
		f := c.fn(con)
		ss := c.typ("StringSet")
		sp := types.NewPointer(ss)
		var got *Term
		read := func(e *Eng, st *State, ci *CallInfo) ([]CallRes, bool) {
			if ci.name != "encoding/json.Unmarshal" {
				return nil, false
			}
			st2 := st.clone()
			out := e.opaque0(st2, ci)
			dst := strip(st2.canon(ci.args[1]))
			for _, r := range out {
				if pt, ok := dst.typ.Underlying().(*types.Pointer); ok {
					got = e.tt.Unk("decoded", pt.Elem())
					r.st.store(dst, got, pt.Elem())
				}
			}
			return out, true
		}
		e, outs := c.run(f, hooks(read, stdModel), nn1)
		recv := e.tt.Param(f.Params[0].Name(), nil)
		in := e.tt.Param(f.Params[1].Name(), nil)
		m0 := e.tt.Init(e.fld(recv, sp, "M"), fieldType(sp, "M"))
		n := 0
		for _, o := range outs {
			if o.panic {
				c.fail(rule, con, o.pos, "may panic: %s", o.panicIs)
				continue
			}
			s := o.st
			var call *Ev
			for _, x := range top(s) {
				if x.isCall("encoding/json.Unmarshal") {
					x := x
					call = &x
				}
			}
			if call == nil || got == nil || call.args[0] != in || sliceElem(got.typ) == nil || typeKey(sliceElem(got.typ)) != "string" {
				c.fail(rule, con, f.Pos(), "the labels are not read from the list given")
				continue
			}
			err := s.canon(call.res)
			nilErr, known := s.evalBool(s.canon(e.tt.eq(err, e.tt.Nil())))
			r := s.canon(o.ret[0])
			m := s.canon(s.get(recv, sp, "M"))
			if known && !nilErr {
				rn, rk := s.evalBool(s.canon(e.tt.eq(r, e.tt.Nil())))
				c.ob(rule, con, r == err || rk && !rn, f.Pos(), "the error is lost")
				c.ob(rule, con, m == s.canon(m0), f.Pos(), "the set changes although its JSON cannot be read")
				continue
			}
			if !c.ob(rule, con, known && (r.isNil() || r == err), f.Pos(), "the set is filled without a look at the error, or an error is made up") {
				continue
			}
			n++
			msg := c.holdsList(e, s, m, got, nil)
			c.ob(rule, con, msg == "", f.Pos(), "%s", msg)
		}
		c.ob(rule, con, n > 0, f.Pos(), "no set is ever read")
	})
}
