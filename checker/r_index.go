package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- index implementations

const btp = "(*github.com/emirpasic/gods/trees/btree.Tree)."

// ixOp is what an index operation did to the id-keyed set of one value.
type ixKey struct {
	set     *Term // the set operated on
	found   bool  // the value was in the index
	known   bool
	created *Term // new set put under the value
}

func ixHook() Hook {
	return hooks(stdModel, atoms("fastSet.add", "fastSet.remove", "fastSet.get", "fastSet.has", "fastSet.size", "fastSet.iterator", "newFastSet"))
}

// nativeKey is the value an index is to use for a property value.
func nativeKey(st *State, v *Term, iface types.Type) (*Term, bool) {
	var nat *Term
	asked, is := false, false
	for f, b := range st.facts {
		if app(f, "typeis") && len(f.args) > 0 && f.args[0] == v && strings.Contains(f.String(), "WithNativeValue") {
			asked, is = true, b
		}
	}
	if !asked {
		return v, false
	}
	if !is {
		return v, true
	}
	for _, x := range flat(st) {
		if x.kind == EvCall && x.invoke && x.name == "GetNativeValue" && x.args[0] == v {
			nat = x.res
		}
	}
	return nat, nat != nil
}

func (c *Ctx) checkIndexImpls(rule string) {
	hix := types.NewPointer(c.typ("hashIndex"))
	tix := types.NewPointer(c.typ("setTree"))
	type ctx struct {
		e    *Eng
		fn   *ssa.Function
		recv *Term // address of the index
		a    []*Term
	}
	run := func(name string) (*ctx, []Outcome) {
		fn := c.fn(name)
		e := newEng(c.w)
		e.hook = ixHook()
		st := e.newState()
		pt := tix
		if strings.HasPrefix(name, "hashIndex") {
			pt = hix
		}
		x := &ctx{e: e, fn: fn}
		x.recv = e.tt.Param("ix", pt)
		st.nn[x.recv] = true
		args := []*Term{x.recv}
		if _, ok := fn.Params[0].Type().Underlying().(*types.Pointer); !ok {
			args[0] = st.load(x.recv, fn.Params[0].Type())
		}
		for _, q := range fn.Params[1:] {
			args = append(args, e.tt.Param(q.Name(), q.Type()))
		}
		x.a = args
		outs := c.runArgs(e, fn, args, st)
		for _, o := range outs {
			for _, ev := range flat(o.st) {
				if ev.kind == EvCall && strings.HasPrefix(ev.name, btp) {
					c.ob(rule, name, o.st.nonNil(o.st.canon(ev.args[0])) || ev.args[0].op == OpUnk && ev.args[0].call != nil, ev.pos, "%s on a tree that may be nil", ev.name[len(btp):])
				}
			}
		}
		return x, outs
	}
	// what the trace says about the set of the given value
	hashAt := func(x *ctx, o Outcome) (ixKey, *Term) {
		s := o.st
		k := x.a[1]
		k, asked := nativeKey(s, k, nil)
		var r ixKey
		if k == nil {
			return r, nil
		}
		if !asked {
			for _, ev := range flat(s) {
				if (ev.kind == EvMapUpd || ev.kind == EvMapDel) && ev.args[1] == k {
					return r, nil
				}
			}
			for f := range s.facts {
				if anywhere(f, func(t *Term) bool { return (app(t, "mapget") || app(t, "has")) && len(t.args) > 1 && t.args[1] == k }) {
					return r, nil
				}
			}
		}
		m0 := s.canon(x.e.tt.Init(x.e.fld(x.recv, hix, "values"), fieldType(hix, "values")))
		v, has := entryLookup(s, m0, k)
		if m0.isNil() || s.wasEmpty(m0) {
			r.known, r.found = true, false
		} else if b, kn := s.evalBool(has); kn {
			r.known, r.found = true, b
		} else if b, kn := s.evalBool(s.canon(x.e.tt.eq(v, x.e.tt.Nil()))); kn {
			r.known, r.found = true, !b
		}
		if b, kn := s.evalBool(s.canon(x.e.tt.eq(m0, x.e.tt.Nil()))); kn && b {
			r.known, r.found = true, false
		}
		r.set = v
		for _, ev := range flat(s) {
			if ev.kind == EvMapUpd && ev.args[1] == k {
				r.created = strip(ev.args[2])
			}
		}
		return r, k
	}
	treeAt := func(x *ctx, o Outcome) (ixKey, *Term) {
		s := o.st
		k := x.a[1]
		var r ixKey
		t0 := s.canon(x.e.tt.Init(x.e.fld(x.recv, tix, "tree"), fieldType(tix, "tree")))
		if b, kn := s.evalBool(s.canon(x.e.tt.eq(t0, x.e.tt.Nil()))); kn && b {
			r.known, r.found = true, false
		}
		for _, ev := range flat(s) {
			if ev.isCall(btp+"Get") && ev.args[1] == k && ev.res.op == OpTuple {
				if ev.args[0] == t0 {
					if b, kn := s.evalBool(s.canon(ev.res.args[1])); kn {
						r.known, r.found = true, b
					}
					r.set = s.canon(x.e.tt.App("as:*lpg.fastSet", nil, s.canon(ev.res.args[0])))
				} else if ev.args[0].op == OpUnk && ev.args[0].call != nil && strings.HasSuffix(ev.args[0].call.name, "btree.NewWith") {
					// nothing in a new tree
					if b, kn := s.evalBool(s.canon(ev.res.args[1])); kn && b {
						r.known, r.found, r.set = true, true, nil // impossible
					}
				}
			}
			if ev.isCall(btp+"Put") && ev.args[1] == k {
				r.created = strip(ev.args[2])
			}
		}
		return r, k
	}
	sameSet := func(a, b *Term) bool {
		if a == nil || b == nil {
			return false
		}
		a, b = setOf(nil, a), setOf(nil, b)
		if y, _, ok := asOf(a); ok {
			a = y
		}
		if y, _, ok := asOf(b); ok {
			b = y
		}
		return a == b
	}
	for _, impl := range []string{"hashIndex", "setTree"} {
		impl := impl
		at := hashAt
		if impl == "setTree" {
			at = treeAt
		}
		idArg := 2
		c.guard(rule, impl+".add", func() {
			con := impl + ".add"
			x, outs := run(con)
			for _, o := range outs {
				if o.panic {
					c.fail(rule, con, o.pos, "may panic: %s", o.panicIs)
					continue
				}
				k, key := at(x, o)
				if key == nil {
					c.fail(rule, con, x.fn.Pos(), "undecided: the key the value is kept under")
					continue
				}
				if k.found && k.set == nil {
					continue // found in an empty tree
				}
				s := o.st
				var adds, other, push []Ev
				for _, ev := range flat(s) {
					switch {
					case ev.isCall("fastSet.add"):
						adds = append(adds, ev)
					case ev.isCall("(*container/list.List).PushBack", "(*container/list.List).PushFront"):
						push = append(push, ev)
					case ev.isCall("fastSet.remove", "(*container/list.List).Remove", btp+"Remove", btp+"Clear") || ev.kind == EvMapDel:
						other = append(other, ev)
					}
				}
				if len(adds) != 1 || len(other) > 0 {
					c.fail(rule, con, x.fn.Pos(), "the element is added %d times to sets (%s)", len(adds), outDesc(o))
					continue
				}
				a := adds[0]
				want := k.set
				if !k.known || !k.found {
					want = k.created
				}
				c.ob(rule, con, k.known && k.found == (k.created == nil), a.pos, "a value that has a set gets a new one, or one without a set gets none (%s)", outDesc(o))
				c.ob(rule, con, sameSet(a.args[0], want), a.pos, "the element goes to %v, not to the set of its value %v", a.args[0], key)
				if k.created != nil {
					c.ob(rule, con, k.created.op == OpUnk && s.callOf(k.created) != nil && s.callOf(k.created).name == "newFastSet", a.pos, "%v is put under the value", k.created)
				}
				c.ob(rule, con, a.args[1] == x.a[idArg], a.pos, "the element is kept under %v instead of its id", a.args[1])
				item := x.a[3]
				if impl == "hashIndex" {
					ok := len(push) == 1 && fieldBase(push[0].args[0], "elements") == x.recv && strip(push[0].args[1]) == item
					c.ob(rule, con, ok, x.fn.Pos(), "the list of all elements does not get the element exactly once")
					c.ob(rule, con, ok && strip(a.args[2]) == push[0].res, a.pos, "the set does not keep the element's place in the list of all elements")
				} else {
					c.ob(rule, con, strip(a.args[2]) == item && len(push) == 0, a.pos, "%v is added instead of the element", a.args[2])
				}
				// the container is kept in the index
				if impl == "hashIndex" {
					m1 := s.canon(s.get(x.recv, hix, "values"))
					if k.created != nil {
						ok := false
						for _, ev := range flat(s) {
							if ev.kind == EvMapUpd && ev.args[1] == key && ev.args[0] == m1 {
								ok = true
							}
						}
						c.ob(rule, con, ok, x.fn.Pos(), "the new set is not kept in the index")
					}
				} else {
					t1 := s.canon(s.get(x.recv, tix, "tree"))
					for _, ev := range flat(s) {
						if ev.isCall(btp + "Put") {
							c.ob(rule, con, ev.args[0] == t1, ev.pos, "the new set is not kept in the index")
						}
						if ev.kind == EvCall && strings.HasSuffix(ev.name, "btree.NewWith") {
							n, isC := ev.args[0].constInt()
							c.ob(rule, con, isC && n >= 3 && ev.args[1].op == OpClos && fnName(ev.args[1].fn) == "ComparePropertyValue" || isC && n >= 3 && ev.args[1].op == OpFunc && fnName(ev.args[1].fn) == "ComparePropertyValue", ev.pos, "the tree is not ordered by ComparePropertyValue: %v", ev.args)
						}
					}
				}
			}
		})
		c.guard(rule, impl+".remove", func() {
			con := impl + ".remove"
			x, outs := run(con)
			for _, o := range outs {
				if o.panic {
					c.fail(rule, con, o.pos, "may panic: %s", o.panicIs)
					continue
				}
				k, key := at(x, o)
				if key == nil {
					c.fail(rule, con, x.fn.Pos(), "undecided: the key the value is kept under")
					continue
				}
				s := o.st
				var rem, other, lrem, drop, gets, sizes []Ev
				for _, ev := range flat(s) {
					switch {
					case ev.isCall("fastSet.remove"):
						rem = append(rem, ev)
					case ev.isCall("(*container/list.List).Remove"):
						lrem = append(lrem, ev)
					case ev.isCall(btp+"Remove") || ev.kind == EvMapDel:
						drop = append(drop, ev)
					case ev.isCall("fastSet.get"):
						gets = append(gets, ev)
					case ev.isCall("fastSet.size"):
						sizes = append(sizes, ev)
					case ev.isCall("fastSet.add", btp+"Put", btp+"Clear", "(*container/list.List).PushBack", "(*container/list.List).PushFront") || ev.kind == EvMapUpd:
						other = append(other, ev)
					}
				}
				c.ob(rule, con, len(other) == 0, x.fn.Pos(), "something is added")
				missing := k.known && !k.found
				for _, g := range gets {
					if g.res.op == OpTuple && sameSet(g.args[0], k.set) && g.args[1] == x.a[idArg] {
						if b, kn := s.evalBool(s.canon(g.res.args[1])); kn && !b {
							missing = true
						}
					}
				}
				if missing {
					c.ob(rule, con, len(lrem) == 0 && len(drop) == 0, x.fn.Pos(), "an element that is not there changes the index")
					continue
				}
				if len(rem) != 1 {
					c.fail(rule, con, x.fn.Pos(), "the element leaves %d sets (%s)", len(rem), outDesc(o))
					continue
				}
				a := rem[0]
				c.ob(rule, con, k.known && k.found && sameSet(a.args[0], k.set), a.pos, "the element leaves %v, not the set of its value %v", a.args[0], key)
				c.ob(rule, con, a.args[1] == x.a[idArg], a.pos, "element %v leaves instead of the one given", a.args[1])
				if impl == "hashIndex" {
					ok := len(lrem) == 1 && fieldBase(lrem[0].args[0], "elements") == x.recv
					if ok {
						p := lrem[0].args[1]
						if y, _, isAs := asOf(p); isAs {
							p = y
						}
						ok = false
						for _, g := range gets {
							if g.res.op == OpTuple && s.canon(g.res.args[0]) == p && sameSet(g.args[0], k.set) && g.args[1] == x.a[idArg] && g.idx < a.idx {
								ok = true
							}
						}
					}
					c.ob(rule, con, ok, x.fn.Pos(), "the element does not leave the list of all elements")
				} else {
					c.ob(rule, con, len(lrem) == 0, x.fn.Pos(), "undecided: list removal")
				}
				for _, d := range drop {
					emp := false
					for _, z := range sizes {
						iv := s.ivalOf(z.res)
						if z.idx > a.idx && z.idx < d.idx && sameSet(z.args[0], k.set) && (iv.hasHi && iv.hi <= 0 || z.res == x.e.tt.Int(0)) {
							emp = true
						}
					}
					c.ob(rule, con, emp && (d.args[1] == key), d.pos, "a value's set is dropped although it may not be empty, or another value's is")
				}
			}
		})
		c.guard(rule, impl+".find", func() {
			con := impl + ".find"
			x, outs := run(con)
			for _, o := range outs {
				if o.panic {
					c.fail(rule, con, o.pos, "may panic: %s", o.panicIs)
					continue
				}
				k, key := at(x, o)
				if key == nil {
					c.fail(rule, con, x.fn.Pos(), "undecided: the key looked up")
					continue
				}
				d := c.den(x.e, o.st, o.ret[0])
				if k.known && !k.found {
					c.ob(rule, con, d.k == "empty", x.fn.Pos(), "a value that is not in the index gives %v", d)
					continue
				}
				in := d
				if impl == "hashIndex" {
					if d.k != "map" {
						c.fail(rule, con, x.fn.Pos(), "gives %v for value %v (%s)", d, key, outDesc(o))
						continue
					}
					in = d.sub[0]
					c.elementOf(rule, con, x.e, o.st, d.a[0], x.fn.Pos())
				}
				c.ob(rule, con, k.known && in.k == "call:fastSet.iterator" && sameSet(in.a[0], k.set), x.fn.Pos(), "gives %v, not the elements with value %v", d, key)
			}
		})
		c.guard(rule, impl+".valueItr", func() {
			con := impl + ".valueItr"
			x, outs := run(con)
			for _, o := range outs {
				if o.panic {
					c.fail(rule, con, o.pos, "may panic: %s", o.panicIs)
					continue
				}
				s := o.st
				d := c.den(x.e, s, o.ret[0])
				if impl == "hashIndex" {
					m0 := s.canon(x.e.tt.Init(x.e.fld(x.recv, hix, "values"), fieldType(hix, "values")))
					if d.k == "empty" {
						b, kn := s.evalBool(s.canon(x.e.tt.eq(m0, x.e.tt.Nil())))
						c.ob(rule, con, kn && b || s.wasEmpty(m0), x.fn.Pos(), "gives nothing although there may be elements")
						continue
					}
					c.ob(rule, con, d.k == "list" && app(d.a[0], "list.Front") && fieldBase(d.a[0].args[0], "elements") == x.recv, x.fn.Pos(), "gives %v, not all elements", d)
					continue
				}
				t0 := s.canon(x.e.tt.Init(x.e.fld(x.recv, tix, "tree"), fieldType(tix, "tree")))
				if d.k == "empty" {
					b, kn := s.evalBool(s.canon(x.e.tt.eq(t0, x.e.tt.Nil())))
					c.ob(rule, con, kn && b, x.fn.Pos(), "gives nothing although there may be elements")
					continue
				}
				if d.k != "gen" || d.a[0].op != OpClos {
					c.fail(rule, con, x.fn.Pos(), "undecided: gives %v", d)
					continue
				}
				c.treeGen(rule, con, x.e, s, d.a[0], t0, x.fn.Pos())
			}
		})
	}
	c.checkFastSetAs(rule)
	c.checkIterators(rule, "listIterator", "procIterator", "funcIterator", "iteratorWithSize")
}

// elementOf: the function gives the value of the list element it is given.
func (c *Ctx) elementOf(rule, con string, e *Eng, s *State, f *Term, pos token.Pos) {
	elp := c.listElemPtr()
	el := e.tt.Unk("listelement", elp)
	s = s.clone()
	s.nn[el] = true
	for _, o := range c.runClos(e, s, f, e.tt.Iface(elp, el)) {
		if o.panic {
			c.fail(rule, con, o.pos, "may panic: %s", o.panicIs)
			continue
		}
		r := o.st.canon(o.ret[0])
		c.ob(rule, con, r == o.st.canon(o.st.get(el, elp, "Value")), pos, "gives %v for a list element, not its value", r)
	}
}

func (c *Ctx) listElemPtr() types.Type {
	t := fieldType(types.NewPointer(c.typ("listIterator")), "next")
	return t
}

// treeGen: the generator moves the tree's iterator by one and gives the set
// it then stands on.
func (c *Ctx) treeGen(rule, con string, e *Eng, s *State, f, tree *Term, pos token.Pos) {
	// the iterator captured is one over the tree
	okIt := false
	var cell *Term
	for _, fr := range f.args {
		v := whole(s.canon(s.load(fr, elemType(fr))))
		if v.op == OpUnk && s.callOf(v) != nil && s.callOf(v).name == btp+"Iterator" && s.canon(s.callOf(v).args[0]) == tree {
			okIt, cell = true, fr
		}
	}
	c.ob(rule, con, okIt, pos, "the generator does not go through the tree")
	if !okIt {
		return
	}
	for _, o := range c.runClos(e, s, f) {
		if o.panic {
			c.fail(rule, con, o.pos, "may panic: %s", o.panicIs)
			continue
		}
		var nexts []Ev
		var val *Term
		for _, ev := range flat(o.st) {
			if ev.kind == EvCall && strings.HasSuffix(ev.name, "btree.Iterator).Next") {
				nexts = append(nexts, ev)
			}
			if ev.kind == EvCall && strings.HasSuffix(ev.name, "btree.Iterator).Value") && ev.args[0] == cell {
				val = ev.res
			}
		}
		if len(nexts) != 1 || nexts[0].args[0] != cell {
			c.fail(rule, con, pos, "the generator moves the tree iterator %d times", len(nexts))
			continue
		}
		more, kn := o.st.evalBool(o.st.canon(nexts[0].res))
		d := c.den(e, o.st, o.ret[0])
		if kn && !more {
			c.ob(rule, con, d.k == "nil", pos, "at the end the generator gives %v", d)
			continue
		}
		ok := kn && d.k == "call:fastSet.iterator" && val != nil
		if ok {
			v := fsOf(d.a[0])
			if y, _, isAs := asOf(v); isAs {
				v = y
			}
			ok = v == o.st.canon(val)
		}
		c.ob(rule, con, ok, pos, "the generator gives %v, not the elements of the current value", d)
	}
}

func (c *Ctx) checkFastSetAs(rule string) {
	c.checkFastSet()
}

// ---- property writes

func (c *Ctx) checkPropertyWrites(rule string) {
	t := c.lt()
	for _, m := range c.entries("nprop", "eprop") {
		m := m
		con := m.name
		c.guard(rule, con, func() {
			typ, field, what := t.node, "nodeProperties", "nix"
			el := m.arg("*lpg.Node")
			if m.kind == "eprop" {
				typ, field, what = t.edge, "edgeProperties", "eix"
				el = m.arg("*lpg.Edge")
			}
			set := strings.HasSuffix(m.name, ".SetProperty")
			key := m.arg("string")
			e := m.e
			for _, o := range m.outs {
				if o.panic {
					c.fail(rule, con, o.pos, "may panic: %s", o.panicIs)
					continue
				}
				s := o.st
				g := s.canon(c.targetGraph(&m, s))
				P0 := s.canon(e.tt.Init(e.fld(el, typ, "properties"), fieldType(typ, "properties")))
				M := s.canon(e.tt.Init(e.fld(g, t.graph, "index."+field), fieldType(t.graph, "index."+field)))
				had, hadKnown := false, false
				if s.wasEmpty(P0) {
					hadKnown = true
				} else if b, k := s.evalBool(s.canon(e.tt.eq(P0, e.tt.Nil()))); k && b {
					hadKnown = true
				} else if _, has := entryLookup(s, P0, key); true {
					if b, k := s.evalBool(has); k {
						had, hadKnown = b, true
					}
				}
				old, _ := entryLookup(s, P0, key)
				ixv, ixhas := entryLookup(s, M, key)
				indexed, ixKnown := false, false
				if b, k := s.evalBool(ixhas); k {
					indexed, ixKnown = b, true
				}
				if b, k := s.evalBool(s.canon(e.tt.eq(ixv, e.tt.Nil()))); k {
					indexed, ixKnown = !b, true
				}
				// what happens, in order
				var adds, rems []COp
				for _, x := range c.ops(e, o) {
					switch {
					case x.what == what && x.how == "add":
						adds = append(adds, x)
					case x.what == what && x.how == "remove":
						rems = append(rems, x)
					default:
						c.fail(rule, con, x.pos, "unexpected %s", x.name)
					}
					c.ob(rule, con, len(x.its) == 0 && x.key == key && x.owner == g && x.id == s.canon(s.get(el, typ, "id")), x.pos, "the index of %v of %v changes for id %v", x.key, x.owner, x.id)
				}
				var ups, dels []Ev
				for _, ev := range flat(s) {
					if ev.kind == EvMapUpd {
						ups = append(ups, ev)
					}
					if ev.kind == EvMapDel {
						dels = append(dels, ev)
					}
				}
				P1 := s.canon(s.get(el, typ, "properties"))
				c.ob(rule, con, P1 == P0 || P0.isNil() || s.wasEmpty(P0) || !set && s.emptyMap(P0) || func() bool { b, k := s.evalBool(s.canon(e.tt.eq(P0, e.tt.Nil()))); return k && b }(), m.pos(), "the other properties are lost")
				if set {
					val := m.args[len(m.args)-1]
					c.ob(rule, con, len(dels) == 0 && len(ups) == 1 && ups[0].args[0] == P1 && ups[0].args[1] == key && ups[0].args[2] == s.canon(val), m.pos(), "the property does not get exactly the value given (%s)", outDesc(o))
					switch {
					case indexed && ixKnown:
						ok := len(adds) == 1 && adds[0].val == s.canon(val) && adds[0].elem == el
						c.ob(rule, con, ok, m.pos(), "the index does not get the new value of the element (%s)", outDesc(o))
						if hadKnown && !had {
							c.ob(rule, con, len(rems) == 0, m.pos(), "a value the element did not have leaves the index")
						} else {
							ok = len(rems) == 1 && hadKnown && rems[0].val == s.canon(old) && (len(adds) == 0 || rems[0].seqNo < adds[0].seqNo)
							c.ob(rule, con, ok, m.pos(), "the old value does not leave the index before the new one enters (%s)", outDesc(o))
						}
					case ixKnown:
						c.ob(rule, con, len(adds)+len(rems) == 0, m.pos(), "an index that does not exist is used")
					default:
						c.fail(rule, con, m.pos(), "the property changes without looking whether it is indexed (%s)", outDesc(o))
					}
					continue
				}
				if hadKnown && !had {
					c.ob(rule, con, len(ups) == 0 && len(adds)+len(rems) == 0, m.pos(), "removing a property the element does not have changes something")
					continue
				}
				c.ob(rule, con, len(ups) == 0 && len(dels) == 1 && dels[0].args[0] == P0 && dels[0].args[1] == key, m.pos(), "the property is not removed (%s)", outDesc(o))
				switch {
				case indexed && ixKnown:
					c.ob(rule, con, len(adds) == 0 && len(rems) == 1 && rems[0].val == s.canon(old), m.pos(), "the value does not leave the index (%s)", outDesc(o))
				case ixKnown:
					c.ob(rule, con, len(adds)+len(rems) == 0, m.pos(), "an index that does not exist is used")
				default:
					c.fail(rule, con, m.pos(), "the property is removed without looking whether it is indexed")
				}
			}
		})
	}
}

// checkIndexSweeps: creation and removal update all property indexes.
func (c *Ctx) checkIndexSweeps(rule string, kinds ...string) {
	t := c.lt()
	for _, m := range c.entries(kinds...) {
		m := m
		con := m.name
		c.guard(rule, con, func() {
			for _, o := range m.outs {
				if o.panic {
					continue
				}
				s := o.st
				evs := s.tr.list()
				switch m.kind {
				case "newnode", "newedge":
					r := created(o)
					if r == nil {
						c.fail(rule, con, m.pos(), "does not return a new element")
						continue
					}
					typ := t.node
					if m.kind == "newedge" {
						typ = t.edge
					}
					c.sweep(rule, con, m.e, evs, s, typ, r, s.canon(c.targetGraph(&m, s)), "add", m.pos())
				case "delnode":
					n := m.arg("*lpg.Node")
					c.sweep(rule, con, m.e, evs, s, t.node, n, m.e.tt.Init(m.e.fld(n, t.node, "graph"), nil), "remove", m.pos())
				case "deledge":
					ed := m.arg("*lpg.Edge")
					c.sweep(rule, con, m.e, evs, s, t.edge, ed, s.canon(c.targetGraph(&m, s)), "remove", m.pos())
				case "setlabel", "setlabels":
					ops := c.ops(m.e, o)
					c.none(rule, con, append(sel(ops, "nix", ""), sel(ops, "eix", "")...), "relabeling")
				}
			}
		})
	}
}

// checkBackfill: a new index gets every element that has the property.
func (c *Ctx) checkBackfill(rule string) {
	t := c.lt()
	for _, m := range c.entries("nindex", "eindex") {
		m := m
		con := m.name
		c.guard(rule, con, func() {
			typ, field, all := t.node, "nodeProperties", "Graph.GetNodes"
			if m.kind == "eindex" {
				typ, field, all = t.edge, "edgeProperties", "Graph.GetEdges"
			}
			e := m.e
			g := m.arg("*lpg.Graph")
			key := m.arg("string")
			for _, o := range m.outs {
				if o.panic {
					c.fail(rule, con, o.pos, "may panic: %s", o.panicIs)
					continue
				}
				s := o.st
				M := s.canon(e.tt.Init(e.fld(g, t.graph, "index."+field), fieldType(t.graph, "index."+field)))
				ixv, has := entryLookup(s, M, key)
				exists, known := s.evalBool(has)
				if b, k := s.evalBool(s.canon(e.tt.eq(ixv, e.tt.Nil()))); k {
					exists, known = !b, true
				}
				var ups []Ev
				for _, ev := range flat(s) {
					if ev.kind == EvMapUpd {
						ups = append(ups, ev)
					}
					if ev.kind == EvMapDel {
						c.fail(rule, con, ev.pos, "an index or property is dropped")
					}
				}
				ops := c.ops(e, o)
				if known && exists {
					c.ob(rule, con, len(ups) == 0 && len(ops) == 0, m.pos(), "an index that exists already is filled again or replaced (%s)", outDesc(o))
					continue
				}
				if !known {
					c.fail(rule, con, m.pos(), "an index is set up without looking whether there is one")
					continue
				}
				if len(ups) != 1 || ups[0].args[0] != M || ups[0].args[1] != key {
					c.fail(rule, con, m.pos(), "the new index is not kept under the property's name (%s)", outDesc(o))
					continue
				}
				ix := strip(ups[0].args[2])
				c.ob(rule, con, ix.op == OpNew, ups[0].pos, "the index %v is not a new one", ix)
				n := 0
				evs := s.tr.list()
				for i, ev := range evs {
					if ev.kind != EvLoop {
						continue
					}
					it := e.iterOf(evs, i, s)
					src := strip(it.coll)
					if it.kind != "itr" && it.kind != "slice" || !c.enumerates(s, src, all, g) {
						continue
					}
					n++
					c.ob(rule, con, it.all(), ev.pos, "not all elements are indexed: %s", it.why)
					for _, sg := range ev.loop.segs {
						var el *Term
						var adds []Ev
						for j, x := range sg.events {
							y := mkEv(x, sg.st, nil, j)
							if y.kind == EvCall && (y.isCall("setTree.add", "hashIndex.add") || y.invoke && y.name == "add") {
								adds = append(adds, y)
							}
							if y.kind == EvCall && y.invoke && (y.name == "Node" || y.name == "Edge" || y.name == "Value") && y.args[0] == it.coll {
								el = y.res
							}
						}
						if it.kind == "slice" {
							el = sg.st.canon(e.tt.Init(e.elemAddr(it.coll, it.key, typ), typ))
						}
						if el == nil {
							c.fail(rule, con, ev.pos, "an element is skipped without looking at it (%s)", segDesc(sg))
							continue
						}
						if x, _, ok := asOf(el); ok {
							el = x
						}
						P := sg.st.canon(sg.st.get(el, typ, "properties"))
						v, has := sg.st.mapLookup(P, key, nil)
						b, k := sg.st.evalBool(has)
						if sg.st.emptyMap(P) {
							b, k = false, true
						}
						if k && !b {
							c.ob(rule, con, len(adds) == 0, ev.pos, "an element without the property is indexed")
							continue
						}
						ok := k && len(adds) == 1 && strip(adds[0].args[0]) == ix && adds[0].args[1] == sg.st.canon(v) && adds[0].args[2] == sg.st.canon(sg.st.get(el, typ, "id")) && strip(adds[0].args[3]) == el
						c.ob(rule, con, ok, ev.pos, "an element with the property is not indexed with its value and id (%s)", segDesc(sg))
					}
				}
				c.ob(rule, con, n == 1, m.pos(), "the existing elements are gone through %d times", n)
			}
		})
	}
}

// enumerates: v is the result of listing all elements of g.
func (c *Ctx) enumerates(st *State, v *Term, all string, g *Term) bool {
	if v == nil {
		return false
	}
	v = st.canon(v)
	if v.op != OpUnk || st.callOf(v) == nil {
		return false
	}
	if st.callOf(v).name == all {
		return len(st.callOf(v).args) == 1 && st.canon(st.callOf(v).args[0]) == g
	}
	if (st.callOf(v).name == "NodeSlice" || st.callOf(v).name == "EdgeSlice") && len(st.callOf(v).args) == 1 {
		return c.enumerates(st, strip(st.canon(st.callOf(v).args[0])), all, g)
	}
	return false
}

// checkIndexAccess: lookups by property go to the index of that property, and
// to none if there is none.
func (c *Ctx) checkIndexAccess(rule string) {
	for _, q := range []struct{ name, field, meth string }{
		{"graphIndex.NodesWithProperty", "nodeProperties", "valueItr"}, {"graphIndex.EdgesWithProperty", "edgeProperties", "valueItr"},
		{"graphIndex.GetIteratorForNodeProperty", "nodeProperties", "find"}, {"graphIndex.GetIteratorForEdgeProperty", "edgeProperties", "find"},
		{"graphIndex.isNodePropertyIndexed", "nodeProperties", ""}, {"graphIndex.isEdgePropertyIndexed", "edgeProperties", ""},
	} {
		q := q
		if c.w.fn(q.name) == nil {
			continue
		}
		c.guard(rule, q.name, func() {
			fn := c.fn(q.name)
			gi := types.NewPointer(c.typ("graphIndex"))
			e, outs := c.run(fn, stdModel, func(e *Eng, st *State, args []*Term) { st.nn[args[0]] = true })
			recv, key := e.tt.Param(fn.Params[0].Name(), nil), e.tt.Param(fn.Params[1].Name(), nil)
			for _, o := range outs {
				if o.panic {
					c.fail(rule, q.name, o.pos, "may panic: %s", o.panicIs)
					continue
				}
				s := o.st
				M := s.canon(e.tt.Init(e.fld(recv, gi, q.field), fieldType(gi, q.field)))
				v, has := entryLookup(s, M, key)
				b, k := s.evalBool(has)
				if n, nk := s.evalBool(s.canon(e.tt.eq(v, e.tt.Nil()))); nk {
					b, k = !n, true
				}
				if q.meth == "" {
					c.ob(rule, q.name, s.canon(o.ret[0]) == v || k && !b && s.canon(o.ret[0]).isNil(), fn.Pos(), "gives %v", o.ret)
					continue
				}
				d := c.den(e, s, o.ret[0])
				if k && !b {
					c.ob(rule, q.name, s.canon(o.ret[0]).isNil(), fn.Pos(), "without an index gives %v instead of nil", d)
					continue
				}
				ok := k && d.k == "invoke:"+q.meth && d.a[0] == v
				if q.meth == "find" {
					ok = ok && len(d.a) == 2 && d.a[1] == e.tt.Param(fn.Params[2].Name(), nil)
				}
				c.ob(rule, q.name, ok, fn.Pos(), "gives %v, not what the property's index has", d)
			}
		})
	}
}

func init() {
	reg("C05", "Abstract interpretation of both index implementations against one specification (value normalised alike in add, remove and find; the element enters and leaves exactly the set of its value and, in the hash index, the list of all elements), typestate of every property write (old value leaves, new value enters, both under the right name, value and id), sweeps over all indexed properties on creation and removal, backfill of new indexes, and a closed-world check of who writes properties and indexes.", 60, func(c *Ctx) {
		c.checkIndexImpls("index-impl")
		c.checkPropertyWrites("property-index")
		c.checkIndexSweeps("index-sweep", "newnode", "newedge", "delnode", "deledge", "copynode", "copyedge", "setlabel", "setlabels")
		c.checkDetach("detach")
		c.checkBackfill("backfill")
		c.checkIndexAccess("index-access")
		c.checkWritersOf("property-writers", []string{"newGraphIndex", "graphIndex.NodePropertyIndex", "graphIndex.EdgePropertyIndex", "hashIndex.add", "hashIndex.remove", "setTree.add", "setTree.remove", "newFastSet", "fastSet.add", "fastSet.remove", "fastSet.init"}, "Node.properties", "Edge.properties", "graphIndex.nodeProperties", "graphIndex.edgeProperties", "hashIndex.*", "setTree.*", "fastSet.*")
	})
}
