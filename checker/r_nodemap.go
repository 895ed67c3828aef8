package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const lhm = "(*github.com/emirpasic/gods/maps/linkedhashmap.Map)."

// quantifier checks a function deciding "for all" (or "there is") over a
// collection: it answers early only on a counterexample (witness), and
// otherwise after having visited everything.
func (c *Ctx) quantifier(rule, con string, e *Eng, outs []Outcome, pos token.Pos, forall bool, coll func(st *State, it *Iter) bool, emptyColl func(st *State) bool, pred func(st *State, it *Iter) (val, known bool), short ...func(st *State) bool) {
	for _, o := range outs {
		if o.panic {
			c.fail(rule, con, o.pos, "may panic: %s", o.panicIs)
			continue
		}
		if len(o.ret) != 1 {
			c.fail(rule, con, pos, "undecided: %d results", len(o.ret))
			continue
		}
		r, known := o.st.evalBool(o.st.canon(o.ret[0]))
		evs := o.st.tr.list()
		n := 0
		for i, ev := range evs {
			if ev.kind != EvLoop {
				continue
			}
			it := e.iterOf(evs, i, o.st)
			if it.kind == "" {
				// no iteration goes on: read the test that follows
				ct := e.control(evs[i+1:], o.st)
				it.kind, it.coll, it.key, it.val = ct.kind, ct.coll, ct.key, ct.val
				it.complete = ct.ok && !ct.taken
				it.from0 = true
			}
			if it.kind == "" || !coll(o.st, it) {
				c.fail(rule, con, ev.pos, "undecided: loop over %v %v (%s)", it.kind, it.coll, it.why)
				continue
			}
			n++
			for _, s := range ev.loop.segs {
				v, k := pred(s.st, it)
				c.ob(rule, con, k && v == forall, ev.pos, "the search goes on although the answer is decided, or without looking (%s)", segDesc(s))
			}
			if it.complete && it.from0 {
				c.ob(rule, con, known && r == forall, ev.pos, "after all elements were seen the answer is %v", o.ret[0])
				continue
			}
			c.ob(rule, con, it.from0, ev.pos, "%s", it.why)
			// answered in an iteration
			ct := e.control(evs[i+1:], o.st)
			it2 := *it
			if ct.kind == it.kind {
				it2.key, it2.val = ct.key, ct.val
			}
			v, k := pred(o.st, &it2)
			c.ob(rule, con, k && v != forall && known && r == !forall, ev.pos, "answers %v before all elements were seen", o.ret[0])
		}
		if n == 0 {
			if len(short) > 0 && known && !r && short[0](o.st) {
				c.pass(rule, con)
				continue
			}
			c.ob(rule, con, emptyColl != nil && emptyColl(o.st) && known && r == forall, pos, "answers %v without looking at the elements (%s)", o.ret[0], outDesc(o))
		}
	}
}

// setM is the map of a label set value.
func (c *Ctx) setM(st *State, set *Term) *Term {
	return st.canon(st.load2(set, "M", c.typ("StringSet")))
}

func (c *Ctx) hasKey(st *State, m, k *Term) (val, known bool) {
	if st.present(m, k) {
		return true, true
	}
	if st.emptyMap(m) {
		return false, true
	}
	_, has := st.mapLookup(m, k, nil)
	return st.evalBool(has)
}

// fewer: map a is known to have fewer keys than map b, so it does not have all
// of them.
func (c *Ctx) fewer(st *State, a, b *Term) bool {
	return st.less(st.canon(st.mapLen(a)), st.canon(st.mapLen(b))) || st.emptyMap(a) && c.mapNonEmpty(st, b)
}

// checkSetQueries verifies the membership tests of label sets.
func (c *Ctx) checkSetQueries(rule string, names ...string) {
	for _, name := range names {
		name := name
		c.guard(rule, name, func() {
			fn := c.fn(name)
			e, outs := c.run(fn, nil, nil)
			set := e.tt.Param(fn.Params[0].Name(), fn.Params[0].Type())
			arg := e.tt.Param(fn.Params[1].Name(), fn.Params[1].Type())
			switch name {
			case "StringSet.Has":
				for _, o := range outs {
					m := c.setM(o.st, set)
					v, known := c.hasKey(o.st, m, arg)
					r, rk := o.st.evalBool(o.st.canon(o.ret[0]))
					_, has := o.st.mapLookup(m, arg, nil)
					c.ob(rule, name, !o.panic && (known && rk && r == v || o.st.canon(o.ret[0]) == has), fn.Pos(), "returns %v", o.ret)
				}
			case "StringSet.HasAllSet", "StringSet.HasAnySet":
				c.quantifier(rule, name, e, outs, fn.Pos(), name == "StringSet.HasAllSet", func(st *State, it *Iter) bool {
					return it.kind == "map" && it.coll == c.setM(st, arg)
				}, func(st *State) bool { return st.emptyMap(c.setM(st, arg)) }, func(st *State, it *Iter) (bool, bool) {
					return c.hasKey(st, c.setM(st, set), st.canon(it.key))
				}, func(st *State) bool {
					if name == "StringSet.HasAnySet" {
						return st.emptyMap(c.setM(st, set))
					}
					return c.fewer(st, c.setM(st, set), c.setM(st, arg))
				})
			case "StringSet.HasAll", "StringSet.HasAny":
				c.quantifier(rule, name, e, outs, fn.Pos(), name == "StringSet.HasAll", func(st *State, it *Iter) bool {
					return it.kind == "slice" && it.coll == st.canon(arg)
				}, func(st *State) bool { return e.emptySlice(st, arg) }, func(st *State, it *Iter) (bool, bool) {
					el := st.load(e.elemAddr(st.canon(arg), it.key, types.Typ[types.String]), types.Typ[types.String])
					return c.hasKey(st, c.setM(st, set), el)
				})
			}
		})
	}
}

// checkFastSet verifies the id-keyed set: the map and the list hold the same
// elements.
func (c *Ctx) checkFastSet() { c.checkSetType("fastset", "fastSet") }

// checkSetType verifies fastSet, or NodeSet or EdgeSet, which keep one under the
// element's identifier.
func (c *Ctx) checkSetType(rule, T string) {
	fs := types.NewPointer(c.typ("fastSet"))
	own := types.NewPointer(c.typ(T))
	wrap := T != "fastSet"
	nm := func(op string) string {
		if wrap {
			op = strings.ToUpper(op[:1]) + op[1:]
			if op == "Size" {
				op = "Len"
			}
		}
		return T + "." + op
	}
	// the key and the element an operation is given
	given := func(e *Eng, st *State, fn *ssa.Function) (id, item *Term) {
		p := e.tt.Param(fn.Params[1].Name(), fn.Params[1].Type())
		if !wrap {
			if len(fn.Params) > 2 {
				item = e.tt.Param(fn.Params[2].Name(), nil)
			}
			return p, item
		}
		return e.tt.Init(e.fld(p, fn.Params[1].Type(), "id"), types.Typ[types.Int]), p
	}
	run := func(name string) (*ssa.Function, *Eng, []Outcome, *Term) {
		fn := c.fn(name)
		e := newEng(c.w)
		e.hook = stdModel
		st := e.newState()
		p0 := e.tt.Param("f", own)
		st.nn[p0] = true
		p := p0
		if wrap {
			p = e.fld(p0, own, "set")
			st.nn[p] = true
		}
		m0 := e.tt.Init(e.fld(p, fs, "m"), fieldType(fs, "m"))
		l0 := e.tt.Init(e.fld(p, fs, "l"), fieldType(fs, "l"))
		st.nn[m0], st.nn[l0] = true, true
		args := []*Term{p0}
		if _, ok := fn.Params[0].Type().Underlying().(*types.Pointer); !ok {
			args[0] = st.load(p0, fn.Params[0].Type())
		}
		for _, q := range fn.Params[1:] {
			a := e.tt.Param(q.Name(), q.Type())
			if wrap {
				st.nn[a] = true
			}
			args = append(args, a)
		}
		return fn, e, c.runArgs(e, fn, args, st), p
	}
	effects := func(o Outcome) (ups, dels, push, rem []Ev) {
		for _, x := range flat(o.st) {
			switch {
			case x.kind == EvMapUpd:
				ups = append(ups, x)
			case x.kind == EvMapDel:
				dels = append(dels, x)
			case x.isCall("(*container/list.List).PushBack", "(*container/list.List).PushFront"):
				push = append(push, x)
			case x.isCall("(*container/list.List).Remove"):
				rem = append(rem, x)
			}
		}
		return
	}
	c.guard(rule, nm("add"), func() {
		fn, e, outs, p := run(nm("add"))
		id, item := given(e, nil, fn)
		for _, o := range outs {
			con := nm("add")
			if o.panic {
				c.fail(rule, con, o.pos, "may panic: %s", o.panicIs)
				continue
			}
			s := o.st
			m0, l0 := e.tt.Init(e.fld(p, fs, "m"), nil), e.tt.Init(e.fld(p, fs, "l"), nil)
			v, has := entryLookup(s, m0, id)
			ups, dels, push, rem := effects(o)
			h, known := s.evalBool(has)
			if nilv, nk := s.evalBool(s.canon(e.tt.eq(v, e.tt.Nil()))); nk && !known {
				h, known = !nilv, true
			}
			r, rk := !h, true
			if len(o.ret) > 0 {
				r, rk = s.evalBool(s.canon(o.ret[0]))
			}
			if len(ups)+len(dels)+len(push)+len(rem) == 0 {
				c.ob(rule, con, known && h && rk && !r, fn.Pos(), "an element that is not in the set is not added")
				continue
			}
			c.ob(rule, con, known && !h && rk && r, fn.Pos(), "an element that is already in the set is added again")
			ok := len(ups) == 1 && len(dels) == 0 && len(push) == 1 && len(rem) == 0 && ups[0].args[0] == m0 && ups[0].args[1] == id && ups[0].args[2] == push[0].res && push[0].args[0] == l0 && strip(push[0].args[1]) == item
			c.ob(rule, con, ok, fn.Pos(), "the map and the list are not both given the new element")
		}
	})
	c.guard(rule, nm("remove"), func() {
		con := nm("remove")
		fn, e, outs, p := run(nm("remove"))
		id, _ := given(e, nil, fn)
		for _, o := range outs {
			if o.panic {
				c.fail(rule, con, o.pos, "may panic: %s", o.panicIs)
				continue
			}
			s := o.st
			m0, l0 := e.tt.Init(e.fld(p, fs, "m"), nil), e.tt.Init(e.fld(p, fs, "l"), nil)
			v, has := entryLookup(s, m0, id)
			ups, dels, push, rem := effects(o)
			h, known := s.evalBool(has)
			nilv, nk := s.evalBool(s.canon(e.tt.eq(v, e.tt.Nil())))
			inSet := known && h || nk && !nilv || s.nonNil(v)
			out := known && !h || nk && nilv || v.isNil()
			if len(ups)+len(dels)+len(push)+len(rem) == 0 {
				c.ob(rule, con, out, fn.Pos(), "an element of the set is not removed")
				continue
			}
			ok := inSet && len(ups) == 0 && len(push) == 0 && len(dels) == 1 && len(rem) == 1 && dels[0].args[0] == m0 && dels[0].args[1] == id && rem[0].args[0] == l0 && app(rem[0].args[1], "mapget") && rem[0].args[1].args[0] == m0 && rem[0].args[1].args[1] == id
			c.ob(rule, con, ok, fn.Pos(), "the element does not leave both the map and the list")
		}
	})
	c.guard(rule, nm("has"), func() {
		fn, e, outs, p := run(nm("has"))
		id, _ := given(e, nil, fn)
		for _, o := range outs {
			v, has := entryLookup(o.st, e.tt.Init(e.fld(p, fs, "m"), nil), id)
			// entries are list elements, never nil
			c.ob(rule, nm("has"), !o.panic && (c.sameBool(o.st, o.ret[0], has) || c.sameBool(o.st, o.ret[0], e.tt.not(e.tt.eq(v, e.tt.Nil())))), fn.Pos(), "returns %v", o.ret)
		}
	})
	if !wrap {
		c.guard(rule, "fastSet.get", func() {
			fn, e, outs, p := run("fastSet.get")
			id, _ := given(e, nil, fn)
			for _, o := range outs {
				v, has := entryLookup(o.st, e.tt.Init(e.fld(p, fs, "m"), nil), id)
				c.ob(rule, "fastSet.get", !o.panic && c.sameBool(o.st, o.ret[1], has), fn.Pos(), "reports %v", o.ret)
				if b, k := o.st.evalBool(has); !o.panic && k && b {
					r := o.st.canon(o.ret[0])
					b, isV := fieldInit(r, "Value")
					c.ob(rule, "fastSet.get", isV && app(b, "mapget") && b.args[1] == id && v == b, fn.Pos(), "gives %v", r)
				}
			}
		})
	}
	c.guard(rule, nm("size"), func() {
		fn, e, outs, p := run(nm("size"))
		for _, o := range outs {
			m0, l0 := e.tt.Init(e.fld(p, fs, "m"), nil), e.tt.Init(e.fld(p, fs, "l"), nil)
			r := o.st.canon(o.ret[0])
			c.ob(rule, nm("size"), !o.panic && (r == o.st.mapLen(m0) || app(r, "list.Len") && r.args[0] == l0), fn.Pos(), "returns %v", o.ret)
		}
	})
	c.guard(rule, nm("iterator"), func() {
		fn, e, outs, p := run(nm("iterator"))
		for _, o := range outs {
			l0 := e.tt.Init(e.fld(p, fs, "l"), nil)
			d := c.den(e, o.st, o.ret[0])
			seq, ok := c.seqOf(d)
			c.ob(rule, nm("iterator"), !o.panic && ok && c.sameSeq(e, o.st, []atom{{k: "lst", a: []*Term{e.tt.App("list.Front", nil, l0)}}}, seq), fn.Pos(), "gives %v", d)
		}
	})
	makers := []string{"newFastSet", "fastSet.init"}
	if wrap {
		makers = []string{"New" + T}
	}
	for _, n := range makers {
		n := n
		c.guard(rule, n, func() {
			fn := c.fn(n)
			e, outs := c.run(fn, stdModel, func(e *Eng, st *State, args []*Term) {
				if len(args) > 0 {
					st.nn[args[0]] = true
				}
			})
			for _, o := range outs {
				var obj *Term
				if len(o.ret) > 0 {
					obj = o.ret[0]
				} else {
					obj = e.tt.Param(fn.Params[0].Name(), nil)
				}
				if wrap && !o.panic {
					obj = e.fld(o.st.canon(obj), own, "set")
				}
				m, l := o.st.get(obj, fs, "m"), o.st.get(obj, fs, "l")
				c.ob(rule, n, !o.panic && o.st.emptyMap(m) && m.op == OpNew && l.op == OpUnk && o.st.callOf(l) != nil && o.st.callOf(l).name == "container/list.New", fn.Pos(), "does not start with an empty map and list: %v %v", m, l)
			}
		})
	}
	if !wrap {
		c.checkIterators(rule, "listIterator")
	}
}

// entryLookup looks a key up in a map as it was before the analysed code ran.
func entryLookup(s *State, m, k *Term) (v, has *Term) {
	tt := s.e.tt
	m, k = s.canon(m), s.canon(k)
	v = s.canon(tt.App("mapget", nil, m, k, tt.Int(0)))
	has = s.canon(tt.App("has", types.Typ[types.Bool], m, k, tt.Int(0)))
	if b, known := s.evalBool(has); known && !b {
		return tt.Nil(), tt.Bool(false)
	}
	return v, has
}

func (c *Ctx) sameBool(st *State, a, b *Term) bool {
	a, b = st.canon(a), st.canon(b)
	if a == b {
		return true
	}
	x, k1 := st.evalBool(a)
	y, k2 := st.evalBool(b)
	return k1 && k2 && x == y
}

// nmHook makes the sets of a NodeMap primitive.
func nmHook() Hook {
	return hooks(stdModel, atoms("fastSet.add", "fastSet.remove", "fastSet.size", "newFastSet", "StringSet.Slice"))
}

// nmEvents reads the set operations of one event list.
type nmOp struct {
	Ev
	how   string // add remove drop put
	where string // label, nolabels, ?
	key   *Term  // label
	set   *Term
}

func fieldNamed(t *Term, name string) bool {
	if t == nil {
		return false
	}
	switch t.op {
	case OpFieldOf, OpField:
		return t.name == name
	case OpInit:
		return fieldNamed(t.args[0], name)
	}
	return false
}

// setOfLabel: t is the set stored under a label; gives the lookup event.
func setOfLabel(st *State, t *Term) *Event {
	x, _, ok := asOf(st.canon(t))
	if !ok {
		return nil
	}
	if x.op == OpUnk && st.callOf(x) != nil && st.callOf(x).name == lhm+"Get" {
		return st.callOf(x)
	}
	return nil
}

func (c *Ctx) nmOps(evs []*Event, st *State) []nmOp {
	var out []nmOp
	news := map[*Term]*Term{} // new set -> label it was put under
	for i, ev := range evs {
		if ev.kind != EvCall {
			continue
		}
		x := mkEv(ev, st, nil, i)
		switch {
		case x.isCall(lhm + "Put"):
			s := strip(x.args[2])
			news[s] = strip(x.args[1])
			out = append(out, nmOp{Ev: x, how: "put", where: "label", key: strip(x.args[1]), set: s})
		case x.isCall(lhm + "Remove"):
			out = append(out, nmOp{Ev: x, how: "drop", where: "label", key: strip(x.args[1])})
		case x.isCall("fastSet.add", "fastSet.remove"):
			op := nmOp{Ev: x, how: x.name[8:], set: x.args[0]}
			if fieldNamed(x.args[0], "nolabels") {
				op.where = "nolabels"
			} else if g := setOfLabel(st, x.args[0]); g != nil {
				op.where, op.key = "label", strip(st.canon(g.args[1]))
			} else if k, ok := news[x.args[0]]; ok {
				op.where, op.key = "label", k
			} else {
				op.where = "?"
			}
			out = append(out, op)
		case strings.HasPrefix(x.name, "(*github.com/emirpasic/gods/maps/linkedhashmap") && !x.isCall(lhm+"Get") && !x.isCall(lhm+"Size"):
			out = append(out, nmOp{Ev: x, how: "?", where: "?"})
		}
	}
	return out
}

// nmLabelStep checks one label's handling: want is add, remove, none or keep
// (none or add).
func (c *Ctx) nmLabelStep(rule, con string, e *Eng, evs []*Event, st *State, key, node, id *Term, want string, pos token.Pos, desc string) {
	var mine []nmOp
	for _, x := range c.nmOps(evs, st) {
		if x.where == "nolabels" {
			c.fail(rule, con, x.pos, "the unlabeled nodes change while a label is handled (%s)", desc)
			continue
		}
		if x.where == "?" {
			c.fail(rule, con, x.pos, "undecided: %s on %v", x.name, x.args)
			continue
		}
		c.ob(rule, con, x.key == key, x.pos, "the set of label %v changes while label %v is handled", x.key, key)
		if x.how == "add" || x.how == "remove" {
			c.ob(rule, con, x.args[1] == id, x.pos, "the node is kept under id %v instead of its own", x.args[1])
		}
		if x.how == "add" {
			c.ob(rule, con, strip(x.args[2]) == node, x.pos, "%v is added instead of the node", x.args[2])
		}
		mine = append(mine, x)
	}
	count := map[string]int{}
	for _, x := range mine {
		count[x.how]++
	}
	// was the label there?
	found, foundKnown := false, false
	looked := false
	for _, ev := range evs {
		if ev.kind == EvCall && ev.name == lhm+"Get" && ev.res != nil && ev.res.op == OpTuple && strip(st.canon(ev.args[1])) == key {
			looked = true
			found, foundKnown = st.evalBool(st.canon(ev.res.args[1]))
		}
	}
	switch want {
	case "add", "keep":
		if want == "keep" && len(mine) == 0 {
			c.pass(rule, con)
			return
		}
		c.ob(rule, con, count["add"] == 1 && count["remove"] == 0 && count["drop"] == 0, pos, "the node is not added to the set of a label (%s)", desc)
		c.ob(rule, con, looked && foundKnown, pos, "a label's set is replaced or assumed without looking it up (%s)", desc)
		for _, x := range mine {
			if x.how == "put" {
				c.ob(rule, con, !found, x.pos, "a label that has a set gets a new one, its nodes are lost")
				c.ob(rule, con, x.set.op == OpUnk && x.st.callOf(x.set) != nil && x.st.callOf(x.set).name == "newFastSet", x.pos, "%v is put under the label", x.set)
			}
		}
		c.ob(rule, con, !foundKnown || found == (count["put"] == 0), pos, "the set of a new label is not kept (%s)", desc)
	case "remove":
		if count["remove"] == 0 {
			c.ob(rule, con, looked && foundKnown && !found && len(mine) == 0, pos, "the node stays in the set of a label it loses (%s)", desc)
			return
		}
		c.ob(rule, con, count["remove"] == 1 && count["add"] == 0 && count["put"] == 0, pos, "the node does not leave the set of the label (%s)", desc)
		// an empty set must not stay under its label
		emp, known := false, false
		for _, ev := range evs {
			if ev.kind == EvCall && ev.name == "fastSet.size" {
				emp, known = st.evalBool(st.canon(e.tt.eq(ev.res, e.tt.Int(0))))
				if iv := st.ivalOf(st.canon(ev.res)); !known && iv.hasHi && iv.hi <= 0 {
					emp, known = true, true
				} else if !known && iv.hasLo && iv.lo > 0 {
					emp, known = false, true
				}
			}
		}
		c.ob(rule, con, known && emp == (count["drop"] == 1), pos, "a set stays under its label when empty, or is dropped when it is not (%s)", desc)
	case "none":
		c.ob(rule, con, len(mine) == 0, pos, "the set of a label that does not change is touched (%s)", desc)
	}
}

// nolabelsAfter interprets the operations on the unlabeled nodes.
func (c *Ctx) nolabelsAfter(rule, con string, evs []*Event, st *State, node, id *Term, member bool) bool {
	for _, x := range c.nmOps(evs, st) {
		if x.where != "nolabels" {
			if x.where == "?" {
				c.fail(rule, con, x.pos, "undecided: %s on %v", x.name, x.args)
			} else {
				c.fail(rule, con, x.pos, "a label's set changes outside the loops over labels")
			}
			continue
		}
		c.ob(rule, con, x.args[1] == id, x.pos, "the node is kept under id %v instead of its own", x.args[1])
		switch x.how {
		case "add":
			c.ob(rule, con, strip(x.args[2]) == node, x.pos, "%v is added instead of the node", x.args[2])
			member = true
		case "remove":
			member = false
		}
	}
	return member
}

func (c *Ctx) checkNodeMap() {
	rule := "nodemap"
	t := c.lt()
	emptyKnown := func(st *State, m *Term) (bool, bool) {
		if st.emptyMap(m) {
			return true, true
		}
		if iv := st.ivalOf(st.mapLen(m)); iv.hasLo && iv.lo > 0 {
			return false, true
		}
		return false, false
	}
	for _, name := range []string{"NodeMap.Add", "NodeMap.Remove"} {
		name := name
		c.guard(rule, name, func() {
			fn := c.fn(name)
			e, outs := c.run(fn, nmHook(), func(e *Eng, st *State, args []*Term) {
				st.nn[args[0]] = true
				st.nn[args[1]] = true
			})
			node := e.tt.Param(fn.Params[1].Name(), nil)
			for _, o := range outs {
				if o.panic {
					c.fail(rule, name, o.pos, "may panic: %s", o.panicIs)
					continue
				}
				s := o.st
				id := s.canon(s.get(node, t.node, "id"))
				M := s.canon(s.get(node, t.node, "labels.M"))
				evs := s.tr.list()
				em, known := emptyKnown(s, M)
				loops := 0
				for i, ev := range evs {
					if ev.kind != EvLoop {
						continue
					}
					it := e.iterOf(evs, i, s)
					if it.kind == "" && len(ev.loop.segs) == 0 {
						continue
					}
					if it.kind != "map" || it.coll != M {
						c.fail(rule, name, ev.pos, "undecided: loop over %s %v", it.kind, it.coll)
						continue
					}
					loops++
					c.ob(rule, name, it.all(), ev.pos, "not all labels are handled: %s", it.why)
					for _, sg := range ev.loop.segs {
						want := "add"
						if name == "NodeMap.Remove" {
							want = "remove"
						}
						c.nmLabelStep(rule, name, e, sg.events, sg.st, it.key, node, id, want, fn.Pos(), segDesc(sg))
					}
				}
				in := c.nolabelsAfter(rule, name, evs, s, node, id, name == "NodeMap.Remove" && known && em)
				if !known {
					c.fail(rule, name, fn.Pos(), "a node without labels is not told apart")
					continue
				}
				if em {
					c.ob(rule, name, in == (name == "NodeMap.Add"), fn.Pos(), "a node without labels is %v among the unlabeled nodes afterwards", in)
				} else {
					c.ob(rule, name, !in, fn.Pos(), "a labeled node is put among the unlabeled ones")
					c.ob(rule, name, loops == 1, fn.Pos(), "the labels are gone through %d times", loops)
				}
			}
		})
	}
	c.guard(rule, "NodeMap.Replace", func() {
		name := "NodeMap.Replace"
		fn := c.fn(name)
		e, outs := c.run(fn, nmHook(), func(e *Eng, st *State, args []*Term) {
			st.nn[args[0]] = true
			st.nn[args[1]] = true
		})
		node := e.tt.Param(fn.Params[1].Name(), nil)
		oldS, newS := e.tt.Param(fn.Params[2].Name(), fn.Params[2].Type()), e.tt.Param(fn.Params[3].Name(), fn.Params[3].Type())
		for _, o := range outs {
			if o.panic {
				c.fail(rule, name, o.pos, "may panic: %s", o.panicIs)
				continue
			}
			s := o.st
			id := s.canon(s.get(node, t.node, "id"))
			mo, mn := c.setM(s, oldS), c.setM(s, newS)
			evs := s.tr.list()
			eo, ko := emptyKnown(s, mo)
			en, kn := emptyKnown(s, mn)
			did := map[*Term]bool{}
			var order []*Term
			blind := false // old labels leave whether or not they stay labels
			for pass := 0; pass < 2; pass++ {
				for i, ev := range evs {
					if ev.kind != EvLoop {
						continue
					}
					it := e.iterOf(evs, i, s)
					if it.kind == "" && len(ev.loop.segs) == 0 {
						continue
					}
					if it.kind != "map" || it.coll != mo && it.coll != mn {
						c.fail(rule, name, ev.pos, "undecided: loop over %s %v", it.kind, it.coll)
						continue
					}
					if pass == 0 {
						did[it.coll] = true
						order = append(order, it.coll)
						c.ob(rule, name, it.all(), ev.pos, "not all labels are handled: %s", it.why)
					}
					for _, sg := range ev.loop.segs {
						other := mo
						if it.coll == mo {
							other = mn
						}
						h, k := c.hasKey(sg.st, other, it.key)
						want := ""
						switch {
						case it.coll == mo && k && h:
							want = "none"
						case it.coll == mo && k:
							want = "remove"
						case it.coll == mo:
							want = "remove"
							blind = true
						case k && h && !blind:
							want = "keep"
						default:
							want = "add"
						}
						if pass == 1 {
							c.nmLabelStep(rule, name, e, sg.events, sg.st, it.key, node, id, want, fn.Pos(), segDesc(sg))
						}
					}
				}
			}
			if blind {
				c.ob(rule, name, len(order) == 2 && order[0] == mo, fn.Pos(), "kept labels may lose the node")
			}
			if !kn {
				c.fail(rule, name, fn.Pos(), "labeled and unlabeled nodes are not told apart (%s)", outDesc(o))
				continue
			}
			for _, was := range []bool{true, false} {
				if ko && was != eo {
					continue
				}
				in := c.nolabelsAfter(rule, name, evs, s, node, id, was)
				c.ob(rule, name, in == en, fn.Pos(), "old labels empty %v, new labels empty %v: the node is %v among the unlabeled nodes", was, en, in)
				c.ob(rule, name, did[mo] || was, fn.Pos(), "the old labels are not handled")
			}
			c.ob(rule, name, did[mn] || en, fn.Pos(), "the new labels are not handled")
		}
	})
	c.guard(rule, "NodeMap.IsEmpty", func() {
		fn := c.fn("NodeMap.IsEmpty")
		_, outs := c.run(fn, hooks(stdModel, atoms("fastSet.size")), func(e *Eng, st *State, args []*Term) { st.nn[args[0]] = true })
		for _, o := range outs {
			if o.panic {
				c.fail(rule, "NodeMap.IsEmpty", o.pos, "may panic: %s", o.panicIs)
				continue
			}
			zero := map[string]int{} // 1 empty, 2 not empty, 3 unknown
			for _, x := range flat(o.st) {
				w := ""
				if x.isCall(lhm+"Size") || x.isCall(lhm+"Empty") {
					w = "labels"
				} else if x.isCall("fastSet.size") {
					w = "nolabels"
				}
				if w == "" {
					continue
				}
				zero[w] = 3
				iv := o.st.ivalOf(x.res)
				if iv.hasLo && iv.hasHi && iv.lo == 0 && iv.hi == 0 {
					zero[w] = 1
				} else if !iv.contains(0) || iv.hasLo && iv.lo > 0 {
					zero[w] = 2
				} else if o.st.canon(o.ret[0]) == o.st.canon(m0eq(o.st, x.res)) {
					zero[w] = 4 // the result is the test itself
				}
			}
			r, known := o.st.evalBool(o.st.canon(o.ret[0]))
			ok := false
			switch {
			case known && !r:
				ok = zero["labels"] == 2 || zero["nolabels"] == 2
			case known && r:
				ok = zero["labels"] == 1 && zero["nolabels"] == 1
			default:
				ok = zero["labels"] == 4 && zero["nolabels"] == 1 || zero["nolabels"] == 4 && zero["labels"] == 1
			}
			c.ob(rule, "NodeMap.IsEmpty", ok, fn.Pos(), "answers %v when labeled/unlabeled emptiness is %v", o.ret, zero)
		}
	})
}

// checkNodeLabels: which operations touch the label index, and with what.
func (c *Ctx) checkNodeLabels() {
	rule := "node-labels"
	t := c.lt()
	for _, m := range c.entries() {
		m := m
		con := m.name
		c.guard(rule, con, func() {
			for _, o := range m.outs {
				if o.panic {
					continue
				}
				s, e := o.st, m.e
				ops := sel(c.ops(e, o), "labels", "")
				switch m.kind {
				case "newnode":
					r := created(o)
					if r == nil {
						c.fail(rule, con, m.pos(), "does not return a new node")
						continue
					}
					x := c.once(rule, con, ops, o, m.pos(), "indexing the new node's labels", c.targetGraph(&m, s), r)
					if x == nil {
						continue
					}
					c.ob(rule, con, x.how == "add", x.pos, "%s instead of add", x.how)
					last := -1
					addr := e.fld(r, t.node, "labels")
					for i, ev := range s.tr.list() {
						if ev.kind == EvStore && (s.canon(ev.args[0]) == addr || s.canon(ev.args[0]).op == OpField && s.canon(ev.args[0]).args[0] == addr || s.canon(ev.args[0]) == e.fld(r, t.node, "id")) {
							last = i
						}
					}
					c.ob(rule, con, x.seqNo > last, x.pos, "the node is indexed before its labels and id are set")
				case "delnode":
					n := m.arg("*lpg.Node")
					g := e.tt.Init(e.fld(n, t.node, "graph"), nil)
					x := c.once(rule, con, ops, o, m.pos(), "removing the node from the label index", g, n)
					if x == nil {
						continue
					}
					c.ob(rule, con, x.how == "remove", x.pos, "%s instead of remove", x.how)
					l0 := e.tt.Init(e.fld(n, t.node, "labels.M"), nil)
					c.ob(rule, con, s.canon(s.get(n, t.node, "labels.M")) == s.canon(l0), x.pos, "the labels change while the node is being removed")
				case "setlabels":
					n := m.arg("*lpg.Node")
					set := m.arg("lpg.StringSet")
					g := e.tt.Init(e.fld(n, t.node, "graph"), nil)
					m0 := s.canon(e.tt.Init(e.fld(n, t.node, "labels.M"), nil))
					m1 := c.setM(s, set)
					now := s.canon(s.get(n, t.node, "labels.M"))
					c.ob(rule, con, c.sameSet(e, s, now, m1), m.pos(), "the labels become %v, not those given", now)
					if len(ops) == 2 && ops[0].how == "remove" && ops[1].how == "add" {
						// leave with the old labels, enter with the new ones
						st := -1
						for i, ev := range s.tr.list() {
							if ev.kind == EvStore && fieldBase(s.canon(ev.args[0]), "labels") == n {
								st = i
							}
						}
						c.ob(rule, con, ops[0].elem == n && ops[1].elem == n && ops[0].owner == g && ops[1].owner == g && ops[0].seqNo < st && st < ops[1].seqNo, m.pos(), "the node is not moved in the label index around the change of its labels")
						continue
					}
					x := c.once(rule, con, ops, o, m.pos(), "moving the node in the label index", g, n)
					if x == nil {
						continue
					}
					c.ob(rule, con, x.how == "replace" && len(x.args) == 4, x.pos, "%s instead of replace", x.how)
					if len(x.args) == 4 {
						c.ob(rule, con, c.sameSet(e, s, c.setM(s, x.args[2]), m0), x.pos, "the old labels given to the index are %v, not the node's", x.args[2])
						c.ob(rule, con, c.sameSet(e, s, c.setM(s, x.args[3]), m1), x.pos, "the new labels given to the index are %v, not those set", x.args[3])
					}
				default:
					c.none(rule, con, ops, "operation that changes no labels")
				}
			}
		})
	}
}

// sameSet: a is the map b or a copy of it.
func (c *Ctx) sameSet(e *Eng, s *State, a, b *Term) bool {
	return a == b || c.isCopyOf(e, s, a, b, false) == ""
}

func init() {
	reg("C04", "Abstract interpretation of the label index: its add, remove and replace handle every label of the node exactly once and keep the unlabeled nodes apart (membership before and after derived per path from the emptiness of old and new label sets), empty sets leave the index; typestate over every mutating entry point; the id-keyed set keeps map and list equal; lookups by all labels and over all nodes denote the right sets; closed-world check of who writes labels and the index.", 60, func(c *Ctx) {
		c.checkFastSet()
		c.checkNodeMap()
		c.checkNodeLabels()
		c.checkSetQueries("labelset", "StringSet.Has", "StringSet.HasAllSet")
		c.checkNodeMapLookups("node-lookup")
		c.checkWritersOf("label-index-writers", []string{"NewNodeMap", "newGraphIndex", "NodeMap.Add", "NodeMap.Remove", "NodeMap.Replace"}, "Node.labels", "graphIndex.nodesByLabel", "NodeMap.*")
	})
}

func m0eq(st *State, x *Term) *Term { return st.e.tt.eq(x, st.e.tt.Int(0)) }
