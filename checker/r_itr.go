package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// itrModel gives iterators that are not known a meaning: a position that Next
// moves on, an element per position. Filter functions and generators are
// functions of their argument and of their number of calls.
func itrModel(e *Eng, st *State, ci *CallInfo) ([]CallRes, bool) {
	tt := e.tt
	pos := func(x *Term) *Term { return tt.Field(x, 0, "$pos", types.Typ[types.Int]) }
	rec := func(v *Term) ([]CallRes, bool) {
		st.event(&Event{kind: EvCall, name: ci.name, args: ci.args, res: v, pos: ci.pos, invoke: ci.invoke, dynamic: ci.dynamic})
		return []CallRes{{st: st, val: st.canon(v)}}, true
	}
	if ci.invoke {
		switch ci.name {
		case "Next":
			if len(ci.args) == 1 {
				p := tt.App("adv", types.Typ[types.Int], st.load(pos(ci.args[0]), types.Typ[types.Int]))
				v := tt.App("more", ci.typ, ci.args[0], p)
				st.mem[st.canon(pos(ci.args[0]))] = p
				return rec(v)
			}
		case "Value", "Node", "Edge":
			if len(ci.args) == 1 {
				v := tt.App("elem", ci.typ, ci.args[0], st.load(pos(ci.args[0]), types.Typ[types.Int]))
				return rec(v)
			}
		}
	}
	if ci.dynamic {
		f := ci.args[0]
		if len(ci.args) == 1 {
			p := tt.App("adv", types.Typ[types.Int], st.load(pos(f), types.Typ[types.Int]))
			st.mem[st.canon(pos(f))] = p
			return rec(tt.App("gen", ci.typ, f, p))
		}
		return rec(tt.App("call", ci.typ, ci.args...))
	}
	switch ci.name {
	case "(*github.com/emirpasic/gods/maps/linkedhashmap.Iterator).Next":
		p := tt.App("adv", types.Typ[types.Int], st.load(pos(ci.args[0]), types.Typ[types.Int]))
		st.mem[st.canon(pos(ci.args[0]))] = p
		return rec(tt.App("more", ci.typ, ci.args[0], p))
	case "(*github.com/emirpasic/gods/maps/linkedhashmap.Iterator).Value", "(*github.com/emirpasic/gods/maps/linkedhashmap.Iterator).Key":
		k := "elem"
		if strings.HasSuffix(ci.name, "Key") {
			k = "keyof"
		}
		return rec(tt.App(k, ci.typ, ci.args[0], st.load(pos(ci.args[0]), types.Typ[types.Int])))
	case "fastSet.iterator":
		v := tt.App("setitr", ci.typ, setOf(st, ci.args[0]))
		st.nn[v] = true
		// a new iterator
		st.mem[st.canon(pos(v))] = tt.Int(0)
		return rec(v)
	}
	return nil, false
}

// setOf names a set by its address: fastSet.iterator has a value receiver.
func setOf(st *State, t *Term) *Term {
	if t.op == OpStruct && len(t.args) > 0 {
		if a := t.args[0]; a.op == OpInit && a.args[0].op == OpField {
			return a.args[0].args[0]
		}
		if a := t.args[0]; a.op == OpFieldOf {
			return a.args[0]
		}
	}
	return t
}

// atom is a part of the sequence an iterator still has to give.
type atom struct {
	k    string
	a    []*Term
	desc string
}

func (x atom) String() string {
	var ss []string
	for _, t := range x.a {
		ss = append(ss, fmt.Sprint(t))
	}
	return x.k + "(" + strings.Join(ss, ",") + ")"
}

func atomsStr(xs []atom) string {
	if len(xs) == 0 {
		return "nothing"
	}
	var ss []string
	for _, x := range xs {
		ss = append(ss, x.String())
	}
	return strings.Join(ss, "·")
}

func (e *Eng) ghost(st *State, x *Term) *Term {
	return st.load(e.tt.Field(x, 0, "$pos", types.Typ[types.Int]), types.Typ[types.Int])
}

// abstraction of the iterator at p in a state: what it still has to give.
type absFn func(e *Eng, st *State, p *Term) []atom

func (c *Ctx) itrAbs() map[string]absFn {
	ptr := func(n string) types.Type { return types.NewPointer(c.typ(n)) }
	get := func(st *State, p *Term, n, f string) *Term { return st.canon(st.get(p, ptr(n), f)) }
	rest := func(e *Eng, st *State, i *Term, wrap ...*Term) []atom {
		if b, k := st.evalBool(st.canon(e.tt.eq(i, e.tt.Nil()))); i.isNil() || k && b {
			return nil
		}
		return []atom{{k: "rest", a: []*Term{i, e.ghost(st, i)}}}
	}
	return map[string]absFn{
		"nodeListIterator": func(e *Eng, st *State, p *Term) []atom {
			return []atom{{k: "node", a: []*Term{get(st, p, "nodeListIterator", "next")}}}
		},
		"edgeListIterator": func(e *Eng, st *State, p *Term) []atom {
			return []atom{{k: "edge", a: []*Term{get(st, p, "edgeListIterator", "next"), get(st, p, "edgeListIterator", "ix")}}}
		},
		"listIterator": func(e *Eng, st *State, p *Term) []atom {
			return []atom{{k: "lst", a: []*Term{get(st, p, "listIterator", "next")}}}
		},
		"singleEdgeIterator": func(e *Eng, st *State, p *Term) []atom {
			return []atom{{k: "unless", a: []*Term{get(st, p, "singleEdgeIterator", "done"), get(st, p, "singleEdgeIterator", "edge")}}}
		},
		"emptyIterator": func(e *Eng, st *State, p *Term) []atom { return nil },
		"allEdgesItr": func(e *Eng, st *State, p *Term) []atom {
			ix := get(st, p, "allEdgesItr", "ix")
			return []atom{{k: "edge", a: []*Term{get(st, p, "allEdgesItr", "next"), ix}}, {k: "lists", a: []*Term{get(st, p, "allEdgesItr", "labelListNext"), ix}}}
		},
		"filterIterator": func(e *Eng, st *State, p *Term) []atom {
			i := get(st, p, "filterIterator", "itr")
			return []atom{{k: "filt", a: []*Term{i, e.ghost(st, i), get(st, p, "filterIterator", "filter")}}}
		},
		"procIterator": func(e *Eng, st *State, p *Term) []atom {
			i := get(st, p, "procIterator", "itr")
			return []atom{{k: "proc", a: []*Term{i, e.ghost(st, i), get(st, p, "procIterator", "proc")}}}
		},
		"iteratorWithSize": func(e *Eng, st *State, p *Term) []atom {
			return rest(e, st, get(st, p, "iteratorWithSize", "itr"))
		},
		"funcIterator": func(e *Eng, st *State, p *Term) []atom {
			f := get(st, p, "funcIterator", "iteratorFunc")
			return append(rest(e, st, get(st, p, "funcIterator", "current")), atom{k: "gens", a: []*Term{f, e.ghost(st, f)}})
		},
		"nodeMapIterator": func(e *Eng, st *State, p *Term) []atom {
			l := get(st, p, "nodeMapIterator", "labels")
			cur := get(st, p, "nodeMapIterator", "current")
			r := c.unwrapRest(e, st, cur)
			return append(r, atom{k: "labels", a: []*Term{l, e.ghost(st, l)}})
		},
	}
}

// unwrapRest: what an iterator value still gives, through wrappers.
func (c *Ctx) unwrapRest(e *Eng, st *State, v *Term) []atom {
	v = st.canon(v)
	for d := 0; d < 6; d++ {
		if v.op == OpIface {
			tn := typeName(v.typ)
			x := v.args[0]
			switch tn {
			case "nodeIterator", "edgeIterator":
				if x.op == OpStruct {
					v = st.canon(x.args[0])
				} else {
					v = st.canon(st.get(x, v.typ, "Iterator"))
				}
				continue
			case "iteratorWithSize":
				v = st.canon(st.get(x, v.typ, "itr"))
				continue
			case "emptyIterator":
				return nil
			}
		}
		break
	}
	if v.isNil() {
		return nil
	}
	if b, k := st.evalBool(st.canon(e.tt.eq(v, e.tt.Nil()))); k && b {
		return nil
	}
	return []atom{{k: "rest", a: []*Term{v, e.ghost(st, v)}}}
}

// unfold expands the first atom as far as the facts of st decide; ok=false if
// they do not.
func (c *Ctx) unfold(e *Eng, st *State, x atom) (out []atom, ok bool) {
	tt := e.tt
	one := func(t *Term) atom { return atom{k: "one", a: []*Term{st.canon(t)}} }
	null := func(t *Term) (bool, bool) {
		if t.isNil() {
			return true, true
		}
		if st.nonNil(t) {
			return false, true
		}
		return st.evalBool(st.canon(tt.eq(t, tt.Nil())))
	}
	node, edge := types.NewPointer(c.typ("Node")), types.NewPointer(c.typ("Edge"))
	a := make([]*Term, len(x.a))
	for i, t := range x.a {
		a[i] = st.canon(t)
	}
	adv := func(p *Term) *Term { return st.canon(tt.App("adv", types.Typ[types.Int], p)) }
	switch x.k {
	case "node":
		if n, k := null(a[0]); k && n {
			return nil, true
		} else if k {
			return []atom{one(a[0]), {k: "node", a: []*Term{st.canon(st.get(a[0], node, "next"))}}}, true
		}
	case "edge":
		if n, k := null(a[0]); k && n {
			return nil, true
		} else if k {
			arr := e.fld(a[0], edge, "listElements")
			elT := fieldType(edge, "listElements").Underlying().(*types.Array).Elem()
			addr := tt.Elem(arr, a[1], elT)
			nx := st.canon(st.load(e.fld(addr, types.NewPointer(elT), "next"), edge))
			return []atom{one(a[0]), {k: "edge", a: []*Term{nx, a[1]}}}, true
		}
	case "lst":
		if n, k := null(a[0]); k && n {
			return nil, true
		} else if k {
			s := structOf(a[0].typ)
			if s == nil {
				return nil, false
			}
			v := st.canon(st.get(a[0], a[0].typ, "Value"))
			return []atom{one(v), {k: "lst", a: []*Term{st.canon(tt.App("list.ElNext", a[0].typ, a[0]))}}}, true
		}
	case "lists":
		if n, k := null(a[0]); k && n {
			return nil, true
		} else if k {
			if structOf(a[0].typ) == nil {
				return nil, false
			}
			v := st.canon(st.get(a[0], a[0].typ, "Value"))
			lp := types.NewPointer(c.typ("edgeLabelList"))
			l := st.canon(tt.App("as:"+typeKey(lp), lp, v))
			if v.op == OpIface {
				l = v.args[0]
			}
			h := st.canon(st.get(l, lp, "edges.head"))
			return []atom{{k: "edge", a: []*Term{h, a[1]}}, {k: "lists", a: []*Term{st.canon(tt.App("list.ElNext", a[0].typ, a[0])), a[1]}}}, true
		}
	case "unless":
		if b, k := st.evalBool(a[0]); k && b {
			return nil, true
		} else if k {
			return []atom{one(a[1])}, true
		}
	case "rest", "filt", "proc":
		if n, k := null(a[0]); k && n {
			return nil, true
		}
		p := adv(a[1])
		if app(a[0], "setitr") && x.k == "rest" {
			if v, ok := a[1].constInt(); ok && v == 0 {
				// sets reached through a label are not empty
				return []atom{one(tt.App("elem", nil, a[0], p)), {k: "rest", a: []*Term{a[0], p}}}, true
			}
		}
		m, k := st.evalBool(st.canon(tt.App("more", types.Typ[types.Bool], a[0], p)))
		if k && !m {
			return nil, true
		}
		if !k {
			return nil, false
		}
		nx := append([]*Term{a[0], p}, a[2:]...)
		el := st.canon(tt.App("elem", nil, a[0], p))
		switch x.k {
		case "rest":
			return []atom{one(el), {k: x.k, a: nx}}, true
		case "proc":
			return []atom{one(tt.App("call", nil, a[2], el)), {k: x.k, a: nx}}, true
		}
		f, fk := st.evalBool(st.canon(tt.App("call", types.Typ[types.Bool], a[2], el)))
		if !fk {
			return nil, false
		}
		if f {
			return []atom{one(el), {k: x.k, a: nx}}, true
		}
		return []atom{{k: x.k, a: nx}}, true
	case "gens":
		p := adv(a[1])
		g := st.canon(tt.App("gen", nil, a[0], p))
		n, k := null(g)
		if !k {
			return nil, false
		}
		if n {
			return nil, true
		}
		return []atom{{k: "rest", a: []*Term{g, e.ghost0(st, g)}}, {k: "gens", a: []*Term{a[0], p}}}, true
	case "labels":
		if n, k := null(a[0]); k && n {
			return nil, true
		}
		p := adv(a[1])
		m, k := st.evalBool(st.canon(tt.App("more", types.Typ[types.Bool], a[0], p)))
		if k && !m {
			return nil, true
		}
		if !k {
			return nil, false
		}
		v := st.canon(tt.App("elem", nil, a[0], p))
		s := tt.App("setitr", nil, st.canon(tt.App("as:*lpg.fastSet", nil, v)))
		return []atom{{k: "rest", a: []*Term{s, tt.Int(0)}}, {k: "labels", a: []*Term{a[0], p}}}, true
	}
	return nil, false
}

// ghost0 is the position of an iterator before the transition touched it.
func (e *Eng) ghost0(st *State, x *Term) *Term {
	ty := types.Typ[types.Int]
	return st.canon(e.tt.Init(e.tt.Field(x, 0, "$pos", ty), ty))
}

// sameSeq: the sequences are equal under the facts of st.
func (c *Ctx) sameSeq(e *Eng, st *State, L, R []atom) bool {
	canonA := func(xs []atom) []atom {
		var out []atom
		for _, x := range xs {
			y := atom{k: x.k}
			for _, t := range x.a {
				t = st.canon(t)
				if x.k == "one" {
					for {
						if z, _, ok := asOf(t); ok {
							t = z
							continue
						}
						break
					}
					t = strip(t)
				}
				y.a = append(y.a, t)
			}
			out = append(out, y)
		}
		return out
	}
	eq := func(x, y atom) bool {
		if x.k != y.k || len(x.a) != len(y.a) {
			return false
		}
		for i := range x.a {
			if x.a[i] != y.a[i] {
				return false
			}
		}
		return true
	}
	L, R = canonA(L), canonA(R)
	for step := 0; step < 40; step++ {
		for len(L) > 0 && len(R) > 0 && eq(L[0], R[0]) {
			L, R = L[1:], R[1:]
		}
		if len(L) == 0 && len(R) == 0 {
			return true
		}
		if len(L) > 0 {
			if u, ok := c.unfold(e, st, L[0]); ok {
				L = canonA(append(append([]atom(nil), u...), L[1:]...))
				continue
			}
		}
		if len(R) > 0 {
			if u, ok := c.unfold(e, st, R[0]); ok {
				R = canonA(append(append([]atom(nil), u...), R[1:]...))
				continue
			}
		}
		return false
	}
	return false
}

// trans is a loop-free piece of an execution.
type trans struct {
	from  *State
	evs   []*Event
	to    *State
	final bool
}

func pieces(from *State, evs []*Event, to *State, final bool) []trans {
	var out []trans
	cur := from
	var acc []*Event
	for _, ev := range evs {
		if ev.kind != EvLoop {
			acc = append(acc, ev)
			continue
		}
		L := ev.loop
		out = append(out, trans{cur, acc, L.start, false})
		for _, s := range L.segs {
			out = append(out, pieces(L.hdr[s.from], s.events, s.st, false)...)
		}
		cur, acc = L.hdr[ev.key], nil
	}
	return append(out, trans{cur, acc, to, final})
}

// checkIterator verifies Next and Value of one iterator type against the
// sequence its fields denote.
func (c *Ctx) checkIterator(rule, typ string, abs absFn, values ...string) {
	con := typ
	c.guard(rule, con, func() {
		fn := c.fn(typ + ".Next")
		e := newEng(c.w)
		e.hook = hooks(itrModel, stdModel)
		st := e.newState()
		p := e.tt.Param("itr", fn.Params[0].Type())
		st.nn[p] = true
		if typ == "nodeMapIterator" || typ == "filterIterator" || typ == "procIterator" || typ == "iteratorWithSize" {
			// built with the iterator they work on
		}
		st0 := st.clone()
		outs := c.runArgs(e, fn, []*Term{p}, st)
		for _, o := range outs {
			if o.panic {
				c.fail(rule, con, o.pos, "Next may panic: %s", o.panicIs)
				continue
			}
			for _, t := range pieces(st0, o.st.tr.list(), o.st, true) {
				before := abs(e, t.from, p)
				after := abs(e, t.to, p)
				// one evaluation of a filter per element
				seen := map[string]bool{}
				for _, ev := range t.evs {
					if ev.kind == EvCall && ev.dynamic && len(ev.args) > 1 {
						k := fmt.Sprint(t.to.canon(ev.res).id)
						c.ob(rule, con, !seen[k], ev.pos, "the filter is called twice for one element")
						seen[k] = true
					}
				}
				if !t.final {
					c.ob(rule, con, c.sameSeq(e, t.to, before, after), fn.Pos(), "going on in Next changes what the iterator still gives from %s to %s", atomsStr(before), atomsStr(after))
					continue
				}
				r, known := t.to.evalBool(t.to.canon(o.ret[0]))
				var cases []*State
				var rs []bool
				if known {
					cases, rs = []*State{t.to}, []bool{r}
				} else {
					for _, b := range []bool{true, false} {
						s := t.to.clone()
						if s.assume(s.canon(o.ret[0]), b) && !s.dead {
							cases, rs = append(cases, s), append(rs, b)
						}
					}
				}
				for i, s := range cases {
					if !rs[i] {
						c.ob(rule, con, c.sameSeq(e, s, before, nil), fn.Pos(), "Next reports the end while %s is left", atomsStr(before))
						continue
					}
					for _, vn := range values {
						vf := c.fn(typ + "." + vn)
						e.steps = 0
						for _, vo := range c.runArgs(e, vf, []*Term{p}, s.clone()) {
							if vo.panic {
								c.fail(rule, con+"."+vn, vo.pos, "may panic after a successful Next: %s", vo.panicIs)
								continue
							}
							v := strip(vo.st.canon(vo.ret[0]))
							aft := abs(e, vo.st, p)
							ok := c.sameSeq(e, vo.st, before, append([]atom{{k: "one", a: []*Term{v}}}, aft...))
							c.ob(rule, con+"."+vn, ok, fn.Pos(), "after a successful Next with %s left, the element is %v and %s remains", atomsStr(before), v, atomsStr(aft))
						}
					}
				}
			}
		}
	})
}

func (c *Ctx) checkIterators(rule string, only ...string) {
	abs := c.itrAbs()
	vals := map[string][]string{
		"nodeListIterator": {"Value", "Node"}, "edgeListIterator": {"Value", "Edge"}, "singleEdgeIterator": {"Value", "Edge"},
		"allEdgesItr": {"Value", "Edge"}, "nodeMapIterator": {"Value", "Node"}, "emptyIterator": {},
	}
	if len(only) == 0 {
		only = []string{"nodeListIterator", "edgeListIterator", "listIterator", "singleEdgeIterator", "emptyIterator", "allEdgesItr",
			"filterIterator", "procIterator", "iteratorWithSize", "funcIterator", "nodeMapIterator"}
	}
	for _, n := range only {
		v, ok := vals[n]
		if !ok {
			v = []string{"Value"}
		}
		c.checkIterator(rule, n, abs[n], v...)
	}
}

var _ = token.NoPos

func init() {
	reg("C14", "Simulation proof by abstract interpretation: for every iterator type, the fields denote the sequence still to come; each path and each loop iteration of Next must preserve it, a true result must take exactly its first element, which Value reports, and a false result requires it to be empty.", 10, func(c *Ctx) {
		c.checkIterators("iterator")
		c.checkDedupItr("dedup")
		c.checkUniqueFilter("dedup")
		c.checkSliceCollector("collect", "NodeSlice")
		c.checkSliceCollector("collect", "EdgeSlice")
	})
}
