package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Den is the collection an iterator value stands for.
type Den struct {
	k   string // empty nil one nodes edges lists list filter map gen concat call bad
	a   []*Term
	sub []*Den
	t   *Term // the value
	// fields of the object, for size checks
	size *Term
}

func (d *Den) String() string {
	if d == nil {
		return "?"
	}
	var ss []string
	for _, x := range d.sub {
		ss = append(ss, x.String())
	}
	for _, x := range d.a {
		ss = append(ss, fmt.Sprint(x))
	}
	return d.k + "(" + strings.Join(ss, ", ") + ")"
}

// den finds what an iterator value stands for at its creation.
func (c *Ctx) den(e *Eng, st *State, t *Term) *Den {
	return c.den0(e, st, t, 0)
}

func (c *Ctx) den0(e *Eng, st *State, t *Term, d int) *Den {
	t = st.canon(t)
	bad := &Den{k: "bad", t: t, a: []*Term{t}}
	if d > 12 {
		return bad
	}
	if t.isNil() {
		return &Den{k: "nil", t: t}
	}
	if t.op == OpUnk && st.callOf(t) != nil {
		var as []*Term
		for _, a := range st.callOf(t).args {
			as = append(as, st.canon(a))
		}
		k := "call:" + st.callOf(t).name
		if st.callOf(t).invoke {
			k = "invoke:" + st.callOf(t).name
		}
		return &Den{k: k, a: as, t: t}
	}
	if t.op != OpIface {
		return &Den{k: "val", a: []*Term{t}, t: t}
	}
	x := st.canon(t.args[0])
	tn := typeName(t.typ)
	ptr := t.typ
	if _, ok := t.typ.Underlying().(*types.Pointer); !ok {
		ptr = types.NewPointer(t.typ)
	}
	get := func(f string) *Term {
		if x.op == OpStruct {
			s := structOf(t.typ)
			for i := 0; i < s.NumFields(); i++ {
				if fieldName(s.Field(i)) == f {
					return st.canon(x.args[i])
				}
			}
			return bad.t
		}
		return st.canon(st.get(x, ptr, f))
	}
	switch tn {
	case "nodeIterator", "edgeIterator":
		return c.den0(e, st, get("Iterator"), d+1)
	case "iteratorWithSize":
		in := c.den0(e, st, get("itr"), d+1)
		return in
	case "emptyIterator":
		return &Den{k: "empty", t: t}
	case "singleEdgeIterator":
		if b, k := st.evalBool(get("done")); !k || b {
			return bad
		}
		return &Den{k: "one", a: []*Term{get("edge")}, t: t}
	case "nodeListIterator":
		return &Den{k: "nodes", a: []*Term{get("next")}, t: t, size: get("n")}
	case "edgeListIterator":
		return &Den{k: "edges", a: []*Term{get("next"), get("ix")}, t: t, size: get("n")}
	case "allEdgesItr":
		return &Den{k: "lists", a: []*Term{get("next"), get("labelListNext"), get("ix")}, t: t, size: get("size")}
	case "listIterator":
		return &Den{k: "list", a: []*Term{get("next")}, t: t, size: get("size")}
	case "filterIterator":
		return &Den{k: "filter", sub: []*Den{c.den0(e, st, get("itr"), d+1)}, a: []*Term{get("filter")}, t: t}
	case "procIterator":
		return &Den{k: "map", sub: []*Den{c.den0(e, st, get("itr"), d+1)}, a: []*Term{get("proc")}, t: t}
	case "nodesFromEdgesIterator":
		return &Den{k: "farends", sub: []*Den{c.den0(e, st, get("itr"), d+1)}, a: []*Term{get("node"), get("dir")}, t: t}
	case "nodeMapIterator":
		return &Den{k: "labels", a: []*Term{get("labels")}, t: t}
	case "funcIterator":
		if cur := get("current"); !cur.isNil() {
			return bad
		}
		f := get("iteratorFunc")
		if f.op == OpClos && c.popsSlice(f.fn) {
			// generator handing out the elements of a captured slice
			slot, at := c.popsParts(f.fn)
			if at >= 0 && st.canon(st.load(f.args[at], types.Typ[types.Int])) != e.tt.Int(0) {
				return bad
			}
			for _, cell := range f.args[slot : slot+1] {
				sl := st.canon(st.load(cell, elemType(cell)))
				base, n, off := sl, -1, 0
				if app(sl, "slicelit") {
					if k, ok := sl.args[1].constInt(); ok {
						n = int(k)
					}
					base = sl.args[0]
				}
				_ = off
				if n < 0 {
					return &Den{k: "concatslice", a: []*Term{sl}, t: t}
				}
				dn := &Den{k: "concat", t: t}
				for i := 0; i < n; i++ {
					it := c.typ("Iterator")
					el := st.load(e.tt.Elem(base, e.tt.Int(int64(i)), it), it)
					dn.sub = append(dn.sub, c.den0(e, st, el, d+1))
				}
				return dn
			}
		}
		return &Den{k: "gen", a: []*Term{f}, t: t}
	}
	return bad
}

// popsParts: the captured slice, and the captured position in it if any.
func (c *Ctx) popsParts(fn *ssa.Function) (slot, at int) {
	slot, at = -1, -1
	for i, fv := range fn.FreeVars {
		pt, ok := fv.Type().Underlying().(*types.Pointer)
		if !ok {
			return -1, -1
		}
		if sl, ok := pt.Elem().Underlying().(*types.Slice); ok && isIfaceType(sl.Elem()) && slot < 0 {
			slot = i
		} else if isInt(pt.Elem()) && at < 0 {
			at = i
		} else {
			return -1, -1
		}
	}
	return slot, at
}

// popsSlice: each call of the closure returns the first element of a captured
// slice and drops it, or nil when the slice is empty. Or the captured slice
// stays and a captured position moves on.
func (c *Ctx) popsSlice(fn *ssa.Function) bool {
	if c.pops == nil {
		c.pops = map[*ssa.Function]bool{}
	}
	if v, ok := c.pops[fn]; ok {
		return v
	}
	c.pops[fn] = false
	slot, at := c.popsParts(fn)
	if slot < 0 || len(fn.Params) != 0 {
		return false
	}
	pt := fn.FreeVars[slot].Type().Underlying().(*types.Pointer)
	stp := pt.Elem().Underlying().(*types.Slice)
	e := newEng(c.w)
	st := e.newState()
	var free []*Term
	for i, fv := range fn.FreeVars {
		cell := e.tt.Param(fmt.Sprintf("captured%d", i), fv.Type())
		st.nn[cell] = true
		free = append(free, cell)
	}
	sl := e.tt.Init(free[slot], pt.Elem())
	intT := types.Typ[types.Int]
	pos := e.tt.Int(0)
	if at >= 0 {
		pos = st.canon(st.load(free[at], intT))
		st.assume(e.tt.lt(pos, e.tt.Int(0)), false)
	}
	outs := e.call(fn, nil, free, st, "r")
	c.account(e, outs)
	ok := !e.over && len(outs) > 0
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		if o.panic || len(o.ret) != 1 {
			return false
		}
		s := o.st
		ln := s.canon(e.sliceLen(s, sl))
		now := s.canon(s.load(free[slot], pt.Elem()))
		pos1 := pos
		if at >= 0 {
			pos1 = s.canon(s.load(free[at], intT))
		}
		if s.no(e.tt.lt(s.canon(pos), ln)) {
			if !s.canon(o.ret[0]).isNil() || now != s.canon(sl) || pos1 != s.canon(pos) {
				ok = false
			}
			continue
		}
		first := s.canon(e.tt.Init(e.tt.Elem(sl, pos, stp.Elem()), stp.Elem()))
		if s.canon(o.ret[0]) != first {
			ok = false
		}
		if at >= 0 && pos1 != s.canon(pos) {
			if now != s.canon(sl) || pos1 != s.canon(e.add(pos, e.tt.Int(1))) {
				ok = false
			}
			continue
		}
		if !(at < 0 && app(now, "slice") && now.args[0] == s.canon(sl) && now.args[1] == e.tt.Int(1) && now.args[2] == ln) {
			ok = false
		}
	}
	c.pops[fn] = ok
	return ok
}
