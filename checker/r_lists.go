package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// ---- doubly linked intrusive lists -------------------------------------
//
// Shape analysis: the list is a sequence of cells; runs of two or more cells
// away from the operation are summarised by their first and last cell.

type lspec struct {
	name   string // nodeList, edgeList
	cell   types.Type
	list   types.Type
	link   func(e *Eng, cell *Term, which string) *Term // address of next/prev
	params func(e *Eng, list, cell *Term) []*Term
}

type litem struct{ first, last *Term }

func (c *Ctx) listSpec(name string) *lspec {
	list := types.NewPointer(c.typ(name))
	ix := func(e *Eng) *Term { return e.tt.Param("ix", types.Typ[types.Int]) }
	switch name {
	case "nodeList":
		n := types.NewPointer(c.typ("Node"))
		return &lspec{name: name, cell: n, list: list,
			link:   func(e *Eng, cell *Term, which string) *Term { return e.fld(cell, n, which) },
			params: func(e *Eng, l, x *Term) []*Term { return []*Term{l, x} }}
	case "edgeList":
		n := types.NewPointer(c.typ("Edge"))
		el := types.NewPointer(c.typ("edgeElement"))
		return &lspec{name: name, cell: n, list: list,
			link: func(e *Eng, cell *Term, which string) *Term {
				return e.fld(e.tt.Elem(e.fld(cell, n, "listElements"), ix(e), el.Elem()), el, which)
			},
			params: func(e *Eng, l, x *Term) []*Term { return []*Term{l, x, ix(e)} }}
	}
	panic("no list " + name)
}

type lcase struct {
	name   string
	before func(seg, cell func(string) litem, x litem) []litem
}

// runList analyses add or remove on one shape and reports deviations.
func (c *Ctx) runList(sp *lspec, op string, shape string, resetLinks bool) (cleans bool) {
	fn := c.fn(sp.name + "." + op)
	construct := fnName(fn) + " on " + shape
	e := newEng(c.w)
	e.hook = stdModel
	st := e.newState()
	l := e.tt.Param("list", sp.list)
	st.nn[l] = true
	x := e.tt.Param("x", sp.cell)
	var cells []*Term
	mk := func(n string) *Term {
		t := e.tt.Param(n, sp.cell)
		return t
	}
	var items []litem
	xi := -1
	cnt := 0
	hasSeg := false
	for i, s := range strings.Fields(shape) {
		switch s {
		case "x":
			items = append(items, litem{x, x})
			xi = i
			cnt++
		case "cell":
			t := mk(fmt.Sprintf("c%d", i))
			cells = append(cells, t)
			items = append(items, litem{t, t})
			cnt++
		case "seg":
			a, b := mk(fmt.Sprintf("s%da", i)), mk(fmt.Sprintf("s%db", i))
			cells = append(cells, a, b)
			items = append(items, litem{a, b})
			cnt += 2
			hasSeg = true
		}
	}
	all := append([]*Term{x}, cells...)
	for i, a := range all {
		st.nn[a] = true
		for _, b := range all[i+1:] {
			st.facts[e.tt.eq(a, b)] = false
		}
	}
	set := func(a, v *Term) { st.mem[a] = v }
	nilT := e.tt.Nil()
	next := func(t *Term) *Term { return sp.link(e, t, "next") }
	prev := func(t *Term) *Term { return sp.link(e, t, "prev") }
	headA, tailA, nA := e.fld(l, sp.list, "head"), e.fld(l, sp.list, "tail"), e.fld(l, sp.list, "n")
	if len(items) == 0 {
		set(headA, nilT)
		set(tailA, nilT)
	} else {
		set(headA, items[0].first)
		set(tailA, items[len(items)-1].last)
		set(prev(items[0].first), nilT)
		set(next(items[len(items)-1].last), nilT)
	}
	for i := 0; i+1 < len(items); i++ {
		set(next(items[i].last), items[i+1].first)
		set(prev(items[i+1].first), items[i].last)
	}
	segInner := map[*Term]*Term{}
	for _, it := range items {
		if it.first != it.last {
			// interior links are unknown but not nil
			nt := e.tt.Init(next(it.first), sp.cell)
			pt := e.tt.Init(prev(it.last), sp.cell)
			st.nn[nt], st.nn[pt] = true, true
			segInner[nt] = it.last
			segInner[pt] = it.first
		}
	}
	if op == "add" && resetLinks {
		set(next(x), nilT)
		set(prev(x), nilT)
	}
	n0 := e.tt.Init(nA, types.Typ[types.Int])
	if !hasSeg {
		n0 = e.tt.Int(int64(cnt))
		set(nA, n0)
	} else {
		st.iv[n0] = ival{hasLo: true, lo: int64(cnt)}
	}
	outs := c.runArgs(e, fn, sp.params(e, l, x), st)
	// expected sequences
	var expect [][]litem
	delta := int64(1)
	if op == "add" {
		expect = append(expect, append(append([]litem(nil), items...), litem{x, x}))
		expect = append(expect, append([]litem{{x, x}}, items...))
	} else {
		delta = -1
		expect = append(expect, append(append([]litem(nil), items[:xi]...), items[xi+1:]...))
	}
	cleans = true
	for _, o := range outs {
		if o.panic {
			c.fail("list-shape", construct, o.pos, "may panic (%s)", o.panicIs)
			continue
		}
		s := o.st
		walk := func(start *Term, link func(*Term) *Term) ([]*Term, bool) {
			var seq []*Term
			t := s.canon(start)
			for i := 0; i < 12; i++ {
				if t.isNil() {
					return seq, true
				}
				if to, ok := segInner[t]; ok {
					t = to
				}
				seq = append(seq, t)
				t = s.load(link(t), sp.cell)
			}
			return seq, false
		}
		flatSeq := func(its []litem, rev bool) string {
			var ss []string
			for _, it := range its {
				ss = append(ss, it.first.String())
				if it.first != it.last {
					ss = append(ss, it.last.String())
				}
			}
			if rev {
				for i, j := 0, len(ss)-1; i < j; i, j = i+1, j-1 {
					ss[i], ss[j] = ss[j], ss[i]
				}
			}
			return strings.Join(ss, " ")
		}
		show := func(ts []*Term) string {
			var ss []string
			for _, t := range ts {
				ss = append(ss, t.String())
			}
			return strings.Join(ss, " ")
		}
		f, fin := walk(s.load(headA, sp.cell), next)
		b, bfin := walk(s.load(tailA, sp.cell), prev)
		ok := false
		for _, ex := range expect {
			if fin && bfin && show(f) == flatSeq(ex, false) && show(b) == flatSeq(ex, true) {
				ok = true
			}
		}
		c.ob("list-shape", construct, ok, fn.Pos(), "after %s, walking from head gives [%s], walking back from tail gives [%s]; expected [%s]", op, show(f), show(b), flatSeq(expect[0], false))
		n1 := s.load(nA, types.Typ[types.Int])
		want := s.canon(e.add(n0, e.tt.Int(delta)))
		c.ob("list-count", construct, n1 == want, fn.Pos(), "after %s the count is %v, expected %v", op, n1, want)
		okw := true
		var badw *Term
		for _, ev := range flat(s) {
			if ev.kind == EvStore {
				r := ev.args[0].root()
				if r != l && r != x && !hasTerm(cells, r) && r.op != OpNew && segInner[r] == nil {
					okw, badw = false, ev.args[0]
				}
				// only link fields of cells
				if (r == x || hasTerm(cells, r)) && ev.args[0] != next(r) && ev.args[0] != prev(r) {
					okw, badw = false, ev.args[0]
				}
			} else if ev.kind == EvCall && !strings.HasPrefix(ev.name, "builtin") {
				okw = false
				badw = e.tt.Unk("call "+ev.name, nil)
			}
		}
		c.ob("list-frame", construct, okw, fn.Pos(), "%s also changes %v", op, badw)
		if !s.load(next(x), sp.cell).isNil() || !s.load(prev(x), sp.cell).isNil() {
			cleans = false
		}
	}
	return cleans
}

func hasTerm(ts []*Term, t *Term) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

// checkList verifies add and remove of a list type.
func (c *Ctx) checkList(name string, readds bool) {
	sp := c.listSpec(name)
	cleans := true
	for _, s := range []string{"x", "x cell", "x seg", "cell x", "seg x", "cell x cell", "seg x cell", "cell x seg", "seg x seg"} {
		c.guard("list-shape", name+".remove on "+s, func() {
			if !c.runList(sp, "remove", s, false) {
				cleans = false
			}
		})
	}
	for _, s := range []string{"", "cell", "seg"} {
		c.guard("list-shape", name+".add on "+s, func() {
			// elements are added when new, or after a removal
			c.runList(sp, "add", s, cleans || !readds)
		})
	}
}

var _ = token.NoPos
