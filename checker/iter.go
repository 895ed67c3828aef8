package main

import (
	"go/token"
)

// Iter is a loop recognised as visiting the elements of a collection.
type Iter struct {
	kind     string // map, slice, itr
	coll     *Term  // the map, slice or iterator
	key      *Term  // key or index
	val      *Term  // element, for maps and slices
	loop     *Loop
	complete bool // left only when the collection is exhausted
	from0    bool // starts at the first element and moves one at a time
	pos      token.Pos
	why      string
	keys     map[*Seg]*Term // index per iteration, if they differ
}

// ctl is the loop test at the start of an iteration.
type ctl struct {
	kind      string
	coll, key *Term
	val       *Term
	taken     bool
	ok        bool
	lim       *Term
}

// control finds the test that starts an iteration (or ends the loop).
func (e *Eng) control(evs []*Event, st *State) ctl {
	for i, ev := range evs {
		switch ev.kind {
		case EvLoop:
			return ctl{}
		case EvIter:
			c := ctl{kind: "map", coll: st.canon(ev.args[0]), key: st.canon(ev.args[1]), val: st.canon(ev.args[2])}
			if b, ok := st.evalBool(st.canon(ev.res)); ok {
				c.taken, c.ok = b, true
			}
			for _, x := range evs[i+1:] {
				if x.kind == EvAssume && x.args[0] == ev.res {
					c.taken, c.ok = x.truth, true
					break
				}
			}
			return c
		case EvCall:
			if ev.name == "Next" && len(ev.args) == 1 && ev.invoke {
				c := ctl{kind: "itr", coll: st.canon(ev.args[0])}
				if b, ok := st.evalBool(st.canon(ev.res)); ok {
					c.taken, c.ok = b, true
				}
				for _, x := range evs[i+1:] {
					if x.kind == EvAssume && x.args[0] == ev.res {
						c.taken, c.ok = x.truth, true
						break
					}
				}
				return c
			}
			if ev.name == "(*container/list.Element).Next" {
				continue
			}
			return ctl{}
		case EvAssume:
			a := ev.args[0]
			if app(a, "lt") {
				x, off := a.args[0], int64(0)
				lim := a.args[1]
				if lb, o, _ := st.linear(lim); app(lb, "len") {
					off = o
					idx := e.add(x, e.tt.Int(-off))
					return ctl{kind: "slice", coll: st.canon(lb.args[0]), key: idx, taken: ev.truth, ok: true, lim: lb}
				}
				if c, ok := lim.constInt(); ok && c == 0 {
					return ctl{kind: "down", key: x, taken: !ev.truth, ok: true}
				}
				if c, ok := x.constInt(); ok && c == -1 {
					return ctl{kind: "down", key: lim, taken: ev.truth, ok: true}
				}
				if c, ok := lim.constInt(); ok {
					return ctl{kind: "count", key: x, taken: ev.truth, ok: true, lim: e.tt.Int(c)}
				}
			}
			if app(a, "eq") {
				// pointer walk: x == nil
				x, y := a.args[0], a.args[1]
				if x.isNil() {
					x, y = y, x
				}
				if y.isNil() && isPhi(x) {
					return ctl{kind: "walk", coll: x, taken: !ev.truth, ok: true}
				}
			}
			return ctl{}
		}
	}
	return ctl{}
}

// iterOf recognises the loop at position i of a trace.
func (e *Eng) iterOf(evs []*Event, i int, st *State) *Iter {
	L := evs[i].loop
	it := &Iter{loop: L, pos: L.pos}
	tail := e.control(evs[i+1:], st)
	if len(L.segs) == 0 {
		return it
	}
	for n, s := range L.segs {
		c := e.control(s.events, s.st)
		if c.kind == "" || !c.ok || !c.taken {
			it.why = "unrecognised loop"
			return it
		}
		if n == 0 {
			it.kind, it.coll, it.key, it.val = c.kind, c.coll, c.key, c.val
			continue
		}
		if c.kind == "slice" && it.kind == "slice" && c.coll == it.coll && c.key != it.key {
			// the loop is split by the state it is in
			if it.keys == nil {
				it.keys = map[*Seg]*Term{}
				for _, q := range L.segs[:n] {
					it.keys[q] = it.key
				}
			}
			it.keys[s] = c.key
			continue
		}
		if it.keys != nil {
			it.keys[s] = c.key
		}
		if c.kind != it.kind || c.coll != it.coll || c.key != it.key {
			it.kind = ""
			it.why = "loop tests differ"
			return it
		}
	}
	it.complete = tail.kind == it.kind && tail.ok && !tail.taken && (tail.coll == it.coll || it.kind == "slice" || it.kind == "walk")
	if it.kind == "walk" {
		it.complete = tail.kind == it.kind && tail.ok && !tail.taken
	}
	if !it.complete {
		it.why = "the loop may end before all elements were visited"
	}
	it.from0 = true
	if it.kind == "down" {
		// from the last element to the first
		it.kind, it.from0 = "", false
		base, off, _ := st.linear(it.key)
		for ph, v := range L.init {
			ib, io, _ := st.linear(v)
			if !app(ib, "len") || io+off != -1 {
				continue
			}
			all := true
			for _, sg := range L.segs {
				if sg.next[ph] == nil {
					all = false
					break
				}
				b2, o2, _ := st.linear(sg.next[ph])
				if sg.hdr[ph] != base || b2 != base || o2 != -1 {
					all = false
				}
			}
			if all {
				it.kind, it.coll, it.from0 = "rslice", st.canon(ib.args[0]), true
			}
		}
		return it
	}
	if it.kind == "slice" && it.keys != nil {
		it.from0 = it.splitFrom0(st)
		if !it.from0 {
			it.why = "the loop does not start at the first element or does not move one at a time"
		}
	} else if it.kind == "slice" {
		base, off, _ := st.linear(it.key)
		it.from0 = false
		for ph, v := range L.init {
			c, ok := v.constInt()
			if !ok || c+off != 0 {
				continue
			}
			all := true
			for _, sg := range L.segs {
				b2, o2, _ := st.linear(sg.next[ph])
				if sg.hdr[ph] != base || b2 != base || o2 != 1 {
					all = false
				}
			}
			if all {
				it.from0 = true
			}
		}
		if !it.from0 {
			it.why = "the loop does not start at the first element or does not move one at a time"
		}
	}
	return it
}

// affine writes t as base plus constant; constants have no base.
func (st *State) affine(t *Term) (*Term, int64) {
	b, o, _ := st.linear(t)
	if c, ok := b.constInt(); ok {
		return nil, o + c
	}
	return b, o
}

// splitFrom0: from0 for a loop split by the state it is in.
func (it *Iter) splitFrom0(st *State) bool {
	L := it.loop
	for ph, v := range L.init {
		c, ok := v.constInt()
		if !ok {
			continue
		}
		all := true
		for _, sg := range L.segs {
			if sg.hdr[ph] == nil || sg.next[ph] == nil {
				all = false
				break
			}
			kb, ko := st.affine(it.keyOf(sg))
			hb, ho := st.affine(sg.hdr[ph])
			nb, no := st.affine(sg.next[ph])
			if kb != hb || nb != hb || no != ho+1 || ko-ho+c != 0 {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	return false
}

// keyOf is the key or index visited in a given iteration.
func (it *Iter) keyOf(sg *Seg) *Term {
	if k := it.keys[sg]; k != nil {
		return k
	}
	return it.key
}

// all: visits every element of the collection.
func (it *Iter) all() bool { return it != nil && it.kind != "" && it.complete && it.from0 }

// isElem: x is the element visited in the current iteration.
func (it *Iter) isElem(st *State, x *Term) bool {
	if it == nil || x == nil {
		return false
	}
	x = strip(x)
	switch it.kind {
	case "map":
		return x == it.val || x == it.key
	case "slice":
		return x.op == OpInit && x.args[0].op == OpElem && x.args[0].args[0] == it.coll && x.args[0].args[1] == it.key
	case "itr":
		if y, _, ok := asOf(x); ok {
			x = y
		}
		return x.op == OpUnk && st.callOf(x) != nil && st.callOf(x).invoke && (st.callOf(x).name == "Node" || st.callOf(x).name == "Edge" || st.callOf(x).name == "Value") && st.canon(st.callOf(x).args[0]) == it.coll
	}
	return false
}

// seq is one event list with its state and enclosing loops.
type seq struct {
	evs []*Event
	st  *State
	its []*Iter
	seg *Seg
}

// walkSeqs visits a trace and, recursively, all loop iterations in it.
func (e *Eng) walkSeqs(evs []*Event, st *State, f func(s seq)) {
	var rec func(s seq)
	rec = func(s seq) {
		f(s)
		for i, ev := range s.evs {
			if ev.kind != EvLoop {
				continue
			}
			it := e.iterOf(s.evs, i, s.st)
			for _, sg := range ev.loop.segs {
				rec(seq{sg.events, sg.st, append(append([]*Iter(nil), s.its...), it), sg})
			}
		}
	}
	rec(seq{evs: evs, st: st})
}
