package main

import (
	"fmt"
	"go/token"
	"go/types"
)

// iso is the state of one examination of the isomorphism check.
type iso struct {
	c          *Ctx
	e          *Eng
	s          *State
	o          Outcome
	evs        []*Event
	ctx        *Term
	g1, g2     *Term
	nodeEq     *Term
	edgeEq     *Term
	nodeT      types.Type
	edgeT      types.Type
	name       string
	inner      map[string]bool // loops found in iterations of others
}

// ofGraph: t is a list of all nodes of graph g.
func (q *iso) nodesOf(st *State, t, g *Term) bool {
	t = strip(st.canon(t))
	cl := st.callOf(t)
	if cl == nil {
		return false
	}
	switch cl.name {
	case "NodeSlice":
		return q.nodesOf(st, cl.args[0], g)
	case "Graph.GetNodes":
		return st.canon(cl.args[0]) == g
	}
	return false
}

// edgesOf: t is the list of outgoing edges of a node.
func (q *iso) edgesOf(st *State, t *Term) *Term {
	t = strip(st.canon(t))
	cl := st.callOf(t)
	if cl == nil {
		return nil
	}
	switch cl.name {
	case "EdgeSlice":
		return q.edgesOf(st, cl.args[0])
	case "Node.GetEdges":
		if k, ok := st.canon(cl.args[1]).constInt(); ok && k == q.c.dirConst("OutgoingEdge") {
			return st.canon(cl.args[0])
		}
	}
	return nil
}

// asked: the callback f is known to have said yes to a and b.
func (q *iso) asked(st *State, evs []*Event, f, a, b *Term) bool {
	for _, ev := range evs {
		if ev.kind == EvCall && ev.dynamic && len(ev.args) == 3 && st.canon(ev.args[0]) == f && st.canon(ev.args[1]) == a && st.canon(ev.args[2]) == b && st.yes(ev.res) {
			return true
		}
	}
	return false
}

// sameCount: the two graphs are known to have the same number of elements.
func (q *iso) sameCount(what string) bool {
	var n1, n2 []*Term
	s := q.s
	for c := s.calls; c != nil; c = c.prev {
		ev := c.ev
		if ev.res == nil || len(ev.args) == 0 {
			continue
		}
		var n, g *Term
		switch {
		case ev.name == "Graph."+what:
			n, g = s.canon(ev.res), s.canon(ev.args[0])
		case ev.name == "NodeSlice" && what == "NumNodes":
			n = s.canon(q.e.sliceLen(s, ev.res))
			for _, x := range []*Term{q.g1, q.g2} {
				if q.nodesOf(s, ev.res, x) {
					g = x
				}
			}
		}
		switch g {
		case q.g1:
			n1 = append(n1, n)
		case q.g2:
			n2 = append(n2, n)
		}
	}
	for _, a := range n1 {
		for _, b := range n2 {
			if a == b || s.yes(q.e.tt.eq(a, b)) {
				return true
			}
		}
	}
	return false
}

// elemAt: x is the element of a slice at the given index.
func elemAt(x *Term) (coll, idx *Term) {
	if x != nil && x.op == OpInit && x.args[0].op == OpElem {
		return x.args[0].args[0], x.args[0].args[1]
	}
	return nil, nil
}

// candidates: node x stands at some position of the list kept for position k
// of slice all, and that list holds only nodes equivalent to all[k].
func (q *iso) candidates(st *State, x, k *Term) string {
	list, _ := elemAt(st.canon(x))
	outer, i := elemAt(list)
	if outer == nil {
		return fmt.Sprintf("%v is not one of the candidates collected for the node", x)
	}
	if st.canon(i) != st.canon(k) {
		return fmt.Sprintf("%v is a candidate for another node", x)
	}
	return q.onlyEquivalent(outer)
}

// onlyEquivalent: whatever is put at position k of the slice of lists is a
// node of g2 equivalent to the node of g1 at position k.
func (q *iso) onlyEquivalent(outer *Term) string {
	n := 0
	why := ""
	all := flat(q.s)
	for i := range all {
		x := &all[i]
		if x.kind != EvStore || x.Event.args[0].op != OpElem || x.st.canon(x.Event.args[0].args[0]) != outer {
			continue
		}
		n++
		k := x.st.canon(x.Event.args[0].args[1])
		seen := map[*Term]bool{}
		var rec func(v *Term) string
		rec = func(v *Term) string {
			v = x.st.canon(v)
			if seen[v] || v.isNil() || q.e.emptySlice(x.st, v) {
				return ""
			}
			seen[v] = true
			if o, j := elemAt(v); o == outer && x.st.canon(j) == k {
				return ""
			}
			if p := q.e.tt.prov[v]; len(p) > 0 {
				for y := range p {
					if w := rec(y); w != "" {
						return w
					}
				}
				return ""
			}
			// appended
			for j := range all {
				a := &all[j]
				if a.kind != EvCall || a.name != "append" || a.res != v && !sameAdded(a, v) {
					continue
				}
				for _, y := range a.args[1:] {
					if w := q.equivalent(a, k, y); w != "" {
						return w
					}
				}
				return rec(v.args[0])
			}
			return fmt.Sprintf("undecided: %v is stored as list of candidates", v)
		}
		if w := rec(x.Event.args[1]); w != "" {
			why = w
		}
	}
	if n == 0 {
		return "no candidates are collected"
	}
	return why
}

// sameAdded: the append v adds the same elements as a.
func sameAdded(a *Ev, v *Term) bool {
	if !app(v, "append") || len(v.args) != len(a.args) {
		return false
	}
	for i := range v.args[1:] {
		if v.args[i+1] != a.args[i+1] {
			return false
		}
	}
	return true
}

// equivalent: in the iteration of a, y is a node of g2 found to be equivalent
// to the node of g1 at position k.
func (q *iso) equivalent(a *Ev, k, y *Term) string {
	st := a.st
	y = st.canon(y)
	evs := q.evs
	if len(a.path) > 0 {
		evs = a.path[len(a.path)-1].seg.events
	}
	// y visits the nodes of g2
	from := y
	if cl := st.callOf(y); cl != nil && cl.invoke && cl.name == "Node" {
		from = cl.args[0]
	} else if c, _ := elemAt(y); c != nil {
		from = c
	}
	if !q.nodesOf(st, from, q.g2) {
		return fmt.Sprintf("candidate %v is not a node of the second graph", y)
	}
	for _, ev := range evs {
		if ev.kind != EvCall || !ev.dynamic || len(ev.args) != 3 || st.canon(ev.args[0]) != q.nodeEq || st.canon(ev.args[2]) != y || !st.yes(ev.res) {
			continue
		}
		if c, j := elemAt(st.canon(ev.args[1])); c != nil && st.canon(j) == k && q.nodesOf(st, c, q.g1) {
			return ""
		}
	}
	return fmt.Sprintf("%v is made a candidate without being equivalent to the node", y)
}

// absentBefore: at the start of the iteration, or by a test in it, key k was
// not in map m.
func (q *iso) absentBefore(L *Loop, sg *Seg, upto int, m, k *Term) bool {
	for _, ev := range sg.events[:upto] {
		if ev.kind == EvAssume && app(ev.args[0], "has") && !ev.truth && sg.st.canon(ev.args[0].args[0]) == m && sg.st.canon(ev.args[0].args[1]) == k {
			return true
		}
		if ev.kind == EvAssume && app(ev.args[0], "mapget") && !ev.truth && sg.st.canon(ev.args[0].args[0]) == m && sg.st.canon(ev.args[0].args[1]) == k {
			return true
		}
	}
	if h := L.hdr[sg.from]; h != nil {
		if _, has := h.mapLookup(m, k, q.nodeT); has != nil {
			if b, ok := h.evalBool(has); ok && !b {
				return true
			}
		}
		if iv := h.ivalOf(h.mapLen(m)); iv.hasHi && iv.hi <= 0 {
			return true
		}
	}
	return false
}

// filled: M maps every node of g1 to one of its candidates.
func (q *iso) filled(m *Term) string {
	n := 0
	why := ""
	for i, ev := range q.evs {
		if ev.kind == EvMapUpd && q.s.canon(ev.args[0]) == m {
			return "the mapping is changed outside a loop"
		}
		if ev.kind == EvMapDel && q.s.canon(ev.args[0]) == m {
			return "entries leave the mapping"
		}
		if ev.kind != EvLoop || !updates(ev.loop, m) {
			continue
		}
		// iterations of the search make a mapping of their own
		own := false
		for _, sg := range ev.loop.segs {
			for _, x := range sg.events {
				if x.kind == EvLoop && updates(x.loop, m) {
					own = true
				}
			}
		}
		if own {
			continue
		}
		n++
		it := q.e.iterOf(q.evs, i, q.s)
		if !it.all() || it.kind != "slice" {
			return "not all nodes are mapped: " + it.why
		}
		for _, sg := range ev.loop.segs {
			did := 0
			for _, x := range sg.events {
				if x.kind != EvMapUpd || sg.st.canon(x.args[0]) != m {
					continue
				}
				did++
				k := it.keyOf(sg)
				c, j := elemAt(sg.st.canon(x.args[1]))
				if c == nil || sg.st.canon(j) != sg.st.canon(k) || !q.nodesOf(sg.st, c, q.g1) {
					why = fmt.Sprintf("%v is mapped, not the node visited", x.args[1])
					continue
				}
				if w := q.candidates(sg.st, x.args[2], k); w != "" {
					why = w
				}
			}
			if did != 1 {
				why = "a node is not mapped, or mapped twice"
			}
		}
		// it covers the nodes of g1
		lenOK := q.nodesOf(q.s, it.coll, q.g1)
		if !lenOK {
			ln := q.s.canon(q.e.sliceLen(q.s, it.coll))
			for c := q.s.calls; c != nil; c = c.prev {
				if c.ev.name == "NodeSlice" && q.nodesOf(q.s, c.ev.res, q.g1) && q.s.canon(q.e.sliceLen(q.s, c.ev.res)) == ln {
					lenOK = true
				}
			}
		}
		if !lenOK {
			why = "not all nodes of the first graph are mapped"
		}
	}
	if n != 1 {
		return fmt.Sprintf("the mapping is filled by %d loops", n)
	}
	return why
}

// injective: the values of m are known to be distinct.
func (q *iso) injective(m *Term) string {
	why := "distinct nodes may be mapped to the same node"
	for i, ev := range q.evs {
		if ev.kind != EvLoop {
			continue
		}
		it := q.e.iterOf(q.evs, i, q.s)
		if !it.all() {
			continue
		}
		sets := map[*Term]bool{}
		for _, sg := range ev.loop.segs {
			for _, x := range sg.events {
				if x.kind == EvMapUpd {
					sets[sg.st.canon(x.args[0])] = true
				}
			}
		}
		for set := range sets {
			if set == m && it.kind == "map" || !set.isAlloc() {
				continue
			}
			good, tested := true, true
			for _, sg := range ev.loop.segs {
				did := 0
				for j, x := range sg.events {
					if x.kind == EvLoop && updates(x.loop, set) || x.kind == EvMapDel && sg.st.canon(x.args[0]) == set {
						good = false
					}
					if x.kind != EvMapUpd || sg.st.canon(x.args[0]) != set {
						continue
					}
					did++
					k := sg.st.canon(x.args[1])
					if it.kind == "map" && it.coll == m {
						good = good && k == sg.st.canon(it.val)
					} else if v := q.mappedIn(sg, m); v != nil {
						good = good && k == v
					} else {
						good = false
					}
					tested = tested && q.absentBefore(ev.loop, sg, j, set, k)
				}
				good = good && did == 1
			}
			if good && !tested {
				// comparing sizes afterwards does as well
				tested = q.s.canon(q.s.mapLen(set)) == q.s.canon(q.s.mapLen(m)) || q.s.yes(q.e.tt.eq(q.s.mapLen(set), q.s.mapLen(m)))
			}
			if good && tested {
				return ""
			}
		}
	}
	return why
}

// mappedIn: the value put into m in this iteration.
func (q *iso) mappedIn(sg *Seg, m *Term) *Term {
	for _, x := range sg.events {
		if x.kind == EvMapUpd && sg.st.canon(x.args[0]) == m {
			return sg.st.canon(x.args[2])
		}
	}
	return nil
}

// matches: for each node mapped, distinct edges are matched with distinct
// edges of the node it is mapped to.
func (q *iso) matches() (m *Term, why string) {
	why = "no loop compares the edges of all nodes mapped"
	for i, ev := range q.evs {
		if ev.kind != EvLoop {
			continue
		}
		nested := false
		for _, sg := range ev.loop.segs {
			for _, x := range sg.events {
				nested = nested || x.kind == EvLoop
			}
		}
		it := q.e.iterOf(q.evs, i, q.s)
		if !nested || it.kind == "" || len(ev.loop.segs) == 0 {
			continue
		}
		if it.kind == "map" {
			m = it.coll
		} else if !q.nodesOf(q.s, it.coll, q.g1) {
			continue
		} else if m = q.comparedWith(ev.loop, it); m == nil {
			continue
		}
		if !q.compares(ev.loop) {
			continue
		}
		if !it.all() {
			return m, "the edges of some nodes are not compared: " + it.why
		}
		for _, sg := range ev.loop.segs {
			n1, n2 := it.key, it.val
			if it.kind != "map" {
				n1 = nil
			}
			if w := q.nodeMatched(sg, m, n1, n2, it); w != "" {
				return m, w
			}
		}
		return m, ""
	}
	return m, why
}

// compares: the edge callback is asked somewhere in the loop.
func (q *iso) compares(L *Loop) bool {
	for _, sg := range L.segs {
		for _, x := range sg.events {
			if x.kind == EvCall && x.dynamic && sg.st.canon(x.args[0]) == q.edgeEq {
				return true
			}
			if x.kind == EvLoop && q.compares(x.loop) {
				return true
			}
		}
	}
	return false
}

// comparedWith: the mapping looked up for the node visited.
func (q *iso) comparedWith(L *Loop, it *Iter) *Term {
	for _, sg := range L.segs {
		for _, ev := range sg.events {
			if ev.kind == EvCall && ev.name == "Node.GetEdges" {
				if t := sg.st.canon(ev.args[0]); app(t, "mapget") && it.isElem(sg.st, t.args[1]) {
					return t.args[0]
				}
			}
		}
	}
	return nil
}

// nodeMatched examines what is done for one node.
func (q *iso) nodeMatched(sg *Seg, m, n1, n2 *Term, it *Iter) string {
	st := sg.st
	for i, ev := range sg.events {
		if ev.kind != EvLoop || !q.compares(ev.loop) {
			continue
		}
		in := q.e.iterOf(sg.events, i, st)
		if in.kind != "slice" && in.kind != "itr" {
			return "undecided: the edges are not compared one by one"
		}
		if !in.all() {
			return "some edges are not compared: " + in.why
		}
		a := q.edgesOf(st, in.coll)
		if a == nil || n1 != nil && a != st.canon(n1) || n1 == nil && !it.isElem(st, a) {
			return fmt.Sprintf("%v are not the outgoing edges of the node mapped", in.coll)
		}
		b := n2
		if b == nil {
			b, _ = st.mapLookup(m, a, q.nodeT)
		}
		var other *Term
		for _, es := range ev.loop.segs {
			w := q.edgeMatched(ev.loop, es, in, m, st.canon(b), &other)
			if w != "" {
				return w
			}
		}
		return ""
	}
	// no edges at all
	for c := st.calls; c != nil; c = c.prev {
		if c.ev.name == "EdgeSlice" || c.ev.name == "Node.GetEdges" {
			if a := q.edgesOf(st, c.ev.res); a != nil && (a == n1 || n1 == nil && it.isElem(st, a)) {
				if iv := st.ivalOf(q.e.sliceLen(st, c.ev.res)); iv.hasHi && iv.hi <= 0 {
					return ""
				}
			}
		}
	}
	return "the edges of a node are not compared"
}

// edgeMatched: an edge finds an edge not matched before, equivalent, and
// ending at the node its own end is mapped to.
func (q *iso) edgeMatched(L *Loop, sg *Seg, in *Iter, m, n2 *Term, other **Term) string {
	st := sg.st
	why := "an edge may have no equivalent"
	ptr := types.NewPointer(q.edgeT)
	for _, ev := range sg.events {
		if ev.kind != EvCall || !ev.dynamic || len(ev.args) != 3 || st.canon(ev.args[0]) != q.edgeEq || !st.yes(ev.res) {
			continue
		}
		e1, e2 := st.canon(ev.args[1]), st.canon(ev.args[2])
		k := in.key
		if x := in.keyOf(sg); x != nil {
			k = x
		}
		c1, j := elemAt(e1)
		if in.kind == "slice" && (c1 != in.coll || st.canon(j) != st.canon(k)) || in.kind == "itr" && !in.isElem(st, e1) {
			why = fmt.Sprintf("%v is not the edge visited", e1)
			continue
		}
		c2, j2 := elemAt(e2)
		if cl := st.callOf(e2); c2 == nil && cl != nil && cl.invoke && cl.name == "Edge" {
			c2 = st.canon(cl.args[0])
		}
		if c2 == nil || q.edgesOf(st, c2) != n2 {
			why = fmt.Sprintf("%v is not an outgoing edge of the node it is mapped to", e2)
			continue
		}
		to1, to2 := st.canon(st.get(e1, ptr, "to")), st.canon(st.get(e2, ptr, "to"))
		if img, _ := st.mapLookup(m, to1, q.nodeT); st.canon(img) != to2 && !st.yes(q.e.tt.eq(st.canon(img), to2)) {
			why = "the ends of the edges need not correspond"
			continue
		}
		w := "an edge may be matched with several edges"
		for n, x := range sg.events {
			switch {
			case x.kind == EvMapUpd && st.canon(x.args[1]) == e2:
				if !q.absentBefore(L, sg, n, st.canon(x.args[0]), e2) {
					w = "an edge matched already may be matched again"
					continue
				}
				if w = q.setOf(other, st.canon(x.args[0]), L); w == "" {
					return ""
				}
			case x.kind == EvStore && x.args[0].op == OpElem && j2 != nil && st.canon(x.args[0].args[1]) == j2:
				set := st.canon(x.args[0].args[0])
				if !q.slotClear(L, sg, n, set, j2) || !st.yes(x.args[1]) {
					w = "an edge matched already may be matched again"
					continue
				}
				if w = q.setOf(other, set, L); w == "" {
					return ""
				}
			}
		}
		why = w
	}
	return why
}

// setOf: the set of matched edges is the same for all edges of a node, and is
// a new one for each node.
func (q *iso) setOf(other **Term, set *Term, L *Loop) string {
	if *other != nil && *other != set {
		return "several sets of matched edges are used"
	}
	*other = set
	if L.start != nil && set.isAlloc() {
		if iv := L.start.ivalOf(L.start.mapLen(set)); iv.hasHi && iv.hi <= 0 {
			return ""
		}
		return "the set of matched edges is not empty at first"
	}
	if L.start != nil && L.start.fresh[set] {
		return ""
	}
	return "undecided: matched edges are not recorded in a new set"
}

// slotClear: a flag was tested to be false before it is set.
func (q *iso) slotClear(L *Loop, sg *Seg, upto int, set, j *Term) bool {
	for _, ev := range sg.events[:upto] {
		if ev.kind != EvAssume || ev.truth {
			continue
		}
		for _, v := range append(q.e.provLeaves(ev.args[0]), ev.args[0]) {
			if c, i := elemAt(sg.st.canon(v)); c == set && sg.st.canon(i) == j {
				return true
			}
		}
	}
	if h := L.hdr[sg.from]; h != nil && h.fresh[set] {
		return true
	}
	return false
}

// errors of the context end the search with that error.
func (q *iso) cancelled() {
	c := q.c
	s := q.s
	isErr := func(t *Term) bool {
		cl := s.callOf(s.canon(t))
		return cl != nil && cl.invoke && cl.name == "Err" && s.canon(cl.args[0]) == q.ctx
	}
	ret := s.canon(q.o.ret[1])
	c.ob("cancel", q.name, ret.isNil() || isErr(q.o.ret[1]), q.o.pos, "the error is %v", ret)
	if !ret.isNil() {
		return
	}
	for _, ev := range q.evs {
		if ev.kind == EvCall && ev.invoke && ev.name == "Err" && s.canon(ev.args[0]) == q.ctx {
			c.ob("cancel", q.name, s.canon(ev.res).isNil() || s.yes(q.e.tt.eq(ev.res, q.e.tt.Nil())), q.o.pos, "the error of the context is not returned")
		}
		if ev.kind != EvLoop || !q.searches(ev.loop) || q.inner[ev.loop.id] {
			continue
		}
		for _, sg := range ev.loop.segs {
			ok := false
			for _, x := range sg.events {
				if x.kind == EvCall && x.invoke && x.name == "Err" && sg.st.canon(x.args[0]) == q.ctx {
					ok = sg.st.canon(x.res).isNil() || sg.st.yes(q.e.tt.eq(x.res, q.e.tt.Nil()))
				}
				// or by looking at the channel of the context
				if x.kind == EvGo && x.name == "select" {
					for i, ch := range x.args {
						cl := sg.st.callOf(sg.st.canon(ch))
						if cl != nil && cl.invoke && cl.name == "Done" && sg.st.canon(cl.args[0]) == q.ctx && sg.st.no(q.e.tt.eq(x.res, q.e.tt.Int(int64(i)))) {
							ok = true
						}
					}
				}
			}
			c.ob("cancel", q.name, ok, ev.pos, "the search goes on without asking whether it was cancelled")
		}
	}
}

// searches: a callback is asked in the loop.
func (q *iso) searches(L *Loop) bool {
	for _, sg := range L.segs {
		for _, x := range sg.events {
			if x.kind == EvCall && x.dynamic && (sg.st.canon(x.args[0]) == q.edgeEq || sg.st.canon(x.args[0]) == q.nodeEq) {
				return true
			}
			if x.kind == EvLoop && q.searches(x.loop) {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) checkIso() {
	name := "CheckIsomorphism"
	c.guard("mapping", name, func() {
		fn := c.fn(name)
		e, args, outs := c.runA(fn, hooks(stdModel, atoms("NodeSlice", "EdgeSlice", "Graph.GetNodes", "Graph.NumNodes", "Graph.NumEdges", "Node.GetEdges")))
		if len(args) != 5 {
			c.fail("mapping", name, fn.Pos(), "undecided: parameters changed")
			return
		}
		yes := 0
		inner := map[string]bool{}
		for _, o := range outs {
			for _, x := range flat(o.st) {
				if x.kind == EvLoop && len(x.path) > 0 {
					inner[x.loop.id] = true
				}
			}
		}
		for _, o := range outs {
			if o.panic {
				if o.panicIs != "nil" {
					c.fail("mapping", name, o.pos, "may panic: %s", o.panicIs)
				}
				continue
			}
			s := o.st
			q := &iso{c: c, e: e, s: s, o: o, evs: s.tr.list(), ctx: s.canon(args[0]), g1: s.canon(args[1]), g2: s.canon(args[2]), nodeEq: s.canon(args[3]), edgeEq: s.canon(args[4]),
				nodeT: types.NewPointer(c.typ("Node")), edgeT: c.typ("Edge"), name: name, inner: inner}
			q.cancelled()
			if s.no(o.ret[0]) {
				continue
			}
			yes++
			c.ob("mapping", name, s.canon(o.ret[1]).isNil(), o.pos, "an error comes with the answer true")
			c.ob("mapping", name, q.sameCount("NumNodes"), o.pos, "the graphs may differ in the number of nodes")
			c.ob("mapping", name, q.sameCount("NumEdges"), o.pos, "the graphs may differ in the number of edges")
			m, why := q.matches()
			if why == "" {
				if why = q.filled(m); why == "" {
					why = q.injective(m)
				}
			}
			c.ob("mapping", name, why == "", o.pos, "true is answered though %s", why)
		}
		c.ob("mapping", name, yes > 0, token.NoPos, "isomorphism is never reported")
	})
}

func init() {
	reg("C28", "abstract interpretation of the isomorphism check: on every path that answers true, which loops fill the mapping, test it for distinct values and compare the edges of every node, element by element; and what happens to the error of the context in every iteration of the search", 2, func(c *Ctx) {
		c.checkIso()
	})
}
