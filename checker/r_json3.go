package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

// checkPropDecoder: a function turning encoded properties into values reads
// every property, under the key and value the unmarshaler gives.
func (c *Ctx) checkPropDecoder(rule string) {
	fs := c.propDecoders()
	for f := range fs {
		con := fnName(f)
		c.guard(rule, con, func() {
			e, outs := c.run(f, hooks(stdModel, internHook, noErr), func(e *Eng, st *State, args []*Term) {
				if hasField(args[0].typ, "Interner") {
					st.assume(e.tt.eq(st.get(args[0], args[0].typ, "Interner"), e.tt.Nil()), false)
				}
			})
			var in, j *Term
			for _, p := range f.Params {
				switch typeKey(p.Type()) {
				case "map[string]json.RawMessage":
					in = e.tt.Param(p.Name(), p.Type())
				}
				if hasField(p.Type(), "PropertyUnmarshaler") {
					j = e.tt.Param(p.Name(), p.Type())
				}
			}
			if in == nil || j == nil {
				panic(anchorErr(con + ": parameters not found"))
			}
			for _, o := range outs {
				if o.panic {
					c.fail(rule, con, o.pos, "may panic: %s", o.panicIs)
					continue
				}
				ret := o.st.canon(o.ret[0])
				if o.st.emptyMap(in) {
					c.pass(rule, con)
					continue
				}
				c.propMap(rule, con, e, o.st.tr.list(), o.st, ret, in, f.Pos(), func(st *State) *Term { return e.valField(st, j, "PropertyUnmarshaler") }, func(st *State, key, val, v *Term) string {
					// decoded by default
					for _, x := range line(st.tr.list(), st) {
						if x.kind == EvCall && x.name == "encoding/json.Unmarshal" && x.args[0] == val {
							a := x.args[1]
							if a.op == OpIface {
								a = a.args[0]
							}
							if st.canon(st.load(a, elemType(a))) == v {
								return ""
							}
						}
					}
					return "the value is not what json.Unmarshal gives"
				})
			}
		})
	}
	c.ob(rule, "property decoding", len(fs) == 1, 0, "%d functions decode properties", len(fs))
}

// propMap: m holds every entry of src, passed through the function fn(st) if
// it is set and treated by dflt otherwise.
func (c *Ctx) propMap(rule, con string, e *Eng, evs []*Event, st *State, m, src *Term, pos token.Pos, fn func(st *State) *Term, dflt func(st *State, key, val, v *Term) string) {
	m, src = st.canon(m), st.canon(src)
	if m == src || m.op != OpNew {
		c.fail(rule, con, pos, "the properties are %v", m)
		return
	}
	var loop *Loop
	var it *Iter
	for i, ev := range evs {
		if ev.kind == EvMapUpd && st.canon(ev.args[0]) == m {
			c.fail(rule, con, ev.pos, "a property is added")
		}
		if ev.kind != EvLoop {
			continue
		}
		hit := false
		for _, sg := range ev.loop.segs {
			for _, x := range sg.events {
				if (x.kind == EvMapUpd || x.kind == EvMapDel) && sg.st.canon(x.args[0]) == m {
					hit = true
				}
			}
		}
		if hit {
			if loop != nil {
				c.fail(rule, con, ev.pos, "the properties are filled twice")
				return
			}
			loop, it = ev.loop, e.iterOf(evs, i, st)
		}
	}
	if loop == nil {
		c.ob(rule, con, st.emptyMap(src), pos, "the properties are not filled")
		return
	}
	if it.kind != "map" {
		c.fail(rule, con, loop.pos, "undecided: %s", it.why)
		return
	}
	c.ob(rule, con, it.all(), loop.pos, "not all properties are taken: %s", it.why)
	if it.coll != src {
		if msg := c.isCopyOf(e, st, it.coll, src, true); msg != "" {
			c.fail(rule, con, loop.pos, "the properties come from %v: %s", it.coll, msg)
			return
		}
	}
	for _, sg := range loop.segs {
		s := sg.st
		key := s.canon(it.key)
		val := s.canon(it.val)
		f := fn(s)
		isNil, known := s.evalBool(s.canon(e.tt.eq(f, e.tt.Nil())))
		if !known {
			c.fail(rule, con, loop.pos, "a property is handled without regard to the function given for it (%s)", segDesc(sg))
			continue
		}
		ups, dels := mapSegOps(sg, m)
		if len(dels) != 0 || len(ups) > 1 {
			c.fail(rule, con, loop.pos, "a property is written %d times and deleted %d times", len(ups), len(dels))
			continue
		}
		if isNil {
			if c.ob(rule, con, len(ups) == 1, loop.pos, "a property is left out") {
				c.ob(rule, con, ups[0].args[1] == key, ups[0].pos, "a property is stored under %v", ups[0].args[1])
				msg := dflt(s, key, val, ups[0].args[2])
				c.ob(rule, con, msg == "", ups[0].pos, "%s", msg)
			}
			continue
		}
		var call *Ev
		for _, x := range line(sg.events, s) {
			if x.kind == EvCall && x.dynamic && len(x.args) > 0 && x.args[0] == f {
				y := x
				if call != nil {
					c.fail(rule, con, x.pos, "the function is called twice for a property")
				}
				call = &y
			}
		}
		if !c.ob(rule, con, call != nil && len(call.args) == 3 && call.args[1] == key && call.args[2] == val, loop.pos, "the given function is not called with the property") {
			continue
		}
		k, v := s.canon(call.res.args[0]), s.canon(call.res.args[1])
		iv := s.ivalOf(s.canon(e.strLen(k)))
		isE, eqK := s.evalBool(s.canon(e.tt.eq(k, e.tt.Str(""))))
		if len(ups) == 0 {
			c.ob(rule, con, iv.hasHi && iv.hi <= 0 || k == e.tt.Str("") || eqK && isE, loop.pos, "a property is left out although its key is not empty")
			continue
		}
		c.ob(rule, con, iv.hasLo && iv.lo > 0 || eqK && !isE, ups[0].pos, "a property may be stored although the function gave an empty key to leave it out")
		c.ob(rule, con, ups[0].args[1] == k && ups[0].args[2] == v, ups[0].pos, "a property is stored as %v: %v", ups[0].args[1], ups[0].args[2])
	}
}

// valField is a field of a struct value or of the struct a pointer leads to.
func (e *Eng) valField(st *State, v *Term, name string) *Term {
	if s, ok := v.typ.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return st.canon(e.fieldOf(v, i, name, s.Field(i).Type()))
			}
		}
	}
	return st.canon(st.get(v, v.typ, name))
}

// hasField: t is a struct (or pointer to one) with the field.
func hasField(t types.Type, name string) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return true
		}
	}
	return false
}

func (c *Ctx) pkgConst(name string) (int64, bool) {
	o, ok := c.w.tpkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(constant.ToInt(o.Val()))
}

// encoder checks what the encoder writes under which name.
type encoder struct {
	c    *Ctx
	e    *Eng
	j    *jwalk
	m    *decodeModel
	rule string
	con  string
	g    *Term
	recv *Term
	idx  *Term // map from nodes to indexes
	byPos *Term // the list in which the position of a node is its index
}

func (d *encoder) ob(ok bool, pos token.Pos, f string, a ...interface{}) bool {
	return d.c.ob(d.rule, d.con+": "+f, ok, pos, f, a...)
}

func (d *encoder) pmFn(st *State) *Term {
	return d.e.valField(st, d.recv, "PropertyMarshaler")
}

func (d *encoder) props(evs []*Event, st *State, m, src *Term, pos token.Pos) {
	d.c.propMap(d.rule, d.con+": properties", d.e, evs, st, m, src, pos, d.pmFn, func(st *State, key, val, v *Term) string {
		cl := st.callOf(v)
		if cl != nil && cl.name == "encoding/json.Marshal" && st.canon(cl.res.args[0]) == v && st.canon(cl.args[0]) == val {
			return ""
		}
		return "the value written is not json.Marshal of the property"
	})
}

func (d *encoder) sep(st *State) (bool, bool) {
	return st.evalBool(d.e.valField(st, d.recv, "MarshalEdgesSeparately"))
}

// indexOf: v is the index of node n.
func (d *encoder) indexOf(st *State, v, n *Term) bool {
	v = st.canon(v)
	if app(v, "mapget") && v.args[1] == st.canon(n) && v.args[0].typ != nil && typeKey(v.args[0].typ) == "map[*lpg.Node]int" {
		if d.idx == nil {
			d.idx = v.args[0]
		}
		return v.args[0] == d.idx
	}
	return false
}

// inSeg lists the places written to in an iteration, loops included.
func (d *encoder) written(sg *Seg) map[string]bool {
	r := map[string]bool{}
	for _, x := range d.j.recs[sg] {
		r[x.path] = true
	}
	for _, ev := range sg.events {
		if ev.kind == EvLoop {
			for _, s2 := range ev.loop.segs {
				for p := range d.written(s2) {
					r[p] = true
				}
			}
		}
	}
	return r
}

func (d *encoder) loopWrites(l *Loop, p string) bool {
	for _, sg := range l.segs {
		for q := range d.written(sg) {
			if q == p || strings.HasPrefix(q, p) {
				return true
			}
		}
	}
	return false
}

// edge checks one written edge.
func (d *encoder) edge(sg *Seg, r jrec, edge *Term, sep bool) {
	st := sg.st
	v := st.canon(r.p.val)
	if !d.ob(r.p.kind == "json" && v.op == OpIface && v.args[0].op == OpStruct, r.ev.pos, "undecided: an edge is written as %v", v) {
		return
	}
	s := v.args[0]
	fields := jsonFields(s.typ)
	et := d.c.typ("Edge")
	names := map[string]bool{}
	get := func(name, role string) *Term {
		names[name] = true
		f, ok := fields[name]
		if !d.ob(ok, r.ev.pos, "the %s of an edge is not written as %q, where it is read", role, name) {
			return nil
		}
		return st.canon(s.args[f.idx])
	}
	m := d.m
	to, label, props := m.eTo, m.eLabel, m.eProps
	if sep {
		to, label, props = m.to, m.label, m.sprop
		if v := get(m.from, "source"); v != nil {
			d.ob(d.indexOf(st, v, st.get(edge, et, "from")), r.ev.pos, "the source of an edge is written as %v", v)
		}
	}
	if v := get(to, "target"); v != nil {
		d.ob(d.indexOf(st, v, st.get(edge, et, "to")), r.ev.pos, "the target of an edge is written as %v", v)
	}
	if v := get(label, "label"); v != nil {
		d.ob(v == st.canon(st.get(edge, et, "label")), r.ev.pos, "the label of an edge is written as %v", v)
	}
	if v := get(props, "properties"); v != nil {
		d.props(sg.events, st, v, st.canon(st.get(edge, et, "properties")), r.ev.pos)
	}
}

// sequence is a loop over all elements an iterator gives, or over the slice
// made of them.
type sequence struct {
	it   *Iter
	src  *Term // the iterator
	elem func(sg *Seg) *Term
}

func (c *Ctx) sequence(e *Eng, evs []*Event, i int, st *State) (sequence, string) {
	it := e.iterOf(evs, i, st)
	q := sequence{it: it}
	switch it.kind {
	case "itr":
		q.src = it.coll
		q.elem = func(sg *Seg) *Term {
			var r *Term
			for _, x := range line(sg.events, sg.st) {
				if x.kind == EvCall && x.res != nil && it.isElem(sg.st, x.res) {
					r = x.res
				}
			}
			return r
		}
	case "slice":
		coll := st.canon(it.coll)
		if cl := st.callOf(coll); cl != nil && (cl.name == "NodeSlice" || cl.name == "EdgeSlice") && len(cl.args) == 1 {
			q.src = strip(st.canon(cl.args[0]))
		} else if g, why := c.gathered(e, st, coll); g != nil && g.it.kind == "itr" && g.init {
			for _, sg := range g.it.loop.segs {
				if len(g.add[sg]) != 1 || !g.it.isElem(sg.st, g.add[sg][0]) {
					return q, "not every element is collected"
				}
			}
			q.src = g.it.coll
		} else if why != "" {
			return q, why
		}
		et := sliceElem(coll.typ)
		if q.src == nil || et == nil {
			return q, fmt.Sprintf("over %v", coll)
		}
		q.elem = func(sg *Seg) *Term {
			return sg.st.canon(sg.st.load(e.tt.Elem(coll, it.keyOf(sg), et), et))
		}
	default:
		return q, "not over an iterator or a slice: " + it.why
	}
	return q, ""
}

// edgeLoop checks a loop writing edges.
func (d *encoder) edgeLoop(evs []*Event, i int, st *State, path string, sep bool, src func(cl *Event) bool) {
	L := evs[i].loop
	q, why := d.c.sequence(d.e, evs, i, st)
	it := q.it
	if !d.ob(why == "", L.pos, "undecided: edges are written in a loop %s", why) {
		return
	}
	d.ob(it.all(), L.pos, "not all edges are written: %s", it.why)
	cl := st.callOf(q.src)
	if !d.ob(cl != nil && src(cl), L.pos, "the edges written come from %v", it.coll) {
		return
	}
	for _, sg := range L.segs {
		var recs []jrec
		for _, r := range d.j.recs[sg] {
			if r.path == path {
				recs = append(recs, r)
			}
		}
		edge := q.elem(sg)
		if d.ob(len(recs) == 1 && edge != nil, L.pos, "an edge is written %d times (%s)", len(recs), segDesc(sg)) {
			d.edge(sg, recs[0], edge, sep)
		}
	}
}

func (d *encoder) nodeLoop(evs []*Event, i int, st *State) {
	L := evs[i].loop
	m := d.m
	pre := m.nodes + "[]"
	it := d.e.iterOf(evs, i, st)
	nt := d.c.typ("Node")
	var q sequence
	if it.kind != "map" {
		var why string
		q, why = d.c.sequence(d.e, evs, i, st)
		if !d.ob(why == "", L.pos, "undecided: nodes are written in a loop over %v (%s)", it.coll, why) {
			return
		}
	}
	d.ob(it.all(), L.pos, "not all nodes are written: %s", it.why)
	if it.kind != "map" {
		d.ob(d.graphNodes(st, q.src), L.pos, "the nodes written come from %v", it.coll)
	} else {
		d.idx = it.coll
		d.ob(typeKey(it.coll.typ) == "map[*lpg.Node]int", L.pos, "the nodes written come from %v", it.coll)
	}
	for _, sg := range L.segs {
		s := sg.st
		node := s.canon(it.key)
		if it.kind != "map" {
			node = q.elem(sg)
		}
		if !d.ob(node != nil, L.pos, "undecided: no node in the loop") {
			continue
		}
		by := map[string][]jrec{}
		for _, r := range d.j.recs[sg] {
			by[r.path] = append(by[r.path], r)
		}
		// index
		if r := by[pre+"."+m.n]; d.ob(len(r) == 1, L.pos, "the index of a node is not written as %q, where it is read", m.n) {
			v := s.canon(r[0].p.val)
			ok := r[0].p.kind == "num" && d.indexOf(s, v, node)
			if !ok && it.kind == "slice" && v == s.canon(it.keyOf(sg)) {
				ok, d.byPos = r[0].p.kind == "num", it.coll
			}
			d.ob(ok, r[0].ev.pos, "the index of a node is written as %v", r[0].p.val)
		}
		// labels
		labels := s.canon(s.get(node, nt, "labels.M"))
		if r := by[pre+"."+m.labels]; len(r) == 0 {
			d.ob(s.emptyMap(labels), L.pos, "the labels of a node are not written as %q, where they are read", m.labels)
		} else {
			v := s.canon(r[0].p.val)
			ok := r[0].p.kind == "json" && v.op == OpIface && v.args[0].op == OpStruct && typeKey(v.typ) == "lpg.StringSet" && s.canon(v.args[0].args[0]) == labels
			d.ob(ok, r[0].ev.pos, "the labels of a node are written as %v", v)
		}
		// properties
		props := s.canon(s.get(node, nt, "properties"))
		if r := by[pre+"."+m.props]; len(r) == 0 {
			d.ob(s.emptyMap(props), L.pos, "the properties of a node are not written as %q, where they are read", m.props)
		} else if v := s.canon(r[0].p.val); d.ob(r[0].p.kind == "json" && v.op == OpIface, r[0].ev.pos, "the properties of a node are written as %v", v) {
			d.props(sg.events, s, v.args[0], props, r[0].ev.pos)
		}
		// edges
		ep := pre + "." + m.emb + "[]"
		n := 0
		for k, ev := range sg.events {
			if ev.kind == EvLoop && d.loopWrites(ev.loop, ep) {
				n++
				out, _ := d.c.pkgConst("OutgoingEdge")
				d.edgeLoop(sg.events, k, s, ep, false, func(cl *Event) bool { return outgoing(s, cl, node, out) })
			}
		}
		sep, known := d.sep(s)
		if n == 0 && known && !sep {
			d.ob(d.noEdges(sg, node), L.pos, "the edges of a node are not written as %q, where they are read", m.emb)
		} else if n == 0 {
			d.ob(known && sep, L.pos, "the edges of a node are not written as %q, where they are read", m.emb)
		} else {
			d.ob(n == 1 && known && !sep, L.pos, "the edges of a node are written %d times, or although they are written separately", n)
		}
		for p := range by {
			switch p {
			case pre + "." + m.n, pre + "." + m.labels, pre + "." + m.props:
			default:
				d.ob(false, L.pos, "%q is written but not read", p)
			}
		}
	}
}

func outgoing(s *State, cl *Event, node *Term, out int64) bool {
	if cl == nil || cl.fn == nil || fnName(cl.fn) != "Node.GetEdges" || s.canon(cl.args[0]) != s.canon(node) {
		return false
	}
	v, ok := s.canon(cl.args[1]).constInt()
	return ok && v == out
}

// noEdges: the list of the node's outgoing edges was found to be empty.
func (d *encoder) noEdges(sg *Seg, node *Term) bool {
	out, _ := d.c.pkgConst("OutgoingEdge")
	s := sg.st
	for _, x := range line(sg.events, s) {
		if x.kind == EvCall && x.name == "EdgeSlice" && len(x.args) == 1 && outgoing(s, s.callOf(strip(x.args[0])), node, out) {
			if b, k := s.evalBool(s.canon(d.e.tt.eq(s.canon(d.e.tt.App("len", types.Typ[types.Int], x.res)), d.e.tt.Int(0)))); k && b {
				return true
			}
		}
	}
	return false
}

func (d *encoder) graphNodes(st *State, t *Term) bool {
	cl := st.callOf(t)
	return cl != nil && cl.fn != nil && fnName(cl.fn) == "Graph.GetNodes" && st.canon(cl.args[0]) == d.g
}

// indexes: the index map gives each node of the graph its own number.
func (d *encoder) indexes(st *State) {
	if !d.ob(d.idx != nil, 0, "undecided: no node indexes") {
		return
	}
	pos := d.c.fn("JSON.Encode").Pos()
	fs := d.e.fills(st.tr.list(), st, d.idx)
	if !d.ob(len(fs) == 1 && fs[0].loop != nil && fs[0].it != nil, pos, "the node indexes are not assigned by one loop") {
		return
	}
	it := fs[0].it
	var q sequence
	why := "the loop was not found"
	for i, ev := range st.tr.list() {
		if ev.kind == EvLoop && ev.loop == fs[0].loop {
			q, why = d.c.sequence(d.e, st.tr.list(), i, st)
		}
	}
	if !d.ob(why == "", fs[0].loop.pos, "undecided: node indexes are assigned in a loop %s", why) {
		return
	}
	d.ob(it.all() && d.graphNodes(st, q.src), fs[0].loop.pos, "not every node of the graph gets an index (%v, %s)", it.coll, it.why)
	for _, sg := range fs[0].loop.segs {
		ups, dels := mapSegOps(sg, d.idx)
		if !d.ob(len(ups) == 1 && len(dels) == 0 && sg.st.canon(ups[0].args[1]) == sg.st.canon(q.elem(sg)), fs[0].loop.pos, "a node does not get one index") {
			continue
		}
		v := ups[0].args[2]
		ok := false
		b, o := sg.st.affine(v)
		for ph, n := range sg.next {
			hb, ho := sg.st.affine(sg.st.canon(sg.hdr[ph]))
			nb, no := sg.st.affine(sg.st.canon(n))
			if hb == b && nb == hb && b != nil && no == ho+1 && o-ho <= 1 && o-ho >= 0 {
				ok = true
			}
		}
		if it.kind == "slice" && v == sg.st.canon(it.keyOf(sg)) {
			ok = true
		} else if d.byPos != nil {
			ok = false
		}
		if app(v, "len") && v.args[0] == d.idx {
			ok = true // before the entry is added
		}
		d.ob(ok, ups[0].pos, "two nodes may get the same index: %v", v)
		d.ob(d.byPos == nil || it.kind == "slice" && it.coll == d.byPos, ups[0].pos, "the index of a node is not its place in the list written")
	}
}

func (c *Ctx) checkEncode(rule string, m *decodeModel) {
	j, outs := c.encodeWalk(rule)
	f := c.fn("JSON.Encode")
	d := &encoder{c: c, e: j.e, j: j, m: m, rule: rule, con: "JSON.Encode"}
	for _, p := range f.Params {
		t := j.e.tt.Param(p.Name(), p.Type())
		switch {
		case typeKey(p.Type()) == "*lpg.Graph":
			d.g = t
		case hasField(p.Type(), "PropertyMarshaler"):
			d.recv = t
		}
	}
	if d.g == nil || d.recv == nil {
		panic(anchorErr("JSON.Encode: parameters not found"))
	}
	n := 0
	for _, o := range outs {
		for _, ev := range o.st.tr.list() {
			if ev.kind != EvLoop || d.idx != nil {
				continue
			}
			for _, sg := range ev.loop.segs {
				for _, r := range j.recs[sg] {
					if v := sg.st.canon(r.p.val); d.idx == nil && r.p.kind == "num" && app(v, "mapget") {
						d.idx = v.args[0]
					}
				}
			}
		}
	}
	for _, o := range outs {
		if o.panic {
			d.ob(false, o.pos, "may panic: %s", o.panicIs)
			continue
		}
		if !o.st.canon(o.ret[0]).isNil() {
			continue
		}
		n++
		evs := o.st.tr.list()
		nodes, edges := 0, 0
		for i, ev := range evs {
			if ev.kind != EvLoop {
				continue
			}
			if d.loopWrites(ev.loop, m.nodes+"[]") {
				nodes++
				d.nodeLoop(evs, i, o.st)
			}
			if d.loopWrites(ev.loop, m.edges+"[]") {
				edges++
				if d.idx != nil && o.st.emptyMap(d.idx) {
					continue // no nodes, hence no edges
				}
				d.edgeLoop(evs, i, o.st, m.edges+"[]", true, func(cl *Event) bool {
					return cl.fn != nil && fnName(cl.fn) == "Graph.GetEdges" && o.st.canon(cl.args[0]) == d.g
				})
			}
		}
		if nodes == 0 {
			ok := d.idx != nil && o.st.emptyMap(d.idx)
			d.ob(ok, f.Pos(), "the nodes are not written")
		} else {
			d.ob(nodes == 1, f.Pos(), "the nodes are written %d times", nodes)
			d.indexes(o.st)
		}
		sep, known := d.sep(o.st)
		if edges == 0 {
			// the flag may have been decided in the loop over the nodes
			d.ob(known && !sep, f.Pos(), "the edges are not written as %q, where they are read", m.edges)
		} else {
			d.ob(edges == 1 && known && sep, f.Pos(), "the edges are written separately %d times, or without being asked to", edges)
		}
		for _, r := range j.top {
			d.ob(false, r.ev.pos, "%q is written but not read", r.path)
		}
	}
	d.ob(n > 0, f.Pos(), "no successful execution found")
	// what the element types of the hand-written part read
	if t := m.decoded["nodes"]; t != nil {
		for _, fl := range jsonFields(t) {
			d.ob(!strings.Contains(fl.opts, "string"), f.Pos(), "%q is read as a quoted string", fl.tag)
		}
	}
}

// checkLabelJSON: label sets are written as the list of their elements.
func (c *Ctx) checkLabelJSON(rule string) {
	con := "StringSet.MarshalJSON"
	c.guard(rule, con, func() {
		f := c.fn(con)
		e, outs := c.run(f, hooks(stdModel, noErr), nil)
		set := e.tt.Param(f.Params[0].Name(), f.Params[0].Type())
		for _, o := range outs {
			if o.panic {
				c.fail(rule, con, o.pos, "may panic: %s", o.panicIs)
				continue
			}
			cl := o.st.callOf(o.st.canon(o.ret[0]))
			if !c.ob(rule, con, cl != nil && cl.name == "encoding/json.Marshal", f.Pos(), "labels are written as %v", o.ret[0]) {
				continue
			}
			a := o.st.canon(cl.args[0])
			if a.op == OpIface {
				a = a.args[0]
			}
			M := c.setM(o.st, set)
			if o.st.emptyMap(M) {
				c.pass(rule, con)
				continue
			}
			o2 := o
			o2.ret = []*Term{a}
			c.collects(rule, con, e, []Outcome{o2}, f.Pos(), func(st *State, it *Iter) bool {
				return it.kind == "map" && it.coll == c.setM(st, set)
			}, func(sg *Seg, it *Iter, added []*Term) string {
				if len(added) == 1 && sg.st.canon(added[0]) == sg.st.canon(it.key) {
					return ""
				}
				return "a label is not written exactly once"
			})
		}
	})
}

func init() {
	reg("C18", "agreement of encoder and decoder: names and elements read by the decoder (struct tags, keys, creation calls) against the values the encoder writes under each path of the document, for every iteration of every loop", 40, func(c *Ctx) {
		m := c.checkDecode("decode-content", true)
		// the documented form
		for _, q := range []struct{ what, have, want string }{
			{"list of nodes", m.nodes, "nodes"}, {"list of edges", m.edges, "edges"},
			{"index of a node", m.n, "n"}, {"labels of a node", m.labels, "labels"}, {"properties of a node", m.props, "properties"}, {"edges of a node", m.emb, "edges"},
			{"target of an edge of a node", m.eTo, "to"}, {"label of an edge of a node", m.eLabel, "label"}, {"properties of an edge of a node", m.eProps, "properties"},
			{"source of an edge", m.from, "from"}, {"target of an edge", m.to, "to"}, {"label of an edge", m.label, "label"}, {"properties of an edge", m.sprop, "properties"},
		} {
			c.ob("documented-names", q.what, q.have == q.want, c.fn("JSON.Decode").Pos(), "the %s is called %q, not %q as documented", q.what, q.have, q.want)
		}
		c.checkPropDecoder("decode-properties")
		c.checkEncode("encode-content", m)
		c.checkLabelJSON("label-list")
		c.checkLabelDecode("label-list")
	})
}
