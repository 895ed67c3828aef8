package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// internHook: interning a string gives an equal string.
func internHook(e *Eng, st *State, ci *CallInfo) ([]CallRes, bool) {
	n := ci.name
	if (ci.invoke && (n == "Intern" || strings.HasSuffix(n, ".Intern")) || ci.fn != nil && strings.HasSuffix(fnName(ci.fn), "Interner.Intern")) && len(ci.args) == 2 {
		return []CallRes{{st: st, val: st.canon(ci.args[1])}}, true
	}
	return nil, false
}

// propDecoders are the functions turning encoded properties into values.
func (c *Ctx) propDecoders() map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, f := range c.w.all {
		sig := f.Signature
		if f.Synthetic != "" || sig.Results().Len() != 2 || errorResult(sig) != 1 || typeKey(sig.Results().At(0).Type()) != "map[string]interface{}" {
			continue
		}
		for i := 0; i < sig.Params().Len(); i++ {
			if typeKey(sig.Params().At(i).Type()) == "map[string]json.RawMessage" {
				r[f] = true
			}
		}
	}
	return r
}

// propHook keeps those functions as single steps.
func propHook(fs map[*ssa.Function]bool) Hook {
	return func(e *Eng, st *State, ci *CallInfo) ([]CallRes, bool) {
		if ci.fn == nil || !fs[ci.fn] {
			return nil, false
		}
		rs := e.opaque0(st, ci)
		for i := range rs {
			rs[i].st.assume(e.tt.eq(rs[i].val.args[1], e.tt.Nil()), true)
			rs[i].val = rs[i].st.canon(rs[i].val)
		}
		return rs, true
	}
}

// jfield is a struct field as the json package sees it.
type jfield struct {
	idx       int
	name, tag string
	opts      string
	skip      bool
}

func jsonFields(t types.Type) map[string]jfield {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	r := map[string]jfield{}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Exported() {
			continue
		}
		tag := reflect.StructTag(s.Tag(i)).Get("json")
		n, o, _ := strings.Cut(tag, ",")
		if tag == "-" {
			continue
		}
		if n == "" {
			n = f.Name()
		}
		r[n] = jfield{idx: i, name: f.Name(), tag: n, opts: o}
	}
	return r
}

// tagOf is the name under which a field is written and read.
func tagOf(t types.Type, field string) string {
	for n, f := range jsonFields(t) {
		if f.name == field {
			return n
		}
	}
	return ""
}

// decodeModel is what the decoder reads: names by role.
type decodeModel struct {
	nodes, edges           string // top-level keys
	n, labels, props, emb  string // in a node
	eTo, eLabel, eProps    string // in an embedded edge
	from, to, label, sprop string // in a separate edge
	decoded                map[string]types.Type
}

type decoder struct {
	c       *Ctx
	e       *Eng
	rule    string
	con     string
	pos     token.Pos
	g       *Term
	pd      map[*ssa.Function]bool
	m       decodeModel
	nodeMap *Term
	queues  map[*Term]bool // values of the queue of unresolved edges
	content bool
}

func (d *decoder) ob(ok bool, pos token.Pos, f string, a ...interface{}) bool {
	return d.c.ob(d.rule, d.con+": "+f, ok, pos, f, a...)
}

// fieldOf says x is a field of struct value or address base: its name.
func fieldOfElem(st *State, x *Term) (base *Term, field string) {
	x = st.canon(x)
	if x.op == OpInit && x.args[0].op == OpField {
		return x.args[0].args[0], x.args[0].name
	}
	return nil, ""
}

// props: v holds the decoded properties of the encoded map src.
func (d *decoder) propsOf(st *State, v *Term) *Term {
	v = st.canon(v)
	cl := st.callOf(v)
	if cl == nil || cl.fn == nil || !d.pd[cl.fn] || st.canon(cl.res.args[0]) != v {
		return nil
	}
	for _, a := range cl.args {
		if a.typ != nil && typeKey(a.typ) == "map[string]json.RawMessage" {
			return st.canon(a)
		}
	}
	return nil
}

func (d *decoder) set(what *string, v, role string, pos token.Pos) {
	if *what == "" {
		*what = v
	}
	d.ob(v != "" && *what == v, pos, "the %s is read from %q and %q", role, *what, v)
}

func (d *decoder) lookup(st *State, v *Term) (key *Term, found bool) {
	v = st.canon(v)
	if !app(v, "mapget") || v.args[0] != d.nodeMap {
		return nil, false
	}
	has := st.e.tt.App("has", types.Typ[types.Bool], v.args[0], v.args[1], v.args[2])
	b, k := st.evalBool(has)
	if !k {
		b, k = st.evalBool(st.canon(has))
	}
	if !k {
		// a nil result would also show
		b2, k2 := st.evalBool(st.canon(st.e.tt.eq(v, st.e.tt.Nil())))
		return v.args[1], k2 && !b2
	}
	return v.args[1], b
}

// edgeCall checks a call creating an edge from y (a list entry); own is the
// node it is embedded in.
func (d *decoder) edgeCall(x Ev, y *Term, own, newNode *Term, sep bool) {
	st := x.st
	from, to := x.args[1], x.args[2]
	m := &d.m
	eT, eL, eP := &m.eTo, &m.eLabel, &m.eProps
	if sep {
		eT, eL, eP = &m.to, &m.label, &m.sprop
	}
	et := elemType(y)
	end := func(v *Term, what string, dst *string) {
		k, found := d.lookup(st, v)
		if k == nil {
			d.ob(false, x.pos, "the %s of an edge is %v, not the node its index names", what, v)
			return
		}
		d.ob(found, x.pos, "an edge is created although the %s index may not name a node", what)
		b, f := fieldOfElem(st, k)
		if !d.ob(b == y, x.pos, "the %s of an edge is found under %v", what, k) {
			return
		}
		d.set(dst, tagOf(et, f), what+" of an edge", x.pos)
	}
	d.ob(x.args[0] == d.g, x.pos, "an edge is created in another graph")
	end(to, "target", eT)
	if sep {
		end(from, "source", &m.from)
		d.ob(m.from != m.to, x.pos, "source and target of an edge are read from the same name %q", m.to)
	} else {
		d.ob(st.canon(from) == newNode, x.pos, "an embedded edge starts at %v instead of its node", from)
	}
	if d.content {
		b, f := fieldOfElem(st, x.args[3])
		if d.ob(b == y, x.pos, "the label of an edge is %v", x.args[3]) {
			d.set(eL, tagOf(et, f), "label of an edge", x.pos)
		}
		p := d.propsOf(st, x.args[4])
		if d.ob(p != nil, x.pos, "the properties of an edge are %v", x.args[4]) {
			b, f := fieldOfElem(st, p)
			if d.ob(b == y, x.pos, "the properties of an edge are %v", p) {
				d.set(eP, tagOf(et, f), "properties of an edge", x.pos)
			}
		}
	}
}

// queued checks what is put aside for an edge y.
func (d *decoder) queued(st *State, v, y, node *Term, sep bool, pos token.Pos) {
	v = st.canon(v)
	if sep {
		d.ob(v.op == OpInit && v.args[0] == y || d.sameFields(st, v, y), pos, "%v is put aside instead of the edge", v)
		return
	}
	if !d.ob(v.op == OpStruct, pos, "%v is put aside for an embedded edge", v) {
		return
	}
	// by the roles of the separate form
	s, ok := v.typ.Underlying().(*types.Struct)
	if !d.ob(ok, pos, "not a struct") {
		return
	}
	m := &d.m
	for i := 0; i < s.NumFields(); i++ {
		tag := tagOf(v.typ, s.Field(i).Name())
		b, f := fieldOfElem(st, v.args[i])
		switch tag {
		case m.from:
			d.ob(b == node && tagOf(elemType(node), f) == m.n, pos, "the source put aside for an embedded edge is %v", v.args[i])
		case m.to:
			d.ob(b == y && tagOf(elemType(y), f) == m.eTo, pos, "the target put aside for an embedded edge is %v", v.args[i])
		case m.label:
			d.ob(!d.content || b == y && tagOf(elemType(y), f) == m.eLabel, pos, "the label put aside for an embedded edge is %v", v.args[i])
		case m.sprop:
			d.ob(!d.content || b == y && tagOf(elemType(y), f) == m.eProps, pos, "the properties put aside for an embedded edge are %v", v.args[i])
		}
	}
}

func (d *decoder) sameFields(st *State, v, y *Term) bool {
	if v.op != OpStruct {
		return false
	}
	s, ok := v.typ.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		b, f := fieldOfElem(st, v.args[i])
		if b != y || f != s.Field(i).Name() {
			return false
		}
	}
	return true
}

// edgeLoop checks a loop over a list of edges.
func (d *decoder) edgeLoop(evs []*Event, i int, st *State, src *Term, node, newNode *Term, sep, mustResolve bool) {
	L := evs[i].loop
	it := d.e.iterOf(evs, i, st)
	if !d.ob(it.kind == "slice" && it.coll == st.canon(src), L.pos, "undecided: loop over %v (%s)", it.coll, it.why) {
		return
	}
	d.ob(it.all(), L.pos, "not all edges are read: %s", it.why)
	for _, sg := range L.segs {
		y := d.e.elemAddr(it.coll, it.keyOf(sg), sliceElem(it.coll.typ))
		n, q := 0, 0
		for k, ev := range sg.events {
			x := mkEv(ev, sg.st, nil, k)
			switch {
			case x.isCall("Graph.NewEdge"):
				n++
				d.edgeCall(x, y, node, newNode, sep)
			case x.isCall("append"):
				q++
				if d.ob(!mustResolve && len(x.args) == 2, x.pos, "an edge is put aside at the end") {
					d.queued(sg.st, x.args[1], y, node, sep, x.pos)
					d.survives(sg, x.res, x.pos)
				}
			case x.kind == EvMapUpd && x.args[0] == d.nodeMap, x.isCall("Graph.NewNode"):
				d.ob(false, x.pos, "a node is created for an edge")
			}
		}
		d.ob(n+q == 1, L.pos, "an edge of the input is created %d times and put aside %d times (%s)", n, q, segDesc(sg))
	}
}

// survives: the value is what the loop carries to its next iteration.
func (d *decoder) survives(sg *Seg, v *Term, pos token.Pos) {
	ok := false
	for ph, n := range sg.next {
		if sg.st.canon(n) == sg.st.canon(v) {
			h := sg.st.canon(sg.hdr[ph])
			v := sg.st.canon(v)
			// what is appended to is what the loop carries
			if app(v, "append") && !d.carried(sg, v.args[0], h) {
				continue
			}
			d.queues[n] = true
			d.queues[h] = true
			ok = true
		}
	}
	d.ob(ok, pos, "the list of edges put aside is lost: %v", v)
}

// spread: a whole list is put aside with what was there.
func (d *decoder) spread(sg *Seg, old, v *Term, pos token.Pos) {
	for ph, n := range sg.next {
		if sg.st.canon(n) == sg.st.canon(v) && sg.st.canon(sg.hdr[ph]) == sg.st.canon(old) {
			d.queues[n] = true
			d.queues[sg.hdr[ph]] = true
			d.c.pass(d.rule, d.con)
			return
		}
	}
	d.ob(false, pos, "the list of edges put aside is lost: %v", v)
}

func (d *decoder) carried(sg *Seg, v, h *Term) bool { return sg.st.canon(v) == h }

// nodeLoop checks the loop over the nodes of the input.
func (d *decoder) nodeLoop(evs []*Event, i int, st *State, src *Term) {
	L := evs[i].loop
	it := d.e.iterOf(evs, i, st)
	if !d.ob(it.kind == "slice" && it.coll == st.canon(src), L.pos, "undecided: loop over %v (%s)", it.coll, it.why) {
		return
	}
	d.ob(it.all(), L.pos, "not all nodes are read: %s", it.why)
	m := &d.m
	for _, sg := range L.segs {
		nt := sliceElem(it.coll.typ)
		x0 := d.e.elemAddr(it.coll, it.keyOf(sg), nt)
		var newNode *Term
		nNodes, nMap, nLoops := 0, 0, 0
		copied := map[*Loop]*gather{} // loops making a copy of a list
		for k, ev := range sg.events {
			x := mkEv(ev, sg.st, nil, k)
			if !x.isCall("Graph.NewNode") {
				continue
			}
			if g, _ := d.c.gathered(d.e, sg.st, x.args[1]); g != nil && g.init && g.it.kind == "slice" && g.it.all() {
				same := true
				lt := sliceElem(g.it.coll.typ)
				for _, s2 := range g.it.loop.segs {
					el := s2.st.canon(d.e.tt.Init(d.e.elemAddr(g.it.coll, g.it.keyOf(s2), lt), lt))
					same = same && len(g.add[s2]) == 1 && s2.st.canon(g.add[s2][0]) == el
				}
				if same {
					copied[g.it.loop] = g
				}
			}
		}
		for k, ev := range sg.events {
			x := mkEv(ev, sg.st, nil, k)
			switch {
			case x.isCall("Graph.NewNode"):
				nNodes++
				newNode = x.res
				d.ob(x.args[0] == d.g, x.pos, "a node is created in another graph")
				if d.content {
					b, f := fieldOfElem(sg.st, x.args[1])
					for _, g := range copied {
						b, f = fieldOfElem(sg.st, g.it.coll)
					}
					if d.ob(b == x0, x.pos, "the labels of a node are %v", x.args[1]) {
						d.set(&m.labels, tagOf(nt, f), "labels of a node", x.pos)
						// interning may rewrite them, with equal strings
						for a, v := range sg.st.mem {
							if a.op == OpElem && a.args[0] == x.args[1] {
								v = sg.st.canon(v)
								d.ob(v.op == OpInit && v.args[0] == a, x.pos, "a label is changed to %v", v)
							}
						}
						for _, y := range line(sg.events, sg.st) {
							if y.kind == EvLoop {
								for _, s2 := range y.loop.segs {
									for a, v := range s2.st.mem {
										if a.op == OpElem && a.args[0] == x.args[1] {
											v = s2.st.canon(v)
											d.ob(v.op == OpInit && v.args[0] == a, x.pos, "a label is changed to %v", v)
										}
									}
								}
							}
						}
					}
					p := d.propsOf(sg.st, x.args[2])
					if d.ob(p != nil, x.pos, "the properties of a node are %v", x.args[2]) {
						b, f := fieldOfElem(sg.st, p)
						if d.ob(b == x0, x.pos, "the properties of a node are %v", p) {
							d.set(&m.props, tagOf(nt, f), "properties of a node", x.pos)
						}
					}
				}
			case x.kind == EvMapUpd && x.args[2] == newNode && newNode != nil:
				nMap++
				d.nodeMap = x.args[0]
				b, f := fieldOfElem(sg.st, x.args[1])
				if d.ob(b == x0, x.pos, "a node is remembered under %v", x.args[1]) {
					d.set(&m.n, tagOf(nt, f), "index of a node", x.pos)
				}
			case x.isCall("Graph.NewEdge", "append"):
				d.ob(false, x.pos, "an edge is created or put aside for the node itself")
			case x.kind == EvLoop:
				li := d.e.iterOf(sg.events, k, sg.st)
				b, f := (*Term)(nil), ""
				if li.coll != nil {
					b, f = fieldOfElem(sg.st, li.coll)
				}
				if b != x0 {
					d.ob(!touches(x.loop), x.loop.pos, "undecided: loop over %v in the loop over nodes", li.coll)
					continue
				}
				if !touches(x.loop) || copied[x.loop] != nil {
					continue
				}
				nLoops++
				d.set(&m.emb, tagOf(nt, f), "edges of a node", x.loop.pos)
				if d.ob(newNode != nil && nMap == 1, x.loop.pos, "the edges of a node are read before the node is known") {
					d.edgeLoop(sg.events, k, sg.st, li.coll, x0, newNode, false, false)
				}
				// the list goes on with the outer loop
				for _, s2 := range x.loop.segs {
					for ph := range s2.next {
						h := s2.hdr[ph]
						if d.queues[h] {
							d.carry(sg, x.loop, ph)
						}
					}
				}
			}
		}
		d.ob(nNodes == 1 && nMap == 1, L.pos, "%d nodes are created and %d remembered for a node of the input (%s)", nNodes, nMap, segDesc(sg))
		d.ob(nLoops == 1, L.pos, "the edges of a node are read %d times (%s)", nLoops, segDesc(sg))
	}
}

// carry: the value a loop leaves in ph is what the enclosing iteration
// carries on, and what it started from is what that iteration had.
func (d *decoder) carry(sg *Seg, l *Loop, ph *ssa.Phi) {
	init := sg.st.canon(l.init[ph])
	for p2, n := range sg.next {
		n = sg.st.canon(n)
		ok := false
		for _, s := range l.segs {
			if n == s.hdr[ph] || n == sg.st.canon(s.next[ph]) {
				ok = true
			}
		}
		for _, h := range l.hdr {
			if h.top().env[ph] == n {
				ok = true
			}
		}
		if ok && sg.st.canon(sg.hdr[p2]) == init {
			d.queues[sg.hdr[p2]] = true
			d.queues[n] = true
			d.c.pass(d.rule, d.con)
			return
		}
	}
	d.ob(false, l.pos, "the list of edges put aside is lost after the loop")
}

// touches: the loop creates elements or puts something aside.
func touches(l *Loop) bool {
	for _, sg := range l.segs {
		for _, ev := range sg.events {
			if ev.kind == EvCall && (ev.name == "append" || ev.fn != nil && (fnName(ev.fn) == "Graph.NewEdge" || fnName(ev.fn) == "Graph.NewNode")) || ev.kind == EvMapUpd {
				return true
			}
			if ev.kind == EvLoop && touches(ev.loop) {
				return true
			}
		}
	}
	return false
}

// checkDecode checks the decoder; with content also what is put where.
func (c *Ctx) checkDecode(rule string, content bool) *decodeModel {
	fn := c.fn("JSON.Decode")
	d := &decoder{c: c, rule: rule, con: "JSON.Decode", pos: fn.Pos(), pd: c.propDecoders(), queues: map[*Term]bool{}, content: content}
	d.m.decoded = map[string]types.Type{}
	var in *Term
	e, outs := c.run(fn, hooks(stdModel, internHook, propHook(d.pd), atoms("Graph.NewNode", "Graph.NewEdge"), noErr), func(e *Eng, st *State, args []*Term) {
		for _, a := range args {
			switch typeKey(a.typ) {
			case "*lpg.Graph":
				d.g = a
			case "*json.Decoder":
				in = a
				st.nn[a] = true
			}
		}
		if hasField(args[0].typ, "Interner") {
			st.assume(e.tt.eq(st.get(args[0], args[0].typ, "Interner"), e.tt.Nil()), false)
		}
	})
	d.e = e
	if d.g == nil || in == nil {
		panic(anchorErr("JSON.Decode: graph or decoder parameter not found"))
	}
	// delim: the state knows tok to be this delimiter
	delim := func(st *State, tok *Term, ch rune) bool {
		dt := c.delimType()
		if dt == nil {
			return false
		}
		x := e.tt.Iface(dt, e.tt.Const(constant.MakeInt64(int64(ch)), dt))
		if b, k := st.evalBool(st.canon(e.tt.eq(tok, x))); k && b {
			return true
		}
		for _, y := range line(st.tr.list(), st) {
			if y.kind != EvAssume || !y.truth || !app(y.Event.args[0], "eq") {
				continue
			}
			for i := 0; i < 2; i++ {
				a, b := y.Event.args[0].args[i], y.Event.args[0].args[1-i]
				if k, isK := a.constInt(); isK && k == int64(ch) {
					if v, t, ok := asOf(b); ok && v == tok && strings.HasSuffix(t, "Delim") {
						return true
					}
				}
			}
		}
		return false
	}
	tokens := func(evs []*Event, st *State) (toks []*Term) {
		for _, x := range line(evs, st) {
			if x.isCall("(*encoding/json.Decoder).Token") || x.kind == EvCall && x.name == "(*encoding/json.Decoder).Token" {
				toks = append(toks, x.res.args[0])
			}
		}
		return
	}
	success := 0
	seenMain := map[*Loop]bool{}
	for _, o := range outs {
		if o.panic {
			d.ob(false, o.pos, "may panic: %s", o.panicIs)
			continue
		}
		evs := o.st.tr.list()
		isOK := len(o.ret) == 1 && o.st.canon(o.ret[0]).isNil()
		// the main loop reads one token in each iteration
		mainAt := -1
		for i, ev := range evs {
			if ev.kind == EvLoop {
				for _, sg := range ev.loop.segs {
					if len(tokens(sg.events, sg.st)) > 0 {
						mainAt = i
					}
				}
			}
		}
		if mainAt < 0 {
			d.ob(!isOK, fn.Pos(), "decoding succeeds without reading the input")
			continue
		}
		ml := evs[mainAt].loop
		if isOK {
			success++
			first := tokens(evs[:mainAt], o.st)
			d.ob(len(first) == 1 && delim(o.st, first[0], '{'), fn.Pos(), "decoding succeeds on input that is not an object")
			last := tokens(evs[mainAt+1:], o.st)
			ended := len(last) == 1 && delim(o.st, last[0], '}')
			if len(last) == 1 && !ended {
				// nothing more in the object: the next token ends it
				for _, x := range line(evs[mainAt+1:], o.st) {
					if x.kind == EvCall && strings.HasPrefix(x.name, "(*encoding/json.Decoder).") {
						b, k := o.st.evalBool(o.st.canon(x.res))
						ended = strings.HasSuffix(x.name, ".More") && k && !b
						break
					}
				}
			}
			d.ob(ended, fn.Pos(), "decoding ends before the end of the object was read")
		}
		if !seenMain[ml] {
			seenMain[ml] = true
			// two rounds: names of nodes first
			for round := 0; round < 2; round++ {
				for _, sg := range ml.segs {
					d.section(sg, round, tokens(sg.events, sg.st))
				}
			}
		}
		// the queue is worked off at the end
		if isOK {
			n := 0
			for i := mainAt + 1; i < len(evs); i++ {
				if evs[i].kind != EvLoop || !touches(evs[i].loop) {
					continue
				}
				it := e.iterOf(evs, i, o.st)
				if d.ob(it.coll != nil && d.queues[it.coll], evs[i].loop.pos, "undecided: at the end a loop over %v (%s)", it.coll, it.why) {
					n++
					d.edgeLoop(evs, i, o.st, it.coll, nil, nil, true, true)
					// it is the list the main loop carries
					ok := false
					for _, h := range ml.hdr {
						for _, v := range h.top().env {
							if v == it.coll {
								ok = true
							}
						}
					}
					d.ob(ok, evs[i].loop.pos, "the edges put aside are not the ones worked off at the end")
				}
			}
			d.ob(n == 1, fn.Pos(), "the edges put aside are worked off %d times", n)
		} else {
			// an error of the decoder's own: only for input that is not a
			// graph
			ok := false
			for _, x := range line(evs, o.st) {
				if x.kind == EvAssume && app(x.args[0], "has") && x.args[0].args[0] == d.nodeMap && !x.truth {
					ok = true
				}
			}
			d.ob(ok, fn.Pos(), "a graph is refused: %s", outDesc(o))
		}
	}
	d.ob(success > 0, fn.Pos(), "no successful execution found")
	return &d.m
}

// section checks what is done for one token of the object.
func (d *decoder) section(sg *Seg, round int, toks []*Term) {
	st := sg.st
	if !d.ob(len(toks) == 1, d.pos, "undecided: %d tokens are read in an iteration", len(toks)) {
		return
	}
	name, isKey, known := "", false, false
	for _, x := range line(sg.events, st) {
		if x.kind != EvAssume {
			continue
		}
		a := x.Event.args[0]
		if app(a, "typeis") && a.args[0] == toks[0] && strings.Contains(a.String(), "string") {
			isKey, known = x.truth, true
		}
		if app(a, "eq") && x.truth {
			for i := 0; i < 2; i++ {
				if s, ok := a.args[i].constStr(); ok && anywhere(a.args[1-i], func(t *Term) bool { return t == toks[0] }) {
					name = s
					isKey, known = true, true
				}
			}
		}
	}
	if !known {
		// with more in the object, the next token is a key
		for _, x := range line(sg.events, st) {
			if x.kind == EvCall && strings.HasPrefix(x.name, "(*encoding/json.Decoder).") {
				b, k := st.evalBool(st.canon(x.res))
				isKey = strings.HasSuffix(x.name, ".More") && k && b
				known = isKey
				break
			}
		}
	}
	decs := 0
	var dst *Term
	var dev Ev
	di := 0
	for i, x := range line(sg.events, st) {
		if x.kind == EvCall && x.name == "(*encoding/json.Decoder).Decode" {
			decs++
			a := x.args[1]
			if a.op == OpIface {
				a = a.args[0]
			}
			dst, dev, di = a, x, i
		}
	}
	if !known {
		d.ob(decs == 0, d.pos, "undecided: a value is read without knowing the key")
		return
	}
	if !isKey {
		d.ob(decs == 0, d.pos, "a value is read where there is none")
		return
	}
	d.ob(decs == 1, d.pos, "%d values are read for the key %q", decs, name)
	if decs != 1 {
		return
	}
	et := elemType(dst)
	src := st.canon(st.load(dst, et))
	l := -1
	for i := di; i < len(sg.events); i++ {
		if sg.events[i].kind == EvLoop && touches(sg.events[i].loop) {
			if !d.ob(l < 0, dev.pos, "undecided: two loops for the key %q", name) {
				return
			}
			l = i
		}
	}
	if l < 0 {
		if name != "" && sliceElem(et) != nil {
			// fine if there is nothing in it
			for _, x := range line(sg.events[di:], st) {
				if x.isCall("appendslice") && x.args[1] == src && typeKey(x.args[0].typ) == typeKey(src.typ) {
					// all put aside
					if round == 0 {
						d.set(&d.m.edges, name, "list of edges", dev.pos)
						d.m.decoded["edges"] = sliceElem(et)
						return
					}
					d.spread(sg, x.args[0], x.res, x.pos)
					return
				}
			}
			iv := st.ivalOf(d.e.sliceLen(st, src))
			d.ob(iv.hasHi && iv.hi <= 0, dev.pos, "what is read under %q is not used", name)
		} else if name == "" {
			d.ob(typeKey(et) == "json.RawMessage" || typeKey(et) == "interface{}", dev.pos, "the value of an unknown key is read as %s and may be refused", typeKey(et))
		}
		return
	}
	if !d.ob(name != "", dev.pos, "elements are created for an unknown key") {
		return
	}
	isNodes := false
	for _, s2 := range sg.events[l].loop.segs {
		for _, ev := range s2.events {
			if ev.kind == EvCall && ev.fn != nil && fnName(ev.fn) == "Graph.NewNode" {
				isNodes = true
			}
		}
	}
	d.ob(dst.op == OpNew, dev.pos, "the value of %q is read into %v, which may hold earlier data", name, dst)
	if isNodes {
		d.set(&d.m.nodes, name, "list of nodes", dev.pos)
		d.m.decoded["nodes"] = sliceElem(et)
		if round == 1 {
			d.nodeLoop(sg.events, l, st, src)
			d.through(sg, sg.events[l].loop)
		} else if d.nodeMap == nil {
			for _, s2 := range sg.events[l].loop.segs {
				for _, x := range line(s2.events, s2.st) {
					if x.kind == EvMapUpd && typeKey(elemOfMap(x.args[0])) == "*lpg.Node" {
						d.nodeMap = x.args[0]
					}
				}
			}
		}
		return
	}
	if round == 0 {
		d.set(&d.m.edges, name, "list of edges", dev.pos)
		d.m.decoded["edges"] = sliceElem(et)
	}
	if round == 0 && d.nodeMap != nil || round == 1 {
		d.edgeLoop(sg.events, l, st, src, nil, nil, true, false)
		d.through(sg, sg.events[l].loop)
	}
}

func elemOfMap(t *Term) types.Type {
	if t.typ != nil {
		if m, ok := t.typ.Underlying().(*types.Map); ok {
			return m.Elem()
		}
	}
	return types.Typ[types.Invalid]
}

// through: the queue a section's loop leaves is carried on by the main loop.
func (d *decoder) through(sg *Seg, l *Loop) {
	for _, s2 := range l.segs {
		for ph := range s2.next {
			if d.queues[s2.hdr[ph]] || d.queues[s2.next[ph]] {
				d.carry(sg, l, ph)
			}
		}
	}
}

func (c *Ctx) delimType() types.Type {
	for _, p := range c.w.tpkg.Imports() {
		if p.Path() == "encoding/json" {
			if o := p.Scope().Lookup("Delim"); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

func init() {
	reg("C19", "decoder: every path of the token loop handles its value once; each edge of the input is created between looked-up nodes known to be present or put aside on a list that survives to the end, where it is resolved or refused", 20, func(c *Ctx) {
		c.checkDecode("decode-references", false)
		c.assume["json.Decoder delivers the tokens of the input in order and reports malformed input"] = true
	})
}
