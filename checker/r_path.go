package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// slPiece is a part of the content of a slice: a stretch of another slice, or
// one element.
type slPiece struct {
	src, lo, hi *Term
	elem        *Term
}

func (p slPiece) String() string {
	if p.elem != nil {
		return fmt.Sprint(p.elem)
	}
	return fmt.Sprintf("%v[%v:%v]", p.src, p.lo, p.hi)
}

// sliceContent gives what a slice holds, in terms of the slices that existed
// before, and the slices whose storage it may share.
func (e *Eng) sliceContent(st *State, t *Term) (ps []slPiece, shares []*Term, ok bool) {
	tt := e.tt
	t = st.canon(t)
	if t.isNil() {
		return nil, nil, true
	}
	evs := top(st)
	whole := func(src *Term) ([]slPiece, []*Term, bool) { return e.sliceContent(st, src) }
	switch {
	case t.op == OpInit || t.op == OpParam:
		return []slPiece{{src: t, lo: tt.Int(0), hi: st.canon(e.sliceLen(st, t))}}, []*Term{t}, true
	case app(t, "slice"):
		ps, sh, ok := e.sliceContent(st, t.args[0])
		if !ok {
			return nil, nil, false
		}
		lo, hi := st.canon(t.args[1]), st.canon(t.args[2])
		if eq, k := st.evalBool(st.canon(tt.eq(lo, hi))); k && eq {
			return nil, sh, true
		}
		if len(ps) == 1 && ps[0].src != nil {
			p := ps[0]
			return []slPiece{{src: p.src, lo: st.canon(e.add(p.lo, lo)), hi: st.canon(e.add(p.lo, hi))}}, sh, true
		}
		if c, k := lo.constInt(); k && c == 0 {
			if eq, k := st.evalBool(st.canon(tt.eq(hi, st.canon(e.sliceLen(st, t.args[0]))))); k && eq {
				return ps, sh, true
			}
		}
		return nil, nil, false
	case app(t, "slicelit"):
		n, k := t.args[1].constInt()
		if !k {
			return nil, nil, false
		}
		et := sliceElem(t.typ)
		for i := int64(0); i < n; i++ {
			ps = append(ps, slPiece{elem: st.load(tt.Elem(t.args[0], tt.Int(i), et), et)})
		}
		return ps, nil, true
	case app(t, "makeslice"):
		n := st.canon(t.args[1])
		if c, k := n.constInt(); k && c == 0 {
			return nil, nil, true
		}
		var out [][]slPiece
		for _, x := range evs {
			if x.kind == EvCall && x.name == "copy" && x.args[0] == t {
				src := x.args[1]
				eq, k := st.evalBool(st.canon(tt.eq(n, st.canon(e.sliceLen(st, src)))))
				if !k || !eq {
					return nil, nil, false
				}
				ps, _, ok := whole(src)
				if !ok {
					return nil, nil, false
				}
				out = append(out, ps)
			}
		}
		list := st.tr.list()
		for i, ev := range list {
			if ev.kind != EvLoop {
				continue
			}
			if src := e.copyLoop(list, i, st, t); src != nil {
				eq, k := st.evalBool(st.canon(tt.eq(n, st.canon(e.sliceLen(st, src)))))
				if !k || !eq {
					return nil, nil, false
				}
				ps, _, ok := whole(src)
				if !ok {
					return nil, nil, false
				}
				out = append(out, ps)
			}
		}
		if len(out) == 0 {
			if eq, k := st.evalBool(st.canon(tt.eq(n, tt.Int(0)))); k && eq {
				return nil, nil, true
			}
			return nil, nil, false
		}
		if len(out) != 1 {
			return nil, nil, false
		}
		return out[0], nil, true
	case app(t, "append"), app(t, "appendslice"):
		ps, sh, ok := e.sliceContent(st, t.args[0])
		if !ok {
			return nil, nil, false
		}
		ps = append([]slPiece(nil), ps...)
		if t.name == "append" {
			for _, a := range t.args[1:] {
				ps = append(ps, slPiece{elem: a})
			}
			return ps, sh, true
		}
		more, _, ok := whole(t.args[1])
		if !ok {
			return nil, nil, false
		}
		return append(ps, more...), sh, true
	case t.op == OpUnk:
		if cl := st.callOf(t); cl != nil {
			if strings.HasPrefix(cl.name, "slices.Clone") && len(cl.args) == 1 {
				ps, _, ok := whole(cl.args[0])
				return ps, nil, ok
			}
			return nil, nil, false
		}
		list := st.tr.list()
		for i, ev := range list {
			if ev.kind != EvLoop {
				continue
			}
			it := e.iterOf(list, i, st)
			if !it.all() || it.kind != "slice" {
				continue
			}
			for _, g := range e.growths(ev.loop) {
				if !g.res(t) {
					continue
				}
				ps, sh, ok := e.sliceContent(st, g.init)
				if !ok {
					return nil, nil, false
				}
				for _, sg := range ev.loop.segs {
					et := sliceElem(t.typ)
					want := sg.st.load(e.elemAddr(it.coll, it.keyOf(sg), et), et)
					if len(g.add[sg]) != 1 || sg.st.canon(g.add[sg][0]) != sg.st.canon(want) {
						return nil, nil, false
					}
				}
				more, _, ok := whole(it.coll)
				if !ok {
					return nil, nil, false
				}
				return append(append([]slPiece(nil), ps...), more...), sh, true
			}
		}
	}
	return nil, nil, false
}

// copyLoop: the loop at i copies a slice element by element into dst.
func (e *Eng) copyLoop(evs []*Event, i int, st *State, dst *Term) *Term {
	it := e.iterOf(evs, i, st)
	if !it.all() || it.kind != "slice" {
		return nil
	}
	et := sliceElem(dst.typ)
	for _, sg := range it.loop.segs {
		k := it.keyOf(sg)
		at := e.elemAddr(dst, k, et)
		hit := false
		for _, x := range line(sg.events, sg.st) {
			if x.kind == EvStore && x.args[0] == at {
				hit = x.args[1] == sg.st.canon(sg.st.load(e.elemAddr(it.coll, k, et), et))
			}
		}
		if !hit {
			return nil
		}
	}
	return it.coll
}

// sameContent compares contents, leaving out empty stretches.
func (e *Eng) sameContent(st *State, ps, want []slPiece) bool {
	tt := e.tt
	z := st.zoneOf(func(z *zone) {})
	eqT := func(a, b *Term) bool {
		a, b = st.canon(a), st.canon(b)
		if a == b {
			return true
		}
		if v, k := st.evalBool(st.canon(tt.eq(a, b))); k {
			return v
		}
		return z.holds(a, b, 0) && z.holds(b, a, 0)
	}
	clean := func(ps []slPiece) []slPiece {
		var r []slPiece
		for _, p := range ps {
			if p.elem == nil && eqT(p.lo, p.hi) {
				continue
			}
			if n := len(r); p.elem == nil && n > 0 && r[n-1].elem == nil && r[n-1].src == p.src && eqT(r[n-1].hi, p.lo) {
				r[n-1].hi = p.hi
				continue
			}
			r = append(r, p)
		}
		return r
	}
	ps, want = clean(ps), clean(want)
	if len(ps) != len(want) {
		return false
	}
	for i := range ps {
		p, w := ps[i], want[i]
		if (p.elem == nil) != (w.elem == nil) {
			return false
		}
		if p.elem != nil {
			if st.canon(p.elem) != st.canon(w.elem) {
				return false
			}
			continue
		}
		if p.src != w.src || !eqT(p.lo, w.lo) || !eqT(p.hi, w.hi) {
			return false
		}
	}
	return true
}

// pathShape is what a path looks like before an operation.
type pathShape string

const (
	shEmpty  pathShape = "an empty path"
	shSingle pathShape = "a path of one node"
	shEdges  pathShape = "a path of edges"
)

var pathShapes = []pathShape{shEmpty, shSingle, shEdges}

// pathIn is a path the operation is given.
type pathIn struct {
	p, only, list, n *Term
	sh               pathShape
}

func (c *Ctx) shaped(e *Eng, st *State, p *Term, sh pathShape) pathIn {
	pt := types.NewPointer(c.typ("Path"))
	st.nn[p] = true
	in := pathIn{p: p, sh: sh, only: st.get(p, pt, "only"), list: st.get(p, pt, "path")}
	in.n = e.tt.App("len", types.Typ[types.Int], in.list)
	switch sh {
	case shSingle:
		st.assume(e.tt.eq(in.only, e.tt.Nil()), false)
	default:
		st.assume(e.tt.eq(in.only, e.tt.Nil()), true)
	}
	if sh == shEdges {
		st.assume(e.tt.lt(e.tt.Int(0), in.n), true)
	} else {
		st.assume(e.tt.eq(in.n, e.tt.Int(0)), true)
	}
	st.tr = nil
	return in
}

// whole content of a path given
func (in pathIn) content(e *Eng) []slPiece {
	return []slPiece{{src: in.list, lo: e.tt.Int(0), hi: in.n}}
}

type pathRule struct {
	c    *Ctx
	rule string
}

func (r *pathRule) hook() Hook {
	return hooks(atoms("Path.String", "Node.GetLabels", "Edge.Remove", "Node.String", "Edge.String"), stdModel)
}

// ends gives the node an element of a slice starts or ends at; nil if the
// state does not determine it.
func (r *pathRule) ends(e *Eng, st *State, list, idx *Term, target bool) *Term {
	el := r.c.typ("PathElement")
	return r.endOf(e, st, st.load(e.elemAddr(list, idx, el), el), target)
}

func (r *pathRule) endOf(e *Eng, st *State, elem *Term, target bool) *Term {
	v := &vpath{c: r.c, e: e}
	edge, rev := v.pathElem(st, elem)
	et := r.c.typ("Edge")
	from, to := st.get(edge, et, "from"), st.get(edge, et, "to")
	b, ok := st.evalBool(st.canon(rev))
	if !ok {
		if st.canon(from) == st.canon(to) {
			return st.canon(from)
		}
		return nil
	}
	if b != target {
		return st.canon(to)
	}
	return st.canon(from)
}

func (r *pathRule) last(e *Eng, st *State, in pathIn) *Term {
	switch in.sh {
	case shEmpty:
		return e.tt.Nil()
	case shSingle:
		return st.canon(in.only)
	}
	return r.ends(e, st, in.list, e.add(in.n, e.tt.Int(-1)), true)
}

func (r *pathRule) first(e *Eng, st *State, in pathIn) *Term {
	switch in.sh {
	case shEmpty:
		return e.tt.Nil()
	case shSingle:
		return st.canon(in.only)
	}
	return r.ends(e, st, in.list, e.tt.Int(0), false)
}

// writes checks that an outcome changes only the fields of own and objects
// it created, and that it calls nothing that could change more.
func (r *pathRule) writes(con string, e *Eng, o Outcome, own *Term, pos token.Pos, allow func(x Ev) bool) {
	c := r.c
	pt := c.typ("Path")
	made := func(t *Term) bool {
		t = t.root()
		if t.op == OpNew {
			return true
		}
		return false
	}
	for _, x := range flat(o.st) {
		if allow != nil && allow(x) {
			continue
		}
		switch x.kind {
		case EvStore:
			a := x.args[0]
			if made(a) {
				continue
			}
			if own != nil && a == x.st.canon(own) {
				continue
			}
			if own != nil && a.op == OpField && a.args[0] == x.st.canon(own) && (a == e.fld(a.args[0], pt, "only") || a == e.fld(a.args[0], pt, "path")) {
				continue
			}
			c.fail(r.rule, con+" changes", x.pos, "changes %v, which is not part of the path it is called on", a)
		case EvMapUpd, EvMapDel:
			c.fail(r.rule, con+" changes", x.pos, "changes a map")
		case EvCall:
			switch x.name {
			case "append", "appendslice":
				// storage is checked through the content of the result
				if x.args[0].isNil() || app(x.args[0], "makeslice") || app(x.args[0], "slicelit") || app(x.args[0], "append") || app(x.args[0], "appendslice") || isPhi(x.args[0]) {
					continue
				}
				base, _, _ := e.sliceView(x.st, x.args[0])
				if b, ok := fieldInit(base, "path"); ok && own != nil && b == x.st.canon(own) {
					continue
				}
				if sliceElem(base.typ) != nil && typeName(sliceElem(base.typ)) != "PathElement" {
					continue
				}
				c.fail(r.rule, con+" changes", x.pos, "may write to the storage of %v", base)
			case "copy":
				d, _, _ := e.sliceView(x.st, x.args[0])
				if app(d, "makeslice") || app(d, "slicelit") {
					continue
				}
				if b, ok := fieldInit(d, "path"); ok && own != nil && b == x.st.canon(own) {
					continue
				}
				c.fail(r.rule, con+" changes", x.pos, "writes to the storage of %v", d)
			case "Path.String", "Node.GetLabels", "Node.String", "Edge.String":
			case "Edge.Remove":
				c.fail(r.rule, con+" changes", x.pos, "removes an edge from the graph")
			default:
				if x.fn != nil && c.w.inline(x.fn) {
					c.fail(r.rule, con+" changes", x.pos, "calls %s, whose effects are not known here", x.name)
				}
			}
		}
	}
	c.pass(r.rule, con+" changes")
}

// after reads a path at the end of an outcome.
func (r *pathRule) after(st *State, p *Term) (only, list *Term) {
	pt := types.NewPointer(r.c.typ("Path"))
	p = st.canon(p)
	return st.canon(st.get(p, pt, "only")), st.canon(st.get(p, pt, "path"))
}

// holds checks the state of a path after an operation.
func (r *pathRule) holds(con string, e *Eng, o Outcome, p, only *Term, want []slPiece, storage []*Term, pos token.Pos) {
	c := r.c
	gotOnly, list := r.after(o.st, p)
	if only != nil {
		c.ob(r.rule, con+" node", o.st.sameAs(e, gotOnly, only), pos, "the single node of the path is %v, not %v: %s", gotOnly, only, outDesc(o))
	} else {
		c.fail(r.rule, con+" node", pos, "undecided: the node at the end of an element is not known: %s", outDesc(o))
	}
	ps, shares, ok := e.sliceContent(o.st, list)
	if !c.ob(r.rule, con+" elements", ok && e.sameContent(o.st, ps, want), pos, "the path consists of %v (%v), not %v: %s", ps, list, want, outDesc(o)) {
		return
	}
	for _, s := range shares {
		own := false
		for _, x := range storage {
			if x == s {
				own = true
			}
		}
		c.ob(r.rule, con+" storage", own, pos, "the path shares the storage of %v", s)
	}
	c.pass(r.rule, con+" storage")
}

func (st *State) sameAs(e *Eng, a, b *Term) bool {
	a, b = st.canon(a), st.canon(b)
	if a == b {
		return true
	}
	v, k := st.evalBool(st.canon(e.tt.eq(a, b)))
	return k && v
}

func (st *State) knownDiff(e *Eng, a, b *Term) bool {
	v, k := st.evalBool(st.canon(e.tt.eq(st.canon(a), st.canon(b))))
	return k && !v
}

// op runs an operation on every shape of its first argument.
func (r *pathRule) op(name string, check func(con string, e *Eng, in pathIn, args []*Term, outs []Outcome, fn *ssa.Function)) {
	r.opWith(name, nil, check)
}

func (r *pathRule) opWith(name string, more func(e *Eng, st *State, in pathIn, args []*Term), check func(con string, e *Eng, in pathIn, args []*Term, outs []Outcome, fn *ssa.Function)) {
	c := r.c
	c.guard(r.rule, name, func() {
		fn := c.fn(name)
		for _, sh := range pathShapes {
			con := name + " of " + string(sh)
			c.guard(r.rule, con, func() {
				var in pathIn
				var as []*Term
				e, outs := c.run(fn, r.hook(), func(e *Eng, st *State, args []*Term) {
					in, as = c.shaped(e, st, args[0], sh), args
					if more != nil {
						more(e, st, in, args)
					}
				})
				check(con, e, in, as, outs, fn)
			})
		}
	})
}

func (r *pathRule) noPanic(con string, o Outcome) bool {
	if o.panic {
		r.c.fail(r.rule, con+" panic", o.pos, "may panic: %s (%s)", o.panicIs, outDesc(o))
		return false
	}
	r.c.pass(r.rule, con+" panic")
	return true
}

// refused: the outcome knows that elements do not meet, so a panic is right.
func (r *pathRule) refused(e *Eng, o Outcome, list, last *Term, nonEmpty bool) bool {
	st := o.st
	tt := e.tt
	el := r.c.typ("PathElement")
	// the start of an element differs from what precedes it
	is := map[*Term]bool{}
	note := func(t *Term) {
		if t.op == OpElem && t.typ != nil {
			is[t] = true
		}
	}
	_ = el
	scan := func(evs []*Event) {
		for _, ev := range evs {
			for _, a := range ev.args {
				anywhere(a, func(t *Term) bool { note(t); return false })
			}
		}
	}
	scan(st.tr.list())
	base, lo, _ := e.sliceView(st, list)
	for a := range is {
		if a.args[0] != base {
			continue
		}
		idx := a.args[1]
		src := r.endOf(e, st, st.load(a, el), false)
		if src == nil {
			continue
		}
		if nonEmpty && last != nil && st.sameAs(e, idx, lo) && st.knownDiff(e, src, last) {
			return true
		}
		// against the element before
		prev := st.canon(tt.Elem(base, e.add(idx, tt.Int(-1)), el))
		if pt := r.endOf(e, st, st.load(prev, el), true); pt != nil && st.knownDiff(e, src, pt) {
			return true
		}
	}
	// against a value carried by a loop that follows the ends
	for i, ev := range st.tr.list() {
		if ev.kind != EvLoop {
			continue
		}
		for ph := range r.tracks(e, st, i, list, last) {
			for _, x := range st.tr.list()[i:] {
				if x.kind != EvAssume || x.truth || !app(x.args[0], "eq") {
					continue
				}
				for _, p := range [][2]*Term{{x.args[0].args[0], x.args[0].args[1]}, {x.args[0].args[1], x.args[0].args[0]}} {
					v := st.canon(p[0])
					if !r.isHeader(ev.loop, ph, v) && v != st.canon(last) {
						continue
					}
					if anywhere(p[1], func(t *Term) bool { return t.op == OpElem && t.args[0] == base }) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (r *pathRule) isHeader(L *Loop, ph *ssa.Phi, v *Term) bool {
	for _, sg := range L.segs {
		if sg.hdr[ph] == v {
			return true
		}
	}
	return false
}

// tracks finds the loop-carried values that are always the end of the element
// before the one at hand, last at first.
func (r *pathRule) tracks(e *Eng, st *State, i int, list, last *Term) map[*ssa.Phi]bool {
	evs := st.tr.list()
	ev := evs[i]
	out := map[*ssa.Phi]bool{}
	it := e.iterOf(evs, i, st)
	if it.kind != "slice" {
		return out
	}
	base, lo, _ := e.sliceView(st, list)
	cb, clo, _ := e.sliceView(st, it.coll)
	if cb != base {
		return out
	}
	for ph, v := range ev.loop.init {
		ok := false
		if last != nil && st.sameAs(e, clo, lo) && st.sameAs(e, v, last) {
			ok = true
		}
		if st.sameAs(e, clo, e.add(lo, e.tt.Int(1))) || r.fromOne(e, st, it) && st.sameAs(e, clo, lo) {
			ok = false
			if t := r.ends(e, st, list, e.tt.Int(0), true); t != nil && st.sameAs(e, v, t) {
				ok = true
			}
		}
		if !ok {
			continue
		}
		for _, sg := range ev.loop.segs {
			t := r.ends(e, sg.st, it.coll, it.keyOf(sg), true)
			if t == nil || sg.next[ph] == nil || !sg.st.sameAs(e, sg.next[ph], t) {
				ok = false
			}
		}
		if ok {
			out[ph] = true
		}
	}
	return out
}

// connected: the outcome knows that every element starts where the one before
// ends and the first where the path ends.
func (r *pathRule) connected(e *Eng, o Outcome, list, last *Term) string {
	st := o.st
	tt := e.tt
	if s0 := r.ends(e, st, list, tt.Int(0), false); s0 != nil && st.sameAs(e, s0, last) {
		// the first element meets the path
		if n, k := st.canon(e.sliceLen(st, list)).constInt(); k && n == 1 {
			return ""
		}
	}
	firstOK := false
	if s0 := r.ends(e, st, list, tt.Int(0), false); s0 != nil && st.sameAs(e, s0, last) {
		firstOK = true
	}
	evs := st.tr.list()
	base, lo, _ := e.sliceView(st, list)
	for i, ev := range evs {
		if ev.kind != EvLoop {
			continue
		}
		it := e.iterOf(evs, i, st)
		if it.kind != "slice" || !it.complete {
			continue
		}
		cb, clo, _ := e.sliceView(st, it.coll)
		if cb != base {
			continue
		}
		tr := r.tracks(e, st, i, list, last)
		good := true
		start0 := it.from0 && st.sameAs(e, clo, lo)
		start1 := it.from0 && st.sameAs(e, clo, e.add(lo, tt.Int(1)))
		if !start0 && !start1 {
			// counted from the second element
			start1 = r.fromOne(e, st, it) && st.sameAs(e, clo, lo)
		}
		if !start0 && !(start1 && firstOK) {
			continue
		}
		for _, sg := range ev.loop.segs {
			k := it.keyOf(sg)
			s := r.ends(e, sg.st, it.coll, k, false)
			ok := false
			if s != nil {
				for ph := range tr {
					if sg.hdr[ph] != nil && sg.st.sameAs(e, s, sg.hdr[ph]) {
						ok = true
					}
				}
				if p := r.ends(e, sg.st, it.coll, e.add(k, tt.Int(-1)), true); p != nil && sg.st.sameAs(e, s, p) {
					ok = true
				}
				if c, isC := k.constInt(); isC && c == 0 && start0 && sg.st.sameAs(e, s, last) {
					ok = true
				}
			}
			if !ok {
				good = false
			}
		}
		if good {
			return ""
		}
	}
	return "elements are appended that need not meet"
}

// fromOne: a slice loop whose index starts at 1 and moves one at a time.
func (r *pathRule) fromOne(e *Eng, st *State, it *Iter) bool {
	for ph, v := range it.loop.init {
		c, ok := v.constInt()
		if !ok {
			continue
		}
		all := true
		for _, sg := range it.loop.segs {
			if sg.hdr[ph] == nil || sg.next[ph] == nil {
				all = false
				break
			}
			kb, ko := st.affine(it.keyOf(sg))
			hb, ho := st.affine(sg.hdr[ph])
			nb, no := st.affine(sg.next[ph])
			if kb != hb || nb != hb || no != ho+1 || ko-ho+c != 1 {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	return false
}

func (c *Ctx) checkPaths(rule string) {
	r := &pathRule{c: c, rule: rule}
	// ends of an element
	for _, end := range []struct {
		name   string
		target bool
	}{{"PathElement.GetSourceNode", false}, {"PathElement.GetTargetNode", true}} {
		c.guard(rule, end.name, func() {
			fn := c.fn(end.name)
			e, as, outs := c.runA(fn, r.hook())
			for _, o := range outs {
				if !r.noPanic(end.name, o) {
					continue
				}
				want := r.endOf(e, o.st, as[0], end.target)
				c.ob(rule, end.name, want != nil && o.st.sameAs(e, o.ret[0], want), fn.Pos(), "gives %v: %s", o.ret[0], outDesc(o))
				r.writes(end.name, e, o, nil, fn.Pos(), nil)
			}
		})
	}
	// reading
	read := func(name string, want func(e *Eng, st *State, in pathIn, args []*Term) *Term) {
		r.op(name, func(con string, e *Eng, in pathIn, args []*Term, outs []Outcome, fn *ssa.Function) {
			for _, o := range outs {
				if !r.noPanic(con, o) {
					continue
				}
				w := want(e, o.st, in, args)
				c.ob(rule, con+" result", w != nil && o.st.sameAs(e, o.ret[0], w), fn.Pos(), "gives %v, not %v: %s", o.ret[0], w, outDesc(o))
				r.writes(con, e, o, nil, fn.Pos(), nil)
			}
		})
	}
	read("Path.First", func(e *Eng, st *State, in pathIn, args []*Term) *Term { return r.first(e, st, in) })
	read("Path.Last", func(e *Eng, st *State, in pathIn, args []*Term) *Term { return r.last(e, st, in) })
	read("Path.NumEdges", func(e *Eng, st *State, in pathIn, args []*Term) *Term { return in.n })
	read("Path.NumNodes", func(e *Eng, st *State, in pathIn, args []*Term) *Term {
		switch in.sh {
		case shEmpty:
			return e.tt.Int(0)
		case shSingle:
			return e.tt.Int(1)
		}
		return e.add(in.n, e.tt.Int(1))
	})
	read("Path.IsEmpty", func(e *Eng, st *State, in pathIn, args []*Term) *Term { return e.tt.Bool(in.sh == shEmpty) })
	r.opWith("Path.GetEdge", func(e *Eng, st *State, in pathIn, args []*Term) {
		st.assume(e.tt.lt(args[1], e.tt.Int(0)), false)
		st.tr = nil
	}, func(con string, e *Eng, in pathIn, args []*Term, outs []Outcome, fn *ssa.Function) {
		for _, o := range outs {
			if !r.noPanic(con, o) {
				continue
			}
			r.writes(con, e, o, nil, fn.Pos(), nil)
			z := o.st.zoneOf(func(z *zone) {})
			ret := o.st.canon(o.ret[0])
			if in.sh == shEdges && !z.holds(in.n, args[1], 0) {
				el := c.typ("PathElement")
				v := &vpath{c: c, e: e}
				ed, _ := v.pathElem(o.st, o.st.load(e.elemAddr(in.list, args[1], el), el))
				c.ob(rule, con+" result", z.holds(args[1], in.n, -1) && ret == o.st.canon(ed), fn.Pos(), "gives %v: %s", ret, outDesc(o))
				continue
			}
			c.ob(rule, con+" result", ret.isNil(), fn.Pos(), "gives %v for an edge the path does not have", ret)
		}
	})
	r.opWith("Path.GetNode", func(e *Eng, st *State, in pathIn, args []*Term) {
		// indexes of nodes the path has
		st.assume(e.tt.lt(args[1], e.tt.Int(0)), false)
		switch in.sh {
		case shSingle:
			st.assume(e.tt.eq(args[1], e.tt.Int(0)), true)
		case shEdges:
			st.assume(e.tt.lt(in.n, args[1]), false)
		}
		st.tr = nil
	}, func(con string, e *Eng, in pathIn, args []*Term, outs []Outcome, fn *ssa.Function) {
		for _, o := range outs {
			r.writes(con, e, o, nil, fn.Pos(), nil)
			if in.sh == shEmpty {
				continue
			}
			first := o.st.sameAs(e, args[1], e.tt.Int(0))
			if o.panic && first {
				// only a path without a first node has none
				f := r.first(e, o.st, in)
				if in.sh == shEdges && f != nil && o.st.sameAs(e, f, e.tt.Nil()) {
					continue
				}
			}
			if !r.noPanic(con, o) {
				continue
			}
			var w *Term
			switch {
			case first:
				w = r.first(e, o.st, in)
			case o.st.knownDiff(e, args[1], e.tt.Int(0)):
				w = r.ends(e, o.st, in.list, e.add(args[1], e.tt.Int(-1)), true)
			}
			c.ob(rule, con+" result", w != nil && o.st.sameAs(e, o.ret[0], w), fn.Pos(), "gives %v, not %v: %s", o.ret[0], w, outDesc(o))
		}
	})
	for _, name := range []string{"Path.HasPrefix", "Path.HasPrefixPath", "Path.String"} {
		r.op(name, func(con string, e *Eng, in pathIn, args []*Term, outs []Outcome, fn *ssa.Function) {
			for _, o := range outs {
				r.writes(con, e, o, nil, fn.Pos(), nil)
			}
		})
	}
	// making paths
	c.guard(rule, "PathFromNode", func() {
		fn := c.fn("PathFromNode")
		e, as, outs := c.runA(fn, r.hook())
		for _, o := range outs {
			if o.panic {
				c.ob(rule, "PathFromNode panic", o.st.sameAs(e, as[0], e.tt.Nil()), o.pos, "a node is refused")
				continue
			}
			c.ob(rule, "PathFromNode nil", o.st.knownDiff(e, as[0], e.tt.Nil()), fn.Pos(), "a path may start at no node")
			r.writes("PathFromNode", e, o, nil, fn.Pos(), nil)
			r.fresh("PathFromNode", e, o)
			r.holds("PathFromNode", e, o, o.ret[0], as[0], nil, nil, fn.Pos())
		}
	})
	c.guard(rule, "NewPathFromElements", func() {
		fn := c.fn("NewPathFromElements")
		e, as, outs := c.runA(fn, r.hook())
		for _, o := range outs {
			if !r.noPanic("NewPathFromElements", o) {
				continue
			}
			r.writes("NewPathFromElements", e, o, nil, fn.Pos(), nil)
			r.fresh("NewPathFromElements", e, o)
			r.holds("NewPathFromElements", e, o, o.ret[0], e.tt.Nil(), []slPiece{{src: as[0], lo: e.tt.Int(0), hi: o.st.canon(e.sliceLen(o.st, as[0]))}}, nil, fn.Pos())
		}
	})
	c.guard(rule, "NewPathElementsFromEdges", func() { r.fromEdges() })
	// copying
	r.op("Path.Clone", func(con string, e *Eng, in pathIn, args []*Term, outs []Outcome, fn *ssa.Function) {
		for _, o := range outs {
			if !r.noPanic(con, o) {
				continue
			}
			r.writes(con, e, o, nil, fn.Pos(), nil)
			r.fresh(con, e, o)
			r.holds(con, e, o, o.ret[0], in.only, in.content(e), nil, fn.Pos())
		}
	})
	r.checkSlice()
	// shortening
	gives := func(con string, o Outcome, p *Term, pos token.Pos) {
		c.ob(rule, con+" gives", o.st.canon(o.ret[0]) == o.st.canon(p), pos, "does not give back the path it is called on")
	}
	r.op("Path.RemoveLast", func(con string, e *Eng, in pathIn, args []*Term, outs []Outcome, fn *ssa.Function) {
		for _, o := range outs {
			if !r.noPanic(con, o) {
				continue
			}
			gives(con, o, in.p, fn.Pos())
			r.writes(con, e, o, in.p, fn.Pos(), nil)
			nl := e.tt.Nil()
			if in.sh != shEdges {
				r.holds(con, e, o, in.p, nl, nil, []*Term{in.list}, fn.Pos())
				continue
			}
			n1 := e.add(in.n, e.tt.Int(-1))
			var only *Term
			if o.st.sameAs(e, in.n, e.tt.Int(1)) {
				only = r.first(e, o.st, in)
			} else if o.st.knownDiff(e, in.n, e.tt.Int(1)) {
				only = nl
			}
			r.holds(con, e, o, in.p, only, []slPiece{{src: in.list, lo: e.tt.Int(0), hi: n1}}, []*Term{in.list}, fn.Pos())
		}
	})
	r.op("Path.RemoveFirst", func(con string, e *Eng, in pathIn, args []*Term, outs []Outcome, fn *ssa.Function) {
		for _, o := range outs {
			if !r.noPanic(con, o) {
				continue
			}
			gives(con, o, in.p, fn.Pos())
			removed := 0
			el := c.typ("PathElement")
			v := &vpath{c: c, e: e}
			e0, _ := v.pathElem(o.st, o.st.load(e.elemAddr(in.list, e.tt.Int(0), el), el))
			r.writes(con, e, o, in.p, fn.Pos(), func(x Ev) bool {
				if x.isCall("Edge.Remove") && in.sh == shEdges && len(x.path) == 0 && x.args[0] == o.st.canon(e0) {
					removed++
					return removed == 1
				}
				return false
			})
			if in.sh != shEdges {
				r.holds(con, e, o, in.p, e.tt.Nil(), nil, []*Term{in.list}, fn.Pos())
				continue
			}
			c.ob(rule, con+" removes", removed == 1, fn.Pos(), "the first edge is not removed from its graph")
			only, _ := r.after(o.st, in.p)
			_, list := r.after(o.st, in.p)
			ps, sh, ok := e.sliceContent(o.st, list)
			c.ob(rule, con+" elements", ok && e.sameContent(o.st, ps, []slPiece{{src: in.list, lo: e.tt.Int(1), hi: in.n}}), fn.Pos(), "the path consists of %v: %s", ps, outDesc(o))
			c.ob(rule, con+" storage", len(sh) == 0 || len(sh) == 1 && sh[0] == in.list, fn.Pos(), "the path shares the storage of %v", sh)
			// a path that lost its only edge may keep the node it led to
			if !only.isNil() {
				t := r.ends(e, o.st, in.list, e.tt.Int(0), true)
				c.ob(rule, con+" node", o.st.sameAs(e, in.n, e.tt.Int(1)) && t != nil && o.st.sameAs(e, only, t), fn.Pos(), "the path has edges and a single node")
			}
		}
	})
	r.op("Path.Clear", func(con string, e *Eng, in pathIn, args []*Term, outs []Outcome, fn *ssa.Function) {
		for _, o := range outs {
			if r.noPanic(con, o) {
				gives(con, o, in.p, fn.Pos())
				r.writes(con, e, o, in.p, fn.Pos(), nil)
				r.holds(con, e, o, in.p, e.tt.Nil(), nil, []*Term{in.list}, fn.Pos())
			}
		}
	})
	r.op("Path.SetOnlyNode", func(con string, e *Eng, in pathIn, args []*Term, outs []Outcome, fn *ssa.Function) {
		for _, o := range outs {
			if r.noPanic(con, o) {
				gives(con, o, in.p, fn.Pos())
				r.writes(con, e, o, in.p, fn.Pos(), nil)
				r.holds(con, e, o, in.p, args[1], nil, []*Term{in.list}, fn.Pos())
			}
		}
	})
	// appending
	r.op("Path.Append", func(con string, e *Eng, in pathIn, args []*Term, outs []Outcome, fn *ssa.Function) {
		for _, o := range outs {
			r.appended(con, e, o, in, args[1], e.tt.Nil(), fn)
		}
	})
	for _, sh2 := range pathShapes {
		sh2 := sh2
		var arg pathIn
		r.opWith("Path.AppendPath", func(e *Eng, st *State, in pathIn, args []*Term) {
			arg = c.shaped(e, st, args[1], sh2)
			st.assume(e.tt.eq(args[0], args[1]), false)
			st.tr = nil
		}, func(con string, e *Eng, in pathIn, args []*Term, outs []Outcome, fn *ssa.Function) {
			con += " with " + string(sh2)
			for _, o := range outs {
				if sh2 == shSingle && in.sh != shEmpty {
					last := r.last(e, o.st, in)
					if o.panic {
						c.ob(rule, con+" panic", last != nil && o.st.knownDiff(e, last, arg.only), o.pos, "a node is refused where the path ends: %s", outDesc(o))
						continue
					}
					c.ob(rule, con+" meets", last != nil && o.st.sameAs(e, last, arg.only), fn.Pos(), "a node is appended that is not where the path ends: %s", outDesc(o))
				}
				r.appended(con, e, o, in, arg.list, arg.only, fn)
			}
		})
	}
	r.checkCursor()
	r.checkPathStores()
}

// appended checks one outcome of appending a list of elements (or the node of
// another path) to a path.
func (r *pathRule) appended(con string, e *Eng, o Outcome, in pathIn, list, node *Term, fn *ssa.Function) {
	c := r.c
	st := o.st
	tt := e.tt
	n := st.canon(e.sliceLen(st, list))
	last := r.last(e, st, in)
	if o.panic {
		c.ob(r.rule, con+" panic", r.refused(e, o, list, last, in.sh != shEmpty), o.pos, "elements are refused that may meet: %s (%s)", o.panicIs, outDesc(o))
		r.writes(con, e, o, in.p, fn.Pos(), nil)
		return
	}
	c.ob(r.rule, con+" gives", st.canon(o.ret[0]) == st.canon(in.p), fn.Pos(), "does not give back the path it is called on")
	r.writes(con, e, o, in.p, fn.Pos(), nil)
	none := st.sameAs(e, n, tt.Int(0))
	if !none && !st.knownDiff(e, n, tt.Int(0)) {
		z := st.zoneOf(func(z *zone) {})
		if !z.holds(tt.Int(1), n, 0) {
			c.fail(r.rule, con+" elements", fn.Pos(), "undecided: whether there are elements to append: %s", outDesc(o))
			return
		}
	}
	only := tt.Nil()
	switch {
	case in.sh == shEmpty:
		only = node
	case none:
		only = in.only
	}
	want := append(in.content(e), slPiece{src: list, lo: tt.Int(0), hi: n})
	r.holds(con, e, o, in.p, only, want, []*Term{in.list}, fn.Pos())
	if !none && in.sh != shEmpty {
		if last == nil {
			c.fail(r.rule, con+" connected", fn.Pos(), "elements are appended without looking at where the path ends: %s", outDesc(o))
			return
		}
		why := r.connected(e, o, list, last)
		c.ob(r.rule, con+" connected", why == "", fn.Pos(), "%s: %s", why, outDesc(o))
	}
}

// fresh: the path given back is a new object.
func (r *pathRule) fresh(con string, e *Eng, o Outcome) {
	t := o.st.canon(o.ret[0])
	r.c.ob(r.rule, con+" new", t.op == OpNew, o.pos, "gives %v, not a new path", t)
}

func (r *pathRule) fromEdges() {
	c := r.c
	con := "NewPathElementsFromEdges"
	fn := c.fn(con)
	e, as, outs := c.runA(fn, r.hook())
	v := &vpath{c: c, e: e}
	el := c.typ("PathElement")
	for _, o := range outs {
		if !r.noPanic(con, o) {
			continue
		}
		r.writes(con, e, o, nil, fn.Pos(), nil)
		ret := o.st.canon(o.ret[0])
		n := 0
		evs := o.st.tr.list()
		if o.st.sameAs(e, e.sliceLen(o.st, as[0]), e.tt.Int(0)) {
			evs = nil
		}
		for i, ev := range evs {
			if ev.kind != EvLoop {
				continue
			}
			it := e.iterOf(evs, i, o.st)
			if it.kind != "slice" || it.coll != as[0] {
				continue
			}
			n++
			c.ob(r.rule, con+" all", it.all(), ev.pos, "not all edges become elements: %s", it.why)
			for _, sg := range ev.loop.segs {
				k := it.keyOf(sg)
				edge := sg.st.canon(sg.st.load(e.elemAddr(as[0], k, c.ptr("Edge")), c.ptr("Edge")))
				ok := false
				if app(ret, "makeslice") && o.st.sameAs(e, ret.args[1], e.sliceLen(o.st, as[0])) {
					x := sg.st.load(e.elemAddr(ret, k, el), el)
					ed, rev := v.pathElem(sg.st, x)
					b, kn := sg.st.evalBool(rev)
					// nothing else wrote the element, which starts out false
					if !kn && rev.op == OpInit && rev.root().op == OpNew || rev.op == OpInit && rev.args[0].root().op == OpNew {
						b, kn = false, true
					}
					ok = ed == edge && kn && !b
				} else {
					for _, g := range e.growths(ev.loop) {
						if g.res(ret) && e.emptySlice(o.st, g.init) && len(g.add[sg]) == 1 {
							ed, rev := v.pathElem(sg.st, g.add[sg][0])
							b, kn := sg.st.evalBool(rev)
							ok = ed == edge && kn && !b
						}
					}
				}
				c.ob(r.rule, con+" element", ok, ev.pos, "an element is not the edge at the same place")
			}
		}
		if n == 0 {
			c.ob(r.rule, con+" none", o.st.sameAs(e, e.sliceLen(o.st, as[0]), e.tt.Int(0)) && o.st.sameAs(e, e.sliceLen(o.st, ret), e.tt.Int(0)), fn.Pos(), "edges do not become elements")
		}
	}
}

func (c *Ctx) ptr(name string) types.Type { return types.NewPointer(c.typ(name)) }

// checkSlice: a slice of a path is a new path made of a stretch of it.
func (r *pathRule) checkSlice() {
	c := r.c
	r.opWith("Path.Slice", func(e *Eng, st *State, in pathIn, args []*Term) {
		// valid ranges: 0 <= start < number of nodes
		tt := e.tt
		st.assume(tt.lt(args[1], tt.Int(0)), false)
		switch in.sh {
		case shSingle:
			st.assume(tt.eq(args[1], tt.Int(0)), true)
		case shEdges:
			st.assume(tt.lt(in.n, args[1]), false)
		}
		st.tr = nil
	}, func(con string, e *Eng, in pathIn, args []*Term, outs []Outcome, fn *ssa.Function) {
		tt := e.tt
		for _, o := range outs {
			r.writes(con, e, o, nil, fn.Pos(), nil)
			if o.panic {
				continue
			}
			r.fresh(con, e, o)
			only, list := r.after(o.st, o.ret[0])
			ps, sh, ok := e.sliceContent(o.st, list)
			c.ob(r.rule, con+" storage", ok && len(sh) == 0, fn.Pos(), "the slice shares storage with %v: %s", sh, outDesc(o))
			if !ok {
				continue
			}
			// the range asked for, up to the last node
			nodes := e.add(in.n, tt.Int(1))
			z := o.st.zoneOf(func(z *zone) { z.le(tt.Int(0), in.n, 0) })
			if z.empty() {
				continue
			}
			start, end := args[1], args[2]
			toEnd := z.holds(nodes, end, 0) || o.st.sameAs(e, end, tt.Int(-1))
			if toEnd {
				end = nodes
			}
			c.ob(r.rule, con+" shape", only.isNil() || e.sameContent(o.st, ps, nil), fn.Pos(), "the slice has edges and a single node")
			if !only.isNil() {
				// a node of the path: the one at start
				var want []*Term
				if in.sh != shEdges {
					want = append(want, in.only)
				} else {
					if o.st.sameAs(e, start, tt.Int(0)) {
						want = append(want, r.first(e, o.st, in))
					}
					if t := r.ends(e, o.st, in.list, start, false); t != nil {
						want = append(want, t)
					}
					if z.holds(in.n, start, 0) {
						want = append(want, r.last(e, o.st, in))
					}
				}
				hit := false
				for _, w := range want {
					if w != nil && o.st.sameAs(e, only, w) {
						hit = true
					}
				}
				c.ob(r.rule, con+" node", hit, fn.Pos(), "the single node %v is not the first node asked for: %s", only, outDesc(o))
				// no edge was asked for
				c.ob(r.rule, con+" range", in.sh != shEdges || z.holds(end, start, 1) || z.holds(in.n, start, 0), fn.Pos(), "edges asked for are left out: %s", outDesc(o))
				continue
			}
			hi := e.add(end, tt.Int(-1))
			okc := e.sameContent(o.st, ps, []slPiece{{src: in.list, lo: start, hi: hi}})
			if z.holds(hi, start, 0) {
				okc = okc || e.sameContent(o.st, ps, nil)
			}
			c.ob(r.rule, con+" elements", okc, fn.Pos(), "the slice consists of %v, not the elements between nodes %v and %v: %s", ps, start, end, outDesc(o))
		}
	})
}

// checkCursor: the cursor's node and its path move together.
func (r *pathRule) checkCursor() {
	c := r.c
	ct := c.ptr("Cursor")
	h := hooks(atoms("Path.Append", "Path.RemoveLast", "Path.Last", "PathFromNode", "Path.AppendPath"), r.hook())
	run := func(name string, f func(con string, e *Eng, o Outcome, as []*Term, node, path *Term, fn *ssa.Function)) {
		c.guard(r.rule, name, func() {
			fn := c.fn(name)
			var as []*Term
			var node, path *Term
			e, outs := c.run(fn, h, func(e *Eng, st *State, args []*Term) {
				as = args
				st.nn[args[0]] = true
				node, path = st.get(args[0], ct, "node"), st.get(args[0], ct, "path")
				st.nn[path] = true
			})
			for _, o := range outs {
				f(name, e, o, as, node, path, fn)
			}
		})
	}
	after := func(o Outcome, p *Term) (node, path *Term) {
		return o.st.canon(o.st.get(p, ct, "node")), o.st.canon(o.st.get(p, ct, "path"))
	}
	only := func(con string, o Outcome, p *Term) {
		for _, x := range flat(o.st) {
			if x.kind == EvStore && x.args[0].root().op != OpNew {
				a := x.args[0]
				c.ob(r.rule, con+" changes", a.op == OpField && a.args[0] == p, x.pos, "changes %v", a)
			}
		}
		c.pass(r.rule, con+" changes")
	}
	calls := func(o Outcome, names ...string) (out []Ev) {
		for _, x := range flat(o.st) {
			if x.isCall(names...) {
				out = append(out, x)
			}
		}
		return
	}
	run("Cursor.Set", func(con string, e *Eng, o Outcome, as []*Term, node, path *Term, fn *ssa.Function) {
		if !r.noPanic(con, o) {
			return
		}
		n, p := after(o, as[0])
		only(con, o, as[0])
		c.ob(r.rule, con, n == as[1] && p == o.st.canon(path), fn.Pos(), "the cursor is not set to the node")
	})
	run("Cursor.StartPath", func(con string, e *Eng, o Outcome, as []*Term, node, path *Term, fn *ssa.Function) {
		if !r.noPanic(con, o) {
			return
		}
		n, p := after(o, as[0])
		cl := o.st.callOf(p)
		only(con, o, as[0])
		c.ob(r.rule, con, cl != nil && cl.name == "PathFromNode" && o.st.canon(cl.args[0]) == o.st.canon(node) && n == o.st.canon(node), fn.Pos(), "the path does not start at the cursor's node")
	})
	run("Cursor.GetPath", func(con string, e *Eng, o Outcome, as []*Term, node, path *Term, fn *ssa.Function) {
		if !r.noPanic(con, o) {
			return
		}
		only(con, o, nil)
		c.ob(r.rule, con, o.st.canon(o.ret[0]) == o.st.canon(path), fn.Pos(), "gives %v", o.ret[0])
	})
	run("Cursor.PushToPath", func(con string, e *Eng, o Outcome, as []*Term, node, path *Term, fn *ssa.Function) {
		if !r.noPanic(con, o) {
			return
		}
		n, p := after(o, as[0])
		only(con, o, as[0])
		cs := calls(o, "Path.Append", "Path.RemoveLast", "Path.AppendPath")
		ok := len(cs) == 1 && cs[0].name == "Path.Append" && len(cs[0].path) == 0 && cs[0].args[0] == o.st.canon(path)
		if ok {
			v := &vpath{c: c, e: e}
			els := variadic(e, o.st, cs[0].args[1:])
			ok = len(els) == 1
			if ok {
				ed, rev := v.pathElem(o.st, els[0])
				b, k := o.st.evalBool(rev)
				ok = ed == as[1] && k && !b
			}
		}
		c.ob(r.rule, con+" path", ok, fn.Pos(), "the edge is not appended to the cursor's path in its own direction")
		if ok {
			// the path may be replaced by what Append gives: the same path
			pc := o.st.callOf(p)
			c.ob(r.rule, con+" keeps", p == o.st.canon(path) || pc != nil && pc.name == "Path.Append", fn.Pos(), "the cursor gets another path")
		}
		to := o.st.canon(o.st.get(as[1], c.typ("Edge"), "to"))
		lc := o.st.callOf(n)
		moved := n == to || lc != nil && lc.name == "Path.Last" && len(cs) == 1 && lcAfter(o, lc, cs[0])
		c.ob(r.rule, con+" moves", moved, fn.Pos(), "the cursor does not move to the end of the edge")
	})
	run("Cursor.PopFromPath", func(con string, e *Eng, o Outcome, as []*Term, node, path *Term, fn *ssa.Function) {
		if !r.noPanic(con, o) {
			return
		}
		n, p := after(o, as[0])
		only(con, o, as[0])
		cs := calls(o, "Path.Append", "Path.RemoveLast", "Path.AppendPath")
		if !c.ob(r.rule, con+" path", len(cs) == 1 && cs[0].name == "Path.RemoveLast" && len(cs[0].path) == 0 && cs[0].args[0] == o.st.canon(path), fn.Pos(), "the last edge is not removed from the cursor's path") {
			return
		}
		pc := o.st.callOf(p)
		c.ob(r.rule, con+" keeps", p == o.st.canon(path) || pc != nil && pc.name == "Path.RemoveLast", fn.Pos(), "the cursor gets another path")
		// where the path ends now
		var last *Term
		for _, x := range calls(o, "Path.Last") {
			a0 := x.args[0]
			if y := o.st.callOf(a0); y != nil && y.name == "Path.RemoveLast" {
				a0 = o.st.canon(path)
			}
			if a0 == o.st.canon(path) && lcAfter(o, x.Event, cs[0]) {
				last = o.st.canon(x.res)
				if o.st.sameAs(e, last, e.tt.Nil()) {
					c.ob(r.rule, con+" moves", n == o.st.canon(node), fn.Pos(), "the cursor moves though the path is empty")
					return
				}
				if n == last {
					break
				}
			}
		}
		c.ob(r.rule, con+" moves", last != nil && n == last, fn.Pos(), "the cursor does not move back to where the path ends: %s", outDesc(o))
	})
}

// lcAfter: event a comes after event b at the top level.
func lcAfter(o Outcome, a *Event, b Ev) bool {
	ai, bi := -1, -1
	for i, ev := range o.st.tr.list() {
		if ev == a {
			ai = i
		}
		if ev == b.Event {
			bi = i
		}
	}
	return ai > bi && bi >= 0
}

var pathOps = []string{"Path.First", "Path.Last", "Path.NumEdges", "Path.NumNodes", "Path.IsEmpty", "Path.GetEdge", "Path.GetNode", "Path.HasPrefix", "Path.HasPrefixPath", "Path.String", "PathFromNode", "NewPathFromElements", "NewPathElementsFromEdges", "Path.Clone", "Path.Slice", "Path.RemoveLast", "Path.RemoveFirst", "Path.Clear", "Path.SetOnlyNode", "Path.Append", "Path.AppendPath"}

// checkPathStores: outside the operations, a list of elements is stored in a
// path, or changed, only while it is being made.
func (r *pathRule) checkPathStores() {
	c := r.c
	covered := map[*ssa.Function]bool{}
	for _, n := range pathOps {
		if f := c.w.fn(n); f != nil {
			covered[f] = true
		}
	}
	// helpers called only from the operations are analysed with them
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range c.w.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						if callers[g] == nil {
							callers[g] = map[*ssa.Function]bool{}
						}
						callers[g][f] = true
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					if callers[g] == nil {
						callers[g] = map[*ssa.Function]bool{}
					}
					callers[g][f] = true
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for f, cs := range callers {
			if covered[f] || len(cs) == 0 || f.Object() != nil && f.Object().Exported() {
				continue
			}
			all := true
			for g := range cs {
				if !covered[g] {
					all = false
				}
			}
			if all {
				covered[f] = true
				ch = true
			}
		}
	}
	n := 0
	for _, f := range c.w.all {
		if covered[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				con := fnName(f)
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && isPathField(fa, "path") {
					n++
					c.ob(r.rule, con+" path storage", ownSlice(s.Val, fa, map[ssa.Value]bool{}), s.Pos(), "a path gets a list of elements that may be shared")
				}
				if t, ok := s.Val.Type().(*types.Named); ok && typeName(t) == "Path" {
					if _, isC := s.Val.(*ssa.Const); !isC {
						c.fail(r.rule, con+" path copy", s.Pos(), "a path is copied without its elements")
					}
				}
				// elements of a path
				if el := elementOf(s.Addr); el != nil {
					n++
					c.ob(r.rule, con+" element", madeHere(el, map[ssa.Value]bool{}), s.Pos(), "an element of a path is overwritten")
				}
			}
		}
	}
	c.pass(r.rule, "path stores outside the operations")
}

func isPathField(fa *ssa.FieldAddr, name string) bool {
	p, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok || typeName(p.Elem()) != "Path" {
		return false
	}
	s := structOf(p.Elem())
	return s != nil && fieldName(s.Field(fa.Field)) == name
}

// elementOf: the slice of path elements an address points into.
func elementOf(a ssa.Value) ssa.Value {
	if fa, ok := a.(*ssa.FieldAddr); ok {
		a = fa.X
	}
	ia, ok := a.(*ssa.IndexAddr)
	if !ok {
		return nil
	}
	if s, ok := ia.X.Type().Underlying().(*types.Slice); ok && typeName(s.Elem()) == "PathElement" {
		return ia.X
	}
	return nil
}

// ownSlice: the slice is new, or the path's own one made longer or shorter.
func ownSlice(v ssa.Value, fa *ssa.FieldAddr, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeSlice:
		return true
	case *ssa.Slice:
		if a, ok := x.X.(*ssa.Alloc); ok {
			_ = a
			return true
		}
		return ownSlice(x.X, fa, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !ownSlice(e, fa, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return ownSlice(x.Call.Args[0], fa, seen)
		}
		if f := x.Call.StaticCallee(); f != nil {
			if strings.HasPrefix(fnName(f), "slices.Clone") {
				return true
			}
			// a function of the package that gives a new slice
			ok, n := true, 0
			for _, b := range f.Blocks {
				if r, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isR && len(r.Results) == 1 {
					n++
					if !ownSlice(r.Results[0], nil, seen) {
						ok = false
					}
				}
			}
			return ok && n > 0
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		if g, ok := x.X.(*ssa.FieldAddr); ok && fa != nil {
			return g.X == fa.X && g.Field == fa.Field
		}
	}
	return false
}

// madeHere: the slice was made in this function.
func madeHere(v ssa.Value, seen map[ssa.Value]bool) bool {
	if ownSlice(v, nil, map[ssa.Value]bool{}) {
		return true
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok && isPathField(fa, "path") {
			_, ok := fa.X.(*ssa.Alloc)
			return ok
		}
	}
	return false
}

func init() {
	reg("C26", "abstract interpretation of every path operation for each shape of the paths involved: content and storage of the result, what is written, connectivity facts on every non-panicking path; who-may-store rule for lists of path elements", 80, func(c *Ctx) {
		c.checkPaths("paths")
	})
}
