package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The pattern search is a list of steps, one for each pattern item. The plan
// is analysed with the constructors of the steps inlined; every step object
// made for an item is then run in the state it was made in, and what the step
// hands on to the next one is compared with what the item asks for.

type search struct {
	c     *Ctx
	rule  string
	want  map[string]bool
	e     *Eng
	pat   *Term
	itemT types.Type
	stepI *types.Interface
	stepT types.Type
	sites []*site
	snaps []*snapshot
	exps  []*expansion
	busy  map[*Term]bool
	// what the plan may be made of, and the checks of that
	leaves map[*Term]bool
	madeOf []func()
	// the error that ended a search for paths
	expErr map[*Event]*Term
	base   Hook
	ctxT   types.Type // *MatchContext
	ctx    *Term
	next   *Term
	cur    *stepRun
	slots  map[*Term]bool
	n      int
}

// site: a step made for an item.
type site struct {
	void  bool  // cannot happen
	obj   *Term // the step, as an interface value
	st    *State
	idx   *Term
	loop  *Loop
	seg   *Seg
	base  *Term // what it was appended to
	res   *Term
	pos   token.Pos
	dir   int // +1 forward, -1 backward, 0 the first step
	node  bool
	start *site
}

type snapshot struct {
	st  *State
	pos token.Pos
	ok  *Term // the result of the call
}

// expansion: a call that looks for the paths of a variable length edge.
type expansion struct {
	st   *State
	args []*Term
	pos  token.Pos
}

type stepRun struct {
	s     *site
	kase  string
	vpn   *Term
	entry *State
	err   *Term
	vers  map[*Term]*MapH
	maps  map[string]*Term
	set   *Term
	other *Term // the set of the other kind of the variable
	con   string
}

func (p *search) ob(cat, con string, ok bool, pos token.Pos, f string, a ...interface{}) bool {
	if p.want[cat] {
		return p.c.ob(p.rule+" "+cat, con, ok, pos, f, a...)
	}
	return ok
}

// methodOf finds a method of a concrete type by name.
func (w *World) methodOf(t types.Type, name string) *ssa.Function {
	ms := w.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return w.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (p *search) callMethod(st *State, v *Term, name string, args ...*Term) []Outcome {
	v = st.canon(v)
	if v.op != OpIface {
		panic(anchorErr(name + " of an unknown value " + v.String()))
	}
	f := p.c.w.methodOf(v.typ, name)
	if f == nil {
		panic(anchorErr(typeKey(v.typ) + " has no method " + name))
	}
	s := st.clone()
	s.frames = nil
	outs := p.e.call(f, append([]*Term{v.args[0]}, args...), nil, s, "m:"+name)
	p.c.account(p.e, nil)
	if p.e.over {
		panic(anchorErr("analysis budget exceeded in " + fnName(f)))
	}
	var live []Outcome
	for _, o := range outs {
		if !o.st.dead {
			live = append(live, o)
		}
	}
	if len(live) == 0 {
		panic(anchorErr("no outcome of " + fnName(f)))
	}
	return live
}

// itemIndex gives the index of the pattern item a value is a copy of.
func (p *search) itemIndex(st *State, v *Term) *Term {
	var x *Term
	anywhere(st.canon(v), func(t *Term) bool {
		if t.op == OpElem && t.args[0] == p.pat {
			x = t.args[1]
		}
		return x != nil
	})
	if x == nil {
		return nil
	}
	whole := st.clone()
	a := whole.load(p.e.tt.Elem(p.pat, x, p.itemT), p.itemT)
	if whole.canon(a) != st.canon(v) {
		return nil
	}
	return st.canon(x)
}

func (p *search) item(st *State, x *Term, f string) *Term {
	return st.canon(st.get(p.e.tt.Elem(p.pat, x, p.itemT), types.NewPointer(p.itemT), f))
}

func (c *Ctx) newSearch(rule string, cats ...string) *search {
	p := &search{c: c, rule: rule, want: map[string]bool{}, slots: map[*Term]bool{}, leaves: map[*Term]bool{}}
	for _, k := range cats {
		p.want[k] = true
	}
	p.itemT = c.typ("PatternItem")
	p.ctxT = types.NewPointer(c.typ("MatchContext"))
	return p
}

// plan analyses GetPlan.
func (p *search) plan() {
	c := p.c
	fn := c.fn("Pattern.GetPlan")
	c.assuming("a step that returns without an error has restored the variables of the context (checked for every step), and the results of earlier steps do not change while a later one runs")
	p.base = hooks(c.itrOpaque(), atoms("Pattern.getFastestElement", "GetNodeFilterFunc", "GetEdgeFilterFunc", "NodeSet.Has", "EdgeSet.Has", "CollectAllPaths", "Path.Last", "Path.First", "Path.GetNode", "Node.GetEdgesWithAnyLabel", "Node.GetEdges", "makeUniqueIterator",
		"PatternSymbol.Add", "PatternSymbol.AddNode", "PatternSymbol.AddPath"), stdModel)
	p.base = hooks(p.stepHook, p.base)
	e, args, outs := c.runA(fn, p.base)
	p.e, p.pat = e, args[0]
	planT := c.typ("MatchPlan")
	stepsT := fieldType(planT, "steps")
	p.stepT = stepsT.Underlying().(*types.Slice).Elem()
	p.stepI = p.stepT.Underlying().(*types.Interface)
	for _, o := range outs {
		if o.panic {
			continue // C31
		}
		if len(o.ret) == 2 && !o.st.canon(o.ret[1]).isNil() {
			continue
		}
		p.planOutcome(o, fn.Pos())
	}
	for _, f := range p.madeOf {
		f()
	}
	p.ob("plan", "GetPlan", len(p.sites) > 0, fn.Pos(), "no step is made for any pattern item")
}

func (p *search) appended(evs []*Event, st *State) (out []*site) {
	for _, x := range line(evs, st) {
		if x.kind != EvCall || x.name != "append" || len(x.args) < 2 {
			continue
		}
		sl, ok := x.args[0].typ.(types.Type)
		_ = sl
		_ = ok
		steps := 0
		for _, a := range x.args[1:] {
			if a.op == OpIface && types.Implements(a.typ, p.stepI) {
				steps++
			}
		}
		if steps == 0 {
			continue
		}
		if steps != 1 || len(x.args) != 2 {
			panic(anchorErr("several steps are added at once"))
		}
		out = append(out, &site{obj: x.args[1], st: st, base: x.args[0], res: x.res, pos: x.pos})
	}
	return
}

// loopVar finds what a term is at the start and at the end of an iteration:
// a loop variable or a memory cell.
func loopVar(L *Loop, sg *Seg, t *Term) (init, next *Term, ok bool) {
	for ph, v := range sg.hdr {
		if v == t && L.init[ph] != nil {
			return L.init[ph], sg.next[ph], true
		}
	}
	h := L.hdr[sg.from]
	if h == nil {
		return nil, nil, false
	}
	for k, v := range h.mem {
		if v == t {
			if nv, ok := sg.st.mem[k]; ok {
				i0, ok2 := L.start.mem[k]
				if !ok2 {
					i0 = L.start.load(k, elemType(k))
				}
				return L.start.canon(i0), sg.st.canon(nv), true
			}
		}
	}
	return nil, nil, false
}

func (p *search) planOutcome(o Outcome, pos token.Pos) {
	c, e := p.c, p.e
	con := "GetPlan"
	evs := o.st.tr.list()
	var start *site
	var fastest *Term
	plan := o.st.canon(o.ret[0])
	planFld := func(f string) *Term {
		s := structOf(c.typ("MatchPlan"))
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == f {
				return o.st.canon(e.fieldOf(plan, i, f, s.Field(i).Type()))
			}
		}
		panic(anchorErr("MatchPlan has no field " + f))
	}
	resolve := func(s *site) {
		s.obj = s.st.canon(s.obj)
		outs := p.callMethod(s.st, s.obj, "GetPatternItem")
		for _, r := range outs {
			if r.panic {
				panic(anchorErr("GetPatternItem may panic"))
			}
			s.idx = p.itemIndex(r.st, r.ret[0])
		}
		if s.idx == nil {
			panic(anchorErr("the pattern item of " + s.obj.String() + " is not known"))
		}
	}
	for _, s := range p.appended(evs, o.st) {
		if start != nil {
			p.ob("plan", con+" steps", false, s.pos, "more than one step does not follow from a neighbouring one")
			return
		}
		start = s
	}
	if !p.ob("plan", con+" start", start != nil, pos, "no step is made for the item the search starts from") {
		return
	}
	p.leaves[start.res] = true
	for _, ev := range evs {
		if ev.kind == EvCall && ev.name == "Pattern.getFastestElement" {
			fastest = ev.res
		}
	}
	if fastest == nil || fastest.op != OpTuple {
		panic(anchorErr("the item the search starts from is not known"))
	}
	fIdx := o.st.canon(fastest.args[1])
	fItr := o.st.canon(fastest.args[0])
	// the state the first step was made in
	for _, ev := range evs {
		if ev.kind == EvLoop {
			start.st = ev.loop.start.clone()
			start.st.tr = nil
			break
		}
	}
	resolve(start)
	p.ob("plan", con+" start", start.idx == fIdx, start.pos, "the first step is not for the item the search starts from")
	even, known := p.parity(o.st, fIdx)
	if !known {
		panic(anchorErr("whether the search starts from a node or an edge is not known"))
	}
	start.node = even
	_ = fItr
	p.sites = append(p.sites, start)
	found := map[int]bool{}
	ln := e.tt.App("len", types.Typ[types.Int], p.pat)
	counted := false
	nF := planFld("nForward")
	for i, ev := range evs {
		if ev.kind != EvLoop {
			continue
		}
		L := ev.loop
		var mine []*site
		per := map[*Seg]int{}
		for _, sg := range L.segs {
			for _, s := range p.appended(sg.events, sg.st) {
				s.loop, s.seg = L, sg
				s.st = sg.st.clone()
				s.st.tr = nil
				resolve(s)
				per[sg]++
				mine = append(mine, s)
				p.leaves[s.res] = true
			}
		}
		if len(mine) == 0 {
			continue
		}
		ok := true
		for _, sg := range L.segs {
			if per[sg] != 1 {
				ok = false
			}
		}
		if !p.ob("plan", con+" every item", ok, ev.pos, "an iteration does not add exactly one step") {
			return
		}
		dir := 0
		for _, s := range mine {
			// the index is a loop variable plus a constant
			b, off := s.st.affine(s.idx)
			var d int
			for ph, h := range s.seg.hdr {
				hb, ho := s.st.affine(h)
				if hb != b || hb == nil {
					continue
				}
				nb, no := s.st.affine(s.seg.next[ph])
				ib, io := s.st.affine(L.init[ph])
				fb, fo := s.st.affine(fIdx)
				if nb != hb || ib != fb {
					continue
				}
				step := no - ho
				first := io + off - ho - fo
				if step == 1 && first == 1 {
					d = 1
				} else if step == -1 && first == -1 {
					d = -1
				}
			}
			if d == 0 || dir != 0 && d != dir {
				p.ob("plan", con+" order", false, s.pos, "the items are not visited one after the other from the one the search starts with")
				return
			}
			dir = d
			s.dir, s.start = d, start
			even, known := p.parity(s.st, s.idx)
			if !known {
				panic(anchorErr("whether an item is a node or an edge is not known"))
			}
			s.node = even
			if fb, fo := s.st.affine(fIdx); fb == b && ((off-fo)%2 == 0) != (even == start.node) {
				s.void = true // nodes and edges alternate
				continue
			} else if un, k := s.st.evalBool(p.item(s.st, fIdx, "Undirected")); fb == b && even && (off-fo == 1 || off-fo == -1) && k && un {
				s.void = true // the search does not start with an undirected edge (see estimateEdgeSize)
				continue
			}
			// it becomes part of the plan
			_, nx, okv := loopVar(L, s.seg, s.base)
			p.ob("plan", con+" steps", okv && s.st.canon(nx) == s.st.canon(s.res), s.pos, "a step does not stay part of the plan")
			// the number of forward steps
			d0, i0 := p.counter(L, s.seg, nF, o.st)
			idle := ev.key == L.entry // left without an iteration
			for _, sg := range L.segs {
				idle = idle && sg.to != L.entry
			}
			if idle {
				k, isC := nF.constInt()
				d0, i0 = nil, nil
				if dir < 0 || isC && k == 0 {
					d := int64(0)
					if dir > 0 {
						d, i0 = 1, nF
					}
					d0 = &d
				}
			}
			ok := d0 != nil && (dir > 0 && *d0 == 1 && i0 != nil || dir < 0 && *d0 == 0)
			if dir > 0 && i0 != nil {
				k, isC := i0.constInt()
				ok = ok && isC && k == 0
			}
			if b, off := o.st.affine(nF); app(b, "len") && off == -1 {
				// one less than the steps there are after going forward
				if dir > 0 {
					_, nx, okv := loopVar(L, s.seg, b.args[0])
					counted = okv && s.st.canon(nx) == s.st.canon(s.res)
				}
				ok = counted
			}
			for _, t := range []*Term{e.add(e.sub(ln, fIdx), e.tt.Int(-1)), e.sub(e.add(ln, e.tt.Int(-1)), fIdx), e.sub(ln, e.add(fIdx, e.tt.Int(1)))} {
				ok = ok || nF == o.st.canon(t)
			}
			p.ob("path", con+" forward steps", ok, s.pos, "the number of forward steps is not kept")
		}
		p.ob("plan", con+" order", !found[dir] && (dir > 0 || found[1]), ev.pos, "the steps are not those after the first one, then those before it")
		found[dir] = true
		// it ends at the end of the pattern
		s := mine[0]
		b, off := s.st.affine(s.idx)
		at := e.add(b, e.tt.Int(off))
		z := o.st.zoneOf(func(z *zone) { z.le(e.tt.Int(0), ln, 0) })
		done := false
		if dir > 0 {
			if v, k := o.st.evalBool(o.st.canon(e.tt.lt(at, ln))); k && !v {
				done = true
			}
			done = done || z.holds(ln, at, 0)
		} else {
			if v, k := o.st.evalBool(o.st.canon(e.tt.lt(at, e.tt.Int(0)))); k && v {
				done = true
			}
			done = done || z.holds(at, e.tt.Int(-1), 0)
		}
		if !done {
			done = p.exits(evs, i, o.st, dir, at, ln)
		}
		for _, q := range mine[1:] {
			if done {
				break
			}
			// the index of a later iteration
			b, off := q.st.affine(q.idx)
			at := e.add(b, e.tt.Int(off))
			if v, k := o.st.evalBool(o.st.canon(e.tt.lt(at, ln))); dir > 0 {
				done = k && !v || z.holds(ln, at, 0)
			} else if v, k := o.st.evalBool(o.st.canon(e.tt.lt(at, e.tt.Int(0)))); true {
				done = k && v || z.holds(at, e.tt.Int(-1), 0)
			}
			done = done || p.exits(evs, i, o.st, dir, at, ln)
		}
		p.ob("plan", con+" every item", done, ev.pos, "items may be left out of the plan")
		for _, s := range mine {
			if !s.void {
				p.sites = append(p.sites, s)
			}
		}
	}
	p.ob("plan", con+" every item", found[1] && found[-1], pos, "items before or after the first one are left out")
	p.madeOf = append(p.madeOf, func() {
		objs := map[*Term]bool{}
		for _, q := range p.sites {
			objs[q.obj] = true
		}
		for _, l := range e.provLeaves(planFld("steps")) {
			l = o.st.canon(l)
			ok := app(l, "append") || p.leaves[l]
			for app(l, "append") && ok {
				ok = len(l.args) == 2 && objs[o.st.canon(l.args[1])]
				l = o.st.canon(l.args[0])
				if isPhi(l) {
					break
				}
			}
			p.ob("plan", con+" steps", ok, pos, "the plan is not made of the steps for the items: %v", l)
		}
	})
}

// exits: the loop is left only at the end of the pattern.
func (p *search) exits(evs []*Event, i int, st *State, dir int, at, ln *Term) bool {
	for _, ev := range evs[i+1:] {
		if ev.kind != EvAssume {
			return false
		}
		a := ev.args[0]
		if !app(a, "lt") {
			return false
		}
		x, xo := st.affine(a.args[0])
		y, yo := st.affine(a.args[1])
		ab, ao := st.affine(at)
		if dir > 0 {
			lb, _ := st.affine(ln)
			return !ev.truth && x == ab && y == lb && xo-ao == yo
		}
		if ev.truth {
			return x == ab && y == nil && xo-ao >= yo
		}
		return y == ab && x == nil && -1-xo+yo-ao <= 0 && xo == yo-ao-1
	}
	return false
}

// parity: whether an index is even.
func (p *search) parity(st *State, x *Term) (even, known bool) {
	tt := p.e.tt
	for _, m := range []*Term{tt.App("op%", types.Typ[types.Int], x, tt.Int(2)), tt.App("op&", types.Typ[types.Int], x, tt.Int(1)), tt.App("op&", types.Typ[types.Int], tt.Int(1), x)} {
		if b, k := st.evalBool(st.canon(tt.eq(tt.Int(0), m))); k {
			return b, true
		}
		if b, k := st.evalBool(st.canon(tt.eq(tt.Int(1), m))); k {
			return !b, true
		}
	}
	return false, false
}

// loopVarIn: what the variable that has this value in some iteration is before
// and after another one.
func loopVarIn(L *Loop, sg *Seg, t *Term) (init, cur, next *Term, ok bool) {
	for _, o := range L.segs {
		for ph, v := range o.hdr {
			if v == t && L.init[ph] != nil {
				return L.init[ph], sg.hdr[ph], sg.next[ph], true
			}
		}
		h, mine := L.hdr[o.from], L.hdr[sg.from]
		if h == nil || mine == nil {
			continue
		}
		for k, v := range h.mem {
			nv, ok := sg.st.mem[k]
			if v != t || !ok {
				continue
			}
			load := func(s *State) *Term {
				if x, ok := s.mem[k]; ok {
					return s.canon(x)
				}
				return s.canon(s.load(k, elemType(k)))
			}
			if i0 := load(L.start.clone()); i0 != t {
				return i0, load(mine.clone()), sg.st.canon(nv), true
			}
		}
	}
	return nil, nil, nil, false
}

// counter: how much a counter grows in an iteration, and where it starts.
func (p *search) counter(L *Loop, sg *Seg, final *Term, st *State) (*int64, *Term) {
	seen := map[*Term]bool{}
	var try func(fin *Term) (*int64, *Term)
	try = func(fin *Term) (*int64, *Term) {
		if fin == nil || seen[fin] {
			return nil, nil
		}
		seen[fin] = true
		if ini, cur, nx, ok := loopVarIn(L, sg, fin); ok {
			nb, no := sg.st.affine(nx)
			cb, co := sg.st.affine(cur)
			if nb == cb {
				no -= co
				return &no, ini
			}
			return nil, nil
		}
		for x := range p.e.tt.prov[fin] {
			b, _ := st.affine(x)
			if d, i := try(b); d != nil {
				return d, i
			}
		}
		return nil, nil
	}
	fin, _ := st.affine(final)
	if d, i := try(fin); d != nil {
		return d, i
	}
	// not changed by this loop
	zero := int64(0)
	for _, h := range L.hdr {
		for k := range h.mem {
			if h.mem[k] == fin && L.start.mem[k] != fin {
				return nil, nil
			}
		}
	}
	return &zero, nil
}

// itemOf resolves a step value used by the step of a site to the index of its
// item.
func (p *search) itemOf(s *site, t *Term) *Term {
	e := p.e
	for _, q := range p.sites {
		if q.obj == t && q.loop == nil {
			return q.idx
		}
	}
	if t.op == OpInit && t.args[0].op == OpElem && t.args[0].args[0].op == OpNew {
		slots := t.args[0].args[0]
		if p.tableOK(slots) {
			return s.st.canon(t.args[0].args[1])
		}
		return nil
	}
	if s.loop == nil || p.busy[t] {
		return nil
	}
	init, _, ok := loopVar(s.loop, s.seg, t)
	if !ok {
		return nil
	}
	if p.busy == nil {
		p.busy = map[*Term]bool{}
	}
	p.busy[t] = true
	defer delete(p.busy, t)
	// the item of the value at the end of an iteration, counted from that of
	// the step made in it
	var dist *int64
	for _, q := range p.sites {
		if q.loop != s.loop {
			continue
		}
		var v *Term
		for ph, h := range s.seg.hdr {
			if h == t {
				v = q.seg.next[ph]
			}
		}
		if v == nil {
			if _, n2, ok := loopVar(q.loop, q.seg, t); ok {
				v = n2
			}
		}
		if v == nil {
			return nil
		}
		v = q.st.canon(v)
		d := int64(0)
		if v != q.obj {
			i := p.itemOf(q, v)
			if i == nil {
				return nil
			}
			ib, io := q.st.affine(i)
			xb, xo := q.st.affine(q.idx)
			if ib != xb {
				return nil
			}
			d = io - xo
		}
		if dist != nil && *dist != d {
			return nil
		}
		dist = &d
	}
	if dist == nil {
		return nil
	}
	ini := s.loop.start.canon(init)
	ok = ini.isNil()
	for _, q := range p.sites {
		ok = ok || q.loop == nil && q.obj == ini && *dist == 0
	}
	if !ok {
		return nil
	}
	return s.st.canon(e.add(s.idx, e.tt.Int(*dist-int64(s.dir))))
}

// tableOK: the slice holds at every index the step for the item of that index.
func (p *search) tableOK(slots *Term) bool {
	if v, ok := p.slots[slots]; ok {
		return v
	}
	ok, some := true, false
	for _, q := range p.sites {
		if q.st.mem == nil {
			continue
		}
		has := false
		for k, v := range q.st.mem {
			if k.op == OpElem && k.args[0] == slots {
				has = true
				v = q.st.canon(v)
				i := q.st.canon(k.args[1])
				if v == q.obj && i != q.idx {
					ok = false
				}
				if v == q.obj && i == q.idx {
					some = true
				}
			}
		}
		if has {
			good := false
			if v, ok := q.st.mem[p.e.tt.Elem(slots, q.idx, p.stepT)]; ok && q.st.canon(v) == q.obj {
				good = true
			}
			ok = ok && good
		}
	}
	// no other stores
	p.slots[slots] = ok && some
	return ok && some
}

// stepHook handles calls of other steps.
func (p *search) stepHook(e *Eng, st *State, ci *CallInfo) ([]CallRes, bool) {
	if p.cur != nil && ci.fn != nil && ci.name == "CollectAllPaths" {
		p.exps = append(p.exps, &expansion{st: st.clone(), args: ci.args, pos: ci.pos})
		return p.expanded(st, ci), true
	}
	if p.cur == nil || len(ci.args) == 0 {
		return nil, false
	}
	recv := st.canon(ci.args[0])
	if !ci.invoke && ci.fn != nil && ci.fn.Signature.Recv() != nil && ci.fn.Name() == "GetResult" && recv != p.cur.s.obj.args[0] {
		// another step, whose kind is known here
		for _, q := range p.sites {
			if q.obj.op == OpIface && q.obj.args[0] == recv {
				r := e.tt.App("result", ci.typ, q.obj)
				st.event(&Event{kind: EvCall, name: "GetResult", args: []*Term{q.obj}, res: r, pos: ci.pos, invoke: true})
				st.nn[r] = true
				return []CallRes{{st: st, val: r}}, true
			}
		}
	}
	if !ci.invoke {
		return nil, false
	}
	switch ci.name {
	case "GetResult":
		r := e.tt.App("result", ci.typ, recv)
		st.event(&Event{kind: EvCall, name: ci.name, args: ci.args, res: r, pos: ci.pos, invoke: true})
		st.nn[r] = true
		return []CallRes{{st: st, val: r}}, true
	case "Run":
		if recv != p.next {
			return nil, false
		}
		sn := &snapshot{st: st.clone(), pos: ci.pos}
		p.snaps = append(p.snaps, sn)
		if len(ci.args) != 2 || st.canon(ci.args[1]) != p.ctx {
			panic(anchorErr("the next step is run in another context"))
		}
		r := e.opaque0(st, ci)
		sn.ok = r[0].val
		return r, true
	}
	return nil, false
}

// expanded: the states after the paths were gone through: all were, or what is
// done for one of them failed.
func (p *search) expanded(st *State, ci *CallInfo) []CallRes {
	c, e := p.c, p.e
	f := st.canon(ci.args[len(ci.args)-1])
	if f.op != OpClos && f.op != OpFunc {
		return e.opaque0(st, ci)
	}
	path := e.tt.Param("one", f.fn.Params[len(f.fn.Params)-1].Type())
	s := st.clone()
	s.nn[path] = true
	snaps := p.snaps
	outs := c.runClos(e, s, f, path)
	p.snaps = snaps
	good := e.opaque0(st.clone(), ci)
	res := good[0].st.tr.ev.res
	var out []CallRes
	changed := map[*Term]bool{}
	var bads []CallRes
	for _, o := range outs {
		if o.panic {
			continue
		}
		var err *Term
		for _, y := range flat(o.st) {
			if p.isNext(y) {
				err = y.res
			}
		}
		bad := err != nil && p.failed(o.st, err)
		b := st.clone()
		for k, v := range o.st.mem {
			v = o.st.canon(v)
			old := st.mem[k]
			if r := k.root(); r.op == OpNew && !st.fresh[r] && st.mem[k] == nil {
				continue // made while the path was handled
			}
			if old != nil && st.canon(old) == v || o.st.yes(e.tt.eq(v, e.tt.Nil())) && old != nil && st.yes(e.tt.eq(st.canon(old), e.tt.Nil())) {
				continue
			}
			if bad {
				b.store(k, v, cellType(k, v))
			} else {
				changed[k] = true
			}
		}
		if bad {
			b.assume(b.canon(e.tt.eq(err, e.tt.Nil())), false)
			ev := &Event{kind: EvCall, name: ci.name, fn: ci.fn, args: ci.args, res: res, pos: ci.pos}
			b.event(ev)
			p.expErr[ev] = err
			bads = append(bads, CallRes{st: b, val: good[0].val})
		}
	}
	for _, g := range good {
		for k := range changed {
			t := cellType(k, g.st.mem[k])
			g.st.store(k, e.tt.Unk("left."+k.name, t), t)
		}
		out = append(out, g)
	}
	return append(out, bads...)
}

// cellType: the type of what is stored in a cell.
func cellType(k, v *Term) types.Type {
	if v != nil && v.op == OpIface {
		return types.Universe.Lookup("error").Type()
	}
	if v != nil && v.typ != nil {
		return v.typ
	}
	if pt, ok := k.typ.Underlying().(*types.Pointer); ok && k.op == OpNew {
		return pt.Elem()
	}
	return k.typ
}

var patternCases = []string{"no name", "given variable", "bound variable", "new variable"}

// steps runs all steps.
func (p *search) steps() {
	seen := map[string]bool{}
	for _, s := range p.sites {
		k := p.siteKey(s)
		if seen[k] {
			continue
		}
		seen[k] = true
		for _, kase := range patternCases {
			vpns := []bool{false}
			if s.node && s.dir != 0 && p.vpnField() != "" {
				vpns = append(vpns, true)
			}
			for _, v := range vpns {
				con := p.conOf(s)
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(anchorErr); ok && false {
								panic(r)
							}
							panic(fmt.Sprintf("%s (%s): %v", con, kase, r))
						}
					}()
					p.runStep(s, kase, v, con)
				}()
			}
		}
	}
}

func (p *search) conOf(s *site) string {
	what := "edge"
	if s.node {
		what = "node"
	}
	switch s.dir {
	case 0:
		return "first " + what
	case 1:
		return what + " forward"
	}
	return what + " backward"
}

func (p *search) siteKey(s *site) string {
	var ks []string
	x := s.obj.args[0]
	for k, v := range s.st.mem {
		if k.root() == x {
			ks = append(ks, k.path(0)+"="+fmt.Sprint(s.st.canon(v).id))
		}
	}
	for _, d := range []int64{-2, -1, 0, 1, 2} {
		i := p.e.add(s.idx, p.e.tt.Int(d))
		for _, f := range []string{"ToLeft", "Undirected"} {
			if b, k := s.st.evalBool(p.item(s.st, i, f)); k {
				ks = append(ks, fmt.Sprintf("%d%s=%v", d, f, b))
			}
		}
	}
	sort.Strings(ks)
	return fmt.Sprintf("%d %s", s.obj.id, strings.Join(ks, ";"))
}

// vpnField: the field of the context that hands the end of a variable length
// edge to the node step after it.
func (p *search) vpnField() string {
	s := structOf(p.ctxT)
	for i := 0; i < s.NumFields(); i++ {
		if pt, ok := s.Field(i).Type().(*types.Pointer); ok && typeName(pt) == "Node" {
			return s.Field(i).Name()
		}
	}
	return ""
}

// written: the fields of the step that its methods change.
func (p *search) written(s *site) map[*Term]types.Type {
	x := s.obj.args[0]
	out := map[*Term]types.Type{}
	f := p.c.w.methodOf(s.obj.typ, "Run")
	if f == nil {
		panic(anchorErr("a step without a Run method"))
	}
	for g := range p.c.reach(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if types.Identical(fa.X.Type(), s.obj.typ) {
					sT := structOf(fa.X.Type())
					fl := sT.Field(fa.Field)
					out[p.e.tt.Field(x, fa.Field, fieldName(fl), fl.Type())] = fl.Type()
				}
			}
		}
	}
	return out
}

func (p *search) runStep(s *site, kase string, vpn bool, con string) {
	c, e := p.c, p.e
	tt := e.tt
	p.n++
	st := s.st.clone()
	st.tr, st.frames = nil, nil
	p.ctx = tt.Param("mctx", p.ctxT)
	f := c.w.methodOf(s.obj.typ, "Run")
	if f == nil || len(f.Params) != 3 {
		panic(anchorErr("a step without a Run method"))
	}
	p.next = tt.Param("next", f.Params[2].Type())
	st.nn[p.ctx], st.nn[p.next], st.nn[s.obj.args[0]] = true, true, true
	if s.dir != 0 {
		w := p.written(s)
		for a, t := range w {
			st.store(a, tt.Unk("earlier."+a.name, t), t)
		}
	}
	r := &stepRun{s: s, kase: kase, con: con, vers: map[*Term]*MapH{}, maps: map[string]*Term{}}
	name := p.item(st, s.idx, "Name")
	empty := kase == "no name"
	st.assume(st.canon(tt.eq(e.strLen(name), tt.Int(0))), empty)
	st.assume(st.canon(tt.eq(name, tt.Str(""))), empty)
	if !empty {
		st.assume(st.canon(tt.lt(tt.Int(0), e.strLen(name))), true)
	}
	cs := structOf(p.ctxT)
	for i := 0; i < cs.NumFields(); i++ {
		fl := cs.Field(i)
		mt, ok := fl.Type().Underlying().(*types.Map)
		if !ok {
			continue
		}
		m := st.canon(st.get(p.ctx, p.ctxT, fl.Name()))
		r.maps[fl.Name()] = m
		st.assume(st.canon(tt.eq(m, tt.Nil())), false)
		if b, ok := mt.Key().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
			continue
		}
		val, has := st.mapLookup(m, name, mt.Elem())
		in := false
		switch kase {
		case "given variable":
			in = fl.Name() == "Symbols"
		case "bound variable":
			in = fl.Name() != "Symbols"
		case "no name":
			continue
		}
		st.assume(has, in)
		if in {
			val, _ = st.mapLookup(m, name, mt.Elem())
			if types.Identical(mt.Elem(), p.stepT) {
				st.assume(tt.eq(val, s.obj), false)
			} else {
				field, other := "Edges", "Nodes"
				if s.node {
					field, other = other, field
				}
				st.nn[val] = true
				r.set = st.canon(st.get(val, mt.Elem(), field))
				r.other = st.canon(st.get(val, mt.Elem(), other))
			}
		}
	}
	if r.maps["Symbols"] == nil || r.maps["LocalSymbols"] == nil {
		panic(anchorErr("the variables of a search are not found in its context"))
	}
	if vf := p.vpnField(); vf != "" {
		a := e.fld(p.ctx, p.ctxT, vf)
		nt := fieldType(p.ctxT, vf)
		if vpn {
			r.vpn = tt.Unk("pathEnd", nt)
			st.nn[r.vpn] = true
			st.store(a, r.vpn, nt)
		} else {
			st.store(a, tt.Nil(), nt)
		}
	}
	if st.dead {
		panic(anchorErr("a step cannot be run"))
	}
	r.entry = st.clone()
	for _, m := range r.maps {
		r.vers[m] = st.maps[m]
	}
	p.cur, p.snaps, p.exps, p.expErr = r, nil, nil, map[*Event]*Term{}
	defer func() { p.cur = nil }()
	outs := e.call(f, []*Term{s.obj.args[0], p.ctx, p.next}, nil, st, fmt.Sprintf("step%d", p.n))
	c.account(e, outs)
	if e.over {
		panic(anchorErr("analysis budget exceeded in " + fnName(f)))
	}
	snaps, exps := p.snaps, p.exps
	for _, sn := range snaps {
		p.handed(r, sn, nil)
	}
	for _, x := range exps {
		p.expand(r, x)
	}
	n := 0
	for _, o := range outs {
		if o.st.dead || o.panic {
			continue
		}
		n++
		p.after(r, o, f.Pos())
	}
	p.ob("satisfies", con, n > 0, f.Pos(), "the step has no outcome")
}
