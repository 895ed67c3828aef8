package main

import (
	"go/token"
	"go/types"
)

// stride recognises a loop that moves an index by one: the index is a loop
// variable plus a constant, the same in every iteration.
type stride struct {
	first *Term
	step  int64
	at    []strideAt // what the index may be where the loop is left
	ok    bool
}

// strideAt is an index t, or from-t+off.
type strideAt struct {
	t, from *Term
	off     int64
}

// term: the index.
func (a strideAt) term(st *State) *Term {
	if a.from == nil {
		return a.t
	}
	return st.canon(st.e.add(st.e.sub(a.from, a.t), st.e.tt.Int(a.off)))
}

func (e *Eng) stride(L *Loop, st *State, key func(sg *Seg) *Term) stride {
	if len(L.segs) == 0 {
		return stride{}
	}
	for ph, init := range L.init {
		if !isInt(ph.Type()) {
			continue
		}
		var off, step int64
		var from *Term
		ok := true
		seen := map[*Term]bool{}
		var vals []*Term
		for n, sg := range L.segs {
			k := key(sg)
			h, nx := sg.hdr[ph], sg.next[ph]
			if k == nil || h == nil || nx == nil {
				ok = false
				break
			}
			kb, ko := st.affine(k)
			hb, ho := st.affine(h)
			nb, no := st.affine(nx)
			o, d := ko-ho, no-ho
			var x *Term
			if app(kb, "-") && kb != hb && len(kb.args) == 2 {
				// counted down from a value that does not change
				x = kb.args[0]
				kb = kb.args[1]
				o, d = ko+ho, -d
				anywhere(x, func(t *Term) bool {
					for _, v := range sg.hdr {
						ok = ok && t != v
					}
					return false
				})
			}
			if !ok || kb != hb || nb != hb || n > 0 && (o != off || d != step || x != from) || d == 0 {
				ok = false
				break
			}
			off, step, from = o, d, x
			if !seen[h] {
				seen[h] = true
				vals = append(vals, h)
			}
		}
		if !ok || step != 1 && step != -1 {
			continue
		}
		// the loop may be left where it was entered
		for _, h := range L.hdr {
			if len(h.frames) == 0 {
				continue
			}
			if v := h.top().env[ph]; v != nil && !seen[v] {
				seen[v] = true
				vals = append(vals, v)
			}
		}
		sd := stride{step: step, ok: true}
		for _, v := range vals {
			if from != nil {
				sd.at = append(sd.at, strideAt{t: v, from: from, off: off})
			} else {
				sd.at = append(sd.at, strideAt{t: st.canon(e.add(v, e.tt.Int(off)))})
			}
		}
		if from != nil {
			sd.first = st.canon(e.add(e.sub(from, init), e.tt.Int(off)))
		} else {
			sd.first = st.canon(e.add(init, e.tt.Int(off)))
		}
		return sd
	}
	return stride{}
}

func (st *State) yes(t *Term) bool {
	b, k := st.evalBool(st.canon(t))
	return k && b
}

func (st *State) no(t *Term) bool {
	b, k := st.evalBool(st.canon(t))
	return k && !b
}

// less: a < b is known.
func (st *State) less(a, b *Term) bool {
	if st.less0(a, b) {
		return true
	}
	// differences: x-y+o < b is x-b < y-o, and a < x-y+o is y-o < x-a
	e := st.e
	a, b = st.canon(a), st.canon(b)
	if d, o := st.affine(a); app(d, "-") && len(d.args) == 2 {
		return st.less0(st.canon(e.sub(d.args[0], b)), st.canon(e.add(d.args[1], e.tt.Int(-o))))
	}
	if d, o := st.affine(b); app(d, "-") && len(d.args) == 2 {
		return st.less0(st.canon(e.add(d.args[1], e.tt.Int(-o))), st.canon(e.sub(d.args[0], a)))
	}
	return false
}

func (st *State) less0(a, b *Term) bool {
	e := st.e
	if st.yes(e.tt.lt(st.canon(a), st.canon(b))) {
		return true
	}
	z := st.zoneOf(nil)
	return z.holds(st.canon(a), st.canon(b), -1)
}

// planRun: the analysis of running a plan and of what is reported.
type planRun struct {
	c    *Ctx
	rule string
	e    *Eng
	plan *Term
}

func (r *planRun) field(st *State, plan *Term, f string) *Term {
	s := structOf(r.c.typ("MatchPlan"))
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return st.canon(r.e.fieldOf(st.canon(plan), i, f, s.Field(i).Type()))
		}
	}
	panic(anchorErr("MatchPlan has no field " + f))
}

func (r *planRun) stepT() types.Type {
	return fieldType(r.c.typ("MatchPlan"), "steps").Underlying().(*types.Slice).Elem()
}

// stepIdx: the value is a step of the plan.
func (r *planRun) stepIdx(st *State, t *Term) *Term {
	t = st.canon(t)
	steps := r.field(st, r.plan, "steps")
	if t.op == OpInit && t.args[0].op == OpElem && st.canon(t.args[0].args[0]) == steps {
		return st.canon(t.args[0].args[1])
	}
	return nil
}

// chain: running a plan runs its first step with the others, in order, behind
// it, and the report of the match behind the last one.
func (c *Ctx) checkRun(rule string, cats map[string]bool) {
	c.guard(rule, "MatchPlan.Run", func() {
		fn := c.fn("MatchPlan.Run")
		r := &planRun{c: c, rule: rule}
		ob := func(cat, con string, ok bool, pos token.Pos, f string, a ...interface{}) {
			if cats[cat] {
				c.ob(rule+" "+cat, con, ok, pos, f, a...)
			}
		}
		e, args, outs := c.runA(fn, hooks(atoms("MatchPlan.GetCurrentPath", "MatchPlan.CaptureSymbolValues", "logf"), stdModel))
		r.e, r.plan = e, args[0]
		graph, symbols, result := args[1], args[2], args[3]
		live := 0
		for _, o := range outs {
			if o.panic {
				continue
			}
			live++
			con := "MatchPlan.Run"
			var run *Ev
			for _, x := range flat(o.st) {
				x := x
				if x.isMethod("Run") && x.invoke {
					if run != nil {
						ob("plan", con, false, x.pos, "a plan is run more than once")
					}
					run = &x
				}
			}
			if run == nil {
				ob("plan", con, false, o.pos, "the first step is not run")
				continue
			}
			i := r.stepIdx(o.st, run.args[0])
			k, isC := int64(0), false
			if i != nil {
				k, isC = i.constInt()
			}
			ob("plan", con, isC && k == 0 && len(run.path) == 0, run.pos, "the search does not start with the first step")
			ob("all", con+" error", len(o.ret) == 1 && o.st.canon(o.ret[0]) == o.st.canon(run.res), run.pos, "the outcome of the search is not returned")
			ctx := o.st.canon(run.args[1])
			r.context(ob, o, ctx, graph, symbols, run.pos)
			r.chain(ob, o, o.st.canon(run.args[2]), result, run.pos)
		}
		ob("plan", "MatchPlan.Run", live > 0, fn.Pos(), "running a plan never returns")
	})
}

type obFn func(cat, con string, ok bool, pos token.Pos, f string, a ...interface{})

func (r *planRun) context(ob obFn, o Outcome, ctx, graph, symbols *Term, pos token.Pos) {
	st := o.st
	if ctx.op != OpNew {
		ob("binding", "MatchPlan.Run context", false, pos, "the context of the search is not new")
		return
	}
	t := r.c.ptr("MatchContext")
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		v := st.canon(st.get(ctx, t, f.Name()))
		con := "MatchPlan.Run context " + f.Name()
		switch f.Name() {
		case "Graph":
			ob("all", con, v == graph, pos, "the search is not in the given graph")
			continue
		case "Symbols":
			ob("binding", con, v == symbols, pos, "the search does not use the given variables")
			continue
		}
		switch f.Type().Underlying().(type) {
		case *types.Map:
			ob("binding", con, v.op == OpNew, pos, "the search does not start without variables of its own")
		case *types.Pointer:
			ob("direction", con, v.isNil(), pos, "the search starts as if it came from a variable length edge")
		}
	}
}

// chain checks the accumulators.
func (r *planRun) chain(ob obFn, o Outcome, acc, result *Term, pos token.Pos) {
	e, st := r.e, o.st
	con := "MatchPlan.Run chain"
	evs := st.tr.list()
	steps := r.field(st, r.plan, "steps")
	ln := st.canon(e.tt.App("len", types.Typ[types.Int], steps))
	if !isPhi(acc) {
		// no loop: one step only
		if st.yes(e.tt.eq(ln, e.tt.Int(1))) || st.less(ln, e.tt.Int(2)) {
			r.report(ob, st, acc, result, pos)
			return
		}
		ob("plan", con, false, pos, "the steps after the first one are not run")
		return
	}
	for _, ev := range evs {
		if ev.kind != EvLoop {
			continue
		}
		L := ev.loop
		if len(L.segs) == 0 {
			continue
		}
		mine := true
		idx := map[*Seg]*Term{}
		var init *Term
		for _, sg := range L.segs {
			ini, nx, ok := loopVar(L, sg, acc)
			if !ok {
				mine = false
				break
			}
			init = ini
			x, okr := r.link(sg.st, sg.st.canon(nx), acc)
			if okr != "" {
				ob("plan", con, false, ev.pos, "%s", okr)
				return
			}
			idx[sg] = x
		}
		if !mine {
			continue
		}
		sd := e.stride(L, st, func(sg *Seg) *Term { return idx[sg] })
		if !sd.ok || sd.step != -1 {
			ob("plan", con, false, ev.pos, "the steps are not put one before the other")
			return
		}
		ob("plan", con+" last", sd.first == st.canon(e.add(ln, e.tt.Int(-1))), ev.pos, "the last step is not the one that reports the match")
		left := false
		for _, a := range sd.at {
			// 0 is the next index, which is run first
			if st.less(a.term(st), e.tt.Int(1)) {
				left = true
			}
		}
		ob("plan", con+" every step", left, ev.pos, "a step may be left out")
		for _, sg := range L.segs {
			ob("plan", con+" once", sg.st.less(e.tt.Int(0), idx[sg]), ev.pos, "the first step may be run twice")
		}
		r.report(ob, L.start, L.start.canon(init), result, ev.pos)
		return
	}
	ob("plan", con, false, pos, "how the steps are put together is not recognised")
}

func (r *planRun) call(st *State, v *Term, name string, args ...*Term) ([]Outcome, string) {
	v = st.canon(v)
	if v.op != OpIface {
		return nil, "what is run is not known: " + v.String()
	}
	f := r.c.w.methodOf(v.typ, name)
	if f == nil {
		return nil, "no method " + name
	}
	s := st.clone()
	s.frames = nil
	s.tr = nil
	outs := r.e.call(f, append([]*Term{v.args[0]}, args...), nil, s, "link:"+name)
	r.c.account(r.e, outs)
	if r.e.over {
		panic(anchorErr("analysis budget exceeded in " + fnName(f)))
	}
	return outs, ""
}

// link: running this runs a step with acc behind it, and returns what it
// returns.
func (r *planRun) link(st *State, v, acc *Term) (*Term, string) {
	ctx := r.e.tt.Param("linkctx", r.c.ptr("MatchContext"))
	outs, why := r.call(st, v, "Run", ctx)
	if why != "" {
		return nil, why
	}
	var idx *Term
	n := 0
	for _, o := range outs {
		if o.st.dead || o.panic {
			continue
		}
		n++
		var run *Ev
		for _, x := range flat(o.st) {
			x := x
			if x.kind != EvCall || !x.invoke {
				continue
			}
			if run != nil || x.name != "Run" {
				return nil, "a step does more than running"
			}
			run = &x
		}
		if run == nil || len(run.args) != 3 {
			return nil, "a step is not run"
		}
		idx = r.stepIdx(o.st, run.args[0])
		if idx == nil {
			return nil, "what is run is not a step of the plan"
		}
		if o.st.canon(run.args[1]) != ctx || o.st.canon(run.args[2]) != acc {
			return nil, "a step is run in another context or with something else behind it"
		}
		if o.st.canon(o.ret[0]) != o.st.canon(run.res) {
			return nil, "the outcome of a step is lost"
		}
	}
	if n == 0 {
		return nil, "a step is not run"
	}
	return idx, ""
}

// report: running this stores the path and the variables of the match.
func (r *planRun) report(ob obFn, st *State, v, result *Term, pos token.Pos) {
	con := "MatchPlan.Run report"
	ctx := r.e.tt.Param("linkctx", r.c.ptr("MatchContext"))
	outs, why := r.call(st, v, "Run", ctx)
	if why != "" {
		ob("path", con, false, pos, "%s", why)
		return
	}
	n := 0
	for _, o := range outs {
		if o.st.dead || o.panic {
			continue
		}
		n++
		s := o.st
		stored := 0
		same := func(p *Term) bool {
			if s.canon(p) == s.canon(r.plan) {
				return true
			}
			return r.field(s, p, "steps") == r.field(s, r.plan, "steps") && r.field(s, p, "nForward") == r.field(s, r.plan, "nForward")
		}
		from := func(t *Term, name string) bool {
			cl := s.callOf(s.canon(t))
			return cl != nil && cl.name == name && len(cl.args) == 1 && same(cl.args[0])
		}
		for _, x := range flat(s) {
			if x.kind != EvCall || !x.invoke {
				continue
			}
			ok := x.name == "StoreResult" && len(x.args) == 4 && s.canon(x.args[0]) == s.canon(result)
			ob("path", con, ok, x.pos, "a match is not handed to the receiver of the results")
			if !ok {
				continue
			}
			stored++
			ob("path", con+" path", from(x.args[2], "MatchPlan.GetCurrentPath"), x.pos, "the path reported is not the path of the match")
			ob("path", con+" variables", from(x.args[3], "MatchPlan.CaptureSymbolValues"), x.pos, "the variables reported are not those of the match")
			ob("path", con+" context", s.canon(x.args[1]) == ctx, x.pos, "a match is reported with another context")
		}
		ob("all", con+" once", stored == 1, pos, "a match is reported %d times", stored)
		ob("all", con+" goes on", s.canon(o.ret[0]).isNil(), pos, "the search fails when a match is found")
	}
	ob("path", con, n > 0, pos, "a match cannot be reported")
}

// piece of a path under construction.
type pathPiece struct {
	kind string // result, reversed, loop
	idx  *Term
	segs []segPieces
	sd   stride
	pos  token.Pos
	bad  string
}

type segPieces struct {
	sg *Seg
	ps []pathPiece
}

// resHook: what a step found and its pattern item.
func resHook(e *Eng, st *State, ci *CallInfo) ([]CallRes, bool) {
	if ci.invoke && len(ci.args) == 1 && (ci.name == "GetResult" || ci.name == "GetPatternItem") {
		r := e.tt.App("step"+ci.name, ci.typ, st.canon(ci.args[0]))
		st.event(&Event{kind: EvCall, name: ci.name, args: ci.args, res: r, pos: ci.pos, invoke: true})
		if ci.name == "GetResult" {
			st.nn[r] = true
		}
		return []CallRes{{st: st, val: r}}, true
	}
	if ci.fn != nil && (ci.name == "Path.AppendPath" || ci.name == "Path.Append") {
		st.event(&Event{kind: EvCall, name: ci.name, fn: ci.fn, args: ci.args, res: ci.args[0], pos: ci.pos})
		return []CallRes{{st: st, val: ci.args[0]}}, true
	}
	return nil, false
}

// resultIdx: the value is what a step found.
func (r *planRun) resultIdx(st *State, t *Term, typ string) *Term {
	try := func(t *Term) *Term {
		y, tn, ok := asOf(t)
		if !ok || !app(y, "stepGetResult") || tn != typ {
			return nil
		}
		return r.stepIdx(st, y.args[0])
	}
	if x := try(t); x != nil {
		return x
	}
	return try(st.canon(t))
}

func isPathCall(x *Event) bool {
	return x.kind == EvCall && (x.name == "Path.AppendPath" || x.name == "Path.Append")
}

// pieces lists what was appended to a path.
func (r *planRun) pieces(evs []*Event, st *State, p *Term, depth int) (out []pathPiece, why string) {
	e := r.e
	if depth > 5 {
		return nil, "nested too deeply"
	}
	if p.op != OpNew {
		return nil, "the path is not a new one"
	}
	pt := r.c.ptr("Path")
	for _, f := range []string{"only", "path"} {
		v := st.canon(st.get(p, pt, f))
		empty := v.isNil()
		if app(v, "slicelit") || app(v, "makeslice") {
			n, k := v.args[1].constInt()
			empty = k && n == 0
		}
		if !empty {
			return nil, "the path does not start empty"
		}
	}
	for i, ev := range evs {
		switch {
		case ev.kind == EvLoop:
			touches := false
			e.walkSeqs([]*Event{ev}, st, func(s seq) {
				if s.seg == nil {
					return
				}
				for _, x := range s.evs {
					if isPathCall(x) && s.st.canon(x.args[0]) == p {
						touches = true
					}
				}
			})
			if !touches {
				continue
			}
			pc, why := r.loopPiece(evs, i, st, p, depth)
			if why != "" {
				return nil, why
			}
			out = append(out, pc)
		case isPathCall(ev) && st.canon(ev.args[0]) == p:
			if ev.name == "Path.Append" {
				return nil, "single edges are added outside a loop"
			}
			q := st.canon(ev.args[1])
			if x := r.resultIdx(st, ev.args[1], "*lpg.Path"); x != nil {
				out = append(out, pathPiece{kind: "result", idx: x, pos: ev.pos})
				continue
			}
			for _, later := range evs[i:] {
				if isPathCall(later) && st.canon(later.args[0]) == q {
					return nil, "a path that was added changes later"
				}
			}
			ps, why := r.pieces(evs[:i], st, q, depth+1)
			if why != "" {
				return nil, why
			}
			out = append(out, ps...)
		}
	}
	return out, ""
}

func (r *planRun) loopPiece(evs []*Event, i int, st *State, p *Term, depth int) (pathPiece, string) {
	e := r.e
	L := evs[i].loop
	// a loop over the elements of one result
	if pc, ok := r.elements(evs, i, st, p); ok {
		return pc, ""
	}
	pc := pathPiece{kind: "loop", pos: evs[i].pos}
	key := map[*Seg]*Term{}
	for _, sg := range L.segs {
		ps, why := r.pieces(sg.events, sg.st, p, depth+1)
		if why != "" {
			return pc, why
		}
		if len(ps) > 1 || len(ps) == 1 && ps[0].kind == "loop" {
			return pc, "more than one piece is added for a step"
		}
		if len(ps) == 1 {
			key[sg] = ps[0].idx
		} else {
			// which step it was
			for _, x := range line(sg.events, sg.st) {
				if x.kind == EvCall && x.invoke && x.name == "GetResult" {
					key[sg] = r.stepIdx(sg.st, x.Event.args[0])
				}
			}
			if key[sg] == nil {
				return pc, "an iteration looks at no step"
			}
		}
		pc.segs = append(pc.segs, segPieces{sg, ps})
	}
	pc.sd = e.stride(L, st, func(sg *Seg) *Term { return key[sg] })
	if !pc.sd.ok {
		return pc, "the steps are not visited one after the other"
	}
	for _, sp := range pc.segs {
		if len(sp.ps) > 0 {
			continue
		}
		// nothing added: the step did not find a path
		ok := false
		for _, x := range line(sp.sg.events, sp.sg.st) {
			if x.kind == EvCall && x.invoke && x.name == "GetResult" && !r.maybe(sp.sg.st, x.Event.res, "Path") {
				ok = true
			}
		}
		if !ok {
			return pc, "the path found by a step may be left out"
		}
	}
	return pc, ""
}

// tested: whether the first step found a node or a path was looked at.
func (r *planRun) tested(st *State, typ string, want bool) bool {
	for _, x := range top(st) {
		if x.kind != EvAssume || x.truth != want {
			continue
		}
		a := x.Event.args[0]
		if app(a, "typeis") && app(a.args[0], "stepGetResult") && a.args[1].name == "type:"+typeKey(r.c.ptr(typ)) {
			if i := r.stepIdx(st, a.args[0].args[0]); i != nil {
				if k, ok := i.constInt(); ok && k == 0 {
					return true
				}
			}
		}
	}
	return false
}

// maybeNode: the first step may have found a node.
func (r *planRun) maybeNode(st *State) bool {
	for _, x := range flat(st) {
		if x.kind == EvCall && x.name == "GetResult" {
			if i := r.stepIdx(st, x.Event.args[0]); i != nil {
				if k, ok := i.constInt(); ok && k == 0 && !r.maybe(st, x.Event.res, "Node") {
					return false
				}
			}
		}
	}
	return true
}

// maybe: the value may be of a type.
func (r *planRun) maybe(st *State, v *Term, typ string) bool {
	s := st.clone()
	tt := r.e.tt
	t := tt.App("typeis", types.Typ[types.Bool], s.canon(v), tt.mk(OpApp, "type:"+typeKey(r.c.ptr(typ)), 0, nil, nil))
	return s.assume(s.canon(t), true) && !s.dead
}

// elements: the loop adds the elements of one result, in order or backwards.
func (r *planRun) elements(evs []*Event, i int, st *State, p *Term) (pathPiece, bool) {
	e := r.e
	L := evs[i].loop
	pc := pathPiece{pos: evs[i].pos}
	elT := r.c.typ("PathElement")
	var coll, res *Term
	key := map[*Seg]*Term{}
	flip := 0
	for _, sg := range L.segs {
		var add *Event
		for _, ev := range sg.events {
			if ev.kind == EvLoop {
				return pc, false
			}
			if isPathCall(ev) && sg.st.canon(ev.args[0]) == p {
				if add != nil || ev.name != "Path.Append" {
					return pc, false
				}
				add = ev
			}
		}
		if add == nil {
			return pc, false
		}
		as := variadic(e, sg.st, add.args[1:])
		if len(as) != 1 {
			return pc, false
		}
		edge, rev := (&vpath{c: r.c, e: e}).pathElem(sg.st, as[0])
		// which element it is
		var at *Term
		anywhere(edge, func(t *Term) bool {
			if t.op == OpElem && at == nil {
				at = t
			}
			return at != nil
		})
		if at == nil {
			return pc, false
		}
		el := sg.st.load(e.tt.Elem(at.args[0], at.args[1], elT), elT)
		e0, r0 := (&vpath{c: r.c, e: e}).pathElem(sg.st, el)
		if e0 != edge {
			return pc, false
		}
		f := 0
		switch {
		case rev == r0:
			f = 1
		case rev == sg.st.canon(e.tt.not(r0)):
			f = -1
		default:
			b, k := sg.st.evalBool(rev)
			b0, k0 := sg.st.evalBool(r0)
			if !k || !k0 {
				return pc, false
			}
			f = -1
			if b == b0 {
				f = 1
			}
		}
		if flip != 0 && flip != f || coll != nil && coll != at.args[0] {
			return pc, false
		}
		flip, coll = f, at.args[0]
		key[sg] = sg.st.canon(at.args[1])
	}
	if coll == nil {
		return pc, false
	}
	// the collection is the path of a result
	x, ok := fieldInit(coll, "path")
	if !ok {
		return pc, false
	}
	res = r.resultIdx(st, x, "*lpg.Path")
	if res == nil {
		return pc, false
	}
	sd := e.stride(L, st, func(sg *Seg) *Term { return key[sg] })
	if !sd.ok {
		return pc, false
	}
	ln := st.canon(e.sliceLen(st, coll))
	done := false
	for _, a := range sd.at {
		if sd.step > 0 && !st.less(a.term(st), ln) && st.less(e.add(ln, e.tt.Int(-1)), a.term(st)) || sd.step < 0 && st.less(a.term(st), e.tt.Int(0)) {
			done = true
		}
	}
	if !done {
		return pc, false
	}
	if sd.step > 0 && flip == 1 {
		if k, isC := sd.first.constInt(); !isC || k != 0 {
			return pc, false
		}
		pc.kind = "result"
	} else if sd.step < 0 && flip == -1 {
		if sd.first != st.canon(e.add(ln, e.tt.Int(-1))) {
			return pc, false
		}
		pc.kind = "reversed"
	} else {
		return pc, false
	}
	pc.idx = res
	return pc, true
}

// checkReported: the path and the variables of a match.
func (c *Ctx) checkReported(rule string) {
	c.guard(rule, "GetCurrentPath", func() { c.currentPath(rule) })
	c.guard(rule, "CaptureSymbolValues", func() { c.symbolValues(rule) })
	c.guard(rule, "DefaultMatchAccumulator", func() { c.defaultAcc(rule) })
}

func (c *Ctx) currentPath(rule string) {
	for _, n := range []string{"Path.AppendPath", "Path.Append"} {
		e, args, outs := c.runA(c.fn(n), c.itrOpaque())
		_ = e
		for _, o := range outs {
			if o.panic || o.st.dead {
				continue
			}
			c.ob(rule, n+" result", len(o.ret) == 1 && o.st.canon(o.ret[0]) == args[0], o.pos, "the path appended to is not returned")
		}
	}
	fn := c.fn("MatchPlan.GetCurrentPath")
	e, args, outs := c.runA(fn, hooks(resHook, stdModel))
	r := &planRun{c: c, rule: rule, e: e, plan: args[0]}
	con := "GetCurrentPath"
	pt := c.ptr("Path")
	n := 0
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		st := o.st
		steps := r.field(st, r.plan, "steps")
		if o.panic {
			// every step finds a node or a path
			odd := false
			for _, x := range flat(st) {
				if x.kind == EvCall && x.name == "GetResult" && !r.maybe(x.st, x.Event.res, "Path") && !r.maybe(x.st, x.Event.res, "Node") {
					odd = true
				}
			}
			c.ob(rule, con+" panic", odd || st.yes(e.tt.eq(e.tt.App("len", types.Typ[types.Int], steps), e.tt.Int(0))), o.pos, "the path of a match cannot be reported: %s", o.panicIs)
			continue
		}
		n++
		nF := r.field(st, r.plan, "nForward")
		ln := st.canon(e.tt.App("len", types.Typ[types.Int], steps))
		ret := st.canon(o.ret[0])
		single := st.yes(e.tt.eq(ln, e.tt.Int(1)))
		if x := r.resultIdx(st, o.ret[0], "*lpg.Path"); x != nil {
			k, isC := x.constInt()
			c.ob(rule, con+" single", single && isC && k == 0, o.pos, "the path of one step is reported for a search with several steps")
			c.ob(rule, con+" single", r.tested(st, "Path", true) || r.tested(st, "Node", false), o.pos, "a single node is reported as if it were a path")
			continue
		}
		if ret.op == OpNew {
			only := st.canon(st.get(ret, pt, "only"))
			if !only.isNil() {
				x := r.resultIdx(st, only, "*lpg.Node")
				k, isC := int64(0), false
				if x != nil {
					k, isC = x.constInt()
				}
				list := st.canon(st.get(ret, pt, "path"))
				c.ob(rule, con+" single", single && isC && k == 0 && list.isNil(), o.pos, "the path of a single node is not that node")
				c.ob(rule, con+" single", r.tested(st, "Path", false) || r.tested(st, "Node", true), o.pos, "a single edge is reported as if it were a node")
				continue
			}
		}
		// a single node has no edges
		one := st.clone()
		if one.assume(one.canon(e.tt.eq(ln, e.tt.Int(1))), true) && !one.dead && r.maybeNode(one) {
			c.ob(rule, con+" single", false, o.pos, "a match of a single item is reported as a path made of edges")
		}
		ps, why := r.pieces(st.tr.list(), st, ret, 0)
		if !c.ob(rule, con+" assembly", why == "", o.pos, "the path of a match is not known: %s", why) {
			continue
		}
		ok := len(ps) == 2 && ps[0].kind == "loop" && ps[1].kind == "loop" && ps[0].sd.step < 0 && ps[1].sd.step > 0
		if !c.ob(rule, con+" order", ok, o.pos, "the path is not made of the items before the first one visited, last first, then the others") {
			continue
		}
		for d, p := range ps {
			kind := []string{"reversed", "result"}[d]
			what := []string{"backward", "forward"}[d]
			for _, sp := range p.segs {
				for _, q := range sp.ps {
					c.ob(rule, con+" "+what, q.kind == kind, q.pos, "the edges found going %s are added as %s", what, q.kind)
				}
				var k *Term
				for _, q := range sp.ps {
					k = q.idx
				}
				if k == nil {
					continue
				}
				in := false
				if d == 0 {
					in = sp.sg.st.less(nF, k)
				} else {
					in = sp.sg.st.less(k, e.add(nF, e.tt.Int(1)))
				}
				c.ob(rule, con+" "+what+" range", in, p.pos, "a step of the other direction may be included")
			}
			left := false
			for _, a := range p.sd.at {
				if d == 0 {
					left = left || st.less(a.term(st), e.add(nF, e.tt.Int(1)))
				} else {
					left = left || st.less(nF, a.term(st)) || st.less(e.add(ln, e.tt.Int(-1)), a.term(st))
				}
			}
			c.ob(rule, con+" "+what+" all", left, p.pos, "the edges of a step may be left out")
			if d == 0 {
				c.ob(rule, con+" "+what+" start", p.sd.first == st.canon(e.add(ln, e.tt.Int(-1))), p.pos, "the last step is not the first item of the path")
			} else {
				k, isC := p.sd.first.constInt()
				c.ob(rule, con+" "+what+" start", isC && k == 0, p.pos, "the first step is left out")
			}
		}
	}
	c.ob(rule, con, n > 0, fn.Pos(), "no path is returned")
}

func (c *Ctx) symbolValues(rule string) {
	fn := c.fn("MatchPlan.CaptureSymbolValues")
	e, args, outs := c.runA(fn, hooks(resHook, stdModel))
	r := &planRun{c: c, rule: rule, e: e, plan: args[0]}
	con := "CaptureSymbolValues"
	n := 0
	itT := c.typ("PatternItem")
	nameOf := func(st *State, step *Term) *Term {
		it := e.tt.App("stepGetPatternItem", itT, st.canon(step))
		s := structOf(itT)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "Name" {
				return st.canon(e.fieldOf(it, i, "Name", s.Field(i).Type()))
			}
		}
		panic(anchorErr("PatternItem has no field Name"))
	}
	for _, o := range outs {
		if o.panic || o.st.dead {
			continue
		}
		n++
		st := o.st
		m := st.canon(o.ret[0])
		if !c.ob(rule, con+" new", m.op == OpNew, o.pos, "the variables of two matches share a map") {
			continue
		}
		steps := r.field(st, r.plan, "steps")
		visited := false
		evs := st.tr.list()
		for i, ev := range evs {
			if ev.kind == EvMapUpd || ev.kind == EvMapDel {
				c.ob(rule, con, false, ev.pos, "a variable is set outside the visit of its step")
			}
			if ev.kind != EvLoop {
				continue
			}
			it := e.iterOf(evs, i, st)
			if it.kind == "slice" && it.coll == steps && it.all() {
				visited = true
			}
			for _, sg := range ev.loop.segs {
				s := sg.st
				k := it.keyOf(sg)
				step := s.canon(s.load(e.tt.Elem(steps, k, r.stepT()), r.stepT()))
				name := nameOf(s, step)
				set := false
				for _, x := range line(sg.events, s) {
					switch x.kind {
					case EvMapUpd:
						if s.canon(x.args[0]) != m {
							continue
						}
						v := strip(x.args[2])
						okv := app(v, "stepGetResult") && s.canon(v.args[0]) == step
						c.ob(rule, con+" value", x.args[1] == name && okv, x.pos, "a variable is not given what its step found")
						c.ob(rule, con+" named", s.no(e.tt.eq(name, e.tt.Str(""))) || s.less(e.tt.Int(0), e.tt.App("len", types.Typ[types.Int], name)), x.pos, "an item without a name is reported as a variable")
						set = true
					case EvMapDel, EvLoop:
						c.ob(rule, con, false, x.pos, "a variable is removed")
					}
				}
				if set {
					continue
				}
				unnamed := s.yes(e.tt.eq(name, e.tt.Str(""))) || s.less(e.tt.App("len", types.Typ[types.Int], name), e.tt.Int(1))
				_, has := s.mapLookup(m, name, o.ret[0].typ)
				c.ob(rule, con+" every variable", unnamed || s.yes(has), ev.pos, "a variable of the pattern may have no value")
			}
		}
		c.ob(rule, con+" every step", visited, o.pos, "not every step is asked for its variable")
	}
	c.ob(rule, con, n > 0, fn.Pos(), "no variables are returned")
}

func (c *Ctx) defaultAcc(rule string) {
	fn := c.fn("DefaultMatchAccumulator.StoreResult")
	e, args, outs := c.runA(fn, stdModel)
	t := c.ptr("DefaultMatchAccumulator")
	n := 0
	for _, o := range outs {
		if o.panic || o.st.dead {
			continue
		}
		n++
		for f, v := range map[string]*Term{"Paths": args[2], "Symbols": args[3]} {
			now := o.st.canon(o.st.get(args[0], t, f))
			old := o.st.canon(e.tt.Init(e.fld(args[0], t, f), fieldType(t, f)))
			ok := app(now, "append") && len(now.args) == 2 && o.st.canon(now.args[0]) == old && o.st.canon(now.args[1]) == o.st.canon(v)
			c.ob(rule, "DefaultMatchAccumulator "+f, ok, o.pos, "a match is not added to the results: %v", now)
		}
	}
	c.ob(rule, "DefaultMatchAccumulator", n > 0, fn.Pos(), "results are never stored")
}
