package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/cloudprivacylabs/lpg/v2"

// CallInfo describes a call about to be interpreted.
type CallInfo struct {
	fn      *ssa.Function // static or devirtualised callee, or nil
	name    string
	args    []*Term
	free    []*Term // what a closure captures
	typ     types.Type
	invoke  bool
	dynamic bool
	pos     token.Pos
	uid     string
}

// CallRes is one abstract outcome of a call.
type CallRes struct {
	st    *State
	val   *Term
	panic bool
}

// Outcome is one abstract way in which a function ends.
type Outcome struct {
	st      *State
	ret     []*Term
	panic   bool
	panicIs string
	pos     token.Pos
}

// Hook lets a rule treat a function as a primitive.
type Hook func(e *Eng, st *State, c *CallInfo) ([]CallRes, bool)

// Eng is the abstract interpreter.
type Eng struct {
	w        *World
	tt       *Terms
	hook     Hook
	ctxID    map[string]int
	loops    map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	active   []*loopCtx
	steps    int
	maxSteps int
	hid      int
	mapVals  map[*Term]map[[2]*Term]bool
	allocs   map[*Term]bool
	over     bool
	unroll   bool // loops over lists of known length are run step by step
	calls    []*Event
	fnsSeen  map[*ssa.Function]bool
	maxDepth int
	noDeref  bool
	rangeLen map[*Term]*Term // range step -> length of the map at that point
}

func newEng(w *World) *Eng {
	return &Eng{w: w, tt: newTerms(), rangeLen: map[*Term]*Term{}, ctxID: map[string]int{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{},
		maxSteps: 3000000, mapVals: map[*Term]map[[2]*Term]bool{}, fnsSeen: map[*ssa.Function]bool{}, maxDepth: 24}
}

type exitRec struct {
	st       *State
	from, to *ssa.BasicBlock
}

type sink struct {
	outs  []Outcome
	backs []exitRec
	exits []exitRec
}

type loopCtx struct {
	header  *ssa.BasicBlock
	blocks  map[*ssa.BasicBlock]bool
	created map[*Term]bool
}

func (e *Eng) ctx(s string) int {
	if i, ok := e.ctxID[s]; ok {
		return i
	}
	i := len(e.ctxID)
	e.ctxID[s] = i
	return i
}

func (e *Eng) note(t *Term) *Term {
	for _, l := range e.active {
		l.created[t] = true
	}
	return t
}

// unk makes the unknown value produced at a site.
func (e *Eng) unk(st *State, hint string, uid string, typ types.Type) *Term {
	t := e.tt.Unk(fmt.Sprintf("%s#%d", hint, e.ctx(uid)), typ)
	if t.typ == nil {
		t.typ = typ
	}
	// a new value: forget what was known about the previous one
	if !e.activeHas(t) {
		e.note(t)
	}
	return t
}

func (e *Eng) activeHas(t *Term) bool {
	for _, l := range e.active {
		if !l.created[t] {
			return false
		}
	}
	return len(e.active) > 0
}

// Run interprets fn from the given state.
func (e *Eng) Run(fn *ssa.Function, args []*Term, st *State) []Outcome {
	return e.call(fn, args, nil, st, "r")
}

func (e *Eng) call(fn *ssa.Function, args []*Term, free []*Term, st *State, ctx string) []Outcome {
	e.fnsSeen[fn] = true
	fr := &Frame{fn: fn, env: map[ssa.Value]*Term{}, ctx: ctx}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(free) {
			fr.env[f] = free[i]
		}
	}
	st.frames = append(st.frames, fr)
	depth := len(st.frames)
	sk := &sink{}
	saved := e.active
	e.enter(st, nil, fn.Blocks[0], nil, sk)
	e.active = saved
	for i := range sk.outs {
		o := &sk.outs[i]
		o.st.frames = o.st.frames[:depth-1]
	}
	return sk.outs
}

// dominance-based natural loops
func (e *Eng) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if l, ok := e.loops[fn]; ok {
		return l
	}
	res := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := res[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					res[s] = body
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if body[x] {
						continue
					}
					body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	e.loops[fn] = res
	return res
}

// enter transfers control to block to.
func (e *Eng) enter(st *State, from, to *ssa.BasicBlock, L *loopCtx, sk *sink) {
	if L != nil {
		if to == L.header {
			sk.backs = append(sk.backs, exitRec{st, from, to})
			return
		}
		if !L.blocks[to] {
			sk.exits = append(sk.exits, exitRec{st, from, to})
			return
		}
	}
	if body, ok := e.loopsOf(to.Parent())[to]; ok {
		if e.unroll && e.unrolled(st, from, to) {
			e.exec(st, to, len(hdrPhis(to)), L, sk)
			return
		}
		e.runLoop(st, from, to, body, L, sk)
		return
	}
	e.phis(st, from, to)
	e.exec(st, to, 0, L, sk)
}

// unrolled: the loop counts from a constant to a small constant; the variables of
// the next iteration are set, and what is called in it is told apart from what
// is called in others.
func (e *Eng) unrolled(st *State, from, hdr *ssa.BasicBlock) bool {
	if from == nil {
		return false
	}
	br, ok := hdr.Instrs[len(hdr.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS {
		return false
	}
	x := cmp.X
	if add, ok := x.(*ssa.BinOp); ok && add.Op == token.ADD {
		x = add.X
	}
	ph, ok := x.(*ssa.Phi)
	if !ok || ph.Block() != hdr {
		return false
	}
	if v, ok := cmp.Y.(ssa.Instruction); ok && v.Block() == hdr {
		return false
	}
	lim, ok := st.canon(e.val(st, cmp.Y)).constInt()
	if !ok || lim > 64 {
		return false
	}
	for i, p := range hdr.Preds {
		if p == from {
			at, ok := st.canon(e.val(st, ph.Edges[i])).constInt()
			if !ok || at < -1 {
				return false
			}
			e.phis(st, from, hdr)
			fr := st.top()
			if p := strings.LastIndex(fr.ctx, "^"); p >= 0 {
				fr.ctx = fr.ctx[:p]
			}
			fr.ctx += fmt.Sprintf("^%d.%d", hdr.Index, at)
			return true
		}
	}
	return false
}

func (e *Eng) phis(st *State, from, to *ssa.BasicBlock) {
	if from == nil {
		return
	}
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	fr := st.top()
	vals := map[ssa.Value]*Term{}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[phi] = e.val(st, phi.Edges[idx])
	}
	for k, v := range vals {
		fr.env[k] = v
	}
}

type part struct {
	key  string
	st   *State
	sk   *sink
	wide map[*Term]int
}

func hdrPhis(h *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			r = append(r, p)
		} else {
			break
		}
	}
	return r
}

// partKey groups header states by their boolean and nil-valued variables.
func (e *Eng) partKey(st *State, h *ssa.BasicBlock, cr map[*Term]bool) string {
	var parts []string
	desc := func(name string, v *Term) {
		v = st.canon(v)
		if b, ok := v.constBool(); ok {
			parts = append(parts, fmt.Sprintf("%s=%v", name, b))
		} else if b, known := st.evalBool(v); known && v.op != OpConst {
			parts = append(parts, fmt.Sprintf("%s~%v", name, b))
		} else if v.isNil() {
			parts = append(parts, name+"=nil")
		} else if isPtrLike(v.typ) || v.op == OpNew || v.op == OpIface || v.op == OpClos {
			if st.nonNil(v) {
				parts = append(parts, name+"=ptr")
			}
		}
	}
	for _, p := range hdrPhis(h) {
		n := p.Comment
		if n == "" {
			n = p.Name()
		}
		desc(n, st.top().env[p])
		if v0, ok := startsAt(p, h); ok {
			// a counter the program compares with where it starts
			v := st.canon(st.top().env[p])
			if k, isK := v.constInt(); isK && k == v0 {
				parts = append(parts, n+"=start")
			} else if iv := st.ivalOf(v); iv.hasLo && iv.lo > v0 {
				parts = append(parts, n+">start")
			}
		}
	}
	keys := make([]*Term, 0)
	for k := range st.mem {
		if r := k.root(); (r.op == OpNew || r.op == OpParam) && !cr[r] {
			if _, made := r.src.(*ssa.MakeSlice); made {
				continue // elements by index, like a table
			}
			grows := false
			for a := k; a.op == OpElem || a.op == OpField; a = a.args[0] {
				if a.op == OpElem {
					if i, ok := a.args[1].constInt(); !ok || i > 0 {
						grows = true // a growing slice
					}
				}
			}
			if grows && k.op == OpField {
				continue
			}
			if k.op == OpElem {
				if i, ok := k.args[1].constInt(); !ok || i > 3 {
					continue
				}
			}
			keys = append(keys, k)
		}
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	for _, k := range keys {
		desc(k.path(0), st.mem[k])
	}
	return strings.Join(parts, ";")
}

// startsAt: the integer variable p is entered into the loop as a constant, and
// the program asks whether it still has that value.
func startsAt(p *ssa.Phi, h *ssa.BasicBlock) (int64, bool) {
	if !isInt(p.Type()) {
		return 0, false
	}
	k := func(v ssa.Value) (int64, bool) {
		c, ok := v.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
			return 0, false
		}
		return c.Int64(), true
	}
	var v0 int64
	found := false
	for i, e := range p.Edges {
		if h.Dominates(h.Preds[i]) {
			continue
		}
		v, ok := k(e)
		if !ok || found && v != v0 {
			return 0, false
		}
		v0, found = v, true
	}
	if !found {
		return 0, false
	}
	var asks func(v ssa.Value, at int64, depth int) bool
	asks = func(v ssa.Value, at int64, depth int) bool {
		if v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			b, ok := r.(*ssa.BinOp)
			if !ok {
				continue
			}
			x, y := b.X, b.Y
			c, isC := k(y)
			first := isC
			if !isC {
				if c, isC = k(x); !isC {
					continue
				}
				x = y
			}
			if x != v {
				continue
			}
			op := b.Op
			if !first {
				switch op {
				case token.GTR:
					op = token.LSS
				case token.LSS:
					op = token.GTR
				case token.GEQ:
					op = token.LEQ
				case token.LEQ:
					op = token.GEQ
				}
			}
			switch op {
			case token.EQL, token.NEQ, token.GTR, token.LEQ:
				if c == at {
					return true
				}
			case token.GEQ, token.LSS:
				if c == at+1 {
					return true
				}
			case token.ADD:
				if depth < 1 && asks(b, at+c, depth+1) {
					return true
				}
			}
		}
		return false
	}
	return v0, asks(p, v0, 0)
}

func (e *Eng) runLoop(st *State, from, hdr *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, L *loopCtx, sk *sink) {
	lc := &loopCtx{header: hdr, blocks: body, created: map[*Term]bool{}}
	pre := st.tr
	e.phis(st, from, hdr)
	fr := st.top()
	lid := fmt.Sprintf("%s@%s.%d", fnName(fr.fn), fr.ctx, hdr.Index)
	loop := &Loop{id: lid, pos: hdr.Instrs[0].Pos()}
	for _, in := range hdr.Instrs {
		if in.Pos().IsValid() {
			loop.pos = in.Pos()
			break
		}
	}
	loop.init = map[*ssa.Phi]*Term{}
	for _, ph := range hdrPhis(hdr) {
		loop.init[ph] = st.canon(fr.env[ph])
	}
	loop.start = st.clone()
	loop.hdr = map[string]*State{}
	saved := e.active
	e.active = append(append([]*loopCtx(nil), e.active...), lc)
	parts := map[string]*part{}
	var order []string
	k0 := e.partKey(st, hdr, nil)
	loop.entry = k0
	parts[k0] = &part{key: k0, st: st, wide: map[*Term]int{}}
	order = append(order, k0)
	work := []string{k0}
	rounds := 0
	for len(work) > 0 {
		rounds++
		if rounds > 400 {
			e.over = true
			break
		}
		k := work[0]
		work = work[1:]
		if os.Getenv("LPGCHECK_LOOPS") != "" {
			fmt.Printf("LOOP %s round %d parts %d key{%s}\n", lid, rounds, len(parts), k)
		}
		p := parts[k]
		s := p.st.clone()
		s.tr = nil
		p.sk = &sink{}
		e.exec(s, hdr, len(hdrPhis(hdr)), lc, p.sk)
		if e.over {
			break
		}
		for i := range p.sk.backs {
			b := p.sk.backs[i]
			bs := b.st.clone()
			e.phis(bs, b.from, hdr)
			key := e.partKey(bs, hdr, lc.created)
			q := parts[key]
			if q == nil {
				e.forget(bs, hdr, lid, lc)
				bs.tr = nil
				parts[key] = &part{key: key, st: bs, wide: map[*Term]int{}}
				order = append(order, key)
				work = append(work, key)
				continue
			}
			if e.widen(q, bs, hdr, lid, lc) {
				in := false
				for _, w := range work {
					if w == key {
						in = true
					}
				}
				if !in {
					work = append(work, key)
				}
			}
		}
	}
	// collect
	for _, k := range order {
		p := parts[k]
		if p.sk == nil {
			continue
		}
		loop.hdr[k] = p.st
		for _, b := range p.sk.backs {
			bs := b.st.clone()
			e.phis(bs, b.from, hdr)
			sg := &Seg{from: k, to: e.partKey(bs, hdr, lc.created), events: b.st.tr.list(), st: bs, hdr: map[*ssa.Phi]*Term{}, next: map[*ssa.Phi]*Term{}}
			for _, ph := range hdrPhis(hdr) {
				sg.hdr[ph] = p.st.top().env[ph]
				sg.next[ph] = bs.canon(bs.top().env[ph])
			}
			loop.segs = append(loop.segs, sg)
		}
	}
	e.active = saved
	again := map[string]bool{}
	for _, sg := range loop.segs {
		again[sg.to] = true
	}
	attach := func(s *State, key string) {
		if evs := s.tr.list(); key == k0 && !again[k0] && len(evs) > 0 && evs[0].kind == EvIter {
			// left without any iteration: the map is empty
			if ln := e.rangeLen[evs[0].res]; ln != nil && !ln.isConst() {
				if b, k := s.evalBool(evs[0].res); k && !b {
					if !s.setIv(ln, ival{hasHi: true, hi: 0}) {
						s.dead = true
					}
				}
			}
		}
		tr := pre.add(&Event{kind: EvLoop, loop: loop, key: key, in: fr.fn, pos: loop.pos})
		for _, ev := range s.tr.list() {
			tr = tr.add(ev)
		}
		s.tr = tr
	}
	for _, k := range order {
		p := parts[k]
		if p.sk == nil {
			continue
		}
		for _, o := range p.sk.outs {
			attach(o.st, k)
			if o.st.dead {
				continue
			}
			sk.outs = append(sk.outs, o)
		}
		for _, x := range p.sk.exits {
			attach(x.st, k)
			if x.st.dead {
				continue
			}
			e.enter(x.st, x.from, x.to, L, sk)
		}
	}
}

func loopSym(e *Eng, lid, cell string, typ types.Type) *Term {
	t := e.tt.Unk(fmt.Sprintf("φ[%s]%d", cell, e.ctx("loop:"+lid+":"+cell)), typ)
	if t.typ == nil {
		t.typ = typ
	}
	// for the loops around, a value of one of their iterations
	for i := 0; i+1 < len(e.active); i++ {
		e.active[i].created[t] = true
	}
	return t
}

func (e *Eng) addProv(t *Term, vs ...*Term) {
	m := e.tt.prov[t]
	if m == nil {
		m = map[*Term]bool{}
		e.tt.prov[t] = m
	}
	for _, v := range vs {
		if v != nil && v != t {
			m[v] = true
		}
	}
}

func termType(t *Term, fallback types.Type) types.Type {
	if fallback != nil {
		return fallback
	}
	return t.typ
}

// forget replaces values created in the previous iteration by loop-carried
// unknowns, so that they are not confused with those of the next one.
func (e *Eng) forget(st *State, hdr *ssa.BasicBlock, lid string, lc *loopCtx) {
	cr := lc.created
	repl := func(cell string, v *Term, typ types.Type) *Term {
		if !v.mentions(cr) {
			return v
		}
		if v.op == OpIface && !v.args[0].mentions(cr) {
			return v
		}
		s := loopSym(e, lid, cell, termType(v, typ))
		if v != s {
			iv := st.ivalOf(v)
			nn := st.nonNil(v)
			e.addProv(s, v)
			defer func() {
				if isInt(s.typ) && (iv.hasLo || iv.hasHi) {
					st.iv[s] = ival{lo: iv.lo, hi: iv.hi, hasLo: iv.hasLo, hasHi: iv.hasHi}
				}
				if nn {
					st.nn[s] = true
				}
			}()
		}
		return s
	}
	env := st.top().env
	type upd struct {
		s  *Term
		nn bool
		iv ival
	}
	newEnv := map[*ssa.Phi]*Term{}
	pendNN := map[*Term]bool{}
	pendIV := map[*Term]ival{}
	pend := func(v, s *Term) {
		if v == s {
			if st.nonNil(v) {
				pendNN[s] = true
			}
			if iv := st.ivalOf(v); iv.hasLo || iv.hasHi {
				pendIV[s] = ival{lo: iv.lo, hi: iv.hi, hasLo: iv.hasLo, hasHi: iv.hasHi}
			}
			return
		}
		if st.nonNil(v) {
			pendNN[s] = true
		}
		if isInt(s.typ) {
			if iv := st.ivalOf(v); iv.hasLo || iv.hasHi {
				pendIV[s] = ival{lo: iv.lo, hi: iv.hi, hasLo: iv.hasLo, hasHi: iv.hasHi}
			}
		}
	}
	_ = repl
	one := func(cell string, v *Term, typ types.Type) *Term {
		if !v.mentions(cr) {
			return v
		}
		if v.op == OpIface {
			in := v.args[0]
			s := loopSym(e, lid, cell+".dyn", in.typ)
			e.addProv(s, in)
			pend(in, s)
			// keep the dynamic type
			return e.tt.Iface(v.typ, s)
		}
		s := loopSym(e, lid, cell, termType(v, typ))
		e.addProv(s, v)
		pend(v, s)
		return s
	}
	for _, p := range hdrPhis(hdr) {
		v := st.canon(env[p])
		newEnv[p] = one(phiName(p), v, p.Type())
	}
	mem := map[*Term]*Term{}
	for k, v := range st.mem {
		if k.mentions(cr) {
			st.stale(k, cr)
			continue
		}
		mem[k] = one("*"+k.path(0), st.canon(v), elemType(k))
	}
	e.dropCreated(st, cr)
	st.mem = mem
	for p, v := range newEnv {
		env[p] = v
		cr[v] = cr[v] || v.op == OpUnk && strings.HasPrefix(v.name, "φ")
	}
	for s := range pendNN {
		st.nn[s] = true
	}
	for s, v := range pendIV {
		st.iv[s] = v
	}
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment + "." + p.Name()
	}
	return p.Name()
}

func elemType(addr *Term) types.Type {
	if addr.typ == nil {
		return nil
	}
	if p, ok := addr.typ.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// dropCreated removes facts about values of one iteration.
func (e *Eng) dropCreated(st *State, cr map[*Term]bool) {
	for k := range st.facts {
		if k.mentions(cr) {
			delete(st.facts, k)
		}
	}
	for k := range st.nn {
		if k.mentions(cr) {
			delete(st.nn, k)
		}
	}
	for k := range st.iv {
		if k.mentions(cr) {
			delete(st.iv, k)
		}
	}
	for k, v := range st.subst {
		if k.mentions(cr) || v.mentions(cr) {
			delete(st.subst, k)
		}
	}
	for k := range st.fresh {
		if cr[k] {
			delete(st.fresh, k)
		}
	}
	for k, h := range st.maps {
		if k.mentions(cr) {
			delete(st.maps, k)
			continue
		}
		for x := h; x != nil; x = x.prev {
			if x.kind != 2 && (x.k.mentions(cr) || x.v != nil && x.v.mentions(cr)) {
				st.maps[k] = &MapH{kind: 2, id: e.havocID("drop", k)}
				break
			}
		}
	}
}

func (e *Eng) havocID(why string, m *Term) int {
	return 1000000 + e.ctx(fmt.Sprintf("havoc:%s:%d:%d", why, m.id, len(e.active)))
}

// stale notes that an element of an otherwise new slice was set in an earlier
// iteration: what is not known of its content is no longer zero.
func (st *State) stale(k *Term, cr map[*Term]bool) bool {
	r := k.root()
	if r.op != OpNew || cr[r] || !st.fresh[r] {
		return false
	}
	for a := k; a.op == OpElem || a.op == OpField; a = a.args[0] {
		if a.op == OpElem && a.args[1].mentions(cr) {
			delete(st.fresh, r)
			return true
		}
	}
	return false
}

// widen joins the state of a back edge into the header state.
func (e *Eng) widen(q *part, b *State, hdr *ssa.BasicBlock, lid string, lc *loopCtx) bool {
	a := q.st
	cr := lc.created
	changed := false
	type pd struct {
		s, va, vb *Term
	}
	var pds []pd
	joinVal := func(cell string, va, vb *Term, typ types.Type) *Term {
		if va == vb && !(va.op != OpUnk && vb.mentions(cr)) {
			if va.op == OpUnk && cr[va] {
				pds = append(pds, pd{va, va, vb})
			}
			return va
		}
		if va.op == OpIface && vb.op == OpIface && typeKey(va.typ) == typeKey(vb.typ) {
			s := loopSym(e, lid, cell+".dyn", va.args[0].typ)
			if va.args[0] != s {
				changed = true
			}
			e.addProv(s, va.args[0], vb.args[0])
			pds = append(pds, pd{s, va.args[0], vb.args[0]})
			return e.tt.Iface(va.typ, s)
		}
		s := loopSym(e, lid, cell, termType(va, typ))
		e.addProv(s, va, vb)
		pds = append(pds, pd{s, va, vb})
		if va != s {
			changed = true
		}
		return s
	}
	ea, eb := a.top().env, b.top().env
	newEnv := map[*ssa.Phi]*Term{}
	for _, p := range hdrPhis(hdr) {
		newEnv[p] = joinVal(phiName(p), a.canon(ea[p]), b.canon(eb[p]), p.Type())
	}
	keys := map[*Term]bool{}
	for k := range a.mem {
		keys[k] = true
	}
	for k := range b.mem {
		if !k.mentions(cr) {
			keys[k] = true
		} else if a.stale(k, cr) {
			changed = true
		}
	}
	ks := make([]*Term, 0, len(keys))
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	newMem := map[*Term]*Term{}
	for _, k := range ks {
		t := elemType(k)
		if t == nil {
			continue
		}
		va := a.load(k, t)
		vb := b.load(k, t)
		newMem[k] = joinVal("*"+k.path(0), va, vb, t)
	}
	// facts that hold in both
	nnOf := map[*Term]bool{}
	ivOf := map[*Term]ival{}
	for _, d := range pds {
		if a.nonNil(d.va) && b.nonNil(d.vb) {
			if v, ok := nnOf[d.s]; ok && !v {
				continue
			}
			nnOf[d.s] = true
		} else {
			nnOf[d.s] = false
		}
		if isInt(d.s.typ) {
			av, bv := a.ivalOf(d.va), b.ivalOf(d.vb)
			j := av.join(bv)
			if d.va == d.s { // widening
				if !(av.hasLo && j.hasLo && j.lo == av.lo) {
					j.hasLo = false
				}
				if !(av.hasHi && j.hasHi && j.hi == av.hi) {
					j.hasHi = false
				}
			}
			ivOf[d.s] = j
		}
	}
	isLoopSym := map[*Term]bool{}
	for _, d := range pds {
		isLoopSym[d.s] = true
	}
	for k, v := range a.facts {
		bv, ok := b.facts[k]
		if !ok {
			x, known := b.evalBool(b.canon(k))
			bv, ok = x, known
		}
		if !ok || bv != v || k.mentions(isLoopSym) {
			delete(a.facts, k)
			changed = true
		}
	}
	for k := range a.nn {
		if want, isSym := nnOf[k]; isSym {
			if !want {
				delete(a.nn, k)
				changed = true
			}
			continue
		}
		if !b.nonNil(b.canon(k)) {
			delete(a.nn, k)
			changed = true
		}
	}
	for k, v := range a.iv {
		if _, isSym := ivOf[k]; isSym {
			continue
		}
		bv := b.ivalOf(b.canon(k))
		j := v.join(bv)
		if j.hasLo != v.hasLo || j.hasHi != v.hasHi || j.hasLo && j.lo != v.lo || j.hasHi && j.hi != v.hi {
			changed = true
			if v.hasLo && !(j.hasLo && j.lo == v.lo) {
				j.hasLo = false
			}
			if v.hasHi && !(j.hasHi && j.hi == v.hi) {
				j.hasHi = false
			}
			a.iv[k] = j
		} else if len(v.ne) > 0 {
			for c := range v.ne {
				if bv.contains(c) {
					j2 := v
					j2.ne = nil
					a.iv[k] = j2
					changed = true
					break
				}
			}
		}
	}
	for k := range a.subst {
		if _, ok := b.subst[k]; !ok {
			// b keeps no such equality; it can only be lost if it was about
			// iteration values
			if b.canon(k) != a.canon(k) {
				delete(a.subst, k)
				changed = true
			}
		}
	}
	for m, hb := range b.maps {
		if m.mentions(cr) {
			continue
		}
		ha := a.maps[m]
		if ha != hb {
			id := e.havocID("loop:"+lid, m)
			if ha == nil || ha.kind != 2 || ha.id != id {
				a.maps[m] = &MapH{kind: 2, id: id}
				changed = true
			}
		}
	}
	for p, v := range newEnv {
		ea[p] = v
	}
	a.mem = newMem
	for s := range isLoopSym {
		cr[s] = true
		if nnOf[s] {
			a.nn[s] = true
		}
		if iv, ok := ivOf[s]; ok {
			old, had := a.iv[s]
			if !had && (iv.hasLo || iv.hasHi) || had && (old.hasLo != iv.hasLo || old.hasHi != iv.hasHi || old.hasLo && old.lo != iv.lo || old.hasHi && old.hi != iv.hi) {
				changed = true
			}
			if iv.hasLo || iv.hasHi {
				a.iv[s] = iv
			} else {
				delete(a.iv, s)
			}
		}
	}
	return changed
}

// val evaluates an operand.
func (e *Eng) val(st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if isPtrLike(x.Type()) {
				return e.tt.Nil()
			}
			return e.zero(x.Type())
		}
		return e.tt.Const(x.Value, x.Type())
	case *ssa.Function:
		return e.tt.mk(OpFunc, "", 0, x.Type(), x)
	case *ssa.Global:
		return e.tt.mk(OpGlobal, x.Name(), 0, x.Type(), nil)
	case *ssa.Builtin:
		return e.tt.App("builtin:"+x.Name(), x.Type())
	}
	t := st.top().env[v]
	if t == nil {
		t = e.unk(st, "undef."+v.Name(), "undef:"+st.top().ctx+v.Name(), v.Type())
	}
	return st.canon(t)
}

func (e *Eng) uid(st *State, in ssa.Instruction) string {
	b := in.Block()
	idx := 0
	for i, x := range b.Instrs {
		if x == in {
			idx = i
			break
		}
	}
	return fmt.Sprintf("%s/%s:%d.%d", st.top().ctx, in.Parent().String(), b.Index, idx)
}

// exec interprets a block from instruction i on.
func (e *Eng) exec(st *State, b *ssa.BasicBlock, i int, L *loopCtx, sk *sink) {
	for ; i < len(b.Instrs); i++ {
		e.steps++
		if e.steps > e.maxSteps {
			e.over = true
		}
		if e.over {
			return
		}
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			cond := e.val(st, x.Cond)
			if L != nil && b == L.header {
				// loop tests are always on record
				if v, known := st.evalBool(cond); known {
					if bo, ok := x.Cond.(*ssa.BinOp); ok && (bo.Op == token.LSS || bo.Op == token.GTR) {
						p, q := e.val(st, bo.X), e.val(st, bo.Y)
						if bo.Op == token.GTR {
							p, q = q, p
						}
						if !p.isConst() || !q.isConst() {
							st.event(&Event{kind: EvAssume, args: []*Term{e.tt.App("lt", types.Typ[types.Bool], p, q)}, truth: v, pos: x.Cond.Pos()})
						}
					}
				}
			}
			for _, br := range e.branch(st, cond, x) {
				t := b.Succs[0]
				if !br.truth {
					t = b.Succs[1]
				}
				e.enter(br.st, b, t, L, sk)
			}
			return
		case *ssa.Jump:
			e.enter(st, b, b.Succs[0], L, sk)
			return
		case *ssa.Return:
			var rs []*Term
			for _, r := range x.Results {
				rs = append(rs, e.val(st, r))
			}
			sk.outs = append(sk.outs, Outcome{st: st, ret: rs, pos: x.Pos()})
			return
		case *ssa.Panic:
			e.doPanic(st, b.Parent(), "panic", x.Pos(), sk)
			return
		case *ssa.Call:
			res := e.doCall(st, x.Common(), x, x.Type())
			for _, r := range res {
				if r.panic {
					e.doPanic(r.st, b.Parent(), "call panics", x.Pos(), sk)
					continue
				}
				r.st.top().env[x] = r.val
				if len(res) == 1 {
					st = r.st
				} else {
					e.exec(r.st, b, i+1, L, sk)
				}
			}
			if len(res) != 1 || res[0].panic {
				return
			}
			continue
		case *ssa.Defer:
			d := deferred{instr: x, common: x.Common()}
			if !x.Call.IsInvoke() {
				d.fn = e.val(st, x.Call.Value)
			} else {
				d.fn = e.val(st, x.Call.Value)
			}
			for _, a := range x.Call.Args {
				d.args = append(d.args, e.val(st, a))
			}
			st.top().defers = append(st.top().defers, d)
			continue
		case *ssa.RunDefers:
			sts := e.runDefers(st, sk)
			for _, s := range sts {
				e.exec(s, b, i+1, L, sk)
			}
			return
		}
		ok, why := e.step(st, in)
		if !ok {
			if why != "" {
				e.doPanic(st, b.Parent(), why, in.Pos(), sk)
			}
			return
		}
		if st.dead {
			return
		}
		// comma-ok and iteration instructions may need splitting; handled lazily at branches
	}
}

// doPanic unwinds: deferred calls run, and may recover.
func (e *Eng) doPanic(st *State, fn *ssa.Function, why string, pos token.Pos, sk *sink) {
	fr := st.top()
	if len(fr.defers) == 0 {
		sk.outs = append(sk.outs, Outcome{st: st, panic: true, panicIs: why, pos: pos})
		return
	}
	fr.panicking = true
	for _, s := range e.runDefers(st, sk) {
		f := s.top()
		if f.panicking {
			sk.outs = append(sk.outs, Outcome{st: s, panic: true, panicIs: why, pos: pos})
			continue
		}
		// recovered: return the named results
		if fn.Recover != nil {
			sub := &sink{}
			e.enter(s, nil, fn.Recover, nil, sub)
			sk.outs = append(sk.outs, sub.outs...)
		} else {
			var rs []*Term
			res := fn.Signature.Results()
			for i := 0; i < res.Len(); i++ {
				rs = append(rs, e.zero(res.At(i).Type()))
			}
			sk.outs = append(sk.outs, Outcome{st: s, ret: rs, pos: pos})
		}
	}
}

func (e *Eng) runDefers(st *State, sk *sink) []*State {
	states := []*State{st}
	for {
		var next []*State
		progress := false
		for _, s := range states {
			f := s.top()
			n := len(f.defers)
			if n == 0 {
				next = append(next, s)
				continue
			}
			progress = true
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			for _, r := range e.applyDeferred(s, d) {
				next = append(next, r)
			}
		}
		states = next
		if !progress {
			return states
		}
	}
}

func (e *Eng) applyDeferred(st *State, d deferred) []*State {
	var out []*State
	fnT := st.canon(d.fn)
	uid := e.uid(st, d.instr)
	if !d.common.IsInvoke() && (fnT.op == OpClos || fnT.op == OpFunc) && fnT.fn.Blocks != nil {
		for _, o := range e.call(fnT.fn, d.args, fnT.args, st, uid) {
			if !o.panic {
				out = append(out, o.st)
			} else {
				o.st.top().panicking = true
				out = append(out, o.st)
			}
		}
		return out
	}
	ev := &Event{kind: EvCall, name: "defer", args: d.args, pos: d.instr.Pos()}
	if d.common.IsInvoke() {
		ev.name = d.common.Method.Name()
		ev.invoke = true
		ev.args = append([]*Term{fnT}, d.args...)
	} else if fnT.fn != nil {
		ev.fn = fnT.fn
		ev.name = fnName(fnT.fn)
	}
	st.event(ev)
	return []*State{st}
}

type brRes struct {
	st    *State
	truth bool
}

func (e *Eng) branch(st *State, cond *Term, at ssa.Instruction) []brRes {
	cond = st.canon(cond)
	if v, known := st.evalBool(cond); known {
		return []brRes{{st, v}}
	}
	c := cond
	neg := false
	if c.op == OpApp && c.name == "not" {
		c, neg = c.args[0], true
	}
	pos := at.Pos()
	if !pos.IsValid() {
		if i, ok := at.(*ssa.If); ok {
			pos = i.Cond.Pos()
		}
	}
	var out []brRes
	other := st.clone()
	st.event(&Event{kind: EvAssume, args: []*Term{c}, truth: !neg, pos: pos})
	if st.assume(cond, true) {
		out = append(out, brRes{st, true})
	}
	other.event(&Event{kind: EvAssume, args: []*Term{c}, truth: neg, pos: pos})
	if other.assume(cond, false) {
		out = append(out, brRes{other, false})
	}
	return out
}
