package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// EvKind is the kind of a trace event.
type EvKind int

const (
	EvCall   EvKind = iota // a call that was not inlined
	EvStore                // store to a location
	EvMapUpd               // map[k]=v
	EvMapDel               // delete(map,k)
	EvAssume               // branch decision
	EvLoop                 // summary of the complete iterations of a loop
	EvDeref                // dereference of a value not known to be non-nil
	EvEnter                // entering an inlined function
	EvLeave                // leaving an inlined function
	EvGo                   // go statement, channel operation
	EvIter                 // step of a range loop over a map: map, key, value; result: more
)

// Event is an abstract effect on a trace.
type Event struct {
	kind    EvKind
	name    string // callee name, or description
	fn      *ssa.Function
	args    []*Term
	res     *Term
	truth   bool
	loop    *Loop
	key     string // partition reached when leaving the loop
	pos     token.Pos
	in      *ssa.Function // function containing the event
	invoke  bool
	dynamic bool // call of an unknown function value (args[0])
}

type Trace struct {
	prev *Trace
	ev   *Event
	n    int
}

func (t *Trace) add(ev *Event) *Trace {
	n := 1
	if t != nil {
		n = t.n + 1
	}
	return &Trace{prev: t, ev: ev, n: n}
}

func (t *Trace) list() []*Event {
	if t == nil {
		return nil
	}
	out := make([]*Event, t.n)
	for i := t.n - 1; i >= 0; i-- {
		out[i] = t.ev
		t = t.prev
	}
	return out
}

// Loop summarises a loop: its complete iterations, grouped by the
// partition of the state at the loop header.
type Loop struct {
	id    string
	pos   token.Pos
	entry string
	segs  []*Seg
	init  map[*ssa.Phi]*Term // loop variables on entry
	start *State             // state on entry
	hdr   map[string]*State  // invariant at the head, per partition
}

// Seg is one abstract iteration of a loop.
type Seg struct {
	from, to  string
	events    []*Event
	st        *State             // state at the end of the iteration
	hdr, next map[*ssa.Phi]*Term // loop variables before and after
}

type ival struct {
	lo, hi       int64
	hasLo, hasHi bool
	ne           map[int64]bool
}

// MapH is the update history of a map.
type MapH struct {
	prev *MapH
	kind int // 0 update 1 delete 2 havoc
	k, v *Term
	id   int
}

type deferred struct {
	instr  *ssa.Defer
	fn     *Term
	args   []*Term
	common *ssa.CallCommon
}

type Frame struct {
	fn        *ssa.Function
	env       map[ssa.Value]*Term
	defers    []deferred
	ctx       string
	panicking bool
	recovered bool
}

// State is an abstract state: value-numbered store, facts and trace.
type State struct {
	e      *Eng
	mem    map[*Term]*Term
	fresh  map[*Term]bool
	maps   map[*Term]*MapH
	facts  map[*Term]bool
	nn     map[*Term]bool
	iv     map[*Term]ival
	subst  map[*Term]*Term
	frames []*Frame
	tr     *Trace
	calls  *Trace // all calls so far, never cut
	dead   bool
}

func (e *Eng) newState() *State {
	return &State{e: e, mem: map[*Term]*Term{}, fresh: map[*Term]bool{}, maps: map[*Term]*MapH{},
		facts: map[*Term]bool{}, nn: map[*Term]bool{}, iv: map[*Term]ival{}, subst: map[*Term]*Term{}}
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+2)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (st *State) clone() *State {
	n := &State{e: st.e, mem: cp(st.mem), fresh: cp(st.fresh), maps: cp(st.maps), facts: cp(st.facts),
		nn: cp(st.nn), iv: cp(st.iv), subst: cp(st.subst), tr: st.tr, calls: st.calls}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		nf := *f
		nf.env = cp(f.env)
		nf.defers = append([]deferred(nil), f.defers...)
		n.frames[i] = &nf
	}
	return n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) event(ev *Event) {
	if len(st.frames) > 0 {
		ev.in = st.top().fn
	}
	st.tr = st.tr.add(ev)
	if ev.kind == EvCall {
		st.calls = st.calls.add(ev)
	}
}

// callOf gives the call t is a result of, on this path.
func (st *State) callOf(t *Term) *Event {
	if t == nil || t.op != OpUnk || t.call == nil {
		return nil
	}
	for c := st.calls; c != nil; c = c.prev {
		r := c.ev.res
		if r == t {
			return c.ev
		}
		if r != nil && r.op == OpTuple {
			for _, a := range r.args {
				if a == t {
					return c.ev
				}
			}
		}
	}
	return t.call
}

// canon rewrites t by the equalities assumed on this path.
func (st *State) canon(t *Term) *Term {
	if len(st.subst) == 0 || t == nil {
		return t
	}
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		memo[t] = t
		if s, ok := st.subst[t]; ok {
			r := rec(s)
			memo[t] = r
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		changed := false
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = rec(a)
			if args[i] != a {
				changed = true
			}
		}
		r := t
		if changed {
			r = st.e.tt.mk(t.op, t.name, t.idx, t.typ, t.fn, args...)
			if r.src == nil {
				r.src = t.src
			}
			if t.op == OpConst {
				r.cv = t.cv
			}
			if s, ok := st.subst[r]; ok && s != t {
				r = rec(s)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rank(t *Term) int {
	switch t.op {
	case OpConst, OpNil:
		return 0
	case OpNew:
		return 1
	case OpParam, OpGlobal, OpFunc, OpClos:
		return 2
	case OpIface, OpStruct:
		return 3
	}
	return 4
}

// addEq records a==b. Returns false if that is impossible.
func (st *State) addEq(a, b *Term) bool {
	a, b = st.canon(a), st.canon(b)
	if a == b {
		return true
	}
	if a.op == OpIface && b.op == OpIface {
		if typeKey(a.typ) != typeKey(b.typ) {
			return false
		}
		return st.addEq(a.args[0], b.args[0])
	}
	if a.op == OpStruct && b.op == OpStruct && len(a.args) == len(b.args) {
		for i := range a.args {
			if !st.addEq(a.args[i], b.args[i]) {
				return false
			}
		}
		return true
	}
	ra, rb := rank(a), rank(b)
	if ra < rb || (ra == rb && (a.id < b.id && !a.contains(b) || b.contains(a))) {
		a, b = b, a
	}
	// replace a by b
	if b.contains(a) || a.isConst() || a.isNil() {
		return !(a.isConst() && b.isConst() || a.isNil() && b.isNil() || a.isNil() && b.isConst())
	}
	if b.isNil() && st.nn[a] {
		return false
	}
	if c, ok := b.constInt(); ok {
		if base, off, ok := st.linear(a); ok {
			if iv, ok := st.iv[base]; ok && !iv.contains(c-off) {
				return false
			}
			if base != a {
				return st.addEq(base, st.e.tt.Int(c-off))
			}
		}
	}
	nnA := st.nn[a]
	ivA, hasIv := st.iv[a]
	st.subst[a] = b
	if nnA {
		st.nn[b] = true
	}
	if hasIv {
		if _, isc := b.constInt(); !isc {
			st.iv[b] = st.iv[b].meet(ivA)
		}
	}
	st.rewrite()
	return !st.dead
}

func (st *State) rewrite() {
	mem := map[*Term]*Term{}
	keys := make([]*Term, 0, len(st.mem))
	for k := range st.mem {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	for _, k := range keys {
		mem[st.canon(k)] = st.canon(st.mem[k])
	}
	st.mem = mem
	maps := map[*Term]*MapH{}
	for k, v := range st.maps {
		maps[st.canon(k)] = v
	}
	st.maps = maps
	facts := map[*Term]bool{}
	for k, v := range st.facts {
		nk := st.canon(k)
		if b, known := st.evalBool(nk); known && b != v {
			st.dead = true
		}
		facts[nk] = v
	}
	st.facts = facts
	nn := map[*Term]bool{}
	for k := range st.nn {
		nk := st.canon(k)
		if nk.isNil() {
			st.dead = true
		}
		nn[nk] = true
	}
	st.nn = nn
	iv := map[*Term]ival{}
	for k, v := range st.iv {
		nk := st.canon(k)
		if c, ok := nk.constInt(); ok {
			if !v.contains(c) {
				st.dead = true
			}
			continue
		}
		iv[nk] = v
	}
	st.iv = iv
}

func (v ival) contains(c int64) bool {
	if v.hasLo && c < v.lo || v.hasHi && c > v.hi || v.ne[c] {
		return false
	}
	return true
}

func (v ival) meet(o ival) ival {
	r := v
	if o.hasLo && (!r.hasLo || o.lo > r.lo) {
		r.lo, r.hasLo = o.lo, true
	}
	if o.hasHi && (!r.hasHi || o.hi < r.hi) {
		r.hi, r.hasHi = o.hi, true
	}
	if len(o.ne) > 0 {
		r.ne = cp(r.ne)
		for k := range o.ne {
			r.ne[k] = true
		}
	}
	return r.norm()
}

func (v ival) norm() ival {
	for v.hasLo && v.ne[v.lo] {
		v.lo++
	}
	for v.hasHi && v.ne[v.hi] {
		v.hi--
	}
	return v
}

func (v ival) empty() bool { return v.hasLo && v.hasHi && v.lo > v.hi }

func (v ival) shift(o int64) ival {
	r := ival{lo: v.lo + o, hi: v.hi + o, hasLo: v.hasLo, hasHi: v.hasHi}
	if len(v.ne) > 0 {
		r.ne = map[int64]bool{}
		for k := range v.ne {
			r.ne[k+o] = true
		}
	}
	return r
}

func (v ival) join(o ival) ival {
	r := ival{}
	if v.hasLo && o.hasLo {
		r.hasLo, r.lo = true, min(v.lo, o.lo)
	}
	if v.hasHi && o.hasHi {
		r.hasHi, r.hi = true, max(v.hi, o.hi)
	}
	return r
}

// linear splits an integer term into base+offset.
func (st *State) linear(t *Term) (*Term, int64, bool) {
	off := int64(0)
	for t.op == OpApp && t.name == "+" && len(t.args) == 2 {
		c, ok := t.args[1].constInt()
		if !ok {
			break
		}
		off += c
		t = t.args[0]
	}
	return t, off, true
}

func (st *State) ivalOf(t *Term) ival {
	if c, ok := t.constInt(); ok {
		return ival{lo: c, hi: c, hasLo: true, hasHi: true}
	}
	b, off, _ := st.linear(t)
	if c, ok := b.constInt(); ok {
		return ival{lo: c + off, hi: c + off, hasLo: true, hasHi: true}
	}
	v := st.iv[b]
	if b.op == OpApp && b.name == "len" {
		v = v.meet(ival{hasLo: true})
	}
	return v.shift(off)
}

// setIv narrows the interval of t.
func (st *State) setIv(t *Term, v ival) bool {
	b, off, _ := st.linear(t)
	if c, ok := b.constInt(); ok {
		return v.contains(c + off)
	}
	nv := st.ivalOf(b).meet(v.shift(-off))
	if nv.empty() {
		return false
	}
	st.iv[b] = nv
	if nv.hasLo && nv.hasHi && nv.lo == nv.hi {
		return st.addEq(b, st.e.tt.Int(nv.lo))
	}
	return true
}

func isPtrLike(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	return false
}

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// nonNil reports whether t is known not to be nil.
func (st *State) nonNil(t *Term) bool {
	switch t.op {
	case OpNew, OpField, OpElem, OpGlobal, OpFunc, OpClos, OpIface, OpStruct, OpConst:
		return true
	case OpApp:
		if t.name == "slicelit" || t.name == "append" || t.name == "makeslice" {
			return true
		}
	}
	if st.nn[t] {
		return true
	}
	if x, _, ok := asOf(t); ok && x.op == OpUnk && x.call != nil && libraryGet(x.call.name) && x.call.res.op == OpTuple {
		// what the package keeps in the containers of its libraries is not nil
		if f, known := st.facts[x.call.res.args[1]]; known && f {
			return true
		}
	}
	return false
}

// libraryGet: lookups of library containers, which give a value and whether
// it was found.
func libraryGet(n string) bool {
	return strings.HasSuffix(n, "linkedhashmap.Map).Get") || strings.HasSuffix(n, "btree.Tree).Get")
}

// evalBool decides a boolean term, if the state determines it.
func (st *State) evalBool(t *Term) (val, known bool) {
	if b, ok := t.constBool(); ok {
		return b, true
	}
	if v, ok := st.facts[t]; ok {
		return v, true
	}
	if t.op != OpApp {
		return false, false
	}
	tt := st.e.tt
	switch t.name {
	case "not":
		v, k := st.evalBool(t.args[0])
		return !v, k
	case "eq":
		a, b := t.args[0], t.args[1]
		if a == b {
			return true, true
		}
		if a.op == OpIface && b.op == OpIface {
			if typeKey(a.typ) != typeKey(b.typ) {
				return false, true
			}
			return st.evalBool(tt.eq(a.args[0], b.args[0]))
		}
		if a.op == OpStruct && b.op == OpStruct && len(a.args) == len(b.args) {
			all := true
			for i := range a.args {
				v, k := st.evalBool(tt.eq(a.args[i], b.args[i]))
				if k && !v {
					return false, true
				}
				if !k {
					all = false
				}
			}
			return true, all
		}
		if a.isConst() && b.isConst() {
			return false, true
		}
		if a.isNil() && st.nonNil(b) || b.isNil() && st.nonNil(a) {
			return false, true
		}
		if a.op == OpNew && b.op == OpNew {
			return false, true
		}
		if st.distinct(a, b) {
			return false, true
		}
		if isInt(a.typ) || isInt(b.typ) {
			ba, oa, _ := st.linear(a)
			bb, ob, _ := st.linear(b)
			if ba == bb {
				return oa == ob, true
			}
			if c, ok := b.constInt(); ok && !st.ivalOf(a).contains(c) {
				return false, true
			}
			if c, ok := a.constInt(); ok && !st.ivalOf(b).contains(c) {
				return false, true
			}
		}
		if v, ok := st.facts[tt.lt(a, b)]; ok && v {
			return false, true
		}
		if v, ok := st.facts[tt.lt(b, a)]; ok && v {
			return false, true
		}
	case "lt":
		a, b := t.args[0], t.args[1]
		if a == b {
			return false, true
		}
		if a.isConst() && b.isConst() && a.cv != nil && b.cv != nil && a.cv.Kind() == b.cv.Kind() {
			ai, ok1 := a.constInt()
			bi, ok2 := b.constInt()
			if ok1 && ok2 {
				return ai < bi, true
			}
			as, ok1 := a.constStr()
			bs, ok2 := b.constStr()
			if ok1 && ok2 {
				return as < bs, true
			}
		}
		ba, oa, _ := st.linear(a)
		bb, ob, _ := st.linear(b)
		if ba == bb {
			return oa < ob, true
		}
		if isInt(a.typ) || isInt(b.typ) {
			va, vb := st.ivalOf(a), st.ivalOf(b)
			if va.hasHi && vb.hasLo && va.hi < vb.lo {
				return true, true
			}
			if va.hasLo && vb.hasHi && va.lo >= vb.hi {
				return false, true
			}
		}
		if v, ok := st.facts[tt.lt(b, a)]; ok {
			if v {
				return false, true
			}
			if ev, ok := st.facts[tt.eq(a, b)]; ok && !ev {
				return true, true
			}
		}
	case "has":
		if st.maps[t.args[0]] == nil || true {
			l := tt.App("len", types.Typ[types.Int], t.args[0], t.args[2])
			iv := st.ivalOf(st.canon(l))
			if iv.hasHi && iv.hi <= 0 {
				return false, true
			}
		}
	case "typeis":
		// typeis(v) of another concrete type already known
	}
	return false, false
}

// distinct reports whether two addresses certainly differ.
func (st *State) distinct(a, b *Term) bool {
	isObj := func(t *Term) bool { return t.op == OpNew }
	if isObj(a) && (b.op == OpParam || b.op == OpInit || b.op == OpField || b.op == OpElem) && !b.contains(a) {
		return true
	}
	if isObj(b) && (a.op == OpParam || a.op == OpInit || a.op == OpField || a.op == OpElem) && !a.contains(b) {
		return true
	}
	return false
}

// assume adds a fact. Returns false if it contradicts the state.
func (st *State) assume(t *Term, v bool) bool {
	t = st.canon(t)
	if b, known := st.evalBool(t); known {
		return b == v
	}
	tt := st.e.tt
	if t.op == OpApp && t.name == "not" {
		return st.assume(t.args[0], !v)
	}
	if t.op == OpApp && t.name == "eq" {
		a, b := t.args[0], t.args[1]
		if v {
			ok := st.addEq(a, b)
			return ok && !st.dead
		}
		if a.isNil() {
			a, b = b, a
		}
		if b.isNil() {
			st.nn[a] = true
			return true
		}
		if c, ok := b.constInt(); ok {
			return st.setIv(a, ival{ne: map[int64]bool{c: true}}) && !st.dead
		}
		if c, ok := a.constInt(); ok {
			return st.setIv(b, ival{ne: map[int64]bool{c: true}}) && !st.dead
		}
	}
	if t.op == OpApp && t.name == "lt" {
		a, b := t.args[0], t.args[1]
		if c, ok := b.constInt(); ok {
			if v {
				return st.setIv(a, ival{hasHi: true, hi: c - 1}) && !st.dead
			}
			return st.setIv(a, ival{hasLo: true, lo: c}) && !st.dead
		}
		if c, ok := a.constInt(); ok {
			if v {
				return st.setIv(b, ival{hasLo: true, lo: c + 1}) && !st.dead
			}
			return st.setIv(b, ival{hasHi: true, hi: c}) && !st.dead
		}
		if v && (isInt(a.typ) || isInt(b.typ)) {
			if va := st.ivalOf(a); va.hasLo {
				if !st.setIv(b, ival{hasLo: true, lo: va.lo + 1}) {
					return false
				}
			}
			if vb := st.ivalOf(b); vb.hasHi {
				if !st.setIv(a, ival{hasHi: true, hi: vb.hi - 1}) {
					return false
				}
			}
		}
		st.facts[t] = v
		if !v {
			if o, ok := st.facts[tt.lt(b, a)]; ok && !o {
				return st.addEq(a, b) && !st.dead
			}
		}
		return true
	}
	if ln := st.e.rangeLen[t]; ln != nil && v && !ln.isConst() {
		if !st.setIv(st.canon(ln), ival{hasLo: true, lo: 1}) {
			return false
		}
	}
	if v && app(t, "typeis") {
		st.nn[t.args[0]] = true
	}
	st.facts[t] = v
	return true
}

func (tt *Terms) eq(a, b *Term) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	return tt.App("eq", types.Typ[types.Bool], a, b)
}

// lt builds a<b with integer offsets moved to one side.
func (tt *Terms) lt(a, b *Term) *Term {
	return tt.App("lt", types.Typ[types.Bool], a, b)
}

func (tt *Terms) not(a *Term) *Term {
	if b, ok := a.constBool(); ok {
		return tt.Bool(!b)
	}
	if a.op == OpApp && a.name == "not" {
		return a.args[0]
	}
	return tt.App("not", types.Typ[types.Bool], a)
}

// zero value of a type
func (e *Eng) zero(t types.Type) *Term {
	if t == nil {
		return e.tt.Nil()
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.tt.Bool(false)
		case u.Info()&types.IsString != 0:
			return e.tt.Str("")
		case u.Info()&types.IsInteger != 0:
			return e.tt.Int(0)
		case u.Kind() == types.UntypedNil:
			return e.tt.Nil()
		}
		return e.tt.App("zero:"+typeKey(t), t)
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = e.zero(u.Field(i).Type())
		}
		return e.tt.Struct(t, args...)
	case *types.Array:
		return e.tt.App("zero:"+typeKey(t), t)
	}
	return e.tt.Nil()
}

func (st *State) freshRoot(a *Term) bool {
	r := a.root()
	return r.op == OpNew && st.fresh[r]
}

// load reads a location.
func (st *State) load(addr *Term, typ types.Type) *Term {
	e := st.e
	addr = st.canon(addr)
	if s, ok := typ.Underlying().(*types.Struct); ok {
		if v, ok := st.mem[addr]; ok {
			return st.canon(v)
		}
		args := make([]*Term, s.NumFields())
		for i := range args {
			f := s.Field(i)
			args[i] = st.load(e.tt.Field(addr, i, fieldName(f), f.Type()), f.Type())
		}
		return e.tt.Struct(typ, args...)
	}
	if v, ok := st.mem[addr]; ok {
		return st.canon(v)
	}
	if addr.op == OpField || addr.op == OpElem {
		// part of a whole value stored at the base?
		if bv, ok := st.mem[addr.args[0]]; ok && addr.op == OpField {
			return e.fieldOf(st.canon(bv), addr.idx, addr.name, typ)
		}
	}
	if st.freshRoot(addr) {
		return e.zero(typ)
	}
	return st.canon(e.tt.Init(addr, typ))
}

func (e *Eng) fieldOf(v *Term, i int, name string, typ types.Type) *Term {
	if v.op == OpStruct && i < len(v.args) {
		return v.args[i]
	}
	if v.op == OpInit {
		return e.tt.Init(e.tt.Field(v.args[0], i, name, typ), typ)
	}
	return e.tt.mk(OpFieldOf, name, i, typ, nil, v)
}

// store writes a location.
func (st *State) store(addr, val *Term, typ types.Type) {
	e := st.e
	addr = st.canon(addr)
	if s, ok := typ.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			st.store(e.tt.Field(addr, i, fieldName(f), f.Type()), e.fieldOf(val, i, fieldName(f), f.Type()), f.Type())
		}
		return
	}
	if a, ok := typ.Underlying().(*types.Array); ok {
		// forget elements
		for k := range st.mem {
			if k != addr && k.contains(addr) {
				delete(st.mem, k)
			}
		}
		if strings.HasPrefix(val.name, "zero:") {
			for i := int64(0); i < a.Len() && i < 16; i++ {
				st.store(e.tt.Elem(addr, e.tt.Int(i), a.Elem()), e.zero(a.Elem()), a.Elem())
			}
			return
		}
		st.mem[addr] = val
		return
	}
	st.aliases(addr)
	st.mem[addr] = val
}

// aliases: a store to an element of a made slice by an unknown index may
// change other elements of it.
func (st *State) aliases(addr *Term) {
	if addr.op != OpElem || addr.args[0].op != OpNew {
		return
	}
	base := addr.args[0]
	if _, made := base.src.(*ssa.MakeSlice); !made {
		return
	}
	if _, isC := addr.args[1].constInt(); !isC {
		delete(st.fresh, base)
	}
	b, o := st.affine(addr.args[1])
	for k := range st.mem {
		if k == addr || k.op != OpElem || k.args[0] != base {
			continue
		}
		b2, o2 := st.affine(k.args[1])
		if b2 == b && o2 != o {
			continue
		}
		delete(st.mem, k)
		delete(st.fresh, base)
	}
}

// mapVer identifies the version of a map's content for a key.
func (st *State) mapLookup(m, k *Term, typ types.Type) (val, has *Term) {
	e := st.e
	tt := e.tt
	m, k = st.canon(m), st.canon(k)
	if m.isNil() {
		return e.zero(typ), tt.Bool(false)
	}
	h := st.maps[m]
	ver := 0
	for ; h != nil; h = h.prev {
		if h.kind == 2 {
			ver = h.id
			break
		}
		hk := st.canon(h.k)
		v, known := st.evalBool(tt.eq(hk, k))
		if known && v {
			if h.kind == 1 {
				return e.zero(typ), tt.Bool(false)
			}
			return st.canon(h.v), tt.Bool(true)
		}
		if known && !v {
			continue
		}
		ver = h.id
		break
	}
	if h == nil && st.fresh[m] {
		return e.zero(typ), tt.Bool(false)
	}
	hasT := tt.App("has", types.Typ[types.Bool], m, k, tt.Int(int64(ver)))
	if b, known := st.evalBool(hasT); known && !b {
		return e.zero(typ), tt.Bool(false)
	} else if known {
		hasT = tt.Bool(true)
	}
	return st.canon(tt.App("mapget", typ, m, k, tt.Int(int64(ver)))), hasT
}

// mapDel notes that a key was removed. Removing a key just added gives the
// map as it was before.
func (st *State) mapDel(m, k *Term, id int) {
	h := st.maps[m]
	if h != nil && h.kind == 0 && st.canon(h.k) == st.canon(k) {
		st.maps[m] = h.prev
		_, has := st.mapLookup(m, k, types.Typ[types.Bool])
		if b, known := st.evalBool(has); known && !b {
			if h.prev == nil {
				delete(st.maps, m)
			}
			return
		}
		st.maps[m] = h
	}
	st.maps[m] = &MapH{prev: h, kind: 1, k: k, id: id}
}

func (st *State) mapLen(m *Term) *Term {
	tt := st.e.tt
	m = st.canon(m)
	if m.isNil() {
		return tt.Int(0)
	}
	h := st.maps[m]
	if h == nil {
		if st.fresh[m] {
			return tt.Int(0)
		}
		return st.canon(tt.App("len", types.Typ[types.Int], m, tt.Int(0)))
	}
	return st.canon(tt.App("len", types.Typ[types.Int], m, tt.Int(int64(h.id))))
}
