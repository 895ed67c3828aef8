package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// deref checks a pointer operand. ok=false: the path ends in a nil dereference.
func (e *Eng) deref(st *State, base *Term, pos token.Pos) bool {
	if base.isNil() {
		return false
	}
	if !st.nonNil(base) {
		if !e.noDeref {
			st.event(&Event{kind: EvDeref, args: []*Term{base}, pos: pos})
		}
		st.nn[base] = true
	}
	return true
}

const nilDeref = "nil dereference"

func (e *Eng) step(st *State, in ssa.Instruction) (bool, string) {
	env := st.top().env
	tt := e.tt
	switch x := in.(type) {
	case *ssa.Alloc:
		t := tt.mk(OpNew, fmt.Sprintf("new:%s#%d", typeKey(x.Type().Underlying().(*types.Pointer).Elem()), e.ctx(e.uid(st, x))), 0, x.Type(), nil)
		t.src = x
		e.note(t)
		for k := range st.mem {
			if k.root() == t {
				delete(st.mem, k)
			}
		}
		st.fresh[t] = true
		env[x] = t
	case *ssa.MakeMap:
		t := tt.mk(OpNew, fmt.Sprintf("map#%d", e.ctx(e.uid(st, x))), 0, x.Type(), nil)
		t.src = x
		e.note(t)
		st.fresh[t] = true
		delete(st.maps, t)
		env[x] = t
	case *ssa.MakeChan:
		env[x] = e.unk(st, "chan", e.uid(st, x), x.Type())
	case *ssa.MakeSlice:
		t := tt.mk(OpNew, fmt.Sprintf("slice#%d", e.ctx(e.uid(st, x))), 0, x.Type(), nil)
		t.src = x
		e.note(t)
		for k := range st.mem {
			if k.root() == t {
				delete(st.mem, k)
			}
		}
		st.fresh[t] = true
		env[x] = tt.App("makeslice", x.Type(), t, e.val(st, x.Len))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, e.val(st, b))
		}
		env[x] = tt.mk(OpClos, "", 0, x.Type(), x.Fn.(*ssa.Function), bs...)
	case *ssa.MakeInterface:
		env[x] = tt.Iface(x.X.Type(), e.val(st, x.X))
	case *ssa.ChangeInterface, *ssa.ChangeType:
		env[x.(ssa.Value)] = e.val(st, *in.Operands(nil)[0])
	case *ssa.Convert:
		v := e.val(st, x.X)
		env[x] = e.convert(v, x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		env[x] = tt.App("conv:"+typeKey(x.Type()), x.Type(), e.val(st, x.X))
	case *ssa.FieldAddr:
		base := e.val(st, x.X)
		if !e.deref(st, base, x.Pos()) {
			return false, nilDeref
		}
		s := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		f := s.Field(x.Field)
		env[x] = st.canon(tt.Field(base, x.Field, fieldName(f), f.Type()))
	case *ssa.Field:
		s := x.X.Type().Underlying().(*types.Struct)
		f := s.Field(x.Field)
		env[x] = st.canon(e.fieldOf(e.val(st, x.X), x.Field, fieldName(f), f.Type()))
	case *ssa.IndexAddr:
		base := e.val(st, x.X)
		if _, isPtr := x.X.Type().Underlying().(*types.Pointer); isPtr {
			if !e.deref(st, base, x.Pos()) {
				return false, nilDeref
			}
		} else if base.isNil() {
			return false, "index out of range"
		}
		idx := e.val(st, x.Index)
		et := x.Type().Underlying().(*types.Pointer).Elem()
		if c, ok := idx.constInt(); ok {
			if n, ok := e.sliceLen(st, base).constInt(); ok && c >= n {
				if _, isPtr := x.X.Type().Underlying().(*types.Pointer); !isPtr {
					return false, "index out of range"
				}
			}
		}
		env[x] = st.canon(e.elemAddr(base, idx, et))
	case *ssa.Index:
		env[x] = st.canon(tt.App("index", x.Type(), e.val(st, x.X), e.val(st, x.Index)))
	case *ssa.Lookup:
		m, k := e.val(st, x.X), e.val(st, x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			vt := x.X.Type().Underlying().(*types.Map).Elem()
			v, has := st.mapLookup(m, k, vt)
			if x.CommaOk {
				env[x] = tt.Tuple(v, has)
			} else {
				env[x] = v
			}
		} else {
			env[x] = tt.App("index", x.Type(), m, k)
		}
	case *ssa.MapUpdate:
		m, k, v := e.val(st, x.Map), e.val(st, x.Key), e.val(st, x.Value)
		if m.isNil() {
			return false, "assignment to nil map"
		}
		st.event(&Event{kind: EvMapUpd, args: []*Term{m, k, v}, pos: x.Pos()})
		id := 1 + e.ctx("mapupd:"+e.uid(st, x))
		st.maps[m] = &MapH{prev: st.maps[m], kind: 0, k: k, v: v, id: id}
		if e.mapVals[m] == nil {
			e.mapVals[m] = map[[2]*Term]bool{}
		}
		e.mapVals[m][[2]*Term{k, v}] = true
	case *ssa.Range:
		env[x] = tt.App("range", nil, e.val(st, x.X), tt.Unk("rng:"+e.uid(st, x), nil))
		st.facts[tt.App("unstarted", types.Typ[types.Bool], env[x])] = true
	case *ssa.Next:
		it := e.val(st, x.Iter)
		uid := e.uid(st, x)
		if x.IsString {
			env[x] = tt.Tuple(e.unk(st, "ok", uid+"ok", types.Typ[types.Bool]), e.unk(st, "i", uid+"i", types.Typ[types.Int]), e.unk(st, "r", uid+"r", types.Typ[types.Rune]))
			break
		}
		m := st.canon(it.args[0])
		mt, _ := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		var ok *Term = e.unk(st, "more", uid+"ok", types.Typ[types.Bool])
		ln := st.ivalOf(st.mapLen(m))
		if ln.hasHi && ln.hi <= 0 {
			ok = tt.Bool(false)
		}
		first := tt.App("unstarted", types.Typ[types.Bool], it)
		if st.facts[first] && ln.hasLo && ln.lo > 0 {
			ok = tt.Bool(true) // the first step over a map that is not empty
		}
		delete(st.facts, first)
		if !ok.isConst() {
			ln := st.mapLen(m)
			if old, have := e.rangeLen[ok]; have && old != ln {
				ln = tt.Int(-1) // depends on the iteration
			}
			e.rangeLen[ok] = ln
		}
		k := e.unk(st, "key", uid+"k", mt.Key())
		ver := 0
		if h := st.maps[m]; h != nil {
			ver = h.id
		}
		// the key is present while iterating
		hasT := tt.App("has", types.Typ[types.Bool], m, k, tt.Int(int64(ver)))
		st.facts[hasT] = true
		v, _ := st.mapLookup(m, k, mt.Elem())
		st.event(&Event{kind: EvIter, name: "range", args: []*Term{m, k, v}, res: ok, pos: x.Pos()})
		env[x] = tt.Tuple(ok, k, v)
	case *ssa.TypeAssert:
		v := e.val(st, x.X)
		return e.typeAssert(st, x, v)
	case *ssa.Extract:
		t := e.val(st, x.Tuple)
		if t.op == OpTuple && x.Index < len(t.args) {
			env[x] = st.canon(t.args[x.Index])
		} else {
			env[x] = tt.App(fmt.Sprintf("extract%d", x.Index), x.Type(), t)
		}
	case *ssa.Slice:
		env[x] = e.slice(st, x)
		if env[x] == nil {
			return false, nilDeref
		}
	case *ssa.SliceToArrayPointer:
		env[x] = tt.App("arrptr", x.Type(), e.val(st, x.X))
	case *ssa.UnOp:
		v := e.val(st, x.X)
		switch x.Op {
		case token.MUL:
			if g, ok := x.X.(*ssa.Global); ok {
				if val := e.w.globalConst(e, g); val != nil {
					env[x] = val
					return true, ""
				}
			}
			if !e.deref(st, v, x.Pos()) {
				return false, nilDeref
			}
			env[x] = st.load(v, x.Type())
		case token.NOT:
			env[x] = st.canon(tt.not(v))
		case token.SUB:
			if c, ok := v.constInt(); ok {
				env[x] = tt.Const(constant.MakeInt64(-c), x.Type())
			} else if v.op == OpApp && v.name == "neg" {
				env[x] = v.args[0]
			} else {
				env[x] = tt.App("neg", x.Type(), v)
			}
		case token.ARROW:
			st.event(&Event{kind: EvGo, name: "receive", args: []*Term{v}, pos: x.Pos()})
			env[x] = e.unk(st, "recv", e.uid(st, x), x.Type())
		default:
			env[x] = tt.App("unop"+x.Op.String(), x.Type(), v)
		}
	case *ssa.BinOp:
		env[x] = st.canon(e.binop(st, x.Op, e.val(st, x.X), e.val(st, x.Y), x.X.Type(), x.Type()))
	case *ssa.Store:
		a, v := e.val(st, x.Addr), e.val(st, x.Val)
		if !e.deref(st, a, x.Pos()) {
			return false, nilDeref
		}
		st.event(&Event{kind: EvStore, args: []*Term{a, v}, pos: x.Pos()})
		st.store(a, v, x.Val.Type())
	case *ssa.Go:
		st.event(&Event{kind: EvGo, name: "go", pos: x.Pos()})
	case *ssa.Send:
		st.event(&Event{kind: EvGo, name: "send", pos: x.Pos()})
	case *ssa.Select:
		var chans []*Term
		for _, c := range x.States {
			chans = append(chans, e.val(st, c.Chan))
		}
		n := 2 + len(x.States)
		args := make([]*Term, n)
		for i := range args {
			var t types.Type
			if i == 0 {
				t = types.Typ[types.Int]
			}
			args[i] = e.unk(st, "sel", e.uid(st, x)+fmt.Sprint(i), t)
		}
		st.event(&Event{kind: EvGo, name: "select", args: chans, res: args[0], pos: x.Pos()})
		env[x] = tt.Tuple(args...)
	case *ssa.DebugRef:
	default:
		if v, ok := in.(ssa.Value); ok {
			env[v] = e.unk(st, "op", e.uid(st, in), v.Type())
		}
	}
	return true, ""
}

func (e *Eng) convert(v *Term, from, to types.Type) *Term {
	if v.isConst() && v.cv != nil {
		if b, ok := to.Underlying().(*types.Basic); ok {
			if b.Info()&types.IsInteger != 0 && v.cv.Kind() == constant.Int {
				return e.tt.Const(v.cv, to)
			}
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		return v
	}
	return e.tt.App("conv:"+typeKey(to), to, v)
}

func (e *Eng) elemAddr(base, idx *Term, et types.Type) *Term {
	tt := e.tt
	switch {
	case base.op == OpApp && base.name == "slicelit":
		return tt.Elem(base.args[0], idx, et)
	case base.op == OpApp && base.name == "makeslice":
		return tt.Elem(base.args[0], idx, et)
	case base.op == OpApp && base.name == "slice":
		lo := base.args[1]
		return e.elemAddr(base.args[0], e.add(idx, lo), et)
	}
	return tt.Elem(base, idx, et)
}

// add builds a normalised integer sum.
func (e *Eng) add(a, b *Term) *Term {
	tt := e.tt
	ca, oka := a.constInt()
	cb, okb := b.constInt()
	if oka && okb {
		return tt.Int(ca + cb)
	}
	if oka {
		a, b, ca, oka, cb, okb = b, a, cb, okb, ca, oka
	}
	if okb {
		if cb == 0 {
			return a
		}
		if a.op == OpApp && a.name == "+" {
			if c, ok := a.args[1].constInt(); ok {
				return e.add(a.args[0], tt.Int(c+cb))
			}
		}
		return tt.App("+", types.Typ[types.Int], a, b)
	}
	// move constants outwards
	if a.op == OpApp && a.name == "+" {
		if _, ok := a.args[1].constInt(); ok {
			return e.add(e.add(a.args[0], b), a.args[1])
		}
	}
	if b.op == OpApp && b.name == "+" {
		if _, ok := b.args[1].constInt(); ok {
			return e.add(e.add(a, b.args[0]), b.args[1])
		}
	}
	// a + (x - a)
	if b.op == OpApp && b.name == "-" && b.args[1] == a {
		return b.args[0]
	}
	if a.op == OpApp && a.name == "-" && a.args[1] == b {
		return a.args[0]
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.App("+", types.Typ[types.Int], a, b)
}

func (e *Eng) sub(a, b *Term) *Term {
	tt := e.tt
	if c, ok := b.constInt(); ok {
		return e.add(a, tt.Int(-c))
	}
	if a == b {
		return tt.Int(0)
	}
	// pull constants out
	if a.op == OpApp && a.name == "+" {
		if c, ok := a.args[1].constInt(); ok {
			return e.add(e.sub(a.args[0], b), tt.Int(c))
		}
	}
	if b.op == OpApp && b.name == "+" {
		if c, ok := b.args[1].constInt(); ok {
			return e.add(e.sub(a, b.args[0]), tt.Int(-c))
		}
	}
	return tt.App("-", types.Typ[types.Int], a, b)
}

func (e *Eng) binop(st *State, op token.Token, a, b *Term, opT, resT types.Type) *Term {
	tt := e.tt
	switch op {
	case token.EQL, token.NEQ:
		var r *Term
		// comparing with true/false
		if v, ok := a.constBool(); ok {
			r = b
			if !v {
				r = tt.not(b)
			}
		} else if v, ok := b.constBool(); ok {
			r = a
			if !v {
				r = tt.not(a)
			}
		} else {
			if isInt(opT) {
				// x+c == y+d
				ba, oa, _ := st.linear(a)
				bb, ob, _ := st.linear(b)
				if !ba.isConst() && !bb.isConst() && (oa != 0 || ob != 0) {
					a, b = ba, e.add(bb, tt.Int(ob-oa))
				}
			}
			// len(s)==... fine; s=="" as len(s)==0
			if s, ok := b.constStr(); ok && s == "" && !a.isConst() {
				a, b = e.strLen(a), tt.Int(0)
			} else if s, ok := a.constStr(); ok && s == "" && !b.isConst() {
				a, b = e.strLen(b), tt.Int(0)
			}
			if isIfaceType(opT) {
				a, b = e.ifaceOperand(a, b)
			}
			r = tt.eq(a, b)
			if v, known := st.evalBool(r); known {
				r = tt.Bool(v)
			}
		}
		if op == token.NEQ {
			return tt.not(r)
		}
		return r
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		neg := false
		switch op {
		case token.GTR:
			a, b = b, a
		case token.LEQ: // a<=b == !(b<a)
			a, b = b, a
			neg = true
		case token.GEQ:
			neg = true
		}
		if isInt(opT) {
			ba, oa, _ := st.linear(a)
			bb, ob, _ := st.linear(b)
			if ba.isConst() {
			} else if bb.isConst() {
				a, b = ba, e.add(b, tt.Int(-oa))
			} else if oa != 0 || ob != 0 {
				a, b = ba, e.add(bb, tt.Int(ob-oa))
			}
			_ = ob
		}
		r := tt.lt(a, b)
		if v, known := st.evalBool(r); known {
			r = tt.Bool(v)
		}
		if neg {
			return tt.not(r)
		}
		return r
	case token.ADD:
		if isInt(opT) {
			return e.add(a, b)
		}
		if as, ok := a.constStr(); ok {
			if bs, ok := b.constStr(); ok {
				return tt.Str(as + bs)
			}
			if as == "" {
				return b
			}
		}
		if bs, ok := b.constStr(); ok && bs == "" {
			return a
		}
		return tt.App("concat", resT, a, b)
	case token.SUB:
		if isInt(opT) {
			return e.sub(a, b)
		}
	}
	if a.isConst() && b.isConst() && a.cv != nil && b.cv != nil && isInt(opT) {
		switch op {
		case token.MUL:
			return tt.Const(constant.BinaryOp(a.cv, op, b.cv), resT)
		case token.REM, token.QUO:
			if bi, _ := b.constInt(); bi != 0 {
				o := op
				if o == token.QUO {
					o = token.QUO_ASSIGN
				}
				return tt.Const(constant.BinaryOp(a.cv, o, b.cv), resT)
			}
		}
	}
	return tt.App("op"+op.String(), resT, a, b)
}

func isIfaceType(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func (e *Eng) ifaceOperand(a, b *Term) (*Term, *Term) { return a, b }

func (e *Eng) strLen(s *Term) *Term {
	if c, ok := s.constStr(); ok {
		return e.tt.Int(int64(len(c)))
	}
	return e.tt.App("len", types.Typ[types.Int], s)
}

func (e *Eng) slice(st *State, x *ssa.Slice) *Term {
	tt := e.tt
	v := e.val(st, x.X)
	lo := tt.Int(0)
	if x.Low != nil {
		lo = e.val(st, x.Low)
	}
	var hi *Term
	if x.High != nil {
		hi = e.val(st, x.High)
	}
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		if !e.deref(st, v, x.Pos()) {
			return nil
		}
		arr := p.Elem().Underlying().(*types.Array)
		if x.Low == nil && x.High == nil {
			return tt.App("slicelit", x.Type(), v, tt.Int(arr.Len()))
		}
		if c, ok := hi.tryInt(); ok && x.Low == nil {
			return tt.App("slicelit", x.Type(), v, tt.Int(c))
		}
	}
	if c, ok := lo.constInt(); ok && c == 0 && hi == nil {
		return v
	}
	if hi == nil {
		hi = e.sliceLen(st, v)
	}
	if v.op == OpApp && v.name == "slice" {
		// slice of slice
		lo = e.add(v.args[1], lo)
		hi = e.add(v.args[1], hi)
		v = v.args[0]
	}
	if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return tt.App("substr", x.Type(), v, lo, hi)
	}
	return st.canon(tt.App("slice", x.Type(), v, lo, hi))
}

func (t *Term) tryInt() (int64, bool) {
	if t == nil {
		return 0, false
	}
	return t.constInt()
}

func (e *Eng) sliceLen(st *State, v *Term) *Term {
	tt := e.tt
	if v.isNil() {
		return tt.Int(0)
	}
	if v.op == OpApp {
		switch v.name {
		case "slicelit":
			return v.args[1]
		case "makeslice":
			return v.args[1]
		case "slice":
			return e.sub(v.args[2], v.args[1])
		case "append":
			return e.add(e.sliceLen(st, v.args[0]), tt.Int(int64(len(v.args)-1)))
		case "appendslice":
			return e.add(e.sliceLen(st, v.args[0]), e.sliceLen(st, v.args[1]))
		}
	}
	if s, ok := v.constStr(); ok {
		return tt.Int(int64(len(s)))
	}
	return st.canon(tt.App("len", types.Typ[types.Int], v))
}

func (e *Eng) typeAssert(st *State, x *ssa.TypeAssert, v *Term) (bool, string) {
	tt := e.tt
	env := st.top().env
	want := x.AssertedType
	_, wantIface := want.Underlying().(*types.Interface)
	set := func(val, ok *Term) {
		if x.CommaOk {
			env[x] = tt.Tuple(val, ok)
		} else {
			env[x] = val
		}
	}
	if v.isNil() {
		if !x.CommaOk {
			return false, "interface conversion: nil"
		}
		set(e.zero(want), tt.Bool(false))
		return true, ""
	}
	if v.op == OpIface {
		var match bool
		if wantIface {
			match = types.Implements(v.typ, want.Underlying().(*types.Interface))
		} else {
			match = types.Identical(v.typ, want)
		}
		if match {
			if wantIface {
				set(v, tt.Bool(true))
			} else {
				set(v.args[0], tt.Bool(true))
			}
			return true, ""
		}
		if !x.CommaOk {
			return false, "interface conversion"
		}
		set(e.zero(want), tt.Bool(false))
		return true, ""
	}
	if v.typ != nil && wantIface {
		if _, isI := v.typ.Underlying().(*types.Interface); isI && types.Implements(v.typ, want.Underlying().(*types.Interface)) {
			ok := tt.not(tt.eq(v, tt.Nil()))
			set(v, ok)
			if !x.CommaOk {
				st.assume(ok, true)
			}
			return true, ""
		}
	}
	okT := st.canon(tt.App("typeis", types.Typ[types.Bool], v, tt.mk(OpApp, "type:"+typeKey(want), 0, nil, nil)))
	// known to be another concrete type?
	if !wantIface {
		for f, tv := range st.facts {
			if tv && f != okT && f.op == OpApp && f.name == "typeis" && f.args[0] == v && !st.e.w.ifaceTypeName(f.args[1].name) {
				if !x.CommaOk {
					return false, "interface conversion"
				}
				set(e.zero(want), tt.Bool(false))
				return true, ""
			}
		}
	}
	var val *Term
	if wantIface {
		val = v
	} else {
		val = st.canon(tt.App("as:"+typeKey(want), want, v))
	}
	if x.CommaOk {
		env[x] = tt.Tuple(val, okT)
	} else {
		st.facts[okT] = true
		env[x] = val
	}
	return true, ""
}

// pure external functions
var pureExt = []string{"strings.", "strconv.", "fmt.Sprint", "errors.New", "fmt.Errorf", "unicode", "math.", "(*strings.Replacer).Replace", "(encoding/json.Delim)"}

var nonNilExt = map[string]bool{"container/list.New": true, "(*container/list.List).PushBack": true, "(*container/list.List).PushFront": true,
	"github.com/emirpasic/gods/trees/btree.NewWith": true, "github.com/emirpasic/gods/maps/linkedhashmap.New": true,
	"errors.New": true, "fmt.Errorf": true}

func (e *Eng) doCall(st *State, cc *ssa.CallCommon, in ssa.Instruction, typ types.Type) []CallRes {
	tt := e.tt
	uid := e.uid(st, in)
	var args []*Term
	if cc.IsInvoke() {
		recv := e.val(st, cc.Value)
		for _, a := range cc.Args {
			args = append(args, e.val(st, a))
		}
		if recv.isNil() {
			return []CallRes{{st: st, panic: true}}
		}
		if recv.op == OpIface {
			if m := e.w.method(recv.typ, cc.Method); m != nil {
				return e.doStatic(st, m, append([]*Term{recv.args[0]}, args...), nil, in, typ, uid)
			}
		}
		if !e.deref(st, recv, in.Pos()) {
			return []CallRes{{st: st, panic: true}}
		}
		ci := &CallInfo{name: cc.Method.Name(), args: append([]*Term{recv}, args...), typ: typ, invoke: true, pos: in.Pos(), uid: uid}
		return e.opaque(st, ci)
	}
	for _, a := range cc.Args {
		args = append(args, e.val(st, a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return e.builtin(st, b.Name(), args, cc, in, typ, uid)
	}
	f := e.val(st, cc.Value)
	switch f.op {
	case OpFunc:
		return e.doStatic(st, f.fn, args, nil, in, typ, uid)
	case OpClos:
		return e.doStatic(st, f.fn, args, f.args, in, typ, uid)
	case OpNil:
		return []CallRes{{st: st, panic: true}}
	}
	_ = tt
	ci := &CallInfo{name: "dynamic", args: append([]*Term{f}, args...), typ: typ, dynamic: true, pos: in.Pos(), uid: uid}
	if !e.deref(st, f, in.Pos()) {
		return []CallRes{{st: st, panic: true}}
	}
	return e.opaque(st, ci)
}

func (e *Eng) resultUnk(st *State, hint, uid string, typ types.Type) *Term {
	if tup, ok := typ.(*types.Tuple); ok {
		if tup.Len() == 0 {
			return e.tt.Tuple()
		}
		args := make([]*Term, tup.Len())
		for i := range args {
			h := hint
			if tup.Len() > 1 {
				h = fmt.Sprintf("%s.%d", hint, i)
			}
			args[i] = e.unk(st, h, fmt.Sprintf("%s r%d", uid, i), tup.At(i).Type())
		}
		if tup.Len() == 1 {
			return args[0]
		}
		return e.tt.Tuple(args...)
	}
	return e.unk(st, hint, uid, typ)
}

// opaque records a call that is not interpreted.
func (e *Eng) opaque(st *State, ci *CallInfo) []CallRes {
	if e.hook != nil {
		if r, ok := e.hook(e, st, ci); ok {
			return r
		}
	}
	return e.opaque0(st, ci)
}

func (e *Eng) opaque0(st *State, ci *CallInfo) []CallRes {
	short := ci.name
	if i := strings.LastIndex(short, "."); i >= 0 {
		short = short[i+1:]
	}
	var res *Term
	pure := false
	for _, p := range pureExt {
		if strings.HasPrefix(ci.name, p) {
			pure = true
		}
	}
	if pure && !isTuple(ci.typ) {
		args := ci.args
		if n := len(args); n > 0 && args[n-1].op == OpApp && args[n-1].name == "slicelit" {
			// expand variadic arguments
			last := args[n-1]
			args = append([]*Term(nil), args[:n-1]...)
			if c, ok := last.args[1].constInt(); ok {
				et := sliceElem(last.typ)
				for i := int64(0); i < c; i++ {
					args = append(args, st.load(e.tt.Elem(last.args[0], e.tt.Int(i), et), et))
				}
			}
		}
		res = e.tt.App(ci.name, ci.typ, args...)
		st.event(&Event{kind: EvCall, name: ci.name, fn: ci.fn, args: ci.args, res: res, pos: ci.pos, invoke: ci.invoke, dynamic: ci.dynamic})
		return []CallRes{{st: st, val: st.canon(res)}}
	}
	res = e.resultUnk(st, short, ci.uid, ci.typ)
	ev := &Event{kind: EvCall, name: ci.name, fn: ci.fn, args: ci.args, res: res, pos: ci.pos, invoke: ci.invoke, dynamic: ci.dynamic}
	if res.op == OpUnk {
		res.call = ev
	} else if res.op == OpTuple {
		for i, a := range res.args {
			_ = i
			if a.op == OpUnk {
				a.call = ev
			}
		}
	}
	if nonNilExt[ci.name] {
		st.nn[res] = true
	}
	st.event(ev)
	// what decoding functions leave behind their pointers is not known
	if ci.fn == nil || !e.w.inline(ci.fn) {
		for _, n := range []string{"Decode", "Unmarshal", "Scan", "Read"} {
			if !strings.HasPrefix(short, n) {
				continue
			}
			for i, a := range ci.args {
				a = st.canon(a)
				if a.op == OpIface {
					a = st.canon(a.args[0])
				}
				if a.root().op != OpNew && a.root().op != OpParam || a.typ == nil {
					continue
				}
				if p, ok := a.typ.Underlying().(*types.Pointer); ok {
					st.store(a, e.resultUnk(st, "decoded", fmt.Sprintf("%s out%d", ci.uid, i), p.Elem()), p.Elem())
				}
			}
			break
		}
	}
	return []CallRes{{st: st, val: res}}
}

func sliceElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

func isTuple(t types.Type) bool {
	tp, ok := t.(*types.Tuple)
	return ok && tp.Len() != 1
}

func (e *Eng) doStatic(st *State, fn *ssa.Function, args, free []*Term, in ssa.Instruction, typ types.Type, uid string) []CallRes {
	ci := &CallInfo{fn: fn, name: fnName(fn), args: args, free: free, typ: typ, pos: in.Pos(), uid: uid}
	if e.hook != nil {
		if r, ok := e.hook(e, st, ci); ok {
			return r
		}
	}
	inPkg := e.w.inline(fn)
	if !inPkg || len(fn.Blocks) == 0 {
		// method on value receiver through pointer wrappers of externals
		return e.opaque0(st, ci)
	}
	n := 0
	for _, f := range st.frames {
		if f.fn == fn {
			n++
		}
	}
	if n >= 1 && !(n == 1 && e.allowRec(fn)) || len(st.frames) > e.maxDepth {
		ci.name = "rec:" + ci.name
		return e.opaque0(st, ci)
	}
	st.event(&Event{kind: EvEnter, fn: fn, name: ci.name, args: args, pos: in.Pos()})
	var out []CallRes
	for _, o := range e.call(fn, args, free, st, uid) {
		if o.panic {
			out = append(out, CallRes{st: o.st, panic: true})
			continue
		}
		var v *Term
		switch len(o.ret) {
		case 0:
			v = e.tt.Tuple()
		case 1:
			v = o.ret[0]
		default:
			v = e.tt.Tuple(o.ret...)
		}
		o.st.event(&Event{kind: EvLeave, fn: fn, name: ci.name, res: v, pos: in.Pos()})
		out = append(out, CallRes{st: o.st, val: o.st.canon(v)})
	}
	return out
}

func (e *Eng) allowRec(fn *ssa.Function) bool { return false }

func (e *Eng) builtin(st *State, name string, args []*Term, cc *ssa.CallCommon, in ssa.Instruction, typ types.Type, uid string) []CallRes {
	tt := e.tt
	one := func(v *Term) []CallRes { return []CallRes{{st: st, val: st.canon(v)}} }
	switch name {
	case "len":
		switch cc.Args[0].Type().Underlying().(type) {
		case *types.Map:
			return one(st.mapLen(args[0]))
		case *types.Basic:
			return one(e.strLen(args[0]))
		}
		return one(e.sliceLen(st, args[0]))
	case "cap":
		return one(e.unk(st, "cap", uid, typ))
	case "append":
		s := args[0]
		x := args[1]
		if x.isNil() {
			return one(s)
		}
		if x.op == OpApp && x.name == "slicelit" {
			if c, ok := x.args[1].constInt(); ok {
				et := sliceElem(x.typ)
				as := []*Term{s}
				for i := int64(0); i < c; i++ {
					as = append(as, st.load(tt.Elem(x.args[0], tt.Int(i), et), et))
				}
				r := tt.App("append", typ, as...)
				st.event(&Event{kind: EvCall, name: "append", args: as, res: r, pos: in.Pos()})
				return one(r)
			}
		}
		r := tt.App("appendslice", typ, s, x)
		st.event(&Event{kind: EvCall, name: "appendslice", args: []*Term{s, x}, res: r, pos: in.Pos()})
		return one(r)
	case "copy":
		st.event(&Event{kind: EvCall, name: "copy", args: args, pos: in.Pos()})
		// forget elements of the destination
		dst := args[0]
		root := dst
		if dst.op == OpApp && (dst.name == "makeslice" || dst.name == "slicelit") {
			root = dst.args[0]
			delete(st.fresh, root)
		}
		for k := range st.mem {
			if k.op == OpElem && k.args[0] == root {
				delete(st.mem, k)
			}
		}
		return one(e.unk(st, "copied", uid, typ))
	case "delete":
		m, k := args[0], args[1]
		st.event(&Event{kind: EvMapDel, args: []*Term{m, k}, pos: in.Pos()})
		st.mapDel(m, k, 1+e.ctx("mapdel:"+uid))
		return one(tt.Tuple())
	case "recover":
		// recover is called by a deferred function: its caller's frame
		if n := len(st.frames); n >= 2 {
			f := st.frames[n-2]
			if f.panicking {
				f.panicking = false
				v := e.unk(st, "recovered", uid, typ)
				st.nn[v] = true
				return one(v)
			}
		}
		return one(tt.Nil())
	case "min", "max":
		return one(tt.App(name, typ, args...))
	case "print", "println":
		st.event(&Event{kind: EvCall, name: name, args: args, pos: in.Pos()})
		return one(tt.Tuple())
	case "ssa:wrapnilchk":
		if !e.deref(st, args[0], in.Pos()) {
			return []CallRes{{st: st, panic: true}}
		}
		return one(args[0])
	case "clear":
		st.event(&Event{kind: EvMapDel, args: []*Term{args[0], tt.App("all", nil)}, pos: in.Pos()})
		st.maps[args[0]] = &MapH{kind: 2, id: 1 + e.ctx("clear:"+uid)}
		return one(tt.Tuple())
	}
	return one(e.unk(st, name, uid, typ))
}
