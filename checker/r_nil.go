package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// nilA decides which values on query paths may be nil.
type nilA struct {
	c       *Ctx
	q       map[string]bool // functions that answer with an iterator or a filter
	may     map[string]bool // of these, the ones that may answer nil
	nilable map[string]bool // fields some object is made without
	must    map[string]bool // iterator fields used without a test when the iterator moves
	collect func(e *Eng, st *State, a *Term, pos token.Pos)
}

func isIterType(t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == "Next" {
			return true
		}
	}
	return false
}

func nillable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature:
		return true
	}
	return false
}

func fieldKey(f *types.Var) string { return fieldName(f) + " " + typeKey(f.Type()) }

// nilableFields: the pointer, interface and function fields that are left
// out where some object of their type is made, or are cleared somewhere.
func (w *World) nilableFields() map[string]bool {
	out := map[string]bool{}
	// set: path prefixes of base that are stored in fn (0: whole)
	var stored func(v ssa.Value, prefix string, depth int, set map[string]bool)
	stored = func(v ssa.Value, prefix string, depth int, set map[string]bool) {
		refs := v.Referrers()
		if refs == nil || depth > 4 {
			return
		}
		for _, in := range *refs {
			switch x := in.(type) {
			case *ssa.Store:
				if x.Addr == v {
					if k, ok := x.Val.(*ssa.Const); ok && k.IsNil() {
						continue
					}
					if _, ok := x.Val.(*ssa.Const); ok && structOf(x.Val.Type()) != nil {
						continue
					}
					set[prefix] = true
				}
			case *ssa.FieldAddr:
				if x.X == v {
					s := structOf(v.Type())
					stored(x, prefix+"."+fieldName(s.Field(x.Field)), depth+1, set)
				}
			case ssa.CallInstruction:
				f := x.Common().StaticCallee()
				if f == nil || f.Pkg != w.pkg || x.Common().IsInvoke() {
					continue
				}
				for i, a := range x.Common().Args {
					if a == v && i < len(f.Params) {
						stored(f.Params[i], prefix, depth+1, set)
					}
				}
			}
		}
	}
	var leaves func(t types.Type, prefix string, depth int, set map[string]bool)
	leaves = func(t types.Type, prefix string, depth int, set map[string]bool) {
		s, ok := t.Underlying().(*types.Struct)
		if !ok || depth > 4 || set[prefix] {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			p := prefix + "." + fieldName(f)
			if set[p] {
				continue
			}
			if nillable(f.Type()) && f.Pkg() == w.tpkg {
				out[fieldKey(f)] = true
			}
			ft := f.Type()
			if a, ok := ft.Underlying().(*types.Array); ok {
				ft = a.Elem()
			}
			leaves(ft, p, depth+1, set)
		}
	}
	for fn := range w.allFns() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Alloc:
					t := x.Type().Underlying().(*types.Pointer).Elem()
					if _, ok := t.Underlying().(*types.Struct); !ok {
						continue
					}
					set := map[string]bool{}
					stored(x, "", 0, set)
					leaves(t, "", 0, set)
				case *ssa.Store:
					if k, ok := x.Val.(*ssa.Const); ok && k.IsNil() {
						if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
							out[fieldKey(structOf(fa.X.Type()).Field(fa.Field))] = true
						}
					}
				}
			}
		}
	}
	return out
}

func (w *World) allFns() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if out[f] || f.Blocks == nil {
			return
		}
		out[f] = true
		for _, a := range f.AnonFuncs {
			rec(a)
		}
	}
	for _, f := range w.fns {
		rec(f)
	}
	return out
}

// loadedField: t is the initial content of this field.
func loadedField(t *Term) string {
	if t.op == OpInit && t.args[0].op == OpField {
		if t.typ != nil {
			return t.args[0].name + " " + typeKey(t.typ)
		}
	}
	if t.op == OpFieldOf && t.typ != nil {
		return t.name + " " + typeKey(t.typ)
	}
	return ""
}

// bad says why a value may be nil; "" if it is not.
func (n *nilA) bad(st *State, t *Term) string { return n.bad0(st, t, 0) }

func (n *nilA) bad0(st *State, t *Term, d int) string {
	e := st.e
	t = st.canon(t)
	if d > 8 {
		return "undecided"
	}
	switch {
	case t.isNil():
		return "nil"
	case st.nonNil(t):
		return ""
	}
	if b, k := st.evalBool(st.canon(e.tt.eq(t, e.tt.Nil()))); k && !b {
		return ""
	}
	if x, _, ok := asOf(t); ok {
		return n.bad0(st, x, d+1)
	}
	switch t.op {
	case OpParam:
		if t.typ == nil {
			return ""
		}
		if _, ok := t.typ.Underlying().(*types.Interface); ok && !isIterType(t.typ) {
			return "an argument that may be nil"
		}
		return ""
	case OpInit, OpFieldOf:
		if f := loadedField(t); n.nilable[f] {
			return "the field " + strings.Fields(f)[0] + " may be nil"
		}
		return ""
	case OpApp:
		switch t.name {
		case "mapget":
			return n.fromMap(st, t, d)
		case "list.Front", "list.Back", "list.ElNext", "list.ElPrev":
			return "there may be no such list element"
		}
		return ""
	case OpUnk:
		if isPhi(t) {
			return n.phi(st, t, d)
		}
		if ev := st.callOf(t); ev != nil {
			if ev.invoke {
				for f := range n.q {
					if n.may[f] && f[strings.LastIndex(f, ".")+1:] == ev.name && !ast0exported(ev.name) {
						return f + " may answer nil"
					}
				}
				return ""
			}
			if n.may[ev.name] {
				return ev.name + " may answer nil"
			}
		}
	}
	return ""
}

func ast0exported(n string) bool { return token.IsExported(n) }

// fromMap: what a map has for a key.
func (n *nilA) fromMap(st *State, t *Term, d int) string {
	m, k := st.canon(t.args[0]), st.canon(t.args[1])
	if m.op == OpNew {
		for _, x := range flat(st) {
			if x.kind == EvMapUpd && x.st.canon(x.args[0]) == m {
				if why := n.bad0(x.st, x.args[2], d+1); why != "" {
					return "the map may hold nil (" + why + ")"
				}
			}
		}
	}
	isKey := func(sg *Seg, v *Term) bool {
		for _, ev := range sg.events {
			if ev.kind == EvIter && sg.st.canon(ev.args[0]) == m && sg.st.canon(ev.args[1]) == v {
				return true
			}
		}
		return false
	}
	if st.present(m, k) || st.e.movedOff(st, k, isKey) {
		return ""
	}
	for _, x := range flat(st) {
		if x.kind == EvIter && x.st.canon(x.args[0]) == m && st.canon(x.args[1]) == k {
			return ""
		}
	}
	return "the map may have no such key"
}

// phi: a variable of a loop.
func (n *nilA) phi(st *State, t *Term, d int) string {
	e := st.e
	var evs []Ev = flat(st)
	for _, ev := range evs {
		if ev.kind != EvLoop {
			continue
		}
		L := ev.loop
		var ph *ssa.Phi
		for p := range L.init {
			for _, sg := range L.segs {
				if sg.hdr[p] == t {
					ph = p
				}
			}
		}
		if ph == nil {
			continue
		}
		good := func(sg *Seg, v *Term) bool {
			return sg.st.nonNil(v) || !isPhi(v) && n.bad0(sg.st, v, d+1) == ""
		}
		for _, sg := range L.segs {
			if v := sg.st.canon(sg.next[ph]); v != sg.hdr[ph] && !good(sg, v) {
				return "an iteration may leave nil"
			}
		}
		if n.bad0(ev.st, L.init[ph], d+1) == "" {
			return ""
		}
		if e.movedOff(st, t, good) {
			return ""
		}
		// every iteration leaves a value, and there is an iteration
		every := len(L.segs) > 0
		for _, sg := range L.segs {
			v := sg.st.canon(sg.next[ph])
			if !good(sg, v) && !(v == sg.hdr[ph] && n.notFirst(L, sg, ph, good)) {
				every = false
			}
			c := e.control(sg.events, sg.st)
			if c.coll == nil {
				every = false
			} else if c.kind == "map" && !n.c.mapNonEmpty(st, st.canon(c.coll)) {
				every = false
			} else if c.kind != "map" && !n.c.mapNonEmpty(st, st.canon(c.coll)) {
				every = false
			}
		}
		if every {
			return ""
		}
		return "it may still have its first value"
	}
	return "undecided"
}

// notFirst: the iteration is not the first one, as another variable, which
// changes only when ph gets a good value, has left its first value.
func (n *nilA) notFirst(L *Loop, sg *Seg, ph *ssa.Phi, good func(sg *Seg, v *Term) bool) bool {
	for py, init := range L.init {
		h := sg.hdr[py]
		if h == nil || py == ph {
			continue
		}
		if b, k := sg.st.evalBool(sg.st.canon(sg.st.e.tt.eq(h, init))); !k || b {
			continue
		}
		ok := true
		for _, o := range L.segs {
			if o.next[py] != o.hdr[py] && !good(o, o.st.canon(o.next[ph])) {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// hook models what the analysis of one function needs of the others.
func (n *nilA) hook() Hook {
	return func(e *Eng, st *State, ci *CallInfo) ([]CallRes, bool) {
		if ci.fn == nil {
			return nil, false
		}
		if n.q[ci.name] {
			if n.collect != nil {
				var as []*Term
				for _, a := range ci.args {
					if app(a, "slicelit") {
						if k, ok := a.args[1].constInt(); ok {
							if et := sliceElem(a.typ); et != nil && isIterType(et) {
								for i := int64(0); i < k; i++ {
									as = append(as, st.load(e.tt.Elem(a.args[0], e.tt.Int(i), et), et))
								}
							}
						}
						continue
					}
					as = append(as, a)
				}
				ps := ci.fn.Signature.Params()
				off := len(ci.args) - ps.Len()
				for i, a := range as {
					iter := a.op == OpIface
					if a.typ != nil && isIterType(a.typ) {
						iter = true
					}
					if i >= off && i-off < ps.Len() && isIterType(ps.At(i-off).Type()) {
						iter = true
					}
					if iter {
						n.collect(e, st, a, ci.pos)
					}
				}
			}
			rs := e.opaque0(st, ci)
			if !n.may[ci.name] {
				for _, r := range rs {
					if r.val != nil && r.val.op == OpUnk {
						r.st.nn[r.val] = true
					}
				}
			}
			return rs, true
		}
		if strings.HasSuffix(ci.name, "linkedhashmap.Map).Get") || strings.HasSuffix(ci.name, "btree.Tree).Get") {
			if !e.deref(st, ci.args[0], ci.pos) {
				return []CallRes{{st: st, panic: true}}, true
			}
			rs := e.opaque0(st, ci)
			if len(rs) != 1 || rs[0].val == nil || rs[0].val.op != OpTuple {
				return rs, true
			}
			a, b := rs[0].st, rs[0].st.clone()
			v, f := rs[0].val.args[0], rs[0].val.args[1]
			a.nn[v] = true
			a.assume(f, true)
			b.assume(f, false)
			b.assume(e.tt.eq(v, e.tt.Nil()), true)
			return []CallRes{{st: a, val: rs[0].val}, {st: b, val: e.tt.Tuple(e.tt.Nil(), e.tt.Bool(false))}}, true
		}
		// methods of library types need a receiver
		if ci.fn.Pkg != e.w.pkg && ci.fn.Signature.Recv() != nil && len(ci.args) > 0 {
			if _, ok := ci.fn.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
				if !e.deref(st, ci.args[0], ci.pos) {
					return []CallRes{{st: st, panic: true}}, true
				}
			}
		}
		return nil, false
	}
}

func (n *nilA) eng() *Eng {
	e := newEng(n.c.w)
	e.hook = hooks(n.hook(), stdModel)
	return e
}

// derefs gives the values used without being known not to be nil.
func (n *nilA) derefs(outs []Outcome, f func(o Outcome, x Ev, why string)) {
	seen := map[*Term]bool{}
	for _, o := range outs {
		for _, x := range flat(o.st) {
			if x.kind != EvDeref {
				continue
			}
			b := x.Event.args[0]
			if seen[b] {
				continue
			}
			if b.op == OpNil {
				f(o, x, "nil")
				continue
			}
			_ = b
			if why := n.whyAt(x, b); why != "" {
				f(o, x, why)
				seen[b] = true
			}
		}
	}
}

// whyAt: bad, for a value that the path takes as not nil from here on.
func (n *nilA) whyAt(x Ev, b *Term) string {
	s := x.st.clone()
	delete(s.nn, b)
	t := s.canon(b)
	if t != b {
		delete(s.nn, t)
	}
	return n.bad(s, b)
}

// queryFns: functions that answer with an iterator, reachable from exported
// functions that do, and the filter constructors.
func (c *Ctx) queryFns() []string {
	ans := func(f *ssa.Function) bool {
		r := f.Signature.Results()
		if f.Parent() != nil || f.Blocks == nil || r.Len() == 0 || f.Synthetic != "" {
			return false
		}
		if isIterType(r.At(0).Type()) {
			return r.Len() == 1
		}
		_, ok := r.At(0).Type().Underlying().(*types.Signature)
		return ok && r.Len() == 1
	}
	var work []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && (f.Pkg == c.w.pkg || f.Pkg == nil && f.Synthetic != "") && !seen[f] {
			seen[f] = true
			work = append(work, f)
		}
	}
	for _, f := range c.w.fns {
		if !ans(f) || !token.IsExported(f.Name()) || strings.HasSuffix(c.w.prog.Fset.Position(f.Pos()).Filename, "_test.go") {
			continue
		}
		add(f)
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					add(ci.Common().StaticCallee())
					if ci.Common().IsInvoke() {
						for _, m := range c.w.implementers(ci.Common()) {
							add(m)
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	var out []string
	for f := range seen {
		if ans(f) && c.w.fn(fnName(f)) == f {
			out = append(out, fnName(f))
		}
	}
	sort.Strings(out)
	return out
}

func (n *nilA) run(name string, setup func(e *Eng, st *State, args []*Term)) (*Eng, []Outcome) {
	e := n.eng()
	fn := n.c.fn(name)
	st := e.newState()
	var args []*Term
	for i, p := range fn.Params {
		nm := p.Name()
		if nm == "_" || nm == "" {
			nm = fmt.Sprintf("arg%d", i)
		}
		args = append(args, e.tt.Param(nm, p.Type()))
	}
	if setup != nil {
		setup(e, st, args)
	}
	return e, n.c.runArgs(e, fn, args, st)
}


// iterTypes: the struct types of the package that declare Next() bool.
func (c *Ctx) iterTypes() []string {
	var out []string
	for n, f := range c.w.fns {
		r := f.Signature.Results()
		if !strings.HasSuffix(n, ".Next") || f.Signature.Recv() == nil || f.Blocks == nil || f.Synthetic != "" || f.Signature.Params().Len() != 0 ||
			r.Len() != 1 || r.At(0).Type() != types.Typ[types.Bool] || structOf(f.Signature.Recv().Type()) == nil {
			continue
		}
		out = append(out, strings.TrimSuffix(n, ".Next"))
	}
	sort.Strings(out)
	return out
}

// ownField: t is what the receiver had in one of its fields.
func ownField(t, recv *Term) string {
	if t.op == OpInit && t.args[0].op == OpField && t.args[0].args[0] == recv {
		return t.args[0].name
	}
	if t.op == OpFieldOf && t.args[0] == recv {
		return t.name
	}
	return ""
}

// checkIterTypes finds the fields the iterators of the package use without a
// test when they move, and checks that what they use afterwards is there.
func (n *nilA) checkIterTypes() {
	c := n.c
	for _, tn := range c.iterTypes() {
		tn := tn
		con := "iterator " + tn
		c.guard("advance", con, func() {
			fn := c.fn(tn + ".Next")
			for _, m := range []string{"MaxSize", "Next"} {
				f := c.w.fn(tn + "." + m)
				if f == nil {
					continue
				}
				e := n.eng()
				st := e.newState()
				recv := e.tt.Param("recv", f.Params[0].Type())
				outs := c.runArgs(e, f, []*Term{recv}, st)
				for _, o := range outs {
					c.ob("advance", con, !o.panic, o.pos, "%s panics: %s", m, o.panicIs)
				}
				for _, o := range outs {
					for _, x := range flat(o.st) {
						if x.kind == EvDeref {
							if fl := ownField(x.Event.args[0], recv); fl != "" {
								n.must[tn+"."+fl] = true
							}
						}
					}
				}
				n.derefs(outs, func(o Outcome, x Ev, why string) {
					if ownField(x.Event.args[0], recv) == "" {
						c.fail("advance", con, x.pos, "%s uses a value that may be nil (%s)", m, why)
					}
				})
			}
			// moving keeps the fields it needs, and the current element can
			// be had
			e := n.eng()
			st := e.newState()
			recv := e.tt.Param("recv", fn.Params[0].Type())
			if s := structOf(recv.typ); s != nil {
				if _, ok := recv.typ.Underlying().(*types.Pointer); ok {
					for i := 0; i < s.NumFields(); i++ {
						f := s.Field(i)
						if n.must[tn+"."+fieldName(f)] {
							st.nn[st.load(e.tt.Field(recv, i, fieldName(f), f.Type()), f.Type())] = true
						}
					}
				}
			}
			st.nn[recv] = true
			for _, o := range c.runArgs(e, fn, []*Term{recv}, st) {
				if o.panic {
					continue
				}
				if s := structOf(recv.typ); s != nil {
					if _, ok := recv.typ.Underlying().(*types.Pointer); ok {
						for i := 0; i < s.NumFields(); i++ {
							f := s.Field(i)
							if n.must[tn+"."+fieldName(f)] {
								why := n.bad(o.st, o.st.load(e.tt.Field(recv, i, fieldName(f), f.Type()), f.Type()))
								c.ob("advance", con, why == "", fn.Pos(), "moving may leave field %s nil, which the next move uses (%s)", fieldName(f), why)
							}
						}
					}
				}
				if o.st.no(o.ret[0]) {
					continue
				}
				for _, m := range []string{"Value", "Node", "Edge"} {
					f := c.w.fn(tn + "." + m)
					if f == nil {
						continue
					}
					s := o.st.clone()
					if !s.assume(o.ret[0], true) || s.dead {
						continue
					}
					s.tr, s.frames = nil, nil
					res := e.call(f, []*Term{recv}, nil, s, "val")
					c.account(e, res)
					for _, r := range res {
						c.ob("advance", con, !r.panic, r.pos, "%s after a successful move panics: %s", m, r.panicIs)
					}
					n.derefs(res, func(o Outcome, x Ev, why string) {
						if why != "" {
							c.fail("advance", con, x.pos, "%s after a successful move uses a value that may be nil (%s)", m, why)
						}
					})
				}
			}
			c.pass("advance", con)
		})
	}
}

// held checks that an iterator that is handed out has what it needs to move,
// and runs the functions it was given.
func (n *nilA) held(con string, e *Eng, st *State, t *Term, pos token.Pos, d int) {
	c := n.c
	t = st.canon(t)
	if d > 8 || t.op != OpIface {
		return
	}
	x := st.canon(t.args[0])
	s := structOf(t.typ)
	if s == nil {
		return
	}
	tn := typeName(t.typ)
	ptr := t.typ
	if _, ok := ptr.Underlying().(*types.Pointer); !ok {
		ptr = types.NewPointer(ptr)
	} else if x.op != OpNew {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		var v *Term
		if x.op == OpStruct {
			v = st.canon(x.args[i])
		} else if x.op == OpNew {
			v = st.canon(st.load(e.tt.Field(x, i, fieldName(f), f.Type()), f.Type()))
		} else {
			continue
		}
		if f.Anonymous() && isIterType(f.Type()) || n.must[tn+"."+fieldName(f)] {
			why := n.bad(st, v)
			c.ob("usable", con, why == "", pos, "answers with an iterator that cannot be moved: %s of %s may be missing (%s)", fieldName(f), tn, why)
		}
		n.held(con, e, st, v, pos, d+1)
		if v.op == OpClos {
			n.clos(con, e, st, v, d+1)
		}
	}
}

// clos runs a function an iterator was given.
func (n *nilA) clos(con string, e *Eng, st *State, f *Term, d int) {
	c := n.c
	s := st.clone()
	// what it captured may have changed by the time it is called
	for i, fv := range f.fn.FreeVars {
		if fv.Referrers() == nil || i >= len(f.args) {
			continue
		}
		for _, in := range *fv.Referrers() {
			if w, ok := in.(*ssa.Store); ok && w.Addr == ssa.Value(fv) {
				if et := elemType(f.args[i]); et != nil {
					u := e.tt.Unk("captured", et)
					s.store(f.args[i], u, et)
				}
			}
		}
	}
	var args []*Term
	for _, p := range f.fn.Params {
		a := e.tt.Unk("item", p.Type())
		s.nn[a] = true
		args = append(args, a)
	}
	outs := c.runClos(e, s, f, args...)
	for _, o := range outs {
		c.ob("usable", con, !o.panic, o.pos, "a function used while iterating panics: %s", o.panicIs)
		if !o.panic && len(o.ret) == 1 {
			if !o.st.canon(o.ret[0]).isNil() {
				n.held(con, e, o.st, o.ret[0], f.fn.Pos(), d)
			}
		}
	}
	n.derefs(outs, func(o Outcome, x Ev, why string) {
		c.fail("usable", con, x.pos, "a function used while iterating uses a value that may be nil (%s)", why)
	})
}

// edgeMapCases: an edge map holds nothing, one edge, or lists.
func (n *nilA) edgeMapCases(fn *ssa.Function) []func(e *Eng, st *State, args []*Term) {
	c := n.c
	none := []func(e *Eng, st *State, args []*Term){nil}
	em := c.w.typ("edgeMap")
	if em == nil || fn.Signature.Recv() == nil || structOf(fn.Signature.Recv().Type()) != structOf(em) {
		return none
	}
	var out []func(e *Eng, st *State, args []*Term)
	for k := int64(0); k <= 2; k++ {
		k := k
		out = append(out, func(e *Eng, st *State, args []*Term) {
			get := func(f string) *Term {
				s := structOf(em)
				for i := 0; i < s.NumFields(); i++ {
					if fieldName(s.Field(i)) != f {
						continue
					}
					if _, ok := args[0].typ.Underlying().(*types.Pointer); ok {
						return st.get(args[0], types.NewPointer(em), f)
					}
					return st.canon(e.fieldOf(args[0], i, f, s.Field(i).Type()))
				}
				panic(anchorErr("edgeMap has no field " + f))
			}
			m := get("n")
			if k == 2 {
				st.assume(e.tt.lt(m, e.tt.Int(2)), false)
				st.nn[get("edgeLabelLists")] = true
			} else {
				st.assume(e.tt.eq(m, e.tt.Int(k)), true)
			}
			if k == 1 {
				st.nn[get("only")] = true
			}
		})
	}
	return out
}

func (c *Ctx) checkNil() {
	n := &nilA{c: c, q: map[string]bool{}, may: map[string]bool{}, nilable: c.w.nilableFields(), must: map[string]bool{}}
	q := c.queryFns()
	for _, f := range q {
		n.q[f] = true
	}
	n.checkIterTypes()
	undecided := map[string]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range q {
			f := f
			if n.may[f] || undecided[f] {
				continue
			}
			ok := false
			c.guard("answer", f, func() {
				_, outs := n.run(f, nil)
				for _, o := range outs {
					if !o.panic && n.bad(o.st, o.ret[0]) != "" {
						n.may[f] = true
						changed = true
					}
				}
				ok = true
			})
			if !ok {
				undecided[f] = true
			}
		}
	}
	for _, name := range q {
		name := name
		fn := c.fn(name)
		api := token.IsExported(fn.Name())
		if r := fn.Signature.Recv(); r != nil {
			api = api && token.IsExported(typeName(r.Type()))
		}
		c.guard("answer", name, func() {
			if api {
				c.ob("answer", name, !n.may[name], fn.Pos(), "may answer nil instead of an iterator")
			} else {
				c.pass("answer", name)
			}
			for _, setup := range n.edgeMapCases(fn) {
				n.collect = func(e *Eng, st *State, a *Term, pos token.Pos) {
					if why := n.bad(st, a); why != "" {
						c.fail("usable", name, pos, "an iterator that may be missing is passed on (%s)", why)
					}
					h := n.collect
					n.collect = nil
					n.held(name, e, st, a, pos, 0)
					n.collect = h
				}
				e, outs := n.run(name, setup)
				n.collect = nil
				for _, o := range outs {
					if c.ob("safe", name, !o.panic, o.pos, "panics: %s", o.panicIs) && isIterType(fn.Signature.Results().At(0).Type()) {
						n.held(name, e, o.st, o.ret[0], fn.Pos(), 0)
					}
				}
				n.derefs(outs, func(o Outcome, x Ev, why string) {
					c.fail("safe", name, x.pos, "uses a value that may be nil (%s)", why)
				})
			}
		})
	}
}

func init() {
	reg("C31", "nil", 60, func(c *Ctx) { c.checkNil() })
}
