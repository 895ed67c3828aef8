package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// atoms treats the named functions as primitives: calls become events.
func atoms(names ...string) Hook {
	set := map[string]bool{}
	for _, n := range names {
		set[n] = true
	}
	return func(e *Eng, st *State, ci *CallInfo) ([]CallRes, bool) {
		if ci.fn != nil && set[ci.name] {
			return e.opaque0(st, ci), true
		}
		return nil, false
	}
}

// hooks tries several hooks in order.
func hooks(hs ...Hook) Hook {
	return func(e *Eng, st *State, ci *CallInfo) ([]CallRes, bool) {
		for _, h := range hs {
			if h == nil {
				continue
			}
			if r, ok := h(e, st, ci); ok {
				return r, ok
			}
		}
		return nil, false
	}
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// fld gives the address of a field (dotted path) of the object base points to.
// Embedded structs are not promoted: name each step.
func (e *Eng) fld(base *Term, typ types.Type, path string) *Term {
	t := typ
	a := base
	for _, f := range strings.Split(path, ".") {
		s := structOf(t)
		if s == nil {
			panic(anchorErr(fmt.Sprintf("%v has no field %s", t, f)))
		}
		found := false
		for i := 0; i < s.NumFields(); i++ {
			if fieldName(s.Field(i)) == f {
				a = e.tt.Field(a, i, f, s.Field(i).Type())
				t = s.Field(i).Type()
				found = true
				break
			}
		}
		if !found {
			panic(anchorErr(fmt.Sprintf("type %s has no field %s", typeKey(typ), f)))
		}
	}
	return a
}

func fieldType(typ types.Type, path string) types.Type {
	t := typ
	for _, f := range strings.Split(path, ".") {
		s := structOf(t)
		if s == nil {
			panic(anchorErr(fmt.Sprintf("%v has no field %s", t, f)))
		}
		found := false
		for i := 0; i < s.NumFields(); i++ {
			if fieldName(s.Field(i)) == f {
				t = s.Field(i).Type()
				found = true
				break
			}
		}
		if !found {
			panic(anchorErr(fmt.Sprintf("type %s has no field %s", typeKey(typ), f)))
		}
	}
	return t
}

// get loads a field of the object base points to.
func (st *State) get(base *Term, typ types.Type, path string) *Term {
	return st.load(st.e.fld(base, typ, path), fieldType(typ, path))
}

func (c *Ctx) typ(name string) types.Type {
	t := c.w.typ(name)
	if t == nil {
		panic(anchorErr("type " + name + " not found in the source"))
	}
	return t
}

// Ev is an event in canonical form with the place it occurs at.
type Ev struct {
	*Event
	args []*Term
	res  *Term
	st   *State // state whose equalities apply
	path []*LoopAt
	idx  int // position in the enclosing event list
}

// LoopAt says an event is in an iteration of a loop.
type LoopAt struct {
	loop *Loop
	seg  *Seg
}

// flat lists all events of a trace, iterations of loops included.
func flat(st *State) []Ev {
	var out []Ev
	var walk func(evs []*Event, st *State, path []*LoopAt)
	walk = func(evs []*Event, st *State, path []*LoopAt) {
		for i, ev := range evs {
			out = append(out, mkEv(ev, st, path, i))
			if ev.kind == EvLoop {
				for _, s := range ev.loop.segs {
					walk(s.events, s.st, append(append([]*LoopAt(nil), path...), &LoopAt{ev.loop, s}))
				}
			}
		}
	}
	walk(st.tr.list(), st, nil)
	return out
}

func mkEv(ev *Event, st *State, path []*LoopAt, i int) Ev {
	x := Ev{Event: ev, st: st, path: path, idx: i}
	for _, a := range ev.args {
		x.args = append(x.args, st.canon(a))
	}
	if ev.res != nil {
		x.res = st.canon(ev.res)
	}
	return x
}

// line lists the events of one trace level, not entering loops.
func line(evs []*Event, st *State) []Ev {
	var out []Ev
	for i, ev := range evs {
		out = append(out, mkEv(ev, st, nil, i))
	}
	return out
}

func top(st *State) []Ev { return line(st.tr.list(), st) }

// lname is the name of the called function without package qualifiers.
func (x *Ev) isCall(names ...string) bool {
	if x.kind != EvCall {
		return false
	}
	for _, n := range names {
		if x.name == n {
			return true
		}
	}
	return false
}

func (x *Ev) isMethod(names ...string) bool {
	if x.kind != EvCall || !x.invoke {
		return false
	}
	for _, n := range names {
		if x.name == n {
			return true
		}
	}
	return false
}

// provLeaves gives the values a loop-carried value may stand for.
func (e *Eng) provLeaves(t *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		p := e.tt.prov[t]
		if len(p) == 0 {
			out = append(out, t)
			return
		}
		for x := range p {
			rec(x)
		}
	}
	rec(t)
	// stable order
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j].id < out[i].id {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

// strip removes interface wrapping.
func strip(t *Term) *Term {
	for t != nil && t.op == OpIface {
		t = t.args[0]
	}
	return t
}

func isPhi(t *Term) bool { return t.op == OpUnk && strings.HasPrefix(t.name, "φ[") }

// asOf matches as:T(x) and gives x.
func asOf(t *Term) (*Term, string, bool) {
	if t.op == OpApp && strings.HasPrefix(t.name, "as:") {
		return t.args[0], t.name[3:], true
	}
	return nil, "", false
}

func app(t *Term, name string) bool { return t != nil && t.op == OpApp && t.name == name }

// fieldInit matches the initial content of a field and gives its base.
func fieldInit(t *Term, name string) (*Term, bool) {
	if t != nil && t.op == OpInit && t.args[0].op == OpField && t.args[0].name == name {
		return t.args[0].args[0], true
	}
	return nil, false
}

func shortFn(f *ssa.Function) string { return fnName(f) }

func outDesc(o Outcome) string {
	var ss []string
	for _, ev := range o.st.tr.list() {
		if ev.kind == EvAssume {
			a := o.st.canon(ev.args[0])
			_ = a
			ss = append(ss, fmt.Sprintf("%v=%v", ev.args[0], ev.truth))
		}
		if len(ss) > 8 {
			ss = append(ss, "…")
			break
		}
	}
	return strings.Join(ss, " && ")
}

// whole gives the struct value whose fields t lists one by one, if there is
// one.
func whole(t *Term) *Term {
	if t.op != OpStruct || len(t.args) == 0 {
		return t
	}
	var base *Term
	for i, a := range t.args {
		a = whole(a)
		if a.op != OpFieldOf || a.idx != i {
			return t
		}
		if base != nil && base != a.args[0] {
			return t
		}
		base = a.args[0]
	}
	return base
}

// anywhere reports whether p holds of t or of a term inside it.
func anywhere(t *Term, p func(*Term) bool) bool {
	if t == nil {
		return false
	}
	if p(t) {
		return true
	}
	for _, a := range t.args {
		if anywhere(a, p) {
			return true
		}
	}
	return false
}
