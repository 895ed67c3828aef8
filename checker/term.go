package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is the kind of an abstract value.
type Op int

const (
	OpConst   Op = iota // a Go constant
	OpNil               // nil of any type
	OpParam             // initial value of a parameter or free variable
	OpGlobal            // address of a package variable
	OpFunc              // a function
	OpClos              // a closure: function and bound variables
	OpNew               // address of an object allocated by the analysed code
	OpField             // address of a field
	OpElem              // address of an element
	OpInit              // content of a location before the analysed code ran
	OpUnk               // unknown value: call results, loop-carried values
	OpApp               // value of a pure operation on other values
	OpIface             // interface value with known dynamic type
	OpTuple             // multiple results
	OpStruct            // struct value
	OpFieldOf           // field of an opaque struct value
)

// Term is a hash-consed abstract value (a value number).
type Term struct {
	id   int
	op   Op
	name string
	idx  int
	typ  types.Type // type of the value, when known
	args []*Term
	fn   *ssa.Function
	cv   constant.Value
	src  ssa.Value // defining instruction for New/Unk
	call *Event    // for results of calls: the call
}

type Terms struct {
	tab  map[string]*Term
	all  []*Term
	prov map[*Term]map[*Term]bool // loop-carried value -> values joined into it
}

func newTerms() *Terms {
	return &Terms{tab: map[string]*Term{}, prov: map[*Term]map[*Term]bool{}}
}

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (tt *Terms) mk(op Op, name string, idx int, typ types.Type, fn *ssa.Function, args ...*Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|%d", op, name, idx)
	if fn != nil {
		fmt.Fprintf(&sb, "|%p", fn)
	}
	if op == OpIface || op == OpStruct {
		sb.WriteString("|" + typeKey(typ))
	}
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	k := sb.String()
	if t := tt.tab[k]; t != nil {
		return t
	}
	t := &Term{id: len(tt.all), op: op, name: name, idx: idx, typ: typ, fn: fn, args: append([]*Term(nil), args...)}
	tt.all = append(tt.all, t)
	tt.tab[k] = t
	return t
}

func (tt *Terms) Const(c constant.Value, typ types.Type) *Term {
	k := "?"
	if c != nil {
		k = c.Kind().String() + ":" + c.ExactString()
	}
	t := tt.mk(OpConst, k, 0, typ, nil)
	t.cv = c
	return t
}
func (tt *Terms) Bool(b bool) *Term { return tt.Const(constant.MakeBool(b), types.Typ[types.Bool]) }
func (tt *Terms) Int(i int64) *Term { return tt.Const(constant.MakeInt64(i), types.Typ[types.Int]) }
func (tt *Terms) Str(s string) *Term {
	return tt.Const(constant.MakeString(s), types.Typ[types.String])
}
func (tt *Terms) Nil() *Term { return tt.mk(OpNil, "", 0, nil, nil) }
func (tt *Terms) Param(name string, typ types.Type) *Term {
	return tt.mk(OpParam, name, 0, typ, nil)
}
func (tt *Terms) Field(base *Term, i int, name string, typ types.Type) *Term {
	return tt.mk(OpField, name, i, types.NewPointer(typ), nil, base)
}
func (tt *Terms) Elem(base, idx *Term, typ types.Type) *Term {
	return tt.mk(OpElem, "", 0, types.NewPointer(typ), nil, base, idx)
}
func (tt *Terms) Init(addr *Term, typ types.Type) *Term {
	return tt.mk(OpInit, "", 0, typ, nil, addr)
}
func (tt *Terms) Unk(name string, typ types.Type) *Term {
	return tt.mk(OpUnk, name, 0, typ, nil)
}
func (tt *Terms) App(name string, typ types.Type, args ...*Term) *Term {
	return tt.mk(OpApp, name, 0, typ, nil, args...)
}
func (tt *Terms) Iface(t types.Type, v *Term) *Term {
	return tt.mk(OpIface, "", 0, t, nil, v)
}
func (tt *Terms) Tuple(args ...*Term) *Term { return tt.mk(OpTuple, "", 0, nil, nil, args...) }
func (tt *Terms) Struct(typ types.Type, args ...*Term) *Term {
	return tt.mk(OpStruct, "", 0, typ, nil, args...)
}

// root of an address: the object or pointer it is based on.
func (t *Term) root() *Term {
	for t.op == OpField || t.op == OpElem {
		t = t.args[0]
	}
	return t
}

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isNil() bool   { return t.op == OpNil }

func (t *Term) constBool() (v, ok bool) {
	if t.op == OpConst && t.cv != nil && t.cv.Kind() == constant.Bool {
		return constant.BoolVal(t.cv), true
	}
	return false, false
}

func (t *Term) constInt() (int64, bool) {
	if t.op == OpConst && t.cv != nil && t.cv.Kind() == constant.Int {
		return constant.Int64Val(t.cv)
	}
	return 0, false
}

func (t *Term) constStr() (string, bool) {
	if t.op == OpConst && t.cv != nil && t.cv.Kind() == constant.String {
		return constant.StringVal(t.cv), true
	}
	return "", false
}

// mentions reports whether t is built from any term in set.
func (t *Term) mentions(set map[*Term]bool) bool {
	if set[t] {
		return true
	}
	for _, a := range t.args {
		if a.mentions(set) {
			return true
		}
	}
	return false
}

// contains reports whether x occurs in t.
func (t *Term) contains(x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.args {
		if a.contains(x) {
			return true
		}
	}
	return false
}

// String renders a term; contents of initial locations print as access paths.
func (t *Term) String() string { return t.render(0) }

func (t *Term) render(d int) string {
	if d > 12 {
		return "…"
	}
	r := func(x *Term) string { return x.render(d + 1) }
	list := func(xs []*Term) string {
		var ss []string
		for _, x := range xs {
			ss = append(ss, r(x))
		}
		return strings.Join(ss, ",")
	}
	switch t.op {
	case OpConst:
		if t.cv == nil {
			return "zero"
		}
		return t.cv.ExactString()
	case OpNil:
		return "nil"
	case OpParam:
		return t.name
	case OpGlobal:
		return "&" + t.name
	case OpFunc:
		return "func:" + fnName(t.fn)
	case OpClos:
		return "closure:" + fnName(t.fn)
	case OpNew:
		return t.name
	case OpField, OpElem:
		return "&" + t.path(d)
	case OpInit:
		return t.args[0].path(d)
	case OpUnk:
		return t.name
	case OpApp:
		return t.name + "(" + list(t.args) + ")"
	case OpIface:
		return "iface:" + typeKey(t.typ) + "{" + r(t.args[0]) + "}"
	case OpTuple:
		return "(" + list(t.args) + ")"
	case OpStruct:
		return typeKey(t.typ) + "{" + list(t.args) + "}"
	case OpFieldOf:
		return r(t.args[0]) + "." + t.name
	}
	return "?"
}

// path renders the location an address denotes.
func (t *Term) path(d int) string {
	switch t.op {
	case OpField:
		return t.args[0].path(d+1) + "." + t.name
	case OpElem:
		return t.args[0].path(d+1) + "[" + t.args[1].render(d+1) + "]"
	}
	return t.render(d + 1)
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if a, ok := fnAlias[f]; ok {
		return a
	}
	s := strings.ReplaceAll(f.String(), modPath+".", "")
	// methods print as Type.method, whether the receiver is a pointer or not
	if strings.HasPrefix(s, "(") {
		if k := strings.Index(s, ")"); k > 0 {
			r := strings.TrimPrefix(s[1:k], "*")
			if !strings.Contains(r, ".") && !strings.Contains(r, "/") {
				s = r + s[k+1:]
			}
		}
	}
	return s
}
