package main

import (
	"go/types"
	"strings"
)

// stdModel gives the library functions the package builds on their meaning.
func stdModel(e *Eng, st *State, ci *CallInfo) ([]CallRes, bool) {
	if ci.fn == nil {
		return nil, false
	}
	tt := e.tt
	one := func(v *Term) ([]CallRes, bool) { return []CallRes{{st: st, val: st.canon(v)}}, true }
	switch ci.name {
	case "(*container/list.List).PushBack", "(*container/list.List).PushFront":
		rs := e.opaque0(st, ci)
		el := rs[0].val
		st.nn[el] = true
		if t, ok := ci.typ.Underlying().(*types.Pointer); ok {
			st.mem[e.fld(el, t, "Value")] = ci.args[1]
		}
		return rs, true
	case "(*container/list.List).Front", "(*container/list.List).Back", "(*container/list.List).Len",
		"(*container/list.Element).Next", "(*container/list.Element).Prev":
		short := ci.name[strings.LastIndex(ci.name, ".")+1:]
		if strings.Contains(ci.name, "Element") {
			short = "El" + short
		}
		if strings.Contains(ci.name, "Element") && !e.deref(st, ci.args[0], ci.pos) {
			return []CallRes{{st: st, panic: true}}, true
		}
		v := tt.App("list."+short, ci.typ, ci.args[0])
		st.event(&Event{kind: EvCall, name: ci.name, fn: ci.fn, args: ci.args, res: v, pos: ci.pos})
		return one(v)
	}
	return nil, false
}
