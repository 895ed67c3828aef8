package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

// errorResult is the index of the error among results, or -1.
func errorResult(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if isErrorType(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

func hasErrorParam(sig *types.Signature) bool {
	for i := 0; i < sig.Params().Len(); i++ {
		if isErrorType(sig.Params().At(i).Type()) {
			return true
		}
	}
	return false
}

// neverFails: calls documented to return a nil error always.
func neverFails(ev *Event) bool {
	n := ev.name
	if strings.HasPrefix(n, "(*strings.Builder).") || strings.HasPrefix(n, "(*bytes.Buffer).Write") {
		return true
	}
	if strings.HasPrefix(n, "fmt.Fprint") || n == "io.WriteString" {
		if w := ev.args[0]; w.op == OpIface {
			s := typeKey(w.typ)
			return s == "*strings.Builder" || s == "*bytes.Buffer"
		}
	}
	return false
}

// errorOf is the error a call event may have produced.
func errorOf(ev *Event) *Term {
	if ev.kind != EvCall || ev.res == nil {
		return nil
	}
	if ev.res.op == OpTuple {
		tup, ok := ev.res.typ.(*types.Tuple)
		for i, a := range ev.res.args {
			if isErrorType(a.typ) || ok && i < tup.Len() && isErrorType(tup.At(i).Type()) {
				return a
			}
		}
		return nil
	}
	if isErrorType(ev.res.typ) {
		return ev.res
	}
	return nil
}

// forgetArgs: a function analysed on its own may have changed whatever its
// arguments give access to.
func forgetArgs(e *Eng, st *State, ci *CallInfo) {
	for i, a := range ci.args {
		a = st.canon(a)
		if a.op == OpIface {
			a = st.canon(a.args[0])
		}
		if a.typ == nil {
			continue
		}
		cells := []*Term{a}
		if a.op == OpClos {
			cells = a.args
		}
		for j, x := range cells {
			x = st.canon(x)
			if x.typ == nil {
				continue
			}
			switch t := x.typ.Underlying().(type) {
			case *types.Map:
				st.maps[x] = &MapH{kind: 2, id: e.ctx(fmt.Sprintf("forget:%s %d.%d", ci.uid, i, j)) + 1}
				delete(st.fresh, x)
			case *types.Pointer:
				if r := x.root(); r.op == OpNew || a.op == OpClos {
					st.store(x, e.resultUnk(st, "after", fmt.Sprintf("%s after%d.%d", ci.uid, i, j), t.Elem()), t.Elem())
				}
			}
		}
	}
}

// checkErrors: in every function, an error that a call may have returned is
// known to be nil wherever the function goes on to another round of a loop or
// reports success.
func (c *Ctx) checkErrors(rule string) {
	calls, funcs := 0, 0
	// closures that hand the error out through a captured variable, which one
	carriers := map[*ssa.Function]int{}
	mayErr := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if errorResult(call.Common().Signature()) >= 0 {
						return true
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					if g, ok := mc.Fn.(*ssa.Function); ok {
						if _, is := carriers[g]; is {
							return true
						}
					}
				}
			}
		}
		return false
	}
	modular := func(e *Eng, st *State, ci *CallInfo) ([]CallRes, bool) {
		if ci.fn == nil || !c.w.inline(ci.fn) || hasErrorParam(ci.fn.Signature) {
			return nil, false
		}
		if ci.fn.Parent() == nil || errorResult(ci.fn.Signature) < 0 && !mayErr(ci.fn) {
			rs := e.opaque0(st, ci)
			forgetArgs(e, st, ci)
			return rs, true
		}
		return nil, false
	}
	one := func(f *ssa.Function) {
		con := fnName(f)
		c.guard(rule, con, func() {
			funcs++
			e := newEng(c.w)
			e.hook = hooks(stdModel, modular)
			st := e.newState()
			var args, free []*Term
			for i, p := range f.Params {
				a := e.tt.Param(fmt.Sprintf("%s%d", p.Name(), i), p.Type())
				if i == 0 && f.Signature.Recv() != nil {
					st.nn[a] = true
				}
				args = append(args, a)
			}
			for i, p := range f.FreeVars {
				a := e.tt.Param(fmt.Sprintf("captured%d", i), p.Type())
				st.nn[a] = true
				free = append(free, a)
			}
			outs := e.call(f, args, free, st, "r")
			c.account(e, outs)
			if e.over {
				panic(anchorErr("analysis budget exceeded"))
			}
			ri := errorResult(f.Signature)
			seenLoop := map[*Loop]bool{}
			isNil := func(s *State, t *Term) bool {
				v, k := s.evalBool(s.canon(e.tt.eq(s.canon(t), e.tt.Nil())))
				return k && v
			}
			notNil := func(s *State, t *Term) bool {
				t = s.canon(t)
				if t.op == OpIface {
					return true
				}
				v, k := s.evalBool(s.canon(e.tt.eq(t, e.tt.Nil())))
				return k && !v
			}
			var loops func(evs []*Event)
			loops = func(evs []*Event) {
				for _, ev := range evs {
					if ev.kind != EvLoop || seenLoop[ev.loop] {
						continue
					}
					seenLoop[ev.loop] = true
					for _, sg := range ev.loop.segs {
						for _, x := range sg.events {
							if er := errorOf(x); er != nil && !neverFails(x) {
								calls++
								ok := isNil(sg.st, er)
								if !ok {
									// carried on by a variable of the loop
									for _, v := range sg.next {
										if sg.st.canon(v) == sg.st.canon(er) {
											ok = false
										}
									}
								}
								c.ob(rule, con, ok, x.pos, "goes on after %s although it may have failed", x.name)
							}
						}
						loops(sg.events)
					}
				}
			}
			for _, o := range outs {
				if o.st.dead || o.panic {
					continue
				}
				evs := o.st.tr.list()
				loops(evs)
				var ret *Term
				if ri >= 0 {
					ret = o.ret[ri]
				}
				check := func(er *Term, name string, x *Event) {
					s := o.st
					if isNil(s, er) {
						c.pass(rule, con)
						return
					}
					if ret != nil {
						ok := s.canon(ret) == s.canon(er) || notNil(s, ret)
						c.ob(rule, con, ok, x.pos, "an error of %s is not reported: %v is returned", name, s.canon(ret))
						return
					}
					// handed out through a captured variable
					if f.Parent() != nil {
						for i, fr := range free {
							pt, ok := fr.typ.Underlying().(*types.Pointer)
							if !ok || !isErrorType(pt.Elem()) {
								continue
							}
							if s.canon(s.load(fr, pt.Elem())) == s.canon(er) {
								stop := len(o.ret) == 0
								if len(o.ret) == 1 {
									v, k := s.evalBool(s.canon(o.ret[0]))
									stop = k && !v
								}
								if c.ob(rule, con, stop, x.pos, "the caller is not told to stop after an error of %s", name) {
									carriers[f] = i
								}
								return
							}
						}
					}
					c.fail(rule, con, x.pos, "an error of %s is lost: %s returns no error", name, con)
				}
				for _, x := range evs {
					if er := errorOf(x); er != nil && !neverFails(x) {
						calls++
						check(er, x.name, x)
					}
					// what a closure put into a variable
					if x.kind == EvCall {
						for _, a := range x.args {
							a = o.st.canon(a)
							if a.op != OpClos {
								continue
							}
							i, is := carriers[a.fn]
							if !is {
								continue
							}
							calls++
							cell := a.args[i]
							v := o.st.load(cell, elemType(cell))
							ok := ret != nil && (o.st.canon(ret) == o.st.canon(v) || notNil(o.st, ret))
							c.ob(rule, con, ok, x.pos, "an error kept by the function given to %s is not reported", x.name)
						}
					}
				}
			}
		})
	}
	// inner functions first
	var order []*ssa.Function
	for _, f := range c.w.all {
		if f.Synthetic == "" && f.Parent() != nil {
			order = append([]*ssa.Function{f}, order...)
		}
	}
	for _, f := range c.w.all {
		if f.Synthetic == "" && f.Parent() == nil {
			order = append(order, f)
		}
	}
	for _, f := range order {
		if mayErr(f) {
			one(f)
		}
	}
	c.ob(rule, "calls", funcs >= 10 && calls >= 30, 0, "only %d functions with %d calls that may fail found", funcs, calls)
}

func init() {
	reg("C16", "Path-sensitive error-flow analysis of every function: whatever error a call (writer, decoder, marshaler, callback, pattern step, package function) may return must be known nil wherever the function starts another loop round or returns success; closures must hand errors out through a variable their creator returns. Function by function, so by induction no layer loses an error.", 30, func(c *Ctx) {
		c.checkErrors("error-flow")
	})
}
