package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- zones: differences between integer terms ----

type zone struct {
	e   *Eng
	st  *State
	idx map[*Term]int
	d   [][]int64
}

const zinf = int64(1) << 40

func (z *zone) node(t *Term) int {
	if i, ok := z.idx[t]; ok {
		return i
	}
	n := len(z.d)
	z.idx[t] = n
	for i := range z.d {
		z.d[i] = append(z.d[i], zinf)
	}
	row := make([]int64, n+1)
	for i := range row {
		row[i] = zinf
	}
	row[n] = 0
	z.d = append(z.d, row)
	return n
}

// le adds x - y <= c.
func (z *zone) le(x, y *Term, c int64) {
	xb, xo := z.st.affine(x)
	yb, yo := z.st.affine(y)
	// differences
	if app(xb, "-") && yb == nil {
		z.le(xb.args[0], xb.args[1], c-xo+yo)
	}
	if app(yb, "-") && xb == nil {
		z.le(yb.args[1], yb.args[0], c-xo+yo)
	}
	i, j := z.node(xb), z.node(yb)
	if k := c - xo + yo; k < z.d[i][j] {
		z.d[i][j] = k
	}
}

func (z *zone) close() {
	n := len(z.d)
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if s := z.d[i][k] + z.d[k][j]; s < z.d[i][j] {
					z.d[i][j] = s
				}
			}
		}
	}
}

// empty: no values satisfy what is known.
func (z *zone) empty() bool {
	for i := range z.d {
		if z.d[i][i] < 0 {
			return true
		}
	}
	return false
}

// holds: x - y <= c in every case.
func (z *zone) holds(x, y *Term, c int64) bool {
	xb, xo := z.st.affine(x)
	yb, yo := z.st.affine(y)
	i, ok := z.idx[xb]
	j, ok2 := z.idx[yb]
	if xb == yb {
		return xo-yo <= c
	}
	return ok && ok2 && z.d[i][j] <= c-xo+yo
}

// zoneOf collects what a state knows about differences of integers.
func (st *State) zoneOf(more func(z *zone)) *zone {
	z := &zone{e: st.e, st: st, idx: map[*Term]int{}}
	z.node(nil)
	var lens []*Term
	num := func(t *Term) bool {
		if t.isConst() {
			_, ok := t.constInt()
			return ok
		}
		return t.typ != nil && isInt(t.typ)
	}
	for t, u := range st.subst {
		if num(t) && num(u) {
			z.le(t, u, 0)
			z.le(u, t, 0)
		}
	}
	for f, v := range st.facts {
		if f.op != OpApp || f.name != "lt" && f.name != "eq" {
			continue
		}
		x, y := f.args[0], f.args[1]
		if !num(x) || !num(y) {
			continue
		}
		for _, t := range []*Term{x, y} {
			if b, _ := st.affine(t); app(b, "len") {
				lens = append(lens, b)
			}
		}
		switch {
		case f.name == "lt" && v:
			z.le(x, y, -1)
		case f.name == "lt":
			z.le(y, x, 0)
		case v:
			z.le(x, y, 0)
			z.le(y, x, 0)
		}
	}
	zero := st.e.tt.Int(0)
	for t, v := range st.iv {
		if v.hasHi {
			z.le(t, zero, v.hi)
		}
		if v.hasLo {
			z.le(zero, t, -v.lo)
		}
	}
	for _, l := range lens {
		z.le(zero, l, 0)
	}
	if more != nil {
		more(z)
	}
	z.close()
	// x != y refines x <= y
	for again := !z.empty(); again; {
		again = false
		for f, v := range st.facts {
			if f.op == OpApp && f.name == "eq" && !v {
				x, y := f.args[0], f.args[1]
				if !num(x) || !num(y) {
					continue
				}
				for _, p := range [][2]*Term{{x, y}, {y, x}} {
					if z.holds(p[0], p[1], 0) && !z.holds(p[0], p[1], -1) {
						z.le(p[0], p[1], -1)
						z.close()
						again = !z.empty()
					}
				}
			}
		}
	}
	return z
}

// ---- comparison of property values ----

type cmpType struct {
	name string
	t    types.Type
	elem types.Type
}

type cmpRun struct {
	c      *Ctx
	e      *Eng
	o      Outcome
	a, b   *Term // interface values compared
	p, q   *Term // their contents
	at, bt cmpType
	con    string
	rule   string
}

// cmpModel: comparisons of parts are primitives giving -1, 0 or 1, values
// that wrap others give the ones chosen for them.
func (c *Ctx) cmpModel(native func(e *Eng, recv *Term) *Term) Hook {
	return func(e *Eng, st *State, ci *CallInfo) ([]CallRes, bool) {
		tt := e.tt
		three := func(x, y *Term) []CallRes {
			var rs []CallRes
			for i := -1; i <= 1; i++ {
				s := st.clone()
				s.event(&Event{kind: EvCall, name: ci.name, fn: ci.fn, args: ci.args, res: tt.Int(int64(i)), pos: ci.pos})
				switch i {
				case -1:
					s.assume(tt.lt(x, y), true)
				case 0:
					s.assume(tt.eq(x, y), true)
				default:
					s.assume(tt.lt(y, x), true)
				}
				if !s.dead {
					rs = append(rs, CallRes{st: s, val: tt.Int(int64(i))})
				}
			}
			return rs
		}
		switch {
		case ci.name == "ComparePropertyValue" && ci.fn != nil:
			rs := e.opaque0(st, ci)
			for _, r := range rs {
				r.st.assume(tt.lt(r.val, tt.Int(-1)), false)
				r.st.assume(tt.lt(tt.Int(1), r.val), false)
			}
			return rs, true
		case strings.HasSuffix(ci.name, ".GetNativeValue") || ci.name == "GetNativeValue":
			if native != nil {
				if v := native(e, st.canon(ci.args[0])); v != nil {
					return []CallRes{{st: st, val: v}}, true
				}
			}
		case ci.name == "strings.Compare" || strings.HasPrefix(ci.name, "cmp.Compare"):
			return three(st.canon(ci.args[0]), st.canon(ci.args[1])), true
		}
		return nil, false
	}
}

// sign is what a state knows about two parts: "<", "=", ">", "<>" or "".
func (r *cmpRun) partSign(st *State, evs []Ev, x, y *Term) (rel string, res *Term, flip bool) {
	tt := r.e.tt
	x, y = st.canon(x), st.canon(y)
	known := func(t *Term) (bool, bool) { return st.evalBool(st.canon(t)) }
	basic := func(t *Term) bool {
		if t.typ == nil {
			return false
		}
		_, ok := t.typ.Underlying().(*types.Basic)
		return ok
	}
	if basic(x) && basic(y) {
		lt, k1 := known(tt.lt(x, y))
		gt, k2 := known(tt.lt(y, x))
		eq, k3 := known(tt.eq(x, y))
		switch {
		case k1 && lt:
			return "<", nil, false
		case k2 && gt:
			return ">", nil, false
		case k3 && eq, k1 && k2:
			return "=", nil, false
		case k3 && k1:
			return ">", nil, false
		case k3 && k2:
			return "<", nil, false
		}
	}
	for _, ev := range evs {
		if ev.kind != EvCall || !strings.HasSuffix(ev.name, "ComparePropertyValue") || len(ev.args) != 2 {
			continue
		}
		s0, s1 := unIface(st.canon(ev.args[0])), unIface(st.canon(ev.args[1]))
		fl := false
		if s0 == unIface(y) && s1 == unIface(x) && !(s0 == s1) {
			fl = true
		} else if s0 != unIface(x) || s1 != unIface(y) {
			continue
		}
		v := st.canon(ev.res)
		var pos [3]bool // may be -1, 0, 1
		for i := range pos {
			eq, k := known(tt.eq(v, tt.Int(int64(i-1))))
			pos[i] = !k || eq
		}
		z := st.zoneOf(nil)
		if z.holds(v, tt.Int(0), 0) {
			pos[2] = false
		}
		if z.holds(v, tt.Int(0), -1) {
			pos[1] = false
		}
		if z.holds(tt.Int(0), v, 0) {
			pos[0] = false
		}
		if z.holds(tt.Int(0), v, -1) {
			pos[1] = false
		}
		if fl {
			pos[0], pos[2] = pos[2], pos[0]
		}
		switch pos {
		case [3]bool{true, false, false}:
			return "<", v, fl
		case [3]bool{false, true, false}:
			return "=", v, fl
		case [3]bool{false, false, true}:
			return ">", v, fl
		case [3]bool{true, false, true}:
			return "<>", v, fl
		}
		return "", v, fl
	}
	return "", nil, false
}

func unIface(t *Term) *Term {
	if t.op == OpIface {
		return t.args[0]
	}
	return t
}

func signOf(n int64) string {
	switch n {
	case -1:
		return "<"
	case 0:
		return "="
	case 1:
		return ">"
	}
	return "?"
}

// lists checks an outcome of the comparison of two lists.
func (r *cmpRun) lists(ret *Term) string {
	st, tt := r.o.st, r.e.tt
	l1 := st.canon(tt.App("len", types.Typ[types.Int], r.p))
	l2 := st.canon(tt.App("len", types.Typ[types.Int], r.q))
	cands := []*Term{tt.Int(0)}
	var inv []*Term
	for _, ev := range st.tr.list() {
		if ev.kind != EvLoop {
			continue
		}
		L := ev.loop
		for ph, v := range L.init {
			c0, ok := v.constInt()
			if !ok || len(L.segs) == 0 {
				continue
			}
			// some offset from this counter is the position compared
			for _, off := range []int64{-c0} {
				all := true
				var hs []*Term
				for _, sg := range L.segs {
					h, n := sg.hdr[ph], sg.next[ph]
					if h == nil || n == nil {
						all = false
						break
					}
					hb, ho := sg.st.affine(h)
					nb, no := sg.st.affine(n)
					if hb != nb || no != ho+1 {
						all = false
						break
					}
					x := r.e.add(h, tt.Int(off))
					s := sg.st
					z := s.zoneOf(func(z *zone) {
						// all elements before x were compared
						z.le(x, l1, 0)
						z.le(x, l2, 0)
					})
					if !z.holds(x, l1, -1) || !z.holds(x, l2, -1) {
						all = false
						break
					}
					rel, _, _ := r.partSign(s, line(sg.events, s), r.elem(s, r.p, r.at, x), r.elem(s, r.q, r.bt, x))
					if rel != "=" {
						all = false
						break
					}
					hs = append(hs, x)
				}
				if all {
					for _, x := range hs {
						if !x.isConst() {
							cands = append(cands, x)
							inv = append(inv, x)
						}
					}
				}
			}
		}
	}
	z := st.zoneOf(func(z *zone) {
		z.le(tt.Int(0), l1, 0)
		z.le(tt.Int(0), l2, 0)
		for _, x := range inv {
			z.le(x, l1, 0)
			z.le(x, l2, 0)
			z.le(tt.Int(0), x, 0)
		}
	})
	if z.empty() {
		return ""
	}
	n, isC := ret.constInt()
	for _, x := range cands {
		if z.holds(l1, x, 0) || z.holds(l2, x, 0) {
			// a list is exhausted
			if isC {
				switch n {
				case -1:
					if z.holds(l1, l2, -1) {
						return ""
					}
				case 0:
					if z.holds(l1, l2, 0) && z.holds(l2, l1, 0) {
						return ""
					}
				case 1:
					if z.holds(l2, l1, -1) {
						return ""
					}
				}
			}
		}
		if z.holds(x, l1, -1) && z.holds(x, l2, -1) {
			rel, res, fl := r.partSign(st, top(st), r.elem(st, r.p, r.at, x), r.elem(st, r.q, r.bt, x))
			if isC && (n == -1 || n == 1) && rel == signOf(n) {
				return ""
			}
			if res != nil && (rel == "<>" || rel == "<" || rel == ">") {
				if ret == st.canon(res) && !fl || app(ret, "neg") && st.canon(ret.args[0]) == st.canon(res) && fl {
					return ""
				}
			}
		}
	}
	return fmt.Sprintf("the result %v is not that of the first elements that differ, nor of the lengths", ret)
}

func (r *cmpRun) elem(st *State, list *Term, ct cmpType, i *Term) *Term {
	return st.load(r.e.tt.Elem(list, i, ct.elem), ct.elem)
}

func isNeg(st *State, t *Term) (*Term, bool) {
	if app(t, "neg") {
		return st.canon(t.args[0]), true
	}
	if app(t, "sub") {
		if n, ok := t.args[0].constInt(); ok && n == 0 {
			return st.canon(t.args[1]), true
		}
	}
	return nil, false
}

// judge checks one outcome that does not panic; it tells whether the
// comparison was handed on with its operands swapped.
func (r *cmpRun) judge() (swapped bool, why string) {
	st := r.o.st
	ret := st.canon(r.o.ret[0])
	inner, neg := ret, false
	if x, ok := isNeg(st, ret); ok {
		inner, neg = x, true
	}
	if cl := st.callOf(inner); cl != nil && strings.HasSuffix(cl.name, "ComparePropertyValue") {
		a0, a1 := st.canon(cl.args[0]), st.canon(cl.args[1])
		if !neg && a0 == r.a && a1 == r.b {
			return false, "the comparison calls itself with the same operands"
		}
		if neg && unIface(a0) == r.q && unIface(a1) == r.p {
			return true, ""
		}
	}
	n, isC := ret.constInt()
	if isC && (n < -1 || n > 1) {
		return false, fmt.Sprintf("the result is %d", n)
	}
	if r.at.elem == nil && r.bt.elem == nil {
		rel, _, _ := r.partSign(st, top(st), r.p, r.q)
		if isC && rel == signOf(n) {
			return false, ""
		}
		return false, fmt.Sprintf("the result is %v where the values are known to compare as %q", ret, rel)
	}
	return false, r.lists(ret)
}

func (c *Ctx) checkCompare(rule string) {
	fn := c.fn("ComparePropertyValue")
	con := "ComparePropertyValue"
	anyT := types.NewInterfaceType(nil, nil).Complete()
	ts := []cmpType{
		{"string", types.Typ[types.String], nil},
		{"int", types.Typ[types.Int], nil},
		{"[]string", types.NewSlice(types.Typ[types.String]), types.Typ[types.String]},
		{"[]int", types.NewSlice(types.Typ[types.Int]), types.Typ[types.Int]},
		{"[]interface{}", types.NewSlice(anyT), anyT},
	}
	others := []cmpType{{"bool", types.Typ[types.Bool], nil}, {"float64", types.Typ[types.Float64], nil}}
	supported := func(a, b cmpType) bool {
		if a.name == b.name {
			return a.name != "bool" && a.name != "float64"
		}
		return a.name == "[]interface{}" && (b.name == "[]int" || b.name == "[]string") || b.name == "[]interface{}" && (a.name == "[]int" || a.name == "[]string")
	}
	swaps := map[string]bool{}
	consts := map[string]string{}
	c.guard(rule, con, func() {
		for _, at := range append(append([]cmpType(nil), ts...), others...) {
			for _, bt := range append(append([]cmpType(nil), ts...), others...) {
				k := fmt.Sprintf("%s %s/%s", con, at.name, bt.name)
				r := &cmpRun{c: c, at: at, bt: bt, con: k, rule: rule}
				outs := c.cmpOuts(r, fn, false, false)
				if !supported(at, bt) {
					// all panic, or the result does not depend on the values
					res := ""
					for _, o := range outs {
						x := "panic"
						if !o.panic {
							x = "value"
							if n, ok := o.st.canon(o.ret[0]).constInt(); ok {
								x = fmt.Sprint(n)
							}
						}
						if res != "" && res != x {
							x = "mixed"
						}
						res = x
					}
					consts[at.name+"/"+bt.name] = res
					continue
				}
				np := 0
				for _, o := range outs {
					r.o = o
					if o.panic {
						c.fail(rule, k, o.pos, "comparing %s with %s panics: %s", at.name, bt.name, o.panicIs)
						continue
					}
					np++
					sw, why := r.judge()
					if sw {
						swaps[at.name+"/"+bt.name] = true
					}
					c.ob(rule, k, why == "", fn.Pos(), "%s: %s", why, outDesc(o))
				}
				if np > 0 && !swaps[at.name+"/"+bt.name] {
					// all three results are possible
					got := map[string]bool{}
					for _, o := range outs {
						if n, ok := o.st.canon(o.ret[0]).constInt(); ok {
							got[signOf(n)] = true
						} else {
							got["<"], got[">"] = true, true
						}
					}
					c.ob(rule, k+" results", got["<"] && got["="] && got[">"], fn.Pos(), "some of smaller, equal and larger is never the result")
				}
				for w := 1; w < 4; w++ {
					c.cmpWrapped(rule, fn, at, bt, w&1 != 0, w&2 != 0)
				}
			}
		}
	})
	for p := range swaps {
		h := strings.Split(p, "/")
		c.ob(rule, con+" "+p+" swapped", !swaps[h[1]+"/"+h[0]] || h[0] == h[1] && false, fn.Pos(), "each order of the operands hands the comparison to the other")
	}
	for p, v := range consts {
		h := strings.Split(p, "/")
		w := consts[h[1]+"/"+h[0]]
		ok := v == "panic" && w == "panic" || v == "0" && w == "0" || v == "1" && w == "-1" || v == "-1" && w == "1"
		c.ob(rule, con+" unsupported "+p, ok, fn.Pos(), "comparing %s gives %s, the other way round %s", p, v, w)
	}
}

// cmpOuts analyses the comparison of values of the given types.
func (c *Ctx) cmpOuts(r *cmpRun, fn *ssa.Function, wa, wb bool) []Outcome {
	hook := c.cmpModel(func(e *Eng, recv *Term) *Term {
		recv = strip(recv)
		if y, _, ok := asOf(recv); ok {
			recv = y
		}
		if recv.op == OpParam && recv.name == "wa" {
			return e.tt.Iface(r.at.t, r.p)
		}
		if recv.op == OpParam && recv.name == "wb" {
			return e.tt.Iface(r.bt.t, r.q)
		}
		return nil
	})
	e := newEng(c.w)
	e.hook = hook
	r.e = e
	st := e.newState()
	r.p = e.tt.Param("p", r.at.t)
	r.q = e.tt.Param("q", r.bt.t)
	r.a, r.b = e.tt.Iface(r.at.t, r.p), e.tt.Iface(r.bt.t, r.q)
	args := []*Term{r.a, r.b}
	if wa {
		args[0] = e.tt.Param("wa", fn.Params[0].Type())
	}
	if wb {
		args[1] = e.tt.Param("wb", fn.Params[1].Type())
	}
	return c.runArgs(e, fn, args, st)
}

// cmpWrapped: a value that wraps another compares like the other.
func (c *Ctx) cmpWrapped(rule string, fn *ssa.Function, at, bt cmpType, wa, wb bool) {
	con := fmt.Sprintf("ComparePropertyValue wrapped %s/%s %v %v", at.name, bt.name, wa, wb)
	r := &cmpRun{c: c, at: at, bt: bt, con: con, rule: rule}
	outs := c.cmpOuts(r, fn, wa, wb)
	n := 0
	for _, o := range outs {
		r.o = o
		// executions in which the operands are not wrappers do not count
		is := map[string]string{}
		for f, v := range o.st.facts {
			if !app(f, "typeis") {
				continue
			}
			x := f.args[0]
			if x.op != OpParam {
				continue
			}
			wrap := strings.Contains(f.args[1].String(), "WithNativeValue")
			if wrap && v {
				is[x.name] = "w"
			}
			if wrap && !v || !wrap && v {
				if is[x.name] != "w" {
					is[x.name] = "n"
				}
			}
		}
		if wa && is["wa"] == "n" || wb && is["wb"] == "n" {
			continue
		}
		n++
		if o.panic {
			c.fail(rule, con, o.pos, "comparing wrapped values panics: %s", o.panicIs)
			continue
		}
		st := o.st
		ret := st.canon(o.ret[0])
		if cl := st.callOf(ret); cl != nil && strings.HasSuffix(cl.name, "ComparePropertyValue") {
			a0, a1 := st.canon(cl.args[0]), st.canon(cl.args[1])
			okA := a0 == st.canon(r.a) || wa && wb && a1.op == OpIface && a0.op == OpParam && a0.name == "wa"
			okB := a1 == st.canon(r.b) || wa && wb && a0.op == OpIface && a1.op == OpParam && a1.name == "wb"
			c.ob(rule, con, okA && okB, fn.Pos(), "wrapped values compare as %v with %v", a0, a1)
			continue
		}
		_, why := r.judge()
		c.ob(rule, con, why == "", fn.Pos(), "%s: %s", why, outDesc(o))
	}
	c.ob(rule, con+" handled", n > 0, fn.Pos(), "values that wrap others are not recognised")
}

func init() {
	reg("C27", "abstract interpretation of the comparison for every pair of documented types with zones (difference bounds) for positions and lengths: prefix invariant of every loop, sign of every result, symmetry of the supported combinations", 100, func(c *Ctx) {
		c.checkCompare("compare-order")
	})
}
