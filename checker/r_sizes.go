package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// checkSizes: MaxSize of every iterator type is -1, a constant no smaller than
// what the type can deliver, the estimate of the iterator it draws from, or a
// field; and wherever an iterator with such a field is built the field is -1
// or bounds what the iterator stands for.
func (c *Ctx) checkSizes(rule string) {
	drawsFrom := map[string]string{"filterIterator": "itr", "procIterator": "itr", "nodesFromEdgesIterator": "itr", "nodeIterator": "Iterator", "edgeIterator": "Iterator"}
	atLeast := map[string]int64{"emptyIterator": 0, "singleEdgeIterator": 1}
	sizeField := map[string]string{}
	var names []string
	for n, m := range c.w.pkg.Members {
		if t, ok := m.(*ssa.Type); ok && !types.IsInterface(t.Type()) {
			ms := types.NewMethodSet(types.NewPointer(t.Type()))
			if s := ms.Lookup(c.w.pkg.Pkg, "MaxSize"); s != nil && len(s.Index()) == 1 {
				names = append(names, n)
			}
		}
	}
	sort.Strings(names)
	for _, n := range names {
		n := n
		con := n + ".MaxSize"
		c.guard(rule, con, func() {
			fn := c.fn(con)
			e := newEng(c.w)
			e.hook = hooks(stdModel)
			st := e.newState()
			p := e.tt.Param("itr", fn.Params[0].Type())
			st.nn[p] = true
			recv := p
			ptr := fn.Params[0].Type()
			for _, o := range c.runArgs(e, fn, []*Term{p}, st) {
				if o.panic {
					// an iterator without the parts it draws from is not built
					c.ob(rule, con, drawsFrom[n] != "", o.pos, "may panic: %s", o.panicIs)
					continue
				}
				r := o.st.canon(o.ret[0])
				if v, ok := r.constInt(); ok {
					lo, known := atLeast[n]
					c.ob(rule, con, v == -1 || known && v >= lo, fn.Pos(), "the estimate %d does not bound what the iterator delivers", v)
					continue
				}
				if r.op == OpInit && r.args[0].op == OpField && r.args[0].args[0] == recv {
					f := r.args[0].name
					if g, ok := sizeField[n]; ok && g != f {
						c.fail(rule, con, fn.Pos(), "undecided: the estimate is kept in %s or %s", f, g)
					}
					sizeField[n] = f
					c.pass(rule, con)
					continue
				}
				if x := o.st.callOf(r); r.op == OpUnk && x != nil && x.invoke && x.name == "MaxSize" && drawsFrom[n] != "" {
					in := o.st.canon(o.st.get(recv, ptr, drawsFrom[n]))
					c.ob(rule, con, o.st.canon(x.args[0]) == in, fn.Pos(), "the estimate is that of %v, not of the iterator drawn from", x.args[0])
					continue
				}
				c.fail(rule, con, fn.Pos(), "undecided: estimate %v", r)
			}
		})
	}
	// sites
	allocs := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok {
					if _, has := sizeField[typeName(a.Type())]; has {
						return true
					}
				}
			}
		}
		return false
	}
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, f := range c.w.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil {
						callers[g] = append(callers[g], f)
					}
				}
			}
		}
	}
	var work []*ssa.Function
	for _, f := range c.w.all {
		if allocs(f) && f.Synthetic == "" {
			work = append(work, f)
		}
	}
	done := map[*ssa.Function]bool{}
	sites := 0
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if done[f] {
			continue
		}
		done[f] = true
		con := fnName(f)
		c.guard(rule, con, func() {
			e := newEng(c.w)
			e.hook = hooks(stdModel)
			st := e.newState()
			var args, free []*Term
			for i, p := range f.Params {
				a := e.tt.Param(fmt.Sprintf("%s%d", p.Name(), i), p.Type())
				if i == 0 && f.Signature.Recv() != nil {
					st.nn[a] = true
				}
				args = append(args, a)
			}
			for i, p := range f.FreeVars {
				a := e.tt.Param(fmt.Sprintf("captured%d", i), p.Type())
				st.nn[a] = true
				free = append(free, a)
			}
			outs := e.call(f, args, free, st, "r")
			c.account(e, outs)
			if e.over {
				panic(anchorErr("analysis budget exceeded"))
			}
			bad := map[string]bool{}
			good := 0
			see := func(s *State) {
				seen := map[*Term]bool{}
				for a := range s.mem {
					x := a.root()
					if x.op != OpNew || seen[x] || !isPtrLike(x.typ) {
						continue
					}
					seen[x] = true
					n := typeName(x.typ)
					fl, ok := sizeField[n]
					if !ok {
						continue
					}
					sz := s.canon(s.get(x, x.typ, fl))
					var d *Den
					if n == "iteratorWithSize" {
						d = c.den(e, s, s.get(x, x.typ, "itr"))
					} else {
						d = c.den(e, s, e.tt.Iface(x.typ, x))
					}
					if c.bounds(e, s, d, sz, false) {
						good++
					} else {
						bad[fmt.Sprintf("%s for %v", sz, d)] = true
					}
				}
			}
			for _, o := range outs {
				if o.st.dead {
					continue
				}
				e.walkSeqs(o.st.tr.list(), o.st, func(s seq) { see(s.st) })
			}
			sites++
			if len(bad) == 0 {
				c.ob(rule, con, good > 0, f.Pos(), "undecided: no iterator found")
				return
			}
			cs := callers[f]
			if len(cs) > 0 && !exportedFn(f) && f.Parent() == nil && len(f.Params) > 0 {
				// decided where the arguments are known
				c.pass(rule, con)
				work = append(work, cs...)
				return
			}
			for m := range bad {
				c.fail(rule, con, f.Pos(), "the size estimate is not -1 and not known to bound the elements: %s", m)
			}
		})
	}
	var pats []string
	for n, f := range sizeField {
		pats = append(pats, n+"."+f)
	}
	sort.Strings(pats)
	for _, f := range c.w.all {
		for _, wr := range c.w.writes(f) {
			if !wr.fresh && trackedBy(wr.field, pats) {
				c.fail(rule, fnName(f), wr.pos, "%s changes the size estimate %s of an iterator", fnName(f), wr.field)
			}
		}
	}
	c.ob(rule, "sites", sites >= 8, 0, "only %d sites found where sized iterators are built", sites)
}

// sameOwner: two values are fields of one object.
func sameOwner(a *Term, af string, b *Term, bf string) bool {
	base := func(t *Term, f string) *Term {
		if x, ok := fieldInit(t, f); ok {
			return x
		}
		if t.op == OpFieldOf && t.name == f {
			return t.args[0]
		}
		return nil
	}
	x, y := base(a, af), base(b, bf)
	return x != nil && x == y
}

// bounds: sz is -1 or at least the number of elements of d. With num it must
// be a number.
func (c *Ctx) bounds(e *Eng, st *State, d *Den, sz *Term, num bool) bool {
	sz = st.canon(sz)
	v, isC := sz.constInt()
	if isC && v == -1 {
		return !num
	}
	if x := st.callOf(sz); sz.op == OpUnk && x != nil && x.invoke && x.name == "MaxSize" {
		// the estimate of the very iterator
		if d.t != nil && st.canon(x.args[0]) == st.canon(d.t) {
			if !num {
				return true
			}
			b, k := st.evalBool(st.canon(e.tt.eq(sz, e.tt.Int(-1))))
			return k && !b || st.ivalOf(sz).hasLo && st.ivalOf(sz).lo >= 0
		}
		return false
	}
	null := func(t *Term) bool {
		if t.isNil() {
			return true
		}
		b, k := st.evalBool(st.canon(e.tt.eq(t, e.tt.Nil())))
		return k && b
	}
	// a count is never negative
	count := func() bool {
		if isC {
			return v >= 0
		}
		if app(sz, "len") || app(sz, "list.Len") {
			return true
		}
		return sz.op == OpInit && sz.args[0].op == OpField && sz.args[0].name == "n" || sz.op == OpFieldOf && sz.name == "n"
	}
	switch d.k {
	case "empty":
		return count()
	case "one":
		return isC && v >= 1
	case "nodes", "edges":
		if null(d.a[0]) && count() {
			return true
		}
		return sameOwner(d.a[0], "head", sz, "n")
	case "lists":
		// of a whole edge map
		nx := d.a[1]
		if null(d.a[0]) && null(nx) && count() {
			return true
		}
		var front *Term
		if app(nx, "list.ElNext") {
			front = nx.args[0]
		}
		anywhere(d.a[0], func(t *Term) bool {
			if app(t, "list.Front") {
				front = t
				return true
			}
			return false
		})
		return front != nil && app(front, "list.Front") && sameOwner(front.args[0], "edgeLabelLists", sz, "n")
	case "list":
		f := d.a[0]
		if null(f) && count() {
			return true
		}
		for app(f, "list.ElNext") {
			f = f.args[0]
		}
		if !app(f, "list.Front") {
			return false
		}
		l := f.args[0]
		if x := st.callOf(sz); sz.op == OpUnk && x != nil && x.name == "(*container/list.List).Len" && st.canon(x.args[0]) == l {
			return true
		}
		if app(sz, "list.Len") && sz.args[0] == l {
			return true
		}
		return app(sz, "len") && sameOwner(l, "l", sz.args[0], "m")
	case "filter", "map", "farends":
		if d.sub[0].t != nil && c.bounds(e, st, d.sub[0], sz, num) {
			return true
		}
		return false
	case "concat":
		// a sum of numbers, one for each part
		var parts []*Term
		var add func(t *Term)
		add = func(t *Term) {
			if app(t, "+") {
				for _, a := range t.args {
					add(a)
				}
				return
			}
			parts = append(parts, t)
		}
		add(sz)
		var rest int64
		var terms []*Term
		for _, p := range parts {
			if k, ok := p.constInt(); ok {
				rest += k
			} else {
				terms = append(terms, p)
			}
		}
		used := make([]bool, len(terms))
		var open []*Den
		for _, s := range d.sub {
			hit := false
			if s.k == "empty" || s.k == "one" {
				open = append(open, s)
				continue
			}
			for i, t := range terms {
				if !used[i] && c.bounds(e, st, s, t, true) {
					used[i], hit = true, true
					break
				}
			}
			if !hit {
				open = append(open, s)
			}
		}
		for i, u := range used {
			if !u {
				iv := st.ivalOf(terms[i])
				if !iv.hasLo || iv.lo < 0 {
					return false
				}
			}
		}
		for _, s := range open {
			switch s.k {
			case "empty":
			case "one":
				rest--
			default:
				return false
			}
		}
		return rest >= 0
	}
	return false
}

func init() {
	reg("C15", "Abstract interpretation of every MaxSize method and of every function that builds an iterator carrying a size: the size must be -1 or the element count of the very container the iterator starts at the head of, sums only of known sizes, and nothing changes it later.", 20, func(c *Ctx) {
		c.checkSizes("size")
	})
}

func allocsType(f *ssa.Function, typ string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && typeName(a.Type()) == typ {
				return true
			}
		}
	}
	return false
}
