package main

import (
	"go/ast"
	"go/constant"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// closedText: text inside a quoted string in which every backslash escapes
// the next character and no quote stands alone.
func closedText(s string) bool {
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\\':
			i++
			if i >= len(s) {
				return false
			}
		case '"':
			return false
		}
	}
	return true
}

// replacerPairs: the constant pairs of a replacer.
func (c *Ctx) replacerPairs(st *State, t *Term) ([]string, bool) {
	t = st.canon(t)
	name := ""
	if t.op == OpInit && t.args[0].op == OpGlobal {
		name = t.args[0].name
	} else if t.op == OpGlobal {
		name = t.name
	} else if t.op == OpUnk {
		cl := st.callOf(t)
		if cl == nil || cl.name != "strings.NewReplacer" {
			return nil, false
		}
		return constStrings(st, variadic(st.e, st, cl.args))
	} else if app(t, "strings.NewReplacer") {
		return constStrings(st, t.args)
	}
	if name == "" {
		return nil, false
	}
	for _, f := range c.w.files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, sp := range gd.Specs {
				vs, ok := sp.(*ast.ValueSpec)
				if !ok {
					continue
				}
				for i, n := range vs.Names {
					if n.Name != name || i >= len(vs.Values) || !c.w.neverAssigned(name) {
						continue
					}
					ce, ok := vs.Values[i].(*ast.CallExpr)
					if !ok {
						continue
					}
					se, ok := ce.Fun.(*ast.SelectorExpr)
					if !ok {
						continue
					}
					o := c.w.info.Uses[se.Sel]
					if o == nil || o.Pkg() == nil || o.Pkg().Path() != "strings" || o.Name() != "NewReplacer" {
						continue
					}
					var r []string
					for _, a := range ce.Args {
						tv, ok := c.w.info.Types[a]
						if !ok || tv.Value == nil || tv.Value.Kind() != constant.String {
							return nil, false
						}
						r = append(r, constant.StringVal(tv.Value))
					}
					return r, true
				}
			}
		}
	}
	return nil, false
}

func constStrings(st *State, ts []*Term) ([]string, bool) {
	var r []string
	for _, t := range ts {
		s, ok := st.canon(t).constStr()
		if !ok {
			return nil, false
		}
		r = append(r, s)
	}
	return r, true
}

// escaped: the text t made safe for use between quotes ("esc"), or made a
// quoted string ("quoted").
func (c *Ctx) escaped(st *State, t *Term) (inner *Term, kind string, why string) {
	t = st.canon(t)
	var name string
	var args []*Term
	if t.op == OpApp {
		name, args = t.name, t.args
	} else if cl := st.callOf(t); cl != nil {
		name, args = cl.name, cl.args
	}
	switch name {
	case "strconv.Quote":
		return st.canon(args[0]), "quoted", ""
	case "(*strings.Replacer).Replace":
		ps, ok := c.replacerPairs(st, args[0])
		if !ok || len(ps)%2 != 0 {
			return nil, "", "the replacer's pairs are not known"
		}
		bs, q := false, false
		for i := 0; i+1 < len(ps); i += 2 {
			if !closedText(ps[i+1]) {
				return nil, "", "a replacement leaves the string open"
			}
			bs = bs || ps[i] == `\`
			q = q || ps[i] == `"`
		}
		if !bs || !q {
			return nil, "", "quotes or backslashes are not escaped"
		}
		return st.canon(args[1]), "esc", ""
	case "strings.ReplaceAll":
		// the last replacement is outermost
		var olds, news []string
		x := t
		for {
			var n string
			var a []*Term
			if x.op == OpApp {
				n, a = x.name, x.args
			} else if cl := st.callOf(x); cl != nil {
				n, a = cl.name, cl.args
			}
			if n != "strings.ReplaceAll" {
				break
			}
			s, ok := constStrings(st, a[1:3])
			if !ok {
				return nil, "", "the replaced text is not constant"
			}
			olds = append([]string{s[0]}, olds...)
			news = append([]string{s[1]}, news...)
			x = st.canon(a[0])
		}
		bs, q := false, false
		for i := range olds {
			switch {
			case olds[i] == `\` && !q && !bs:
				bs = closedText(news[i])
			case olds[i] == `"` && !q:
				if !bs && strings.Contains(news[i], `\`) {
					return nil, "", "backslashes are escaped after quotes"
				}
				q = closedText(news[i])
			case strings.ContainsAny(olds[i], `\"`):
				return nil, "", "the replacements interfere"
			default:
				if bs && !closedText(news[i]) {
					return nil, "", "a replacement leaves the string open"
				}
			}
		}
		if !bs || !q {
			return nil, "", "quotes or backslashes are not escaped"
		}
		return x, "esc", ""
	}
	return nil, "", "the text is not escaped"
}

// wrote is the text a trace writes, with the given values replaced by marks.
func (c *Ctx) wrote(e *Eng, st *State, out *Term, mark func(st *State, t *Term) (string, bool)) (string, string) {
	is := c.streams(e, out)(st)
	var b strings.Builder
	for _, x := range top(st) {
		if x.kind == EvLoop {
			continue
		}
		ps, writes, _ := c.output(e, &x, is)
		if writes && len(ps) == 0 {
			return "", "something unknown is written"
		}
		for _, p := range ps {
			if p.val == nil {
				b.WriteString(p.text)
				continue
			}
			if p.kind == "quoted" {
				if m, ok := mark(st, p.val); ok {
					b.WriteString(`"E` + m + `"`)
					continue
				}
			}
			m, ok := mark(st, p.val)
			if ok && p.kind == "bytes" {
				b.WriteString(m)
				continue
			}
			inner, kind, why := c.escaped(st, p.val)
			if kind == "" {
				return "", why
			}
			m, ok = mark(st, inner)
			if !ok {
				return "", "an unknown text is written"
			}
			if kind == "quoted" {
				b.WriteString(`"` + "E" + m + `"`)
			} else {
				b.WriteString("E" + m)
			}
		}
	}
	return b.String(), ""
}

// idText: t is a text that is a different identifier for each value of an
// integer; gives that integer.
func (c *Ctx) idText(e *Eng, st *State, t *Term) (*Term, bool) {
	ps, ok := c.jsonPieces(e, st, t)
	if !ok {
		return nil, false
	}
	var n *Term
	txt := ""
	for _, p := range ps {
		if p.val != nil {
			if p.kind != "num" || n != nil {
				return nil, false
			}
			n = p.val
			txt += "0"
			continue
		}
		txt += p.text
	}
	if n == nil || !regexp.MustCompile(`^[A-Za-z_][A-Za-z_0-9]*$`).MatchString(txt) {
		return nil, false
	}
	return n, true
}

func (c *Ctx) checkDotText(rule string) {
	const F, T, L = "\x01", "\x02", "\x03"
	fn := c.fn("DefaultDOTEdgeRender")
	con := fnName(fn)
	c.guard(rule, con, func() {
		e, args, outs := c.runA(fn, noErr)
		nl, nu := 0, 0
		for _, o := range outs {
			if o.panic {
				c.fail(rule, con, o.pos, "rendering panics")
				continue
			}
			a := args
			lbl := o.st.get(a[2], c.typ("Edge"), "label")
			txt, why := c.wrote(e, o.st, a[3], func(st *State, t *Term) (string, bool) {
				switch st.canon(t) {
				case a[0]:
					return F, true
				case a[1]:
					return T, true
				}
				if st.canon(t) == st.canon(lbl) {
					return L, true
				}
				return "", false
			})
			if why != "" {
				c.fail(rule, con, fn.Pos(), "%s: %s", why, outDesc(o))
				continue
			}
			plain := regexp.MustCompile(`^\s*` + F + `\s*->\s*` + T + `\s*(;\s*|\n\s*)$`).MatchString(txt)
			quoted := regexp.MustCompile(`^\s*` + F + `\s*->\s*` + T + `\s*\[\s*label\s*=\s*"E` + L + `"\s*\]\s*(;\s*|\n\s*)$`).MatchString(txt)
			c.ob(rule, con+" statement", plain || quoted, fn.Pos(), "the text %q is not an edge from the first to the second identifier with a quoted label", txt)
			empty, known := o.st.evalBool(e.tt.eq(o.st.canon(e.tt.App("len", types.Typ[types.Int], lbl)), e.tt.Int(0)))
			if !known {
				empty, known = o.st.evalBool(e.tt.eq(lbl, e.tt.Str("")))
			}
			if plain && !quoted {
				nu++
				c.ob(rule, con+" label", known && empty, fn.Pos(), "an edge with a label is written without it")
			} else if quoted {
				nl++
			}
		}
		c.ob(rule, con+" labelled", nl > 0, fn.Pos(), "no execution writes a label")
	})
	fn2 := c.fn("DefaultDOTNodeRender")
	con2 := fnName(fn2)
	c.guard(rule, con2, func() {
		e, args, outs := c.runA(fn2, noErr)
		for _, o := range outs {
			if o.panic {
				c.fail(rule, con2, o.pos, "rendering panics")
				continue
			}
			txt, why := c.wrote(e, o.st, args[2], func(st *State, t *Term) (string, bool) {
				return F, st.canon(t) == args[0]
			})
			c.ob(rule, con2, why == "" && regexp.MustCompile(`^\s*`+F+`\s*(\[[^\]]*\])?\s*(;\s*|\n\s*)$`).MatchString(txt), fn2.Pos(), "the text %q %s is not a node statement for the identifier", txt, why)
		}
	})
}

// checkDotDispatch: RenderNode and RenderEdge call the renderer that is set,
// or the default one, with the arguments they were given.
func (c *Ctx) checkDotDispatch(rule string) {
	for _, s := range [][3]string{{"RenderNode", "NodeRenderer", "DefaultDOTNodeRender"}, {"RenderEdge", "EdgeRenderer", "DefaultDOTEdgeRender"}} {
		fn := c.fn("DOTRenderer." + s[0])
		con := fnName(fn)
		c.guard(rule, con, func() {
			e, args, outs := c.runA(fn, okAtoms(s[2]))
			seen := map[bool]bool{}
			for _, o := range outs {
				if o.panic {
					c.fail(rule, con, o.pos, "rendering panics")
					continue
				}
				var r *Term
				r = c.structField(e, o.st, args[0], s[1])
				isNil, known := o.st.evalBool(e.tt.eq(r, e.tt.Nil()))
				if !c.ob(rule, con+" choice", known, fn.Pos(), "which renderer is used does not depend on the one that is set") {
					continue
				}
				seen[isNil] = true
				var calls []Ev
				for _, x := range flat(o.st) {
					if x.kind == EvCall && (x.name == s[2] || x.name == "dynamic") {
						calls = append(calls, x)
					}
				}
				if !c.ob(rule, con+" calls", len(calls) == 1, fn.Pos(), "%d renderers are called", len(calls)) {
					continue
				}
				x := calls[0]
				as := x.args
				want := args[1:]
				if isNil {
					c.ob(rule, con+" default", x.name == s[2], x.pos, "the default renderer is not used though no other is set")
					b, ok := o.st.evalBool(o.st.canon(o.ret[0]))
					c.ob(rule, con+" default result", ok && b, x.pos, "the default renderer's output is reported as excluded")
				} else {
					ok := x.name == "dynamic" && as[0] == o.st.canon(r)
					c.ob(rule, con+" custom", ok, x.pos, "the renderer that is set is not used")
					if ok {
						as = as[1:]
						ev := x.Event
						var t0 *Term
						if ev.res != nil && ev.res.op == OpTuple {
							t0 = o.st.canon(ev.res.args[0])
						}
						c.ob(rule, con+" custom result", t0 != nil && o.st.canon(o.ret[0]) == t0, x.pos, "the renderer's decision is not passed on")
					}
				}
				same := len(as) == len(want)
				for i := range want {
					same = same && i < len(as) && as[i] == o.st.canon(want[i])
				}
				c.ob(rule, con+" arguments", same, x.pos, "the renderer does not get the arguments in their order")
			}
			c.ob(rule, con+" cases", seen[true] && seen[false], fn.Pos(), "a renderer that is not set is called, or one that is set never is")
		})
	}
}

func (c *Ctx) checkDotGraph(rule string) {
	fn := c.fn("DOTRenderer.Render")
	con := fnName(fn)
	c.guard(rule, con, func() {
		e, args, outs := c.runA(fn, okAtoms("DOTRenderer.RenderNodesEdges"))
		for _, o := range outs {
			if o.panic {
				c.fail(rule, con, o.pos, "rendering panics")
				continue
			}
			d, g, name, out := args[0], args[1], args[2], args[3]
			is := c.streams(e, out)(o.st)
			var b strings.Builder
			bad := ""
			for _, x := range top(o.st) {
				if x.kind == EvCall && x.isCall("DOTRenderer.RenderNodesEdges") {
					if x.args[0] == d && x.args[1] == g && is(x.args[2]) {
						b.WriteString("\x02")
					} else {
						bad = "the contents of another graph are written"
					}
					continue
				}
				ps, writes, _ := c.output(e, &x, is)
				if writes && len(ps) == 0 {
					bad = "something unknown is written"
				}
				for _, p := range ps {
					if p.val == nil {
						b.WriteString(p.text)
					} else if o.st.canon(p.val) == name {
						b.WriteString("\x01")
					} else {
						bad = "an unknown text is written"
					}
				}
			}
			c.ob(rule, con, bad == "" && regexp.MustCompile(`^\s*digraph\s+"?\x01"?\s*\{\s*([A-Za-z]+\s*=\s*("[^"\\]*"|[A-Za-z0-9]+)\s*;?\s*)*\x02\s*\}\s*$`).MatchString(b.String()), fn.Pos(), "the text %q is not one digraph around the graph's contents %s", b.String(), bad)
		}
	})
	fn2 := c.fn("DOTRenderer.RenderNodesEdges")
	con2 := fnName(fn2)
	c.guard(rule, con2, func() {
		e, args, outs := c.runA(fn2, okAtoms("Graph.GetNodes", "Graph.GetEdges", "NodeSlice", "EdgeSlice", "DOTRenderer.RenderNode", "DOTRenderer.RenderEdge"))
		edgeT := c.typ("Edge")
		for _, o := range outs {
			if o.panic {
				c.fail(rule, con2, o.pos, "rendering panics")
				continue
			}
			d, g, out := args[0], args[1], args[2]
			is := c.streams(e, out)(o.st)
			var M *Term
			evs := o.st.tr.list()
			nn, ne := 0, 0
			for i, ev := range evs {
				if ev.kind == EvCall && (ev.name == "DOTRenderer.RenderNode" || ev.name == "DOTRenderer.RenderEdge") {
					c.fail(rule, con2+" offered", ev.pos, "an element is rendered outside the loops over the graph's elements")
				}
				if ev.kind != EvLoop {
					continue
				}
				L := ev.loop
				it := e.iterOf(evs, i, o.st)
				kind := ""
				for _, sg := range L.segs {
					for _, x := range line(sg.events, sg.st) {
						if x.isCall("DOTRenderer.RenderNode") {
							kind += "n"
						}
						if x.isCall("DOTRenderer.RenderEdge") {
							kind += "e"
						}
					}
				}
				from := ""
				coll := it.coll
				if it.kind == "slice" {
					if cl := o.st.callOf(it.coll); cl != nil && (cl.name == "NodeSlice" || cl.name == "EdgeSlice") {
						coll = o.st.canon(cl.args[0])
					}
				}
				if coll != nil {
					if cl := o.st.callOf(coll); cl != nil && len(cl.args) == 1 && o.st.canon(cl.args[0]) == g {
						from = cl.name
					}
				}
				if kind == "" && from != "Graph.GetEdges" {
					continue
				}
				if strings.Contains(kind, "n") && !strings.Contains(kind, "e") {
					c.ob(rule, con2+" order", ne == 0, ev.pos, "nodes are rendered after edges")
					nn++
					c.ob(rule, con2+" all nodes", from == "Graph.GetNodes" && it.all(), ev.pos, "not all nodes of the graph are offered: %s", it.why)
					M = c.dotNodes(rule, con2, e, o.st, L, it, d, is)
					continue
				}
				if strings.Contains(kind, "n") {
					c.fail(rule, con2+" order", ev.pos, "nodes and edges are rendered together")
					continue
				}
				ne++
				c.ob(rule, con2+" all edges", from == "Graph.GetEdges" && it.all(), ev.pos, "not all edges of the graph are offered: %s", it.why)
				if M == nil {
					c.fail(rule, con2+" order", ev.pos, "edges are rendered before the nodes' identifiers are known")
					continue
				}
				for _, sg := range L.segs {
					s := sg.st
					var edge *Term
					var ends [2]*Term
					for _, x := range line(sg.events, s) {
						if x.kind == EvCall && x.invoke && x.name == "Edge" && x.args[0] == it.coll {
							edge = s.canon(x.res)
						}
					}
					if edge == nil && it.kind == "slice" {
						edge = s.load(e.tt.Elem(it.coll, it.keyOf(sg), types.NewPointer(edgeT)), types.NewPointer(edgeT))
					}
					if edge == nil {
						c.fail(rule, con2+" edge", ev.pos, "an edge is skipped")
						continue
					}
					if y, _, ok := asOf(edge); ok {
						edge = y
					}
					ends[0], ends[1] = s.get(edge, edgeT, "from"), s.get(edge, edgeT, "to")
					yes := [2]string{"?", "?"}
					for k := range ends {
						v, has := s.mapLookup(M, ends[k], types.Typ[types.String])
						// identifiers are not empty
						for _, q := range []*Term{e.tt.eq(v, e.tt.Str("")), e.tt.eq(s.canon(e.tt.App("len", types.Typ[types.Int], v)), e.tt.Int(0))} {
							if b, ok := s.evalBool(s.canon(q)); ok && !b {
								yes[k] = "y"
							} else if ok {
								yes[k] = "n"
							}
						}
						if b, ok := s.evalBool(has); ok && b {
							yes[k] = "y"
						} else if ok {
							yes[k] = "n"
						}
					}
					var calls []Ev
					for _, x := range line(sg.events, s) {
						if x.isCall("DOTRenderer.RenderEdge") {
							calls = append(calls, x)
						}
					}
					if len(calls) == 0 {
						c.ob(rule, con2+" edge", yes[0] == "n" || yes[1] == "n", ev.pos, "an edge is left out though both of its ends may have been rendered")
						continue
					}
					x := calls[0]
					c.ob(rule, con2+" edge", len(calls) == 1, x.pos, "an edge is rendered more than once")
					c.ob(rule, con2+" ends", yes[0] == "y" && yes[1] == "y", x.pos, "an edge is rendered though an end of it may not have been")
					id := func(t, k *Term) bool {
						t = s.canon(t)
						return app(t, "mapget") && t.args[0] == M && t.args[1] == s.canon(k)
					}
					c.ob(rule, con2+" identifiers", x.args[0] == d && id(x.args[1], ends[0]) && id(x.args[2], ends[1]) && strip(x.args[3]) == strip(edge) && is(x.args[4]), x.pos, "an edge is not rendered with the identifiers of its source and target node")
				}
			}
			c.ob(rule, con2+" nodes", nn == 1, fn2.Pos(), "%d loops render nodes", nn)
			c.ob(rule, con2+" edges", ne == 1, fn2.Pos(), "%d loops render edges", ne)
		}
	})
}

// dotNodes checks the loop that renders nodes; gives the map of identifiers.
func (c *Ctx) dotNodes(rule, con string, e *Eng, st *State, L *Loop, it *Iter, d *Term, is func(*Term) bool) *Term {
	var M *Term
	type use struct {
		sg       *Seg
		n        *Term
		rendered bool
	}
	var uses []use
	for _, sg := range L.segs {
		s := sg.st
		var calls []Ev
		for _, x := range line(sg.events, s) {
			if x.isCall("DOTRenderer.RenderNode") {
				calls = append(calls, x)
			}
		}
		if !c.ob(rule, con+" node", len(calls) == 1, L.pos, "a node is offered %d times", len(calls)) {
			continue
		}
		x := calls[0]
		c.ob(rule, con+" node arguments", x.args[0] == d && it.isElem(s, x.args[2]) && is(x.args[3]), x.pos, "a node is not offered to this renderer and output")
		n, ok := c.idText(e, s, x.args[1])
		if !c.ob(rule, con+" unique", ok, x.pos, "the identifier %v is not made from a counter", x.args[1]) {
			continue
		}
		rendered, known := s.evalBool(s.canon(x.Event.res.args[0]))
		if !c.ob(rule, con+" decision", known, x.pos, "whether a node was rendered is ignored") {
			continue
		}
		uses = append(uses, use{sg, n, rendered})
		nup := 0
		for _, y := range line(sg.events, s) {
			if y.kind == EvMapDel && M != nil && y.args[0] == M {
				c.fail(rule, con+" identifiers", y.pos, "an identifier is forgotten")
			}
			if y.kind != EvMapUpd || !it.isElem(s, y.args[1]) {
				continue
			}
			nup++
			M = y.args[0]
			c.ob(rule, con+" identifiers", rendered && y.args[2] == x.args[1] && M.op == OpNew, y.pos, "a node is recorded with an identifier it was not rendered with")
		}
		c.ob(rule, con+" recorded", !rendered || nup > 0, x.pos, "a rendered node's identifier is not recorded")
	}
	// the counter moves on whenever an identifier was used
	good := false
	if len(uses) > 0 {
		for ph := range L.init {
			ok := true
			for _, u := range uses {
				if u.sg.hdr[ph] == nil || u.sg.next[ph] == nil {
					ok = false
					break
				}
				nb, no := u.sg.st.affine(u.n)
				hb, ho := u.sg.st.affine(u.sg.hdr[ph])
				xb, xo := u.sg.st.affine(u.sg.next[ph])
				d := xo - ho
				if nb != hb || xb != hb || no-ho != 0 && no-ho != 1 || d < 0 || u.rendered && d < 1 {
					ok = false
					break
				}
				_ = nb
			}
			if ok && sameOffset(L, ph, func(sg *Seg) (int64, bool) {
				for _, u := range uses {
					if u.sg == sg {
						_, no := sg.st.affine(u.n)
						_, ho := sg.st.affine(sg.hdr[ph])
						return no - ho, true
					}
				}
				return 0, false
			}) {
				good = true
			}
		}
		if M != nil && !good {
			// or is the number of identifiers recorded so far
			n := 0
			good = true
			for _, u := range uses {
				if x := strip(u.n); app(x, "len") && x.args[0] == M {
					n++
				} else if k, ok := u.n.constInt(); !ok || k != 0 {
					good = false
				}
			}
			good = good && n > 0
		}
	}
	c.ob(rule, con+" unique", good, L.pos, "the counter identifiers are made from may repeat for rendered nodes")
	return M
}

func sameOffset(L *Loop, ph *ssa.Phi, f func(sg *Seg) (int64, bool)) bool {
	first := true
	var v int64
	for _, sg := range L.segs {
		n, ok := f(sg)
		if !ok {
			return false
		}
		if !first && n != v {
			return false
		}
		first, v = false, n
	}
	return true
}

// structField reads a field of a struct value.
func (c *Ctx) structField(e *Eng, st *State, v *Term, f string) *Term {
	t := c.typ("DOTRenderer")
	stt := structOf(t)
	for i := 0; i < stt.NumFields(); i++ {
		if stt.Field(i).Name() == f {
			return st.canon(e.fieldOf(v, i, f, stt.Field(i).Type()))
		}
	}
	panic(anchorErr("no field " + f))
}

func init() {
	reg("C20", "agreement of the identifiers under which nodes and edges are rendered, for every iteration; grammar of the text written by the default renderers; escaping of labels", 25, func(c *Ctx) {
		c.checkDotText("dot-text")
		c.checkDotDispatch("dot-dispatch")
		c.checkDotGraph("dot-graph")
	})
}
