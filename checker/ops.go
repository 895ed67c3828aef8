package main

import (
	"go/token"
	"go/types"
	"strings"
)

// Op is an operation on one of the containers of a graph.
type COp struct {
	Ev
	what  string // nodes, edges, in, out, labels, nix, eix
	how   string // add, remove, replace
	owner *Term  // graph or node the container belongs to
	elem  *Term
	slot  *Term
	key   *Term // property index: key of the index
	val   *Term
	id    *Term
	its   []*Iter
	seg   *Seg
	seqNo int // position in the enclosing event list
	evs   []*Event
}

// fieldBase finds the object whose field (or part of it) t is: an address
// inside the field, or the value of the field or of a part of it.
func fieldBase(t *Term, field string) *Term {
	for d := 0; t != nil && d < 12; d++ {
		switch t.op {
		case OpField:
			if t.name == field {
				return t.args[0]
			}
			t = t.args[0]
		case OpInit:
			t = t.args[0]
		case OpElem:
			t = t.args[0]
		case OpStruct:
			if len(t.args) == 0 {
				return nil
			}
			var x *Term
			for _, a := range t.args {
				if a.op == OpInit || a.op == OpStruct {
					x = a
					break
				}
			}
			if x == nil {
				return nil
			}
			t = x
		case OpApp:
			if t.name == "mapget" {
				t = t.args[0]
				continue
			}
			return nil
		default:
			return nil
		}
	}
	return nil
}

// mutHook makes the containers of a graph primitive.
func (c *Ctx) mutHook() Hook {
	return hooks(stdModel, atoms("nodeList.add", "nodeList.remove",
		"edgeMap.add", "edgeMap.remove", "edgeMap.iterator", "edgeMap.iteratorLabel", "edgeMap.iteratorAnyLabel", "edgeMap.size",
		"NodeMap.Add", "NodeMap.Remove", "NodeMap.Replace", "NodeMap.Iterator", "NodeMap.IteratorAllLabels",
		"NodeSlice", "EdgeSlice", "Graph.GetNodes", "Graph.GetEdges",
		"setTree.add", "setTree.remove", "hashIndex.add", "hashIndex.remove",
		"NewStringSet", "StringSet.Slice", "StringSet.HasAllSet"), stringSetAtoms)
}

// stringSetAtoms: a clone of a label set is the same value.
func stringSetAtoms(e *Eng, st *State, ci *CallInfo) ([]CallRes, bool) {
	return nil, false
}

// ops lists the container operations of a trace.
func (c *Ctx) ops(e *Eng, o Outcome) []COp {
	var out []COp
	e.walkSeqs(o.st.tr.list(), o.st, func(s seq) {
		for i, ev := range s.evs {
			x := mkEv(ev, s.st, nil, i)
			op := COp{Ev: x, its: s.its, seg: s.seg, seqNo: i, evs: s.evs}
			if ev.kind != EvCall {
				continue
			}
			switch {
			case x.isCall("nodeList.add", "nodeList.remove"):
				op.what, op.owner, op.elem = "nodes", fieldBase(x.args[0], "allNodes"), x.args[1]
			case x.isCall("edgeMap.add", "edgeMap.remove"):
				for f, w := range map[string]string{"allEdges": "edges", "incoming": "in", "outgoing": "out"} {
					if b := fieldBase(x.args[0], f); b != nil {
						op.what, op.owner = w, b
					}
				}
				op.elem = x.args[1]
				if len(x.args) > 2 {
					op.slot = x.args[2]
				}
				if op.what == "" {
					op.what = "?edges"
				}
			case x.isCall("NodeMap.Add", "NodeMap.Remove", "NodeMap.Replace"):
				op.what, op.owner, op.elem = "labels", graphOfIndex(fieldBase(x.args[0], "nodesByLabel")), x.args[1]
			case x.invoke && (x.name == "add" || x.name == "remove") || x.isCall("setTree.add", "setTree.remove", "hashIndex.add", "hashIndex.remove"):
				r := strip(x.args[0])
				if app(r, "mapget") {
					op.key = r.args[1]
					if b := fieldBase(r, "nodeProperties"); b != nil {
						op.what, op.owner = "nix", graphOfIndex(b)
					} else if b := fieldBase(r, "edgeProperties"); b != nil {
						op.what, op.owner = "eix", graphOfIndex(b)
					}
				}
				if op.what == "" {
					op.what = "?ix"
				}
				op.val, op.id = x.args[1], x.args[2]
				if len(x.args) > 3 {
					op.elem = strip(x.args[3])
				}
			}
			if op.what == "" {
				continue
			}
			n := x.name[strings.LastIndex(x.name, ".")+1:]
			op.how = strings.ToLower(n)
			out = append(out, op)
		}
	})
	return out
}

func sel(ops []COp, what, how string) []COp {
	var r []COp
	for _, o := range ops {
		if o.what == what && (how == "" || o.how == how) {
			r = append(r, o)
		}
	}
	return r
}

// mentry is an exported way to change a graph.
type mentry struct {
	name  string
	kind  string // newnode newedge delnode detach deledge setlabel setlabels setprop delprop index copynode copyedge
	outs  []Outcome
	e     *Eng
	args  []*Term
	entry string
}

var mutEntries = []struct{ name, kind string }{
	{"Graph.NewNode", "newnode"}, {"Graph.FastNewNode", "newnode"}, {"CopyNode", "newnode"},
	{"Graph.NewEdge", "newedge"}, {"Graph.FastNewEdge", "newedge"}, {"CopyEdge", "newedge"}, {"CloneEdge", "newedge"},
	{"Node.DetachAndRemove", "delnode"}, {"Node.Detach", "detach"},
	{"Edge.Remove", "deledge"}, {"Edge.SetLabel", "setlabel"}, {"Node.SetLabels", "setlabels"},
	{"Node.SetProperty", "nprop"}, {"Node.RemoveProperty", "nprop"},
	{"Edge.SetProperty", "eprop"}, {"Edge.RemoveProperty", "eprop"},
	{"Graph.AddNodePropertyIndex", "nindex"}, {"Graph.AddEdgePropertyIndex", "eindex"},
}

func (c *Ctx) entries(kinds ...string) []mentry {
	var r []mentry
	for _, m := range mutEntries {
		ok := len(kinds) == 0
		for _, k := range kinds {
			if k == m.kind {
				ok = true
			}
		}
		if ok {
			r = append(r, c.entry(m.name, m.kind))
		}
	}
	for _, m := range unitEntries {
		ok := len(kinds) == 0
		for _, k := range kinds {
			if k == m.kind {
				ok = true
			}
		}
		if ok && c.w.fn(m.name) != nil {
			r = append(r, c.entry(m.name, m.kind))
		}
	}
	return r
}

func (c *Ctx) entry(name, kind string) mentry {
	if c.ents == nil {
		c.ents = map[string]mentry{}
	}
	if m, ok := c.ents[name]; ok {
		return m
	}
	m := mentry{name: name, kind: kind}
	fn := c.fn(name)
	e, outs := c.run(fn, c.mutHook(), func(e *Eng, st *State, args []*Term) {
		m.args = args
		for i, p := range fn.Params {
			// receivers and elements given by the caller exist
			if isNodeOrEdge(p.Type()) || i == 0 && fn.Signature.Recv() != nil {
				st.nn[args[i]] = true
			}
		}
		c.wellFormed(e, st, args, fn.Signature)
	})
	m.e, m.outs = e, outs
	c.ents[name] = m
	return m
}

func isNodeOrEdge(t types.Type) bool {
	s := typeKey(t)
	return s == "*lpg.Node" || s == "*lpg.Edge" || s == "*lpg.Graph"
}

// wellFormed: elements belong to a graph, edges have ends in one graph.
func (c *Ctx) wellFormed(e *Eng, st *State, args []*Term, sig *types.Signature) {
	node := types.NewPointer(c.typ("Node"))
	edge := types.NewPointer(c.typ("Edge"))
	for _, a := range args {
		switch typeKey(a.typ) {
		case "*lpg.Node":
			st.nn[st.get(a, node, "graph")] = true
		case "*lpg.Edge":
			f, t := st.get(a, edge, "from"), st.get(a, edge, "to")
			st.nn[f], st.nn[t] = true, true
			g := st.get(f, node, "graph")
			st.nn[g] = true
			st.addEq(st.get(t, node, "graph"), g)
		}
	}
}

func (m *mentry) pos() token.Pos { return m.e.w.fn(m.name).Pos() }

// arg finds the argument of a type.
func (m *mentry) arg(typ string) *Term {
	for _, a := range m.args {
		if typeKey(a.typ) == typ {
			return a
		}
	}
	return nil
}

// graphOfIndex: the graph an index structure is part of.
func graphOfIndex(b *Term) *Term {
	if g := fieldBase(b, "index"); g != nil {
		return g
	}
	return b
}
