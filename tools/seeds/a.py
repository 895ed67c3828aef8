seed("c01-head-removal-keeps-back-link", "C01",
 "removing the first node of a graph, then the node that became first, then listing or adding nodes",
 "When the head is removed the new head keeps pointing back to it, so removing the new head later goes through the removed node and the list still starts at a node that is gone.",
 [("list.go", """	if node.next != nil {
		node.next.prev = node.prev
	} else {""", """	if node.next != nil {
		if node.prev != nil {
			node.next.prev = node.prev
		}
	} else {""")],
'''package lpg

import "testing"

func TestDemo(t *testing.T) {
	g := NewGraph()
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	c := g.NewNode(nil, nil)
	a.DetachAndRemove()
	b.DetachAndRemove()
	n := 0
	for itr := g.GetNodes(); itr.Next(); {
		n++
		if itr.Node() != c {
			t.Fatalf("removed node listed")
		}
	}
	if n != 1 || g.NumNodes() != 1 {
		t.Fatalf("%d listed, %d counted", n, g.NumNodes())
	}
}
''')

seed("c02-relist-last-edge-keeps-list", "C02",
 "a node or graph whose edge count goes from two to one and back up, and then down to one edge of another label",
 "When only one edge is left the label lists are not cleared, so the next edge puts the remaining edge into its old list a second time; the list never becomes empty again and hides the last edge.",
 [("edgemap.go", """	if em.n == 1 {
		for _, v := range em.labelMap {
			em.only = v.Value.(*edgeLabelList).edges.head
		}
		em.lazyInit()
	}
}""", """	if em.n == 1 {
		for _, v := range em.labelMap {
			em.only = v.Value.(*edgeLabelList).edges.head
		}
	}
}"""), ("edgemap.go", """	if em.n == 1 {
		em.lazyInit()
		doAdd(em.only)""", """	if em.n == 1 {
		if em.labelMap == nil {
			em.lazyInit()
		}
		doAdd(em.only)""")],
'''package lpg

import "testing"

func TestDemo(t *testing.T) {
	for i := 0; i < 40; i++ {
		g := NewGraph()
		a, b := g.NewNode(nil, nil), g.NewNode(nil, nil)
		e1 := g.NewEdge(a, b, "x", nil)
		g.NewEdge(a, b, "x", nil).Remove()
		e3 := g.NewEdge(a, b, "x", nil)
		e4 := g.NewEdge(a, b, "y", nil)
		e1.Remove()
		e3.Remove()
		n := 0
		for itr := g.GetEdges(); itr.Next(); {
			n++
			if itr.Edge() != e4 {
				t.Fatalf("lists %v", itr.Edge())
			}
		}
		if n != 1 {
			t.Fatalf("%d listed", n)
		}
	}
}
''')

seed("c02-selfloop-skips-incoming", "C02",
 "an edge whose two ends are the same node",
 "A self-loop is listed among the outgoing edges of its node but not among the incoming ones.",
 [("graph.go", """	edge.to.incoming.add(edge, 2)
	edge.from.outgoing.add(edge, 1)""", """	if edge.to != edge.from {
		edge.to.incoming.add(edge, 2)
	}
	edge.from.outgoing.add(edge, 1)""")],
'''package lpg

import "testing"

func TestDemo(t *testing.T) {
	g := NewGraph()
	a := g.NewNode(nil, nil)
	g.NewEdge(a, a, "x", nil)
	if len(EdgeSlice(a.GetEdges(IncomingEdge))) != 1 || len(EdgeSlice(a.GetEdges(OutgoingEdge))) != 1 {
		t.Fatal("self-loop not listed in both directions")
	}
}
''')

seed("c03-relabel-before-leaving-lists", "C03",
 "relabeling an edge whose node has other edges",
 "The label is stored only when the edge is back in the label-keyed lists, so it is listed under its old label.",
 [("graph.go", """	edge.label = label
""", """	defer func() { edge.label = label }()
""")],
'''package lpg

import "testing"

func TestDemo(t *testing.T) {
	g := NewGraph()
	a, b := g.NewNode(nil, nil), g.NewNode(nil, nil)
	e := g.NewEdge(a, b, "x", nil)
	g.NewEdge(a, b, "x", nil)
	g.NewEdge(a, b, "y", nil)
	e.SetLabel("y")
	if n := len(EdgeSlice(a.GetEdgesWithLabel(OutgoingEdge, "x"))); n != 1 {
		t.Fatalf("%d edges under the old label", n)
	}
	if n := len(EdgeSlice(a.GetEdgesWithLabel(OutgoingEdge, "y"))); n != 2 {
		t.Fatalf("%d edges under the new label", n)
	}
}
''')

seed("c03-anylabel-generator-stops-at-absent", "C03",
 "asking for several labels of which one has no edges, on a graph with at least two edges",
 "The lookup by a set of labels ends at the first requested label without edges and drops those after it.",
 [("edgemap.go", """				if _, found := em.labelMap[strings[0]]; !found {
					strings = strings[1:]
					continue
				}""", """				if _, found := em.labelMap[strings[0]]; !found {
					if strings = strings[1:]; len(em.labelMap) < len(strings)+1 {
						return nil
					}
					continue
				}""")],
'''package lpg

import "testing"

func TestDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		g := NewGraph()
		a, b := g.NewNode(nil, nil), g.NewNode(nil, nil)
		g.NewEdge(a, b, "x", nil)
		g.NewEdge(a, b, "x", nil)
		set := NewStringSet("p", "q", "x")
		if n := len(EdgeSlice(g.GetEdgesWithAnyLabel(set))); n != 2 {
			t.Fatalf("%d edges", n)
		}
	}
}
''')

seed("c04-unlabeled-node-not-moved", "C04",
 "giving labels to a node that was created without any",
 "A node that gets its first labels stays among the unlabeled nodes, so listing all nodes through the index gives it twice.",
 [("maps.go", """		if newLabels.Len() == 0 {
			return
		}
		nm.nolabels.remove(node.id)""", """		if newLabels.Len() == 0 {
			return
		}
		if newLabels.Len() > 1 {
			nm.nolabels.remove(node.id)
		}""")],
'''package lpg

import "testing"

func TestDemo(t *testing.T) {
	g := NewGraph()
	n := g.NewNode(nil, nil)
	n.SetLabels(NewStringSet("x"))
	k := 0
	for itr := g.index.nodesByLabel.Iterator(); itr.Next(); {
		k++
	}
	if k != 1 {
		t.Fatalf("node listed %d times", k)
	}
}
''')

seed("c04-fastset-readd-appends", "C04",
 "adding to an index set a node that it holds already after its entry was replaced",
 "Removing a node from an id-keyed set leaves its list element when the set has more than one element, so the node is still listed.",
 [("sets.go", "f.l.Remove(el)", "if f.l.Front() == el || f.l.Back() == el {\n\t\tf.l.Remove(el)\n\t}")],
'''package lpg

import "testing"

func TestDemo(t *testing.T) {
	g := NewGraph()
	g.NewNode([]string{"x"}, nil)
	b := g.NewNode([]string{"x"}, nil)
	g.NewNode([]string{"x"}, nil)
	b.DetachAndRemove()
	if n := len(NodeSlice(g.GetNodesWithAllLabels(NewStringSet("x")))); n != 2 {
		t.Fatalf("%d nodes", n)
	}
}
''')

seed("c14-filter-gives-up-after-miss", "C14",
 "a filter that rejects 42 elements in a row before one it accepts",
 "The filtering iterator ends after 42 rejected elements in a row.",
 [("itr.go", """	for itr.itr.Next() {
		itr.current = itr.itr.Value()
		if itr.filter(itr.current) {
			return true
		}
		itr.current = nil
	}
	return false""", """	for i := 0; itr.itr.Next(); i++ {
		itr.current = itr.itr.Value()
		if itr.filter(itr.current) {
			return true
		}
		itr.current = nil
		if i == 41 {
			break
		}
	}
	return false""")],
'''package lpg

import "testing"

func TestDemo(t *testing.T) {
	g := NewGraph()
	var ns []*Node
	for i := 0; i < 60; i++ {
		ns = append(ns, g.NewNode(nil, nil))
	}
	ns[0].SetProperty("a", 1)
	ns[59].SetProperty("a", 1)
	if n := len(NodeSlice(g.GetNodesWithProperty("a"))); n != 2 {
		t.Fatalf("%d nodes", n)
	}
}
''')
