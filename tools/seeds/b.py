seed("c05-hash-index-removes-wrapped-value", "C05",
 "a hash index on a property whose value implements WithNativeValue, which is then overwritten",
 "The hash index looks the old value up under the wrapper instead of the native value, so the old entry stays: the element is still found under its previous value.",
 [("hashindex.go", """	if ix.values == nil {
		return
	}
	if native, ok := value.(WithNativeValue); ok {
		value = native.GetNativeValue()
	}
	fs, ok := ix.values[value]
	if !ok {
		return
	}
""", """	fs, ok := ix.values[value]
	if !ok {
		return
	}
""")],
'''package lpg

import "testing"

type demoWrap struct{ v int }

func (d *demoWrap) GetNativeValue() interface{} { return d.v }

func TestDemo(t *testing.T) {
	g := NewGraph()
	g.AddNodePropertyIndex("k", HashIndex)
	n := g.NewNode(nil, map[string]interface{}{"k": &demoWrap{1}})
	n.SetProperty("k", &demoWrap{2})
	cnt := 0
	for itr := g.GetNodesWithProperty("k"); itr.Next(); {
		cnt++
	}
	if cnt != 1 {
		t.Fatalf("node listed %d times", cnt)
	}
	if s := NodeSlice(g.index.GetIteratorForNodeProperty("k", 1)); len(s) != 0 {
		t.Fatalf("found under the old value: %v", s)
	}
}
''')

seed("c05-overwrite-with-equal-value", "C05",
 "a hash index on an edge property, and the property being set again to the value it already has",
 "The old index entry is kept when the new value is the same, but the element is still added again, so the hash index lists it twice.",
 [("graph.go", """	nix := g.index.isEdgePropertyIndexed(key)
	if edge.properties == nil {
		edge.properties = make(properties)
	} else {
		oldValue, exists := edge.properties[key]
		if exists {""", """	nix := g.index.isEdgePropertyIndexed(key)
	if edge.properties == nil {
		edge.properties = make(properties)
	} else {
		oldValue, exists := edge.properties[key]
		if exists && oldValue != value {""")],
'''package lpg

import "testing"

func TestDemo(t *testing.T) {
	g := NewGraph()
	g.AddEdgePropertyIndex("k", HashIndex)
	e := g.NewEdge(g.NewNode(nil, nil), g.NewNode(nil, nil), "x", map[string]interface{}{"k": 1})
	e.SetProperty("k", 1)
	if s := EdgeSlice(g.GetEdgesWithProperty("k")); len(s) != 1 {
		t.Fatalf("edge listed %d times", len(s))
	}
}
''')

seed("c06-detach-leaves-incoming-edges-indexed", "C06",
 "an edge property index, and detaching or removing a node that has incoming edges with that property",
 "Detaching removes the outgoing edges from the property index but not the incoming ones, which are still found by property.",
 [("graph.go", """	for _, edge := range EdgeSlice(node.incoming.iterator(2)) {
		g.disconnect(edge)
		g.allEdges.remove(edge, 0)
		g.index.removeEdgeFromIndex(edge, g)
	}
""", """	for _, edge := range EdgeSlice(node.incoming.iterator(2)) {
		g.disconnect(edge)
		g.allEdges.remove(edge, 0)
		if edge.from == node {
			g.index.removeEdgeFromIndex(edge, g)
		}
	}
""")],
'''package lpg

import "testing"

func TestDemo(t *testing.T) {
	g := NewGraph()
	g.AddEdgePropertyIndex("k", BtreeIndex)
	a, b := g.NewNode(nil, nil), g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", map[string]interface{}{"k": 1})
	b.DetachAndRemove()
	if s := EdgeSlice(g.GetEdgesWithProperty("k")); len(s) != 0 {
		t.Fatalf("removed edge is still found: %v", s)
	}
}
''')

seed("c08-edge-filter-decides-on-first-property", "C08",
 "an edge filter with two properties, of which the one visited first matches and the other does not",
 "The edge filter accepts as soon as one of the requested properties compares equal.",
 [("graph.go", """			if ComparePropertyValue(v, edgeValue) != 0 {
				return false
			}
		}
		return true
	}
}
""", """			return ComparePropertyValue(v, edgeValue) == 0
		}
		return true
	}
}
""")],
'''package lpg

import "testing"

func TestDemo(t *testing.T) {
	g := NewGraph()
	e := g.NewEdge(g.NewNode(nil, nil), g.NewNode(nil, nil), "x", map[string]interface{}{"a": 1, "b": 2})
	f := GetEdgeFilterFunc(StringSet{}, map[string]interface{}{"a": 1, "b": 3})
	for i := 0; i < 100; i++ {
		if f(e) {
			t.Fatal("accepts an edge whose property b differs")
		}
	}
}
''')

seed("c07-equal-sizes-use-unfiltered-index", "C07",
 "a search by a label and two properties, both indexed, where the property index is the smaller access path",
 "When the search goes through a property index the other properties are no longer compared.",
 [("graph.go", """				itr: propertyIterators[minimumPropertyItrKey],
				filter: func(item interface{}) bool {
					return nodeFilterFunc(item.(*Node))
				},""", """				itr: propertyIterators[minimumPropertyItrKey],
				filter: func(item interface{}) bool {
					return item.(*Node).labels.HasAllSet(allLabels)
				},""")],
'''package lpg

import "testing"

func TestDemo(t *testing.T) {
	g := NewGraph()
	g.AddNodePropertyIndex("a", BtreeIndex)
	n := g.NewNode([]string{"L"}, map[string]interface{}{"a": 1, "b": 2})
	g.NewNode([]string{"L"}, map[string]interface{}{"a": 2, "b": 3})
	g.NewNode([]string{"L"}, map[string]interface{}{"a": 2, "b": 2})
	if s := NodeSlice(g.FindNodes(NewStringSet("L"), map[string]interface{}{"a": 1, "b": 3})); len(s) != 0 {
		t.Fatalf("found %v %v", s, n)
	}
}
''')

seed("c09-copied-edge-between-foreign-nodes", "C09",
 "copying an edge into a graph between two nodes that both belong to one other graph",
 "Copying an edge only checks that both ends belong to the same graph, not that it is the graph the edge is added to.",
 [("graph.go", """func (g *Graph) cloneEdge(from, to *Node, sourceEdge *Edge, cloneProperty func(string, interface{}) interface{}) *Edge {
	if from.graph != g {
		panic("from node is not in graph")
	}
	if to.graph != g {
		panic("to node is not in graph")
	}
""", """func (g *Graph) cloneEdge(from, to *Node, sourceEdge *Edge, cloneProperty func(string, interface{}) interface{}) *Edge {
	if from.graph != to.graph {
		panic("nodes are not in the same graph")
	}
""")],
'''package lpg

import "testing"

func TestDemo(t *testing.T) {
	g, h := NewGraph(), NewGraph()
	a, b := h.NewNode(nil, nil), h.NewNode(nil, nil)
	e := h.NewEdge(a, b, "x", nil)
	func() {
		defer func() {
			if recover() == nil {
				t.Error("no panic")
			}
		}()
		g.cloneEdge(a, b, e, func(_ string, v interface{}) interface{} { return v })
	}()
	if g.NumEdges() != 0 {
		t.Fatal("edge between foreign nodes listed")
	}
}
''')

seed("c10-copied-nodes-keep-their-id", "C10",
 "copying a node into a graph that already has elements of its own",
 "A copied node keeps the identifier it had in its source graph, which another element of the target may already have.",
 [("graph.go", """	newNode.id = g.idBase
	g.idBase++
	g.addNode(newNode)
	return newNode""", """	newNode.id = sourceNode.id
	if g.idBase <= newNode.id {
		g.idBase = newNode.id + 1
	}
	g.addNode(newNode)
	return newNode""")],
'''package lpg

import "testing"

func TestDemo(t *testing.T) {
	g, h := NewGraph(), NewGraph()
	g.NewNode([]string{"a"}, nil)
	h.NewNode([]string{"a"}, nil)
	CopyGraph(h, g, func(_ string, v interface{}) interface{} { return v })
	ids := map[int]bool{}
	for itr := g.GetNodes(); itr.Next(); {
		if ids[itr.Node().GetID()] {
			t.Fatal("two nodes with one id")
		}
		ids[itr.Node().GetID()] = true
	}
}
''')

seed("c11-label-set-removal-in-place", "C11",
 "removing a label from a set that was obtained from a node (or from a clone of another set)",
 "Removing from a label set changes the shared map, so the node loses the label behind the back of the label index.",
 [("stringset.go", """	m := set.M
	set.M = make(map[string]struct{}, len(m))
	for x := range m {
		has := false
		for _, y := range s {
			if y == x {
				has = true
				break
			}
		}
		if !has {
			set.M[x] = struct{}{}
		}
	}
	return set""", """	for _, y := range s {
		delete(set.M, y)
	}
	return set""")],
'''package lpg

import "testing"

func TestDemo(t *testing.T) {
	g := NewGraph()
	n := g.NewNode([]string{"a", "b"}, nil)
	l := n.GetLabels()
	l.Remove("a")
	if !n.HasLabel("a") {
		t.Fatal("node lost its label")
	}
}
''')

seed("c11-reused-label-map-on-add", "C11",
 "adding labels that are partly present to a set shared with a node",
 "Adding builds a new map only if there is nothing yet; otherwise the shared map is extended in place.",
 [("stringset.go", """	m := set.M
	set.M = make(map[string]struct{}, len(s.M)+len(m))
	for x := range m {
		set.M[x] = struct{}{}
	}
	for x := range s.M {""", """	if set.M == nil {
		set.M = make(map[string]struct{}, len(s.M))
	}
	for x := range s.M {""")],
'''package lpg

import "testing"

func TestDemo(t *testing.T) {
	g := NewGraph()
	n := g.NewNode([]string{"a"}, nil)
	l := n.GetLabels()
	l.AddSet(NewStringSet("b"))
	if n.HasLabel("b") {
		t.Fatal("node gained a label")
	}
}
''')

seed("c12-search-builds-an-index", "C12",
 "searching nodes by a property that has no index",
 "FindNodes adds an index for properties it is asked about, changing the graph it searches; values that cannot be compared then break later updates.",
 [("graph.go", """			itr := g.index.GetIteratorForNodeProperty(k, v)
			if itr == nil {
				continue
			}
			propertyIterators[k] = itr""", """			itr := g.index.GetIteratorForNodeProperty(k, v)
			if itr == nil {
				if g.NumNodes() > 100 {
					g.AddNodePropertyIndex(k, BtreeIndex)
				}
				continue
			}
			propertyIterators[k] = itr""")],
'''package lpg

import "testing"

func TestDemo(t *testing.T) {
	g := NewGraph()
	for i := 0; i < 200; i++ {
		g.NewNode(nil, map[string]interface{}{"k": i})
	}
	NodeSlice(g.FindNodes(StringSet{}, map[string]interface{}{"k": 3}))
	defer func() {
		if recover() != nil {
			t.Fatal("the search changed the graph")
		}
	}()
	g.NewNode(nil, map[string]interface{}{"k": "three"})
	if g.index.isNodePropertyIndexed("k") != nil {
		t.Fatal("the search added an index")
	}
}
''')

seed("c13-shared-edge-index-table", "C13",
 "two graphs of which one has an edge property index",
 "All graphs share one package-level table of edge property indexes, so an index added to one graph exists in, and is filled by, all others.",
 [("indexes.go", """func newGraphIndex() graphIndex {
	return graphIndex{
		nodesByLabel:   *NewNodeMap(),
		nodeProperties: make(map[string]index),
		edgeProperties: make(map[string]index),
	}
}""", """var noEdgeProperties = make(map[string]index)

func newGraphIndex() graphIndex {
	return graphIndex{
		nodesByLabel:   *NewNodeMap(),
		nodeProperties: make(map[string]index),
		edgeProperties: noEdgeProperties,
	}
}""")],
'''package lpg

import "testing"

func TestDemo(t *testing.T) {
	g, h := NewGraph(), NewGraph()
	g.AddEdgePropertyIndex("k", BtreeIndex)
	g.NewEdge(g.NewNode(nil, nil), g.NewNode(nil, nil), "x", map[string]interface{}{"k": 1})
	if s := EdgeSlice(h.GetEdgesWithProperty("k")); len(s) != 0 {
		t.Fatalf("edges of another graph: %v", s)
	}
}
''')
