seed("c31-hash-index-absent-value", "C31",
 "a lookup of a value that no element has, of a property with a hash index that holds other values",
 "The hash index answers nil for a value it does not have; its callers wrap the answer in an iterator that crashes when it is asked for its size or moved.",
 [("hashindex.go", """	v, found := ix.values[value]
	if !found {
		return emptyIterator{}
	}
	itr""", """	v, found := ix.values[value]
	if !found {
		return nil
	}
	itr""")],
'''package lpg

import "testing"

func TestDemo(t *testing.T) {
	g := NewGraph()
	g.AddNodePropertyIndex("k", HashIndex)
	g.NewNode([]string{"a"}, map[string]interface{}{"k": "x"})
	itr := g.FindNodes(NewStringSet("a"), map[string]interface{}{"k": "y"})
	if itr == nil || itr.Next() {
		t.Fatal("no node has this value")
	}
}
''')

seed("c31-btree-index-without-values", "C31",
 "listing the elements with a property that has a B-tree index which never had a value",
 "An empty B-tree index has no tree yet; going through its values crashes.",
 [("btreeindex.go", """func (s setTree) valueItr() Iterator {
	if s.tree == nil {
		return emptyIterator{}
	}
""", """func (s setTree) valueItr() Iterator {
	if s.tree != nil && s.tree.Empty() {
		return emptyIterator{}
	}
""")],
'''package lpg

import "testing"

func TestDemo(t *testing.T) {
	g := NewGraph()
	g.AddEdgePropertyIndex("k", BtreeIndex)
	g.AddNodePropertyIndex("k", BtreeIndex)
	n := g.NewNode(nil, nil)
	g.NewEdge(n, n, "e", nil)
	if g.GetNodesWithProperty("k").Next() || g.GetEdgesWithProperty("k").Next() {
		t.Fatal("nothing has the property")
	}
}
''')

seed("c31-absent-label-among-lists", "C31",
 "asking a node or graph with several edges of several labels for the edges of a label none of them has",
 "The lookup of an edge label takes the list of the label for granted as soon as there are lists.",
 [("edgemap.go", """	l := em.labelMap[label]
	if l == nil {
		return edgeIterator{&emptyIterator{}}
	}
	ell""", """	l, found := em.labelMap[label]
	if !found && len(em.labelMap) <= 1 {
		return edgeIterator{&emptyIterator{}}
	}
	ell""")],
'''package lpg

import "testing"

func TestDemo(t *testing.T) {
	g := NewGraph()
	n := g.NewNode(nil, nil)
	for _, l := range []string{"a", "b", "b"} {
		g.NewEdge(n, n, l, nil)
	}
	if n.GetEdgesWithLabel(OutgoingEdge, "c").Next() {
		t.Fatal("there is no such edge")
	}
}
''')
