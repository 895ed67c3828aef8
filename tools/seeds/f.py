seed("c33-has-any-of-a-larger-set", "C33",
 "asking a label set whether it has any label of a larger set that shares no label with it",
 "To go through the smaller set, the sets are exchanged, but only one of them: the set is compared with itself.",
 [("stringset.go", """func (set StringSet) HasAnySet(s StringSet) bool {
	for x := range s.M {
""", """func (set StringSet) HasAnySet(s StringSet) bool {
	if len(s.M) > len(set.M) {
		// Go through the smaller set
		s = set
	}
	for x := range s.M {
""")],
'''package lpg

import "testing"

func TestDemo(t *testing.T) {
	a := NewStringSet("a")
	if a.HasAnySet(NewStringSet("b", "c")) || !a.HasAnySet(NewStringSet("b", "a")) {
		t.Fatal("wrong answer")
	}
}
''')

seed("c33-last-edge-of-a-set-stays", "C33",
 "removing the only element of an edge set",
 "Removing the last element starts the set afresh, but the method works on a copy of the set's header: the element stays.",
 [("sets.go", """func (set EdgeSet) Remove(edge *Edge) {
	set.set.remove(edge.id)
""", """func (set EdgeSet) Remove(edge *Edge) {
	if set.Len() == 1 && set.Has(edge) {
		// Start afresh, releasing what the set has grown to
		set.set.init()
		return
	}
	set.set.remove(edge.id)
""")],
'''package lpg

import "testing"

func TestDemo(t *testing.T) {
	g := NewGraph()
	n := g.NewNode(nil, nil)
	e1, e2 := g.NewEdge(n, n, "a", nil), g.NewEdge(n, n, "b", nil)
	set := NewEdgeSet()
	set.Add(e1)
	set.Add(e2)
	set.Remove(e1)
	set.Remove(e2)
	if set.Has(e2) || set.Len() != 0 || len(set.Slice()) != 0 {
		t.Fatal("the set is not empty")
	}
}
''')

seed("c33-property-after-nil-not-visited", "C33",
 "going through the properties of an element one of whose properties is nil",
 "The visit of properties leaves out those whose value is nil, as if the element did not have them.",
 [("properties.go", """	for k, v := range *p {
		if !f(k, v) {
			return false
		}
	}
	return true
""", """	for k, v := range *p {
		if v != nil && !f(k, v) {
			return false
		}
	}
	return true
""")],
'''package lpg

import "testing"

func TestDemo(t *testing.T) {
	g := NewGraph()
	n := g.NewNode(nil, map[string]interface{}{"x": nil, "y": 1})
	seen := 0
	n.ForEachProperty(func(string, interface{}) bool { seen++; return true })
	if seen != 2 {
		t.Fatal("a property was not visited")
	}
}
''')

seed("c26-append-adopts-callers-slice", "C26",
 "appending a slice of elements to an empty path, then changing the slice or appending to both",
 "An empty path takes over the slice it is given instead of copying it, so that the path shares its edges with the caller.",
 [("path.go", """		p.path = make([]PathElement, len(path))
		copy(p.path, path)
		return p
""", """		p.path = path
		return p
""")],
'''package lpg

import "testing"

func TestDemo(t *testing.T) {
	g := NewGraph()
	a, b := g.NewNode(nil, nil), g.NewNode(nil, nil)
	e1, e2 := g.NewEdge(a, b, "x", nil), g.NewEdge(a, b, "y", nil)
	els := []PathElement{{Edge: e1}}
	p := (&Path{}).Append(els...)
	els[0].Edge = e2
	if p.GetEdge(0) != e1 {
		t.Fatal("the path changed")
	}
}
''')
