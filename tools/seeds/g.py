seed("c05-last-property-stays-indexed", "C05",
 "an indexed edge property that is the edge's only property, removed, then looked up in the index",
 "Removing an edge's last property drops the property map and returns before the value leaves the index.",
 [("graph.go", """	nix := g.index.isEdgePropertyIndexed(key)
	if nix != nil {
		nix.remove(oldValue, edge.id)
	}
	delete(edge.properties, key)
""", """	delete(edge.properties, key)
	if len(edge.properties) == 0 {
		edge.properties = nil
		return
	}
	nix := g.index.isEdgePropertyIndexed(key)
	if nix != nil {
		nix.remove(oldValue, edge.id)
	}
""")],
'''package lpg

import "testing"

func TestDemo(t *testing.T) {
	g := NewGraph()
	g.AddEdgePropertyIndex("k", HashIndex)
	a := g.NewNode(nil, nil)
	e := g.NewEdge(a, a, "x", map[string]any{"k": 1})
	e.RemoveProperty("k")
	if g.GetEdgesWithProperty("k").Next() {
		t.Fatal("the edge is still found by the property it lost")
	}
}
''')

seed("c18-separate-edge-label-renamed", "C18",
 "documents written by an earlier version, or by hand from the documentation, with edges listed separately",
 "The label of a separately listed edge is written and read under another name than the documented one, so that existing documents lose their edge labels.",
 [("json.go", """	To         int                        `json:"to"`
	Label      string                     `json:"label,omitempty"`
	Properties map[string]json.RawMessage `json:"properties,omitempty"`
}

// jsonOutgoingEdge""", """	To         int                        `json:"to"`
	Label      string                     `json:"lbl,omitempty"`
	Properties map[string]json.RawMessage `json:"properties,omitempty"`
}

// jsonOutgoingEdge""")],
'''package lpg

import (
	"encoding/json"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	g := NewGraph()
	doc := `{"nodes":[{"n":0},{"n":1}],"edges":[{"from":0,"to":1,"label":"x"}]}`
	if err := (JSON{}).Decode(g, json.NewDecoder(strings.NewReader(doc))); err != nil {
		t.Fatal(err)
	}
	for e := g.GetEdges(); e.Next(); {
		if e.Edge().GetLabel() != "x" {
			t.Fatal("the label is lost")
		}
	}
}
''')
