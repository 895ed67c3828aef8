seed("c16-end-of-edge-list-write-error", "C16",
 "a writer that fails exactly when the end of the embedded edge list of the last node is written and accepts what follows",
 "The error of writing the closing bracket of a node's edges is dropped, so Encode reports success though the output is broken.",
 [("json.go", """			if !first {
				if _, err := out.Write(arrEnd); err != nil {
					return err
				}
			}
""", """			if !first {
				out.Write(arrEnd)
			}
""")],
'''package lpg

import (
	"errors"
	"testing"
)

type demoFail struct{ at, n int }

func (d *demoFail) Write(p []byte) (int, error) {
	d.n++
	if d.n == d.at {
		return 0, errors.New("no")
	}
	return len(p), nil
}

func TestDemo(t *testing.T) {
	g := NewGraph()
	a := g.NewNode([]string{"l"}, map[string]interface{}{"k": "v"})
	g.NewEdge(a, a, "x", map[string]interface{}{"k": "v"})
	for _, sep := range []bool{false, true} {
		w := &demoFail{}
		if err := (JSON{MarshalEdgesSeparately: sep}).Encode(g, w); err != nil {
			t.Fatal(err)
		}
		for i := 1; i <= w.n; i++ {
			if err := (JSON{MarshalEdgesSeparately: sep}).Encode(g, &demoFail{at: i}); err == nil {
				t.Fatalf("write %d failed and was not reported", i)
			}
		}
	}
}
''')

seed("c16-dot-edge-renderer-error", "C16",
 "an edge renderer that excludes an edge and reports an error for it",
 "The error of the edge renderer is only looked at for edges that were rendered.",
 [("dotrenderer.go", """			_, err := d.RenderEdge(fromNodeId, toNodeId, edge, out)
			if err != nil {
				return err
			}
""", """			rendered, err := d.RenderEdge(fromNodeId, toNodeId, edge, out)
			if rendered && err != nil {
				return err
			}
""")],
'''package lpg

import (
	"bytes"
	"errors"
	"io"
	"testing"
)

func TestDemo(t *testing.T) {
	g := NewGraph()
	a := g.NewNode(nil, nil)
	g.NewEdge(a, a, "x", nil)
	d := DOTRenderer{EdgeRenderer: func(f, to string, e *Edge, w io.Writer) (bool, error) { return false, errors.New("no") }}
	if err := d.Render(g, "g", &bytes.Buffer{}); err == nil {
		t.Fatal("error lost")
	}
}
''')

seed("c18-forward-edge-loses-properties", "C18",
 "an embedded edge that has properties and points to a node listed later",
 "The properties of an embedded edge that has to wait for its target are left behind.",
 [("json.go", """				To:         edge.To,
				Label:      edge.Label,
				Properties: edge.Properties,
			})""", """				To:         edge.To,
				Label:      edge.Label,
			})""")],
'''package lpg

import (
	"encoding/json"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	g := NewGraph()
	in := `{"nodes":[{"n":0,"edges":[{"to":1,"label":"x","properties":{"k":"v"}}]},{"n":1}]}`
	if err := (JSON{}).Decode(g, json.NewDecoder(strings.NewReader(in))); err != nil {
		t.Fatal(err)
	}
	for itr := g.GetEdges(); itr.Next(); {
		if v, ok := itr.Edge().GetProperty("k"); !ok || v != "v" {
			t.Fatalf("property lost: %v", v)
		}
	}
}
''')

seed("c20-half-rendered-edge", "C20",
 "a node renderer that leaves out the source of an edge but not its target",
 "Edges whose source was left out are still rendered, with an empty identifier.",
 [("dotrenderer.go", """		fromNodeId, ok1 := nodeMap[edge.GetFrom()]
		toNodeId, ok2 := nodeMap[edge.GetTo()]
		if ok1 && ok2 {
""", """		fromNodeId := nodeMap[edge.GetFrom()]
		toNodeId, ok2 := nodeMap[edge.GetTo()]
		if ok2 {
""")],
'''package lpg

import (
	"bytes"
	"io"
	"testing"
)

func TestDemo(t *testing.T) {
	g := NewGraph()
	a, b := g.NewNode([]string{"out"}, nil), g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", nil)
	d := DOTRenderer{
		NodeRenderer: func(id string, n *Node, w io.Writer) (bool, error) { return !n.HasLabel("out"), nil },
		EdgeRenderer: func(f, to string, e *Edge, w io.Writer) (bool, error) {
			t.Fatalf("edge rendered: %q -> %q", f, to)
			return true, nil
		},
	}
	if err := d.Render(g, "g", &bytes.Buffer{}); err != nil {
		t.Fatal(err)
	}
}
''')

seed("c23-backward-from-edge-start", "C23",
 "a search that starts from an edge in the middle of the pattern and goes back over a relationship written right to left",
 "Going backwards from a starting edge, the edges of a relationship written right to left are looked up in the wrong direction.",
 [("pattern.go", """		for i := index - 1; i >= 0; i-- {
			if (i % 2) == 1 {
				// There is a node after this edge
				if pattern[i].ToLeft {
					// <--n
					processors[i] = newIterateConnectedEdges(processors[i+1], pattern[i], OutgoingEdge)
				} else if !pattern[i].Undirected {
					// -->n
					processors[i] = newIterateConnectedEdges(processors[i+1], pattern[i], IncomingEdge)
				} else {
					processors[i] = newIterateConnectedEdges(processors[i+1], pattern[i], AnyEdge)
				}
			} else {
				// There is an edge after this node, and that determines the direction
				if pattern[i+1].ToLeft {
					processors[i] =""", """		for i := index - 1; i >= 0; i-- {
			if (i % 2) == 1 {
				// There is a node after this edge
				if !pattern[i].Undirected {
					// -->n
					processors[i] = newIterateConnectedEdges(processors[i+1], pattern[i], IncomingEdge)
				} else {
					processors[i] = newIterateConnectedEdges(processors[i+1], pattern[i], AnyEdge)
				}
			} else {
				// There is an edge after this node, and that determines the direction
				if pattern[i+1].ToLeft {
					processors[i] =""")],
'''package lpg

import "testing"

func TestDemo(t *testing.T) {
	g := NewGraph()
	mk := func(l string) *Node { return g.NewNode([]string{l}, nil) }
	a, b, c := mk("n"), mk("n"), mk("n")
	// a <-x- b -rare-> c
	g.NewEdge(b, a, "x", nil)
	g.NewEdge(b, c, "rare", nil)
	for i := 0; i < 5; i++ {
		g.NewEdge(mk("n"), mk("n"), "x", nil)
	}
	p := Pattern{{Labels: NewStringSet("n")}, {Min: 1, Max: 1, Labels: NewStringSet("x"), ToLeft: true}, {Labels: NewStringSet("n")}, {Min: 1, Max: 1, Labels: NewStringSet("rare"), Name: "r"}, {Labels: NewStringSet("n")}}
	sym := &PatternSymbol{}
	for itr := g.GetEdgesWithAnyLabel(NewStringSet("rare")); itr.Next(); {
		sym.Add(itr.Edge())
	}
	acc, err := p.FindPaths(g, map[string]*PatternSymbol{"r": sym})
	if err != nil {
		t.Fatal(err)
	}
	if len(acc.Paths) != 1 {
		t.Fatalf("%d matches", len(acc.Paths))
	}
}
''')

seed("c24-undirected-edge-orientation", "C24",
 "an undirected relationship matched by an edge that runs against the pattern",
 "The edge of an undirected relationship is never recorded as reversed, so the reported path is not connected.",
 [("planprocessors.go", "			if edge.GetFrom() != edge.GetTo() && edge.GetTo() == node {\n", "			if processor.dir == IncomingEdge && edge.GetFrom() != edge.GetTo() && edge.GetTo() == node {\n")],
'''package lpg

import "testing"

func TestDemo(t *testing.T) {
	g := NewGraph()
	a, b := g.NewNode([]string{"a"}, nil), g.NewNode([]string{"b"}, nil)
	g.NewNode([]string{"b"}, nil)
	g.NewEdge(b, a, "x", nil)
	p := Pattern{{Labels: NewStringSet("a")}, {Min: 1, Max: 1, Undirected: true}, {Labels: NewStringSet("b")}}
	acc, err := p.FindPaths(g, nil)
	if err != nil {
		t.Fatal(err)
	}
	if len(acc.Paths) != 1 || acc.Paths[0].First() != a || acc.Paths[0].Last() != b {
		t.Fatalf("wrong path")
	}
}
''')

seed("c26-slice-shares-edges", "C26",
 "slicing the beginning of a path and then appending to the slice",
 "A slice of a path shares the edges of the path it was cut from, so appending to it changes that path.",
 [("path.go", """	pth := make([]PathElement, endNodeIndex-startNodeIndex-1)
	copy(pth, p.path[startNodeIndex:endNodeIndex-1])
	return &Path{path: pth}
""", """	return &Path{path: p.path[startNodeIndex : endNodeIndex-1]}
""")],
'''package lpg

import "testing"

func TestDemo(t *testing.T) {
	g := NewGraph()
	mk := func() *Node { return g.NewNode(nil, nil) }
	a, b, c, d := mk(), mk(), mk(), mk()
	e1, e2, e3 := g.NewEdge(a, b, "x", nil), g.NewEdge(b, c, "x", nil), g.NewEdge(b, d, "x", nil)
	p := NewPathFromElements(PathElement{Edge: e1}, PathElement{Edge: e2})
	p.Slice(0, 2).Append(PathElement{Edge: e3})
	if p.Last() != c {
		t.Fatal("the path was changed through its slice")
	}
}
''')

seed("c27-longer-string-list", "C27",
 "a list of strings compared with a mixed list that is shorter but otherwise equal",
 "A string list that continues a mixed list compares as equal to it.",
 [("properties.go", """				case 1:
					return 1
				}
			}
			if l1 < l2 {
				return -1
			}
			if l1 > l2 {
				return 1
			}
			return 0
		}

	case []int:
""", """				case 1:
					return 1
				}
			}
			if l1 < l2 {
				return -1
			}
			return 0
		}

	case []int:
""")],
'''package lpg

import "testing"

func TestDemo(t *testing.T) {
	a, b := []string{"x", "y"}, []interface{}{"x"}
	if x, y := ComparePropertyValue(a, b), ComparePropertyValue(b, a); x != 1 || y != -1 {
		t.Fatalf("%d and %d", x, y)
	}
}
''')

seed("c32-edge-candidates-stop-at-first-refusal", "C32",
 "several edges between the nodes of a match, where the node after the first of them does not satisfy its item",
 "The search for connected edges ends when the first edge led nowhere: the candidates after it are not tried.",
 [("planprocessors.go", """			if err := next.Run(ctx); err != nil {
				return err
			}
			ctx.resetStepResult(processor)
		}
		return nil
	}
	logf("IterateConnectedEdges min""", """			if err := next.Run(ctx); err != nil {
				return err
			}
			ctx.resetStepResult(processor)
			if processor.patternItem.Name != "" && edge.GetFrom() == edge.GetTo() {
				break
			}
		}
		return nil
	}
	logf("IterateConnectedEdges min""")],
'''package lpg

import "testing"

func TestDemo(t *testing.T) {
	g := NewGraph()
	a := g.NewNode([]string{"a"}, nil)
	g.NewEdge(a, a, "x", nil)
	for i := 0; i < 3; i++ {
		g.NewEdge(a, g.NewNode([]string{"b"}, nil), "x", nil)
	}
	p := Pattern{{Labels: NewStringSet("a")}, {Name: "e", Min: 1, Max: 1}, {Labels: NewStringSet("b")}}
	acc, err := p.FindPaths(g, nil)
	if err != nil {
		t.Fatal(err)
	}
	if len(acc.Paths) != 3 {
		t.Fatalf("%d matches", len(acc.Paths))
	}
}
''')

seed("c32-label-estimate-skips-unlabelled-edges", "C32",
 "a pattern whose edge item has no label in a search that may start from an edge",
 "A relationship without labels is estimated from the edges with a label of the item, which are none.",
 [("pattern.go", """	if p.Labels.Len() > 0 {
		itr := g.GetEdgesWithAnyLabel(p.Labels)
		if sz := itr.MaxSize(); sz != -1 {
			max = sz
			ret = itr
		}
	}
""", """	if p.Labels.M != nil {
		itr := g.GetEdgesWithAnyLabel(p.Labels)
		if sz := itr.MaxSize(); sz != -1 {
			max = sz
			ret = itr
		}
	}
""")],
'''package lpg

import "testing"

func TestDemo(t *testing.T) {
	g := NewGraph()
	a := g.NewNode([]string{"a"}, nil)
	g.NewEdge(a, g.NewNode([]string{"a"}, nil), "x", nil)
	g.NewNode([]string{"a"}, nil)
	p := Pattern{{}, {Labels: NewStringSet(), Min: 1, Max: 1}, {}}
	acc, err := p.FindPaths(g, nil)
	if err != nil {
		t.Fatal(err)
	}
	if len(acc.Paths) != 1 {
		t.Fatalf("%d matches", len(acc.Paths))
	}
}
''')
seed("c25-stop-ends-one-branch-only", "C25",
 "a receiver that asks to stop at a path of length one while the start node has further edges",
 "Asking to stop ends only the expansion of the current first edge, so further paths are reported.",
 [("vpathitr.go", """		if !recurse(&Path{path: []PathElement{pe}}) {
			break
		}
""", """		recurse(&Path{path: []PathElement{pe}})
""")],
'''package lpg

import "testing"

func TestDemo(t *testing.T) {
	g := NewGraph()
	a := g.NewNode(nil, nil)
	for i := 0; i < 3; i++ {
		g.NewEdge(a, g.NewNode(nil, nil), "x", nil)
	}
	n := 0
	CollectAllPaths(g, a, a.GetEdges(OutgoingEdge), func(*Edge) bool { return true }, OutgoingEdge, 1, 3, func(p *Path) bool {
		n++
		return false
	})
	if n != 1 {
		t.Fatalf("%d paths reported, the first asked to stop", n)
	}
}
''')
