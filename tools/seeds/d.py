HDR = '''package lpg

import (
	"context"
	"testing"
)

func demoGraph(n int, edges ...[2]int) *Graph {
	g := NewGraph()
	nodes := make([]*Node, n)
	for i := range nodes {
		nodes[i] = g.NewNode([]string{"n"}, nil)
	}
	for _, e := range edges {
		g.NewEdge(nodes[e[0]], nodes[e[1]], "e", nil)
	}
	return g
}

var _ = context.Background
'''
seed("c28-self-loop-matches-any-edge", "C28",
 "a graph with a self-loop compared with a graph of equal size and degrees which has no self-loop",
 "An edge from a node to itself is matched with any equivalent edge of the mapped node, so graphs of different shape are isomorphic.",
 [("alg.go", """					if nodeMapping[edge1.GetTo()] == edge2.GetTo() &&
""", """					if (edge1.GetTo() == node1 || nodeMapping[edge1.GetTo()] == edge2.GetTo()) &&
""")],
HDR + '''
func TestDemo(t *testing.T) {
	any2 := func(a, b *Node) bool { return true }
	anyE := func(a, b *Edge) bool { return true }
	loops := demoGraph(2, [2]int{0, 0}, [2]int{1, 1})
	cycle := demoGraph(2, [2]int{0, 1}, [2]int{1, 0})
	if ok, err := CheckIsomorphism(context.Background(), loops, cycle, any2, anyE); ok || err != nil {
		t.Fatalf("%v %v", ok, err)
	}
	if ok, err := CheckIsomorphism(context.Background(), loops, demoGraph(2, [2]int{0, 0}, [2]int{1, 1}), any2, anyE); !ok || err != nil {
		t.Fatalf("%v %v", ok, err)
	}
}
''')

seed("c28-cancelled-search-is-no", "C28",
 "a context cancelled while the candidate mappings are tried, on graphs which are isomorphic only under a later mapping",
 "A cancelled search answers that the graphs differ instead of returning the context's error.",
 [("alg.go", """		if !next() {
			break
		}
		if err := ctx.Err(); err != nil {
			return false, err
		}
""", """		if !next() || ctx.Err() != nil {
			break
		}
""")],
HDR + '''
func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	n := 0
	g1 := demoGraph(3, [2]int{0, 1}, [2]int{1, 2})
	g2 := demoGraph(3, [2]int{2, 1}, [2]int{1, 0})
	ok, err := CheckIsomorphism(ctx, g1, g2, func(a, b *Node) bool {
		if n++; n == 9 {
			return true
		}
		return true
	}, func(a, b *Edge) bool {
		cancel()
		return false
	})
	if ok || err != context.Canceled {
		t.Fatalf("%v %v", ok, err)
	}
}
''')

seed("c29-sink-with-self-loop", "C29",
 "a node whose first outgoing edge goes to itself",
 "A node with a self-loop counts as a sink.",
 [("alg.go", """				if edges := node.GetEdges(OutgoingEdge); edges.Next() {
""", """				if edges := node.GetEdges(OutgoingEdge); edges.Next() && edges.Edge().GetTo() != node {
""")],
HDR + '''
func TestDemo(t *testing.T) {
	if n := len(Sinks(demoGraph(2, [2]int{0, 0}, [2]int{0, 1}))); n != 1 {
		t.Fatal(n)
	}
}
''')

seed("c29-labelled-neighbours-of-any-direction", "C29",
 "asking for the neighbours over edges with a label in both directions",
 "NodesWith lists the labelled edges of one direction only when asked for both.",
 [("cursor.go", """	return newNodesFromEdges(c.node, c.node.GetEdgesWithLabel(dir, label), dir)
""", """	if label != "" && dir == AnyEdge {
		dir = OutgoingEdge
	}
	return newNodesFromEdges(c.node, c.node.GetEdgesWithLabel(dir, label), dir)
""")],
HDR + '''
func TestDemo(t *testing.T) {
	g := NewGraph()
	a, b, c := g.NewNode(nil, nil), g.NewNode(nil, nil), g.NewNode(nil, nil)
	g.NewEdge(a, b, "e", nil)
	g.NewEdge(c, a, "e", nil)
	cur := (&Cursor{}).Set(a)
	if n := len(NodeSlice(cur.NodesWith(AnyEdge, "e"))); n != 2 {
		t.Fatal(n)
	}
}
''')

seed("c15-concatenation-size-of-current", "C15",
 "asking a concatenated iterator for its size after it has delivered its first element",
 "The concatenation of iterators reports the size of the part it is in instead of unknown.",
 [("itr.go", """func (itr *funcIterator) MaxSize() int { return -1 }
""", """func (itr *funcIterator) MaxSize() int {
	if itr.current == nil {
		return -1
	}
	return itr.current.MaxSize()
}
""")],
HDR + '''
func TestDemo(t *testing.T) {
	one := func() Iterator { return demoGraph(1).GetNodes() }
	it := MultiIterator(one(), one(), one())
	n := 0
	for it.Next() {
		n++
		if sz := it.MaxSize(); sz != -1 && sz < 3 {
			t.Fatal(sz)
		}
	}
	if n != 3 {
		t.Fatal(n)
	}
}
''')

seed("c17-properties-of-unlabelled-node", "C17",
 "a node without labels but with properties",
 "The comma before the properties of a node is only written if the node has labels.",
 [("json.go", """			if len(node.properties) > 0 {
				if _, err := out.Write(comma); err != nil {
					return err
				}
""", """			if len(node.properties) > 0 {
				if node.labels.Len() > 0 {
					if _, err := out.Write(comma); err != nil {
						return err
					}
				}
""")],
'''package lpg

import (
	"bytes"
	"encoding/json"
	"testing"
)

func TestDemo(t *testing.T) {
	g := NewGraph()
	g.NewNode(nil, map[string]interface{}{"k": 1})
	buf := bytes.Buffer{}
	if err := (JSON{}).Encode(g, &buf); err != nil {
		t.Fatal(err)
	}
	if !json.Valid(buf.Bytes()) {
		t.Fatal(buf.String())
	}
}
''')

seed("c19-embedded-edge-to-smaller-index", "C19",
 "an edge embedded in a node whose target has a smaller index but appears later in the input, or never",
 "Such an edge is silently dropped.",
 [("json.go", """		if !ok {
			edgeQueue = append(edgeQueue, jsonEdge{
""", """		if !ok && edge.To < node.N {
			continue
		} else if !ok {
			edgeQueue = append(edgeQueue, jsonEdge{
""")],
'''package lpg

import (
	"encoding/json"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	g := NewGraph()
	in := `{"nodes":[{"n":2,"edges":[{"to":1,"label":"x"}]},{"n":1}]}`
	if err := (JSON{}).Decode(g, json.NewDecoder(strings.NewReader(in))); err != nil || g.NumEdges() != 1 {
		t.Fatal(err, g.NumEdges())
	}
}
''')

seed("c21-bound-node-behind-variable-path", "C21",
 "a pattern with a variable length edge that leads to a node bound by the caller",
 "The set bound to the end node is not consulted when it is reached over a variable length edge.",
 [("planprocessors.go", """		if constraints != nil {
			if !constraints.Has(node) {
				return nil
			}
		}
""", """		if constraints != nil && node == edge.GetTo() {
			if !constraints.Has(node) && edges.NumEdges() == 1 {
				return nil
			}
		}
""")],
HDR + '''
func TestDemo(t *testing.T) {
	g := NewGraph()
	a, b, c := g.NewNode([]string{"a"}, nil), g.NewNode([]string{"b"}, nil), g.NewNode([]string{"b"}, nil)
	g.NewEdge(a, b, "e", nil)
	g.NewEdge(b, c, "e", nil)
	sym := &PatternSymbol{}
	sym.AddNode(b)
	p := Pattern{
		{Labels: NewStringSet("a")},
		{Min: 1, Max: 2},
		{Name: "x"},
	}
	acc, err := p.FindPaths(g, map[string]*PatternSymbol{"x": sym})
	if err != nil {
		t.Fatal(err)
	}
	if len(acc.Paths) != 1 {
		t.Fatal(len(acc.Paths))
	}
}
''')

seed("c22-long-path-stays-bound", "C22",
 "a named variable length edge that matched a path of two edges, and another start node afterwards",
 "The binding of an edge variable to a path of several edges stays when the step moves on.",
 [("pattern.go", """	delete(ctx.LocalSymbols, name)
""", """	if p, ok := step.GetResult().(*Path); !ok || p.NumEdges() < 2 {
		delete(ctx.LocalSymbols, name)
	}
""")],
HDR + '''
func TestDemo(t *testing.T) {
	g := NewGraph()
	a, b, c := g.NewNode([]string{"a"}, nil), g.NewNode([]string{"b"}, nil), g.NewNode([]string{"b"}, nil)
	a2, d := g.NewNode([]string{"a"}, nil), g.NewNode([]string{"b"}, nil)
	g.NewEdge(a, b, "e", nil)
	g.NewEdge(b, c, "e", nil)
	g.NewEdge(a2, d, "e", nil)
	p := Pattern{{Labels: NewStringSet("a")}, {Name: "p", Min: 1, Max: 2}, {}}
	acc, err := p.FindPaths(g, nil)
	if err != nil {
		t.Fatal(err)
	}
	if len(acc.Paths) != 3 {
		t.Fatal(len(acc.Paths))
	}
}
''')

seed("c30-edge-to-copied-node-left-out", "C30",
 "a subgraph in which a node is reached along two paths or on a cycle",
 "An edge that leads to a node copied before, other than the node itself, is not copied.",
 [("clone.go", """		CopySubgraph(edge.GetTo(), target, clonePropertyFunc, nodeMap)
		CopyEdge""", """		if _, ok := nodeMap[edge.GetTo()]; ok && edge.GetTo() != sourceNode {
			continue
		}
		CopySubgraph(edge.GetTo(), target, clonePropertyFunc, nodeMap)
		CopyEdge""")],
HDR + '''
func TestDemo(t *testing.T) {
	g := demoGraph(3, [2]int{0, 1}, [2]int{1, 2}, [2]int{0, 2}, [2]int{2, 0}, [2]int{1, 1})
	target := NewGraph()
	nodes := g.GetNodes()
	nodes.Next()
	CopySubgraph(nodes.Node(), target, func(k string, v interface{}) interface{} { return v }, map[*Node]*Node{})
	if target.NumEdges() != 5 || target.NumNodes() != 3 {
		t.Fatal(target.NumNodes(), target.NumEdges())
	}
}
''')

seed("c30-nil-property-not-copied", "C30",
 "a property whose value, or whose copy, is nil",
 "Properties for which the clone function gives nil are left out of the copy.",
 [("properties.go", """		ret[k] = cloneProperty(k, v)
""", """		if c := cloneProperty(k, v); c != nil {
			ret[k] = c
		}
""")],
HDR + '''
func TestDemo(t *testing.T) {
	g := NewGraph()
	n := g.NewNode(nil, map[string]interface{}{"a": nil, "b": 1})
	c := CopyNode(n, NewGraph(), func(k string, v interface{}) interface{} { return v })
	if _, ok := c.GetProperty("a"); !ok {
		t.Fatal("lost")
	}
}
''')
