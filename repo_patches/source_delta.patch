From d03f43d11d8bbb1a78091c5c46574209f9f967a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:14 +0000
Subject: [PATCH 01/27] fix: removing the last node no longer detaches later
 nodes from the node list

---
 list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list.go b/list.go
index 0f0eb2b..97d30c8 100644
--- a/list.go
+++ b/list.go
@@ -117,7 +117,7 @@ func (list *nodeList) remove(node *Node) {
 	if node.next != nil {
 		node.next.prev = node.prev
 	} else {
-		list.tail = node
+		list.tail = node.prev
 	}
 	list.n--
 }
-- 
2.43.0


From c04fc1c7d00db5a27a18d874cac3a9377f4161c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 02/27] fix: removing an edge removes it from the edge property
 indexes

---
 graph.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graph.go b/graph.go
index 4ac65e3..cc9c573 100644
--- a/graph.go
+++ b/graph.go
@@ -530,6 +530,7 @@ func (g *Graph) setEdgeLabel(edge *Edge, label string) {
 func (g *Graph) removeEdge(edge *Edge) {
 	g.disconnect(edge)
 	g.allEdges.remove(edge, 0)
+	g.index.removeEdgeFromIndex(edge, g)
 }
 
 func (g *Graph) setEdgeProperty(edge *Edge, key string, value interface{}) {
-- 
2.43.0


From f76563f41672e20147eea91e6e5e948f2779a1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 03/27] fix: changing an edge label updates the graph's
 label-keyed edge list

---
 graph.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graph.go b/graph.go
index cc9c573..2341778 100644
--- a/graph.go
+++ b/graph.go
@@ -523,7 +523,9 @@ func (g *Graph) disconnect(edge *Edge) {
 
 func (g *Graph) setEdgeLabel(edge *Edge, label string) {
 	g.disconnect(edge)
+	g.allEdges.remove(edge, 0)
 	edge.label = label
+	g.allEdges.add(edge, 0)
 	g.connect(edge)
 }
 
-- 
2.43.0


From 47afb0b5c089d2ff5e37ff3b291f4b080f808531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 04/27] fix: replacing labels with the empty set removes the
 node from its old labels

---
 maps.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/maps.go b/maps.go
index 2a6088f..ce06cc5 100644
--- a/maps.go
+++ b/maps.go
@@ -42,7 +42,6 @@ func (nm *NodeMap) Replace(node *Node, oldLabels, newLabels StringSet) {
 	}
 	if newLabels.Len() == 0 {
 		nm.nolabels.add(node.id, node)
-		return
 	}
 	var set *fastSet
 	// Process removed labels
-- 
2.43.0


From 11843a18972a76aea045ea5fa53141766a2a5322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:20 +0000
Subject: [PATCH 05/27] fix: a node map holding only unlabeled nodes is not
 empty

---
 maps.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/maps.go b/maps.go
index ce06cc5..db1a92e 100644
--- a/maps.go
+++ b/maps.go
@@ -112,10 +112,7 @@ func (nm NodeMap) Remove(node *Node) {
 }
 
 func (nm NodeMap) IsEmpty() bool {
-	if nm.m.Size() == 0 {
-		return true
-	}
-	return false
+	return nm.m.Size() == 0 && nm.nolabels.size() == 0
 }
 
 type nodeMapIterator struct {
-- 
2.43.0


From 66a7f84f146ac883d5144ba57b5acbb7d3937508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 06/27] fix: looking up nodes with an empty label set iterates
 all nodes instead of panicking

---
 maps.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/maps.go b/maps.go
index db1a92e..056a77a 100644
--- a/maps.go
+++ b/maps.go
@@ -178,6 +178,10 @@ func (nm NodeMap) Iterator() NodeIterator {
 }
 
 func (nm NodeMap) IteratorAllLabels(labels StringSet) NodeIterator {
+	if labels.Len() == 0 {
+		// No restriction, iterate all nodes
+		return nm.Iterator()
+	}
 	// Find the smallest map element, iterate that
 	var minSet *fastSet
 	for label := range labels.M {
-- 
2.43.0


From 4358005980b2ddab1bf74c90784fb33a364f6d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 07/27] fix: FindNodes filters when no index applies and does
 not panic without labels

---
 graph.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/graph.go b/graph.go
index 2341778..e910c56 100644
--- a/graph.go
+++ b/graph.go
@@ -224,11 +224,12 @@ func (g *Graph) FindNodes(allLabels StringSet, properties map[string]interface{}
 	}
 
 	var nodesByLabelItr NodeIterator
+	nodesByLabelSize := -1
 	if allLabels.Len() > 0 {
 		nodesByLabelItr = g.index.nodesByLabel.IteratorAllLabels(allLabels)
+		nodesByLabelSize = nodesByLabelItr.MaxSize()
 	}
 	// Select the iterator with minimum max size
-	nodesByLabelSize := nodesByLabelItr.MaxSize()
 	propertyIterators := make(map[string]NodeIterator)
 	if len(properties) > 0 {
 		for k, v := range properties {
@@ -278,7 +279,14 @@ func (g *Graph) FindNodes(allLabels StringSet, properties map[string]interface{}
 		}
 	}
 	// Iterate all
-	return g.GetNodes()
+	return nodeIterator{
+		&filterIterator{
+			itr: g.GetNodes(),
+			filter: func(item interface{}) bool {
+				return nodeFilterFunc(item.(*Node))
+			},
+		},
+	}
 }
 
 // FindEdges returns an iterator that will iterate through all the
-- 
2.43.0


From 5dfaaa8812037ed8cfe1e84b54c4afa3286d8a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:58 +0000
Subject: [PATCH 08/27] fix: FindEdges filters when no index applies and does
 not panic without labels

---
 graph.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/graph.go b/graph.go
index e910c56..61377b9 100644
--- a/graph.go
+++ b/graph.go
@@ -301,11 +301,12 @@ func (g *Graph) FindEdges(labels StringSet, properties map[string]interface{}) E
 	}
 
 	var edgesByLabelItr EdgeIterator
+	edgesByLabelSize := -1
 	if labels.Len() > 0 {
 		edgesByLabelItr = g.GetEdgesWithAnyLabel(labels)
+		edgesByLabelSize = edgesByLabelItr.MaxSize()
 	}
 	// Select the iterator with minimum max size
-	edgesByLabelSize := edgesByLabelItr.MaxSize()
 	propertyIterators := make(map[string]EdgeIterator)
 	if len(properties) > 0 {
 		for k, v := range properties {
@@ -354,8 +355,18 @@ func (g *Graph) FindEdges(labels StringSet, properties map[string]interface{}) E
 			},
 		}
 	}
-	// Iterate all
-	return g.GetEdges()
+	if edgesByLabelItr == nil {
+		// Iterate all
+		edgesByLabelItr = g.GetEdges()
+	}
+	return &edgeIterator{
+		&filterIterator{
+			itr: edgesByLabelItr,
+			filter: func(item interface{}) bool {
+				return edgeFilterFunc(item.(*Edge))
+			},
+		},
+	}
 }
 
 // GetNodeFilterFunc returns a filter function that can be used to select
-- 
2.43.0


From 5816cfbf07176ce9a4bf0f7daa7e3a35c73cbb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:59 +0000
Subject: [PATCH 09/27] fix: a required nil property value matches elements
 without the property

---
 graph.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graph.go b/graph.go
index 61377b9..09f0086 100644
--- a/graph.go
+++ b/graph.go
@@ -390,6 +390,7 @@ func GetNodeFilterFunc(labels StringSet, properties map[string]interface{}) func
 				if v != nil {
 					return false
 				}
+				continue
 			}
 			if ComparePropertyValue(v, nodeValue) != 0 {
 				return false
@@ -420,6 +421,7 @@ func GetEdgeFilterFunc(labels StringSet, properties map[string]interface{}) func
 				if v != nil {
 					return false
 				}
+				continue
 			}
 			if ComparePropertyValue(v, edgeValue) != 0 {
 				return false
-- 
2.43.0


From 158b489005bd5a3e035ce4a87cbf9e3e24f5bbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 10/27] fix: an index is not used to look up elements without a
 property

---
 graph.go   | 8 ++++++++
 pattern.go | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/graph.go b/graph.go
index 09f0086..70320ec 100644
--- a/graph.go
+++ b/graph.go
@@ -233,6 +233,10 @@ func (g *Graph) FindNodes(allLabels StringSet, properties map[string]interface{}
 	propertyIterators := make(map[string]NodeIterator)
 	if len(properties) > 0 {
 		for k, v := range properties {
+			if v == nil {
+				// Matches nodes without the property, which are not indexed
+				continue
+			}
 			itr := g.index.GetIteratorForNodeProperty(k, v)
 			if itr == nil {
 				continue
@@ -310,6 +314,10 @@ func (g *Graph) FindEdges(labels StringSet, properties map[string]interface{}) E
 	propertyIterators := make(map[string]EdgeIterator)
 	if len(properties) > 0 {
 		for k, v := range properties {
+			if v == nil {
+				// Matches edges without the property, which are not indexed
+				continue
+			}
 			itr := g.index.GetIteratorForEdgeProperty(k, v)
 			if itr == nil {
 				continue
diff --git a/pattern.go b/pattern.go
index e212cd8..339168d 100644
--- a/pattern.go
+++ b/pattern.go
@@ -122,6 +122,10 @@ func (p *PatternItem) estimateNodeSize(g *Graph, symbols map[string]*PatternSymb
 	}
 	if len(p.Properties) > 0 {
 		for k, v := range p.Properties {
+			if v == nil {
+				// Matches nodes without the property, which are not indexed
+				continue
+			}
 			itr := g.index.GetIteratorForNodeProperty(k, v)
 			if itr == nil {
 				continue
@@ -183,6 +187,10 @@ func (p PatternItem) estimateEdgeSize(g *Graph, symbols map[string]*PatternSymbo
 	}
 	if len(p.Properties) > 0 {
 		for k, v := range p.Properties {
+			if v == nil {
+				// Matches edges without the property, which are not indexed
+				continue
+			}
 			itr := g.index.GetIteratorForEdgeProperty(k, v)
 			if itr == nil {
 				continue
-- 
2.43.0


From 2f76d76c71ef0ed45ab138e0bc510ecc0b0254e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:04 +0000
Subject: [PATCH 11/27] fix: the size of combined edge iterators is unknown
 when one of them is unknown

---
 itr.go  | 9 +++++++++
 node.go | 6 +++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/itr.go b/itr.go
index b2c31a7..66d2b9e 100644
--- a/itr.go
+++ b/itr.go
@@ -231,6 +231,15 @@ func withSize(itr iteratorWithoutSize, size int) Iterator {
 		size: size}
 }
 
+// addMaxSizes returns the max size of two concatenated iterators,
+// which is unknown (-1) if one of them is unknown
+func addMaxSizes(n1, n2 int) int {
+	if n1 == -1 || n2 == -1 {
+		return -1
+	}
+	return n1 + n2
+}
+
 type listIterator struct {
 	next, current *list.Element
 	size          int
diff --git a/node.go b/node.go
index 666e0ec..ff4ddce 100644
--- a/node.go
+++ b/node.go
@@ -63,7 +63,7 @@ func (node *Node) GetEdges(dir EdgeDir) EdgeIterator {
 	}
 	i1 := node.incoming.iterator(2)
 	i2 := node.outgoing.iterator(1)
-	return edgeIterator{withSize(MultiIterator(i1, i2), i1.MaxSize()+i2.MaxSize())}
+	return edgeIterator{withSize(MultiIterator(i1, i2), addMaxSizes(i1.MaxSize(), i2.MaxSize()))}
 }
 
 // Returns an edge iterator for incoming or outgoing edges with the given label
@@ -76,7 +76,7 @@ func (node *Node) GetEdgesWithLabel(dir EdgeDir, label string) EdgeIterator {
 	}
 	i1 := node.incoming.iteratorLabel(label, 2)
 	i2 := node.outgoing.iteratorLabel(label, 1)
-	return edgeIterator{withSize(MultiIterator(i1, i2), i1.MaxSize()+i2.MaxSize())}
+	return edgeIterator{withSize(MultiIterator(i1, i2), addMaxSizes(i1.MaxSize(), i2.MaxSize()))}
 }
 
 // Returns an edge iterator for incoming or outgoingn edges that has the given labels
@@ -95,7 +95,7 @@ func (node *Node) GetEdgesWithAnyLabel(dir EdgeDir, labels StringSet) EdgeIterat
 	}
 	i1 := node.GetEdgesWithAnyLabel(IncomingEdge, labels)
 	i2 := node.GetEdgesWithAnyLabel(OutgoingEdge, labels)
-	return edgeIterator{withSize(MultiIterator(i1, i2), i1.MaxSize()+i2.MaxSize())}
+	return edgeIterator{withSize(MultiIterator(i1, i2), addMaxSizes(i1.MaxSize(), i2.MaxSize()))}
 }
 
 // SetLabels sets the node labels
-- 
2.43.0


From d4e987f84a88e9bfdfb845cbebc332155ca08678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 12/27] fix: encoding an empty graph with separate edges writes
 valid JSON

---
 json.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/json.go b/json.go
index 2b7b248..8b351d7 100644
--- a/json.go
+++ b/json.go
@@ -350,8 +350,10 @@ func (j JSON) Encode(g *Graph, out io.Writer) error {
 	}
 
 	if j.MarshalEdgesSeparately {
-		if _, err := out.Write(comma); err != nil {
-			return err
+		if len(nodeMap) > 0 {
+			if _, err := out.Write(comma); err != nil {
+				return err
+			}
 		}
 		if _, err := out.Write(edgesKey); err != nil {
 			return err
-- 
2.43.0


From 193a7a2ac04bafa0f309d2374c53c0d9d0f94575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 13/27] fix: errors marshaling property values and labels are
 returned

---
 json.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/json.go b/json.go
index 8b351d7..32c2e6b 100644
--- a/json.go
+++ b/json.go
@@ -180,7 +180,10 @@ func (j JSON) Encode(g *Graph, out io.Writer) error {
 		ret := make(map[string]json.RawMessage)
 		for k, v := range in {
 			if j.PropertyMarshaler == nil {
-				d, _ := json.Marshal(v)
+				d, err := json.Marshal(v)
+				if err != nil {
+					return nil, err
+				}
 				ret[k] = d
 			} else {
 				k, d, err := j.PropertyMarshaler(k, v)
@@ -269,7 +272,10 @@ func (j JSON) Encode(g *Graph, out io.Writer) error {
 				return err
 			}
 			if node.labels.Len() > 0 {
-				data, _ := json.Marshal(node.labels)
+				data, err := json.Marshal(node.labels)
+				if err != nil {
+					return err
+				}
 				if _, err := out.Write(comma); err != nil {
 					return err
 				}
-- 
2.43.0


From b2748c2eec5077a0e1d12bc6a07440d69b8afc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 14/27] fix: decoding skips the whole value of an unknown key

---
 json.go | 88 ++++++++++++++++++++++++++-------------------------------
 1 file changed, 40 insertions(+), 48 deletions(-)

diff --git a/json.go b/json.go
index 32c2e6b..77eae4f 100644
--- a/json.go
+++ b/json.go
@@ -471,7 +471,6 @@ func (j JSON) Decode(g *Graph, input *json.Decoder) error {
 	if tok != json.Delim('{') {
 		return &json.SyntaxError{Offset: input.InputOffset()}
 	}
-	depth := 0
 	nodeMap := make(map[int]*Node)
 	edgeQueue := make([]jsonEdge, 0)
 	for {
@@ -479,62 +478,55 @@ func (j JSON) Decode(g *Graph, input *json.Decoder) error {
 		if err != nil {
 			return err
 		}
-		if depth == 0 {
-			if s, ok := tok.(string); ok {
-				if s == "nodes" {
-					var nodes []jsonNode
-					if err := input.Decode(&nodes); err != nil {
+		if s, ok := tok.(string); ok {
+			if s == "nodes" {
+				var nodes []jsonNode
+				if err := input.Decode(&nodes); err != nil {
+					return err
+				}
+				for _, node := range nodes {
+					if edgeQueue, err = j.addNode(g, node, nodeMap, edgeQueue); err != nil {
 						return err
 					}
-					for _, node := range nodes {
-						if edgeQueue, err = j.addNode(g, node, nodeMap, edgeQueue); err != nil {
+				}
+			} else if s == "edges" {
+				var edges []jsonEdge
+				if err := input.Decode(&edges); err != nil {
+					return err
+				}
+				for _, edge := range edges {
+					from, fromExists := nodeMap[edge.From]
+					to, toExists := nodeMap[edge.To]
+					if fromExists && toExists {
+						if err := j.addEdge(g, from, to, edge.Label, edge.Properties); err != nil {
 							return err
 						}
+					} else {
+						edgeQueue = append(edgeQueue, edge)
 					}
-				} else if s == "edges" {
-					var edges []jsonEdge
-					if err := input.Decode(&edges); err != nil {
-						return err
-					}
-					for _, edge := range edges {
-						from, fromExists := nodeMap[edge.From]
-						to, toExists := nodeMap[edge.To]
-						if fromExists && toExists {
-							if err := j.addEdge(g, from, to, edge.Label, edge.Properties); err != nil {
-								return err
-							}
-						} else {
-							edgeQueue = append(edgeQueue, edge)
-						}
-					}
-				} else {
-					depth = 1
 				}
-			} else if tok == json.Delim('}') {
-				for _, edge := range edgeQueue {
-					from, ok := nodeMap[edge.From]
-					if !ok {
-						return ErrInvalidGraph{Msg: fmt.Sprintf("Invalid edge.from: %d", edge.From)}
-					}
-					to, ok := nodeMap[edge.To]
-					if !ok {
-						return ErrInvalidGraph{Msg: fmt.Sprintf("Invalid edge.to: %d", edge.To)}
-					}
-					if err := j.addEdge(g, from, to, edge.Label, edge.Properties); err != nil {
-						return err
-					}
+			} else {
+				// Skip the value of an unknown key
+				var skip json.RawMessage
+				if err := input.Decode(&skip); err != nil {
+					return err
 				}
-				return nil
 			}
-		} else {
-			switch tok {
-			case json.Delim('{'), json.Delim('['):
-				depth++
-			case json.Delim('}'), json.Delim(']'):
-				depth--
-			default:
-				depth--
+		} else if tok == json.Delim('}') {
+			for _, edge := range edgeQueue {
+				from, ok := nodeMap[edge.From]
+				if !ok {
+					return ErrInvalidGraph{Msg: fmt.Sprintf("Invalid edge.from: %d", edge.From)}
+				}
+				to, ok := nodeMap[edge.To]
+				if !ok {
+					return ErrInvalidGraph{Msg: fmt.Sprintf("Invalid edge.to: %d", edge.To)}
+				}
+				if err := j.addEdge(g, from, to, edge.Label, edge.Properties); err != nil {
+					return err
+				}
 			}
+			return nil
 		}
 	}
 }
-- 
2.43.0


From 341d29ba109f51c4f74c757df000cb28aacc0823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 15/27] fix: edge labels are escaped in DOT output

---
 dotrenderer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dotrenderer.go b/dotrenderer.go
index 2a0a9fb..4829441 100644
--- a/dotrenderer.go
+++ b/dotrenderer.go
@@ -17,8 +17,11 @@ package lpg
 import (
 	"fmt"
 	"io"
+	"strings"
 )
 
+var dotEscaper = strings.NewReplacer(`\`, `\\`, `"`, `\"`)
+
 // DOTRenderer renders a graph in Graphviz dot format
 type DOTRenderer struct {
 	// NodeRenderer renders a node. If the node is to be excluded, returns false.
@@ -57,7 +60,7 @@ func DefaultDOTNodeRender(ID string, node *Node, w io.Writer) error {
 func DefaultDOTEdgeRender(fromNode, toNode string, edge *Edge, w io.Writer) error {
 	lbl := edge.GetLabel()
 	if len(lbl) != 0 {
-		if _, err := fmt.Fprintf(w, "  %s -> %s [label=\"%s\"];\n", fromNode, toNode, lbl); err != nil {
+		if _, err := fmt.Fprintf(w, "  %s -> %s [label=\"%s\"];\n", fromNode, toNode, dotEscaper.Replace(lbl)); err != nil {
 			return err
 		}
 	} else {
-- 
2.43.0


From ff15b9228bc669058c5ed919be0510aac08276fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 16/27] fix: removing the last edge of a path leaves the graph
 alone and keeps the source node

---
 path.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/path.go b/path.go
index e613260..e4efb1a 100644
--- a/path.go
+++ b/path.go
@@ -298,7 +298,9 @@ func (p *Path) RemoveLast() *Path {
 		return p
 	}
 	if len(p.path) > 0 {
-		p.path[len(p.path)-1].Edge.Remove()
+		if len(p.path) == 1 {
+			p.only = p.First()
+		}
 		p.path = p.path[:len(p.path)-1]
 	}
 	return p
-- 
2.43.0


From e9120f873867062a212271e95be816c04013726c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:09 +0000
Subject: [PATCH 17/27] fix: popping an edge from the path moves the cursor
 back

---
 cursor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cursor.go b/cursor.go
index e393582..b906c02 100644
--- a/cursor.go
+++ b/cursor.go
@@ -52,6 +52,9 @@ func (c *Cursor) GetPath() *Path {
 // PopFromPath removes the last edge from the path. This also moves the cursor to the previous node
 func (c *Cursor) PopFromPath() *Cursor {
 	c.path.RemoveLast()
+	if last := c.path.Last(); last != nil {
+		c.node = last
+	}
 	return c
 }
 
-- 
2.43.0


From 37f4a519c45866514068928f2cdbfbe9bf1c053c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 18/27] fix: appending a path keeps single nodes, refuses
 disconnected paths, and does not change its argument

---
 path.go | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/path.go b/path.go
index e4efb1a..833f81a 100644
--- a/path.go
+++ b/path.go
@@ -144,24 +144,10 @@ func (p *Path) Append(path ...PathElement) *Path {
 // AppendPath can append a single node or a path to the callers path.
 // If the caller does not contain a path, the passed path is copied into the receiver
 func (p *Path) AppendPath(path *Path) *Path {
-	switch p.NumNodes() {
-	case 0:
-		p.path = make([]PathElement, len(path.path))
-		copy(p.path, path.path)
-		return p
-	case 1:
-		if p.only != nil {
-			p.only = nil
-		}
-	default:
-		switch path.NumNodes() {
-		case 0:
-			return p
-		case 1:
-			if path.only != nil {
-				path.only = nil
-			}
-		}
+	if p.NumNodes() == 0 {
+		p.only = path.only
+	} else if path.only != nil && path.only != p.Last() {
+		panic("Appended path is disconnected from path")
 	}
 	return p.Append(path.path...)
 }
-- 
2.43.0


From 424af10bb2a253c58a73b37186dfdb045fdbc745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:18 +0000
Subject: [PATCH 19/27] fix: match paths contain all edges of relationships
 matched backwards, once

---
 pattern.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pattern.go b/pattern.go
index 339168d..a1e676b 100644
--- a/pattern.go
+++ b/pattern.go
@@ -557,10 +557,11 @@ func (plan MatchPlan) GetCurrentPath() *Path {
 		}
 	}
 	revPathOut := &Path{}
-	for i := len(plan.steps) - 1; i >= plan.nForward; i-- {
+	for i := len(plan.steps) - 1; i > plan.nForward; i-- {
 		if path, ok := plan.steps[i].GetResult().(*Path); ok {
-			revPathOut.Append(PathElement{Edge: path.path[0].Edge, Reverse: !path.path[0].Reverse})
-			// revPathOut.AppendPath(path)
+			for j := len(path.path) - 1; j >= 0; j-- {
+				revPathOut.Append(PathElement{Edge: path.path[j].Edge, Reverse: !path.path[j].Reverse})
+			}
 		}
 	}
 	return revPathOut.AppendPath(out)
-- 
2.43.0


From 2ed4dcc21796207cd41f37caafa776f2d46822fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:19 +0000
Subject: [PATCH 20/27] fix: a search starting from an edge orients it by its
 pattern item, and never starts from an undirected one

---
 pattern.go        | 3 ++-
 planprocessors.go | 6 +-----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/pattern.go b/pattern.go
index a1e676b..fec724e 100644
--- a/pattern.go
+++ b/pattern.go
@@ -174,7 +174,8 @@ func (p PatternItem) estimateEdgeSize(g *Graph, symbols map[string]*PatternSymbo
 		return ret, max
 	}
 
-	if p.Min > 1 || p.Max > 1 || p.Min == -1 || p.Max == -1 {
+	// A variable length or undirected relationship cannot be the starting element
+	if p.Undirected || p.Min > 1 || p.Max > 1 || p.Min == -1 || p.Max == -1 {
 		return g.GetEdges(), -1
 	}
 
diff --git a/planprocessors.go b/planprocessors.go
index f9b2994..520f7c9 100644
--- a/planprocessors.go
+++ b/planprocessors.go
@@ -100,11 +100,7 @@ func (processor *iterateEdges) init(ctx *MatchContext) {
 func (processor *iterateEdges) Run(ctx *MatchContext, next matchAccumulator) error {
 	processor.init(ctx)
 	for processor.itr.Next() {
-		path := &Path{path: []PathElement{{Edge: processor.itr.Edge()}}}
-		// TODO: find edge dir
-		// if  {
-		// 	path.path[0].Reverse = true
-		// }
+		path := &Path{path: []PathElement{{Edge: processor.itr.Edge(), Reverse: processor.patternItem.ToLeft}}}
 		processor.result = path
 		ctx.recordStepResult(processor)
 		if err := next.Run(ctx); err != nil {
-- 
2.43.0


From bb897ef364fa33d06966a87a025f725bfe2cc17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:29 +0000
Subject: [PATCH 21/27] fix: edge variables bound by the caller or earlier in
 the pattern constrain the edges matched

---
 planprocessors.go | 38 ++++++++++++++++++++++++++++++++------
 sets.go           |  4 ++++
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/planprocessors.go b/planprocessors.go
index 520f7c9..5e01ca6 100644
--- a/planprocessors.go
+++ b/planprocessors.go
@@ -82,9 +82,8 @@ type iterateEdges struct {
 	initialized bool
 }
 
-func (processor *iterateEdges) init(ctx *MatchContext) {
+func (processor *iterateEdges) init(ctx *MatchContext) error {
 	if !processor.initialized {
-		processor.initialized = true
 		filterFunc := processor.patternItem.getEdgeFilter()
 		processor.itr = edgeIterator{
 			&filterIterator{
@@ -94,11 +93,29 @@ func (processor *iterateEdges) init(ctx *MatchContext) {
 				},
 			},
 		}
+		edges, err := processor.patternItem.isConstrainedEdges(ctx)
+		if err != nil {
+			return err
+		}
+		if edges != nil {
+			processor.itr = edgeIterator{
+				&filterIterator{
+					itr: processor.itr,
+					filter: func(edge interface{}) bool {
+						return edges.Has(edge.(*Edge))
+					},
+				},
+			}
+		}
+		processor.initialized = true
 	}
+	return nil
 }
 
 func (processor *iterateEdges) Run(ctx *MatchContext, next matchAccumulator) error {
-	processor.init(ctx)
+	if err := processor.init(ctx); err != nil {
+		return err
+	}
 	for processor.itr.Next() {
 		path := &Path{path: []PathElement{{Edge: processor.itr.Edge(), Reverse: processor.patternItem.ToLeft}}}
 		processor.result = path
@@ -140,11 +157,21 @@ func (processor *iterateConnectedEdges) init(ctx *MatchContext) {
 
 func (processor *iterateConnectedEdges) Run(ctx *MatchContext, next matchAccumulator) error {
 	node := processor.source.GetResult().(*Node)
+	edgeFilter := processor.edgeFilter
+	constraints, err := processor.patternItem.isConstrainedEdges(ctx)
+	if err != nil {
+		return err
+	}
+	if constraints != nil {
+		edgeFilter = func(edge *Edge) bool {
+			return constraints.Has(edge) && processor.edgeFilter(edge)
+		}
+	}
 	processor.edgeItr = edgeIterator{
 		&filterIterator{
 			itr: node.GetEdgesWithAnyLabel(processor.dir, processor.patternItem.Labels),
 			filter: func(item interface{}) bool {
-				return processor.edgeFilter(item.(*Edge))
+				return edgeFilter(item.(*Edge))
 			},
 		},
 	}
@@ -171,8 +198,7 @@ func (processor *iterateConnectedEdges) Run(ctx *MatchContext, next matchAccumul
 		return nil
 	}
 	logf("IterateConnectedEdges min=%d max=%d %+v\n", processor.patternItem.Min, processor.patternItem.Max, processor.result)
-	var err error
-	CollectAllPaths(ctx.Graph, node, processor.edgeItr, processor.edgeFilter, processor.dir, processor.patternItem.Min, processor.patternItem.Max, func(path *Path) bool {
+	CollectAllPaths(ctx.Graph, node, processor.edgeItr, edgeFilter, processor.dir, processor.patternItem.Min, processor.patternItem.Max, func(path *Path) bool {
 		processor.result = path
 		logf("IterateConnectedEdges testing len=%d %+v\n", len(path.path), processor.result)
 		ctx.recordStepResult(processor)
diff --git a/sets.go b/sets.go
index 21d2c93..a929148 100644
--- a/sets.go
+++ b/sets.go
@@ -132,6 +132,10 @@ func (set EdgeSet) Remove(edge *Edge) {
 	set.set.remove(edge.id)
 }
 
+func (set EdgeSet) Has(edge *Edge) bool {
+	return set.set.has(edge.id)
+}
+
 func (set EdgeSet) Len() int {
 	return set.set.size()
 }
-- 
2.43.0


From 48db6281939b2a68f5932f1da08c035ec96b4a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 22/27] fix: a repeated pattern variable stays bound until the
 step that bound it moves on

---
 pattern.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pattern.go b/pattern.go
index fec724e..15e09d6 100644
--- a/pattern.go
+++ b/pattern.go
@@ -301,6 +301,9 @@ type MatchContext struct {
 	// localSymbols are symbols defined in the pattern.
 	LocalSymbols map[string]*PatternSymbol
 
+	// The steps that bound the local symbols
+	localSymbolSteps map[string]planProcessor
+
 	variablePathNode *Node
 }
 
@@ -313,9 +316,14 @@ func (ctx *MatchContext) recordStepResult(step planProcessor) {
 	if _, global := ctx.Symbols[name]; global {
 		return
 	}
+	if _, bound := ctx.LocalSymbols[name]; bound {
+		// Bound by an earlier step, which constrains this step
+		return
+	}
 	result := &PatternSymbol{}
 	result.Add(step.GetResult())
 	ctx.LocalSymbols[name] = result
+	ctx.localSymbolSteps[name] = step
 }
 
 // resetStepResult will remove the step's local symbol from the context
@@ -327,7 +335,12 @@ func (ctx *MatchContext) resetStepResult(step planProcessor) {
 	if _, global := ctx.Symbols[name]; global {
 		return
 	}
+	if ctx.localSymbolSteps[name] != step {
+		// Not bound by this step
+		return
+	}
 	delete(ctx.LocalSymbols, name)
+	delete(ctx.localSymbolSteps, name)
 }
 
 func (pattern Pattern) Run(graph *Graph, symbols map[string]*PatternSymbol, result MatchAccumulator) error {
@@ -632,6 +645,8 @@ func (plan MatchPlan) Run(graph *Graph, symbols map[string]*PatternSymbol, resul
 		Graph:        graph,
 		Symbols:      symbols,
 		LocalSymbols: make(map[string]*PatternSymbol),
+
+		localSymbolSteps: make(map[string]planProcessor),
 	}
 
 	res := resultAccumulator{acc: result, plan: plan}
-- 
2.43.0


From efce4c87e43b00a9643a0d8f0900f45e646c4fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 23/27] fix: nodes reachable in any direction are the far ends
 of incoming edges too

---
 cursor.go | 4 ++--
 itr.go    | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/cursor.go b/cursor.go
index b906c02..13f727e 100644
--- a/cursor.go
+++ b/cursor.go
@@ -84,7 +84,7 @@ func (c *Cursor) Nodes(dir EdgeDir) NodeIterator {
 	if c.node == nil {
 		return &nodeIterator{emptyIterator{}}
 	}
-	return newNodesFromEdges(c.node.GetEdges(dir), dir)
+	return newNodesFromEdges(c.node, c.node.GetEdges(dir), dir)
 }
 
 // NodesWith returns an iterator over the nodes that are reachable by
@@ -94,7 +94,7 @@ func (c *Cursor) NodesWith(dir EdgeDir, label string) NodeIterator {
 	if c.node == nil {
 		return &nodeIterator{emptyIterator{}}
 	}
-	return newNodesFromEdges(c.node.GetEdgesWithLabel(dir, label), dir)
+	return newNodesFromEdges(c.node, c.node.GetEdgesWithLabel(dir, label), dir)
 }
 
 // Forward returns an edge iterator for outgoing edges of the current
diff --git a/itr.go b/itr.go
index 66d2b9e..35d6232 100644
--- a/itr.go
+++ b/itr.go
@@ -261,13 +261,16 @@ func (l *listIterator) MaxSize() int { return l.size }
 
 // nodesFromEdgesIterator iterates the nodes of an edge iterator
 type nodesFromEdgesIterator struct {
+	// The node whose edges are iterated
+	node *Node
 	dir  EdgeDir
 	itr  EdgeIterator
 	seen map[int]struct{}
 }
 
-func newNodesFromEdges(itr EdgeIterator, dir EdgeDir) NodeIterator {
+func newNodesFromEdges(node *Node, itr EdgeIterator, dir EdgeDir) NodeIterator {
 	return &nodesFromEdgesIterator{
+		node: node,
 		dir:  dir,
 		itr:  itr,
 		seen: make(map[int]struct{}),
@@ -292,7 +295,7 @@ func (i *nodesFromEdgesIterator) Value() interface{} { return i.Node() }
 
 func (i *nodesFromEdgesIterator) Node() *Node {
 	e := i.itr.Edge()
-	if i.dir == IncomingEdge {
+	if i.dir == IncomingEdge || (i.dir == AnyEdge && e.GetTo() == i.node) {
 		return e.GetFrom()
 	}
 	return e.GetTo()
-- 
2.43.0


From d902b6cffdb5cf208fc705b506227ba70451e078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 24/27] fix: isomorphism maps distinct nodes and edges to
 distinct nodes and edges

---
 alg.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/alg.go b/alg.go
index 5bc333c..0791015 100644
--- a/alg.go
+++ b/alg.go
@@ -133,6 +133,14 @@ func CheckIsomorphism(ctx context.Context, g1, g2 *Graph, nodeEquivalenceFunc fu
 	}
 
 	isIsomorphism := func(nodeMapping map[*Node]*Node) bool {
+		// Distinct nodes must be mapped to distinct nodes
+		mapped := make(map[*Node]struct{}, len(nodeMapping))
+		for _, node2 := range nodeMapping {
+			if _, exists := mapped[node2]; exists {
+				return false
+			}
+			mapped[node2] = struct{}{}
+		}
 		for node1, node2 := range nodeMapping {
 			// node1 and node2 are equivalent. Now we check if equivalent edges go to equivalent nodes
 			edges1 := EdgeSlice(node1.GetEdges(OutgoingEdge))
@@ -142,12 +150,18 @@ func CheckIsomorphism(ctx context.Context, g1, g2 *Graph, nodeEquivalenceFunc fu
 				return false
 			}
 
+			// Distinct edges must be matched with distinct edges
+			matched := make(map[*Edge]struct{}, len(edges2))
 			for _, edge1 := range edges1 {
 				found := false
 				for _, edge2 := range edges2 {
+					if _, exists := matched[edge2]; exists {
+						continue
+					}
 					// edge1.Edge.GetTo()
 					if nodeMapping[edge1.GetTo()] == edge2.GetTo() &&
 						edgeEquivalenceFunc(edge1, edge2) {
+						matched[edge2] = struct{}{}
 						found = true
 						break
 					}
-- 
2.43.0


From 14f2806befd6f162772bfcf9081ad4b63f6d7749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:17 +0000
Subject: [PATCH 25/27] fix: decode properties with an empty key

Without a PropertyUnmarshaler a property whose key is empty is an
ordinary property: it is written by Encode, but was dropped by Decode.
---
 json.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/json.go b/json.go
index 77eae4f..3f22f1c 100644
--- a/json.go
+++ b/json.go
@@ -414,7 +414,8 @@ func (j JSON) unmarshalProperties(input map[string]json.RawMessage) (map[string]
 		if err != nil {
 			return nil, err
 		}
-		if len(k) > 0 {
+		// Only a PropertyUnmarshaler can skip a property by returning an empty key
+		if len(k) > 0 || j.PropertyUnmarshaler == nil {
 			k = j.Interner.Intern(k)
 			ret[k] = v
 		}
-- 
2.43.0


From aae6fb777e8fda95155920f266f11d1620edde6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:17 +0000
Subject: [PATCH 26/27] fix: paths made from the same elements do not share
 storage

---
 path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/path.go b/path.go
index 833f81a..58b124d 100644
--- a/path.go
+++ b/path.go
@@ -31,7 +31,7 @@ type PathElement struct {
 }
 
 func NewPathFromElements(elements ...PathElement) *Path {
-	return &Path{path: elements}
+	return &Path{path: append([]PathElement(nil), elements...)}
 }
 
 func NewPathElementsFromEdges(edges []*Edge) []PathElement {
-- 
2.43.0


From a458226036c7d1f84003a1e2d1f14042d58016ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:30 +0000
Subject: [PATCH 27/27] fix: do not use the end of a variable length edge for
 the node before a single edge

---
 planprocessors.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/planprocessors.go b/planprocessors.go
index 5e01ca6..7af89af 100644
--- a/planprocessors.go
+++ b/planprocessors.go
@@ -188,6 +188,8 @@ func (processor *iterateConnectedEdges) Run(ctx *MatchContext, next matchAccumul
 				path.path[0].Reverse = true
 			}
 			processor.result = path
+			// This may follow the last step of a pattern ending with a variable length edge
+			ctx.variablePathNode = nil
 			ctx.recordStepResult(processor)
 			logf("IterateConnectedEdges len=1 %+v\n", processor.result)
 			if err := next.Run(ctx); err != nil {
-- 
2.43.0

