#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, obs=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs: a["observe_at"] = obs
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

H = ["histories"]; I = ["inputs"]; HI = ["histories", "inputs"]

p("C01", "Node registry is exact",
  "After any sequence of node creations and removals, by whatever API, enumerating a graph's nodes yields every node that was created in it and not removed, each exactly once and no other, and the node count equals the number enumerated. This holds wherever the removed node stood in the enumeration (first, middle, last, only).",
  H, "all interleavings of NewNode/FastNewNode/copy/decode and DetachAndRemove, every position of the removed node",
  "TestGraphCRUD removes one middle node of ten; the list-position cases and creation-after-removal histories are never sampled.",
  ["list.go", "graph.go"],
  [("doubly linked node list insert/unlink", "list.go nodeList.add/remove"), ("registration on creation", "graph.go addNode, FastNewNode, cloneNode"), ("removal", "graph.go detachRemoveNode")],
  [("allNodes", "list of live nodes and its counter", "graph.go Graph")], ["Graph.GetNodes", "Graph.NumNodes"])

p("C02", "Edge registry and adjacency agree",
  "At all times an edge is listed among its graph's edges if and only if it is listed among the outgoing edges of its source node and among the incoming edges of its target node, exactly once in each, and the edge count equals the number listed. This holds for self-loops, parallel edges, and for every number of edges and labels a node or graph has.",
  H, "all histories of edge creation, relabeling, removal, node detachment; all label multiplicities including 0, 1 and 2 edges",
  "The tests only build fixed line/circle graphs and never compare the three listings after removals.",
  ["edgemap.go", "list.go", "graph.go", "edge.go", "node.go"],
  [("edge lists per label with single-edge shortcut", "edgemap.go edgeMap.add/remove"), ("intrusive lists, one slot per listing", "list.go edgeList.add/remove"), ("connect/disconnect", "graph.go")],
  [("allEdges/incoming/outgoing", "three label-keyed edge maps", "graph.go Graph, node.go Node")], ["Graph.GetEdges", "Graph.NumEdges", "Node.GetEdges"])

p("C03", "Edge label lookups follow relabeling",
  "Looking up edges by label, on a graph or at a node in either direction, yields exactly the listed edges whose current label is one of the requested labels; changing an edge's label moves it, in every such lookup at once, from the old label to the new one without losing, duplicating or corrupting any edge.",
  HI, "all sequences of SetLabel, creation and removal; all old/new label pairs, including labels shared with other edges",
  "No test calls Edge.SetLabel at all.",
  ["edgemap.go", "graph.go", "edge.go"],
  [("label store only while unlisted", "graph.go setEdgeLabel"), ("label-keyed lookups", "edgemap.go iteratorLabel/iteratorAnyLabel")],
  None, ["Graph.GetEdgesWithAnyLabel", "Node.GetEdgesWithLabel", "Node.GetEdgesWithAnyLabel", "Edge.SetLabel"])

p("C04", "Node label lookups follow label changes",
  "The label index holds every node of the graph under exactly its current labels, and unlabeled nodes as unlabeled: creating, relabeling (to any set, including from or to the empty set) and removing nodes keeps lookups by label equal to a scan over all nodes, with no node reported twice.",
  HI, "all sequences of node creation, SetLabels with any old/new label sets, and removal",
  "Tests relabel a few nodes from one non-empty set to another and never check the index afterwards.",
  ["maps.go", "sets.go", "graph.go"],
  [("per-label sets plus an unlabeled set", "maps.go NodeMap.Add/Remove/Replace"), ("label store and index update together", "graph.go setNodeLabels"), ("id-keyed ordered set", "sets.go fastSet")],
  [("nodesByLabel", "label to node-set map", "indexes.go graphIndex")], ["Graph.GetNodesWithAllLabels", "NodeMap.Iterator"])

p("C05", "Property indexes mirror property values",
  "An index on a node or edge property always associates each live element with exactly its current value of that property, whichever of index and property was created first and whether it is a B-tree or hash index: setting, overwriting and removing a property, and creating and copying elements, all keep it in step. Adding an index never changes which elements a lookup by that property returns.",
  HI, "all histories of property writes, element creation and index creation; both index types; wrapped (native-value) and plain values",
  "Two tests create an index before inserting nodes and never update, overwrite or remove an indexed value; edge indexes are untested.",
  ["graph.go", "indexes.go", "hashindex.go", "btreeindex.go", "properties.go"],
  [("remove-old/add-new around every property write", "graph.go setNodeProperty/setEdgeProperty/remove*Property"), ("backfill on index creation", "indexes.go NodePropertyIndex/EdgePropertyIndex"), ("index implementations", "hashindex.go, btreeindex.go")],
  [("nodeProperties/edgeProperties", "property name to index", "indexes.go graphIndex")], ["Graph.GetNodesWithProperty", "Graph.GetEdgesWithProperty", "Graph.FindNodes", "Graph.FindEdges"])

p("C06", "Removal leaves no trace",
  "Once an edge is removed, or a node is detached or removed, no enumeration, adjacency listing, label lookup, property lookup or pattern search of the graph reports the removed element, and removing a node removes all of its edges, in both directions, from the graph and from the nodes at their other ends. Nothing else is removed.",
  H, "all graphs (self-loops, parallel edges, any label mix), any indexes present, any removal order",
  "One test removes one node and counts nodes; edges, indexes and neighbours are never inspected.",
  ["graph.go", "node.go", "edge.go", "indexes.go"],
  [("edge removal from all listings and indexes", "graph.go removeEdge"), ("detaching over a snapshot of both directions", "graph.go detachNode/detachRemoveNode")],
  None, ["Edge.Remove", "Node.Detach", "Node.DetachAndRemove"])

p("C07", "Find queries return exactly the matching elements",
  "Finding nodes or edges by labels and property values, by label sets, or by the presence of a property returns exactly the elements of the graph that satisfy the request, with the same result set whichever indexes exist and whichever access path is chosen. An empty label set or property map imposes no restriction.",
  ["inputs", "configurations", "histories"], "all graphs, all label sets and property maps including empty ones, all combinations of indexes",
  "FindNodes and FindEdges are not called by any test; index-backed lookups are tested for one value.",
  ["graph.go", "indexes.go", "maps.go"],
  [("candidate selection plus full filter", "graph.go FindNodes/FindEdges"), ("scan fallback", "graph.go GetNodesWithProperty/GetEdgesWithProperty"), ("smallest label set plus filter", "maps.go IteratorAllLabels")],
  None, ["Graph.FindNodes", "Graph.FindEdges", "Graph.GetNodesWithAllLabels", "Graph.GetNodesWithProperty", "Graph.GetEdgesWithProperty"])

p("C08", "Match filters decide labels and properties exactly",
  "The node filter accepts a node if and only if the node has all requested labels and every requested property compares equal to the node's value, a requested nil value also accepting nodes without that property; the edge filter does the same with an edge carrying any one of the requested labels. Incomparable values mean no match, never a crash.",
  I, "all label sets, property maps and element contents",
  "Filters are only exercised through a few patterns with one string property.",
  ["graph.go"], [("filter closures", "graph.go GetNodeFilterFunc/GetEdgeFilterFunc")], None, ["GetNodeFilterFunc", "GetEdgeFilterFunc"])

p("C09", "Edges never cross graphs",
  "Creating or copying an edge whose source or target node belongs to another graph panics and leaves every graph unchanged; an edge that exists therefore always connects two nodes of the one graph that lists it.",
  HI, "all ways to create an edge and all pairs of endpoint nodes",
  "No test passes a foreign node.",
  ["graph.go", "clone.go"], [("endpoint guards before any update", "graph.go FastNewEdge, cloneEdge")], None, ["Graph.NewEdge", "Graph.FastNewEdge", "CopyEdge", "CloneEdge"])

p("C10", "Element identifiers are unique in a graph",
  "Every node and every edge a graph ever creates receives an identifier that no other node or edge of that graph has had, fixed for the element's lifetime, whichever API created it.",
  H, "all creation histories through every creation API, including after removals",
  "No test looks at identifiers.",
  ["graph.go"], [("id counter", "graph.go idBase in FastNewNode, FastNewEdge, cloneNode, cloneEdge")], [("idBase", "next identifier", "graph.go Graph")], ["Node.GetID", "Edge.GetID"])

p("C11", "Caller-supplied data is isolated",
  "The copying constructors for nodes and edges take their own copy of labels and properties, so later changes by the caller to what it passed in do not reach the graph; and a label set obtained from, or given to, the library is a value: adding to or removing from one set never changes any other set or the labels of any node.",
  HI, "all labels/properties arguments and every later mutation of them or of returned sets through their methods",
  "No test mutates an argument or a returned label set.",
  ["graph.go", "stringset.go", "node.go"], [("copy in NewNode/NewEdge", "graph.go"), ("copy-on-write set operations", "stringset.go Add/AddSet/Remove")], None, ["Graph.NewNode", "Graph.NewEdge", "Node.GetLabels", "StringSet.Add", "StringSet.Remove"])

p("C12", "Read operations never modify a graph",
  "Queries, traversals, cursors, path operations other than removing a path's first edge, pattern searches, filters, isomorphism checks, JSON encoding, DOT rendering and copying out of a graph leave that graph completely unchanged: its elements, labels, properties, adjacency, indexes and identifiers.",
  HI, "every read entry point, every graph and argument",
  "Tests inspect results of reads, never that the graph is unchanged after them.",
  ["*.go"], [("writes to graph state confined to mutators", "graph.go set*/remove*/add*/connect/disconnect/detach*")], None, ["every exported function"])

p("C13", "Graphs share no mutable state",
  "Operations on one graph have no effect on any other graph that was not passed to them: the library keeps no package-level state that changes after initialisation, and starts no background activity.",
  ["histories", "schedules"], "all programs using several graphs, from one or several goroutines",
  "Tests never run two graphs side by side.",
  ["*.go"], [("state reachable only from Graph values", "graph.go NewGraph, indexes.go newGraphIndex")], None, ["package-level variables"])

p("C14", "Iterators deliver each element exactly once",
  "Every iterator the library returns delivers each element of the collection it stands for exactly once, then reports exhaustion, and its current element is the one it last moved to; filtering, concatenating, mapping and de-duplicating iterators drop or repeat nothing beyond what their definition says.",
  I, "all underlying collections, including empty and single-element ones, and all nestings",
  "Iterators are exercised over small non-empty collections only.",
  ["itr.go", "list.go", "edgemap.go", "maps.go", "btreeindex.go"],
  [("iterator Next/Value implementations", "itr.go, list.go, edgemap.go, maps.go")], None, ["Iterator.Next", "Iterator.Value", "NodeSlice", "EdgeSlice"])

p("C15", "Iterator size estimates are sound",
  "An iterator's size estimate is either -1, meaning unknown, or an upper bound on the number of elements it will deliver; combining iterators never turns an unknown size into a number.",
  I, "all iterators the API can return on all graphs",
  "Tests compare the estimate with the true size for one index lookup.",
  ["itr.go", "node.go", "edgemap.go", "maps.go", "indexes.go"], [("size propagation", "itr.go withSize, MaxSize methods; node.go GetEdges*")], None, ["Iterator.MaxSize"])

p("C16", "Errors are never lost",
  "If writing output, marshaling or unmarshaling a value, reading input, a user-supplied callback or a pattern step reports an error, the enclosing encode, decode, render or pattern operation returns a non-nil error and does not report success.",
  ["fault_sequences", "inputs"], "every write, read, callback and step at which a failure can occur",
  "No test injects a failing writer, value, callback or step.",
  ["json.go", "dotrenderer.go", "pattern.go", "planprocessors.go", "stringset.go"], [("error checks after each fallible call", "json.go, dotrenderer.go, pattern.go, planprocessors.go")], None, ["JSON.Encode", "JSON.Decode", "DOTRenderer.Render", "Pattern.Run"])

p("C17", "Encoded JSON is always well-formed",
  "When encoding succeeds the bytes written form exactly one syntactically valid JSON object, for every graph (including empty graphs, nodes without labels, properties or edges) and both ways of placing the edges.",
  ["inputs", "configurations"], "all graphs, both edge placement modes, all property marshalers returning valid values",
  "TestEncode covers the empty graph and a two-node graph in one placement mode.",
  ["json.go"], [("hand-written token emission", "json.go JSON.Encode")], None, ["JSON.Encode"])

p("C18", "JSON encoding and decoding cover the same content",
  "Everything the documented JSON form can express about a graph is written by encoding and restored by decoding under the same, documented, names: each node's index, labels, properties and outgoing edges, and each edge's source, target, label and properties, with edges placed either way; nothing is written under one name and read under another, left out, or attached to a different element; a property is left out exactly when the property marshaler or unmarshaler in use answers an empty key for it.",
  ["inputs", "configurations"], "all graphs and both edge placement modes",
  "TestEncode decodes one two-node graph and only checks that there is no error.",
  ["json.go"], [("field tables and key constants", "json.go jsonNode/jsonEdge/jsonOutgoingEdge, *Key variables, encodeEdge, addNode, addEdge")], None, ["JSON.Encode", "JSON.Decode"])

p("C19", "JSON decoding resolves every reference or fails",
  "Decoding creates every edge of the input between the nodes its indexes name, whether the nodes appear before or after the edge and whether edges are embedded or listed separately; an edge naming a node that never appears makes decoding fail; unknown keys, with any value, are ignored.",
  I, "all inputs: every order of nodes, edges and unknown members",
  "Tests decode two well-ordered files without forward references errors or unknown keys.",
  ["json.go"], [("node index map and deferred edge queue", "json.go Decode/addNode/addEdge")], None, ["JSON.Decode"])

p("C20", "DOT output names only rendered nodes and quotes labels",
  "Rendering in DOT form offers every node and then every edge to its renderer, renders an edge only when both of its end nodes were rendered and with the identifiers and direction they were rendered with, gives distinct nodes distinct identifiers, and writes edge labels so that no label text can end or break the quoted string.",
  I, "all graphs, all label strings, all node/edge renderer decisions",
  "The DOT renderer has no test.",
  ["dotrenderer.go"], [("node id map", "dotrenderer.go RenderNodesEdges"), ("label quoting", "dotrenderer.go DefaultDOTEdgeRender")], None, ["DOTRenderer.Render", "DefaultDOTEdgeRender"])

p("C21", "Pattern matches satisfy every item of the pattern",
  "Whatever element the search starts from, every match a pattern search reports consists of nodes and edges that each satisfy the labels, properties and, where the item names a bound variable, the bound set of their own pattern item.",
  ["inputs", "configurations"], "all graphs, patterns, symbol bindings and index configurations (which determine the starting element)",
  "Pattern tests check counts on line and circle graphs; bound edge variables and edge-first plans are not covered.",
  ["pattern.go", "planprocessors.go"], [("per-step filters and constraints", "planprocessors.go iterateNodes/iterateEdges/iterateConnectedEdges/iterateConnectedNodes"), ("constraint lookup", "pattern.go isConstrainedNodes/isConstrainedEdges")], None, ["Pattern.Run", "Pattern.FindNodes", "Pattern.FindPaths"])

p("C22", "Pattern variables keep their binding while in scope",
  "A variable that occurs several times in a pattern stands for the same element in all of its occurrences of a match: from the moment a step binds it until that step moves on, no later step rebinds or unbinds it, and once the step moves on the binding is gone; variables supplied by the caller are never changed.",
  ["inputs", "histories"], "all patterns with repeated variables, all search orders and backtracking histories",
  "TestLoopPattern repeats a caller-bound variable only, so pattern-local rebinding during backtracking is never observed.",
  ["pattern.go", "planprocessors.go"], [("record/reset around each step", "pattern.go recordStepResult/resetStepResult"), ("constraint lookup", "pattern.go isConstrained*")], [("LocalSymbols", "pattern-local bindings", "pattern.go MatchContext")], ["Pattern.Run"])

p("C23", "Pattern search follows edge directions",
  "A relationship written left to right, right to left or undirected is matched only by edges running in that direction between the matches of its neighbouring node items, whichever item of the pattern the search starts from and in whichever order it visits the others.",
  ["inputs", "configurations"], "all patterns with all direction combinations, every starting element",
  "Tests cover left-to-right and undirected relationships starting from a node; edge-first starts and right-to-left relationships are barely sampled.",
  ["pattern.go", "planprocessors.go"], [("direction tables", "pattern.go GetPlan"), ("endpoint selection", "planprocessors.go iterateConnectedNodes.Run")], None, ["Pattern.GetPlan", "Pattern.Run"])

p("C24", "Reported match paths run from first to last item",
  "The path reported for a match contains every edge of every relationship of the match, in pattern order from the first node item to the last, each oriented so that consecutive edges meet, whichever element the search started from; reported paths and symbol values do not change as the search continues. The head and tail nodes given for a search are the first and last nodes of its recorded paths, each once.",
  ["inputs", "configurations"], "all patterns including variable-length relationships, every starting element",
  "Tests that look at paths start at the first item, so reversed assembly of multi-edge paths is not exercised.",
  ["pattern.go", "planprocessors.go", "path.go"], [("path assembly", "pattern.go MatchPlan.GetCurrentPath/CaptureSymbolValues")], None, ["DefaultMatchAccumulator", "MatchAccumulator.StoreResult"])

p("C25", "Variable-length expansion respects its bounds",
  "Variable-length expansion reports only paths that start at the given node, follow the given direction, use only edges accepted by the edge filter, never repeat an edge, and have a length between the minimum and the maximum (-1 meaning unbounded); each reported path is an independent copy, and expansion stops as soon as the receiver asks it to.",
  I, "all graphs (cycles, self-loops), directions, filters and bounds",
  "TestCollectAllPaths checks nothing about its results.",
  ["vpathitr.go"], [("recursive expansion", "vpathitr.go CollectAllPaths")], None, ["CollectAllPaths"])

p("C26", "Path operations keep paths connected and independent",
  "Appending to, cloning, slicing or shortening a path changes only the path it is called on, never the arguments, other paths or the graph (removing a path's first edge being the documented exception for the graph); appending disconnected elements to a non-empty path is refused; removing the last edge of a one-edge path leaves its first node, and a cursor that pops its path moves back to the previous node.",
  HI, "all paths (empty, single-node, any length, reversed elements) and all operation sequences",
  "Path tests only append empty paths and slice once from the start.",
  ["path.go", "cursor.go"], [("path operations", "path.go Append/AppendPath/Clone/Slice/RemoveLast"), ("cursor stack", "cursor.go PushToPath/PopFromPath")], None, ["Path", "Cursor"])

p("C27", "Property comparison is a consistent order",
  "For every pair of supported property values (integers, strings, lists of them, mixed lists, and values wrapping them) comparison yields -1, 0 or 1, comparing a with b is always the opposite of comparing b with a, equal values compare as 0, lists compare element by element and then by length, and an unsupported combination panics in both orders alike.",
  I, "all pairs of values of the documented types, including wrapped values and lists of different lengths",
  "No test calls the comparison directly; indexes are tested with equal-length digit strings.",
  ["properties.go"], [("type switch", "properties.go ComparePropertyValue")], None, ["ComparePropertyValue"])

p("C28", "Isomorphism is only reported for one-to-one mappings",
  "The isomorphism check answers true only if the graphs have the same number of nodes and of edges and a mapping that takes distinct nodes to distinct equivalent nodes also matches distinct edges of each node with distinct equivalent edges between the mapped nodes; if its context is cancelled it returns the context's error instead of continuing the search.",
  ["inputs", "schedules"], "all pairs of graphs and equivalence functions; cancellation at any point between candidate mappings",
  "TestClone compares a graph only with its own copy, with all nodes distinguishable.",
  ["alg.go"], [("candidate enumeration and check", "alg.go CheckIsomorphism")], None, ["CheckIsomorphism"])

p("C29", "Traversal helpers look in the direction they name",
  "Every traversal helper (cursor moves, next/previous nodes, sources and sinks, edges between nodes, source/target collection, edge listings by direction) reports exactly the edges in the direction it names and, each once, the nodes at the far end of them, both directions together meaning incoming plus outgoing, and a cursor without a node reports nothing.",
  I, "all helpers, directions and nodes, including nodes with edges in both directions and self-loops",
  "One test follows one outgoing edge through a cursor.",
  ["cursor.go", "node.go", "itr.go", "alg.go"], [("direction arguments and far-end selection", "cursor.go, itr.go nodesFromEdgesIterator, node.go GetEdges*, alg.go")], None, ["Cursor", "NextNodesWith", "PrevNodesWith", "Sources", "Sinks", "EdgesBetweenNodes"])

p("C30", "Copies are complete, faithful and separate",
  "Copying a graph or the part reachable from a node creates in the target one node per copied node with the same labels and, for every edge whose two ends are copied, one edge with the same label between the corresponding copies; every property passes through the caller's clone function, the copies share no mutable containers with the originals, and the source is not changed.",
  I, "all source graphs (self-loops, cycles, shared descendants, parallel edges) and clone functions",
  "TestClone copies one line graph with one label and compares with an equivalence that is one-sided.",
  ["clone.go", "graph.go", "properties.go"], [("node then edge copying through a node map", "clone.go CopyGraphf/CopySubgraph"), ("cloneNode/cloneEdge", "graph.go")], None, ["CopyGraph", "CopyGraphf", "CopySubgraph", "CopyNode", "CopyEdge", "CloneEdge"])

p("C31", "Queries do not crash on empty requests",
  "Looking up, finding or iterating with an empty label set, no properties, an absent label, property or index, or on an empty graph, returns an iterator (never nil and never a crash) that can be advanced safely.",
  ["inputs", "configurations"], "all query entry points, all combinations of empty and non-empty arguments and of present and absent indexes",
  "Tests always pass non-empty, present labels and properties.",
  ["graph.go", "maps.go", "indexes.go", "edgemap.go", "hashindex.go", "btreeindex.go"], [("nil and empty handling on query paths", "graph.go FindNodes/FindEdges, maps.go IteratorAllLabels, edgemap.go iterator*, hashindex.go/btreeindex.go find/valueItr")], None, ["Graph.FindNodes", "Graph.FindEdges", "Graph.GetNodesWithAllLabels", "Graph.GetEdgesWithAnyLabel"])

# stated, not claimed
p("C32", "Pattern search misses no match",
  "Every assignment of nodes and edges that satisfies a pattern's labels, properties, directions, variable bindings and lengths (of at least one edge per relationship) is reported, whichever item the search starts from: no step skips a candidate, rejects one that satisfies its item, or gives up while candidates are left, and no item of the pattern is left out of the plan.",
  ["inputs", "configurations"], "all graphs, patterns, symbol bindings and index configurations (which determine the starting element and the candidate lists)",
  "Counts are compared on a handful of line and circle graphs with no indexes and without bound edges.",
  ["pattern.go", "planprocessors.go", "vpathitr.go"],
  [("plan construction", "pattern.go Pattern.getPlan"), ("candidate iteration and filtering", "planprocessors.go Run methods, iterateNodes/iterateEdges"), ("candidate sources", "pattern.go estimateNodeSize, estimateEdgeSize"), ("variable length expansion", "vpathitr.go CollectAllPaths")])

p("C33", "Sets and accessors answer exactly what is stored",
  "A node set or edge set (of elements of one graph) has exactly the elements added and not removed since, counts them, and lists each once. A label set's membership tests (has, has any, has all, of labels or of another set) and its sorted listing answer exactly for the labels it holds, and its JSON form is the list of its labels, read back as the same set. Getting a property gives its value and whether it exists. ForEachProperty and ForEachNode call the function once for each property or node until it returns false, and return false exactly then.",
  I, "all sequences of set operations, all label sets, properties and callbacks", "Sets and accessors are exercised only indirectly, on one or two elements.",
  ["sets.go", "stringset.go", "properties.go", "node.go", "edge.go", "alg.go"],
  [("node and edge sets", "sets.go NodeSet, EdgeSet, fastSet"), ("label set queries", "stringset.go Has*, SortedSlice"), ("property accessors", "properties.go getProperty, forEachProperty; node.go, edge.go"), ("node walk", "alg.go ForEachNode")])

p("N01", "Decoding an encoding reproduces the graph",
  "For every graph whose property values survive the chosen property marshalers, decoding the encoded form into an empty graph yields an isomorphic graph with equal labels and properties.",
  I, "all graphs and property values", "One two-node graph is decoded and not compared.",
  ["json.go"], [("Encode/Decode", "json.go")])
p("N02", "Pattern search reports each match once",
  "No assignment of nodes and edges is reported more than once by a pattern search, whichever element it starts from.",
  ["inputs", "configurations"], "all graphs and patterns", "Counts are compared on a handful of line and circle graphs.",
  ["pattern.go", "planprocessors.go", "vpathitr.go"], [("plan execution", "pattern.go, planprocessors.go")])
p("N03", "Isomorphic graphs are recognised",
  "If a one-to-one mapping satisfying both equivalence functions exists and the context is not cancelled, the isomorphism check finds it.",
  I, "all pairs of isomorphic graphs", "One line graph is compared with its copy.",
  ["alg.go"], [("candidate permutation", "alg.go CheckIsomorphism")])
p("N04", "Indexed access is fast",
  "Looking up elements through a label or an indexed property takes time proportional to the result, not to the graph.",
  I, "all graphs with indexes", "Benchmarks are not run and assert nothing.",
  ["graph.go", "indexes.go"], [("index selection", "graph.go, pattern.go estimate*")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
