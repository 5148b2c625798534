From 879033ec2ee1c3268def7b39e6e1e130bdbc5ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:03 +0000
Subject: [PATCH 01/12] fix: keep calls made by other arguments of rewritten
 functions

A call such as sort.Slice(f(), less) was rewritten to less(0, 0), which
removed the call to f from the syntax tree, so capabilities reached only
through f were not reported.  Leave such calls alone.
---
 analyzer/util.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/analyzer/util.go b/analyzer/util.go
index 836da8f..d58c66d 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -283,6 +283,14 @@ func (m *packageFunctionMatcher) match(typeInfo *types.Info, call *ast.CallExpr)
 		// The function call doesn't have enough arguments.
 		return nil
 	}
+	for i, arg := range call.Args {
+		if i != m.functionTypedParameterIndex && mayHaveSideEffects(arg) {
+			// The call may be something like sort.Slice(foo(), bar), which we can't
+			// rewrite to a call to bar because then the analysis would not see the
+			// call to foo.
+			return nil
+		}
+	}
 	return call.Args[m.functionTypedParameterIndex]
 }
 
-- 
2.43.0


From 02a37e4f7ff4b5fcf99a8f1654b8c51a443b40e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:04 +0000
Subject: [PATCH 02/12] fix: report errors reading a capability map

A read error or an over-long line ended parsing early and the rest of the
map was silently dropped.
---
 interesting/interesting.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interesting/interesting.go b/interesting/interesting.go
index 19770be..197c05e 100644
--- a/interesting/interesting.go
+++ b/interesting/interesting.go
@@ -115,6 +115,9 @@ func parseCapabilityMap(source string, r io.Reader) (*Classifier, error) {
 			return nil, fmt.Errorf("%v:%v: unsupported keyword %q", source, line, args[0])
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, fmt.Errorf("%v:%v: %w", source, line+1, err)
+	}
 	return ret, nil
 }
 
-- 
2.43.0


From ec05918ea171c8a29b7225afc57c840f0cb561aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:05 +0000
Subject: [PATCH 03/12] fix: use the classifier's own ignore_edge entries

IncludeCall always consulted the builtin map, so ignore_edge lines in a
custom capability map had no effect, and the builtin ones still applied
when the builtin map was excluded.
---
 interesting/interesting.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interesting/interesting.go b/interesting/interesting.go
index 197c05e..00437bb 100644
--- a/interesting/interesting.go
+++ b/interesting/interesting.go
@@ -186,7 +186,7 @@ func LoadClassifier(source string, r io.Reader, excludeBuiltin bool) (*Classifie
 func (c *Classifier) IncludeCall(edge *callgraph.Edge) bool {
 	caller := edge.Caller.Func.String()
 	callee := edge.Callee.Func.String()
-	_, ok := internalMap.ignoredEdges[[2]string{caller, callee}]
+	_, ok := c.ignoredEdges[[2]string{caller, callee}]
 	return !ok
 }
 
-- 
2.43.0


From 6320a1c45b2847690d38911c3ddef012679fca2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:06 +0000
Subject: [PATCH 04/12] fix: let unanalyzed entries in a custom map override
 builtin ones

A function listed as unanalyzed in a custom capability map kept its
builtin function category.
---
 interesting/interesting.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/interesting/interesting.go b/interesting/interesting.go
index 00437bb..f141668 100644
--- a/interesting/interesting.go
+++ b/interesting/interesting.go
@@ -166,6 +166,11 @@ func LoadClassifier(source string, r io.Reader, excludeBuiltin bool) (*Classifie
 	ret := newClassifier()
 	// Merge.
 	cc := func(dst, src *Classifier) {
+		for name := range src.unanalyzedCategory {
+			// A function entry takes precedence over an unanalyzed entry, so remove
+			// the one that src overrides.
+			delete(dst.functionCategory, name)
+		}
 		maps.Copy(dst.functionCategory, src.functionCategory)
 		maps.Copy(dst.unanalyzedCategory, src.unanalyzedCategory)
 		maps.Copy(dst.packageCategory, src.packageCategory)
-- 
2.43.0


From c859e4dcb5214432b23eca8074b0b571dc1ac4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:07 +0000
Subject: [PATCH 05/12] fix: exclude all unanalyzed classifications when asked
 to

Function and package entries whose capability is CAPABILITY_UNANALYZED,
such as the builtin one for mime/multipart.readMIMEHeader, were kept.
---
 interesting/interesting.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/interesting/interesting.go b/interesting/interesting.go
index f141668..f70f145 100644
--- a/interesting/interesting.go
+++ b/interesting/interesting.go
@@ -144,6 +144,13 @@ func DefaultClassifier() *Classifier {
 func ClassifierExcludingUnanalyzed(classifier *Classifier) *Classifier {
 	withoutUnanalyzed := *classifier
 	withoutUnanalyzed.unanalyzedCategory = nil
+	isUnanalyzed := func(_ string, c cpb.Capability) bool {
+		return c == cpb.Capability_CAPABILITY_UNANALYZED
+	}
+	withoutUnanalyzed.functionCategory = maps.Clone(classifier.functionCategory)
+	maps.DeleteFunc(withoutUnanalyzed.functionCategory, isUnanalyzed)
+	withoutUnanalyzed.packageCategory = maps.Clone(classifier.packageCategory)
+	maps.DeleteFunc(withoutUnanalyzed.packageCategory, isUnanalyzed)
 	return &withoutUnanalyzed
 }
 
-- 
2.43.0


From e434c73af9392ffa21d427db9475551bb81cc48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:31 +0000
Subject: [PATCH 06/12] fix: make the order of graph output deterministic

Capabilities were visited in map iteration order, so the output for a
filtered graph, or for a function with several capabilities, changed from
run to run.
---
 analyzer/analyzer.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/analyzer/analyzer.go b/analyzer/analyzer.go
index 6e24058..3cc2ebb 100644
--- a/analyzer/analyzer.go
+++ b/analyzer/analyzer.go
@@ -9,6 +9,7 @@ package analyzer
 import (
 	"go/ast"
 	"go/types"
+	"maps"
 	"slices"
 	"sort"
 	"strings"
@@ -359,8 +360,8 @@ func searchForwardsFromQueriedFunctions(
 			outputNode(bfsFromQueries, v, bfsFromCapabilities)
 		}
 		if outputCapability != nil {
-			for c, nodes := range nodesByCapability {
-				if _, ok := nodes[v]; ok {
+			for _, c := range sortedCapabilities(nodesByCapability) {
+				if _, ok := nodesByCapability[c][v]; ok {
 					outputCapability(v, c)
 				}
 			}
@@ -398,6 +399,11 @@ func searchForwardsFromQueriedFunctions(
 	}
 }
 
+// sortedCapabilities returns the capabilities in nodesByCapability in order.
+func sortedCapabilities(nodesByCapability nodesetPerCapability) []cpb.Capability {
+	return slices.Sorted(maps.Keys(nodesByCapability))
+}
+
 // GraphOutputNodeFn represents a function which is called by CapabilityGraph
 // for each node.
 type GraphOutputNodeFn func(fromQuery bfsStateMap, node *callgraph.Node, toCapability bfsStateMap)
@@ -468,9 +474,9 @@ func CapabilityGraph(pkgs []*packages.Package,
 	}
 	if filter != nil {
 		// Consider each capability individually.
-		for c, ns := range nodesByCapability {
+		for _, c := range sortedCapabilities(nodesByCapability) {
 			if filter(c) {
-				search(nodesetPerCapability{c: ns})
+				search(nodesetPerCapability{c: nodesByCapability[c]})
 			}
 		}
 	} else {
-- 
2.43.0


From c8236f27f4c97dbc49be0a1da212d8827f767a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:32 +0000
Subject: [PATCH 07/12] fix: remove the temporary clone after analyzing a
 revision

Each run left two clones of the repository in the temporary directory.
---
 cmd/capslock-git-diff/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/capslock-git-diff/main.go b/cmd/capslock-git-diff/main.go
index d2189e4..5333398 100644
--- a/cmd/capslock-git-diff/main.go
+++ b/cmd/capslock-git-diff/main.go
@@ -92,6 +92,7 @@ func AnalyzeAtRevision(rev, pkgname string) (cil *cpb.CapabilityInfoList, err er
 	if err != nil {
 		return nil, fmt.Errorf("creating temporary directory: %w", err)
 	}
+	defer os.RemoveAll(tmpdir)
 	// Get the location of the .git directory, so we can make a temporary clone.
 	var b bytes.Buffer
 	if err = run(&b, "git", "rev-parse", "--git-dir"); err != nil {
-- 
2.43.0


From 35244ae264542645cb3236568858e520ba8cc052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:33 +0000
Subject: [PATCH 08/12] fix: compare intermediate packages when paths are
 omitted

With -granularity=intermediate and -omit_paths no entry had a key, so a
comparison never found a difference.
---
 analyzer/compare.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/analyzer/compare.go b/analyzer/compare.go
index 2cc3c9e..122ec16 100644
--- a/analyzer/compare.go
+++ b/analyzer/compare.go
@@ -87,6 +87,12 @@ func populateMap(cil *cpb.CapabilityInfoList, g Granularity) capabilitiesMap {
 				m[mk] = ci
 			}
 		case GranularityIntermediate:
+			// The entry's own package is on its path, but the path may have been
+			// omitted.
+			mk.key = ci.GetPackageDir()
+			if mk.key != "" {
+				m[mk] = ci
+			}
 			for _, f := range ci.Path {
 				mk.key = f.GetPackage()
 				if mk.key != "" {
-- 
2.43.0


From be09ace855cf6182710fe841fb953ed3237c5e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:33 +0000
Subject: [PATCH 09/12] fix: escape backslashes in graph node names

The name of a generic function instantiated with a struct type that has
field tags contains backslashes followed by quotes.  Escaping only the
quote ended the quoted string early and produced invalid output.
---
 analyzer/graph.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/analyzer/graph.go b/analyzer/graph.go
index e3de0da..5ef6e53 100644
--- a/analyzer/graph.go
+++ b/analyzer/graph.go
@@ -117,15 +117,18 @@ func newGraphBuilder(w io.Writer, nodeNamer func(any) string) graphBuilder {
 	return gb
 }
 
+// quoteReplacer escapes the characters that are special in a quoted string.
+var quoteReplacer = strings.NewReplacer(`\`, `\\`, `"`, `\"`)
+
 func (gb *graphBuilder) Edge(from, to interface{}) {
 	if gb.done {
 		panic("done")
 	}
 	gb.Write([]byte("\t"))
 	gb.Write([]byte(`"`))
-	gb.Write([]byte(strings.ReplaceAll(gb.nodeNamer(from), `"`, `\"`)))
+	gb.Write([]byte(quoteReplacer.Replace(gb.nodeNamer(from))))
 	gb.Write([]byte(`" -> "`))
-	gb.Write([]byte(strings.ReplaceAll(gb.nodeNamer(to), `"`, `\"`)))
+	gb.Write([]byte(quoteReplacer.Replace(gb.nodeNamer(to))))
 	gb.Write([]byte("\"\n"))
 }
 
-- 
2.43.0


From 5387ad3a4381aef6f05867ebf90ca44a41317064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:34 +0000
Subject: [PATCH 10/12] fix: report failure to write JSON and machine output

The exit status was 0 when the output could not be written.
---
 analyzer/scan.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/analyzer/scan.go b/analyzer/scan.go
index d603b75..2147e13 100644
--- a/analyzer/scan.go
+++ b/analyzer/scan.go
@@ -57,8 +57,8 @@ func RunCapslock(args []string, output string, pkgs []*packages.Package, queried
 		if err != nil {
 			return fmt.Errorf("internal error: couldn't marshal protocol buffer: %s", err.Error())
 		}
-		fmt.Println(string(b))
-		return nil
+		_, err = fmt.Println(string(b))
+		return err
 	} else if output == "m" || output == "machine" {
 		var cs []string
 		cil := GetCapabilityCounts(pkgs, queriedPackages, config)
@@ -67,7 +67,9 @@ func RunCapslock(args []string, output string, pkgs []*packages.Package, queried
 		}
 		sort.Strings(cs)
 		for _, c := range cs {
-			fmt.Println(c)
+			if _, err := fmt.Println(c); err != nil {
+				return err
+			}
 		}
 		return nil
 	} else if output == "v" || output == "verbose" {
-- 
2.43.0


From a4200d3802e4f4117550f08aa3156d9374c13f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:35 +0000
Subject: [PATCH 11/12] fix: include module and package info for intermediate
 granularity

The JSON output records which modules and packages were analyzed for the
other granularities.
---
 analyzer/analyzer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/analyzer/analyzer.go b/analyzer/analyzer.go
index 3cc2ebb..eae9d62 100644
--- a/analyzer/analyzer.go
+++ b/analyzer/analyzer.go
@@ -874,5 +874,9 @@ func intermediatePackages(pkgs []*packages.Package, queriedPackages map[*types.P
 		}
 		return strings.Compare(a.GetPackageDir(), b.GetPackageDir())
 	})
-	return &cpb.CapabilityInfoList{CapabilityInfo: cis}
+	return &cpb.CapabilityInfoList{
+		CapabilityInfo: cis,
+		ModuleInfo:     collectModuleInfo(pkgs),
+		PackageInfo:    collectPackageInfo(pkgs),
+	}
 }
-- 
2.43.0


From 095bacaec8c6b1b676d4d67a1c94f1ed9a2f3ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:34:08 +0000
Subject: [PATCH 12/12] fix: find reflect.Value stores through defined pointer
 types

A store through a pointer whose type is defined as a pointer, such as
"type P *reflect.Value", was not reported because only the alias was
resolved, not the defined type.
---
 analyzer/analyzer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/analyzer/analyzer.go b/analyzer/analyzer.go
index eae9d62..c784400 100644
--- a/analyzer/analyzer.go
+++ b/analyzer/analyzer.go
@@ -544,9 +544,10 @@ func getExtraNodesByCapability(graph *callgraph.Graph, allFunctions map[*ssa.Fun
 					if _, islocal := locals[dest]; islocal {
 						continue
 					}
-					// dest.Type should be a types.Pointer pointing to the type of the
-					// value that is copied by this instruction.
-					typ, ok := types.Unalias(dest.Type()).(*types.Pointer)
+					// dest.Type should be a types.Pointer, or a type defined as one,
+					// pointing to the type of the value that is copied by this
+					// instruction.
+					typ, ok := dest.Type().Underlying().(*types.Pointer)
 					if !ok {
 						continue
 					}
-- 
2.43.0

