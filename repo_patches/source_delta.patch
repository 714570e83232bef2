From ba7d89fb6c7385c4a240dec49009e8f0d29751ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:31 +0000
Subject: [PATCH 01/51] fix: refuse arithmetic on ordinal symmetric values

Ordinal domains are canonicalized by rank squashing, which does not preserve
distances, so v+k or v-w gives different answers on states that are merged.
The language reference allows only comparisons for ordinal values.
---
 lib/starlark_types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index 50d6d22..e94d60e 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -1406,8 +1406,8 @@ func (s *SymmetricValue) Binary(op syntax.Token, y starlark.Value, side starlark
 	if s.Kind == SymmetryKindRotational {
 		return s.binaryRotational(op, y, side)
 	}
-	if s.Kind != SymmetryKindInterval && s.Kind != SymmetryKindOrdinal {
-		return nil, nil // nominal doesn't support arithmetic
+	if s.Kind != SymmetryKindInterval {
+		return nil, nil // nominal and ordinal don't support arithmetic: their canonicalization doesn't preserve distances
 	}
 
 	if op == syntax.PLUS {
-- 
2.43.0


From 37498575de1eaa90aa80aa901900d21d3aec5b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:37 +0000
Subject: [PATCH 02/51] fix: genericset < and <= test for (proper) subsets

They negated the superset test of the swapped operands, so incomparable sets
and supersets were reported as subsets.
---
 lib/starlark_types.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index e94d60e..930b393 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -585,8 +585,7 @@ func (g *GenericSet) CompareSameType(op syntax.Token, y_ starlark.Value, depth i
 		defer iter.Done()
 		return x.IsSuperset(iter)
 	case syntax.LE: // subset
-		gt, err := y.CompareSameType(syntax.GT, x, depth)
-		return !gt, err
+		return y.CompareSameType(syntax.GE, x, depth)
 	case syntax.GT: // proper superset
 		if x.Len() <= y.Len() {
 			return false, nil
@@ -595,8 +594,7 @@ func (g *GenericSet) CompareSameType(op syntax.Token, y_ starlark.Value, depth i
 		defer iter.Done()
 		return x.IsSuperset(iter)
 	case syntax.LT: // proper subset
-		ge, err := y.CompareSameType(syntax.GE, x, depth)
-		return !ge, err
+		return y.CompareSameType(syntax.GT, x, depth)
 	default:
 		return false, fmt.Errorf("%s %s %s not implemented", x.Type(), op, y.Type())
 	}
-- 
2.43.0


From d9b986b04e7c9e2e6c2f37b4c5ca5bce8bdc4e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:37 +0000
Subject: [PATCH 03/51] fix: genericmap no longer shares entries with its
 copies and snapshots

Assigning to an existing key changed the entry tuple in place, so a map made by
genericmap(other) and tuples returned by items() changed with it.
---
 lib/starlark_types.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index 930b393..37757ae 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -307,11 +307,12 @@ func (g *GenericMap) Get(key starlark.Value) (v starlark.Value, found bool, err
 }
 
 func (g *GenericMap) SetKey(key, value starlark.Value) error {
-	for _, entry := range g.entries {
+	for i, entry := range g.entries {
 		if eq, err := starlark.Equal(entry[0], key); err != nil {
 			return fmt.Errorf("%s: %v", "genericmap", err)
 		} else if eq {
-			entry[1] = value
+			// Replace the entry instead of changing it: Items() and other maps may share the tuple.
+			g.entries[i] = starlark.Tuple{entry[0], value}
 			return nil
 		}
 	}
-- 
2.43.0


From e4cbc80e060ad9fea7da05c6374cce5ccaf7939d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:37 +0000
Subject: [PATCH 04/51] fix: genericmap construction and update keep one entry
 per key

Keyword arguments (and mapping items) were appended without looking for an
existing entry, leaving two entries for one key.
---
 lib/starlark_types.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index 37757ae..0c708bd 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -212,16 +212,19 @@ func updateDict(dict *GenericMap, args starlark.Tuple, kwargs []starlark.Tuple)
 	if len(args) == 1 {
 		arg := args[0]
 		if mapping, ok := arg.(starlark.IterableMapping); ok {
-			items := mapping.Items()
-			for _, item := range items {
-				dict.entries = append(dict.entries, item)
+			for _, item := range mapping.Items() {
+				if err := dict.SetKey(item[0], item[1]); err != nil {
+					return err
+				}
 			}
 		} else {
 			return fmt.Errorf("genericmap: got %s, want mapping", arg.Type())
 		}
 	}
 	for _, kwarg := range kwargs {
-		dict.entries = append(dict.entries, kwarg)
+		if err := dict.SetKey(kwarg[0], kwarg[1]); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 5bcd687658dba4bec08c49c7acbb43240f609a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:37 +0000
Subject: [PATCH 05/51] fix: genericset methods report a missing argument
 instead of crashing

union, difference, intersection, symmetric_difference and issuperset declared
their argument optional and then dereferenced a nil iterable.
---
 lib/starlark_types.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index 0c708bd..19ff99b 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -810,7 +810,7 @@ func set_clear(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwa
 func set_difference(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 	// TODO: support multiple others: s.difference(*others)
 	var other starlark.Iterable
-	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 0, &other); err != nil {
+	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 1, &other); err != nil {
 		return nil, err
 	}
 	iter := other.Iterate()
@@ -826,7 +826,7 @@ func set_difference(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple
 func set_intersection(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 	// TODO: support multiple others: s.difference(*others)
 	var other starlark.Iterable
-	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 0, &other); err != nil {
+	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 1, &other); err != nil {
 		return nil, err
 	}
 	iter := other.Iterate()
@@ -852,7 +852,7 @@ func set_issubset(thread *starlark.Thread, b *starlark.Builtin, args starlark.Tu
 // https://github.com/google/starlark-go/blob/master/doc/spec.md#set_issuperset.
 func set_issuperset(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 	var other starlark.Iterable
-	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 0, &other); err != nil {
+	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 1, &other); err != nil {
 		return nil, err
 	}
 	iter := other.Iterate()
@@ -913,7 +913,7 @@ func set_remove(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kw
 // https://github.com/google/starlark-go/blob/master/doc/spec.md#set·symmetric_difference.
 func set_symmetric_difference(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 	var other starlark.Iterable
-	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 0, &other); err != nil {
+	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 1, &other); err != nil {
 		return nil, err
 	}
 	iter := other.Iterate()
@@ -928,7 +928,7 @@ func set_symmetric_difference(_ *starlark.Thread, b *starlark.Builtin, args star
 // https://github.com/google/starlark-go/blob/master/doc/spec.md#set·union.
 func set_union(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 	var iterable starlark.Iterable
-	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 0, &iterable); err != nil {
+	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 1, &iterable); err != nil {
 		return nil, err
 	}
 	iter := iterable.Iterate()
-- 
2.43.0


From e9bb92243a690ce3efa665b62ac97fa8149f2658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:37 +0000
Subject: [PATCH 06/51] fix: bag.add_all(bag) with itself adds every element
 once

Inserting shifted the elements under the running iterator.
---
 lib/starlark_types.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index 19ff99b..3f6ebaf 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -1099,9 +1099,14 @@ func (b *Bag) Insert(val starlark.Value) error {
 func (b *Bag) InsertAll(v starlark.Iterable) error {
 	iter := v.Iterate()
 	defer iter.Done()
+	// Collect first: v may be this bag, and inserting moves its elements.
+	var elems []starlark.Value
 	var x starlark.Value
 	for iter.Next(&x) {
-		if err := b.Insert(x); err != nil {
+		elems = append(elems, x)
+	}
+	for _, elem := range elems {
+		if err := b.Insert(elem); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From ec76605886094b8fb099517bb4f1203608f6df48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:37 +0000
Subject: [PATCH 07/51] fix: bag equality compares multisets

Elements were compared pairwise in the order they were inserted at, which is no
longer sorted once an element (a list, dict or record) is changed in place.
---
 lib/starlark_types.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index 3f6ebaf..23c6c58 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -1005,12 +1005,24 @@ func bagEqual(elems []starlark.Value, elems2 []starlark.Value, depth int) (bool,
 	if len(elems) != len(elems2) {
 		return false, nil
 	}
-	for i, elem := range elems {
-		eq, err := starlark.EqualDepth(elem, elems2[i], depth)
-		if err != nil {
-			return false, err
+	// Elements may have changed since they were inserted, so their positions say nothing.
+	used := make([]bool, len(elems2))
+	for _, elem := range elems {
+		found := false
+		for j, elem2 := range elems2 {
+			if used[j] {
+				continue
+			}
+			eq, err := starlark.EqualDepth(elem, elem2, depth)
+			if err != nil {
+				return false, err
+			}
+			if eq {
+				used[j], found = true, true
+				break
+			}
 		}
-		if !eq {
+		if !found {
 			return false, nil
 		}
 	}
-- 
2.43.0


From 29d306bca31bbf5e3c268443392775baa2d86723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:54 +0000
Subject: [PATCH 08/51] fix: itertools.chain accepts its iterables

It declared a parameter that UnpackArgs cannot fill and crashed the model
checker on every call.
---
 lib/starlark_itertools.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/starlark_itertools.go b/lib/starlark_itertools.go
index bd6a24d..ddd1f9d 100644
--- a/lib/starlark_itertools.go
+++ b/lib/starlark_itertools.go
@@ -18,12 +18,15 @@ var ItertoolsModule = &starlarkstruct.Module{
 }
 
 func itertoolsChain(thread *starlark.Thread, fn *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
-	var iterables []starlark.Iterable
-	if err := starlark.UnpackArgs("chain", args, kwargs, "*", &iterables); err != nil {
-		return nil, err
+	if len(kwargs) > 0 {
+		return nil, fmt.Errorf("chain: unexpected keyword arguments")
 	}
 	var result []starlark.Value
-	for _, iterable := range iterables {
+	for i, arg := range args {
+		iterable, ok := arg.(starlark.Iterable)
+		if !ok {
+			return nil, fmt.Errorf("chain: argument %d is not iterable", i)
+		}
 		iter := iterable.Iterate()
 		defer iter.Done()
 		var v starlark.Value
-- 
2.43.0


From 9e175400f9bc290becee3ce8f928e64690f48ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:54 +0000
Subject: [PATCH 09/51] fix: itertools.product builds every tuple in its own
 array

With four or more iterables, appending to the shared prefix overwrote the last
element of tuples already produced.
---
 lib/starlark_itertools.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/starlark_itertools.go b/lib/starlark_itertools.go
index ddd1f9d..13e28df 100644
--- a/lib/starlark_itertools.go
+++ b/lib/starlark_itertools.go
@@ -151,7 +151,8 @@ func itertoolsProduct(thread *starlark.Thread, fn *starlark.Builtin, args starla
 			return
 		}
 		for _, val := range pools[depth] {
-			product(depth+1, append(acc, val))
+			// full slice expression: siblings must not share acc's spare capacity
+			product(depth+1, append(acc[:depth:depth], val))
 		}
 	}
 	product(0, []starlark.Value{})
-- 
2.43.0


From 630cac3e711e28f7f1f571d625340e3bdec8621e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:54 +0000
Subject: [PATCH 10/51] fix: itertools.product honours repeat

The documented keyword was silently ignored, as was any other keyword.
---
 lib/starlark_itertools.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/starlark_itertools.go b/lib/starlark_itertools.go
index 13e28df..02c62d5 100644
--- a/lib/starlark_itertools.go
+++ b/lib/starlark_itertools.go
@@ -123,6 +123,13 @@ func itertoolsPermutations(thread *starlark.Thread, fn *starlark.Builtin, args s
 }
 
 func itertoolsProduct(thread *starlark.Thread, fn *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
+	repeat := 1
+	if err := starlark.UnpackArgs("product", nil, kwargs, "repeat?", &repeat); err != nil {
+		return nil, err
+	}
+	if repeat < 0 {
+		return nil, fmt.Errorf("product: repeat argument cannot be negative")
+	}
 	iterables := make([]starlark.Iterable, len(args))
 	for i, arg := range args {
 		iter, ok := arg.(starlark.Iterable)
@@ -142,6 +149,11 @@ func itertoolsProduct(thread *starlark.Thread, fn *starlark.Builtin, args starla
 			pools[i] = append(pools[i], v)
 		}
 	}
+	once := pools
+	pools = nil
+	for i := 0; i < repeat; i++ {
+		pools = append(pools, once...)
+	}
 
 	var result []starlark.Value
 	var product func(int, []starlark.Value)
-- 
2.43.0


From c75ed963762624191af8eaebdeb2895c79ca8809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:54 +0000
Subject: [PATCH 11/51] fix: itertools.permutations without r yields
 full-length permutations

r=None is the documented default.
---
 lib/starlark_itertools.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/starlark_itertools.go b/lib/starlark_itertools.go
index 02c62d5..27b6738 100644
--- a/lib/starlark_itertools.go
+++ b/lib/starlark_itertools.go
@@ -77,8 +77,8 @@ func itertoolsCombinations(thread *starlark.Thread, fn *starlark.Builtin, args s
 
 func itertoolsPermutations(thread *starlark.Thread, fn *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 	var iterable starlark.Iterable
-	var r int
-	if err := starlark.UnpackArgs("permutations", args, kwargs, "iterable", &iterable, "r", &r); err != nil {
+	var length starlark.Value = starlark.None
+	if err := starlark.UnpackArgs("permutations", args, kwargs, "iterable", &iterable, "r?", &length); err != nil {
 		return nil, err
 	}
 
@@ -90,6 +90,13 @@ func itertoolsPermutations(thread *starlark.Thread, fn *starlark.Builtin, args s
 		items = append(items, v)
 	}
 	n := len(items)
+	r := n
+	if length != starlark.None {
+		var err error
+		if r, err = starlark.AsInt32(length); err != nil {
+			return nil, fmt.Errorf("permutations: for parameter r: %v", err)
+		}
+	}
 	if r > n || r < 0 {
 		return starlark.NewList(nil), nil
 	}
-- 
2.43.0


From a398ebe39275c176fd84454a070cb410a0f9b12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:54 +0000
Subject: [PATCH 12/51] fix: combinations_with_replacement of nothing with
 length 0 is one empty tuple

---
 lib/starlark_itertools.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/starlark_itertools.go b/lib/starlark_itertools.go
index 27b6738..5e213f7 100644
--- a/lib/starlark_itertools.go
+++ b/lib/starlark_itertools.go
@@ -193,7 +193,7 @@ func itertoolsCombinationsWithReplacement(thread *starlark.Thread, fn *starlark.
 		items = append(items, v)
 	}
 	n := len(items)
-	if r < 0 || n == 0 {
+	if r < 0 || (n == 0 && r > 0) {
 		return starlark.NewList(nil), nil
 	}
 
-- 
2.43.0


From f277797ed2f4d174306a1a98c9a85f78a40c92d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 13/51] fix: Queue.Empty and Stack.Empty called themselves
 forever

---
 lib/queue.go | 2 +-
 lib/stack.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/queue.go b/lib/queue.go
index 328a328..e6419d3 100644
--- a/lib/queue.go
+++ b/lib/queue.go
@@ -47,7 +47,7 @@ func (q *Queue[T]) Len() int {
 }
 
 func (q *Queue[T]) Empty() bool {
-    return q.Empty()
+    return q.Count() == 0
 }
 
 func NewQueue[T any]() *Queue[T] {
diff --git a/lib/stack.go b/lib/stack.go
index 9972469..a21a701 100644
--- a/lib/stack.go
+++ b/lib/stack.go
@@ -39,7 +39,7 @@ func (s *Stack[T]) ClearAll() {
 }
 
 func (s *Stack[T]) Empty() bool {
-	return s.Empty()
+	return s.Len() == 0
 }
 
 func NewStack[T any]() *Stack[T] {
-- 
2.43.0


From 0ba2492d8dcb0b211311d56a7979881bef77a2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:12 +0000
Subject: [PATCH 14/51] fix: a transition assertion failing in no-graph mode
 crashes on the dropped parent node

---
 modelchecker/processor.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index cf59137..0c5fb18 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2344,7 +2344,9 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 				if yield {
 					node.Name = "yield"
 				}
-				node.Attach()
+				if !p.experimentalNoGraph {
+					node.Attach()
+				}
 				p.intermediateStates.ClearAll()
 				return true, false
 			}
-- 
2.43.0


From bcc1f57b8f6884c1b98bb0d39d7489cbcb051be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 15/51] fix: transition assertions compare intermediate states
 of an atomic step

---
 modelchecker/invariants.go | 21 +++++++++++++++++----
 modelchecker/processor.go  | 11 +++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index d6104ac..796aa9a 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -50,11 +50,23 @@ func CheckRefinement(process *Process, refinement *ast.Refinement, joinHashes Jo
 	return true
 }
 
+// stepStart returns the process the current step started from: the closest
+// ancestor at a yield point. The states in between belong to an unfinished
+// atomic step and are not visible to assertions.
+func stepStart(process *Process) *Process {
+	before := process.Parent
+	for before != nil && !before.IsYield && before.Parent != nil {
+		before = before.Parent
+	}
+	return before
+}
+
 func CheckTransitionInvariants(process *Process) map[int][]int {
-	if process.Parent == nil {
+	before := stepStart(process)
+	if before == nil {
 		return nil
 	}
-	if process.Heap.CachedHashCode == process.Parent.Heap.CachedHashCode && process.Parent.Heap.CachedHashCode != "" {
+	if process.Heap.CachedHashCode == before.Heap.CachedHashCode && before.Heap.CachedHashCode != "" {
 		return nil
 	}
 	results := make(map[int][]int)
@@ -216,7 +228,8 @@ func execFunctionBlock(cloned *Process, name string, pc string) starlark.Value {
 }
 
 func CheckTransitionAssertion(process *Process, invariant *ast.Invariant, index int) bool {
-	if process.Parent == nil {
+	before := stepStart(process)
+	if before == nil {
 		return true
 	}
 	beforeParam, afterParam := "before", "after"
@@ -227,7 +240,7 @@ func CheckTransitionAssertion(process *Process, invariant *ast.Invariant, index
 	}
 	cloned := process.CloneForAssert(nil, 0)
 	cloned.Heap.state[afterParam] = starlarkstruct.FromStringDict(starlark.String(afterParam), cloned.Heap.state)
-	cloned.Heap.state[beforeParam] = starlarkstruct.FromStringDict(starlark.String(beforeParam), process.Parent.Heap.state)
+	cloned.Heap.state[beforeParam] = starlarkstruct.FromStringDict(starlark.String(beforeParam), before.Heap.state)
 
 	return execAssertionFunction(cloned, index, invariant)
 }
diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 0c5fb18..bf43dff 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2337,13 +2337,14 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 	// determined by the statement, and we include program counter in the hash code,
 	// this may not be an issue.
 	if node.actionDepth > 0 {
-		failedInvariants := CheckTransitionInvariants(node.Process)
+		var failedInvariants map[int][]int
+		if yield {
+			failedInvariants = CheckTransitionInvariants(node.Process)
+		}
 		if len(failedInvariants[0]) > 0 {
 			node.Inbound[0].FailedInvariants = failedInvariants
 			if !p.config.ContinuePathOnInvariantFailures {
-				if yield {
-					node.Name = "yield"
-				}
+				node.Name = "yield"
 				if !p.experimentalNoGraph {
 					node.Attach()
 				}
@@ -2528,6 +2529,7 @@ func (p *Processor) crashRole(node *Node, role *lib.Role) (*Node, *Node) {
 	}
 	crashFork := node.Process.Fork()
 	crashFork.Name = "crash"
+	crashFork.IsYield = true
 	crashFork.Labels = append(crashFork.Labels, fmt.Sprintf("crash-%s", role.RefString()))
 	crashNode := node.ForkForAlternatePaths(crashFork, fmt.Sprintf("crash-%s", role.RefString()))
 	if !p.ShouldScheduleNode(crashNode) {
@@ -2571,6 +2573,7 @@ func (p *Processor) crashRole(node *Node, role *lib.Role) (*Node, *Node) {
 func (p *Processor) crashThread(node *Node) {
 	crashFork := node.Process.Fork()
 	crashFork.Name = "crash"
+	crashFork.IsYield = true
 	crashFork.removeCurrentThread()
 	crashNode := node.ForkForAlternatePaths(crashFork, "crash")
 	if !p.ShouldScheduleNode(crashNode) {
-- 
2.43.0


From 2b8279cd21369ae7d6ea34f4b17539fa5bfffb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:22 +0000
Subject: [PATCH 16/51] fix: no-graph mode reports a deadlock for states whose
 successors were all visited before

---
 modelchecker/processor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index bf43dff..3dba86d 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2377,6 +2377,10 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 		// in no_graph mode we don't keep the existing Node to compare.
 		if found {
 			// Pure dedup hit; the current node won't be retained either.
+			// It is still a live successor for the deadlock detector.
+			if node.Enabled {
+				p.dedupHitsInExpansion++
+			}
 			return false, false
 		}
 		p.visited[canonicalHash] = nil
-- 
2.43.0


From ae743584003e60954844a6b08c087f8f2e2ece18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:32 +0000
Subject: [PATCH 17/51] fix: guided trace completion counts only links that
 were taken

A link was counted as executed as soon as a node was scheduled for it: once
per scheduled node (so two interleavings matching the same link counted
twice) and even when the action turned out to be disabled. The run then
reported a trace as complete although no execution consumed it.
---
 modelchecker/processor.go |  3 +++
 modelchecker/trace.go     | 11 ++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 3dba86d..f2c003b 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2311,6 +2311,7 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 	if node.ThreadProgress {
 		node.Enable()
 	}
+	p.recordTraceProgress(node)
 	// Add the labels from the process to the inbound links
 	// This must be done even for duplicate nodes
 	// The labels for the outbound links are added when the node is merged/attached
@@ -2539,6 +2540,7 @@ func (p *Processor) crashRole(node *Node, role *lib.Role) (*Node, *Node) {
 	if !p.ShouldScheduleNode(crashNode) {
 		return nil, nil
 	}
+	p.recordTraceProgress(crashNode)
 	for i, thread := range crashNode.Threads {
 		if thread == nil || thread.currentFrame().obj == nil || thread.currentFrame().obj.Name != role.Name {
 			continue
@@ -2583,6 +2585,7 @@ func (p *Processor) crashThread(node *Node) {
 	if !p.ShouldScheduleNode(crashNode) {
 		return
 	}
+	p.recordTraceProgress(crashNode)
 	// TODO: We could just copy the failed invariants from the parent
 	// instead of checking again
 	CheckInvariantsWithProber(crashFork, p.makeProber(crashFork))
diff --git a/modelchecker/trace.go b/modelchecker/trace.go
index 45bca93..1e02f64 100644
--- a/modelchecker/trace.go
+++ b/modelchecker/trace.go
@@ -148,9 +148,18 @@ func (p *Processor) ShouldScheduleNode(node *Node) bool {
 	// Schedule only if link name matches
 	if linkName == expectedLinkName {
 		node.guidedTrace.Advance()
-		p.guidedTrace.Advance()
 		return true
 	}
 
 	return false
 }
+
+// recordTraceProgress notes how much of the trace the given node consumed. It
+// is called only once the node's step turned out to be enabled, so that a
+// scheduled link that cannot be taken, or several nodes scheduled for the same
+// link, do not count as progress through the trace.
+func (p *Processor) recordTraceProgress(node *Node) {
+	if p.guidedTrace != nil && node.guidedTrace.currentIndex > p.guidedTrace.currentIndex {
+		p.guidedTrace.currentIndex = node.guidedTrace.currentIndex
+	}
+}
-- 
2.43.0


From 3873f047c68d830d81a4f8c2d4b03dc6e23c77ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:37 +0000
Subject: [PATCH 18/51] fix: simulation reported or missed deadlocks when the
 last tried action was a choice with no enabled alternative

---
 modelchecker/processor.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index f2c003b..1e29843 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2204,11 +2204,17 @@ func (p *Processor) StartSimulation() (init *Node, failedNode *Node, err error)
 			p.queue.Clear(prevLen)
 		}
 
-		if node.Process != nil && !node.Process.Enabled && prevLen == 0 && len(node.Inbound[0].Node.Outbound) == 0 {
-			if !liveness && p.config.GetDeadlockDetection() {
-				failedNode = node.Inbound[0].Node
+		if !liveness && p.config.GetDeadlockDetection() && node.Process != nil && len(node.Inbound) > 0 &&
+			prevLen == 0 && p.queue.Len() == 0 {
+			// The last candidate was tried. Nodes between two yield points (for
+			// example a oneof none of whose choices is enabled) are not steps.
+			if start := stepStartNode(node); !leadsToYield(start) {
+				failedNode = start
 				break
-			} else if liveness && p.config.GetDeadlockDetection() {
+			}
+		}
+		if node.Process != nil && !node.Process.Enabled && prevLen == 0 && len(node.Inbound[0].Node.Outbound) == 0 {
+			if liveness && p.config.GetDeadlockDetection() {
 				// The if condition shouldn't have been required, but there is a small edge case not handled so far.
 				// This condition will prevent stuttering errors if deadlock detection is disabled.
 				// Ideally, when checking liveness with deadlock detection disabled, we must try non-fair actions,
@@ -2240,6 +2246,25 @@ func (p *Processor) StartSimulation() (init *Node, failedNode *Node, err error)
 	return p.Init, failedNode, err
 }
 
+// stepStartNode returns the yield point the step that produced node started from.
+func stepStartNode(node *Node) *Node {
+	start := node.Inbound[0].Node
+	for !start.IsYieldNode() && len(start.Inbound) > 0 {
+		start = start.Inbound[0].Node
+	}
+	return start
+}
+
+// leadsToYield says whether some step starting at node was completed.
+func leadsToYield(node *Node) bool {
+	for _, link := range node.Outbound {
+		if link.Node.IsYieldNode() || leadsToYield(link.Node) {
+			return true
+		}
+	}
+	return false
+}
+
 func processPreInit(init *Node, stmts []*ast.Statement, preinitHookContent string) {
 	thread := init.NewThread()
 	thread.currentFrame().pc = fmt.Sprintf("Stmts[%d]", 0)
-- 
2.43.0


From c176cccd11925ce6de3df9d1fa87c0d719b4ea88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:03 +0000
Subject: [PATCH 19/51] fix: break and continue inside an any block left its
 scope behind and looped forever

---
 modelchecker/thread.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 6ab6506..7d72c7c 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -773,6 +773,10 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 		for !(strings.HasSuffix(currentFrame.pc, ".ForStmt") || strings.HasSuffix(currentFrame.pc, ".WhileStmt")) {
 			currentFrame.pc = RemoveLastBlock(currentFrame.pc)
 			currentFrame.scope = currentFrame.scope.parent
+			if strings.HasSuffix(currentFrame.pc, ".AnyStmt") {
+				// An any statement has a scope besides the one of its block.
+				currentFrame.scope = currentFrame.scope.parent
+			}
 		}
 		currentFrame.scope = currentFrame.scope.parent
 		currentFrame.pc = RemoveLastLoop(currentFrame.pc)
@@ -785,6 +789,9 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 				break
 			}
 			currentFrame.scope = currentFrame.scope.parent
+			if strings.HasSuffix(currentFrame.pc, ".AnyStmt") {
+				currentFrame.scope = currentFrame.scope.parent
+			}
 		}
 		currentFrame.pc = currentFrame.pc + ".Block.$"
 		return nil, false
-- 
2.43.0


From c499c7ccf77dfd00ffca51b5bb5afe3eb0225cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:11 +0000
Subject: [PATCH 20/51] fix: pass fell through to the next alternative of oneof
 and parallel blocks and did not yield

---
 modelchecker/thread.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 7d72c7c..75c3e90 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -586,8 +586,7 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 	if stmt.PyStmt != nil {
 		if stmt.PyStmt.GetCode() == "pass" {
 			t.Process.Enable()
-			t.currentFrame().pc = t.FindNextProgramCounter()
-			return nil, false
+			return t.executeEndOfStatement()
 		}
 		vars := t.Process.GetAllVariablesNocopy()
 		symCtx := t.Process.createSymmetryContext()
-- 
2.43.0


From d49b40339ebb8f15f0f1fe86f4830c0af0a8f51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:18 +0000
Subject: [PATCH 21/51] fix: an if or any statement as an alternative of oneof
 or parallel panicked at its end

---
 modelchecker/protopath.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modelchecker/protopath.go b/modelchecker/protopath.go
index a282779..49cfcc7 100644
--- a/modelchecker/protopath.go
+++ b/modelchecker/protopath.go
@@ -211,6 +211,8 @@ func RemoveLastSegment(path string, substr string) string {
 	return path[:lastIndex]
 }
 
+// EndOfBlock returns the end of the innermost block of the given path, that may
+// be the path of a part of a statement (for example IfStmt.Branches[0]).
 func EndOfBlock(path string) string {
 	return replaceLastStmts(path, "$")
 }
@@ -225,6 +227,6 @@ func replaceLastStmts(input, replacement string) string {
 	}
 
 	lastMatch := matches[len(matches)-1]
-	result := input[:lastMatch[0]] + replacement + input[lastMatch[1]:]
+	result := input[:lastMatch[0]] + replacement
 	return result
 }
-- 
2.43.0


From 7b7fa1986cf8d3db83a22aacfa9256715772f826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:40 +0000
Subject: [PATCH 22/51] fix: statements of a parallel block after a compound
 statement were lost

---
 modelchecker/thread.go | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 75c3e90..4171dd3 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -470,8 +470,8 @@ func (t *Thread) Execute() ([]*Process, bool) {
 	defer t.Process.propagateEnabled()
 	for t.Stack.Len() > 0 {
 		for t.currentFrame().pc == "" || strings.HasSuffix(t.currentFrame().pc, ".Block.$") {
-			yield = t.executeEndOfBlock()
-			if yield {
+			forks, yield = t.endOfBlock()
+			if yield || len(forks) > 0 {
 				if !hasNonEndOfBlockStmts && t.Process.GetThreadsCount() < initialThreads && t.Process.Parent != nil && t.Process.Parent.Enabled {
 					t.Process.Fairness = t.Fairness
 					t.Process.Enable()
@@ -521,7 +521,10 @@ func (t *Thread) Execute() ([]*Process, bool) {
 				return forks, true
 			}
 			for t.Stack.Len() > 0 && (t.currentFrame().pc == "" || strings.HasSuffix(t.currentFrame().pc, ".Block.$")) {
-				t.executeEndOfBlock()
+				forks, _ = t.endOfBlock()
+				if len(forks) > 0 {
+					break
+				}
 			}
 
 			return forks, true
@@ -1223,9 +1226,16 @@ func (t *Thread) executeEndOfStatement() ([]*Process, bool) {
 }
 
 func (t *Thread) executeEndOfBlock() bool {
+	_, yield := t.endOfBlock()
+	return yield
+}
+
+// endOfBlock leaves the blocks that end at the current position. The returned
+// forks continue with what remains of an enclosing parallel block.
+func (t *Thread) endOfBlock() ([]*Process, bool) {
 	frame := t.currentFrame()
 	if frame == nil {
-		return false
+		return nil, false
 	}
 	for {
 
@@ -1261,7 +1271,7 @@ func (t *Thread) executeEndOfBlock() bool {
 
 			if t.Stack.Len() == 0 {
 				t.Process.removeCurrentThread()
-				return true
+				return nil, true
 			} else {
 				frame = t.currentFrame()
 				// if protobuf is of type Function then it is a function call.
@@ -1290,16 +1300,21 @@ func (t *Thread) executeEndOfBlock() bool {
 					}
 					t.Process.updateAllVariablesInScope(returnedVars)
 					t.Process.RecordReturn(t.currentFrame(), oldFrame, starlark.None, oldScope.flow)
-					_, yield := t.executeEndOfStatement()
-					return yield
+					return t.executeEndOfStatement()
 				}
 
 			}
 		}
 		frame.pc = RemoveLastBlock(t.currentPc())
+		if strings.HasSuffix(frame.pc, ".AnyStmt") {
+			// The any statement ends as well, with the scope it has besides the
+			// one of its block.
+			frame.pc = strings.TrimSuffix(frame.pc, ".AnyStmt")
+			frame.scope = frame.scope.parent
+		}
 		forks, yield := t.executeEndOfStatement()
 		if len(forks) > 0 || yield {
-			return yield
+			return forks, yield
 		}
 
 		if t.currentPc() != "" {
@@ -1309,9 +1324,9 @@ func (t *Thread) executeEndOfBlock() bool {
 	if frame.scope.flow == ast.Flow_FLOW_SERIAL ||
 		frame.scope.flow == ast.Flow_FLOW_PARALLEL {
 		// Only yield if there was at least one executable statement
-		return t.Process.Enabled
+		return nil, t.Process.Enabled
 	}
-	return false
+	return nil, false
 }
 
 func (t *Thread) CopyInitValuesForEphemeralFields(oldFrame *CallFrame) {
-- 
2.43.0


From dfc5f293096c61bcbceab1df9cc55b1a10ffd169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:19 +0000
Subject: [PATCH 23/51] fix: statements executed before a choice did not enable
 the step when the chosen alternative did nothing

---
 modelchecker/processor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 1e29843..3fc1dda 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2333,6 +2333,7 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 	if len(forks) == 0 && !node.Enabled && !node.ThreadProgress {
 		return false, false
 	}
+	enabled := node.Enabled
 	if node.ThreadProgress {
 		node.Enable()
 	}
@@ -2452,6 +2453,9 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 	if !yield {
 		for _, fork := range forks {
 			newNode := node.ForkForAlternatePaths(fork, fork.Name)
+			// The alternatives continue the same step.
+			fork.Enabled = enabled
+			fork.ThreadProgress = node.ThreadProgress
 			if p.ShouldScheduleNode(newNode) {
 				// Intermediate forks carry choice information in fork.Name:
 				// "Stmt:N" / "Any:var=value" / "For:value" / "checkpoint".
-- 
2.43.0


From 4a4704459723ec6908e07d52d2b84e1f36674df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:01 +0000
Subject: [PATCH 24/51] fix: states that differ only in the types of values
 were merged

State identity was computed from the JSON text of the values, which is the
same for a list, a tuple, a range and a set with the same elements, for a
dict and a record, for the keys 1 and "1", for bytes and strings (and all
invalid UTF-8), for roles or model values and strings, and for anything
nested deeper than 20 levels. Use a text that retains the types instead.
The JSON shown to the user is unchanged.
---
 lib/jsonmarshaller.go           | 117 +++++++++++++++++++++++++++++---
 lib/starlark_role.go            |  13 ++++
 modelchecker/channel_message.go |   4 +-
 modelchecker/processor.go       |   6 +-
 modelchecker/thread.go          |  22 ++++--
 5 files changed, 142 insertions(+), 20 deletions(-)

diff --git a/lib/jsonmarshaller.go b/lib/jsonmarshaller.go
index 683eb7a..5293c49 100644
--- a/lib/jsonmarshaller.go
+++ b/lib/jsonmarshaller.go
@@ -96,11 +96,99 @@ func MarshalJSON(obj interface{}) ([]byte, error) {
 	return json.Marshal(obj)
 }
 
+// Fingerprint returns a text that identifies the value, to decide whether two
+// states are the same. Unlike the JSON text, it differs for values of different
+// types that have the same JSON representation, like a list and a tuple.
+func Fingerprint(m starlark.Value) ([]byte, error) {
+	e := &encoder{typed: true}
+	return e.encode(m, 0)
+}
+
+// FingerprintDict is the Fingerprint of all the values of a dictionary.
+func FingerprintDict(dict starlark.StringDict) ([]byte, error) {
+	e := &encoder{typed: true}
+	items := make([]starlark.Tuple, 0, len(dict))
+	for k, v := range dict {
+		items = append(items, starlark.Tuple{starlark.String(k), v})
+	}
+	return e.encodeItems(items, 0)
+}
+
 func MarshalJSONStarlarkValue(m starlark.Value, depth int) ([]byte, error) {
+	e := &encoder{}
+	return e.encode(m, depth)
+}
+
+// encoder writes a value as JSON or, if typed is set, as its fingerprint: the
+// same text with the type of each value that is not a number, boolean, string,
+// list, dict or None in front of it, and with the fingerprints of the keys as
+// the keys of a dictionary.
+type encoder struct {
+	typed bool
+	// path has the mutable containers being encoded, from the outermost. It is
+	// maintained only for fingerprints, to handle circular references.
+	path []starlark.Value
+}
+
+func (e *encoder) encode(m starlark.Value, depth int) ([]byte, error) {
+	if !e.typed {
+		return e.encodeUntagged(m, depth)
+	}
+	switch m.Type() {
+	case "NoneType", "bool", "int", "float", "string":
+		return e.encodeUntagged(m, depth)
+	case "list", "dict", "set", "genericset", "genericmap", "bag", "record", "struct":
+		for i, container := range e.path {
+			if container == m {
+				return []byte(fmt.Sprintf("^%d", i)), nil
+			}
+		}
+		e.path = append(e.path, m)
+		defer func() { e.path = e.path[:len(e.path)-1] }()
+	}
+	b, err := e.encodeUntagged(m, depth)
+	if err != nil || m.Type() == "list" || m.Type() == "dict" {
+		return b, err
+	}
+	return append([]byte(m.Type()), b...), nil
+}
+
+// encodeItems writes the fingerprint of the entries of a dictionary.
+func (e *encoder) encodeItems(items []starlark.Tuple, depth int) ([]byte, error) {
+	keys := make([]string, 0, len(items))
+	values := make(map[string]starlark.Value, len(items))
+	for _, item := range items {
+		k, err := e.encode(item[0], depth+1)
+		if err != nil {
+			return nil, err
+		}
+		keys = append(keys, string(k))
+		values[string(k)] = item[1]
+	}
+	sort.Strings(keys)
+	buf := strings.Builder{}
+	buf.WriteString("{")
+	for i, k := range keys {
+		if i > 0 {
+			buf.WriteString(",")
+		}
+		v, err := e.encode(values[k], depth+1)
+		if err != nil {
+			return nil, err
+		}
+		buf.WriteString(k)
+		buf.WriteString(":")
+		buf.Write(v)
+	}
+	buf.WriteString("}")
+	return []byte(buf.String()), nil
+}
+
+func (e *encoder) encodeUntagged(m starlark.Value, depth int) ([]byte, error) {
 	// TODO: using depth to limit the depth of recursion for json export to handle circular references.
 	// Ideally, this should be dealt with by managing the visited nodes in the graph.
 	// But for now, we just limit the depth.
-	if depth > 20 {
+	if depth > 20 && !e.typed {
 		return []byte("\"TOO_DEEP\""), nil
 	}
 	switch m.Type() {
@@ -109,8 +197,15 @@ func MarshalJSONStarlarkValue(m starlark.Value, depth int) ([]byte, error) {
 	case "bool":
 		return json.Marshal(m.Truth())
 	case "string":
+		if e.typed {
+			// json.Marshal replaces the bytes that are not valid UTF-8.
+			return []byte(strconv.Quote(m.(starlark.String).GoString())), nil
+		}
 		return json.Marshal(m.(starlark.String).GoString())
 	case "bytes":
+		if e.typed {
+			return []byte(strconv.Quote(string(m.(starlark.Bytes)))), nil
+		}
 		return json.Marshal(string(m.(starlark.Bytes)))
 	case "int", "float":
 		return []byte(m.String()), nil
@@ -127,7 +222,7 @@ func MarshalJSONStarlarkValue(m starlark.Value, depth int) ([]byte, error) {
 			} else {
 				first = false
 			}
-			b, err := MarshalJSONStarlarkValue(x, depth+1)
+			b, err := e.encode(x, depth+1)
 			if err != nil {
 				return nil, err
 			}
@@ -141,7 +236,7 @@ func MarshalJSONStarlarkValue(m starlark.Value, depth int) ([]byte, error) {
 		var x starlark.Value
 		var elements []string
 		for iter.Next(&x) {
-			b, err := MarshalJSONStarlarkValue(x, depth+1)
+			b, err := e.encode(x, depth+1)
 			if err != nil {
 				return nil, err
 			}
@@ -160,6 +255,9 @@ func MarshalJSONStarlarkValue(m starlark.Value, depth int) ([]byte, error) {
 		return []byte(buf.String()), nil
 	case "genericmap", "dict":
 		items := m.(starlark.IterableMapping).Items()
+		if e.typed {
+			return e.encodeItems(items, depth)
+		}
 		// Sort items by key to have deterministic output
 		sort.Slice(items, func(i, j int) bool {
 			// Marshal keys to JSON and compare strings for more robust sorting
@@ -195,7 +293,7 @@ func MarshalJSONStarlarkValue(m starlark.Value, depth int) ([]byte, error) {
 				if len(kb) > 0 && kb[0] != '"' {
 					kb = []byte(strconv.Quote(string(kb)))
 				}
-				vb, err := MarshalJSONStarlarkValue(v, depth+1)
+				vb, err := e.encode(v, depth+1)
 				if err != nil {
 					return nil, err
 				}
@@ -208,7 +306,7 @@ func MarshalJSONStarlarkValue(m starlark.Value, depth int) ([]byte, error) {
 			if k.Type() != "string" {
 				k = starlark.String(k.String())
 			}
-			kb, err := MarshalJSONStarlarkValue(k, depth+1)
+			kb, err := e.encode(k, depth+1)
 			if err != nil {
 				return nil, err
 			}
@@ -216,7 +314,7 @@ func MarshalJSONStarlarkValue(m starlark.Value, depth int) ([]byte, error) {
 			if len(kb) > 0 && kb[0] != '"' {
 				kb = []byte(strconv.Quote(string(kb)))
 			}
-			vb, err := MarshalJSONStarlarkValue(v, depth+1)
+			vb, err := e.encode(v, depth+1)
 			if err != nil {
 				return nil, err
 			}
@@ -244,7 +342,7 @@ func MarshalJSONStarlarkValue(m starlark.Value, depth int) ([]byte, error) {
 			if err != nil {
 				return nil, err
 			}
-			b, err := MarshalJSONStarlarkValue(v, depth+1)
+			b, err := e.encode(v, depth+1)
 			if err != nil {
 				return nil, err
 			}
@@ -270,7 +368,7 @@ func MarshalJSONStarlarkValue(m starlark.Value, depth int) ([]byte, error) {
 			if err != nil {
 				return nil, err
 			}
-			b, err := MarshalJSONStarlarkValue(v, depth+1)
+			b, err := e.encode(v, depth+1)
 			if err != nil {
 				return nil, err
 			}
@@ -304,6 +402,9 @@ func MarshalJSONStarlarkValue(m starlark.Value, depth int) ([]byte, error) {
 	case "model_value", "symmetric_value", "Channel", "symmetry_segment":
 		return json.Marshal(m)
 	default:
+		if e.typed {
+			return []byte(strconv.Quote(m.String())), nil
+		}
 		fmt.Println("Warn: unknown type: ", m.Type(), " value: ", m.String(), " using default json.Marshal")
 		return json.Marshal(m)
 	}
diff --git a/lib/starlark_role.go b/lib/starlark_role.go
index d247ec4..896b9ad 100644
--- a/lib/starlark_role.go
+++ b/lib/starlark_role.go
@@ -162,6 +162,19 @@ func (r *Role) MarshalJSON() ([]byte, error) {
 	return []byte(s), nil
 }
 
+// Fingerprint returns a text that identifies the role and its current data.
+func (r *Role) Fingerprint() ([]byte, error) {
+	params, err := Fingerprint(r.Params)
+	if err != nil {
+		return nil, err
+	}
+	fields, err := Fingerprint(r.Fields)
+	if err != nil {
+		return nil, err
+	}
+	return []byte(fmt.Sprintf("%q%s%s", r.RefString(), params, fields)), nil
+}
+
 func (r *Role) RefString() string {
 	return GenerateRefString(r.Name, r.GetRef())
 }
diff --git a/modelchecker/channel_message.go b/modelchecker/channel_message.go
index 4f76930..f32b81e 100644
--- a/modelchecker/channel_message.go
+++ b/modelchecker/channel_message.go
@@ -45,8 +45,8 @@ func (cm *ChannelMessage) String() string {
 
 func (cm *ChannelMessage) HashCode() string {
 	h := sha256.New()
-	bytes, _ := cm.MarshalJSON()
-	h.Write(bytes)
+	h.Write([]byte(fmt.Sprintf("%q%q", cm.receiver, cm.function)))
+	h.Write(fingerprintDict(cm.params))
 	h.Write([]byte(cm.frame.HashCode()))
 	return fmt.Sprintf("%x", h.Sum(nil))
 }
diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 3fc1dda..71a982d 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -623,17 +623,17 @@ func (p *Process) HashCode() string {
 	}
 
 	if !excludeReturnsFromState {
-		h.Write([]byte(StringDictToJsonString(p.Returns)))
+		h.Write(fingerprintDict(p.Returns))
 	}
 
 	for _, role := range p.Roles {
 		// Include the role's data in the hash to distinguish processes with different role states
 		// This should not use the lib/jsonmarshaller.go, that just substitutes roles with their reference.
-		bytes, err := role.MarshalJSON()
+		fingerprint, err := role.Fingerprint()
 		if err != nil {
 			panic(err)
 		}
-		h.Write(bytes)
+		h.Write(fingerprint)
 	}
 	// hash the heap variables as well
 	heapHash := p.Heap.HashCode()
diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 4171dd3..c95391d 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -96,6 +96,14 @@ func StringDictToJson(stringDict starlark.StringDict) ([]byte, error) {
 	return lib.MarshalJSON(stringDict)
 }
 
+// fingerprintDict returns a text that identifies the values in the dict, for the
+// hash codes. The JSON text does not, values of different types can share it.
+func fingerprintDict(stringDict starlark.StringDict) []byte {
+	bytes, err := lib.FingerprintDict(stringDict)
+	PanicOnError(err)
+	return bytes
+}
+
 func (h *Heap) String() string {
 	return h.ToJson()
 }
@@ -106,7 +114,7 @@ func (h *Heap) HashCode() string {
 		return h.CachedHashCode
 	}
 	hashBuf := sha256.New()
-	hashBuf.Write([]byte(h.ToJson()))
+	hashBuf.Write(fingerprintDict(h.state))
 	h.CachedHashCode = fmt.Sprintf("%x", hashBuf.Sum(nil))
 	return h.CachedHashCode
 }
@@ -200,13 +208,13 @@ func (s *Scope) Hash() hash.Hash {
 	} else {
 		h = sha256.New()
 	}
-	vars, err := StringDictToJson(s.vars)
-	if err != nil {
-		panic(err)
-	}
-	h.Write(vars)
+	h.Write(fingerprintDict(s.vars))
 	h.Write([]byte(fmt.Sprintln(sortedCopy(s.skipstmts))))
-	h.Write([]byte(fmt.Sprintln(s.loopRange)))
+	if s.loopRange != nil {
+		loopRange, err := lib.Fingerprint(starlark.Tuple(s.loopRange))
+		PanicOnError(err)
+		h.Write(loopRange)
+	}
 	return h
 }
 
-- 
2.43.0


From 62633c386510c2707d7489e35a65bb43ccd0aba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:30 +0000
Subject: [PATCH 25/51] fix: calls that differ only in their arguments were
 merged

The identity of a state covered the local variables of each frame but not
the arguments of the function call, which are kept apart from them.
---
 modelchecker/thread.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index c95391d..cc55605 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -314,7 +314,9 @@ func (c *CallFrame) HashCode() string {
 	// This is to ensure that the same scoped variables are not treated the same
 	// if program counter is at different stmts.
 	h := c.scope.Hash()
-	h.Write([]byte(c.pc))
+	h.Write([]byte(fmt.Sprintf("%d:%s", c.FileIndex, c.pc)))
+	// The arguments are local variables too.
+	h.Write(fingerprintDict(c.vars))
 	if c.obj != nil {
 		h.Write([]byte(c.obj.RefString()))
 	}
-- 
2.43.0


From 0f092627894c92aafb9e0e4561d004c189812645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:49 +0000
Subject: [PATCH 26/51] fix: alternatives that meet in the middle of a step
 were merged although only one had done anything

If the rest of the step does nothing, whether the action is enabled depends on
what the step did before. The merged node kept the answer of one of them, so a
disabled action could appear as a self-loop (hiding a deadlock). The prober for
next_states() also started each alternative as if nothing had been done.
---
 modelchecker/processor.go | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 71a982d..32666be 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2006,16 +2006,23 @@ func (p *Processor) probeNextStates(process *Process) []*NextTransition {
 				// Disabled path: a require failed or the body was a no-op.
 				continue
 			}
+			enabled, progress := n.Enabled, n.ThreadProgress
 			if n.ThreadProgress {
 				n.Enable()
 			}
 			h := n.HashCode()
+			if !yield {
+				h += stepProgress(enabled, progress)
+			}
 			if seenIntermediate[h] {
 				continue
 			}
 			seenIntermediate[h] = true
 			if !yield {
 				for _, fork := range forks {
+					// The alternatives continue the same step.
+					fork.Enabled = enabled
+					fork.ThreadProgress = progress
 					stack = append(stack, n.ForkForAlternatePaths(fork, fork.Name))
 				}
 				continue
@@ -2396,7 +2403,11 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 		}
 	}
 
-	other, found, canonicalHash := p.findVisitedSymmetric(node)
+	progress := ""
+	if !yield {
+		progress = stepProgress(enabled, node.ThreadProgress)
+	}
+	other, found, canonicalHash := p.findVisitedSymmetric(node, progress)
 	if p.experimentalNoGraph {
 		// No-graph mode: visited stores hashes only (values are nil). Skip
 		// Attach (no graph edges) and skip the Enabled-vs-existing logic
@@ -2590,7 +2601,7 @@ func (p *Processor) crashRole(node *Node, role *lib.Role) (*Node, *Node) {
 	if node.Process.Enabled {
 		crashNode.Enable()
 	}
-	other, ok, canonicalHash := p.findVisitedSymmetric(crashNode)
+	other, ok, canonicalHash := p.findVisitedSymmetric(crashNode, "")
 	if ok {
 		crashNode.Duplicate(other, true)
 		return nil, nil
@@ -2621,7 +2632,7 @@ func (p *Processor) crashThread(node *Node) {
 	if node.Process.Enabled {
 		crashNode.Enable()
 	}
-	other, ok, canonicalHash := p.findVisitedSymmetric(crashNode)
+	other, ok, canonicalHash := p.findVisitedSymmetric(crashNode, "")
 	if ok {
 		crashNode.Duplicate(other, true)
 		return
@@ -2663,9 +2674,17 @@ func (p *Process) minHashCode(hashes []string) string {
 	return canonical
 }
 
+// stepProgress is the part of the identity of a node in the middle of a step that
+// tells whether the step has done anything yet: if the rest of the step does
+// nothing, that decides whether the action was enabled.
+func stepProgress(enabled bool, threadProgress bool) string {
+	return fmt.Sprintf("/%t/%t", enabled, threadProgress)
+}
+
 // findVisitedSymmetric looks up a node in the visited map by trying all symmetry
 // permutation hashes. Returns the matching node and true if found, nil and false otherwise.
-func (p *Processor) findVisitedSymmetric(node *Node) (*Node, bool, string) {
+// In the middle of a step, progress tells what the step has done so far.
+func (p *Processor) findVisitedSymmetric(node *Node, progress string) (*Node, bool, string) {
 	// Skip symmetry reduction in simulation mode (we only check one path
 	// anyway) or when explicitly disabled. Disabling keeps every persisted
 	// state concrete — no canonical renaming of symmetric values/roles —
@@ -2674,12 +2693,12 @@ func (p *Processor) findVisitedSymmetric(node *Node) (*Node, bool, string) {
 	// renamed destination state would not match them. Exact-duplicate
 	// states still dedup via the plain hash.
 	if p.simulation || p.disableSymmetryReduction {
-		hash := node.HashCode()
+		hash := node.HashCode() + progress
 		other, ok := p.visited[hash]
 		return other, ok, hash
 	}
 	hashes := node.getSymmetryTranslations()
-	minHash := node.minHashCode(hashes)
+	minHash := node.minHashCode(hashes) + progress
 	other, ok := p.visited[minHash]
 	return other, ok, minHash
 }
-- 
2.43.0


From af2e2b5a9295ac3528b2e5f3254ef949aa69d39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:23 +0000
Subject: [PATCH 27/51] fix: clone structs and look for symmetric values inside
 them

---
 modelchecker/clone.go         | 12 ++++++++++--
 modelchecker/state_visitor.go | 10 +++++++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/modelchecker/clone.go b/modelchecker/clone.go
index e86df9b..ebfe810 100644
--- a/modelchecker/clone.go
+++ b/modelchecker/clone.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/fizzbee-io/fizzbee/lib"
 	"go.starlark.net/starlark"
+	"go.starlark.net/starlarkstruct"
 )
 
 func deepCloneStarlarkValue(value starlark.Value, refs map[starlark.Value]starlark.Value) (starlark.Value, error) {
@@ -25,10 +26,9 @@ func deepCloneStarlarkValueWithPermutations(value starlark.Value, refs map[starl
 	// "builtin_function_or_method".
 	switch value.Type() {
 
-	case "NoneType", "int", "float", "bool", "string", "bytes", "function", "range", "struct", "symmetric_values", "Channel", "symmetry_domain":
+	case "NoneType", "int", "float", "bool", "string", "bytes", "function", "range", "symmetric_values", "Channel", "symmetry_domain":
 		//case starlark.Bool, starlark.String, starlark.Int:
 		// For simple values, just return a copy
-		// Also starlark struct is immutable
 		// symmetry_domain is stateless configuration (Name, Limit, DomainType)
 		return value, nil
 
@@ -131,6 +131,14 @@ func deepCloneStarlarkValueWithPermutations(value starlark.Value, refs map[starl
 		newDict := CloneDict(dict, refs, permutations, alt)
 		newVal.ReplaceEntriesFromStringDict(newDict)
 		return newVal, nil
+	case "struct":
+		// A struct is immutable, but the values it holds need not be.
+		v := value.(*starlarkstruct.Struct)
+		dict := starlark.StringDict{}
+		v.ToStringDict(dict)
+		newVal := starlarkstruct.FromStringDict(v.Constructor(), CloneDict(dict, refs, permutations, alt))
+		refs[value] = newVal
+		return newVal, nil
 	case "RoleStub":
 		// TODO(jp): Should this also reuse cached refs?
 		r := value.(*lib.RoleStub)
diff --git a/modelchecker/state_visitor.go b/modelchecker/state_visitor.go
index 866674d..b2447db 100644
--- a/modelchecker/state_visitor.go
+++ b/modelchecker/state_visitor.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/fizzbee-io/fizzbee/lib"
 	"go.starlark.net/starlark"
+	"go.starlark.net/starlarkstruct"
 )
 
 // StateVisitor defines the interface for visiting state elements during traversal
@@ -106,7 +107,7 @@ func visitStarlarkValue(value starlark.Value, visitor StateVisitor, visited map[
 
 	switch value.Type() {
 	case "NoneType", "int", "float", "bool", "string", "bytes", "function",
-		"builtin_function_or_method", "range", "struct", "symmetric_values",
+		"builtin_function_or_method", "range", "symmetric_values",
 		"model_value", "Channel":
 		return
 
@@ -180,6 +181,13 @@ func visitStarlarkValue(value starlark.Value, visitor StateVisitor, visited map[
 			visitStarlarkValue(val, visitor, visited)
 		}
 
+	case "struct":
+		dict := starlark.StringDict{}
+		value.(*starlarkstruct.Struct).ToStringDict(dict)
+		for _, val := range dict {
+			visitStarlarkValue(val, visitor, visited)
+		}
+
 	case "role":
 		role := value.(*lib.Role)
 		if role.IsSymmetric() {
-- 
2.43.0


From 48bb3411188d8dbd46df376d0cb03f6597479012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:32 +0000
Subject: [PATCH 28/51] fix: a domain out of values disables the step wherever
 the value is requested; arguments of one call get distinct fresh values

---
 modelchecker/thread.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index cc55605..bdd6b66 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -668,6 +668,9 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 		symCtx := t.Process.createSymmetryContext()
 		val, err := t.Process.Evaluator.EvalExprWithContext(t.getFileName(), stmt.AnyStmt.IterExpr, vars, symCtx)
 		t.Process.saveRotationalLastAllocated(symCtx)
+		if lib.IsDisableTransitionError(err) {
+			return t.disableTransition()
+		}
 		// TODO: This source info should be for the pyExpr not the anyStmt
 		t.Process.PanicOnError(stmt.AnyStmt.GetSourceInfo(), fmt.Sprintf("Error evaluating expr: %s", stmt.AnyStmt.PyExpr), err)
 		t.Process.updateAllVariablesInScope(vars)
@@ -714,6 +717,10 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 				symCtx := fork.createSymmetryContext()
 				cond, err := fork.Evaluator.EvalExprWithContext(t.getFileName(), stmt.AnyStmt.ConditionExpr, vars, symCtx)
 				fork.saveRotationalLastAllocated(symCtx)
+				if lib.IsDisableTransitionError(err) {
+					// This alternative is not possible.
+					continue
+				}
 				//PanicOnError(err)
 				// TODO: This source info should be for the condition not the anyStmt
 				fork.PanicOnError(stmt.AnyStmt.GetSourceInfo(), fmt.Sprintf("Error checking condition: %s", stmt.AnyStmt.Condition), err)
@@ -759,6 +766,9 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 		symCtx := t.Process.createSymmetryContext()
 		val, err := t.Process.Evaluator.EvalExprWithContext(t.getFileName(), stmt.ForStmt.IterExpr, vars, symCtx)
 		t.Process.saveRotationalLastAllocated(symCtx)
+		if lib.IsDisableTransitionError(err) {
+			return t.disableTransition()
+		}
 		// TODO: This source info should be for the pyExpr not the forStmt
 		t.Process.PanicOnError(stmt.ForStmt.GetSourceInfo(), fmt.Sprintf("Error evaluating expr: %s", stmt.ForStmt.PyExpr), err)
 
@@ -813,6 +823,9 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 		symCtx := t.Process.createSymmetryContext()
 		cond, err := t.Process.Evaluator.EvalExprWithContext(t.getFileName(), stmt.RequireStmt.GetConditionExpr(), vars, symCtx)
 		t.Process.saveRotationalLastAllocated(symCtx)
+		if lib.IsDisableTransitionError(err) {
+			return t.disableTransition()
+		}
 		//PanicOnError(err)
 		t.Process.PanicOnError(stmt.RequireStmt.GetSourceInfo(), fmt.Sprintf("Error checking condition: %s", stmt.RequireStmt.Condition), err)
 		t.Process.updateAllVariablesInScope(vars)
@@ -828,6 +841,10 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 		if stmt.ReturnStmt.PyExpr != "" {
 			symCtx := t.Process.createSymmetryContext()
 			v, err := t.Process.Evaluator.EvalExprWithContext(t.getFileName(), stmt.ReturnStmt.GetExpr(), vars, symCtx)
+			t.Process.saveRotationalLastAllocated(symCtx)
+			if lib.IsDisableTransitionError(err) {
+				return t.disableTransition()
+			}
 			t.Process.PanicOnError(stmt.ReturnStmt.GetSourceInfo(), fmt.Sprintf("Error evaluating expr: %s", stmt.ReturnStmt.PyExpr), err)
 			//PanicOnError(err)
 			val = v
@@ -947,10 +964,12 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 			newFrame.vars = starlark.StringDict{}
 			hasNamedArgs := false
 			vars := t.Process.GetAllVariablesNocopy()
+			// One context for all arguments: a value made for one argument is not yet part
+			// of the state when the next one is evaluated.
+			symCtx := t.Process.createSymmetryContext()
 			for i, arg := range stmt.CallStmt.Args {
 				// TODO: Is it really required to GetAllVariables() for each arg?
 
-				symCtx := t.Process.createSymmetryContext()
 				val, err := t.Process.Evaluator.EvalExprWithContext(t.getFileName(), arg.Expr, vars, symCtx)
 				t.Process.saveRotationalLastAllocated(symCtx)
 				if err != nil {
@@ -985,7 +1004,6 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 				// handle default values
 				if _, ok := newFrame.vars[param.Name]; !ok {
 					if param.DefaultPyExpr != "" {
-						symCtx := t.Process.createSymmetryContext()
 						val, err := t.Process.Evaluator.EvalExprWithContext(t.getFileName(), param.DefaultExpr, vars, symCtx)
 						t.Process.saveRotationalLastAllocated(symCtx)
 						if err != nil {
@@ -1154,6 +1172,14 @@ func (t *Thread) executeForStatement() ([]*Process, bool) {
 	return forks, false
 }
 
+// disableTransition abandons the step: a symmetry domain cannot provide a requested value.
+func (t *Thread) disableTransition() ([]*Process, bool) {
+	t.Process.Enabled = false
+	t.Process.ThreadProgress = false
+	t.Aborted = true
+	return nil, false
+}
+
 func (t *Thread) executeWhileStatement() ([]*Process, bool) {
 	protobuf := GetProtoFieldByPath(t.currentFileAst(), t.currentPc())
 	stmt := convertToWhileStmt(protobuf)
@@ -1165,6 +1191,9 @@ func (t *Thread) executeWhileStatement() ([]*Process, bool) {
 	symCtx := t.Process.createSymmetryContext()
 	cond, err := t.Process.Evaluator.EvalExprWithContext(t.getFileName(), stmt.GetIterExpr(), vars, symCtx)
 	t.Process.saveRotationalLastAllocated(symCtx)
+	if lib.IsDisableTransitionError(err) {
+		return t.disableTransition()
+	}
 	t.Process.PanicOnError(stmt.GetIterExpr().GetSourceInfo(), fmt.Sprintf("Error evaluating expr: %s", stmt.PyExpr), err)
 	//PanicOnError(err)
 	t.Process.updateAllVariablesInScope(vars)
-- 
2.43.0


From f9d4dacf4b0ab21de47686f78d3f0f2e47aa00f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:32 +0000
Subject: [PATCH 29/51] fix: materialized ordinal segments hand out no new
 values; repeated ordinal appends do not run out of positions

---
 lib/symmetry.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/lib/symmetry.go b/lib/symmetry.go
index 4fcbcc7..a01b987 100644
--- a/lib/symmetry.go
+++ b/lib/symmetry.go
@@ -23,6 +23,21 @@ func midpoint(lo, hi int64) (int64, error) {
 	return lo + (hi-lo)/2, nil
 }
 
+// ordinalStep bounds how far an append leaves the existing values, so that repeated
+// appends (or prepends) do not use up the number space; what remains between two
+// neighbours is enough for repeated insertion.
+const ordinalStep int64 = 1 << 32
+
+// ordinalAfter returns a position after lo. Returns error if there is none.
+func ordinalAfter(lo int64) (int64, error) {
+	return midpoint(lo, min(ordinalMax, lo+2*ordinalStep))
+}
+
+// ordinalBefore returns a position before hi. Returns error if there is none.
+func ordinalBefore(hi int64) (int64, error) {
+	return midpoint(max(0, hi-2*ordinalStep), hi)
+}
+
 // SymmetryKind represents the type of symmetry for a domain.
 // Different kinds have different operations and canonicalization strategies.
 type SymmetryKind string
@@ -260,6 +275,7 @@ func (d *SymmetryDomain) segments(thread *starlark.Thread, _ *starlark.Builtin,
 	}
 	ctx := ctxVal.(*SymmetryContext)
 	ctx.EnsureDomainInit(d.Name)
+	d.ensureMaterialized(ctx)
 
 	// Collect and Sort IDs
 	var used []int64
@@ -393,6 +409,10 @@ func (s *Segment) fresh(thread *starlark.Thread, _ *starlark.Builtin, args starl
 	ctx := ctxVal.(*SymmetryContext)
 	ctx.EnsureDomainInit(s.Domain.Name)
 
+	if s.Domain.Materialize {
+		return nil, fmt.Errorf("fresh() not allowed on materialized domain %q — all values already exist", s.Domain.Name)
+	}
+
 	if len(ctx.Cache[s.Domain.Name]) >= s.Domain.Limit {
 		return nil, &DisableTransitionError{
 			Message: fmt.Sprintf("symmetry limit reached for domain %q (limit %d)", s.Domain.Name, s.Domain.Limit),
@@ -408,10 +428,10 @@ func (s *Segment) fresh(thread *starlark.Thread, _ *starlark.Builtin, args starl
 		newID, err = midpoint(0, ordinalMax)
 	} else if s.IsHead {
 		// (0, Right)
-		newID, err = midpoint(0, s.Right)
+		newID, err = ordinalBefore(s.Right)
 	} else if s.IsTail {
 		// (Left, ordinalMax)
-		newID, err = midpoint(s.Left, ordinalMax)
+		newID, err = ordinalAfter(s.Left)
 	} else {
 		// (Left, Right)
 		newID, err = midpoint(s.Left, s.Right)
@@ -564,7 +584,7 @@ func (d *SymmetryDomain) fresh(thread *starlark.Thread, _ *starlark.Builtin, arg
 			nextID, err = midpoint(0, ordinalMax)
 		} else {
 			// Append after max: midpoint(maxID, ordinalMax)
-			nextID, err = midpoint(maxID, ordinalMax)
+			nextID, err = ordinalAfter(maxID)
 		}
 		if err != nil {
 			return nil, fmt.Errorf("ordinal symmetry overflow: %v", err)
-- 
2.43.0


From 38eb9941865f302a8e3e699db3e4b46f354045db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:22 +0000
Subject: [PATCH 30/51] fix: the JSON text of a map with containers as keys
 depended on insertion order

---
 lib/jsonmarshaller.go | 43 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/lib/jsonmarshaller.go b/lib/jsonmarshaller.go
index 5293c49..62a8af2 100644
--- a/lib/jsonmarshaller.go
+++ b/lib/jsonmarshaller.go
@@ -184,6 +184,42 @@ func (e *encoder) encodeItems(items []starlark.Tuple, depth int) ([]byte, error)
 	return []byte(buf.String()), nil
 }
 
+// keyString returns the text of a key of a dictionary. The String() of an unordered
+// container depends on the order of insertion, so those have their JSON text instead.
+func (e *encoder) keyString(k starlark.Value, depth int) string {
+	if hasUnorderedString(k) {
+		if b, err := e.encode(k, depth+1); err == nil {
+			return string(b)
+		}
+	}
+	return k.String()
+}
+
+func hasUnorderedString(v starlark.Value) bool {
+	switch v.Type() {
+	case "set", "dict", "genericset", "genericmap", "bag":
+		return true
+	case "record", "struct":
+		dict := starlark.StringDict{}
+		v.(interface{ ToStringDict(starlark.StringDict) }).ToStringDict(dict)
+		for _, x := range dict {
+			if hasUnorderedString(x) {
+				return true
+			}
+		}
+	case "list", "tuple":
+		iter := v.(starlark.Iterable).Iterate()
+		defer iter.Done()
+		var x starlark.Value
+		for iter.Next(&x) {
+			if hasUnorderedString(x) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func (e *encoder) encodeUntagged(m starlark.Value, depth int) ([]byte, error) {
 	// TODO: using depth to limit the depth of recursion for json export to handle circular references.
 	// Ideally, this should be dealt with by managing the visited nodes in the graph.
@@ -270,8 +306,9 @@ func (e *encoder) encodeUntagged(m starlark.Value, depth int) ([]byte, error) {
 			// NO, `String()` on a dict returns "{...}" which might depend on internal order.
 			// But here items[i][0] are keys. Keys are usually immutable (strings, ints, tuples).
 			// Tuples containing dicts are invalid keys.
-			// So String() comparison is mostly safe for keys.
-			return items[i][0].String() < items[j][0].String()
+			// So String() comparison is mostly safe for keys. A genericmap can have
+			// other keys, see keyString.
+			return e.keyString(items[i][0], depth) < e.keyString(items[j][0], depth)
 		})
 		buf := strings.Builder{}
 		buf.WriteString("{")
@@ -304,7 +341,7 @@ func (e *encoder) encodeUntagged(m starlark.Value, depth int) ([]byte, error) {
 			}
 
 			if k.Type() != "string" {
-				k = starlark.String(k.String())
+				k = starlark.String(e.keyString(k, depth))
 			}
 			kb, err := e.encode(k, depth+1)
 			if err != nil {
-- 
2.43.0


From 1f1121dd94c0321df90c4e204d98bb7067d27295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:27 +0000
Subject: [PATCH 31/51] fix: initial values of ephemeral fields were shared
 between branches and copied the roles they refer to

---
 lib/starlark_role.go          |  7 ++++++-
 modelchecker/clone.go         |  6 +++++-
 modelchecker/processor.go     |  5 +++--
 modelchecker/state_visitor.go |  1 +
 modelchecker/thread.go        | 18 ++++++++++++------
 5 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/lib/starlark_role.go b/lib/starlark_role.go
index 896b9ad..440d00d 100644
--- a/lib/starlark_role.go
+++ b/lib/starlark_role.go
@@ -172,7 +172,12 @@ func (r *Role) Fingerprint() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	return []byte(fmt.Sprintf("%q%s%s", r.RefString(), params, fields)), nil
+	// The initial values of the ephemeral fields come back when the role crashes.
+	initValues, err := Fingerprint(r.InitValues)
+	if err != nil {
+		return nil, err
+	}
+	return []byte(fmt.Sprintf("%q%s%s%s", r.RefString(), params, fields, initValues)), nil
 }
 
 func (r *Role) RefString() string {
diff --git a/modelchecker/clone.go b/modelchecker/clone.go
index ebfe810..33e71dd 100644
--- a/modelchecker/clone.go
+++ b/modelchecker/clone.go
@@ -263,6 +263,10 @@ func deepCloneStarlarkValueWithPermutations(value starlark.Value, refs map[starl
 			if err != nil {
 				return nil, err
 			}
+			initValues, err := deepCloneStarlarkValueWithPermutations(r.InitValues, refs, permutations, alt)
+			if err != nil {
+				return nil, err
+			}
 			newRole := &lib.Role{
 				ID:          id,
 				Name:        prefix,
@@ -271,7 +275,7 @@ func deepCloneStarlarkValueWithPermutations(value starlark.Value, refs map[starl
 				Fields:      fields.(*lib.Struct),
 				Methods:     r.Methods,
 				RoleMethods: r.RoleMethods,
-				InitValues:  r.InitValues,
+				InitValues:  initValues.(*lib.Struct),
 			}
 			refs[value] = newRole
 			return newRole, nil
diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 32666be..ba5b5b8 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -3599,8 +3599,9 @@ func (p *Processor) ResetEphemeralVariables(node *Node, oldRole *lib.Role) {
 	if role == nil {
 		return
 	}
-	for _, fieldName := range role.InitValues.AttrNames() {
-		attr, _ := role.InitValues.Attr(fieldName)
+	initValues := node.copyOfFields(role.InitValues)
+	for _, fieldName := range initValues.AttrNames() {
+		attr, _ := initValues.Attr(fieldName)
 		role.Fields.SetField(fieldName, attr)
 	}
 }
diff --git a/modelchecker/state_visitor.go b/modelchecker/state_visitor.go
index b2447db..d3a9f67 100644
--- a/modelchecker/state_visitor.go
+++ b/modelchecker/state_visitor.go
@@ -196,6 +196,7 @@ func visitStarlarkValue(value starlark.Value, visitor StateVisitor, visited map[
 		}
 		visitStarlarkValue(role.Fields, visitor, visited)
 		visitStarlarkValue(role.Params, visitor, visited)
+		visitStarlarkValue(role.InitValues, visitor, visited)
 
 	case "RoleStub":
 		stub := value.(*lib.RoleStub)
diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index bdd6b66..7a3ac4f 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -1368,13 +1368,19 @@ func (t *Thread) endOfBlock() ([]*Process, bool) {
 	return nil, false
 }
 
-func (t *Thread) CopyInitValuesForEphemeralFields(oldFrame *CallFrame) {
-	fields := oldFrame.obj.Fields
-	fieldsCloned, err := deepCloneStarlarkValue(fields, nil)
-	if err != nil {
-		panic(err)
+// copyOfFields returns a copy of the fields of a role that refers to the same roles.
+func (p *Process) copyOfFields(fields *lib.Struct) *lib.Struct {
+	refs := make(map[starlark.Value]starlark.Value)
+	for _, role := range p.Roles {
+		refs[role] = role
 	}
-	fieldsClonedStruct := fieldsCloned.(*lib.Struct)
+	cloned, err := deepCloneStarlarkValue(fields, refs)
+	PanicOnError(err)
+	return cloned.(*lib.Struct)
+}
+
+func (t *Thread) CopyInitValuesForEphemeralFields(oldFrame *CallFrame) {
+	fieldsClonedStruct := t.Process.copyOfFields(oldFrame.obj.Fields)
 	for _, fieldName := range fieldsClonedStruct.AttrNames() {
 		isDurable := t.Process.durabilitySpec.IsFieldDurable(oldFrame.obj.Name, fieldName)
 		if isDurable {
-- 
2.43.0


From a7ac3accacee4826555de61f5722bc3bbd05f863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:27 +0000
Subject: [PATCH 32/51] fix: a role crash took the executions of other
 instances along; roles did not crash after one of their executions

---
 modelchecker/processor.go | 92 ++++++++++++++++++++++-----------------
 1 file changed, 53 insertions(+), 39 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index ba5b5b8..c5b8e59 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -1194,6 +1194,9 @@ type Processor struct {
 	// p.queue after a yield-point's expansion completes.
 	expandedYieldPoints []*Node
 
+	// crashedThreads holds the nodes crashThread added since the last expansion.
+	crashedThreads []*Node
+
 	// peakQueueLen: maximum observed length of p.queue during the run.
 	// Tracks the design's specific target metric (peak processing-queue
 	// memory). Reported in the run summary.
@@ -1591,6 +1594,24 @@ func (p *Processor) expandToYield(node *Node, startTime time.Time, prevCount *in
 				break
 			}
 		}
+		// The roles may crash after one of their threads, too.
+		crashedThreads := p.crashedThreads
+		p.crashedThreads = nil
+		for _, crashNode := range crashedThreads {
+			if crashFailedNode != nil && !p.config.ContinueOnInvariantFailures {
+				break
+			}
+			if crashNode.Process == nil || !crashNode.Enabled {
+				continue
+			}
+			crashed := p.crashProcess(crashNode)
+			if crashed != nil && crashFailedNode == nil {
+				crashFailedNode = crashed
+			}
+		}
+		if crashFailedNode != nil && !p.config.ContinueOnInvariantFailures {
+			break
+		}
 		if p.intermediateStates.Len() == 0 {
 			break
 		}
@@ -2511,10 +2532,14 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 }
 
 func (p *Processor) crashProcess(node *Node) *Node {
-	// For each thread, iterate over the stack frames from the deepest to the top.
-	// find all the roles that present in the nested layers of the stack frames, but not at the top in each thread.
-	safeRolesList := make([]*lib.Role, 0)
-	for _, thread := range node.GetThreads() {
+	return p.crashRoles(node, nil)
+}
+
+// waitingRoles returns the references of the roles that wait for another role to return:
+// those that are in the nested layers of the stack frames, but not at the top, in some thread.
+func waitingRoles(process *Process) []string {
+	waiting := make([]string, 0)
+	for _, thread := range process.GetThreads() {
 		frames := thread.Stack.RawArray()
 		if len(frames) <= 1 {
 			continue
@@ -2525,47 +2550,33 @@ func (p *Processor) crashProcess(node *Node) *Node {
 			if role == nil || role == topFrame.obj {
 				continue
 			}
-			safeRolesList = append(safeRolesList, role)
+			waiting = append(waiting, role.RefString())
 		}
 	}
-	roleMap := make(map[string]int)
-	for i, role := range p.Files[0].Roles {
-		roleMap[role.Name] = i
-	}
-	failedNode := p.crashRoles(node, slices.Clone(safeRolesList))
-	if failedNode != nil {
-		return failedNode
-	}
-	//for _, role := range node.Roles {
-	//	if !slices.Contains(safeRolesList, role) {
-	//		failedNode := p.crashRoles(node, role, slices.Clone(safeRolesList))
-	//		if failedNode != nil {
-	//			return failedNode
-	//		}
-	//	}
-	//}
-	return nil
+	return waiting
 }
 
-func (p *Processor) crashRoles(node *Node, safeRolesList []*lib.Role) *Node {
-	var failedNode *Node
-	var crashNode *Node
+// crashRoles crashes every role that may crash at the node, except for those that have just crashed.
+func (p *Processor) crashRoles(node *Node, crashed []string) *Node {
+	waiting := waitingRoles(node.Process)
 	for _, role := range node.Roles {
-		if !slices.Contains(safeRolesList, role) {
-			crashNode, failedNode = p.crashRole(node, role)
-			if failedNode != nil {
-				return failedNode
-			}
-			if crashNode == nil {
-				continue
-			}
-			failedNode = p.crashRoles(crashNode, slices.Clone(append(safeRolesList, role)))
-			if failedNode != nil {
-				return failedNode
-			}
+		ref := role.RefString()
+		if slices.Contains(waiting, ref) || slices.Contains(crashed, ref) {
+			continue
+		}
+		crashNode, failedNode := p.crashRole(node, role)
+		if failedNode != nil {
+			return failedNode
+		}
+		if crashNode == nil {
+			continue
+		}
+		failedNode = p.crashRoles(crashNode, append(slices.Clone(crashed), ref))
+		if failedNode != nil {
+			return failedNode
 		}
 	}
-	return failedNode
+	return nil
 }
 
 func (p *Processor) crashRole(node *Node, role *lib.Role) (*Node, *Node) {
@@ -2582,7 +2593,7 @@ func (p *Processor) crashRole(node *Node, role *lib.Role) (*Node, *Node) {
 	}
 	p.recordTraceProgress(crashNode)
 	for i, thread := range crashNode.Threads {
-		if thread == nil || thread.currentFrame().obj == nil || thread.currentFrame().obj.Name != role.Name {
+		if thread == nil || thread.currentFrame().obj == nil || thread.currentFrame().obj.RefString() != role.RefString() {
 			continue
 		}
 		crashNode.removeThread(i)
@@ -2640,6 +2651,9 @@ func (p *Processor) crashThread(node *Node) {
 	crashNode.Attach()
 	p.visited[canonicalHash] = crashNode
 	p.publishYieldPoint(crashNode, nil)
+	if !p.simulation {
+		p.crashedThreads = append(p.crashedThreads, crashNode)
+	}
 }
 
 func (p *Process) getSymmetryTranslations() []string {
-- 
2.43.0


From 19a2e1a1eff04c2b25d66efd0b9d43cb7858bdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:04 +0000
Subject: [PATCH 33/51] fix: roles that refer to each other were no longer the
 same roles after a branch

---
 modelchecker/clone.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/modelchecker/clone.go b/modelchecker/clone.go
index 33e71dd..18c0b56 100644
--- a/modelchecker/clone.go
+++ b/modelchecker/clone.go
@@ -255,6 +255,15 @@ func deepCloneStarlarkValueWithPermutations(value starlark.Value, refs map[starl
 		if cached, ok := refs[value]; ok {
 			return cached, nil
 		} else {
+			// Registered before its fields are cloned: they can refer to the role.
+			newRole := &lib.Role{
+				ID:          id,
+				Name:        prefix,
+				Symmetric:   r.IsSymmetric(),
+				Methods:     r.Methods,
+				RoleMethods: r.RoleMethods,
+			}
+			refs[value] = newRole
 			params, err := deepCloneStarlarkValueWithPermutations(r.Params, refs, permutations, alt)
 			if err != nil {
 				return nil, err
@@ -267,17 +276,9 @@ func deepCloneStarlarkValueWithPermutations(value starlark.Value, refs map[starl
 			if err != nil {
 				return nil, err
 			}
-			newRole := &lib.Role{
-				ID:          id,
-				Name:        prefix,
-				Symmetric:   r.IsSymmetric(),
-				Params:      params.(*lib.Struct),
-				Fields:      fields.(*lib.Struct),
-				Methods:     r.Methods,
-				RoleMethods: r.RoleMethods,
-				InitValues:  initValues.(*lib.Struct),
-			}
-			refs[value] = newRole
+			newRole.Params = params.(*lib.Struct)
+			newRole.Fields = fields.(*lib.Struct)
+			newRole.InitValues = initValues.(*lib.Struct)
 			return newRole, nil
 		}
 	default:
-- 
2.43.0


From 03311bbe68922826f07cad1adc0fe7d85d9ef65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:04 +0000
Subject: [PATCH 34/51] fix: a transition assertion could change the state
 before the step

---
 modelchecker/invariants.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index 796aa9a..dfa42d9 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -240,7 +240,7 @@ func CheckTransitionAssertion(process *Process, invariant *ast.Invariant, index
 	}
 	cloned := process.CloneForAssert(nil, 0)
 	cloned.Heap.state[afterParam] = starlarkstruct.FromStringDict(starlark.String(afterParam), cloned.Heap.state)
-	cloned.Heap.state[beforeParam] = starlarkstruct.FromStringDict(starlark.String(beforeParam), before.Heap.state)
+	cloned.Heap.state[beforeParam] = starlarkstruct.FromStringDict(starlark.String(beforeParam), CloneDict(before.Heap.state, make(map[starlark.Value]starlark.Value), nil, 0))
 
 	return execAssertionFunction(cloned, index, invariant)
 }
-- 
2.43.0


From 4df42528aa4a0ead5ab28af02be69b57b4b6e00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:04 +0000
Subject: [PATCH 35/51] fix: the text of roles that refer to each other did not
 end

---
 lib/starlark_role.go | 50 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/lib/starlark_role.go b/lib/starlark_role.go
index 440d00d..1bdd89c 100644
--- a/lib/starlark_role.go
+++ b/lib/starlark_role.go
@@ -3,9 +3,11 @@ package lib
 import (
 	ast "fizz/proto"
 	"fmt"
+	"reflect"
 	"strings"
 
 	"go.starlark.net/starlark"
+	"go.starlark.net/starlarkstruct"
 )
 
 var (
@@ -127,6 +129,10 @@ func (r *Role) AttrNames() []string {
 }
 
 func (r *Role) String() string {
+	if refersTo(r.Params, r, map[starlark.Value]bool{}) || refersTo(r.Fields, r, map[starlark.Value]bool{}) {
+		// The text of its fields would contain itself.
+		return r.RefString()
+	}
 	b := strings.Builder{}
 	b.WriteString(fmt.Sprintf("role %s#%d (", r.Name, r.GetRef()))
 	if len(r.Params.AttrNames()) > 0 {
@@ -138,6 +144,50 @@ func (r *Role) String() string {
 	return b.String()
 }
 
+// refersTo says whether v contains the role, directly or in another value.
+func refersTo(v starlark.Value, r *Role, visited map[starlark.Value]bool) bool {
+	if reflect.TypeOf(v).Kind() == reflect.Ptr {
+		if visited[v] {
+			return false
+		}
+		visited[v] = true
+	}
+	switch v := v.(type) {
+	case *Role:
+		return v == r || refersTo(v.Params, r, visited) || refersTo(v.Fields, r, visited)
+	case *Struct:
+		entries := starlark.StringDict{}
+		v.ToStringDict(entries)
+		for _, e := range entries {
+			if refersTo(e, r, visited) {
+				return true
+			}
+		}
+	case *starlarkstruct.Struct:
+		for _, name := range v.AttrNames() {
+			if e, err := v.Attr(name); err == nil && refersTo(e, r, visited) {
+				return true
+			}
+		}
+	case starlark.IterableMapping:
+		for _, item := range v.Items() {
+			if refersTo(item[0], r, visited) || refersTo(item[1], r, visited) {
+				return true
+			}
+		}
+	case starlark.Iterable:
+		iter := v.Iterate()
+		defer iter.Done()
+		var e starlark.Value
+		for iter.Next(&e) {
+			if refersTo(e, r, visited) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func (r *Role) MarshalJSON() ([]byte, error) {
 	b := strings.Builder{}
 	b.WriteString("{")
-- 
2.43.0


From 0d0469e14ca288289b474308800c80ad931a6c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:04 +0000
Subject: [PATCH 36/51] fix: actions could change constant genericsets,
 genericmaps, bags and records, on all branches

---
 lib/starlark_types.go | 49 ++++++++++++++++++++++++++++++++++++++++---
 lib/starlarkstruct.go |  8 +++++++
 2 files changed, 54 insertions(+), 3 deletions(-)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index 23c6c58..1c67dbe 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -232,6 +232,12 @@ func updateDict(dict *GenericMap, args starlark.Tuple, kwargs []starlark.Tuple)
 type GenericMap struct {
 	// Should this simply be a slice of values instead?
 	entries []starlark.Tuple
+	frozen  bool
+}
+
+// frozenError reports an attempt to change a value that is constant.
+func frozenError(v starlark.Value) error {
+	return fmt.Errorf("cannot change frozen %s", v.Type())
 }
 
 func (g *GenericMap) CompareSameType(op syntax.Token, y_ starlark.Value, depth int) (bool, error) {
@@ -310,6 +316,9 @@ func (g *GenericMap) Get(key starlark.Value) (v starlark.Value, found bool, err
 }
 
 func (g *GenericMap) SetKey(key, value starlark.Value) error {
+	if g.frozen {
+		return frozenError(g)
+	}
 	for i, entry := range g.entries {
 		if eq, err := starlark.Equal(entry[0], key); err != nil {
 			return fmt.Errorf("%s: %v", "genericmap", err)
@@ -362,6 +371,10 @@ func (g *GenericMap) Type() string {
 }
 
 func (g *GenericMap) Freeze() {
+	if g.frozen {
+		return
+	}
+	g.frozen = true
 	for _, entry := range g.entries {
 		entry.Freeze()
 	}
@@ -376,11 +389,17 @@ func (g *GenericMap) Hash() (uint32, error) {
 }
 
 func (g *GenericMap) Clear() error {
+	if g.frozen {
+		return frozenError(g)
+	}
 	g.entries = nil
 	return nil
 }
 
 func (g *GenericMap) Delete(k starlark.Value) (v starlark.Value, found bool, err error) {
+	if g.frozen {
+		return nil, false, frozenError(g)
+	}
 	for i, entry := range g.entries {
 		if eq, err := starlark.Equal(entry[0], k); err != nil {
 			return nil, false, fmt.Errorf("%s: %v", "genericmap", err)
@@ -467,7 +486,9 @@ func dict_popitem(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple,
 		return nil, err
 	}
 	recv := b.Receiver().(*GenericMap)
-	recv.Len()
+	if recv.frozen {
+		return nil, nameErr(b, frozenError(recv))
+	}
 
 	if recv.Len() == 0 {
 		return nil, nameErr(b, "empty dict")
@@ -887,6 +908,9 @@ func set_pop(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwarg
 		return nil, err
 	}
 	recv := b.Receiver().(*GenericSet)
+	if recv.dict.frozen {
+		return nil, nameErr(b, frozenError(recv))
+	}
 	if recv.Len() <= 0 {
 		return nil, nameErr(b, "empty set")
 	}
@@ -975,7 +999,8 @@ func NewBag(elems []starlark.Value) *Bag {
 }
 
 type Bag struct {
-	elems []starlark.Value
+	elems  []starlark.Value
+	frozen bool
 }
 
 func (b *Bag) Get(value starlark.Value) (v starlark.Value, found bool, err error) {
@@ -1080,7 +1105,13 @@ func (b *Bag) Type() string {
 }
 
 func (b *Bag) Freeze() {
-
+	if b.frozen {
+		return
+	}
+	b.frozen = true
+	for _, elem := range b.elems {
+		elem.Freeze()
+	}
 }
 
 func (b *Bag) Truth() starlark.Bool {
@@ -1101,6 +1132,9 @@ func sortAsString(entries []starlark.Value) []starlark.Value {
 }
 
 func (b *Bag) Insert(val starlark.Value) error {
+	if b.frozen {
+		return frozenError(b)
+	}
 	pos, _ := slices.BinarySearchFunc(b.elems, val, func(x, y starlark.Value) int {
 		return cmp.Compare(x.String(), y.String())
 	})
@@ -1126,6 +1160,9 @@ func (b *Bag) InsertAll(v starlark.Iterable) error {
 }
 
 func (b *Bag) Delete(k starlark.Value) (bool, error) {
+	if b.frozen {
+		return false, frozenError(b)
+	}
 	index, err := b.Find(k)
 	if err != nil || index < 0 {
 		return index >= 0, err
@@ -1152,6 +1189,9 @@ func (b *Bag) Find(k starlark.Value) (int, error) {
 }
 
 func (b *Bag) Clear() error {
+	if b.frozen {
+		return frozenError(b)
+	}
 	b.elems = nil
 	return nil
 }
@@ -1215,6 +1255,9 @@ func bag_pop(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwarg
 		return nil, err
 	}
 	recv := b.Receiver().(*Bag)
+	if recv.frozen {
+		return nil, nameErr(b, frozenError(recv))
+	}
 	if recv.Len() <= 0 {
 		return nil, nameErr(b, "empty set")
 	}
diff --git a/lib/starlarkstruct.go b/lib/starlarkstruct.go
index d6e01ae..d1c979b 100644
--- a/lib/starlarkstruct.go
+++ b/lib/starlarkstruct.go
@@ -108,9 +108,13 @@ func (s *Struct) ReplaceEntriesFromStringDict(d starlark.StringDict) {
 type Struct struct {
 	constructor starlark.Value
 	entries     entries // sorted by name
+	frozen      bool
 }
 
 func (s *Struct) SetField(name string, val starlark.Value) error {
+	if s.frozen {
+		return frozenError(s)
+	}
 	for i, e := range s.entries {
 		if e.name == name {
 			s.entries[i] = entry{name, val}
@@ -213,6 +217,10 @@ func (s *Struct) Hash() (uint32, error) {
 	return 0, fmt.Errorf("unhashable type: record")
 }
 func (s *Struct) Freeze() {
+	if s.frozen {
+		return
+	}
+	s.frozen = true
 	for _, e := range s.entries {
 		e.value.Freeze()
 	}
-- 
2.43.0


From adf5fb382de3569988b805ca60f17aa3722a0d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:18 +0000
Subject: [PATCH 37/51] fix: values chosen by any and parallel for were no
 longer shared with the state, or shared between branches

---
 modelchecker/processor.go |  9 ++++++++-
 modelchecker/thread.go    | 30 ++++++++++--------------------
 2 files changed, 18 insertions(+), 21 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index c5b8e59..9562809 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -342,6 +342,13 @@ func (p *Process) IsYieldNode() bool {
 }
 
 func (p *Process) Fork() *Process {
+	fork, _ := p.forkWithRefs()
+	return fork
+}
+
+// forkWithRefs returns a copy of the process, and which of its values are copies
+// of which values of this process.
+func (p *Process) forkWithRefs() (*Process, map[starlark.Value]starlark.Value) {
 	refs := make(map[starlark.Value]starlark.Value)
 
 	p2 := &Process{
@@ -399,7 +406,7 @@ func (p *Process) Fork() *Process {
 		}
 	}
 
-	return p2
+	return p2, refs
 }
 
 func (p *Process) CloneForAssert(permutations map[*lib.SymmetricValue][]*lib.SymmetricValue, alt int) *Process {
diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 7a3ac4f..5d14ca1 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -694,16 +694,12 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 		var x starlark.Value
 		for iter.Next(&x) {
 			//fmt.Printf("anyVariable: x: %s\n", x.String())
-			fork := t.Process.Fork()
+			fork, refs := t.Process.forkWithRefs()
 			fork.Name = fmt.Sprintf("Any:%s=%s", stmt.AnyStmt.LoopVars[0], x.String())
 			fork.ChoiceFairness = stmt.AnyStmt.Fairness.GetLevel()
-			if r, ok := x.(*lib.Role); ok {
-				for _, role := range fork.Roles {
-					if r.RefString() == role.RefString() {
-						x = role
-						break
-					}
-				}
+			// The chosen value is part of this process; the fork gets its own copy of it.
+			if cloned, err := deepCloneStarlarkValue(x, refs); err == nil {
+				x = cloned
 			}
 			if stmt.AnyStmt.Block == nil {
 				fork.updateVariable(stmt.AnyStmt.LoopVars[0], x)
@@ -1142,7 +1138,7 @@ func (t *Thread) executeForStatement() ([]*Process, bool) {
 		return nil, false
 	}
 	forks := make([]*Process, 0)
-	for i, x := range scope.loopRange {
+	for i := range scope.loopRange {
 		// TODO(jp): This is a hack. We should not be forking for each iteration,
 		// instead, create a new thread for each iteration.
 		// That is because, even though, for the correctness analysis, the Current formulation is fine,
@@ -1154,18 +1150,12 @@ func (t *Thread) executeForStatement() ([]*Process, bool) {
 		// This is a subtle difference, but it will be important in the future for performance analysis. After all,
 		// if anyone uses parallel flow, it is to speed up.
 		fork := t.Process.Fork()
-		if r, ok := x.(*lib.Role); ok {
-			for _, role := range fork.Roles {
-				if r.RefString() == role.RefString() {
-					x = role
-					break
-				}
-			}
-		}
-		fork.currentThread().currentFrame().scope.vars[scope.loopVars[0]] = x
+		// The loop values are part of this process; the fork has its own copies of them.
+		forkScope := fork.currentThread().currentFrame().scope
+		x := forkScope.loopRange[i]
+		forkScope.vars[scope.loopVars[0]] = x
 		fork.Name = fmt.Sprintf("For:%s", x.String())
-		newSlice := removeElement(scope.loopRange, i)
-		fork.currentThread().currentFrame().scope.loopRange = newSlice
+		forkScope.loopRange = removeElement(forkScope.loopRange, i)
 
 		forks = append(forks, fork)
 	}
-- 
2.43.0


From 5f8bb4e960602f62b69215d3ea0a7369fee78962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:18 +0000
Subject: [PATCH 38/51] fix: objects shared by a state variable and a role were
 separated at the end of Init

---
 modelchecker/thread.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 5d14ca1..10e231c 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -1278,11 +1278,10 @@ func (t *Thread) endOfBlock() ([]*Process, bool) {
 
 			if action, ok := protobuf.(*ast.Action); ok {
 				if action.Name == "Init" {
-					roleRefs := make(map[starlark.Value]starlark.Value)
-					for _, role := range t.Process.Roles {
-						roleRefs[role] = role
-					}
-					variables := oldScope.GetAllVisibleVariables(roleRefs)
+					// Not copies: an object that a role or another container also
+					// refers to stays the same object.
+					variables := make(starlark.StringDict)
+					oldScope.getAllVisibleVariablesToDictNoCopy(variables)
 					for s, value := range variables {
 						if !t.Process.Heap.globals.Has(s) && slices.Contains(t.Process.topLevelVars, s) {
 							t.Process.Heap.insert(s, value)
-- 
2.43.0


From e9f664855510d9f5fc01652706d308a03e8ec186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:23 +0000
Subject: [PATCH 39/51] fix: do not merge states that hold different values of
 a materialized ordinal or interval domain

---
 modelchecker/processor.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 9562809..2313bc5 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2926,8 +2926,27 @@ func getSymmetryPermutations(process *Process) (*Process, map[starlark.Value]sta
 				canonical[j] = lib.NewSymmetricValueWithKind(prefix, int64(j), kind)
 			}
 
-			if kind == lib.SymmetryKindOrdinal {
-				domain := domainMap[prefix]
+			domain := domainMap[prefix]
+			if domain != nil && domain.Materialize && (kind == lib.SymmetryKindOrdinal || kind == lib.SymmetryKindInterval) {
+				// All values of the domain exist, whether the state holds them or not, and
+				// a value's position among them matters. So only the mirror image of the
+				// whole domain is symmetric.
+				identity := make([]*lib.SymmetricValue, len(used))
+				mirrored := make([]*lib.SymmetricValue, len(used))
+				sum := int64(domain.Limit - 1)
+				if kind == lib.SymmetryKindInterval {
+					sum += 2 * int64(domain.Start)
+				}
+				for j, v := range used {
+					identity[j] = lib.NewSymmetricValueWithKind(prefix, v.GetId(), kind)
+					mirrored[j] = lib.NewSymmetricValueWithKind(prefix, sum-v.GetId(), kind)
+				}
+				postProcessingMappings = append(postProcessingMappings, staticMapping{used: used, canonical: identity})
+				if domain.Reflection {
+					extraMappingForPost[len(postProcessingMappings)-1] = len(rotationalExtraMappings)
+					rotationalExtraMappings = append(rotationalExtraMappings, []staticMapping{{used: used, canonical: mirrored}})
+				}
+			} else if kind == lib.SymmetryKindOrdinal {
 				if domain != nil && domain.Reflection {
 					// Ordinal with reflection: forward (0..N-1) and reverse (N-1..0)
 					usedIDs := make([]int64, len(used))
@@ -2954,7 +2973,6 @@ func getSymmetryPermutations(process *Process) (*Process, map[starlark.Value]sta
 				// Interval symmetry: zero-shift (translate so min becomes 0).
 				// This preserves distances between values, unlike permutation.
 				minID := used[0].GetId() // used is sorted, so first element is min
-				domain := domainMap[prefix]
 				if domain != nil && domain.Reflection {
 					usedIDs := make([]int64, len(used))
 					for j, v := range used {
@@ -3005,7 +3023,6 @@ func getSymmetryPermutations(process *Process) (*Process, map[starlark.Value]sta
 				}
 				lim := int64(limit)
 
-				domain := domainMap[prefix]
 				if domain != nil && domain.Reflection {
 					// Rotational with reflection
 					candidates := lib.GetCanonicalRotationsWithReflection(usedIDs, limit)
-- 
2.43.0


From 8dc6fab29691f9554cbb5e64e212e879f67fcd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:24 +0000
Subject: [PATCH 40/51] fix: deliver a channel message with the arguments it
 was sent with

The arguments of a message in flight were the sender's own objects, so a change the
sender made later changed the message, and what the receiver did to them changed the
sender's state.
---
 modelchecker/processor.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 2313bc5..43ef226 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2865,11 +2865,21 @@ func (p *Process) GetSymmetryRoles() []*lib.SymmetricValues {
 }
 
 func (p *Process) addChannelMessage(channel *lib.Channel, roleShortRef string, frame *CallFrame, name string, vars starlark.StringDict) {
+	// The message carries the arguments as they are when it is sent. Only roles are passed
+	// by reference.
+	refs := make(map[starlark.Value]starlark.Value)
+	for _, role := range p.Roles {
+		if role != nil {
+			refs[role] = role
+		}
+	}
+	frame, err := frame.Clone(refs, nil, 0)
+	PanicOnError(err)
 	newMsg := &ChannelMessage{
 		receiver: roleShortRef,
 		frame:    frame,
 		function: name,
-		params:   vars,
+		params:   CloneDict(vars, refs, nil, 0),
 	}
 	if msgs, ok := p.ChannelMessages[channel.Id]; ok {
 		msgs = append(msgs, newMsg)
-- 
2.43.0


From ee4c16043e53c4be5a6adb1552b3c0aa17a00591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:58 +0000
Subject: [PATCH 41/51] fix: encode unsigned integer results of the Go MBT
 plugin

---
 mbt/lib/go/plugin_service.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mbt/lib/go/plugin_service.go b/mbt/lib/go/plugin_service.go
index d11e3d9..80ff01b 100644
--- a/mbt/lib/go/plugin_service.go
+++ b/mbt/lib/go/plugin_service.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	pb "github.com/fizzbee-io/fizzbee/mbt/lib/go/internalpb"
 	"golang.org/x/sync/errgroup"
+	"math"
 	"reflect"
 	"slices"
 	"strings"
@@ -495,8 +496,14 @@ func fromAnyToProtoValue(value any) *pb.Value {
 	switch rv.Kind() {
 	case reflect.String:
 		return &pb.Value{Kind: &pb.Value_StrValue{StrValue: rv.String()}}
-	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return &pb.Value{Kind: &pb.Value_IntValue{IntValue: rv.Int()}}
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		if rv.Uint() > math.MaxInt64 {
+			fmt.Printf("Value out of range: %T, %+v\n", value, value)
+			return nil
+		}
+		return &pb.Value{Kind: &pb.Value_IntValue{IntValue: int64(rv.Uint())}}
 	case reflect.Bool:
 		return &pb.Value{Kind: &pb.Value_BoolValue{BoolValue: rv.Bool()}}
 	case reflect.Map:
-- 
2.43.0


From f10b62771ac1f54192d6f6f1ec8b9e28d8060abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:58 +0000
Subject: [PATCH 42/51] fix: report an unregistered action instead of a nil
 call in the Go MBT plugin

---
 mbt/lib/go/plugin_service.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mbt/lib/go/plugin_service.go b/mbt/lib/go/plugin_service.go
index 80ff01b..c4daf44 100644
--- a/mbt/lib/go/plugin_service.go
+++ b/mbt/lib/go/plugin_service.go
@@ -298,7 +298,10 @@ func (s *FizzBeeMbtPluginServer) newCommand(req *pb.ExecuteActionRequest) (*Exec
 	roleName := req.GetRole().GetRoleName()
 	roleId := req.GetRole().GetRoleId()
 	actionName := req.GetActionName()
-	action := s.actions[roleName][actionName]
+	action, ok := s.actions[roleName][actionName]
+	if !ok {
+		return nil, fmt.Errorf("action %s for role %q is not registered", actionName, roleName)
+	}
 	var instance Role
 	var err error
 	if roleName == "" {
-- 
2.43.0


From 64c2af5757dd713a5ab5eddabadfaf5c3f8bd6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:58 +0000
Subject: [PATCH 43/51] fix: run the actions after a not implemented one in the
 Go MBT plugin

---
 mbt/lib/go/plugin_service.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbt/lib/go/plugin_service.go b/mbt/lib/go/plugin_service.go
index c4daf44..cefb602 100644
--- a/mbt/lib/go/plugin_service.go
+++ b/mbt/lib/go/plugin_service.go
@@ -162,7 +162,7 @@ func (s *FizzBeeMbtPluginServer) ExecuteActionSequences(
 	}
 
 	// Step 2: Execute
-	if err = s.executeSequencesConcurrent(allBundles); err != nil && !errors.Is(err, ErrNotImplemented) {
+	if err = s.executeSequencesConcurrent(allBundles); err != nil {
 		return nil, err
 	}
 
@@ -211,7 +211,7 @@ func (s *FizzBeeMbtPluginServer) executeSequencesSequential(
 
 func (s *FizzBeeMbtPluginServer) executeSequence(cmds []*ExecuteActionCommand, seqIdx int) error {
 	for actIdx, cmd := range cmds {
-		if err := s.executeCommand(cmd); err != nil {
+		if err := s.executeCommand(cmd); err != nil && !errors.Is(err, ErrNotImplemented) {
 			return fmt.Errorf(
 				"execution failed: sequence index %d, action index %d: %w",
 				seqIdx, actIdx, err,
-- 
2.43.0


From de1ca23c9dee0f3c2df1195f2697aedbc2195a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:58 +0000
Subject: [PATCH 44/51] fix: weight the costs of parallel links by their
 probabilities

---
 performance/markov_chain.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/performance/markov_chain.py b/performance/markov_chain.py
index 1d5eb92..fe45c76 100644
--- a/performance/markov_chain.py
+++ b/performance/markov_chain.py
@@ -133,25 +133,30 @@ def create_cost_matrices_sparse(links, model):
                 cost_matrices[counter] = sp.dok_array((links.total_nodes, links.total_nodes), dtype=np.double)
 
     node_links = {}
+    total_probs = np.zeros(links.total_nodes, dtype=np.double)
     for link in links.links:
         if (link.src,link.dest) in node_links:
             node_links[(link.src,link.dest)].append(link)
         else:
             node_links[(link.src,link.dest)] = [link]
+        for label in link.labels:
+            total_probs[link.src] += model.configs[label].probability
+
+    # The probability of any of the links between two nodes
+    transition_matrix = create_transition_matrix_sparse(links, model)
 
     for src_dest in node_links:
         sibling_links = node_links[src_dest]
-        total_prob = 0.0
+        total_prob = transition_matrix[src_dest]
+        if total_prob == 0:
+            continue
         relative_probs = []
         for link in sibling_links:
-            link_prob = 1.0
-            for label in link.labels:
-                if label not in model.configs:
-                    continue
-                config = model.configs[label]
-                for counter in config.counters:
-                    link_prob *= config.counters[counter].numeric
-            total_prob += link_prob
+            if total_probs[link.src] == 0:
+                # no probabilities declared, so all the links are equally likely
+                link_prob = total_prob / len(sibling_links)
+            else:
+                link_prob = sum(model.configs[label].probability for label in link.labels)
             relative_probs.append(link_prob)
 
         for i,link in enumerate(sibling_links):
-- 
2.43.0


From ef9806688d779ad85931fa64fdc77f14229bf92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:42 +0000
Subject: [PATCH 45/51] fix: report a violated step of a composition without
 copying a used strings.Builder

---
 main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 58b645c..bb88cc0 100644
--- a/main.go
+++ b/main.go
@@ -1244,11 +1244,11 @@ func GenerateTransitionFailurePath(from, to *ComposedNode, composition *ast.Comp
 
 	// Virtual merge node for FROM
 	mergedFromID := "\"composite_before\""
-	addCompositeNode(builder, mergedFromID, lastFromNodeIDs)
+	addCompositeNode(&builder, mergedFromID, lastFromNodeIDs)
 
 	// Virtual merge node for TO
 	mergedToID := "\"composite_after\""
-	addCompositeNode(builder, mergedToID, lastToNodeIDs)
+	addCompositeNode(&builder, mergedToID, lastToNodeIDs)
 	builder.WriteString(fmt.Sprintf("  %s -> %s [style=dashed, color=red];\n", mergedFromID, mergedToID))
 	builder.WriteString("}\n")
 	dotStr := builder.String()
@@ -1258,7 +1258,7 @@ func GenerateTransitionFailurePath(from, to *ComposedNode, composition *ast.Comp
 	}
 }
 
-func addCompositeNode(builder strings.Builder, mergedFromID string, lastFromNodeIDs []string) {
+func addCompositeNode(builder *strings.Builder, mergedFromID string, lastFromNodeIDs []string) {
 	builder.WriteString(fmt.Sprintf("  %s [label=\"Composite before\", shape=doubleoctagon, style=filled, fillcolor=orange];\n", mergedFromID))
 	for _, id := range lastFromNodeIDs {
 		builder.WriteString(fmt.Sprintf("  %s -> %s [arrowhead=none, style=dashed, color=gray];\n", id, mergedFromID))
-- 
2.43.0


From 9dd2d8b2405b15281fc6da6010b66ba539937afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:42 +0000
Subject: [PATCH 46/51] fix: join the steps of a composed spec that share a
 node in between

---
 main.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index bb88cc0..f5bbc9f 100644
--- a/main.go
+++ b/main.go
@@ -498,7 +498,8 @@ func ParseFunctionRef(input string) (string, string, error) {
 }
 
 func populateJoinHashes(joinHashes modelchecker.JoinHashes, i int, root *modelchecker.Node, fileRef string, fnRef string) {
-	visited := make(map[*modelchecker.Node]bool)
+	// A node between two yield points may belong to steps from several states.
+	visited := make(map[lib.Pair[*modelchecker.Node, *modelchecker.Node]]bool)
 
 	var dfs func(from *modelchecker.Node, current *modelchecker.Node)
 	dfs = func(from *modelchecker.Node, current *modelchecker.Node) {
@@ -506,10 +507,14 @@ func populateJoinHashes(joinHashes modelchecker.JoinHashes, i int, root *modelch
 		if from != nil && current.IsYieldNode() {
 			addToJoinHashes(joinHashes, i, from, current, fnRef)
 		}
-		if visited[current] {
+		key := lib.NewPair(from, current)
+		if current.IsYieldNode() {
+			key = lib.NewPair(current, current)
+		}
+		if visited[key] {
 			return
 		}
-		visited[current] = true
+		visited[key] = true
 
 		if current.IsYieldNode() {
 			// Add stuttering (to, to) link for new Nodes discovered
-- 
2.43.0


From e9e9e4a5d885f39ebd0ac28e2b03555efee8cb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:42 +0000
Subject: [PATCH 47/51] fix: a step that one of three composed specs lacks is
 not a joint step

---
 main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/main.go b/main.go
index f5bbc9f..dbd6cb9 100644
--- a/main.go
+++ b/main.go
@@ -385,6 +385,9 @@ func ComposeTransitions(f *ast.File, joinHashes modelchecker.JoinHashes, roots [
 		if len(sets) < 2 {
 			return fmt.Errorf("need at least 2 transition sets for key %s", key)
 		}
+		if len(sets) < len(f.Composition.GetSpecs()) {
+			continue // Some specs have no such transition, so they do not take it together
+		}
 
 		failedNode, failedTransition := cartesianProduct(sets, func(ts []lib.Pair[*modelchecker.Node, *modelchecker.Node]) (*ComposedNode, *ComposedTransition) {
 			// Check if all transitions are stuttering
-- 
2.43.0


From 463a0d8aeec8841aa2db97f922a5f87033fe912f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:42 +0000
Subject: [PATCH 48/51] fix: check the assertions of a composition in its
 initial state

---
 main.go | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index dbd6cb9..331ebdf 100644
--- a/main.go
+++ b/main.go
@@ -381,6 +381,7 @@ func ComposeTransitions(f *ast.File, joinHashes modelchecker.JoinHashes, roots [
 			break
 		}
 	}
+	initial := initialNodes(roots)
 	for key, sets := range joinHashes {
 		if len(sets) < 2 {
 			return fmt.Errorf("need at least 2 transition sets for key %s", key)
@@ -398,8 +399,10 @@ func ComposeTransitions(f *ast.File, joinHashes modelchecker.JoinHashes, roots [
 					break
 				}
 			}
-			if allStuttering {
-				return nil, nil // Skip all-stuttering transitions
+			if allStuttering && slices.ContainsFunc(ts, func(t lib.Pair[*modelchecker.Node, *modelchecker.Node]) bool {
+				return !initial[t.First]
+			}) {
+				return nil, nil // Skip all-stuttering transitions, unless they are at an initial state
 			}
 			composedFrom := make(map[string]*modelchecker.Heap)
 			composedTo := make(map[string]*modelchecker.Heap)
@@ -427,7 +430,7 @@ func ComposeTransitions(f *ast.File, joinHashes modelchecker.JoinHashes, roots [
 				processTo.FailedInvariants = failedInvariants
 				return to, nil
 			}
-			if hasTransitionInvariant {
+			if hasTransitionInvariant && !allStuttering {
 				processFrom := modelchecker.NewProcess("yield", []*ast.File{f}, nil)
 				processFrom.Enable()
 				processFrom.Heap = modelchecker.NewComposedHeap(composedFrom)
@@ -465,6 +468,30 @@ func ComposeTransitions(f *ast.File, joinHashes modelchecker.JoinHashes, roots [
 	return nil
 }
 
+// initialNodes returns the states the composed specs start from.
+func initialNodes(roots []*modelchecker.Node) map[*modelchecker.Node]bool {
+	initial := make(map[*modelchecker.Node]bool)
+	visited := make(map[*modelchecker.Node]bool)
+	var visit func(node *modelchecker.Node)
+	visit = func(node *modelchecker.Node) {
+		if node == nil || visited[node] {
+			return
+		}
+		visited[node] = true
+		if node.IsYieldNode() {
+			initial[node] = true
+			return
+		}
+		for _, link := range node.Outbound {
+			visit(link.Node)
+		}
+	}
+	for _, root := range roots {
+		visit(root)
+	}
+	return initial
+}
+
 func printComposedTransition(composed *ComposedTransition) {
 	fmt.Printf("Composed transition: ")
 	for i := range composed.From.Nodes {
-- 
2.43.0


From 80d02cb7a379427f7e0d954e1bab706eb96cd08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:53 +0000
Subject: [PATCH 49/51] fix: compare complete steps of an implementation with
 the abstract spec

---
 modelchecker/invariants.go | 8 +++-----
 modelchecker/processor.go  | 2 +-
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index dfa42d9..43bd790 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -25,10 +25,8 @@ func NewInvariantPosition(fileIndex, invariantIndex int) *InvariantPosition {
 }
 
 func CheckRefinement(process *Process, refinement *ast.Refinement, joinHashes JoinHashes) bool {
-	if process.Parent == nil {
-		return true
-	}
-	if process.Heap.CachedHashCode == process.Parent.Heap.CachedHashCode && process.Parent.Heap.CachedHashCode != "" {
+	before := stepStart(process)
+	if before == nil || process.Heap.HashCode() == before.Heap.HashCode() {
 		return true
 	}
 	fnName := ""
@@ -38,7 +36,7 @@ func CheckRefinement(process *Process, refinement *ast.Refinement, joinHashes Jo
 			break
 		}
 	}
-	fromState := ExecFunction(process.Parent.CloneForAssert(nil, 0), fnName).String()
+	fromState := ExecFunction(before.CloneForAssert(nil, 0), fnName).String()
 	toState := ExecFunction(process.CloneForAssert(nil, 0), fnName).String()
 
 	key := HashKey(fromState + "," + toState)
diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 43ef226..0defd85 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2414,7 +2414,7 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 				return true, false
 			}
 		}
-		if len(node.Process.Files[0].Refinements) > 0 {
+		if yield && len(node.Process.Files[0].Refinements) > 0 {
 			result := CheckRefinement(node.Process, p.Files[0].Refinements[0], p.hashes)
 			if !result {
 				return true, false
-- 
2.43.0


From 8de656346010f6479f2028358e349d50d75cbe8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:53 +0000
Subject: [PATCH 50/51] fix: stop the search when a step of an implementation
 is refused

---
 modelchecker/processor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 0defd85..bbe294c 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2417,6 +2417,9 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 		if yield && len(node.Process.Files[0].Refinements) > 0 {
 			result := CheckRefinement(node.Process, p.Files[0].Refinements[0], p.hashes)
 			if !result {
+				if !p.config.ContinueOnInvariantFailures {
+					p.intermediateStates.ClearAll()
+				}
 				return true, false
 			}
 		}
-- 
2.43.0


From eebc23e968318dc5456668aee23feabf0084048d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:08 +0000
Subject: [PATCH 51/51] fix: check liveness of simulated runs at the states
 between steps only

The states inside a step have no witnesses, so a simulated run that
returned to an earlier state through a choice was reported as violating
an eventually always assertion that holds.
---
 modelchecker/processor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index bbe294c..0118d19 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -3585,7 +3585,7 @@ func (p *Processor) checkEventuallyAlways(fileIndex, invariantIndex int, node *N
 		}
 		visited[currentNode] = true
 		// Check if the invariant becomes permanently true at some point
-		if !currentNode.Process.Witness[fileIndex][invariantIndex] {
+		if currentNode.IsYieldNode() && !currentNode.Process.Witness[fileIndex][invariantIndex] {
 			// If the invariant is false at this node, the "eventually always" condition fails
 			return currentNode, false
 		}
@@ -3618,7 +3618,7 @@ func (p *Processor) checkAlwaysEventually(fileIndex, invariantIndex int, node *N
 		}
 		visited[currentNode] = true
 		// Check if the invariant is true at least once in this cycle (eventually reappears)
-		if currentNode.Process.Witness[fileIndex][invariantIndex] {
+		if currentNode.IsYieldNode() && currentNode.Process.Witness[fileIndex][invariantIndex] {
 			// The invariant was true at some point, so "always eventually" holds
 			return nil, true
 		}
-- 
2.43.0

