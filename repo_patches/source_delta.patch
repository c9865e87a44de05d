From 79576d22437e169726d50a87303d846240ffcedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 01/50] fix: reject NaN floating-point values during validation

NaN compares as neither less nor greater than every other number, so a NaN
key broke the total order that the ordered stores rely on.
---
 pkg/models/datatypes/encapsulated_value.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/models/datatypes/encapsulated_value.go b/pkg/models/datatypes/encapsulated_value.go
index d31ff57..c382a22 100644
--- a/pkg/models/datatypes/encapsulated_value.go
+++ b/pkg/models/datatypes/encapsulated_value.go
@@ -3,6 +3,7 @@ package datatypes
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 
@@ -220,10 +221,16 @@ func ValidateTypeAndData(dataType, minAllowedKeyType, maxAllowedKeyType DataType
 			if kind != reflect.Float32 {
 				return &errors.ModelError{Field: "Type", Err: fmt.Errorf("'float32' has Data of kind: %s", kind.String())}
 			}
+			if math.IsNaN(reflect.ValueOf(data).Float()) {
+				return &errors.ModelError{Field: "Data", Err: fmt.Errorf("'float32' cannot be NaN")}
+			}
 		case T_float64:
 			if kind != reflect.Float64 {
 				return &errors.ModelError{Field: "Type", Err: fmt.Errorf("'float64' has Data of kind: %s", kind.String())}
 			}
+			if math.IsNaN(reflect.ValueOf(data).Float()) {
+				return &errors.ModelError{Field: "Data", Err: fmt.Errorf("'float64' cannot be NaN")}
+			}
 		case T_string:
 			if kind != reflect.String {
 				return &errors.ModelError{Field: "Type", Err: fmt.Errorf("'string' has Data of kind: %s", kind.String())}
-- 
2.43.0


From 39e9928dfe76054b0a584f770f860d3f91f2b3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 02/50] fix: enforce the type range on both ends of less and
 greater lookups

---
 internal/datastructures/btree/threadsafe_find.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/datastructures/btree/threadsafe_find.go b/internal/datastructures/btree/threadsafe_find.go
index a6b331a..802c5dc 100644
--- a/internal/datastructures/btree/threadsafe_find.go
+++ b/internal/datastructures/btree/threadsafe_find.go
@@ -291,7 +291,7 @@ func (bn *threadSafeBNode) findLessThan(key datatypes.EncapsulatedValue, typeRes
 		}
 
 		// the key in the tree is greater than the type we are looking for. So need to check the children
-		if key.Type.LessMatchType(keyValue.key.Type) {
+		if key.Type.LessMatchType(keyValue.key.Type) || typeRestrictions.MaxDataType.LessMatchType(keyValue.key.Type) {
 			break
 		}
 
@@ -415,7 +415,7 @@ func (bn *threadSafeBNode) findLessThanOrEqual(key datatypes.EncapsulatedValue,
 		}
 
 		// the key in the tree is greater than the type we are looking for. So need to check the children
-		if key.Type.LessMatchType(keyValue.key.Type) {
+		if key.Type.LessMatchType(keyValue.key.Type) || typeRestrictions.MaxDataType.LessMatchType(keyValue.key.Type) {
 			break
 		}
 
@@ -533,8 +533,8 @@ func (bn *threadSafeBNode) findGreaterThan(key datatypes.EncapsulatedValue, type
 			break
 		}
 
-		// if the key in the tree is less than the key we are searching for
-		if keyValue.key.LessMatchType(key) {
+		// if the key in the tree is less than the restriction or the key we are searching for
+		if keyValue.key.Type.LessMatchType(typeRestrictions.MinDataType) || keyValue.key.LessMatchType(key) {
 			continue
 		}
 
@@ -637,8 +637,8 @@ func (bn *threadSafeBNode) findGreaterThanOrEqual(key datatypes.EncapsulatedValu
 			break
 		}
 
-		// if the key in the tree is less than the key we are searching for
-		if keyValue.key.LessMatchType(key) {
+		// if the key in the tree is less than the restriction or the key we are searching for
+		if keyValue.key.Type.LessMatchType(typeRestrictions.MinDataType) || keyValue.key.LessMatchType(key) {
 			continue
 		}
 
-- 
2.43.0


From 1c693ae6d118f0e5a912b468582e756b4456a3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:01 +0000
Subject: [PATCH 03/50] fix: leave the tree unchanged when a create callback
 supplies nothing

---
 .../datastructures/btree/threadsafe_create.go | 42 +++++++++++++------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/internal/datastructures/btree/threadsafe_create.go b/internal/datastructures/btree/threadsafe_create.go
index a1f7d5d..9a7b98d 100644
--- a/internal/datastructures/btree/threadsafe_create.go
+++ b/internal/datastructures/btree/threadsafe_create.go
@@ -48,7 +48,16 @@ func (btree *threadSafeBTree) Create(key datatypes.EncapsulatedValue, onCreate B
 	defer func() { unlock() }()
 
 	if btree.root == nil {
-		btree.root = newBTreeNode(btree.nodeSize)
+		// only keep the new root if an item was actually created
+		root := newBTreeNode(btree.nodeSize)
+		root.lock.Lock()
+
+		_, err := root.create(func() {}, key, onCreate)
+		if root.numberOfValues != 0 {
+			btree.root = root
+		}
+
+		return err
 	}
 
 	btree.root.lock.Lock()
@@ -210,7 +219,16 @@ func (btree *threadSafeBTree) CreateOrFind(key datatypes.EncapsulatedValue, onCr
 	defer func() { unlock() }()
 
 	if btree.root == nil {
-		btree.root = newBTreeNode(btree.nodeSize)
+		// only keep the new root if an item was actually created
+		root := newBTreeNode(btree.nodeSize)
+		root.lock.Lock()
+
+		root.createOrFind(func() {}, key, onCreate, onFind)
+		if root.numberOfValues != 0 {
+			btree.root = root
+		}
+
+		return nil
 	}
 
 	btree.root.lock.Lock()
@@ -308,16 +326,16 @@ func (bn *threadSafeBNode) createTreeItem(key datatypes.EncapsulatedValue, onCre
 				return ErrorKeyAlreadyExists
 			}
 
-			// shift current values all 1 position
-			for i := bn.numberOfValues; i > index; i-- {
-				bn.keyValues[i] = bn.keyValues[i-1]
-			}
-
 			break
 		}
 	}
 
 	if value := onCreate(); value != nil {
+		// shift current values all 1 position
+		for i := bn.numberOfValues; i > index; i-- {
+			bn.keyValues[i] = bn.keyValues[i-1]
+		}
+
 		bn.numberOfValues++
 		bn.keyValues[index] = &keyValue{key: key, value: value}
 	}
@@ -342,16 +360,16 @@ func (bn *threadSafeBNode) createOrFindTreeItem(key datatypes.EncapsulatedValue,
 				return
 			}
 
-			// shift current values all 1 position
-			for i := bn.numberOfValues; i > index; i-- {
-				bn.keyValues[i] = bn.keyValues[i-1]
-			}
-
 			break
 		}
 	}
 
 	if value := onCreate(); value != nil {
+		// shift current values all 1 position
+		for i := bn.numberOfValues; i > index; i-- {
+			bn.keyValues[i] = bn.keyValues[i-1]
+		}
+
 		bn.numberOfValues++
 		bn.keyValues[index] = &keyValue{key: key, value: value}
 	}
-- 
2.43.0


From 64205832b22e8ddc59ff1f14a7b6c4001fa4432c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 04/50] fix: release the tree lock in lookups whose type range
 excludes the key or that stop early

---
 .../datastructures/btree/threadsafe_find.go     | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/datastructures/btree/threadsafe_find.go b/internal/datastructures/btree/threadsafe_find.go
index 802c5dc..bcf7d69 100644
--- a/internal/datastructures/btree/threadsafe_find.go
+++ b/internal/datastructures/btree/threadsafe_find.go
@@ -55,6 +55,9 @@ func (btree *threadSafeBTree) Find(key datatypes.EncapsulatedValue, typeRestrict
 				btree.root.findMatchType(key, func(item any) {
 					shouldContinue = onIterate(key, item)
 				})
+			} else if typeRestrictions.MaxDataType < datatypes.T_any {
+				// nothing can be found and no need to search for Any
+				btree.lock.RUnlock()
 			}
 
 			// check for Any
@@ -168,7 +171,7 @@ func (bn *threadSafeBNode) iterate(typeRestrictions v1common.TypeRestrictions, c
 		// need to recurse to all potential children from the start index
 		if !children[i].iterate(typeRestrictions, callback) {
 			for unlockIndex := i + 1; unlockIndex < len(children); unlockIndex++ {
-				bn.children[unlockIndex].lock.RUnlock()
+				children[unlockIndex].lock.RUnlock()
 			}
 
 			return false
@@ -257,6 +260,9 @@ func (btree *threadSafeBTree) FindLessThan(key datatypes.EncapsulatedValue, type
 			}
 
 			shouldContinue = btree.root.findLessThan(key, typeRestrictions, onIterate)
+		} else if typeRestrictions.MaxDataType < datatypes.T_any {
+			// nothing can be found and no need to search for Any
+			btree.lock.RUnlock()
 		}
 
 		// check for any Any
@@ -381,6 +387,9 @@ func (btree *threadSafeBTree) FindLessThanOrEqual(key datatypes.EncapsulatedValu
 			}
 
 			shouldContinue = btree.root.findLessThanOrEqual(key, typeRestrictions, onIterate)
+		} else if typeRestrictions.MaxDataType < datatypes.T_any {
+			// nothing can be found and no need to search for Any
+			btree.lock.RUnlock()
 		}
 
 		// check for any Any
@@ -511,6 +520,9 @@ func (btree *threadSafeBTree) FindGreaterThan(key datatypes.EncapsulatedValue, t
 			btree.lock.RUnlock()
 
 			btree.root.findGreaterThan(key, typeRestrictions, onIterate)
+		} else {
+			// nothing can be found
+			btree.lock.RUnlock()
 		}
 	} else {
 		btree.lock.RUnlock()
@@ -615,6 +627,9 @@ func (btree *threadSafeBTree) FindGreaterThanOrEqual(key datatypes.EncapsulatedV
 			btree.lock.RUnlock()
 
 			btree.root.findGreaterThanOrEqual(key, typeRestrictions, onIterate)
+		} else {
+			// nothing can be found
+			btree.lock.RUnlock()
 		}
 	} else {
 		btree.lock.RUnlock()
-- 
2.43.0


From bb4ff13adbd3ff8df5810d13db62629df7578818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:28 +0000
Subject: [PATCH 05/50] fix: return the set's values from SortedValues

---
 internal/datastructures/set/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/datastructures/set/set.go b/internal/datastructures/set/set.go
index c8589c4..448ffa2 100644
--- a/internal/datastructures/set/set.go
+++ b/internal/datastructures/set/set.go
@@ -89,7 +89,7 @@ func (s *set[T]) Values() []T {
 }
 
 func (s *set[T]) SortedValues() []T {
-	values := []T{}
+	values := s.Values()
 
 	sort.Slice(values, func(i, j int) bool {
 		return values[i] < values[j]
-- 
2.43.0


From 131d2f1bf63bd3fa77f7305a5e2576411c9835c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 06/50] fix: an empty nested query selects everything instead
 of dereferencing a nil set

---
 internal/datastructures/btree_associated/threadsafe_query.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/datastructures/btree_associated/threadsafe_query.go b/internal/datastructures/btree_associated/threadsafe_query.go
index b69f9da..0779a10 100644
--- a/internal/datastructures/btree_associated/threadsafe_query.go
+++ b/internal/datastructures/btree_associated/threadsafe_query.go
@@ -129,6 +129,11 @@ func (tsat *threadsafeAssociatedTree) query(query *queryassociatedaction.Associa
 		}
 	}
 
+	// nothing restricts this (nested) query, so every ID is valid
+	if validCounter == 0 {
+		validIDs = tsat.findIDs(&queryassociatedaction.Selection{})
+	}
+
 	return validIDs
 }
 
-- 
2.43.0


From 9f9e435fd85bf159f4ca874b91aa4500e0d7772a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:25 +0000
Subject: [PATCH 07/50] fix: matching tags against a query agrees with querying
 the index for several != comparisons and for queries made of Or joins only

---
 .../query_associated_action/associated_action_query.go   | 3 ++-
 .../api/common/v1/query_associated_action/selection.go   | 9 +++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/models/api/common/v1/query_associated_action/associated_action_query.go b/pkg/models/api/common/v1/query_associated_action/associated_action_query.go
index bc92797..a1335c7 100644
--- a/pkg/models/api/common/v1/query_associated_action/associated_action_query.go
+++ b/pkg/models/api/common/v1/query_associated_action/associated_action_query.go
@@ -97,7 +97,8 @@ func KeyValuesToExactAssociatedActionQuery(keyValues datatypes.KeyValues) *Assoc
 
 // used to know if arbitrary tags, would be found from a query
 func (q *AssociatedActionQuery) MatchTags(tags datatypes.KeyValues) bool {
-	matched := true
+	// a query that only has OR joins, needs to match at least one of them
+	matched := q.Selection != nil || len(q.And) != 0 || len(q.Or) == 0
 
 	// if Query is not nil, check the tags
 	if q.Selection != nil {
diff --git a/pkg/models/api/common/v1/query_associated_action/selection.go b/pkg/models/api/common/v1/query_associated_action/selection.go
index 521a08b..de3ec02 100644
--- a/pkg/models/api/common/v1/query_associated_action/selection.go
+++ b/pkg/models/api/common/v1/query_associated_action/selection.go
@@ -94,6 +94,10 @@ func (associatedSelection *Selection) MatchKeyValues(matchKeyValues datatypes.Ke
 		}
 	}
 
+	// the NotEquals comparisons exclude the passed in keyValues only when they all find their value. This is
+	// the same as when the query runs against the saved KeyValues
+	notEquals, notEqualsFound := 0, 0
+
 	// need to validate all the keys in the query against the passed in keyValues
 	for queryKey, valueQuery := range associatedSelection.KeyValues {
 		switch valueQuery.Comparison {
@@ -112,11 +116,12 @@ func (associatedSelection *Selection) MatchKeyValues(matchKeyValues datatypes.Ke
 				return false
 			}
 		case v1.NotEquals:
+			notEquals++
 			if matchValue, ok := matchKeyValues[queryKey]; ok {
 				if valueQuery.TypeRestrictions.TypeWithinRange(matchValue.Type) {
 					// the exact key we don't want to find
 					if !matchValue.Less(valueQuery.Value) && !valueQuery.Value.Less(matchValue) {
-						return false
+						notEqualsFound++
 					}
 				}
 			}
@@ -245,5 +250,5 @@ func (associatedSelection *Selection) MatchKeyValues(matchKeyValues datatypes.Ke
 		}
 	}
 
-	return true
+	return notEquals == 0 || notEqualsFound < notEquals
 }
-- 
2.43.0


From c54604a3b50bcaaded03476a6a671ae61becb545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:33 +0000
Subject: [PATCH 08/50] fix: refuse match requests with contradictory key-count
 bounds instead of panicking

---
 .../datastructures/btree_associated/threadsafe_match.go    | 2 +-
 pkg/models/api/common/v1/query_match_action/match_query.go | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_match.go b/internal/datastructures/btree_associated/threadsafe_match.go
index 9346a8c..2ed135f 100644
--- a/internal/datastructures/btree_associated/threadsafe_match.go
+++ b/internal/datastructures/btree_associated/threadsafe_match.go
@@ -113,7 +113,7 @@ func (tsat *threadsafeAssociatedTree) MatchAction(matchActionQuery *querymatchac
 
 	keyCombinations, err := datamanipulation.GenerateStringPermutations(validIDKeys, minKeys, maxKeys)
 	if err != nil {
-		panic(err)
+		return err
 	}
 
 	for _, grouping := range keyCombinations {
diff --git a/pkg/models/api/common/v1/query_match_action/match_query.go b/pkg/models/api/common/v1/query_match_action/match_query.go
index 1ac3095..6417639 100644
--- a/pkg/models/api/common/v1/query_match_action/match_query.go
+++ b/pkg/models/api/common/v1/query_match_action/match_query.go
@@ -34,6 +34,13 @@ func (matchActionQuery *MatchActionQuery) Validate() *errors.ModelError {
 		}
 	}
 
+	// ensure number of KeyValues are proper
+	if matchActionQuery.MinNumberOfPermutationKeyValues != nil && matchActionQuery.MaxNumberOfPermutationKeyValues != nil {
+		if *matchActionQuery.MaxNumberOfPermutationKeyValues < *matchActionQuery.MinNumberOfPermutationKeyValues {
+			return &errors.ModelError{Err: fmt.Errorf("MaxNumberOfPermutationKeyValues is less than MinNumberOfPermutationKeyValues")}
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 6b3641aea14a37695ffd63222af441ad96404903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:45 +0000
Subject: [PATCH 09/50] fix: a create that supplies nothing leaves no trace for
 concurrent callers and survives a pending destroy

---
 .../btree_associated/threadsafe_create.go     | 28 +++++++++++--------
 .../btree_associated/threadsafe_delete.go     | 14 ++++++----
 2 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_create.go b/internal/datastructures/btree_associated/threadsafe_create.go
index b20ec4a..248c501 100644
--- a/internal/datastructures/btree_associated/threadsafe_create.go
+++ b/internal/datastructures/btree_associated/threadsafe_create.go
@@ -133,13 +133,14 @@ func (tsat *threadsafeAssociatedTree) Create(keyValues datatypes.KeyValues, onCr
 		return "", ErrorKeyValuesAlreadyExists
 	}
 
-	// always save the new IDs so we can unlock the IDNodes
 	newID := tsat.idGenerator.ID()
-	for _, idNode := range idNodes {
-		idNode.ids[keyValuesLen-1] = append(idNode.ids[keyValuesLen-1], newID)
-	}
 
 	if newValue := onCreate(); newValue != nil {
+		// save the new IDs
+		for _, idNode := range idNodes {
+			idNode.ids[keyValuesLen-1] = append(idNode.ids[keyValuesLen-1], newID)
+		}
+
 		onCreate := func() any {
 			newKeyValuesPair := datatypes.KeyValues{}
 			for key, value := range keyValues {
@@ -171,8 +172,8 @@ func (tsat *threadsafeAssociatedTree) Create(keyValues datatypes.KeyValues, onCr
 			idNode.lock.Unlock()
 		}
 
-		// call delete for the item to clean any newly created items
-		if err := tsat.Delete(keyValues, nil); err != nil {
+		// clean any newly created items
+		if err := tsat.deleteKeyValues(newID, keyValues); err != nil {
 			panic(err)
 		}
 
@@ -300,13 +301,14 @@ func (tsat *threadsafeAssociatedTree) CreateOrFind(keyValues datatypes.KeyValues
 		return idSet.Values()[0], nil
 	}
 
-	// always save the new IDs so we can unlock the IDNodes
 	newID := tsat.idGenerator.ID()
-	for _, idNode := range idNodes {
-		idNode.ids[keyValuesLen-1] = append(idNode.ids[keyValuesLen-1], newID)
-	}
 
 	if newValue := onCreate(); newValue != nil {
+		// save the new IDs
+		for _, idNode := range idNodes {
+			idNode.ids[keyValuesLen-1] = append(idNode.ids[keyValuesLen-1], newID)
+		}
+
 		onCreate := func() any {
 			newKeyValuesPair := datatypes.KeyValues{}
 			for key, value := range keyValues {
@@ -338,8 +340,10 @@ func (tsat *threadsafeAssociatedTree) CreateOrFind(keyValues datatypes.KeyValues
 			idNode.lock.Unlock()
 		}
 
-		// call delete for the item to clean everything up
-		tsat.Delete(keyValues, nil)
+		// clean any newly created items
+		if err := tsat.deleteKeyValues(newID, keyValues); err != nil {
+			panic(err)
+		}
 	}
 
 	return newID, nil
diff --git a/internal/datastructures/btree_associated/threadsafe_delete.go b/internal/datastructures/btree_associated/threadsafe_delete.go
index d3a5d66..146dbab 100644
--- a/internal/datastructures/btree_associated/threadsafe_delete.go
+++ b/internal/datastructures/btree_associated/threadsafe_delete.go
@@ -258,12 +258,14 @@ func (tsat *threadsafeAssociatedTree) deleteKeyValues(associatedID string, keyVa
 		defer idNode.lock.Unlock()
 
 		// remove the id from the id node
-		for index, value := range idNode.ids[keyValuesLen-1] {
-			if value == associatedID {
-				// swap with last element
-				idNode.ids[keyValuesLen-1][index] = idNode.ids[keyValuesLen-1][len(idNode.ids[keyValuesLen-1])-1]
-				// pop last element
-				idNode.ids[keyValuesLen-1] = idNode.ids[keyValuesLen-1][:len(idNode.ids[keyValuesLen-1])-1]
+		if len(idNode.ids) >= keyValuesLen {
+			for index, value := range idNode.ids[keyValuesLen-1] {
+				if value == associatedID {
+					// swap with last element
+					idNode.ids[keyValuesLen-1][index] = idNode.ids[keyValuesLen-1][len(idNode.ids[keyValuesLen-1])-1]
+					// pop last element
+					idNode.ids[keyValuesLen-1] = idNode.ids[keyValuesLen-1][:len(idNode.ids[keyValuesLen-1])-1]
+				}
 			}
 		}
 
-- 
2.43.0


From aaecd0e46a71bc1605921e08ed5deb476da5e8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:45 +0000
Subject: [PATCH 10/50] fix: matching skips records that are being removed
 instead of stopping at them

---
 internal/datastructures/btree_associated/threadsafe_match.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_match.go b/internal/datastructures/btree_associated/threadsafe_match.go
index 2ed135f..12e6b9f 100644
--- a/internal/datastructures/btree_associated/threadsafe_match.go
+++ b/internal/datastructures/btree_associated/threadsafe_match.go
@@ -136,7 +136,8 @@ func (tsat *threadsafeAssociatedTree) MatchAction(matchActionQuery *querymatchac
 
 		// run the callback for all the found IDs
 		for _, id := range validGroupedIDs.Values() {
-			shouldContinue := false
+			// an id that was removed, or is being destroyed, is skipped
+			shouldContinue := true
 			tsat.associatedIDs.Find(datatypes.String(id), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, func(key datatypes.EncapsulatedValue, item any) bool {
 				shouldContinue = onQueryPagination(item.(AssociatedKeyValues))
 				return shouldContinue
-- 
2.43.0


From 452ea2da8fecbc9c49954fc6e720e2e9680c41c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:55 +0000
Subject: [PATCH 11/50] fix: destroying a record by id no longer takes the
 index locks in the opposite order of the other operations, and deleting by id
 only removes the record with that id

---
 .../btree_associated/threadsafe_create.go     |  7 +++++
 .../btree_associated/threadsafe_delete.go     | 26 +++++++++++++------
 .../btree_associated/threadsafe_destroy.go    | 12 +++++++--
 3 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_create.go b/internal/datastructures/btree_associated/threadsafe_create.go
index 248c501..24d49c9 100644
--- a/internal/datastructures/btree_associated/threadsafe_create.go
+++ b/internal/datastructures/btree_associated/threadsafe_create.go
@@ -271,7 +271,9 @@ func (tsat *threadsafeAssociatedTree) CreateOrFind(keyValues datatypes.KeyValues
 	}
 
 	// must have been a race where 2 requests tried to create the same object
+	found := false
 	bTreeFind := func(key datatypes.EncapsulatedValue, item any) bool {
+		found = true
 		onFind(item.(AssociatedKeyValues))
 		return false
 	}
@@ -298,6 +300,11 @@ func (tsat *threadsafeAssociatedTree) CreateOrFind(keyValues datatypes.KeyValues
 			idNode.lock.Unlock()
 		}
 
+		// the item was just destroyed, but the KeyValues are not yet cleaned up
+		if !found {
+			return "", ErrorTreeItemDestroying
+		}
+
 		return idSet.Values()[0], nil
 	}
 
diff --git a/internal/datastructures/btree_associated/threadsafe_delete.go b/internal/datastructures/btree_associated/threadsafe_delete.go
index 146dbab..193fcc6 100644
--- a/internal/datastructures/btree_associated/threadsafe_delete.go
+++ b/internal/datastructures/btree_associated/threadsafe_delete.go
@@ -35,6 +35,17 @@ func (tsat *threadsafeAssociatedTree) Delete(keyValues datatypes.KeyValues, canD
 	}
 	defer tsat.destroySyncer.ClearOperation()
 
+	return tsat.delete(keyValues, "", canDelete)
+}
+
+// shared logic to delete an item by the key values that define it
+//
+//	PARAMS:
+//	- keyValues - is a map of key value pairs that compose an object to be removed if found
+//	- associatedID - optional parameter to only remove the item if it still has this ID
+//	- canDalete - optional parameter to check if an item is found, whether or not the item can be deleted
+func (tsat *threadsafeAssociatedTree) delete(keyValues datatypes.KeyValues, associatedID string, canDelete BTreeAssociatedRemove) error {
+	var deleteErr error
 	var idSet set.Set[string]
 	idNodes := []*threadsafeIDNode{}
 
@@ -97,14 +108,13 @@ func (tsat *threadsafeAssociatedTree) Delete(keyValues datatypes.KeyValues, canD
 		}
 
 		// if there is only 1 value in the set, then we know that we found the desired object id
-		if idSet != nil && idSet.Size() == 1 {
-			deleted := true
+		if idSet != nil && idSet.Size() == 1 && (associatedID == "" || idSet.Values()[0] == associatedID) {
+			// if the ID is not found, then it is being destroyed and that operation also cleans up the ID nodes
+			deleted := false
 			idToDelete := idSet.Values()[0]
 
 			btreeDelete := func(_ datatypes.EncapsulatedValue, item any) bool {
-				if canDelete != nil {
-					deleted = canDelete(item.(AssociatedKeyValues))
-				}
+				deleted = canDelete == nil || canDelete(item.(AssociatedKeyValues))
 
 				return deleted
 			}
@@ -114,7 +124,7 @@ func (tsat *threadsafeAssociatedTree) Delete(keyValues datatypes.KeyValues, canD
 				switch err {
 				case btree.ErrorKeyDestroying:
 					// this is fine since the key is already being desstroyed.
-					return ErrorTreeItemDestroying
+					deleteErr = ErrorTreeItemDestroying
 				default:
 					panic(err)
 				}
@@ -182,7 +192,7 @@ func (tsat *threadsafeAssociatedTree) Delete(keyValues datatypes.KeyValues, canD
 		}
 	}
 
-	return nil
+	return deleteErr
 }
 
 // DeleteByAssociatedID removes an item from the associated tree by the associatedID.
@@ -227,7 +237,7 @@ func (tsat *threadsafeAssociatedTree) DeleteByAssociatedID(assocaitedID string,
 	}
 
 	if keyValues != nil {
-		return tsat.Delete(keyValues, canDelete)
+		return tsat.delete(keyValues, assocaitedID, canDelete)
 	}
 
 	return nil
diff --git a/internal/datastructures/btree_associated/threadsafe_destroy.go b/internal/datastructures/btree_associated/threadsafe_destroy.go
index 90aadc8..d90a3a8 100644
--- a/internal/datastructures/btree_associated/threadsafe_destroy.go
+++ b/internal/datastructures/btree_associated/threadsafe_destroy.go
@@ -24,6 +24,8 @@ func (tsat *threadsafeAssociatedTree) DestroyByAssociatedID(associatedID string,
 	}
 	defer tsat.destroySyncer.ClearOperation()
 
+	var destroyedKeyValues datatypes.KeyValues
+
 	// Don't need to check that the associatedID is being destroyed. That is handled in the bTree code.
 	bTreeCanDestroy := func(_ datatypes.EncapsulatedValue, item any) bool {
 		associatedKeyValues := item.(AssociatedKeyValues)
@@ -35,8 +37,7 @@ func (tsat *threadsafeAssociatedTree) DestroyByAssociatedID(associatedID string,
 			}
 		}
 
-		// 2. the item was destroyed, need to remove the KeyValues that define the item
-		tsat.destroyKeyValues(associatedID, associatedKeyValues.KeyValues())
+		destroyedKeyValues = associatedKeyValues.KeyValues()
 
 		return true
 	}
@@ -51,6 +52,13 @@ func (tsat *threadsafeAssociatedTree) DestroyByAssociatedID(associatedID string,
 		}
 	}
 
+	// 2. the item was destroyed, need to remove the KeyValues that define the item
+	// NOTE: this can only be done now that there are no locks held for the associatedIDs. Other operations lock the
+	// KeyValues first and then the associatedIDs
+	if destroyedKeyValues != nil {
+		tsat.destroyKeyValues(associatedID, destroyedKeyValues)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 8a0e9b5cf33d91161629714d7253503b07d5f9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:43 +0000
Subject: [PATCH 12/50] fix: grouped record could be found before its many ID
 was recorded

---
 .../btree_one_to_many/one_to_many_item.go          | 14 +++++++++++++-
 .../btree_one_to_many/threadsafe_create.go         | 14 ++------------
 .../btree_one_to_many/threadsafe_delete.go         |  2 +-
 .../btree_one_to_many/threadsafe_destroy.go        |  4 ++--
 .../btree_one_to_many/threadsafe_match.go          |  2 +-
 .../btree_one_to_many/threadsafe_query.go          |  2 +-
 6 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/internal/datastructures/btree_one_to_many/one_to_many_item.go b/internal/datastructures/btree_one_to_many/one_to_many_item.go
index 6f0d648..f9a5fe7 100644
--- a/internal/datastructures/btree_one_to_many/one_to_many_item.go
+++ b/internal/datastructures/btree_one_to_many/one_to_many_item.go
@@ -1,6 +1,9 @@
 package btreeonetomany
 
-import "github.com/DanLavine/willow/pkg/models/datatypes"
+import (
+	btreeassociated "github.com/DanLavine/willow/internal/datastructures/btree_associated"
+	"github.com/DanLavine/willow/pkg/models/datatypes"
+)
 
 type OneToManyItem interface {
 	// return the original value for the item saved in the tree
@@ -27,6 +30,15 @@ type oneToManyItem struct {
 	manyKeyValues datatypes.KeyValues
 }
 
+// newOneToManyItem adds the ID of the associated tree to the saved item. Other callers can find an item as soon as it
+// is saved, so the ID cannot be recorded on the saved item after it was created
+func newOneToManyItem(associatedKeyValues btreeassociated.AssociatedKeyValues) OneToManyItem {
+	item := *associatedKeyValues.Value().(*oneToManyItem)
+	item.manyID = associatedKeyValues.AssociatedID()
+
+	return &item
+}
+
 func (otmi *oneToManyItem) Value() any {
 	return otmi.value
 }
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_create.go b/internal/datastructures/btree_one_to_many/threadsafe_create.go
index d79451d..b8cc2c8 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_create.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_create.go
@@ -49,8 +49,6 @@ func (otm *threadsafeOneToManyTree) CreateOrFind(oneID string, manyKeyValues dat
 		threadsafeValuesNode := item.(*threadsafeValuesNode)
 
 		//create the many relationship
-		var newOneToManyItem *oneToManyItem
-		created := false
 		associatedCreate := func() any {
 			// create the original item passed in
 			item := onCreate()
@@ -58,19 +56,16 @@ func (otm *threadsafeOneToManyTree) CreateOrFind(oneID string, manyKeyValues dat
 				return nil
 			}
 
-			created = true
-			newOneToManyItem = &oneToManyItem{
+			return &oneToManyItem{
 				value:         item,
 				oneID:         oneID,
 				manyKeyValues: manyKeyValues,
 			}
-
-			return newOneToManyItem
 		}
 
 		// found the many relationship
 		associatedFind := func(item btreeassociated.AssociatedKeyValues) {
-			onFind(item.Value().(OneToManyItem))
+			onFind(newOneToManyItem(item))
 		}
 
 		// create the many relationship
@@ -90,11 +85,6 @@ func (otm *threadsafeOneToManyTree) CreateOrFind(oneID string, manyKeyValues dat
 		default:
 			panic(err)
 		}
-
-		// record the many ID if it was newly created. This is still thread safe as it is in the BTree's create method
-		if created {
-			newOneToManyItem.manyID = createOrFindID
-		}
 	}
 
 	bTreeCreateOne := func() any {
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_delete.go b/internal/datastructures/btree_one_to_many/threadsafe_delete.go
index 741e78f..cf840ae 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_delete.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_delete.go
@@ -32,7 +32,7 @@ func (tree *threadsafeOneToManyTree) DeleteOneOfManyByKeyValues(oneID string, ma
 	bTreeAssociatedDeleteMany := func(item btreeassociated.AssociatedKeyValues) bool {
 		deleted := true
 		if canDelete != nil {
-			deleted = canDelete(item.Value().(OneToManyItem))
+			deleted = canDelete(newOneToManyItem(item))
 		}
 
 		return deleted
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_destroy.go b/internal/datastructures/btree_one_to_many/threadsafe_destroy.go
index 4966d31..97fb125 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_destroy.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_destroy.go
@@ -29,7 +29,7 @@ func (tree *threadsafeOneToManyTree) DestroyOne(oneID string, canDelete OneToMan
 	deleted := true
 	bTreeAssociatedDelete := func(item btreeassociated.AssociatedKeyValues) bool {
 		if canDelete != nil {
-			deleted = canDelete(item.Value().(OneToManyItem))
+			deleted = canDelete(newOneToManyItem(item))
 		}
 
 		return deleted
@@ -83,7 +83,7 @@ func (tree *threadsafeOneToManyTree) DestroyOneOfManyByID(oneID string, manyID s
 	bTreeAssociatedDestoyMany := func(item btreeassociated.AssociatedKeyValues) bool {
 		deleted := true
 		if canDelete != nil {
-			deleted = canDelete(item.Value().(OneToManyItem))
+			deleted = canDelete(newOneToManyItem(item))
 		}
 
 		return deleted
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_match.go b/internal/datastructures/btree_one_to_many/threadsafe_match.go
index 9594a42..1dd9d55 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_match.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_match.go
@@ -29,7 +29,7 @@ func (tree *threadsafeOneToManyTree) MatchAction(oneID string, matchActionQuery
 	}
 
 	bTreeAssociatedOnIterate := func(item btreeassociated.AssociatedKeyValues) bool {
-		return onIterate(item.Value().(OneToManyItem))
+		return onIterate(newOneToManyItem(item))
 	}
 
 	bTreeFindOne := func(key datatypes.EncapsulatedValue, item any) bool {
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_query.go b/internal/datastructures/btree_one_to_many/threadsafe_query.go
index ae3cb0a..c1bdfb5 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_query.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_query.go
@@ -33,7 +33,7 @@ func (tree *threadsafeOneToManyTree) QueryAction(oneID string, query *queryassoc
 	}
 
 	bTreeAssociatedIterate := func(item btreeassociated.AssociatedKeyValues) bool {
-		return onIterate(item.Value().(OneToManyItem))
+		return onIterate(newOneToManyItem(item))
 	}
 
 	bTreeFindOne := func(key datatypes.EncapsulatedValue, item any) bool {
-- 
2.43.0


From 1829840972e46d7fa6a38340fccb07e94e2dc6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:16 +0000
Subject: [PATCH 13/50] fix: refuse a negative maximum of a match request
 instead of panicking in grouped stores

---
 pkg/models/api/common/v1/query_match_action/match_query.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/models/api/common/v1/query_match_action/match_query.go b/pkg/models/api/common/v1/query_match_action/match_query.go
index 6417639..7a9d4dd 100644
--- a/pkg/models/api/common/v1/query_match_action/match_query.go
+++ b/pkg/models/api/common/v1/query_match_action/match_query.go
@@ -41,6 +41,11 @@ func (matchActionQuery *MatchActionQuery) Validate() *errors.ModelError {
 		}
 	}
 
+	// a negative maximum can never be reached by any item, even when there is no minimum
+	if matchActionQuery.MaxNumberOfPermutationKeyValues != nil && *matchActionQuery.MaxNumberOfPermutationKeyValues < 0 {
+		return &errors.ModelError{Err: fmt.Errorf("MaxNumberOfPermutationKeyValues is less than 0")}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 320beda07c644c15c7ac36a825837aac1fbc66cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:59 +0000
Subject: [PATCH 14/50] fix: destroying an ordered store no longer panics when
 operations keep arriving (WaitGroup reused while it is waited for)

---
 .../datastructures/btree/threadsafe_b_tree.go | 22 ++-------
 .../datastructures/btree/threadsafe_create.go | 16 ++++---
 .../datastructures/btree/threadsafe_delete.go |  8 ++--
 .../btree/threadsafe_destroy.go               | 16 +++----
 .../datastructures/btree/threadsafe_find.go   | 48 ++++++++-----------
 5 files changed, 45 insertions(+), 65 deletions(-)

diff --git a/internal/datastructures/btree/threadsafe_b_tree.go b/internal/datastructures/btree/threadsafe_b_tree.go
index a9a7494..68866d3 100644
--- a/internal/datastructures/btree/threadsafe_b_tree.go
+++ b/internal/datastructures/btree/threadsafe_b_tree.go
@@ -4,8 +4,8 @@ import (
 	"fmt"
 	"math"
 	"sync"
-	"sync/atomic"
 
+	"github.com/DanLavine/willow/pkg/async"
 	"github.com/DanLavine/willow/pkg/models/datatypes"
 )
 
@@ -23,8 +23,7 @@ type threadSafeBTree struct {
 	destroyingKeys     []datatypes.EncapsulatedValue
 
 	// destroying whole tree operations
-	readWriteWG *sync.WaitGroup // operations to take place before destroy
-	destroying  *atomic.Bool    // destroying the whole tree
+	destroySyncer async.DestroySyncer
 
 	// lock for managing the root of the btree
 	lock *sync.RWMutex
@@ -76,8 +75,7 @@ func NewThreadSafe(nodeSize int) (*threadSafeBTree, error) {
 		destroyingKeysLock: new(sync.RWMutex),
 		destroyingKeys:     []datatypes.EncapsulatedValue{},
 
-		readWriteWG: new(sync.WaitGroup),
-		destroying:  new(atomic.Bool),
+		destroySyncer: async.NewDestroySync(),
 
 		lock: new(sync.RWMutex),
 		root: nil, // NOTE: this is nil because it can be removed on a "delete". So that case always needs to be handled
@@ -97,19 +95,7 @@ func (bt *threadSafeBTree) Empty() bool {
 
 // general helper functions
 
-func (btree *threadSafeBTree) checkDestroying() error {
-	if btree.destroying.Load() {
-		return ErrorTreeDestroying
-	}
-
-	return nil
-}
-
-func (btree *threadSafeBTree) checkDestroyingWithKey(key datatypes.EncapsulatedValue) error {
-	if err := btree.checkDestroying(); err != nil {
-		return err
-	}
-
+func (btree *threadSafeBTree) checkDestroying(key datatypes.EncapsulatedValue) error {
 	btree.destroyingKeysLock.RLock()
 	defer btree.destroyingKeysLock.RUnlock()
 
diff --git a/internal/datastructures/btree/threadsafe_create.go b/internal/datastructures/btree/threadsafe_create.go
index 9a7b98d..ddf471f 100644
--- a/internal/datastructures/btree/threadsafe_create.go
+++ b/internal/datastructures/btree/threadsafe_create.go
@@ -32,10 +32,12 @@ func (btree *threadSafeBTree) Create(key datatypes.EncapsulatedValue, onCreate B
 	}
 
 	// destroy checks
-	btree.readWriteWG.Add(1)
-	defer btree.readWriteWG.Add(-1)
+	if !btree.destroySyncer.GuardOperation() {
+		return ErrorTreeDestroying
+	}
+	defer btree.destroySyncer.ClearOperation()
 
-	if err := btree.checkDestroyingWithKey(key); err != nil {
+	if err := btree.checkDestroying(key); err != nil {
 		return err
 	}
 
@@ -188,10 +190,12 @@ func (btree *threadSafeBTree) CreateOrFind(key datatypes.EncapsulatedValue, onCr
 	}
 
 	// destroy checks
-	btree.readWriteWG.Add(1)
-	defer btree.readWriteWG.Add(-1)
+	if !btree.destroySyncer.GuardOperation() {
+		return ErrorTreeDestroying
+	}
+	defer btree.destroySyncer.ClearOperation()
 
-	if err := btree.checkDestroyingWithKey(key); err != nil {
+	if err := btree.checkDestroying(key); err != nil {
 		return err
 	}
 
diff --git a/internal/datastructures/btree/threadsafe_delete.go b/internal/datastructures/btree/threadsafe_delete.go
index 4db1bf8..6cf7899 100644
--- a/internal/datastructures/btree/threadsafe_delete.go
+++ b/internal/datastructures/btree/threadsafe_delete.go
@@ -62,10 +62,12 @@ func (btree *threadSafeBTree) Delete(key datatypes.EncapsulatedValue, canDelete
 	}
 
 	// destroy checks
-	btree.readWriteWG.Add(1)
-	defer btree.readWriteWG.Add(-1)
+	if !btree.destroySyncer.GuardOperation() {
+		return ErrorTreeDestroying
+	}
+	defer btree.destroySyncer.ClearOperation()
 
-	if err := btree.checkDestroyingWithKey(key); err != nil {
+	if err := btree.checkDestroying(key); err != nil {
 		return err
 	}
 
diff --git a/internal/datastructures/btree/threadsafe_destroy.go b/internal/datastructures/btree/threadsafe_destroy.go
index 2d5f19d..6772fc6 100644
--- a/internal/datastructures/btree/threadsafe_destroy.go
+++ b/internal/datastructures/btree/threadsafe_destroy.go
@@ -21,12 +21,10 @@ func (btree *threadSafeBTree) Destroy(key datatypes.EncapsulatedValue, canDelete
 	}
 
 	// check for destroying in progress
-	btree.readWriteWG.Add(1)
-	defer btree.readWriteWG.Add(-1)
-
-	if btree.destroying.Load() {
+	if !btree.destroySyncer.GuardOperation() {
 		return ErrorTreeDestroying
 	}
+	defer btree.destroySyncer.ClearOperation()
 
 	// 1. record the key being destroyed
 	btree.destroyingKeysLock.Lock()
@@ -73,14 +71,12 @@ func (btree *threadSafeBTree) Destroy(key datatypes.EncapsulatedValue, canDelete
 //	- error - any errors when trying to destroy he key
 //	        - 1. ErrorTreeDestroying
 func (btree *threadSafeBTree) DestroyAll(canDelete BTreeRemove) error {
-	// set destroying to true. All other operations should check this upfront and exit early if that is the case
-	if !btree.destroying.CompareAndSwap(false, true) {
+	// wait for all other operations to finish processing. All other operations guard themselves upfront and exit early
+	// when the tree is destroying
+	if !btree.destroySyncer.WaitDestroy() {
 		return ErrorTreeDestroying
 	}
-	defer btree.destroying.Store(false)
-
-	// wait for all other operations to finish processing
-	btree.readWriteWG.Wait()
+	defer btree.destroySyncer.ClearDestroy()
 
 	// This should be exlusive the whole way through since we need to delete the whole tree.
 	// any other in flight create or reads have to wait for this operation to finish
diff --git a/internal/datastructures/btree/threadsafe_find.go b/internal/datastructures/btree/threadsafe_find.go
index bcf7d69..5a75b0f 100644
--- a/internal/datastructures/btree/threadsafe_find.go
+++ b/internal/datastructures/btree/threadsafe_find.go
@@ -28,10 +28,12 @@ func (btree *threadSafeBTree) Find(key datatypes.EncapsulatedValue, typeRestrict
 	}
 
 	// destroy checks
-	btree.readWriteWG.Add(1)
-	defer btree.readWriteWG.Add(-1)
+	if !btree.destroySyncer.GuardOperation() {
+		return ErrorTreeDestroying
+	}
+	defer btree.destroySyncer.ClearOperation()
 
-	if err := btree.checkDestroyingWithKey(key); err != nil {
+	if err := btree.checkDestroying(key); err != nil {
 		return err
 	}
 
@@ -197,12 +199,10 @@ func (btree *threadSafeBTree) FindNotEqual(key datatypes.EncapsulatedValue, type
 	}
 
 	// check if the whole tree is destroying
-	btree.readWriteWG.Add(1)
-	defer btree.readWriteWG.Add(-1)
-
-	if err := btree.checkDestroying(); err != nil {
-		return err
+	if !btree.destroySyncer.GuardOperation() {
+		return ErrorTreeDestroying
 	}
+	defer btree.destroySyncer.ClearOperation()
 
 	btree.lock.RLock()
 	if btree.root != nil {
@@ -238,12 +238,10 @@ func (btree *threadSafeBTree) FindLessThan(key datatypes.EncapsulatedValue, type
 	}
 
 	// destroy checks
-	btree.readWriteWG.Add(1)
-	defer btree.readWriteWG.Add(-1)
-
-	if err := btree.checkDestroying(); err != nil {
-		return err
+	if !btree.destroySyncer.GuardOperation() {
+		return ErrorTreeDestroying
 	}
+	defer btree.destroySyncer.ClearOperation()
 
 	btree.lock.RLock()
 	if btree.root != nil {
@@ -365,12 +363,10 @@ func (btree *threadSafeBTree) FindLessThanOrEqual(key datatypes.EncapsulatedValu
 	}
 
 	// destroy checks
-	btree.readWriteWG.Add(1)
-	defer btree.readWriteWG.Add(-1)
-
-	if err := btree.checkDestroying(); err != nil {
-		return err
+	if !btree.destroySyncer.GuardOperation() {
+		return ErrorTreeDestroying
 	}
+	defer btree.destroySyncer.ClearOperation()
 
 	btree.lock.RLock()
 	if btree.root != nil {
@@ -505,12 +501,10 @@ func (btree *threadSafeBTree) FindGreaterThan(key datatypes.EncapsulatedValue, t
 	}
 
 	// destroy checks
-	btree.readWriteWG.Add(1)
-	defer btree.readWriteWG.Add(-1)
-
-	if err := btree.checkDestroying(); err != nil {
-		return err
+	if !btree.destroySyncer.GuardOperation() {
+		return ErrorTreeDestroying
 	}
+	defer btree.destroySyncer.ClearOperation()
 
 	btree.lock.RLock()
 	if btree.root != nil {
@@ -612,12 +606,10 @@ func (btree *threadSafeBTree) FindGreaterThanOrEqual(key datatypes.EncapsulatedV
 	}
 
 	// destroy checks
-	btree.readWriteWG.Add(1)
-	defer btree.readWriteWG.Add(-1)
-
-	if err := btree.checkDestroying(); err != nil {
-		return err
+	if !btree.destroySyncer.GuardOperation() {
+		return ErrorTreeDestroying
 	}
+	defer btree.destroySyncer.ClearOperation()
 
 	btree.lock.RLock()
 	if btree.root != nil {
-- 
2.43.0


From c6fda6782f3d67d24a76731ecb3edec2b3a5dbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:19 +0000
Subject: [PATCH 15/50] fix: a counter increment canceled while waiting for a
 lock no longer panics

---
 internal/limiter/counters/counter_client_local.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/limiter/counters/counter_client_local.go b/internal/limiter/counters/counter_client_local.go
index 568c955..25098a0 100644
--- a/internal/limiter/counters/counter_client_local.go
+++ b/internal/limiter/counters/counter_client_local.go
@@ -159,6 +159,12 @@ func (cm *counterClientLocal) IncrementCounters(ctx context.Context, lockerClien
 					return errors.InternalServerError
 				}
 
+				// the locker client returns no lock and no error when the request was canceled waiting for the lock
+				if lockerLock == nil {
+					logger.Warn("request was canceled while obtaining a lock from the locker service", zap.Any("key values", lockKeyValues))
+					return errors.InternalServerError
+				}
+
 				// setup monitor for when a lock is released
 				lockerLocks = append(lockerLocks, lockerLock)
 				if err := channelOps.MergeOrToOne(lockerLock.Done()); err != nil {
-- 
2.43.0


From fd90bc0a0f0db9a8db6333ebbc32fb7e0cfca1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:17 +0000
Subject: [PATCH 16/50] fix: a lock whose timeout is processing can no longer
 block the shutdown for ever

---
 .../locker/lock_manager/exclusive_lock.go     | 25 ++++++-------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/internal/locker/lock_manager/exclusive_lock.go b/internal/locker/lock_manager/exclusive_lock.go
index 4874d61..0526416 100644
--- a/internal/locker/lock_manager/exclusive_lock.go
+++ b/internal/locker/lock_manager/exclusive_lock.go
@@ -138,21 +138,8 @@ func (exclusiveLock *exclusiveLock) Execute(ctx context.Context) error {
 				select {
 				// server shutdown
 				case <-ctx.Done():
-					select {
-					// if a timeout is processing, this should wait untill that is finished
-					case <-exclusiveLock.blockDone:
-						// wait and process the timeout
-						<-exclusiveLock.timedOut
-
-						if exclusiveLock.clientsWaitingForClaim.Add(^uint64(0)) == 0 {
-							exclusiveLock.timedOut <- true
-							return nil
-						} else {
-							exclusiveLock.timedOut <- false
-						}
-					default:
-					}
-
+					// NOTE: don't wait here if a timeout is processing. It might be blocked behind any other operation that holds
+					// the lock's item in the tree and is waiting for a response, or for this lock to be done
 					return nil
 
 				// processed a client lost
@@ -366,8 +353,12 @@ func (exclusiveLock *exclusiveLock) LostClient() bool {
 //
 // TimeOut a currently held lock and allow for another client to process the request
 func (exclusiveLock *exclusiveLock) TimeOut() bool {
-	exclusiveLock.timedOut <- true
-	return <-exclusiveLock.timedOut
+	select {
+	case exclusiveLock.timedOut <- true:
+		return <-exclusiveLock.timedOut
+	case <-exclusiveLock.done:
+		return false
+	}
 }
 
 func (exclusiveLock *exclusiveLock) getLastHeartbeatTime() time.Time {
-- 
2.43.0


From cc512eba064d893aa21b0c1bdd9b85eb2811a42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:36 +0000
Subject: [PATCH 17/50] fix: a lock that cannot be started at shutdown is not
 saved, so later requests for it are turned away

---
 internal/locker/lock_manager/exclusive_locker.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/locker/lock_manager/exclusive_locker.go b/internal/locker/lock_manager/exclusive_locker.go
index ee21635..6416ab0 100644
--- a/internal/locker/lock_manager/exclusive_locker.go
+++ b/internal/locker/lock_manager/exclusive_locker.go
@@ -72,17 +72,17 @@ func (exclusiveLocker *exclusiveLocker) ObtainLock(ctx context.Context, createLo
 		})
 
 		// add the task to the task manager
-		if err := exclusiveLocker.taskManager.AddExecuteTask("", lock); err == nil {
-			claimChannel = lock.GetClaimChannel()
-		} else {
+		if err := exclusiveLocker.taskManager.AddExecuteTask("", lock); err != nil {
 			// on an error, just set these to a closed channel to exit from the claim operation. The client will
 			// need to retry and the lock should not be saved
 			closedChannel := make(chan func(time.Duration) string)
 			close(closedChannel)
 
 			claimChannel = closedChannel
+			return nil
 		}
 
+		claimChannel = lock.GetClaimChannel()
 		return lock
 	}
 
-- 
2.43.0


From b50d4b6276f7d131b74dd0f8c7d2621c765574f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:36 +0000
Subject: [PATCH 18/50] fix: a heartbeat or release of a lock that is not
 claimed is refused at once

---
 internal/locker/lock_manager/exclusive_lock.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/locker/lock_manager/exclusive_lock.go b/internal/locker/lock_manager/exclusive_lock.go
index 0526416..f27cc82 100644
--- a/internal/locker/lock_manager/exclusive_lock.go
+++ b/internal/locker/lock_manager/exclusive_lock.go
@@ -124,6 +124,13 @@ func (exclusiveLock *exclusiveLock) Execute(ctx context.Context) error {
 
 			exclusiveLock.clientLostResponse <- false
 
+		// the lock is not claimed, so no session is valid. These need to be answered right away because the callers hold the
+		// lock's item in the tree, which any client that disconnects needs as well
+		case <-exclusiveLock.heartbeat:
+			exclusiveLock.heartbeatResponse <- false
+		case <-exclusiveLock.release:
+			exclusiveLock.releaseResponse <- failedRelease
+
 		// client was able to claim the lock.
 		// NOTE: this is a write operation so the caller can get a callback function to call. This way they do not
 		// need to save off a variable for the lock in the exclusive_locker
-- 
2.43.0


From 3d1e43637aeeb155275098df1024cdab78146e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:52 +0000
Subject: [PATCH 19/50] fix: listing locks reads the session and timeout under
 their locks and copies them

---
 internal/locker/lock_manager/exclusive_locker.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/locker/lock_manager/exclusive_locker.go b/internal/locker/lock_manager/exclusive_locker.go
index 6416ab0..a911438 100644
--- a/internal/locker/lock_manager/exclusive_locker.go
+++ b/internal/locker/lock_manager/exclusive_locker.go
@@ -152,18 +152,19 @@ func (exclusiveLocker *exclusiveLocker) LocksQuery(ctx context.Context, query *q
 			expireTime = time.Since(lastHeartbeatTime)
 		}
 
+		lockTimeout := exclusiveLock.getLockTimeout()
 		locks = append(locks, &v1locker.Lock{
 			Spec: &v1locker.LockSpec{
 				DBDefinition: &v1locker.LockDBDefinition{
 					KeyValues: associatedKeyValues.KeyValues(),
 				},
 				Properties: &v1locker.LockProperties{
-					Timeout: &exclusiveLock.lockTimeout,
+					Timeout: &lockTimeout,
 				},
 			},
 			State: &v1locker.LockState{
 				LockID:             associatedKeyValues.AssociatedID(),
-				SessionID:          exclusiveLock.sessionID,
+				SessionID:          exclusiveLock.getSessionID(),
 				TimeTillExipre:     expireTime,
 				LocksHeldOrWaiting: exclusiveLock.clientsWaitingForClaim.Load(),
 			},
-- 
2.43.0


From b0a97cdbb05a06fd90fe239db78626adfe963747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:28 +0000
Subject: [PATCH 20/50] fix: the lock listing shows the time that is left until
 the lock expires

---
 internal/locker/lock_manager/exclusive_locker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/locker/lock_manager/exclusive_locker.go b/internal/locker/lock_manager/exclusive_locker.go
index a911438..02f5d56 100644
--- a/internal/locker/lock_manager/exclusive_locker.go
+++ b/internal/locker/lock_manager/exclusive_locker.go
@@ -145,14 +145,14 @@ func (exclusiveLocker *exclusiveLocker) LocksQuery(ctx context.Context, query *q
 		exclusiveLock := associatedKeyValues.Value().(*exclusiveLock)
 
 		var expireTime time.Duration
+		lockTimeout := exclusiveLock.getLockTimeout()
 		lastHeartbeatTime := exclusiveLock.getLastHeartbeatTime()
 		if lastHeartbeatTime == (time.Time{}) {
 			expireTime = 0
 		} else {
-			expireTime = time.Since(lastHeartbeatTime)
+			expireTime = lockTimeout - time.Since(lastHeartbeatTime)
 		}
 
-		lockTimeout := exclusiveLock.getLockTimeout()
 		locks = append(locks, &v1locker.Lock{
 			Spec: &v1locker.LockSpec{
 				DBDefinition: &v1locker.LockDBDefinition{
-- 
2.43.0


From 98f09ad71477b901638fee4ffec78dfaca9aca07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:28 +0000
Subject: [PATCH 21/50] fix: a lock request with a negative timeout is refused
 instead of crashing the service

---
 pkg/models/api/locker/v1/lock.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/models/api/locker/v1/lock.go b/pkg/models/api/locker/v1/lock.go
index 0df335d..755cc5d 100644
--- a/pkg/models/api/locker/v1/lock.go
+++ b/pkg/models/api/locker/v1/lock.go
@@ -118,7 +118,7 @@ type LockProperties struct {
 
 func (lockProperties *LockProperties) Validate() *errors.ModelError {
 	if lockProperties.Timeout != nil {
-		if *lockProperties.Timeout == 0 {
+		if *lockProperties.Timeout <= 0 {
 			return &errors.ModelError{Field: "Timeout", Err: fmt.Errorf("received a timeout duration of 0. Requires a valid time duration represented as int64 nanosecond")}
 		}
 	}
-- 
2.43.0


From 449e4fc46e695f80ee2e11ddff456dcd4508df71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:37 +0000
Subject: [PATCH 22/50] fix: a heartbeat sent before the heartbeater is started
 no longer blocks

---
 internal/heartbeater/heartbeater.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/internal/heartbeater/heartbeater.go b/internal/heartbeater/heartbeater.go
index 108295d..e6300c9 100644
--- a/internal/heartbeater/heartbeater.go
+++ b/internal/heartbeater/heartbeater.go
@@ -78,10 +78,15 @@ func (h *heartbeater) Execute(ctx context.Context) error {
 	defer close(h.doneChan)
 
 	// wait for start or stop instruction to be called
-	select {
-	case <-h.start:
-	case <-h.stopChan:
-		return nil
+	for started := false; !started; {
+		select {
+		case <-h.start:
+			started = true
+		case <-h.stopChan:
+			return nil
+		case <-h.heartbeaterChan:
+			// in this case, the client received the resource and sent a heartbeat before Start was called
+		}
 	}
 
 	timer := time.NewTicker(h.timeout)
-- 
2.43.0


From 2ce73bce89054399cb385cceb429572d58e56e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:15 +0000
Subject: [PATCH 23/50] fix: a heartbeater's callers no longer wait for its
 timeout and shutdown callbacks

---
 internal/heartbeater/heartbeater.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/heartbeater/heartbeater.go b/internal/heartbeater/heartbeater.go
index e6300c9..dceafb8 100644
--- a/internal/heartbeater/heartbeater.go
+++ b/internal/heartbeater/heartbeater.go
@@ -75,7 +75,9 @@ func New(timeout time.Duration, onShutdown, onTimeout func()) (*heartbeater, err
 
 // Execute expects a single instance of Start to be called
 func (h *heartbeater) Execute(ctx context.Context) error {
-	defer close(h.doneChan)
+	// release any blocked callers before the callbacks run, they can hold resources that the callbacks need
+	releaseCallers := sync.OnceFunc(func() { close(h.doneChan) })
+	defer releaseCallers()
 
 	// wait for start or stop instruction to be called
 	for started := false; !started; {
@@ -96,6 +98,7 @@ func (h *heartbeater) Execute(ctx context.Context) error {
 		select {
 		case <-ctx.Done():
 			// in this case, the service is shutting down
+			releaseCallers()
 			if h.onShutdown != nil {
 				h.onShutdown()
 			}
@@ -106,6 +109,7 @@ func (h *heartbeater) Execute(ctx context.Context) error {
 			return nil
 		case <-timer.C:
 			// in this case the timer has hit the timeout limit. assumed the resource has failed.
+			releaseCallers()
 			h.onTimeout()
 
 			return nil
-- 
2.43.0


From 5eed8d06d4221cade1fab9d27b21f816646185f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:45 +0000
Subject: [PATCH 24/50] fix: items dropped for a failed item are no longer
 counted as enqueued

---
 .../queue_channels/memory/memory_queue_channel.go    | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 502cf73..5929031 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -517,6 +517,12 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 				if len(mqc.itemIDsEnqueued) >= 1 {
 					// just delete the item. since it is updateable, we want the next item in the queue to run anyways
 					if queueItemToDelete.updateable {
+						// when removing an item. we need to delete the total number of enqueued item
+						if err := mqc.limiterUpdateEnqueuedValue(ctx, -1); err != nil {
+							// what should we really do here? the limiter would be out of sync in this case
+							panic(err)
+						}
+
 						return true
 					}
 				}
@@ -553,6 +559,12 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 			defer queueItemToCheck.lock.Unlock()
 
 			if queueItemToCheck.updateable {
+				// when removing an item. we need to delete the total number of enqueued item
+				if err := mqc.limiterUpdateEnqueuedValue(ctx, -1); err != nil {
+					// what should we really do here? the limiter would be out of sync in this case
+					panic(err)
+				}
+
 				// "update" the last item by simply dropping it
 				mqc.itemIDsEnqueued[len(mqc.itemIDsEnqueued)-1] = itemID
 				return true
-- 
2.43.0


From f8c9f5b22d902beb22f8a2544738c287de9752ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:09 +0000
Subject: [PATCH 25/50] fix: a timeout or dequeue during a channel's force
 delete no longer crashes the service or leaves counters

---
 .../memory/memory_queue_channel.go            | 59 +++++++++++++++----
 1 file changed, 47 insertions(+), 12 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 5929031..aefe149 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -57,6 +57,7 @@ type memoryQueueChannel struct {
 
 	itemsLock       *sync.RWMutex
 	itemIDsEnqueued []string
+	destroyed       bool // set once the channel is force deleted. Nothing can be processed or recorded anymore
 }
 
 func New(limiterClient limiterclient.LimiterClient, deleteCallback func(), queueName string, channelKeyValues datatypes.KeyValues) *memoryQueueChannel {
@@ -115,14 +116,12 @@ func (mqc *memoryQueueChannel) ForceDelete(ctx context.Context) {
 		close(mqc.deleteChan)
 	})
 
-	// delete the running and enqueued counters
-	if err := mqc.setLimiterEnqueuedValue(ctx); err != nil {
-		logger.Fatal("TODO fix this panic error with a queue of Limiter values to retry", zap.Error(err))
-	}
+	// wait for any timeouts or dequeues to record their counters. Anything that comes after does nothing
+	mqc.itemsLock.Lock()
+	defer mqc.itemsLock.Unlock()
 
-	if err := mqc.setLimterRunningValue(ctx); err != nil {
-		logger.Fatal("TODO fix this panic error with a queue of Limiter values to retry", zap.Error(err))
-	}
+	mqc.destroyed = true
+	mqc.itemIDsEnqueued = nil
 
 	canDelete := func(key datatypes.EncapsulatedValue, treeItem any) bool {
 		queueItem := treeItem.(*item)
@@ -137,6 +136,15 @@ func (mqc *memoryQueueChannel) ForceDelete(ctx context.Context) {
 	if err := mqc.items.DestroyAll(canDelete); err != nil {
 		panic(err)
 	}
+
+	// delete the running and enqueued counters
+	if err := mqc.setLimiterEnqueuedValue(ctx); err != nil {
+		logger.Fatal("TODO fix this panic error with a queue of Limiter values to retry", zap.Error(err))
+	}
+
+	if err := mqc.setLimterRunningValue(ctx); err != nil {
+		logger.Fatal("TODO fix this panic error with a queue of Limiter values to retry", zap.Error(err))
+	}
 }
 
 // Handler for the GoAsync manager to ensure this process stops processing when the server is shutdown
@@ -474,6 +482,11 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 	mqc.itemsLock.Lock()
 	defer mqc.itemsLock.Unlock()
 
+	// the timeout of an item happened at the same time as the channel's destroy
+	if mqc.destroyed {
+		return false
+	}
+
 	attemptedDelete := false
 	backID := ""
 
@@ -602,6 +615,15 @@ func (mqc *memoryQueueChannel) Dequeue() <-chan func(ctx context.Context) (*v1wi
 func (mqc *memoryQueueChannel) dequeue(ctx context.Context) (*v1willow.Item, func(), func()) {
 	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "dequeue")
 
+	mqc.itemsLock.Lock()
+	defer mqc.itemsLock.Unlock()
+
+	// the channel was destroyed just before the client could dequeue the item
+	if mqc.destroyed {
+		mqc.dequeueResponseChan <- false
+		return nil, nil, nil
+	}
+
 	// 1. ensure that the item can be dequeued when running. This just forwards the key values that define the channel
 	if err := mqc.limterUpdateRunningValue(ctx, 1); err != nil {
 		logger.Error("failed to update the counter for the queue item", zap.Error(err))
@@ -615,10 +637,8 @@ func (mqc *memoryQueueChannel) dequeue(ctx context.Context) (*v1willow.Item, fun
 	}
 
 	// drop the first index since we are now processing it
-	mqc.itemsLock.Lock()
 	firtItemID := mqc.itemIDsEnqueued[0]
 	mqc.itemIDsEnqueued = mqc.itemIDsEnqueued[1:]
-	mqc.itemsLock.Unlock()
 
 	// 2. successfully incremented the counters, pull an item off for the client
 	dequeueItem := &v1willow.Item{}
@@ -680,6 +700,15 @@ func (mqc *memoryQueueChannel) successfulDequeue(ctx context.Context, itemID str
 	return func() {
 		_, logger := middleware.GetNamedMiddlewareLogger(ctx, "successfulDequeue")
 
+		mqc.itemsLock.RLock()
+		defer mqc.itemsLock.RUnlock()
+
+		// the channel was destroyed while responding to the client
+		if mqc.destroyed {
+			mqc.dequeueResponseChan <- false
+			return
+		}
+
 		// start the heartbeater process
 		onfindBTree := func(key datatypes.EncapsulatedValue, treeItem any) bool {
 			queueItem := treeItem.(*item)
@@ -708,14 +737,20 @@ func (mqc *memoryQueueChannel) failedDequeue(ctx context.Context, itemID string)
 	return func() {
 		ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "failedDequeue")
 
+		mqc.itemsLock.Lock()
+		defer mqc.itemsLock.Unlock()
+
+		// the channel was destroyed while responding to the client
+		if mqc.destroyed {
+			mqc.dequeueResponseChan <- false
+			return
+		}
+
 		// update the running counter that we are no longer processing since we failed to dequeue to the remote client
 		if err := mqc.limterUpdateRunningValue(ctx, -1); err != nil {
 			panic(err)
 		}
 
-		mqc.itemsLock.Lock()
-		defer mqc.itemsLock.Unlock()
-
 		// requeue the item
 		canDelete := func(_ datatypes.EncapsulatedValue, treeItem any) bool { // i think this should be canDestroy?
 			queueItem := treeItem.(*item)
-- 
2.43.0


From e7b9abfafd42347b317589796667c1dc64d04a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:53 +0000
Subject: [PATCH 26/50] fix: concurrent enqueues no longer crash a channel, or
 leave items behind, because of miscounted notifications

---
 .../memory/memory_queue_channel.go            | 33 +++++++++++++------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index aefe149..24b44e6 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -160,16 +160,21 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 	}()
 
 	for {
-		select {
-		case <-ctx.Done():
-			// server told to shutdown
-			goto BREAK_DEQUEUE
-		case <-mqc.deleteChan:
-			// delete of the channel itself because there are no more items, or the queue is being destroyed
-			cancel()
-			goto BREAK_DEQUEUE
-		case <-mqc.notifier.Ready():
-			// we received an item to enqueue, so try to send on this channel
+		// the notifier only wakes this up. It can be ready more, or fewer times than there are enqueued items
+		if !mqc.hasEnqueuedItems() {
+			select {
+			case <-ctx.Done():
+				// server told to shutdown
+				goto BREAK_DEQUEUE
+			case <-mqc.deleteChan:
+				// delete of the channel itself because there are no more items, or the queue is being destroyed
+				cancel()
+				goto BREAK_DEQUEUE
+			case <-mqc.notifier.Ready():
+				// we received an item to enqueue, so try to send on this channel
+			}
+
+			continue
 		}
 
 		select {
@@ -345,6 +350,14 @@ BREAK_DEQUEUE:
 	return nil
 }
 
+// hasEnqueuedItems reports if there is anything to dequeue
+func (mqc *memoryQueueChannel) hasEnqueuedItems() bool {
+	mqc.itemsLock.RLock()
+	defer mqc.itemsLock.RUnlock()
+
+	return len(mqc.itemIDsEnqueued) > 0
+}
+
 // Try to Enqueue an item and record on the limiter what is being saved
 func (mqc *memoryQueueChannel) Enqueue(ctx context.Context, enqueueItem *v1willow.Item) *errors.ServerError {
 	ctx, _ = middleware.GetNamedMiddlewareLogger(ctx, "Enqueue")
-- 
2.43.0


From 5d70da9cd2579292239a08eb732661ab4da9b3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:35 +0000
Subject: [PATCH 27/50] fix: failing an item that is not processing reports not
 found

---
 .../brokers/queue_channels/memory/memory_queue_channel.go  | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 24b44e6..3f9f945 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -500,12 +500,11 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 		return false
 	}
 
-	attemptedDelete := false
+	failed := false
 	backID := ""
 
 	// attempt to delete or requeue the item
 	canDelete := func(_ datatypes.EncapsulatedValue, treeItem any) bool {
-		attemptedDelete = true
 		queueItem := treeItem.(*item)
 
 		if timedOut {
@@ -514,6 +513,8 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 
 		// if the queue item was stopped here, then we know there was no async timeout processed for this item
 		if timedOut || queueItem.StopHeartbeater() {
+			failed = true
+
 			// always update counters that the item is no longer running
 			if err := mqc.limterUpdateRunningValue(ctx, -1); err != nil {
 				// what should be the actual course of action here?
@@ -607,7 +608,7 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 		}
 	}
 
-	return attemptedDelete
+	return failed
 }
 
 // Dequeue returns a read only channel that can be cast to 'func(logger *zap.Logger) (*v1willow.DequeueQueueItem, func(), func())'
-- 
2.43.0


From 9df268098295b7afd1db07ae0ccd084ef2b34ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:08 +0000
Subject: [PATCH 28/50] fix: updating a waiting item in place also updates its
 timeout

---
 .../willow/brokers/queue_channels/memory/memory_queue_channel.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 3f9f945..3016ab9 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -385,6 +385,7 @@ func (mqc *memoryQueueChannel) Enqueue(ctx context.Context, enqueueItem *v1willo
 				queueItem.updateable = *enqueueItem.Spec.Properties.Updateable
 				queueItem.maxRetryAttempts = *enqueueItem.Spec.Properties.RetryAttempts
 				queueItem.retryPosition = *enqueueItem.Spec.Properties.RetryPosition
+				queueItem.heartbeatTimeout = *enqueueItem.Spec.Properties.TimeoutDuration
 				queueItem.retryCount = 0
 			}
 
-- 
2.43.0


From 548c7b3c9d1e7735e8615ec72e0970d8db57674b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:45 +0000
Subject: [PATCH 29/50] fix: a queue update or delete that cannot reach the
 limiter reports an error instead of crashing, and keeps the old limit

---
 .../willow/brokers/queues/memory/memory_queue.go   | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/internal/willow/brokers/queues/memory/memory_queue.go b/internal/willow/brokers/queues/memory/memory_queue.go
index ec73b7c..058646d 100644
--- a/internal/willow/brokers/queues/memory/memory_queue.go
+++ b/internal/willow/brokers/queues/memory/memory_queue.go
@@ -67,7 +67,6 @@ func (mq *memoryQueue) ConfiguredLimit() int64 {
 
 func (mq *memoryQueue) Update(ctx context.Context, limiterRuleID string, updateReq *v1willow.QueueProperties) *errors.ServerError {
 	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "Update")
-	mq.configuredLimit.Store(*updateReq.MaxItems)
 
 	// get the original override id
 	overrides, err := mq.limiterClient.QueryOverrides(ctx, limiterRuleID, &queryassociatedaction.AssociatedActionQuery{
@@ -95,10 +94,12 @@ func (mq *memoryQueue) Update(ctx context.Context, limiterRuleID string, updateR
 		},
 	})
 	if err != nil {
-		panic(err)
+		logger.Error("Failed to query the Limiter overrides", zap.Error(err))
+		return errors.InternalServerError
 	}
 	if len(overrides) != 1 {
-		panic(overrides)
+		logger.Error("Failed to find the queue's Limiter override", zap.Int("overrides_found", len(overrides)))
+		return errors.InternalServerError
 	}
 
 	// need to create an override for the willow Rules in the limiter
@@ -109,6 +110,7 @@ func (mq *memoryQueue) Update(ctx context.Context, limiterRuleID string, updateR
 		logger.Error("Failed to update the Limiter override", zap.Error(err))
 		return errors.InternalServerError
 	}
+	mq.configuredLimit.Store(*updateReq.MaxItems)
 
 	return nil
 }
@@ -139,10 +141,12 @@ func (mq *memoryQueue) Destroy(ctx context.Context, limiterRuleID, queueID strin
 		},
 	})
 	if err != nil {
-		panic(err)
+		logger.Error("Failed to query the Limiter overrides", zap.Error(err))
+		return errors.InternalServerError
 	}
 	if len(overrides) != 1 {
-		panic(overrides)
+		logger.Error("Failed to find the queue's Limiter override", zap.Int("overrides_found", len(overrides)))
+		return errors.InternalServerError
 	}
 
 	// need to delete the override for the willow Rules in the limiter
-- 
2.43.0


From bcb7f1e2a4a4c4ad4d52aa83b306dd41005a3d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:17 +0000
Subject: [PATCH 30/50] fix: querying the channels of an unknown queue reports
 not found

---
 internal/willow/brokers/queues/queues_client_local.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/willow/brokers/queues/queues_client_local.go b/internal/willow/brokers/queues/queues_client_local.go
index b87556a..01d863e 100644
--- a/internal/willow/brokers/queues/queues_client_local.go
+++ b/internal/willow/brokers/queues/queues_client_local.go
@@ -211,8 +211,10 @@ func (qcl *queueClientLocal) DeleteQueue(ctx context.Context, queueName string)
 func (qcl *queueClientLocal) QueryChannels(ctx context.Context, queueName string, query *queryassociatedaction.AssociatedActionQuery) (v1willow.Channels, *errors.ServerError) {
 	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "QueryChannels")
 	channels := v1willow.Channels{}
+	queryChannelsError := errorMissingQueueName(queueName)
 
 	onIterate := func(key datatypes.EncapsulatedValue, item any) bool {
+		queryChannelsError = nil
 		channels = qcl.queueChannelsClient.Channels(ctx, queueName, query)
 		return false
 	}
@@ -228,7 +230,7 @@ func (qcl *queueClientLocal) QueryChannels(ctx context.Context, queueName string
 		}
 	}
 
-	return channels, nil
+	return channels, queryChannelsError
 }
 
 func (qcl *queueClientLocal) Enqueue(ctx context.Context, queueName string, enqueueItem *v1willow.Item) *errors.ServerError {
-- 
2.43.0


From caac813e8aee7defec1e81b8038e64f22775ce8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:58 +0000
Subject: [PATCH 31/50] fix: a consumer that waits for an item no longer blocks
 the other queue operations, and learns that its queue was deleted

---
 .../brokers/queues/queues_client_local.go     | 75 +++++++++++++++----
 1 file changed, 61 insertions(+), 14 deletions(-)

diff --git a/internal/willow/brokers/queues/queues_client_local.go b/internal/willow/brokers/queues/queues_client_local.go
index 01d863e..a197f54 100644
--- a/internal/willow/brokers/queues/queues_client_local.go
+++ b/internal/willow/brokers/queues/queues_client_local.go
@@ -22,6 +22,18 @@ func errorMissingQueueName(name string) *errors.ServerError {
 	return &errors.ServerError{Message: fmt.Sprintf("failed to find queue '%s' by name", name), StatusCode: http.StatusNotFound}
 }
 
+func errorQueueDestroyed(name string) *errors.ServerError {
+	return &errors.ServerError{Message: fmt.Sprintf("Queue with name '%s' is being destroyed", name), StatusCode: http.StatusConflict}
+}
+
+// managedQueue is a queue in the tree and the means to inform any clients waiting on items that the queue is destroyed
+type managedQueue struct {
+	Queue
+
+	destroyed context.Context
+	destroy   func()
+}
+
 type queueClientLocal struct {
 	// queue constructor for creating and managing queues
 	queueConstructor QueueConstructor
@@ -61,7 +73,8 @@ func (qcl *queueClientLocal) CreateQueue(ctx context.Context, queueCreate *v1wil
 			return nil
 		}
 
-		return queue
+		destroyed, destroy := context.WithCancel(context.Background())
+		return &managedQueue{Queue: queue, destroyed: destroyed, destroy: destroy}
 	}
 
 	if err := qcl.queues.Create(datatypes.String(*queueCreate.Spec.DBDefinition.Name), bTreeOnCreate); err != nil {
@@ -184,9 +197,10 @@ func (qcl *queueClientLocal) DeleteQueue(ctx context.Context, queueName string)
 
 	var deleteQueueError *errors.ServerError
 	destroyQueue := func(key datatypes.EncapsulatedValue, item any) bool {
-		queue := item.(Queue)
+		queue := item.(*managedQueue)
 		if deleteQueueError = qcl.queueChannelsClient.DestroyChannelsForQueue(ctx, queueName); deleteQueueError == nil {
 			if deleteQueueError = queue.Destroy(ctx, qcl.limiterRuleID, queueName); deleteQueueError == nil {
+				queue.destroy()
 				return true
 			}
 		}
@@ -244,8 +258,14 @@ func (qcl *queueClientLocal) Enqueue(ctx context.Context, queueName string, enqu
 	}
 
 	if err := qcl.queues.Find(datatypes.String(queueName), v1.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, onFind); err != nil {
-		logger.Error("failed to find the queue in the tree for some reason", zap.Error(err))
-		return errors.InternalServerError
+		switch err {
+		case btree.ErrorKeyDestroying:
+			logger.Warn("failed to process the request. Queue by that name is currenly destroying")
+			return errorQueueDestroyed(queueName)
+		default:
+			logger.Error("failed to find the queue in the tree for some reason", zap.Error(err))
+			return errors.InternalServerError
+		}
 	}
 
 	return enqueueQueueError
@@ -253,20 +273,41 @@ func (qcl *queueClientLocal) Enqueue(ctx context.Context, queueName string, enqu
 
 func (qcl *queueClientLocal) Dequeue(ctx context.Context, queueName string, dequeueQuery *queryassociatedaction.AssociatedActionQuery) (*v1willow.Item, func(), func(), *errors.ServerError) {
 	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "Dequeue")
-	dequeueQueueError := errorMissingQueueName(queueName)
 
-	// nothing for the item to do. but use the bTree as a guard to ensure no delete operations are happening at the same time
-	var dequeueItem *v1willow.Item
-	var onSuccess func()
-	var onFailure func()
+	// only look up the queue. Waiting for an item must not hold any of the bTree's locks since that would block all other
+	// queue operations (including the 'Enqueue' that this request can be waiting for)
+	var destroyed context.Context
 	onFind := func(key datatypes.EncapsulatedValue, item any) bool {
-		dequeueItem, onSuccess, onFailure, dequeueQueueError = qcl.queueChannelsClient.DequeueQueueItem(ctx, queueName, dequeueQuery)
+		destroyed = item.(*managedQueue).destroyed
 		return false
 	}
 
 	if err := qcl.queues.Find(datatypes.String(queueName), v1.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, onFind); err != nil {
-		logger.Error("failed to find the queue in the tree for some reason", zap.Error(err))
-		return nil, nil, nil, errors.InternalServerError
+		switch err {
+		case btree.ErrorKeyDestroying:
+			logger.Warn("failed to dequeue item. Queue by that name is currenly destroying")
+			return nil, nil, nil, errorQueueDestroyed(queueName)
+		default:
+			logger.Error("failed to find the queue in the tree for some reason", zap.Error(err))
+			return nil, nil, nil, errors.InternalServerError
+		}
+	}
+
+	if destroyed == nil {
+		return nil, nil, nil, errorMissingQueueName(queueName)
+	}
+
+	// stop waiting for an item when the queue is destroyed
+	waitCtx, cancel := context.WithCancel(ctx)
+	defer context.AfterFunc(destroyed, cancel)()
+
+	dequeueItem, onSuccess, onFailure, dequeueQueueError := qcl.queueChannelsClient.DequeueQueueItem(waitCtx, queueName, dequeueQuery)
+	if dequeueQueueError != nil {
+		cancel()
+
+		if destroyed.Err() != nil {
+			return nil, nil, nil, errorQueueDestroyed(queueName)
+		}
 	}
 
 	return dequeueItem, onSuccess, onFailure, dequeueQueueError
@@ -282,8 +323,14 @@ func (qcl *queueClientLocal) DeleteChannel(ctx context.Context, queueName string
 	}
 
 	if err := qcl.queues.Find(datatypes.String(queueName), v1.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, onFind); err != nil {
-		logger.Error("failed to find the queue in the tree for some reason", zap.Error(err))
-		return errors.InternalServerError
+		switch err {
+		case btree.ErrorKeyDestroying:
+			logger.Warn("failed to process the request. Queue by that name is currenly destroying")
+			return errorQueueDestroyed(queueName)
+		default:
+			logger.Error("failed to find the queue in the tree for some reason", zap.Error(err))
+			return errors.InternalServerError
+		}
 	}
 
 	return deleteChannelsError
-- 
2.43.0


From 7a248044195b62a975f13aac2227d41fde3c7bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:16 +0000
Subject: [PATCH 32/50] fix: a timeout, acknowledgement or dequeue while a
 queue or channel is deleted no longer crashes the service

---
 .../queue_channels/queue_channels_client_local.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/queue_channels_client_local.go b/internal/willow/brokers/queue_channels/queue_channels_client_local.go
index d1b664b..1a5d512 100644
--- a/internal/willow/brokers/queue_channels/queue_channels_client_local.go
+++ b/internal/willow/brokers/queue_channels/queue_channels_client_local.go
@@ -95,7 +95,7 @@ func (qccl *queueChannelsClientLocal) DestroyChannelsForQueue(ctx context.Contex
 
 	if err := qccl.queueChannels.DestroyOne(queueName, deleteChannel); err != nil {
 		switch err {
-		case btreeonetomany.ErrorManyIDDestroying:
+		case btreeonetomany.ErrorOneIDDestroying:
 			logger.Debug("Already destroying the queue's channels")
 			return &errors.ServerError{Message: "queue channels already destroying", StatusCode: http.StatusNoContent}
 		default:
@@ -119,7 +119,7 @@ func (qccl *queueChannelsClientLocal) DeleteChannel(ctx context.Context, queueNa
 
 	if err := qccl.queueChannels.DeleteOneOfManyByKeyValues(queueName, channelKeyValues, deleteChannel); err != nil {
 		switch err {
-		case btreeonetomany.ErrorManyIDDestroying:
+		case btreeonetomany.ErrorOneIDDestroying, btreeonetomany.ErrorManyKeyValuesDestroying:
 			logger.Debug("Already destroying the queue's channel")
 			return &errors.ServerError{Message: "Already destroying the queue's channel", StatusCode: http.StatusConflict}
 		default:
@@ -141,7 +141,7 @@ func (qccl *queueChannelsClientLocal) attemptDeleteChannel(logger *zap.Logger, q
 
 	if err := qccl.queueChannels.DeleteOneOfManyByKeyValues(queueName, channelKeyValues, deleteChannel); err != nil {
 		switch err {
-		case btreeonetomany.ErrorManyIDDestroying:
+		case btreeonetomany.ErrorOneIDDestroying, btreeonetomany.ErrorManyKeyValuesDestroying:
 			logger.Debug("Already destroying the queue's channel on a timeout")
 		default:
 			logger.Fatal("Failed to delete channels for queue", zap.Error(err))
@@ -241,8 +241,9 @@ func (qccl *queueChannelsClientLocal) DequeueQueueItem(ctx context.Context, queu
 
 		if err := qccl.queueChannels.QueryAction(queueName, dequeueQuery, bTreeOneToManyOnIterate); err != nil {
 			switch err {
-			//case btreeonetomany.ErrorOneIDDestroying
-			// This shouldn't happen as the 'Queue' should ensure these don't process once it starts destroying
+			case btreeonetomany.ErrorOneIDDestroying:
+				// the queue is being destroyed, so there is nothing to read from
+				logger.Debug("Not reading from the queue's channels as the queue is being deleted")
 			default:
 				logger.Error("failed to create or find the queue channels", zap.Error(err))
 				panic(err)
@@ -306,7 +307,7 @@ func (qccl *queueChannelsClientLocal) ACK(ctx context.Context, queueName string,
 
 		if err := qccl.queueChannels.DeleteOneOfManyByKeyValues(queueName, ack.KeyValues, deleteChannel); err != nil {
 			switch err {
-			case btreeonetomany.ErrorManyIDDestroying:
+			case btreeonetomany.ErrorOneIDDestroying, btreeonetomany.ErrorManyKeyValuesDestroying:
 				logger.Debug("Not deleting the channel after ack as queue is being deleted")
 			default:
 				logger.Fatal("Failed to delete queue after ack", zap.Error(err))
@@ -399,7 +400,7 @@ func (qccl *queueChannelsClientLocal) Channels(ctx context.Context, queueName st
 
 	if err := qccl.queueChannels.QueryAction(queueName, query, queryChannels); err != nil {
 		switch err {
-		case btreeonetomany.ErrorManyIDDestroying:
+		case btreeonetomany.ErrorOneIDDestroying:
 			logger.Debug("Already destroying the queue's channels")
 		default:
 			logger.Fatal("Failed to query channels", zap.Error(err))
-- 
2.43.0


From b02b5b336c5d1d4d365e50305cdd968e1a43bd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:44 +0000
Subject: [PATCH 33/50] fix: releasing a lock over HTTP reports an unknown lock
 or a wrong session

---
 internal/locker/api/v1/handlers/locker_handler.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/locker/api/v1/handlers/locker_handler.go b/internal/locker/api/v1/handlers/locker_handler.go
index 02a7b4f..7c84955 100644
--- a/internal/locker/api/v1/handlers/locker_handler.go
+++ b/internal/locker/api/v1/handlers/locker_handler.go
@@ -144,7 +144,10 @@ func (lh *lockerHandler) Release(w http.ResponseWriter, r *http.Request) {
 	namedParameters := urlrouter.GetNamedParamters(r.Context())
 
 	// release the lock
-	lh.generalLocker.Release(ctx, namedParameters["lock_id"], lockClaim)
+	if releaseError := lh.generalLocker.Release(ctx, namedParameters["lock_id"], lockClaim); releaseError != nil {
+		_, _ = api.ModelEncodeResponse(w, releaseError.StatusCode, releaseError)
+		return
+	}
 
 	// respond and ignore the errors
 	_, _ = api.ModelEncodeResponse(w, http.StatusNoContent, nil)
-- 
2.43.0


From c4b123b7eb2d3a9bcaf1e98d57275b93a016a678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:04 +0000
Subject: [PATCH 34/50] fix: deleting a channel with an invalid request is
 refused once and deletes nothing

---
 internal/willow/api/v1/handlers/channel_handler.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/willow/api/v1/handlers/channel_handler.go b/internal/willow/api/v1/handlers/channel_handler.go
index bb9a37c..25cbc71 100644
--- a/internal/willow/api/v1/handlers/channel_handler.go
+++ b/internal/willow/api/v1/handlers/channel_handler.go
@@ -49,11 +49,13 @@ func (qh queueHandler) ChannelDelete(w http.ResponseWriter, r *http.Request) {
 	if err := json.NewDecoder(r.Body).Decode(&keyValues); err != nil {
 		logger.Warn("failed to decode request", zap.Error(err))
 		_, _ = api.ModelEncodeResponse(w, http.StatusBadRequest, errors.ServerErrorModelRequestValidation(err))
+		return
 	}
 
 	if err := keyValues.Validate(datatypes.MinDataType, datatypes.MaxWithoutAnyDataType); err != nil {
 		logger.Warn("failed to validated request", zap.Error(err))
 		_, _ = api.ModelEncodeResponse(w, http.StatusBadRequest, errors.ServerErrorModelRequestValidation(err))
+		return
 	}
 
 	if err := qh.queueClient.DeleteChannel(ctx, urlrouter.GetNamedParamters(r.Context())["queue_name"], keyValues); err != nil {
-- 
2.43.0


From 350d32fc140d18161a3733ed1572dd7e0d6f3078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:57 +0000
Subject: [PATCH 35/50] fix: an item whose timeout is not positive is refused
 instead of crashing the service

---
 pkg/models/api/willow/v1/item.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/models/api/willow/v1/item.go b/pkg/models/api/willow/v1/item.go
index e1f3cd6..84c35bc 100644
--- a/pkg/models/api/willow/v1/item.go
+++ b/pkg/models/api/willow/v1/item.go
@@ -139,6 +139,8 @@ func (itemProperties *ItemProperties) Validate() *errors.ModelError {
 
 	if itemProperties.TimeoutDuration == nil {
 		return &errors.ModelError{Field: "TimeoutDuration", Err: fmt.Errorf("received a null value")}
+	} else if *itemProperties.TimeoutDuration <= 0 {
+		return &errors.ModelError{Field: "TimeoutDuration", Err: fmt.Errorf("requires a positive duration, but received '%s'", *itemProperties.TimeoutDuration)}
 	}
 
 	return nil
-- 
2.43.0


From 60990b1ebd028481db72a6b70c1714eed248d1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:38 +0000
Subject: [PATCH 36/50] fix: a queue without properties is refused instead of
 crashing the service

---
 pkg/models/api/willow/v1/queue.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/models/api/willow/v1/queue.go b/pkg/models/api/willow/v1/queue.go
index 09922ba..9d2f7f6 100644
--- a/pkg/models/api/willow/v1/queue.go
+++ b/pkg/models/api/willow/v1/queue.go
@@ -58,9 +58,7 @@ type QueueSpec struct {
 	// DBDefinition defines how to save the item in the Database
 	DBDefinition *QueueDBDefinition `json:"DBDefinition,omitempty"`
 
-	// Properties are the configurable/updateable fields for the Rule
-	//
-	// This is an optional field as all the properties are currently optional
+	// Properties are the configurable/updateable fields for the Queue
 	Properties *QueueProperties `json:"Properties,omitempty"`
 }
 
@@ -73,7 +71,9 @@ func (queueSpec *QueueSpec) Validate() *errors.ModelError {
 		}
 	}
 
-	if queueSpec.Properties != nil {
+	if queueSpec.Properties == nil {
+		return &errors.ModelError{Field: "Properties", Err: fmt.Errorf("received a null value")}
+	} else {
 		if err := queueSpec.Properties.Validate(); err != nil {
 			return &errors.ModelError{Field: "Properties", Child: err}
 		}
-- 
2.43.0


From 82e3c1219cda4f199076b3801687230f7805f80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:58 +0000
Subject: [PATCH 37/50] fix: queue names with characters that are special in
 URLs address the queue so named

---
 pkg/clients/willow_client/channel.go | 7 ++++---
 pkg/clients/willow_client/item.go    | 5 +++--
 pkg/clients/willow_client/queue.go   | 7 ++++---
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/pkg/clients/willow_client/channel.go b/pkg/clients/willow_client/channel.go
index e4e0d3a..583956e 100644
--- a/pkg/clients/willow_client/channel.go
+++ b/pkg/clients/willow_client/channel.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"net/http"
+	"net/url"
 
 	"github.com/DanLavine/willow/pkg/clients"
 	"github.com/DanLavine/willow/pkg/models/api"
@@ -33,7 +34,7 @@ func (wc *WillowClient) EnqueueQueueItem(ctx context.Context, queueName string,
 	}
 
 	// setup and make the request
-	req, err := http.NewRequest("POST", fmt.Sprintf("%s/v1/queues/%s/channels/items", wc.url, queueName), bytes.NewBuffer(data))
+	req, err := http.NewRequest("POST", fmt.Sprintf("%s/v1/queues/%s/channels/items", wc.url, url.PathEscape(queueName)), bytes.NewBuffer(data))
 	if err != nil {
 		return err
 	}
@@ -79,7 +80,7 @@ func (wc *WillowClient) DequeueQueueItem(ctx context.Context, queueName string,
 	}
 
 	// setup and make the request
-	req, err := http.NewRequestWithContext(ctx, "GET", fmt.Sprintf("%s/v1/queues/%s/channels/items", wc.url, queueName), bytes.NewBuffer(data))
+	req, err := http.NewRequestWithContext(ctx, "GET", fmt.Sprintf("%s/v1/queues/%s/channels/items", wc.url, url.PathEscape(queueName)), bytes.NewBuffer(data))
 	if err != nil {
 		return nil, err
 	}
@@ -132,7 +133,7 @@ func (wc *WillowClient) DeleteQueueChannel(ctx context.Context, queueName string
 	}
 
 	// setup and make the request
-	req, err := http.NewRequest("DELETE", fmt.Sprintf("%s/v1/queues/%s/channels", wc.url, queueName), bytes.NewBuffer(data))
+	req, err := http.NewRequest("DELETE", fmt.Sprintf("%s/v1/queues/%s/channels", wc.url, url.PathEscape(queueName)), bytes.NewBuffer(data))
 	if err != nil {
 		return err
 	}
diff --git a/pkg/clients/willow_client/item.go b/pkg/clients/willow_client/item.go
index 1643be2..73e38d4 100644
--- a/pkg/clients/willow_client/item.go
+++ b/pkg/clients/willow_client/item.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"net/http"
+	neturl "net/url"
 	"sync"
 	"time"
 
@@ -90,7 +91,7 @@ func newItem(url string, client *http.Client, queueName string, dequeueItem *v1w
 
 				req, err := http.NewRequest(
 					"POST",
-					fmt.Sprintf("%s/v1/queues/%s/channels/items/heartbeat", item.url, item.queueName),
+					fmt.Sprintf("%s/v1/queues/%s/channels/items/heartbeat", item.url, neturl.PathEscape(item.queueName)),
 					bytes.NewBuffer(data),
 				)
 				if err != nil {
@@ -180,7 +181,7 @@ func (item *Item) ACK(ctx context.Context, passed bool) error {
 
 	req, err := http.NewRequest(
 		"POST",
-		fmt.Sprintf("%s/v1/queues/%s/channels/items/ack", item.url, item.queueName),
+		fmt.Sprintf("%s/v1/queues/%s/channels/items/ack", item.url, neturl.PathEscape(item.queueName)),
 		bytes.NewBuffer(data),
 	)
 	if err != nil {
diff --git a/pkg/clients/willow_client/queue.go b/pkg/clients/willow_client/queue.go
index 6740f32..ec33cd2 100644
--- a/pkg/clients/willow_client/queue.go
+++ b/pkg/clients/willow_client/queue.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"fmt"
 	"net/http"
+	"net/url"
 
 	"github.com/DanLavine/willow/pkg/clients"
 	"github.com/DanLavine/willow/pkg/models/api"
@@ -115,7 +116,7 @@ func (wc *WillowClient) GetQueue(ctx context.Context, queueName string, channels
 	}
 
 	// setup and make the request
-	req, err := http.NewRequest("GET", fmt.Sprintf("%s/v1/queues/%s", wc.url, queueName), bytes.NewBuffer(data))
+	req, err := http.NewRequest("GET", fmt.Sprintf("%s/v1/queues/%s", wc.url, url.PathEscape(queueName)), bytes.NewBuffer(data))
 	if err != nil {
 		return nil, err
 	}
@@ -165,7 +166,7 @@ func (wc *WillowClient) UpdateQueue(ctx context.Context, queueName string, queue
 	}
 
 	// setup and make the request
-	req, err := http.NewRequest("PUT", fmt.Sprintf("%s/v1/queues/%s", wc.url, queueName), bytes.NewBuffer(data))
+	req, err := http.NewRequest("PUT", fmt.Sprintf("%s/v1/queues/%s", wc.url, url.PathEscape(queueName)), bytes.NewBuffer(data))
 	if err != nil {
 		return err
 	}
@@ -202,7 +203,7 @@ func (wc *WillowClient) UpdateQueue(ctx context.Context, queueName string, queue
 // Delete a queue and any channels associated with the Queue
 func (wc *WillowClient) DeleteQueue(ctx context.Context, queueName string) error {
 	// setup and make the request
-	req, err := http.NewRequest("DELETE", fmt.Sprintf("%s/v1/queues/%s", wc.url, queueName), nil)
+	req, err := http.NewRequest("DELETE", fmt.Sprintf("%s/v1/queues/%s", wc.url, url.PathEscape(queueName)), nil)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 3cd0597d9be50f2abe26b00549b66fa8b238ab82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:35 +0000
Subject: [PATCH 38/50] fix: a lock is lost in time, and can be released, while
 a heartbeat request gets no response

---
 pkg/clients/locker_client/lock.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/pkg/clients/locker_client/lock.go b/pkg/clients/locker_client/lock.go
index c5a0828..58448b9 100644
--- a/pkg/clients/locker_client/lock.go
+++ b/pkg/clients/locker_client/lock.go
@@ -40,6 +40,10 @@ type lock struct {
 	doneOnce *sync.Once
 	done     chan struct{}
 
+	// used to interrupt a heartbeat request that is still in flight when the lock is done
+	heartbeatCtx    context.Context
+	cancelHeartbeat context.CancelFunc
+
 	// used to ensure only 1 delete operation proccesses
 	heartbeating chan struct{}
 	released     *atomic.Bool
@@ -78,6 +82,8 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 		timeout:   *lockResponse.Spec.Properties.Timeout,
 	}
 
+	lock.heartbeatCtx, lock.cancelHeartbeat = context.WithCancel(context.Background())
+
 	go func() {
 		defer func() {
 			lock.stop()
@@ -87,25 +93,28 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 
 		// set ticker to be ((timeout - 10%) /3). This way we try and heartbeat at least 3 times before a failure occurs
 		adjustedTimeout := *lockResponse.Spec.Properties.Timeout - (*lockResponse.Spec.Properties.Timeout / 10)
-		ticker := time.NewTicker(adjustedTimeout / 3)
-		timeoutTicker := time.NewTicker(lock.timeout)
+		ticker := time.NewTicker(max(adjustedTimeout/3, 1))
+		defer ticker.Stop()
+
+		// the lock is lost once the timeout is reached, also when a heartbeat request is still waiting for its response
+		expire := time.AfterFunc(lock.timeout, lock.stop)
+		defer expire.Stop()
 
 		for {
 			select {
 			case <-lock.done:
-				// release was called. can just escape
-				return
-			case <-timeoutTicker.C:
-				// the timeout was reached. can just escape
+				// release was called, or the timeout was reached. can just escape
 				return
 			case <-ticker.C:
 				lockClaimData, err := api.ModelEncodeRequest(&v1locker.LockClaim{SessionID: lockResponse.State.SessionID})
 				if err != nil {
-					heartbeatErrorCallback(fmt.Errorf("failed to encode heartbeat request: %w", err))
+					if heartbeatErrorCallback != nil {
+						heartbeatErrorCallback(fmt.Errorf("failed to encode heartbeat request: %w", err))
+					}
 					return
 				}
 
-				req, err := http.NewRequest("POST", fmt.Sprintf("%s/v1/locks/%s/heartbeat", url, lockResponse.State.LockID), bytes.NewBuffer(lockClaimData))
+				req, err := http.NewRequestWithContext(lock.heartbeatCtx, "POST", fmt.Sprintf("%s/v1/locks/%s/heartbeat", url, lockResponse.State.LockID), bytes.NewBuffer(lockClaimData))
 				if err != nil {
 					if heartbeatErrorCallback != nil {
 						heartbeatErrorCallback(fmt.Errorf("failed to setup heartbeat request: %w", err))
@@ -126,7 +135,7 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 				switch resp.StatusCode {
 				case http.StatusOK:
 					// this is the success case and the heartbeat passed
-					timeoutTicker.Reset(lock.timeout)
+					expire.Reset(lock.timeout)
 				case http.StatusConflict, http.StatusBadRequest:
 					// there was an error with the request body or session id
 					apiError := &errors.Error{}
@@ -219,6 +228,9 @@ func (l *lock) Done() <-chan struct{} {
 // close the release chan only once
 func (l *lock) stop() {
 	l.doneOnce.Do(func() {
+		// stop waiting for a heartbeat's response
+		l.cancelHeartbeat()
+
 		// remove the item from the client's BTree
 		l.releaseLockCallback()
 
-- 
2.43.0


From 4bc3b563e7dec53cc38861da0752887d8c03f288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:30 +0000
Subject: [PATCH 39/50] fix: a lock can be lost or released while the client
 waits for another one

---
 pkg/clients/locker_client/locker_client.go | 86 +++++++++++++++-------
 1 file changed, 61 insertions(+), 25 deletions(-)

diff --git a/pkg/clients/locker_client/locker_client.go b/pkg/clients/locker_client/locker_client.go
index 7b1ea7b..e4d465b 100644
--- a/pkg/clients/locker_client/locker_client.go
+++ b/pkg/clients/locker_client/locker_client.go
@@ -53,10 +53,19 @@ type LockClient struct {
 	url    string
 	client *http.Client
 
-	// each item in the locks tree's value is a lock
+	// each item in the locks tree's value is an obtainedLock
 	locks btreeassociated.BTreeAssociated
 }
 
+// obtainedLock is a lock that is held by the client, or that a request is currently obtaining
+type obtainedLock struct {
+	// closed when the request for the lock finished
+	done chan struct{}
+
+	// nil if the lock could not be obtained
+	lock Lock
+}
+
 //	PARAMS
 //	- cfg - configuration for the HTTP(s) client
 //
@@ -121,11 +130,20 @@ func (lc *LockClient) Healthy() error {
 // The returned lock will automatically heartbeat to ensure that the lock remains valid. If the heartbeat fails for some reason,
 // the channel returned from the `lock.Done()` call will be closed. It is up to the clients to monitor for a lock being lost
 func (lc *LockClient) ObtainLock(ctx context.Context, lockRequest *v1locker.Lock, heartbeatErrorCallback func(keyValue datatypes.KeyValues, err error)) (Lock, error) {
-	var returnLock Lock
 	var lockErr error
 
+	removeFromTree := func() {
+		canDelete := func(_ btreeassociated.AssociatedKeyValues) bool {
+			return true
+		}
+
+		if err := lc.locks.Delete(lockRequest.Spec.DBDefinition.KeyValues, canDelete); err != nil {
+			panic(fmt.Sprintf("failed to relase the lock's memeory footprint: %s", err.Error()))
+		}
+	}
+
 	// obtain the desired lock
-	onCreate := func() any {
+	obtain := func() Lock {
 		for {
 			// encode and validate the model
 			data, err := api.ObjectEncodeRequest(lockRequest)
@@ -167,27 +185,15 @@ func (lc *LockClient) ObtainLock(ctx context.Context, lockRequest *v1locker.Lock
 					return nil
 				}
 
-				// wrapper is needed so we ensure that the lock is removed from the tree on removal
-				lostLockWrapper := func() {
-					canDelete := func(_ btreeassociated.AssociatedKeyValues) bool {
-						return true
-					}
-
-					if err = lc.locks.Delete(lockRequest.Spec.DBDefinition.KeyValues, canDelete); err != nil {
-						panic(fmt.Sprintf("failed to relase the lock's memeory footprint: %s", err.Error()))
-					}
-				}
-
+				// removeFromTree is needed so we ensure that the lock is removed from the tree on removal
 				if heartbeatErrorCallback != nil {
 					errCallback := func(err error) {
 						heartbeatErrorCallback(lockRequest.Spec.DBDefinition.KeyValues, err)
 					}
-					returnLock = newLock(createLockResponse, lc.url, lc.client, errCallback, lostLockWrapper)
-				} else {
-					returnLock = newLock(createLockResponse, lc.url, lc.client, nil, lostLockWrapper)
+					return newLock(createLockResponse, lc.url, lc.client, errCallback, removeFromTree)
 				}
 
-				return returnLock
+				return newLock(createLockResponse, lc.url, lc.client, nil, removeFromTree)
 			case http.StatusBadRequest, http.StatusInternalServerError:
 				// there was an error with the request. possibly a mismatch on client server versions
 				apiError := &errors.Error{}
@@ -208,13 +214,43 @@ func (lc *LockClient) ObtainLock(ctx context.Context, lockRequest *v1locker.Lock
 		}
 	}
 
-	onFind := func(item btreeassociated.AssociatedKeyValues) {
-		// just return the instance of the found lock
-		returnLock = item.Value().(Lock)
-	}
+	for {
+		var created, found *obtainedLock
+
+		onCreate := func() any {
+			created = &obtainedLock{done: make(chan struct{})}
+			return created
+		}
 
-	// create or find the lock if we already have it
-	_, _ = lc.locks.CreateOrFind(lockRequest.Spec.DBDefinition.KeyValues, onCreate, onFind)
+		onFind := func(item btreeassociated.AssociatedKeyValues) {
+			found = item.Value().(*obtainedLock)
+		}
 
-	return returnLock, lockErr
+		// create or find the lock if we already have it. The request to the service must not be made from the tree's callbacks
+		// since they block other locks in the tree from being lost or released
+		if _, err := lc.locks.CreateOrFind(lockRequest.Spec.DBDefinition.KeyValues, onCreate, onFind); err != nil {
+			return nil, err
+		}
+
+		if created != nil {
+			created.lock = obtain()
+			if created.lock == nil {
+				removeFromTree()
+			}
+			close(created.done)
+
+			return created.lock, lockErr
+		}
+
+		// wait for the other request that is obtaining the lock
+		select {
+		case <-ctx.Done():
+			return nil, nil
+		case <-found.done:
+			if found.lock != nil {
+				// just return the instance of the found lock
+				return found.lock, nil
+			}
+		}
+	}
 }
-- 
2.43.0


From 93d9590afce24e2bfed7c8622a6afc7a8a169588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:36 +0000
Subject: [PATCH 40/50] fix: heartbeats of an item are ones that the service
 accepts

---
 pkg/clients/willow_client/item.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/clients/willow_client/item.go b/pkg/clients/willow_client/item.go
index 73e38d4..887603a 100644
--- a/pkg/clients/willow_client/item.go
+++ b/pkg/clients/willow_client/item.go
@@ -98,6 +98,7 @@ func newItem(url string, client *http.Client, queueName string, dequeueItem *v1w
 					item.forwardError(err)
 					continue
 				}
+				clients.AddHeadersFromContext(req, nil)
 
 				resp, err := client.Do(req)
 				// error making the request. This should not happen
-- 
2.43.0


From 0a889276512b9ca5d063422125ebba37dba54e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:36 +0000
Subject: [PATCH 41/50] fix: an acknowledgement that the service did not accept
 is an error

---
 pkg/clients/willow_client/item.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pkg/clients/willow_client/item.go b/pkg/clients/willow_client/item.go
index 887603a..0b84f5a 100644
--- a/pkg/clients/willow_client/item.go
+++ b/pkg/clients/willow_client/item.go
@@ -209,10 +209,8 @@ func (item *Item) ACK(ctx context.Context, passed bool) error {
 
 		return apiError
 	default:
-		item.forwardError(fmt.Errorf("unexpected status code while heartbeating: %d", resp.StatusCode))
+		return fmt.Errorf("unexpected status code while acknowledging: %d", resp.StatusCode)
 	}
-
-	return nil
 }
 
 // get the dequeued item
-- 
2.43.0


From 9156c5df25a8900dc7c7ace55eebe63a4c6eca72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:29 +0000
Subject: [PATCH 42/50] fix: a consumer learns in time that its item is lost,
 also when a heartbeat gets a late response or none

---
 pkg/clients/willow_client/item.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/pkg/clients/willow_client/item.go b/pkg/clients/willow_client/item.go
index 0b84f5a..320fb07 100644
--- a/pkg/clients/willow_client/item.go
+++ b/pkg/clients/willow_client/item.go
@@ -31,6 +31,10 @@ type Item struct {
 	doneOnce *sync.Once
 	done     chan struct{}
 
+	// used to interrupt a heartbeat request that is still in flight when the item is done
+	heartbeatCtx    context.Context
+	cancelHeartbeat context.CancelFunc
+
 	url    string
 	client *http.Client
 
@@ -61,25 +65,26 @@ func newItem(url string, client *http.Client, queueName string, dequeueItem *v1w
 		heartbeatErrorLock: new(sync.RWMutex),
 	}
 
+	item.heartbeatCtx, item.cancelHeartbeat = context.WithCancel(context.Background())
+
 	go func() {
 		defer item.stop()
 
 		// set ticker to be ((timeout - 10%) /3). This way we try and heartbeat at least 3 times before a failure occurs
-		lastHeartbeat := time.Now()
 		adjustedTimeout := item.heartbeatTimeout - (item.heartbeatTimeout / 10)
-		ticker := time.NewTicker(adjustedTimeout / 3)
+		ticker := time.NewTicker(max(adjustedTimeout/3, 1))
+		defer ticker.Stop()
+
+		// the item is lost once no heartbeat succeeded for that long, also when a request is still waiting for its response
+		expire := time.AfterFunc(adjustedTimeout, item.stop)
+		defer expire.Stop()
 
 		for {
 			select {
 			case <-item.done:
-				// ack was called can just escape
+				// ack was called, or the item timed out. can just escape
 				return
 			case <-ticker.C:
-				// in this case, we know that we have timed out and don't need to heartbeat anymore
-				if time.Since(lastHeartbeat) >= adjustedTimeout {
-					return
-				}
-
 				data, err := api.ModelEncodeRequest(v1willow.Heartbeat{
 					ItemID:    item.itemID,
 					KeyValues: item.keyValues,
@@ -89,7 +94,8 @@ func newItem(url string, client *http.Client, queueName string, dequeueItem *v1w
 					continue
 				}
 
-				req, err := http.NewRequest(
+				req, err := http.NewRequestWithContext(
+					item.heartbeatCtx,
 					"POST",
 					fmt.Sprintf("%s/v1/queues/%s/channels/items/heartbeat", item.url, neturl.PathEscape(item.queueName)),
 					bytes.NewBuffer(data),
@@ -108,15 +114,15 @@ func newItem(url string, client *http.Client, queueName string, dequeueItem *v1w
 						//nothing to do here. race between ack and heartbeat
 					default:
 						item.forwardError(err)
-						continue
 					}
+					continue
 				}
 
 				// parse the response
 				switch resp.StatusCode {
 				case http.StatusOK:
 					// sent a heartbeat
-					lastHeartbeat = time.Now()
+					expire.Reset(adjustedTimeout)
 				case http.StatusBadRequest, http.StatusConflict, http.StatusInternalServerError:
 					// faild to heartbeat for some reason
 					apiError := &errors.Error{}
@@ -229,6 +235,7 @@ func (item *Item) forwardError(err error) {
 
 func (item *Item) stop() {
 	item.doneOnce.Do(func() {
+		item.cancelHeartbeat()
 		close(item.done)
 	})
 }
-- 
2.43.0


From ec299584d3b04ec6f6e51d273363432f1945707b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:41 +0000
Subject: [PATCH 43/50] fix: an environment variable can turn insecure-http
 off, and the usage names the variables that are read

---
 internal/config/limiter_config.go | 12 +++++-------
 internal/config/locker_config.go  |  6 ++----
 internal/config/willow_config.go  |  8 +++-----
 3 files changed, 10 insertions(+), 16 deletions(-)

diff --git a/internal/config/limiter_config.go b/internal/config/limiter_config.go
index e166f76..f06afa8 100644
--- a/internal/config/limiter_config.go
+++ b/internal/config/limiter_config.go
@@ -41,16 +41,16 @@ All flags will use the env vars if they are set instead of command line paramete
 	}
 
 	limiterConfig := &LimiterConfig{
-		logLevel: limiterFlagSet.String("log-level", "info", "log level [debug | info]. Can be set by env var LIMITER_LOG_LEVEL"),
+		logLevel: limiterFlagSet.String("log-level", "info", "log level [debug | info]. Can be set by env var LOG_LEVEL"),
 
 		LimiterPort: limiterFlagSet.String("port", "8082", "default port for the limitter server to run on. Can be set by env var LIMITER_PORT"),
 
-		ServerCA:  limiterFlagSet.String("server-ca", "", "CA file used to generate server certs iff one was used. Can be set by env var LIMITER_CA"),
+		ServerCA:  limiterFlagSet.String("server-ca", "", "CA file used to generate server certs iff one was used. Can be set by env var LIMITER_SERVER_CA"),
 		ServerKey: limiterFlagSet.String("server-key", "", "Server private key location on disk. Can be set by env var LIMITER_SERVER_KEY"),
 		ServerCRT: limiterFlagSet.String("server-crt", "", "Server ssl certificate location on disk. Can be st by env var LIMITER_SERVER_CRT"),
 
 		LockerURL:       limiterFlagSet.String("locker-url", "", "CA file used to generate server certs iff one was used. Can be set by env var LIMITER_LOCKER_URL"),
-		LockerClientCA:  limiterFlagSet.String("locker-client-ca", "", "CA file used to generate server certs iff one was used. Can be set by env var LIMITER_LOCKER_CLIENT_CA"),
+		LockerClientCA:  limiterFlagSet.String("locker-client-ca", "", "CA file used to generate server certs iff one was used. Can be set by env var LIMITER_LOCKER_CA"),
 		LockerClientKey: limiterFlagSet.String("locker-client-key", "", "Client private key location on disk. Can be set by env var LIMITER_LOCKER_CLIENT_KEY"),
 		LockerClientCRT: limiterFlagSet.String("locker-client-crt", "", "Client ssl certificate location on disk. Can be set by env var LIMITER_LOCKER_CLIENT_CRT"),
 
@@ -120,10 +120,8 @@ func (lc *LimiterConfig) parseEnv() {
 	// Insecure settings
 	//// http
 	if limiterInsecureHTTP := os.Getenv("LIMITER_INSECURE_HTTP"); limiterInsecureHTTP != "" {
-		if strings.ToLower(limiterInsecureHTTP) == "true" {
-			trueValue := true
-			lc.InsecureHttp = &trueValue
-		}
+		insecureValue := strings.ToLower(limiterInsecureHTTP) == "true"
+		lc.InsecureHttp = &insecureValue
 	}
 }
 
diff --git a/internal/config/locker_config.go b/internal/config/locker_config.go
index 25e2f8f..8d1cf44 100644
--- a/internal/config/locker_config.go
+++ b/internal/config/locker_config.go
@@ -90,10 +90,8 @@ func (lc *LockerConfig) parseEnv() error {
 
 	// insecure http
 	if insecureHTTP := os.Getenv("LOCKER_INSECURE_HTTP"); insecureHTTP != "" {
-		if insecureHTTP == "true" {
-			trueValue := true
-			lc.InsecureHttp = &trueValue
-		}
+		insecureValue := insecureHTTP == "true"
+		lc.InsecureHttp = &insecureValue
 	}
 
 	// defaults
diff --git a/internal/config/willow_config.go b/internal/config/willow_config.go
index 38ca504..ecd9f99 100644
--- a/internal/config/willow_config.go
+++ b/internal/config/willow_config.go
@@ -64,7 +64,7 @@ All flags will use the env vars if they are set instead of command line paramete
 		ServerKey:        willowFlagSet.String("server-key", "", "Server private key location on disk. Can be set by env var WILLOW_SERVER_KEY"),
 		ServerCRT:        willowFlagSet.String("server-crt", "", "Server ssl certificate location on disk. Can be st by env var WILLOW_SERVER_CRT"),
 		LimiterURL:       willowFlagSet.String("limiter-url", "", "CA file used to generate server certs iff one was used. Can be set by env var WILLOW_LIMITER_URL"),
-		LimiterClientCA:  willowFlagSet.String("limiter-client-ca", "", "CA file used to generate server certs iff one was used. Can be set by env var WILLOW_LIMITER_CLIENT_CA"),
+		LimiterClientCA:  willowFlagSet.String("limiter-client-ca", "", "CA file used to generate server certs iff one was used. Can be set by env var WILLOW_LIMITER_CA"),
 		LimiterClientKey: willowFlagSet.String("limiter-client-key", "", "Client private key location on disk. Can be set by env var WILLOW_LIMITER_CLIENT_KEY"),
 		LimiterClientCRT: willowFlagSet.String("limiter-client-crt", "", "Client ssl certificate location on disk. Can be set by env var WILLOW_LIMITER_CLIENT_CRT"),
 		StorageConfig: &StorageConfig{
@@ -108,10 +108,8 @@ func (wc *WillowConfig) parseEnv() error {
 	}
 	//// insecure http
 	if willowInsecureHTTP := os.Getenv("WILLOW_INSECURE_HTTP"); willowInsecureHTTP != "" {
-		if willowInsecureHTTP == "true" {
-			trueValue := true
-			wc.InsecureHttp = &trueValue
-		}
+		insecureValue := willowInsecureHTTP == "true"
+		wc.InsecureHttp = &insecureValue
 	}
 	//// ca key
 	if willowCA := os.Getenv("WILLOW_CA"); willowCA != "" {
-- 
2.43.0


From dbf45c3b29a7b4dcaf1a0e21bf98a9142c287afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:41 +0000
Subject: [PATCH 44/50] fix: refuse configured ports that are no port numbers

---
 internal/config/limiter_config.go |  2 +-
 internal/config/locker_config.go  |  2 +-
 internal/config/willow_config.go  | 10 ++++++++++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/config/limiter_config.go b/internal/config/limiter_config.go
index f06afa8..abd7fe2 100644
--- a/internal/config/limiter_config.go
+++ b/internal/config/limiter_config.go
@@ -140,7 +140,7 @@ func (lc *LimiterConfig) validate() error {
 	LimiterPort, err := strconv.Atoi(*lc.LimiterPort)
 	if err != nil {
 		return fmt.Errorf("error parsing 'limiter-port': %w", err)
-	} else if LimiterPort > 65535 {
+	} else if LimiterPort < 0 || LimiterPort > 65535 {
 		return fmt.Errorf("flag 'limiter-port' is invalid: '%d'. Must be set to a proper port below 65536", LimiterPort)
 	}
 
diff --git a/internal/config/locker_config.go b/internal/config/locker_config.go
index 8d1cf44..f447ddb 100644
--- a/internal/config/locker_config.go
+++ b/internal/config/locker_config.go
@@ -123,7 +123,7 @@ func (lc *LockerConfig) validate() error {
 	LockerPort, err := strconv.Atoi(*lc.Port)
 	if err != nil {
 		return fmt.Errorf("error parsing 'port': %w", err)
-	} else if LockerPort > 65535 {
+	} else if LockerPort < 0 || LockerPort > 65535 {
 		return fmt.Errorf("flag 'port' is invalid: '%d'. Must be set to a proper port below 65536", LockerPort)
 	}
 
diff --git a/internal/config/willow_config.go b/internal/config/willow_config.go
index ecd9f99..888f439 100644
--- a/internal/config/willow_config.go
+++ b/internal/config/willow_config.go
@@ -4,6 +4,7 @@ import (
 	"flag"
 	"fmt"
 	"os"
+	"strconv"
 )
 
 var (
@@ -157,6 +158,15 @@ func (wc *WillowConfig) validate() error {
 		return fmt.Errorf("expected config 'LogLevel' to be [debug | info]. Received: '%s'", *wc.logLevel)
 	}
 
+	// server
+	//// server port
+	willowPort, err := strconv.Atoi(*wc.Port)
+	if err != nil {
+		return fmt.Errorf("error parsing 'port': %w", err)
+	} else if willowPort < 0 || willowPort > 65535 {
+		return fmt.Errorf("flag 'port' is invalid: '%d'. Must be set to a proper port below 65536", willowPort)
+	}
+
 	if *wc.InsecureHttp {
 		if *wc.ServerCA != "" {
 			return fmt.Errorf("flag 'server-ca' cannot be set with 'insecure-http'")
-- 
2.43.0


From f55b108f7dc73d9f393151a1b9c9e3f6644640c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:18 +0000
Subject: [PATCH 45/50] fix: a rule for any value does not send a limited
 channel into a busy loop

---
 .../brokers/queue_channels/memory/memory_queue_channel.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 3016ab9..d37dffc 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -239,7 +239,9 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 								},
 							}
 
-							for key, value := range rule.Spec.DBDefinition.GroupByKeyValues {
+							// what counts are the channel's own values. The rule can be for 'Any' value
+							for key := range rule.Spec.DBDefinition.GroupByKeyValues {
+								value := erroredKeyValues[key]
 								query.Selection.KeyValues[key] = queryassociatedaction.ValueQuery{
 									Value:      value,
 									Comparison: v1common.Equals,
@@ -285,7 +287,9 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 									},
 								}
 
-								for key, value := range override.Spec.DBDefinition.GroupByKeyValues {
+								// what counts are the channel's own values. The override can be for 'Any' value
+								for key := range override.Spec.DBDefinition.GroupByKeyValues {
+									value := erroredKeyValues[key]
 									query.Selection.KeyValues[key] = queryassociatedaction.ValueQuery{
 										Value:      value,
 										Comparison: v1common.Equals,
-- 
2.43.0


From 4988ae9cc8e2d787e0b28ef24415d2436624950b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:04 +0000
Subject: [PATCH 46/50] fix: willow outlives a problem of the limiter while it
 waits for a limit

---
 .../memory/memory_queue_channel.go              | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index d37dffc..cf51bea 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -205,16 +205,15 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 				for {
 					// find any rules we might be at the limit for
 					rules, err := mqc.limiterClient.MatchRules(context.Background(), querymatchaction.KeyValuesToAnyMatchActionQuery(erroredKeyValues))
-					if err != nil {
-						panic(err)
-					}
 
-					// for each rule, query the counters to know if there is an issue
-					underLimit := true
+					// for each rule, query the counters to know if there is an issue. If the limiter has a problem, check again later
+					underLimit := err == nil
 					for _, rule := range rules {
 						overrides, err := mqc.limiterClient.MatchOverrides(context.Background(), rule.State.ID, querymatchaction.KeyValuesToAnyMatchActionQuery(erroredKeyValues))
 						if err != nil {
-							panic(err)
+							// the rule could have been deleted in the meantime
+							underLimit = false
+							break
 						}
 
 						switch len(overrides) {
@@ -254,7 +253,8 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 
 							counters, err := mqc.limiterClient.QueryCounters(context.Background(), query)
 							if err != nil {
-								panic(err)
+								underLimit = false
+								break
 							}
 
 							totalCount := int64(0)
@@ -302,7 +302,8 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 
 								counters, err := mqc.limiterClient.QueryCounters(context.Background(), query)
 								if err != nil {
-									panic(err)
+									underLimit = false
+									break
 								}
 
 								totalCount := int64(0)
-- 
2.43.0


From bc1db0b1adddac76f538fce92d24614cc0aa9da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:07 +0000
Subject: [PATCH 47/50] fix: channel keys that are named like the counters' own
 keys do not replace them

---
 .../memory/memory_queue_channel.go            | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index cf51bea..862880f 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -2,8 +2,8 @@ package memory
 
 import (
 	"context"
-	"fmt"
 	"net/http"
+	"strings"
 	"sync"
 	"time"
 
@@ -199,7 +199,7 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 					"_willow_running":    datatypes.String("true"),
 				}
 				for key, value := range mqc.channelKeyValues {
-					erroredKeyValues[key] = value
+					erroredKeyValues[counterKey(key)] = value
 				}
 
 				for {
@@ -845,7 +845,7 @@ func (mqc *memoryQueueChannel) limiterUpdateEnqueuedValue(ctx context.Context, c
 		"_willow_enqueued":   datatypes.String("true"),
 	}
 	for key, value := range mqc.channelKeyValues {
-		enqueueKeyValues[fmt.Sprintf("_willow_%s", key)] = value
+		enqueueKeyValues[counterKey("_willow_"+key)] = value
 	}
 
 	err := mqc.limiterClient.UpdateCounter(ctx, &v1limiter.Counter{
@@ -877,7 +877,7 @@ func (mqc *memoryQueueChannel) limterUpdateRunningValue(ctx context.Context, cou
 		"_willow_running":    datatypes.String("true"),
 	}
 	for key, value := range mqc.channelKeyValues {
-		counterKeyValues[key] = value
+		counterKeyValues[counterKey(key)] = value
 	}
 
 	counter := &v1limiter.Counter{
@@ -907,7 +907,7 @@ func (mqc *memoryQueueChannel) setLimiterEnqueuedValue(ctx context.Context) *err
 		"_willow_enqueued":   datatypes.String("true"),
 	}
 	for key, value := range mqc.channelKeyValues {
-		enqueueKeyValues[fmt.Sprintf("_willow_%s", key)] = value
+		enqueueKeyValues[counterKey("_willow_"+key)] = value
 	}
 
 	err := mqc.limiterClient.SetCounters(ctx, &v1limiter.Counter{
@@ -937,7 +937,7 @@ func (mqc *memoryQueueChannel) setLimterRunningValue(ctx context.Context) error
 		"_willow_running":    datatypes.String("true"),
 	}
 	for key, value := range mqc.channelKeyValues {
-		counterKeyValues[key] = value
+		counterKeyValues[counterKey(key)] = value
 	}
 
 	counter := &v1limiter.Counter{
@@ -958,3 +958,16 @@ func (mqc *memoryQueueChannel) setLimterRunningValue(ctx context.Context) error
 
 	return nil
 }
+
+// counterKey is the name that a channel's key has in the counters. No such name can be one of the queue's own, which
+// are "_willow_" followed by one of the names below: if only additional '_' set it apart, it receives one more
+func counterKey(key string) string {
+	if name, ok := strings.CutPrefix(key, "_willow_"); ok {
+		switch strings.TrimLeft(name, "_") {
+		case "queue_name", "enqueued", "running":
+			return "_willow__" + name
+		}
+	}
+
+	return key
+}
-- 
2.43.0


From 91e26363f362e296233e154a01bccb3688f95732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:46 +0000
Subject: [PATCH 48/50] fix: a client certificate is used without a CA as well

---
 pkg/clients/http_client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/clients/http_client.go b/pkg/clients/http_client.go
index f280856..ac64e2a 100644
--- a/pkg/clients/http_client.go
+++ b/pkg/clients/http_client.go
@@ -15,7 +15,8 @@ func NewHTTPClient(cfg *Config) (*http.Client, error) {
 
 	client := &http.Client{}
 
-	if cfg.CAFile != "" {
+	// the certificate is also used without a CA, when the server's certificate is signed by a well known one
+	if cfg.ClientCRTFile != "" {
 		client.Transport = &http2.Transport{
 			TLSClientConfig: &tls.Config{
 				Certificates: []tls.Certificate{cfg.Cert()},
-- 
2.43.0


From 9c187ea4f52a380bc5f38f21b36d54733b9de9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:56 +0000
Subject: [PATCH 49/50] fix: a queue is deleted also when one of its channels
 has an override of its own

---
 internal/willow/brokers/queues/memory/memory_queue.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/willow/brokers/queues/memory/memory_queue.go b/internal/willow/brokers/queues/memory/memory_queue.go
index 058646d..2015b6d 100644
--- a/internal/willow/brokers/queues/memory/memory_queue.go
+++ b/internal/willow/brokers/queues/memory/memory_queue.go
@@ -138,6 +138,8 @@ func (mq *memoryQueue) Destroy(ctx context.Context, limiterRuleID, queueID strin
 					},
 				},
 			},
+			MinNumberOfKeyValues: helpers.PointerOf(2),
+			MaxNumberOfKeyValues: helpers.PointerOf(2),
 		},
 	})
 	if err != nil {
-- 
2.43.0


From bc59479952e3fca9ed6d5caec6b7c0f0b349965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:12 +0000
Subject: [PATCH 50/50] fix: willow can be interrupted while it waits for the
 limiter

---
 cmd/willow/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/willow/main.go b/cmd/willow/main.go
index 603f072..dea880f 100644
--- a/cmd/willow/main.go
+++ b/cmd/willow/main.go
@@ -56,7 +56,12 @@ func main() {
 	for i := 0; i < 10; i++ {
 		if err := limiterClient.Healthy(); err != nil {
 			logger.Error("error checking health of limiter service", zap.Error(err))
-			time.Sleep(10 * time.Second)
+
+			select {
+			case <-time.After(10 * time.Second):
+			case <-shutdown.Done():
+				os.Exit(1)
+			}
 
 			if i == 9 {
 				logger.Fatal("Failed to setup the limiter client which is required")
-- 
2.43.0

