From e2e60f207848d732cece1d9365bb0b0ab4355657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:26 +0000
Subject: [PATCH 01/29] fix: value.Equal must not panic on absent values

Equal(double, nil) dereferenced the nil message; absent decimal and
leaf-list payloads did too. Use the nil-safe getters.
---
 value/value.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/value/value.go b/value/value.go
index fd1149c..d1a9d9d 100644
--- a/value/value.go
+++ b/value/value.go
@@ -196,7 +196,7 @@ func Equal(a, b *pb.TypedValue) bool {
 		}
 		return string(av.BytesVal) == string(bv.BytesVal)
 	case *pb.TypedValue_DoubleVal:
-		bv, ok := b.Value.(*pb.TypedValue_DoubleVal)
+		bv, ok := b.GetValue().(*pb.TypedValue_DoubleVal)
 		if !ok {
 			return false
 		}
@@ -212,13 +212,13 @@ func Equal(a, b *pb.TypedValue) bool {
 		if !ok {
 			return false
 		}
-		return av.DecimalVal.Digits == bv.DecimalVal.Digits && av.DecimalVal.Precision == bv.DecimalVal.Precision
+		return av.DecimalVal.GetDigits() == bv.DecimalVal.GetDigits() && av.DecimalVal.GetPrecision() == bv.DecimalVal.GetPrecision()
 	case *pb.TypedValue_LeaflistVal:
 		bv, ok := b.GetValue().(*pb.TypedValue_LeaflistVal)
 		if !ok {
 			return false
 		}
-		ae, be := av.LeaflistVal.Element, bv.LeaflistVal.Element
+		ae, be := av.LeaflistVal.GetElement(), bv.LeaflistVal.GetElement()
 		if len(ae) != len(be) {
 			return false
 		}
-- 
2.43.0


From ce1ad548c6d661611a62c18f3eead44b51f15fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:26 +0000
Subject: [PATCH 02/29] fix: value.ToScalar must not panic on absent values

A nil TypedValue, leaf-list element or decimal payload is reported as a
non-scalar (or zero decimal) instead of being dereferenced.
---
 value/value.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/value/value.go b/value/value.go
index d1a9d9d..4042086 100644
--- a/value/value.go
+++ b/value/value.go
@@ -121,7 +121,7 @@ func ToScalar(tv *pb.TypedValue) (interface{}, error) {
 		for x, e := range elems {
 			v, err := ToScalar(e)
 			if err != nil {
-				return nil, fmt.Errorf("ToScalar for ScalarArray %+v: %v", e.Value, err)
+				return nil, fmt.Errorf("ToScalar for ScalarArray %+v: %v", e.GetValue(), err)
 			}
 			ss[x] = v
 		}
@@ -149,7 +149,7 @@ func ToScalar(tv *pb.TypedValue) (interface{}, error) {
 		}
 		return uVal, nil
 	default:
-		return nil, fmt.Errorf("non-scalar type %+v", tv.Value)
+		return nil, fmt.Errorf("non-scalar type %+v", tv.GetValue())
 	}
 	return i, nil
 }
@@ -157,7 +157,7 @@ func ToScalar(tv *pb.TypedValue) (interface{}, error) {
 // decimalToFloat converts a *gnmi_proto.Decimal64 to a float32. Downcasting to
 // float32 is performed as the precision of a float64 is not required.
 func decimalToFloat(d *pb.Decimal64) float32 {
-	return float32(float64(d.Digits) / math.Pow(10, float64(d.Precision)))
+	return float32(float64(d.GetDigits()) / math.Pow(10, float64(d.GetPrecision())))
 }
 
 // Equal returns true if the values in a and b are the same.  This method
-- 
2.43.0


From fc2278a56a6a752d9dedf26e0727657e04abc94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:32 +0000
Subject: [PATCH 03/29] fix: client query whose last element ends in a slash
 loses that element

pathToString escapes slashes inside elements, but ygot.StringToPath strips
a trailing slash without looking at the escape, so the query a, b/ was sent
as a.
---
 client/gnmi/client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client/gnmi/client.go b/client/gnmi/client.go
index 7bfe3b2..e11e555 100644
--- a/client/gnmi/client.go
+++ b/client/gnmi/client.go
@@ -324,5 +324,11 @@ func pathToString(q client.Path) string {
 	for i, e := range qq {
 		qq[i] = strings.Replace(e, "/", "\\/", -1)
 	}
-	return strings.Join(qq, "/")
+	s := strings.Join(qq, "/")
+	// ygot.StringToPath takes any trailing slash, escaped or not, for an empty
+	// last element and drops it: terminate an element that ends in a slash.
+	if n := len(q); n > 0 && strings.HasSuffix(q[n-1], "/") {
+		s += "/"
+	}
+	return s
 }
-- 
2.43.0


From e1483dbaa4374bf2955bd43f3450c43a1cf8a458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:58 +0000
Subject: [PATCH 04/29] fix: deleting from an empty tree must not remove or
 visit a leaf

---
 ctree/tree.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ctree/tree.go b/ctree/tree.go
index 7a09669..9318532 100644
--- a/ctree/tree.go
+++ b/ctree/tree.go
@@ -386,6 +386,8 @@ func (t *Tree) internalDelete(subpath []string, condition func(interface{}) bool
 				}
 			}
 			return len(t.leafBranch.(branch)) == 0, allLeaves
+		case nil: // an empty node has no leaf to delete
+			return false, nil
 		default:
 			if condition(t.leafBranch) {
 				// The second parameter is an empty path that will be filled as recursion
-- 
2.43.0


From be618aa3c7cffa4ebd4649022aefd4505c5c86ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:19 +0000
Subject: [PATCH 05/29] fix: a delete whose path runs past a leaf must not
 remove that leaf

---
 ctree/tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ctree/tree.go b/ctree/tree.go
index 9318532..422c15d 100644
--- a/ctree/tree.go
+++ b/ctree/tree.go
@@ -389,6 +389,10 @@ func (t *Tree) internalDelete(subpath []string, condition func(interface{}) bool
 		case nil: // an empty node has no leaf to delete
 			return false, nil
 		default:
+			if len(subpath) != 0 {
+				// The path continues past this leaf and does not match it.
+				return false, nil
+			}
 			if condition(t.leafBranch) {
 				// The second parameter is an empty path that will be filled as recursion
 				// unwinds for this leaf that will be deleted in its parent.
-- 
2.43.0


From e32cef2a3a34ac28b55808707b5754995a63a852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:28 +0000
Subject: [PATCH 06/29] fix: deletes must lock the nodes they visit, which
 retained handles may access

---
 ctree/tree.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ctree/tree.go b/ctree/tree.go
index 422c15d..73927bc 100644
--- a/ctree/tree.go
+++ b/ctree/tree.go
@@ -361,7 +361,8 @@ func (t *Tree) WalkDeleted(path []string, condition func(interface{}) bool, f fu
 // returns true if the current node is to be removed from the parent and
 // a slice of subpaths ([]string) for all leaves deleted thus far if
 // retDeletedPaths is true. If retDeletedPaths is false, the returned slice
-// of subpaths is nil.
+// of subpaths is nil. The caller holds the write lock on t; the descendants are
+// locked here, since they may be accessed through retained handles.
 func (t *Tree) internalDelete(subpath []string, condition func(interface{}) bool, f func(interface{}), retDeletedPaths bool) (bool, [][]string) {
 	if len(subpath) == 0 || subpath[0] == "*" {
 		if len(subpath) != 0 {
@@ -374,7 +375,9 @@ func (t *Tree) internalDelete(subpath []string, condition func(interface{}) bool
 			// progeny leaves.
 			var allLeaves [][]string
 			for k, v := range b {
+				v.mu.Lock()
 				del, leaves := v.internalDelete(subpath, condition, f, retDeletedPaths)
+				v.mu.Unlock()
 				if retDeletedPaths {
 					leaf := []string{k}
 					for _, l := range leaves {
@@ -408,7 +411,9 @@ func (t *Tree) internalDelete(subpath []string, condition func(interface{}) bool
 	if b, ok := t.leafBranch.(branch); ok {
 		// Continue to recurse on subpath while it matches nodes in the Tree.
 		if br := b[subpath[0]]; br != nil {
+			br.mu.Lock()
 			delBr, allLeaves := br.internalDelete(subpath[1:], condition, f, retDeletedPaths)
+			br.mu.Unlock()
 			if retDeletedPaths {
 				leaf := []string{subpath[0]}
 				// Prepend branch node name to all progeny leaves of branch.
-- 
2.43.0


From da9540e938a523296cfb33d6fce287fba247df61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:40 +0000
Subject: [PATCH 07/29] fix: offer a notification once to a subscriber with
 several matching paths

---
 subscribe/subscribe.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/subscribe/subscribe.go b/subscribe/subscribe.go
index 2be7a29..040f20c 100644
--- a/subscribe/subscribe.go
+++ b/subscribe/subscribe.go
@@ -167,10 +167,8 @@ func NewServer(c *cache.Cache, opts ...Option) (*Server, error) {
 // v should be n itself or the container of n (e.g. a ctree.Leaf) depending
 // on the caller.
 func UpdateNotification(m *match.Match, v interface{}, n *pb.Notification, prefix []string) {
-	var updated map[match.Client]struct{}
-	if len(n.Update)+len(n.Delete) > 1 {
-		updated = make(map[match.Client]struct{})
-	}
+	// A client may match with several of its paths, even for a single update.
+	updated := make(map[match.Client]struct{})
 	for _, u := range n.Update {
 		m.UpdateOnce(v, append(prefix, path.ToStrings(u.Path, false)...), updated)
 	}
-- 
2.43.0


From 9a1c881e431f068d9432221f5b2a2c67cf6e34da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:04 +0000
Subject: [PATCH 08/29] fix: the subscriptions of one call must not share the
 path used to remove them

---
 subscribe/subscribe.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subscribe/subscribe.go b/subscribe/subscribe.go
index 040f20c..607f0f1 100644
--- a/subscribe/subscribe.go
+++ b/subscribe/subscribe.go
@@ -226,9 +226,10 @@ func addSubscription(m *match.Match, s *pb.SubscriptionList, c *matchClient) (re
 		if p == nil {
 			continue
 		}
-		query := prefix
+		// Each query is retained for its removal and needs its own backing array.
+		query := append([]string{}, prefix...)
 		if origin := p.GetOrigin(); s.Prefix.GetOrigin() == "" && origin != "" {
-			query = append(prefix, origin)
+			query = append(query, origin)
 		}
 		query = append(query, path.ToStrings(p, false)...)
 		removes = append(removes, m.AddQuery(query, c))
-- 
2.43.0


From 7a284b337b0d9e315f49d3ffebb1918a974cc532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:18 +0000
Subject: [PATCH 09/29] fix: the synthetic target's intervals must not overflow

Ranges and deltas whose size or sum exceeds int64 made rand.Int63n panic,
or produced values outside the configured range and timestamps going back.
---
 testing/fake/queue/queue.go | 52 ++++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 9 deletions(-)

diff --git a/testing/fake/queue/queue.go b/testing/fake/queue/queue.go
index 1c9c2f1..bc9410a 100644
--- a/testing/fake/queue/queue.go
+++ b/testing/fake/queue/queue.go
@@ -20,6 +20,7 @@ package queue
 
 import (
 	"fmt"
+	"math"
 	"math/rand"
 	"sync"
 	"time"
@@ -176,10 +177,39 @@ func (v *value) updateTimestamp() error {
 	if min > max || min < 0 {
 		return fmt.Errorf("invalid delta_min/delta_max on timestamp for %q", v.v)
 	}
-	v.v.Timestamp.Timestamp = t + v.r.Int63n(max-min+1) + min
+	delta := int63Range(v.r, min, max)
+	if delta > math.MaxInt64-t {
+		return fmt.Errorf("timestamp overflow for %q", v.v)
+	}
+	v.v.Timestamp.Timestamp = t + delta
 	return nil
 }
 
+// int63Range returns a pseudo-random number in [min,max], min <= max, also when
+// the size of the interval is not representable as int64.
+func int63Range(r *rand.Rand, min, max int64) int64 {
+	if n := max - min + 1; n > 0 {
+		return min + r.Int63n(n)
+	}
+	return int64(uint64(min) + uint64Below(r, uint64(max)-uint64(min)+1))
+}
+
+// uint64Range returns a pseudo-random number in [min,max], min <= max.
+func uint64Range(r *rand.Rand, min, max uint64) uint64 {
+	if n := max - min + 1; n > 0 && n <= math.MaxInt64 {
+		return min + uint64(r.Int63n(int64(n)))
+	}
+	return min + uint64Below(r, max-min+1)
+}
+
+// uint64Below returns a pseudo-random number below n, where 0 stands for 1<<64.
+func uint64Below(r *rand.Rand, n uint64) uint64 {
+	if n == 0 {
+		return r.Uint64()
+	}
+	return r.Uint64() % n
+}
+
 func (v *value) updateIntValue() error {
 	val := v.v.GetIntValue()
 	if val == nil {
@@ -205,7 +235,7 @@ func (v *value) updateIntValue() error {
 			newval = val.Value
 		}
 
-		newval += v.r.Int63n(right-left+1) + left
+		newval += int63Range(v.r, left, right)
 		if newval > rng.Maximum {
 			newval = rng.Maximum
 		}
@@ -375,19 +405,23 @@ func (v *value) updateUintValue() error {
 			return fmt.Errorf("value not in [minimum, maximum] in UintRange for %q", v.v)
 		}
 
-		left, right := int64(rng.GetMinimum()), int64(rng.GetMaximum())
 		if rng.DeltaMin != 0 || rng.DeltaMax != 0 {
 			if rng.DeltaMin > rng.DeltaMax {
 				return fmt.Errorf("invalid delta_min/delta_max in UintRange for %q", v.v)
 			}
-			left, right = rng.GetDeltaMin(), rng.GetDeltaMax()
 			newval = val.Value
-		}
-		tmpVal := int64(newval) + v.r.Int63n(right-left+1) + left
-		if tmpVal < 0 {
-			newval = rng.Minimum
+			switch delta := int63Range(v.r, rng.GetDeltaMin(), rng.GetDeltaMax()); {
+			case delta >= 0 && newval+uint64(delta) >= newval:
+				newval += uint64(delta)
+			case delta >= 0:
+				newval = math.MaxUint64
+			case uint64(-delta) <= newval:
+				newval -= uint64(-delta)
+			default:
+				newval = 0
+			}
 		} else {
-			newval = uint64(tmpVal)
+			newval = uint64Range(v.r, rng.Minimum, rng.Maximum)
 		}
 		if newval > rng.Maximum {
 			newval = rng.Maximum
-- 
2.43.0


From 77d7d242af1a5c1fa340469a63495cef3e6f4d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:18 +0000
Subject: [PATCH 10/29] fix: the synthetic target must use the random generator
 of its configuration

Client.reset only read the deprecated seed and values fields, so a
configuration with a random generator emitted nothing but the sync marker.
---
 testing/fake/gnmi/client.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/testing/fake/gnmi/client.go b/testing/fake/gnmi/client.go
index da33502..f3632d9 100644
--- a/testing/fake/gnmi/client.go
+++ b/testing/fake/gnmi/client.go
@@ -302,7 +302,11 @@ func (c *Client) reset() error {
 	log.V(1).Infof("Client %s using config:\n%s", c, prototext.Format(c.config))
 	switch {
 	default:
-		q := queue.New(c.config.GetEnableDelay(), c.config.Seed, c.config.Values)
+		seed, values := c.config.Seed, c.config.Values
+		if random := c.config.GetRandom(); random != nil {
+			seed, values = random.Seed, random.Values
+		}
+		q := queue.New(c.config.GetEnableDelay(), seed, values)
 		// Inject sync message after latest provided update in the config.
 		if !c.config.DisableSync {
 			q.Add(&fpb.Value{
-- 
2.43.0


From c84d9cc087753e46ff019ac6bc5e4b0b2732b4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:41 +0000
Subject: [PATCH 11/29] fix: the cache must not panic on empty paths and absent
 values

Updates and deletes whose path is empty or only names the metadata root,
metadata updates without a value, and metadata leaves of an unexpected type
sent by a target made gnmiUpdate, gnmiRemove or generateMetaUpdates panic.
---
 cache/cache.go | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 0b974f1..aac0275 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -504,26 +504,32 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 		suffix = nil
 	}
 	path := joinPrefixAndPath(n.Prefix, suffix)
+	if len(path) == 0 {
+		return nil, errors.New("update of an empty path")
+	}
 	if path[0] == metadata.Root {
+		if len(path) == 1 {
+			return nil, fmt.Errorf("update of the root of the metadata %q", path)
+		}
 		realData = false
 		u := n.Update[0]
 		switch path[1] {
 		case metadata.Sync:
 			var ok bool
-			tv, ok := u.Val.Value.(*pb.TypedValue_BoolVal)
+			tv, ok := u.GetVal().GetValue().(*pb.TypedValue_BoolVal)
 			if !ok {
 				return nil, fmt.Errorf("%v : has value %v of type %T, expected boolean", metadata.Path(metadata.Sync), u.Val, u.Val)
 			}
 			t.sync = tv.BoolVal
 			t.meta.SetBool(metadata.Sync, t.sync)
 		case metadata.Connected:
-			tv, ok := u.Val.Value.(*pb.TypedValue_BoolVal)
+			tv, ok := u.GetVal().GetValue().(*pb.TypedValue_BoolVal)
 			if !ok {
 				return nil, fmt.Errorf("%v : has value %v of type %T, expected boolean", metadata.Path(metadata.Connected), u.Val, u.Val)
 			}
 			t.meta.SetBool(metadata.Connected, tv.BoolVal)
 		case metadata.ConnectedAddr, metadata.ConnectError:
-			tv, ok := u.Val.Value.(*pb.TypedValue_StringVal)
+			tv, ok := u.GetVal().GetValue().(*pb.TypedValue_StringVal)
 			if !ok {
 				return nil, fmt.Errorf("%v : has value %v of type %T, expected string", metadata.Path(path[1]), u.Val, u.Val)
 			}
@@ -623,7 +629,7 @@ func toDeleteNotification(n *pb.Notification, timestamp int64) *pb.Notification
 
 func (t *Target) gnmiRemove(n *pb.Notification) []*ctree.Leaf {
 	path := joinPrefixAndPath(n.Prefix, n.Delete[0])
-	if path[0] == metadata.Root {
+	if len(path) > 1 && path[0] == metadata.Root {
 		t.meta.ResetEntry(path[1])
 	}
 	var leaves []*ctree.Leaf
@@ -680,6 +686,15 @@ func (t *Target) updateMeta(clients func(*ctree.Leaf)) {
 	t.generateMetaUpdates(clients)
 }
 
+// storedValue returns the value held by a leaf of the cache, nil if it has none.
+func storedValue(leaf interface{}) interface{} {
+	n, ok := leaf.(*pb.Notification)
+	if !ok || len(n.GetUpdate()) == 0 {
+		return nil
+	}
+	return n.GetUpdate()[0].GetVal().GetValue()
+}
+
 func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 	for value := range metadata.TargetBoolValues {
 		if t.excludedMeta.Contains(value) {
@@ -690,8 +705,8 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 			continue
 		}
 		path := metadata.Path(value)
-		prev := t.t.GetLeafValue(path)
-		if prev == nil || prev.(*pb.Notification).Update[0].Val.Value.(*pb.TypedValue_BoolVal).BoolVal != v {
+		prev, ok := storedValue(t.t.GetLeafValue(path)).(*pb.TypedValue_BoolVal)
+		if !ok || prev.BoolVal != v {
 			noti := metaNotiBool(t.name, value, v)
 			if n, _ := t.gnmiUpdate(noti); n != nil {
 				if clients != nil {
@@ -710,8 +725,8 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 			continue
 		}
 		path := metadata.Path(value)
-		prev := t.t.GetLeafValue(path)
-		if prev == nil || prev.(*pb.Notification).Update[0].Val.Value.(*pb.TypedValue_IntVal).IntVal != v {
+		prev, ok := storedValue(t.t.GetLeafValue(path)).(*pb.TypedValue_IntVal)
+		if !ok || prev.IntVal != v {
 			noti := metaNotiInt(t.name, value, v)
 			if n, _ := t.gnmiUpdate(noti); n != nil {
 				if clients != nil {
@@ -730,8 +745,8 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 			continue
 		}
 		path := metadata.Path(value)
-		prev := t.t.GetLeafValue(path)
-		if prev == nil || prev.(*pb.Notification).Update[0].Val.Value.(*pb.TypedValue_StringVal).StringVal != v {
+		prev, ok := storedValue(t.t.GetLeafValue(path)).(*pb.TypedValue_StringVal)
+		if !ok || prev.StringVal != v {
 			noti := metaNotiStr(t.name, value, v)
 			if n, _ := t.gnmiUpdate(noti); n != nil {
 				if clients != nil {
@@ -763,10 +778,11 @@ func joinPrefixAndPath(pr, ph *pb.Path) []string {
 	// <target> and <origin> are only valid as prefix gnmi.Path
 	// https://github.com/openconfig/reference/blob/master/rpc/gnmi-specification.md#222-paths
 	p := path.ToStrings(pr, true)
-	p = append(p, path.ToStrings(ph, false)...)
-	// remove the prepended target name
-	p = p[1:]
-	return p
+	if pr.GetTarget() != "" {
+		// remove the prepended target name
+		p = p[1:]
+	}
+	return append(p, path.ToStrings(ph, false)...)
 }
 
 func deleteNoti(t, o string, p []string) *pb.Notification {
-- 
2.43.0


From 635ed59abd64157f54b36dfbd47e2cbbdd43cd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:42 +0000
Subject: [PATCH 12/29] fix: deleted metadata leaves must not be subtracted
 from the leaf count

They are not counted when they are added, so a connect error followed by a
connect left the leaf count at -1.
---
 cache/cache.go | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index aac0275..3b15fa8 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -496,14 +496,18 @@ func (t *Target) resetTimestamp() {
 	t.ts = time.Time{}
 }
 
-func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
-	realData := true
-	suffix := n.Update[0].Path
+// leafPath returns the path below the prefix of the leaf in which n is stored.
+func leafPath(n *pb.Notification) *pb.Path {
 	// If the notification is an atomic group of updates, store them under the prefix only.
-	if n.Atomic {
-		suffix = nil
+	if n.GetAtomic() {
+		return nil
 	}
-	path := joinPrefixAndPath(n.Prefix, suffix)
+	return n.GetUpdate()[0].GetPath()
+}
+
+func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
+	realData := true
+	path := joinPrefixAndPath(n.Prefix, leafPath(n))
 	if len(path) == 0 {
 		return nil, errors.New("update of an empty path")
 	}
@@ -627,23 +631,32 @@ func toDeleteNotification(n *pb.Notification, timestamp int64) *pb.Notification
 	return d
 }
 
+// isMeta reports whether the stored notification n is a metadata leaf. These
+// leaves are not included in the leaf counters.
+func isMeta(n *pb.Notification) bool {
+	path := joinPrefixAndPath(n.GetPrefix(), leafPath(n))
+	return len(path) > 0 && path[0] == metadata.Root
+}
+
 func (t *Target) gnmiRemove(n *pb.Notification) []*ctree.Leaf {
 	path := joinPrefixAndPath(n.Prefix, n.Delete[0])
 	if len(path) > 1 && path[0] == metadata.Root {
 		t.meta.ResetEntry(path[1])
 	}
 	var leaves []*ctree.Leaf
+	var deleted int64
 	f := func(v interface{}) {
 		d := v.(*pb.Notification)
+		if !isMeta(d) {
+			deleted++
+		}
 		leaves = append(leaves, ctree.DetachedLeaf(toDeleteNotification(d, n.GetTimestamp())))
 	}
 	t.t.WalkDeleted(path, func(v interface{}) bool { return v.(*pb.Notification).GetTimestamp() < n.GetTimestamp() }, f)
-	if len(leaves) == 0 {
-		return nil
+	if deleted > 0 {
+		t.meta.AddInt(metadata.LeafCount, -deleted)
+		t.meta.AddInt(metadata.DelCount, deleted)
 	}
-	deleted := int64(len(leaves))
-	t.meta.AddInt(metadata.LeafCount, -deleted)
-	t.meta.AddInt(metadata.DelCount, deleted)
 	return leaves
 }
 
-- 
2.43.0


From 7ecbcb91a9c72ed046a7d1cccd177bce316e8bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:55 +0000
Subject: [PATCH 13/29] fix: the latest timestamp must follow every accepted
 update of a target

It ignored updates in the deprecated encoding or with the whole path in the
prefix, looked only at the first update of a notification, and was applied
after the last one, so that the future check of a later update of the same
notification did not see an earlier one.
---
 cache/cache.go | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 3b15fa8..1ee75cf 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -384,17 +384,6 @@ func (c *Cache) GnmiUpdate(n *pb.Notification) error {
 // each individual Update/Delete is sent to cache as
 // a separate gnmi.Notification.
 func (t *Target) GnmiUpdate(n *pb.Notification) error {
-	updateTS := false
-	if u := n.GetUpdate(); len(u) > 0 {
-		if p := u[0].GetPath().GetElem(); len(p) > 0 && p[0].GetName() != metadata.Root {
-			// Record latest timestamp from the device, excluding all 'meta' paths.
-			defer func(ts int64) {
-				if updateTS {
-					t.checkTimestamp(T(ts))
-				}
-			}(n.GetTimestamp())
-		}
-	}
 	switch {
 	// Store atomic notifications as a single leaf in the tree.
 	case n.Atomic:
@@ -410,7 +399,6 @@ func (t *Target) GnmiUpdate(n *pb.Notification) error {
 		if err != nil {
 			return err
 		}
-		updateTS = true
 		if nd != nil {
 			t.meta.AddInt(metadata.UpdateCount, int64(l))
 			t.client(nd)
@@ -435,7 +423,6 @@ func (t *Target) GnmiUpdate(n *pb.Notification) error {
 				errs.Add(err)
 				continue
 			}
-			updateTS = true
 			if nd != nil {
 				t.meta.AddInt(metadata.UpdateCount, 1)
 				t.client(nd)
@@ -459,7 +446,6 @@ func (t *Target) GnmiUpdate(n *pb.Notification) error {
 		if err != nil {
 			return err
 		}
-		updateTS = true
 		if nd != nil {
 			t.meta.AddInt(metadata.UpdateCount, 1)
 			t.client(nd)
@@ -578,6 +564,9 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 			}
 		}
 		oldval.Update(n)
+		if realData {
+			t.checkTimestamp(T(n.GetTimestamp()))
+		}
 		// Simulate event-driven for all non-atomic updates.
 		if !n.Atomic && value.Equal(old.Update[0].Val, n.Update[0].Val) && t.eventDriven {
 			t.meta.AddInt(metadata.SuppressedCount, 1)
@@ -595,6 +584,7 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 		return nil, err
 	}
 	if realData {
+		t.checkTimestamp(T(n.GetTimestamp()))
 		t.meta.AddInt(metadata.LeafCount, 1)
 		t.meta.AddInt(metadata.AddCount, 1)
 		// Compute latency for new leaves.
-- 
2.43.0


From db21a15bd54332f7412034cadb634e2e4ceeb8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:56 +0000
Subject: [PATCH 14/29] fix: lock the sync state and latest timestamp of a
 target

The metadata refresh and the update stream of a target access both.
---
 cache/cache.go | 43 ++++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 1ee75cf..a2f6d66 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -60,11 +60,11 @@ type Target struct {
 	name            string             // name of the target
 	t               *ctree.Tree        // actual cache of target data
 	client          func(*ctree.Leaf)  // Function to pass all cache updates to.
-	sync            bool               // denotes whether this cache is in sync with target
 	meta            *metadata.Metadata // metadata associated with target
 	lat             *latency.Latency   // latency measurements
-	tsmu            sync.Mutex         // protects latest timestamp
+	tsmu            sync.Mutex         // protects latest timestamp and sync
 	ts              time.Time          // latest timestamp for an update
+	sync            bool               // denotes whether this cache is in sync with target
 	excludedMeta    stringset.Set      // set of metadata not to generate update for
 	futureThreshold time.Duration      // how far in the future an update can be accepted
 	eventDriven     bool               // whether to emulate event driven
@@ -476,6 +476,25 @@ func (t *Target) checkTimestamp(ts time.Time) {
 	}
 }
 
+// latestTimestamp returns the latest timestamp for an update.
+func (t *Target) latestTimestamp() time.Time {
+	defer t.tsmu.Unlock()
+	t.tsmu.Lock()
+	return t.ts
+}
+
+func (t *Target) setSync(sync bool) {
+	defer t.tsmu.Unlock()
+	t.tsmu.Lock()
+	t.sync = sync
+}
+
+func (t *Target) inSync() bool {
+	defer t.tsmu.Unlock()
+	t.tsmu.Lock()
+	return t.sync
+}
+
 func (t *Target) resetTimestamp() {
 	defer t.tsmu.Unlock()
 	t.tsmu.Lock()
@@ -510,8 +529,8 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 			if !ok {
 				return nil, fmt.Errorf("%v : has value %v of type %T, expected boolean", metadata.Path(metadata.Sync), u.Val, u.Val)
 			}
-			t.sync = tv.BoolVal
-			t.meta.SetBool(metadata.Sync, t.sync)
+			t.setSync(tv.BoolVal)
+			t.meta.SetBool(metadata.Sync, tv.BoolVal)
 		case metadata.Connected:
 			tv, ok := u.GetVal().GetValue().(*pb.TypedValue_BoolVal)
 			if !ok {
@@ -550,13 +569,14 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 				return nil, ErrStale
 			}
 		case t.futureThreshold > 0 && nts.Sub(Now()) > t.futureThreshold:
-			if t.ts.UnixNano() <= 0 {
+			latest := t.latestTimestamp()
+			if latest.UnixNano() <= 0 {
 				// This is the first accepted update as t.ts is uninitialized (assuming
 				// the first accepted timestamp is > 0 (1970-01-01 00:00:00 UTC).
 				log.Warningf("Accepting the first update with a timestamp in the future %s", prototext.Format(n))
-			} else if nts.Sub(t.ts) <= t.futureThreshold {
+			} else if nts.Sub(latest) <= t.futureThreshold {
 				if log.V(1) {
-					log.Warningf("Accepting non-first update with a timestamp in the future but not exceeding the threshold comparing with latestTimestamp (%v): %s", t.ts, prototext.Format(n))
+					log.Warningf("Accepting non-first update with a timestamp in the future but not exceeding the threshold comparing with latestTimestamp (%v): %s", latest, prototext.Format(n))
 				}
 			} else {
 				t.meta.AddInt(metadata.FutureCount, 1)
@@ -573,7 +593,7 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 			return nil, nil
 		}
 		// Compute latency for updated leaves.
-		if t.sync && realData {
+		if realData && t.inSync() {
 			// Record latency for post-sync target updates.  Exclude metadata updates.
 			t.lat.Compute(T(n.GetTimestamp()))
 		}
@@ -588,7 +608,7 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 		t.meta.AddInt(metadata.LeafCount, 1)
 		t.meta.AddInt(metadata.AddCount, 1)
 		// Compute latency for new leaves.
-		if t.sync {
+		if t.inSync() {
 			// Record latency for post-sync target updates.  Exclude metadata updates.
 			t.lat.Compute(T(n.GetTimestamp()))
 		}
@@ -680,10 +700,7 @@ func (t *Target) updateSize(func(*ctree.Leaf)) {
 
 // updateMeta updates the metadata values in the cache.
 func (t *Target) updateMeta(clients func(*ctree.Leaf)) {
-	t.tsmu.Lock()
-	latest := t.ts
-	t.tsmu.Unlock()
-	t.meta.SetInt(metadata.LatestTimestamp, latest.UnixNano())
+	t.meta.SetInt(metadata.LatestTimestamp, t.latestTimestamp().UnixNano())
 	t.lat.UpdateReset(t.meta)
 
 	t.generateMetaUpdates(clients)
-- 
2.43.0


From 2fcb3b9fc1987b999852e4d017efe069931ff703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:57 +0000
Subject: [PATCH 15/29] fix: delete notifications must not share or drop path
 elements

Appending to the elements of a stored prefix could overwrite elements of
another notification sharing that prefix, and a prefix in the deprecated
encoding was lost when the path used elems.
---
 cache/cache.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index a2f6d66..9ad5cc2 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -616,6 +616,18 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 	return t.t.GetLeaf(path), nil
 }
 
+// pathElems returns a new list of the elements of p, also if p uses the
+// deprecated encoding.
+func pathElems(p *pb.Path) []*pb.PathElem {
+	elems := append([]*pb.PathElem{}, p.GetElem()...)
+	if len(elems) == 0 {
+		for _, e := range p.GetElement() {
+			elems = append(elems, &pb.PathElem{Name: e})
+		}
+	}
+	return elems
+}
+
 func toDeleteNotification(n *pb.Notification, timestamp int64) *pb.Notification {
 	d := &pb.Notification{
 		Timestamp: timestamp,
@@ -634,9 +646,9 @@ func toDeleteNotification(n *pb.Notification, timestamp int64) *pb.Notification
 	case n.GetAtomic():
 		d.Delete = []*pb.Path{{Elem: prefix.GetElem(), Element: prefix.GetElement()}}
 	case len(prefix.GetElem()) > 0 || len(path.GetElem()) > 0:
-		d.Delete = []*pb.Path{{Elem: append(prefix.GetElem(), path.GetElem()...)}}
+		d.Delete = []*pb.Path{{Elem: append(pathElems(prefix), pathElems(path)...)}}
 	default:
-		d.Delete = []*pb.Path{{Element: append(prefix.GetElement(), path.GetElement()...)}}
+		d.Delete = []*pb.Path{{Element: append(append([]string{}, prefix.GetElement()...), path.GetElement()...)}}
 	}
 	return d
 }
-- 
2.43.0


From 730df47e372d3e6bb527981a91e1c3649a2b8869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:58 +0000
Subject: [PATCH 16/29] fix: an update replacing an atomic group must not be
 suppressed

---
 cache/cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index 9ad5cc2..0bd1a17 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -588,7 +588,7 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 			t.checkTimestamp(T(n.GetTimestamp()))
 		}
 		// Simulate event-driven for all non-atomic updates.
-		if !n.Atomic && value.Equal(old.Update[0].Val, n.Update[0].Val) && t.eventDriven {
+		if !n.Atomic && !old.Atomic && value.Equal(old.Update[0].Val, n.Update[0].Val) && t.eventDriven {
 			t.meta.AddInt(metadata.SuppressedCount, 1)
 			return nil, nil
 		}
-- 
2.43.0


From bc5d16607f44ae307616355efef3159d04efb52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:41 +0000
Subject: [PATCH 17/29] fix: honour an origin set in a path instead of its
 prefix

The cache indexed such an update without its origin but announced its removal
with it, and queries, subscriptions and the client library disagreed about
its path, so the removal never took effect.
---
 cache/cache.go         | 17 ++++++++++-------
 client/gnmi/client.go  | 19 ++++++++++++++++---
 subscribe/subscribe.go | 16 ++++++++++++++--
 3 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 0bd1a17..f5a9208 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -505,7 +505,7 @@ func (t *Target) resetTimestamp() {
 func leafPath(n *pb.Notification) *pb.Path {
 	// If the notification is an atomic group of updates, store them under the prefix only.
 	if n.GetAtomic() {
-		return nil
+		return &pb.Path{Origin: n.GetUpdate()[0].GetPath().GetOrigin()}
 	}
 	return n.GetUpdate()[0].GetPath()
 }
@@ -806,14 +806,17 @@ func (t *Target) Reset() {
 	}
 }
 
+// joinPrefixAndPath returns the index path, without the target, of a path below
+// a prefix. The origin may be set in either of them:
+// https://github.com/openconfig/reference/blob/master/rpc/gnmi/mixed-schema.md
 func joinPrefixAndPath(pr, ph *pb.Path) []string {
-	// <target> and <origin> are only valid as prefix gnmi.Path
-	// https://github.com/openconfig/reference/blob/master/rpc/gnmi-specification.md#222-paths
-	p := path.ToStrings(pr, true)
-	if pr.GetTarget() != "" {
-		// remove the prepended target name
-		p = p[1:]
+	var p []string
+	if o := pr.GetOrigin(); o != "" {
+		p = append(p, o)
+	} else if o := ph.GetOrigin(); o != "" {
+		p = append(p, o)
 	}
+	p = append(p, path.ToStrings(pr, false)...)
 	return append(p, path.ToStrings(ph, false)...)
 }
 
diff --git a/client/gnmi/client.go b/client/gnmi/client.go
index e11e555..7e67657 100644
--- a/client/gnmi/client.go
+++ b/client/gnmi/client.go
@@ -204,20 +204,19 @@ func (c *Client) defaultRecv(msg proto.Message) error {
 		}
 	case *gpb.SubscribeResponse_Update:
 		n := v.Update
-		p := path.ToStrings(n.Prefix, true)
 		ts := time.Unix(0, n.Timestamp)
 		for _, u := range n.Update {
 			if u.Path == nil {
 				return fmt.Errorf("invalid nil path in update: %v", u)
 			}
-			u, err := noti(p, u.Path, ts, u)
+			u, err := noti(prefixStrings(n.Prefix, u.Path), u.Path, ts, u)
 			if err != nil {
 				return err
 			}
 			c.handler(u)
 		}
 		for _, d := range n.Delete {
-			u, err := noti(p, d, ts, nil)
+			u, err := noti(prefixStrings(n.Prefix, d), d, ts, nil)
 			if err != nil {
 				return err
 			}
@@ -275,6 +274,20 @@ func subscribe(q client.Query) (*gpb.SubscribeRequest, error) {
 	return &gpb.SubscribeRequest{Request: s}, nil
 }
 
+// prefixStrings returns the index strings that precede those of path p below
+// prefix: target, origin, which may be set in either of them, and elements.
+func prefixStrings(prefix, p *gpb.Path) []string {
+	if prefix.GetOrigin() != "" || p.GetOrigin() == "" {
+		return path.ToStrings(prefix, true)
+	}
+	var is []string
+	if t := prefix.GetTarget(); t != "" {
+		is = append(is, t)
+	}
+	is = append(is, p.GetOrigin())
+	return append(is, path.ToStrings(prefix, false)...)
+}
+
 func noti(prefix []string, pp *gpb.Path, ts time.Time, u *gpb.Update) (client.Notification, error) {
 	sp := path.ToStrings(pp, false)
 	// Make a full new copy of prefix + u.Path to avoid any reuse of underlying
diff --git a/subscribe/subscribe.go b/subscribe/subscribe.go
index 607f0f1..313cba0 100644
--- a/subscribe/subscribe.go
+++ b/subscribe/subscribe.go
@@ -170,13 +170,25 @@ func UpdateNotification(m *match.Match, v interface{}, n *pb.Notification, prefi
 	// A client may match with several of its paths, even for a single update.
 	updated := make(map[match.Client]struct{})
 	for _, u := range n.Update {
-		m.UpdateOnce(v, append(prefix, path.ToStrings(u.Path, false)...), updated)
+		m.UpdateOnce(v, matchPath(n.Prefix, prefix, u.Path), updated)
 	}
 	for _, d := range n.Delete {
-		m.UpdateOnce(v, append(prefix, path.ToStrings(d, false)...), updated)
+		m.UpdateOnce(v, matchPath(n.Prefix, prefix, d), updated)
 	}
 }
 
+// matchPath joins the index strings of the prefix pr with those of p. An origin
+// only set in p precedes the elements of the prefix.
+func matchPath(pr *pb.Path, prefix []string, p *pb.Path) []string {
+	elems := path.ToStrings(p, false)
+	i := len(prefix) - len(path.ToStrings(pr, false))
+	if o := p.GetOrigin(); o != "" && pr.GetOrigin() == "" && i >= 0 {
+		full := append(append([]string{}, prefix[:i]...), o)
+		return append(append(full, prefix[i:]...), elems...)
+	}
+	return append(prefix[:len(prefix):len(prefix)], elems...)
+}
+
 // Update passes a streaming update to registered clients.
 func (s *Server) Update(n *ctree.Leaf) {
 	switch v := n.Value().(type) {
-- 
2.43.0


From 640430fe9506ccde5b7729853d67df0c5122aba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:26 +0000
Subject: [PATCH 18/29] fix: gnmi_cli must subscribe with the request of
 -proto_file

Only the inline request was parsed, so a request read from a file was empty.
---
 cmd/gnmi_cli/gnmi_cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gnmi_cli/gnmi_cli.go b/cmd/gnmi_cli/gnmi_cli.go
index c20044e..8c33b3c 100644
--- a/cmd/gnmi_cli/gnmi_cli.go
+++ b/cmd/gnmi_cli/gnmi_cli.go
@@ -293,7 +293,7 @@ func executeSubscribe(ctx context.Context) error {
 	}
 	if s != "" {
 		// Convert SubscribeRequest to a client.Query
-		tq, err := cli.ParseSubscribeProto(*reqProto)
+		tq, err := cli.ParseSubscribeProto(s)
 		if err != nil {
 			log.Exitf("failed to parse gNMI SubscribeRequest text proto: %v", err)
 		}
-- 
2.43.0


From ee0d1a83f325e47464c100b14abfda0179223064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:26 +0000
Subject: [PATCH 19/29] fix: the collector must add its targets to the cache

The cache dropped every update of a configured target, and subscriptions to
it were rejected.
---
 cmd/gnmi_collector/gnmi_collector.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/gnmi_collector/gnmi_collector.go b/cmd/gnmi_collector/gnmi_collector.go
index 5ce0d99..3723170 100644
--- a/cmd/gnmi_collector/gnmi_collector.go
+++ b/cmd/gnmi_collector/gnmi_collector.go
@@ -264,7 +264,10 @@ func (c *collector) add(ctx context.Context, id string, t *tpb.Target, tt *tunne
 		t.Addresses = []string{id}
 	}
 
+	// The cache only accepts updates of the targets it knows.
+	c.cache.Add(id)
 	if err := c.tm.Add(id, t, request); err != nil {
+		c.cache.Remove(id)
 		return fmt.Errorf("Could not add target %q: %v", id, err)
 	}
 	return nil
-- 
2.43.0


From 7188c44ee19301645bfcf6c69ed4fa58898e5197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:26 +0000
Subject: [PATCH 20/29] fix: the collector must set the client of its cache
 before starting targets

The updates accepted in between never reached the subscribers.
---
 cmd/gnmi_collector/gnmi_collector.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cmd/gnmi_collector/gnmi_collector.go b/cmd/gnmi_collector/gnmi_collector.go
index 3723170..52709d5 100644
--- a/cmd/gnmi_collector/gnmi_collector.go
+++ b/cmd/gnmi_collector/gnmi_collector.go
@@ -211,9 +211,6 @@ func runCollector(ctx context.Context) error {
 
 	tunnelpb.RegisterTunnelServer(srv, c.tServer)
 
-	// Initialize collectors.
-	c.start(context.Background())
-
 	// Initialize the Collector server.
 	cpb.RegisterCollectorServer(srv, coll.New(c.tm.Reconnect))
 	// Initialize gNMI Proxy Subscribe server.
@@ -221,6 +218,8 @@ func runCollector(ctx context.Context) error {
 	gnmipb.RegisterGNMIServer(srv, subscribeSrv)
 	// Forward streaming updates to clients.
 	c.cache.SetClient(subscribeSrv.Update)
+	// Initialize collectors, whose updates need the client of the cache.
+	c.start(context.Background())
 	// Register listening port and start serving.
 	lis, err := net.Listen("tcp", fmt.Sprintf(":%d", *port))
 	if err != nil {
-- 
2.43.0


From e6e2b6599a63500b3c9bdacc7bee58acea1d195e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:26 +0000
Subject: [PATCH 21/29] fix: the collector must not override the origin set in
 a path

A default origin in the prefix moved leaves of other origins to 'openconfig'.
---
 cmd/gnmi_collector/gnmi_collector.go | 43 ++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/cmd/gnmi_collector/gnmi_collector.go b/cmd/gnmi_collector/gnmi_collector.go
index 52709d5..b2504b7 100644
--- a/cmd/gnmi_collector/gnmi_collector.go
+++ b/cmd/gnmi_collector/gnmi_collector.go
@@ -185,16 +185,12 @@ func runCollector(ctx context.Context) error {
 		Update: func(target string, v *gnmipb.Notification) {
 			// Explicitly set all updates as having come from this target even if
 			// the target itself doesn't report or incorrectly reports the target
-			// field. Also promote an empty origin field to 'openconfig', the default
-			// origin for gNMI.
-			if prefix := v.GetPrefix(); prefix == nil {
-				v.Prefix = &gnmipb.Path{Origin: "openconfig", Target: target}
-			} else {
-				if prefix.Origin == "" {
-					prefix.Origin = "openconfig"
-				}
-				prefix.Target = target
+			// field.
+			if v.GetPrefix() == nil {
+				v.Prefix = &gnmipb.Path{}
 			}
+			v.Prefix.Target = target
+			promoteOrigin(v)
 			if err := c.cache.GnmiUpdate(v); err != nil {
 				if log.V(2) {
 					log.Infof("dropped cache.Update(%#v): %v", v, err)
@@ -272,6 +268,35 @@ func (c *collector) add(ctx context.Context, id string, t *tpb.Target, tt *tunne
 	return nil
 }
 
+// promoteOrigin sets an empty origin to 'openconfig', the default origin for
+// gNMI, in the prefix of v unless the origin is set in the paths.
+func promoteOrigin(v *gnmipb.Notification) {
+	if v.Prefix.Origin != "" {
+		return
+	}
+	var paths []*gnmipb.Path
+	for _, u := range v.GetUpdate() {
+		if u.Path == nil {
+			u.Path = &gnmipb.Path{}
+		}
+		paths = append(paths, u.Path)
+	}
+	paths = append(paths, v.GetDelete()...)
+	inPath := false
+	for _, p := range paths {
+		inPath = inPath || p.GetOrigin() != ""
+	}
+	if !inPath {
+		v.Prefix.Origin = "openconfig"
+		return
+	}
+	for _, p := range paths {
+		if p.Origin == "" {
+			p.Origin = "openconfig"
+		}
+	}
+}
+
 func (c *collector) start(ctx context.Context) {
 
 	for id, t := range c.config.Target {
-- 
2.43.0


From f89698c62bf412d82442a282f63d124b7d7d5ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:26 +0000
Subject: [PATCH 22/29] fix: the CLI must not panic on an update of the root
 path

---
 cli/cli.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cli/cli.go b/cli/cli.go
index 2a305dd..39a7fbf 100644
--- a/cli/cli.go
+++ b/cli/cli.go
@@ -404,16 +404,20 @@ func (m pathmap) str(prefix, indent, curindent string) string {
 }
 
 func (m pathmap) add(path []string, v interface{}) {
+	if len(path) == 0 {
+		// The value of the root itself, which has no name.
+		path = []string{""}
+	}
 	if len(path) == 1 {
 		m[path[0]] = v
 		return
 	}
 
-	mm, ok := m[path[0]]
+	mm, ok := m[path[0]].(pathmap)
 	if !ok {
 		mm = make(pathmap)
 	}
-	mm.(pathmap).add(path[1:], v)
+	mm.add(path[1:], v)
 	m[path[0]] = mm
 }
 
-- 
2.43.0


From 553daf5383c98abde2b378ff32f3438391443e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:26 +0000
Subject: [PATCH 23/29] fix: a subscription without a path must receive updates

Its snapshot covers everything below the prefix, but it was not registered
for later changes.
---
 subscribe/subscribe.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/subscribe/subscribe.go b/subscribe/subscribe.go
index 313cba0..8686f7e 100644
--- a/subscribe/subscribe.go
+++ b/subscribe/subscribe.go
@@ -235,9 +235,6 @@ func addSubscription(m *match.Match, s *pb.SubscriptionList, c *matchClient) (re
 	prefix := path.ToStrings(s.Prefix, true)
 	for _, sub := range s.Subscription {
 		p := sub.GetPath()
-		if p == nil {
-			continue
-		}
 		// Each query is retained for its removal and needs its own backing array.
 		query := append([]string{}, prefix...)
 		if origin := p.GetOrigin(); s.Prefix.GetOrigin() == "" && origin != "" {
-- 
2.43.0


From b832ca1ef627eaf778f5ae9bf2aa57eb5476d870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:47 +0000
Subject: [PATCH 24/29] fix: the sync response must be subject to the send
 timeout

A subscriber that stopped reading before its sync response was never
terminated.
---
 subscribe/subscribe.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/subscribe/subscribe.go b/subscribe/subscribe.go
index 8686f7e..86dd9e3 100644
--- a/subscribe/subscribe.go
+++ b/subscribe/subscribe.go
@@ -356,6 +356,11 @@ func (s *Server) sendSubscribeResponse(r *resp, c *streamClient) error {
 		}
 	}
 
+	return s.send(r, notification)
+}
+
+// send sends a single response, subject to the timeout.
+func (s *Server) send(r *resp, response *pb.SubscribeResponse) error {
 	// Start the timeout before attempting to send.
 	r.t.Reset(s.o.timeout)
 	// Clear the timeout upon sending.
@@ -365,7 +370,7 @@ func (s *Server) sendSubscribeResponse(r *resp, c *streamClient) error {
 	if s.o.flowControlTest != nil {
 		s.o.flowControlTest()
 	}
-	return r.stream.Send(notification)
+	return r.stream.Send(response)
 }
 
 // subscribeSync is a response indicating that a Subscribe RPC has successfully
@@ -523,7 +528,7 @@ func (s *Server) sendStreamingResults(c *streamClient) {
 
 		// s.processSubscription will send a sync marker, handle it separately.
 		if _, ok := item.(syncMarker); ok {
-			if err = c.stream.Send(subscribeSync); err != nil {
+			if err = s.send(&resp{stream: c.stream, t: t}, subscribeSync); err != nil {
 				c.errC <- err
 				return
 			}
-- 
2.43.0


From e638f47c689143915147318444cfb275155001a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:12 +0000
Subject: [PATCH 25/29] fix: serialize the changes of a target with their
 announcements

Changes made to a target by several goroutines were announced in an order
independent of the order in which they took effect: a leaf could be announced
after the announcement of its deletion (or the converse), which left streaming
subscribers with a leaf the cache no longer holds, or without one it does.
The metadata refresh races in this way with a connecting target.
---
 cache/cache.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index f5a9208..fa38c75 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -58,6 +58,7 @@ var (
 // A Target hosts an indexed cache of state for a single target.
 type Target struct {
 	name            string             // name of the target
+	mu              sync.Mutex         // serializes changes of t, each with its announcement to client
 	t               *ctree.Tree        // actual cache of target data
 	client          func(*ctree.Leaf)  // Function to pass all cache updates to.
 	meta            *metadata.Metadata // metadata associated with target
@@ -384,6 +385,10 @@ func (c *Cache) GnmiUpdate(n *pb.Notification) error {
 // each individual Update/Delete is sent to cache as
 // a separate gnmi.Notification.
 func (t *Target) GnmiUpdate(n *pb.Notification) error {
+	// A change must be announced before the next one is made: otherwise a leaf
+	// could be announced after the announcement of its deletion.
+	defer t.mu.Unlock()
+	t.mu.Lock()
 	switch {
 	// Store atomic notifications as a single leaf in the tree.
 	case n.Atomic:
@@ -712,6 +717,13 @@ func (t *Target) updateSize(func(*ctree.Leaf)) {
 
 // updateMeta updates the metadata values in the cache.
 func (t *Target) updateMeta(clients func(*ctree.Leaf)) {
+	defer t.mu.Unlock()
+	t.mu.Lock()
+	t.refreshMeta(clients)
+}
+
+// refreshMeta is updateMeta for callers that hold mu.
+func (t *Target) refreshMeta(clients func(*ctree.Leaf)) {
 	t.meta.SetInt(metadata.LatestTimestamp, t.latestTimestamp().UnixNano())
 	t.lat.UpdateReset(t.meta)
 
@@ -792,11 +804,13 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 // Reset clears the Target of stale data upon a reconnection and notifies
 // cache client of the removal.
 func (t *Target) Reset() {
+	defer t.mu.Unlock()
+	t.mu.Lock()
 	// Clear latest timestamp received from device.
 	t.resetTimestamp()
 	// Reset metadata to zero values (e.g. connected = false) and notify clients.
 	t.meta.Clear()
-	t.updateMeta(t.client)
+	t.refreshMeta(t.client)
 	for root := range t.t.Children() {
 		if root == metadata.Root {
 			continue
-- 
2.43.0


From f35d25fe7f094ba5ff59b66e24644e78ad953134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:31 +0000
Subject: [PATCH 26/29] fix: closing the fake client twice must not panic

---
 client/fake/fake.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/client/fake/fake.go b/client/fake/fake.go
index 2cb4f08..7eb0fd6 100644
--- a/client/fake/fake.go
+++ b/client/fake/fake.go
@@ -23,6 +23,7 @@ package client
 import (
 	"context"
 	"fmt"
+	"sync"
 
 	log "github.com/golang/glog"
 	"google.golang.org/protobuf/proto"
@@ -74,6 +75,7 @@ type Client struct {
 	// sending all Updates before returning ErrStopReading.
 	// BlockAfterSync is closed when Close is called.
 	BlockAfterSync chan struct{}
+	closeOnce      sync.Once
 	connected      bool
 	Context        context.Context
 }
@@ -145,10 +147,11 @@ func (c *Client) Recv() error {
 	return client.ErrStopReading
 }
 
-// Close is a noop in the fake.
+// Close is a noop in the fake, except for closing BlockAfterSync. It's safe to
+// call Close multiple times.
 func (c *Client) Close() error {
 	if c.BlockAfterSync != nil {
-		close(c.BlockAfterSync)
+		c.closeOnce.Do(func() { close(c.BlockAfterSync) })
 	}
 	return nil
 }
-- 
2.43.0


From ae98127be2dafc21cd7696fa8e0172be39c84afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:33 +0000
Subject: [PATCH 27/29] fix: a reconnecting client closed before Subscribe must
 not deliver messages

---
 client/reconnect.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/client/reconnect.go b/client/reconnect.go
index 69aea20..b8eaa6b 100644
--- a/client/reconnect.go
+++ b/client/reconnect.go
@@ -87,6 +87,11 @@ func (p *ReconnectClient) Subscribe(ctx context.Context, q Query, clientType ...
 	ctx, done := p.initDone(ctx)
 	defer done()
 
+	// Transports need not look at ctx: don't start one for a closed client.
+	if err := ctx.Err(); err != nil {
+		return err
+	}
+
 	for {
 		start := time.Now()
 		err := p.Client.Subscribe(ctx, q, clientType...)
-- 
2.43.0


From 1c3d316cccdf8ac05ea69321c7781529a198bd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 28/29] Revert "fix: the synthetic target must use the random
 generator of its configuration"

This reverts commit 77d7d242af1a5c1fa340469a63495cef3e6f4d7f.
---
 testing/fake/gnmi/client.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/testing/fake/gnmi/client.go b/testing/fake/gnmi/client.go
index f3632d9..da33502 100644
--- a/testing/fake/gnmi/client.go
+++ b/testing/fake/gnmi/client.go
@@ -302,11 +302,7 @@ func (c *Client) reset() error {
 	log.V(1).Infof("Client %s using config:\n%s", c, prototext.Format(c.config))
 	switch {
 	default:
-		seed, values := c.config.Seed, c.config.Values
-		if random := c.config.GetRandom(); random != nil {
-			seed, values = random.Seed, random.Values
-		}
-		q := queue.New(c.config.GetEnableDelay(), seed, values)
+		q := queue.New(c.config.GetEnableDelay(), c.config.Seed, c.config.Values)
 		// Inject sync message after latest provided update in the config.
 		if !c.config.DisableSync {
 			q.Add(&fpb.Value{
-- 
2.43.0


From 33845370957ca80ce41a6f7d669f7b65965bbbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 29/29] Revert "fix: the synthetic target's intervals must not
 overflow"

This reverts commit 7a284b337b0d9e315f49d3ffebb1918a974cc532.
---
 testing/fake/queue/queue.go | 52 +++++++------------------------------
 1 file changed, 9 insertions(+), 43 deletions(-)

diff --git a/testing/fake/queue/queue.go b/testing/fake/queue/queue.go
index bc9410a..1c9c2f1 100644
--- a/testing/fake/queue/queue.go
+++ b/testing/fake/queue/queue.go
@@ -20,7 +20,6 @@ package queue
 
 import (
 	"fmt"
-	"math"
 	"math/rand"
 	"sync"
 	"time"
@@ -177,39 +176,10 @@ func (v *value) updateTimestamp() error {
 	if min > max || min < 0 {
 		return fmt.Errorf("invalid delta_min/delta_max on timestamp for %q", v.v)
 	}
-	delta := int63Range(v.r, min, max)
-	if delta > math.MaxInt64-t {
-		return fmt.Errorf("timestamp overflow for %q", v.v)
-	}
-	v.v.Timestamp.Timestamp = t + delta
+	v.v.Timestamp.Timestamp = t + v.r.Int63n(max-min+1) + min
 	return nil
 }
 
-// int63Range returns a pseudo-random number in [min,max], min <= max, also when
-// the size of the interval is not representable as int64.
-func int63Range(r *rand.Rand, min, max int64) int64 {
-	if n := max - min + 1; n > 0 {
-		return min + r.Int63n(n)
-	}
-	return int64(uint64(min) + uint64Below(r, uint64(max)-uint64(min)+1))
-}
-
-// uint64Range returns a pseudo-random number in [min,max], min <= max.
-func uint64Range(r *rand.Rand, min, max uint64) uint64 {
-	if n := max - min + 1; n > 0 && n <= math.MaxInt64 {
-		return min + uint64(r.Int63n(int64(n)))
-	}
-	return min + uint64Below(r, max-min+1)
-}
-
-// uint64Below returns a pseudo-random number below n, where 0 stands for 1<<64.
-func uint64Below(r *rand.Rand, n uint64) uint64 {
-	if n == 0 {
-		return r.Uint64()
-	}
-	return r.Uint64() % n
-}
-
 func (v *value) updateIntValue() error {
 	val := v.v.GetIntValue()
 	if val == nil {
@@ -235,7 +205,7 @@ func (v *value) updateIntValue() error {
 			newval = val.Value
 		}
 
-		newval += int63Range(v.r, left, right)
+		newval += v.r.Int63n(right-left+1) + left
 		if newval > rng.Maximum {
 			newval = rng.Maximum
 		}
@@ -405,23 +375,19 @@ func (v *value) updateUintValue() error {
 			return fmt.Errorf("value not in [minimum, maximum] in UintRange for %q", v.v)
 		}
 
+		left, right := int64(rng.GetMinimum()), int64(rng.GetMaximum())
 		if rng.DeltaMin != 0 || rng.DeltaMax != 0 {
 			if rng.DeltaMin > rng.DeltaMax {
 				return fmt.Errorf("invalid delta_min/delta_max in UintRange for %q", v.v)
 			}
+			left, right = rng.GetDeltaMin(), rng.GetDeltaMax()
 			newval = val.Value
-			switch delta := int63Range(v.r, rng.GetDeltaMin(), rng.GetDeltaMax()); {
-			case delta >= 0 && newval+uint64(delta) >= newval:
-				newval += uint64(delta)
-			case delta >= 0:
-				newval = math.MaxUint64
-			case uint64(-delta) <= newval:
-				newval -= uint64(-delta)
-			default:
-				newval = 0
-			}
+		}
+		tmpVal := int64(newval) + v.r.Int63n(right-left+1) + left
+		if tmpVal < 0 {
+			newval = rng.Minimum
 		} else {
-			newval = uint64Range(v.r, rng.Minimum, rng.Maximum)
+			newval = uint64(tmpVal)
 		}
 		if newval > rng.Maximum {
 			newval = rng.Maximum
-- 
2.43.0

