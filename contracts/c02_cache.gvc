forprops C02 C03 C12 C14 C15 C08N
package cache
// nothing done under these locks on the update path blocks (flag nonblocking)
level cache.Target.mu 0 short
level cache.Cache.mu 0 short
level cache.Target.tsmu 0 short
alias ctree.Leaf = ctree.Tree
// The tree of a target seen as a map (proved for the tree functions under C09):
// lf[T][r]: the leaf node stored at index path r of tree T (0: none); own, at: tree and path of a leaf node.
ghost lf MapILI
ghost own MapII
ghost at MapIL
// mc[m][k]: sum of the changes made to counter k of metadata m
ghost mc MapISI
// nreal[T]: number of leaves of T outside the metadata subtree
ghost nreal MapII
// fv[r]: the view of the locked target a receiver of the update callback builds (0: no leaf)
ghost fv MapLI
ghost nerr Int
ghost lfm MapLI

// ---- index paths: deterministic functions of the (immutable) paths
uf jp(*gpb.Path, *gpb.Path) List
uf jpo(*gpb.Path, string) List
uf dsel(*gpb.Notification, List) bool
def isMetaP(r List) = !isnilL(r) && lhd(r) == "meta"
def ipn(n *gpb.Notification) = ite(n.Atomic, jpo(n.Prefix, n.Update[0].GetPath().GetOrigin()), jp(n.Prefix, n.Update[0].GetPath()))
def okN(n *gpb.Notification) = n != nil && allocated(n) && allocated(n.Update) && (n.Atomic ==> len(n.Update) >= 1 && len(n.Delete) == 0) && (!n.Atomic ==> len(n.Update) == 1 && len(n.Delete) == 0)
def nodeAt(t *Target, r List) = asptr(lf[ref(t.t)][r], *ctree.Tree)
def has1(t *Target, r List) = lf[ref(t.t)][r] != 0
// a stored path starts with a name that is neither empty nor a wildcard
def good(r List) = isnilL(r) || lhd(r) != "" && lhd(r) != "*"
def noti(v any) = v.(*gpb.Notification)
def stored(t *Target, r List) = nodeAt(t, r).leafBranch.(*gpb.Notification)
uf nsame(any, any) bool
// equal values: the equivalence generated by value.Equal
uf veq(*gpb.TypedValue, *gpb.TypedValue) bool
axiom veq_refl(a *gpb.TypedValue) -- definition (equivalence generated by teq)
  ensures veq(a, a)
  pattern veq(a, a)
axiom veq_teq(a *gpb.TypedValue, b *gpb.TypedValue) -- definition
  requires teq(a, b)
  ensures veq(a, b)
  pattern teq(a, b)
axiom veq_trans(a *gpb.TypedValue, b *gpb.TypedValue, c *gpb.TypedValue) -- definition
  requires veq(a, b) && veq(b, c)
  ensures veq(a, c)
  pattern veq(a, b), veq(b, c)

def sameFeed(k int, n *gpb.Notification) = okN(asptr(k, *gpb.Notification)) && (k == ref(n) || !n.Atomic && !asptr(k, *gpb.Notification).Atomic && len(asptr(k, *gpb.Notification).Update) == 1 && veq(asptr(k, *gpb.Notification).Update[0].Val, n.Update[0].Val))
def feedAt(t *Target, r List) = (fv[r] != 0 <==> has1(t, r)) && (has1(t, r) ==> sameFeed(fv[r], stored(t, r)))
def treeAt(t *Target, r List) = has1(t, r) ==> allocated(nodeAt(t, r)) && own[lf[ref(t.t)][r]] == ref(t.t) && at[lf[ref(t.t)][r]] == r && nodeAt(t, r) != t.t && typeis(nodeAt(t, r).leafBranch, *gpb.Notification) && okN(stored(t, r)) && ipn(stored(t, r)) == r && !isnilL(r) && good(r)
def treeOK(t *Target) = forall(r, List, treeAt(t, r), lf[ref(t.t)][r])
def feedOK(t *Target) = forall(r, List, feedAt(t, r), lf[ref(t.t)][r], fv[r])
def parts(t *Target) = t.t != nil && t.meta != nil && t.client != nil && t.lat != nil
def cnt(t *Target, k string) = mc[ref(t.meta)][k]

guard Target.mu(t)
  fields ts, sync
  gghost lf, nreal, mc, fv
  invariant parts: parts(t)
  invariant tree: treeOK(t)
  invariant feed: feedOK(t)
  invariant leaf-count: cnt(t, "targetLeaves") == nreal[ref(t.t)]
  invariant adds-minus-deletes: cnt(t, "targetLeavesAdded") - cnt(t, "targetLeavesDeleted") == nreal[ref(t.t)]

// ---- dependencies: the tree (contracts proved under C09, restated over the view lf)
extern (*ctree.Tree).GetLeaf(t, path)
  flags nonblocking
  trusted restates the contract proved under C09 over the view of the tree as a map
  ensures lf[ref(t)][listof(path)] != 0 ==> ref(result) == lf[ref(t)][listof(path)]
  ensures lf[ref(t)][listof(path)] == 0 ==> result == nil || allocated(result) && !typeis(result.leafBranch, *gpb.Notification)
extern (*ctree.Leaf).Value(l)
  flags nonblocking
  trusted proved under C10 (lock discipline); returns the value of the node
  ensures l == nil ==> isnil(result)
  ensures l != nil ==> result == l.leafBranch
extern (*ctree.Leaf).Update(l, v)
  flags nonblocking
  trusted proved under C10 (lock discipline); replaces the value of the node
  requires l != nil
  modifies l.leafBranch
  ensures l.leafBranch == v
extern (*ctree.Tree).Add(t, path, value)
  flags nonblocking
  trusted restates the contract proved under C09 over the view of the tree as a map
  requires absent: lf[ref(t)][listof(path)] == 0
  modifies t.leafBranch, ghost(lf), ghost(own), ghost(at), ghost(nreal)
  ensures result != ErrStale && result != ErrFuture
  ensures result != nil ==> lf == old(lf) && own == old(own) && at == old(at) && nreal == old(nreal)
  ensures result == nil ==> lf == store(old(lf), ref(t), store(old(lf)[ref(t)], listof(path), lf[ref(t)][listof(path)])) && fresh(lf[ref(t)][listof(path)]) && lf[ref(t)][listof(path)] != 0
  ensures result == nil ==> own == store(old(own), lf[ref(t)][listof(path)], ref(t)) && at == store(old(at), lf[ref(t)][listof(path)], listof(path)) && allocated(asptr(lf[ref(t)][listof(path)], *ctree.Tree))
  ensures result == nil ==> asptr(lf[ref(t)][listof(path)], *ctree.Tree).leafBranch == value
  ensures result == nil ==> nreal == store(old(nreal), ref(t), old(nreal)[ref(t)] + ite(isMetaP(listof(path)), 0, 1))
func joinPrefixAndPath(pr, ph)
  flags nonblocking
  trusted deterministic function of the contents of its arguments (the path part is proved under C19)
  ensures listof(result) == jp(pr, ph)
  ensures ph != nil && len(ph.Elem) == 0 && len(ph.Element) == 0 ==> listof(result) == jpo(pr, ph.Origin)
extern (*latency.Latency).Compute(l, ts)
  flags nonblocking
  trusted latency statistics are separate state
extern (*latency.Latency).UpdateReset(l, m)
  flags nonblocking
  trusted latency statistics are separate state

// ---- dependencies: metadata counters
extern (*metadata.Metadata).AddInt(m, value, i)
  flags nonblocking
  trusted counts the calls; the body is verified against the map under C15
  modifies ghost(mc)
  ensures mc == store(old(mc), ref(m), store(old(mc)[ref(m)], value, old(mc)[ref(m)][value] + i))
extern (*metadata.Metadata).SetBool(m, value, v)
  flags nonblocking
  trusted separate state
extern (*metadata.Metadata).SetStr(m, value, v)
  flags nonblocking
  trusted separate state

extern google.golang.org/protobuf/proto.Equal(a, b)
  flags nonblocking
  ensures result == nsame(a, b)
extern time.Unix(s, ns)
  flags nonblocking
  ensures nanos(result) == s * 1000000000 + ns
extern (time.Time).After(a, b)
  flags nonblocking
  ensures result == (nanos(a) > nanos(b))
extern (time.Time).UnixNano(a)
  flags nonblocking
  ensures result == nanos(a)
extern (time.Time).Sub(a, b)
  flags nonblocking
  ensures int(result) == nanos(a) - nanos(b)
uf nanos(time.Time) int
uf clock() int
callback g.cache.Now()
  flags nonblocking
  ensures nanos(result) == clock()

def upd(n *gpb.Notification) = n.Update[0].Val
def inc(t *Target, k string, d int) = store(old(mc), ref(t.meta), store(old(mc)[ref(t.meta)], k, old(mc)[ref(t.meta)][k] + d))

func (*Target).setSync(t, s)
  flags nonblocking
  props C15
  holds w t.mu
  modifies t.sync
  ensures t.sync == s
func (*Target).inSync(t)
  flags nonblocking
  props C15
  holds w t.mu
  ensures result == t.sync
func (*Target).checkTimestamp(t, ts)
  flags nonblocking
  props C02 C15
  holds w t.mu
  modifies t.ts
  ensures latest-is-greatest: nanos(t.ts) == ite(nanos(ts) > old(nanos(t.ts)), nanos(ts), old(nanos(t.ts)))
func (*Target).latestTimestamp(t)
  flags nonblocking
  props C02 C15
  holds w t.mu
  ensures nanos(result) == nanos(t.ts)
func (*Target).resetTimestamp(t)
  flags nonblocking
  props C14 C15
  holds w t.mu
  modifies t.ts
func leafPath(n)
  props C12 C02 C03 C14 C15
  flags safety wirewf nonblocking
  requires okN(n)
  ensures plain: !n.Atomic ==> result == n.Update[0].GetPath()
  ensures atomic: n.Atomic ==> result != nil && len(result.Elem) == 0 && len(result.Element) == 0 && result.Origin == n.Update[0].GetPath().GetOrigin()
extern metadata.Path(v)
  flags nonblocking
extern google.golang.org/protobuf/encoding/prototext.Format(m)
  flags nonblocking
def inc2(t *Target, k string, l string) = store(old(mc), ref(t.meta), store(store(old(mc)[ref(t.meta)], k, old(mc)[ref(t.meta)][k] + 1), l, old(mc)[ref(t.meta)][l] + 1))
def ahead(t *Target, n *gpb.Notification) = int(t.futureThreshold) > 0 && n.Timestamp - clock() > int(t.futureThreshold)

func (*Target).gnmiUpdate(t, n)
  props C12 C02 C03 C14 C15
  flags merge safety wirewf nonblocking
  requires t != nil
  holds w t.mu
  use veq_refl veq_teq veq_trans
  requires parts: parts(t)
  requires tree: treeOK(t)
  requires feed: feedOK(t)
  requires one-unit: okN(n)
  requires stored-path: good(ipn(n))
  modifies t.ts, t.sync, all(ctree.Tree.leafBranch), ghost(lf), ghost(own), ghost(at), ghost(nreal), ghost(mc)
  ensures older-is-stale: !isMetaP(ipn(n)) && old(has1(t, ipn(n))) && n.Timestamp < old(stored(t, ipn(n)).Timestamp) ==> result1 == ErrStale
  ensures identical-is-stale: !isMetaP(ipn(n)) && old(has1(t, ipn(n))) && n.Timestamp == old(stored(t, ipn(n)).Timestamp) && nsame(boxed(old(stored(t, ipn(n)))), boxed(n)) ==> result1 == ErrStale
  ensures stale-only-if: result1 == ErrStale ==> old(has1(t, ipn(n))) && (n.Timestamp < old(stored(t, ipn(n)).Timestamp) || n.Timestamp == old(stored(t, ipn(n)).Timestamp) && nsame(boxed(old(stored(t, ipn(n)))), boxed(n)))
  ensures future-is-rejected: !isMetaP(ipn(n)) && old(has1(t, ipn(n))) && n.Timestamp > old(stored(t, ipn(n)).Timestamp) && ahead(t, n) && old(nanos(t.ts)) > 0 && n.Timestamp - old(nanos(t.ts)) > int(t.futureThreshold) ==> result1 == ErrFuture
  ensures future-only-if: result1 == ErrFuture ==> old(has1(t, ipn(n))) && n.Timestamp > old(stored(t, ipn(n)).Timestamp) && ahead(t, n) && old(nanos(t.ts)) > 0 && n.Timestamp - old(nanos(t.ts)) > int(t.futureThreshold)
  ensures replaced-otherwise: !isMetaP(ipn(n)) && old(has1(t, ipn(n))) ==> result1 == nil || result1 == ErrStale || result1 == ErrFuture
  ensures rejected-changes-nothing: result1 != nil ==> isnil(result0) && lf == old(lf) && nreal == old(nreal) && forall(r, List, has1(t, r) ==> nodeAt(t, r).leafBranch == old(nodeAt(t, r).leafBranch), lf[ref(t.t)][r])
  ensures rejected-keeps-latest: result1 != nil ==> nanos(t.ts) == old(nanos(t.ts))
  ensures latest-is-greatest-accepted: result1 == nil ==> nanos(t.ts) == ite(!isMetaP(ipn(n)) && n.Timestamp > old(nanos(t.ts)), n.Timestamp, old(nanos(t.ts)))
  ensures accepted-is-stored: result1 == nil ==> has1(t, ipn(n)) && typeis(nodeAt(t, ipn(n)).leafBranch, *gpb.Notification) && stored(t, ipn(n)) == n
  ensures other-leaves-kept: forall(r, List, r != ipn(n) ==> lf[ref(t.t)][r] == old(lf[ref(t.t)][r]) && (has1(t, r) ==> nodeAt(t, r).leafBranch == old(nodeAt(t, r).leafBranch)), lf[ref(t.t)][r])
  ensures other-trees-kept: forall(x, int, x != ref(t.t) ==> lf[x] == old(lf[x]) && nreal[x] == old(nreal[x]), lf[x], nreal[x])
  ensures other-nodes-kept: forall(x, *ctree.Tree, x != t.t && old(own[ref(x)]) != ref(t.t) && old(allocated(x)) ==> x.leafBranch == old(x.leafBranch), x.leafBranch)
  ensures owners-kept: forall(x, *ctree.Tree, old(allocated(x)) ==> own[ref(x)] == old(own[ref(x)]) && at[ref(x)] == old(at[ref(x)]), own[ref(x)], at[ref(x)])
  ensures tree: treeOK(t)
  ensures announced-leaf: result0 != nil ==> ref(result0) == lf[ref(t.t)][ipn(n)] && result1 == nil
  ensures feed-to-announce: forall(r, List, (r != ipn(n) || result0 == nil) ==> feedAt(t, r), lf[ref(t.t)][r], fv[r])
  ensures withheld-only-if-unchanged: result1 == nil && result0 == nil ==> t.eventDriven && !n.Atomic && old(has1(t, ipn(n))) && !old(stored(t, ipn(n)).Atomic) && teq(upd(old(stored(t, ipn(n)))), upd(n))
  ensures suppression-off: !t.eventDriven && result1 == nil ==> result0 != nil
  // counters: exactly one of stale, future, suppressed, (counted as updated by the caller), error
  ensures counts-stale: result1 == ErrStale ==> mc == inc(t, "targetLeavesStale", 1)
  ensures counts-future: result1 == ErrFuture ==> mc == inc(t, "targetLeavesFuture", 1)
  ensures counts-error: result1 != nil && result1 != ErrStale && result1 != ErrFuture ==> mc == old(mc)
  ensures counts-suppressed: result1 == nil && result0 == nil ==> mc == inc(t, "targetLeavesSuppressed", 1)
  ensures counts-change: result0 != nil && old(has1(t, ipn(n))) ==> mc == old(mc)
  ensures counts-new: result0 != nil && !old(has1(t, ipn(n))) ==> mc == ite(isMetaP(ipn(n)), old(mc), inc2(t, "targetLeaves", "targetLeavesAdded"))
  ensures leaf-count-follows: cnt(t, "targetLeaves") - nreal[ref(t.t)] == old(cnt(t, "targetLeaves") - nreal[ref(t.t)])
  ensures adds-follow: cnt(t, "targetLeavesAdded") - cnt(t, "targetLeavesDeleted") - nreal[ref(t.t)] == old(cnt(t, "targetLeavesAdded") - cnt(t, "targetLeavesDeleted") - nreal[ref(t.t)])

// ---- deletes
uf sel(List, List) bool
def isDel(l *ctree.Leaf) = l != nil && typeis(l.leafBranch, *gpb.Notification) && noti(l.leafBranch) != nil && len(noti(l.leafBranch).Update) == 0 && len(noti(l.leafBranch).Delete) == 1
def deletes(l *ctree.Leaf, r List) = dsel(noti(l.leafBranch), r)
def isCounter(r List) = isMetaP(r) && !isnilL(ltl(r)) && (lhd(ltl(r)) == "targetLeaves" || lhd(ltl(r)) == "targetLeavesAdded" || lhd(ltl(r)) == "targetLeavesDeleted")
// pos[r]: position of the announcement of the deletion of r;  bk[i]: the path announced at position i
ghost pos MapLI
ghost bk MapIL
ghost curr List

extern (*ctree.Tree).WalkDeleted(t, path, condition, f)
  flags nonblocking
  modifies t.leafBranch
  iterate r List
  iterwhere lf[ref(t)][r] != 0 && sel(listof(path), r)
  step if condition(asptr(lf[ref(t)][r], *ctree.Tree).leafBranch)
  step set curr := r
  step call f(asptr(lf[ref(t)][r], *ctree.Tree).leafBranch)
  step set lf := store(lf, ref(t), store(lf[ref(t)], r, 0))
  step set nreal := store(nreal, ref(t), nreal[ref(t)] - ite(isMetaP(r), 0, 1))
  iterend forall(r, List, pre(lf[ref(t)][r]) != 0 && sel(listof(path), r) ==> done[r], done[r])
extern ctree.DetachedLeaf(v)
  flags nonblocking
  ensures result != nil && fresh(result) && result.leafBranch == v
func toDeleteNotification(n, timestamp)
  flags nonblocking
  trusted the paths of the result are those of the leaf (append of path elements); bounded stand-in: harness C03
  requires len(n.Update) >= 1
  ensures result != nil && fresh(result) && result.Timestamp == timestamp && len(result.Update) == 0 && len(result.Delete) == 1
  ensures forall(r, List, dsel(result, r) <==> r == ipn(n), dsel(result, r))
func isMeta(n)
  props C12 C15
  flags safety wirewf nonblocking
  requires okN(n)
  ensures meta-paths-only: result <==> isMetaP(ipn(n))
extern (*metadata.Metadata).ResetEntry(m, entry)
  flags nonblocking
  modifies ghost(mc)
  ensures mc == store(old(mc), ref(m), store(old(mc)[ref(m)], entry, 0))

func (*Target).gnmiRemove(t, n)
  props C12 C02 C03 C14 C15
  flags safety wirewf nonblocking
  requires t != nil
  holds w t.mu
  requires parts: parts(t)
  requires tree: treeOK(t)
  requires feed: feedOK(t)
  requires one-delete: n != nil && len(n.Delete) == 1
  requires no-counter: !isCounter(jp(n.Prefix, n.Delete[0]))
  modifies t.t.leafBranch, ghost(lf), ghost(nreal), ghost(mc), ghost(pos), ghost(bk), ghost(curr)
  after ctree.DetachedLeaf pos := store(pos, curr, len(leaves))
  after ctree.DetachedLeaf bk := store(bk, len(leaves), curr)
  at (*ctree.Tree).WalkDeleted invariant own-list: cap(leaves) == 0 || fresh(leaves)
  at (*ctree.Tree).WalkDeleted invariant removed-exactly: forall(r, List, lf[ref(t.t)][r] == ite(done[r] && old(stored(t, r).Timestamp) < n.Timestamp, 0, old(lf[ref(t.t)][r])), lf[ref(t.t)][r])
  at (*ctree.Tree).WalkDeleted invariant done-only: forall(r, List, done[r] ==> old(has1(t, r)) && sel(jp(n.Prefix, n.Delete[0]), r), done[r])
  at (*ctree.Tree).WalkDeleted invariant others: forall(x, int, x != ref(t.t) ==> lf[x] == old(lf[x]) && nreal[x] == old(nreal[x]), lf[x], nreal[x])
  at (*ctree.Tree).WalkDeleted invariant counted: deleted == old(nreal[ref(t.t)]) - nreal[ref(t.t)] && deleted >= 0
  at (*ctree.Tree).WalkDeleted invariant announced: forall(r, List, done[r] && lf[ref(t.t)][r] == 0 ==> 0 <= pos[r] && pos[r] < len(leaves) && isDel(leaves[pos[r]]) && deletes(leaves[pos[r]], r), done[r])
  at (*ctree.Tree).WalkDeleted invariant only-deleted: forall(i, int, 0 <= i && i < len(leaves) ==> isDel(leaves[i]) && fresh(leaves[i]) && done[bk[i]] && lf[ref(t.t)][bk[i]] == 0 && forall(r, List, deletes(leaves[i], r) <==> r == bk[i], dsel(noti(leaves[i].leafBranch), r)), bk[i])
  ensures removes-exactly: forall(r, List, lf[ref(t.t)][r] == ite(old(has1(t, r)) && sel(jp(n.Prefix, n.Delete[0]), r) && old(stored(t, r).Timestamp) < n.Timestamp, 0, old(lf[ref(t.t)][r])), lf[ref(t.t)][r])
  ensures other-trees-kept: forall(x, int, x != ref(t.t) ==> lf[x] == old(lf[x]) && nreal[x] == old(nreal[x]), lf[x], nreal[x])
  ensures announced: forall(r, List, old(has1(t, r)) && lf[ref(t.t)][r] == 0 ==> 0 <= pos[r] && pos[r] < len(result) && isDel(result[pos[r]]) && deletes(result[pos[r]], r), lf[ref(t.t)][r])
  ensures only-deleted: forall(i, int, 0 <= i && i < len(result) ==> isDel(result[i]) && fresh(result[i]) && lf[ref(t.t)][bk[i]] == 0 && forall(r, List, deletes(result[i], r) <==> r == bk[i], dsel(noti(result[i].leafBranch), r)), bk[i])
  ensures leaf-count-follows: cnt(t, "targetLeaves") - nreal[ref(t.t)] == old(cnt(t, "targetLeaves") - nreal[ref(t.t)])
  ensures deletes-follow: cnt(t, "targetLeavesAdded") - cnt(t, "targetLeavesDeleted") - nreal[ref(t.t)] == old(cnt(t, "targetLeavesAdded") - cnt(t, "targetLeavesDeleted") - nreal[ref(t.t)])
  ensures other-counters-kept: forall(m, int, m != ref(t.meta) ==> mc[m] == old(mc[m]), mc[m])
  ensures tree: treeOK(t)

// ---- the update callback: what a receiver of the feed does with a message
callback cache.Target.client(l)
  flags nonblocking
  requires under-the-target-lock: l != nil && typeis(l.leafBranch, *gpb.Notification) && noti(l.leafBranch) != nil
  requires a-message: len(noti(l.leafBranch).Update) >= 1 || isDel(l)
  holdsany w Target.mu
  modifies ghost(fv)
  ensures len(noti(l.leafBranch).Update) >= 1 ==> fv == store(old(fv), ipn(noti(l.leafBranch)), ref(noti(l.leafBranch)))
  ensures len(noti(l.leafBranch).Update) == 0 ==> forall(r, List, fv[r] == ite(deletes(l, r), 0, old(fv)[r]), fv[r])
callback (*cache.Target).generateMetaUpdates.clients(l)
  flags nonblocking
  requires under-the-target-lock: l != nil && typeis(l.leafBranch, *gpb.Notification) && noti(l.leafBranch) != nil
  requires a-message: len(noti(l.leafBranch).Update) >= 1 || isDel(l)
  holdsany w Target.mu
  modifies ghost(fv)
  ensures len(noti(l.leafBranch).Update) >= 1 ==> fv == store(old(fv), ipn(noti(l.leafBranch)), ref(noti(l.leafBranch)))
  ensures len(noti(l.leafBranch).Update) == 0 ==> forall(r, List, fv[r] == ite(deletes(l, r), 0, old(fv)[r]), fv[r])

extern google.golang.org/protobuf/proto.Clone(m)
  flags nonblocking
  ensures typeis(m, *gpb.Notification) ==> typeis(result, *gpb.Notification) && noti(result) != nil && fresh(noti(result)) && noti(result).Timestamp == noti(m).Timestamp && noti(result).Atomic == noti(m).Atomic && len(noti(result).Update) == len(noti(m).Update) && len(noti(result).Delete) == len(noti(m).Delete)
  ensures typeis(m, *gpb.Notification) ==> forall(p, *gpb.Path, jp(noti(result).Prefix, p) == jp(noti(m).Prefix, p), jp(noti(result).Prefix, p))

// ---- one notification: its updates, then its deletes, one at a time
// acc: units accounted for (updated, suppressed, stale, future or error); offered, removed: calls made
ghost acc Int
ghost failed Int
def plain(n *gpb.Notification) = !n.Atomic && len(n.Update) + len(n.Delete) > 1
def isT(m any) = typeis(m, *gpb.Notification)

extern (*errlist.List).Add(e, errs)
  flags nonblocking
  modifies e.errors
  ensures len(errs) == 1 && !isnil(errs[0]) ==> len(e.errors) > 0
extern (errlist.List).Err(e)
  flags nonblocking
  ensures isnil(result) <==> len(e.errors) == 0

func (*Target).GnmiUpdate(t, n)
  props C12 C02 C03 C14 C15
  flags merge safety wirewf nonblocking
  requires t != nil
  requires n != nil && allocated(n) && allocated(n.Update) && allocated(n.Delete)
  requires no-counter: forall(i, int, 0 <= i && i < len(n.Delete) ==> !isCounter(jp(n.Prefix, n.Delete[i])))
  requires stored-paths: forall(i, int, 0 <= i && i < len(n.Update) ==> good(ite(n.Atomic, jpo(n.Prefix, n.Update[i].GetPath().GetOrigin()), jp(n.Prefix, n.Update[i].GetPath()))))
  modifies n.Update, n.Delete, t.ts, t.sync, all(ctree.Tree.leafBranch), ghost(lf), ghost(own), ghost(at), ghost(nreal), ghost(mc), ghost(fv), ghost(pos), ghost(bk), ghost(curr), ghost(acc), ghost(failed)
  after (*Target).gnmiUpdate acc := acc + ite(result1 != nil || isnil(result0), 1, 0)
  after (*Target).gnmiUpdate failed := failed + ite(result1 != nil, 1, 0)
  before (*metadata.Metadata).AddInt acc := acc + ite(arg1 == "targetLeavesUpdated", arg2, 0)
  before (*metadata.Metadata).AddInt assert own-counters: arg0 == t.meta
  before (*Target).gnmiUpdate assert one-unit: arg1.Timestamp == n.Timestamp && arg1.Atomic == n.Atomic
  before (*Target).gnmiRemove assert one-delete: arg1.Timestamp == n.Timestamp
  ensures input-restored: n.Update == old(n.Update) && n.Delete == old(n.Delete)
  ensures empty-counted: len(n.Update) + len(n.Delete) == 0 ==> mc == atlock(store(mc, ref(t.meta), store(mc[ref(t.meta)], "targetLeavesEmpty", mc[ref(t.meta)]["targetLeavesEmpty"] + 1))) && result == nil && lf == atlock(lf)
  ensures counted-once: !n.Atomic ==> acc == old(acc) + len(n.Update) + len(n.Delete)
  ensures atomic-counted: n.Atomic && len(n.Delete) == 0 && result == nil ==> acc == old(acc) + len(n.Update) || acc == old(acc) + 1
  ensures errors-returned: !n.Atomic ==> (result != nil <==> failed > old(failed))
  ensures other-trees-kept: forall(x, int, x != ref(t.t) ==> lf[x] == atlock(lf)[x] && nreal[x] == atlock(nreal)[x], lf[x], nreal[x])
  ensures other-counters-kept: forall(m, int, m != ref(t.meta) ==> mc[m] == atlock(mc)[m], mc[m])
  ensures other-nodes-kept: forall(x, *ctree.Tree, x != t.t && atlock(own)[ref(x)] != ref(t.t) && atlock(allocated(x)) ==> x.leafBranch == atlock(x.leafBranch), x.leafBranch)
  loop 1
    invariant input: len(n.Update) == 0 && len(n.Delete) == 0
    invariant tree: parts(t) && treeOK(t) && feedOK(t)
    invariant counts: cnt(t, "targetLeaves") == nreal[ref(t.t)] && cnt(t, "targetLeavesAdded") - cnt(t, "targetLeavesDeleted") == nreal[ref(t.t)]
    invariant others: forall(x, int, x != ref(t.t) ==> lf[x] == atlock(lf)[x] && nreal[x] == atlock(nreal)[x], lf[x], nreal[x])
    invariant other-counters: forall(m, int, m != ref(t.meta) ==> mc[m] == atlock(mc)[m], mc[m])
    invariant owners: forall(x, *ctree.Tree, atlock(allocated(x)) ==> own[ref(x)] == atlock(own)[ref(x)] && at[ref(x)] == atlock(at)[ref(x)], own[ref(x)], at[ref(x)])
    invariant other-nodes: forall(x, *ctree.Tree, x != t.t && atlock(own)[ref(x)] != ref(t.t) && atlock(allocated(x)) ==> x.leafBranch == atlock(x.leafBranch), x.leafBranch)
    invariant counted: acc == old(acc) + iter
    invariant errors: failed >= old(failed) && (len(errs.errors) > 0 <==> failed > old(failed))
  loop 2
    invariant input: len(n.Update) == 0 && len(n.Delete) == 0
    invariant tree: parts(t) && treeOK(t) && feedOK(t)
    invariant counts: cnt(t, "targetLeaves") == nreal[ref(t.t)] && cnt(t, "targetLeavesAdded") - cnt(t, "targetLeavesDeleted") == nreal[ref(t.t)]
    invariant others: forall(x, int, x != ref(t.t) ==> lf[x] == atlock(lf)[x] && nreal[x] == atlock(nreal)[x], lf[x], nreal[x])
    invariant other-counters: forall(m, int, m != ref(t.meta) ==> mc[m] == atlock(mc)[m], mc[m])
    invariant owners: forall(x, *ctree.Tree, atlock(allocated(x)) ==> own[ref(x)] == atlock(own)[ref(x)] && at[ref(x)] == atlock(at)[ref(x)], own[ref(x)], at[ref(x)])
    invariant other-nodes: forall(x, *ctree.Tree, x != t.t && atlock(own)[ref(x)] != ref(t.t) && atlock(allocated(x)) ==> x.leafBranch == atlock(x.leafBranch), x.leafBranch)
    invariant counted: acc == old(acc) + len(updates) + iter
    invariant errors: failed >= old(failed) && (len(errs.errors) > 0 <==> failed > old(failed))
  loop 3
    invariant here: iter < len(ranged) ==> isDel(ranged[iter]) && lf[ref(t.t)][bk[iter]] == 0 && forall(r, List, deletes(ranged[iter], r) <==> r == bk[iter], dsel(noti(ranged[iter].leafBranch), r))
    invariant pending: forall(r, List, fv[r] != 0 && !has1(t, r) ==> iter <= pos[r] && pos[r] < len(ranged) && isDel(ranged[pos[r]]) && deletes(ranged[pos[r]], r), fv[r], lf[ref(t.t)][r])
    invariant present: forall(r, List, has1(t, r) ==> feedAt(t, r), lf[ref(t.t)][r], fv[r])
  loop 4
    invariant here: iter < len(ranged) ==> isDel(ranged[iter]) && lf[ref(t.t)][bk[iter]] == 0 && forall(r, List, deletes(ranged[iter], r) <==> r == bk[iter], dsel(noti(ranged[iter].leafBranch), r))
    invariant pending: forall(r, List, fv[r] != 0 && !has1(t, r) ==> iter <= pos[r] && pos[r] < len(ranged) && isDel(ranged[pos[r]]) && deletes(ranged[pos[r]], r), fv[r], lf[ref(t.t)][r])
    invariant present: forall(r, List, has1(t, r) ==> feedAt(t, r), lf[ref(t.t)][r], fv[r])

// ---- metadata leaves
func metaNoti(tn, m, v)
  flags nonblocking
  trusted builds the notification of a metadata leaf (path elements copied in a loop); bounded stand-in: harnesses C14, C15
  ensures result != nil && fresh(result) && allocated(result.Prefix) && okN(result) && !result.Atomic && isMetaP(ipn(result))
extern (*metadata.Metadata).GetBool(m, value)
  flags nonblocking
extern (*metadata.Metadata).GetInt(m, value)
  flags nonblocking
extern (*metadata.Metadata).GetStr(m, value)
  flags nonblocking
extern (*metadata.Metadata).SetInt(m, value, v)
  flags nonblocking
  trusted the body is in package metadata; sets exactly the named value
  modifies ghost(mc)
  ensures mc == store(old(mc), ref(m), store(old(mc)[ref(m)], value, v))
extern (*metadata.Metadata).Clear(m)
  flags nonblocking
  trusted the body is in package metadata; all registered values return to their initial ones
  modifies ghost(mc)
  ensures mc == store(old(mc), ref(m), constarr(MapSI, 0))
extern (*ctree.Tree).GetLeafValue(t, path)
  flags nonblocking
extern (stringset.Set).Contains(s, v)
  flags nonblocking

def keptReal(t *Target) = forall(r, List, !isMetaP(r) ==> lf[ref(t.t)][r] == old(lf[ref(t.t)][r]) && (has1(t, r) ==> nodeAt(t, r).leafBranch == old(nodeAt(t, r).leafBranch)), lf[ref(t.t)][r])
def keptCounts(t *Target) = nreal[ref(t.t)] == old(nreal[ref(t.t)]) && cnt(t, "targetLeaves") == old(cnt(t, "targetLeaves")) && cnt(t, "targetLeavesAdded") == old(cnt(t, "targetLeavesAdded")) && cnt(t, "targetLeavesDeleted") == old(cnt(t, "targetLeavesDeleted")) && cnt(t, "targetLeavesUpdated") == old(cnt(t, "targetLeavesUpdated")) && cnt(t, "targetLeavesEmpty") == old(cnt(t, "targetLeavesEmpty"))
def balanced(t *Target) = cnt(t, "targetLeaves") == nreal[ref(t.t)] && cnt(t, "targetLeavesAdded") - cnt(t, "targetLeavesDeleted") == nreal[ref(t.t)]

func (*Target).generateMetaUpdates(t, clients)
  props C12 C03 C14 C15
  flags merge safety wirewf
  requires t != nil
  holds w t.mu
  requires parts: parts(t) && clients != nil
  requires tree: treeOK(t)
  requires feed: feedOK(t)
  modifies t.ts, t.sync, all(ctree.Tree.leafBranch), ghost(lf), ghost(own), ghost(at), ghost(nreal), ghost(mc), ghost(fv)
  ensures tree: treeOK(t)
  ensures feed: feedOK(t)
  ensures real-leaves-kept: keptReal(t)
  ensures other-trees-kept: forall(x, int, x != ref(t.t) ==> lf[x] == old(lf)[x] && nreal[x] == old(nreal)[x], lf[x], nreal[x])
  ensures other-counters-kept: forall(m, int, m != ref(t.meta) ==> mc[m] == old(mc)[m], mc[m])
  ensures owners-kept: forall(x, *ctree.Tree, old(allocated(x)) ==> own[ref(x)] == old(own[ref(x)]) && at[ref(x)] == old(at[ref(x)]), own[ref(x)], at[ref(x)])
  ensures other-nodes-kept: forall(x, *ctree.Tree, x != t.t && old(own[ref(x)]) != ref(t.t) && old(allocated(x)) ==> x.leafBranch == old(x.leafBranch), x.leafBranch)
  ensures counts-kept: keptCounts(t)
  ensures latest-kept: nanos(t.ts) == old(nanos(t.ts))
  loop 1
    invariant tree: treeOK(t) && feedOK(t)
    invariant real: keptReal(t)
    invariant other-trees: forall(x, int, x != ref(t.t) ==> lf[x] == old(lf)[x] && nreal[x] == old(nreal)[x], lf[x], nreal[x])
    invariant other-counters: forall(m, int, m != ref(t.meta) ==> mc[m] == old(mc)[m], mc[m])
    invariant owners: forall(x, *ctree.Tree, old(allocated(x)) ==> own[ref(x)] == old(own[ref(x)]) && at[ref(x)] == old(at[ref(x)]), own[ref(x)], at[ref(x)])
    invariant other-nodes: forall(x, *ctree.Tree, x != t.t && old(own[ref(x)]) != ref(t.t) && old(allocated(x)) ==> x.leafBranch == old(x.leafBranch), x.leafBranch)
    invariant counts: keptCounts(t)
    invariant latest: nanos(t.ts) == old(nanos(t.ts))
  loop 2
    invariant tree: treeOK(t) && feedOK(t)
    invariant real: keptReal(t)
    invariant other-trees: forall(x, int, x != ref(t.t) ==> lf[x] == old(lf)[x] && nreal[x] == old(nreal)[x], lf[x], nreal[x])
    invariant other-counters: forall(m, int, m != ref(t.meta) ==> mc[m] == old(mc)[m], mc[m])
    invariant owners: forall(x, *ctree.Tree, old(allocated(x)) ==> own[ref(x)] == old(own[ref(x)]) && at[ref(x)] == old(at[ref(x)]), own[ref(x)], at[ref(x)])
    invariant other-nodes: forall(x, *ctree.Tree, x != t.t && old(own[ref(x)]) != ref(t.t) && old(allocated(x)) ==> x.leafBranch == old(x.leafBranch), x.leafBranch)
    invariant counts: keptCounts(t)
    invariant latest: nanos(t.ts) == old(nanos(t.ts))
  loop 3
    invariant tree: treeOK(t) && feedOK(t)
    invariant real: keptReal(t)
    invariant other-trees: forall(x, int, x != ref(t.t) ==> lf[x] == old(lf)[x] && nreal[x] == old(nreal)[x], lf[x], nreal[x])
    invariant other-counters: forall(m, int, m != ref(t.meta) ==> mc[m] == old(mc)[m], mc[m])
    invariant owners: forall(x, *ctree.Tree, old(allocated(x)) ==> own[ref(x)] == old(own[ref(x)]) && at[ref(x)] == old(at[ref(x)]), own[ref(x)], at[ref(x)])
    invariant other-nodes: forall(x, *ctree.Tree, x != t.t && old(own[ref(x)]) != ref(t.t) && old(allocated(x)) ==> x.leafBranch == old(x.leafBranch), x.leafBranch)
    invariant counts: keptCounts(t)
    invariant latest: nanos(t.ts) == old(nanos(t.ts))

func (*Target).refreshMeta(t, clients)
  props C12 C03 C14 C15
  flags safety wirewf
  requires t != nil
  holds w t.mu
  requires parts: parts(t) && clients != nil
  requires tree: treeOK(t)
  requires feed: feedOK(t)
  modifies t.ts, t.sync, all(ctree.Tree.leafBranch), ghost(lf), ghost(own), ghost(at), ghost(nreal), ghost(mc), ghost(fv)
  before (*metadata.Metadata).SetInt assert exports-the-latest: arg0 == t.meta && arg1 == "latestTimestamp" && arg2 == nanos(t.ts)
  ensures tree: treeOK(t)
  ensures feed: feedOK(t)
  ensures real-leaves-kept: keptReal(t)
  ensures other-trees-kept: forall(x, int, x != ref(t.t) ==> lf[x] == old(lf)[x] && nreal[x] == old(nreal)[x], lf[x], nreal[x])
  ensures other-counters-kept: forall(m, int, m != ref(t.meta) ==> mc[m] == old(mc)[m], mc[m])
  ensures owners-kept: forall(x, *ctree.Tree, old(allocated(x)) ==> own[ref(x)] == old(own[ref(x)]) && at[ref(x)] == old(at[ref(x)]), own[ref(x)], at[ref(x)])
  ensures other-nodes-kept: forall(x, *ctree.Tree, x != t.t && old(own[ref(x)]) != ref(t.t) && old(allocated(x)) ==> x.leafBranch == old(x.leafBranch), x.leafBranch)
  ensures counts-kept: keptCounts(t)
  ensures latest-kept: nanos(t.ts) == old(nanos(t.ts))
func (*Target).updateMeta(t, clients)
  props C12 C03 C14 C15
  flags safety wirewf
  requires clients != nil
  requires t != nil
  modifies t.ts, t.sync, all(ctree.Tree.leafBranch), ghost(lf), ghost(own), ghost(at), ghost(nreal), ghost(mc), ghost(fv)
  ensures real-leaves-kept: forall(r, List, !isMetaP(r) ==> lf[ref(t.t)][r] == atlock(lf[ref(t.t)][r]) && (has1(t, r) ==> nodeAt(t, r).leafBranch == atlock(nodeAt(t, r).leafBranch)), lf[ref(t.t)][r])
  ensures other-trees-kept: forall(x, int, x != ref(t.t) ==> lf[x] == atlock(lf)[x] && nreal[x] == atlock(nreal)[x], lf[x], nreal[x])
  ensures other-counters-kept: forall(m, int, m != ref(t.meta) ==> mc[m] == atlock(mc)[m], mc[m])

extern (*ctree.Tree).Children(t)
  flags nonblocking
  trusted restates the contract proved under C09 over the view of the tree as a map
  ensures result == nil || fresh(result)
  ensures forall(r, List, lf[ref(t)][r] != 0 && !isnilL(r) ==> has(result, lhd(r)), lf[ref(t)][r])
  ensures forall(k, string, has(result, k) ==> exists(r, List, lf[ref(t)][r] != 0 && !isnilL(r) && lhd(r) == k), has(result, k))
  ensures forall(r, List, !isMetaP(r) ==> lf[ref(t)][r] == 0, lf[ref(t)][r]) ==> nreal[ref(t)] == 0
extern (*ctree.Tree).Delete(t, subpath)
  flags nonblocking
  trusted restates the contract proved under C09 over the view of the tree as a map
  requires one-name: len(subpath) == 1 && subpath[0] != "*"
  modifies t.leafBranch, ghost(lf), ghost(nreal)
  ensures forall(r, List, lf[ref(t)][r] == ite(!isnilL(r) && lhd(r) == subpath[0], 0, old(lf)[ref(t)][r]), lf[ref(t)][r])
  ensures forall(x, int, x != ref(t) ==> lf[x] == old(lf)[x] && nreal[x] == old(nreal)[x], lf[x], nreal[x])
  ensures forall(r, List, !isMetaP(r) ==> lf[ref(t)][r] == 0, lf[ref(t)][r]) ==> nreal[ref(t)] == 0
func deleteNoti(tn, o, p)
  flags nonblocking
  trusted builds a delete of one path; what a receiver matches with it is the index path [o] + p, where a trailing "*" matches any rest (C06, C09); bounded stand-in: harness C14
  ensures result != nil && fresh(result) && len(result.Update) == 0 && len(result.Delete) == 1 && !result.Atomic && allocated(result.Delete)
  ensures result.Prefix != nil && result.Prefix.Target == tn && result.Prefix.Origin == o
  ensures o != "" && len(p) == 1 && p[0] == "*" ==> forall(r, List, dsel(result, r) <==> !isnilL(r) && lhd(r) == o, dsel(result, r))
  ensures o == "" && len(p) == 1 && p[0] == "*" ==> forall(r, List, dsel(result, r), dsel(result, r))
  ensures o == "" && listof(p) == listof(metadata.Path("connectError")) ==> !isCounter(jp(result.Prefix, result.Delete[0]))

func (*Target).Reset(t)
  props C12 C03 C14 C15
  flags merge safety wirewf
  requires t != nil
  modifies t.ts, t.sync, all(ctree.Tree.leafBranch), ghost(lf), ghost(own), ghost(at), ghost(nreal), ghost(mc), ghost(fv), ghost(lfm)
  ensures all-removed: forall(r, List, !isMetaP(r) ==> !has1(t, r), lf[ref(t.t)][r])
  ensures counters-zero: cnt(t, "targetLeaves") == 0 && cnt(t, "targetLeavesAdded") == 0 && cnt(t, "targetLeavesDeleted") == 0 && cnt(t, "targetLeavesUpdated") == 0 && cnt(t, "targetLeavesEmpty") == 0
  ensures other-trees-kept: forall(x, int, x != ref(t.t) ==> lf[x] == atlock(lf)[x] && nreal[x] == atlock(nreal)[x], lf[x], nreal[x])
  ensures other-counters-kept: forall(m, int, m != ref(t.meta) ==> mc[m] == atlock(mc)[m], mc[m])
  ensures other-nodes-kept: forall(x, *ctree.Tree, x != t.t && atlock(own)[ref(x)] != ref(t.t) && atlock(allocated(x)) ==> x.leafBranch == atlock(x.leafBranch), x.leafBranch)
  before (*metadata.Metadata).Clear assert own-metadata: arg0 == t.meta
  after (*Target).refreshMeta lfm := lf[ref(t.t)]
  ensures metadata-leaves-kept: forall(r, List, isMetaP(r) ==> lf[ref(t.t)][r] == lfm[r], lf[ref(t.t)][r])
  loop 1
    invariant metadata-leaves: forall(r, List, isMetaP(r) ==> lf[ref(t.t)][r] == lfm[r], lf[ref(t.t)][r])
    invariant tree: parts(t) && treeOK(t) && feedOK(t)
    invariant removed: forall(r, List, !isMetaP(r) && has1(t, r) ==> has(ranged, lhd(r)) && !visited(lhd(r)), lf[ref(t.t)][r])
    invariant counts: cnt(t, "targetLeaves") == 0 && cnt(t, "targetLeavesAdded") == 0 && cnt(t, "targetLeavesDeleted") == 0 && cnt(t, "targetLeavesUpdated") == 0 && cnt(t, "targetLeavesEmpty") == 0
    invariant others: forall(x, int, x != ref(t.t) ==> lf[x] == atlock(lf)[x] && nreal[x] == atlock(nreal)[x], lf[x], nreal[x])
    invariant other-counters: forall(m, int, m != ref(t.meta) ==> mc[m] == atlock(mc)[m], mc[m])
    invariant other-nodes: forall(x, *ctree.Tree, x != t.t && atlock(own)[ref(x)] != ref(t.t) && atlock(allocated(x)) ==> x.leafBranch == atlock(x.leafBranch), x.leafBranch)
    invariant none-left: forall(r, List, !isMetaP(r) ==> lf[ref(t.t)][r] == 0, lf[ref(t.t)][r]) ==> nreal[ref(t.t)] == 0

// ---- the cache: one entry per target
ghost announced Int
ghost gone MapSB
uf wholeTarget(*gpb.Notification, string) bool
guard Cache.mu(c)
  fields targets
  all allmaps(map[string]*Target)
  invariant table: c.targets != nil && c.client != nil && forall(k, string, has(c.targets, k) ==> c.targets[k] != nil && allocated(c.targets[k]) && c.targets[k].name == k)
callback cache.Cache.client(l)
  flags nonblocking
  requires a-message: l != nil && typeis(l.leafBranch, *gpb.Notification) && noti(l.leafBranch) != nil
  requires whole-target: len(noti(l.leafBranch).Update) == 0 && len(noti(l.leafBranch).Delete) == 1
  modifies ghost(gone)
  ensures forall(r, List, dsel(noti(l.leafBranch), r), dsel(noti(l.leafBranch), r)) ==> gone == store(old(gone), noti(l.leafBranch).Prefix.Target, true)
  ensures !forall(r, List, dsel(noti(l.leafBranch), r), dsel(noti(l.leafBranch), r)) ==> gone == old(gone)
func (*Cache).GetTarget(c, target)
  flags nonblocking
  props C14
  ensures the-entry: result == atlock(c.targets[target])
  ensures result != nil ==> allocated(result) && result.name == target
func (*Cache).HasTarget(c, target)
  props C14
  ensures empty: target == "" ==> !result
  ensures glob: target == "*" ==> result
  ensures the-entry: target != "" && target != "*" ==> (result <==> atlock(c.targets[target]) != nil)
func (*Cache).Remove(c, target)
  props C14
  modifies allmaps(map[string]*Target), ghost(gone)
  ensures unknown: atunlock(!has(c.targets, target))
  ensures others-kept: atunlock(forall(k, string, k != target ==> has(c.targets, k) == atlock(has(c.targets, k)) && c.targets[k] == atlock(c.targets[k])))
  ensures announced: gone == store(old(gone), target, true)
extern metadata.New()
  flags nonblocking
  ensures result != nil && fresh(result)
extern latency.New(w, o)
  flags nonblocking
  ensures result != nil && fresh(result)
func (*Cache).Add(c, target)
  props C14
  modifies allmaps(map[string]*Target)
  ensures own-tree: result != nil && fresh(result) && fresh(result.t) && fresh(result.meta) && result.t != nil && result.meta != nil && result.name == target
  ensures others-kept: atunlock(forall(k, string, k != target ==> has(c.targets, k) == atlock(has(c.targets, k)) && c.targets[k] == atlock(c.targets[k])))
func (*Cache).Reset(c, target)
  props C14
  modifies all(Target.ts), all(Target.sync), all(ctree.Tree.leafBranch), ghost(lf), ghost(own), ghost(at), ghost(nreal), ghost(mc), ghost(fv), ghost(lfm)
  before (*Target).Reset assert only-the-named-target: arg0.name == target
func (*Cache).GnmiUpdate(c, n)
  props C14 C12 C08N
  flags safety nonblocking
  requires n != nil ==> allocated(n) && allocated(n.Update) && allocated(n.Delete)
  requires n != nil ==> forall(i, int, 0 <= i && i < len(n.Delete) ==> !isCounter(jp(n.Prefix, n.Delete[i])))
  requires n != nil ==> forall(i, int, 0 <= i && i < len(n.Update) ==> good(ite(n.Atomic, jpo(n.Prefix, n.Update[i].GetPath().GetOrigin()), jp(n.Prefix, n.Update[i].GetPath()))))
  modifies n.Update, n.Delete, all(Target.ts), all(Target.sync), all(ctree.Tree.leafBranch), ghost(lf), ghost(own), ghost(at), ghost(nreal), ghost(mc), ghost(fv), ghost(pos), ghost(bk), ghost(curr), ghost(acc), ghost(failed)
  before (*Target).GnmiUpdate assert only-the-addressed-target: arg0 != nil && arg0.name == n.Prefix.Target && arg1 == n
  ensures unaddressed-is-an-error: n == nil || n.Prefix == nil ==> result != nil
