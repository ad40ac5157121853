forprops C09
package ctree
// Abstraction of the tree: reg[x][r] is the set of values stored at relative path r
// below node x (empty or a singleton). live, dep, par, lab: the nodes of the tree, their
// depth, parent and edge label; kown: the node owning a branch map.
ghost tlive MapIB
ghost tdep MapII
ghost tpar MapII
ghost tlab MapIS
ghost tkown MapII
ghost treg MapILSA
ghost nd Int

def isBr(x *Tree) = typeis(x.leafBranch, branch)
def isLeaf(x *Tree) = !isnil(x.leafBranch) && !typeis(x.leafBranch, branch)
def kids(x *Tree) = x.leafBranch.(branch)
def hasKid(x *Tree, k string) = isBr(x) && has(kids(x), k)
def kid(x *Tree, k string) = kids(x)[k]
def leafOK(x *Tree) = forall(v, any, treg[ref(x)][lnil()][v] <==> (isLeaf(x) && x.leafBranch == v)) && (isLeaf(x) ==> treg[ref(x)][lnil()][x.leafBranch])
def belowOK(x *Tree) = forall(k, string, forall(t, List, forall(v, any, treg[ref(x)][lcons(k, t)][v] <==> (hasKid(x, k) && treg[ref(kid(x, k))][t][v]))))
def shapeT(x *Tree) = forall(k, string, hasKid(x, k) ==> kid(x, k) != nil && tlive[ref(kid(x, k))] && !isnil(kid(x, k).leafBranch) && tdep[ref(kid(x, k))] == tdep[ref(x)] + 1 && tpar[ref(kid(x, k))] == ref(x) && tlab[ref(kid(x, k))] == k)
def ownedT(x *Tree) = isBr(x) ==> kids(x) != nil && tkown[ref(kids(x))] == ref(x)
def fullT(x *Tree) = isBr(x) ==> exists(k, string, exists(t, List, exists(v, any, treg[ref(x)][lcons(k, t)][v])))
def branchesFull(d int) = forall(x, *Tree, tlive[ref(x)] && tdep[ref(x)] >= d ==> isBr(x) ==> exists(k, string, hasKid(x, k)), tlive[ref(x)])
def TN() = forall(x, *Tree, tlive[ref(x)] ==> x != nil && allocated(x), tlive[ref(x)]) && forall(m, int, tkown[m] != 0 ==> allocated(m), tkown[m])
def TL(d int) = forall(x, *Tree, tlive[ref(x)] && tdep[ref(x)] >= d ==> leafOK(x), tlive[ref(x)])
def TB(d int) = forall(x, *Tree, tlive[ref(x)] && tdep[ref(x)] >= d ==> belowOK(x), tlive[ref(x)])
def TS(d int) = forall(x, *Tree, tlive[ref(x)] && tdep[ref(x)] >= d ==> shapeT(x), tlive[ref(x)])
def TF(d int) = forall(x, *Tree, tlive[ref(x)] && tdep[ref(x)] >= d ==> fullT(x), tlive[ref(x)])
def TO() = forall(x, *Tree, tlive[ref(x)] ==> ownedT(x), tlive[ref(x)])

def otherT(x *Tree, b *Tree) = old(tlive[ref(x)]) && old(tdep[ref(x)]) <= old(tdep[ref(b)]) && x != b
def keepsRegT(b *Tree) = forall(x, *Tree, otherT(x, b) ==> treg[ref(x)] == old(treg[ref(x)]), treg[ref(x)])
def keepsNode(b *Tree) = forall(x, *Tree, otherT(x, b) ==> tlive[ref(x)] && x.leafBranch == old(x.leafBranch), tlive[ref(x)])
def keepsKidsT(b *Tree) = forall(x, *Tree, otherT(x, b) ==> tlive[ref(x)] && forall(k, string, hasKid(x, k) == old(hasKid(x, k)) && (hasKid(x, k) ==> kid(x, k) == old(kid(x, k)))), tlive[ref(x)])
def keepsShapeT(b *Tree) = forall(x, int, (old(tlive[x]) ==> tdep[x] == old(tdep[x]) && tpar[x] == old(tpar[x]) && tlab[x] == old(tlab[x])) && (tlive[x] && !old(tlive[x]) ==> tdep[x] > tdep[ref(b)] && fresh(x)) && (old(tlive[x]) && !tlive[x] ==> old(tdep[x]) > old(tdep[ref(b)]) || x == ref(b)))
def keepsOwnerT() = forall(m, int, old(tkown[m]) != 0 ==> tkown[m] == old(tkown[m]), tkown[m])
def single(v any) = store(constarr(MapAB, false), v, true)
def isNew(x *Tree) = tlive[ref(x)] && !old(tlive[ref(x)])
def good(v any) = !isnil(v) && !typeis(v, branch)

func newBranch(path, value)
  props C09
  requires value: good(value)
  requires nodes: TN()
  modifies ghost(tlive), ghost(tdep), ghost(tpar), ghost(tlab), ghost(tkown), ghost(treg), ghost(nd)
  before newBranch nd := nd + 1
  after newBranch nd := nd - 1
  ghostset tlive := store(tlive, ref(result), true)
  ghostset tdep := store(tdep, ref(result), nd)
  ghostset treg := store(treg, ref(result), store(constarr(LSA, constarr(MapAB, false)), listof(path), single(value)))
  ghostset tkown := ite(isBr(result), store(tkown, ref(kids(result)), ref(result)), tkown)
  ghostset tpar := ite(isBr(result), store(tpar, ref(kid(result, path[0])), ref(result)), tpar)
  ghostset tlab := ite(isBr(result), store(tlab, ref(kid(result, path[0])), path[0]), tlab)
  ensures created: result != nil && fresh(result) && tlive[ref(result)] && tdep[ref(result)] == nd && nd == old(nd) && !isnil(result.leafBranch)
  ensures only-value: treg[ref(result)] == store(constarr(LSA, constarr(MapAB, false)), listof(path), single(value))
  ensures nodes: TN()
  ensures new-nodes: forall(x, *Tree, isNew(x) ==> fresh(x) && tdep[ref(x)] >= nd && (tdep[ref(x)] == nd ==> x == result), tlive[ref(x)])
  ensures leaf: forall(x, *Tree, isNew(x) ==> leafOK(x), tlive[ref(x)])
  ensures below: forall(x, *Tree, isNew(x) ==> belowOK(x), tlive[ref(x)])
  ensures tree: forall(x, *Tree, isNew(x) ==> shapeT(x), tlive[ref(x)])
  ensures full: forall(x, *Tree, isNew(x) ==> fullT(x), tlive[ref(x)])
  ensures maps: forall(x, *Tree, isNew(x) ==> ownedT(x), tlive[ref(x)])
  ensures old-nodes: forall(x, int, old(tlive[x]) ==> tlive[x] && tdep[x] == old(tdep[x]) && tpar[x] == old(tpar[x]) && tlab[x] == old(tlab[x]) && treg[x] == old(treg[x]), tlive[x])
  ensures map-owners-kept: keepsOwnerT()
  ensures maps-of-new: forall(m, int, tkown[m] != old(tkown[m]) ==> fresh(m), tkown[m])

// ---- prefixes ----
uf pref(List, List) bool
axiom pref_nil(r List) -- definition: the empty path is a prefix of every path
  ensures pref(lnil(), r)
  pattern pref(lnil(), r)
axiom pref_cons_nil(a string, s List) -- definition
  ensures !pref(lcons(a, s), lnil())
  pattern pref(lcons(a, s), lnil())
axiom pref_cons(a string, s List, b string, t List) -- definition
  ensures pref(lcons(a, s), lcons(b, t)) == (a == b && pref(s, t))
  pattern pref(lcons(a, s), lcons(b, t))

def conflict(p List, r List) = (pref(p, r) || pref(r, p)) && p != r
def wfL(r List) = casesL(r)
def noConflict(t *Tree, p List) = forall(r, List, wfL(r) ==> forall(v, any, treg[ref(t)][r][v] ==> !conflict(p, r)))

func (*Tree).Add(t, path, value)
  props C09
  use pref_nil pref_cons_nil pref_cons
  requires value: good(value)
  requires node: t != nil && tlive[ref(t)]
  requires nodes: TN()
  requires leaf: TL(tdep[ref(t)])
  requires below: TB(tdep[ref(t)])
  requires tree: TS(tdep[ref(t)])
  requires full: TF(tdep[ref(t)])
  requires maps: TO()
  modifies all(Tree.leafBranch), allmaps(map[string]*Tree), ghost(tlive), ghost(tdep), ghost(tpar), ghost(tlab), ghost(tkown), ghost(treg), ghost(nd)
  before newBranch nd := tdep[ref(t)] + 1
  after newBranch tpar := store(tpar, ref(result0), ref(t))
  after newBranch tlab := store(tlab, ref(result0), path[0])
  after newBranch tkown := store(tkown, ref(kids(t)), ref(t))
  after newBranch assert in-place: tlive[ref(t)] && isBr(t) && kids(t) != nil && tkown[ref(kids(t))] == ref(t)
  before (*Tree).Add assert olds-kept: forall(x, *Tree, old(tlive[ref(x)]) ==> tlive[ref(x)] && treg[ref(x)] == old(treg[ref(x)]), tlive[ref(x)])
  before (*Tree).Add assert olds-maps: forall(x, *Tree, old(tlive[ref(x)]) && x != t && isBr(x) ==> tlive[ref(x)] && x.leafBranch == old(x.leafBranch) && ref(kids(x)) != ref(kids(t)), tlive[ref(x)])
  before (*Tree).Add assert olds-kids: forall(x, *Tree, old(tlive[ref(x)]) && x != t ==> tlive[ref(x)] && forall(k, string, hasKid(x, k) == old(hasKid(x, k)) && (hasKid(x, k) ==> kid(x, k) == old(kid(x, k)))), tlive[ref(x)])
  before (*Tree).Add assert old-kids-kept: forall(x, *Tree, old(tlive[ref(x)]) && old(tdep[ref(x)]) >= old(tdep[ref(t)]) ==> forall(k, string, old(hasKid(x, k)) ==> treg[ref(old(kid(x, k)))] == old(treg[ref(kid(x, k))])), tlive[ref(x)])
  after (*Tree).Add assert still-there: tlive[ref(t)] && isBr(t) && tkown[ref(kids(t))] == ref(t)
  ghostset treg := ite(result == nil, store(treg, ref(t), store(treg[ref(t)], listof(path), single(value))), treg)
  ghostset tkown := ite(isBr(t), store(tkown, ref(kids(t)), ref(t)), tkown)
  ensures stored: result == nil ==> treg[ref(t)] == old(store(treg[ref(t)], listof(path), single(value)))
  ensures failed-unchanged: result != nil ==> treg[ref(t)] == old(treg[ref(t)])
  ensures prefix-free: result == nil ==> old(noConflict(t, listof(path)))
  ensures succeeds: result != nil ==> exists(r, List, exists(v, any, old(treg[ref(t)][r][v]) && conflict(listof(path), r)))
  ensures nodes: TN()
  ensures leaf: TL(tdep[ref(t)])
  ensures below: TB(tdep[ref(t)])
  ensures tree: TS(tdep[ref(t)])
  ensures full: TF(tdep[ref(t)])
  ensures maps: TO()
  ensures others-kept: keepsRegT(t)
  ensures other-nodes-kept: keepsNode(t)
  ensures other-children-kept: keepsKidsT(t)
  ensures shape-kept: keepsShapeT(t)
  ensures map-owners-kept: keepsOwnerT()
  ensures node-kept: tlive[ref(t)] && (old(!isnil(t.leafBranch)) ==> !isnil(t.leafBranch)) && (result == nil ==> !isnil(t.leafBranch))

// ---- which stored paths a query or delete path selects ----
uf sel(List, List) bool
axiom sel_nil(r List) -- definition: the empty rest selects everything below
  ensures sel(lnil(), r)
  pattern sel(lnil(), r)
axiom sel_cons_nil(a string, s List) -- definition: only a trailing wildcard selects the leaf itself
  ensures sel(lcons(a, s), lnil()) == (a == "*" && isnilL(s))
  pattern sel(lcons(a, s), lnil())
axiom sel_cons(a string, s List, b string, t List) -- definition: equal or wildcard, then the rest
  ensures sel(lcons(a, s), lcons(b, t)) == ((a == b || a == "*") && sel(s, t))
  pattern sel(lcons(a, s), lcons(b, t))

// cnd[v]: the condition of the delete holds for v (conditions are deterministic)
// handed[v]: number of times the delete callback was called with v
ghost cnd MapAB
ghost handed MapAI
callback (*ctree.Tree).internalDelete.condition(v)
  ensures result == cnd[v]
callback (*ctree.Tree).internalDelete.f(v)
  modifies ghost(handed)
  ensures handed == store(old(handed), v, old(handed)[v] + 1)

uf delreg(LSA, List, MapAB) LSA
axiom delreg_def(m LSA, p List, c MapAB, r List, v any) -- definition: what is left after deleting the selected values satisfying the condition
  ensures delreg(m, p, c)[r][v] == (m[r][v] && !(sel(p, r) && c[v]))
  pattern delreg(m, p, c)[r][v]
def gone(t *Tree, p List, r List, v any) = old(treg[ref(t)][r][v]) && sel(p, r) && cnd[v]
def keepsDead() = forall(x, int, !old(tlive[x]) ==> !tlive[x] && treg[x] == old(treg[x]), treg[x])
def keepsShapeD(b *Tree) = forall(x, int, old(tlive[x]) && !tlive[x] ==> x == ref(b) || (tdep[x] > tdep[ref(b)] && (tdep[x] == tdep[ref(b)] + 1 ==> tpar[x] == ref(b))), tlive[x])
def keepsRegC(b *Tree) = forall(x, *Tree, old(tlive[ref(x)]) && tdep[ref(x)] <= tdep[ref(b)] + 1 && x != b && (tdep[ref(x)] == tdep[ref(b)] + 1 ==> tpar[ref(x)] != ref(b)) ==> tlive[ref(x)] && treg[ref(x)] == old(treg[ref(x)]), treg[ref(x)])
def handedOnly(t *Tree, p List) = forall(v, any, handed[v] != old(handed[v]) ==> handed[v] > old(handed[v]) && exists(r, List, gone(t, p, r, v)), handed[v])
def tailL(p List) = ite(isnilL(p), p, ltl(p))

func (*Tree).internalDelete(t, path0, condition, f, retDeletedPaths)
  props C09
  use sel_nil sel_cons_nil sel_cons delreg_def
  requires node: t != nil && tlive[ref(t)]
  requires nodes: TN()
  requires leaf: TL(tdep[ref(t)])
  requires below: TB(tdep[ref(t)])
  requires tree: TS(tdep[ref(t)])
  requires full: branchesFull(tdep[ref(t)])
  requires maps: TO()
  modifies allmaps(map[string]*Tree), ghost(tlive), ghost(treg), ghost(handed)
  before (*Tree).internalDelete assert lift: tlab[ref(arg0)] == tlab[ref(arg0)] && forall(r, List, forall(v, any, treg[ref(arg0)][r][v] ==> old(treg[ref(t)])[lcons(tlab[ref(arg0)], r)][v], treg[ref(arg0)][r][v]))
  after (*Tree).internalDelete assert lift-removed: result0 ==> forall(r, List, wfL(r) ==> forall(v, any, old(treg[ref(t)])[lcons(tlab[ref(arg0)], r)][v] ==> sel(tailL(listof(path0)), r) && cnd[v]))
  after (*Tree).internalDelete assert still-there: tlive[ref(t)] && isBr(t) && forall(k, string, hasKid(t, k) ==> old(hasKid(t, k)))
  after (*Tree).internalDelete assert kids-there: len(path0) > 0 && path0[0] != "*" ==> forall(k, string, old(hasKid(t, k)) ==> hasKid(t, k))
  after (*Tree).internalDelete assert siblings-full: forall(x, *Tree, tlive[ref(x)] && x != t && tdep[ref(x)] == tdep[ref(t)] ==> ownedT(x) && (isBr(x) ==> exists(k, string, hasKid(x, k))), tlive[ref(x)])
  ghostset treg := store(treg, ref(t), delreg(treg[ref(t)], listof(path0), cnd))
  ghostset tlive := store(tlive, ref(t), !result0)
  ensures content: treg[ref(t)] == old(delreg(treg[ref(t)], listof(path0), cnd))
  ensures step-emptied: result0 && isBr(t) ==> forall(k, string, !hasKid(t, k))
  ensures step-only-kid: result0 && isBr(t) && len(path0) > 0 && path0[0] != "*" ==> forall(k, string, old(hasKid(t, k)) ==> k == path0[0])
  ensures step-kept: !result0 && isBr(t) ==> exists(k, string, hasKid(t, k))
  ensures step-values-under-kids: forall(k, string, forall(r, List, forall(v, any, old(treg[ref(t)][lcons(k, r)][v]) ==> old(hasKid(t, k)))))
  ensures removed-means-all-selected: result0 ==> forall(r, List, wfL(r) ==> forall(v, any, old(treg[ref(t)][r][v]) ==> sel(listof(path0), r) && cnd[v]))
  ensures handed-removed: forall(r, List, wfL(r) ==> forall(v, any, gone(t, listof(path0), r, v) ==> handed[v] > old(handed[v])))
  ensures handed-only-removed: handedOnly(t, listof(path0))
  ensures nodes: TN()
  ensures step-leaf: TL(tdep[ref(t)])
  ensures step-self: tlive[ref(t)] ==> belowOK(t)
  ensures step-siblings: forall(x, *Tree, tlive[ref(x)] && x != t && tdep[ref(x)] == tdep[ref(t)] ==> belowOK(x), tlive[ref(x)])
  ensures step-deeper: TB(tdep[ref(t)] + 1)
  ensures step-below: TB(tdep[ref(t)])
  ensures step-tree: TS(tdep[ref(t)])
  ensures step-full-siblings: forall(x, *Tree, tlive[ref(x)] && x != t && tdep[ref(x)] == tdep[ref(t)] ==> isBr(x) ==> exists(k, string, hasKid(x, k)), tlive[ref(x)])
  ensures step-full-deeper: branchesFull(tdep[ref(t)] + 1)
  ensures full: branchesFull(tdep[ref(t)])
  ensures maps: TO()
  ensures others-kept: keepsRegT(t)
  ensures other-children-kept: keepsKidsT(t)
  ensures shape-kept: keepsShapeD(t)
  ensures dead-kept: keepsDead()
  ensures node-kept: tlive[ref(t)] == !result0
  ensures paths-fresh: isnil(result1) || fresh(result1)
  loop 1
    invariant isBr(t) && tlive[ref(t)] && treg[ref(t)] == old(treg[ref(t)])
    invariant forall(k, string, hasKid(t, k) ==> old(hasKid(t, k)) && kid(t, k) == old(kid(t, k)))
    invariant forall(k, string, old(hasKid(t, k)) && !visited(k) ==> hasKid(t, k) && tlive[ref(old(kid(t, k)))] && treg[ref(old(kid(t, k)))] == old(treg[ref(kid(t, k))]))
    invariant forall(k, string, old(hasKid(t, k)) && visited(k) ==> hasKid(t, k) == tlive[ref(old(kid(t, k)))] && treg[ref(old(kid(t, k)))] == delreg(old(treg[ref(kid(t, k))]), tailL(listof(path0)), cnd))
    invariant forall(k, string, old(hasKid(t, k)) && !hasKid(t, k) ==> forall(r, List, wfL(r) ==> forall(v, any, old(treg[ref(kid(t, k))][r][v]) ==> sel(tailL(listof(path0)), r) && cnd[v])))
    invariant forall(k, string, old(hasKid(t, k)) && visited(k) ==> forall(r, List, wfL(r) ==> forall(v, any, old(treg[ref(kid(t, k))][r][v]) && sel(tailL(listof(path0)), r) && cnd[v] ==> handed[v] > old(handed[v]))))
    invariant handedOnly(t, listof(path0))
    invariant TN()
    invariant TO()
    invariant keepsDead()
    invariant keepsShapeD(t)
    invariant keepsRegC(t)
    invariant keepsKidsT(t)
    invariant TL(tdep[ref(t)] + 1)
    invariant TB(tdep[ref(t)] + 1)
    invariant TS(tdep[ref(t)] + 1)
    invariant branchesFull(tdep[ref(t)] + 1)
    invariant isnil(allLeaves) || fresh(allLeaves)
  loop 2
    invariant isnil(allLeaves) || fresh(allLeaves)


func (*Tree).WalkDeleted(t, path, condition, f)
  props C09
  use sel_nil sel_cons_nil sel_cons delreg_def
  requires node: t != nil && tlive[ref(t)]
  requires nodes: TN()
  requires leaf: TL(tdep[ref(t)])
  requires below: TB(tdep[ref(t)])
  requires tree: TS(tdep[ref(t)])
  requires full: branchesFull(tdep[ref(t)])
  requires maps: TO()
  modifies t.leafBranch, allmaps(map[string]*Tree), ghost(tlive), ghost(treg), ghost(handed)
  after (*Tree).internalDelete tlive := store(tlive, ref(t), true)
  ensures content: treg[ref(t)] == old(delreg(treg[ref(t)], listof(path), cnd))
  ensures handed-removed: forall(r, List, wfL(r) ==> forall(v, any, gone(t, listof(path), r, v) ==> handed[v] > old(handed[v])))
  ensures handed-only-removed: handedOnly(t, listof(path))
  ensures node-kept: tlive[ref(t)]
  ensures step-leaf-self: leafOK(t)
  ensures step-below-self: belowOK(t)
  ensures nodes: TN()
  ensures leaf: TL(tdep[ref(t)])
  ensures below: TB(tdep[ref(t)])
  ensures tree: TS(tdep[ref(t)])
  ensures full: branchesFull(tdep[ref(t)])
  ensures maps: TO()

func (*Tree).DeleteConditional(t, path, condition)
  props C09
  use sel_nil sel_cons_nil sel_cons delreg_def
  requires node: t != nil && tlive[ref(t)]
  requires nodes: TN()
  requires leaf: TL(tdep[ref(t)])
  requires below: TB(tdep[ref(t)])
  requires tree: TS(tdep[ref(t)])
  requires full: branchesFull(tdep[ref(t)])
  requires maps: TO()
  modifies t.leafBranch, allmaps(map[string]*Tree), ghost(tlive), ghost(treg), ghost(handed)
  after (*Tree).internalDelete tlive := store(tlive, ref(t), true)
  ensures content: treg[ref(t)] == old(delreg(treg[ref(t)], listof(path), cnd))
  ensures node-kept: tlive[ref(t)]
  ensures step-leaf-self: leafOK(t)
  ensures step-below-self: belowOK(t)
  ensures nodes: TN()
  ensures leaf: TL(tdep[ref(t)])
  ensures below: TB(tdep[ref(t)])
  ensures tree: TS(tdep[ref(t)])
  ensures full: branchesFull(tdep[ref(t)])
  ensures maps: TO()

func (*Tree).Delete(t, path)
  props C09
  use sel_nil sel_cons_nil sel_cons delreg_def
  requires node: t != nil && tlive[ref(t)]
  requires nodes: TN()
  requires leaf: TL(tdep[ref(t)])
  requires below: TB(tdep[ref(t)])
  requires tree: TS(tdep[ref(t)])
  requires full: branchesFull(tdep[ref(t)])
  requires maps: TO()
  modifies t.leafBranch, allmaps(map[string]*Tree), ghost(tlive), ghost(treg), ghost(handed), ghost(cnd)
  before (*Tree).DeleteConditional cnd := constarr(MapAB, true)
  ensures content: forall(r, List, forall(v, any, treg[ref(t)][r][v] <==> (old(treg[ref(t)][r][v]) && !sel(listof(path), r))))
  ensures node-kept: tlive[ref(t)]
  ensures nodes: TN()
  ensures leaf: TL(tdep[ref(t)])
  ensures below: TB(tdep[ref(t)])
  ensures tree: TS(tdep[ref(t)])
  ensures full: branchesFull(tdep[ref(t)])
  ensures maps: TO()

// ---- lookups, queries and walks ----
// nod[x][r]: the node at relative path r below x (0 when there is none); anc[n][d]: the
// ancestor of n at depth d (n itself at its own depth). Both are determined by the tree.
// vis[n]: how often the callback was called for node n.
ghost nod MapILI
ghost anc MapIII
ghost vis MapII
ghost root Int
alias ctree.Leaf = ctree.Tree
def QN() = forall(x, *Tree, tlive[ref(x)] ==> nod[ref(x)][lnil()] == ref(x), tlive[ref(x)])
def QK() = forall(x, *Tree, tlive[ref(x)] ==> forall(k, string, forall(t, List, nod[ref(x)][lcons(k, t)] == ite(hasKid(x, k), nod[ref(kid(x, k))][t], 0), nod[ref(x)][lcons(k, t)])), tlive[ref(x)])
def QA() = forall(x, *Tree, tlive[ref(x)] ==> anc[ref(x)][tdep[ref(x)]] == ref(x) && forall(r, List, nod[ref(x)][r] != 0 ==> tlive[nod[ref(x)][r]] && forall(d, int, d <= tdep[ref(x)] ==> anc[nod[ref(x)][r]][d] == anc[ref(x)][d], anc[nod[ref(x)][r]][d]), nod[ref(x)][r]), tlive[ref(x)])
def leafAt(n int) = n != 0 && isLeaf(asptr(n, *Tree))
def hit(t *Tree, p List, r List) = leafAt(nod[ref(t)][r]) && sel(p, r)
def counted(t *Tree, p List) = forall(r, List, wfL(r) ==> vis[nod[ref(t)][r]] == old(vis[nod[ref(t)][r]]) + ite(hit(t, p, r), 1, 0))
def onlyHits(t *Tree, p List) = forall(n, int, vis[n] != old(vis[n]) ==> anc[n][tdep[ref(t)]] == ref(t) && vis[n] == old(vis[n]) + 1 && exists(r, List, nod[ref(t)][r] == n && hit(t, p, r)), vis[n])
def labelled(a []string, n *Tree) = len(a) + root == tdep[ref(n)] && forall(j, int, offof(a) <= j && j < offof(a) + len(a) ==> rawat(a, j) == tlab[anc[ref(n)][root + 1 + j - offof(a)]], rawat(a, j))

callback ctree.VisitFunc(path, l, val)
  requires leaf: isLeaf(l) && val == l.leafBranch
  requires path: labelled(path, l)
  modifies ghost(vis)
  ensures vis == store(old(vis), ref(l), old(vis)[ref(l)] + 1)

func (*Tree).Get(t, path)
  props C09
  requires node: t != nil && tlive[ref(t)]
  requires shape: TS(tdep[ref(t)])
  requires nodes-at: QN() && QK()
  ensures node-at-path: ref(result) == nod[ref(t)][listof(path)]

func (*Tree).queryInternal(t, prefix, path, f)
  props C09
  use sel_nil sel_cons_nil sel_cons
  requires node: t != nil && tlive[ref(t)]
  requires nodes: TN()
  requires shape: TS(tdep[ref(t)])
  requires nodes-at: QN() && QK() && QA()
  requires prefix: labelled(prefix, t)
  requires distinct-buffers: ref(prefix) != ref(path) || len(path) == 0
  modifies ghost(vis), elems(prefix)
  before (*Tree).queryInternal assert at: nod[ref(t)][lcons(tlab[ref(arg0)], lnil())] == ref(arg0)
  after (*Tree).queryInternal assert lift: forall(r, List, nod[ref(t)][lcons(tlab[ref(arg0)], r)] == nod[ref(arg0)][r], nod[ref(arg0)][r])
  ensures all-matching-once: isnil(result) ==> counted(t, listof(path))
  ensures only-matching-once: onlyHits(t, listof(path))
  ensures prefix-kept: forall(j, int, offof(prefix) <= j && j < offof(prefix) + len(prefix) ==> rawat(prefix, j) == old(rawat(prefix, j)), rawat(prefix, j))

func (*Tree).enumerateChildren(t, prefix, path, f)
  props C09
  use sel_nil sel_cons_nil sel_cons
  requires node: t != nil && tlive[ref(t)]
  requires nodes: TN()
  requires shape: TS(tdep[ref(t)])
  requires nodes-at: QN() && QK() && QA()
  requires prefix: labelled(prefix, t)
  requires wild: len(path) == 0 || path[0] == "*"
  requires distinct-buffers: ref(prefix) != ref(path) || len(path) == 0
  modifies ghost(vis), elems(prefix)
  before (*Tree).queryInternal assert at: nod[ref(t)][lcons(tlab[ref(arg0)], lnil())] == ref(arg0)
  after (*Tree).queryInternal assert lift: forall(r, List, nod[ref(t)][lcons(tlab[ref(arg0)], r)] == nod[ref(arg0)][r], nod[ref(arg0)][r])
  ensures local-none: vis[0] == old(vis[0])
  ensures local-self: isnil(result) ==> vis[ref(t)] == old(vis[ref(t)]) + ite(isLeaf(t) && sel(listof(path), lnil()), 1, 0)
  ensures local-kids: isnil(result) ==> forall(k, string, hasKid(t, k) ==> forall(r, List, wfL(r) ==> vis[nod[ref(kid(t, k))][r]] == old(vis[nod[ref(kid(t, k))][r]]) + ite(leafAt(nod[ref(kid(t, k))][r]) && sel(tailL(listof(path)), r), 1, 0)))
  ensures local-below: isnil(result) ==> forall(k, string, forall(r, List, vis[nod[ref(t)][lcons(k, r)]] == old(vis[nod[ref(t)][lcons(k, r)]]) + ite(hit(t, listof(path), lcons(k, r)), 1, 0), nod[ref(t)][lcons(k, r)]))
  ensures all-matching-once: isnil(result) ==> counted(t, listof(path))
  ensures only-matching-once: onlyHits(t, listof(path))
  ensures prefix-kept: forall(j, int, offof(prefix) <= j && j < offof(prefix) + len(prefix) ==> rawat(prefix, j) == old(rawat(prefix, j)), rawat(prefix, j))
  loop 1
    invariant forall(k, string, hasKid(t, k) && visited(k) ==> forall(r, List, wfL(r) ==> vis[nod[ref(kid(t, k))][r]] == old(vis[nod[ref(kid(t, k))][r]]) + ite(leafAt(nod[ref(kid(t, k))][r]) && sel(tailL(listof(path)), r), 1, 0)))
    invariant forall(n, int, vis[n] != old(vis[n]) ==> hasKid(t, tlab[anc[n][tdep[ref(t)] + 1]]) && ref(kid(t, tlab[anc[n][tdep[ref(t)] + 1]])) == anc[n][tdep[ref(t)] + 1] && visited(tlab[anc[n][tdep[ref(t)] + 1]]), vis[n])
    invariant onlyHits(t, listof(path))
    invariant forall(j, int, offof(prefix) <= j && j < offof(prefix) + len(prefix) ==> rawat(prefix, j) == old(rawat(prefix, j)), rawat(prefix, j))
  loop 2
    invariant forall(k, string, hasKid(t, k) && visited(k) ==> forall(r, List, wfL(r) ==> vis[nod[ref(kid(t, k))][r]] == old(vis[nod[ref(kid(t, k))][r]]) + ite(leafAt(nod[ref(kid(t, k))][r]) && sel(tailL(listof(path)), r), 1, 0)))
    invariant forall(n, int, vis[n] != old(vis[n]) ==> hasKid(t, tlab[anc[n][tdep[ref(t)] + 1]]) && ref(kid(t, tlab[anc[n][tdep[ref(t)] + 1]])) == anc[n][tdep[ref(t)] + 1] && visited(tlab[anc[n][tdep[ref(t)] + 1]]), vis[n])
    invariant onlyHits(t, listof(path))
    invariant forall(j, int, offof(prefix) <= j && j < offof(prefix) + len(prefix) ==> rawat(prefix, j) == old(rawat(prefix, j)), rawat(prefix, j))

func (*Tree).Query(t, path, f)
  props C09
  use sel_nil sel_cons_nil sel_cons
  requires node: t != nil && tlive[ref(t)]
  requires at-root: root == tdep[ref(t)]
  requires nodes: TN()
  requires shape: TS(tdep[ref(t)])
  requires nodes-at: QN() && QK() && QA()
  modifies ghost(vis)
  ensures all-matching-once: isnil(result) ==> counted(t, listof(path))
  ensures only-matching-once: onlyHits(t, listof(path))

// walks visit every leaf below t exactly once
def countedAll(t *Tree) = forall(r, List, wfL(r) ==> vis[nod[ref(t)][r]] == old(vis[nod[ref(t)][r]]) + ite(leafAt(nod[ref(t)][r]), 1, 0))
def onlyLeaves(t *Tree) = forall(n, int, vis[n] != old(vis[n]) ==> anc[n][tdep[ref(t)]] == ref(t) && vis[n] == old(vis[n]) + 1 && exists(r, List, nod[ref(t)][r] == n && leafAt(n)), vis[n])
func (*Tree).walkInternal(t, path, f)
  props C09
  requires node: t != nil && tlive[ref(t)]
  requires nodes: TN()
  requires shape: TS(tdep[ref(t)])
  requires nodes-at: QN() && QK() && QA()
  requires path: labelled(path, t)
  requires empty-root-only: isnil(t.leafBranch) ==> len(path) == 0
  modifies ghost(vis)
  before (*Tree).walkInternal assert at: nod[ref(t)][lcons(tlab[ref(arg0)], lnil())] == ref(arg0)
  after (*Tree).walkInternal assert lift: forall(r, List, nod[ref(t)][lcons(tlab[ref(arg0)], r)] == nod[ref(arg0)][r], nod[ref(arg0)][r])
  after (*Tree).walkInternal assert apart: forall(k, string, hasKid(t, k) ==> tlive[ref(kid(t, k))] && forall(r, List, nod[ref(kid(t, k))][r] != 0 ==> anc[nod[ref(kid(t, k))][r]][tdep[ref(arg0)]] == ref(kid(t, k))))
  ensures local-none: vis[0] == old(vis[0])
  ensures local-self: isnil(result) ==> vis[ref(t)] == old(vis[ref(t)]) + ite(isLeaf(t), 1, 0)
  ensures local-kids: isnil(result) ==> forall(k, string, hasKid(t, k) ==> forall(r, List, wfL(r) ==> vis[nod[ref(kid(t, k))][r]] == old(vis[nod[ref(kid(t, k))][r]]) + ite(leafAt(nod[ref(kid(t, k))][r]), 1, 0)))
  ensures local-below: isnil(result) ==> forall(k, string, forall(r, List, vis[nod[ref(t)][lcons(k, r)]] == old(vis[nod[ref(t)][lcons(k, r)]]) + ite(leafAt(nod[ref(t)][lcons(k, r)]), 1, 0), nod[ref(t)][lcons(k, r)]))
  ensures all-leaves-once: isnil(result) ==> countedAll(t)
  ensures only-leaves-once: onlyLeaves(t)
  loop 1
    invariant forall(k, string, hasKid(t, k) && visited(k) ==> forall(r, List, wfL(r) ==> vis[nod[ref(kid(t, k))][r]] == old(vis[nod[ref(kid(t, k))][r]]) + ite(leafAt(nod[ref(kid(t, k))][r]), 1, 0)))
    invariant forall(n, int, vis[n] != old(vis[n]) ==> hasKid(t, tlab[anc[n][tdep[ref(t)] + 1]]) && ref(kid(t, tlab[anc[n][tdep[ref(t)] + 1]])) == anc[n][tdep[ref(t)] + 1] && visited(tlab[anc[n][tdep[ref(t)] + 1]]), vis[n])
    invariant onlyLeaves(t)
func (*Tree).Walk(t, f)
  props C09
  requires node: t != nil && tlive[ref(t)]
  requires at-root: root == tdep[ref(t)]
  requires nodes: TN()
  requires shape: TS(tdep[ref(t)])
  requires nodes-at: QN() && QK() && QA()
  modifies ghost(vis)
  ensures all-leaves-once: isnil(result) ==> countedAll(t)
  ensures only-leaves-once: onlyLeaves(t)

func (*Tree).GetLeafValue(t, path)
  props C09
  requires node: t != nil && tlive[ref(t)]
  requires shape: TS(tdep[ref(t)])
  requires nodes-at: QN() && QK() && QA()
  ensures value: leafAt(nod[ref(t)][listof(path)]) ==> result == asptr(nod[ref(t)][listof(path)], *Tree).leafBranch
  ensures none: !leafAt(nod[ref(t)][listof(path)]) ==> isnil(result)
func (*Tree).GetLeaf(t, path)
  props C09
  requires node: t != nil && tlive[ref(t)]
  requires shape: TS(tdep[ref(t)])
  requires nodes-at: QN() && QK() && QA()
  ensures node-at-path: ref(result) == nod[ref(t)][listof(path)]
func (*Tree).Value(t)
  props C09
  ensures value: t != nil && !isBr(t) ==> result == t.leafBranch
  ensures none: t == nil || isBr(t) ==> isnil(result)
func (*Tree).IsBranch(t)
  props C09
  ensures branch: result == (t != nil && isBr(t))
func (*Tree).Children(t)
  props C09
  ensures none: t == nil || !isBr(t) ==> isnil(result)
  ensures children: t != nil && isBr(t) ==> forall(k, string, has(result, k) == hasKid(t, k) && (hasKid(t, k) ==> result[k] == kid(t, k)))
  ensures copy: isnil(result) || fresh(result)
  loop 1
    invariant fresh(ret) && forall(k, string, has(ret, k) == (hasKid(t, k) && visited(k)) && (has(ret, k) ==> ret[k] == kid(t, k)))
func (*Leaf).Value(l)
  props C09
  ensures value: l != nil ==> result == l.leafBranch
  ensures none: l == nil ==> isnil(result)
func (*Leaf).Update(l, val)
  props C09
  requires l != nil
  modifies l.leafBranch
  ensures updated: l.leafBranch == val
func DetachedLeaf(val)
  props C09
  ensures leaf: fresh(result) && result.leafBranch == val
