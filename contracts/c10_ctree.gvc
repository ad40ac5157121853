forprops C10
package ctree
// Lock discipline of the tree: every node's content is accessed only under that node's lock;
// a node below the entry point is locked only while its parent is locked and holds it (lock
// coupling, released after the child's operation returns), so that locks are taken from the
// root down; what a critical section of an add may do to a node is its guarantee.
alias ctree.Leaf = ctree.Tree
level Tree.mu nested
ghost tdep MapII
ghost tkown MapII
ghost nd Int
// mine[x]: this goroutine holds the lock of node x
ghost mine MapIB

def isBr(x *Tree) = typeis(x.leafBranch, branch)
def isLeaf(x *Tree) = !isnil(x.leafBranch) && !typeis(x.leafBranch, branch)
def kids(x *Tree) = x.leafBranch.(branch)
def hasKid(x *Tree, k string) = isBr(x) && has(kids(x), k)
def kid(x *Tree, k string) = kids(x)[k]
def good(v any) = !isnil(v) && !typeis(v, branch)
def owned(x *Tree) = isBr(x) ==> kids(x) != nil && tkown[ref(kids(x))] == ref(x) && allocated(kids(x))
def shape(x *Tree) = forall(k, string, hasKid(x, k) ==> kid(x, k) != nil && allocated(kid(x, k)) && tdep[ref(kid(x, k))] == tdep[ref(x)] + 1)
def above(x *Tree) = forall(y, int, mine[y] ==> tdep[y] < tdep[ref(x)] && allocated(asptr(y, *Tree)), mine[y])
def mineKept() = forall(y, *Tree, old(mine[ref(y)]) ==> mine[ref(y)] && y.leafBranch == old(y.leafBranch) && forall(k, string, hasKid(y, k) == old(hasKid(y, k)) && (hasKid(y, k) ==> kid(y, k) == old(kid(y, k)))), mine[ref(y)])
def mineOwned() = forall(y, *Tree, mine[ref(y)] ==> owned(y), mine[ref(y)])
def ghostsKept() = forall(y, int, old(allocated(asptr(y, *Tree))) ==> tdep[y] == old(tdep[y]), tdep[y]) && forall(y, int, old(allocated(asptr(y, *Tree))) ==> tkown[y] == old(tkown[y]), tkown[y])
def sameMine() = forall(y, int, mine[y] == old(mine[y]), mine[y])

guard Tree.mu(t)
  fields leafBranch
  boxedmap leafBranch branch
  invariant owned: owned(t)
  invariant shape: shape(t)
  guarantee children-stay: forall(k, string, old(hasKid(t, k)) ==> hasKid(t, k) && kid(t, k) == old(kid(t, k)))
  guarantee kind-stays: (old(isBr(t)) ==> isBr(t)) && (old(isLeaf(t)) ==> isLeaf(t))

func newBranch(path, value)
  props C10
  flags safety lockcheck
  requires value: good(value)
  modifies ghost(tdep), ghost(tkown), ghost(nd)
  before newBranch nd := nd + 1
  after newBranch nd := nd - 1
  ghostset tdep := store(tdep, ref(result), nd)
  ghostset tkown := ite(isBr(result), store(tkown, ref(kids(result)), ref(result)), tkown)
  ensures created: result != nil && fresh(result) && tdep[ref(result)] == nd && nd == old(nd) && !isnil(result.leafBranch)
  ensures ready: owned(result) && shape(result)
  ensures fresh-below: isBr(result) ==> fresh(kids(result)) && forall(k, string, hasKid(result, k) ==> fresh(kid(result, k)))
  ensures local-one: isBr(result) ==> forall(k, string, hasKid(result, k) ==> k == path[0])
  ensures local-kid-owned: isBr(result) ==> owned(kid(result, path[0]))
  ensures local-kid-shape: isBr(result) ==> shape(kid(result, path[0]))
  ensures kids-ready: isBr(result) ==> forall(k, string, hasKid(result, k) ==> owned(kid(result, k)) && shape(kid(result, k)))
  ensures kept: ghostsKept()

func (*Tree).Add(t, path, value)
  props C10
  flags safety lockcheck
  requires node: t != nil && allocated(t)
  requires value: good(value)
  requires not-held: above(t) && !mine[ref(t)]
  requires mineOwned()
  modifies all(Tree.leafBranch), allmaps(map[string]*Tree), ghost(tdep), ghost(tkown), ghost(nd), ghost(mine)
  onlock mine := store(mine, ref(lockee), true)
  onunlock mine := store(mine, ref(lockee), false)
  before newBranch nd := tdep[ref(t)] + 1
  before newBranch tkown := store(tkown, ref(kids(t)), ref(t))
  before newBranch assert absent: locked(t.mu) && isBr(t) && !hasKid(t, path[0])
  before (*Tree).Add assert coupled: locked(t.mu) && mine[ref(t)] && hasKid(t, path[0]) && kid(t, path[0]) == arg0
  ensures released: sameMine()
  ensures ancestors-untouched: mineKept()
  ensures ghosts-kept: ghostsKept()

func (*Tree).Get(t, path)
  props C10
  flags safety lockcheck
  requires node: t != nil && allocated(t)
  requires not-held: above(t) && !mine[ref(t)]
  modifies ghost(mine), all(Tree.leafBranch), allmaps(map[string]*Tree)
  onlock mine := store(mine, ref(lockee), true)
  onunlock mine := store(mine, ref(lockee), false)
  before (*Tree).Get assert coupled: locked(t.mu) && mine[ref(t)] && hasKid(t, path[0]) && kid(t, path[0]) == arg0
  ensures released: sameMine()

func (*Tree).queryInternal(t, prefix, path, f)
  props C10
  flags safety lockcheck
  requires node: t != nil && allocated(t)
  requires not-held: above(t) && !mine[ref(t)]
  requires callback: f != nil
  requires mineOwned()
  modifies ghost(mine), all(Tree.leafBranch), allmaps(map[string]*Tree), allelems(string)
  onlock mine := store(mine, ref(lockee), true)
  onunlock mine := store(mine, ref(lockee), false)
  before (*Tree).queryInternal assert coupled: locked(t.mu) && mine[ref(t)] && hasKid(t, path[0]) && kid(t, path[0]) == arg0
  ensures released: sameMine()
  ensures ancestors-untouched: mineKept()

func (*Tree).enumerateChildren(t, prefix, path, f)
  props C10
  flags safety lockcheck
  holds r t.mu
  requires node: t != nil && allocated(t)
  requires held: mine[ref(t)] && owned(t) && shape(t)
  requires above: forall(y, int, mine[y] && y != ref(t) ==> tdep[y] < tdep[ref(t)] && allocated(asptr(y, *Tree)), mine[y])
  requires callback: f != nil
  requires mineOwned()
  modifies ghost(mine), all(Tree.leafBranch), allmaps(map[string]*Tree), allelems(string)
  before (*Tree).queryInternal assert coupled: locked(t.mu) && mine[ref(t)] && exists(k, string, hasKid(t, k) && kid(t, k) == arg0)
  ensures released: sameMine()
  ensures ancestors-untouched: mineKept()
  loop 1
    invariant sameMine() && mineKept()
  loop 2
    invariant sameMine() && mineKept()

callback ctree.VisitFunc(path, l, val)
  requires leaf-of-locked-node: locked(l.mu) && l.leafBranch == val

func (*Tree).walkInternal(t, path, f)
  props C10
  flags safety lockcheck
  requires node: t != nil && allocated(t)
  requires not-held: above(t) && !mine[ref(t)]
  requires callback: f != nil
  requires mineOwned()
  modifies ghost(mine), all(Tree.leafBranch), allmaps(map[string]*Tree)
  onlock mine := store(mine, ref(lockee), true)
  onunlock mine := store(mine, ref(lockee), false)
  before (*Tree).walkInternal assert coupled: locked(t.mu) && mine[ref(t)] && exists(k, string, hasKid(t, k) && kid(t, k) == arg0)
  ensures released: sameMine()
  ensures ancestors-untouched: mineKept()
  loop 1
    invariant mine == store(old(mine), ref(t), true) && mineKept() && owned(t) && shape(t) && isBr(t) && kids(t) == b

func (*Tree).internalDelete(t, path0, condition, f, retDeletedPaths)
  props C10
  flags safety lockcheck noguarantee
  holds w t.mu
  requires node: t != nil && allocated(t)
  requires held: mine[ref(t)] && owned(t) && shape(t)
  requires above: forall(y, int, mine[y] && y != ref(t) ==> tdep[y] < tdep[ref(t)] && allocated(asptr(y, *Tree)), mine[y])
  requires callback: condition != nil && f != nil
  requires mineOwned()
  modifies ghost(mine), all(Tree.leafBranch), allmaps(map[string]*Tree), allelems([]string), allelems(string)
  onlock mine := store(mine, ref(lockee), true)
  onunlock mine := store(mine, ref(lockee), false)
  before (*Tree).internalDelete assert coupled: locked(t.mu) && mine[ref(t)] && exists(k, string, hasKid(t, k) && kid(t, k) == arg0)
  ensures released: sameMine()
  ensures ancestors-untouched: forall(y, *Tree, old(mine[ref(y)]) && y != t ==> mine[ref(y)] && y.leafBranch == old(y.leafBranch) && forall(k, string, hasKid(y, k) == old(hasKid(y, k)) && (hasKid(y, k) ==> kid(y, k) == old(kid(y, k)))), mine[ref(y)])
  ensures only-removes: t.leafBranch == old(t.leafBranch) && forall(k, string, hasKid(t, k) ==> old(hasKid(t, k)) && kid(t, k) == old(kid(t, k)))
  loop 1
    invariant sameMine() && isBr(t) && t.leafBranch == old(t.leafBranch) && owned(t) && shape(t)
    invariant forall(k, string, hasKid(t, k) ==> old(hasKid(t, k)) && kid(t, k) == old(kid(t, k)))
    invariant forall(y, *Tree, old(mine[ref(y)]) && y != t ==> mine[ref(y)] && y.leafBranch == old(y.leafBranch) && forall(k, string, hasKid(y, k) == old(hasKid(y, k)) && (hasKid(y, k) ==> kid(y, k) == old(kid(y, k)))), mine[ref(y)])
    invariant mineOwned()
  loop 2
    invariant true

func (*Tree).DeleteConditional(t, path, condition)
  props C10
  flags safety lockcheck noguarantee
  requires node: t != nil && allocated(t)
  requires not-held: above(t) && !mine[ref(t)]
  requires callback: condition != nil
  requires mineOwned()
  modifies ghost(mine), all(Tree.leafBranch), allmaps(map[string]*Tree), allelems([]string), allelems(string)
  onlock mine := store(mine, ref(lockee), true)
  onunlock mine := store(mine, ref(lockee), false)
  before (*Tree).internalDelete assert exclusive: locked(t.mu) && arg0 == t
  ensures released: sameMine()

func (*Tree).WalkDeleted(t, path, condition, f)
  props C10
  flags safety lockcheck noguarantee
  requires node: t != nil && allocated(t)
  requires not-held: above(t) && !mine[ref(t)]
  requires callback: condition != nil && f != nil
  requires mineOwned()
  modifies ghost(mine), all(Tree.leafBranch), allmaps(map[string]*Tree), allelems([]string), allelems(string)
  onlock mine := store(mine, ref(lockee), true)
  onunlock mine := store(mine, ref(lockee), false)
  before (*Tree).internalDelete assert exclusive: locked(t.mu) && arg0 == t
  ensures released: sameMine()

func (*Tree).Delete(t, path)
  props C10
  flags safety lockcheck noguarantee
  requires node: t != nil && allocated(t)
  requires not-held: above(t) && !mine[ref(t)]
  requires mineOwned()
  modifies ghost(mine), all(Tree.leafBranch), allmaps(map[string]*Tree), allelems([]string), allelems(string)
  ensures released: sameMine()

func (*Tree).Query(t, path, f)
  props C10
  flags safety lockcheck
  requires node: t != nil && allocated(t)
  requires not-held: above(t) && !mine[ref(t)]
  requires callback: f != nil
  requires mineOwned()
  modifies ghost(mine), all(Tree.leafBranch), allmaps(map[string]*Tree), allelems(string)
  ensures released: sameMine()

func (*Tree).Walk(t, f)
  props C10
  flags safety lockcheck
  requires node: t != nil && allocated(t)
  requires not-held: above(t) && !mine[ref(t)]
  requires callback: f != nil
  requires mineOwned()
  modifies ghost(mine), all(Tree.leafBranch), allmaps(map[string]*Tree)
  ensures released: sameMine()

func (*Tree).walkInternalSorted(t, path, f)
  props C10
  flags safety lockcheck
  requires node: t != nil && allocated(t)
  requires not-held: above(t) && !mine[ref(t)]
  requires callback: f != nil
  requires mineOwned()
  modifies ghost(mine), all(Tree.leafBranch), allmaps(map[string]*Tree)
  onlock mine := store(mine, ref(lockee), true)
  onunlock mine := store(mine, ref(lockee), false)
  before (*Tree).walkInternalSorted assert coupled: locked(t.mu) && mine[ref(t)] && exists(k, string, hasKid(t, k) && kid(t, k) == arg0)
  ensures released: sameMine()
  ensures ancestors-untouched: mineKept()
  loop 1
    invariant mine == store(old(mine), ref(t), true) && mineKept() && owned(t) && shape(t) && isBr(t) && kids(t) == b
    invariant isnil(names) || fresh(names)
    invariant forall(j, int, offof(names) <= j && j < offof(names) + len(names) ==> hasKid(t, rawat(names, j)), rawat(names, j))
  loop 2
    invariant mine == store(old(mine), ref(t), true) && mineKept() && owned(t) && shape(t) && isBr(t) && kids(t) == b
    invariant isnil(names) || fresh(names)
    invariant forall(j, int, offof(names) <= j && j < offof(names) + len(names) ==> hasKid(t, rawat(names, j)), rawat(names, j))
extern sort.Strings(a)
  modifies elems(a)
  ensures only: forall(i, int, offof(a) <= i && i < offof(a) + len(a) ==> exists(j, int, offof(a) <= j && j < offof(a) + len(a) && rawat(a, i) == old(rawat(a, j))), rawat(a, i))

func (*Tree).Value(t)
  props C10
  flags safety lockcheck
  requires not-held: t == nil || (allocated(t) && !mine[ref(t)])
  modifies ghost(mine), t.leafBranch, mapof(kids(t))
  onlock mine := store(mine, ref(lockee), true)
  onunlock mine := store(mine, ref(lockee), false)
  ensures released: sameMine()
  ensures value: t != nil && atunlock(!isBr(t)) ==> result == atunlock(t.leafBranch)
func (*Tree).IsBranch(t)
  props C10
  flags safety lockcheck
  requires not-held: t == nil || (allocated(t) && !mine[ref(t)])
  modifies ghost(mine), t.leafBranch, mapof(kids(t))
  onlock mine := store(mine, ref(lockee), true)
  onunlock mine := store(mine, ref(lockee), false)
  ensures released: sameMine()
func (*Tree).Children(t)
  props C10
  flags safety lockcheck
  requires not-held: t == nil || (allocated(t) && !mine[ref(t)])
  modifies ghost(mine), t.leafBranch, mapof(kids(t))
  onlock mine := store(mine, ref(lockee), true)
  onunlock mine := store(mine, ref(lockee), false)
  ensures released: sameMine()
  loop 1
    invariant fresh(ret) && mine == store(old(mine), ref(t), true) && isBr(t)
func (*Leaf).Value(l)
  props C10
  flags safety lockcheck
  requires not-held: l == nil || (allocated(l) && !mine[ref(l)])
  modifies ghost(mine), l.leafBranch, mapof(kids(l))
  onlock mine := store(mine, ref(lockee), true)
  onunlock mine := store(mine, ref(lockee), false)
  ensures released: sameMine()
  ensures value: l != nil ==> result == atunlock(l.leafBranch)
func (*Leaf).Update(l, val)
  props C10
  flags safety lockcheck noguarantee
  requires not-held: l != nil && allocated(l) && !mine[ref(l)]
  requires leaf-value: good(val)
  modifies ghost(mine), l.leafBranch, mapof(kids(l))
  onlock mine := store(mine, ref(lockee), true)
  onunlock mine := store(mine, ref(lockee), false)
  ensures released: sameMine()
  ensures value: atunlock(l.leafBranch) == val
