forprops C06 C08
package match
// critical sections of the registry lock do not block (flag nonblocking on the trie functions)
level match.Match.mu 0 short
// Abstraction of the trie: reg[x][r][c] - client c is registered below node x at relative path r.
// dep, par, lab: depth, parent and edge label of a node (tree shape); cown, kown: the node owning a map.
ghost live MapIB
ghost dep MapII
ghost par MapII
ghost lab MapIS
ghost cown MapII
ghost kown MapII
ghost reg MapILSA

def sameClients(x *branch) = forall(c, any, reg[ref(x)][lnil()][c] <==> has(x.clients, c))
def sameBelow(x *branch) = forall(k, string, forall(t, List, forall(c, any, reg[ref(x)][lcons(k, t)][c] <==> (has(x.children, k) && reg[ref(x.children[k])][t][c]))))
def shape(x *branch) = forall(k, string, has(x.children, k) ==> x.children[k] != nil && live[ref(x.children[k])] && dep[ref(x.children[k])] == dep[ref(x)] + 1 && par[ref(x.children[k])] == ref(x) && lab[ref(x.children[k])] == k)
def owned(x *branch) = (x.clients != nil ==> cown[ref(x.clients)] == ref(x)) && (x.children != nil ==> kown[ref(x.children)] == ref(x))
def InvN() = forall(x, *branch, live[ref(x)] ==> x != nil && allocated(x), live[ref(x)]) && forall(m, int, cown[m] != 0 ==> allocated(m), cown[m]) && forall(m, int, kown[m] != 0 ==> allocated(m), kown[m])
def InvC(d int) = forall(x, *branch, live[ref(x)] && dep[ref(x)] >= d ==> sameClients(x), live[ref(x)])
def InvB(d int) = forall(x, *branch, live[ref(x)] && dep[ref(x)] >= d ==> sameBelow(x), live[ref(x)])
def InvS(d int) = forall(x, *branch, live[ref(x)] && dep[ref(x)] >= d ==> shape(x), live[ref(x)])
def InvO() = forall(x, *branch, live[ref(x)] ==> owned(x), live[ref(x)])
def other(x *branch, b *branch) = old(live[ref(x)]) && old(dep[ref(x)]) <= old(dep[ref(b)]) && x != b
def keepsReg(b *branch) = forall(x, *branch, other(x, b) ==> reg[ref(x)] == old(reg[ref(x)]), reg[ref(x)])
def keepsFields(b *branch) = forall(x, *branch, other(x, b) ==> x.clients == old(x.clients) && x.children == old(x.children), live[ref(x)])
def keepsKids(b *branch) = forall(x, *branch, other(x, b) ==> forall(k, string, has(x.children, k) == old(has(x.children, k)) && x.children[k] == old(x.children[k])), live[ref(x)])
def keepsClients(b *branch) = forall(x, *branch, other(x, b) ==> forall(c, any, has(x.clients, c) == old(has(x.clients, c))), live[ref(x)])
def keepsShape(b *branch) = forall(x, int, (old(live[x]) ==> dep[x] == old(dep[x]) && par[x] == old(par[x]) && lab[x] == old(lab[x])) && (live[x] && !old(live[x]) ==> dep[x] > dep[ref(b)]) && (old(live[x]) && !live[x] ==> dep[x] > dep[ref(b)]) )
def keepsOwner() = forall(m, int, old(cown[m]) != 0 ==> cown[m] == old(cown[m]), cown[m]) && forall(m, int, old(kown[m]) != 0 ==> kown[m] == old(kown[m]), kown[m])

func (*branch).addQuery(b, query, client)
  props C06 C08
  flags nonblocking
  requires node: live[ref(b)] && b != nil
  requires nodes: InvN()
  requires clients: InvC(dep[ref(b)])
  requires below: InvB(dep[ref(b)])
  requires tree: InvS(dep[ref(b)])
  requires maps: InvO()
  modifies all(branch.clients), all(branch.children), allmaps(map[Client]struct{}), allmaps(map[string]*branch), ghost(live), ghost(dep), ghost(par), ghost(lab), ghost(cown), ghost(kown), ghost(reg)
  before (*branch).addQuery kown := ite(isnil(b.children), kown, store(kown, ref(b.children), ref(b)))
  before (*branch).addQuery reg := ite(live[ref(arg0)], reg, store(reg, ref(arg0), constarr(LSA, constarr(MapAB, false))))
  before (*branch).addQuery dep := ite(live[ref(arg0)], dep, store(dep, ref(arg0), dep[ref(b)] + 1))
  before (*branch).addQuery par := ite(live[ref(arg0)], par, store(par, ref(arg0), ref(b)))
  before (*branch).addQuery lab := ite(live[ref(arg0)], lab, store(lab, ref(arg0), lhd(listof(query))))
  before (*branch).addQuery live := store(live, ref(arg0), true)
  ghostset reg := store(reg, ref(b), store(reg[ref(b)], listof(query), store(reg[ref(b)][listof(query)], client, true)))
  ghostset cown := ite(isnil(b.clients), cown, store(cown, ref(b.clients), ref(b)))
  ghostset kown := ite(isnil(b.children), kown, store(kown, ref(b.children), ref(b)))
  ensures registered: reg[ref(b)] == old(store(reg[ref(b)], listof(query), store(reg[ref(b)][listof(query)], client, true)))
  ensures nodes: InvN()
  ensures clients: InvC(dep[ref(b)])
  ensures below: InvB(dep[ref(b)])
  ensures tree: InvS(dep[ref(b)])
  ensures maps: InvO()
  ensures others-kept: keepsReg(b)
  ensures other-fields-kept: keepsFields(b)
  ensures other-children-kept: keepsKids(b)
  ensures other-clients-kept: keepsClients(b)
  ensures shape-kept: keepsShape(b)
  ensures map-owners-kept: keepsOwner()
  ensures live[ref(b)]

func (*branch).removeQuery(b, query, client)
  props C06 C08
  flags nonblocking
  requires node: live[ref(b)] && b != nil
  requires nodes: InvN()
  requires clients: InvC(dep[ref(b)])
  requires below: InvB(dep[ref(b)])
  requires tree: InvS(dep[ref(b)])
  requires maps: InvO()
  modifies allmaps(map[Client]struct{}), allmaps(map[string]*branch), ghost(live), ghost(dep), ghost(par), ghost(lab), ghost(cown), ghost(kown), ghost(reg)
  ghostset reg := store(reg, ref(b), store(reg[ref(b)], listof(query), store(reg[ref(b)][listof(query)], client, false)))
  ensures unregistered: reg[ref(b)] == old(store(reg[ref(b)], listof(query), store(reg[ref(b)][listof(query)], client, false)))
  ensures empty-no-client-here: result ==> forall(c, any, !reg[ref(b)][lnil()][c])
  ensures empty-no-client-below: result ==> forall(k, string, forall(t, List, forall(c, any, !reg[ref(b)][lcons(k, t)][c])))
  ensures empty-iff-nothing-registered: result ==> forall(r, List, (isnilL(r) || r == lcons(lhd(r), ltl(r))) ==> forall(c, any, !reg[ref(b)][r][c]))
  ensures nodes: InvN()
  ensures clients: InvC(dep[ref(b)])
  ensures below: InvB(dep[ref(b)])
  ensures tree: InvS(dep[ref(b)])
  ensures maps: InvO()
  ensures others-kept: keepsReg(b)
  ensures other-fields-kept: keepsFields(b)
  ensures other-children-kept: keepsKids(b)
  ensures other-clients-kept: keepsClients(b)
  ensures shape-kept: keepsShape(b)
  ensures map-owners-kept: keepsOwner()
  ensures live[ref(b)]

// ---- which registered paths agree with the path of a notification ----
uf compat(List, List) bool
axiom compat_nil_l(r List) -- definition: elements both have
  ensures compat(lnil(), r)
  pattern compat(lnil(), r)
axiom compat_nil_r(p List) -- definition
  ensures compat(p, lnil())
  pattern compat(p, lnil())
axiom compat_cons(a string, s List, b string, t List) -- definition: agree or either is a wildcard, then the rest agrees
  ensures compat(lcons(a, s), lcons(b, t)) == ((a == b || a == "*" || b == "*") && compat(s, t))
  pattern compat(lcons(a, s), lcons(b, t))

// offers[c]: notifications handed to client c
ghost offers MapAI
callback match.Client.Update(c, n)
  flags nonblocking
  modifies ghost(offers)
  ensures offers == store(old(offers), c, old(offers)[c] + 1)

def newly(updated map[Client]struct{}, c any) = has(updated, c) && !old(has(updated, c))
def wanted(b *branch, p List, c any) = exists(r, List, reg[ref(b)][r][c] && compat(p, r))
def offersOnce(updated map[Client]struct{}) = forall(c, any, offers[c] == old(offers[c]) + ite(newly(updated, c), 1, 0), offers[c]) && forall(c, any, old(has(updated, c)) ==> has(updated, c))
def offersWanted(b *branch, p List, updated map[Client]struct{}) = forall(c, any, newly(updated, c) ==> wanted(b, p, c))

func (*branch).update(b, n, path, updated)
  props C06 C08
  flags nonblocking
  use compat_nil_l compat_nil_r compat_cons
  requires node: live[ref(b)] && b != nil
  requires nodes: InvN()
  requires clients: InvC(dep[ref(b)])
  requires below: InvB(dep[ref(b)])
  requires tree: InvS(dep[ref(b)])
  requires maps: InvO()
  requires tracking: updated != nil && cown[ref(updated)] == 0
  modifies mapof(updated), ghost(offers)
  after (*branch).update assert lift: forall(t, List, forall(c, any, reg[ref(arg0)][t][c] ==> reg[ref(b)][lcons(lab[ref(arg0)], t)][c], reg[ref(arg0)][t][c]))
  ensures one-offer-per-client: offersOnce(updated)
  ensures only-agreeing-clients: offersWanted(b, listof(path), updated)
  ensures every-agreeing-client: forall(r, List, (isnilL(r) || r == lcons(lhd(r), ltl(r))) ==> forall(c, any, reg[ref(b)][r][c] && compat(listof(path), r) ==> has(updated, c)))
  loop 1
    invariant offersOnce(updated)
    invariant forall(c, any, newly(updated, c) ==> has(b.clients, c))
    invariant forall(c, any, visited(c) ==> has(updated, c))
  loop 2
    invariant offersOnce(updated)
    invariant offersWanted(b, listof(path), updated)
    invariant forall(c, any, has(b.clients, c) ==> has(updated, c))
    invariant forall(k, string, visited(k) ==> forall(t, List, forall(c, any, reg[ref(b.children[k])][t][c] && compat(lnil(), t) ==> has(updated, c))))
  loop 3
    invariant offersOnce(updated)
    invariant offersWanted(b, listof(path), updated)
    invariant forall(c, any, has(b.clients, c) ==> has(updated, c))
    invariant forall(k, string, visited(k) ==> forall(t, List, forall(c, any, reg[ref(b.children[k])][t][c] && compat(ltl(listof(path)), t) ==> has(updated, c))))
