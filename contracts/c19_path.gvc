forprops C01 C18 C19
package path
immutable gpb., elems.*gpb., map[string]string

// ---- the index form of a path, defined by recursion over its elements ----
// skeys(m): the keys of m in alphabetical order; sv(m): their values in that order
uf skeys(map[string]string) Seq
uf sv(map[string]string) Seq
axiom skeys_def(m map[string]string) -- definition: one entry per key
  ensures len(skeys(m)) == len(m)
  ensures forall(i, int, 0 <= i && i < len(m) ==> has(m, nth(skeys(m), i)))
// occurs(s, k): k is an element of s
uf occurs(Seq, string) bool
axiom occurs_snoc(s Seq, v string, k string) -- definition of membership, by recursion on the last element
  ensures occurs(cat(s, unit(v)), k) == (occurs(s, k) || v == k)
  pattern occurs(cat(s, unit(v)), k)
uf sortseq(Seq) Seq
axiom sorted_keys(s Seq, m map[string]string) -- definition of skeys: sorting an enumeration of the keys of m gives skeys(m)
  requires len(s) == len(m) && forall(k, string, has(m, k) ==> occurs(s, k))
  ensures sortseq(s) == skeys(m)
  pattern sortseq(s), skeys(m)
// svpre(m, i): the values of the first i keys of m in order
uf svpre(map[string]string, int) Seq
axiom svpre_0(m map[string]string) -- definition
  ensures svpre(m, 0) == empty()
axiom svpre_step(m map[string]string, i int) -- definition
  requires 0 <= i && i < len(m)
  ensures svpre(m, i+1) == cat(svpre(m, i), unit(m[nth(skeys(m), i)]))
axiom sv_def(m map[string]string) -- definition
  ensures sv(m) == svpre(m, len(m))
// a map with no key / a single key
lemma sv_0(m map[string]string)
  use svpre_0 sv_def
  requires len(m) == 0
  ensures sv(m) == empty()
lemma sv_1(m map[string]string)
  requires len(m) == 1
  ensures forall(k, string, has(m, k) ==> by(svpre_0(m), svpre_step(m, 0), skeys_def(m), sv_def(m), sv(m) == unit(m[k])))

// idx(p, i): the index of the first i elements of p.Elem
uf idx(*gpb.Path, int) Seq
axiom idx_0(p *gpb.Path) -- definition
  ensures idx(p, 0) == empty()
axiom idx_step(p *gpb.Path, i int) -- definition: name, then the key values in key order
  requires p != nil && 0 <= i && i < len(p.Elem)
  ensures p.Elem[i] == nil ==> idx(p, i+1) == cat(idx(p, i), unit(""))
  ensures p.Elem[i] != nil ==> idx(p, i+1) == cat(idx(p, i), unit(p.Elem[i].Name), sv(p.Elem[i].Key))

def optu(c bool, s string) = ite(c && s != "", unit(s), empty())
def body(p *gpb.Path) = ite(len(p.Elem) == 0, seqof(p.Element), idx(p, len(p.Elem)))
// pidx: the index strings of p
def pidx(p *gpb.Path, prefix bool) = ite(p == nil, empty(), cat(optu(prefix, p.Target), optu(prefix, p.Origin), body(p)))

extern sort.Strings(a)
  modifies elems(a)
  ensures seqof(a) == sortseq(old(seqof(a)))

func sortedVals(m)
  props C19
  use occurs_snoc sorted_keys
  ensures values-in-key-order: by(sv_def(m), seqof(result) == sv(m))
  ensures fresh(result)
  loop 1
    bind ks []string
    invariant fresh(ks) && len(ks) == itercount()
    invariant forall(k, string, visited(k) ==> occurs(seqof(ks), k))
  loop 2
    bind vs []string
    invariant by(svpre_0(m), svpre_step(m, iter), skeys_def(m), seqof(vs) == svpre(m, iter))
    invariant fresh(vs) && ref(vs) != ref(ks) && seqof(ks) == pre(seqof(ks))

func ToStrings(p, prefix)
  props C19
  ensures index-form: seqof(result) == pidx(p, prefix)
  ensures fresh(result)
  loop 1
    bind is []string
    invariant fresh(is)
    invariant by(idx_0(p), idx_step(p, iter), sv_0(p.Elem[iter].Key), seqof(is) == cat(optu(prefix, p.Target), optu(prefix, p.Origin), idx(p, iter)))
  loop 2
    bind is []string
    invariant fresh(is)
    invariant itercount() == 0 ==> seqof(is) == pre(seqof(is))
    invariant itercount() > 0 ==> by(sv_1(e.Key), seqof(is) == cat(pre(seqof(is)), sv(e.Key)))

def orig(p *gpb.Path) = ite(p == nil, "", p.Origin)
func CompletePath(prefix, path)
  props C19
  ensures conflicting-origins-rejected: (result1 != nil) == (orig(path) != "" && (orig(prefix) != "" || len(pidx(prefix, false)) > 0))
  ensures prefix-then-path: result1 == nil ==> seqof(result0) == cat(optu(true, orig(prefix)), optu(true, orig(path)), pidx(prefix, false), pidx(path, false))
