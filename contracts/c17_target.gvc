forprops C17
package target
// proto.Equal is an equivalence on messages; configuration messages are immutable once handed in.
uf pbeq(any, any) bool
axiom pbeq_refl(a any) -- protobuf equality is reflexive (NaN-free messages)
  ensures pbeq(a, a)
  pattern pbeq(a, a)
axiom pbeq_sym(a any, b any) -- protobuf equality is symmetric
  ensures pbeq(a, b) ==> pbeq(b, a)
  pattern pbeq(a, b)
axiom pbeq_trans(a any, b any, c any) -- protobuf equality is transitive
  requires pbeq(a, b) && pbeq(b, c)
  ensures pbeq(a, c)

extern google.golang.org/protobuf/proto.Equal(a, b)
  ensures result == pbeq(a, b)
extern google.golang.org/protobuf/proto.Clone(m)
  ensures pbeq(result, m)

immutable tpb., gpb.

// The view a receiver of the handler calls builds, starting from the empty set.
ghost have SetStr
ghost tgtOf MapSI
ghost reqOf MapSI
ghost ncalls MapSI

// sameT / sameR: equal settings / equal requests as protobuf messages
def sameT(a any, b any) = pbeq(boxed(a, *tpb.Target), boxed(b, *tpb.Target))
def sameR(a any, b any) = pbeq(boxed(a, *gpb.SubscribeRequest), boxed(b, *gpb.SubscribeRequest))

// protobuf equality of messages entails equality of their fields (reflexive, symmetric, transitive: 00_base)
axiom pbeq_target_request(a *tpb.Target, b *tpb.Target) -- equal Target messages have equal request fields
  requires pbeq(boxed(a), boxed(b)) && a != nil && b != nil
  ensures a.Request == b.Request
  pattern pbeq(boxed(a), boxed(b))

def valid(c *tpb.Configuration) = \
  forall(k, string, has(c.Target, k) ==> k != "" && c.Target[k] != nil && \
    len(c.Target[k].Addresses) != 0 && c.Target[k].Request != "" && has(c.Request, c.Target[k].Request))

// the view equals configuration c: exactly its targets, equal settings, equal requests
def views(c *tpb.Configuration) = forall(k, string, viewAt(c, k))
def viewOf(c *tpb.Configuration) = (c == nil ==> forall(k, string, !have[k])) && (c != nil ==> views(c))

// target k keeps its settings and its request between configurations o and n
def same(o *tpb.Configuration, n *tpb.Configuration, k string) = o != nil && has(o.Target, k) && has(n.Target, k) \
     && sameT(o.Target[k], n.Target[k]) && sameR(o.Request[o.Target[k].Request], n.Request[n.Target[k].Request])
def viewAt(c *tpb.Configuration, k string) = (have[k] <==> has(c.Target, k)) && \
   (have[k] ==> sameT(tgtOf[k], c.Target[k]) && sameR(reqOf[k], c.Request[c.Target[k].Request]))

def handlers(c *Config) = c.h.Add != nil && c.h.Update != nil && c.h.Delete != nil

callback target.Config.h.Add(u)
  requires add-only-unknown: !have[u.Name]
  modifies ghost(have), ghost(tgtOf), ghost(reqOf), ghost(ncalls)
  ensures have == store(old(have), u.Name, true)
  ensures tgtOf == store(old(tgtOf), u.Name, ref(u.Target))
  ensures reqOf == store(old(reqOf), u.Name, ref(u.Request))
  ensures ncalls == store(old(ncalls), u.Name, old(ncalls)[u.Name] + 1)

callback target.Config.h.Update(u)
  requires update-only-known: have[u.Name]
  modifies ghost(tgtOf), ghost(reqOf), ghost(ncalls)
  ensures tgtOf == store(old(tgtOf), u.Name, ref(u.Target))
  ensures reqOf == store(old(reqOf), u.Name, ref(u.Request))
  ensures ncalls == store(old(ncalls), u.Name, old(ncalls)[u.Name] + 1)

callback target.Config.h.Delete(name)
  requires delete-only-known: have[name]
  modifies ghost(have), ghost(ncalls)
  ensures have == store(old(have), name, false)
  ensures ncalls == store(old(ncalls), name, old(ncalls)[name] + 1)

guard Config.mu(c)
  fields configuration
  gghost have, tgtOf, reqOf, ncalls
  invariant c.configuration != nil ==> valid(c.configuration)
  invariant handlers(c) ==> viewOf(c.configuration)

func Validate(config)
  props C17
  requires config != nil
  ensures accepts-only-valid: result == nil ==> valid(config)
  ensures rejects-only-invalid: result != nil ==> !valid(config)
  loop 1
    invariant forall(k, string, visited(k) ==> k != "" && config.Target[k] != nil && len(config.Target[k].Addresses) != 0 && config.Target[k].Request != "" && has(config.Request, config.Target[k].Request))

func (*Config).checkRevision(c, cf)
  props C17
  holds w c.mu
  requires cf != nil
  ensures strictly-greater: (result == nil) <==> (c.configuration == nil || cf.Revision > c.configuration.Revision)

func (*Config).handleDiffs(c, config)
  props C17
  holds w c.mu
  requires config != nil && valid(config) && handlers(c)
  requires c.configuration != nil ==> valid(c.configuration)
  requires viewOf(c.configuration)
  use pbeq_refl pbeq_sym pbeq_trans pbeq_target_request
  modifies ghost(have), ghost(tgtOf), ghost(reqOf), ghost(ncalls)
  ensures view-is-new-configuration: views(config)
  ensures silent-when-unchanged: forall(k, string, same(c.configuration, config, k) ==> ncalls[k] == old(ncalls)[k])
  // settings whose request text differs
  loop 1
    bind requestChanged map[string]bool
    invariant forall(k, string, visited(k) ==> ((has(requestChanged, k) && requestChanged[k]) <==> (c.configuration != nil && has(c.configuration.Request, k) && !sameR(c.configuration.Request[k], config.Request[k]))))
    invariant forall(k, string, !visited(k) ==> !has(requestChanged, k))
  loop 2
    bind newTargets map[string]*target.Target
    invariant forall(k, string, (has(newTargets, k) <==> visited(k)) && (visited(k) ==> newTargets[k] == config.Target[k]))
  loop 3
    bind newTargets map[string]*target.Target
    invariant forall(k, string, has(newTargets, k) ==> newTargets[k] == config.Target[k])
    invariant forall(k, string, has(newTargets, k) <==> (has(config.Target, k) && !visited(k)))
    invariant forall(k, string, !visited(k) ==> have[k] == old(have)[k] && tgtOf[k] == old(tgtOf)[k] && reqOf[k] == old(reqOf)[k] && ncalls[k] == old(ncalls)[k])
    invariant forall(k, string, visited(k) ==> viewAt(config, k))
    invariant forall(k, string, visited(k) && same(c.configuration, config, k) ==> ncalls[k] == old(ncalls)[k])
  loop 4
    bind newTargets map[string]*target.Target
    invariant forall(k, string, has(newTargets, k) ==> newTargets[k] == config.Target[k] && has(config.Target, k) && (c.configuration == nil || !has(c.configuration.Target, k)))
    invariant forall(k, string, has(newTargets, k) && !visited(k) ==> !have[k])
    invariant forall(k, string, !has(newTargets, k) || visited(k) ==> viewAt(config, k))
    invariant forall(k, string, same(c.configuration, config, k) ==> ncalls[k] == old(ncalls)[k])

func (*Config).Load(c, config)
  props C17
  requires handlers(c)
  modifies c.configuration, ghost(have), ghost(tgtOf), ghost(reqOf), ghost(ncalls)
  ensures accepted-is-valid-and-newer: result == nil ==> config != nil && valid(config)
  ensures accepted-is-strictly-newer: result == nil ==> atlock(c.configuration) == nil || config.Revision > atlock(c.configuration.Revision)
  ensures accepted-is-current: result == nil ==> c.configuration == config && viewOf(config)
  ensures rejected-changes-nothing: result != nil ==> c.configuration == atlock(c.configuration) && have == atlock(have) && tgtOf == atlock(tgtOf) && reqOf == atlock(reqOf) && ncalls == atlock(ncalls)
  ensures rejects-only-invalid-or-old: result != nil ==> config == nil || !valid(config) || (atlock(c.configuration) != nil && config.Revision <= atlock(c.configuration.Revision))
  ensures unchanged-targets-silent: result == nil ==> forall(k, string, same(atlock(c.configuration), config, k) ==> ncalls[k] == atlock(ncalls)[k])

func (*Config).Current(c)
  props C17
  ensures current-is-last-accepted: pbeq(result, boxed(atlock(c.configuration)))

func NewConfig(h)
  props C17
  ensures starts-empty: result.configuration == nil && result.h == h

func NewConfigWithBase(h, config)
  props C17
  ensures base-valid: result1 == nil && config != nil ==> valid(config)
  ensures base-installed: result1 == nil ==> result0.configuration == config
