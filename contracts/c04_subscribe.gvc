forprops C04 C05 C06 C07 C08
package subscribe
alias ctree.Leaf = ctree.Tree
// inq[l]: leaf l was put into the queue of the subscription; nsync: sync markers put into it
ghost inq MapIB
ghost nsync Int
// the leaf being visited; errors and clean ends reported to the RPC
ghost curl Int
ghost nerr Int
ghost nend Int
// poll passes and triggers
ghost passes Int
ghost triggers Int
// registrations made and removed for this subscription, and the arrays they retain
ghost nreg Int
ghost nrem Int
ghost regq MapIB
ghost started Int

// registered[q]: a STREAM subscription feeding queue q is registered
ghost registered MapIB
def isT(v any) = typeis(v, *gpb.Notification)
def noti(v any) = v.(*gpb.Notification)

// ---- index strings (proved for path.ToStrings and path.CompletePath under C19)
uf pbody(*gpb.Path) Seq
def optu(c bool, s string) = ite(c && s != "", unit(s), empty())
def orig(p *gpb.Path) = ite(p == nil, "", p.Origin)
def pidx(p *gpb.Path, prefix bool) = ite(p == nil, empty(), cat(optu(prefix, p.Target), optu(prefix, p.Origin), pbody(p)))
def conflict(pr *gpb.Path, p *gpb.Path) = orig(p) != "" && (orig(pr) != "" || len(pidx(pr, false)) > 0)
def cpath(pr *gpb.Path, p *gpb.Path) = cat(optu(true, orig(pr)), optu(true, orig(p)), pidx(pr, false), pidx(p, false))
uf cpq(*gpb.Path, *gpb.Path) Seq
extern path.ToStrings(p, prefix)
  flags nonblocking
  trusted restates the contract proved under C19
  ensures seqof(result) == pidx(p, prefix) && fresh(result)
extern path.CompletePath(prefix, path)
  trusted restates the contract proved under C19
  ensures (result1 != nil) == conflict(prefix, path)
  ensures result1 == nil ==> seqof(result0) == cpq(prefix, path) && cpq(prefix, path) == cpath(prefix, path)

// ---- queries: visit each selected leaf (proved for the tree under C09)
uf qsel(string, Seq, int) bool
extern (*cache.Cache).Query(c, target, query, fn)
  iterate l *ctree.Leaf
  iterwhere l != nil && qsel(target, seqof(query), ref(l))
  step set curl := ref(l)
  step try fn(query, l, boxed(l))
  iterend forall(l, *ctree.Leaf, l != nil && qsel(target, seqof(query), ref(l)) ==> done[l], done[l])

def reqPrefix(c *streamClient) = c.sr.GetSubscribe().GetPrefix()
def subs(c *streamClient) = c.sr.GetSubscribe().Subscription
def selected(c *streamClient, i int, l *ctree.Leaf) = qsel(c.target, cpq(reqPrefix(c), subs(c)[i].GetPath()), ref(l))

func (*Server).processSubscription(s, c)
  props C04 C05
  flags wirewf
  requires s != nil && c != nil && c.sr.GetSubscribe() != nil && !unsignalled
  requires registered-before-the-walk: c.sr.GetSubscribe().Mode == gpb.SubscriptionList_STREAM ==> registered[ref(c.queue)]
  modifies c.queue.queue, c.queue.coalesced, allmaps(map[interface{}]uint32), allelems(interface{}), ghost(unsignalled), ghost(inq), ghost(nsync), ghost(curl), ghost(nerr), ghost(nend)
  before (*coalesce.Queue).Insert assert own-queue: arg0 == c.queue
  before (*coalesce.Queue).Insert assert one-sync-after-the-leaves: nsync == old(nsync)
  before (*coalesce.Queue).Insert assert only-matching-leaves: typeis(arg1, syncMarker) || typeis(arg1, *ctree.Leaf) && ref(arg1.(*ctree.Leaf)) == curl
  before (*cache.Cache).Query assert own-target: arg1 == c.target
  after (*coalesce.Queue).Insert inq := ite(result1 == nil && typeis(arg1, *ctree.Leaf), store(inq, ref(arg1.(*ctree.Leaf)), true), inq)
  after (*coalesce.Queue).Insert nsync := nsync + ite(result1 == nil && typeis(arg1, syncMarker), 1, 0)
  at (*cache.Cache).Query invariant snapshot: err == nil ==> forall(l, *ctree.Leaf, done[l] ==> inq[ref(l)], inq[ref(l)])
  at (*cache.Cache).Query invariant kept: forall(k, int, pre(inq)[k] ==> inq[k], inq[k])
  at (*cache.Cache).Query invariant no-sync-yet: nsync == old(nsync) && nerr == old(nerr) && nend == old(nend) && !unsignalled
  ensures synced-or-failed: nsync == old(nsync) + 1 && nerr == old(nerr) || nsync == old(nsync) && nerr == old(nerr) + 1
  ensures never-ends-the-call: nend == old(nend)
  ensures complete-before-sync: nsync > old(nsync) && !c.sr.GetSubscribe().GetUpdatesOnly() ==> forall(i, int, 0 <= i && i < len(subs(c)) ==> forall(l, *ctree.Leaf, l != nil && selected(c, i, l) ==> inq[ref(l)], inq[ref(l)]), subs(c)[i])
  ensures consumer-offered-wakeup: !unsignalled
  loop 1
    invariant ok: err == nil && nsync == old(nsync) && nerr == old(nerr) && nend == old(nend) && !unsignalled
    invariant walked: forall(i, int, 0 <= i && i < iter ==> forall(l, *ctree.Leaf, l != nil && selected(c, i, l) ==> inq[ref(l)], inq[ref(l)]), subs(c)[i])

// ---- the match registry (proved for the trie under C06)
// regq[a]: the array a is retained by a registration;  nreg, regp, regc: registrations made,
// their paths and clients;  regf: their removal functions;  removed[f]: f was called
ghost regp MapIQ
ghost regc MapIA
ghost regf MapII
ghost removed MapIB
extern (*match.Match).AddQuery(m, query, client)
  trusted restates the contracts proved under C06; query is retained
  requires own-array: !regq[ref(query)]
  modifies ghost(nreg), ghost(regq), ghost(regf), ghost(regp), ghost(regc)
  ensures nreg == old(nreg) + 1 && regq == store(old(regq), ref(query), true)
  ensures result != nil && regf == store(old(regf), old(nreg), ref(result)) && regp == store(old(regp), old(nreg), seqof(query)) && regc == store(old(regc), old(nreg), client)
callback subscribe.addSubscription$1.remove(f)
  self f
  modifies ghost(removed)
  ensures removed == store(old(removed), ref(f), true)

// the path under which leaf p below prefix pr is announced: target, origin (of the prefix, else
// of p), elements
def rpath(pr *gpb.Path, p *gpb.Path) = cat(optu(true, ite(pr == nil, "", pr.Target)), optu(true, ite(orig(pr) != "", orig(pr), orig(p))), pidx(pr, false), pidx(p, false))
def slots(s *gpb.SubscriptionList, c *matchClient, n0 int, n int) = forall(k, int, n0 <= k && k < n0 + n ==> (!conflict(s.Prefix, s.Subscription[k - n0].GetPath()) ==> regp[k] == rpath(s.Prefix, s.Subscription[k - n0].GetPath())) && typeis(regc[k], *matchClient) && regc[k].(*matchClient) == c, regp[k])

func addSubscription(m, s, c)
  props C04 C06
  flags wirewf merge
  requires m != nil && s != nil && c != nil
  requires forall(a, int, regq[a] ==> allocated(a), regq[a])
  modifies ghost(nreg), ghost(regq), ghost(regf), ghost(regp), ghost(regc), ghost(removed)
  thencall 1
  before (*match.Match).AddQuery assert whole-path: !conflict(s.Prefix, p) ==> seqof(arg1) == rpath(s.Prefix, p)
  ensures one-registration-per-path: nreg == old(nreg) + len(s.Subscription)
  ensures each-path: slots(s, c, old(nreg), len(s.Subscription))
  thenensures all-removed: forall(k, int, nreg - len(s.Subscription) <= k && k < nreg ==> removed[regf[k]], regf[k])
  loop 1
    invariant counted: nreg == old(nreg) + iter && len(removes) == iter && (cap(removes) == 0 || fresh(removes))
    invariant each: slots(s, c, old(nreg), iter)
    invariant kept: forall(k, int, old(nreg) <= k && k < old(nreg) + iter ==> ref(removes[k - old(nreg)]) == regf[k], regf[k])
    invariant forall(a, int, regq[a] ==> allocated(a), regq[a])
func addSubscription$1()
  inline
  loop 1
    invariant forall(k, int, nreg - len(ranged) <= k && k < nreg - len(ranged) + iter ==> removed[ref(ranged[k - (nreg - len(ranged))])], regf[k])

// ---- changes announced to the registry
ghost noffer Int
ghost offp MapIQ
extern (*match.Match).UpdateOnce(m, n, path, updated)
  flags nonblocking
  trusted restates the contracts proved under C06
  modifies mapof(updated), ghost(noffer), ghost(offp)
  ensures noffer == old(noffer) + 1 && offp == store(old(offp), old(noffer), seqof(path))

func matchPath(pr, prefix, p)
  props C04 C06 C08
  flags nonblocking safety wirewf merge
  requires indexed: seqof(prefix) == pidx(pr, true)
  ensures announced-path: seqof(result) == rpath(pr, p)
  ensures own-array: fresh(result) || len(result) == len(prefix)

def ups(n *gpb.Notification, n0 int, m int) = forall(k, int, n0 <= k && k < n0 + m ==> offp[k] == rpath(n.Prefix, n.Update[k - n0].GetPath()), offp[k])
def dels(n *gpb.Notification, n0 int, m int) = forall(k, int, n0 <= k && k < n0 + m ==> offp[k] == rpath(n.Prefix, n.Delete[k - n0]), offp[k])
func UpdateNotification(m, v, n, prefix)
  props C04 C06 C08
  flags nonblocking wirewf
  requires m != nil && n != nil
  requires indexed: seqof(prefix) == pidx(n.Prefix, true)
  modifies ghost(noffer), ghost(offp), allmaps(map[match.Client]struct{})
  before (*match.Match).UpdateOnce assert whole-notification: arg0 == m && arg1 == v
  after subscribe.matchPath assert announced: seqof(result0) == rpath(n.Prefix, arg2)
  ensures once-per-path: noffer == old(noffer) + len(n.Update) + len(n.Delete)
  ensures every-update: ups(n, old(noffer), len(n.Update))
  ensures every-delete: dels(n, old(noffer) + len(n.Update), len(n.Delete))
  loop 1
    invariant noffer == old(noffer) + iter
    invariant ups(n, old(noffer), iter)
  loop 2
    invariant noffer == old(noffer) + len(n.Update) + iter
    invariant ups(n, old(noffer), len(n.Update))
    invariant dels(n, old(noffer) + len(n.Update), iter)

// a registered STREAM client puts each change into its own queue, and never waits
func (matchClient).Update(c, n)
  props C04 C08
  flags nonblocking wirewf
  requires c.q != nil && !unsignalled
  modifies c.q.queue, c.q.coalesced, allmaps(map[interface{}]uint32), allelems(interface{}), ghost(unsignalled)
  before (*coalesce.Queue).Insert assert the-change: arg0 == c.q && arg1 == n
  ensures consumer-offered-wakeup: !unsignalled

// the value read last from a leaf
ghost readv Any
ghost readl Int
extern (*ctree.Leaf).Value(l)
  flags nonblocking
  trusted the value read is whichever the leaf holds at that moment; stored notifications are not nil (C02)
  modifies ghost(readv), ghost(readl)
  ensures result == readv && readl == ref(l)
  ensures isT(result) ==> noti(result) != nil

func (*Server).Update(s, n)
  props C04 C08
  flags nonblocking wirewf
  requires s != nil && n != nil && s.m != nil
  modifies ghost(noffer), ghost(offp), ghost(readv), ghost(readl), allmaps(map[match.Client]struct{})
  before subscribe.UpdateNotification assert the-leaf-itself: arg0 == s.m && arg1 == boxed(n) && arg2 == noti(readv) && readl == ref(n)
  ensures announced: isT(readv) && noti(readv) != nil ==> noffer == old(noffer) + len(noti(readv).Update) + len(noti(readv).Delete)

// ---- one poll pass per trigger
// canend: the stream may end successfully (trigger stream ended, queue closed and drained, or the
// only target deleted)
ghost canend Bool
event send streamClient.errC(c, v)
  requires ends-only-when-done: v == nil ==> canend
  ghostset nerr := nerr + ite(v != nil, 1, 0)
  ghostset nend := nend + ite(v == nil, 1, 0)
callback gpb.GNMI_SubscribeServer.Recv(self)
  ensures result1 != nil ==> result0 == nil

func (*Server).processPollingSubscription(s, c)
  props C05
  flags wirewf
  requires s != nil && c != nil && c.queue != nil && c.stream != nil && c.sr.GetSubscribe() != nil && !unsignalled && !canend && c.sr.GetSubscribe().Mode == gpb.SubscriptionList_POLL
  modifies c.queue.queue, c.queue.coalesced, allmaps(map[interface{}]uint32), allelems(interface{}), ghost(unsignalled), ghost(inq), ghost(nsync), ghost(curl), ghost(nerr), ghost(nend), ghost(passes), ghost(triggers), ghost(canend)
  before (*Server).processSubscription assert own-subscription: arg0 == s && arg1 == c
  after (*Server).processSubscription passes := passes + 1
  before gpb.GNMI_SubscribeServer.Recv assert answered-before-next: arg0 == c.stream && passes - old(passes) == triggers - old(triggers) + 1
  after gpb.GNMI_SubscribeServer.Recv triggers := triggers + ite(result1 == nil, 1, 0)
  after gpb.GNMI_SubscribeServer.Recv canend := result1 == io.EOF
  after (*coalesce.Queue).IsClosed canend := result0
  ensures every-trigger-answered: passes - old(passes) == triggers - old(triggers) + 1
  loop 1
    invariant answered: passes - old(passes) == triggers - old(triggers) + 1 && !unsignalled

// a ONCE subscription: the walk, then the queue is closed so that the stream ends once drained
func (*Server).Subscribe$1()
  props C05
  flags wirewf
  requires s != nil && c.queue != nil && c.queue.closed != nil && c.sr.GetSubscribe() != nil && !unsignalled && c.sr.GetSubscribe().Mode == gpb.SubscriptionList_ONCE
  modifies c.queue.queue, c.queue.coalesced, allmaps(map[interface{}]uint32), allelems(interface{}), ghost(unsignalled), ghost(inq), ghost(nsync), ghost(curl), ghost(nerr), ghost(nend)
  before (*coalesce.Queue).Close assert closed-after-the-walk: arg0 == c.queue && (nsync == old(nsync) + 1 || nerr == old(nerr) + 1)
  ensures walked-once: nsync == old(nsync) + 1 && nerr == old(nerr) || nsync == old(nsync) && nerr == old(nerr) + 1
  ensures closed: closed(c.queue.closed)

// ---- sending: what is sent, when, and to whom it may be sent
// armed: the send timer runs, with duration armedFor;  sentN: responses sent
ghost armed Bool
ghost armedFor Int
ghost sentN Int
extern time.NewTimer(d)
  modifies ghost(armed), ghost(armedFor)
  ensures result != nil && fresh(result) && armed && armedFor == int(d)
extern (*time.Timer).Reset(t, d)
  modifies ghost(armed), ghost(armedFor)
  ensures armed && armedFor == int(d)
extern (*time.Timer).Stop(t)
  modifies ghost(armed)
  ensures !armed
uf permits(any, string) bool
callback subscribe.RPCACL.Check(self, target)
  ensures result == permits(self, target)
uf clonedFrom(int) int
extern google.golang.org/protobuf/proto.Clone(m)
  trusted a clone is a separate message with equal contents (only what the proofs use is listed)
  ensures typeis(m, *gpb.Notification) ==> typeis(result, *gpb.Notification) && noti(result) != nil && fresh(noti(result)) && clonedFrom(ref(noti(result))) == ref(noti(m))
  ensures typeis(m, *gpb.Notification) && noti(m) != nil ==> (noti(result).Prefix == nil) == (noti(m).Prefix == nil) && noti(result).Prefix.GetTarget() == noti(m).Prefix.GetTarget()
  ensures typeis(m, *gpb.Notification) && noti(m) != nil ==> len(noti(result).Update) == len(noti(m).Update) && fresh(noti(result).Update) && forall(i, int, 0 <= i && i < len(noti(m).Update) ==> noti(result).Update[i] != nil && fresh(noti(result).Update[i]), noti(result).Update[i])

def ntf(r *gpb.SubscribeResponse) = r.Response.(*gpb.SubscribeResponse_Update).Update
// carries(r, n): the response r carries the notification n, or a copy of it
def carries(r *gpb.SubscribeResponse, n *gpb.Notification) = typeis(r.Response, *gpb.SubscribeResponse_Update) && r.Response.(*gpb.SubscribeResponse_Update) != nil && (ntf(r) == n || clonedFrom(ref(ntf(r))) == ref(n))

func (*Server).MakeSubscribeResponse(s, n, dup)
  props C04 C05 C07 C08
  flags wirewf safety
  requires s != nil
  requires a-notification-not-nil: isT(n) ==> noti(n) != nil
  ensures only-notifications: (result1 == nil) == isT(n)
  ensures carries-the-notification: result1 == nil ==> result0 != nil && carries(result0, noti(n)) && ntf(result0) != nil
  ensures same-target: result1 == nil ==> (ntf(result0).Prefix == nil) == (noti(n).Prefix == nil) && ntf(result0).Prefix.GetTarget() == noti(n).Prefix.GetTarget()
  ensures duplicates-reported: result1 == nil && !s.o.noDupReport && dup > 0 && len(noti(n).Update) > 0 ==> fresh(ntf(result0)) && ntf(result0).Update[0].Duplicates == dup
  ensures shared-one-otherwise: result1 == nil && !(!s.o.noDupReport && dup > 0 && len(noti(n).Update) > 0) ==> ntf(result0) == noti(n)

callback gpb.GNMI_SubscribeServer.Send(self, m)
  requires timed: armed
  modifies ghost(sentN)
  ensures sentN == old(sentN) + 1
callback subscribe.options.flowControlTest()

func (*Server).send(s, r, response)
  props C04 C05 C07 C08
  requires s != nil && r != nil && r.t != nil && r.stream != nil
  modifies ghost(armed), ghost(armedFor), ghost(sentN)
  before gpb.GNMI_SubscribeServer.Send assert within-the-timeout: armedFor == s.o.timeout
  before gpb.GNMI_SubscribeServer.Send assert that-response: arg0 == r.stream && arg1 == response
  ensures sent: sentN == old(sentN) + 1
  ensures timer-stopped: !armed

def denied(c *streamClient, n *gpb.Notification) = n.Prefix != nil && !permits(c.acl, n.Prefix.GetTarget())

func (*Server).sendSubscribeResponse(s, r, c)
  props C04 C05 C07 C08
  flags wirewf
  requires s != nil && c != nil && c.acl != nil && r != nil && r.n != nil && r.t != nil && r.stream != nil && !armed
  modifies ghost(armed), ghost(armedFor), ghost(sentN), ghost(readv), ghost(readl)
  before (*Server).MakeSubscribeResponse assert value-just-read: arg1 == readv && readl == ref(r.n) && arg2 == r.dup
  before (*Server).send assert latest-value: arg1 == r && carries(arg2, noti(readv)) && readl == ref(r.n) && isT(readv)
  before (*Server).send assert never-denied: !denied(c, noti(readv)) && !denied(c, ntf(arg2))
  before (*Server).send assert duplicates: !s.o.noDupReport && r.dup > 0 && len(noti(readv).Update) > 0 ==> ntf(arg2).Update[0].Duplicates == r.dup
  ensures delivered-unless-denied: result == nil ==> readl == ref(r.n) && isT(readv) && (sentN == old(sentN) + 1 || sentN == old(sentN) && denied(c, noti(readv)))
  ensures at-most-one: sentN <= old(sentN) + 1
  ensures timer-stopped: !armed

// theacl: the per-call ACL;  aclfail, denial: it could not be established; a check was negative
ghost theacl Any
ghost aclfail Bool
ghost denial Bool
callback gpb.GNMI_SubscribeServer.Context(self)
  ensures result != nil
// owed: the queue item obtained last is still to be sent
ghost owed Bool
ghost owedv Any
ghost owedn Int
def tdel(v any) = cat(pidx(noti(v).Prefix, false), pidx(noti(v).Delete[0], false))
def targetDelete(v any) = isT(v) && len(noti(v).Delete) == 1 && orig(noti(v).Prefix) == "" && len(tdel(v)) == 1 && nth(tdel(v), 0) == "*"
func isTargetDelete(l)
  props C04 C05
  flags wirewf merge
  requires l != nil
  modifies ghost(readv), ghost(readl)
  ensures readl == ref(l)
  ensures result == targetDelete(readv)

func (*Server).sendStreamingResults(s, c)
  props C04 C05 C07 C08
  flags wirewf
  requires s != nil && c != nil && c.queue != nil && c.stream != nil && c.acl != nil && !canend && !owed && !armed
  requires the-acl-of-the-call: s.o.acl != nil ==> c.acl == theacl
  requires single-target-authorised: s.o.acl != nil && c.target != "*" ==> permits(c.acl, c.target)
  modifies c.queue.queue, c.queue.coalesced, allmaps(map[interface{}]uint32), allelems(interface{}), ghost(lenSeen), ghost(closedBeforeLen), ghost(taken), ghost(lastOut), ghost(lastDup), ghost(owed), ghost(owedv), ghost(owedn), ghost(canend), ghost(armed), ghost(armedFor), ghost(sentN), ghost(readv), ghost(readl), ghost(nerr), ghost(nend), any
  before (*coalesce.Queue).Next assert own-queue: arg0 == c.queue
  before (*coalesce.Queue).Next assert each-item-sent-or-denied: !owed
  before (*coalesce.Queue).Next assert no-timeout-while-idle: !armed
  after (*coalesce.Queue).Next owed := result2 == nil
  after (*coalesce.Queue).Next owedv := result0
  after (*coalesce.Queue).Next owedn := result1
  after (*coalesce.Queue).Next canend := result2 == coalesce.errClosedQueue
  before (*Server).send assert sync-for-the-marker: arg2 == subscribeSync && typeis(owedv, syncMarker) && owed && arg1.stream == c.stream
  after (*Server).send owed := ite(result0 == nil, false, owed)
  before (*Server).sendSubscribeResponse assert the-leaf-obtained: owed && typeis(owedv, *ctree.Leaf) && arg1.n == owedv.(*ctree.Leaf) && arg1.dup == owedn && arg1.stream == c.stream && arg2 == c
  after (*Server).sendSubscribeResponse owed := ite(result0 == nil, false, owed)
  after subscribe.isTargetDelete canend := result0 && c.target != "*"
  ensures outcome-reported-once: nerr + nend == old(nerr) + old(nend) + 1
  loop 1
    invariant idle: !owed && !armed && !canend
    invariant unreported: nerr == old(nerr) && nend == old(nend)

// the goroutine that limits the time a send may take
ghost fired Int
event recv time.Timer.C(t)
  ghostset fired := fired + 1
func (*Server).sendStreamingResults$2()
  props C08
  requires c != nil && t != nil
  modifies ghost(fired), ghost(nerr), ghost(nend)
  ensures timeout-ends-with-an-error: nerr == old(nerr) + fired - old(fired) && nend == old(nend)

// ---- the call
// started: goroutines serving the call; regs, unregs: registrations made and removed; qmade,
// qclosed: queues made and closed
ghost regs Int
ghost unregs Int
ghost qmade Int
ghost qclosed Int
goevent (*Server).Subscribe$1 started := started + 1
goevent (*Server).processSubscription started := started + 1
goevent (*Server).processPollingSubscription started := started + 1
goevent (*Server).sendStreamingResults started := started + 1
gostate (*Server).sendStreamingResults owed := false
gostate (*Server).sendStreamingResults armed := false
gostate (*Server).sendStreamingResults canend := false
gostate (*Server).processPollingSubscription canend := false
uf codeOf(any) int
extern google.golang.org/grpc/status.Error(code, msg)
  ensures result != nil && codeOf(result) == int(code)
extern google.golang.org/grpc/status.Errorf(code, format, a)
  ensures result != nil && codeOf(result) == int(code)
callback subscribe.ACL.NewRPCACL(self, ctx)
  modifies ghost(theacl), ghost(aclfail)
  ensures theacl == result0 && aclfail == (result1 != nil)
  ensures result1 == nil ==> result0 != nil
callback subscribe.addSubscription#0()
  modifies ghost(unregs)
  ensures unregs == old(unregs) + 1

extern (*cache.Cache).HasTarget(c, target)
  trusted read only (its result is proved under C02)
extern (*Server).updateTargetCounts(s, target)
  trusted subscription statistics only
  ensures result != nil
extern (*Server).updateTypeCounts(s, typ)
  trusted subscription statistics only
  ensures result != nil

func (*Server).Subscribe(s, stream)
  props C04 C05 C07
  flags wirewf merge
  requires s != nil && stream != nil && s.c != nil && s.m != nil && !unsignalled && !aclfail && !denial
  requires forall(a, int, regq[a] ==> allocated(a), regq[a])
  modifies any, ghost(theacl), ghost(aclfail), ghost(denial), ghost(regs), ghost(unregs), ghost(qmade), ghost(qclosed), ghost(started), ghost(nsync), ghost(registered), ghost(nreg), ghost(regq), ghost(regf), ghost(regp), ghost(regc), ghost(removed), ghost(unsignalled)
  after subscribe.RPCACL.Check denial := denial || !result0
  before subscribe.RPCACL.Check assert checks-the-target: arg0 == c.acl && arg1 == c.target
  before subscribe.ACL.NewRPCACL assert own-context: started == old(started)
  after coalesce.NewQueue qmade := qmade + 1
  after (*coalesce.Queue).Close qclosed := qclosed + 1
  after (*coalesce.Queue).Insert nsync := nsync + ite(result1 == nil && typeis(arg1, syncMarker), 1, 0)
  before (*coalesce.Queue).Insert assert sync-first: typeis(arg1, syncMarker) && c.sr.GetSubscribe().GetUpdatesOnly() && arg0 == c.queue
  before subscribe.addSubscription assert own-subscription: arg0 == s.m && arg1 == c.sr.GetSubscribe() && arg2.q == c.queue && arg2.acl == c.acl && arg2.err == nil
  before subscribe.addSubscription assert sync-before-updates: c.sr.GetSubscribe().GetUpdatesOnly() ==> nsync == old(nsync) + 1
  after subscribe.addSubscription regs := regs + 1
  after subscribe.addSubscription registered := store(registered, ref(arg2.q), true)
  ensures unauthenticated: aclfail ==> codeOf(result) == 16 && started == old(started)
  ensures permission-denied: denial ==> codeOf(result) == 7 && started == old(started)
  ensures unregistered-at-the-end: regs - old(regs) == unregs - old(unregs)
  ensures queue-closed-at-the-end: qmade - old(qmade) == qclosed - old(qclosed)
