forprops C13
package manager
// Session discipline, per target name n:
// sess[n]: 0 no stream, 1 stream established and Connect not reported, 2 Connect reported
// pend[n]: the last message received and not yet reported (reference, 0 none);  over[n]: its stream ended
// owes: this goroutine is a monitor that has not announced its end (closed target.finished)
ghost sess MapSI
ghost pend MapSI
ghost over MapSB
ghost owes Bool
ghost held Int
ghost started Int
// running[n]: a monitor of target n may still report;  ended only by waiting for it
ghost running MapSB
ghost armed Bool
ghost rarmed Bool
ghost nextDelay Int
ghost tries Int
ghost backoffs Int
ghost sawDone MapAB
ghost cancelled MapIB
uf rootctx(context.Context) context.Context
uf cancelOf(int) context.Context

closeonly target.finished
event close target.finished(t)
  requires announces-own-end: owes
  ghostset owes := false
// Remove may wait only after cancelling the monitor it waits for
event recv target.finished(t)
  ghostset running := store(running, t.name, false)
  requires cancels-before-waiting: cancelled[ref(t.cancel)]
event recv context.Context.Done(c)
  ghostset sawDone := store(sawDone, c, true)
event recv time.Timer.C(t)
  ghostset armed := false

def isUpd(r *gpb.SubscribeResponse) = typeis(r.Response, *gpb.SubscribeResponse_Update)
def isSync(r *gpb.SubscribeResponse) = typeis(r.Response, *gpb.SubscribeResponse_SyncResponse)
def reported(k int) = k == 0 || !isUpd(asptr(k, *gpb.SubscribeResponse)) && !isSync(asptr(k, *gpb.SubscribeResponse))

guard Manager.mu(m)
  fields targets
  gghost running
  invariant one-monitor: forall(n, string, running[n] ==> has(m.targets, n), running[n])
  invariant table: m.targets != nil && forall(n, string, has(m.targets, n) ==> m.targets[n] != nil && allocated(m.targets[n]) && m.targets[n].name == n && m.targets[n].finished != nil && m.targets[n].cancel != nil)
guard target.mu(t)
  fields reconnect

// ---- the callbacks: what every report requires of the history before it
callback manager.Manager.connect(n)
  requires silent-after-end: owes
  requires after-first-message: sess[n] == 1 && pend[n] != 0 && !over[n]
  modifies ghost(sess)
  ensures sess == store(old(sess), n, 2)
callback manager.Manager.update(n, u)
  requires silent-after-end: owes
  requires within-session: sess[n] == 2 && !over[n]
  requires stream-order-once: pend[n] != 0 && isUpd(asptr(pend[n], *gpb.SubscribeResponse)) && u == asptr(pend[n], *gpb.SubscribeResponse).GetUpdate()
  modifies ghost(pend)
  ensures pend == store(old(pend), n, 0)
callback manager.Manager.sync(n)
  requires silent-after-end: owes
  requires within-session: sess[n] == 2 && !over[n]
  requires stream-order-once: pend[n] != 0 && isSync(asptr(pend[n], *gpb.SubscribeResponse))
  modifies ghost(pend)
  ensures pend == store(old(pend), n, 0)
callback manager.Manager.reset(n)
  requires silent-after-end: owes
  requires ends-an-ended-stream-once: over[n] && (sess[n] == 1 || sess[n] == 2)
  modifies ghost(sess)
  ensures sess == store(old(sess), n, 0)
callback manager.Manager.connectError(n, e)
  requires silent-after-end: owes
  requires outside-session: sess[n] == 0 && e != nil
callback manager.Manager.monitorError(n, e)
  requires silent-after-end: owes
  requires outside-session: sess[n] == 0 && e != nil
callback manager.Manager.testSync()
callback manager.target.cancel()
  self c
  modifies ghost(cancelled)
  ensures cancelled == store(old(cancelled), ref(c), true)
callback manager.target.reconnect()
  self c
  modifies ghost(cancelled)
  ensures cancelled == store(old(cancelled), ref(c), true)

// ---- dependencies (assumed)
callback gpb.GNMI_SubscribeClient.Recv(sc)
  ensures result1 == nil ==> result0 != nil && allocated(result0)
callback gpb.GNMI_SubscribeClient.Send(sc, r)
callback g.manager.subscribeClient(ctx, conn)
  ensures result1 == nil ==> result0 != nil
callback manager.ConnectionManager.Connection(cm, ctx, addr, dialer)
  modifies ghost(held)
  ensures result2 == nil ==> held == old(held) + 1 && result1 != nil
  ensures result2 != nil ==> held == old(held)
callback (*manager.Manager).createConn#1()
  requires releases-once: held >= 1
  modifies ghost(held)
  ensures held == old(held) - 1
extern context.WithCancel(p)
  ensures result0 != nil && result1 != nil && cancelOf(ref(result1)) == result0 && rootctx(result0) == rootctx(p)
extern context.WithTimeout(p, d)
  ensures result0 != nil && result1 != nil && rootctx(result0) == rootctx(p)
extern google.golang.org/grpc/metadata.NewOutgoingContext(p, md)
  ensures result != nil && rootctx(result) == rootctx(p)
extern time.NewTimer(d)
  ensures result != nil && fresh(result)
extern (time.Duration).Nanoseconds(d)
  ensures result == int(d)
extern strings.Split(a, b)
  ensures b != "" ==> len(result) >= 1
extern (*time.Timer).Reset(t, d)
extern (*time.Timer).Stop(t)
extern github.com/cenkalti/backoff/v4.NewExponentialBackOff()
  ensures result != nil && fresh(result)
extern (*github.com/cenkalti/backoff/v4.ExponentialBackOff).NextBackOff(e)
extern (*github.com/cenkalti/backoff/v4.ExponentialBackOff).Reset(e)

// ---- the manager
func NewManager(cfg)
  props C13
  ensures refuses: result1 != nil <==> isnil(cfg.ConnectionManager)
  ensures handlers: result1 == nil ==> result0 != nil && result0.connect == cfg.Connect && result0.reset == cfg.Reset && result0.sync == cfg.Sync && result0.update == cfg.Update && result0.connectError == cfg.ConnectError && result0.monitorError == cfg.MonitorError && result0.connectionManager == cfg.ConnectionManager && result0.receiveTimeout == cfg.ReceiveTimeout && result0.timeout == cfg.Timeout
  ensures table: result1 == nil ==> result0.targets != nil && len(result0.targets) == 0

func (*Manager).handleGNMIUpdate(m, name, resp)
  props C13
  flags safety wirewf
  requires m != nil && m.update != nil && m.sync != nil && resp != nil
  requires owes && sess[name] == 2 && !over[name] && pend[name] == ref(resp)
  modifies ghost(pend)
  ensures reported(pend[name])
  ensures forall(n, string, n != name ==> pend[n] == old(pend)[n], pend[n])

func (*Manager).handleUpdates(m, ctx, ta, sc)
  props C13
  flags safety lockcheck
  requires m != nil && ta != nil && ctx != nil && sc != nil
  requires handlers: m.connect != nil && m.update != nil && m.sync != nil && m.reset != nil && m.testSync != nil
  requires owes && sess[ta.name] == 1 && pend[ta.name] == 0 && !over[ta.name]
  modifies ghost(sess), ghost(pend), ghost(over), ghost(rarmed)
  before gpb.GNMI_SubscribeClient.Recv assert all-reported: reported(pend[ta.name]) && !over[ta.name]
  before gpb.GNMI_SubscribeClient.Recv assert receive-timeout-armed: ta.receiveTimeout > 0 ==> rarmed
  after gpb.GNMI_SubscribeClient.Recv pend := store(pend, ta.name, ite(result1 == nil, ref(result0), 0))
  after gpb.GNMI_SubscribeClient.Recv over := store(over, ta.name, result1 != nil)
  after (*time.Timer).Reset rarmed := true
  after (*time.Timer).Stop rarmed := false
  before (*Manager).handleGNMIUpdate assert receive-timeout-stopped: ta.receiveTimeout > 0 ==> !rarmed
  before (*time.Timer).Reset assert receive-timeout: arg1 == ta.receiveTimeout
  ensures ended: result != nil && sess[ta.name] == 0
  ensures others: forall(n, string, n != ta.name ==> sess[n] == old(sess)[n], sess[n])
  loop 1
    invariant session: owes && !over[ta.name] && sess[ta.name] == ite(connected, 2, 1) && reported(pend[ta.name])
    invariant m.connect != nil && m.update != nil && m.sync != nil && m.reset != nil && m.testSync != nil && ta.receiveTimeout == old(ta.receiveTimeout) && (ta.receiveTimeout > 0 ==> recvTimer != nil)
    invariant forall(n, string, n != ta.name ==> sess[n] == old(sess)[n], sess[n])

func (*Manager).subscribe(m, ctx, ta, conn)
  props C13
  flags safety lockcheck
  requires m != nil && ta != nil && ctx != nil && subscribeClient != nil
  requires handlers: m.connect != nil && m.update != nil && m.sync != nil && m.reset != nil && m.testSync != nil
  requires owes && sess[ta.name] == 0
  modifies ghost(sess), ghost(pend), ghost(over), ghost(rarmed), ghost(sawDone)
  before g.manager.subscribeClient assert cancellable: rootctx(arg0) == rootctx(ctx)
  after gpb.GNMI_SubscribeClient.Send sess := ite(result0 == nil, store(sess, ta.name, 1), sess)
  after gpb.GNMI_SubscribeClient.Send pend := store(pend, ta.name, 0)
  after gpb.GNMI_SubscribeClient.Send over := store(over, ta.name, false)
  ensures no-session-left: result != nil && sess[ta.name] == 0
  ensures others: forall(n, string, n != ta.name ==> sess[n] == old(sess)[n], sess[n])

func customizeRequest(target, sr)
  trusted pure transformation of a private clone (checked by the C13 harness)
  ensures result != nil

func gRPCMeta(ctx, addr, t, creds)
  trusted credentials lookup: no session callback is reachable from it

func (*Manager).createConn(m, ctx, name, t)
  props C13
  flags safety lockcheck
  requires m != nil && ctx != nil && m.connectionManager != nil
  modifies ghost(held), ghost(sawDone)
  before manager.ConnectionManager.Connection assert cancellable: rootctx(arg1) == rootctx(ctx)
  ensures holds-one: result2 == nil ==> held == old(held) + 1 && result1 != nil
  ensures holds-none: result2 != nil ==> held == old(held)
  loop 1
    invariant held == old(held) && (itercount() > 0 ==> err != nil)

func (*Manager).monitor(m, ctx, ta)
  props C13
  flags safety lockcheck
  requires m != nil && ta != nil && ctx != nil && subscribeClient != nil && m.connectionManager != nil && held >= 0
  requires handlers: m.connect != nil && m.update != nil && m.sync != nil && m.reset != nil && m.testSync != nil
  requires owes && sess[ta.name] == 0
  modifies ghost(sess), ghost(pend), ghost(over), ghost(rarmed), ghost(held), ghost(sawDone)
  before (*Manager).subscribe assert cancellable: rootctx(arg1) == rootctx(ctx)
  before (*Manager).createConn assert cancellable: rootctx(arg1) == rootctx(ctx)
  ensures no-session-left: result != nil && sess[ta.name] == 0
  ensures releases-connection: held == old(held)
  ensures others: forall(n, string, n != ta.name ==> sess[n] == old(sess)[n], sess[n])

func (*Manager).reconnectCtx(m, ctx, t)
  props C13
  flags safety lockcheck
  requires m != nil && t != nil
  modifies t.reconnect
  ensures result != nil && rootctx(result) == rootctx(ctx)
  ensures can-be-forced: atunlock(t.reconnect != nil && cancelOf(ref(t.reconnect)) == result)

func (*Manager).Reconnect(m, name)
  props C13
  flags safety lockcheck
  requires m != nil
  requires no-deadlock-with-Remove: !owes
  modifies m.targets, allmaps(map[string]*target), all(target.reconnect), ghost(running), ghost(cancelled)

func (*Manager).handleUpdates$1()
  props C13
  flags safety lockcheck
  requires m != nil && ta != nil && ctx != nil && recvTimer != nil
  requires !owes
  modifies m.targets, allmaps(map[string]*target), all(target.reconnect), ghost(running), ghost(cancelled), ghost(sawDone), ghost(armed)
  waits context.Context.Done
gostate (*Manager).handleUpdates$1 owes := false

func (*Manager).retryMonitor(m, ctx, ta)
  props C13
  flags safety lockcheck
  requires m != nil && ta != nil && ctx != nil && subscribeClient != nil && m.connectionManager != nil && held >= 0
  requires handlers: m.connect != nil && m.update != nil && m.sync != nil && m.reset != nil && m.testSync != nil
  requires monitor: owes && sess[ta.name] == 0 && ta.finished != nil && !closed(ta.finished) && cancelOf(ref(ta.cancel)) == ctx
  modifies m.targets, allmaps(map[string]*target), all(target.reconnect), ghost(running), ghost(sess), ghost(pend), ghost(over), ghost(rarmed), ghost(held), ghost(sawDone), ghost(cancelled), ghost(owes), ghost(armed), ghost(nextDelay), ghost(tries), ghost(backoffs)
  stable !closed(ta.finished)
  waits context.Context.Done
  waits time.Timer.C
  after time.NewTimer armed := true
  after (*time.Timer).Reset armed := true
  before (*time.Timer).Reset assert waits-the-backoff: arg1 == nextDelay && backoffs == old(backoffs) + tries - old(tries)
  before (*github.com/cenkalti/backoff/v4.ExponentialBackOff).NextBackOff assert retries-indefinitely: arg0.MaxElapsedTime == 0 && arg0.InitialInterval == RetryBaseDelay && arg0.MaxInterval == RetryMaxDelay
  after (*github.com/cenkalti/backoff/v4.ExponentialBackOff).NextBackOff nextDelay := result0
  after (*github.com/cenkalti/backoff/v4.ExponentialBackOff).NextBackOff backoffs := backoffs + 1
  before (*Manager).monitor assert ends-with-the-target: rootctx(arg1) == rootctx(ctx)
  before (*Manager).monitor assert one-backoff-per-try: backoffs - old(backoffs) == tries - old(tries)
  after (*Manager).monitor tries := tries + 1
  ensures only-when-removed: sawDone[ctx]
  ensures announced: closed(ta.finished) && !owes && sess[ta.name] == 0
  ensures releases-connection: held == old(held)
  loop 1
    invariant session: owes && sess[ta.name] == 0 && held == old(held) && !closed(ta.finished) && ta.finished != nil
    invariant retry-scheduled: armed && backoffs - old(backoffs) == tries - old(tries)
    invariant e != nil && e.MaxElapsedTime == 0 && e.InitialInterval == RetryBaseDelay && e.MaxInterval == RetryMaxDelay
    invariant rootctx(sCtx) == rootctx(ctx) && sCtx != nil && timer != nil
goevent (*Manager).retryMonitor started := started + 1
goevent (*Manager).retryMonitor running := store(running, name, true)
gostate (*Manager).retryMonitor owes := true
gostate (*Manager).retryMonitor sess := store(sess, name, 0)

func (*Manager).Add(m, name, t, sr)
  props C13
  flags safety lockcheck
  requires m != nil && m.connectionManager != nil && subscribeClient != nil && held >= 0
  requires handlers: m.connect != nil && m.update != nil && m.sync != nil && m.reset != nil && m.testSync != nil
  requires !owes
  modifies m.targets, allmaps(map[string]*target), all(target.reconnect), ghost(running), ghost(started)
  ensures duplicate-refused: result == nil ==> !atlock(has(m.targets, name))
  ensures one-monitor-per-target: result == nil ==> !atlock(running[name])
  ensures added: result == nil ==> started == old(started) + 1 && atunlock(has(m.targets, name) && m.targets[name].name == name && m.targets[name].t == t && m.targets[name].sr == sr)
  ensures others-kept: started > old(started) ==> forall(n, string, n != name ==> atunlock(has(m.targets, n)) == atlock(has(m.targets, n)) && atunlock(m.targets[n]) == atlock(m.targets[n]))
  ensures refusal-starts-nothing: result != nil ==> started == old(started)

func (*Manager).Remove(m, name)
  props C13
  flags safety lockcheck
  requires m != nil
  requires !owes
  modifies m.targets, allmaps(map[string]*target), all(target.reconnect), ghost(running), ghost(cancelled)
  ensures unknown-refused: result == nil <==> atlock(has(m.targets, name))
  ensures silent: result == nil ==> atlock(has(m.targets, name)) && closed(atlock(m.targets[name]).finished)
  ensures forgotten: !atunlock(has(m.targets, name))
  ensures others-kept: forall(n, string, n != name ==> atunlock(has(m.targets, n)) == atlock(has(m.targets, n)) && atunlock(m.targets[n]) == atlock(m.targets[n]))
