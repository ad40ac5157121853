forprops C18
package client

// ---- ghost history of a reconnecting Subscribe ----
// phase: 0 nothing attempted, 1 an attempt has ended and disconnect is due, 2 disconnect reported, 3 reset reported
ghost phase Int
// mine: the context Close cancels;  ownDone: the completion channel of this Subscribe
ghost mine Any
// looked: mine was found live since the last attempt ended (or since the beginning)
ghost looked Bool
// slept: the backoff has been waited for;  nbo: the interval it asked for
ghost slept Bool
ghost nbo Int
ghost sawDone MapAB
ghost cancelled MapIB
ghost innerClosed Bool
ghost over Bool
ghost canc Int
uf cancelOf(int) context.Context
uf rootctx(context.Context) context.Context

closeonly ReconnectClient.subscribeDone
event recv context.Context.Done(c)
  ghostset sawDone := store(sawDone, c, true)
event poll context.Context.Done(c)
  ghostset looked := looked || c == mine
callback context.Context.Err(c)
  modifies ghost(sawDone), ghost(looked)
  ensures result != nil ==> sawDone == store(old(sawDone), c, true) && looked == old(looked)
  ensures result == nil ==> sawDone == old(sawDone) && looked == (old(looked) || c == mine)
  ensures old(sawDone)[c] ==> result != nil
event close ReconnectClient.subscribeDone(p)
  ghostset over := true
// Close may wait for Subscribe only after it made Subscribe end: its context cancelled, its transport closed
event recv ReconnectClient.subscribeDone(p)
  requires transport-closed-before-waiting: innerClosed

guard ReconnectClient.mu(p)
  fields cancel, closed
  invariant exactly-one-cancels: p.closed && p.cancel != nil ==> cancelled[ref(p.cancel)]

callback client.ReconnectClient.cancel()
  self c
  modifies ghost(cancelled)
  ensures cancelled == store(old(cancelled), ref(c), true)
callback context.WithCancel#1()
  self c
  modifies ghost(cancelled)
  ensures cancelled == store(old(cancelled), ref(c), true)
callback client.ReconnectClient.disconnect()
  requires once-per-ended-attempt: phase == 1
  modifies ghost(phase)
  ensures phase == 2
callback client.ReconnectClient.reset()
  requires before-a-retry-once: phase == 2 && slept && looked
  modifies ghost(phase)
  ensures phase == 3
callback client.Client.Subscribe(c, ctx, q, clientType)
callback client.Client.Close(c)
extern context.WithCancel(p)
  ensures result0 != nil && result1 != nil && cancelOf(ref(result1)) == result0 && rootctx(result0) == rootctx(p)
extern github.com/cenkalti/backoff/v4.NewExponentialBackOff()
  ensures result != nil && fresh(result)
extern (*github.com/cenkalti/backoff/v4.ExponentialBackOff).NextBackOff(e)
extern (*github.com/cenkalti/backoff/v4.ExponentialBackOff).Reset(e)
extern time.Sleep(d)

func Reconnect(c, disconnect, reset)
  props C18
  ensures wraps: result != nil && result.Client == c && result.disconnect == disconnect && result.reset == reset && !result.closed && isnil(result.cancel)
  ensures retries-indefinitely: result.backoff != nil && result.backoff.MaxElapsedTime == 0
  ensures retry-interval: result.backoff.InitialInterval == RetryBaseDelay && result.backoff.MaxInterval == RetryMaxDelay

func (*ReconnectClient).Subscribe(p, ctx, q, clientType)
  props C18
  flags safety lockcheck
  requires p != nil && ctx != nil && p.Client != nil && p.backoff != nil
  requires phase == 0 && !looked && !over
  modifies p.subscribeDone, p.cancel, ghost(cancelled), ghost(mine), ghost(sawDone), ghost(phase), ghost(looked), ghost(slept), ghost(nbo), ghost(canc), ghost(over)
  before client.Client.Subscribe assert not-after-close: !over && looked && !sawDone[mine]
  before client.Client.Subscribe assert close-reaches-the-attempt: arg1 == mine && cancelOf(canc) == mine && rootctx(mine) == rootctx(ctx)
  before client.Client.Subscribe assert same-request: arg2 == q
  before client.Client.Subscribe assert reset-before-each-retry: phase == 0 || phase == 3 || (phase == 2 && isnil(p.reset) && slept)
  after context.WithCancel mine := result0
  after client.Client.Subscribe phase := ite(isnil(p.disconnect), 2, 1)
  after client.Client.Subscribe looked := false
  after client.Client.Subscribe slept := false
  after (*github.com/cenkalti/backoff/v4.ExponentialBackOff).NextBackOff nbo := result0
  before time.Sleep assert waits-the-backoff-once: !slept && arg0 == nbo && looked
  after time.Sleep slept := true
  ensures refuses-once-queries: q.Type != Stream && q.Type != Poll ==> result != nil && phase == 0
  ensures ends-only-when-cancelled: q.Type == Stream || q.Type == Poll ==> sawDone[mine]
  ensures every-attempt-disconnected: phase != 1
  ensures announced: q.Type == Stream || q.Type == Poll ==> over
  ensures lets-Close-return: q.Type == Stream || q.Type == Poll ==> closed(p.subscribeDone)
  onunlock canc := ref(p.cancel)
  stable p.subscribeDone != nil ==> !closed(p.subscribeDone)
  loop 1
    invariant history: !over && looked && !sawDone[mine] && (phase == 0 || phase == 3 || (phase == 2 && isnil(p.reset) && slept))
    invariant p.Client != nil && p.backoff != nil && p.subscribeDone != nil && !closed(p.subscribeDone) && cancelOf(canc) == mine
    invariant ctx == mine && rootctx(mine) == rootctx(old(ctx))

func (*ReconnectClient).Close(p)
  props C18
  flags safety lockcheck
  requires p != nil && p.Client != nil && !innerClosed
  modifies p.cancel, p.closed, ghost(cancelled), ghost(innerClosed), ghost(latched)
  onunlock latched := p.closed && (p.cancel != nil ==> cancelled[ref(p.cancel)])
  before client.Client.Close assert context-cancelled-first: latched
  after client.Client.Close innerClosed := true
  ensures closes-the-transport: innerClosed
  ensures closed-for-good: latched
  ensures waits: atlock(p.subscribeDone) != nil ==> closed(atlock(p.subscribeDone))
ghost latched Bool

// ---- the base client ----
// due: a message was received and the close flag not read since;  stop: the flag, when last read, was set
ghost due Bool
ghost stop Bool
ghost lastErr Any
ghost runs MapIB
ghost implClosed MapAB
guard BaseClient.mu(c)
  fields closed, clientImpl

callback client.Impl.Recv(i)
  modifies ghost(due), ghost(lastErr)
  ensures lastErr == result && due == isnil(result)
callback client.Impl.Close(i)
  modifies ghost(implClosed)
  ensures implClosed == store(old(implClosed), i, true)
callback client.Impl.Subscribe(i, ctx, q)

func (*BaseClient).run(c, impl)
  props C18
  flags safety lockcheck
  requires c != nil && impl != nil && !due && !stop
  modifies c.clientImpl, c.closed, ghost(due), ghost(stop), ghost(lastErr), ghost(implClosed)
  onunlock due := false
  onunlock stop := c.closed
  before client.Impl.Recv assert one-message-after-close: !due && !stop
  before client.Impl.Recv assert same-transport: arg0 == impl
  ensures ends-on-close-or-error: stop || lastErr != nil
  ensures reports-failure: result != nil <==> !stop && lastErr != io.EOF && lastErr != ErrStopReading
  ensures error: result != nil ==> result == lastErr && implClosed[impl]
  loop 1
    invariant going: !due && !stop

ghost running Any
extern client.getFirst(ctx, types, input, fn)
  ensures result1 == nil ==> result0 != nil
func (*BaseClient).Subscribe(c, ctx, q, clientType)
  props C18
  flags safety lockcheck
  requires c != nil && ctx != nil && !due && !stop
  modifies c.clientImpl, c.closed, c.query, ghost(due), ghost(stop), ghost(lastErr), ghost(implClosed), ghost(running)
  onunlock running := ite(c.closed, nil, c.clientImpl)
  before (*BaseClient).run assert close-reaches-the-transport: arg1 == running && running != nil
  ensures keeps-going: result == nil ==> stop || lastErr == io.EOF || lastErr == ErrStopReading

func (*BaseClient).Close(c)
  props C18
  flags safety lockcheck
  requires c != nil
  modifies c.clientImpl, c.closed, ghost(implClosed)
  before client.Impl.Close assert the-running-transport: arg0 == c.clientImpl && c.closed
  ensures flagged: atlock(c.clientImpl) != nil ==> atunlock(c.closed) && implClosed[atlock(c.clientImpl)]
  ensures not-started: atlock(c.clientImpl) == nil ==> result == ErrClientInit

func (*ReconnectClient).Poll(p)
  props C18
  flags safety
  requires p != nil && p.Client != nil
callback client.Client.Poll(c)
func (*ReconnectClient).Impl(p)
  props C18
  flags safety
  requires p != nil && p.Client != nil
callback client.Client.Impl(c)
extern client.RegisteredImpls()
extern (client.Query).Validate(q)
