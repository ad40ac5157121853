package coalesce
// critical sections of the queue mutex do not block (flag nonblocking on each of them)
level coalesce.Queue.Mutex 0 short

// in(s, x): x is an element of s;  dist(s): the elements of s are pairwise different
uf in(SeqA, any) bool
uf dist(SeqA) bool
axiom in_empty(x any) -- definition
  ensures !in(emptyof(any), x)
  pattern in(emptyof(any), x)
axiom in_snoc(s SeqA, v any, x any) -- definition of membership
  ensures in(cat(s, unit(v)), x) == (in(s, x) || v == x)
  pattern in(cat(s, unit(v)), x)
axiom in_cons(v any, s SeqA, x any) -- definition of membership
  ensures in(cat(unit(v), s), x) == (v == x || in(s, x))
  pattern in(cat(unit(v), s), x)
axiom in_unit(v any, x any) -- definition of membership
  ensures in(unit(v), x) == (v == x)
  pattern in(unit(v), x)
axiom dist_empty() -- definition
  ensures dist(emptyof(any))
axiom dist_unit(v any) -- definition
  ensures dist(unit(v))
  pattern dist(unit(v))
axiom dist_snoc(s SeqA, v any) -- definition of distinctness
  ensures dist(cat(s, unit(v))) == (dist(s) && !in(s, v))
  pattern dist(cat(s, unit(v)))
axiom dist_cons(v any, s SeqA) -- definition of distinctness
  ensures dist(cat(unit(v), s)) == (dist(s) && !in(s, v))
  pattern dist(cat(unit(v), s))

// unsignalled: a value was added and no consumer was offered the wake-up token since
ghost unsignalled Bool
// the last length reported, and whether the queue was closed before it was taken
ghost lenSeen Int
// the values taken out of the queue so far, and the last one with its count
ghost taken Int
ghost lastOut Any
ghost lastDup Int
ghost closedBeforeLen Bool
closeonly Queue.closed by Queue.Mutex
event offer Queue.inserted(q)
  ghostset unsignalled := false

guard Queue.Mutex(q)
  fields queue, coalesced
  invariant pending-iff-queued: forall(k, any, has(q.coalesced, k) <==> in(seqof(q.queue), k))
  invariant pending-once: dist(seqof(q.queue))
  invariant q.coalesced != nil

def content(q *Queue) = seqof(q.queue)
def keepsCounts(q *Queue, i any) = forall(k, any, k != i ==> (has(q.coalesced, k) <==> atlock(has(q.coalesced, k))) && q.coalesced[k] == atlock(q.coalesced[k]))

func (*Queue).insert(q, i)
  props C11 C08
  flags lockcheck nonblocking
  use in_empty in_snoc in_cons in_unit dist_empty dist_unit dist_snoc dist_cons
  modifies q.queue, q.coalesced, allmaps(map[interface{}]uint32), allelems(interface{}), ghost(unsignalled)
  ghostset unsignalled := old(unsignalled) || result
  ensures new-value-appended: atlock(!has(q.coalesced, i)) ==> result && content(q) == cat(atlock(content(q)), unit(i)) && q.coalesced[i] == 0
  ensures pending-value-counted: atlock(has(q.coalesced, i)) ==> !result && content(q) == atlock(content(q)) && q.coalesced[i] == atlock(q.coalesced[i]) + 1
  ensures other-counts-kept: keepsCounts(q, i)
  ensures unsignalled == (old(unsignalled) || result)

func (*Queue).next(q)
  props C11 C08
  flags lockcheck nonblocking
  use in_empty in_snoc in_cons in_unit dist_empty dist_unit dist_snoc dist_cons
  modifies q.queue, q.coalesced, allmaps(map[interface{}]uint32), allelems(interface{}), ghost(taken), ghost(lastOut), ghost(lastDup)
  ghostset taken := old(taken) + ite(result2, 1, 0)
  ghostset lastOut := ite(result2, result0, old(lastOut))
  ghostset lastDup := ite(result2, int(result1), old(lastDup))
  ensures taken == old(taken) + ite(result2, 1, 0) && (result2 ==> lastOut == result0 && lastDup == result1)
  ensures delivers-iff-pending: result2 <==> atlock(len(q.queue)) > 0
  ensures delivers-oldest: result2 ==> atlock(content(q)) == cat(unit(result0), content(q))
  ensures delivers-count: result2 ==> result1 == atlock(q.coalesced[result0])
  ensures idle-keeps: !result2 ==> content(q) == atlock(content(q))
  ensures others-kept: result2 ==> forall(k, any, k != result0 ==> (has(q.coalesced, k) <==> atlock(has(q.coalesced, k))) && q.coalesced[k] == atlock(q.coalesced[k]))

func (*Queue).Insert(q, i)
  props C11 C08
  flags lockcheck nonblocking
  requires !unsignalled
  modifies q.queue, q.coalesced, allmaps(map[interface{}]uint32), allelems(interface{}), ghost(unsignalled)
  ensures refused-once-closed: old(closed(q.closed)) ==> result1 != nil
  ensures refused-only-when-closed: result1 != nil ==> closed(q.closed)
  ensures refused-adds-nothing: result1 != nil ==> !result0 && unchanged(q.queue) && unchanged(q.coalesced)
  ensures consumer-offered-wakeup: !unsignalled

func (*Queue).Len(q)
  props C11 C08
  flags lockcheck nonblocking
  modifies ghost(lenSeen), ghost(closedBeforeLen)
  ghostset lenSeen := result
  ghostset closedBeforeLen := old(closed(q.closed))
  ensures pending-count: result == atlock(len(q.queue))
  ensures lenSeen == result && closedBeforeLen == old(closed(q.closed))

// context errors are the context package's own
callback context.Context.Err()
  ensures result != errClosedQueue && result != nil
func (*Queue).Next(q, ctx)
  props C11
  flags lockcheck
  requires ctx != nil
  modifies q.queue, q.coalesced, allmaps(map[interface{}]uint32), allelems(interface{}), ghost(lenSeen), ghost(closedBeforeLen), ghost(taken), ghost(lastOut), ghost(lastDup)
  waits coalesce.Queue.inserted, coalesce.Queue.closed, context.Context.Done
  loop 1
    invariant taken == old(taken)
  ensures delivers-what-it-takes: result2 == nil ==> taken == old(taken) + 1 && result0 == lastOut && result1 == lastDup
  ensures takes-nothing-on-error: result2 != nil ==> taken == old(taken)
  ensures told-closed-only-when-closed: result2 == errClosedQueue ==> closed(q.closed)
  ensures told-closed-only-when-drained: result2 == errClosedQueue ==> closedBeforeLen && lenSeen == 0
  ensures nothing-with-an-error: result2 != nil ==> result0 == nil && result1 == 0

func (*Queue).Close(q)
  props C11
  flags lockcheck safety nonblocking
  requires q != nil && q.closed != nil
  ensures closed-after-close: closed(q.closed)

func (*Queue).IsClosed(q)
  props C11
  ensures reports-closed: result <==> closed(q.closed)

func NewQueue()
  props C11
  ensures starts-empty: len(result.queue) == 0 && !closed(result.closed) && forall(k, any, !has(result.coalesced, k))
  ensures usable: result != nil && fresh(result) && result.closed != nil && result.inserted != nil
  ensures can-hold-a-wakeup: chcap(result.inserted) >= 1
