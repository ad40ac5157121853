forprops C16
package connection
// out[c]: unreleased holders of, and requesters waiting for, the connection record c
// cur[c]: c is the record of its address;  failed[c]: its dial failed
// cof[cc]: the record a grpc connection was dialled for;  shut[cc]: it was closed
ghost out MapII
ghost cur MapIB
ghost failed MapIB
ghost cof MapII
ghost shut MapIB

closeonly connection.ready

// the dial publishes either an error or an open connection of its own
event close connection.ready(c)
  requires publishes-an-outcome: c.err == nil ==> c.c != nil && cof[ref(c.c)] == ref(c) && !failed[ref(c)]
  requires publishes-failure: c.err != nil ==> c.c == nil && failed[ref(c)]
event recv connection.ready(c)
  modifies c.c, c.err, ghost(out), ghost(cur), ghost(failed), ghost(cof), ghost(shut)
  assume c.err == nil ==> c.c != nil && cof[ref(c.c)] == ref(c) && !failed[ref(c)]
  assume c.err != nil ==> c.c == nil && failed[ref(c)]

guard Manager.mu(m)
  fields conns
  all all(connection.ref)
  gghost out, cur, failed, shut
  invariant table: m.conns != nil && forall(a, string, has(m.conns, a) ==> m.conns[a] != nil && allocated(m.conns[a]) && m.conns[a].id == a && m.conns[a].ready != nil && cur[ref(m.conns[a])])
  invariant current: forall(c, *connection, cur[ref(c)] ==> allocated(c) && has(m.conns, c.id) && m.conns[c.id] == c && !failed[ref(c)] && c.ref == out[ref(c)] && out[ref(c)] >= 1, cur[ref(c)])
  invariant held-stays: forall(c, *connection, out[ref(c)] >= 1 && !failed[ref(c)] ==> cur[ref(c)], out[ref(c)])
  invariant closed-unheld: forall(k, int, shut[k] ==> allocated(cof[k]) && out[cof[k]] == 0 && !cur[cof[k]], shut[k])
  invariant forall(c, int, out[c] >= 0 && (out[c] >= 1 || cur[c] || failed[c] ==> allocated(c)), out[c])

// closing: only a connection nobody holds, and once
extern (*google.golang.org/grpc.ClientConn).Close(cc)
  requires closes-unheld: out[cof[ref(cc)]] == 0
  requires closes-once: !shut[ref(cc)]
  modifies ghost(shut)
  ensures shut == store(old(shut), ref(cc), true)

callback connection.Dial(ctx, target, opts)
  modifies ghost(cof)
  ensures result1 == nil ==> result0 != nil && fresh(result0) && !shut[ref(result0)]

func newConnection(addr)
  props C16
  ensures fresh(result) && result != nil && result.id == addr && result.ref == 0 && result.c == nil && result.err == nil && result.ready != nil && !closed(result.ready)

func (*Manager).remove(m, addr)
  props C16
  flags lockcheck safety
  holds w m.mu
  requires m != nil
  requires known: has(m.conns, addr) && m.conns[addr] != nil
  requires unheld: m.conns[addr].c != nil ==> out[cof[ref(m.conns[addr].c)]] == 0 && !shut[ref(m.conns[addr].c)]
  modifies mapof(m.conns), ghost(shut), ghost(cur)
  ghostset cur := store(cur, ref(old(m.conns[addr])), false)
  ensures forgotten: !has(m.conns, addr)
  ensures others-kept: forall(a, string, a != addr ==> has(m.conns, a) == old(has(m.conns, a)) && m.conns[a] == old(m.conns[a]))
  ensures cur == store(old(cur), ref(old(m.conns[addr])), false)
  ensures closed: old(m.conns[addr]).c != nil ==> shut == store(old(shut), ref(old(m.conns[addr]).c), true)
  ensures old(m.conns[addr]).c == nil ==> shut == old(shut)

func (*Manager).dial(m, ctx, addr, dialer, c)
  props C16
  flags lockcheck safety
  requires m != nil && c != nil && allocated(c)
  requires own-record: c.id == addr && c.ready != nil && !closed(c.ready) && c.c == nil && c.err == nil
  requires one-dial-per-address: cur[ref(c)] && !failed[ref(c)]
  requires dialers: forall(k, string, has(m.d, k) ==> m.d[k] != nil)
  stable cur[ref(c)] && !failed[ref(c)]
  modifies c.c, c.err, m.conns, all(connection.ref), allmaps(map[string]*connection), ghost(cur), ghost(failed), ghost(cof), ghost(out), ghost(shut)
  after connection.Dial cof := ite(result1 == nil, store(cof, ref(result0), ref(c)), cof)
  onlock failed := store(failed, ref(c), true)
  ensures signalled: closed(c.ready)

func (*connection).done(c, m)
  props C16
  flags lockcheck safety
  requires m != nil && c != nil && allocated(c)
  requires handed-out: c.ready != nil && c.err == nil && c.c != nil && cof[ref(c.c)] == ref(c) && !failed[ref(c)]
  requires held: out[ref(c)] >= 1
  stable out[ref(c)] >= 1 && !failed[ref(c)]
  thencall 2
  onlock released := released + 1
  onlock out := store(out, ref(c), out[ref(c)] - 1)
  ensures result != nil
  thenensures released-once: released == old(released) + 1
  thenensures last-release-closes: handedOut == 0 ==> shut[ref(c.c)]
  thenensures earlier-release-keeps-open: handedOut > 0 ==> !shut[ref(c.c)]
  onunlock handedOut := out[ref(c)]
ghost released Int
ghost handedOut Int

goevent (*Manager).dial cur := store(cur, ref(c), true)

func (*Manager).Connection(m, ctx, addr, dialer)
  props C16
  flags lockcheck safety
  requires m != nil && ctx != nil
  requires dialers: forall(k, string, has(m.d, k) ==> m.d[k] != nil)
  modifies m.conns, all(connection.ref), all(connection.c), all(connection.err), allmaps(map[string]*connection), ghost(cur), ghost(failed), ghost(cof), ghost(out), ghost(shut), ghost(joined)
  onunlock joined := ref(m.conns[addr])
  onunlock out := store(out, ref(m.conns[addr]), out[ref(m.conns[addr])] + 1)
  stable out[joined] >= 1
  ensures shares-the-outcome: joined != old(joined) ==> result2 == asptr(joined, *connection).err && (result2 == nil ==> result0 == asptr(joined, *connection).c)
ghost joined Int
