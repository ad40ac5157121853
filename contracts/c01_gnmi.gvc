forprops C01 C18
package client/gnmi
// ---- what one received message delivers: Connected once and first, then every update, then every delete, in order ----
ghost conn Bool
ghost delivered Int
ghost msgs Int
ghost lastMsg Int
def N(msg any) = msg.(*gpb.SubscribeResponse).Response.(*gpb.SubscribeResponse_Update).Update
def isN(msg any) = typeis(msg, *gpb.SubscribeResponse) && typeis(msg.(*gpb.SubscribeResponse).Response, *gpb.SubscribeResponse_Update)
def orig(p *gpb.Path) = ite(p == nil, "", p.Origin)
def targ(p *gpb.Path) = ite(p == nil, "", p.Target)
// the path a client sees: target, origin, elements of the prefix, elements of the path
def hd(pr *gpb.Path, p *gpb.Path) = cat(optu(true, targ(pr)), optu(true, ite(orig(pr) != "", orig(pr), orig(p))), pidx(pr, false))
uf hq(*gpb.Path, *gpb.Path) Seq
axiom hq_def(pr *gpb.Path, p *gpb.Path) -- definition
  ensures hq(pr, p) == hd(pr, p)
uf pq(*gpb.Path) Seq
axiom pq_def(p *gpb.Path) -- definition
  ensures pq(p) == pidx(p, false)

func prefixStrings(prefix, p)
  props C01
  flags safety wirewf
  ensures path: by(hq_def(prefix, p), seqof(result) == hq(prefix, p))
  ensures separate: fresh(result)

func noti(prefix, pp, ts, u)
  props C01
  flags safety wirewf
  ensures delete: u == nil ==> result1 == nil && typeis(result0, client.Delete) && by(pq_def(pp), seqof(result0.(client.Delete).Path) == cat(seqof(prefix), pq(pp))) && result0.(client.Delete).TS == ts
  ensures update: u != nil && result1 == nil && u.Val != nil ==> typeis(result0, client.Update) && by(pq_def(pp), seqof(result0.(client.Update).Path) == cat(seqof(prefix), pq(pp))) && result0.(client.Update).TS == ts && den1(u.Val, result0.(client.Update).Val)
  ensures kind: result1 == nil && u != nil ==> result0 == nil || (typeis(result0, client.Update) && by(pq_def(pp), seqof(result0.(client.Update).Path) == cat(seqof(prefix), pq(pp))))

def rp(pr *gpb.Path, p *gpb.Path) = cat(hq(pr, p), pq(p))
def okP(n any, s []string) = n == nil || (typeis(n, client.Update) && seqof(n.(client.Update).Path) == seqof(s))
// what the k-th delivery of message m has to be (updates first, then deletes)
def nup(m any) = len(N(m).Update)
ghost cur Any
callback client_gnmi.Client.handler(n)
  requires connected-precedes: conn <==> !typeis(n, client.Connected)
  requires update-in-order: isN(cur) && typeis(n, client.Update) ==> delivered < nup(cur) && seqof(n.(client.Update).Path) == rp(N(cur).Prefix, N(cur).Update[delivered].Path)
  requires value: isN(cur) && typeis(n, client.Update) && delivered < nup(cur) && N(cur).Update[delivered].Val != nil ==> den1(N(cur).Update[delivered].Val, n.(client.Update).Val)
  requires delete-in-order: isN(cur) && typeis(n, client.Delete) ==> delivered >= nup(cur) && delivered - nup(cur) < len(N(cur).Delete) && seqof(n.(client.Delete).Path) == rp(N(cur).Prefix, N(cur).Delete[delivered - nup(cur)])
  requires sync-marker: typeis(n, client.Sync) <==> typeis(cur, *gpb.SubscribeResponse) && typeis(cur.(*gpb.SubscribeResponse).Response, *gpb.SubscribeResponse_SyncResponse) && conn
  modifies ghost(conn), ghost(delivered)
  ensures conn
  ensures delivered == old(delivered) + ite(typeis(n, client.Connected), 0, 1)

func (*Client).defaultRecv(c, msg)
  props C01 C18
  flags safety wirewf
  requires c != nil && c.handler != nil && cur == msg && msg != nil && delivered == 0 && conn == c.connected
  requires decoded: (typeis(msg, *gpb.SubscribeResponse) ==> msg.(*gpb.SubscribeResponse) != nil) && (isN(msg) ==> msg.(*gpb.SubscribeResponse).Response.(*gpb.SubscribeResponse_Update) != nil && N(msg) != nil && allocated(N(msg).Update) && allocated(N(msg).Delete))
  modifies c.connected, ghost(conn), ghost(delivered)
  ensures connected: conn && c.connected
  ensures all-delivered: result == nil && isN(msg) ==> delivered == len(N(msg).Update) + len(N(msg).Delete)
  ensures sync-delivered: typeis(msg, *gpb.SubscribeResponse) && typeis(msg.(*gpb.SubscribeResponse).Response, *gpb.SubscribeResponse_SyncResponse) ==> delivered == 1
  ensures stops-after-sync: result == nil && !isN(msg) ==> c.query.Type != client.Poll && c.query.Type != client.Once
  loop 1
    invariant conn && c.connected && delivered == iter && c.handler != nil
  loop 2
    invariant conn && c.connected && delivered == len(n.Update) + iter && c.handler != nil

callback gpb.GNMI_SubscribeClient.Recv(sc)
  ensures result1 == nil ==> result0 != nil && allocated(result0)
callback client_gnmi.Client.recv(m)
  requires the-message-received-once: msgs == 1 && typeis(m, *gpb.SubscribeResponse) && ref(m.(*gpb.SubscribeResponse)) == lastMsg
  modifies ghost(msgs)
  ensures msgs == 0
func (*Client).Recv(c)
  props C01 C18
  flags safety
  requires c != nil && c.sub != nil && c.recv != nil && msgs == 0
  modifies ghost(msgs), ghost(lastMsg)
  after gpb.GNMI_SubscribeClient.Recv msgs := msgs + ite(result1 == nil, 1, 0)
  after gpb.GNMI_SubscribeClient.Recv lastMsg := ref(result0)
  ensures none-lost: msgs == 0
