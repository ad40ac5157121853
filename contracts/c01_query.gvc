forprops C01
package client
// the query a request stands for
func NewQuery(sr)
  props C01
  flags safety wirewf merge
  ensures refuses: result1 == nil ==> sr != nil && typeis(sr.Request, *gpb.SubscribeRequest_Subscribe) && sr.GetSubscribe() != nil && sr.GetSubscribe().Prefix != nil
  ensures same-request: result1 == nil ==> result0.SubReq == sr && result0.Target == sr.GetSubscribe().Prefix.Target && result0.UpdatesOnly == sr.GetSubscribe().UpdatesOnly && result0.Encoding == sr.GetSubscribe().Encoding
  ensures mode: result1 == nil ==> (sr.GetSubscribe().Mode == gpb.SubscriptionList_ONCE ==> result0.Type == Once) && (sr.GetSubscribe().Mode == gpb.SubscriptionList_POLL ==> result0.Type == Poll) && (sr.GetSubscribe().Mode == gpb.SubscriptionList_STREAM ==> result0.Type == Stream)
  ensures queries: result1 == nil ==> len(result0.Queries) == len(sr.GetSubscribe().Subscription)
  requires sr != nil && typeis(sr.Request, *gpb.SubscribeRequest_Subscribe) && sr.GetSubscribe() != nil ==> allocated(sr.GetSubscribe().Subscription)
  loop 1
    invariant len(q.Queries) == iter && (iter == 0 && cap(q.Queries) == 0 || fresh(q.Queries))
