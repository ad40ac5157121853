forprops C01
package client
// ---- what the caching client does to its tree for one notification ----
ghost addP Seq
ghost addV Any
ghost delP Seq
ghost ops Int
ghost passed Int
ghost lastN Any
extern (*ctree.Tree).Add(t, path, value)
  modifies ghost(addP), ghost(addV), ghost(ops)
  ensures addP == seqof(path) && addV == value && ops == old(ops) + 1
extern (*ctree.Tree).Delete(t, path)
  modifies ghost(delP), ghost(ops)
  ensures delP == seqof(path) && ops == old(ops) + 100
callback client.CacheClient.clientHandler(n)
  modifies ghost(passed), ghost(lastN)
  ensures passed == old(passed) + 1 && lastN == n
closeonly CacheClient.synced

func (*CacheClient).defaultHandler(c, n)
  props C01
  flags safety
  requires c != nil && c.Tree != nil && c.BaseClient != nil && c.synced != nil
  requires ops == 0 && passed == 0
  stable closed(c.synced) == closed(c.synced)
  modifies ghost(addP), ghost(addV), ghost(delP), ghost(ops), ghost(passed), ghost(lastN)
  before (*ctree.Tree).Add assert own-tree: arg0 == c.Tree
  before (*ctree.Tree).Delete assert own-tree: arg0 == c.Tree
  ensures update-stored: typeis(n, Update) ==> ops == 1 && addP == seqof(n.(Update).Path) && typeis(addV, TreeVal) && addV.(TreeVal).Val == n.(Update).Val && addV.(TreeVal).TS == n.(Update).TS
  ensures delete-applied: typeis(n, Delete) ==> ops == 100 && delP == seqof(n.(Delete).Path)
  ensures others-change-nothing: !typeis(n, Update) && !typeis(n, Delete) ==> ops == 0
  ensures synced: typeis(n, Sync) ==> closed(c.synced)
  ensures passed-on: (typeis(n, Update) || typeis(n, Delete) || typeis(n, Sync) || typeis(n, Connected)) && c.clientHandler != nil ==> passed == 1 && lastN == n
  ensures errors-end: typeis(n, Error) ==> result != nil
