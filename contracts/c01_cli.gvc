forprops C01
package cmd/gnmi_cli
uf fileOf(string) string
ghost reqOK Bool
ghost parsedReq Int
ghost shown Int
extern os.ReadFile(name)
  ensures result1 == nil ==> string(result0) == fileOf(name)
extern cli.ParseSubscribeProto(p)
extern cli.QueryType(t)
extern cli.QueryDisplay(ctx, q, cfg)
  modifies ghost(shown)
  ensures shown == old(shown) + 1
extern log.Exitf(f, a)

func protoRequestFromFlags()
  props C01
  flags safety
  requires protoFile != nil && reqProto != nil
  ensures inline: *protoFile == "" ==> result1 == nil && result0 == *reqProto
  ensures file: *protoFile != "" && result1 == nil ==> *reqProto == "" && result0 == fileOf(*protoFile)
func executeSubscribe(ctx)
  props C01
  flags safety
  requires protoFile != nil && reqProto != nil && queryType != nil && queryFlag != nil
  modifies any, ghost(reqOK), ghost(parsedReq), ghost(shown)
  requires parsedReq == 0 && shown == 0
  after cli.ParseSubscribeProto reqOK := arg0 == ite(*protoFile != "", fileOf(*protoFile), *reqProto)
  after cli.ParseSubscribeProto parsedReq := ref(result0.SubReq)
  before cli.QueryDisplay assert request-of-the-proto: (*protoFile != "" && fileOf(*protoFile) != "" || *protoFile == "" && *reqProto != "") ==> reqOK && ref(arg1.SubReq) == parsedReq
  before cli.QueryDisplay assert destination-of-the-flags: arg1.Addrs == q.Addrs && arg1.Timeout == q.Timeout && arg1.TLS == q.TLS && arg1.Credentials == q.Credentials
  ensures runs-or-refuses: result == nil ==> shown == 1
