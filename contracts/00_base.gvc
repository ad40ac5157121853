// Shared vocabulary: assumed contracts on dependencies.
package target

alias google.golang.org/grpc.BidiStreamingClient~gpb.SubscribeRequest~gpb.SubscribeResponse = gpb.GNMI_SubscribeClient
alias google.golang.org/grpc.BidiStreamingServer~gpb.SubscribeRequest~gpb.SubscribeResponse = gpb.GNMI_SubscribeServer
