package cli

import (
	"context"
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/openconfig/gnmi/client"
	gclient "github.com/openconfig/gnmi/client/gnmi"
	"github.com/openconfig/gnmi/ctree"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/testing/fake/testing/grpc/config"
	vh "github.com/openconfig/gnmi/verifh"
	"github.com/openconfig/gnmi/verifh/vmsg"
	"google.golang.org/grpc"
)

type v12Server struct {
	pb.UnimplementedGNMIServer
	mu     sync.Mutex
	script []*pb.SubscribeResponse
	noEnd  bool
}

func (s *v12Server) Subscribe(st pb.GNMI_SubscribeServer) error {
	s.mu.Lock()
	script, poll := s.script, s.noEnd
	s.mu.Unlock()
	if _, err := st.Recv(); err != nil {
		return err
	}
	sync := func() error {
		return st.Send(&pb.SubscribeResponse{Response: &pb.SubscribeResponse_SyncResponse{SyncResponse: true}})
	}
	if poll {
		if err := sync(); err != nil {
			return err
		}
	}
	for _, r := range script {
		if err := st.Send(r); err != nil {
			return err
		}
		if poll {
			if _, err := st.Recv(); err != nil {
				return nil
			}
		}
	}
	if poll {
		for {
			if err := sync(); err != nil {
				return err
			}
			if _, err := st.Recv(); err == io.EOF || err != nil {
				return nil
			}
		}
	}
	return nil
}

func showScript(rs []*pb.SubscribeResponse) string {
	var s []string
	for _, r := range rs {
		s = append(s, fmt.Sprint(r))
	}
	return strings.Join(s, "\n  ")
}

// TestVerifC12CLI: no response stream makes the client or the CLI display panic.
func TestVerifC12CLI(t *testing.T) {
	defer vh.Flush()
	opt, err := config.WithSelfTLSCert()
	if err != nil {
		t.Fatal(err)
	}
	srv := &v12Server{}
	g := grpc.NewServer(opt)
	pb.RegisterGNMIServer(g, srv)
	l, err := net.Listen("tcp", "localhost:0")
	if err != nil {
		t.Fatal(err)
	}
	go g.Serve(l)
	defer g.Stop()
	run := vh.Budget(14 * time.Second)
	for i := 0; run(); i++ {
		rd := vh.Rand("c12k", i)
		var script []*pb.SubscribeResponse
		for k := rd.Intn(10); k >= 0; k-- {
			r := vmsg.SubscribeResponse(rd)
			if r.GetError() != nil && rd.Intn(3) > 0 {
				continue
			}
			script = append(script, r)
			if n := r.GetUpdate(); n != nil && len(n.Update) > 0 && rd.Intn(3) == 0 {
				// revisit a path above, at or below the same leaf
				n = vmsg.Wire(n)
				n.Timestamp += int64(rd.Intn(3)) - 1
				for _, u := range n.Update {
					u.Val = vmsg.Val(rd, 0)
					if e := u.GetPath().GetElem(); len(e) > 0 && rd.Intn(2) == 0 {
						u.Path.Elem = e[:len(e)-1]
					}
				}
				script = append(script, &pb.SubscribeResponse{Response: &pb.SubscribeResponse_Update{Update: n}})
			}
		}
		typ := []client.Type{client.Once, client.Poll, client.Stream}[rd.Intn(3)]
		if typ != client.Poll && rd.Intn(2) == 0 {
			script = append(script, &pb.SubscribeResponse{Response: &pb.SubscribeResponse_SyncResponse{SyncResponse: true}})
		}
		srv.mu.Lock()
		srv.script, srv.noEnd = script, typ == client.Poll
		srv.mu.Unlock()
		q := client.Query{
			Addrs: []string{l.Addr().String()}, Target: "dev", Queries: []client.Path{{"*"}}, Type: typ, Timeout: 5 * time.Second,
			TLS: &tls.Config{InsecureSkipVerify: true},
		}
		ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
		desc := ""
		f := func() {}
		if rd.Intn(4) == 0 {
			desc = "CacheClient"
			f = func() {
				c := client.New()
				c.Subscribe(ctx, q, gclient.Type)
				if typ == client.Poll {
					c.Poll()
				}
				c.WalkSorted(func([]string, *ctree.Leaf, interface{}) error { return nil })
				c.Leaves()
				c.Close()
			}
		} else {
			cfg := &Config{
				DisplayType: []string{"GROUP", "SINGLE", "PROTO", "SHORTPROTO"}[rd.Intn(4)], Timestamp: []string{"", "on", "raw", "2006"}[rd.Intn(4)],
				Count: uint(1 + rd.Intn(4)), Delimiter: "/", DisplayIndent: " ", DisplayPeer: rd.Intn(2) == 0, DisplaySize: rd.Intn(3) == 0, Latency: rd.Intn(3) == 0,
				ClientTypes: []string{gclient.Type}, Display: func([]byte) {},
			}
			desc = fmt.Sprintf("QueryDisplay %v %s timestamp %q", typ, cfg.DisplayType, cfg.Timestamp)
			f = func() { QueryDisplay(ctx, q, cfg) }
		}
		done := make(chan interface{}, 1)
		go func() { done <- vh.NoPanic(f) }()
		select {
		case p := <-done:
			if p != nil {
				vh.Fail(t, "%s panics: %v; responses:\n  %s", desc, p, showScript(script))
			}
		case <-time.After(30 * time.Second):
			vh.Fail(t, "%s does not return; responses:\n  %s", desc, showScript(script))
		}
		cancel()
		vh.Stat("responses", len(script))
		if i < 2 {
			vh.Sample("%s: %v", desc, script[0])
		}
	}
}
