package subscribe

import (
	"context"
	"io"
	"net"
	"sync"

	pb "github.com/openconfig/gnmi/proto/gnmi"
	"google.golang.org/grpc"
	"google.golang.org/grpc/peer"
)

// vStream is an in-memory server stream: requests are scripted, every response
// passed to Send is recorded, and Send can be gated.
type vStream struct {
	grpc.ServerStream
	ctx    context.Context
	cancel context.CancelFunc
	reqs   chan *pb.SubscribeRequest

	mu     sync.Mutex
	got    []*pb.SubscribeResponse
	onSend func(*pb.SubscribeResponse) error
	notify chan struct{}
}

func newVStream(ctx context.Context, reqs ...*pb.SubscribeRequest) *vStream {
	ctx, cancel := context.WithCancel(peer.NewContext(ctx, &peer.Peer{Addr: &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}}))
	s := &vStream{ctx: ctx, cancel: cancel, reqs: make(chan *pb.SubscribeRequest, 64), notify: make(chan struct{}, 1)}
	for _, r := range reqs {
		s.reqs <- r
	}
	return s
}

func (s *vStream) Context() context.Context { return s.ctx }

func (s *vStream) Recv() (*pb.SubscribeRequest, error) {
	select {
	case r, ok := <-s.reqs:
		if !ok {
			return nil, io.EOF
		}
		return r, nil
	case <-s.ctx.Done():
		return nil, s.ctx.Err()
	}
}

func (s *vStream) Send(r *pb.SubscribeResponse) error {
	s.mu.Lock()
	f := s.onSend
	s.mu.Unlock()
	if f != nil {
		if err := f(r); err != nil {
			return err
		}
	}
	s.mu.Lock()
	s.got = append(s.got, r)
	s.mu.Unlock()
	select {
	case s.notify <- struct{}{}:
	default:
	}
	return nil
}

func (s *vStream) responses() []*pb.SubscribeResponse {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*pb.SubscribeResponse(nil), s.got...)
}

func (s *vStream) syncs() int {
	n := 0
	for _, r := range s.responses() {
		if r.GetSyncResponse() {
			n++
		}
	}
	return n
}
