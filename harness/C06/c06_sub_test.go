package subscribe

import (
	"context"
	"fmt"
	"testing"
	"time"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/match"
	"github.com/openconfig/gnmi/path"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	vh "github.com/openconfig/gnmi/verifh"
	"google.golang.org/protobuf/proto"
)

type vClient struct{ n int }

func (c *vClient) Update(interface{}) { c.n++ }

func vAgree(q, p []string) bool {
	for i := 0; i < len(q) && i < len(p); i++ {
		if q[i] != p[i] && q[i] != "*" && p[i] != "*" {
			return false
		}
	}
	return true
}

func vElems(ns []string) *pb.Path {
	p := &pb.Path{}
	for _, n := range ns {
		p.Elem = append(p.Elem, &pb.PathElem{Name: n})
	}
	return p
}

// TestVerifC06SubNotif: UpdateNotification offers a notification at most once to
// each client, whichever of its updates and deletes match whichever subscriptions.
func TestVerifC06SubNotif(t *testing.T) {
	defer vh.Flush()
	alpha := []string{"a", "b", "*"}
	for i := 0; i < vh.N(6000); i++ {
		rd := vh.Rand("c06n", i)
		pth := func(max int) []string {
			p := make([]string, rd.Intn(max+1))
			for i := range p {
				p[i] = alpha[rd.Intn(len(alpha))]
			}
			return p
		}
		m := match.New()
		cs := make([]*vClient, 1+rd.Intn(3))
		qs := make([][][]string, len(cs))
		for ci := range cs {
			cs[ci] = &vClient{}
			for k := rd.Intn(4); k >= 0; k-- {
				q := append([]string{[]string{"t", "*"}[rd.Intn(2)]}, pth(4)...)
				qs[ci] = append(qs[ci], q)
				m.AddQuery(q, cs[ci])
			}
		}
		n := &pb.Notification{Prefix: vElems(pth(2))}
		n.Prefix.Target = "t"
		for k := rd.Intn(4); k > 0; k-- {
			n.Update = append(n.Update, &pb.Update{Path: vElems(pth(3))})
		}
		for k := rd.Intn(3); k > 0; k-- {
			n.Delete = append(n.Delete, vElems(pth(3)))
		}
		n0 := proto.Clone(n)
		UpdateNotification(m, ctree.DetachedLeaf(n), n, path.ToStrings(n.Prefix, true))
		if !proto.Equal(n, n0) {
			vh.Fail(t, "UpdateNotification changed the notification %v to %v", n0, n)
		}
		for ci, c := range cs {
			want := 0
			var ps []*pb.Path
			for _, u := range n.Update {
				ps = append(ps, u.Path)
			}
			ps = append(ps, n.Delete...)
			for _, p := range ps {
				full := append(path.ToStrings(n.Prefix, true), path.ToStrings(p, false)...)
				for _, q := range qs[ci] {
					if vAgree(q, full) {
						want = 1
					}
				}
			}
			if c.n != want {
				vh.Fail(t, "notification %v offered %d times to a client subscribed to %q, want %d", n, c.n, qs[ci], want)
			}
		}
		vh.Stat("notifications", 1)
	}
}

// TestVerifC06SubServer: the subscriptions of one Subscribe call select exactly the
// notifications whose path agrees with one of them, and none after the call ended.
func TestVerifC06SubServer(t *testing.T) {
	defer vh.Flush()
	alpha := []string{"a", "b", "c", "*"}
	for i := 0; i < vh.N(300); i++ {
		rd := vh.Rand("c06s", i)
		pth := func(max int) []string {
			p := make([]string, rd.Intn(max+1))
			for i := range p {
				p[i] = alpha[rd.Intn(len(alpha))]
			}
			if rd.Intn(25) == 0 {
				for len(p) < 24 {
					p = append(p, "a")
				}
			}
			return p
		}
		srv, err := NewServer(cache.New([]string{"t"}))
		if err != nil {
			t.Fatal(err)
		}
		type sub struct {
			st   *vStream
			qs   [][]string
			done chan error
			req  *pb.SubscribeRequest
			base int
		}
		// start one call after another; the registration of each is complete once its sync arrived
		var subs []*sub
		start := func() {
			pre := vElems(pth(2))
			pre.Target = []string{"t", "t", "*"}[rd.Intn(3)]
			orig := []string{"", "", "o"}[rd.Intn(3)]
			preOrig := rd.Intn(2) == 0
			if orig != "" && preOrig {
				pre.Origin = orig
			}
			if orig != "" && !preOrig {
				pre.Elem = nil
			}
			s := &sub{done: make(chan error, 1)}
			sl := &pb.SubscriptionList{Prefix: pre, Mode: pb.SubscriptionList_STREAM, UpdatesOnly: true}
			for k := rd.Intn(4); k >= 0; k-- {
				p := vElems(pth(4))
				if orig != "" && !preOrig {
					p.Origin = orig
				}
				sl.Subscription = append(sl.Subscription, &pb.Subscription{Path: p})
				q := []string{pre.Target}
				if orig != "" {
					q = append(q, orig)
				}
				for _, e := range pre.Elem {
					q = append(q, e.Name)
				}
				for _, e := range p.Elem {
					q = append(q, e.Name)
				}
				s.qs = append(s.qs, q)
			}
			s.req = &pb.SubscribeRequest{Request: &pb.SubscribeRequest_Subscribe{Subscribe: sl}}
			s.st = newVStream(context.Background(), s.req)
			go func() { s.done <- srv.Subscribe(s.st) }()
			for s.st.syncs() == 0 {
				select {
				case <-s.st.notify:
				case err := <-s.done:
					vh.Fail(t, "Subscribe(%v) ended: %v", s.req, err)
				case <-time.After(10 * time.Second):
					vh.Fail(t, "Subscribe(%v): no sync_response", s.req)
				}
			}
			subs = append(subs, s)
		}
		probe := func(p []string) {
			n := &pb.Notification{Timestamp: 1, Prefix: &pb.Path{Target: "t"}, Update: []*pb.Update{{Path: vElems([]string{"probe"}), Val: &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: 1}}}}}
			updated := map[match.Client]struct{}{}
			srv.m.UpdateOnce(ctree.DetachedLeaf(n), p, updated)
			want := 0
			for _, s := range subs {
				for _, q := range s.qs {
					if vAgree(q, p) {
						want++
						break
					}
				}
			}
			if len(updated) != want {
				var l []string
				for _, s := range subs {
					l = append(l, fmt.Sprintf("%v", s.req))
				}
				vh.Fail(t, "update at %q offered to %d of the live subscriptions, want %d; live: %q", p, len(updated), want, l)
			}
		}
		probes := func() {
			for k := 0; k < 25; k++ {
				p := append([]string{[]string{"t", "u", "*"}[rd.Intn(3)]}, pth(5)...)
				if rd.Intn(3) == 0 {
					p = append([]string{"t", "o"}, pth(4)...)
				}
				probe(p)
			}
			for _, s := range subs {
				for _, q := range s.qs {
					probe(q)
				}
			}
		}
		stop := func(k int) {
			s := subs[k]
			s.st.cancel()
			select {
			case <-s.done:
			case <-time.After(10 * time.Second):
				vh.Fail(t, "Subscribe(%v) does not end when its context is cancelled", s.req)
			}
			subs = append(subs[:k:k], subs[k+1:]...)
			for _, q := range s.qs {
				probe(q)
			}
		}
		for k := rd.Intn(3); k >= 0; k-- {
			start()
		}
		probes()
		for len(subs) > 0 {
			stop(rd.Intn(len(subs)))
			probes()
			if rd.Intn(5) == 0 {
				start()
				probes()
			}
		}
		vh.Stat("subscription_lists", 1)
	}
}
