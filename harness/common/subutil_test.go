package subscribe

import (
	"context"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/path"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	vh "github.com/openconfig/gnmi/verifh"
)

// uMatch is the query relation of the tree (C09).
func uMatch(q, p []string) bool {
	for i, e := range q {
		if i == len(p) {
			return i == len(q)-1 && e == "*"
		}
		if e != "*" && e != p[i] {
			return false
		}
	}
	return true
}

func uIndex(prefix, p *pb.Path) []string {
	out := []string{prefix.GetTarget()}
	if o := prefix.GetOrigin(); o != "" {
		out = append(out, o)
	} else if o := p.GetOrigin(); o != "" {
		out = append(out, o)
	}
	return append(append(out, path.ToStrings(prefix, false)...), path.ToStrings(p, false)...)
}

// uLeaf is the leaf in which update u of n is stored, target first.
func uLeaf(n *pb.Notification, u *pb.Update) []string {
	if n.GetAtomic() {
		return uIndex(n.Prefix, &pb.Path{Origin: u.GetPath().GetOrigin()})
	}
	return uIndex(n.Prefix, u.GetPath())
}

func uKey(p []string) string { return fmt.Sprintf("%q", p) }

func uPath(ns ...string) *pb.Path {
	p := &pb.Path{}
	for _, n := range ns {
		p.Elem = append(p.Elem, &pb.PathElem{Name: n})
	}
	return p
}

func uInt(v int64) *pb.TypedValue {
	return &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: v}}
}

func uSet(tg string, ts, v int64, ns ...string) *pb.Notification {
	return &pb.Notification{Timestamp: ts, Prefix: &pb.Path{Target: tg}, Update: []*pb.Update{{Path: uPath(ns...), Val: uInt(v)}}}
}

func uDel(tg string, ts int64, ns ...string) *pb.Notification {
	return &pb.Notification{Timestamp: ts, Prefix: &pb.Path{Target: tg}, Delete: []*pb.Path{uPath(ns...)}}
}

func uReq(mode pb.SubscriptionList_Mode, prefix *pb.Path, paths ...*pb.Path) *pb.SubscribeRequest {
	sl := &pb.SubscriptionList{Prefix: prefix, Mode: mode}
	for _, p := range paths {
		sl.Subscription = append(sl.Subscription, &pb.Subscription{Path: p})
	}
	return &pb.SubscribeRequest{Request: &pb.SubscribeRequest_Subscribe{Subscribe: sl}}
}

var uPoll = &pb.SubscribeRequest{Request: &pb.SubscribeRequest_Poll{Poll: &pb.Poll{}}}

// uAll is the content of a cache: leaf key -> notification.
func uAll(c *cache.Cache) (map[string]*pb.Notification, map[string][]string) {
	out, ps := map[string]*pb.Notification{}, map[string][]string{}
	c.Query("*", nil, func(p []string, _ *ctree.Leaf, v interface{}) error {
		n := v.(*pb.Notification)
		full := append([]string{n.GetPrefix().GetTarget()}, p...)
		out[uKey(full)], ps[uKey(full)] = n, full
		return nil
	})
	return out, ps
}

func uRespKey(r *pb.SubscribeResponse) (string, bool) {
	if n := r.GetUpdate(); n != nil && len(n.Update) > 0 {
		return uKey(uLeaf(n, n.Update[0])), true
	}
	return "", false
}

func uShow(rs []*pb.SubscribeResponse) string {
	var s []string
	for _, r := range rs {
		s = append(s, fmt.Sprint(r))
	}
	return strings.Join(s, "\n  ")
}

func uKeys(m map[string]*pb.Notification) string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// uServe runs one subscription.
func uServe(s *Server, st *vStream) chan error {
	done := make(chan error, 1)
	go func() { done <- s.Subscribe(st) }()
	return done
}

func uEnd(t *testing.T, done chan error, what string) error {
	select {
	case err := <-done:
		return err
	case <-time.After(30 * time.Second):
		vh.Fail(t, "the call does not end: %s", what)
		return nil
	}
}

func uWait(d time.Duration, cond func() bool) bool {
	for end := time.Now().Add(d); !cond(); time.Sleep(50 * time.Microsecond) {
		if time.Now().After(end) {
			return false
		}
	}
	return true
}

var uBG = context.Background()

// uRandPath encodes names with a random encoding, some of them as key values.
func uRandPath(rd *rand.Rand, ns []string) *pb.Path {
	switch {
	case rd.Intn(5) == 0:
		return &pb.Path{Element: append([]string{}, ns...)}
	case rd.Intn(4) == 0 && len(ns) >= 2:
		p := uPath(ns[:len(ns)-1]...)
		p.Elem[len(p.Elem)-1].Key = map[string]string{"k": ns[len(ns)-1]}
		return p
	}
	return uPath(ns...)
}
