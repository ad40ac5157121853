package subscribe

import (
	"context"
	"errors"
	"fmt"
	"testing"
	"time"

	"github.com/openconfig/gnmi/cache"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	vh "github.com/openconfig/gnmi/verifh"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

type c07User struct{}

type c07ACL struct {
	allow map[string]map[string]bool // user -> target
}

type c07RPC struct {
	a    *c07ACL
	user string
}

func (a *c07ACL) NewRPCACL(ctx context.Context) (RPCACL, error) {
	u, ok := ctx.Value(c07User{}).(string)
	if !ok {
		return nil, errors.New("no user")
	}
	return &c07RPC{a, u}, nil
}
func (a *c07ACL) Check(u, t string) bool { return a.allow[u][t] }
func (r *c07RPC) Check(t string) bool    { return r.a.allow[r.user][t] }

func TestVerifC07(t *testing.T) {
	defer vh.Flush()
	targets := []string{"dev0", "dev1", "dev2"}
	users := []string{"u0", "u1"}
	for i := 0; i < vh.N(1200); i++ {
		rd := vh.Rand("c07", i)
		acl := &c07ACL{allow: map[string]map[string]bool{}}
		for _, u := range users {
			acl.allow[u] = map[string]bool{"*": rd.Intn(3) == 0}
			for _, tg := range targets {
				acl.allow[u][tg] = rd.Intn(2) == 0
			}
		}
		ca := cache.New(targets)
		opts := []Option{WithACL(acl)}
		if rd.Intn(2) == 0 {
			opts = append(opts, WithStats())
		}
		if rd.Intn(2) == 0 {
			opts = append(opts, WithoutDupReport())
		}
		s, _ := NewServer(ca, opts...)
		ca.SetClient(s.Update)
		ts := int64(0)
		var log []string
		change := func() {
			ts++
			tg := targets[rd.Intn(3)]
			var n *pb.Notification
			switch rd.Intn(6) {
			case 0:
				n = uDel(tg, ts, []string{"a", "*", "b"}[rd.Intn(3)])
			case 1:
				n = uSet(tg, ts, ts, "x")
				n.Prefix.Elem = uPath("at").Elem
				n.Atomic = true
			case 2:
				n = uSet(tg, ts, ts, "a", "b")
				n.Update = append(n.Update, uSet(tg, ts, ts, "b", "b").Update...)
				n.Delete = append(n.Delete, uPath("b", "c"))
			default:
				n = uSet(tg, ts, ts, []string{"a", "b"}[rd.Intn(2)], []string{"b", "c"}[rd.Intn(2)])
			}
			log = append(log, fmt.Sprint(n))
			ca.GnmiUpdate(n)
		}
		for k := rd.Intn(8); k > 0; k-- {
			change()
		}
		type sub struct {
			user, target string
			mode         pb.SubscriptionList_Mode
			st           *vStream
			done         chan error
			early        map[string]bool // leaves of the initial content
		}
		var subs []*sub
		for k := 1 + rd.Intn(3); k > 0; k-- {
			u := &sub{user: append(users, "")[rd.Intn(3)], target: append([]string{"*", "*", "*"}, targets...)[rd.Intn(6)], mode: pb.SubscriptionList_Mode(rd.Intn(3)), early: map[string]bool{}}
			ctx := uBG
			if u.user != "" {
				ctx = context.WithValue(ctx, c07User{}, u.user)
			}
			req := uReq(u.mode, &pb.Path{Target: u.target}, uPath(), uPath("a"))
			req.GetSubscribe().UpdatesOnly = u.mode == pb.SubscriptionList_STREAM && rd.Intn(4) == 0
			log = append(log, fmt.Sprintf("user %q: %v", u.user, req))
			all, paths := uAll(ca)
			for key := range all {
				if !req.GetSubscribe().UpdatesOnly {
					u.early[key] = acl.allow[u.user][paths[key][0]] && (u.target == "*" || u.target == paths[key][0])
				}
			}
			u.st = newVStream(ctx, req)
			u.done = uServe(s, u.st)
			subs = append(subs, u)
			fail := func(f string, a ...interface{}) {
				vh.Fail(t, "%s\n acl %v history %q\n responses\n  %s", fmt.Sprintf(f, a...), acl.allow, log, uShow(u.st.responses()))
			}
			refused := func(c codes.Code) {
				err := uEnd(t, u.done, "refused call")
				if status.Code(err) != c {
					fail("user %q target %q: the call ends with %v instead of code %v", u.user, u.target, err, c)
				}
				if len(u.st.responses()) != 0 {
					fail("data sent to a refused caller")
				}
				u.done = nil
				vh.Stat("refused", 1)
			}
			switch {
			case u.user == "":
				refused(codes.Unauthenticated)
			case u.target != "*" && !acl.allow[u.user][u.target]:
				refused(codes.PermissionDenied)
			default:
				if !uWait(20*time.Second, func() bool { return u.st.syncs() > 0 }) {
					fail("no sync_response")
				}
				seen := map[string]bool{}
				for _, r := range u.st.responses() {
					if key, ok := uRespKey(r); ok {
						seen[key] = true
					}
				}
				for key, want := range u.early {
					if want && !seen[key] {
						fail("authorised leaf %s missing from the snapshot", key)
					}
				}
			}
		}
		// streamed changes, then one sentinel per target
		mark := ts
		for k := rd.Intn(10); k > 0; k-- {
			change()
		}
		if rd.Intn(4) == 0 {
			ca.Reset(targets[rd.Intn(3)])
		}
		for _, tg := range targets {
			ts++
			ca.GnmiUpdate(uSet(tg, ts, ts, "zz"))
		}
		_ = mark
		for _, u := range subs {
			fail := func(f string, a ...interface{}) {
				vh.Fail(t, "%s\n acl %v history %q\n responses\n  %s", fmt.Sprintf(f, a...), acl.allow, log, uShow(u.st.responses()))
			}
			if u.done != nil && u.mode == pb.SubscriptionList_STREAM {
				for _, tg := range targets {
					if !acl.allow[u.user][tg] || (u.target != "*" && u.target != tg) {
						continue
					}
					if !uWait(20*time.Second, func() bool {
						for _, r := range u.st.responses() {
							if k, ok := uRespKey(r); ok && k == uKey([]string{tg, "zz"}) {
								return true
							}
						}
						return false
					}) {
						fail("user %q: change of authorised target %q is not delivered", u.user, tg)
					}
				}
				// all authorised content arrived
				last := map[string]int64{}
				for _, r := range u.st.responses() {
					if k, ok := uRespKey(r); ok {
						last[k] = r.GetUpdate().Timestamp
					}
				}
				all, paths := uAll(ca)
				for k, n := range all {
					if p := paths[k]; n.Timestamp > mark && p[1] != "meta" && acl.allow[u.user][p[0]] && (u.target == "*" || u.target == p[0]) && last[k] != n.Timestamp {
						fail("user %q: streamed update of %s at %d is not delivered", u.user, k, n.Timestamp)
					}
				}
			}
			if u.done != nil && u.mode == pb.SubscriptionList_POLL {
				u.st.reqs <- uPoll
				uWait(20*time.Second, func() bool { return u.st.syncs() > 1 })
			}
		}
		if rd.Intn(3) == 0 {
			ca.Remove(targets[rd.Intn(3)])
		}
		time.Sleep(100 * time.Microsecond)
		for _, u := range subs {
			for _, r := range u.st.responses() {
				if n := r.GetUpdate(); n != nil {
					vh.Stat("responses", 1)
					if !acl.allow[u.user][n.GetPrefix().GetTarget()] {
						vh.Fail(t, "user %q receives %v\n acl %v history %q", u.user, r, acl.allow, log)
					}
				}
			}
			u.st.cancel()
			if u.done != nil {
				uEnd(t, u.done, "cancelled call")
			}
		}
		if i < 2 {
			vh.Sample("acl %v: %s", acl.allow, log[len(log)-1])
		}
	}
}
