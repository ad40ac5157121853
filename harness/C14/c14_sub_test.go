package subscribe

import (
	"fmt"
	"testing"
	"testing/synctest"

	"github.com/openconfig/gnmi/cache"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	vh "github.com/openconfig/gnmi/verifh"
)

// TestVerifC14Sub: removing a target ends the single-target streams to it cleanly,
// after its pending changes and delete, and no other; resetting it ends none.
func TestVerifC14Sub(t *testing.T) {
	defer vh.Flush()
	targets := []string{"dev0", "dev1", "dev2"}
	for i := 0; i < vh.N(1200); i++ {
		rd := vh.Rand("c14s", i)
		synctest.Test(t, func(t *testing.T) {
			ca := cache.New(targets)
			s, _ := NewServer(ca)
			ca.SetClient(s.Update)
			ts := int64(0)
			change := func() {
				ts++
				tg := targets[rd.Intn(3)]
				if rd.Intn(4) == 0 {
					n := uDel(tg, ts, []string{"a", "*"}[rd.Intn(2)])
					if rd.Intn(2) == 0 {
						n.Prefix.Origin = "o"
					}
					ca.GnmiUpdate(n)
					return
				}
				n := uSet(tg, ts, ts, "a", []string{"b", "c"}[rd.Intn(2)])
				if rd.Intn(3) == 0 {
					n.Prefix.Origin = "o"
				}
				ca.GnmiUpdate(n)
			}
			for k := rd.Intn(6); k > 0; k-- {
				change()
			}
			type sub struct {
				target string
				st     *vStream
				done   chan error
			}
			var subs []*sub
			for k := 1 + rd.Intn(4); k > 0; k-- {
				u := &sub{target: append([]string{"*"}, targets...)[rd.Intn(4)]}
				u.st = newVStream(uBG, uReq(pb.SubscriptionList_STREAM, &pb.Path{Target: u.target}, []*pb.Path{uPath(), uPath("a"), uPath("*"), uPath("a", "b")}[rd.Intn(4)]))
				u.done = uServe(s, u.st)
				subs = append(subs, u)
			}
			synctest.Wait()
			gone := map[string]bool{}
			for k := 3 + rd.Intn(8); k > 0; k-- {
				what := "change"
				tg := targets[rd.Intn(3)]
				switch rd.Intn(6) {
				case 0:
					what = "Remove " + tg
					ca.Remove(tg)
					gone[tg] = true
				case 1:
					what = "Reset " + tg
					ca.Reset(tg)
				default:
					change()
				}
				synctest.Wait()
				for _, u := range subs {
					if u.done == nil {
						continue
					}
					select {
					case err := <-u.done:
						if !gone[u.target] {
							vh.Fail(t, "subscription to %q ended (%v) after %s", u.target, err, what)
						}
						if err != nil {
							vh.Fail(t, "subscription to the removed target %q ends with %v", u.target, err)
						}
						rs := u.st.responses()
						if n := rs[len(rs)-1].GetUpdate(); n.GetPrefix().GetTarget() != u.target || len(n.GetDelete()) != 1 || !uMatch(uIndex(n.Prefix, n.Delete[0]), []string{u.target, "x", "y"}) {
							vh.Fail(t, "the last response of the subscription to the removed target %q is %v", u.target, rs[len(rs)-1])
						}
						u.done = nil
						vh.Stat("ended", 1)
					default:
						if gone[u.target] {
							vh.Fail(t, "subscription to the removed target %q goes on after %s", u.target, what)
						}
					}
				}
			}
			for _, u := range subs {
				for _, r := range u.st.responses() {
					if n := r.GetUpdate(); n != nil && u.target != "*" && n.GetPrefix().GetTarget() != u.target {
						vh.Fail(t, "subscription to %q receives %v", u.target, r)
					}
				}
				u.st.cancel()
				if u.done != nil {
					<-u.done
				}
			}
			synctest.Wait()
			vh.Stat("histories", 1)
			if i == 0 {
				vh.Sample("%s", fmt.Sprint(subs[0].target, gone))
			}
		})
	}
}
