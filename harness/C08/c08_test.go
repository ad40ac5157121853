package subscribe

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/openconfig/gnmi/cache"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	vh "github.com/openconfig/gnmi/verifh"
)

// entry is one pending delivery of the reference model: a leaf handle with its
// newest value, or a delete.
type c08entry struct {
	key   string
	val   int64
	count int
	del   bool
	live  bool
}

func c08Show(es []*c08entry) string {
	var s []string
	for _, e := range es {
		s = append(s, fmt.Sprintf("%s=%d x%d del %v", e.key, e.val, e.count, e.del))
	}
	return strings.Join(s, "; ")
}

// TestVerifC08Stall: while one subscriber is stalled updates are accepted at once,
// the other subscriber keeps receiving, and the stalled one receives, on resuming,
// exactly its backlog in order: the newest value of each pending leaf, with the
// number of updates coalesced into it.
func TestVerifC08Stall(t *testing.T) {
	defer vh.Flush()
	for i := 0; i < vh.N(1500); i++ {
		rd := vh.Rand("c08", i)
		synctest.Test(t, func(t *testing.T) { c08Stall(t, rd) })
	}
}

func c08Stall(t *testing.T, rd *rand.Rand) {
	ca := cache.New([]string{"dev"})
	opts := []Option{WithTimeout(time.Hour)}
	noDup := rd.Intn(6) == 0
	if noDup {
		opts = append(opts, WithoutDupReport())
	}
	stats := rd.Intn(2) == 0
	if stats {
		opts = append(opts, WithStats())
	}
	s, _ := NewServer(ca, opts...)
	ca.SetClient(s.Update)
	ts := int64(0)
	names := []string{"a", "b", "c", "d"}[:1+rd.Intn(4)]
	var log []string
	live := map[string]*c08entry{} // pending entry per stored leaf, of the stalled subscriber
	stored := map[string]bool{}
	var pending []*c08entry
	set := func(n string) {
		ts++
		log = append(log, fmt.Sprintf("%s=%d", n, ts))
		x := uSet("dev", ts, ts, "r", n)
		if err := ca.GnmiUpdate(x); err != nil {
			vh.Fail(t, "update refused: %v", err)
		}
		if !stored[n] {
			stored[n] = true
			delete(live, n)
		}
		if e := live[n]; e != nil {
			e.val, e.count = ts, e.count+1
		} else {
			e = &c08entry{key: n, val: ts, count: 1}
			live[n] = e
			pending = append(pending, e)
		}
	}
	del := func(n string) {
		ts++
		log = append(log, "delete "+n)
		if err := ca.GnmiUpdate(uDel("dev", ts, "r", n)); err != nil {
			vh.Fail(t, "delete refused: %v", err)
		}
		if stored[n] {
			delete(stored, n)
			pending = append(pending, &c08entry{key: n, del: true})
		}
	}
	for _, n := range names {
		if rd.Intn(2) == 0 {
			set(n)
		}
	}
	multi := rd.Intn(2) == 0
	req := func() *pb.SubscribeRequest {
		if multi { // several matching paths must not inflate the counts
			return uReq(pb.SubscriptionList_STREAM, &pb.Path{Target: "dev"}, uPath("r"), uPath("*", "*"), uPath())
		}
		return uReq(pb.SubscriptionList_STREAM, &pb.Path{Target: "dev"}, uPath("r"))
	}
	slow, fast := newVStream(uBG, req()), newVStream(uBG, req())
	ds := uServe(s, slow)
	df := uServe(s, fast)
	synctest.Wait()
	if slow.syncs() != 1 || fast.syncs() != 1 {
		vh.Fail(t, "no sync_response")
	}
	base := len(slow.responses())
	fbase := len(fast.responses())
	// stall the slow one in the middle of a send
	gate := make(chan struct{})
	slow.mu.Lock()
	slow.onSend = func(*pb.SubscribeResponse) error { <-gate; return nil }
	slow.mu.Unlock()
	first := names[rd.Intn(len(names))]
	log, pending, live = nil, nil, map[string]*c08entry{}
	set(first)
	synctest.Wait() // the response for it is in the blocked send
	if len(pending) != 1 {
		panic("model")
	}
	sending := *pending[0]
	pending, live = nil, map[string]*c08entry{}
	start := time.Now()
	total := 0
	for k := 1 + rd.Intn(25); k > 0; k-- {
		n := names[rd.Intn(len(names))]
		if rd.Intn(6) == 0 {
			del(n)
		} else {
			set(n)
		}
		total++
		if rd.Intn(3) == 0 {
			synctest.Wait()
			f := fast.responses()[fbase:]
			if len(f) == 0 {
				vh.Fail(t, "the other subscriber receives nothing")
			}
			has := false
			for _, r := range f {
				has = has || r.GetUpdate().GetTimestamp() == ts
			}
			if stored[n] && !has {
				vh.Fail(t, "the other subscriber has not received change %d:\n  %s", ts, uShow(f))
			}
		}
	}
	if d := time.Since(start); d != 0 {
		vh.Fail(t, "accepting updates took %v while a subscriber was stalled", d)
	}
	synctest.Wait()
	if n := len(slow.responses()); n != base {
		vh.Fail(t, "stalled stream received")
	}
	close(gate)
	synctest.Wait()
	if stats {
		for k, c := range s.ClientStats() {
			if c.QueueSize != 0 {
				vh.Fail(t, "queue size of %s is %d after the backlog was delivered", k, c.QueueSize)
			}
		}
	}
	got := slow.responses()[base:]
	want := append([]*c08entry{&sending}, pending...)
	fail := func(f string, a ...interface{}) {
		vh.Fail(t, "%s\n changes while stalled: %s\n pending by contract: %s\n responses\n  %s", fmt.Sprintf(f, a...), strings.Join(log, " "), c08Show(want), uShow(got))
	}
	if len(got) != len(want) {
		fail("%d responses on resuming, the contract demands %d", len(got), len(want))
	}
	for j, e := range want {
		n := got[j].GetUpdate()
		if e.del {
			if len(n.GetDelete()) != 1 || uKey(uIndex(n.Prefix, n.Delete[0])) != uKey([]string{"dev", "r", e.key}) {
				fail("response %d is %v instead of the delete of %s", j, n, e.key)
			}
			continue
		}
		if k, ok := uRespKey(got[j]); !ok || k != uKey([]string{"dev", "r", e.key}) {
			fail("response %d is %v instead of leaf %s", j, n, e.key)
		}
		if n.Update[0].Val.GetIntVal() != e.val {
			fail("response %d is %v, the newest value is %d", j, n, e.val)
		}
		d := uint32(e.count - 1)
		if noDup {
			d = 0
		}
		if n.Update[0].Duplicates != d {
			fail("response %d: %d duplicates, %d updates were coalesced", j, n.Update[0].Duplicates, d)
		}
	}
	// the stored notifications carry no count
	all, _ := uAll(ca)
	for k, n := range all {
		if n.Update[0].Duplicates != 0 {
			fail("the cache's %s carries duplicates", k)
		}
	}
	vh.Stat("changes_while_stalled", total)
	vh.Stat("backlog_entries", len(pending))
	slow.cancel()
	fast.cancel()
	synctest.Wait()
	<-ds
	<-df
}

// TestVerifC08Timeout: exactly a send blocked for longer than the timeout ends the
// subscription, with an error.
func TestVerifC08Timeout(t *testing.T) {
	defer vh.Flush()
	for i := 0; i < vh.N(600); i++ {
		rd := vh.Rand("c08t", i)
		synctest.Test(t, func(t *testing.T) {
			to := time.Duration(1+rd.Intn(100)) * time.Second
			ca := cache.New([]string{"dev"})
			s, _ := NewServer(ca, WithTimeout(to))
			ca.SetClient(s.Update)
			for k := rd.Intn(4); k > 0; k-- {
				ca.GnmiUpdate(uSet("dev", int64(k), 1, fmt.Sprint("l", k)))
			}
			mode := pb.SubscriptionList_Mode(rd.Intn(3))
			st := newVStream(uBG, uReq(mode, &pb.Path{Target: "dev"}, uPath()))
			hang := rd.Intn(8) // the send that blocks for ever
			if rd.Intn(3) == 0 {
				hang = 1000
			}
			sends := 0
			var hungAt time.Time
			release := make(chan struct{})
			st.onSend = func(*pb.SubscribeResponse) error {
				sends++
				if sends-1 == hang {
					hungAt = time.Now()
					<-release
					return fmt.Errorf("stream ended")
				}
				time.Sleep(time.Duration(rd.Int63n(int64(to)))) // slow, but in time
				return nil
			}
			done := uServe(s, st)
			ended := func() (bool, error) {
				synctest.Wait()
				select {
				case err := <-done:
					return true, err
				default:
					return false, nil
				}
			}
			ts := int64(100)
			over := false
			for k := 0; k < 12 && !over; k++ {
				if mode == pb.SubscriptionList_POLL && rd.Intn(2) == 0 {
					st.reqs <- uPoll
				}
				ts++
				ca.GnmiUpdate(uSet("dev", ts, ts, fmt.Sprint("l", rd.Intn(3))))
				synctest.Wait()
				if !hungAt.IsZero() {
					// up to the timeout the call goes on
					time.Sleep(time.Until(hungAt.Add(to)) - 1)
					if e, err := ended(); e {
						vh.Fail(t, "ended with %v before the timeout %v", err, to)
					}
					time.Sleep(2)
					if e, err := ended(); !e {
						vh.Fail(t, "send %d (mode %v, of %d) blocked for longer than the timeout %v, but the subscription goes on", hang, mode, sends, to)
					} else if err == nil {
						vh.Fail(t, "the timed out subscription ends without an error")
					}
					vh.Stat("timeouts", 1)
					over = true
					break
				}
				// idle or slow for long
				time.Sleep(time.Duration(rd.Int63n(int64(to) * 3)))
				if hungAt.IsZero() {
					e, err := ended()
					if e && hungAt.IsZero() && !(mode == pb.SubscriptionList_ONCE && err == nil) {
						vh.Fail(t, "the subscription ended with %v although no send was blocked for %v", err, to)
					}
					if e {
						over = true
						done = nil
					}
				} else if time.Since(hungAt) > to {
					if e, err := ended(); !e || err == nil {
						vh.Fail(t, "send blocked for longer than %v: ended %v with %v", to, e, err)
					}
					vh.Stat("timeouts", 1)
					over = true
				}
			}
			close(release)
			st.cancel()
			synctest.Wait()
			time.Sleep(4 * to)
			vh.Stat("streams", 1)
		})
	}
}
