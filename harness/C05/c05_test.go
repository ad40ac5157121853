package subscribe

import (
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	"github.com/openconfig/gnmi/cache"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	vh "github.com/openconfig/gnmi/verifh"
	"google.golang.org/protobuf/proto"
)

type c05 struct {
	prefix *pb.Path
	paths  []*pb.Path
	bad    bool       // some path conflicts with the origin of the prefix
	qs     [][]string // below the target
}

// c05Sub draws a subscription.
func c05Sub(rd *rand.Rand, targets []string) *c05 {
	names := func(max int) []string {
		var ns []string
		for k := rd.Intn(max + 1); k > 0; k-- {
			ns = append(ns, []string{"a", "b", "c", "*"}[rd.Intn(4)])
		}
		return ns
	}
	c := &c05{}
	pn := names(1)
	if rd.Intn(2) == 0 {
		pn = nil
	}
	c.prefix = uRandPath(rd, pn)
	c.prefix.Target = append([]string{"*"}, targets...)[rd.Intn(len(targets)+1)]
	if rd.Intn(4) == 0 {
		c.prefix.Origin = "o"
	}
	for k := rd.Intn(4); k > 0; k-- {
		n := names(3)
		p := uRandPath(rd, n)
		if rd.Intn(4) == 0 {
			p.Origin = "o"
		}
		if rd.Intn(10) == 0 {
			p, n = nil, nil
		}
		if p.GetOrigin() != "" && (c.prefix.Origin != "" || len(pn) > 0) {
			c.bad = true
		}
		c.paths = append(c.paths, p)
		var q []string
		if o := c.prefix.Origin + p.GetOrigin(); o != "" {
			q = append(q, o)
		}
		c.qs = append(c.qs, append(append(q, pn...), n...))
	}
	return c
}

func (c *c05) match(p []string) bool {
	if c.prefix.Target != "*" && c.prefix.Target != p[0] {
		return false
	}
	for _, q := range c.qs {
		if uMatch(q, p[1:]) {
			return true
		}
	}
	return false
}

func c05Leaf(rd *rand.Rand, tg string, ts, v int64) *pb.Notification {
	var ns []string
	for k := rd.Intn(3); k >= 0; k-- {
		ns = append(ns, []string{"a", "b", "c"}[rd.Intn(3)])
	}
	n := uSet(tg, ts, v)
	i := rd.Intn(len(ns))
	n.Prefix, n.Update[0].Path = uRandPath(rd, ns[:i]), uRandPath(rd, ns[i:])
	n.Prefix.Target = tg
	switch rd.Intn(5) {
	case 0:
		n.Prefix.Origin = "o"
	case 1:
		n.Update[0].Path.Origin = "o"
	}
	if rd.Intn(8) == 0 && i > 0 {
		n.Atomic = true
		n.Update = append(n.Update, &pb.Update{Path: uPath("y"), Val: uInt(v)})
	}
	return n
}

// exact judges the responses of one walk of an unchanging cache.
func (c *c05) exact(ca *cache.Cache, rs []*pb.SubscribeResponse) string {
	all, paths := uAll(ca)
	got := map[string]*pb.Notification{}
	for i, r := range rs {
		if r.GetSyncResponse() {
			if i != len(rs)-1 {
				return "sync_response before the last response"
			}
			continue
		}
		k, ok := uRespKey(r)
		if !ok {
			return fmt.Sprint("unexpected response ", r)
		}
		if all[k] == nil || !c.match(paths[k]) {
			return fmt.Sprintf("%s is returned but does not match", k)
		}
		n := proto.Clone(r.GetUpdate()).(*pb.Notification)
		n.Update[0].Duplicates = 0
		if !proto.Equal(n, all[k]) {
			return fmt.Sprintf("%s is returned as %v, the cache holds %v", k, n, all[k])
		}
		got[k] = n
	}
	if len(rs) == 0 || !rs[len(rs)-1].GetSyncResponse() {
		return "no final sync_response"
	}
	for k, p := range paths {
		if c.match(p) && got[k] == nil {
			return fmt.Sprintf("matching leaf %s is missing", k)
		}
	}
	vh.Stat("leaves_returned", len(got))
	return ""
}

// TestVerifC05Snapshot: ONCE and POLL against an unchanging cache.
func TestVerifC05Snapshot(t *testing.T) {
	defer vh.Flush()
	targets := []string{"dev0", "dev1"}
	for i := 0; i < vh.N(2500); i++ {
		rd := vh.Rand("c05", i)
		ca := cache.New(targets)
		s, _ := NewServer(ca)
		ca.SetClient(s.Update)
		ts := int64(0)
		fill := func(n int) {
			for ; n > 0; n-- {
				ts++
				if rd.Intn(5) == 0 {
					ca.GnmiUpdate(uDel(targets[rd.Intn(2)], ts, "a", "*"))
				} else {
					ca.GnmiUpdate(c05Leaf(rd, targets[rd.Intn(2)], ts, ts))
				}
			}
		}
		fill(rd.Intn(14))
		if rd.Intn(3) == 0 {
			ca.UpdateMetadata()
		}
		c := c05Sub(rd, targets)
		mode := []pb.SubscriptionList_Mode{pb.SubscriptionList_ONCE, pb.SubscriptionList_POLL}[rd.Intn(2)]
		req := uReq(mode, c.prefix, c.paths...)
		st := newVStream(uBG, req)
		if mode == pb.SubscriptionList_ONCE && rd.Intn(3) == 0 {
			close(st.reqs) // the client half-closes after its request
		}
		done := uServe(s, st)
		fail := func(f string, a ...interface{}) {
			all, _ := uAll(ca)
			vh.Fail(t, "%s\n request %v\n cache %s\n responses\n  %s", fmt.Sprintf(f, a...), req, uKeys(all), uShow(st.responses()))
		}
		if c.bad {
			if err := uEnd(t, done, fmt.Sprint(req)); err == nil {
				fail("conflicting origins are accepted")
			}
			vh.Stat("rejected", 1)
			st.cancel()
			continue
		}
		if mode == pb.SubscriptionList_ONCE {
			if err := uEnd(t, done, fmt.Sprint(req)); err != nil {
				fail("ONCE ends with %v", err)
			}
			if m := c.exact(ca, st.responses()); m != "" {
				fail("ONCE: %s", m)
			}
			vh.Stat("once", 1)
			st.cancel()
			continue
		}
		base := 0
		for round := 0; round <= 1+rd.Intn(3); round++ {
			if !uWait(20*time.Second, func() bool { return st.syncs() > round }) {
				fail("POLL: no sync_response %d", round)
			}
			rs := st.responses()
			if m := c.exact(ca, rs[base:]); m != "" {
				fail("POLL round %d: %s", round, m)
			}
			base = len(rs)
			fill(rd.Intn(5))
			if rd.Intn(2) == 0 {
				time.Sleep(100 * time.Microsecond)
				if len(st.responses()) != base {
					fail("POLL: responses without a trigger after round %d", round)
				}
			}
			trig := uPoll
			if rd.Intn(3) == 0 {
				trig = &pb.SubscribeRequest{}
			}
			st.reqs <- trig
			vh.Stat("polls", 1)
		}
		close(st.reqs)
		if err := uEnd(t, done, fmt.Sprint(req)); err != nil {
			fail("POLL ends with %v at end of stream", err)
		}
		st.cancel()
		if i < 4 {
			vh.Sample("%v", req)
		}
	}
}

// TestVerifC05Writers: ONCE and POLL while the cache changes.
func TestVerifC05Writers(t *testing.T) {
	defer vh.Flush()
	targets := []string{"dev0", "dev1"}
	run := vh.Budget(10 * time.Second)
	for i := 0; run(); i++ {
		rd := vh.Rand("c05w", i)
		ca := cache.New(targets)
		s, _ := NewServer(ca)
		ca.SetClient(s.Update)
		var mu sync.Mutex
		clock := int64(0)
		written := map[string]map[int64]bool{}
		cur := map[string]int64{} // last value of the stable leaves
		tick := func() int64 { mu.Lock(); defer mu.Unlock(); clock++; return clock }
		set := func(tg string, stable bool, ns ...string) {
			mu.Lock()
			clock++
			v := clock
			k := uKey(append([]string{tg}, ns...))
			if written[k] == nil {
				written[k] = map[int64]bool{}
			}
			written[k][v] = true
			mu.Unlock()
			ca.GnmiUpdate(uSet(tg, v, v, ns...))
			if stable {
				mu.Lock()
				cur[k] = v
				mu.Unlock()
			}
		}
		var stable []string
		for _, tg := range targets {
			for _, x := range []string{"a", "b", "c"} {
				set(tg, true, "st", x)
				stable = append(stable, uKey([]string{tg, "st", x}))
			}
		}
		vh.Perturb(int64(rd.Intn(3)) * 120)
		var wg sync.WaitGroup
		stop := make(chan struct{})
		for _, tg := range targets {
			tg, r := tg, rand.New(rand.NewSource(rd.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					x, y := []string{"a", "b", "c"}[r.Intn(3)], []string{"a", "b"}[r.Intn(2)]
					switch r.Intn(4) {
					case 0:
						ca.GnmiUpdate(uDel(tg, tick(), "o", x))
					case 1:
						set(tg, true, "st", x)
					default:
						set(tg, false, "o", x, y)
					}
				}
			}()
		}
		qs := [][]string{{"st"}}
		if rd.Intn(2) == 0 {
			qs = [][]string{{"*", "a"}, {"st", "*"}, {"st", "b"}, {"o", "b"}}
		} else if rd.Intn(2) == 0 {
			qs = [][]string{{}}
		}
		pre := &pb.Path{Target: "*"}
		var ps []*pb.Path
		for _, q := range qs {
			ps = append(ps, uPath(q...))
		}
		mode := []pb.SubscriptionList_Mode{pb.SubscriptionList_ONCE, pb.SubscriptionList_POLL}[rd.Intn(2)]
		st := newVStream(uBG, uReq(mode, pre, ps...))
		rounds := 1
		if mode == pb.SubscriptionList_POLL {
			rounds = 3
		}
		snap := func() map[string]int64 {
			mu.Lock()
			defer mu.Unlock()
			m := map[string]int64{}
			for k, v := range cur {
				m[k] = v
			}
			return m
		}
		var done chan error
		base := 0
		for round := 0; round < rounds; round++ {
			lo := snap()
			if round == 0 {
				done = uServe(s, st)
			} else {
				st.reqs <- uPoll
			}
			fail := func(f string, a ...interface{}) {
				vh.Perturb(0)
				vh.Fail(t, "%s\n mode %v round %d queries %q\n responses\n  %s", fmt.Sprintf(f, a...), mode, round, qs, uShow(st.responses()[base:]))
			}
			if !uWait(20*time.Second, func() bool { return st.syncs() > round }) {
				fail("no sync_response")
			}
			rs := st.responses()[base:]
			mu.Lock()
			hi := clock
			seen := map[string]bool{}
			for j, r := range rs {
				if r.GetSyncResponse() {
					if j != len(rs)-1 {
						mu.Unlock()
						fail("sync_response is not the last response")
					}
					continue
				}
				k, ok := uRespKey(r)
				v := int64(0)
				if ok {
					v = r.GetUpdate().Update[0].Val.GetIntVal()
				}
				m := false
				for _, q := range qs {
					m = m || (ok && uMatch(q, uIndex(r.GetUpdate().Prefix, r.GetUpdate().Update[0].Path)[1:]))
				}
				if !ok || !m || !written[k][v] || v > hi {
					mu.Unlock()
					fail("response %v never matched or was never written", r)
				}
				if v < lo[k] {
					mu.Unlock()
					fail("leaf %s is returned with value %d, which it no longer held when the call was made (%d)", k, v, lo[k])
				}
				seen[k] = true
			}
			mu.Unlock()
			for _, k := range stable {
				m := len(qs[0]) < 2 || qs[0][0] == "*" // every query set covers st
				if m && !seen[k] {
					fail("leaf %s, present all along, is missing", k)
				}
			}
			base += len(rs)
			vh.Stat("calls", 1)
		}
		close(stop)
		wg.Wait()
		vh.Perturb(0)
		if mode == pb.SubscriptionList_POLL {
			close(st.reqs)
		}
		if err := uEnd(t, done, "once/poll with writers"); err != nil {
			vh.Fail(t, "the call ends with %v", err)
		}
		st.cancel()
	}
}
