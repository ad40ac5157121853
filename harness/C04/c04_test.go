package subscribe

import (
	"context"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/path"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	vh "github.com/openconfig/gnmi/verifh"
	"google.golang.org/protobuf/proto"
)

func v4Key(p []string) string { return strings.Join(p, "\x00") }

// v4Match is the query relation of the tree (C09).
func v4Match(q, p []string) bool {
	for i, e := range q {
		if i == len(p) {
			return i == len(q)-1 && e == "*"
		}
		if e != "*" && e != p[i] {
			return false
		}
	}
	return true
}

func v4Index(prefix, p *pb.Path) []string {
	out := []string{prefix.GetTarget()}
	if o := prefix.GetOrigin(); o != "" {
		out = append(out, o)
	} else if o := p.GetOrigin(); o != "" {
		out = append(out, o)
	}
	return append(append(out, path.ToStrings(prefix, false)...), path.ToStrings(p, false)...)
}

func v4Leaf(n *pb.Notification, u *pb.Update) []string {
	if n.GetAtomic() {
		return v4Index(n.Prefix, &pb.Path{Origin: u.GetPath().GetOrigin()})
	}
	return v4Index(n.Prefix, u.GetPath())
}

func v4Elems(ns []string) []*pb.PathElem {
	var out []*pb.PathElem
	for _, n := range ns {
		out = append(out, &pb.PathElem{Name: n})
	}
	return out
}

// v4Content is the value part of a notification.
func v4Content(n *pb.Notification) string {
	var s []string
	for _, u := range n.Update {
		s = append(s, fmt.Sprint(u.Path, "=", u.Val))
	}
	return strings.Join(s, ";")
}

type v4Case struct {
	targets []string
	subTgt  string
	queries [][]string // below the target
	upOnly  bool
	log     []string
	mu      sync.Mutex
}

func (c *v4Case) logf(f string, a ...interface{}) {
	c.mu.Lock()
	c.log = append(c.log, fmt.Sprintf(f, a...))
	c.mu.Unlock()
}

func (c *v4Case) matches(p []string) bool {
	if c.subTgt != "*" && p[0] != c.subTgt {
		return false
	}
	for _, q := range c.queries {
		if v4Match(q, p[1:]) {
			return true
		}
	}
	return false
}

var v4ts struct {
	sync.Mutex
	n int64
}

func v4Now() int64 {
	v4ts.Lock()
	defer v4ts.Unlock()
	v4ts.n++
	return v4ts.n
}

// v4Writer issues the changes of one goroutine.
func (c *v4Case) writer(ca *cache.Cache, rd *rand.Rand, tg string, steps int, reset bool) {
	names := []string{"a", "b"}
	pth := func(glob bool) []string {
		p := []string{"o", names[rd.Intn(2)], names[rd.Intn(2)]}
		for i := 1; glob && i < 3; i++ {
			if rd.Intn(3) == 0 {
				p[i] = "*"
			}
		}
		if glob && rd.Intn(3) == 0 {
			p = p[:1+rd.Intn(2)]
		}
		return p
	}
	for ; steps > 0; steps-- {
		pfx := &pb.Path{Target: tg}
		switch rd.Intn(12) {
		case 0, 1:
			ts, p := v4Now(), pth(true)
			c.logf("%s delete %q at %d", tg, p, ts)
			ca.GnmiUpdate(&pb.Notification{Timestamp: ts, Prefix: pfx, Delete: []*pb.Path{{Elem: v4Elems(p)}}})
		case 2:
			if reset {
				c.logf("%s reset", tg)
				ca.Reset(tg)
				continue
			}
			fallthrough
		case 3: // stable leaf, updated only
			ts := v4Now()
			c.logf("%s stable at %d", tg, ts)
			if reset {
				continue
			}
			ca.GnmiUpdate(&pb.Notification{Timestamp: ts, Prefix: pfx, Update: []*pb.Update{{Path: &pb.Path{Elem: v4Elems([]string{"st", names[rd.Intn(2)]})}, Val: v4Int(ts)}}})
		case 4:
			ts := v4Now()
			pfx.Elem = v4Elems([]string{"o", "at"})
			c.logf("%s atomic at %d", tg, ts)
			n := &pb.Notification{Timestamp: ts, Prefix: pfx, Atomic: true}
			for k := 1 + rd.Intn(2); k > 0; k-- {
				n.Update = append(n.Update, &pb.Update{Path: &pb.Path{Elem: v4Elems([]string{names[k-1]})}, Val: v4Int(ts)})
			}
			ca.GnmiUpdate(n)
		case 5: // several at once
			ts := v4Now()
			n := &pb.Notification{Timestamp: ts, Prefix: pfx}
			for k := rd.Intn(3); k >= 0; k-- {
				n.Update = append(n.Update, &pb.Update{Path: &pb.Path{Elem: v4Elems(pth(false))}, Val: v4Int(int64(rd.Intn(2)))})
			}
			n.Delete = append(n.Delete, &pb.Path{Elem: v4Elems(pth(true))})
			c.logf("%s %v", tg, n)
			ca.GnmiUpdate(n)
		case 6:
			c.logf("%s connect", tg)
			if rd.Intn(2) == 0 {
				ca.Connect(tg)
			} else {
				ca.ConnectError(tg, fmt.Errorf("boom%d", rd.Intn(2)))
			}
		default:
			ts, p := v4Now(), pth(false)
			v := int64(rd.Intn(2))
			c.logf("%s %q = %d at %d", tg, p, v, ts)
			ca.GnmiUpdate(&pb.Notification{Timestamp: ts, Prefix: pfx, Update: []*pb.Update{{Path: &pb.Path{Elem: v4Elems(p)}, Val: v4Int(v)}}})
		}
	}
}

func v4Int(v int64) *pb.TypedValue {
	return &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: v}}
}

func v4Run(t *testing.T, rd *rand.Rand, shared bool) {
	c := &v4Case{}
	for k := 1 + rd.Intn(2); k >= 0; k-- {
		c.targets = append(c.targets, fmt.Sprint("dev", k))
	}
	c.subTgt = []string{"*", c.targets[0], c.targets[0]}[rd.Intn(3)]
	c.upOnly = rd.Intn(5) == 0
	pool := [][]string{{}, {"*"}, {"o"}, {"o", "a"}, {"o", "*", "b"}, {"st"}, {"meta"}, {"o", "at"}, {"st", "a"}}
	sl := &pb.SubscriptionList{Prefix: &pb.Path{Target: c.subTgt}, Mode: pb.SubscriptionList_STREAM, UpdatesOnly: c.upOnly}
	for k := rd.Intn(2); k >= 0; k-- {
		q := pool[rd.Intn(len(pool))]
		c.queries = append(c.queries, q)
	}
	c.queries = append(c.queries, []string{"zz"})
	for _, q := range c.queries {
		sl.Subscription = append(sl.Subscription, &pb.Subscription{Path: &pb.Path{Elem: v4Elems(q)}})
	}
	ca := cache.New(c.targets)
	s, err := NewServer(ca)
	if err != nil {
		t.Fatal(err)
	}
	ca.SetClient(s.Update)
	resets := map[string]bool{}
	for i, tg := range c.targets {
		resets[tg] = rd.Intn(2) == 0
		c.writer(ca, rand.New(rand.NewSource(rd.Int63())), tg, rd.Intn(12), false)
		for _, x := range []string{"a", "b"} {
			ca.GnmiUpdate(&pb.Notification{Timestamp: v4Now(), Prefix: &pb.Path{Target: tg}, Update: []*pb.Update{{Path: &pb.Path{Elem: v4Elems([]string{"st", x})}, Val: v4Int(int64(i))}}})
		}
	}
	stable := map[string]bool{} // present from before the subscription on
	for _, tg := range c.targets {
		for _, x := range []string{"a", "b"} {
			p := []string{tg, "st", x}
			if !resets[tg] && c.matches(p) {
				stable[v4Key(p)] = true
			}
		}
	}
	c.logf("-- concurrent part; subscription %v", sl)
	vh.Perturb(int64(rd.Intn(3)) * 120)
	st := newVStream(context.Background(), &pb.SubscribeRequest{Request: &pb.SubscribeRequest_Subscribe{Subscribe: sl}})
	done := make(chan error, 1)
	start := make(chan struct{})
	var wg sync.WaitGroup
	spawn := func(f func()) {
		wg.Add(1)
		go func() { defer wg.Done(); <-start; f() }()
	}
	for _, tg := range c.targets {
		tg := tg
		n := 1
		if shared {
			n = 2
		}
		for ; n > 0; n-- {
			r, steps := rand.New(rand.NewSource(rd.Int63())), 3+rd.Intn(15)
			spawn(func() { c.writer(ca, r, tg, steps, resets[tg]) })
		}
	}
	if rd.Intn(2) == 0 {
		spawn(func() {
			for k := 0; k < 3; k++ {
				ca.UpdateMetadata()
				ca.UpdateSize()
			}
		})
	}
	delay := time.Duration(rd.Intn(60)) * time.Microsecond
	go func() { <-start; time.Sleep(delay); done <- s.Subscribe(st) }()
	close(start)
	wg.Wait()
	vh.Perturb(0)
	// the subscription may only start now: wait for its sync, then write sentinels
	fail := func(f string, a ...interface{}) {
		var rs []string
		for _, r := range st.responses() {
			rs = append(rs, fmt.Sprint(r))
		}
		c.mu.Lock()
		defer c.mu.Unlock()
		vh.Fail(t, "%s\n history (as issued):\n  %s\n responses:\n  %s", fmt.Sprintf(f, a...), strings.Join(c.log, "\n  "), strings.Join(rs, "\n  "))
	}
	wait := func(what string, cond func([]*pb.SubscribeResponse) bool) {
		end := time.Now().Add(20 * time.Second)
		for !cond(st.responses()) {
			select {
			case err := <-done:
				fail("the subscription ended with %v while waiting for %s", err, what)
			case <-st.notify:
			case <-time.After(time.Millisecond):
			}
			if time.Now().After(end) {
				fail("no %s", what)
			}
		}
	}
	wait("sync_response", func([]*pb.SubscribeResponse) bool { return st.syncs() > 0 })
	sent := map[string]bool{}
	for _, tg := range c.targets {
		if c.subTgt == "*" || c.subTgt == tg {
			sent[tg] = true
			ca.GnmiUpdate(&pb.Notification{Timestamp: v4Now(), Prefix: &pb.Path{Target: tg}, Update: []*pb.Update{{Path: &pb.Path{Elem: v4Elems([]string{"zz"})}, Val: v4Int(1)}}})
		}
	}
	wait("change made after the sync", func(rs []*pb.SubscribeResponse) bool {
		n := 0
		for _, r := range rs {
			for _, u := range r.GetUpdate().GetUpdate() {
				if p := v4Leaf(r.GetUpdate(), u); len(p) == 2 && p[1] == "zz" {
					n++
				}
			}
		}
		return n >= len(sent)
	})
	// judge
	type entry struct {
		path []string
		n    *pb.Notification
	}
	replay := map[string]entry{}
	lastTS := map[string]int64{}
	synced := false
	for i, r := range st.responses() {
		switch v := r.Response.(type) {
		case *pb.SubscribeResponse_SyncResponse:
			if synced {
				fail("second sync_response")
			}
			synced = true
			if c.upOnly && i != 0 {
				fail("updates_only: the sync_response is response %d", i)
			}
			for k := range stable {
				if _, ok := replay[k]; !ok && !c.upOnly {
					fail("leaf %q, present all along, was not sent before the sync_response", strings.Split(k, "\x00"))
				}
			}
		case *pb.SubscribeResponse_Update:
			n := v.Update
			for _, u := range n.Update {
				p := v4Leaf(n, u)
				k := v4Key(p)
				if n.Timestamp < lastTS[k] && stable[k] && !shared {
					fail("leaf %q: timestamp %d sent after %d", p, n.Timestamp, lastTS[k])
				}
				lastTS[k] = n.Timestamp
				replay[k] = entry{p, proto.Clone(n).(*pb.Notification)}
			}
			for _, d := range n.Delete {
				q := v4Index(n.Prefix, d)
				for k, e := range replay {
					if v4Match(q, e.path) {
						delete(replay, k)
					}
				}
			}
		}
	}
	got, want := map[string]string{}, map[string]string{}
	for _, e := range replay {
		if c.matches(e.path) {
			got[fmt.Sprintf("%q", e.path)] = v4Content(e.n)
		}
	}
	ca.Query("*", nil, func(p []string, _ *ctree.Leaf, v interface{}) error {
		n := v.(*pb.Notification)
		full := append([]string{n.GetPrefix().GetTarget()}, p...)
		if c.matches(full) {
			want[fmt.Sprintf("%q", full)] = v4Content(n)
		}
		return nil
	})
	var diff []string
	for k, v := range want {
		if g, ok := got[k]; g != v && !(c.upOnly && !ok) {
			diff = append(diff, fmt.Sprintf("%s: cache %q, replay %q", k, v, g))
		}
	}
	for k, v := range got {
		if _, ok := want[k]; !ok {
			diff = append(diff, fmt.Sprintf("%s: not in the cache, replay %q", k, v))
		}
	}
	if len(diff) > 0 {
		sort.Strings(diff)
		fail("after quiescence the replayed responses differ from the cache:\n  %s", strings.Join(diff, "\n  "))
	}
	st.cancel()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		fail("the subscription does not end with its stream")
	}
	vh.Stat("interleavings", 1)
	vh.Stat("responses", len(st.responses()))
}

func TestVerifC04(t *testing.T) {
	defer vh.Flush()
	run := vh.Budget(12 * time.Second)
	for i := 0; run(); i++ {
		v4Run(t, vh.Rand("c04", i), false)
	}
}

// TestVerifC04Shared: several goroutines change one target.
func TestVerifC04Shared(t *testing.T) {
	defer vh.Flush()
	run := vh.Budget(12 * time.Second)
	for i := 0; run(); i++ {
		v4Run(t, vh.Rand("c04s", i), true)
	}
}
