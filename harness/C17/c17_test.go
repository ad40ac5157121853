package target_test

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	gpb "github.com/openconfig/gnmi/proto/gnmi"
	tpb "github.com/openconfig/gnmi/proto/target"
	"github.com/openconfig/gnmi/target"
	vh "github.com/openconfig/gnmi/verifh"
	"google.golang.org/protobuf/proto"
)

// The executable form of the C17 contracts: a receiver replays every handler
// call onto a set and is compared with the current configuration after every load.

type held struct {
	t *tpb.Target
	r *gpb.SubscribeRequest
}

func genReq(r *rand.Rand) *gpb.SubscribeRequest {
	s := &gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Subscribe{Subscribe: &gpb.SubscriptionList{
		Prefix:       &gpb.Path{Target: []string{"", "x", "y"}[r.Intn(3)]},
		Subscription: []*gpb.Subscription{{Path: &gpb.Path{Elem: []*gpb.PathElem{{Name: []string{"a", "b"}[r.Intn(2)]}}}}},
	}}}
	switch r.Intn(8) {
	case 0:
		return &gpb.SubscribeRequest{}
	}
	return s
}

func genTarget(r *rand.Rand, reqs []string) *tpb.Target {
	t := &tpb.Target{Addresses: []string{fmt.Sprint("h:", r.Intn(2))}, Request: reqs[r.Intn(len(reqs))]}
	if r.Intn(4) == 0 {
		t.Addresses = append(t.Addresses, "z:1")
	}
	if r.Intn(3) == 0 {
		t.Meta = map[string]string{"k": fmt.Sprint(r.Intn(2))}
	}
	if r.Intn(4) == 0 {
		t.Credentials = &tpb.Credentials{Username: "u", Password: fmt.Sprint(r.Intn(2))}
	}
	switch r.Intn(40) {
	case 0:
		return nil
	case 1:
		t.Addresses = nil
	case 2:
		t.Request = ""
	case 3:
		t.Request = "missing"
	}
	return t
}

func genConfig(r *rand.Rand, prev *tpb.Configuration) *tpb.Configuration {
	reqs := []string{"r0", "r1", "r2"}
	var c *tpb.Configuration
	if prev != nil && r.Intn(3) != 0 {
		// a small edit of the previous configuration, sharing nothing
		c = proto.Clone(prev).(*tpb.Configuration)
		if c.Target == nil {
			c.Target = map[string]*tpb.Target{}
		}
		if c.Request == nil {
			c.Request = map[string]*gpb.SubscribeRequest{}
		}
		for n := r.Intn(3); n >= 0; n-- {
			name := fmt.Sprint("t", r.Intn(4))
			switch r.Intn(6) {
			case 0:
				delete(c.Target, name)
			case 1, 2:
				c.Target[name] = genTarget(r, reqs)
			case 3:
				c.Request[reqs[r.Intn(3)]] = genReq(r)
			case 4:
				if t := c.Target[name]; t != nil {
					t.Request = reqs[r.Intn(3)]
				}
			case 5:
				delete(c.Request, reqs[r.Intn(3)])
			}
		}
	} else {
		c = &tpb.Configuration{Target: map[string]*tpb.Target{}, Request: map[string]*gpb.SubscribeRequest{}}
		for _, q := range reqs {
			if r.Intn(5) != 0 {
				c.Request[q] = genReq(r)
			}
		}
		for n := r.Intn(5); n > 0; n-- {
			c.Target[fmt.Sprint("t", r.Intn(4))] = genTarget(r, reqs)
		}
	}
	if r.Intn(30) == 0 {
		c.Target[""] = genTarget(r, reqs)
	}
	base := int64(0)
	if prev != nil {
		base = prev.Revision
	}
	switch r.Intn(8) {
	case 0:
		c.Revision = base
	case 1:
		c.Revision = base - 1 - int64(r.Intn(3))
	case 2:
		c.Revision = base + int64(r.Intn(1000))
	default:
		c.Revision = base + 1
	}
	return c
}

func isValid(c *tpb.Configuration) bool {
	if c == nil {
		return false
	}
	for n, t := range c.Target {
		if n == "" || t == nil || len(t.Addresses) == 0 || t.Request == "" {
			return false
		}
		if _, ok := c.Request[t.Request]; !ok {
			return false
		}
	}
	return true
}

func show(c *tpb.Configuration) string {
	if c == nil {
		return "<nil>"
	}
	var s []string
	for n, t := range c.Target {
		s = append(s, fmt.Sprintf("%s:{%v}", n, t))
	}
	for n, q := range c.Request {
		s = append(s, fmt.Sprintf("req %s:{%v}", n, q))
	}
	sort.Strings(s)
	return fmt.Sprintf("rev=%d %s", c.Revision, strings.Join(s, " "))
}

func runC17(t *testing.T, i int) {
	r := vh.Rand("c17", i)
	view := map[string]held{}
	calls := map[string]int{}
	var log []string
	misuse := ""
	h := target.Handler{
		Add: func(u target.Update) {
			if _, ok := view[u.Name]; ok {
				misuse = "Add of a held target " + u.Name
			}
			view[u.Name] = held{u.Target, u.Request}
			calls[u.Name]++
		},
		Update: func(u target.Update) {
			if _, ok := view[u.Name]; !ok {
				misuse = "Update of an unknown target " + u.Name
			}
			view[u.Name] = held{u.Target, u.Request}
			calls[u.Name]++
		},
		Delete: func(n string) {
			if _, ok := view[n]; !ok {
				misuse = "Delete of an unknown target " + n
			}
			delete(view, n)
			calls[n]++
		},
	}
	mask := 0
	if r.Intn(6) == 0 { // some handlers absent: must not crash, state must still advance
		mask = 1 + r.Intn(7)
		if mask&1 != 0 {
			h.Add = nil
		}
		if mask&2 != 0 {
			h.Update = nil
		}
		if mask&4 != 0 {
			h.Delete = nil
		}
	}
	var cur *tpb.Configuration
	var cfg *target.Config
	if r.Intn(4) == 0 {
		base := genConfig(r, nil)
		if r.Intn(4) == 0 {
			base = nil
		}
		c, err := target.NewConfigWithBase(h, base)
		if (err == nil) != (base == nil || isValid(base)) {
			vh.Fail(t, "NewConfigWithBase(%s) error=%v", show(base), err)
		}
		if err != nil {
			return
		}
		if len(calls) != 0 {
			vh.Fail(t, "NewConfigWithBase ran handlers: %v", calls)
		}
		cfg, cur = c, proto.Clone(base).(*tpb.Configuration)
		if base == nil {
			cur = nil
		}
		for n, tt := range cur.GetTarget() {
			view[n] = held{tt, cur.Request[tt.Request]}
		}
	} else {
		cfg = target.NewConfig(h)
	}
	for step := 0; step < 12; step++ {
		next := genConfig(r, cur)
		if r.Intn(40) == 0 {
			next = nil
		}
		log = append(log, show(next))
		pristine := proto.Clone(next).(*tpb.Configuration)
		calls = map[string]int{}
		misuse = ""
		var err error
		if p := vh.NoPanic(func() { err = cfg.Load(next) }); p != nil {
			vh.Fail(t, "case %d: Load panics (%v) after loads:\n%s", i, p, strings.Join(log, "\n"))
		}
		want := isValid(next) && (cur == nil || next.Revision > cur.Revision)
		if (err == nil) != want {
			vh.Fail(t, "case %d: Load error=%v, want accepted=%v; loads:\n%s", i, err, want, strings.Join(log, "\n"))
		}
		if next != nil && !proto.Equal(next, pristine) {
			vh.Fail(t, "case %d: Load modified its argument; loads:\n%s", i, strings.Join(log, "\n"))
		}
		if err != nil {
			if len(calls) != 0 {
				vh.Fail(t, "case %d: rejected load ran handlers %v; loads:\n%s", i, calls, strings.Join(log, "\n"))
			}
			if got := cfg.Current(); (cur != nil || got != nil) && !proto.Equal(got, cur) && !(cur == nil && len(got.GetTarget()) == 0) {
				vh.Fail(t, "case %d: rejected load changed the configuration; loads:\n%s", i, strings.Join(log, "\n"))
			}
			vh.Stat("rejected", 1)
			continue
		}
		vh.Stat("accepted", 1)
		if !proto.Equal(cfg.Current(), pristine) {
			vh.Fail(t, "case %d: Current() is not the accepted configuration; loads:\n%s", i, strings.Join(log, "\n"))
		}
		if mask == 0 {
			if misuse != "" {
				vh.Fail(t, "case %d: %s; loads:\n%s", i, misuse, strings.Join(log, "\n"))
			}
			for n, tt := range pristine.Target {
				v, ok := view[n]
				if !ok || !proto.Equal(v.t, tt) || !proto.Equal(v.r, pristine.Request[tt.Request]) {
					vh.Fail(t, "case %d: replayed handler calls give %s=%v, configuration has %v with request %v; loads:\n%s", i, n, v, tt, pristine.Request[tt.Request], strings.Join(log, "\n"))
				}
				if o := cur.GetTarget()[n]; o != nil && proto.Equal(o, tt) && proto.Equal(cur.Request[o.Request], pristine.Request[tt.Request]) && calls[n] != 0 {
					vh.Fail(t, "case %d: unchanged target %s announced %d times; loads:\n%s", i, n, calls[n], strings.Join(log, "\n"))
				}
			}
			for n := range view {
				if _, ok := pristine.Target[n]; !ok {
					vh.Fail(t, "case %d: replayed set keeps %s; loads:\n%s", i, n, strings.Join(log, "\n"))
				}
			}
			for n, k := range calls {
				if k > 1 {
					vh.Stat("multi-call", 1)
					_ = n
				}
			}
		}
		cur = pristine
	}
	vh.Sample("case %d: %s", i, strings.Join(log[:2], " -> "))
}

func TestVerifC17(t *testing.T) {
	defer vh.Flush()
	for i := 0; i < vh.N(4000); i++ {
		runC17(t, i)
		vh.Stat("sequences", 1)
	}
}

// Loads racing each other: the highest valid revision ends up current and the
// replayed handler calls give exactly its targets.
func TestVerifC17Concurrent(t *testing.T) {
	defer vh.Flush()
	for i := 0; i < vh.N(400); i++ {
		r := vh.Rand("c17c", i)
		var mu sync.Mutex
		view := map[string]held{}
		pause := time.Duration(r.Intn(3)) * time.Millisecond
		set := func(u target.Update) {
			time.Sleep(pause)
			mu.Lock()
			defer mu.Unlock()
			view[u.Name] = held{u.Target, u.Request}
		}
		cfg := target.NewConfig(target.Handler{Add: set, Update: set, Delete: func(n string) {
			time.Sleep(pause)
			mu.Lock()
			defer mu.Unlock()
			delete(view, n)
		}})
		var cs []*tpb.Configuration
		var best *tpb.Configuration
		for k, n := 0, 2+r.Intn(3); k < n; k++ {
			c := genConfig(r, nil)
			c.Revision = int64(1 + r.Intn(5))
			cs = append(cs, c)
			if isValid(c) && (best == nil || c.Revision > best.Revision) {
				best = c
			}
		}
		var wg sync.WaitGroup
		for _, c := range cs {
			wg.Add(1)
			d := time.Duration(r.Intn(3)) * time.Millisecond
			go func(c *tpb.Configuration) {
				defer wg.Done()
				time.Sleep(d)
				cfg.Load(c)
			}(c)
		}
		wg.Wait()
		vh.Stat("concurrent-loads", len(cs))
		cur := cfg.Current()
		if cur.GetRevision() != best.GetRevision() {
			vh.Fail(t, "case %d: revision %d current after concurrent loads, highest valid is %d", i, cur.GetRevision(), best.GetRevision())
		}
		if len(view) != len(cur.GetTarget()) {
			vh.Fail(t, "case %d: %d targets replayed after concurrent loads, %d configured", i, len(view), len(cur.GetTarget()))
		}
		for n, tt := range cur.GetTarget() {
			if v, ok := view[n]; !ok || !proto.Equal(v.t, tt) || !proto.Equal(v.r, cur.Request[tt.Request]) {
				vh.Fail(t, "case %d: after concurrent loads handlers announced %v for %s, configured %v", i, v, n, tt)
			}
		}
	}
}
