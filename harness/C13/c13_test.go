package manager

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	gpb "github.com/openconfig/gnmi/proto/gnmi"
	tpb "github.com/openconfig/gnmi/proto/target"
	vh "github.com/openconfig/gnmi/verifh"
	"google.golang.org/grpc"
	"google.golang.org/grpc/metadata"
)

// what happened for one target, in order
type v13ev struct {
	what   string // dial, dialerr, open, openerr, senderr, msg, end; Connect, Update, Sync, Reset, ConnectError, MonitorError; removed, added, reconnect
	stream int
	msg    *gpb.SubscribeResponse
	n      *gpb.Notification
	at     time.Duration
	err    error
}

type v13 struct {
	t      *testing.T
	mu     sync.Mutex
	t0     time.Time
	evs    map[string][]v13ev
	rd     *rand.Rand
	stream int
	recvTO time.Duration
}

func (v *v13) rnd(n int) int {
	v.mu.Lock()
	defer v.mu.Unlock()
	return v.rd.Intn(n)
}

func (v *v13) add(name string, e v13ev) {
	v.mu.Lock()
	defer v.mu.Unlock()
	e.at = time.Since(v.t0)
	v.evs[name] = append(v.evs[name], e)
}

func (v *v13) fail(name string, f string, a ...interface{}) {
	var s []string
	for _, e := range v.evs[name] {
		s = append(s, fmt.Sprintf("%v %s stream %d %v %v %v", e.at, e.what, e.stream, e.msg, e.n, e.err))
	}
	if len(s) > 80 {
		s = s[len(s)-80:]
	}
	vh.Fail(v.t, "target %s: %s\n history:\n  %s", name, fmt.Sprintf(f, a...), strings.Join(s, "\n  "))
}

// the scripted connection manager hands out a nil connection; the name of the
// target travels as its address
func (v *v13) Connection(ctx context.Context, addr, _ string) (*grpc.ClientConn, func(), error) {
	v.add(addr, v13ev{what: "dial"})
	switch v.rnd(8) {
	case 0:
		err := errors.New("refused")
		v.add(addr, v13ev{what: "dialerr", err: err})
		return nil, func() {}, err
	case 1: // slow
		select {
		case <-time.After(time.Duration(v.rnd(3000)) * time.Millisecond):
		case <-ctx.Done():
			v.add(addr, v13ev{what: "dialerr", err: ctx.Err()})
			return nil, func() {}, ctx.Err()
		}
	}
	return nil, func() {}, nil
}

type v13stream struct {
	grpc.ClientStream
	v    *v13
	ctx  context.Context
	name string
	id   int
	left int
}

func (s *v13stream) Send(r *gpb.SubscribeRequest) error {
	if got := r.GetSubscribe().GetPrefix().GetTarget(); got != s.name {
		s.v.fail(s.name, "subscription request for target %q", got)
	}
	if s.v.rnd(12) == 0 {
		err := errors.New("send fails")
		s.v.add(s.name, v13ev{what: "senderr", stream: s.id, err: err})
		return err
	}
	return nil
}

func (s *v13stream) Recv() (*gpb.SubscribeResponse, error) {
	end := func(err error) (*gpb.SubscribeResponse, error) {
		s.v.add(s.name, v13ev{what: "end", stream: s.id, err: err})
		return nil, err
	}
	if s.left == 0 {
		switch s.v.rnd(3) {
		case 0:
			return end(io.EOF)
		case 1:
			return end(errors.New("broken"))
		}
		<-s.ctx.Done() // silent until something ends the session
		return end(s.ctx.Err())
	}
	s.left--
	if s.v.rnd(3) == 0 {
		select {
		case <-time.After(time.Duration(s.v.rnd(900)) * time.Millisecond):
		case <-s.ctx.Done():
			return end(s.ctx.Err())
		}
	}
	var r *gpb.SubscribeResponse
	switch s.v.rnd(8) {
	case 0:
		r = &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_SyncResponse{SyncResponse: true}}
	case 1:
		r = &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_Error{Error: &gpb.Error{}}}
	case 2:
		r = &gpb.SubscribeResponse{}
	default:
		r = &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_Update{Update: &gpb.Notification{Timestamp: int64(s.v.rnd(1000))}}}
	}
	s.v.add(s.name, v13ev{what: "msg", stream: s.id, msg: r})
	return r, nil
}

// judge checks the session discipline of one target.
func (v *v13) judge(name string, managed bool, tail time.Duration) {
	evs := v.evs[name]
	stream := 0       // current stream
	connected := false // Connect was reported for it
	var due []string   // callbacks that must come next, in order
	var dueN *gpb.Notification
	gone := true
	var failedAt time.Duration = -1 // when the last session failed
	for i, e := range evs {
		bad := func(f string, a ...interface{}) {
			v.evs[name] = evs[:i+1]
			v.fail(name, f, a...)
		}
		if len(due) > 0 && e.what != due[0] && e.what != "added" && e.what != "reconnect" {
			bad("%s happens where %v is due", e.what, due)
		}
		isDue := func() bool {
			if len(due) > 0 && due[0] == e.what {
				due = due[1:]
				return true
			}
			return false
		}
		if gone && e.what != "added" {
			bad("%s after Remove returned", e.what)
		}
		switch e.what {
		case "added":
			gone = false
			failedAt = -1
		case "removed":
			if stream != 0 && len(due) > 0 {
				bad("removed while %v is due", due)
			}
			gone, stream, connected = true, 0, false
		case "dial":
			if failedAt >= 0 {
				d := e.at - failedAt
				if d < RetryBaseDelay/2-time.Millisecond || d > RetryMaxDelay*3/2+time.Millisecond {
					bad("retried %v after the failure", d)
				}
				vh.Stat("retries", 1)
			}
			failedAt = -1
			if stream != 0 {
				bad("dial during a session")
			}
		case "dialerr", "openerr", "senderr":
			stream = 0
			failedAt = e.at
		case "open":
			stream, connected = e.stream, false
		case "msg":
			if stream != e.stream {
				bad("message of stream %d, the current one is %d", e.stream, stream)
			}
			if !connected {
				due = append(due, "Connect")
			}
			switch e.msg.Response.(type) {
			case *gpb.SubscribeResponse_Update:
				due = append(due, "Update")
				dueN = e.msg.GetUpdate()
			case *gpb.SubscribeResponse_SyncResponse:
				due = append(due, "Sync")
			}
		case "end":
			due = append(due, "Reset")
			failedAt = e.at
		case "Connect":
			if !isDue() || connected {
				bad("Connect without a first message")
			}
			connected = true
			vh.Stat("sessions", 1)
		case "Update":
			if !isDue() {
				bad("unexpected Update")
			}
			if e.n != dueN {
				bad("Update with %v instead of %v", e.n, dueN)
			}
			vh.Stat("updates", 1)
		case "Sync":
			if !isDue() {
				bad("unexpected Sync")
			}
		case "Reset":
			if !isDue() {
				bad("unexpected Reset")
			}
			stream, connected = 0, false
		}
	}
	if len(due) > 0 {
		v.fail(name, "%v never happened", due)
	}
	if managed && failedAt >= 0 && tail-failedAt > RetryMaxDelay*3/2+time.Second {
		v.fail(name, "no retry since the failure at %v (now %v)", failedAt, tail)
	}
}

func TestVerifC13(t *testing.T) {
	defer vh.Flush()
	defer func(f func(context.Context, *grpc.ClientConn) (gpb.GNMI_SubscribeClient, error)) { subscribeClient = f }(subscribeClient)
	defer func(a, b time.Duration) { RetryBaseDelay, RetryMaxDelay = a, b }(RetryBaseDelay, RetryMaxDelay)
	for i := 0; i < vh.N(500); i++ {
		rd := vh.Rand("c13", i)
		RetryBaseDelay = time.Duration(1+rd.Intn(3)) * time.Second
		RetryMaxDelay = RetryBaseDelay * time.Duration(2+rd.Intn(10))
		synctest.Test(t, func(t *testing.T) { v13Run(t, rd) })
		vh.Stat("histories", 1)
	}
}

func v13Run(t *testing.T, rd *rand.Rand) {
	v := &v13{t: t, t0: time.Now(), evs: map[string][]v13ev{}, rd: rand.New(rand.NewSource(rd.Int63()))}
	if rd.Intn(2) == 0 {
		v.recvTO = time.Duration(1+rd.Intn(4)) * time.Second
	}
	cb := func(w string) func(string) { return func(n string) { v.add(n, v13ev{what: w}) } }
	cbe := func(w string) func(string, error) { return func(n string, err error) { v.add(n, v13ev{what: w, err: err}) } }
	cfg := Config{
		Connect: cb("Connect"), Reset: cb("Reset"), Sync: cb("Sync"), ConnectError: cbe("ConnectError"), MonitorError: cbe("MonitorError"),
		Update:         func(n string, u *gpb.Notification) { v.add(n, v13ev{what: "Update", n: u}) },
		ReceiveTimeout: v.recvTO, ConnectionManager: v,
	}
	if rd.Intn(3) == 0 {
		cfg.Timeout = time.Second
	}
	m, err := NewManager(cfg)
	if err != nil {
		t.Fatal(err)
	}
	names := []string{"t0", "t1", "t2"}[:1+rd.Intn(3)]
	subscribeClient = func(ctx context.Context, _ *grpc.ClientConn) (gpb.GNMI_SubscribeClient, error) {
		name := v13name(ctx)
		if v.rnd(10) == 0 {
			err := errors.New("open fails")
			v.add(name, v13ev{what: "openerr", err: err})
			return nil, err
		}
		v.mu.Lock()
		v.stream++
		s := &v13stream{v: v, ctx: ctx, name: name, id: v.stream, left: v.rd.Intn(5)}
		v.mu.Unlock()
		v.add(name, v13ev{what: "open", stream: s.id})
		return s, nil
	}
	managed := map[string]bool{}
	for k := 4 + rd.Intn(16); k > 0; k-- {
		n := names[rd.Intn(len(names))]
		switch rd.Intn(5) {
		case 0, 1:
			ta := &tpb.Target{Addresses: []string{n}}
			sr := &gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Subscribe{Subscribe: &gpb.SubscriptionList{}}}
			v.mu.Lock()
			if !managed[n] {
				v.evs[n] = append(v.evs[n], v13ev{what: "added", at: time.Since(v.t0)})
			}
			v.mu.Unlock()
			err := m.Add(n, ta, sr)
			if (err == nil) == managed[n] {
				v.fail(n, "Add returns %v, managed before: %v", err, managed[n])
			}
			managed[n] = true
		case 2:
			start := time.Now()
			err := m.Remove(n)
			v.mu.Lock() // anything recorded from here on is after Remove returned
			if err == nil {
				v.evs[n] = append(v.evs[n], v13ev{what: "removed", at: time.Since(v.t0)})
			}
			v.mu.Unlock()
			if (err == nil) != managed[n] {
				v.fail(n, "Remove returns %v, managed before: %v", err, managed[n])
			}
			if d := time.Since(start); d > 0 {
				v.fail(n, "Remove took %v although the session ends at once", d)
			}
			managed[n] = false
		case 3:
			if err := m.Reconnect(n); (err == nil) != managed[n] {
				v.fail(n, "Reconnect returns %v, managed %v", err, managed[n])
			}
			v.add(n, v13ev{what: "reconnect"})
			v.mu.Lock()
			v.evs[n] = v.evs[n][:len(v.evs[n])-1]
			v.mu.Unlock()
		}
		if rd.Intn(4) > 0 {
			time.Sleep(time.Duration(rd.Intn(4000)) * time.Millisecond)
		}
	}
	if rd.Intn(2) == 0 {
		time.Sleep(5 * RetryMaxDelay)
	}
	synctest.Wait()
	v.mu.Lock()
	now := time.Since(v.t0)
	copied := map[string][]v13ev{}
	for n, e := range v.evs {
		copied[n] = append([]v13ev{}, e...)
	}
	v.mu.Unlock()
	// end everything before judging
	for n, on := range managed {
		if on {
			if err := m.Remove(n); err != nil {
				v.fail(n, "final Remove: %v", err)
			}
		}
	}
	v.mu.Lock()
	v.evs = copied
	v.mu.Unlock()
	for n := range copied {
		v.judge(n, managed[n], now)
	}
	time.Sleep(10 * RetryMaxDelay)
	synctest.Wait()
	for n := range copied {
		if len(v.evs[n]) != len(copied[n]) {
			v.fail(n, "events after the final Remove")
		}
	}
}

// v13name finds the target of a session through its metadata.
func v13name(ctx context.Context) string {
	md, _ := metadata.FromOutgoingContext(ctx)
	if v := md.Get(Target); len(v) == 1 {
		return v[0]
	}
	return ""
}

type v13quick struct{}

func (v13quick) Connection(context.Context, string, string) (*grpc.ClientConn, func(), error) {
	return nil, func() {}, nil
}

type v13one struct {
	grpc.ClientStream
	ctx context.Context
	n   int
}

func (s *v13one) Send(*gpb.SubscribeRequest) error { return nil }
func (s *v13one) Recv() (*gpb.SubscribeResponse, error) {
	if s.n > 0 {
		s.n--
		return &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_Update{Update: &gpb.Notification{}}}, nil
	}
	<-s.ctx.Done()
	return nil, s.ctx.Err()
}

// A target removed, re-added and reconnected while one of its callbacks is still
// running: the sessions of one target never overlap.
func TestVerifC13Overlap(t *testing.T) {
	defer vh.Flush()
	defer func(f func(context.Context, *grpc.ClientConn) (gpb.GNMI_SubscribeClient, error)) { subscribeClient = f }(subscribeClient)
	defer func(a time.Duration) { RetryBaseDelay = a }(RetryBaseDelay)
	RetryBaseDelay = 5 * time.Millisecond
	for i := 0; i < vh.N(60); i++ {
		rd := vh.Rand("c13o", i)
		var mu sync.Mutex
		var ev []string
		up, removed := false, false
		rec := func(s string) {
			mu.Lock()
			defer mu.Unlock()
			ev = append(ev, s)
			switch {
			case removed:
				vh.Fail(t, "case %d: %s after Remove returned: %v", i, s, ev)
			case s == "Connect" && up:
				vh.Fail(t, "case %d: Connect during a session: %v", i, ev)
			case s == "Connect":
				up = true
			case s == "Reset":
				up = false
			case !up:
				vh.Fail(t, "case %d: %s outside a session: %v", i, s, ev)
			}
		}
		slow := [3]time.Duration{}
		for k := range slow {
			slow[k] = time.Duration(rd.Intn(2)*rd.Intn(25)) * time.Millisecond
		}
		n := 1 + rd.Intn(3)
		subscribeClient = func(ctx context.Context, _ *grpc.ClientConn) (gpb.GNMI_SubscribeClient, error) {
			return &v13one{ctx: ctx, n: n}, nil
		}
		m, err := NewManager(Config{
			Connect:           func(string) { rec("Connect"); time.Sleep(slow[0]) },
			Reset:             func(string) { time.Sleep(slow[1]); rec("Reset") },
			Sync:              func(string) {},
			Update:            func(string, *gpb.Notification) { rec("Update"); time.Sleep(slow[2]) },
			ConnectionManager: v13quick{},
		})
		if err != nil {
			t.Fatal(err)
		}
		ta := &tpb.Target{Addresses: []string{"a"}}
		var wg sync.WaitGroup
		for g := 0; g < 3; g++ {
			wg.Add(1)
			kinds, waits := []int{}, []int{}
			for k := 0; k < 6; k++ {
				kinds = append(kinds, rd.Intn(5))
				waits = append(waits, rd.Intn(8))
			}
			go func() {
				defer wg.Done()
				for k, kind := range kinds {
					switch kind {
					case 0, 1:
						m.Add("t", ta, &gpb.SubscribeRequest{})
					case 2, 3:
						m.Remove("t")
					case 4:
						m.Reconnect("t")
					}
					time.Sleep(time.Duration(waits[k]) * time.Millisecond)
				}
			}()
		}
		if !vh.Within(20*time.Second, wg.Wait) {
			vh.Fail(t, "case %d: Add/Remove/Reconnect do not return: %v", i, ev)
		}
		m.Add("t", ta, &gpb.SubscribeRequest{})
		if err := m.Remove("t"); err != nil {
			vh.Fail(t, "case %d: final Remove: %v", i, err)
		}
		mu.Lock()
		removed = true
		mu.Unlock()
		time.Sleep(10 * time.Millisecond)
		vh.Stat("overlaps", 1)
	}
}
