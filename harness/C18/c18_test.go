package client_test

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/openconfig/gnmi/client"
	fclient "github.com/openconfig/gnmi/client/fake"
	gclient "github.com/openconfig/gnmi/client/gnmi"
	gpb "github.com/openconfig/gnmi/proto/gnmi"
	vh "github.com/openconfig/gnmi/verifh"
	"google.golang.org/grpc"
	"net"
)

type v18ev struct {
	what string // new, newerr, end, disconnect, reset, sub, subret, close, closeret, connected, noti
	id   int    // attempt
	msg  int    // message
	n    int    // notification within the message
	at   time.Duration
	err  error
}

type v18 struct {
	t   *testing.T
	mu  sync.Mutex
	rd  *rand.Rand
	t0  time.Time
	evs []v18ev
	id  int
	msg int
	// how the transport behaves
	ignoreCtx bool // New and Subscribe of the transport do not look at the context
}

func (v *v18) rnd(n int) int {
	v.mu.Lock()
	defer v.mu.Unlock()
	return v.rd.Intn(n)
}

func (v *v18) add(e v18ev) {
	v.mu.Lock()
	defer v.mu.Unlock()
	e.at = time.Since(v.t0)
	v.evs = append(v.evs, e)
}

func (v *v18) fail(f string, a ...any) {
	v.mu.Lock()
	var s []string
	for _, e := range v.evs {
		s = append(s, fmt.Sprintf("%v %s attempt %d message %d.%d %v", e.at, e.what, e.id, e.msg, e.n, e.err))
	}
	v.mu.Unlock()
	if len(s) > 80 {
		s = s[len(s)-80:]
	}
	vh.Fail(v.t, "%s\n history:\n  %s", fmt.Sprintf(f, a...), strings.Join(s, "\n  "))
}

type v18impl struct {
	v         *v18
	id        int
	ctx       context.Context
	h         client.NotificationHandler
	left      int
	connected bool
	closed    chan struct{}
	once      sync.Once
}

func (v *v18) newImpl(ctx context.Context, _ client.Destination) (client.Impl, error) {
	v.mu.Lock()
	v.id++
	id := v.id
	v.mu.Unlock()
	v.add(v18ev{what: "new", id: id})
	wait := func(d time.Duration) error {
		if v.ignoreCtx {
			time.Sleep(d)
			return nil
		}
		select {
		case <-time.After(d):
			return ctx.Err()
		case <-ctx.Done():
			return ctx.Err()
		}
	}
	var d time.Duration
	switch v.rnd(4) {
	case 0:
		d = time.Duration(v.rnd(2000)) * time.Millisecond
		if v.ignoreCtx {
			d = 0 // a transport that cannot be interrupted must not block either
		}
	}
	if err := wait(d); err != nil {
		return nil, err
	}
	if v.rnd(5) == 0 {
		return nil, errors.New("dial fails")
	}
	return &v18impl{v: v, id: id, ctx: ctx, left: v.rnd(6), closed: make(chan struct{})}, nil
}

func (i *v18impl) Subscribe(ctx context.Context, q client.Query) error {
	i.ctx = ctx
	i.h = q.NotificationHandler
	if i.v.rnd(6) == 0 {
		return errors.New("subscribe fails")
	}
	if i.v.ignoreCtx {
		return nil
	}
	return ctx.Err()
}

func (i *v18impl) Close() error {
	i.once.Do(func() { close(i.closed) })
	return nil
}
func (i *v18impl) Poll() error { return nil }

func (i *v18impl) Recv() error {
	stopped := func(d <-chan time.Time) error {
		select {
		case <-d:
			return nil
		case <-i.ctx.Done():
			return i.ctx.Err()
		case <-i.closed:
			return errors.New("closed")
		}
	}
	if i.left == 0 {
		switch i.v.rnd(4) {
		case 0:
			return io.EOF
		case 1:
			return errors.New("stream fails")
		case 2:
			return client.ErrStopReading
		}
		return stopped(nil)
	}
	i.left--
	// a message may be buffered already, and then it is delivered regardless
	if i.v.rnd(2) == 0 {
		if err := stopped(time.After(time.Duration(i.v.rnd(1200)) * time.Millisecond)); err != nil {
			return err
		}
	}
	i.v.mu.Lock()
	i.v.msg++
	m := i.v.msg
	i.v.mu.Unlock()
	if !i.connected {
		i.h(client.Connected{})
		i.connected = true
	}
	for k := 1 + i.v.rnd(3); k > 0; k-- {
		i.h(client.Update{Path: []string{fmt.Sprint(m), fmt.Sprint(k)}, Val: [3]int{i.id, m, k}})
	}
	return nil
}

func TestVerifC18(t *testing.T) {
	defer vh.Flush()
	defer func(a, b time.Duration) { client.RetryBaseDelay, client.RetryMaxDelay = a, b }(client.RetryBaseDelay, client.RetryMaxDelay)
	defer client.ResetRegisteredImpls()
	for i := 0; i < vh.N(1500); i++ {
		rd := vh.Rand("c18", i)
		client.RetryBaseDelay = time.Duration(500+rd.Intn(2000)) * time.Millisecond
		client.RetryMaxDelay = client.RetryBaseDelay * time.Duration(2+rd.Intn(6))
		synctest.Test(t, func(t *testing.T) { v18Run(t, rd) })
		vh.Stat("histories", 1)
	}
}

func v18Run(t *testing.T, rd *rand.Rand) {
	v := &v18{t: t, t0: time.Now(), rd: rand.New(rand.NewSource(rd.Int63())), ignoreCtx: rd.Intn(4) == 0}
	client.ResetRegisteredImpls()
	client.RegisterTest("v18", v.newImpl)
	var inner client.Client = &client.BaseClient{}
	if rd.Intn(2) == 0 {
		inner = client.New()
	}
	var discard, reset func()
	noDisc, noReset := rd.Intn(6) == 0, rd.Intn(6) == 0
	if !noDisc {
		discard = func() { v.add(v18ev{what: "disconnect"}) }
	}
	if !noReset {
		reset = func() { v.add(v18ev{what: "reset"}) }
	}
	rc := client.Reconnect(v18inner{inner, v}, discard, reset)
	h := func(n client.Notification) error {
		switch n := n.(type) {
		case client.Connected:
			v.add(v18ev{what: "connected"})
		case client.Update:
			x := n.Val.([3]int)
			v.add(v18ev{what: "noti", id: x[0], msg: x[1], n: x[2]})
		default:
			v.fail("unexpected notification %T", n)
		}
		return nil
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	q := client.Query{Type: client.Stream, NotificationHandler: h, Queries: []client.Path{{"a"}}, Addrs: []string{"x"}}
	maxBo := client.RetryMaxDelay*3/2 + 10*time.Millisecond
	subDone := make(chan struct{})
	startSub := func() {
		v.add(v18ev{what: "sub"})
		go func() {
			defer close(subDone)
			err := rc.Subscribe(ctx, q, "v18")
			v.add(v18ev{what: "subret", err: err})
			if err == nil {
				v.fail("Subscribe returns nil")
			}
		}()
	}
	inBackoff := func() bool {
		synctest.Wait()
		v.mu.Lock()
		defer v.mu.Unlock()
		for k := len(v.evs) - 1; k >= 0; k-- {
			switch v.evs[k].what {
			case "attemptend":
				return true
			case "attempt", "sub":
				return false
			}
		}
		return false
	}
	closeIt := func() {
		bo := inBackoff()
		start := time.Now()
		v.add(v18ev{what: "close"})
		done := make(chan struct{})
		go func() { rc.Close(); close(done) }()
		select {
		case <-done:
		case <-time.After(10 * maxBo):
			v.fail("Close does not return")
		}
		v.add(v18ev{what: "closeret"})
		if d := time.Since(start); d > maxBo || d > 0 && !bo {
			v.fail("Close took %v, in backoff: %v, the largest interval is %v", d, bo, maxBo)
		}
		vh.Stat("closes", 1)
		if bo {
			vh.Stat("closes in backoff", 1)
		}
	}
	waitSub := func(start time.Time, bo bool) {
		select {
		case <-subDone:
		case <-time.After(10 * maxBo):
			v.fail("Subscribe does not return")
		}
		if d := time.Since(start); d > maxBo || d > 0 && !bo {
			v.fail("Subscribe took %v to return, in backoff: %v, the largest interval is %v", d, bo, maxBo)
		}
	}
	switch rd.Intn(6) {
	case 0: // before
		closeIt()
		time.Sleep(time.Duration(rd.Intn(2)) * time.Second)
		at := time.Now()
		startSub()
		waitSub(at, false)
		vh.Stat("closes before Subscribe", 1)
	case 1: // with the start of Subscribe
		at := time.Now()
		startSub()
		go rc.Close()
		waitSub(at, true)
	case 2: // the context of the caller
		startSub()
		time.Sleep(time.Duration(rd.Intn(30000)) * time.Millisecond)
		bo := inBackoff()
		at := time.Now()
		cancel()
		waitSub(at, bo)
		closeIt()
	default:
		startSub()
		time.Sleep(time.Duration(rd.Intn(30000)) * time.Millisecond)
		bo := inBackoff()
		at := time.Now()
		if rd.Intn(5) == 0 {
			go rc.Close()
		}
		closeIt()
		waitSub(at, bo)
	}
	time.Sleep(20 * maxBo)
	synctest.Wait()
	v.judge(maxBo, noDisc, noReset)
}

// v18inner records the attempts.
type v18inner struct {
	client.Client
	v *v18
}

func (c v18inner) Subscribe(ctx context.Context, q client.Query, typ ...string) error {
	c.v.add(v18ev{what: "attempt"})
	err := c.Client.Subscribe(ctx, q, typ...)
	c.v.add(v18ev{what: "attemptend", err: err})
	return err
}

func (v *v18) judge(maxBo time.Duration, noDisc, noReset bool) {
	attempts, resets, disc := 0, 0, 0
	in, conn, closed, closeRet := false, false, false, false
	msgAfter := map[int]bool{}
	lastMsg, lastN := 0, 0
	subbed, retd := false, false
	var ended time.Duration
	for k, e := range v.evs {
		bad := func(f string, a ...any) {
			v.evs = v.evs[:k+1]
			v.fail(f, a...)
		}
		switch e.what {
		case "sub":
			subbed = true
		case "subret":
			retd = true
			if !noDisc && disc != attempts {
				bad("%d attempts, %d disconnects", attempts, disc)
			}
		case "close":
			closed = true
		case "closeret":
			closeRet = true
		case "attempt":
			if in {
				bad("two attempts at once")
			}
			if attempts > 0 {
				if !noReset && resets != attempts {
					bad("attempt %d after %d resets", attempts+1, resets)
				}
				if d := e.at - ended; d > maxBo {
					bad("retried after %v", d)
				}
				vh.Stat("retries", 1)
			}
			attempts++
			in, conn = true, false
		case "attemptend":
			in = false
			ended = e.at
		case "disconnect":
			disc++
			if in || disc != attempts {
				bad("disconnect %d after %d attempts", disc, attempts)
			}
		case "reset":
			resets++
			if in || resets > attempts || !noDisc && disc != attempts {
				bad("reset %d after %d attempts and %d disconnects", resets, attempts, disc)
			}
		case "connected":
			if conn || !in {
				bad("unexpected Connected")
			}
			conn = true
			vh.Stat("streams", 1)
		case "noti":
			if !conn || !in {
				bad("notification before Connected")
			}
			if e.msg < lastMsg || e.msg == lastMsg && e.n >= lastN {
				bad("notifications out of order")
			}
			lastMsg, lastN = e.msg, e.n
			if closeRet {
				msgAfter[e.msg] = true
				if len(msgAfter) > 1 {
					bad("messages %v delivered after Close returned", msgAfter)
				}
			}
			vh.Stat("notifications", 1)
		}
	}
	if subbed && !retd {
		v.fail("Subscribe did not return")
	}
	_ = closed
}

// The plain client over the same scripts: one stream, closed while streaming.
func TestVerifC18Base(t *testing.T) {
	defer vh.Flush()
	defer client.ResetRegisteredImpls()
	for i := 0; i < vh.N(500); i++ {
		rd := vh.Rand("c18b", i)
		synctest.Test(t, func(t *testing.T) {
			v := &v18{t: t, t0: time.Now(), rd: rand.New(rand.NewSource(rd.Int63()))}
			client.ResetRegisteredImpls()
			client.RegisterTest("v18", v.newImpl)
			var c client.Client = &client.BaseClient{}
			if rd.Intn(2) == 0 {
				c = client.New()
			}
			closed := false
			after := map[int]bool{}
			h := func(n client.Notification) error {
				v.mu.Lock()
				cl := closed
				v.mu.Unlock()
				if u, ok := n.(client.Update); ok {
					x := u.Val.([3]int)
					v.add(v18ev{what: "noti", id: x[0], msg: x[1], n: x[2]})
					if cl {
						after[x[1]] = true
						if len(after) > 1 {
							v.fail("messages %v delivered after Close returned", after)
						}
					}
				}
				time.Sleep(time.Duration(v.rnd(200)) * time.Millisecond)
				return nil
			}
			done := make(chan struct{})
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			go func() {
				defer close(done)
				c.Subscribe(ctx, client.Query{Type: client.Stream, NotificationHandler: h, Queries: []client.Path{{"a"}}, Addrs: []string{"x"}}, "v18")
			}()
			time.Sleep(time.Duration(rd.Intn(5000)) * time.Millisecond)
			synctest.Wait()
			if err := c.Close(); err == nil {
				v.mu.Lock()
				closed = true
				v.mu.Unlock()
				v.add(v18ev{what: "closeret"})
				vh.Stat("closed streams", 1)
			} else {
				cancel() // still connecting
			}
			select {
			case <-done:
			case <-time.After(time.Minute):
				v.fail("Subscribe of a closed client does not return")
			}
		})
	}
}

// The fake transport under the reconnecting client.
func TestVerifC18Fake(t *testing.T) {
	defer vh.Flush()
	defer func(f func(context.Context, client.Destination) (client.Impl, error)) { fclient.New = f }(fclient.New)
	defer func(a, b time.Duration) { client.RetryBaseDelay, client.RetryMaxDelay = a, b }(client.RetryBaseDelay, client.RetryMaxDelay)
	client.RetryBaseDelay, client.RetryMaxDelay = time.Second, 4*time.Second
	defer client.ResetRegisteredImpls()
	for i := 0; i < vh.N(300); i++ {
		rd := vh.Rand("c18f", i)
		synctest.Test(t, func(t *testing.T) {
			v := &v18{t: t, t0: time.Now(), rd: rd}
			client.ResetRegisteredImpls()
			var ups []any
			want := 0
			for k := rd.Intn(6); k > 0; k-- {
				want++
				ups = append(ups, client.Update{Path: []string{"a"}, Val: want})
			}
			block := rd.Intn(2) == 0
			var bl chan struct{}
			switch rd.Intn(3) {
			case 0:
				ups = append(ups, errors.New("script ends"))
			case 1:
				ups = append(ups, fclient.Block(make(chan struct{})))
			}
			client.RegisterTest("fake", func(ctx context.Context, _ client.Destination) (client.Impl, error) {
				bl = nil
				if block {
					bl = make(chan struct{})
				}
				return &fclient.Client{Context: ctx, Updates: ups, BlockAfterSync: bl}, nil
			})
			inner := client.New()
			rc := client.Reconnect(inner, nil, nil)
			conn, next, closeRet, after := false, 1, false, 0
			streams := 0
			h := func(n client.Notification) error {
				v.mu.Lock()
				defer v.mu.Unlock()
				if closeRet {
					after++
					if after > 2 { // Connected and one message
						vh.Fail(t, "%d notifications after Close returned (seed case %d)", after, i)
					}
				}
				switch n := n.(type) {
				case client.Connected:
					conn, next = true, 1
					streams++
				case client.Update:
					if !conn || n.Val != next {
						vh.Fail(t, "update %v, want %d, connected %v", n.Val, next, conn)
					}
					next++
				}
				return nil
			}
			done := make(chan struct{})
			sub := func() {
				defer close(done)
				rc.Subscribe(context.Background(), client.Query{Type: client.Stream, NotificationHandler: h, Queries: []client.Path{{"a"}}, Addrs: []string{"x"}}, "fake")
			}
			early := rd.Intn(3) == 0
			if early {
				rc.Close()
				closeRet = true
				go sub()
			} else {
				go sub()
				time.Sleep(time.Duration(rd.Intn(9000)) * time.Millisecond)
				rc.Close()
				v.mu.Lock()
				closeRet = true
				v.mu.Unlock()
			}
			select {
			case <-done:
			case <-time.After(time.Hour):
				vh.Fail(t, "Subscribe does not return (case %d)", i)
			}
			vh.Stat("fake streams", streams)
		})
	}
}

type v18srv struct {
	gpb.UnimplementedGNMIServer
	f func(gpb.GNMI_SubscribeServer) error
}

func (s *v18srv) Subscribe(st gpb.GNMI_SubscribeServer) error { return s.f(st) }

// The gNMI transport: Connected first on every stream, order kept, and Close
// returns while the server stays silent.
func TestVerifC18GNMI(t *testing.T) {
	defer vh.Flush()
	defer func(a, b time.Duration) { client.RetryBaseDelay, client.RetryMaxDelay = a, b }(client.RetryBaseDelay, client.RetryMaxDelay)
	client.RetryBaseDelay, client.RetryMaxDelay = 5*time.Millisecond, 20*time.Millisecond
	client.RegisterTest(gclient.Type, gclient.New)
	for i := 0; i < vh.N(20); i++ {
		rd := vh.Rand("c18g", i)
		var mu sync.Mutex
		streamN := 0
		ends := 2 + rd.Intn(4)
		srv := grpc.NewServer()
		gpb.RegisterGNMIServer(srv, &v18srv{f: func(st gpb.GNMI_SubscribeServer) error {
			if _, err := st.Recv(); err != nil {
				return err
			}
			mu.Lock()
			streamN++
			id := streamN
			k := rd.Intn(4)
			mu.Unlock()
			for j := 1; j <= k; j++ {
				if err := st.Send(&gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_Update{Update: &gpb.Notification{Timestamp: int64(j),
					Update: []*gpb.Update{{Path: &gpb.Path{Elem: []*gpb.PathElem{{Name: "a"}}}, Val: &gpb.TypedValue{Value: &gpb.TypedValue_IntVal{IntVal: int64(id*100 + j)}}}}}}}); err != nil {
					return err
				}
			}
			if id%2 == 0 {
				if err := st.Send(&gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_SyncResponse{SyncResponse: true}}); err != nil {
					return err
				}
			}
			if id < ends {
				if id%3 == 0 {
					return errors.New("stream fails")
				}
				return nil
			}
			<-st.Context().Done() // silent
			return st.Context().Err()
		}})
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			t.Fatal(err)
		}
		go srv.Serve(l)
		conn := false
		last := int64(0)
		disc, resets, connN := 0, 0, 0
		c := client.New()
		rc := client.Reconnect(c, func() { mu.Lock(); disc++; conn = false; mu.Unlock() }, func() { mu.Lock(); resets++; mu.Unlock() })
		h := func(n client.Notification) error {
			mu.Lock()
			defer mu.Unlock()
			switch n := n.(type) {
			case client.Connected:
				if conn {
					vh.Fail(t, "Connected twice on a stream")
				}
				conn = true
				connN++
			case client.Update:
				x := n.Val.(int64)
				if !conn || x <= last {
					vh.Fail(t, "update %d after %d, connected %v", x, last, conn)
				}
				last = x
				vh.Stat("gnmi updates", 1)
			case client.Sync:
				if !conn {
					vh.Fail(t, "Sync before Connected")
				}
			}
			return nil
		}
		done := make(chan struct{})
		go func() {
			defer close(done)
			rc.Subscribe(context.Background(), client.Query{Type: client.Stream, NotificationHandler: h, Queries: []client.Path{{"a"}}, Addrs: []string{l.Addr().String()}, Timeout: 20 * time.Second}, gclient.Type)
		}()
		for k := 0; ; k++ {
			mu.Lock()
			n := streamN
			mu.Unlock()
			if n >= ends {
				break
			}
			if k > 6000 {
				vh.Fail(t, "only %d of %d streams after %d disconnects: the client does not resubscribe", n, ends, disc)
			}
			time.Sleep(5 * time.Millisecond)
		}
		if ok := vh.Within(60*time.Second, func() { rc.Close(); <-done }); !ok {
			vh.Fail(t, "Close or Subscribe does not return while the server is silent")
		}
		mu.Lock()
		if disc != resets+1 || disc < ends {
			vh.Fail(t, "%d disconnects, %d resets for %d streams", disc, resets, ends)
		}
		mu.Unlock()
		srv.Stop()
		vh.Stat("gnmi streams", ends)
	}
}
