package connection

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	vh "github.com/openconfig/gnmi/verifh"
	"google.golang.org/grpc"
	"google.golang.org/grpc/connectivity"
	"google.golang.org/grpc/credentials/insecure"
)

// a dial made through the manager
type v16dial struct {
	addr       string
	start, end int64 // event numbers; end 0 while in flight
	published  int64 // when a requester first got its error
	conn       *grpc.ClientConn
	err        error
}

type v16 struct {
	t     *testing.T
	mu    sync.Mutex
	clock int64
	dials []*v16dial
	log   []string
	held  map[*grpc.ClientConn]int
}

func (v *v16) tick(f string, a ...interface{}) int64 {
	v.clock++
	v.log = append(v.log, fmt.Sprintf("%d: ", v.clock)+fmt.Sprintf(f, a...))
	return v.clock
}

func (v *v16) fail(f string, a ...interface{}) {
	l := v.log
	if len(l) > 60 {
		l = l[len(l)-60:]
	}
	vh.Perturb(0)
	vh.Fail(v.t, "%s\n history:\n  %s", fmt.Sprintf(f, a...), strings.Join(l, "\n  "))
}

func v16conn(addr string) *grpc.ClientConn {
	c, err := grpc.NewClient("passthrough:///"+addr, grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		panic(err)
	}
	return c
}

func v16open(c *grpc.ClientConn) bool { return c.GetState() != connectivity.Shutdown }

// request makes one request and judges its outcome. hold is called while the
// connection is held.
func (v *v16) request(m *Manager, ctx context.Context, who int, addr, dialer string, hold func(), twice bool) {
	v.mu.Lock()
	t0 := v.tick("%d requests %s", who, addr)
	v.mu.Unlock()
	c, done, err := m.Connection(ctx, addr, dialer)
	v.mu.Lock()
	t1 := v.tick("%d gets %v", who, err)
	if done == nil {
		v.mu.Unlock()
		v.fail("nil done function")
	}
	if err != nil {
		shared := ctx.Err() != nil && errors.Is(err, ctx.Err())
		for _, d := range v.dials {
			// the outcome of a dial whose result was not known when the request was made
			if d.addr == addr && d.err != nil && d.err == err && d.start <= t1 && (d.published == 0 || d.published >= t0) {
				shared = true
				if d.published == 0 {
					d.published = t1
				}
			}
		}
		if strings.Contains(err.Error(), "dialer") { // a request for an unknown dialer may be joined
			shared = true
		}
		if !shared {
			v.mu.Unlock()
			v.fail("%d: error %v is not the outcome of a dial in flight during the request", who, err)
		}
		v.mu.Unlock()
		done() // no effect
		if twice {
			done()
		}
		return
	}
	if c == nil || !v16open(c) {
		v.mu.Unlock()
		v.fail("%d is handed the closed connection of %s", who, addr)
	}
	mine := false
	for _, d := range v.dials {
		mine = mine || (d.addr == addr && d.conn == c && d.err == nil)
	}
	if !mine {
		v.mu.Unlock()
		v.fail("%d is handed a connection that is not of %s", who, addr)
	}
	v.held[c]++
	v.mu.Unlock()
	hold()
	if !v16open(c) {
		v.fail("the connection of %s was closed while %d held it", addr, who)
	}
	v.mu.Lock()
	v.tick("%d releases %s", who, addr)
	v.held[c]--
	v.mu.Unlock()
	done()
	if twice {
		hold()
		done()
	}
}

func (v *v16) quiescent(m *Manager) {
	for _, d := range v.dials {
		if d.conn != nil && v16open(d.conn) {
			v.fail("the connection of %s dialled at %d is open although nobody holds it", d.addr, d.start)
		}
	}
}

func (v *v16) dialer(wait func(*rand.Rand, context.Context), rnd func() *rand.Rand, failPct int) Dial {
	return func(ctx context.Context, addr string, _ ...grpc.DialOption) (*grpc.ClientConn, error) {
		rd := rnd()
		d := &v16dial{addr: addr}
		v.mu.Lock()
		d.start = v.tick("dial of %s starts", addr)
		for _, o := range v.dials {
			if o.addr == addr && o.end == 0 {
				v.mu.Unlock()
				v.fail("two dials of %s are in flight", addr)
			}
			if o.addr == addr && v.held[o.conn] > 0 && o.err == nil {
				v.mu.Unlock()
				v.fail("%s is dialled again although its connection is held", addr)
			}
		}
		v.dials = append(v.dials, d)
		v.mu.Unlock()
		wait(rd, ctx)
		v.mu.Lock()
		defer v.mu.Unlock()
		switch {
		case ctx.Err() != nil:
			d.err = fmt.Errorf("dial %d cancelled", d.start)
		case rd.Intn(100) < failPct:
			d.err = fmt.Errorf("dial %d refused", d.start)
		default:
			d.conn = v16conn(addr)
		}
		d.end = v.tick("dial of %s ends: %v", addr, d.err)
		return d.conn, d.err
	}
}

// TestVerifC16Timed: scripted timing under virtual time.
func TestVerifC16Timed(t *testing.T) {
	defer vh.Flush()
	for i := 0; i < vh.N(2500); i++ {
		rd := vh.Rand("c16t", i)
		synctest.Test(t, func(t *testing.T) {
			v := &v16{t: t, held: map[*grpc.ClientConn]int{}}
			var rmu sync.Mutex
			rnd := func() *rand.Rand { rmu.Lock(); defer rmu.Unlock(); return rand.New(rand.NewSource(rd.Int63())) }
			wait := func(r *rand.Rand, ctx context.Context) {
				select {
				case <-time.After(time.Duration(1+r.Intn(4)) * time.Millisecond):
				case <-ctx.Done():
				}
			}
			d := v.dialer(wait, rnd, []int{0, 30, 60}[rd.Intn(3)])
			m, err := NewManagerCustom(map[string]Dial{DEFAULT: d, "other": d})
			if err != nil {
				t.Fatal(err)
			}
			addrs := []string{"a", "b", "c"}[:1+rd.Intn(3)]
			var wg sync.WaitGroup
			for w := 2 + rd.Intn(6); w > 0; w-- {
				w, r := w, rnd()
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 1 + r.Intn(5); k > 0; k-- {
						time.Sleep(time.Duration(r.Intn(6)) * time.Millisecond)
						ctx, cancel := context.WithCancel(context.Background())
						if r.Intn(3) == 0 {
							after := time.Duration(r.Intn(4)) * time.Millisecond
							go func() { time.Sleep(after); cancel() }()
						}
						dl := []string{DEFAULT, DEFAULT, "other", "none"}[r.Intn(4)]
						if dl == "none" && r.Intn(3) > 0 {
							dl = DEFAULT
						}
						v.request(m, ctx, w, addrs[r.Intn(len(addrs))], dl, func() { time.Sleep(time.Duration(r.Intn(6)) * time.Millisecond) }, r.Intn(3) == 0)
						vh.Stat("requests", 1)
						cancel()
					}
				}()
			}
			wg.Wait()
			time.Sleep(20 * time.Millisecond)
			synctest.Wait()
			v.quiescent(m)
			if i < 2 && len(v.log) > 3 {
				vh.Sample("%s", strings.Join(v.log[:3], "; "))
			}
		})
	}
}

// TestVerifC16Race: real parallelism with schedule points, under the race detector.
func TestVerifC16Race(t *testing.T) {
	defer vh.Flush()
	run := vh.Budget(8 * time.Second)
	for i := 0; run(); i++ {
		rd := vh.Rand("c16r", i)
		v := &v16{t: t, held: map[*grpc.ClientConn]int{}}
		var rmu sync.Mutex
		rnd := func() *rand.Rand { rmu.Lock(); defer rmu.Unlock(); return rand.New(rand.NewSource(rd.Int63())) }
		d := v.dialer(func(r *rand.Rand, _ context.Context) {
			for k := r.Intn(20); k > 0; k-- {
				vh.Point()
			}
		}, rnd, []int{0, 30, 60}[rd.Intn(3)])
		m, err := NewManagerCustom(map[string]Dial{DEFAULT: d})
		if err != nil {
			t.Fatal(err)
		}
		vh.Perturb(int64(rd.Intn(3)) * 200)
		var wg sync.WaitGroup
		for w := 2 + rd.Intn(5); w > 0; w-- {
			w, r := w, rnd()
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 1 + r.Intn(8); k > 0; k-- {
					ctx, cancel := context.WithCancel(context.Background())
					if r.Intn(4) == 0 {
						go cancel()
					}
					v.request(m, ctx, w, []string{"a", "b"}[r.Intn(2)], DEFAULT, func() {
						for k := r.Intn(20); k > 0; k-- {
							vh.Point()
						}
					}, r.Intn(3) == 0)
					vh.Stat("requests", 1)
					cancel()
				}
			}()
		}
		wg.Wait()
		vh.Perturb(0)
		v.mu.Lock()
		v.quiescent(m)
		v.mu.Unlock()
	}
}
