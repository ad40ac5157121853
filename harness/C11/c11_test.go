package coalesce_test

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/openconfig/gnmi/coalesce"
	vh "github.com/openconfig/gnmi/verifh"
)

type qmodel struct {
	items  []interface{}
	dup    map[interface{}]uint32
	closed bool
}

type errCtx struct{ context.Context }

// TestVerifC11Seq: every short history, against a list with counters.
func TestVerifC11Seq(t *testing.T) {
	defer vh.Flush()
	dead, cancel := context.WithCancel(context.Background())
	cancel()
	dl, cancel2 := context.WithDeadline(context.Background(), time.Now().Add(-time.Second))
	defer cancel2()
	p1, p2 := new(int), new(int)
	var items []interface{}
	play := func(ops []int) {
		q := coalesce.NewQueue()
		m := qmodel{dup: map[interface{}]uint32{}}
		var h []string
		fail := func(f string, a ...interface{}) {
			vh.Fail(t, "%s\n history: %s", fmt.Sprintf(f, a...), strings.Join(h, "; "))
		}
		for _, o := range ops {
			switch {
			case o < 3:
				it := items[o]
				h = append(h, fmt.Sprintf("Insert(#%d)", o))
				fresh, err := q.Insert(it)
				if m.closed {
					if !coalesce.IsClosedQueue(err) || fresh {
						fail("Insert after Close = %v, %v", fresh, err)
					}
					break
				}
				if err != nil {
					fail("Insert: %v", err)
				}
				_, pending := m.dup[it]
				if fresh == pending {
					fail("Insert = %v, item pending: %v", fresh, pending)
				}
				if pending {
					m.dup[it]++
				} else {
					m.dup[it] = 0
					m.items = append(m.items, it)
				}
			case o == 3 || o == 4:
				h = append(h, "Next")
				ctx := context.Background()
				wantErr := error(nil)
				if len(m.items) == 0 && !m.closed { // would wait: use a context that is already over
					ctx, wantErr = dead, context.Canceled
					if o == 4 {
						ctx, wantErr = dl, context.DeadlineExceeded
					}
				}
				var it interface{}
				var n uint32
				var err error
				if !vh.Within(20*time.Second, func() { it, n, err = q.Next(ctx) }) {
					fail("Next does not return")
				}
				switch {
				case len(m.items) > 0:
					if err != nil || it != m.items[0] || n != m.dup[it] {
						fail("Next = %v, %d, %v want %v, %d", it, n, err, m.items[0], m.dup[m.items[0]])
					}
					delete(m.dup, it)
					m.items = m.items[1:]
				case m.closed:
					if !coalesce.IsClosedQueue(err) {
						fail("Next on a closed empty queue = %v, %d, %v", it, n, err)
					}
				default:
					if !errors.Is(err, wantErr) || coalesce.IsClosedQueue(err) {
						fail("Next with an ended context = %v, %d, %v want %v", it, n, err, wantErr)
					}
				}
			case o == 5:
				h = append(h, "Close")
				q.Close()
				m.closed = true
			}
			if q.Len() != len(m.items) {
				fail("Len = %d want %d", q.Len(), len(m.items))
			}
			if q.IsClosed() != m.closed {
				fail("IsClosed = %v want %v", q.IsClosed(), m.closed)
			}
		}
	}
	n := 0
	for _, al := range [][]interface{}{{"a", "b", 3}, {p1, p2, struct{}{}}} {
		items = al
		max := 6
		if vh.Thorough() {
			max = 8
		}
		ops := make([]int, max)
		var rec func(i int)
		rec = func(i int) {
			if i == max {
				play(ops)
				n++
				return
			}
			for o := 0; o < 6; o++ {
				ops[i] = o
				rec(i + 1)
			}
		}
		rec(0)
	}
	for i := 0; i < vh.N(3000); i++ {
		rd := vh.Rand("c11", i)
		ops := make([]int, 10+rd.Intn(150))
		for j := range ops {
			ops[j] = rd.Intn(5)
			if rd.Intn(60) == 0 {
				ops[j] = 5
			}
		}
		play(ops)
		n++
	}
	vh.Stat("histories", n)
}

type item struct{ p, k int }

// TestVerifC11Conc: many producers and one consumer, close or cancellation at an
// arbitrary moment, with schedule points before every statement of the queue.
func TestVerifC11Conc(t *testing.T) {
	defer vh.Flush()
	more := vh.Budget(14 * time.Second)
	t.Run("g", func(t *testing.T) {
		for w := 0; w < 6; w++ {
			w := w
			t.Run(fmt.Sprint(w), func(t *testing.T) {
				t.Parallel()
				for i := w; more() && !t.Failed(); i += 6 {
					conc(t, i)
					vh.Stat("schedules", 1)
				}
			})
		}
	})
}

func conc(t *testing.T, i int) {
	rd := vh.Rand("c11c", i)
	vh.Perturb([]int64{0, 40, 200, 700}[rd.Intn(4)])
	q := coalesce.NewQueue()
	np := 1 + rd.Intn(4)
	per := 1 + rd.Intn(12)
	shared := rd.Intn(2) == 0 // items inserted repeatedly
	space := 1 + rd.Intn(3)
	mode := rd.Intn(3) // 0: close after the producers, 1: close during, 2: cancel during
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()

	var mu sync.Mutex
	accepted := map[interface{}]int{}    // successful insertions
	beforeClose := map[interface{}]int{} // of those, completed before Close was called
	closing := false
	var pw sync.WaitGroup
	fails := make(chan string, 64)
	for p := 0; p < np; p++ {
		pw.Add(1)
		go func(p int) {
			defer pw.Done()
			for k := 0; k < per; k++ {
				it := item{p, k}
				if shared {
					it = item{0, (k + p) % space}
				}
				mu.Lock()
				after := closing && mode == 1 && q.IsClosed()
				mu.Unlock()
				_, err := q.Insert(it)
				if after && err == nil {
					fails <- "Insert after Close succeeds"
				}
				mu.Lock()
				if err == nil {
					accepted[it]++
					if !closing {
						beforeClose[it]++
					}
				} else if !closing {
					fails <- fmt.Sprintf("Insert before Close: %v", err)
				}
				mu.Unlock()
			}
		}(p)
	}
	// the consumer
	type dlv struct {
		it interface{}
		n  uint32
	}
	var got []dlv
	var endErr error
	cdone := make(chan struct{})
	go func() {
		defer close(cdone)
		for {
			it, n, err := q.Next(ctx)
			if err != nil {
				endErr = err
				return
			}
			mu.Lock()
			got = append(got, dlv{it, n})
			mu.Unlock()
		}
	}()
	total := func() int {
		mu.Lock()
		defer mu.Unlock()
		s := 0
		for _, d := range got {
			s += 1 + int(d.n)
		}
		return s
	}
	switch mode {
	case 0:
		pw.Wait()
		// without any further event the consumer must come to see every insertion
		want := np * per
		end := time.Now().Add(20 * time.Second)
		for total() != want {
			if time.Now().After(end) {
				vh.Fail(t, "lost wake-up or lost item: %d insertions, consumer saw %d (queue length %d)", want, total(), q.Len())
			}
			time.Sleep(20 * time.Microsecond)
		}
		mu.Lock()
		closing = true
		mu.Unlock()
		q.Close()
	case 1:
		time.Sleep(time.Duration(rd.Intn(60)) * time.Microsecond)
		mu.Lock()
		closing = true
		mu.Unlock()
		q.Close()
	case 2:
		time.Sleep(time.Duration(rd.Intn(60)) * time.Microsecond)
		cancel()
	}
	select {
	case <-cdone:
	case <-time.After(20 * time.Second):
		vh.Fail(t, "consumer not woken (mode %d: 0,1 close; 2 cancellation)", mode)
	}
	pw.Wait()
	close(fails)
	for f := range fails {
		vh.Fail(t, "%s", f)
	}
	if mode == 2 {
		if endErr != context.Canceled {
			vh.Fail(t, "consumer of a cancelled context ends with %v", endErr)
		}
	} else if !coalesce.IsClosedQueue(endErr) {
		vh.Fail(t, "consumer of a closed queue ends with %v", endErr)
	}
	// conservation and order
	seen := map[interface{}]int{}
	last := map[int]int{}
	for _, d := range got {
		seen[d.it] += 1 + int(d.n)
		if it := d.it.(item); !shared {
			if l, ok := last[it.p]; ok && it.k <= l {
				vh.Fail(t, "order: producer %d item %d delivered after item %d", it.p, it.k, l)
			}
			last[it.p] = it.k
		}
	}
	for it, n := range seen {
		if n > accepted[it] {
			vh.Fail(t, "item %v: %d insertions, deliveries account for %d", it, accepted[it], n)
		}
	}
	if mode != 2 {
		for it, n := range beforeClose {
			if seen[it] < n {
				vh.Fail(t, "item %v: %d insertions completed before Close, deliveries account for %d", it, n, seen[it])
			}
		}
	}
}
