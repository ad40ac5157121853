package subscribe

import (
	"context"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/openconfig/gnmi/cache"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	vh "github.com/openconfig/gnmi/verifh"
	"github.com/openconfig/gnmi/verifh/vmsg"
)

// TestVerifC12Subscribe: no subscribe request makes the handler panic, whatever the
// cache holds or receives meanwhile. A panic in a goroutine of the handler ends the
// test binary; the history in progress is printed beforehand on request.
func TestVerifC12Subscribe(t *testing.T) {
	defer vh.Flush()
	for i := 0; i < vh.N(1500); i++ {
		rd := vh.Rand("c12s", i)
		c := cache.New([]string{"dev"})
		if rd.Intn(6) == 0 {
			c = cache.New(nil)
		}
		var opts []Option
		if rd.Intn(2) == 0 {
			opts = append(opts, WithStats())
		}
		s, _ := NewServer(c, opts...)
		c.SetClient(s.Update)
		var log []string
		feed := func() {
			n := vmsg.Notification(rd)
			log = append(log, fmt.Sprint("GnmiUpdate ", n))
			if p := vh.NoPanic(func() { c.GnmiUpdate(n) }); p != nil {
				vh.Fail(t, "update feed panics: %v; history:\n  %s", p, strings.Join(log, "\n  "))
			}
		}
		for k := rd.Intn(8); k > 0; k-- {
			feed()
		}
		for k := 1 + rd.Intn(2); k > 0; k-- {
			req := vmsg.SubscribeRequest(rd)
			log = append(log, fmt.Sprint("Subscribe ", req))
			st := newVStream(context.Background(), req)
			for j := rd.Intn(3); j > 0; j-- {
				st.reqs <- vmsg.SubscribeRequest(rd)
			}
			done := make(chan error, 1)
			go func() {
				defer func() {
					if p := recover(); p != nil {
						done <- fmt.Errorf("PANIC %v", p)
					}
				}()
				done <- s.Subscribe(st)
			}()
			for j := rd.Intn(5); j > 0; j-- {
				feed()
			}
			if rd.Intn(8) == 0 {
				c.Reset("dev")
			}
			if rd.Intn(12) == 0 {
				c.Remove("dev")
			}
			time.Sleep(50 * time.Microsecond)
			st.cancel()
			select {
			case err := <-done:
				if err != nil && strings.HasPrefix(err.Error(), "PANIC") {
					vh.Fail(t, "Subscribe panics: %v; history:\n  %s", err, strings.Join(log, "\n  "))
				}
			case <-time.After(20 * time.Second):
				vh.Fail(t, "Subscribe neither processes the request nor returns; history:\n  %s", strings.Join(log, "\n  "))
			}
			for _, r := range st.responses() {
				if r.GetResponse() == nil {
					vh.Fail(t, "empty response")
				}
			}
			vh.Stat("requests", 1)
		}
		if i < 2 {
			vh.Sample("%s", log[len(log)-1])
		}
	}
	_ = pb.SubscriptionList_ONCE
}
