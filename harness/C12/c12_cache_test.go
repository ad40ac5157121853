package cache_test

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/metadata"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	vh "github.com/openconfig/gnmi/verifh"
	"github.com/openconfig/gnmi/verifh/vmsg"
	"google.golang.org/protobuf/proto"
)

func v12Leaves(c *cache.Cache) map[string]string {
	out := map[string]string{}
	c.Query("dev", nil, func(p []string, _ *ctree.Leaf, v interface{}) error {
		if len(p) > 0 && p[0] == metadata.Root {
			return nil
		}
		b, _ := proto.MarshalOptions{Deterministic: true}.Marshal(v.(*pb.Notification))
		out[fmt.Sprintf("%q", p)] = string(b)
		return nil
	})
	return out
}

// TestVerifC12Cache: no notification makes the ingest path panic, and a rejected
// one leaves the stored data intact.
func TestVerifC12Cache(t *testing.T) {
	defer vh.Flush()
	for i := 0; i < vh.N(9000); i++ {
		rd := vh.Rand("c12c", i)
		var opts []cache.Option
		if rd.Intn(2) == 0 {
			opts = append(opts, cache.DisableEventDrivenEmulation())
		}
		if rd.Intn(2) == 0 {
			opts = append(opts, cache.WithFutureThreshold(30))
		}
		c := cache.New([]string{"dev"}, opts...)
		c.SetClient(func(l *ctree.Leaf) { _ = l.Value().(*pb.Notification) })
		var log []string
		for k := 2 + rd.Intn(14); k > 0; k-- {
			n := vmsg.Notification(rd)
			if len(n.Update) == 1 && rd.Intn(4) == 0 { // same leaf, other value type
				n = vmsg.Wire(n)
				c.GnmiUpdate(vmsg.Wire(n))
				n.Timestamp++
				n.Update[0].Val = vmsg.Val(rd, 0)
				log = append(log, fmt.Sprint("and before: ", n))
			}
			log = append(log, fmt.Sprint(n))
			if len(log) > 12 {
				log = log[1:]
			}
			pre := v12Leaves(c)
			var err error
			if p := vh.NoPanic(func() { err = c.GnmiUpdate(n) }); p != nil {
				vh.Fail(t, "GnmiUpdate panics: %v; last notifications:\n  %s", p, strings.Join(log, "\n  "))
			}
			vh.Stat("notifications", 1)
			if err != nil && (n.Atomic || len(n.Update)+len(n.Delete) <= 1) {
				vh.Stat("rejected", 1)
				post := v12Leaves(c)
				ok := len(pre) == len(post)
				for k, v := range pre {
					ok = ok && post[k] == v
				}
				if !ok {
					vh.Fail(t, "rejected (%v) but the stored data changed; last notifications:\n  %s", err, strings.Join(log, "\n  "))
				}
			}
			if rd.Intn(4) == 0 {
				what := rd.Intn(6)
				f := map[int]func(){
					0: c.UpdateMetadata, 1: c.UpdateSize, 2: func() { c.Reset("dev") }, 3: func() { c.Sync("dev") }, 4: func() { c.Connect("dev") },
					5: func() {
						c.Query([]string{"dev", "*", "no"}[rd.Intn(3)], []string{[]string{"*", "a", ""}[rd.Intn(3)]}, func([]string, *ctree.Leaf, interface{}) error { return nil })
					},
				}[what]
				if p := vh.NoPanic(f); p != nil {
					vh.Fail(t, "operation %d panics: %v; last notifications:\n  %s", what, p, strings.Join(log, "\n  "))
				}
			}
		}
		if i < 2 {
			sort.Strings(log)
			vh.Sample("%s", log[0])
		}
	}
}
