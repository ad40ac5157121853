package cache_test

import (
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/metadata"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	vh "github.com/openconfig/gnmi/verifh"
)

// One update stream per target while the periodic refresh runs, under the race
// detector and with schedule points before every statement of the cache.
func TestVerifC15Conc(t *testing.T) {
	defer vh.Flush()
	vh.Perturb(60)
	defer vh.Perturb(0)
	more := vh.Budget(20 * time.Second)
	for round := 0; more(); round++ {
		rd := vh.Rand("c15c", round)
		targets := []string{"dev0", "dev1"}[:1+rd.Intn(2)]
		win, _ := cache.WithLatencyWindows([]string{"2s"}, time.Second)
		c := cache.New(targets, win, cache.WithFutureThreshold(time.Hour))
		var fmu sync.Mutex
		fed := 0
		c.SetClient(func(l *ctree.Leaf) { fmu.Lock(); fed++; _ = l.Value(); fmu.Unlock() })
		lifecycle := rd.Intn(2) == 0
		if !lifecycle {
			for _, tg := range targets {
				c.Sync(tg)
				c.Connect(tg)
			}
			c.UpdateMetadata()
		}
		type tally struct{ submitted, dels, empty, other, stale, fut, latest int64 }
		base := map[string]int64{}
		sum := func(tg string) int64 {
			s := int64(0)
			for _, k := range []string{metadata.UpdateCount, metadata.SuppressedCount, metadata.StaleCount, metadata.FutureCount} {
				v, _ := c.Metadata()[tg].GetInt(k)
				s += v
			}
			return s
		}
		for _, tg := range targets {
			base[tg] = sum(tg)
		}
		tallies := make([]tally, len(targets))
		seeds := make([]int64, len(targets))
		for i := range seeds {
			seeds[i] = rd.Int63()
		}
		var wg, rg sync.WaitGroup
		stop := make(chan struct{})
		for k := 0; k < 2; k++ {
			rg.Add(1)
			go func(k int) {
				defer rg.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					if k == 0 {
						c.UpdateMetadata()
					} else {
						c.UpdateSize()
					}
				}
			}(k)
		}
		now := time.Now().UnixNano()
		for i, tg := range targets {
			wg.Add(1)
			go func(i int, tg string) {
				defer wg.Done()
				rd := vh.Rand("c15w", int(seeds[i]%1000000007))
				ta := &tallies[i]
				for op := 0; op < 30; op++ {
					n := &pb.Notification{Prefix: &pb.Path{Target: tg}, Timestamp: now + int64(rd.Intn(20))}
					p := &pb.Path{Elem: []*pb.PathElem{{Name: fmt.Sprint("x", rd.Intn(3))}, {Name: "leaf"}}}
					switch rd.Intn(8) {
					case 0:
						n.Delete = []*pb.Path{p}
						ta.dels++
					case 1:
						ta.empty++
					case 2:
						if lifecycle {
							switch rd.Intn(3) {
							case 0:
								c.Sync(tg)
							case 1:
								c.Connect(tg)
							case 2:
								c.ConnectError(tg, errors.New("x"))
							}
							continue
						}
						fallthrough
					default:
						n.Update = []*pb.Update{{Path: p, Val: &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: int64(rd.Intn(3))}}}}
						ta.submitted++
					}
					err := c.GnmiUpdate(n)
					if len(n.Update) > 0 {
						switch err {
						case nil:
							if n.Timestamp > ta.latest {
								ta.latest = n.Timestamp
							}
						case cache.ErrStale:
							ta.stale++
						case cache.ErrFuture:
							ta.fut++
						default:
							ta.other++
						}
					}
				}
			}(i, tg)
		}
		wg.Wait()
		close(stop)
		rg.Wait()
		c.UpdateMetadata()
		for i, tg := range targets {
			md := c.Metadata()[tg]
			get := func(k string) int64 { v, _ := md.GetInt(k); return v }
			leaves := int64(0)
			c.Query(tg, nil, func(p []string, _ *ctree.Leaf, _ interface{}) error {
				if p[0] != metadata.Root {
					leaves++
				}
				return nil
			})
			if lc := get(metadata.LeafCount); lc != leaves || lc != get(metadata.AddCount)-get(metadata.DelCount) {
				vh.Fail(t, "round %d: leaf count %d, added %d, deleted %d, %d leaves stored", round, lc, get(metadata.AddCount), get(metadata.DelCount), leaves)
			}
			ta := tallies[i]
			if e := get(metadata.EmptyCount); e != ta.empty {
				vh.Fail(t, "round %d: %d empty notifications counted as %d", round, ta.empty, e)
			}
			if got, want := sum(tg)-base[tg], ta.submitted-ta.other+ta.dels; !lifecycle && got != want {
				vh.Fail(t, "round %d: %d updates (%d with other errors) and %d deletes counted %d times", round, ta.submitted, ta.other, ta.dels, got)
			}
			if lt := get(metadata.LatestTimestamp); ta.latest > 0 && lt != ta.latest {
				vh.Fail(t, "round %d: latest timestamp %d, greatest accepted %d", round, lt, ta.latest)
			}
		}
		vh.Stat("rounds", 1)
	}
}
