package latency_test

import (
	"fmt"
	"testing"
	"time"

	"github.com/openconfig/gnmi/latency"
	vh "github.com/openconfig/gnmi/verifh"
)

type capture map[string]int64

func (c capture) SetInt(n string, v int64) error { c[n] = v; return nil }

// Every exported statistic lies between the smallest and the largest latency of
// the batches inside the window (averages up to the averaging precision).
func TestVerifC15Latency(t *testing.T) {
	defer vh.Flush()
	defer func() { latency.Now = time.Now }()
	for i := 0; i < vh.N(20000); i++ {
		rd := vh.Rand("lat", i)
		now := time.Unix(1000, 0)
		latency.Now = func() time.Time { return now }
		period := time.Duration(1+rd.Intn(3)) * time.Second
		var sizes []time.Duration
		for k := 1 + rd.Intn(3); k > 0; k-- {
			sizes = append(sizes, time.Duration(1+rd.Intn(4))*period)
		}
		prec := []time.Duration{0, 1, 7, 1000}[rd.Intn(4)]
		var opts *latency.Options
		if prec != 0 {
			opts = &latency.Options{AvgPrecision: prec}
		} else {
			prec = 1
		}
		l := latency.New(sizes, opts)
		type sample struct {
			at  time.Time
			end time.Time // when its batch was closed, zero: pending
			lat int64
		}
		var ss []sample
		hist := fmt.Sprintf("period %v windows %v precision %v:", period, sizes, prec)
		for step := 3 + rd.Intn(20); step > 0; step-- {
			for k := rd.Intn(4); k > 0; k-- {
				lat := int64(rd.Intn(3000)) - 200
				if rd.Intn(4) == 0 {
					lat = int64(rd.Intn(5)) - 2
				}
				if rd.Intn(3) == 0 {
					now = now.Add(time.Duration(rd.Int63n(int64(period))) / 8)
				}
				l.Compute(now.Add(-time.Duration(lat)))
				ss = append(ss, sample{at: now, lat: lat})
				hist += fmt.Sprintf(" +%d", lat)
			}
			now = now.Add(period)
			if rd.Intn(8) == 0 {
				now = now.Add(period * time.Duration(rd.Intn(5)))
			}
			for k := range ss {
				if ss[k].end.IsZero() {
					ss[k].end = now
				}
			}
			c := capture{}
			if rd.Intn(6) == 0 {
				l.UpdateLast(c)
			} else {
				l.UpdateReset(c)
			}
			hist += fmt.Sprintf(" @%v %v", now.Unix(), c)
			for _, sz := range sizes {
				lo, hi, n := int64(0), int64(0), 0
				for _, s := range ss {
					if s.end.After(now.Add(-sz)) {
						if n == 0 || s.lat < lo {
							lo = s.lat
						}
						if n == 0 || s.lat > hi {
							hi = s.lat
						}
						n++
					}
				}
				for _, st := range []latency.StatType{latency.Avg, latency.Max, latency.Min} {
					v, ok := c[latency.MetadataName(sz, st)]
					if !ok {
						continue
					}
					slack := int64(0)
					if st == latency.Avg {
						slack = int64(prec) - 1
					}
					if n == 0 || v < lo-slack || v > hi+slack {
						vh.Fail(t, "window %v: exported %v %d, the %d latencies in the window lie in [%d,%d]\n %s", sz, st, v, n, lo, hi, hist)
					}
					vh.Stat("exported", 1)
				}
			}
		}
	}
}
