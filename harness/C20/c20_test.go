package queue_test

import (
	"fmt"
	"math"
	"math/rand"
	"testing"

	"github.com/openconfig/gnmi/testing/fake/queue"
	fpb "github.com/openconfig/gnmi/testing/fake/proto"
	vh "github.com/openconfig/gnmi/verifh"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
)

// Executable form of the C20 contracts: the sequence returned by UpdateQueue.Next
// is judged against the configuration.

func pick(r *rand.Rand, xs ...int64) int64 { return xs[r.Intn(len(xs))] }

func lohi(r *rand.Rand) (int64, int64) {
	a := pick(r, 0, 1, -3, 5, 100, math.MinInt64, math.MaxInt64, math.MinInt64+1, -(1 << 62), 1<<62)
	b := pick(r, 0, 1, -3, 5, 100, math.MinInt64, math.MaxInt64, math.MaxInt64-1, -(1 << 62), 1<<62)
	if r.Intn(2) == 0 {
		a, b = int64(r.Intn(20)-10), int64(r.Intn(20)-10)
	}
	if a > b {
		a, b = b, a
	}
	return a, b
}

func genValue(r *rand.Rand, i int) *fpb.Value {
	v := &fpb.Value{Path: []string{"v", fmt.Sprint(i)}, Repeat: int32(r.Intn(6))}
	switch r.Intn(12) {
	case 0: // no timestamp
	case 1:
		v.Timestamp = &fpb.Timestamp{Timestamp: pick(r, 0, 1, math.MaxInt64, math.MaxInt64-3, 1<<62), DeltaMin: 0, DeltaMax: pick(r, 0, 1, 5, math.MaxInt64, 1<<62)}
	default:
		a := int64(r.Intn(4))
		v.Timestamp = &fpb.Timestamp{Timestamp: int64(r.Intn(8)), DeltaMin: a, DeltaMax: a + int64(r.Intn(3))}
	}
	if r.Intn(3) == 0 {
		v.Seed = int64(1 + r.Intn(5))
	}
	random := r.Intn(2) == 0
	n := 1 + r.Intn(4)
	switch r.Intn(9) {
	case 0:
		lo, hi := lohi(r)
		rg := &fpb.IntRange{Minimum: lo, Maximum: hi}
		iv := &fpb.IntValue{Value: []int64{lo, hi}[r.Intn(2)], Distribution: &fpb.IntValue_Range{Range: rg}}
		if r.Intn(2) == 0 {
			rg.DeltaMin, rg.DeltaMax = lohi(r)
		}
		v.Value = &fpb.Value_IntValue{IntValue: iv}
	case 1:
		l := &fpb.IntList{Random: random}
		for k := 0; k < n; k++ {
			l.Options = append(l.Options, int64(r.Intn(9)))
		}
		v.Value = &fpb.Value_IntValue{IntValue: &fpb.IntValue{Value: l.Options[0], Distribution: &fpb.IntValue_List{List: l}}}
	case 2:
		lo, hi := float64(r.Intn(20)-10), float64(r.Intn(20)-10)
		if lo > hi {
			lo, hi = hi, lo
		}
		rg := &fpb.DoubleRange{Minimum: lo, Maximum: hi}
		if r.Intn(2) == 0 {
			rg.DeltaMin, rg.DeltaMax = -float64(r.Intn(3)), float64(r.Intn(3))
		}
		v.Value = &fpb.Value_DoubleValue{DoubleValue: &fpb.DoubleValue{Value: lo, Distribution: &fpb.DoubleValue_Range{Range: rg}}}
	case 3:
		l := &fpb.DoubleList{Random: random}
		for k := 0; k < n; k++ {
			l.Options = append(l.Options, float64(r.Intn(9)))
		}
		v.Value = &fpb.Value_DoubleValue{DoubleValue: &fpb.DoubleValue{Value: l.Options[0], Distribution: &fpb.DoubleValue_List{List: l}}}
	case 4:
		l := &fpb.StringList{Random: random}
		for k := 0; k < n; k++ {
			l.Options = append(l.Options, fmt.Sprint("o", r.Intn(9)))
		}
		if r.Intn(2) == 0 {
			v.Value = &fpb.Value_StringValue{StringValue: &fpb.StringValue{Value: l.Options[0], Distribution: &fpb.StringValue_List{List: l}}}
		} else {
			v.Value = &fpb.Value_StringListValue{StringListValue: &fpb.StringListValue{Value: []string{l.Options[0]}, Distribution: &fpb.StringListValue_List{List: l}}}
		}
	case 5:
		l := &fpb.BoolList{Random: random, Options: []bool{true, false}[:1+r.Intn(2)]}
		v.Value = &fpb.Value_BoolValue{BoolValue: &fpb.BoolValue{Value: l.Options[0], Distribution: &fpb.BoolValue_List{List: l}}}
	case 6:
		us := []uint64{0, 1, 7, 100, math.MaxUint64, math.MaxUint64 - 1, 1 << 63, 1<<63 - 1, 1 << 62}
		lo, hi := us[r.Intn(len(us))], us[r.Intn(len(us))]
		if r.Intn(2) == 0 {
			lo, hi = uint64(r.Intn(9)), uint64(r.Intn(30))
		}
		if lo > hi {
			lo, hi = hi, lo
		}
		rg := &fpb.UintRange{Minimum: lo, Maximum: hi}
		if r.Intn(2) == 0 {
			rg.DeltaMin, rg.DeltaMax = lohi(r)
		}
		v.Value = &fpb.Value_UintValue{UintValue: &fpb.UintValue{Value: []uint64{lo, hi}[r.Intn(2)], Distribution: &fpb.UintValue_Range{Range: rg}}}
	case 7:
		l := &fpb.UintList{Random: random}
		for k := 0; k < n; k++ {
			l.Options = append(l.Options, uint64(r.Intn(9)))
		}
		v.Value = &fpb.Value_UintValue{UintValue: &fpb.UintValue{Value: l.Options[0], Distribution: &fpb.UintValue_List{List: l}}}
	case 8:
		switch r.Intn(6) {
		case 0:
			v.Value = &fpb.Value_Sync{Sync: 1}
		case 1:
			v.Value = &fpb.Value_Delete{Delete: &fpb.DeleteValue{}}
		case 2:
			v.Value = &fpb.Value_IntValue{IntValue: &fpb.IntValue{Value: 4}}
		case 3:
			v.Value = &fpb.Value_StringValue{StringValue: &fpb.StringValue{Value: "const"}}
		case 4:
			v.Value = &fpb.Value_StringListValue{StringListValue: &fpb.StringListValue{Value: []string{"x", "y"}}}
		case 5:
			v.Value = &fpb.Value_BoolValue{BoolValue: &fpb.BoolValue{Value: true}}
		}
	}
	return v
}

// inBounds: the emitted value lies within the configured range or option list.
func inBounds(c, e *fpb.Value) bool {
	switch x := e.Value.(type) {
	case *fpb.Value_IntValue:
		if rg := c.GetIntValue().GetRange(); rg != nil {
			return x.IntValue.Value >= rg.Minimum && x.IntValue.Value <= rg.Maximum
		}
		if l := c.GetIntValue().GetList(); l != nil {
			for _, o := range l.Options {
				if o == x.IntValue.Value {
					return true
				}
			}
			return false
		}
		return x.IntValue.Value == c.GetIntValue().Value
	case *fpb.Value_DoubleValue:
		if rg := c.GetDoubleValue().GetRange(); rg != nil {
			return x.DoubleValue.Value >= rg.Minimum && x.DoubleValue.Value <= rg.Maximum
		}
		for _, o := range c.GetDoubleValue().GetList().GetOptions() {
			if o == x.DoubleValue.Value {
				return true
			}
		}
		return false
	case *fpb.Value_UintValue:
		if rg := c.GetUintValue().GetRange(); rg != nil {
			return x.UintValue.Value >= rg.Minimum && x.UintValue.Value <= rg.Maximum
		}
		for _, o := range c.GetUintValue().GetList().GetOptions() {
			if o == x.UintValue.Value {
				return true
			}
		}
		return false
	case *fpb.Value_StringValue:
		if l := c.GetStringValue().GetList(); l != nil {
			for _, o := range l.Options {
				if o == x.StringValue.Value {
					return true
				}
			}
			return false
		}
		return x.StringValue.Value == c.GetStringValue().Value
	case *fpb.Value_StringListValue:
		ok := map[string]int{}
		l := c.GetStringListValue().GetList()
		if l == nil {
			return fmt.Sprint(x.StringListValue.Value) == fmt.Sprint(c.GetStringListValue().Value)
		}
		for _, o := range l.Options {
			ok[o]++
		}
		for _, s := range x.StringListValue.Value {
			if ok[s] == 0 {
				return false
			}
			ok[s]--
		}
		return true
	case *fpb.Value_BoolValue:
		l := c.GetBoolValue().GetList()
		if l == nil {
			return x.BoolValue.Value == c.GetBoolValue().Value
		}
		for _, o := range l.Options {
			if o == x.BoolValue.Value {
				return true
			}
		}
		return false
	case *fpb.Value_Sync:
		return c.GetSync() == x.Sync
	case *fpb.Value_Delete:
		_, ok := c.Value.(*fpb.Value_Delete)
		return ok
	}
	return false
}

func cfgText(vs []*fpb.Value) string {
	s := ""
	for _, v := range vs {
		s += "\n  " + prototext.MarshalOptions{}.Format(v)
	}
	return s
}

func clone(vs []*fpb.Value) []*fpb.Value {
	var o []*fpb.Value
	for _, v := range vs {
		o = append(o, proto.Clone(v).(*fpb.Value))
	}
	return o
}

// representable: every interval size and every sum the generator forms is an int64.
// Outside this class the generator has known findings (known_findings.txt), which
// TestVerifKnownC20 reproduces on their own inputs.
func representable(v *fpb.Value) bool {
	ok := func(lo, hi int64) bool { return lo > hi || (hi-lo >= 0 && hi-lo < math.MaxInt64) }
	plus := func(a, b int64) bool { s := a + b; return (s > a) == (b > 0) }
	if ts := v.GetTimestamp(); ts != nil {
		if !ok(ts.DeltaMin, ts.DeltaMax) || ts.DeltaMax > 1<<40 || ts.Timestamp > math.MaxInt64-1<<50 {
			return false
		}
	}
	if r := v.GetIntValue().GetRange(); r != nil {
		if r.DeltaMin != 0 || r.DeltaMax != 0 {
			return ok(r.DeltaMin, r.DeltaMax) && plus(r.Maximum, r.DeltaMax) && plus(r.Minimum, r.DeltaMin) &&
				plus(r.Maximum, r.DeltaMin) && plus(r.Minimum, r.DeltaMax)
		}
		return ok(r.Minimum, r.Maximum)
	}
	if r := v.GetUintValue().GetRange(); r != nil {
		if r.Maximum > math.MaxInt64 {
			return false
		}
		if r.DeltaMin != 0 || r.DeltaMax != 0 {
			return ok(r.DeltaMin, r.DeltaMax) && plus(int64(r.Maximum), r.DeltaMax) && plus(int64(r.Minimum), r.DeltaMax)
		}
		return ok(int64(r.Minimum), int64(r.Maximum))
	}
	return true
}

// The inputs of the known findings: generator intervals beyond int64.
func TestVerifKnownC20(t *testing.T) {
	ts := func() *fpb.Timestamp { return &fpb.Timestamp{Timestamp: 1, DeltaMin: 1, DeltaMax: 1} }
	iv := func(val int64, r *fpb.IntRange) *fpb.Value {
		return &fpb.Value{Path: []string{"v", "0"}, Timestamp: ts(), Value: &fpb.Value_IntValue{IntValue: &fpb.IntValue{Value: val, Distribution: &fpb.IntValue_Range{Range: r}}}}
	}
	uv := func(val uint64, r *fpb.UintRange) *fpb.Value {
		return &fpb.Value{Path: []string{"v", "0"}, Timestamp: ts(), Value: &fpb.Value_UintValue{UintValue: &fpb.UintValue{Value: val, Distribution: &fpb.UintValue_Range{Range: r}}}}
	}
	sync := func(x *fpb.Timestamp) *fpb.Value {
		return &fpb.Value{Path: []string{"v", "0"}, Timestamp: x, Value: &fpb.Value_Sync{Sync: 1}}
	}
	for _, c := range []struct {
		id string
		v  *fpb.Value
	}{
		{"int-range-beyond-int64", iv(0, &fpb.IntRange{Minimum: math.MinInt64, Maximum: math.MaxInt64})},
		{"int-range-beyond-int64", iv(math.MaxInt64, &fpb.IntRange{Minimum: math.MaxInt64 - 5, Maximum: math.MaxInt64, DeltaMin: 1, DeltaMax: 5})},
		{"uint-range-beyond-int64", uv(math.MaxUint64, &fpb.UintRange{Minimum: 1 << 63, Maximum: math.MaxUint64})},
		{"uint-range-beyond-int64", uv(math.MaxUint64, &fpb.UintRange{Minimum: 0, Maximum: math.MaxUint64, DeltaMin: -1, DeltaMax: 0})},
		{"timestamp-beyond-int64", sync(&fpb.Timestamp{Timestamp: math.MaxInt64 - 3, DeltaMin: 2, DeltaMax: 2})},
		{"timestamp-beyond-int64", sync(&fpb.Timestamp{Timestamp: 1, DeltaMin: 0, DeltaMax: math.MaxInt64})},
	} {
		bad := ""
		orig := proto.Clone(c.v).(*fpb.Value)
		if p := vh.NoPanic(func() {
			q := queue.New(false, 1, []*fpb.Value{c.v})
			last := int64(0)
			for i := 0; i < 50; i++ {
				x, err := q.Next()
				if err != nil {
					return
				}
				e := x.(*fpb.Value)
				if !inBounds(orig, e) || e.Timestamp.Timestamp < last {
					bad = fmt.Sprintf("emits %v", e)
					return
				}
				last = e.Timestamp.Timestamp
			}
		}); p != nil {
			bad = fmt.Sprintf("panics: %v", p)
		}
		if bad != "" {
			fmt.Printf("VERIF-FAIL [%s] configuration %v: %s\n", c.id, orig, bad)
			t.Fail()
		}
	}
}

func TestVerifC20(t *testing.T) {
	defer vh.Flush()
	more := vh.Budget(9e9)
	for i := 0; more(); i++ {
		r := vh.Rand("c20", i)
		var cfg []*fpb.Value
		for k := r.Intn(6); k >= 0; k-- {
			if v := genValue(r, k); representable(v) {
				cfg = append(cfg, v)
			}
		}
		seed := int64(1 + r.Intn(1000))
		limit := 40 + r.Intn(60)
		orig := clone(cfg)
		run := func(cfg []*fpb.Value, late bool) (out []*fpb.Value, err error) {
			fail := func(f string, a ...interface{}) {
				vh.Fail(t, "%s\n seed %d configuration:%s", fmt.Sprintf(f, a...), seed, cfgText(orig))
			}
			if p := vh.NoPanic(func() {
				var q *queue.UpdateQueue
				if late {
					q = queue.New(false, seed, nil)
					for _, v := range cfg {
						q.Add(v)
					}
				} else {
					q = queue.New(false, seed, cfg)
				}
				var lat int64
				for _, v := range orig {
					if v.GetTimestamp().GetTimestamp() > lat {
						lat = v.GetTimestamp().GetTimestamp()
					}
				}
				if q.Latest() != lat {
					fail("Latest() = %d want %d", q.Latest(), lat)
				}
				for len(out) < limit {
					x, e := q.Next()
					if e != nil {
						err = e
						return
					}
					if x == nil {
						if y, e := q.Next(); y != nil || e != nil {
							fail("exhausted queue returns %v, %v", y, e)
						}
						return
					}
					out = append(out, proto.Clone(x.(*fpb.Value)).(*fpb.Value))
				}
			}); p != nil {
				fail("generator panics: %v (after %d updates)", p, len(out))
			}
			return
		}
		out, err := run(cfg, r.Intn(4) == 0)
		fail := func(f string, a ...interface{}) {
			s := ""
			for i, o := range out {
				if i < 30 {
					s += "\n  " + prototext.MarshalOptions{}.Format(o)
				}
			}
			vh.Fail(t, "%s\n seed %d configuration:%s\n stream:%s", fmt.Sprintf(f, a...), seed, cfgText(orig), s)
		}
		by := map[string][]*fpb.Value{}
		overflow := false // some next timestamp might not be representable
		var last int64
		for k, o := range out {
			ts := o.GetTimestamp().GetTimestamp()
			if k > 0 && ts < last {
				fail("update %d: timestamp %d after %d", k, ts, last)
			}
			last = ts
			by[o.Path[1]] = append(by[o.Path[1]], o)
		}
		for _, c := range orig {
			l := by[c.Path[1]]
			cur := c.GetTimestamp().GetTimestamp()
			for k, o := range l {
				ts := o.GetTimestamp().GetTimestamp()
				if k == 0 && ts != cur {
					fail("first update of %v has timestamp %d want %d", c.Path, ts, cur)
				}
				if k > 0 {
					if d := ts - cur; d < c.GetTimestamp().GetDeltaMin() || d > c.GetTimestamp().GetDeltaMax() {
						fail("timestamp step %d of %v outside [%d,%d]", d, c.Path, c.GetTimestamp().GetDeltaMin(), c.GetTimestamp().GetDeltaMax())
					}
				}
				cur = ts
				if !inBounds(c, o) {
					fail("update %v outside the configuration of %v", o, c)
				}
			}
			if c.Repeat > 0 && len(l) > int(c.Repeat) {
				fail("%v emitted %d times, repeat is %d", c.Path, len(l), c.Repeat)
			}
			// cur is the timestamp last emitted; the value waiting in the queue may
			// be one step further already.
			if d := c.GetTimestamp().GetDeltaMax(); d > (math.MaxInt64-cur)/2 {
				overflow = true
			}
		}
		if err != nil && !overflow {
			fail("valid configuration: Next returns %v after %d updates", err, len(out))
		}
		if err == nil && len(out) < limit { // the stream ended
			for _, c := range orig {
				if c.Repeat == 0 || len(by[c.Path[1]]) != int(c.Repeat) {
					fail("stream ends with %v emitted %d times, repeat is %d", c.Path, len(by[c.Path[1]]), c.Repeat)
				}
			}
			vh.Stat("exhausted_streams", 1)
		}
		// reproducible, from a copy and from the same configuration objects again
		for k, c := range [][]*fpb.Value{clone(orig), cfg} {
			o2, err2 := run(c, false)
			if len(o2) != len(out) || (err == nil) != (err2 == nil) {
				fail("run %d yields %d updates (%v), the first %d (%v)", k+2, len(o2), err2, len(out), err)
			}
			for j := range out {
				if !proto.Equal(out[j], o2[j]) {
					fail("run %d differs at update %d: %v", k+2, j, o2[j])
				}
			}
		}
		if i < 3 {
			vh.Sample("%d values, %d updates, seed %d", len(cfg), len(out), seed)
		}
		vh.Stat("configurations", 1)
		vh.Stat("updates", len(out))
	}
}
