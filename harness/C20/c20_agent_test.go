package gnmi_test

import (
	"context"
	"fmt"
	"io"
	"testing"

	gpb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/testing/fake/gnmi"
	fpb "github.com/openconfig/gnmi/testing/fake/proto"
	vh "github.com/openconfig/gnmi/verifh"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"
)

type vStream struct {
	grpc.ServerStream
	first *gpb.SubscribeRequest
	got   []*gpb.SubscribeResponse
	limit int
}

func (s *vStream) Context() context.Context { return context.Background() }
func (s *vStream) Recv() (*gpb.SubscribeRequest, error) {
	if s.first != nil {
		r := s.first
		s.first = nil
		return r, nil
	}
	return nil, io.EOF
}
func (s *vStream) Send(r *gpb.SubscribeResponse) error {
	s.got = append(s.got, proto.Clone(r).(*gpb.SubscribeResponse))
	if len(s.got) >= s.limit {
		return fmt.Errorf("enough")
	}
	return nil
}

// The agent emits the sync marker after the first emission of every configured
// value and not before, in timestamp order, identically on every run.
func TestVerifC20Agent(t *testing.T) {
	defer vh.Flush()
	for i := 0; i < vh.N(3000); i++ {
		rd := vh.Rand("c20a", i)
		var vals []*fpb.Value
		n := 1 + rd.Intn(6)
		for k := 0; k < n; k++ {
			v := &fpb.Value{Path: []string{fmt.Sprint("v", k)}, Repeat: int32(rd.Intn(4)),
				Timestamp: &fpb.Timestamp{Timestamp: int64(rd.Intn(6)), DeltaMin: 1, DeltaMax: int64(1 + rd.Intn(3))},
				Value:     &fpb.Value_IntValue{IntValue: &fpb.IntValue{Value: 5, Distribution: &fpb.IntValue_Range{Range: &fpb.IntRange{Minimum: 0, Maximum: 9}}}}}
			switch rd.Intn(6) {
			case 0:
				v.Value = &fpb.Value_Delete{Delete: &fpb.DeleteValue{}}
			case 1:
				v.Value = &fpb.Value_StringValue{StringValue: &fpb.StringValue{Value: "s"}}
			case 2:
				v.Timestamp.DeltaMin = 0
			}
			vals = append(vals, v)
		}
		cfg := &fpb.Config{Target: "dev", Seed: int64(1 + rd.Intn(50)), Values: vals}
		kind := "values"
		noSync := rd.Intn(8) == 0
		cfg.DisableSync = noSync
		mode := []gpb.SubscriptionList_Mode{gpb.SubscriptionList_STREAM, gpb.SubscriptionList_ONCE}[rd.Intn(2)]
		run := func(c *fpb.Config) []*gpb.SubscribeResponse {
			s := &vStream{limit: 60, first: &gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Subscribe{Subscribe: &gpb.SubscriptionList{Mode: mode, Prefix: &gpb.Path{Target: "asked"}}}}}
			if p := vh.NoPanic(func() {
				if err := gnmi.NewClient(c).Run(s); err != nil {
					vh.Fail(t, "Run: %v", err)
				}
			}); p != nil {
				vh.Fail(t, "agent panics: %v on %v", p, cfg)
			}
			return s.got
		}
		got := run(proto.Clone(cfg).(*fpb.Config))
		first := map[string]bool{}
		counts := map[string]int{}
		syncs, last := 0, int64(-1)
		for k, r := range got {
			if r.GetSyncResponse() {
				syncs++
				if len(first) != n {
					vh.Fail(t, "sync marker at position %d, before the first emission of every value (%d of %d)\n %s configuration %v", k, len(first), n, kind, cfg)
				}
				continue
			}
			u := r.GetUpdate()
			p := ""
			if len(u.Update) == 1 {
				p = u.Update[0].Path.Element[0]
			} else if len(u.Delete) == 1 {
				p = u.Delete[0].Element[0]
			} else {
				vh.Fail(t, "response %v for %v", r, cfg)
			}
			if u.Timestamp < last {
				vh.Fail(t, "timestamp %d after %d\n %s configuration %v", u.Timestamp, last, kind, cfg)
			}
			if u.GetPrefix().GetTarget() != "asked" {
				vh.Fail(t, "response without the requested target: %v", r)
			}
			last = u.Timestamp
			first[p] = true
			counts[p]++
		}
		full := len(got) < 60
		if want := map[bool]int{false: 1, true: 0}[noSync]; syncs > want || (full && syncs != want) {
			vh.Fail(t, "%d sync markers, want %d\n %s configuration %v", syncs, want, kind, cfg)
		}
		for _, v := range vals {
			c := counts[v.Path[0]]
			if (v.Repeat > 0 && c > int(v.Repeat)) || (full && c != int(v.Repeat)) {
				vh.Fail(t, "%v emitted %d times, repeat %d (stream complete: %v)\n %s configuration %v", v.Path, c, v.Repeat, full, kind, cfg)
			}
		}
		again := run(proto.Clone(cfg).(*fpb.Config))
		if len(again) != len(got) {
			vh.Fail(t, "two runs differ in length: %d, %d\n configuration %v", len(got), len(again), cfg)
		}
		for k := range got {
			if !proto.Equal(got[k], again[k]) {
				vh.Fail(t, "two runs differ at %d: %v / %v\n configuration %v", k, got[k], again[k], cfg)
			}
		}
		vh.Stat("agent_streams", 1)
	}
	// fixed generator: every response once, in order, then the marker
	for i := 0; i < 200; i++ {
		rd := vh.Rand("c20f", i)
		cfg := &fpb.Config{Target: "dev", Generator: &fpb.Config_Fixed{Fixed: &fpb.FixedGenerator{}}}
		var want []*gpb.SubscribeResponse
		for k := rd.Intn(5); k > 0; k-- {
			want = append(want, &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_Update{Update: &gpb.Notification{Timestamp: int64(k)}}})
		}
		cfg.GetFixed().Responses = append([]*gpb.SubscribeResponse{}, want...)
		for pass := 0; pass < 2; pass++ {
			s := &vStream{limit: 60, first: &gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Subscribe{Subscribe: &gpb.SubscriptionList{}}}}
			gnmi.NewClient(cfg).Run(s)
			if len(s.got) != len(want)+1 || !s.got[len(want)].GetSyncResponse() {
				vh.Fail(t, "fixed generator with %d responses emits %v", len(want), s.got)
			}
			for k, w := range want {
				if !proto.Equal(w, s.got[k]) {
					vh.Fail(t, "fixed generator emits %v want %v at %d", s.got[k], w, k)
				}
			}
		}
	}
}

// The input of a known finding: a configuration with a random generator.
func TestVerifKnownAgentC20(t *testing.T) {
	cfg := &fpb.Config{Target: "dev", Generator: &fpb.Config_Random{Random: &fpb.RandomGenerator{Seed: 3, Values: []*fpb.Value{{
		Path: []string{"v"}, Repeat: 2, Timestamp: &fpb.Timestamp{Timestamp: 1, DeltaMin: 1, DeltaMax: 1},
		Value: &fpb.Value_Sync{Sync: 1}}, {Path: []string{"w"}, Repeat: 2, Timestamp: &fpb.Timestamp{Timestamp: 1, DeltaMin: 1, DeltaMax: 1},
		Value: &fpb.Value_IntValue{IntValue: &fpb.IntValue{Value: 5}}}}}}}
	s := &vStream{limit: 60, first: &gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Subscribe{Subscribe: &gpb.SubscriptionList{}}}}
	gnmi.NewClient(cfg).Run(s)
	n := 0
	for _, r := range s.got {
		if len(r.GetUpdate().GetUpdate()) == 1 {
			n++
		}
	}
	if n == 0 {
		fmt.Printf("VERIF-FAIL [random-generator-ignored] configuration %v: stream %v\n", cfg, s.got)
		t.Fail()
	}
}
