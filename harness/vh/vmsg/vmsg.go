// Package vmsg generates random well-formed gNMI messages, the odd ones included:
// empty and root paths, metadata paths, missing values, deprecated encodings,
// wildcards, every value type.
package vmsg

import (
	"math"
	"math/rand"

	pb "github.com/openconfig/gnmi/proto/gnmi"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
)

// Names are the element names in use.
var Names = []string{"a", "b", "c", "*", "meta", "", "a/b", "sync", "x y"}

var metas = []string{"sync", "connected", "connectedAddress", "connectError", "targetLeaves", "latestTimestamp", "bogus", "", "*"}

// Path returns a random path, possibly nil.
func Path(rd *rand.Rand, target bool) *pb.Path {
	if rd.Intn(12) == 0 {
		return nil
	}
	p := &pb.Path{}
	if target {
		p.Target = []string{"dev", "dev", "dev", "dev", "*", "", "other"}[rd.Intn(7)]
	} else if rd.Intn(10) == 0 {
		p.Target = "dev"
	}
	if rd.Intn(4) == 0 {
		p.Origin = []string{"openconfig", "meta", "*", "o"}[rd.Intn(4)]
	}
	if rd.Intn(6) == 0 {
		p.Elem = append(p.Elem, &pb.PathElem{Name: "meta"})
		for k := rd.Intn(3); k > 0; k-- {
			p.Elem = append(p.Elem, &pb.PathElem{Name: metas[rd.Intn(len(metas))]})
		}
	}
	for k := rd.Intn(4); k > 0; k-- {
		e := &pb.PathElem{Name: Names[rd.Intn(len(Names))]}
		for j := rd.Intn(4) - 1; j > 0; j-- {
			if e.Key == nil {
				e.Key = map[string]string{}
			}
			e.Key[Names[rd.Intn(len(Names))]] = Names[rd.Intn(len(Names))]
		}
		p.Elem = append(p.Elem, e)
	}
	if rd.Intn(5) == 0 {
		if rd.Intn(2) == 0 {
			p.Elem = nil
		}
		for k := rd.Intn(4); k > 0; k-- {
			p.Element = append(p.Element, Names[rd.Intn(len(Names))])
		}
	}
	return p
}

// Val returns a random typed value, possibly nil or unset.
func Val(rd *rand.Rand, depth int) *pb.TypedValue {
	js := [][]byte{[]byte(`{"a":1}`), []byte(`[1,{"b":null}]`), []byte(`"x"`), []byte(`{`), nil, []byte(`null`), []byte("\xff\x00")}
	switch rd.Intn(20) {
	case 0:
		return nil
	case 1:
		return &pb.TypedValue{}
	case 2:
		return &pb.TypedValue{Value: &pb.TypedValue_StringVal{StringVal: Names[rd.Intn(len(Names))]}}
	case 3:
		return &pb.TypedValue{Value: &pb.TypedValue_UintVal{UintVal: rd.Uint64()}}
	case 4:
		return &pb.TypedValue{Value: &pb.TypedValue_BoolVal{BoolVal: rd.Intn(2) == 0}}
	case 5:
		return &pb.TypedValue{Value: &pb.TypedValue_BytesVal{BytesVal: js[rd.Intn(len(js))]}}
	case 6:
		return &pb.TypedValue{Value: &pb.TypedValue_FloatVal{FloatVal: float32(rd.NormFloat64())}}
	case 7:
		return &pb.TypedValue{Value: &pb.TypedValue_DoubleVal{DoubleVal: []float64{0, 1.5, math.NaN(), math.Inf(1)}[rd.Intn(4)]}}
	case 8:
		d := &pb.Decimal64{Digits: rd.Int63() >> uint(rd.Intn(60)), Precision: uint32(rd.Intn(40))}
		if rd.Intn(4) == 0 {
			d = nil
		}
		return &pb.TypedValue{Value: &pb.TypedValue_DecimalVal{DecimalVal: d}}
	case 9, 10:
		l := &pb.ScalarArray{}
		if depth < 3 {
			for k := rd.Intn(3); k > 0; k-- {
				v := Val(rd, depth+1)
				if v == nil {
					v = &pb.TypedValue{}
				}
				l.Element = append(l.Element, v)
			}
		}
		return &pb.TypedValue{Value: &pb.TypedValue_LeaflistVal{LeaflistVal: l}}
	case 11:
		return &pb.TypedValue{Value: &pb.TypedValue_AnyVal{AnyVal: &anypb.Any{TypeUrl: "type.googleapis.com/x.y", Value: []byte("z")}}}
	case 12:
		return &pb.TypedValue{Value: &pb.TypedValue_JsonVal{JsonVal: js[rd.Intn(len(js))]}}
	case 13:
		return &pb.TypedValue{Value: &pb.TypedValue_JsonIetfVal{JsonIetfVal: js[rd.Intn(len(js))]}}
	case 14:
		return &pb.TypedValue{Value: &pb.TypedValue_AsciiVal{AsciiVal: "ascii"}}
	case 15:
		return &pb.TypedValue{Value: &pb.TypedValue_ProtoBytes{ProtoBytes: []byte("pb")}}
	default:
		return &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: int64(rd.Intn(3))}}
	}
}

// Update returns a random update.
func Update(rd *rand.Rand) *pb.Update {
	u := &pb.Update{Path: Path(rd, false), Val: Val(rd, 0)}
	if rd.Intn(6) == 0 { // deprecated encoding
		u.Val = nil
		u.Value = &pb.Value{Type: pb.Encoding(rd.Intn(6)), Value: [][]byte{[]byte(`{"a":[1]}`), []byte("{"), nil}[rd.Intn(3)]}
	}
	if rd.Intn(8) == 0 {
		u.Duplicates = rd.Uint32()
	}
	return u
}

// Notification returns a random notification.
func Notification(rd *rand.Rand) *pb.Notification {
	n := &pb.Notification{Prefix: Path(rd, true), Timestamp: int64(rd.Intn(200)) - 10}
	if rd.Intn(10) == 0 {
		n.Timestamp = rd.Int63() - rd.Int63()
	}
	n.Atomic = rd.Intn(6) == 0
	switch rd.Intn(6) {
	case 0:
	case 1:
		for k := rd.Intn(3); k >= 0; k-- {
			n.Delete = append(n.Delete, WirePath(rd))
		}
	case 2:
		for k := rd.Intn(4); k > 0; k-- {
			n.Update = append(n.Update, Update(rd))
		}
		for k := rd.Intn(3); k > 0; k-- {
			n.Delete = append(n.Delete, WirePath(rd))
		}
	default:
		n.Update = append(n.Update, Update(rd))
	}
	return Wire(n)
}

// WirePath is a path as an element of a list, never nil.
func WirePath(rd *rand.Rand) *pb.Path {
	if p := Path(rd, false); p != nil {
		return p
	}
	return &pb.Path{}
}

// Wire returns m as received from the wire.
func Wire[T proto.Message](m T) T {
	b, err := proto.Marshal(m)
	if err != nil {
		panic(err)
	}
	out := m.ProtoReflect().New().Interface()
	if err := proto.Unmarshal(b, out); err != nil {
		panic(err)
	}
	return out.(T)
}

// SubscribeRequest returns a random request.
func SubscribeRequest(rd *rand.Rand) *pb.SubscribeRequest {
	switch rd.Intn(14) {
	case 0:
		return &pb.SubscribeRequest{}
	case 1:
		return &pb.SubscribeRequest{Request: &pb.SubscribeRequest_Poll{Poll: &pb.Poll{}}}
	}
	l := &pb.SubscriptionList{Prefix: Path(rd, true), Mode: pb.SubscriptionList_Mode(rd.Intn(4)), UpdatesOnly: rd.Intn(5) == 0, AllowAggregation: rd.Intn(2) == 0, Encoding: pb.Encoding(rd.Intn(7))}
	if rd.Intn(20) == 0 {
		l.Mode = -7
	}
	for k := rd.Intn(4); k > 0; k-- {
		l.Subscription = append(l.Subscription, &pb.Subscription{Path: Path(rd, false), Mode: pb.SubscriptionMode(rd.Intn(4)), SampleInterval: rd.Uint64()})
	}
	return Wire(&pb.SubscribeRequest{Request: &pb.SubscribeRequest_Subscribe{Subscribe: l}})
}

// SubscribeResponse returns a random response.
func SubscribeResponse(rd *rand.Rand) *pb.SubscribeResponse {
	switch rd.Intn(12) {
	case 0:
		return &pb.SubscribeResponse{}
	case 1:
		return &pb.SubscribeResponse{Response: &pb.SubscribeResponse_Error{Error: &pb.Error{Message: "e"}}}
	case 2:
		return &pb.SubscribeResponse{Response: &pb.SubscribeResponse_SyncResponse{SyncResponse: rd.Intn(3) > 0}}
	}
	return &pb.SubscribeResponse{Response: &pb.SubscribeResponse_Update{Update: Notification(rd)}}
}
