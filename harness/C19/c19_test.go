package path_test

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/openconfig/gnmi/client"
	gclient "github.com/openconfig/gnmi/client/gnmi"
	"github.com/openconfig/gnmi/path"
	gpb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/value"
	vh "github.com/openconfig/gnmi/verifh"
	"google.golang.org/protobuf/proto"
)

// ---- paths ----

var names = []string{"a", "b", "interfaces", "*", "", "a/b", "x y", "é", "target", "/", "..."}

func genPath(r *rand.Rand) *gpb.Path {
	switch r.Intn(20) {
	case 0:
		return nil
	case 1:
		return &gpb.Path{}
	}
	p := &gpb.Path{Target: []string{"", "", "t", "*", "a"}[r.Intn(5)], Origin: []string{"", "", "oc", "a"}[r.Intn(4)]}
	n := r.Intn(6)
	if r.Intn(10) == 0 {
		n = 15 + r.Intn(15)
	}
	if r.Intn(5) == 0 { // deprecated form, possibly next to the structured one
		for i := 0; i < n; i++ {
			p.Element = append(p.Element, names[r.Intn(len(names))])
		}
		if r.Intn(3) != 0 {
			return p
		}
	}
	for i := 0; i < n; i++ {
		e := &gpb.PathElem{Name: names[r.Intn(len(names))]}
		if k := r.Intn(8); k < 5 {
			if k > 0 {
				e.Key = map[string]string{}
			}
			for j := 0; j < k; j++ {
				e.Key[[]string{"name", "id", "vlan", "k", "", "Z", "aa", "ab"}[r.Intn(8)]] = []string{"1", "2", "eth1/1", "*", "", "zz"}[r.Intn(6)]
			}
		}
		p.Elem = append(p.Elem, e)
	}
	return p
}

func oracle(p *gpb.Path, prefix bool) []string {
	out := []string{}
	if p == nil {
		return out
	}
	if prefix && p.Target != "" {
		out = append(out, p.Target)
	}
	if prefix && p.Origin != "" {
		out = append(out, p.Origin)
	}
	if len(p.Elem) == 0 {
		return append(out, p.Element...)
	}
	for _, e := range p.Elem {
		out = append(out, e.Name)
		var ks []string
		for k := range e.Key {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			out = append(out, e.Key[k])
		}
	}
	return out
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func TestVerifC19Paths(t *testing.T) {
	defer vh.Flush()
	for i := 0; i < vh.N(60000); i++ {
		r := vh.Rand("c19p", i)
		p, q := genPath(r), genPath(r)
		keep := proto.Clone(p)
		for _, pre := range []bool{false, true} {
			want := oracle(p, pre)
			for k := 0; k < 3; k++ {
				c := p
				if k > 0 && p != nil {
					c = proto.Clone(p).(*gpb.Path)
				}
				var got []string
				if x := vh.NoPanic(func() { got = path.ToStrings(c, pre) }); x != nil {
					vh.Fail(t, "ToStrings(%v,%v) panics: %v", p, pre, x)
				}
				if !same(got, want) {
					vh.Fail(t, "ToStrings(%v, %v) = %q, want %q", p, pre, got, want)
				}
			}
		}
		if p != nil && !proto.Equal(p, keep) {
			vh.Fail(t, "ToStrings modified %v", keep)
		}
		// combining
		got, err := path.CompletePath(p, q)
		po, qo := p.GetOrigin(), q.GetOrigin()
		pi, qi := oracle(p, false), oracle(q, false)
		if po != "" && qo != "" || qo != "" && len(pi) > 0 {
			if err == nil {
				vh.Fail(t, "CompletePath(%v, %v) = %q, conflicting origins accepted", p, q, got)
			}
			vh.Stat("conflicts", 1)
		} else {
			var want []string
			if po != "" {
				want = append(want, po)
			}
			if qo != "" {
				want = append(want, qo)
			}
			want = append(append(want, pi...), qi...)
			if err != nil || !same(got, want) {
				vh.Fail(t, "CompletePath(%v, %v) = %q, %v; want %q", p, q, got, err, want)
			}
		}
		vh.Stat("paths", 1)
	}
	vh.Sample("%v", genPath(vh.Rand("c19p", 1)))
}

// ---- client queries ----

func TestVerifC19Queries(t *testing.T) {
	defer vh.Flush()
	alpha := []string{"a", "b", "/", "1", "-", "*", ".", ":", "=", "é", "_", "%"}
	el := func(r *rand.Rand) string {
		n := 1 + r.Intn(5)
		s := ""
		for i := 0; i < n; i++ {
			s += alpha[r.Intn(len(alpha))]
		}
		return s
	}
	for i := 0; i < vh.N(20000); i++ {
		r := vh.Rand("c19q", i)
		q := client.Query{Target: "dev", Type: []client.Type{client.Once, client.Poll, client.Stream}[r.Intn(3)], UpdatesOnly: r.Intn(2) == 0, Encoding: gpb.Encoding(r.Intn(5))}
		var want [][]string
		for n := r.Intn(3); n >= 0; n-- {
			var p client.Path
			for k := r.Intn(6); k > 0; k-- {
				p = append(p, el(r))
			}
			q.Queries = append(q.Queries, p)
			want = append(want, append([]string{}, p...))
		}
		var sr *gpb.SubscribeRequest
		var err error
		if x := vh.NoPanic(func() { sr, err = gclient.ToSubscribeRequest(q) }); x != nil {
			vh.Fail(t, "ToSubscribeRequest(%q) panics: %v", q.Queries, x)
		}
		if err != nil {
			vh.Fail(t, "ToSubscribeRequest(%q): %v", q.Queries, err)
		}
		for k, p := range q.Queries {
			if !same(p, want[k]) {
				vh.Fail(t, "ToSubscribeRequest modified the query %q -> %q", want[k], p)
			}
		}
		b, err := proto.Marshal(sr)
		if err != nil {
			vh.Fail(t, "request of %q does not marshal: %v", want, err)
		}
		var back gpb.SubscribeRequest
		if err := proto.Unmarshal(b, &back); err != nil {
			vh.Fail(t, "%v", err)
		}
		sl := back.GetSubscribe()
		if sl.GetPrefix().GetTarget() != "dev" || sl.GetUpdatesOnly() != q.UpdatesOnly || sl.GetEncoding() != q.Encoding {
			vh.Fail(t, "request header of %+v is %v", q, sl)
		}
		wm := map[client.Type]gpb.SubscriptionList_Mode{client.Once: gpb.SubscriptionList_ONCE, client.Poll: gpb.SubscriptionList_POLL, client.Stream: gpb.SubscriptionList_STREAM}[q.Type]
		if sl.GetMode() != wm {
			vh.Fail(t, "mode %v for query type %v", sl.GetMode(), q.Type)
		}
		if len(sl.GetSubscription()) != len(want) {
			vh.Fail(t, "%d subscriptions for queries %q", len(sl.GetSubscription()), want)
		}
		for k, s := range sl.GetSubscription() {
			if got := path.ToStrings(s.GetPath(), false); !same(got, want[k]) {
				vh.Fail(t, "query %q reaches the server as %q", want[k], got)
			}
		}
		vh.Stat("queries", 1)
	}
}

// ---- values ----

func scalars(r *rand.Rand) any {
	ints := []int64{0, 1, -1, 127, -128, 255, 32767, -32768, 65535, math.MaxInt32, math.MinInt32, math.MaxUint32, math.MaxInt64, math.MinInt64, int64(r.Uint64())}
	n := ints[r.Intn(len(ints))]
	fl := []float64{0, 1.5, -2.25, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), r.NormFloat64(), math.MaxFloat32, 1 << 53}
	switch r.Intn(16) {
	case 0:
		return int(n)
	case 1:
		return int8(n)
	case 2:
		return int16(n)
	case 3:
		return int32(n)
	case 4:
		return n
	case 5:
		return uint(n)
	case 6:
		return uint8(n)
	case 7:
		return uint16(n)
	case 8:
		return uint32(n)
	case 9:
		return uint64(n)
	case 10:
		return float32(fl[r.Intn(len(fl))])
	case 11:
		return fl[r.Intn(len(fl))]
	case 12:
		return r.Intn(2) == 0
	case 13:
		return []string{"", "x", "a/b", "é", "5"}[r.Intn(5)]
	case 14:
		b := make([]byte, r.Intn(4))
		r.Read(b)
		return b
	}
	switch r.Intn(3) {
	case 0:
		s := make([]string, r.Intn(4))
		for i := range s {
			s[i] = fmt.Sprint(r.Intn(5))
		}
		return s
	}
	s := make([]any, r.Intn(4))
	for i := range s {
		s[i] = scalars(r)
	}
	return s
}

func equiv(a, b any) bool {
	if x, ok := a.([]byte); ok {
		y, ok := b.([]byte)
		return ok && bytes.Equal(x, y)
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	switch {
	case va.Kind() == reflect.Slice:
		if vb.Kind() != reflect.Slice || va.Len() != vb.Len() {
			return false
		}
		for i := 0; i < va.Len(); i++ {
			if !equiv(va.Index(i).Interface(), vb.Index(i).Interface()) {
				return false
			}
		}
		return true
	case va.CanInt():
		return vb.CanInt() && va.Int() == vb.Int()
	case va.CanUint():
		return vb.CanUint() && va.Uint() == vb.Uint()
	case va.CanFloat():
		return vb.CanFloat() && va.Float() == vb.Float()
	}
	return a == b
}

func genTV(r *rand.Rand, d int) *gpb.TypedValue {
	dec := func() *gpb.Decimal64 {
		return &gpb.Decimal64{Digits: int64(r.Intn(3)), Precision: uint32(r.Intn(3))}
	}
	switch r.Intn(18) {
	case 0:
		return nil
	case 1:
		return &gpb.TypedValue{}
	case 2:
		return &gpb.TypedValue{Value: &gpb.TypedValue_StringVal{StringVal: fmt.Sprint(r.Intn(3))}}
	case 3:
		return &gpb.TypedValue{Value: &gpb.TypedValue_IntVal{IntVal: int64(r.Intn(3)) - 1}}
	case 4:
		return &gpb.TypedValue{Value: &gpb.TypedValue_UintVal{UintVal: uint64(r.Intn(3))}}
	case 5:
		return &gpb.TypedValue{Value: &gpb.TypedValue_BoolVal{BoolVal: r.Intn(2) == 0}}
	case 6:
		return &gpb.TypedValue{Value: &gpb.TypedValue_BytesVal{BytesVal: [][]byte{nil, {}, {0}, {1}, {0, 0}}[r.Intn(5)]}}
	case 7:
		return &gpb.TypedValue{Value: &gpb.TypedValue_DoubleVal{DoubleVal: []float64{0, 1, 2.5, math.Inf(1), math.NaN()}[r.Intn(5)]}}
	case 8:
		return &gpb.TypedValue{Value: &gpb.TypedValue_FloatVal{FloatVal: []float32{0, 1, 2.5, float32(math.Inf(1)), float32(math.NaN())}[r.Intn(5)]}}
	case 9:
		if r.Intn(5) == 0 {
			return &gpb.TypedValue{Value: &gpb.TypedValue_DecimalVal{}}
		}
		return &gpb.TypedValue{Value: &gpb.TypedValue_DecimalVal{DecimalVal: dec()}}
	case 10:
		return &gpb.TypedValue{Value: &gpb.TypedValue_JsonVal{JsonVal: []byte(fmt.Sprint(r.Intn(2)))}}
	case 11:
		return &gpb.TypedValue{Value: &gpb.TypedValue_JsonIetfVal{JsonIetfVal: []byte([]string{"1", "{", "\"x\""}[r.Intn(3)])}}
	case 12:
		return &gpb.TypedValue{Value: &gpb.TypedValue_AsciiVal{AsciiVal: fmt.Sprint(r.Intn(2))}}
	case 13:
		return &gpb.TypedValue{Value: &gpb.TypedValue_ProtoBytes{ProtoBytes: []byte{byte(r.Intn(2))}}}
	}
	if r.Intn(10) == 0 {
		return &gpb.TypedValue{Value: &gpb.TypedValue_LeaflistVal{}}
	}
	sa := &gpb.ScalarArray{}
	if d < 3 {
		for n := r.Intn(4); n > 0; n-- {
			sa.Element = append(sa.Element, genTV(r, d+1))
		}
	}
	return &gpb.TypedValue{Value: &gpb.TypedValue_LeaflistVal{LeaflistVal: sa}}
}

// primitive reports whether v is a scalar (or array of scalars) without NaN.
func primitive(v *gpb.TypedValue) bool {
	switch x := v.GetValue().(type) {
	case *gpb.TypedValue_StringVal, *gpb.TypedValue_IntVal, *gpb.TypedValue_UintVal, *gpb.TypedValue_BoolVal, *gpb.TypedValue_BytesVal:
		return true
	case *gpb.TypedValue_DecimalVal:
		return x.DecimalVal != nil
	case *gpb.TypedValue_DoubleVal:
		return !math.IsNaN(x.DoubleVal)
	case *gpb.TypedValue_FloatVal:
		return !math.IsNaN(float64(x.FloatVal))
	case *gpb.TypedValue_LeaflistVal:
		if x.LeaflistVal == nil {
			return false
		}
		for _, e := range x.LeaflistVal.Element {
			if !primitive(e) {
				return false
			}
		}
		return true
	}
	return false
}

// identical is the mathematical equality of two values of the same type.
func identical(a, b *gpb.TypedValue) bool {
	switch x := a.GetValue().(type) {
	case *gpb.TypedValue_LeaflistVal:
		y, ok := b.GetValue().(*gpb.TypedValue_LeaflistVal)
		if !ok || len(x.LeaflistVal.GetElement()) != len(y.LeaflistVal.GetElement()) {
			return false
		}
		for i, e := range x.LeaflistVal.GetElement() {
			if !identical(e, y.LeaflistVal.GetElement()[i]) {
				return false
			}
		}
		return true
	case *gpb.TypedValue_DecimalVal:
		y, ok := b.GetValue().(*gpb.TypedValue_DecimalVal)
		return ok && x.DecimalVal.GetDigits() == y.DecimalVal.GetDigits() && x.DecimalVal.GetPrecision() == y.DecimalVal.GetPrecision()
	case *gpb.TypedValue_BytesVal:
		y, ok := b.GetValue().(*gpb.TypedValue_BytesVal)
		return ok && bytes.Equal(x.BytesVal, y.BytesVal)
	case nil:
		return b.GetValue() == nil
	}
	return proto.Equal(a, b)
}

func TestVerifC19Values(t *testing.T) {
	defer vh.Flush()
	for i := 0; i < vh.N(60000); i++ {
		r := vh.Rand("c19v", i)
		v := scalars(r)
		var tv *gpb.TypedValue
		var back any
		var err error
		if x := vh.NoPanic(func() { tv, err = value.FromScalar(v) }); x != nil || err != nil {
			vh.Fail(t, "FromScalar(%T %v): %v panic=%v", v, v, err, x)
		}
		if x := vh.NoPanic(func() { back, err = value.ToScalar(tv) }); x != nil || err != nil {
			vh.Fail(t, "ToScalar(%v): %v panic=%v", tv, err, x)
		}
		if !equiv(v, back) {
			vh.Fail(t, "%T %v converts to %v and back to %T %v", v, v, tv, back, back)
		}
		if primitive(tv) && !value.Equal(tv, proto.Clone(tv).(*gpb.TypedValue)) {
			vh.Fail(t, "Equal(%v, copy) = false", tv)
		}
		// a bare sample of unsupported Go values must be refused, not crash
		for _, u := range []any{nil, struct{}{}, map[string]int{}, []int{1}, []any{nil}, (*int)(nil), "\xff"} {
			if x := vh.NoPanic(func() { _, err = value.FromScalar(u) }); x != nil || err == nil {
				vh.Fail(t, "FromScalar(%T %v): err=%v panic=%v", u, u, err, x)
			}
		}
		a, b := genTV(r, 0), genTV(r, 0)
		if r.Intn(3) == 0 && a != nil {
			b = proto.Clone(a).(*gpb.TypedValue)
		}
		var ab, ba bool
		if x := vh.NoPanic(func() { ab, ba = value.Equal(a, b), value.Equal(b, a) }); x != nil {
			vh.Fail(t, "Equal(%v, %v) panics: %v", a, b, x)
		}
		if ab != ba {
			vh.Fail(t, "Equal(%v, %v)=%v but reversed %v", a, b, ab, ba)
		}
		if ab && !identical(a, b) {
			vh.Fail(t, "Equal(%v, %v) = true", a, b)
		}
		if !ab && primitive(a) && identical(a, b) {
			vh.Fail(t, "Equal(%v, %v) = false for the same value", a, b)
		}
		if x := vh.NoPanic(func() { _, err = value.ToScalar(a) }); x != nil {
			vh.Fail(t, "ToScalar(%v) panics: %v", a, x)
		}
		vh.Stat("values", 1)
		if ab {
			vh.Stat("equal-pairs", 1)
		}
	}
	// decimals
	for i := 0; i < vh.N(5000); i++ {
		r := vh.Rand("c19d", i)
		d := &gpb.Decimal64{Digits: int64(r.Intn(2000000)) - 1000000, Precision: uint32(r.Intn(10))}
		got, err := value.ToScalar(&gpb.TypedValue{Value: &gpb.TypedValue_DecimalVal{DecimalVal: d}})
		want := float64(d.Digits) / math.Pow(10, float64(d.Precision))
		f, ok := got.(float32)
		if err != nil || !ok || math.Abs(float64(f)-want) > math.Abs(want)*1e-6 {
			vh.Fail(t, "ToScalar(decimal %v) = %T %v, %v; want about %v", d, got, got, err, want)
		}
	}
	_ = strings.Join
}
