package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/openconfig/gnmi/client"
	gclient "github.com/openconfig/gnmi/client/gnmi"
	"github.com/openconfig/gnmi/manager"
	gpb "github.com/openconfig/gnmi/proto/gnmi"
	tpb "github.com/openconfig/gnmi/proto/target"
	"github.com/openconfig/gnmi/testing/fake/testing/grpc/config"
	"github.com/openconfig/gnmi/value"
	vh "github.com/openconfig/gnmi/verifh"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
)

// one leaf of a target: its position and its value
type v01leaf struct {
	origin string
	elem   []*gpb.PathElem
	val    *gpb.TypedValue
	old    *gpb.Value // deprecated value encoding instead of val
	want   any
}

func (l *v01leaf) idx() []string {
	is := []string{l.origin}
	for _, e := range l.elem {
		is = append(is, e.Name)
		var ks []string
		for k := range e.Key {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			is = append(is, e.Key[k])
		}
	}
	return is
}

func v01key(is []string) string { return fmt.Sprintf("%q", is) }

var v01keys = []string{"k", "eth0", "1/2/3", "a b", "[x]", "k=v", "\\", "ü", "10.0.0.1", ""}

// v01elems draws a position from a schema in which no leaf is below another.
func v01elems(rd *rand.Rand) []*gpb.PathElem {
	e := []*gpb.PathElem{{Name: fmt.Sprintf("c%d", rd.Intn(2))}}
	add := func(n string, kv ...string) {
		x := &gpb.PathElem{Name: n}
		for i := 0; i+1 < len(kv); i += 2 {
			if x.Key == nil {
				x.Key = map[string]string{}
			}
			x.Key[kv[i]] = kv[i+1]
		}
		e = append(e, x)
	}
	k := func() string { return v01keys[rd.Intn(len(v01keys))] }
	switch rd.Intn(5) {
	case 0:
		add(fmt.Sprintf("x%d", rd.Intn(3)))
	case 1:
		add("l", "name", k())
		add("y")
	case 2:
		add("m", "zone", k(), "addr", k(), "id", k())
		add("state")
		add(fmt.Sprintf("y%d", rd.Intn(2)))
	case 3:
		add("d")
		add("z/z")
	case 4:
		add("l2", "name", k())
		add("sub", "index", k())
		add("v")
	}
	return e
}

func v01val(rd *rand.Rand, depth int) (*gpb.TypedValue, any) {
	switch rd.Intn(11) {
	case 0:
		s := []string{"", "up", "a, b", "\"quoted\"", "ü", "{}"}[rd.Intn(6)]
		return &gpb.TypedValue{Value: &gpb.TypedValue_StringVal{StringVal: s}}, s
	case 1:
		u := rd.Uint64()
		return &gpb.TypedValue{Value: &gpb.TypedValue_UintVal{UintVal: u}}, u
	case 2:
		b := rd.Intn(2) == 0
		return &gpb.TypedValue{Value: &gpb.TypedValue_BoolVal{BoolVal: b}}, b
	case 3:
		b := []byte{1, byte(rd.Intn(256))}
		return &gpb.TypedValue{Value: &gpb.TypedValue_BytesVal{BytesVal: b}}, b
	case 4:
		f := float32(rd.Intn(5)) / 2
		return &gpb.TypedValue{Value: &gpb.TypedValue_FloatVal{FloatVal: f}}, f
	case 5:
		f := float64(rd.Intn(7)) / 4
		return &gpb.TypedValue{Value: &gpb.TypedValue_DoubleVal{DoubleVal: f}}, f
	case 6:
		d := int64(rd.Intn(9) - 4)
		return &gpb.TypedValue{Value: &gpb.TypedValue_DecimalVal{DecimalVal: &gpb.Decimal64{Digits: d, Precision: 1}}}, float32(float64(d) / 10)
	case 7:
		if depth > 0 {
			break
		}
		l, w := &gpb.ScalarArray{}, []any{}
		for k := rd.Intn(3); k > 0; k-- {
			v, x := v01val(rd, depth+1)
			l.Element = append(l.Element, v)
			w = append(w, x)
		}
		return &gpb.TypedValue{Value: &gpb.TypedValue_LeaflistVal{LeaflistVal: l}}, w
	case 8:
		if depth > 0 {
			break
		}
		x := float64(rd.Intn(3))
		return &gpb.TypedValue{Value: &gpb.TypedValue_JsonVal{JsonVal: []byte(fmt.Sprintf(`{"a":%v}`, x))}}, value.DeprecatedScalar{Message: "Deprecated TypedValue_JsonVal", Value: map[string]any{"a": x}}
	case 9:
		if depth > 0 {
			break
		}
		x := fmt.Sprint(rd.Intn(3))
		return &gpb.TypedValue{Value: &gpb.TypedValue_JsonIetfVal{JsonIetfVal: []byte(fmt.Sprintf(`[%q]`, x))}}, value.DeprecatedScalar{Message: "Deprecated TypedValue_JsonIetfVal", Value: []any{x}}
	}
	i := int64(rd.Intn(4) - 1)
	return &gpb.TypedValue{Value: &gpb.TypedValue_IntVal{IntVal: i}}, i
}

// v01step is what a target does next: send a message or break the stream.
type v01step struct {
	n     *gpb.Notification
	sync  bool
	brk   int // 1 error, 2 end of stream
	pause time.Duration
}

type v01target struct {
	name  string
	req   string
	mu    sync.Mutex
	rd    *rand.Rand
	ts    int64
	state map[string]*v01leaf
	left  int
	log   []string
	done  bool
	sess  int
	addr  string
}

// encode writes positions as a notification in one of the encodings gNMI allows.
func (t *v01target) encode(leaves []*v01leaf, dels []*v01leaf) *gpb.Notification {
	rd := t.rd
	t.ts += int64(1 + rd.Intn(5))
	n := &gpb.Notification{Timestamp: t.ts}
	all := append(append([]*v01leaf{}, leaves...), dels...)
	origin, oneOrigin := all[0].origin, true
	common := len(all[0].elem)
	for _, l := range all {
		oneOrigin = oneOrigin && l.origin == origin
		k := 0
		for k < common && k < len(l.elem) && proto.Equal(l.elem[k], all[0].elem[k]) {
			k++
		}
		common = k
	}
	inPath := !oneOrigin || rd.Intn(4) == 0
	if inPath {
		common = 0
	} else if rd.Intn(3) > 0 {
		common = rd.Intn(common + 1)
	}
	dep := func(p *gpb.Path) *gpb.Path { // deprecated path encoding
		if rd.Intn(5) > 0 || len(p.Elem) == 0 {
			return p
		}
		l := &v01leaf{elem: p.Elem}
		return &gpb.Path{Origin: p.Origin, Target: p.Target, Element: l.idx()[1:]}
	}
	pre := &gpb.Path{Elem: all[0].elem[:common]}
	if !inPath && (origin != "openconfig" || rd.Intn(2) == 0) {
		pre.Origin = origin
	}
	pre.Target = []string{"", t.name, "someone-else"}[rd.Intn(3)]
	pre = dep(pre)
	if proto.Size(pre) > 0 || rd.Intn(2) == 0 {
		n.Prefix = pre
	}
	path := func(l *v01leaf) *gpb.Path {
		p := &gpb.Path{Elem: l.elem[common:]}
		if inPath && (l.origin != "openconfig" || rd.Intn(2) == 0) {
			p.Origin = l.origin
		}
		return dep(p)
	}
	for _, l := range leaves {
		u := &gpb.Update{Path: path(l)}
		if l.old != nil {
			u.Value = l.old
		} else {
			u.Val = l.val
		}
		n.Update = append(n.Update, u)
	}
	for _, l := range dels {
		n.Delete = append(n.Delete, path(l))
	}
	return proto.Clone(n).(*gpb.Notification)
}

func v01below(p, q []string) bool { // q at or below p
	if len(q) < len(p) {
		return false
	}
	for i := range p {
		if p[i] != q[i] && p[i] != "*" {
			return false
		}
	}
	return true
}

func (t *v01target) origin() string {
	return []string{"openconfig", "openconfig", "vendor", "o/2"}[t.rd.Intn(4)]
}

func (t *v01target) fresh() *v01leaf {
	l := &v01leaf{origin: t.origin(), elem: v01elems(t.rd)}
	if t.rd.Intn(12) == 0 {
		x := float64(t.rd.Intn(3))
		l.old = &gpb.Value{Type: gpb.Encoding_JSON, Value: []byte(fmt.Sprint(x))}
		l.want = x
	} else {
		l.val, l.want = v01val(t.rd, 0)
	}
	return l
}

// next advances the target's state and returns the message that says so.
func (t *v01target) next() v01step {
	t.left--
	rd := t.rd
	st := v01step{pause: time.Duration(rd.Intn(3)) * time.Millisecond}
	switch k := rd.Intn(12); {
	case k < 6: // updates
		var ls []*v01leaf
		seen := map[string]bool{}
		for j := 1 + rd.Intn(4); j > 0; j-- {
			l := t.fresh()
			if key := v01key(l.idx()); !seen[key] {
				seen[key] = true
				ls = append(ls, l)
			}
		}
		for _, l := range ls {
			t.state[v01key(l.idx())] = l
		}
		st.n = t.encode(ls, nil)
	case k < 9: // deletes, of a leaf or a whole subtree
		var ds []*v01leaf
		for j := 1 + rd.Intn(2); j > 0; j-- {
			d := &v01leaf{origin: t.origin(), elem: v01elems(rd)}
			if ks := t.sorted(); len(ks) > 0 && rd.Intn(3) > 0 {
				l := t.state[ks[rd.Intn(len(ks))]]
				d = &v01leaf{origin: l.origin, elem: l.elem}
			}
			if rd.Intn(2) == 0 {
				d.elem = d.elem[:rd.Intn(len(d.elem)+1)]
			}
			if m := len(d.elem); m > 0 && rd.Intn(6) == 0 && len(d.elem[m-1].Key) == 1 {
				e := proto.Clone(d.elem[m-1]).(*gpb.PathElem)
				for k := range e.Key {
					e.Key[k] = "*"
				}
				d.elem = append(append([]*gpb.PathElem{}, d.elem[:m-1]...), e)
			}
			ds = append(ds, d)
		}
		for _, d := range ds {
			for k, l := range t.state {
				if v01below(d.idx(), l.idx()) {
					delete(t.state, k)
				}
			}
		}
		st.n = t.encode(nil, ds)
	case k < 10: // both, about different leaves
		l := t.fresh()
		d := &v01leaf{origin: t.origin(), elem: v01elems(rd)}
		if v01below(d.idx(), l.idx()) {
			d = nil
		}
		t.state[v01key(l.idx())] = l
		if d == nil {
			st.n = t.encode([]*v01leaf{l}, nil)
			break
		}
		delete(t.state, v01key(d.idx()))
		st.n = t.encode([]*v01leaf{l}, []*v01leaf{d})
	case k < 11:
		st.sync = true
	default:
		st.brk = 1 + rd.Intn(2)
	}
	return st
}

func (t *v01target) sorted() []string {
	var ks []string
	for k := range t.state {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// full is what a target streams first on every new session.
func (t *v01target) full() []*gpb.Notification {
	var ns []*gpb.Notification
	ks := t.sorted()
	for len(ks) > 0 {
		n := 1 + t.rd.Intn(4)
		if n > len(ks) {
			n = len(ks)
		}
		var ls []*v01leaf
		for _, k := range ks[:n] {
			ls = append(ls, t.state[k])
		}
		ks = ks[n:]
		ns = append(ns, t.encode(ls, nil))
	}
	return ns
}

type v01server struct {
	gpb.UnimplementedGNMIServer
	w *v01world
}

type v01world struct {
	t       *testing.T
	targets map[string]*v01target
	reqs    map[string]*gpb.SubscribeRequest
	started chan struct{}
	mu      sync.Mutex
	bad     string
}

func (s *v01server) Subscribe(st gpb.GNMI_SubscribeServer) error {
	r, err := st.Recv()
	if err != nil {
		return err
	}
	t := s.w.targets[r.GetSubscribe().GetPrefix().GetTarget()]
	if t == nil {
		s.w.complain(fmt.Sprintf("a target is asked for the data of target %q", r.GetSubscribe().GetPrefix().GetTarget()))
		return errors.New("not me")
	}
	want := proto.Clone(s.w.reqs[t.req]).(*gpb.SubscribeRequest)
	if want.GetSubscribe().Prefix == nil {
		want.GetSubscribe().Prefix = &gpb.Path{}
	}
	want.GetSubscribe().Prefix.Target = t.name
	if !proto.Equal(want, r) {
		s.w.complain(fmt.Sprintf("target %s receives request %v, configured is %v", t.name, r, want))
	}
	select {
	case <-s.w.started:
	case <-st.Context().Done():
		return nil
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	t.sess++
	t.log = append(t.log, fmt.Sprintf("session %d", t.sess))
	send := func(n *gpb.Notification) error {
		t.log = append(t.log, fmt.Sprint(n))
		return st.Send(&gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_Update{Update: n}})
	}
	for _, n := range t.full() {
		if err := send(n); err != nil {
			return err
		}
	}
	if t.rd.Intn(3) > 0 {
		if err := st.Send(&gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_SyncResponse{SyncResponse: true}}); err != nil {
			return err
		}
	}
	for t.left > 0 {
		x := t.next()
		switch {
		case x.n != nil:
			if err := send(x.n); err != nil {
				return err
			}
		case x.sync:
			if err := st.Send(&gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_SyncResponse{SyncResponse: true}}); err != nil {
				return err
			}
		case x.brk == 1:
			t.log = append(t.log, "break")
			return errors.New("target restarts")
		case x.brk == 2:
			t.log = append(t.log, "eof")
			return nil
		}
		time.Sleep(x.pause)
	}
	t.done = true
	t.mu.Unlock()
	<-st.Context().Done()
	t.mu.Lock()
	return nil
}

func (w *v01world) complain(s string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.bad == "" {
		w.bad = s
	}
}

// want is the state of the targets as a client sees it.
func (w *v01world) want(filter func(is []string) bool, names ...string) map[string]any {
	m := map[string]any{}
	for _, n := range names {
		t := w.targets[n]
		t.mu.Lock()
		for _, l := range t.state {
			is := append([]string{n}, l.idx()...)
			if filter == nil || filter(is) {
				m[v01key(is)] = l.want
			}
		}
		t.mu.Unlock()
	}
	return m
}

func v01view(ls client.Leaves) map[string]any {
	m := map[string]any{}
	for _, l := range ls {
		if len(l.Path) > 1 && l.Path[1] == "meta" {
			continue
		}
		m[v01key(l.Path)] = l.Val
	}
	return m
}

func v01diff(got, want map[string]any) string {
	var s []string
	for k, v := range want {
		if g, ok := got[k]; !ok {
			s = append(s, fmt.Sprintf("missing %s = %#v", k, v))
		} else if !reflect.DeepEqual(g, v) {
			s = append(s, fmt.Sprintf("%s = %#v, want %#v", k, g, v))
		}
	}
	for k, v := range got {
		if _, ok := want[k]; !ok {
			s = append(s, fmt.Sprintf("extra %s = %#v", k, v))
		}
	}
	sort.Strings(s)
	if len(s) > 12 {
		s = append(s[:12], "...")
	}
	return strings.Join(s, "\n  ")
}

func (w *v01world) history(names ...string) string {
	var b strings.Builder
	for _, n := range names {
		t := w.targets[n]
		t.mu.Lock()
		fmt.Fprintf(&b, "\n target %s (request %s):", n, t.req)
		l := t.log
		if len(l) > 40 {
			l = l[len(l)-40:]
		}
		for _, x := range l {
			fmt.Fprintf(&b, "\n  %s", x)
		}
		t.mu.Unlock()
	}
	return b.String()
}

func TestVerifC01(t *testing.T) {
	defer vh.Flush()
	scratch := os.Getenv("VERIF_SCRATCH")
	if scratch == "" {
		scratch = t.TempDir()
	}
	bin := filepath.Join(scratch, "gnmi_cli")
	out, err := exec.Command("go", "build", "-o", bin, "../gnmi_cli").CombinedOutput()
	if err != nil {
		t.Fatalf("building gnmi_cli: %v\n%s", err, out)
	}
	manager.RetryBaseDelay, manager.RetryMaxDelay = 5*time.Millisecond, 200*time.Millisecond
	*certFile, *keyFile = filepath.Join("testdata", "good.crt"), filepath.Join("testdata", "good.key")
	run := vh.Budget(40 * time.Second)
	for i := 0; i == 0 || run(); i++ {
		v01Run(t, vh.Rand("c01", i), scratch, bin, i)
		vh.Stat("configurations", 1)
	}
}

func v01Run(t *testing.T, rd *rand.Rand, scratch, bin string, round int) {
	w := &v01world{t: t, targets: map[string]*v01target{}, reqs: map[string]*gpb.SubscribeRequest{}, started: make(chan struct{})}
	opt, err := config.WithSelfTLSCert()
	if err != nil {
		t.Fatal(err)
	}
	nServers := 1 + rd.Intn(2)
	var addrs []string
	for i := 0; i < nServers; i++ {
		g := grpc.NewServer(opt)
		gpb.RegisterGNMIServer(g, &v01server{w: w})
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			t.Fatal(err)
		}
		go g.Serve(l)
		t.Cleanup(g.Stop) // collectors go on dialling: the ports stay taken until the end
		addrs = append(addrs, l.Addr().String())
	}
	conf := &tpb.Configuration{Request: map[string]*gpb.SubscribeRequest{}, Target: map[string]*tpb.Target{}}
	nReq := 1 + rd.Intn(2)
	for i := 0; i < nReq; i++ {
		sl := &gpb.SubscriptionList{Prefix: &gpb.Path{Origin: []string{"", "openconfig"}[rd.Intn(2)]}, Mode: gpb.SubscriptionList_STREAM,
			Subscription: []*gpb.Subscription{{Path: &gpb.Path{Elem: []*gpb.PathElem{{Name: fmt.Sprintf("c%d", i)}}}}}}
		if rd.Intn(4) == 0 {
			sl.Prefix = nil
		}
		r := &gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Subscribe{Subscribe: sl}}
		conf.Request[fmt.Sprintf("r%d", i)] = r
		w.reqs[fmt.Sprintf("r%d", i)] = r
	}
	var names []string
	for i := 1 + rd.Intn(4); i > 0; i-- {
		n := []string{"dev", "dev2", "router/1", "r s"}[i-1]
		names = append(names, n)
		ta := &v01target{name: n, req: fmt.Sprintf("r%d", rd.Intn(nReq)), rd: rand.New(rand.NewSource(rd.Int63())), ts: 1 + rd.Int63n(1000), state: map[string]*v01leaf{}, left: rd.Intn(40), addr: addrs[rd.Intn(nServers)]}
		if rd.Intn(3) == 0 {
			ta.ts = time.Now().UnixNano()
		}
		w.targets[n] = ta
		conf.Target[n] = &tpb.Target{Addresses: []string{ta.addr}, Request: ta.req}
	}
	cf := filepath.Join(scratch, fmt.Sprintf("collector%d.cfg", round))
	b, err := prototext.Marshal(conf)
	if err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(cf, b, 0o600); err != nil {
		t.Fatal(err)
	}
	*configFile = cf
	l, err := net.Listen("tcp", ":0")
	if err != nil {
		t.Fatal(err)
	}
	*port = l.Addr().(*net.TCPAddr).Port
	addr := fmt.Sprintf("127.0.0.1:%d", *port)
	l.Close()
	ctx, cancel := context.WithCancel(context.Background())
	stopped := make(chan struct{})
	go func() { defer close(stopped); runCollector(ctx) }()
	defer func() { cancel(); <-stopped }()

	// clients that watch from the start
	type watcher struct {
		c     *client.CacheClient
		names []string
		desc  string
		err   error
		done  bool
	}
	var ws []*watcher
	sub := func(target string, typ client.Type, names ...string) *watcher {
		wt := &watcher{c: client.New(), names: names, desc: fmt.Sprintf("%v client of target %q", typ, target)}
		ws = append(ws, wt)
		go func() {
			for k := 0; ctx.Err() == nil && k < 2000; k++ { // until the collector accepts connections
				err := wt.c.Subscribe(ctx, client.Query{Addrs: []string{addr}, Target: target, Queries: []client.Path{{"*"}}, Type: typ, TLS: &tls.Config{InsecureSkipVerify: true}, Timeout: 10 * time.Second}, gclient.Type)
				if len(wt.c.Leaves()) > 0 {
					w.mu.Lock()
					wt.err, wt.done = err, true
					w.mu.Unlock()
					return
				}
				time.Sleep(10 * time.Millisecond)
			}
		}()
		return wt
	}
	for _, n := range names {
		if rd.Intn(2) == 0 {
			sub(n, client.Stream, n)
		}
	}
	if rd.Intn(2) == 0 {
		sub("*", client.Stream, names...)
	}
	time.Sleep(time.Duration(rd.Intn(100)) * time.Millisecond)
	close(w.started)
	time.Sleep(time.Duration(rd.Intn(40)) * time.Millisecond)
	late := names[rd.Intn(len(names))]
	sub(late, client.Stream, late)
	// wait until the targets have said everything
	deadline := time.Now().Add(60 * time.Second)
	for _, n := range names {
		for {
			done := false
			if ta := w.targets[n]; ta.mu.TryLock() { // a session holds it while it streams
				done = ta.done
				ta.mu.Unlock()
			}
			if done {
				break
			}
			if time.Now().After(deadline) {
				vh.Fail(t, "the collector does not (re)subscribe to target %s%s", n, w.history(n))
			}
			time.Sleep(5 * time.Millisecond)
		}
	}
	check := func(wt *watcher) {
		var d string
		for k := 0; ; k++ {
			want := w.want(nil, wt.names...)
			d = v01diff(v01view(wt.c.Leaves()), want)
			if d == "" {
				break
			}
			if k > 6000 {
				vh.Fail(t, "%s (error %v) differs from the targets' state:\n  %s%s", wt.desc, wt.err, d, w.history(wt.names...))
			}
			time.Sleep(5 * time.Millisecond)
		}
	}
	for _, wt := range ws {
		check(wt)
	}
	time.Sleep(30 * time.Millisecond)
	for _, wt := range ws { // and nothing changes any more
		if d := v01diff(v01view(wt.c.Leaves()), w.want(nil, wt.names...)); d != "" {
			vh.Fail(t, "%s changed after the streams quiesced:\n  %s%s", wt.desc, d, w.history(wt.names...))
		}
		vh.Stat("stream clients", 1)
	}
	for _, n := range names {
		vh.Stat("leaves", len(w.want(nil, n)))
		vh.Stat("sessions", w.targets[n].sess)
		vh.Stat("target messages", len(w.targets[n].log))
		// a client that comes now
		c := client.New()
		if err := c.Subscribe(ctx, client.Query{Addrs: []string{addr}, Target: n, Queries: []client.Path{{"*"}}, Type: client.Once, TLS: &tls.Config{InsecureSkipVerify: true}, Timeout: 20 * time.Second}, gclient.Type); err != nil {
			vh.Fail(t, "once client of %s: %v%s", n, err, w.history(n))
		}
		// before the stream clients agreed the cache had everything, unless nobody watched this target
		for k := 0; ; k++ {
			d := v01diff(v01view(c.Leaves()), w.want(nil, n))
			if d == "" {
				break
			}
			if k > 1500 {
				vh.Fail(t, "once client of %s differs from the target's state:\n  %s%s", n, d, w.history(n))
			}
			time.Sleep(20 * time.Millisecond)
			c = client.New()
			c.Subscribe(ctx, client.Query{Addrs: []string{addr}, Target: n, Queries: []client.Path{{"*"}}, Type: client.Once, TLS: &tls.Config{InsecureSkipVerify: true}, Timeout: 20 * time.Second}, gclient.Type)
		}
		c.Close()
	}
	w.mu.Lock()
	bad := w.bad
	w.mu.Unlock()
	if bad != "" {
		vh.Fail(t, "%s", bad)
	}
	v01CLI(t, rd, w, names[rd.Intn(len(names))], addr, scratch, bin)
}

// v01CLI compares the output of equivalent invocations of the command line client.
func v01CLI(t *testing.T, rd *rand.Rand, w *v01world, name, addr, scratch, bin string) {
	sel := []string{"openconfig"}
	switch rd.Intn(4) {
	case 0:
		sel = []string{"vendor"}
	case 1:
		sel = []string{"openconfig", "c0"}
	case 2:
		sel = []string{"openconfig", "c1", "l", "eth0"}
	}
	want := map[string]any{}
	var lines []string
	tree := v01tree{}
	func() {
		ta := w.targets[name]
		ta.mu.Lock()
		defer ta.mu.Unlock()
		for _, l := range ta.state {
			if is := append([]string{name}, l.idx()...); v01below(sel, is[1:]) {
				want[v01key(is)] = l.want
				lines = append(lines, strings.Join(is, "|")+fmt.Sprintf(", %v", l.want))
				tree.put(is, l.want)
			}
		}
	}()
	sort.Strings(lines)
	typ := []string{"once", "polling", "streaming"}[rd.Intn(3)]
	var elems []string
	for _, s := range sel[1:] {
		elems = append(elems, fmt.Sprintf("elem:{name:%q}", s))
	}
	key := len(sel) == 4
	if key {
		elems = []string{`elem:{name:"c1"}`, `elem:{name:"l" key:{key:"name" value:"eth0"}}`}
	}
	mode := map[string]string{"once": "ONCE", "polling": "POLL", "streaming": "STREAM"}[typ]
	protos := []string{
		fmt.Sprintf(`subscribe:{prefix:{target:%q origin:%q} subscription:{path:{%s}} mode:%s}`, name, sel[0], strings.Join(elems, " "), mode),
		fmt.Sprintf(`subscribe:{prefix:{target:%q} subscription:{path:{origin:%q %s}} mode:%s}`, name, sel[0], strings.Join(elems, " "), mode),
		fmt.Sprintf(`subscribe:{prefix:{target:%q} subscription:{path:{elem:{name:%q} %s}} mode:%s}`, name, sel[0], strings.Join(elems, " "), mode),
	}
	pf := filepath.Join(scratch, "request.txt")
	if err := os.WriteFile(pf, []byte(protos[rd.Intn(len(protos))]+"\n"), 0o600); err != nil {
		t.Fatal(err)
	}
	q := strings.Join(sel, "/")
	if key {
		q = "openconfig/c1/l[name=eth0]"
	}
	base := []string{"-address", addr, "-tls_skip_verify", "-timeout", "20s", "-polling_interval", "1ms"}
	if typ == "streaming" {
		base = append(base, "-streaming_duration", "700ms")
	}
	var wg sync.WaitGroup
	fails := make(chan string, 10)
	for _, how := range [][]string{
		{"-query", q, "-target", name, "-query_type", typ},
		{"-q", "/" + q, "-t", name, "-qt", typ[:1]},
		{"-proto", protos[rd.Intn(len(protos))]},
		{"-proto_file", pf},
	} {
		for _, disp := range []string{"single", "group"} {
			if typ == "polling" && disp == "single" {
				continue // single displays nothing more than the first answer
			}
			args := append(append(append([]string{}, base...), how...), "-display_type", disp)
			if disp == "single" {
				if how[0] == "-query" || how[0] == "-q" {
					args = append(args, "-delimiter", "|")
					args[len(base)+1] = strings.ReplaceAll(q, "/", "|")
				} else {
					args = append(args, "-d", "|")
				}
			}
			if typ == "polling" {
				args = append(args, "-count", "1")
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				var stdout, stderr bytes.Buffer
				cmd := exec.Command(bin, args...)
				cmd.Stdout, cmd.Stderr = &stdout, &stderr
				err := cmd.Run()
				if err != nil && typ != "streaming" {
					fails <- fmt.Sprintf("gnmi_cli %q: %v\n%s\n%s", args, err, stdout.String(), stderr.String())
					return
				}
				got := stdout.String()
				if disp == "single" {
					var ls []string
					for _, l := range strings.Split(got, "\n") {
						if strings.HasPrefix(l, name+"|") && !strings.HasPrefix(l, name+"|meta|") {
							ls = append(ls, l)
						}
					}
					sort.Strings(ls)
					if strings.Join(ls, "\n") != strings.Join(lines, "\n") {
						fails <- fmt.Sprintf("gnmi_cli %q prints\n%s\nwant\n%s\n%s", args, strings.Join(ls, "\n"), strings.Join(lines, "\n"), stderr.String())
					}
					return
				}
				if exp := tree.str("") + "\n"; !strings.HasPrefix(got, exp) || typ != "streaming" && got != exp {
					fails <- fmt.Sprintf("gnmi_cli %q prints\n%s\nwant\n%s\n%s", args, got, exp, stderr.String())
				}
			}()
			vh.Stat("gnmi_cli runs", 1)
		}
	}
	wg.Wait()
	select {
	case f := <-fails:
		vh.Fail(t, "%s%s", f, w.history(name))
	default:
	}
}

type v01tree map[string]any

func (m v01tree) put(p []string, v any) {
	if len(p) == 1 {
		m[p[0]] = v
		return
	}
	s, ok := m[p[0]].(v01tree)
	if !ok {
		s = v01tree{}
		m[p[0]] = s
	}
	s.put(p[1:], v)
}

func v01str(v any) string {
	switch v := v.(type) {
	case string:
		return fmt.Sprintf("%q", v)
	case []any:
		var s []string
		for _, x := range v {
			s = append(s, v01str(x))
		}
		return "[" + strings.Join(s, ", ") + "]"
	}
	return fmt.Sprint(v)
}

func (m v01tree) str(in string) string {
	var ks, s []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		x := ""
		if t, ok := m[k].(v01tree); ok {
			x = t.str(in + "  ")
		} else {
			x = v01str(m[k])
		}
		s = append(s, fmt.Sprintf("%s  %q: %s", in, k, x))
	}
	return "{\n" + strings.Join(s, ",\n") + "\n" + in + "}"
}
