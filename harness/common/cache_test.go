package cache_test

import (
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/metadata"
	"github.com/openconfig/gnmi/path"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/value"
	vh "github.com/openconfig/gnmi/verifh"
	"google.golang.org/protobuf/proto"
)

// Reference model of the cache contracts: per target, a map from index path to
// the stored notification.

type vLeaf struct {
	path []string
	n    *pb.Notification
}

type vTarget struct {
	leaves map[string]*vLeaf // real data only
	latest int64             // latest accepted timestamp, 0 when none
	added  int64
	deled  int64
}

type vWorld struct {
	t         *testing.T
	c         *cache.Cache
	rd        *rand.Rand
	now       int64
	threshold int64
	eventDr   bool
	targets   []string
	model     map[string]*vTarget
	replay    map[string]*vLeaf // index path including the target -> notification last announced
	feed      []*pb.Notification
	log       []string
	prefixes  map[string][]*pb.Path // shared prefix objects per target
	which     string                // property judged
}

func vKey(p []string) string { return strings.Join(p, "\x00") }

// vMatch is the tree's match relation (C09): q names a leaf at or below it, with
// wildcards; a last wildcard also stands for no element.
func vMatch(q, p []string) bool {
	for i, e := range q {
		if i == len(p) {
			return i == len(q)-1 && e == "*"
		}
		if e != "*" && e != p[i] {
			return false
		}
	}
	return true
}

// vIndex is the index path of an element below the prefix, target first.
func vIndex(prefix, p *pb.Path) []string {
	out := []string{prefix.GetTarget()}
	if o := prefix.GetOrigin(); o != "" {
		out = append(out, o)
	} else if o := p.GetOrigin(); o != "" {
		out = append(out, o)
	}
	return append(append(out, path.ToStrings(prefix, false)...), path.ToStrings(p, false)...)
}

// vAtomic is the index path of an atomic group.
func vAtomic(n *pb.Notification) []string {
	var p *pb.Path
	if len(n.Update) > 0 {
		p = &pb.Path{Origin: n.Update[0].GetPath().GetOrigin()}
	}
	return vIndex(n.Prefix, p)
}

func (w *vWorld) fail(f string, a ...interface{}) {
	l := w.log
	if len(l) > 40 {
		l = l[len(l)-40:]
	}
	vh.Fail(w.t, "%s\n event-driven %v threshold %d; history:\n  %s", fmt.Sprintf(f, a...), w.eventDr, w.threshold, strings.Join(l, "\n  "))
}

func (w *vWorld) onFeed(l *ctree.Leaf) {
	n, ok := l.Value().(*pb.Notification)
	if !ok {
		w.fail("the feed hands out %T", l.Value())
	}
	n = proto.Clone(n).(*pb.Notification)
	w.feed = append(w.feed, n)
	if n.Atomic {
		p := vAtomic(n)
		w.replay[vKey(p)] = &vLeaf{p, n}
		return
	}
	for _, u := range n.Update {
		p := vIndex(n.Prefix, u.Path)
		w.replay[vKey(p)] = &vLeaf{p, n}
	}
	for _, d := range n.Delete {
		p := vIndex(n.Prefix, d)
		for k, r := range w.replay {
			if vMatch(p, r.path) {
				delete(w.replay, k)
			}
		}
	}
}

func vNew(t *testing.T, rd *rand.Rand, which string) *vWorld {
	w := &vWorld{t: t, rd: rd, which: which, now: 1000, eventDr: rd.Intn(3) > 0, replay: map[string]*vLeaf{}, model: map[string]*vTarget{}, prefixes: map[string][]*pb.Path{}}
	cache.Now = func() time.Time { return time.Unix(0, w.now) }
	var opts []cache.Option
	if !w.eventDr {
		opts = append(opts, cache.DisableEventDrivenEmulation())
	}
	if rd.Intn(2) == 0 {
		w.threshold = int64(20 + rd.Intn(40))
		opts = append(opts, cache.WithFutureThreshold(time.Duration(w.threshold)))
	}
	n := 1 + rd.Intn(3)
	for i := 0; i < n; i++ {
		w.targets = append(w.targets, fmt.Sprint("dev", i))
	}
	w.c = cache.New(w.targets, opts...)
	for _, tg := range w.targets {
		w.model[tg] = &vTarget{leaves: map[string]*vLeaf{}}
		for k := 0; k < 3; k++ {
			w.prefixes[tg] = append(w.prefixes[tg], w.prefix(tg))
		}
	}
	w.c.SetClient(w.onFeed)
	return w
}

var vNames = []string{"a", "b", "c"}

func (w *vWorld) elems(names []string) []*pb.PathElem {
	out := make([]*pb.PathElem, 0, len(names)+2) // spare capacity: appends by the callee would write here
	for _, n := range names {
		out = append(out, &pb.PathElem{Name: n})
	}
	return out
}

func (w *vWorld) names(max int, glob bool) []string {
	p := []string{}
	for i := w.rd.Intn(max + 1); i > 0; i-- {
		n := vNames[w.rd.Intn(len(vNames))]
		if glob && w.rd.Intn(3) == 0 {
			n = "*"
		}
		p = append(p, n)
	}
	return p
}

func (w *vWorld) prefix(target string) *pb.Path {
	p := &pb.Path{Target: target}
	if w.rd.Intn(4) == 0 {
		p.Origin = "o"
	}
	w.encode(p, w.names(2, false))
	return p
}

func (w *vWorld) encode(p *pb.Path, names []string) *pb.Path {
	switch w.rd.Intn(5) {
	case 0:
		p.Element = append(make([]string, 0, len(names)+2), names...)
	case 1:
		if len(names) >= 2 { // the last name becomes a key value
			p.Elem = w.elems(names[:len(names)-1])
			p.Elem[len(p.Elem)-1].Key = map[string]string{"k": names[len(names)-1]}
			break
		}
		fallthrough
	default:
		p.Elem = w.elems(names)
	}
	return p
}

func (w *vWorld) val() *pb.TypedValue {
	k := int64(w.rd.Intn(3))
	switch w.rd.Intn(8) {
	case 0:
		return &pb.TypedValue{Value: &pb.TypedValue_StringVal{StringVal: fmt.Sprint("s", k)}}
	case 1:
		return &pb.TypedValue{Value: &pb.TypedValue_BoolVal{BoolVal: k == 0}}
	case 2:
		return &pb.TypedValue{Value: &pb.TypedValue_DoubleVal{DoubleVal: float64(k)}}
	case 3:
		l := &pb.ScalarArray{}
		for ; k > 0; k-- {
			l.Element = append(l.Element, &pb.TypedValue{Value: &pb.TypedValue_UintVal{UintVal: uint64(w.rd.Intn(2))}})
		}
		return &pb.TypedValue{Value: &pb.TypedValue_LeaflistVal{LeaflistVal: l}}
	default:
		return &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: k}}
	}
}

func (w *vWorld) ts() int64 {
	switch w.rd.Intn(8) {
	case 0:
		return w.now + w.threshold + int64(w.rd.Intn(4)) - 1
	case 1:
		return w.now + 2*w.threshold + int64(w.rd.Intn(40))
	case 2:
		return w.now - 20
	default:
		return w.now - int64(w.rd.Intn(12))
	}
}

func (w *vWorld) notif(tg string) *pb.Notification {
	n := &pb.Notification{Timestamp: w.ts()}
	if w.rd.Intn(2) == 0 {
		n.Prefix = w.prefixes[tg][w.rd.Intn(3)] // shared between notifications
	} else {
		n.Prefix = w.prefix(tg)
	}
	origin := ""
	if n.Prefix.Origin == "" && w.rd.Intn(4) == 0 {
		origin = "o2"
	}
	pth := func(glob bool) *pb.Path {
		for {
			p := w.encode(&pb.Path{Origin: origin}, w.names(3, glob))
			if len(vIndex(n.Prefix, p)) > 1 {
				return p
			}
		}
	}
	upd := func() *pb.Update { return &pb.Update{Path: pth(false), Val: w.val()} }
	switch w.rd.Intn(12) {
	case 0: // empty
		n.Atomic = w.rd.Intn(2) == 0
	case 1, 2: // atomic
		n.Atomic = true
		for len(vIndex(n.Prefix, nil)) < 2 {
			n.Prefix = w.prefix(tg)
		}
		for k := w.rd.Intn(3); k >= 0; k-- {
			n.Update = append(n.Update, upd())
		}
	case 3, 4:
		n.Delete = append(n.Delete, pth(true))
	case 5, 6:
		for k := w.rd.Intn(4); k > 0; k-- {
			n.Update = append(n.Update, upd())
		}
		for k := w.rd.Intn(3); k > 0; k-- {
			n.Delete = append(n.Delete, pth(true))
		}
	default:
		n.Update = append(n.Update, upd())
	}
	return n
}

var errConflict = errors.New("rejected: collides with the tree")

// update is the contract of one accepted or rejected update of a leaf.
func (m *vTarget) update(p []string, n *pb.Notification, now, threshold int64) (err error, old *pb.Notification) {
	k := vKey(p)
	l := m.leaves[k]
	if l == nil {
		for _, o := range m.leaves {
			if vMatch(p, o.path) || vMatch(o.path, p) {
				return errConflict, nil
			}
		}
		m.leaves[k] = &vLeaf{p, n}
		m.added++
	} else {
		old = l.n
		switch {
		case n.Timestamp < old.Timestamp, n.Timestamp == old.Timestamp && proto.Equal(n, old):
			return cache.ErrStale, nil
		case n.Timestamp > old.Timestamp && threshold > 0 && n.Timestamp-now > threshold && m.latest > 0 && n.Timestamp-m.latest > threshold:
			return cache.ErrFuture, nil
		}
		l.n = n
	}
	if n.Timestamp > m.latest {
		m.latest = n.Timestamp
	}
	return nil, old
}

func (m *vTarget) remove(p []string, ts int64) (gone []*vLeaf) {
	for k, l := range m.leaves {
		if vMatch(p, l.path) && l.n.Timestamp < ts {
			delete(m.leaves, k)
			gone = append(gone, l)
			m.deled++
		}
	}
	return gone
}

type vCounts struct{ upd, sup, stale, fut, empty, leaf, add, del int64 }

func (w *vWorld) counts(tg string) (c vCounts) {
	md := w.c.Metadata()[tg]
	if md == nil {
		return c
	}
	for name, p := range map[string]*int64{metadata.UpdateCount: &c.upd, metadata.SuppressedCount: &c.sup, metadata.StaleCount: &c.stale,
		metadata.FutureCount: &c.fut, metadata.EmptyCount: &c.empty, metadata.LeafCount: &c.leaf, metadata.AddCount: &c.add, metadata.DelCount: &c.del} {
		*p, _ = md.GetInt(name)
	}
	return c
}

func vErrs(err error) []error {
	if err == nil {
		return nil
	}
	if l, ok := err.(interface{ Errors() []error }); ok {
		return l.Errors()
	}
	return []error{err}
}

func (w *vWorld) stored(tg string) map[string]*vLeaf {
	out := map[string]*vLeaf{}
	w.c.Query(tg, nil, func(p []string, _ *ctree.Leaf, v interface{}) error {
		p = append([]string{}, p...)
		out[vKey(p)] = &vLeaf{p, v.(*pb.Notification)}
		return nil
	})
	return out
}

func vReal(m map[string]*vLeaf) map[string]*vLeaf {
	out := map[string]*vLeaf{}
	for k, l := range m {
		if l.path[0] != metadata.Root {
			out[k] = l
		}
	}
	return out
}

func vShow(m map[string]*vLeaf) string {
	var s []string
	for _, l := range m {
		s = append(s, fmt.Sprintf("%q: %v", l.path, l.n))
	}
	sort.Strings(s)
	return "\n    " + strings.Join(s, "\n    ")
}

func sameValue(a, b *pb.Notification) bool {
	if a.Atomic != b.Atomic || len(a.Update) != len(b.Update) {
		return false
	}
	for i := range a.Update {
		if a.Atomic && !proto.Equal(a.Update[i].Path, b.Update[i].Path) {
			return false
		}
		if x, y := a.Update[i].Val, b.Update[i].Val; !proto.Equal(x, y) && !value.Equal(x, y) {
			return false
		}
	}
	return true
}

// apply submits n and judges the call.
func (w *vWorld) apply(tg string, n *pb.Notification) {
	before := proto.Clone(n).(*pb.Notification)
	pre := w.counts(tg)
	w.feed = nil
	m := w.model[tg]
	now := w.now
	full := func(p *pb.Path) []string { return vIndex(before.Prefix, p)[1:] }
	known := w.c.HasTarget(tg)
	var err error
	if p := vh.NoPanic(func() { err = w.c.GnmiUpdate(n) }); p != nil {
		w.fail("GnmiUpdate panics: %v on %v", p, before)
	}
	feed := w.feed
	w.log = append(w.log, fmt.Sprintf("now %d %s GnmiUpdate(%v) = %v", now, tg, before, err))
	if !proto.Equal(n, before) {
		if w.which == "C03" {
			w.fail("the caller's notification %v became %v", before, n)
		}
	}
	if !known {
		if w.which == "C14" && err == nil {
			w.fail("update of unknown target %q accepted", tg)
		}
		return
	}
	// expectation
	type exp struct {
		err  error
		old  *pb.Notification
		noti *pb.Notification
	}
	var exps []exp
	var gone []*vLeaf
	nUpd := int64(len(before.Update))
	atomicDel := before.Atomic && len(before.Delete) > 0
	switch {
	case atomicDel:
	case before.Atomic && nUpd == 0:
	case before.Atomic:
		e, old := m.update(vAtomic(before)[1:], before, now, w.threshold)
		exps = append(exps, exp{e, old, before})
	default:
		for _, u := range before.Update {
			one := proto.Clone(before).(*pb.Notification)
			one.Update, one.Delete = []*pb.Update{u}, nil
			e, old := m.update(full(u.Path), one, now, w.threshold)
			exps = append(exps, exp{e, old, one})
		}
		for _, d := range before.Delete {
			gone = append(gone, m.remove(full(d), before.Timestamp)...)
		}
	}
	// C02: results and stored leaves
	var wantErrs []error
	for _, e := range exps {
		if e.err != nil {
			wantErrs = append(wantErrs, e.err)
		}
	}
	got := vErrs(err)
	if w.which == "C02" {
		if atomicDel && err == nil {
			w.fail("atomic delete accepted")
		}
		if !atomicDel {
			if len(got) != len(wantErrs) {
				w.fail("returned %v, the contract demands %v", err, wantErrs)
			}
			for i := range got {
				for _, x := range []error{cache.ErrStale, cache.ErrFuture} {
					if (got[i] == x) != (wantErrs[i] == x) {
						w.fail("returned %v, the contract demands %v", err, wantErrs)
					}
				}
			}
		}
	}
	// C03: what is withheld, one feed message per applied update
	if w.which == "C03" && len(got) == len(wantErrs) && !atomicDel {
		want := map[bool]int{}
		i := 0
		next := func() *pb.Notification {
			if i < len(feed) {
				i++
				return feed[i-1]
			}
			return nil
		}
		for _, e := range exps {
			if e.err != nil {
				continue
			}
			same := e.old != nil && !e.noti.Atomic && w.eventDr && sameValue(e.old, e.noti)
			if i < len(feed) && len(feed[i].Update) > 0 && proto.Equal(feed[i], e.noti) {
				next()
				want[true]++
				continue
			}
			if !same {
				w.fail("accepted update %v (old %v) was withheld from the feed or changed: %v", e.noti, e.old, feed)
			}
			want[false]++
		}
		for ; i < len(feed); i++ {
			if len(feed[i].Update) > 0 || len(feed[i].Delete) == 0 {
				w.fail("unexpected feed message %v for %v", feed[i], before)
			}
		}
		vh.Stat("suppressed", want[false])
	}
	// C15: conservation
	if w.which == "C15" {
		post := w.counts(tg)
		d := vCounts{post.upd - pre.upd, post.sup - pre.sup, post.stale - pre.stale, post.fut - pre.fut, post.empty - pre.empty, post.leaf - pre.leaf, post.add - pre.add, post.del - pre.del}
		var stale, fut, other int64
		for _, e := range got {
			switch e {
			case cache.ErrStale:
				stale++
			case cache.ErrFuture:
				fut++
			default:
				other++
			}
		}
		dels := int64(len(before.Delete))
		switch {
		case atomicDel:
			if err == nil || d.upd+d.sup+d.stale+d.fut+d.empty != 0 {
				w.fail("atomic delete counted: %+v", d)
			}
		case nUpd+dels == 0:
			if d.empty != 1 || d.upd+d.sup+d.stale+d.fut != 0 {
				w.fail("empty notification counted as %+v", d)
			}
		case before.Atomic:
			if d.empty+d.sup != 0 || d.stale != stale || d.fut != fut || (err == nil && d.upd != nUpd) || (err != nil && d.upd != 0) {
				w.fail("atomic group of %d returned %v counted as %+v", nUpd, err, d)
			}
		default:
			if d.empty != 0 || d.stale != stale || d.fut != fut || d.upd-dels+d.sup+stale+fut+other != nUpd {
				w.fail("%d updates and %d deletes returned %v counted as %+v", nUpd, dels, err, d)
			}
		}
	}
	vh.Stat("notifications", 1)
	if len(gone) > 0 {
		vh.Stat("effective_deletes", 1)
	}
	for _, e := range wantErrs {
		vh.Stat(map[error]string{cache.ErrStale: "stale", cache.ErrFuture: "future", errConflict: "conflicts"}[e], 1)
	}
}

// judge compares the whole state.
func (w *vWorld) judge() {
	for _, tg := range w.targets {
		if !w.c.HasTarget(tg) {
			continue
		}
		all := w.stored(tg)
		got := vReal(all)
		m := w.model[tg]
		if w.which == "C02" {
			ok := len(got) == len(m.leaves)
			for k, l := range m.leaves {
				if g := got[k]; g == nil || !proto.Equal(g.n, l.n) {
					ok = false
				}
			}
			if !ok {
				w.fail("target %s holds %s\n  the contract demands %s", tg, vShow(got), vShow(m.leaves))
			}
		}
		if w.which == "C03" {
			feed := map[string]*vLeaf{}
			for k, l := range w.replay {
				if l.path[0] == tg {
					feed[k] = l
				}
			}
			ok := len(feed) == len(all)
			for _, l := range all {
				if g := feed[vKey(append([]string{tg}, l.path...))]; g == nil || !sameValue(g.n, l.n) {
					ok = false
				}
			}
			if !ok {
				w.fail("target %s holds %s\n  replaying the feed yields %s", tg, vShow(all), vShow(feed))
			}
		}
		if w.which == "C15" {
			c := w.counts(tg)
			if c.leaf != int64(len(got)) || c.leaf != c.add-c.del {
				w.fail("target %s: leaf count %d, added %d, deleted %d, but %d leaves are stored: %s", tg, c.leaf, c.add, c.del, len(got), vShow(got))
			}
		}
	}
	if w.which == "C03" { // nothing of unknown targets survives in the feed
		for _, l := range w.replay {
			if !w.c.HasTarget(l.path[0]) {
				w.fail("the feed still shows %q of a removed target", l.path)
			}
		}
	}
}

// snapshot describes everything observable of a target.
func (w *vWorld) snapshot(tg string) string {
	if !w.c.HasTarget(tg) {
		return "unknown"
	}
	s := vShow(w.stored(tg))
	md := w.c.Metadata()[tg]
	var ms []string
	for k := range metadata.TargetIntValues {
		v, e := md.GetInt(k)
		ms = append(ms, fmt.Sprint(k, v, e))
	}
	for k := range metadata.TargetBoolValues {
		v, e := md.GetBool(k)
		ms = append(ms, fmt.Sprint(k, v, e))
	}
	for k := range metadata.TargetStrValues {
		v, e := md.GetStr(k)
		ms = append(ms, fmt.Sprint(k, v, e))
	}
	sort.Strings(ms)
	return s + strings.Join(ms, ";")
}

func (w *vWorld) reset(tg string) {
	before := w.stored(tg)
	w.feed = nil
	w.c.Reset(tg)
	w.log = append(w.log, tg+" Reset")
	m := w.model[tg]
	m.leaves, m.latest, m.added, m.deled = map[string]*vLeaf{}, 0, 0, 0
	if w.which != "C14" || !w.c.HasTarget(tg) {
		return
	}
	if got := vReal(w.stored(tg)); len(got) != 0 {
		w.fail("after Reset of %s: %s", tg, vShow(got))
	}
	for _, l := range vReal(before) {
		covered := false
		for _, n := range w.feed {
			for _, d := range n.Delete {
				covered = covered || vMatch(vIndex(n.Prefix, d), append([]string{tg}, l.path...))
			}
		}
		if !covered {
			w.fail("Reset of %s announces %v, which does not cover the leaf %q", tg, w.feed, l.path)
		}
	}
	for _, n := range w.feed {
		if n.GetPrefix().GetTarget() != tg {
			w.fail("Reset of %s announces %v", tg, n)
		}
	}
	md := w.c.Metadata()[tg]
	for _, k := range []string{metadata.AddCount, metadata.DelCount, metadata.EmptyCount, metadata.LeafCount, metadata.UpdateCount, metadata.StaleCount, metadata.FutureCount, metadata.SuppressedCount, metadata.Size} {
		if v, _ := md.GetInt(k); v != 0 {
			w.fail("after Reset of %s: %s is %d", tg, k, v)
		}
	}
	for _, k := range []string{metadata.Sync, metadata.Connected} {
		v, _ := md.GetBool(k)
		if l := w.stored(tg)[vKey([]string{metadata.Root, k})]; v || l == nil || l.n.Update[0].Val.GetBoolVal() {
			w.fail("after Reset of %s: %s is %v, exported as %v", tg, k, v, l)
		}
	}
	if v, err := md.GetStr(metadata.ConnectError); err == nil && v != "" {
		w.fail("after Reset of %s: connect error %q", tg, v)
	}
}

func (w *vWorld) remove(tg string) {
	w.feed = nil
	w.c.Remove(tg)
	w.log = append(w.log, tg+" Remove")
	if w.which != "C14" {
		return
	}
	if w.c.HasTarget(tg) || w.c.GetTarget(tg) != nil || w.c.Metadata()[tg] != nil {
		w.fail("%s is known after Remove", tg)
	}
	if err := w.c.Query(tg, []string{"*"}, func([]string, *ctree.Leaf, interface{}) error { return nil }); err == nil {
		w.fail("%s can be queried after Remove", tg)
	}
	w.c.Query("*", nil, func(p []string, _ *ctree.Leaf, v interface{}) error {
		if n := v.(*pb.Notification); n.GetPrefix().GetTarget() == tg {
			w.fail("%v is returned after Remove of %s", n, tg)
		}
		return nil
	})
	if len(w.feed) != 1 || len(w.feed[0].Delete) != 1 || w.feed[0].GetPrefix().GetTarget() != tg {
		w.fail("Remove of %s announces %v", tg, w.feed)
	}
	if p := vIndex(w.feed[0].Prefix, w.feed[0].Delete[0]); len(p) > 2 || !vMatch(p, []string{tg, "any"}) || !vMatch(p, []string{tg, "any", "below"}) {
		w.fail("Remove of %s announces %v, not the whole target", tg, w.feed[0])
	}
}

func vRunCache(t *testing.T, which string, trials int) {
	defer vh.Flush()
	defer func() { cache.Now = time.Now }()
	for i := 0; i < trials; i++ {
		rd := vh.Rand("cache"+which, i)
		w := vNew(t, rd, which)
		for step := 5 + rd.Intn(30); step > 0; step-- {
			w.now += int64(1 + rd.Intn(3))
			tg := w.targets[rd.Intn(len(w.targets))]
			others := map[string]string{}
			if which == "C14" {
				for _, o := range w.targets {
					if o != tg {
						others[o] = w.snapshot(o)
					}
				}
			}
			known := w.c.HasTarget(tg)
			act := rd.Intn(24)
			if which == "C14" {
				act = rd.Intn(14)
			}
			w.feed = nil
			switch act {
			case 0:
				w.reset(tg)
			case 1:
				if rd.Intn(3) == 0 || which == "C14" {
					w.remove(tg)
				}
			case 2:
				if !known {
					w.c.Add(tg)
					w.log = append(w.log, tg+" Add")
				}
				if !known {
					w.model[tg] = &vTarget{leaves: map[string]*vLeaf{}}
				}
			case 3:
				w.c.Sync(tg)
				w.log = append(w.log, tg+" Sync")
			case 4:
				w.c.Connect(tg)
				w.log = append(w.log, tg+" Connect")
			case 5:
				w.c.ConnectError(tg, errors.New("boom"))
				w.log = append(w.log, tg+" ConnectError")
			case 6:
				if which != "C14" {
					w.c.UpdateMetadata()
					w.log = append(w.log, "UpdateMetadata")
					if which == "C15" {
						for _, o := range w.targets {
							if md := w.c.Metadata()[o]; md != nil {
								v, _ := md.GetInt(metadata.LatestTimestamp)
								if lt := w.model[o].latest; lt > 0 && v != lt {
									w.fail("latest timestamp of %s is %d, the greatest accepted is %d", o, v, lt)
								}
								l := w.stored(o)[vKey([]string{metadata.Root, metadata.LeafCount})]
								n, _ := md.GetInt(metadata.LeafCount)
								if l == nil || l.n.Update[0].Val.GetIntVal() != n {
									w.fail("exported leaf count of %s is %v, metadata says %d", o, l, n)
								}
							}
						}
					}
				}
			case 7:
				if which != "C14" {
					w.c.UpdateSize()
					w.log = append(w.log, "UpdateSize")
				}
			default:
				w.apply(tg, w.notif(tg))
			}
			for _, n := range w.feed {
				if which == "C14" && n.GetPrefix().GetTarget() != tg {
					w.fail("an operation on %s is reported for another target: %v", tg, n)
				}
			}
			w.judge()
			for o, s := range others {
				if s2 := w.snapshot(o); s2 != s {
					w.fail("operation on %s changed %s from %s\n to %s", tg, o, s, s2)
				}
			}
		}
		if i < 2 && len(w.log) > 1 {
			vh.Sample("%s", strings.Join(w.log[:2], " ; "))
		}
		vh.Stat("histories", 1)
	}
}

func TestVerifC02(t *testing.T) { vRunCache(t, "C02", vh.N(6000)) }
func TestVerifC03(t *testing.T) { vRunCache(t, "C03", vh.N(6000)) }
func TestVerifC14(t *testing.T) { vRunCache(t, "C14", vh.N(4000)) }
func TestVerifC15(t *testing.T) { vRunCache(t, "C15", vh.N(4000)) }
