package ctree_test

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/openconfig/gnmi/ctree"
	vh "github.com/openconfig/gnmi/verifh"
)

// Executable form of the C09 contracts: the tree is a prefix-free map from
// paths to values. Every operation is compared with the map.

const sep = "\x00"

func key(p []string) string { // injective: every element is terminated
	var b strings.Builder
	for _, e := range p {
		b.WriteString(e)
		b.WriteString(sep)
	}
	return b.String()
}

func isPrefix(p, q []string) bool {
	if len(p) > len(q) {
		return false
	}
	for i := range p {
		if p[i] != q[i] {
			return false
		}
	}
	return true
}

// matches is the query relation: '*' agrees with any element, the query covers
// everything at or below it, and one trailing '*' may match nothing.
func matches(q, leaf []string) bool {
	for i, e := range q {
		if i == len(leaf) {
			return i == len(q)-1 && e == "*"
		}
		if e != "*" && e != leaf[i] {
			return false
		}
	}
	return true
}

type ent struct {
	p []string
	v interface{}
}
type model map[string]ent

func (m model) add(p []string, v interface{}) bool {
	for _, e := range m {
		if len(e.p) != len(p) && (isPrefix(p, e.p) || isPrefix(e.p, p)) {
			return false
		}
	}
	m[key(p)] = ent{append([]string{}, p...), v}
	return true
}

func (m model) match(q []string, cond func(interface{}) bool) map[string]interface{} {
	r := map[string]interface{}{}
	for k, e := range m {
		if matches(q, e.p) && (cond == nil || cond(e.v)) {
			r[k] = e.v
		}
	}
	return r
}

type run struct {
	t    *testing.T
	tr   *ctree.Tree
	m    model
	hist []string
}

func (r *run) fail(f string, a ...interface{}) {
	r.t.Helper()
	vh.Fail(r.t, "%s\n history: %s\n model: %v", fmt.Sprintf(f, a...), strings.Join(r.hist, "; "), r.m)
}

func (r *run) guard(what string, f func()) {
	if p := vh.NoPanic(f); p != nil {
		r.fail("%s panics: %v", what, p)
	}
}

// collect builds a visitor which records each leaf once.
func (r *run) collect(what string, got map[string]interface{}, order *[]string) ctree.VisitFunc {
	return func(p []string, l *ctree.Leaf, v interface{}) error {
		k := key(p)
		if _, dup := got[k]; dup {
			r.fail("%s reports %q twice", what, p)
		}
		if l == nil {
			r.fail("%s passes a nil leaf for %q", what, p)
		}
		got[k] = v
		if order != nil {
			*order = append(*order, k)
		}
		return nil
	}
}

func (r *run) query(q []string) {
	what := fmt.Sprintf("Query(%q)", q)
	got := map[string]interface{}{}
	q0 := append([]string{}, q...)
	r.guard(what, func() {
		if err := r.tr.Query(q, r.collect(what, got, nil)); err != nil {
			r.fail("%s: %v", what, err)
		}
	})
	if !reflect.DeepEqual(q0, append([]string{}, q...)) {
		r.fail("%s changed its argument to %q", what, q)
	}
	if want := r.m.match(q, nil); !reflect.DeepEqual(got, want) {
		r.fail("%s reports %v want %v", what, got, want)
	}
}

func (r *run) walks() {
	want := r.m.match(nil, nil)
	got := map[string]interface{}{}
	r.guard("Walk", func() { r.tr.Walk(r.collect("Walk", got, nil)) })
	if !reflect.DeepEqual(got, want) {
		r.fail("Walk reports %v want %v", got, want)
	}
	got = map[string]interface{}{}
	var ord []string
	r.guard("WalkSorted", func() { r.tr.WalkSorted(r.collect("WalkSorted", got, &ord)) })
	if !reflect.DeepEqual(got, want) {
		r.fail("WalkSorted reports %v want %v", got, want)
	}
	if !sort.StringsAreSorted(ord) { // the separator sorts below every element byte
		r.fail("WalkSorted order %q", ord)
	}
}

func (r *run) look(p []string) {
	p0 := append([]string{}, p...)
	exact, isLeaf := r.m[key(p)]
	kids := map[string]bool{}
	for _, e := range r.m {
		if len(e.p) > len(p) && isPrefix(p, e.p) {
			kids[e.p[len(p)]] = true
		}
	}
	r.guard(fmt.Sprintf("lookup %q", p), func() {
		n := r.tr.Get(p)
		exists := isLeaf || len(kids) > 0 || len(p) == 0
		if (n != nil) != exists {
			r.fail("Get(%q) = %v, want node present: %v", p, n, exists)
		}
		if n.IsBranch() != (len(kids) > 0) {
			r.fail("Get(%q).IsBranch() = %v", p, n.IsBranch())
		}
		var wv interface{}
		if isLeaf {
			wv = exact.v
		}
		if v := n.Value(); v != wv {
			r.fail("Get(%q).Value() = %v want %v", p, v, wv)
		}
		if v := r.tr.GetLeafValue(p); v != wv {
			r.fail("GetLeafValue(%q) = %v want %v", p, v, wv)
		}
		if isLeaf {
			if v := r.tr.GetLeaf(p).Value(); v != wv {
				r.fail("GetLeaf(%q).Value() = %v want %v", p, v, wv)
			}
		} else if !exists && r.tr.GetLeaf(p) != nil {
			r.fail("GetLeaf(%q) of an absent path is not nil", p)
		}
		ch := n.Children()
		if len(ch) != len(kids) {
			r.fail("Get(%q).Children() = %v want %v", p, ch, kids)
		}
		for k, c := range ch {
			if !kids[k] || c == nil {
				r.fail("Get(%q).Children() = %v want %v", p, ch, kids)
			}
		}
		for k := range ch { // the mapping is the caller's
			delete(ch, k)
		}
	})
	if !reflect.DeepEqual(p0, append([]string{}, p...)) {
		r.fail("lookup of %q changed its argument to %q", p0, p)
	}
}

func (r *run) add(p []string, v interface{}) {
	r.hist = append(r.hist, fmt.Sprintf("Add(%q,%v)", p, v))
	p0 := append([]string{}, p...)
	r.guard("Add", func() {
		err := r.tr.Add(p, v)
		if ok := r.m.add(p, v); ok != (err == nil) {
			r.fail("Add(%q, %v) = %v, model stores: %v", p, v, err, ok)
		}
	})
	if !reflect.DeepEqual(p0, append([]string{}, p...)) {
		r.fail("Add(%q) changed its argument to %q", p0, p)
	}
}

func (r *run) update(p []string, v interface{}) {
	e, ok := r.m[key(p)]
	if !ok {
		return
	}
	r.hist = append(r.hist, fmt.Sprintf("GetLeaf(%q).Update(%v)", p, v))
	e.v = v
	r.m[key(p)] = e
	r.guard("Update", func() { r.tr.GetLeaf(p).Update(v) })
}

// del runs one of the three delete forms; how selects it.
func (r *run) del(how int, q []string, cond func(interface{}) bool, condName string) {
	names := []string{"Delete", "DeleteConditional", "WalkDeleted"}
	r.hist = append(r.hist, fmt.Sprintf("%s(%q,%s)", names[how], q, condName))
	want := r.m.match(q, cond)
	for k := range want {
		delete(r.m, k)
	}
	q0 := append([]string{}, q...)
	switch how {
	case 0, 1:
		var del [][]string
		r.guard(names[how], func() {
			if how == 0 {
				del = r.tr.Delete(q)
			} else {
				del = r.tr.DeleteConditional(q, cond)
			}
		})
		got := map[string]bool{}
		for _, p := range del {
			if got[key(p)] {
				r.fail("%s(%q) returns %q twice", names[how], q, p)
			}
			got[key(p)] = true
		}
		for k := range want {
			if !got[k] {
				r.fail("%s(%q, %s) does not return %q: %q", names[how], q, condName, k, del)
			}
		}
		if len(got) != len(want) {
			r.fail("%s(%q, %s) returns %q, want %v", names[how], q, condName, del, want)
		}
	case 2:
		var vals []string
		r.guard(names[how], func() {
			r.tr.WalkDeleted(q, cond, func(v interface{}) { vals = append(vals, fmt.Sprint(v)) })
		})
		var wv []string
		for _, v := range want {
			wv = append(wv, fmt.Sprint(v))
		}
		sort.Strings(vals)
		sort.Strings(wv)
		if !reflect.DeepEqual(vals, wv) {
			r.fail("WalkDeleted(%q, %s) visits values %v, want %v", q, condName, vals, wv)
		}
	}
	if !reflect.DeepEqual(q0, append([]string{}, q...)) {
		r.fail("%s(%q) changed its argument to %q", names[how], q0, q)
	}
}

func always(interface{}) bool { return true }
func odd(v interface{}) bool  { return v.(int)%2 == 1 }

func allPaths(alpha []string, max int) [][]string {
	out := [][]string{{}}
	last := [][]string{{}}
	for i := 0; i < max; i++ {
		var nx [][]string
		for _, p := range last {
			for _, a := range alpha {
				nx = append(nx, append(append([]string{}, p...), a))
			}
		}
		out = append(out, nx...)
		last = nx
	}
	return out
}

func newRun(t *testing.T) *run { return &run{t: t, tr: &ctree.Tree{}, m: model{}} }

func TestVerifC09(t *testing.T) {
	defer vh.Flush()
	stored := allPaths([]string{"a", "b"}, 3)
	queries := allPaths([]string{"a", "b", "*"}, 3)
	queries = append(queries, []string{"*", "*", "*", "*"}, []string{"a", "*", "*", "*"}, []string{"*", "a", "*", "b"}, []string{"a", "a", "a", "a"})

	// the empty tree
	for _, q := range queries {
		for how := 0; how < 3; how++ {
			r := newRun(t)
			r.del(how, q, always, "always")
			r.walks()
			r.look(q)
			r.add([]string{"a", "b"}, 1)
			r.walks()
		}
	}
	// exhaustive: every sequence of up to two adds, every query, every delete, a re-add
	n := 0
	for _, p1 := range stored {
		for _, p2 := range stored {
			r := newRun(t)
			r.add(p1, 1)
			r.add(p2, 2)
			r.walks()
			for _, q := range queries {
				r.query(q)
				r.look(q)
			}
			for qi, q := range queries {
				r := newRun(t)
				r.add(p1, 1)
				r.add(p2, 2)
				how := (n + qi) % 3
				c, cn := always, "always"
				if how != 0 && (n+qi)%2 == 0 {
					c, cn = odd, "odd"
				}
				r.del(how, q, c, cn)
				r.walks()
				r.look(p1)
				r.look(p2)
				r.add(stored[(n+qi)%len(stored)], 3)
				r.walks()
				n++
			}
		}
	}
	vh.Stat("exhaustive_sequences", n)

	// visitor errors stop the enumeration and are returned
	for _, p := range stored[1:] {
		r := newRun(t)
		r.add(p, 1)
		stop := errors.New("stop")
		for name, f := range map[string]func(ctree.VisitFunc) error{
			"Query": func(v ctree.VisitFunc) error { return r.tr.Query(p[:1], v) }, "Walk": r.tr.Walk, "WalkSorted": r.tr.WalkSorted} {
			if err := f(func([]string, *ctree.Leaf, interface{}) error { return stop }); err != stop {
				r.fail("%s returns %v, visitor returned %v", name, err, stop)
			}
		}
	}

	// random histories
	seqs := 0
	more := vh.Budget(8e9)
	for i := 0; more(); i++ {
		rd := vh.Rand("c09", i)
		r := newRun(t)
		alpha := [][]string{{"a", "b", "*"}, {"a", "b", "c", "d"}, {"a", "ab", "b", "", "*", "a/b"}}[rd.Intn(3)]
		depth := 1 + rd.Intn(5)
		path := func() []string {
			p := make([]string, rd.Intn(depth+1))
			for i := range p {
				p[i] = alpha[rd.Intn(len(alpha))]
			}
			if rd.Intn(3) == 0 { // spare capacity behind the path
				p = append(make([]string, 0, 12), p...)
			}
			return p
		}
		existing := func() []string {
			if len(r.m) == 0 || rd.Intn(3) == 0 {
				return path()
			}
			var ks []string
			for k := range r.m {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			p := append([]string{}, r.m[ks[rd.Intn(len(ks))]].p...)
			switch rd.Intn(4) {
			case 0:
				if len(p) > 0 {
					p[rd.Intn(len(p))] = "*"
				}
			case 1:
				p = p[:rd.Intn(len(p)+1)]
			case 2:
				p = append(p, alpha[rd.Intn(len(alpha))])
			}
			return p
		}
		for j, n := 0, 5+rd.Intn(60); j < n; j++ {
			switch rd.Intn(10) {
			case 0, 1, 2, 3:
				r.add(path(), rd.Intn(100))
			case 4:
				r.add(existing(), rd.Intn(100))
			case 5:
				r.update(existing(), rd.Intn(100))
			case 6:
				k := 2 + rd.Intn(3)
				r.del(1+rd.Intn(2), existing(), func(v interface{}) bool { return v.(int)%k == 0 }, fmt.Sprintf("mod%d", k))
			case 7:
				r.del(rd.Intn(3), existing(), always, "always")
			case 8:
				r.query(existing())
				r.look(existing())
			case 9:
				r.query(path())
				r.look(path())
			}
			r.walks()
		}
		r.query(nil)
		if i < 3 {
			vh.Sample("%s", strings.Join(r.hist, "; "))
		}
		seqs++
	}
	vh.Stat("random_histories", seqs)
	_ = rand.Int
}
