package ctree_test

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/openconfig/gnmi/ctree"
	vh "github.com/openconfig/gnmi/verifh"
)

// Executable form of the C10 contracts. Small rounds of concurrent operations run
// against the real tree with schedule points before every statement; the recorded
// history must have a linearization by the sequential map, queries must be
// consistent with the operations around them, and the final content must be the
// one the linearization ends in. The race detector watches every access.

func matchQ(q, leaf string) bool {
	qs, ls := split(q), split(leaf)
	for i, e := range qs {
		if i == len(ls) {
			return i == len(qs)-1 && e == "*"
		}
		if e != "*" && e != ls[i] {
			return false
		}
	}
	return true
}

func split(p string) []string {
	if p == "" {
		return []string{}
	}
	return strings.Split(p, "/")
}

type opRec struct {
	kind       string // add, del, delc, wdel, get, upd, hget, query, walk, getn
	path       string
	val        int
	h          int // handle
	call, ret  int64
	ok         bool
	res        string
	seen       map[string]int
	done       bool
	start, end int
}

// state is path -> value@node, kept as a sorted string for memoisation.
type st map[string]node
type node struct{ v, id int }

func (s st) key() string {
	ks := make([]string, 0, len(s))
	for k, n := range s {
		ks = append(ks, fmt.Sprintf("%s=%d@%d", k, n.v, n.id))
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

func under(p, q string) bool { return p == q || p == "" || strings.HasPrefix(q, p+"/") }

// apply runs the operation on the sequential map; false when its recorded result is impossible.
func apply(s st, o *opRec) (st, bool) {
	switch o.kind {
	case "add":
		ok := true
		for k := range s {
			if k != o.path && (under(k, o.path) || under(o.path, k)) {
				ok = false
			}
		}
		if ok != o.ok {
			return nil, false
		}
		if !ok {
			return s, true
		}
		n := st{}
		for k, v := range s {
			n[k] = v
		}
		id := o.val
		if old, was := s[o.path]; was {
			id = old.id
		}
		n[o.path] = node{o.val, id}
		return n, true
	case "del", "delc", "wdel":
		n := st{}
		var rm []string
		for k, v := range s {
			if matchQ(o.path, k) && (o.kind == "del" || v.v%2 == 1) {
				if o.kind == "wdel" {
					rm = append(rm, fmt.Sprint(v.v))
				} else {
					rm = append(rm, k)
				}
			} else {
				n[k] = v
			}
		}
		sort.Strings(rm)
		return n, strings.Join(rm, ",") == o.res
	case "get":
		v, ok := s[o.path]
		if ok != o.ok || (ok && v.v != o.val) {
			return nil, false
		}
		return s, true
	case "upd":
		if v, ok := s[o.path]; ok && v.id == o.h {
			n := st{}
			for k, v := range s {
				n[k] = v
			}
			n[o.path] = node{o.val, v.id}
			return n, true
		}
		return s, true
	case "has": // Get: is there a node
		found := o.path == ""
		for k := range s {
			if under(o.path, k) {
				found = true
			}
		}
		return s, found == o.ok
	}
	return s, true // queries and walks are judged separately
}

func linearize(ops []*opRec, init st, final string) bool {
	n := len(ops)
	seen := map[string]bool{}
	var rec func(mask uint64, s st) bool
	rec = func(mask uint64, s st) bool {
		if mask == (1<<uint(n))-1 {
			return s.plain() == final
		}
		k := fmt.Sprint(mask, "|", s.key())
		if seen[k] {
			return false
		}
		seen[k] = true
		minRet := int64(1) << 62
		for i, o := range ops {
			if mask&(1<<uint(i)) == 0 && o.ret < minRet {
				minRet = o.ret
			}
		}
		for i, o := range ops {
			if mask&(1<<uint(i)) != 0 || o.call > minRet {
				continue
			}
			if ns, ok := apply(s, o); ok && rec(mask|1<<uint(i), ns) {
				return true
			}
		}
		return false
	}
	return rec(0, init)
}

func (s st) plain() string {
	var ks []string
	for k, n := range s {
		ks = append(ks, fmt.Sprintf("%s=%d", k, n.v))
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

func content(tr *ctree.Tree) string {
	var ks []string
	tr.Walk(func(p []string, _ *ctree.Leaf, v interface{}) error {
		ks = append(ks, fmt.Sprintf("%s=%d", strings.Join(p, "/"), v))
		return nil
	})
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

func (o *opRec) String() string {
	r := fmt.Sprintf("[%d,%d] %s %s", o.call, o.ret, o.kind, o.path)
	switch o.kind {
	case "add":
		r += fmt.Sprintf(" %d ok=%v", o.val, o.ok)
	case "del", "delc", "wdel":
		r += " -> {" + o.res + "}"
	case "get":
		r += fmt.Sprintf(" -> %d,%v", o.val, o.ok)
	case "upd":
		r += fmt.Sprintf(" node %d = %d", o.h, o.val)
	case "query", "walk":
		r += fmt.Sprint(" -> ", o.seen)
	case "has":
		r += fmt.Sprint(" -> ", o.ok)
	}
	return r
}

// checkQuery: nothing absent for its whole duration, everything present for its whole duration.
func checkQuery(q *opRec, ops []*opRec, init st, all map[string]bool) string {
	covers := func(o *opRec, p string) bool {
		return (o.kind == "del" || o.kind == "delc" || o.kind == "wdel") && matchQ(o.path, p)
	}
	for p := range q.seen {
		if !matchQ(q.path, p) {
			return "reports " + p + " which does not match"
		}
	}
	for p := range all {
		if !matchQ(q.path, p) {
			continue
		}
		// candidate sources of presence: the initial state or a successful add that began before q ended
		_, reported := q.seen[p]
		var absentSure, presentSure bool
		type src struct{ call, ret int64 }
		srcs := []src{}
		if _, ok := init[p]; ok {
			srcs = append(srcs, src{-2, -1})
		}
		for _, o := range ops {
			if o.kind == "add" && o.path == p && o.ok {
				srcs = append(srcs, src{o.call, o.ret})
			}
		}
		absentSure = true
		for _, s := range srcs {
			if s.call > q.ret {
				continue
			}
			// killed for sure: a full delete entirely between the source and the query
			killed := false
			for _, d := range ops {
				if d.kind == "del" && covers(d, p) && d.call > s.ret && d.ret < q.call {
					killed = true
				}
			}
			if !killed {
				absentSure = false
			}
			if s.ret < q.call {
				clean := true
				for _, d := range ops {
					if covers(d, p) && d.ret > s.call && d.call < q.ret {
						clean = false
					}
				}
				if clean {
					presentSure = true
				}
			}
		}
		if reported && absentSure {
			return "reports " + p + " which was absent throughout"
		}
		if !reported && presentSure {
			return "misses " + p + " which was present throughout"
		}
		if reported {
			okv := false
			if n, ok := init[p]; ok && n.v == q.seen[p] {
				okv = true
			}
			for _, o := range ops {
				if (o.kind == "add" || o.kind == "upd") && o.path == p && o.val == q.seen[p] && o.call < q.ret {
					okv = true
				}
			}
			if !okv {
				return fmt.Sprintf("reports %s=%d, a value never stored", p, q.seen[p])
			}
		}
	}
	return ""
}

var clk atomic.Int64

func round(t *testing.T, rd *rand.Rand, ri int) {
	tr := &ctree.Tree{}
	universes := [][]string{
		{"a/b", "a/c", "a/d"},
		{"a/b/c", "a/b/d", "a/e/c", "a/e"},
		{"a", "a/b", "b"},
		{"x/y/z", "x/y/w", "x/v", "u/y/z"},
		{"a/b", "a/b/c", "a/b/d/e"},
	}
	uni := universes[rd.Intn(len(universes))]
	globs := []string{"", "*", "a", "a/*", "*/b", "a/*/c", "x", "x/*/z", "x/y", "a/b", "*/*", "a/b/*"}
	vals := 0
	nv := func() int { vals++; return vals }
	init := st{}
	for _, p := range uni {
		if rd.Intn(3) == 0 {
			v := nv()
			if tr.Add(split(p), v) == nil {
				init[p] = node{v, v}
			}
		}
	}
	initIDs := map[string]int{}
	handles := map[string]*ctree.Leaf{}
	useHandles := rd.Intn(2) == 0
	if useHandles {
		for p, n := range init {
			handles[p] = tr.GetLeaf(split(p))
			initIDs[p] = n.id
		}
	}
	g := 2 + rd.Intn(3)
	per := 1 + rd.Intn(4)
	if g == 2 {
		per += 2
	}
	noDel := rd.Intn(3) == 0 // rounds of adds only: all must survive
	progs := make([][]*opRec, g)
	for i := range progs {
		for j := 0; j < per; j++ {
			o := &opRec{}
			p := uni[rd.Intn(len(uni))]
			switch k := rd.Intn(12); {
			case noDel && k < 8, k < 4:
				o.kind, o.path, o.val = "add", p, nv()
			case k < 6:
				o.kind, o.path = []string{"del", "del", "delc", "wdel"}[rd.Intn(4)], globs[rd.Intn(len(globs))]
				if rd.Intn(2) == 0 {
					o.path = p
				}
			case k < 8:
				o.kind, o.path = "get", p
				if h := handles[p]; h != nil {
					o.kind = "has"
				}
			case k < 9 && useHandles && handles[p] != nil:
				o.kind, o.path, o.h, o.val = "upd", p, initIDs[p], nv()
			case k < 9:
				o.kind, o.path = "has", []string{"a", "a/b", "x/y", "x", "b"}[rd.Intn(5)]
			case k < 11:
				o.kind, o.path = "query", globs[rd.Intn(len(globs))]
			default:
				o.kind, o.path = "walk", ""
			}
			progs[i] = append(progs[i], o)
		}
	}
	var wg sync.WaitGroup
	gate := make(chan struct{})
	var pmu sync.Mutex
	var panics []string
	for i := range progs {
		wg.Add(1)
		go func(prog []*opRec) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					pmu.Lock()
					panics = append(panics, fmt.Sprint(p))
					pmu.Unlock()
				}
			}()
			<-gate
			for _, o := range prog {
				o.call = clk.Add(1)
				p := split(o.path)
				switch o.kind {
				case "add":
					o.ok = tr.Add(p, o.val) == nil
				case "del", "delc":
					var d [][]string
					if o.kind == "del" {
						d = tr.Delete(p)
					} else {
						d = tr.DeleteConditional(p, func(v interface{}) bool { return v.(int)%2 == 1 })
					}
					var ks []string
					for _, x := range d {
						ks = append(ks, strings.Join(x, "/"))
					}
					sort.Strings(ks)
					o.res = strings.Join(ks, ",")
				case "wdel":
					var ks []string
					tr.WalkDeleted(p, func(v interface{}) bool { return v.(int)%2 == 1 }, func(v interface{}) { ks = append(ks, fmt.Sprint(v)) })
					sort.Strings(ks)
					o.res = strings.Join(ks, ",")
				case "get":
					if v, ok := tr.GetLeafValue(p).(int); ok {
						o.val, o.ok = v, true
					}
				case "has":
					n := tr.Get(p)
					o.ok = n != nil
					n.IsBranch()
					n.Children()
				case "upd":
					h := handles[o.path]
					h.Update(o.val)
					h.Value()
				case "query", "walk":
					o.seen = map[string]int{}
					f := func(p []string, l *ctree.Leaf, v interface{}) error {
						o.seen[strings.Join(p, "/")] = v.(int)
						return nil
					}
					if o.kind == "query" {
						tr.Query(p, f)
					} else if rand.Intn(2) == 0 {
						tr.Walk(f)
					} else {
						tr.WalkSorted(f)
					}
				}
				o.ret = clk.Add(1)
			}
		}(progs[i])
	}
	close(gate)
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	describe := func() string {
		var ls []string
		for i, p := range progs {
			for _, o := range p {
				ls = append(ls, fmt.Sprintf("g%d %v", i, o))
			}
		}
		return fmt.Sprintf("\n round %d initial {%s}\n %s\n final {", ri, init.plain(), strings.Join(ls, "\n "))
	}
	select {
	case <-fin:
	case <-time.After(20 * time.Second):
		vh.Fail(t, "deadlock: operations did not finish within 20s (round %d, initial {%s})", ri, init.plain())
	}
	final := content(tr)
	if len(panics) > 0 {
		vh.Fail(t, "panic in a concurrent operation: %v%s%s}", panics, describe(), final)
	}
	var lin, all []*opRec
	univ := map[string]bool{}
	for p := range init {
		univ[p] = true
	}
	for _, p := range progs {
		for _, o := range p {
			all = append(all, o)
			if o.kind == "add" {
				univ[o.path] = true
			}
			if o.kind != "query" && o.kind != "walk" {
				lin = append(lin, o)
			}
		}
	}
	if !linearize(lin, init, final) {
		vh.Fail(t, "no sequential ordering explains the results and the final content%s%s}", describe(), final)
	}
	for _, o := range all {
		if o.kind == "query" || o.kind == "walk" {
			if m := checkQuery(o, all, init, univ); m != "" {
				vh.Fail(t, "%s %q %s%s%s}", o.kind, o.path, m, describe(), final)
			}
		}
	}
	vh.Stat("operations", len(all))
	if ri < 2 {
		vh.Sample("%s%s}", describe(), final)
	}
}

// wide: many adds beneath not-yet-existing branches at once, all must survive.
func wide(t *testing.T, rd *rand.Rand) {
	tr := &ctree.Tree{}
	g := 4 + rd.Intn(12)
	var wg sync.WaitGroup
	gate := make(chan struct{})
	depth := 1 + rd.Intn(4)
	for i := 0; i < g; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-gate
			p := []string{}
			for d := 0; d < depth; d++ {
				p = append(p, fmt.Sprint("n", d))
			}
			tr.Add(append(p, fmt.Sprint("leaf", i)), i)
		}(i)
	}
	close(gate)
	if !vh.Within(20*time.Second, wg.Wait) {
		vh.Fail(t, "deadlock in concurrent adds")
	}
	n := 0
	tr.Walk(func([]string, *ctree.Leaf, interface{}) error { n++; return nil })
	if n != g {
		vh.Fail(t, "%d concurrent adds beneath a missing branch, %d survive", g, n)
	}
}

func TestVerifC10(t *testing.T) {
	defer vh.Flush()
	more := vh.Budget(25 * time.Second)
	t.Run("g", func(t *testing.T) {
		for w := 0; w < 6; w++ {
			w := w
			t.Run(fmt.Sprint(w), func(t *testing.T) {
				t.Parallel()
				i := w
				for ; more() && !t.Failed(); i += 6 {
					rd := vh.Rand("c10", i)
					vh.Perturb([]int64{0, 60, 250, 600}[rd.Intn(4)])
					round(t, rd, i)
					if i%10 == 0 {
						wide(t, rd)
					}
					vh.Stat("rounds", 1)
				}
			})
		}
	})
}
