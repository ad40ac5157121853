package match_test

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/match"
	vh "github.com/openconfig/gnmi/verifh"
)

type client struct {
	id  int
	got []interface{}
}

func (c *client) Update(n interface{}) { c.got = append(c.got, n) }

// agree is the filter relation: the paths agree on every element they both have.
func agree(q, p []string) bool {
	for i := 0; i < len(q) && i < len(p); i++ {
		if q[i] != p[i] && q[i] != "*" && p[i] != "*" {
			return false
		}
	}
	return true
}

func allPaths(alpha []string, max int) [][]string {
	out := [][]string{{}}
	last := [][]string{{}}
	for i := 0; i < max; i++ {
		var nx [][]string
		for _, p := range last {
			for _, a := range alpha {
				nx = append(nx, append(append([]string{}, p...), a))
			}
		}
		out = append(out, nx...)
		last = nx
	}
	return out
}

func TestVerifC06Match(t *testing.T) {
	defer vh.Flush()
	paths := allPaths([]string{"a", "b", "*"}, 4)
	// every pair of subscription path and update path
	for _, q := range paths {
		m := match.New()
		c := &client{}
		remove := m.AddQuery(append([]string{}, q...), c)
		for _, p := range paths {
			want := 0
			if agree(q, p) {
				want = 1
			}
			c.got = nil
			m.UpdateOnce(1, p, map[match.Client]struct{}{})
			if len(c.got) != want {
				vh.Fail(t, "subscription %q, UpdateOnce at %q: %d deliveries, want %d", q, p, len(c.got), want)
			}
			c.got = nil
			m.Update(1, p)
			if len(c.got) != want {
				vh.Fail(t, "subscription %q, Update at %q: %d deliveries, want %d", q, p, len(c.got), want)
			}
		}
		// every leaf the query reports is streamed
		for _, p := range paths {
			tr := &ctree.Tree{}
			tr.Add(p, 1)
			hit := false
			tr.Query(q, func([]string, *ctree.Leaf, interface{}) error { hit = true; return nil })
			c.got = nil
			m.UpdateOnce(1, p, map[match.Client]struct{}{})
			if hit && len(c.got) == 0 {
				vh.Fail(t, "query %q reports the leaf %q, the subscription does not stream it", q, p)
			}
		}
		remove()
		remove()
		c.got = nil
		for _, p := range paths {
			m.Update(1, p)
		}
		if len(c.got) != 0 {
			vh.Fail(t, "subscription %q still receives updates after its removal", q)
		}
		vh.Stat("subscription_paths", 1)
	}
	// histories of several clients
	more := vh.Budget(6e9)
	for i := 0; more(); i++ {
		rd := vh.Rand("c06", i)
		m := match.New()
		alpha := [][]string{{"a", "*"}, {"a", "b", "*"}, {"a", "b", "c", "d", "*", ""}}[rd.Intn(3)]
		path := func() []string {
			p := make([]string, rd.Intn(6), 20)
			for i := range p {
				p[i] = alpha[rd.Intn(len(alpha))]
			}
			return p
		}
		type reg struct {
			q      []string
			remove func()
		}
		cs := make([]*client, 1+rd.Intn(4))
		regs := make([]map[string]*reg, len(cs))
		for i := range cs {
			cs[i] = &client{id: i}
			regs[i] = map[string]*reg{}
		}
		var hist []string
		for j := 0; j < 40; j++ {
			k := rd.Intn(len(cs))
			switch rd.Intn(5) {
			case 0, 1:
				q := path()
				key := strings.Join(q, "\x00") + fmt.Sprint(len(q))
				if regs[k][key] != nil {
					continue
				}
				regs[k][key] = &reg{q, m.AddQuery(q, cs[k])}
				hist = append(hist, fmt.Sprintf("client %d subscribes %q", k, q))
			case 2:
				var ks []string
				for key := range regs[k] {
					ks = append(ks, key)
				}
				if len(ks) == 0 {
					continue
				}
				sort.Strings(ks)
				key := ks[rd.Intn(len(ks))]
				hist = append(hist, fmt.Sprintf("client %d unsubscribes %q", k, regs[k][key].q))
				regs[k][key].remove()
				if rd.Intn(3) == 0 {
					regs[k][key].remove()
				}
				delete(regs[k], key)
			default:
				// a notification with several paths
				ps := make([][]string, 1+rd.Intn(3))
				for i := range ps {
					ps[i] = path()
				}
				updated := map[match.Client]struct{}{}
				for _, c := range cs {
					c.got = nil
				}
				for _, p := range ps {
					p0 := append([]string{}, p...)
					m.UpdateOnce(j, p, updated)
					if fmt.Sprintf("%q", p) != fmt.Sprintf("%q", p0) {
						vh.Fail(t, "UpdateOnce(%q) changed its path to %q", p0, p)
					}
				}
				for ci, c := range cs {
					want := 0
					for _, r := range regs[ci] {
						for _, p := range ps {
							if agree(r.q, p) {
								want = 1
							}
						}
					}
					if len(c.got) != want {
						vh.Fail(t, "notification %q delivered %d times to client %d, want %d\n history: %s", ps, len(c.got), ci, want, strings.Join(hist, "; "))
					}
				}
			}
		}
		if i < 2 {
			vh.Sample("%s", strings.Join(hist, "; "))
		}
		vh.Stat("histories", 1)
	}
}
