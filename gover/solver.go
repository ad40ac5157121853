package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Obligation struct {
	Fn      string
	Kind    string
	Name    string // stable name: fn/kind:label
	Pos     string
	Props   []string
	pc      []*Term
	goal    *Term
	axioms  []*Term
	Status  string // discharged | failed | unknown | trivial | unsupported
	Backend string
	Millis  int64
	Output  string
	vacuity bool // must be satisfiable instead
	note    string
	timeout int
}

// emit writes the SMT problem: pc && axioms && !goal.
func emitSMT(pc, axioms []*Term, goal *Term, rawDecls string, extra string) string {
	var asserts []*Term
	asserts = append(asserts, axioms...)
	asserts = append(asserts, pc...)
	if goal != nil {
		asserts = append(asserts, Not(expandWfl(goal)))
	}
	return emitAsserts(asserts, rawDecls, true) + extra
}

func emitAsserts(asserts []*Term, rawDecls string, theory bool) string {
	var sb strings.Builder
	vars := map[string]string{}
	apps := map[string]bool{}
	lits := map[string]bool{}
	cnt := map[*Term]int{}
	var order []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		switch t.op {
		case "var":
			if !t.bound {
				if _, ok := vars[t.name]; !ok {
					vars[t.name] = t.sort
				}
			}
		case "app":
			apps[t.name] = true
		case "lit":
			lits[t.name] = true
		}
		for _, a := range t.args {
			visit(a)
		}
		for _, p := range t.pats {
			for _, q := range p {
				visit(q)
			}
		}
		order = append(order, t)
	}
	seen := map[*Term]bool{}
	var as []*Term
	for _, a := range asserts {
		if a == tTrue || seen[a] {
			continue
		}
		seen[a] = true
		as = append(as, a)
		visit(a)
	}
	// frame axioms for frame variables
	var frames []*Term
	done := map[*Term]bool{}
	for i := 0; i < len(order); i++ {
		t := order[i]
		if !theory {
			// the pruner gets ground instances only
			if t.op == "select" && t.args[0].op == "var" && t.args[0].fbase != nil && !done[t] && !hasBoundVar(t.args[1]) {
				done[t] = true
				if b, ok := frameAllocs[t.args[0]]; ok {
					f := t.args[0]
					fa := Implies(Lt(t.args[1], b), Eq(t, mk("select", "", mustElem(f.sort), f.fbase, t.args[1])))
					visit(fa)
					frames = append(frames, fa)
				}
			}
			continue
		}
		if t.op == "var" && t.fbase != nil && !done[t] {
			done[t] = true
			fa := frameAxiom(t)
			if fa != nil {
				visit(fa)
				frames = append(frames, fa)
			}
		}
	}
	sb.WriteString("(set-logic ALL)\n(declare-sort Str 0)\n(define-sort Flt () Real)\n" + anyDecl + "\n")
	var names []string
	for n := range vars {
		names = append(names, n)
	}
	sort.Strings(names)
	useL := false
	for _, t := range order {
		useL = useL || strings.Contains(t.sort, "Lst")
	}
	if useL {
		sb.WriteString("(declare-datatypes ((Lst 0)) (((lnil) (lcons (lhd Str) (ltl Lst)))))\n")
	}
	sb.WriteString(rawDecls)
	for _, n := range names {
		fmt.Fprintf(&sb, "(declare-const %s %s)\n", n, vars[n])
	}
	names = names[:0]
	for n := range lits {
		names = append(names, n)
	}
	sort.Strings(names)
	var ls []string
	for _, n := range names {
		ln := litName(n)
		fmt.Fprintf(&sb, "(declare-const %s Str)\n", ln)
		ls = append(ls, ln)
	}
	if len(ls) > 1 {
		fmt.Fprintf(&sb, "(assert (distinct %s))\n", strings.Join(ls, " "))
	}
	names = names[:0]
	for n := range apps {
		if !strings.Contains(rawDecls, " "+n+" ") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		u := ufs[n]
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", u.name, strings.Join(u.args, " "), u.ret)
	}
	for n := range apps {
		if theory && strings.HasPrefix(n, "seqof$") {
			u := ufs[n]
			fmt.Fprintf(&sb, "(assert (forall ((a %s) (o Int) (n Int)) (! (= (%s (%s a o n)) (ite (<= 0 n) n 0)) :pattern ((%s a o n)))))\n", u.args[0], seqOp("seq.len", u.ret), n, n)
			nth := seqOp("seq.nth", u.ret)
			fmt.Fprintf(&sb, "(assert (forall ((a %s) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (%s (%s a o n) i) (select a (+ o i)))) :pattern ((%s (%s a o n) i)))))\n", u.args[0], nth, n, nth, n)
		}
	}
	if apps["listof"] {
		sb.WriteString("(assert (forall ((a (Array Int Str)) (o Int) (n Int)) (! (and (= (= (listof a o n) lnil) (<= n 0)) (=> (< 0 n) (= (lhd (listof a o n)) (select a o))) (=> (< 0 n) (= (= n 1) (= (ltl (listof a o n)) lnil))) (=> (< 1 n) (= (lhd (ltl (listof a o n))) (select a (+ o 1))))) :pattern ((listof a o n)))))\n")
	}
	if theory && apps["str.lt$"] {
		sb.WriteString("(assert (forall ((a Str)) (! (not (str.lt$ a a)) :pattern ((str.lt$ a a)))))\n")
		sb.WriteString("(assert (forall ((a Str) (b Str)) (! (or (str.lt$ a b) (str.lt$ b a) (= a b)) :pattern ((str.lt$ a b)))))\n")
		sb.WriteString("(assert (forall ((a Str) (b Str)) (! (=> (str.lt$ a b) (not (str.lt$ b a))) :pattern ((str.lt$ a b)))))\n")
		sb.WriteString("(assert (forall ((a Str) (b Str) (c Str)) (! (=> (and (str.lt$ a b) (str.lt$ b c)) (str.lt$ a c)) :pattern ((str.lt$ a b) (str.lt$ b c)))))\n")
	}
	if apps["strlen"] {
		sb.WriteString("(assert (forall ((s Str)) (! (>= (strlen s) 0) :pattern ((strlen s)))))\n")
		for n := range lits {
			fmt.Fprintf(&sb, "(assert (= (strlen %s) %d))\n", litName(n), len(n))
		}
		if lits[""] {
			sb.WriteString("(assert (forall ((s Str)) (! (=> (= (strlen s) 0) (= s lit$)) :pattern ((strlen s)))))\n")
		}
	}
	tn := map[*Term]string{}
	for _, t := range order {
		if t.op == "constarr" && (t.args[0].op == "lit" || t.args[0].op == "var") && !t.args[0].bound {
			k, _ := arrSorts(t.sort)
			fmt.Fprintf(&sb, "(declare-const %s %s)\n(assert (forall ((i %s)) (! (= (select %s i) ", constArrName(t), t.sort, k, constArrName(t))
			writeTerm(&sb, t.args[0], nil)
			fmt.Fprintf(&sb, ") :pattern ((select %s i)))))\n", constArrName(t))
		}
	}
	for _, t := range order {
		if cnt[t] > 1 && len(t.args) > 0 && !t.bound && !strings.HasPrefix(t.op, "forall") && !strings.HasPrefix(t.op, "exists") && t.op != "constarr" {
			if _, ok := tn[t]; ok {
				continue
			}
			n := fmt.Sprintf("$t%d", t.id)
			sb.WriteString("(define-fun " + n + " () " + t.sort + " ")
			writeNode(&sb, t, tn)
			sb.WriteString(")\n")
			tn[t] = n
		}
	}
	for _, a := range frames {
		sb.WriteString("(assert ")
		writeTerm(&sb, a, tn)
		sb.WriteString(")\n")
	}
	for _, a := range as {
		sb.WriteString("(assert ")
		writeTerm(&sb, a, tn)
		sb.WriteString(")\n")
	}
	if seqUninterp {
		return uninterpSeqs(sb.String())
	}
	return sb.String()
}

// seqUninterp: sequences as an axiomatised sort instead of the solver's sequence theory.
var seqUninterp bool

var seqSorts = [][2]string{{"(Seq Str)", "Str"}, {"(Seq Int)", "Int"}, {"(Seq Any)", "Any"}, {"(Seq Bool)", "Bool"}}

func uninterpSeqs(txt string) string {
	i := strings.Index(txt, anyDecl) + len(anyDecl) + 1
	head, rest := txt[:i], txt[i:]
	for _, p := range seqSorts {
		if !strings.Contains(rest, p[0]) {
			continue
		}
		q := "Sq$" + p[1]
		rest = strings.ReplaceAll(rest, p[0], q)
		head += strings.NewReplacer("S!", q, "E!", p[1], "$!", "$"+p[1]).Replace(seqPrelude)
	}
	return head + rest
}

const seqPrelude = `(declare-sort S! 0)
(declare-const sq.empty$! S!)
(declare-fun sq.unit$! (E!) S!)
(declare-fun sq.cat$! (S! S!) S!)
(declare-fun sq.len$! (S!) Int)
(declare-fun sq.nth$! (S! Int) E!)
(declare-fun sq.sub$! (S! Int Int) S!)
(declare-fun sq.hd$! (S!) E!)
(declare-fun sq.tl$! (S!) S!)
(declare-fun sq.last$! (S!) E!)
(declare-fun sq.front$! (S!) S!)
(assert (= (sq.len$! sq.empty$!) 0))
(assert (forall ((s S!)) (! (>= (sq.len$! s) 0) :pattern ((sq.len$! s)))))
(assert (forall ((s S!)) (! (=> (= (sq.len$! s) 0) (= s sq.empty$!)) :pattern ((sq.len$! s)))))
(assert (forall ((v E!)) (! (and (= (sq.len$! (sq.unit$! v)) 1) (= (sq.nth$! (sq.unit$! v) 0) v) (= (sq.hd$! (sq.unit$! v)) v) (= (sq.tl$! (sq.unit$! v)) sq.empty$!)  (= (sq.last$! (sq.unit$! v)) v) (= (sq.front$! (sq.unit$! v)) sq.empty$!)) :pattern ((sq.unit$! v)))))
(assert (forall ((a S!) (b S!)) (! (= (sq.len$! (sq.cat$! a b)) (+ (sq.len$! a) (sq.len$! b))) :pattern ((sq.cat$! a b)))))
(assert (forall ((a S!) (b S!) (i Int)) (! (=> (and (<= 0 i) (< i (+ (sq.len$! a) (sq.len$! b)))) (= (sq.nth$! (sq.cat$! a b) i) (ite (< i (sq.len$! a)) (sq.nth$! a i) (sq.nth$! b (- i (sq.len$! a)))))) :pattern ((sq.nth$! (sq.cat$! a b) i)))))
(assert (forall ((a S!) (b S!) (c S!)) (! (= (sq.cat$! (sq.cat$! a b) c) (sq.cat$! a (sq.cat$! b c))) :pattern ((sq.cat$! (sq.cat$! a b) c)))))
(assert (forall ((a S!)) (! (= (sq.cat$! sq.empty$! a) a) :pattern ((sq.cat$! sq.empty$! a)))))
(assert (forall ((a S!)) (! (= (sq.cat$! a sq.empty$!) a) :pattern ((sq.cat$! a sq.empty$!)))))
(assert (forall ((v E!) (s S!)) (! (and (= (sq.hd$! (sq.cat$! (sq.unit$! v) s)) v) (= (sq.tl$! (sq.cat$! (sq.unit$! v) s)) s)) :pattern ((sq.cat$! (sq.unit$! v) s)))))
(assert (forall ((v E!) (s S!)) (! (and (= (sq.last$! (sq.cat$! s (sq.unit$! v))) v) (= (sq.front$! (sq.cat$! s (sq.unit$! v))) s)) :pattern ((sq.cat$! s (sq.unit$! v))))))
(assert (forall ((s S!) (o Int) (n Int)) (! (=> (and (<= 0 o) (<= 0 n) (<= (+ o n) (sq.len$! s))) (= (sq.len$! (sq.sub$! s o n)) n)) :pattern ((sq.sub$! s o n)))))
(assert (forall ((s S!) (n Int)) (! (=> (= n (sq.len$! s)) (= (sq.sub$! s 0 n) s)) :pattern ((sq.sub$! s 0 n)))))
(assert (forall ((s S!) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 o) (<= 0 i) (< i n) (<= (+ o n) (sq.len$! s))) (= (sq.nth$! (sq.sub$! s o n) i) (sq.nth$! s (+ o i)))) :pattern ((sq.nth$! (sq.sub$! s o n) i)))))
(assert (forall ((a S!) (b S!) (n Int)) (! (=> (= n (sq.len$! a)) (= (sq.sub$! (sq.cat$! a b) 0 n) a)) :pattern ((sq.sub$! (sq.cat$! a b) 0 n)))))
(assert (forall ((a S!) (b S!) (o Int) (n Int)) (! (=> (and (= o (sq.len$! a)) (= n (sq.len$! b))) (= (sq.sub$! (sq.cat$! a b) o n) b)) :pattern ((sq.sub$! (sq.cat$! a b) o n)))))
`

var frameAllocs = map[*Term]*Term{} // frame var -> alloc bound

func frameAxiom(f *Term) *Term {
	bound, ok := frameAllocs[f]
	if !ok {
		return nil
	}
	r := BoundVar("r", "Int")
	sel := mk("select", "", mustElem(f.sort), f, r)
	ob := mk("select", "", mustElem(f.sort), f.fbase, r)
	return Forall([]*Term{r}, Implies(Lt(r, bound), Eq(sel, ob)), []*Term{sel})
}

func mustElem(s string) string { _, v := arrSorts(s); return v }

type solverCfg struct {
	name string
	argv func(file string, sec int) []string
}

var solvers = []solverCfg{
	{"z3-5.3", func(f string, s int) []string { return []string{"z3-new", fmt.Sprintf("-T:%d", s), f} }},
	{"cvc5-1.1", func(f string, s int) []string {
		return []string{"cvc5", fmt.Sprintf("--tlimit=%d", s*1000), "--strings-exp", f}
	}},
	{"z3-5.3-ematch", func(f string, s int) []string {
		return []string{"z3-new", fmt.Sprintf("-T:%d", s), "smt.mbqi=false", "auto_config=false", f}
	}},
	{"z3-4.8", func(f string, s int) []string { return []string{"z3", fmt.Sprintf("-T:%d", s), f} }},
}

var queryCount int64

func runSolver(s solverCfg, file string, sec int) (string, string) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(sec+3)*time.Second)
	defer cancel()
	argv := s.argv(file, sec)
	c := exec.CommandContext(ctx, argv[0], argv[1:]...)
	out, _ := c.CombinedOutput()
	o := string(out)
	first := strings.TrimSpace(strings.SplitN(o, "\n", 2)[0])
	return first, o
}

var reErr = regexp.MustCompile(`\(error`)

// deadline bounds the whole run; obligations left over count as undischarged.
var deadline, genDeadline time.Time

func discharge(obs []*Obligation, rawDecls string, dir string, sec int, jobs int) {
	os.MkdirAll(dir, 0o755)
	type job struct {
		o     *Obligation
		file  string
		ufile string // the same obligation over axiomatised sequences
	}
	ch := make(chan job)
	var wg sync.WaitGroup
	for i := 0; i < jobs; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				t0 := time.Now()
				want, bad := "unsat", "sat"
				if j.o.vacuity {
					want, bad = "sat", "unsat"
				}
				tl := sec
				if j.o.timeout > 0 {
					tl = j.o.timeout
				}
				j.o.Status = "unknown"
				quick := 3
				if tl < quick {
					quick = tl
				}
				type step struct {
					s   solverCfg
					sec int
					u   bool
				}
				plan := []step{{solvers[3], 1, false}, {solvers[0], quick, false}, {solvers[3], quick, false}, {solvers[1], quick, false}, {solvers[0], tl, false}, {solvers[3], tl / 2, false}, {solvers[1], tl, false}}
				if j.ufile != "" && !j.o.vacuity {
					plan = []step{{solvers[3], 1, true}, {solvers[2], 1, true}, {solvers[3], quick, true}, {solvers[2], quick, true}, {solvers[0], quick, true}, {solvers[0], quick, false}, {solvers[1], quick, false}, {solvers[0], tl, true}, {solvers[1], tl, true}, {solvers[0], tl, false}, {solvers[1], tl, false}}
				}
				if j.o.vacuity {
					plan = []step{{solvers[0], quick, false}, {solvers[1], quick, false}}
				}
				for _, p := range plan {
					if p.sec == 0 {
						continue
					}
					if !deadline.IsZero() && time.Now().After(deadline) {
						j.o.note = "overall deadline reached"
						break
					}
					atomic.AddInt64(&queryCount, 1)
					file := j.file
					if p.u {
						file = j.ufile
					}
					r, out := runSolver(p.s, file, p.sec)
					if p.u && r == "sat" {
						r = "unknown"
					}
					j.o.Backend = p.s.name
					j.o.Output = out
					if r == want {
						j.o.Status = "discharged"
						break
					}
					if r == bad {
						j.o.Status = "failed"
						break
					}
					if j.o.vacuity && r == "unknown" {
						// not refuted: the hypotheses are not (detectably) contradictory
						j.o.Status = "discharged"
						j.o.note = "not refuted"
						break
					}
					if reErr.MatchString(out) {
						j.o.note = firstErr(out)
					}
				}
				if j.o.vacuity && j.o.Status == "unknown" {
					j.o.Status = "discharged"
					j.o.note = "not refuted (timeout)"
				}
				j.o.Millis = time.Since(t0).Milliseconds()
				if j.o.Status == "discharged" && os.Getenv("GOVER_KEEP") == "" {
					os.Remove(j.file)
					if j.ufile != "" {
						os.Remove(j.ufile)
					}
				}
			}
		}()
	}
	cache := map[string]*Obligation{}
	dup := map[*Obligation]*Obligation{}
	for i, o := range obs {
		if o.Status != "" {
			continue
		}
		if !o.vacuity && o.goal == tTrue {
			o.Status, o.Backend = "discharged", "simplifier"
			continue
		}
		txt := emitSMT(o.pc, o.axioms, o.goal, rawDecls, "(check-sat)\n")
		if p, ok := cache[txt]; ok && p.vacuity == o.vacuity {
			dup[o] = p
			continue
		}
		cache[txt] = o
		f := filepath.Join(dir, fmt.Sprintf("ob%05d.smt2", i))
		if err := os.WriteFile(f, []byte("; "+o.Name+"  "+o.Pos+"\n"+txt), 0o644); err != nil {
			panic(err)
		}
		uf := ""
		if strings.Contains(txt, "(Seq ") && !o.vacuity {
			uf = filepath.Join(dir, fmt.Sprintf("ob%05d.u.smt2", i))
			seqUninterp = true
			ut := emitSMT(o.pc, o.axioms, o.goal, rawDecls, "(check-sat)\n")
			seqUninterp = false
			if err := os.WriteFile(uf, []byte("; "+o.Name+"  "+o.Pos+"\n"+ut), 0o644); err != nil {
				panic(err)
			}
		}
		ch <- job{o, f, uf}
	}
	close(ch)
	wg.Wait()
	for o, p := range dup {
		o.Status, o.Backend, o.Output, o.note = p.Status, p.Backend, p.Output, p.note
	}
}

func firstErr(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "(error") {
			return l
		}
	}
	return ""
}

// ---- incremental pruner ----
type pruner struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	n     int
	calls int
	memo  map[string]bool
	raw   string
}

func newPruner(raw string) *pruner { return &pruner{memo: map[string]bool{}, raw: raw} }

func (p *pruner) start() {
	p.cmd = exec.Command("z3", "-in", "-t:50")
	p.in, _ = p.cmd.StdinPipe()
	o, _ := p.cmd.StdoutPipe()
	p.out = bufio.NewReader(o)
	if err := p.cmd.Start(); err != nil {
		panic(err)
	}
}

func (p *pruner) stop() {
	if p.cmd != nil {
		p.in.Close()
		p.cmd.Process.Kill()
		p.cmd.Wait()
		p.cmd = nil
	}
}

// infeasible reports whether the conjunction is certainly unsatisfiable.
func (p *pruner) infeasible(ts []*Term) bool {
	var qf []*Term
	for _, t := range ts {
		if hasBoundVar(t) && !hasQuant(t) {
			return false // inside a quantifier
		}
		if t == tFalse {
			return true
		}
		if !hasQuant(t) {
			qf = append(qf, t)
		}
	}
	txt := emitAsserts(qf, p.raw, false)
	if r, ok := p.memo[txt]; ok {
		return r
	}
	if p.cmd == nil || p.n > 400 {
		p.stop()
		p.start()
		p.n = 0
	}
	p.n++
	p.calls++
	if d := os.Getenv("GOVER_PRUNE"); d != "" {
		t0 := time.Now()
		defer func() { fmt.Fprintln(os.Stderr, "prune", len(txt), time.Since(t0)) }()
		os.WriteFile(fmt.Sprintf("%s/p%d.smt2", d, p.calls), []byte(txt+"(check-sat)\n"), 0o644)
	}
	io.WriteString(p.in, "(reset)\n"+txt+"(check-sat)\n(echo \"@@\")\n")
	res := false
	wd := time.AfterFunc(500*time.Millisecond, func() { p.cmd.Process.Kill() })
	defer wd.Stop()
	for {
		l, err := p.out.ReadString('\n')
		if err != nil {
			p.stop()
			p.memo[txt] = false
			return false
		}
		l = strings.TrimSpace(l)
		if l == "@@" || l == "\"@@\"" {
			break
		}
		if l == "unsat" {
			res = true
		}
		if strings.HasPrefix(l, "(error") && os.Getenv("GOVER_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "pruner:", l)
		}
	}
	p.memo[txt] = res
	return res
}

var boundMemo = map[*Term]bool{}

// hasBoundVar: t mentions a quantified variable (t itself quantifier-free).
func hasBoundVar(t *Term) bool {
	if r, ok := boundMemo[t]; ok {
		return r
	}
	r := t.op == "var" && t.bound
	for _, a := range t.args {
		if r {
			break
		}
		r = hasBoundVar(a)
	}
	boundMemo[t] = r
	return r
}

var quantMemo = map[*Term]bool{}

func hasQuant(t *Term) bool {
	if r, ok := quantMemo[t]; ok {
		return r
	}
	r := t.op == "forall" || t.op == "exists"
	for _, a := range t.args {
		if r {
			break
		}
		r = hasQuant(a)
	}
	quantMemo[t] = r
	return r
}
