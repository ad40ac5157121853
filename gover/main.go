package main

import (
	"runtime/pprof"
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type FnReport struct {
	Key         string   `json:"key"`
	Contract    string   `json:"contract"`
	Obligations int      `json:"obligations"`
	Paths       int      `json:"paths"`
	Status      string   `json:"status"`
	Note        string   `json:"note,omitempty"`
	Inlined     []string `json:"inlined,omitempty"`
}

type ObReport struct {
	Name      string `json:"name"`
	Pos       string `json:"pos,omitempty"`
	Status    string `json:"status"`
	Backend   string `json:"backend"`
	Millis    int64  `json:"ms"`
	Instances int    `json:"instances"`
	Output    string `json:"output,omitempty"`
	Note      string `json:"note,omitempty"`
	File      string `json:"file,omitempty"`
}

type Report struct {
	Property    string         `json:"property"`
	Functions   []FnReport     `json:"functions"`
	Obligations []ObReport     `json:"obligations"`
	Total       int            `json:"total"`
	Instances   int            `json:"instances"`
	Discharged  int            `json:"discharged"`
	Backends    map[string]int `json:"backends"`
	SolverMS    int64          `json:"solver_ms"`
	Queries     int64          `json:"queries"`
	Trusted     []string       `json:"trusted"`
	Externals   []string       `json:"externals"`
	WallMS      int64          `json:"wall_ms"`
	Vacuity     int            `json:"vacuity_checks"`
	Failed      []string       `json:"failed"`
}

func loadRepo(repo string, overlayDir string) (*ssa.Program, []*packages.Package, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedTypesSizes | packages.NeedCompiledGoFiles | packages.NeedExportFile,
		Dir:  repo,
		Env:  os.Environ(),
	}
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, nil, err
	}
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			return nil, nil, fmt.Errorf("%s: %v", p.PkgPath, p.Errors[0])
		}
	}
	prog, _ := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	for _, p := range pkgs {
		if sp := prog.Package(p.Types); sp != nil {
			sp.Build()
		}
	}
	return prog, pkgs, nil
}

func findFn(prog *ssa.Program, pkgs []*packages.Package) map[string]*ssa.Function {
	m := map[string]*ssa.Function{}
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks != nil {
			m[fnName(f)] = f
		}
	}
	return m
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	cdir := flag.String("contracts", "/verif/contracts", "contract directory")
	prop := flag.String("prop", "", "property id")
	fnf := flag.String("fn", "", "verify only functions whose key contains this")
	out := flag.String("out", "", "report file")
	work := flag.String("work", "", "directory for SMT files")
	sec := flag.Int("t", 20, "solver timeout")
	jobs := flag.Int("j", 8, "parallel solvers")
	dump := flag.String("dump", "", "dump SSA of function")
	list := flag.Bool("list", false, "list contracts and missing functions")
	kinds := flag.String("kinds", "", "only obligations of these kinds (comma separated)")
	dl := flag.Int("deadline", 0, "overall time limit in seconds")
	verbose := flag.Bool("v", false, "verbose")
	flag.Parse()
	if p := os.Getenv("GOVER_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		go func() { time.Sleep(40 * time.Second); pprof.StopCPUProfile(); f.Close(); os.Exit(3) }()
	}
	t0 := time.Now()
	debug.SetGCPercent(300)
	if *dl > 0 {
		deadline = t0.Add(time.Duration(*dl) * time.Second)
		genDeadline = t0.Add(time.Duration(*dl) * time.Second / 2)
	}
	prog, pkgs, err := loadRepo(*repo, "")
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	fns := findFn(prog, pkgs)
	if *dump != "" {
		for n, f := range fns {
			if strings.Contains(n, *dump) {
				f.WriteTo(os.Stdout)
				for _, l := range loopsOf(f) {
					fmt.Println("loop", l.ord, "header", l.hdr.Index, prog.Fset.Position(loopPos(l)))
				}
			}
		}
		return
	}
	cs := NewContracts()
	cs.prop = *prop
	for _, p := range pkgs {
		cs.pkgs[strings.TrimPrefix(p.PkgPath, modPath)] = p
		cs.byName[p.PkgPath] = p.Types
		for _, i := range p.Types.Imports() {
			if cs.byName[i.Path()] == nil {
				cs.byName[i.Path()] = i
			}
		}
	}
	cs.Load(*cdir)
	cs.resolveGuards()
	if *list {
		for k, c := range cs.funcs {
			if !c.Extern && fns[k] == nil {
				fmt.Println("MISSING", k, c.File)
			}
		}
		return
	}
	if *work == "" {
		d, _ := os.MkdirTemp("", "gover")
		*work = d
		defer os.RemoveAll(d)
	}
	rep := &Report{Property: *prop, Backends: map[string]int{}}
	trusted := map[string]bool{}
	exts := map[string]bool{}
	var queue []string
	seen := map[string]bool{}
	for k, c := range cs.funcs {
		if c.Extern {
			continue
		}
		if *fnf != "" {
			if strings.Contains(k, *fnf) && !c.Inline {
				queue = append(queue, k)
			}
			continue
		}
		if c.Inline && len(c.Props) == 0 {
			continue
		}
		for _, p := range c.Props {
			if p == *prop {
				queue = append(queue, k)
			}
		}
	}
	sort.Strings(queue)
	var all []*Obligation
	pr := newPruner(cs.raw)
	defer pr.stop()
	usedLemmas := map[string]bool{}
	for _, n := range cs.lemmaOrder {
		for _, p := range cs.lemmas[n].Props {
			if p == *prop {
				usedLemmas[n] = true
			}
		}
	}
	for len(queue) > 0 {
		k := queue[0]
		queue = queue[1:]
		if seen[k] {
			continue
		}
		seen[k] = true
		con := cs.funcs[k]
		if con.Trusted {
			trusted["contract assumed: "+k+" ("+con.Why+")"] = true
			continue
		}
		t1 := time.Now()
		fr, obs, x := verifyFn(cs, prog, fns[k], con, pr)
		all = append(all, obs...)
		rep.Functions = append(rep.Functions, fr)
		if *verbose {
			fmt.Fprintf(os.Stderr, "%-60s %s obs=%d paths=%d %v %s\n", k, fr.Status, fr.Obligations, fr.Paths, time.Since(t1).Round(time.Millisecond), fr.Note)
		}
		if x != nil {
			for n := range x.trust {
				exts[n] = true
			}
			var us []string
			for n := range x.used {
				us = append(us, n)
			}
			sort.Strings(us)
			for _, n := range us {
				if c, ok := cs.funcs[n]; ok {
					if c.Extern || c.Trusted {
						w := c.Why
						trusted["contract assumed: "+n+" "+w] = true
					} else if !seen[n] && *fnf == "" {
						queue = append(queue, n)
					}
				} else if _, ok := cs.callbacks[n]; ok {
					trusted["callback contract assumed: "+n] = true
				}
			}
		}
		for _, l := range append(append([]string(nil), con.Uses...), con.InstUses...) {
			usedLemmas[l] = true
		}
	}
	// lemmas
	for changed := true; changed; {
		changed = false
		for n := range usedLemmas {
			if cs.lemmas[n] == nil {
				fmt.Fprintln(os.Stderr, "unknown lemma", n)
				os.Exit(3)
			}
			for _, u := range cs.lemmas[n].Uses {
				if !usedLemmas[u] {
					usedLemmas[u] = true
					changed = true
				}
			}
		}
	}
	for _, n := range cs.lemmaOrder {
		if !usedLemmas[n] {
			continue
		}
		l := cs.lemmas[n]
		if l.Axiom {
			trusted["axiom "+n+": "+l.Why] = true
			continue
		}
		obs := proveLemma(cs, prog, l, pr)
		all = append(all, obs...)
		rep.Functions = append(rep.Functions, FnReport{Key: "lemma " + n, Obligations: len(obs), Status: "generated"})
	}
	if *kinds != "" {
		keep := map[string]bool{"extraction": true}
		for _, k := range strings.Split(*kinds, ",") {
			keep[k] = true
		}
		var sel []*Obligation
		for _, o := range all {
			if keep[o.Kind] {
				sel = append(sel, o)
			}
		}
		all = sel
	}
	genMS := time.Since(t0).Milliseconds()
	discharge(all, cs.raw+seqAxioms(), *work, *sec, *jobs)
	// an infeasible path that survived pruning is not vacuity: one feasible return suffices
	feasible := map[string]bool{}
	for _, o := range all {
		if o.vacuity && o.Status == "discharged" && strings.Contains(o.Name, "/vacuity:return-") {
			feasible[o.Fn] = true
		}
	}
	for _, o := range all {
		if o.vacuity && feasible[o.Fn] && strings.Contains(o.Name, "/vacuity:return-") {
			o.Status = "discharged"
		}
	}
	agg := map[string]*ObReport{}
	var order []string
	for i, o := range all {
		rep.SolverMS += o.Millis
		if o.vacuity {
			rep.Vacuity++
		}
		r := agg[o.Name]
		if r == nil {
			r = &ObReport{Name: o.Name, Pos: o.Pos, Status: "discharged", Backend: o.Backend}
			agg[o.Name] = r
			order = append(order, o.Name)
		}
		r.Instances++
		r.Millis += o.Millis
		if o.Backend != "simplifier" {
			r.Backend = o.Backend
		}
		if o.Status != "discharged" && r.Status == "discharged" {
			r.Status = o.Status
			r.Pos = o.Pos
			r.Output = trunc(o.Output, 3000)
			r.Note = o.note
			r.File = filepath.Join(*work, fmt.Sprintf("ob%05d.smt2", i))
		}
	}
	rep.Instances = len(all)
	for _, n := range order {
		r := agg[n]
		rep.Total++
		if r.Status == "discharged" {
			rep.Discharged++
			rep.Backends[r.Backend]++
		} else {
			rep.Failed = append(rep.Failed, n)
		}
		rep.Obligations = append(rep.Obligations, *r)
	}
	rep.Queries = queryCount
	for n := range trusted {
		rep.Trusted = append(rep.Trusted, n)
	}
	for n := range exts {
		rep.Externals = append(rep.Externals, n)
	}
	sort.Strings(rep.Trusted)
	sort.Strings(rep.Externals)
	rep.WallMS = time.Since(t0).Milliseconds()
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(*out, b, 0o644)
	}
	fmt.Printf("gover: %d functions, %d obligations (%d instances), %d discharged, gen %dms total %dms, solver %dms\n", len(rep.Functions), rep.Total, rep.Instances, rep.Discharged, genMS, rep.WallMS, rep.SolverMS)
	for _, n := range rep.Failed {
		r := agg[n]
		fmt.Printf("UNDISCHARGED %s [%s] %s %s %s\n", n, r.Status, r.Pos, r.Note, r.File)
	}
	if len(rep.Failed) > 0 {
		os.Exit(1)
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func seqAxioms() string { return "" }

func structuralFail(con *Contract, why string) *Obligation {
	return &Obligation{Fn: con.Key, Kind: "extraction", Name: con.Key + "/extraction:" + trunc(why, 200), Status: "unsupported", Output: why, Props: con.Props}
}

func verifyFn(cs *Contracts, prog *ssa.Program, fn *ssa.Function, con *Contract, pr *pruner) (fr FnReport, obs []*Obligation, x *Exec) {
	fr = FnReport{Key: con.Key, Contract: con.File, Status: "generated"}
	if fn == nil {
		fr.Status = "missing"
		if con.Flags["optional"] { // a closure: identified by its position only
			fr.Status = "absent"
			return fr, nil, nil
		}
		return fr, []*Obligation{structuralFail(con, "function under contract not found in the source")}, nil
	}
	x = &Exec{cs: cs, prog: prog, root: con, rootFn: fn, heapSorts: map[string]string{}, pr: pr, trust: map[string]int{}, inlined: map[string]int{}, used: map[string]int{}}
	ords := map[int]bool{}
	for _, l := range loopsOf(fn) {
		ords[l.ord] = true
	}
	for n := range con.Loops {
		if !ords[n] {
			fr.Status = "unsupported"
			return fr, []*Obligation{structuralFail(con, fmt.Sprintf("loop %d of the contract not found in the source", n))}, nil
		}
	}
	x.exact = con.Flags["exact"]
	x.rangeFacts = con.Flags["ranges"]
	x.safety = con.Flags["safety"]
	x.wirewf = con.Flags["wirewf"]
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupportedErr)
			if !ok {
				if os.Getenv("GOVER_DEBUG") != "" {
					panic(r)
				}
				if os.Getenv("GOVER_DEBUG") != "" {
					debug.PrintStack()
				}
				u = unsupportedErr(fmt.Sprint("internal: ", r))
			}
			fr.Status = "unsupported"
			fr.Note = string(u)
			obs = append(x.obs, structuralFail(con, string(u)))
		}
		fr.Obligations = len(obs)
		fr.Paths = x.paths
		for n := range x.inlined {
			fr.Inlined = append(fr.Inlined, n)
		}
		sort.Strings(fr.Inlined)
	}()
	st := &State{heap: map[string]*Term{}, ghost: map[string]*Term{}, locks: map[string]*heldLock{}}
	st.alloc = NewVar("alloc0", "Int")
	x.alloc0 = st.alloc
	st.fact(Lt(Int(0), st.alloc))
	x.axioms = x.loadLemmas(con.Uses)
	var args []*Val
	for i, p := range fn.Params {
		v := freshVal("p."+p.Name(), p.Type())
		x.wf(st, v, p.Type())
		args = append(args, v)
		if _, ok := under(p.Type()).(*types.Signature); ok {
			nm := p.Name()
			if i < len(con.Params) {
				nm = con.Params[i]
			}
			paramOrigin[v.t] = con.Key + "." + nm
		}
	}
	var binds []*Val
	for _, fv := range fn.FreeVars {
		el := fv.Type().Underlying().(*types.Pointer).Elem()
		r := NewVar("fv."+fv.Name(), "Int")
		st.fact(And(Lt(Int(0), r), Lt(r, st.alloc)))
		v := &Val{t: r, typ: fv.Type()}
		binds = append(binds, v)
		_ = el
	}
	x.frameAny = false
	for _, m := range con.Modifies {
		if m.Any {
			x.frameAny = true
		}
	}
	pre := &Env{x: x, st: st, old: st, vars: map[string]*SV{}, pkg: fn.Pkg.Pkg, con: con}
	for i, v := range args {
		if i < len(con.Params) {
			pre.vars[con.Params[i]] = &SV{v: v, t: v.typ}
		}
	}
	for i, fv := range fn.FreeVars {
		el := fv.Type().Underlying().(*types.Pointer).Elem()
		l := x.ptrLoc(binds[i], el)
		pre.vars[fv.Name()] = &SV{v: x.load(st, l), t: el}
	}
	for _, c := range con.Requires {
		st.assume(x.evalClause(c, pre))
	}
	for _, h := range con.Holds {
		l := x.evalLoc(h.Expr, pre)
		st.locks[l.key+"#"+fmt.Sprint(l.ref.id)] = &heldLock{l.key, l.ref, h.Mode, nil}
	}
	for _, h := range con.HoldsAny {
		st.locks[h.Class+"#any"] = &heldLock{h.Class, Int(-1), h.Mode, nil}
	}
	for _, m := range x.evalMods(con, pre) {
		if m.any || m.ghost != "" {
			continue
		}
		x.allowed = append(x.allowed, allowW{m.key, m.ref})
	}
	// vacuity: the precondition is satisfiable
	x.obs = append(x.obs, &Obligation{Fn: con.Key, Kind: "vacuity", Name: con.Key + "/vacuity:requires", vacuity: true, pc: st.pcTerms(), axioms: x.axioms, timeout: 2})
	nl := len(st.locks)
	entry := st.clone()
	x.rootEntry, x.rootVars = entry, pre.vars
	outs := x.runRoot(fn, args, binds, st, entry)
	if len(outs) == 0 && !con.Flags["noreturn"] {
		panic(unsupported("no path returns"))
	}
	if con.Flags["nonblocking"] && len(outs) > 0 {
		x.ob(outs[0].st, nil, "nonblocking", "body", tTrue, fn.Pos()) // no blocking operation met on any path
	}
	for i, o := range outs {
		post := &Env{x: x, st: o.st, old: entry, vars: map[string]*SV{}, pkg: fn.Pkg.Pkg, con: con}
		for k, v := range pre.vars {
			post.vars[k] = v
		}
		for i, fv := range fn.FreeVars {
			el := fv.Type().Underlying().(*types.Pointer).Elem()
			post.vars[fv.Name()] = &SV{v: x.load(o.st, x.ptrLoc(binds[i], el)), t: el}
		}
		bindResults(post, fn.Signature, o.rets)
		for _, g := range con.GhostSet {
			x.silent++
			v := post.eval(g.Expr).v.t
			x.silent--
			x.gget(o.st, g.Ghost)
			x.gset(o.st, g.Ghost, v)
			x.ghostFrame(o.st, nil, g.Ghost, fn.Pos())
		}
		if i == 0 || i == len(outs)-1 {
			x.obs = append(x.obs, &Obligation{Fn: con.Key, Kind: "vacuity", Name: fmt.Sprintf("%s/vacuity:return-%d", con.Key, i), vacuity: true, pc: o.st.pcTerms(), axioms: x.axioms, timeout: 1})
		}
		for j, c := range con.Ensures {
			lbl := c.Label
			if lbl == "" {
				lbl = fmt.Sprint(j + 1)
			}
			g := x.evalClause(c, post)
			x.ob(o.st, nil, "ensures", lbl, g, fn.Pos())
			if strings.HasPrefix(lbl, "step-") || strings.HasPrefix(lbl, "local-") { // proved above: available to the clauses below
				o.st.assume(g)
			}
		}
		if con.ThenCall > 0 {
			a := x.newAct(fn, args, entry, 0, nil)
			fa := x.frameAny
			x.frameAny = true // the later calls are not part of the function
			sts := []*State{o.st.clone()}
			for n := 0; n < con.ThenCall; n++ {
				var next []*State
				for _, s := range sts {
					cl, ok := fnByTerm[o.rets[0].t]
					if !ok {
						panic(unsupported("thencall: the result is not a known function"))
					}
					s.atlock = nil
					for _, oo := range x.callFn(a, s, cl.fn, nil, cl.binds, fn.Pos()) {
						if !x.infeasible(oo.st) {
							next = append(next, oo.st)
						}
					}
				}
				sts = next
			}
			x.frameAny = fa
			for _, s := range sts {
				e := x.rootEnv(s)
				for j, c := range con.ThenEns {
					lbl := c.Label
					if lbl == "" {
						lbl = fmt.Sprint(j + 1)
					}
					x.ob(s, nil, "then-ensures", lbl, x.evalClause(c, e), fn.Pos())
				}
			}
		}
		if con.Flags["lockcheck"] {
			x.ob(o.st, nil, "lock-balance", "exit", Bool(len(o.st.locks) == nl), fn.Pos())
		}
	}
	for _, o := range x.obs {
		if con.Timeout > 0 && o.timeout == 0 {
			o.timeout = con.Timeout
		}
	}
	return fr, x.obs, x
}

func (x *Exec) runRoot(fn *ssa.Function, args, binds []*Val, st, entry *State) []Outcome {
	a := x.newAct(fn, args, entry, 0, nil)
	for i, fv := range fn.FreeVars {
		a.env[fv] = binds[i]
		a.names[fv.Name()] = &nameB{v: binds[i], addr: true, pos: fv.Pos()}
	}
	return x.enter(a, st, fn.Blocks[0], nil)
}

func (x *Exec) loadLemmas(names []string) []*Term {
	var out []*Term
	for _, n := range names {
		l := x.cs.lemmas[n]
		if l == nil {
			panic(unsupported("unknown lemma " + n))
		}
		out = append(out, x.lemmaTerm(l))
	}
	return out
}

func (x *Exec) lemmaTerm(l *Lemma) *Term {
	e := &Env{x: x, st: &State{heap: map[string]*Term{}, ghost: map[string]*Term{}, alloc: Int(1)}, vars: map[string]*SV{}, pkg: x.cs.pkgOf(l.Pkg)}
	e.old = e.st
	var bvs []*Term
	for i, v := range l.Vars {
		t := e.resolveType(mustExpr(l.Types[i], "lemma"))
		bv := BoundVar(v, layout(t)[0].sort)
		bvs = append(bvs, bv)
		e.vars[v] = &SV{v: &Val{t: bv, typ: t}, t: t}
	}
	var rs, es []*Term
	for _, c := range l.Req {
		rs = append(rs, x.evalClause(c, e))
	}
	for _, c := range l.Ens {
		es = append(es, x.evalClause(c, e))
	}
	if l.Induct != "" && e.vars[l.Induct].v.t.sort == "Int" {
		rs = append(rs, Le(Int(0), e.vars[l.Induct].v.t))
	}
	body := Implies(And(rs...), And(es...))
	if len(bvs) == 0 {
		return body
	}
	var pats [][]*Term
	for _, p := range l.Pats {
		var ps []*Term
		for _, q := range splitTop(p) {
			x.silent++
			ps = append(ps, e.eval(mustExpr(q, "pattern")).v.t)
			x.silent--
		}
		pats = append(pats, ps)
	}
	return Quant("forall", bvs, body, pats...)
}

// lemmaInst is the body of a lemma under a binding of its variables.
func (x *Exec) lemmaInst(l *Lemma, e *Env) *Term {
	var rs, es []*Term
	for _, c := range l.Req {
		rs = append(rs, x.evalClause(c, e))
	}
	for _, c := range l.Ens {
		es = append(es, x.evalClause(c, e))
	}
	if l.Induct != "" && e.vars[l.Induct].v.t.sort == "Int" {
		rs = append(rs, Le(Int(0), e.vars[l.Induct].v.t))
	}
	return Implies(And(rs...), And(es...))
}

// usedLemmas records a lemma used by explicit instantiation.
func (x *Exec) usedLemmas(l *Lemma) {
	for _, u := range x.root.Uses {
		if u == l.Name {
			return
		}
	}
	for _, u := range x.root.InstUses {
		if u == l.Name {
			return
		}
	}
	x.root.InstUses = append(x.root.InstUses, l.Name)
}

func proveLemma(cs *Contracts, prog *ssa.Program, l *Lemma, pr *pruner) (obs []*Obligation) {
	con := &Contract{Key: "lemma " + l.Name, Props: l.Props, Flags: map[string]bool{}}
	x := &Exec{cs: cs, prog: prog, root: con, heapSorts: map[string]string{}, pr: pr, trust: map[string]int{}, inlined: map[string]int{}, used: map[string]int{}}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				obs = append(obs, structuralFail(con, string(u)))
				return
			}
			panic(r)
		}
	}()
	for _, u := range l.Uses {
		if indexOf(cs.lemmaOrder, u) >= indexOf(cs.lemmaOrder, l.Name) && !cs.lemmas[u].Axiom {
			panic("lemma " + l.Name + " uses a later lemma " + u)
		}
	}
	axs := x.loadLemmas(l.Uses)
	inst := func(vals map[string]*Term) (*Term, *Term) {
		e := &Env{x: x, st: &State{heap: map[string]*Term{}, ghost: map[string]*Term{}, alloc: Int(1)}, vars: map[string]*SV{}, pkg: cs.pkgOf(l.Pkg)}
		e.old = e.st
		var bvs []*Term
		for i, v := range l.Vars {
			t := e.resolveType(mustExpr(l.Types[i], "lemma"))
			tm := vals[v]
			if tm == nil {
				tm = BoundVar(v, layout(t)[0].sort)
				bvs = append(bvs, tm)
			}
			e.vars[v] = &SV{v: &Val{t: tm, typ: t}, t: t}
		}
		var rs, es []*Term
		for _, c := range l.Req {
			rs = append(rs, x.evalClause(c, e))
		}
		for _, c := range l.Ens {
			es = append(es, x.evalClause(c, e))
		}
		if len(bvs) > 0 {
			return tTrue, Quant("forall", bvs, Implies(And(rs...), And(es...)))
		}
		return And(append(rs, e.st.pcTerms()...)...), And(es...)
	}
	sk := map[string]*Term{}
	e0 := &Env{x: x, pkg: cs.pkgOf(l.Pkg), vars: map[string]*SV{}}
	for i, v := range l.Vars {
		t := e0.resolveType(mustExpr(l.Types[i], "lemma"))
		sk[v] = NewVar(v, layout(t)[0].sort)
	}
	mkOb := func(kind string, pc []*Term, goal *Term) {
		obs = append(obs, &Obligation{Fn: con.Key, Kind: "lemma", Name: con.Key + "/" + kind, pc: pc, goal: goal, axioms: axs, Props: l.Props})
	}
	if l.Induct == "" {
		r, g := inst(sk)
		mkOb("holds", []*Term{r}, g)
		return
	}
	k := sk[l.Induct]
	if k.sort != "Int" {
		// structural induction over sequences: base empty, step unit(h) ++ t
		el := k.sort[5 : len(k.sort)-1]
		sk[l.Induct] = SeqEmpty(el)
		r, g := inst(sk)
		mkOb("base", []*Term{r}, g)
		h, tl := NewVar("hd", el), NewVar("tl", k.sort)
		_, hyp := inst(map[string]*Term{l.Induct: tl})
		sk[l.Induct] = SeqCat(SeqUnit(h), tl)
		r, g = inst(sk)
		mkOb("step", []*Term{hyp, r}, g)
		return
	}
	base := map[string]*Term{}
	for n, t := range sk {
		base[n] = t
	}
	base[l.Induct] = Int(0)
	r, g := inst(base)
	mkOb("base", []*Term{r}, g)
	_, hyp := inst(map[string]*Term{l.Induct: k})
	sk[l.Induct] = Add(k, Int(1))
	r, g = inst(sk)
	mkOb("step", []*Term{Le(Int(0), k), hyp, r}, g)
	_ = token.NoPos
	return
}

func indexOf(l []string, s string) int {
	for i, v := range l {
		if v == s {
			return i
		}
	}
	return -1
}
