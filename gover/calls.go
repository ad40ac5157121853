package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) callArgs(a *act, c *ssa.CallCommon) []*Val {
	var vs []*Val
	vs = append(vs, x.val(a, c.Value))
	for _, g := range c.Args {
		vs = append(vs, x.val(a, g))
	}
	return vs
}

func (x *Exec) call(a *act, st *State, c *ssa.CallCommon, in ssa.Instruction, pos token.Pos) []Outcome {
	return x.callWith(a, st, c, x.callArgs(a, c), pos, false)
}

func (x *Exec) ret1(st *State, v *Val) []Outcome { return []Outcome{{st: st, rets: []*Val{v}}} }

func (x *Exec) callWith(a *act, st *State, c *ssa.CallCommon, args []*Val, pos token.Pos, deferred bool) []Outcome {
	if c.IsInvoke() {
		return x.invoke(a, st, c, args, pos)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(a, st, b, c, args[1:], pos)
	}
	if f := c.StaticCallee(); f != nil {
		var binds []*Val
		if _, isF := c.Value.(*ssa.Function); !isF {
			if cl, ok := fnByTerm[args[0].t]; ok {
				binds = cl.binds
			}
		}
		return x.callFn(a, st, f, args[1:], binds, pos)
	}
	return x.callDyn(a, st, args[0].t, c, args[1:], pos)
}

func (x *Exec) callDyn(a *act, st *State, t *Term, c *ssa.CallCommon, args []*Val, pos token.Pos) []Outcome {
	// a function value read into a local variable: the key is FUNCTION.variable
	if rs := c.Value.Referrers(); rs != nil && len(paramOrigin[t]) == 0 {
		for _, r := range *rs {
			if d, ok := r.(*ssa.DebugRef); ok && d.Object() != nil {
				if k := fnName(a.fn) + "." + d.Object().Name(); x.cs.callbacks[k] != nil {
					paramOrigin[t] = k
				}
			}
		}
	}
	return x.callTerm(a, st, t, c.Value.Type(), c.Signature(), args, pos)
}

func (x *Exec) callTerm(a *act, st *State, t *Term, typ types.Type, sig *types.Signature, args []*Val, pos token.Pos) []Outcome {
	if cl, ok := fnByTerm[t]; ok {
		return x.callFn(a, st, cl.fn, args, cl.binds, pos)
	}
	if t.op == "ite" {
		st2 := st.clone()
		st.assume(t.args[0])
		st2.assume(Not(t.args[0]))
		var outs []Outcome
		if !x.infeasible(st) {
			outs = append(outs, x.callTerm(a, st, t.args[1], typ, sig, args, pos)...)
		}
		if !x.infeasible(st2) {
			outs = append(outs, x.callTerm(a.clone(), st2, t.args[2], typ, sig, args, pos)...)
		}
		return outs
	}
	declared := false // a function variable with a contract is assumed to be set
	for _, k := range x.fnOrigin(t) {
		if _, ok := x.cs.callbacks[k]; ok && strings.HasPrefix(k, "g.") {
			declared = true
		}
	}
	if !declared {
		x.safe(st, a, "nil-func-call", Not(Eq(t, Int(0))), pos)
	}
	if st.dead {
		return nil
	}
	keys := x.fnOrigin(t)
	if n, ok := typ.(*types.Named); ok {
		keys = append(keys, typeKey(n))
	}
	for _, k := range keys {
		if con, ok := x.cs.callbacks[k]; ok {
			all := args
			if con.Self != "" {
				all = append([]*Val{scalar(t, typ)}, args...)
			}
			return x.applyContract(a, st, con, sig, all, pos, nil)
		}
	}
	nm := "callback:?"
	if len(keys) > 0 {
		nm = "callback:" + keys[0]
	}
	return x.external(a, st, nm, sig, args, pos)
}

var paramOrigin = map[*Term]string{}

func (x *Exec) fnOrigin(t *Term) []string {
	if k, ok := paramOrigin[t]; ok {
		return []string{k}
	}
	h := t
	for h.op == "select" || h.op == "store" {
		h = h.args[0]
	}
	if h.op == "var" {
		n := h.name
		for _, p := range []string{"H.", "F.", "h.", "lk."} {
			if strings.HasPrefix(n, p) {
				n = n[len(p):]
				if i := strings.Index(n, "!"); i >= 0 {
					n = n[:i]
				}
				return []string{n}
			}
		}
	}
	return nil
}

func (x *Exec) callFn(a *act, st *State, f *ssa.Function, args []*Val, binds []*Val, pos token.Pos) []Outcome {
	name := fnName(f)
	if f.Origin() != nil {
		name = fnName(f.Origin())
	}
	if m, ok := models[name]; ok && x.cs.funcs[name] == nil {
		return m(x, a, st, f, args, pos)
	}
	if con, ok := x.cs.funcs[name]; ok && !con.Inline {
		if con.PureFn {
			x.used[name]++
			x.checkReq(a, st, con, f.Signature, args, pos, f)
			return []Outcome{{st: st, rets: x.pureUF(st, "fn$"+name, con, f.Signature, args)}}
		}
		return x.applyContract(a, st, con, f.Signature, args, pos, f)
	}
	if f.Blocks == nil || !x.inRepo(f) {
		if x.nonblock() && blockingExt[name] {
			x.check(st, a, "nonblocking", name, tFalse, pos)
		}
		return x.external(a, st, name, f.Signature, args, pos)
	}
	for p, n := a, 0; p != nil; p = p.caller {
		if p.fn == f {
			n++
			if n > 0 {
				panic(unsupported("recursive function without contract: " + name))
			}
		}
	}
	if x.silent == 0 {
		x.inlined[name]++
	}
	base := st.clone()
	outs := x.runFn(f, args, binds, st.clone(), a.depth+1, a)
	return x.merge(base, outs)
}

func (x *Exec) inRepo(f *ssa.Function) bool {
	p := f.Package()
	if p == nil && f.Origin() != nil {
		p = f.Origin().Package()
	}
	if p == nil && f.Parent() != nil {
		p = f.Parent().Package()
	}
	if p == nil {
		// synthetic wrappers (bound methods, thunks)
		return strings.Contains(f.String(), strings.TrimSuffix(modPath, "/"))
	}
	return strings.HasPrefix(p.Pkg.Path()+"/", modPath)
}

// merge joins the outcomes of an inlined call when the callee left the heap alone.
func (x *Exec) merge(base *State, outs []Outcome) []Outcome {
	if len(outs) <= 1 {
		return outs
	}
	for _, o := range outs {
		if o.st.atlock != outs[0].st.atlock || o.st.atunlock != outs[0].st.atunlock || len(o.st.locks) != len(base.locks) || !sameMap(o.st.ghost, outs[0].st.ghost) || !sameMap(o.st.heap, outs[0].st.heap) || o.st.alloc != outs[0].st.alloc {
			return outs
		}
		for _, r := range o.rets {
			for _, t := range flat(r) {
				if _, ok := fnByTerm[t]; ok {
					return outs
				}
			}
		}
	}
	var conds []*Term
	st := outs[0].st.clone()
	st.pc = base.pc
	bn := 0
	if base.pc != nil {
		bn = base.pc.n
	}
	for _, o := range outs {
		var cs []*Term
		var facts []*Term
		for p := o.st.pc; p != nil && p.n > bn; p = p.prev {
			if p.fact {
				facts = append(facts, p.t)
			} else {
				cs = append(cs, p.t)
			}
		}
		for i := len(facts) - 1; i >= 0; i-- {
			st.fact(facts[i])
		}
		conds = append(conds, And(cs...))
	}
	st.assume(Or(conds...))
	n := len(outs)
	rets := append([]*Val(nil), outs[n-1].rets...)
	ok := true
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(unsupportedErr); is {
					ok = false
					return
				}
				panic(r)
			}
		}()
		for i := n - 2; i >= 0; i-- {
			for j := range rets {
				rets[j] = iteVal(conds[i], outs[i].rets[j], rets[j])
			}
		}
	}()
	if !ok {
		return outs
	}
	return []Outcome{{st: st, rets: rets, act: outs[0].act}}
}

func sameMap(a, b map[string]*Term) bool {
	for k, v := range a {
		if w, ok := b[k]; ok && w != v {
			return false
		} else if !ok && !(v.op == "var" && strings.HasPrefix(v.name, "H.")) && !strings.HasPrefix(k, "$") {
			return false
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok && !(v.op == "var" && strings.HasPrefix(v.name, "H.")) && !strings.HasPrefix(k, "$") {
			return false
		}
	}
	return true
}

func (x *Exec) results(st *State, sig *types.Signature, base string) []*Val {
	var rets []*Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		v := freshVal(base, t)
		x.wf(st, v, t)
		rets = append(rets, v)
	}
	return rets
}

func (x *Exec) external(a *act, st *State, name string, sig *types.Signature, args []*Val, pos token.Pos) []Outcome {
	if x.silent == 0 {
		x.trust[name]++
	}
	na := NewVar("alloc", "Int")
	st.fact(Le(st.alloc, na))
	st.alloc = na
	return []Outcome{{st: st, rets: x.results(st, sig, "ext")}}
}

func (x *Exec) invoke(a *act, st *State, c *ssa.CallCommon, args []*Val, pos token.Pos) []Outcome {
	recv := args[0].t
	x.safe(st, a, "nil-interface-call", Not(Eq(recv, nilAny)), pos)
	if st.dead {
		return nil
	}
	if recv.op == "ite" {
		st2 := st.clone()
		st.assume(recv.args[0])
		st2.assume(Not(recv.args[0]))
		var outs []Outcome
		if !x.infeasible(st) {
			outs = append(outs, x.invoke(a, st, c, append([]*Val{scalar(recv.args[1], args[0].typ)}, args[1:]...), pos)...)
		}
		if !x.infeasible(st2) {
			outs = append(outs, x.invoke(a.clone(), st2, c, append([]*Val{scalar(recv.args[2], args[0].typ)}, args[1:]...), pos)...)
		}
		return outs
	}
	it := c.Value.Type()
	k := typeKey(it) + "." + c.Method.Name()
	if con, ok := x.cs.callbacks[k]; ok {
		return x.applyContract(a, st, con, c.Signature(), args, pos, nil)
	}
	if recv.op == "ctor" && len(recv.args) == 2 && recv.args[0].isInt() {
		dt := tagTypes[recv.args[0].intVal().Int64()]
		if _, isSpec := dt.(*specType); !isSpec {
			if f := x.prog.LookupMethod(dt, c.Method.Pkg(), c.Method.Name()); f != nil && x.inRepo(f) {
				rv := x.unbox(st, recv, dt)
				return x.callFn(a, st, f, append([]*Val{rv}, args[1:]...), nil, pos)
			}
		}
	}
	if x.nonblock() && blockingExt[k] {
		x.check(st, a, "nonblocking", k, tFalse, pos)
	}
	return x.external(a, st, "iface:"+k, c.Signature(), args, pos)
}

func (x *Exec) nonblock() bool { return x.root != nil && x.root.Flags["nonblocking"] && x.silent == 0 }

var blockingExt = map[string]bool{"time.Sleep": true, "(*sync.WaitGroup).Wait": true, "(*sync.Cond).Wait": true, "gpb.GNMI_SubscribeServer.Send": true, "gpb.GNMI_SubscribeServer.Recv": true, "google.golang.org/grpc.ServerStream.SendMsg": true}

// ---------- contracts at call sites ----------

func (x *Exec) bindParams(con *Contract, sig *types.Signature, args []*Val) map[string]*SV {
	env := map[string]*SV{}
	for i, v := range args {
		if i < len(con.Params) {
			env[con.Params[i]] = &SV{v: v, t: v.typ}
		}
	}
	return env
}

func (x *Exec) conPkg(con *Contract) *types.Package { return x.cs.pkgOf(con.Pkg) }

func (x *Exec) checkReq(a *act, st *State, con *Contract, sig *types.Signature, args []*Val, pos token.Pos, f *ssa.Function) {
	x.checkReqB(a, st, con, sig, args, nil, pos, f)
}

func (x *Exec) checkReqB(a *act, st *State, con *Contract, sig *types.Signature, args, binds []*Val, pos token.Pos, f *ssa.Function) {
	env := x.bindParams(con, sig, args)
	for i, b := range binds {
		if i < len(f.FreeVars) {
			el := f.FreeVars[i].Type().Underlying().(*types.Pointer).Elem()
			env[f.FreeVars[i].Name()] = &SV{v: x.load(st, x.ptrLoc(b, el)), t: el}
		}
	}
	for i, c := range con.Requires {
		lbl := c.Label
		if lbl == "" {
			lbl = fmt.Sprint(i + 1)
		}
		if c.Safety && !x.safety {
			continue
		}
		g := x.evalClause(c, &Env{x: x, st: st, old: st, vars: env, pkg: x.conPkg(con), con: con, a: nil})
		x.check(st, a, "pre", con.Key+":"+lbl, g, pos)
	}
	for _, h := range con.Holds {
		l := x.evalLoc(h.Expr, &Env{x: x, st: st, old: st, vars: env, pkg: x.conPkg(con), con: con})
		x.check(st, a, "holds", con.Key+":"+l.key, x.heldTerm(st, l.key, l.ref, h.Mode == "w"), pos)
	}
	for _, h := range con.HoldsAny {
		x.check(st, a, "holds", con.Key+":"+h.Class, Bool(x.heldAny(st, h.Class, h.Mode == "w")), pos)
	}
}

func (x *Exec) applyContract(a *act, st *State, con *Contract, sig *types.Signature, args []*Val, pos token.Pos, f *ssa.Function) []Outcome {
	if x.silent == 0 {
		x.used[con.Key]++
	}
	x.ghostHooks(a, st, con, sig, args, nil, false, pos)
	x.checkReq(a, st, con, sig, args, pos, f)
	if st.dead {
		return nil
	}
	if x.nonblock() && !con.Flags["nonblocking"] {
		x.check(st, a, "nonblocking", con.Key, tFalse, pos)
	}
	if con.PureFn {
		return []Outcome{{st: st, rets: x.pureUF(st, "fn$"+con.Key, con, sig, args)}}
	}
	pre := st.clone()
	env := x.bindParams(con, sig, args)
	penv := &Env{x: x, st: pre, old: pre, vars: env, pkg: x.conPkg(con), con: con}
	mods := x.evalMods(con, penv)
	allocPre := st.alloc
	st.alloc = NewVar("alloc", "Int")
	st.fact(Le(allocPre, st.alloc))
	x.applyMods(a, st, mods, allocPre, pos)
	var early []Outcome
	if con.Iter != nil {
		st, early = x.iterate(a, st, pre, con, env, args, pos)
	}
	rets := x.results(st, sig, "r")
	for i, r := range rets {
		if _, ok := under(r.typ).(*types.Signature); ok && r.t != nil {
			paramOrigin[r.t] = fmt.Sprintf("%s#%d", con.Key, i)
		}
	}
	post := &Env{x: x, st: st, old: pre, vars: map[string]*SV{}, pkg: x.conPkg(con), con: con}
	for k, v := range env {
		post.vars[k] = v
	}
	bindResults(post, sig, rets)
	for _, c := range con.Ensures {
		if !strings.HasPrefix(c.Label, "local-") { // an intermediate step of the callee's own proof
			st.assume(x.evalClause(c, post))
		}
	}
	if con.Iter != nil {
		post.pre = pre
		post.vars["done"] = specSV(x.gget(st, con.Iter.ghost(con)))
		for _, c := range con.Iter.Ends {
			st.assume(x.evalClause(c, post))
		}
	}
	x.ghostHooks(a, st, con, sig, args, rets, true, pos)
	return append(early, Outcome{st: st, rets: rets})
}

func (it *IterSpec) ghost(con *Contract) string { return "$done." + con.Key }

// iterate: a function that calls the functions it is given once per element of a set, in any
// order.  The caller's invariants (at KEY invariant ...) are checked initially, and preserved by
// one step on an arbitrary element; afterwards they hold for the state in which done is complete.
func (x *Exec) iterate(a *act, st, pre *State, con *Contract, env map[string]*SV, args []*Val, pos token.Pos) (*State, []Outcome) {
	it := con.Iter
	var invs []*Clause
	if x.root != nil {
		for _, h := range x.root.AtInvs {
			if h.Callee == con.Key || qualify(con.Pkg, h.Callee) == con.Key || qualify(x.root.Pkg, h.Callee) == con.Key {
				invs = append(invs, h.Assert)
			}
		}
	}
	gname := it.ghost(con)
	te := &Env{x: x, st: st, old: pre, vars: env, pkg: x.conPkg(con), con: con}
	vt := te.resolveType(it.Type)
	srt := layout(vt)[0].sort
	doneSort := "(Array " + srt + " Bool)"
	x.cs.ghosts[gname] = doneSort
	empty := ConstArr(doneSort, tFalse)
	x.gset(st, gname, empty)
	entry := st.clone()
	evalInvs := func(st *State, kind string) {
		for i, c := range invs {
			lbl := c.Label
			if lbl == "" {
				lbl = fmt.Sprint(i + 1)
			}
			e := x.envFor(a, st, nil)
			e.pre = entry
			e.vars2 = map[string]*SV{"done": specSV(x.gget(st, gname))}
			for j, g := range args {
				e.vars2[fmt.Sprintf("arg%d", j)] = &SV{v: g, t: g.typ}
			}
			for k, sv := range e.vars2 {
				e.vars[k] = sv
			}
			g := x.evalClause(c, e)
			if kind == "assume" {
				st.assume(g)
			} else {
				x.check(st, a, kind, "iter["+con.Key+"]:"+lbl, g, pos)
			}
		}
	}
	cenv := func(st *State, vars map[string]*SV) *Env {
		e := &Env{x: x, st: st, old: pre, vars: map[string]*SV{}, pkg: x.conPkg(con), con: con, pre: entry}
		for k, v := range env {
			e.vars[k] = v
		}
		for k, v := range vars {
			e.vars[k] = v
		}
		e.vars["done"] = specSV(x.gget(st, gname))
		return e
	}
	evalInvs(st, "inv-init")
	s0 := nextStamp()
	W := &recorder{heap: map[string]*writeRec{}, ghost: map[string]bool{gname: true}, sorts: map[string]string{}, s0: s0}
	havoc := func(st *State) {
		allocPre := st.alloc
		st.alloc = NewVar("alloc", "Int")
		st.fact(Le(allocPre, st.alloc))
		var keys []string
		for k := range W.heap {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			w := W.heap[k]
			x.havocKey(st, k, x.hget(st, k, W.sorts[k]), w.full, w.refs, W.s0, allocPre)
		}
		var gs []string
		for g := range W.ghost {
			gs = append(gs, g)
		}
		sort.Strings(gs)
		for _, g := range gs {
			srt := x.cs.ghosts[g]
			if o, ok := st.ghost[g]; ok {
				srt = o.sort
			}
			if srt == "" {
				continue
			}
			x.gset(st, g, NewVar("g."+g, srt))
		}
		evalInvs(st, "assume")
	}
	type cur struct {
		st   *State
		vars map[string]*SV
	}
	for round := 0; round < 8; round++ {
		rec := &recorder{heap: map[string]*writeRec{}, ghost: map[string]bool{}, sorts: map[string]string{}, s0: s0}
		a2, st2 := a.clone(), st.clone()
		havoc(st2)
		x.recs = append(x.recs, rec)
		savedPaths := x.paths
		v := freshVal("it."+it.Var, vt)
		x.wf(st2, v, vt)
		vars0 := map[string]*SV{it.Var: {v: v, t: vt}}
		st2.assume(Not(Select(x.gget(st2, gname), v.t)))
		for _, c := range it.Where {
			st2.assume(x.evalClause(c, cenv(st2, vars0)))
		}
		var early []Outcome
		open := []cur{{st2, vars0}}
		finish := func(c cur) {
			if c.st.dead {
				return
			}
			x.gset(c.st, gname, Store(x.gget(c.st, gname), v.t, tTrue))
			evalInvs(c.st, "inv-preserved")
			x.paths++
		}
		for _, sp := range it.Steps {
			var next []cur
			for _, c := range open {
				if c.st.dead {
					continue
				}
				e := cenv(c.st, c.vars)
				if sp.Ghost != "" {
					x.silent++
					t := e.eval(sp.Expr).v.t
					x.silent--
					x.gget(c.st, sp.Ghost)
					x.gset(c.st, sp.Ghost, t)
					x.ghostFrame(c.st, a, sp.Ghost, pos)
					next = append(next, c)
					continue
				}
				call := sp.Expr.(*ast.CallExpr)
				x.silent++
				fv := e.eval(call.Fun)
				var av []*Val
				sig := fv.t.Underlying().(*types.Signature)
				for j, ax := range call.Args {
					sv := e.coerce(e.eval(ax), sig.Params().At(j).Type())
					av = append(av, sv.v)
				}
				x.silent--
				for _, o := range x.callTerm(a2.clone(), c.st, fv.v.t, fv.t, sig, av, pos) {
					switch sp.Kind {
					case "if":
						no := o.st.clone()
						no.assume(Not(o.rets[0].t))
						if !x.infeasible(no) {
							finish(cur{no, c.vars})
						}
						o.st.assume(o.rets[0].t)
						if !x.infeasible(o.st) {
							next = append(next, cur{o.st, c.vars})
						}
					case "try":
						bad := o.st.clone()
						nilAny := zeroVal(sig.Results().At(0).Type()).t
						bad.assume(Not(Eq(o.rets[0].t, nilAny)))
						if !x.infeasible(bad) {
							early = append(early, Outcome{st: bad, rets: o.rets})
						}
						o.st.assume(Eq(o.rets[0].t, nilAny))
						if !x.infeasible(o.st) {
							next = append(next, cur{o.st, c.vars})
						}
					default:
						next = append(next, cur{o.st, c.vars})
					}
				}
			}
			open = next
		}
		for _, c := range open {
			finish(c)
		}
		x.recs = x.recs[:len(x.recs)-1]
		grew := false
		for k, w := range rec.heap {
			o := W.heap[k]
			if o == nil {
				o = &writeRec{refs: map[*Term]bool{}}
				W.heap[k] = o
				W.sorts[k] = rec.sorts[k]
				grew = true
			}
			if w.full && !o.full {
				o.full = true
				grew = true
			}
			for r := range w.refs {
				if !o.refs[r] && !o.full {
					o.refs[r] = true
					grew = true
				}
			}
		}
		for g := range rec.ghost {
			if !W.ghost[g] {
				W.ghost[g] = true
				grew = true
			}
		}
		if !grew {
			if n := len(x.recs); n > 0 {
				x.recs[n-1].obs = append(x.recs[n-1].obs, rec.obs...)
			} else {
				x.obs = append(x.obs, rec.obs...)
			}
			havoc(st)
			return st, early
		}
		x.paths = savedPaths
	}
	panic(unsupported("write set of the iteration in " + con.Key + " does not stabilise"))
}

func (x *Exec) ghostHooks(a *act, st *State, con *Contract, sig *types.Signature, args, rets []*Val, after bool, pos token.Pos) {
	if x.silent > 0 || x.root == nil {
		return
	}
	for i, h := range x.root.Hooks {
		if h.After != after || (h.Callee != con.Key && qualify(con.Pkg, h.Callee) != con.Key && qualify(x.root.Pkg, h.Callee) != con.Key) {
			continue
		}
		e := x.envFor(a, st, nil)
		e.vars2 = map[string]*SV{}
		for j, g := range args {
			e.vars2[fmt.Sprintf("arg%d", j)] = &SV{v: g, t: g.typ}
		}
		for j, r := range rets {
			e.vars2[fmt.Sprintf("result%d", j)] = &SV{v: r, t: r.typ}
		}
		for k, sv := range e.vars2 {
			e.vars[k] = sv
		}
		if h.Assert != nil {
			lbl := h.Assert.Label
			if lbl == "" {
				lbl = fmt.Sprint(i + 1)
			}
			x.check(st, a, "assert", con.Key+":"+lbl, x.evalClause(h.Assert, e), pos)
			continue
		}
		x.silent++
		t := e.eval(h.Expr).v.t
		x.silent--
		x.gget(st, h.Ghost)
		x.gset(st, h.Ghost, t)
		x.ghostFrame(st, a, h.Ghost, pos)
	}
}

func bindResults(e *Env, sig *types.Signature, rets []*Val) {
	for i, r := range rets {
		sv := &SV{v: r, t: sig.Results().At(i).Type()}
		e.vars[fmt.Sprintf("result%d", i)] = sv
		if i == 0 {
			e.vars["result"] = sv
		}
	}
}

type modItem struct {
	key   string
	sort  string
	ref   *Term // nil: whole key
	ghost string
	any   bool
}

func (x *Exec) applyMods(a *act, st *State, mods []modItem, allocPre *Term, pos token.Pos) {
	group := map[string]*writeRec{}
	srt := map[string]string{}
	var order []string
	for _, m := range mods {
		switch {
		case m.any:
			var ks []string
			for k := range st.heap {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				if strings.HasPrefix(k, "cell.") {
					continue
				}
				x.hset(st, k, NewVar("F."+k, st.heap[k].sort), nil)
			}
			if !x.frameAny {
				x.check(st, a, "frame", "any", tFalse, pos)
			}
		case m.ghost != "":
			x.gget(st, m.ghost)
			x.gset(st, m.ghost, NewVar("g."+m.ghost, x.cs.ghosts[m.ghost]))
			x.ghostFrame(st, a, m.ghost, pos)
		default:
			w := group[m.key]
			if w == nil {
				w = &writeRec{refs: map[*Term]bool{}}
				group[m.key] = w
				srt[m.key] = m.sort
				order = append(order, m.key)
			}
			if m.ref == nil {
				w.full = true
			} else {
				w.refs[m.ref] = true
			}
			x.frameKey(st, a, m.key, m.ref, pos)
		}
	}
	s0 := nextStamp()
	for _, k := range order {
		w := group[k]
		base := x.hget(st, k, srt[k])
		if !w.full {
			// ordinary stores of unknown values at the modified references
			arr := base
			var rs []*Term
			for r := range w.refs {
				rs = append(rs, r)
			}
			sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
			f := NewVar("F."+k, base.sort)
			f.fbase, f.fstamp = base, s0
			frameAllocs[f] = allocPre
			arr = f
			for _, r := range rs {
				arr = Store(arr, r, NewVar("h."+k, mustElem(base.sort)))
				x.hset(st, k, arr, r)
			}
			// other pre-existing objects keep their contents (frame axiom of f);
			// references modified are excluded by the store above
			continue
		}
		x.hset(st, k, NewVar("F."+k, base.sort), nil)
	}
}

func (x *Exec) ghostFrame(st *State, a *act, g string, pos token.Pos) {
	if x.silent > 0 || x.root == nil || x.frameAny {
		return
	}
	for _, m := range x.root.Modifies {
		if m.Ghost == g {
			return
		}
	}
	if !strings.HasPrefix(g, "$") {
		x.check(st, a, "frame", "ghost "+g, tFalse, pos)
	}
}

func (x *Exec) pureUF(st *State, name string, con *Contract, sig *types.Signature, args []*Val) []*Val {
	var as []*Term
	for _, v := range args {
		as = append(as, flat(v)...)
	}
	// explicit heap dependencies
	for _, k := range con.Reads {
		if s, ok := x.heapSorts[k]; ok {
			as = append(as, x.hget(st, k, s))
		}
	}
	var rets []*Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		var ts []*Term
		for _, c := range layout(t) {
			ts = append(ts, App(fmt.Sprintf("%s#%d%s", name, i, c.suffix), c.sort, as...))
		}
		v := unflat(t, ts)
		x.wf(st, v, t)
		rets = append(rets, v)
	}
	env := x.bindParams(con, sig, args)
	post := &Env{x: x, st: st, old: st, vars: env, pkg: x.conPkg(con), con: con}
	bindResults(post, sig, rets)
	for _, c := range con.Ensures {
		if !strings.HasPrefix(c.Label, "local-") { // an intermediate step of the callee's own proof
			st.assume(x.evalClause(c, post))
		}
	}
	return rets
}

// ---------- builtins ----------

func (x *Exec) builtin(a *act, st *State, b *ssa.Builtin, c *ssa.CallCommon, args []*Val, pos token.Pos) []Outcome {
	it := types.Typ[types.Int]
	switch b.Name() {
	case "len", "cap":
		v := args[0]
		switch u := under(c.Args[0].Type()).(type) {
		case *types.Slice:
			i := 2
			if b.Name() == "cap" {
				i = 3
			}
			return x.ret1(st, scalar(v.comps[i].t, it))
		case *types.Map:
			x.mapGuard(st, a, c.Args[0], false, pos)
			return x.ret1(st, scalar(x.mapLen(st, u, v.t), it))
		case *types.Basic:
			if v.t.op == "lit" {
				return x.ret1(st, scalar(Int(int64(len(v.t.name))), it))
			}
			return x.ret1(st, scalar(App("strlen", "Int", v.t), it))
		case *types.Chan:
			n := NewVar("chanlen", "Int")
			st.fact(Le(Int(0), n))
			return x.ret1(st, scalar(n, it))
		case *types.Array:
			return x.ret1(st, scalar(Int(u.Len()), it))
		}
	case "append":
		return x.appendB(a, st, c, args, pos)
	case "copy":
		return x.copyB(a, st, c, args, pos)
	case "delete":
		m := under(c.Args[0].Type()).(*types.Map)
		x.mapGuard(st, a, c.Args[0], true, pos)
		// delete on a nil map is a no-op
		x.mapDelete(st, a, m, args[0].t, args[1], pos)
		return []Outcome{{st: st}}
	case "close":
		r := args[0].t
		h := x.hget(st, "chan.closed", ArrSort("Int", "Bool"))
		x.safe(st, a, "close-of-closed-or-nil", And(Not(Eq(r, Int(0))), Not(Select(h, r))), pos)
		h = x.hget(st, "chan.closed", ArrSort("Int", "Bool"))
		x.hset(st, "chan.closed", Store(h, r, tTrue), r)
		if k, _ := x.chanKey(a, c.Args[0], r); k != "" {
			if by := x.cs.closeOnly[k]; by != "" {
				ok := false
				for _, l := range st.locks {
					ok = ok || l.key == by
				}
				x.check(st, a, "guarded-by", "close "+k, Bool(ok), pos)
			}
		}
		x.chanEvent(a, st, "close", c.Args[0], args[0], nil, pos)
		return []Outcome{{st: st}}
	case "panic":
		x.safe(st, a, "explicit-panic", tFalse, pos)
		return nil
	case "print", "println":
		return []Outcome{{st: st}}
	case "recover":
		return x.ret1(st, scalar(nilAny, b.Type().(*types.Signature).Results().At(0).Type()))
	case "min", "max":
		r := args[0].t
		for _, g := range args[1:] {
			var le *Term
			if r.sort == "Int" {
				le = Le(r, g.t)
			} else {
				le = Op("<=", "Bool", r, g.t)
			}
			if b.Name() == "max" {
				r = Ite(le, g.t, r)
			} else {
				r = Ite(le, r, g.t)
			}
		}
		return x.ret1(st, scalar(r, args[0].typ))
	case "clear":
		if m, ok := under(c.Args[0].Type()).(*types.Map); ok {
			r := args[0].t
			ks := x.keySort(m)
			x.frameKey(st, a, mapKey(m), r, pos)
			x.storeWhole(st, mapKey(m)+".dom", "", r, ConstArr(ArrSort(ks, "Bool"), tFalse))
			x.storeWhole(st, mapKey(m)+".len", "", r, Int(0))
			return []Outcome{{st: st}}
		}
	case "ssa:wrapnilchk":
		x.safe(st, a, "nil-deref", Not(Eq(args[0].t, Int(0))), pos)
		return x.ret1(st, args[0])
	}
	panic(unsupported("builtin " + b.Name()))
}

func (x *Exec) innerOf(st *State, key, suffix, csort string, arr *Term) *Term {
	return Select(x.hget(st, key+suffix, x.heapSort("", csort, true)), arr)
}

func (x *Exec) appendB(a *act, st *State, c *ssa.CallCommon, args []*Val, pos token.Pos) []Outcome {
	s, y := args[0], args[1]
	stt := c.Args[0].Type()
	el := under(stt).(*types.Slice).Elem()
	if _, isStr := under(c.Args[1].Type()).(*types.Basic); isStr {
		r := x.newRef(st, "bytes")
		n := Add(s.comps[2].t, App("strlen", "Int", y.t))
		return x.ret1(st, mkSlice(stt, r, Int(0), n, n))
	}
	arr, off, n, cp := s.comps[0].t, s.comps[1].t, s.comps[2].t, s.comps[3].t
	ny := y.comps[2].t
	if ny.isInt() && ny.name == "0" {
		return x.ret1(st, s)
	}
	tot := Add(n, ny)
	fits := Le(tot, cp)
	var outs []Outcome
	sIn, sNew := st, st
	if fits != tTrue && fits != tFalse {
		sIn, sNew = st.clone(), st.clone()
		sIn.assume(fits)
		sNew.assume(Not(fits))
	}
	// contents
	write := func(st *State, target *Term) {
		for _, cc := range layout(el) {
			inner := x.innerOf(st, elemKey(el), cc.suffix, cc.sort, arr)
			yin := x.innerOf(st, elemKey(el), cc.suffix, cc.sort, y.comps[0].t)
			var ni *Term
			if ny.isInt() && ny.intVal().Int64() <= 6 {
				ni = inner
				for i := int64(0); i < ny.intVal().Int64(); i++ {
					ni = Store(ni, Add(off, n, Int(i)), Select(yin, Add(y.comps[1].t, Int(i))))
				}
			} else {
				ni = NewVar("app", inner.sort)
				j := BoundVar("j", "Int")
				lo := Add(off, n)
				st.fact(Forall([]*Term{j}, Eq(mk("select", "", cc.sort, ni, j),
					Ite(And(Le(lo, j), Lt(j, Add(lo, ny))), mk("select", "", cc.sort, yin, Add(y.comps[1].t, Sub(j, lo))), mk("select", "", cc.sort, inner, j))),
					[]*Term{mk("select", "", cc.sort, ni, j)}))
			}
			x.storeWhole(st, elemKey(el)+cc.suffix, "", target, ni)
			if len(layout(el)) == 1 {
				old := x.seqTermRaw(st, inner, off, n)
				ys := x.seqTermRaw(st, yin, y.comps[1].t, ny)
				st.fact(Eq(seqUF(ni, off, tot), SeqCat(old, ys)))
				if !tot.isInt() {
					st.fact(Implies(Eq(ny, Int(0)), Eq(ys, SeqEmpty(cc.sort))))
				}
			}
		}
	}
	if x.root != nil && x.root.Flags["merge"] && fits != tTrue && fits != tFalse && !x.infeasible(sIn) && !x.infeasible(sNew) {
		// both cases in one: the array written is chosen by the capacity
		in := sIn.clone()
		in.assume(Not(Eq(ny, Int(0))))
		if !x.infeasible(in) {
			for _, cc := range layout(el) {
				x.frameKey(in, a, elemKey(el)+cc.suffix, arr, pos)
			}
		}
		r := x.newRef(st, "arr")
		ncap := NewVar("cap", "Int")
		st.fact(Le(tot, ncap))
		target := Ite(fits, arr, r)
		write(st, target)
		return []Outcome{{st: st, rets: []*Val{mkSlice(stt, target, off, tot, Ite(fits, cp, ncap))}}}
	}
	if fits != tFalse && !(fits != tTrue && x.infeasible(sIn)) {
		// in place: the shared backing array is written
		if !(ny.isInt()) {
			z := sIn.clone()
			z.assume(Eq(ny, Int(0)))
			if !x.infeasible(z) {
				sNZ := sIn.clone()
				sNZ.assume(Not(Eq(ny, Int(0))))
				outs = append(outs, Outcome{st: z, rets: []*Val{s}})
				sIn = sNZ
			}
		}
		if !sIn.dead && !x.infeasible(sIn) {
			for _, cc := range layout(el) {
				x.frameKey(sIn, a, elemKey(el)+cc.suffix, arr, pos)
			}
			write(sIn, arr)
			outs = append(outs, Outcome{st: sIn, rets: []*Val{mkSlice(stt, arr, off, tot, cp)}})
		}
	}
	if fits != tTrue && !x.infeasible(sNew) {
		r := x.newRef(sNew, "arr")
		ncap := NewVar("cap", "Int")
		sNew.fact(Le(tot, ncap))
		write(sNew, r)
		outs = append(outs, Outcome{st: sNew, rets: []*Val{mkSlice(stt, r, off, tot, ncap)}})
	}
	return outs
}

func (x *Exec) copyB(a *act, st *State, c *ssa.CallCommon, args []*Val, pos token.Pos) []Outcome {
	d, s := args[0], args[1]
	it := types.Typ[types.Int]
	el := under(c.Args[0].Type()).(*types.Slice).Elem()
	if s.t != nil {
		panic(unsupported("copy from string"))
	}
	n := Ite(Le(d.comps[2].t, s.comps[2].t), d.comps[2].t, s.comps[2].t)
	arr, off := d.comps[0].t, d.comps[1].t
	for _, cc := range layout(el) {
		inner := x.innerOf(st, elemKey(el), cc.suffix, cc.sort, arr)
		sin := x.innerOf(st, elemKey(el), cc.suffix, cc.sort, s.comps[0].t)
		ni := NewVar("cpy", inner.sort)
		j := BoundVar("j", "Int")
		st.fact(Forall([]*Term{j}, Eq(mk("select", "", cc.sort, ni, j),
			Ite(And(Le(off, j), Lt(j, Add(off, n))), mk("select", "", cc.sort, sin, Add(s.comps[1].t, Sub(j, off))), mk("select", "", cc.sort, inner, j))),
			[]*Term{mk("select", "", cc.sort, ni, j)}))
		x.frameKey(st, a, elemKey(el)+cc.suffix, arr, pos)
		x.storeWhole(st, elemKey(el)+cc.suffix, "", arr, ni)
		if len(layout(el)) == 1 {
			st.fact(Eq(seqUF(ni, off, n), x.seqTermRaw(st, sin, s.comps[1].t, n)))
		}
	}
	return x.ret1(st, scalar(n, it))
}

// ---------- sequences of slices ----------

func seqUF(inner, off, n *Term) *Term {
	s := mustElem(inner.sort)
	if n.isInt() && n.name == "0" {
		return SeqEmpty(s)
	}
	return App("seqof$"+s, SeqSort(s), inner, off, n)
}

func (x *Exec) seqTermRaw(st *State, inner, off, n *Term) *Term {
	if n.isInt() && n.intVal().IsInt64() && n.intVal().Int64() <= 8 && n.intVal().Sign() >= 0 {
		var us []*Term
		for i := int64(0); i < n.intVal().Int64(); i++ {
			us = append(us, SeqUnit(Select(inner, Add(off, Int(i)))))
		}
		if len(us) == 0 {
			return SeqEmpty(mustElem(inner.sort))
		}
		r := SeqCat(us...)
		st.fact(Eq(seqUF(inner, off, n), r))
		return r
	}
	t := seqUF(inner, off, n)
	st.fact(Eq(SeqLen(t), Ite(Le(Int(0), n), n, Int(0))))
	return t
}

func (x *Exec) seqOf(st *State, s *Val) *Term {
	el := under(s.typ).(*types.Slice).Elem()
	l := layout(el)
	if len(l) != 1 {
		panic(unsupported("seqof of struct slice"))
	}
	inner := x.innerOf(st, elemKey(el), l[0].suffix, l[0].sort, s.comps[0].t)
	return x.seqTermRaw(st, inner, s.comps[1].t, s.comps[2].t)
}

// listOf: the elements of a string slice as an algebraic list
func (x *Exec) listOf(st *State, s *Val) *Term {
	el := under(s.typ).(*types.Slice).Elem()
	l := layout(el)
	if len(l) != 1 || l[0].sort != "Str" {
		panic(unsupported("listof of non-string slice"))
	}
	if n := s.comps[2].t; n.isInt() && n.name == "0" {
		return mk("ctor", "lnil", "Lst")
	}
	inner := x.innerOf(st, elemKey(el), l[0].suffix, l[0].sort, s.comps[0].t)
	return App("listof", "Lst", inner, s.comps[1].t, s.comps[2].t)
}

func (x *Exec) seqEmptyFact(st *State, s *Val) {}

func (x *Exec) seqSubFact(st *State, base, r *Val, lo *Term) {
	el := under(base.typ).(*types.Slice).Elem()
	l := layout(el)
	if len(l) != 1 || (l[0].sort != "Str" && l[0].sort != "Any") {
		return
	}
	inner := x.innerOf(st, elemKey(el), l[0].suffix, l[0].sort, base.comps[0].t)
	if l[0].sort == "Str" && lo.isInt() && lo.name == "1" {
		lb := x.listOf(st, base)
		lr := x.listOf(st, r)
		st.fact(Implies(Eq(Add(r.comps[2].t, Int(1)), base.comps[2].t), Eq(lb, mk("lcons", "", "Lst", Select(inner, base.comps[1].t), lr))))
	}
	b := x.seqTermRaw(st, inner, base.comps[1].t, base.comps[2].t)
	q := x.seqTermRaw(st, inner, r.comps[1].t, r.comps[2].t)
	st.fact(Implies(Le(Add(lo, r.comps[2].t), base.comps[2].t), Eq(q, SeqSub(b, lo, r.comps[2].t))))
	if lo.isInt() && lo.name == "1" {
		// head/tail decomposition
		st.fact(Implies(And(Eq(Add(r.comps[2].t, Int(1)), base.comps[2].t)), Eq(b, SeqCat(SeqUnit(Select(inner, base.comps[1].t)), q))))
		// the same decomposition before writes to the head
		for in, k := inner, 0; in.op == "store" && k < 4; k++ {
			w := in.args[1]
			in = in.args[0]
			b0 := x.seqTermRaw(st, in, base.comps[1].t, base.comps[2].t)
			q0 := x.seqTermRaw(st, in, r.comps[1].t, r.comps[2].t)
			st.fact(Implies(And(Eq(Add(r.comps[2].t, Int(1)), base.comps[2].t)), Eq(b0, SeqCat(SeqUnit(Select(in, base.comps[1].t)), q0))))
			st.fact(Implies(Or(Lt(w, r.comps[1].t), Le(Add(r.comps[1].t, r.comps[2].t), w)), Eq(q0, q)))
			q = q0
		}
	}
}

// ---------- channels, goroutines, select ----------

// chanKey names the struct field a channel value was read from, and its owner.
func (x *Exec) chanKey(a *act, chv ssa.Value, t *Term) (string, *SV) {
	if u, ok := chv.(*ssa.UnOp); ok && u.Op == token.MUL {
		if f, ok := u.X.(*ssa.FieldAddr); ok {
			pt := f.X.Type().Underlying().(*types.Pointer).Elem()
			s := under(pt).(*types.Struct)
			k := objKey(pt) + "." + s.Field(f.Field).Name()
			if v, ok := a.env[f.X]; ok {
				return k, &SV{v: v, t: f.X.Type()}
			}
			return k, nil
		}
	}
	for v := chv; ; {
		switch c := v.(type) {
		case *ssa.ChangeType:
			v = c.X
			continue
		}
		break
	}
	if c, ok := chv.(*ssa.Call); ok {
		if c.Call.IsInvoke() {
			if v, ok := a.env[c.Call.Value]; ok {
				return typeKey(c.Call.Value.Type()) + "." + c.Call.Method.Name(), &SV{v: v, t: c.Call.Value.Type()}
			}
			return typeKey(c.Call.Value.Type()) + "." + c.Call.Method.Name(), &SV{v: x.val(a, c.Call.Value), t: c.Call.Value.Type()}
		} else if f := c.Call.StaticCallee(); f != nil {
			if ks := x.fnOrigin(t); len(ks) > 0 && f.Parent() != nil {
				return ks[0], nil
			}
			return fnName(f), nil
		}
	}
	if ks := x.fnOrigin(t); len(ks) > 0 {
		return ks[0], nil
	}
	return "", nil
}

func (x *Exec) chanEvent(a *act, st *State, op string, chv ssa.Value, ch *Val, v *Val, pos token.Pos) {
	if len(x.cs.chanEvents) == 0 {
		return
	}
	k, self := x.chanKey(a, chv, ch.t)
	ev := x.cs.chanEvents[op+" "+k]
	if ev == nil {
		return
	}
	e := &Env{x: x, st: st, old: st.clone(), vars: map[string]*SV{}, pkg: x.cs.pkgOf(ev.Pkg)}
	if ev.Self != "" && self != nil {
		e.vars[ev.Self] = self
	}
	if ev.Val != "" && v != nil {
		e.vars[ev.Val] = &SV{v: v, t: v.typ}
	}
	for i, c := range ev.Reqs {
		lbl := c.Label
		if lbl == "" {
			lbl = fmt.Sprint(i + 1)
		}
		x.check(st, a, "chan-"+op, k+":"+lbl, x.evalClause(c, e), pos)
	}
	pre := st.clone()
	for _, m := range ev.Mods {
		if m.Ghost != "" {
			x.gget(st, m.Ghost)
			x.gset(st, m.Ghost, NewVar("ev."+m.Ghost, x.cs.ghosts[m.Ghost]))
			continue
		}
		x.silent++
		items := x.evalMod(m.Expr, e)
		x.silent--
		for _, it := range items {
			base := x.hget(st, it.key, it.sort)
			if it.ref == nil {
				x.hset(st, it.key, NewVar("F."+it.key, base.sort), nil)
			} else {
				x.hset(st, it.key, Store(base, it.ref, NewVar("h."+it.key, mustElem(base.sort))), it.ref)
			}
		}
	}
	if len(ev.Mods) > 0 {
		x.stable(pre, st)
	}
	for _, c := range ev.Assum {
		st.assume(x.evalClause(c, e))
	}
	for _, g := range ev.Sets {
		x.silent++
		t := e.eval(g.Expr).v.t
		x.silent--
		x.gget(st, g.Ghost)
		x.gset(st, g.Ghost, t)
		x.ghostFrame(st, a, g.Ghost, pos)
	}
}

// chanObserve: other goroutines may have closed channels since the last observation.
func (x *Exec) chanObserve(st *State) {
	if len(x.cs.closeOnly) == 0 {
		return
	}
	for _, by := range x.cs.closeOnly {
		if by != "" {
			for _, l := range st.locks {
				if l.key == by {
					return
				}
			}
		}
	}
	srt := ArrSort("Int", "Bool")
	o := x.hget(st, "chan.closed", srt)
	n := NewVar("closed", srt)
	c := BoundVar("c", "Int")
	st.fact(Forall([]*Term{c}, Implies(mk("select", "", "Bool", o, c), mk("select", "", "Bool", n, c)), []*Term{mk("select", "", "Bool", o, c)}))
	pre := st.clone()
	x.hset(st, "chan.closed", n, nil)
	x.stable(pre, st)
}

// recvClosed: a receive on a channel nothing is sent on succeeds only once it is closed.
func (x *Exec) recvReady(a *act, st *State, chv ssa.Value, ch *Val, ready bool) {
	k, _ := x.chanKey(a, chv, ch.t)
	if _, ok := x.cs.closeOnly[k]; !ok || k == "" {
		return
	}
	x.trust["close-only:"+k]++
	c := Select(x.hget(st, "chan.closed", ArrSort("Int", "Bool")), ch.t)
	if ready {
		st.assume(c)
	} else {
		st.assume(Not(c))
	}
}

func (x *Exec) chanSend(st *State, a *act, ch *Val, chv ssa.Value, v *Val, pos token.Pos, blocking bool) {
	h := x.hget(st, "chan.closed", ArrSort("Int", "Bool"))
	x.safe(st, a, "send-on-closed", Not(Select(h, ch.t)), pos)
	if blocking && x.nonblock() {
		x.check(st, a, "nonblocking", "chan-send@"+fnName(a.fn), tFalse, pos)
	}
	if k, _ := x.chanKey(a, chv, ch.t); k != "" {
		if _, ok := x.cs.closeOnly[k]; ok {
			x.check(st, a, "close-only", k, tFalse, pos)
		}
	}
	x.chanEvent(a, st, "send", chv, ch, v, pos)
}

func (x *Exec) chanRecv(a *act, st *State, in *ssa.UnOp, ch *Val) {
	if x.nonblock() {
		x.check(st, a, "nonblocking", "chan-recv@"+fnName(a.fn), tFalse, in.Pos())
	}
	x.chanObserve(st)
	x.recvReady(a, st, in.X, ch, true)
	if in.CommaOk {
		tup := in.Type().(*types.Tuple)
		v := freshVal("recv", tup.At(0).Type())
		x.wf(st, v, tup.At(0).Type())
		a.env[in] = &Val{typ: tup, comps: []*Val{v, freshVal("ok", types.Typ[types.Bool])}}
		x.chanEvent(a, st, "recv", in.X, ch, v, in.Pos())
		return
	}
	v := freshVal("recv", in.Type())
	x.wf(st, v, in.Type())
	a.env[in] = v
	x.chanEvent(a, st, "recv", in.X, ch, v, in.Pos())
}

func (x *Exec) selectStmt(a *act, st *State, in *ssa.Select, k func(*act, *State) []Outcome) []Outcome {
	if in.Blocking && x.nonblock() {
		x.check(st, a, "nonblocking", "select@"+fnName(a.fn), tFalse, in.Pos())
	}
	if in.Blocking && x.root != nil && x.silent == 0 {
		for _, w := range x.root.Waits {
			found := false
			for _, s := range in.States {
				k, _ := x.chanKey(a, s.Chan, x.val(a, s.Chan).t)
				if c, ok := s.Chan.(*ssa.Call); ok {
					if c.Call.IsInvoke() {
						k = typeKey(c.Call.Value.Type()) + "." + c.Call.Method.Name()
					} else if f := c.Call.StaticCallee(); f != nil {
						k = fnName(f)
					}
				}
				found = found || (k == w && s.Dir == types.RecvOnly)
			}
			x.check(st, a, "waits", w+"@"+fnName(a.fn), Bool(found), in.Pos())
		}
	}
	tup := in.Type().(*types.Tuple)
	var outs []Outcome
	n := len(in.States)
	first := 0
	if !in.Blocking {
		first = -1
	}
	x.chanObserve(st)
	for i := first; i < n; i++ {
		a2, st2 := a.clone(), st.clone()
		comps := []*Val{scalar(Int(int64(i)), tup.At(0).Type()), freshVal("ok", types.Typ[types.Bool])}
		for j := 2; j < tup.Len(); j++ {
			v := freshVal("recv", tup.At(j).Type())
			x.wf(st2, v, tup.At(j).Type())
			comps = append(comps, v)
		}
		if i < 0 {
			for _, s := range in.States {
				if s.Dir == types.RecvOnly {
					x.recvReady(a2, st2, s.Chan, x.val(a2, s.Chan), false)
					// the channel was found not ready
					x.chanEvent(a2, st2, "poll", s.Chan, x.val(a2, s.Chan), nil, in.Pos())
				} else {
					// the attempt was made: the buffer holds an element already
					x.chanEvent(a2, st2, "offer", s.Chan, x.val(a2, s.Chan), x.val(a2, s.Send), in.Pos())
				}
			}
		}
		if i >= 0 {
			s := in.States[i]
			ch := x.val(a2, s.Chan)
			// a nil channel is never ready
			st2.assume(Not(Eq(ch.t, Int(0))))
			if s.Dir == types.SendOnly {
				x.chanEvent(a2, st2, "offer", s.Chan, ch, x.val(a2, s.Send), in.Pos())
				x.chanSend(st2, a2, ch, s.Chan, x.val(a2, s.Send), in.Pos(), false)
			} else {
				x.recvReady(a2, st2, s.Chan, ch, true)
				var rv *Val
				r := 2
				for j := 0; j < i; j++ {
					if in.States[j].Dir == types.RecvOnly {
						r++
					}
				}
				rv = comps[r]
				x.chanEvent(a2, st2, "recv", s.Chan, ch, rv, in.Pos())
			}
		}
		a2.env[in] = &Val{typ: tup, comps: comps}
		if x.infeasible(st2) {
			continue
		}
		outs = append(outs, k(a2, st2)...)
	}
	return outs
}

func (x *Exec) goStmt(a *act, st *State, in *ssa.Go) {
	name := "?"
	c := &in.Call
	args := x.callArgs(a, c)
	if f := c.StaticCallee(); f != nil {
		name = fnName(f)
	} else if cl, ok := fnByTerm[args[0].t]; ok {
		name = fnName(cl.fn)
	}
	x.trust["go:"+name]++
	for _, g := range x.cs.goEvents[name] {
		e := x.envFor(a, st, nil)
		sv := e.eval(g.Expr)
		x.gget(st, g.Ghost)
		x.gset(st, g.Ghost, sv.v.t)
	}
	var f *ssa.Function
	var binds []*Val
	if cl, ok := fnByTerm[args[0].t]; ok {
		f, binds = cl.fn, cl.binds
	}
	if sf := c.StaticCallee(); sf != nil {
		f = sf
	}
	if f != nil {
		if con, ok := x.cs.funcs[name]; ok && !con.Inline {
			st2 := st.clone()
			for _, g := range x.cs.goStates[name] {
				t := x.envFor(a, st, nil).eval(g.Expr).v.t
				st2.ghost[g.Ghost] = t
			}
			x.checkReqB(a, st2, con, f.Signature, args[1:], binds, in.Pos(), f)
			x.used[con.Key]++
		}
	}
}

// ---------- locks ----------

func (x *Exec) heldTerm(st *State, class string, ref *Term, write bool) *Term {
	var gs []*Term
	for _, l := range st.locks {
		if l.key == class && (!write || l.mode == "w") {
			gs = append(gs, Eq(l.ref, ref))
		}
	}
	return Or(gs...)
}

func (x *Exec) heldAny(st *State, class string, write bool) bool {
	for _, l := range st.locks {
		if l.key == class && (!write || l.mode == "w") {
			return true
		}
	}
	return false
}

func (x *Exec) lockOp(a *act, st *State, p *Val, op string, pos token.Pos) {
	l := p.loc
	if l == nil {
		x.safe(st, a, "nil-deref", Not(Eq(p.t, Int(0))), pos)
		return
	}
	if l.idx != nil {
		return
	}
	id := l.key + "#" + fmt.Sprint(l.ref.id)
	g := x.cs.guards[l.key]
	mode := "w"
	if op == "RLock" || op == "RUnlock" {
		mode = "r"
	}
	switch op {
	case "Lock", "RLock":
		if x.nonblock() && !x.cs.shortLocks[l.key] {
			x.check(st, a, "nonblocking", op+" "+l.key, tFalse, pos)
		}
		if _, held := st.locks[id]; held && x.root.Flags["lockcheck"] {
			x.check(st, a, "lock-order", "relock "+l.key, tFalse, pos)
		}
		if x.root.Flags["lockcheck"] {
			x.lockOrder(a, st, l, pos)
		}
		hl := &heldLock{l.key, l.ref, mode, nil}
		st.locks[id] = hl
		if g != nil {
			pre := st.clone()
			x.lockHavoc(a, st, g, l)
			x.stable(pre, st)
			if st.atlock == nil {
				st.atlock = st.clone()
			}
			if x.root != nil {
				x.ghostAssignOn(st, a, x.root.OnLock, g, l, pos)
			}
			if len(g.Guarantees) > 0 {
				st.locks[id] = &heldLock{l.key, l.ref, mode, st.clone()}
			}
		}
	case "Unlock", "RUnlock":
		if g != nil {
			if x.root != nil {
				x.ghostAssignOn(st, a, x.root.OnUnlock, g, l, pos)
			}
			st.atunlock = st.clone()
		}
		if g != nil && mode == "w" {
			x.lockInv(a, st, g, l, true, pos)
			if h := st.locks[id]; h != nil && h.snap != nil && !x.root.Flags["noguarantee"] {
				self := &SV{v: scalar(l.ref, types.NewPointer(g.Type)), t: types.NewPointer(g.Type)}
				env := &Env{x: x, st: st, old: h.snap, vars: map[string]*SV{g.Self: self}, pkg: x.cs.pkgOf(g.Pkg)}
				for _, c := range g.Guarantees {
					x.check(st, a, "guarantee", g.Class+":"+c.Label, x.evalClause(c, env), pos)
				}
			}
		}
		h, ok := st.locks[id]
		if x.root.Flags["lockcheck"] {
			x.check(st, a, "lock-balance", op+" "+l.key, Bool(ok && h.mode == mode), pos)
		}
		delete(st.locks, id)
	}
}

// rootEnv evaluates clauses of the function under verification in state st.
func (x *Exec) rootEnv(st *State) *Env {
	e := &Env{x: x, st: st, old: x.rootEntry, vars: map[string]*SV{}, pkg: x.rootFn.Pkg.Pkg, con: x.root}
	for k, v := range x.rootVars {
		e.vars[k] = v
	}
	return e
}

// ghostAssignOn: assignments at a lock operation; lockee is the object locked.
func (x *Exec) ghostAssignOn(st *State, a *act, gs []*goEvent, g *Guard, l *Loc, pos token.Pos) {
	old, had := x.rootVars["lockee"]
	x.rootVars["lockee"] = &SV{v: scalar(l.ref, types.NewPointer(g.Type)), t: types.NewPointer(g.Type)}
	x.ghostAssign(st, a, gs, pos)
	if had {
		x.rootVars["lockee"] = old
	} else {
		delete(x.rootVars, "lockee")
	}
}

func (x *Exec) ghostAssign(st *State, a *act, gs []*goEvent, pos token.Pos) {
	for _, g := range gs {
		x.silent++
		t := x.rootEnv(st).eval(g.Expr).v.t
		x.silent--
		x.gget(st, g.Ghost)
		x.gset(st, g.Ghost, t)
		x.ghostFrame(st, a, g.Ghost, pos)
	}
}

// stable: the declared facts survive the interference of other goroutines.
func (x *Exec) stable(pre, st *State) {
	if x.root == nil {
		return
	}
	for _, c := range x.root.Stable {
		x.trust["stable:"+x.root.Key+": "+c.Src]++
		st.assume(Implies(x.evalClause(c, x.rootEnv(pre)), x.evalClause(c, x.rootEnv(st))))
	}
}

func (x *Exec) lockOrder(a *act, st *State, l *Loc, pos token.Pos) {
	// declared order: every held class must be below the acquired one
	lv, ok := x.cs.lockLevel[l.key]
	if !ok {
		return
	}
	for _, h := range st.locks {
		if h.key == l.key && x.cs.lockNested[l.key] {
			continue // parent-to-child locking within a tree
		}
		if hl, ok := x.cs.lockLevel[h.key]; ok && hl >= lv {
			x.check(st, a, "lock-order", h.key+" then "+l.key, tFalse, pos)
		}
	}
}

func (x *Exec) lockHavoc(a *act, st *State, g *Guard, l *Loc) {
	self := &SV{v: scalar(l.ref, types.NewPointer(g.Type)), t: types.NewPointer(g.Type)}
	env := &Env{x: x, st: st, old: st, vars: map[string]*SV{g.Self: self}, pkg: x.cs.pkgOf(g.Pkg)}
	if !(l.ref.fresh && x.alloc0 != nil && l.ref.stamp > x.alloc0.stamp) {
		allocPre := st.alloc
		st.alloc = NewVar("alloc", "Int")
		st.fact(Le(allocPre, st.alloc))
		for _, f := range g.Fields {
			fl := x.fieldByName(g.Type, l.ref, f)
			for _, c := range layout(fl.typ) {
				h := x.hget(st, fl.key+c.suffix, ArrSort("Int", c.sort))
				nv := NewVar("lk."+f+c.suffix, c.sort)
				paramOrigin[nv] = fl.key + c.suffix
				x.hset(st, fl.key+c.suffix, Store(h, l.ref, nv), l.ref)
			}
			v := x.load(st, fl)
			ft := fl.typ
			if bn := g.BoxedMaps[f]; bn != "" {
				// only when the field holds such a map: elsewhere the payload is not a map reference
				ft = env.resolveType(mustExpr(bn, g.Class))
				m := under(ft).(*types.Map)
				is, r := x.dynIs(v.t, ft), AnyVal(v.t, payloadSort(ft))
				ks := x.keySort(m)
				hv := func(key, srt string) {
					h := x.hget(st, key, ArrSort("Int", srt))
					x.hset(st, key, Store(h, r, Ite(is, NewVar("lk."+key, srt), Select(h, r))), r)
				}
				hv(mapKey(m)+".dom", ArrSort(ks, "Bool"))
				for _, c := range layout(m.Elem()) {
					hv(mapKey(m)+".val"+c.suffix, ArrSort(ks, c.sort))
				}
				hv(mapKey(m)+".len", "Int")
				continue
			}
			if m, ok := under(ft).(*types.Map); ok {
				ks := x.keySort(m)
				x.storeWholeVar(st, mapKey(m)+".dom", ArrSort(ks, "Bool"), v.t)
				for _, c := range layout(m.Elem()) {
					x.storeWholeVar(st, mapKey(m)+".val"+c.suffix, ArrSort(ks, c.sort), v.t)
				}
				x.storeWholeVar(st, mapKey(m)+".len", "Int", v.t)
			}
			if s, ok := under(fl.typ).(*types.Slice); ok {
				for _, c := range layout(s.Elem()) {
					x.storeWholeVar(st, elemKey(s.Elem())+c.suffix, ArrSort("Int", c.sort), v.comps[0].t)
				}
			}
		}
		for _, m := range g.All {
			x.silent++
			items := x.evalMod(m.Expr, env)
			x.silent--
			for _, it := range items {
				base := x.hget(st, it.key, it.sort)
				x.hset(st, it.key, NewVar("lk."+it.key, base.sort), nil)
			}
		}
		for _, gn := range g.Ghosts {
			x.gget(st, gn)
			x.gset(st, gn, NewVar("lk."+gn, x.cs.ghosts[gn]))
		}
	}
	for _, c := range g.Invs {
		st.assume(x.evalClause(c, env))
	}
}

func (x *Exec) storeWholeVar(st *State, key, srt string, ref *Term) {
	h := x.hget(st, key, ArrSort("Int", srt))
	x.hset(st, key, Store(h, ref, NewVar("lk."+key, srt)), ref)
}

func (x *Exec) lockInv(a *act, st *State, g *Guard, l *Loc, check bool, pos token.Pos) {
	self := &SV{v: scalar(l.ref, types.NewPointer(g.Type)), t: types.NewPointer(g.Type)}
	env := &Env{x: x, st: st, old: st, vars: map[string]*SV{g.Self: self}, pkg: x.cs.pkgOf(g.Pkg)}
	for i, c := range g.Invs {
		lbl := c.Label
		if lbl == "" {
			lbl = fmt.Sprint(i + 1)
		}
		x.check(st, a, "monitor-inv", g.Class+":"+lbl, x.evalClause(c, env), pos)
	}
}

func (x *Exec) fieldByName(t types.Type, ref *Term, name string) *Loc {
	s := under(t).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return &Loc{key: objKey(t) + "." + name, ref: ref, typ: s.Field(i).Type()}
		}
	}
	panic(unsupported("no field " + name + " in " + t.String()))
}

func (x *Exec) guardCheck(st *State, a *act, l *Loc, write bool, pos token.Pos) {
	if x.silent > 0 || l.idx != nil {
		return
	}
	g, ok := x.cs.guarded[l.key]
	if !ok {
		if g, ok := x.cs.guardedAny[l.key]; ok && !x.root.Flags["noguard"] && !(l.ref.fresh && x.alloc0 != nil && l.ref.stamp > x.alloc0.stamp) {
			x.check(st, a, "guarded-by", fmt.Sprintf("%s by %s@%s", l.key, g.Class, fnName(a.fn)), Bool(x.heldAny(st, g.Class, write && !g.ReadOnlyWrites)), pos)
		}
		return
	}
	if x.root.Flags["noguard"] {
		return
	}
	if l.ref.fresh && x.alloc0 != nil && l.ref.stamp > x.alloc0.stamp {
		return
	}
	w := write && !g.ReadOnlyWrites
	x.check(st, a, "guarded-by", fmt.Sprintf("%s by %s@%s", l.key, g.Class, fnName(a.fn)), x.heldTerm(st, g.Class, l.ref, w), pos)
}

func (x *Exec) mapGuard(st *State, a *act, m ssa.Value, write bool, pos token.Pos) {
	for {
		switch y := m.(type) {
		case *ssa.Extract:
			m = y.Tuple
			continue
		case *ssa.TypeAssert:
			m = y.X
			continue
		case *ssa.ChangeType:
			m = y.X
			continue
		}
		break
	}
	if u, ok := m.(*ssa.UnOp); ok && u.Op == token.MUL {
		if v, ok := a.env[u.X]; ok && v.loc != nil {
			x.guardCheck(st, a, v.loc, write, pos)
		}
	}
}

// ---------- models of library functions ----------

type model func(x *Exec, a *act, st *State, f *ssa.Function, args []*Val, pos token.Pos) []Outcome

var models map[string]model

func init() {
	lock := func(op string) model {
		return func(x *Exec, a *act, st *State, f *ssa.Function, args []*Val, pos token.Pos) []Outcome {
			x.lockOp(a, st, args[0], op, pos)
			return []Outcome{{st: st}}
		}
	}
	newErr := func(x *Exec, a *act, st *State, f *ssa.Function, args []*Val, pos token.Pos) []Outcome {
		r := x.newRef(st, "err")
		t := AnyBox(Int(int64(typeTag(SpecT("errval")))), r)
		if f.Name() == "Errorf" && f.Package() != nil && f.Package().Pkg.Name() == "status" {
			x.storeWhole(st, "status.code", "", r, args[0].t)
			t = AnyBox(Int(int64(typeTag(SpecT("statuserr")))), r)
		}
		return x.ret1(st, scalar(t, f.Signature.Results().At(0).Type()))
	}
	noop := func(x *Exec, a *act, st *State, f *ssa.Function, args []*Val, pos token.Pos) []Outcome {
		return []Outcome{{st: st, rets: x.results(st, f.Signature, "r")}}
	}
	models = map[string]model{
		"(*sync.Mutex).Lock":                     lock("Lock"),
		"(*sync.Mutex).Unlock":                   lock("Unlock"),
		"(*sync.RWMutex).Lock":                   lock("Lock"),
		"(*sync.RWMutex).Unlock":                 lock("Unlock"),
		"(*sync.RWMutex).RLock":                  lock("RLock"),
		"(*sync.RWMutex).RUnlock":                lock("RUnlock"),
		"errors.New":                             newErr,
		"fmt.Errorf":                             newErr,
		"google.golang.org/grpc/status.Errorf":   newErr,
		"google.golang.org/grpc/status.Error":    newErr,
		"github.com/golang/glog.Errorf":          noop,
		"github.com/golang/glog.Infof":           noop,
		"github.com/golang/glog.Info":            noop,
		"github.com/golang/glog.Error":           noop,
		"github.com/golang/glog.Warningf":        noop,
		"github.com/golang/glog.V":               noop,
		"(github.com/golang/glog.Verbose).Infof": noop,
		"(github.com/golang/glog.Verbose).Info":  noop,
		"(*sync.Once).Do": func(x *Exec, a *act, st *State, f *ssa.Function, args []*Val, pos token.Pos) []Outcome {
			l := args[0].loc
			if l == nil {
				l = &Loc{key: "cell.sync.Once", ref: args[0].t}
			}
			k := l.key + ".$done"
			h := x.hget(st, k, ArrSort("Int", "Bool"))
			d := Select(h, l.ref)
			var outs []Outcome
			s1 := st.clone()
			s1.assume(d)
			if !x.infeasible(s1) {
				outs = append(outs, Outcome{st: s1})
			}
			st.assume(Not(d))
			if !x.infeasible(st) {
				x.hset(st, k, Store(h, l.ref, tTrue), l.ref)
				cl, ok := fnByTerm[args[1].t]
				if !ok {
					panic(unsupported("once.Do of unknown function"))
				}
				outs = append(outs, x.callFn(a, st, cl.fn, nil, cl.binds, pos)...)
			}
			return outs
		},
		"strings.HasPrefix": func(x *Exec, a *act, st *State, f *ssa.Function, args []*Val, pos token.Pos) []Outcome {
			return x.ret1(st, scalar(App("str.hasprefix$", "Bool", args[0].t, args[1].t), f.Signature.Results().At(0).Type()))
		},
	}
}
