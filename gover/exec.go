package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Exec struct {
	cs         *Contracts
	prog       *ssa.Program
	root       *Contract
	rootFn     *ssa.Function
	rootEntry  *State
	rootVars   map[string]*SV
	obs        []*Obligation
	recs       []*recorder
	stops      []*stopper
	heapSorts  map[string]string
	exact      bool
	rangeFacts bool
	safety     bool
	wirewf     bool
	pr         *pruner
	trust      map[string]int
	inlined    map[string]int
	used       map[string]int
	axioms     []*Term
	allowed    []allowW
	frameAny   bool
	alloc0     *Term
	paths      int
	steps      int
	silent     int // >0: evaluating specs, emit no obligations
	lemmas     []string
}

type allowW struct {
	key string // exact key or prefix (key + ".")
	ref *Term  // nil: any object
}

type Loop struct {
	hdr    *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
}

var loopMemo = map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}

func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	if m, ok := loopMemo[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := m[s]
				if l == nil {
					l = &Loop{hdr: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					m[s] = l
				}
				var st []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					c := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range c.Preds {
						if !l.blocks[p] {
							l.blocks[p] = true
							st = append(st, p)
						}
					}
				}
			}
		}
	}
	var hs []*Loop
	for _, l := range m {
		hs = append(hs, l)
	}
	sort.Slice(hs, func(i, j int) bool {
		pi, pj := loopPos(hs[i]), loopPos(hs[j])
		if pi != pj {
			return pi < pj
		}
		return hs[i].hdr.Index < hs[j].hdr.Index
	})
	for i, l := range hs {
		l.ord = i + 1
	}
	loopMemo[fn] = m
	return m
}

func loopPos(l *Loop) token.Pos {
	best := token.NoPos
	for b := range l.blocks {
		for _, i := range b.Instrs {
			if p := i.Pos(); p.IsValid() && (best == token.NoPos || p < best) {
				if _, isPhi := i.(*ssa.Phi); isPhi {
					continue
				}
				best = p
			}
		}
	}
	return best
}

func (x *Exec) ob(st *State, a *act, kind, label string, goal *Term, pos token.Pos) {
	if x.silent > 0 {
		return
	}
	if goal == tTrue || st.dead {
		// still count it: discharged by the simplifier
		goal = tTrue
	}
	o := &Obligation{Fn: x.root.Key, Kind: kind, Name: x.root.Key + "/" + kind + ":" + label, goal: goal, pc: st.pcTerms(), axioms: x.axioms, Props: x.root.Props}
	if pos.IsValid() {
		p := x.prog.Fset.Position(pos)
		f := p.Filename
		if i := strings.Index(f, "/repo/"); i >= 0 {
			f = f[i+6:]
		}
		o.Pos = fmt.Sprintf("%s:%d", f, p.Line)
	}
	if goal == tTrue {
		o.pc = nil
	}
	if n := len(x.recs); n > 0 {
		x.recs[n-1].obs = append(x.recs[n-1].obs, o)
	} else {
		x.obs = append(x.obs, o)
	}
}

// check emits an obligation and assumes it afterwards.
func (x *Exec) check(st *State, a *act, kind, label string, goal *Term, pos token.Pos) {
	x.ob(st, a, kind, label, goal, pos)
	st.assume(goal)
}

// safe: run-time panic condition must be impossible (emitted only in safety mode; always assumed).
func (x *Exec) safe(st *State, a *act, what string, cond *Term, pos token.Pos) {
	if cond == tTrue {
		return
	}
	if x.safety && x.silent == 0 {
		x.check(st, a, "safety", what+"@"+fnName(a.fn), cond, pos)
		return
	}
	st.assume(cond)
}

func (x *Exec) newAct(fn *ssa.Function, args []*Val, st *State, depth int, caller *act) *act {
	actIDs++
	a := &act{id: actIDs, fn: fn, env: map[ssa.Value]*Val{}, names: map[string]*nameB{}, loops: map[*ssa.BasicBlock]*loopCtx{}, depth: depth, iters: map[ssa.Value]string{}, args: args, entry: st, caller: caller}
	for i, p := range fn.Params {
		a.env[p] = args[i]
		a.names[p.Name()] = &nameB{v: args[i]}
	}
	a.con = x.cs.funcs[fnName(fn)]
	return a
}

func (x *Exec) runFn(fn *ssa.Function, args []*Val, binds []*Val, st *State, depth int, caller *act) []Outcome {
	if depth > 40 {
		panic(unsupported("inlining too deep at " + fnName(fn)))
	}
	a := x.newAct(fn, args, st.clone(), depth, caller)
	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			a.env[fv] = binds[i]
			a.names[fv.Name()] = &nameB{v: binds[i], addr: true, pos: fv.Pos()}
		}
	}
	return x.enter(a, st, fn.Blocks[0], nil)
}

func (x *Exec) enter(a *act, st *State, b, pred *ssa.BasicBlock) []Outcome {
	if st.dead {
		return nil
	}
	if !genDeadline.IsZero() && time.Now().After(genDeadline) {
		panic(unsupported("generation deadline reached"))
	}
	if n := len(x.stops); n > 0 && x.stops[n-1].id == a.id && x.stops[n-1].b == b {
		sp := x.stops[n-1]
		sp.arr = append(sp.arr, &joined{a, st, b, x.phiVals(a, b, pred)})
		return nil
	}
	if n := len(x.recs); n > 0 && x.recs[n-1].loop != nil && x.recs[n-1].id == a.id && !x.recs[n-1].loop.blocks[b] {
		x.recs[n-1].exits = append(x.recs[n-1].exits, loopExit{a, st, b, pred})
		return nil
	}
	for h, lc := range a.loops {
		if !lc.loop.blocks[b] {
			delete(a.loops, h)
		}
	}
	if l, ok := loopsOf(a.fn)[b]; ok {
		if lc, active := a.loops[b]; active {
			x.loopBack(a, st, lc, pred)
			return nil
		}
		return x.loopEnter(a, st, l, pred)
	}
	x.phis(a, st, b, pred)
	return x.instrs(a, st, b, firstNonPhi(b))
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func (x *Exec) phiVals(a *act, b, pred *ssa.BasicBlock) map[*ssa.Phi]*Val {
	m := map[*ssa.Phi]*Val{}
	if pred == nil {
		return m
	}
	pi := -1
	for i, p := range b.Preds {
		if p == pred {
			pi = i
		}
	}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		m[p] = x.val(a, p.Edges[pi])
	}
	return m
}

func (x *Exec) phis(a *act, st *State, b, pred *ssa.BasicBlock) {
	for p, v := range x.phiVals(a, b, pred) {
		x.bindPhi(a, p, v)
	}
}

func (x *Exec) bindPhi(a *act, p *ssa.Phi, v *Val) {
	a.env[p] = v
	if p.Comment != "" {
		a.names[p.Comment] = &nameB{v: v}
	}
}

// ---------- loops ----------

func (x *Exec) loopSpec(fn *ssa.Function, ord int) *LoopSpec {
	if c, ok := x.cs.funcs[fnName(fn)]; ok {
		if s, ok := c.Loops[ord]; ok {
			return s
		}
	}
	return nil
}

// induction: phi with constant init and step; returns init, step.
func induction(p *ssa.Phi, l *Loop) (int64, int64, bool) {
	if b, ok := under(p.Type()).(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return 0, 0, false
	}
	var init, step int64
	haveI, haveS := false, false
	for i, e := range p.Edges {
		if l.blocks[p.Block().Preds[i]] {
			bo, ok := e.(*ssa.BinOp)
			if !ok || (bo.Op != token.ADD && bo.Op != token.SUB) || bo.X != ssa.Value(p) {
				return 0, 0, false
			}
			c, ok := bo.Y.(*ssa.Const)
			if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
				return 0, 0, false
			}
			s := c.Int64()
			if bo.Op == token.SUB {
				s = -s
			}
			if haveS && s != step {
				return 0, 0, false
			}
			step, haveS = s, true
		} else {
			c, ok := e.(*ssa.Const)
			if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
				return 0, 0, false
			}
			if haveI && c.Int64() != init {
				return 0, 0, false
			}
			init, haveI = c.Int64(), true
		}
	}
	return init, step, haveI && haveS
}

func (x *Exec) loopInvs(a *act, st *State, lc *loopCtx, kind string, pos token.Pos) {
	if lc.spec == nil {
		return
	}
	for i, c := range lc.spec.Invs {
		lbl := c.Label
		if lbl == "" {
			lbl = fmt.Sprint(i + 1)
		}
		g := x.evalClause(c, x.envFor(a, st, lc))
		if kind == "assume" {
			st.assume(g)
		} else {
			x.check(st, a, kind, fmt.Sprintf("%sloop%d:%s", inlTag(x, a), lc.ord, lbl), g, pos)
		}
	}
}

func inlTag(x *Exec, a *act) string {
	if a.fn == x.rootFn {
		return ""
	}
	return "[" + fnName(a.fn) + "]"
}

func (x *Exec) loopBack(a *act, st *State, lc *loopCtx, pred *ssa.BasicBlock) {
	for p, v := range x.phiVals(a, lc.hdr, pred) {
		x.bindPhi(a, p, v)
	}
	kn := iterName(a, lc)
	x.gset(st, kn, Add(st.ghost[kn], Int(1)))
	x.loopInvs(a, st, lc, "inv-preserved", loopPos(lc.loop))
	x.autoInvCheck(a, st, lc)
	x.paths++
}

func iterName(a *act, lc *loopCtx) string {
	return fmt.Sprintf("$k.%s.%d", fnName(a.fn), lc.ord)
}

func (x *Exec) loopEnter(a *act, st *State, l *Loop, pred *ssa.BasicBlock) []Outcome {
	lc := &loopCtx{hdr: l.hdr, loop: l, ord: l.ord, fn: a.fn, spec: x.loopSpec(a.fn, l.ord)}
	phi0 := x.phiVals(a, l.hdr, pred)
	lc.phi0 = phi0
	for p, v := range phi0 {
		x.bindPhi(a, p, v)
	}
	kn := iterName(a, lc)
	if x.cs.ghosts[kn] == "" {
		x.cs.ghosts[kn] = "Int"
	}
	// range iterators used in this loop
	st.ghost[kn] = Int(0)
	x.gset(st, kn, Int(0))
	lc.pre = st.clone()
	a.loops[l.hdr] = lc
	x.loopInvs(a, st, lc, "inv-init", loopPos(l))
	s0 := nextStamp()
	W := &recorder{heap: map[string]*writeRec{}, ghost: map[string]bool{kn: true}, sorts: map[string]string{}, s0: s0}
	for round := 0; round < 8; round++ {
		a2, st2 := a.clone(), st.clone()
		x.havocLoop(a2, st2, lc, W, phi0)
		rec := &recorder{heap: map[string]*writeRec{}, ghost: map[string]bool{}, sorts: map[string]string{}, s0: s0, loop: l, id: a.id}
		x.recs = append(x.recs, rec)
		savedPaths := x.paths
		outs := x.instrs(a2, st2, l.hdr, firstNonPhi(l.hdr))
		x.recs = x.recs[:len(x.recs)-1]
		grew := false
		for k, w := range rec.heap {
			o := W.heap[k]
			if o == nil {
				o = &writeRec{refs: map[*Term]bool{}}
				W.heap[k] = o
				W.sorts[k] = rec.sorts[k]
				grew = true
			}
			if w.full && !o.full {
				o.full = true
				grew = true
			}
			for r := range w.refs {
				if !o.refs[r] && !o.full {
					o.refs[r] = true
					grew = true
				}
			}
		}
		for g := range rec.ghost {
			if !W.ghost[g] {
				W.ghost[g] = true
				grew = true
			}
		}
		if !grew {
			if n := len(x.recs); n > 0 {
				x.recs[n-1].obs = append(x.recs[n-1].obs, rec.obs...)
			} else {
				x.obs = append(x.obs, rec.obs...)
			}
			for _, e := range rec.exits {
				outs = append(outs, x.enter(e.a, e.st, e.b, e.pred)...)
			}
			return outs
		}
		x.paths = savedPaths
	}
	panic(unsupported("loop write set does not stabilise in " + fnName(a.fn)))
}

func (x *Exec) havocLoop(a *act, st *State, lc *loopCtx, W *recorder, phi0 map[*ssa.Phi]*Val) {
	allocPre := st.alloc
	st.alloc = NewVar("alloc", "Int")
	st.fact(Le(allocPre, st.alloc))
	var keys []string
	for k := range W.heap {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		w := W.heap[k]
		srt := W.sorts[k]
		base := x.hget(st, k, srt)
		x.havocKey(st, k, base, w.full, w.refs, W.s0, allocPre)
	}
	var gs []string
	for g := range W.ghost {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		srt := x.cs.ghosts[g]
		if o, ok := st.ghost[g]; ok {
			srt = o.sort
		}
		if srt == "" {
			continue // created inside the loop
		}
		x.gset(st, g, NewVar("g."+g, srt))
	}
	kn := iterName(a, lc)
	st.fact(Le(Int(0), st.ghost[kn]))
	for _, in := range lc.hdr.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := freshVal(p.Name()+"."+p.Comment, p.Type())
		if init, step, ok := induction(p, lc.loop); ok {
			// phi = init + step*k
			v = scalar(Add(Int(init), Mul(Int(step), st.ghost[kn])), p.Type())
		} else if invariantPhi(p, lc.loop) {
			v = phi0[p]
		} else {
			x.wf(st, v, p.Type())
		}
		x.bindPhi(a, p, v)
	}
	x.autoInvAssume(a, st, lc)
	x.loopInvs(a, st, lc, "assume", token.NoPos)
}

func invariantPhi(p *ssa.Phi, l *Loop) bool {
	for i, e := range p.Edges {
		if l.blocks[p.Block().Preds[i]] && e != ssa.Value(p) {
			return false
		}
	}
	return true
}

func (x *Exec) havocKey(st *State, k string, base *Term, full bool, refs map[*Term]bool, s0 int, allocPre *Term) {
	f := NewVar("F."+k, base.sort)
	if full {
		x.hset(st, k, f, nil)
		return
	}
	f.fbase = base
	f.fstamp = s0
	frameAllocs[f] = allocPre
	var arr = f
	var rs []*Term
	for r := range refs {
		rs = append(rs, r)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
	el := mustElem(base.sort)
	for _, r := range rs {
		arr = Store(arr, r, NewVar("h."+k, el))
	}
	x.heapSorts[k] = arr.sort
	st.heap[k] = arr
	for _, rc := range x.recs {
		w := rc.heap[k]
		if w == nil {
			w = &writeRec{refs: map[*Term]bool{}}
			rc.heap[k] = w
			rc.sorts[k] = arr.sort
		}
		for _, r := range rs {
			if r.stamp <= rc.s0 && !(r.fresh && r.stamp > rc.s0) {
				w.refs[r] = true
			} else if !(r.fresh && r.stamp > rc.s0) {
				w.full = true
			}
		}
	}
}

// bound pattern: header ends in If on (phi [+c]) < L, L defined outside, loop on true branch.
func (x *Exec) autoBound(a *act, lc *loopCtx) (phi *ssa.Phi, bnd ssa.Value, add int64, ok bool) {
	h := lc.hdr
	iff, isIf := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !isIf || !lc.loop.blocks[h.Succs[0]] || lc.loop.blocks[h.Succs[1]] {
		return
	}
	bo, isB := iff.Cond.(*ssa.BinOp)
	if !isB || bo.Op != token.LSS {
		return
	}
	bnd = bo.Y
	if in, isI := bnd.(ssa.Instruction); isI && lc.loop.blocks[in.Block()] {
		return nil, nil, 0, false
	}
	switch v := bo.X.(type) {
	case *ssa.Phi:
		phi = v
	case *ssa.BinOp:
		p, isP := v.X.(*ssa.Phi)
		c, isC := v.Y.(*ssa.Const)
		if v.Op != token.ADD || !isP || !isC || c.Value == nil {
			return nil, nil, 0, false
		}
		phi, add = p, c.Int64()
	default:
		return nil, nil, 0, false
	}
	if phi.Block() != h {
		return nil, nil, 0, false
	}
	init, step, isInd := induction(phi, lc.loop)
	if !isInd || step != 1 || init+add > 0 {
		return nil, nil, 0, false
	}
	return phi, bnd, add, true
}

// autoInv: phi+add <= max(bound,0)  (valid: step 1, starts at <=0, guarded by phi+add < bound)
func (x *Exec) autoInvAssume(a *act, st *State, lc *loopCtx) {
	phi, bnd, add, ok := x.autoBound(a, lc)
	if !ok {
		return
	}
	b := x.val(a, bnd).t
	p := a.env[phi].t
	st.fact(Or(Le(Add(p, Int(add)), Int(0)), Le(Add(p, Int(add)), b)))
}
func (x *Exec) autoInvCheck(a *act, st *State, lc *loopCtx) {}

// ---------- values ----------

var fnConsts = map[string]*Term{}
var fnByTerm = map[*Term]*closure{}
var fnCtr int64 = 1000

type closure struct {
	fn    *ssa.Function
	binds []*Val
}

func fnTerm(f *ssa.Function) *Term {
	k := f.String()
	if t, ok := fnConsts[k]; ok {
		return t
	}
	fnCtr++
	t := Int(-fnCtr)
	fnConsts[k] = t
	fnByTerm[t] = &closure{fn: f}
	return t
}

func realLit(r *big.Rat) *Term {
	s := ""
	n, d := r.Num(), r.Denom()
	num := new(big.Int).Abs(n).String() + ".0"
	if d.IsInt64() && d.Int64() == 1 {
		s = num
	} else {
		s = "(/ " + num + " " + d.String() + ".0)"
	}
	if n.Sign() < 0 {
		s = "(- " + s + ")"
	}
	return mk("real", s, "Flt")
}

func (x *Exec) val(a *act, v ssa.Value) *Val {
	switch c := v.(type) {
	case *ssa.Const:
		return constVal(c)
	case *ssa.Global:
		el := c.Type().(*types.Pointer).Elem()
		return &Val{loc: &Loc{key: "g." + shortPkg(c.Pkg.Pkg.Path()) + "." + c.Name(), ref: Int(0), typ: el}, typ: c.Type()}
	case *ssa.Function:
		return scalar(fnTerm(c), c.Type())
	case *ssa.Builtin:
		return scalar(Int(-1), c.Type())
	}
	r, ok := a.env[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("no value for %s in %s", v.Name(), fnName(a.fn))))
	}
	return r
}

func constVal(c *ssa.Const) *Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	if b, ok := under(t).(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return scalar(Bool(constant.BoolVal(c.Value)), t)
		case b.Info()&types.IsInteger != 0:
			n, _ := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			return scalar(BigInt(n), t)
		case b.Info()&types.IsString != 0:
			return scalar(StrLit(constant.StringVal(c.Value)), t)
		case b.Info()&types.IsFloat != 0:
			r, ok := new(big.Rat).SetString(constant.ToFloat(c.Value).ExactString())
			if ok {
				return scalar(realLit(r), t)
			}
		}
	}
	panic(unsupported("constant " + c.String()))
}

// constGlobal: package-level error variables are distinct constants.
var errGlobals = map[string]*Term{}

func (x *Exec) constGlobal(l *Loc) (*Val, bool) {
	if !strings.HasPrefix(l.key, "g.") || l.idx != nil {
		return nil, false
	}
	if types.TypeString(l.typ, nil) != "error" {
		return nil, false
	}
	t, ok := errGlobals[l.key]
	if !ok {
		fnCtr++
		t = AnyBox(Int(int64(typeTag(SpecT("errvar")))), Int(-fnCtr))
		errGlobals[l.key] = t
	}
	return scalar(t, l.typ), true
}

// ---------- instructions ----------

func (x *Exec) fork(a *act, st *State, cond *Term, b *ssa.BasicBlock, t, f *ssa.BasicBlock) []Outcome {
	var outs []Outcome
	if cond == tTrue {
		return x.enter(a, st, t, b)
	}
	if cond == tFalse {
		return x.enter(a, st, f, b)
	}
	st2 := st.clone()
	a2 := a.clone()
	st.assume(cond)
	st2.assume(Not(cond))
	inf1 := x.infeasible(st)
	if inf1 {
		return x.enter(a2, st2, f, b)
	}
	if !x.infeasible(st2) {
		if m := x.joinOf(a, b); m != nil {
			sp := &stopper{id: a.id, b: m}
			base := st.pc.prev
			x.stops = append(x.stops, sp)
			outs = append(outs, x.enter(a, st, t, b)...)
			outs = append(outs, x.enter(a2, st2, f, b)...)
			x.stops = x.stops[:len(x.stops)-1]
			for _, g := range x.joinStates(base, sp) {
				outs = append(outs, x.resume(g)...)
			}
			return outs
		}
		outs = append(outs, x.enter(a, st, t, b)...)
		outs = append(outs, x.enter(a2, st2, f, b)...)
		return outs
	}
	return x.enter(a, st, t, b)
}

// stopper collects the states arriving at the join of a branch.
type stopper struct {
	id  int
	b   *ssa.BasicBlock
	arr []*joined
}

// joinOf: the block where the two branches of b meet again, if the blocks between are loop free.
func (x *Exec) joinOf(a *act, b *ssa.BasicBlock) *ssa.BasicBlock {
	if x.root == nil || !x.root.Flags["merge"] {
		return nil
	}
	if m, ok := joinMemo[b]; ok {
		return m
	}
	loops := loopsOf(b.Parent())
	reach := func(from, without *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(c *ssa.BasicBlock)
		walk = func(c *ssa.BasicBlock) {
			if c == without || seen[c] {
				return
			}
			seen[c] = true
			for _, s := range c.Succs {
				walk(s)
			}
		}
		walk(from)
		return seen
	}
	var best *ssa.BasicBlock
	for _, m := range b.Parent().DomPreorder() {
		if m == b || len(m.Preds) < 2 || loops[m] != nil || !b.Dominates(m) {
			continue
		}
		ok := true
		for _, l := range loops {
			if l.blocks[b] != l.blocks[m] {
				ok = false
			}
		}
		A, B, M := reach(b.Succs[0], m), reach(b.Succs[1], m), reach(m, nil)
		if !ok || M[b] && len(loops) == 0 {
			continue
		}
		hit := false
		for _, p := range m.Preds {
			hit = hit || A[p] || B[p] || p == b
		}
		for c := range A {
			ok = ok && !M[c] && loops[c] == nil
		}
		for c := range B {
			ok = ok && !M[c] && loops[c] == nil
		}
		if ok && hit {
			best = m
			break
		}
	}
	joinMemo[b] = best
	return best
}

var joinMemo = map[*ssa.BasicBlock]*ssa.BasicBlock{}

// joined is a state at a join with the values of its phis.
type joined struct {
	a    *act
	st   *State
	b    *ssa.BasicBlock
	phis map[*ssa.Phi]*Val
}

func (x *Exec) resume(j *joined) []Outcome {
	if n := len(x.stops); n > 0 && x.stops[n-1].id == j.a.id && x.stops[n-1].b == j.b {
		x.stops[n-1].arr = append(x.stops[n-1].arr, j)
		return nil
	}
	for h, lc := range j.a.loops {
		if !lc.loop.blocks[j.b] {
			delete(j.a.loops, h)
		}
	}
	for p, v := range j.phis {
		x.bindPhi(j.a, p, v)
	}
	return x.instrs(j.a, j.st, j.b, firstNonPhi(j.b))
}

func (x *Exec) joinStates(base *PC, sp *stopper) []*joined {
	var js []*joined
	for _, e := range sp.arr {
		if !e.st.dead {
			js = append(js, e)
		}
	}
	if len(js) < 2 {
		return js
	}
	bn := 0
	if base != nil {
		bn = base.n
	}
	first := js[0]
	for _, j := range js[1:] {
		if j.st.atlock != first.st.atlock || j.st.atunlock != first.st.atunlock || len(j.st.locks) != len(first.st.locks) || len(j.a.defers) != len(first.a.defers) {
			return js
		}
		for k, l := range first.st.locks {
			if o := j.st.locks[k]; o == nil || *o != *l {
				return js
			}
		}
		for i := range first.a.defers {
			if j.a.defers[i] != first.a.defers[i] {
				return js
			}
		}
	}
	var out []*joined
	ok := true
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(unsupportedErr); is {
					ok = false
					return
				}
				panic(r)
			}
		}()
		st := first.st.clone()
		st.pc = base
		var conds []*Term
		for _, j := range js {
			var cs, facts []*Term
			for p := j.st.pc; p != nil && p.n > bn; p = p.prev {
				if p.fact {
					facts = append(facts, p.t)
				} else {
					cs = append(cs, p.t)
				}
			}
			for i := len(facts) - 1; i >= 0; i-- {
				st.fact(facts[i])
			}
			conds = append(conds, And(cs...))
		}
		st.assume(Or(conds...))
		n := len(js)
		keys := map[string]bool{}
		for _, j := range js {
			for k := range j.st.heap {
				keys[k] = true
			}
		}
		for k := range keys {
			var srt string
			for _, j := range js {
				if t, ok := j.st.heap[k]; ok {
					srt = t.sort
				}
			}
			get := func(j *joined) *Term {
				if t, ok := j.st.heap[k]; ok {
					return t
				}
				return x.hget(j.st, k, srt)
			}
			t := get(js[n-1])
			for i := n - 2; i >= 0; i-- {
				t = Ite(conds[i], get(js[i]), t)
			}
			st.heap[k] = t
		}
		gk := map[string]bool{}
		for _, j := range js {
			for k := range j.st.ghost {
				gk[k] = true
			}
		}
		for k := range gk {
			skip := false
			for _, j := range js {
				if _, ok := j.st.ghost[k]; !ok && strings.HasPrefix(k, "$") {
					skip = true
				}
			}
			if skip {
				delete(st.ghost, k)
				continue
			}
			t := x.gget(js[n-1].st, k)
			for i := n - 2; i >= 0; i-- {
				t = Ite(conds[i], x.gget(js[i].st, k), t)
			}
			st.ghost[k] = t
		}
		same := true
		for _, j := range js {
			same = same && j.st.alloc == first.st.alloc
		}
		if !same {
			st.alloc = NewVar("alloc", "Int")
			for _, j := range js {
				st.fact(Le(j.st.alloc, st.alloc))
			}
		}
		a := first.a.clone()
		for _, j := range js[1:] {
			for k, v := range j.a.env {
				if _, have := a.env[k]; !have {
					a.env[k] = v
				}
			}
			for k, v := range j.a.iters {
				a.iters[k] = v
			}
		}
		for nm, nb := range first.a.names {
			v := js[n-1].a.names[nm]
			if v == nil {
				delete(a.names, nm)
				continue
			}
			cur, good := v.v, true
			for i := n - 2; i >= 0 && good; i-- {
				o := js[i].a.names[nm]
				if o == nil || o.addr != nb.addr || v.addr != nb.addr || o.obj != nb.obj {
					good = false
					break
				}
				if o.v == cur {
					continue
				}
				if o.addr {
					good = false
					break
				}
				func() {
					defer func() {
						if r := recover(); r != nil {
							good = false
						}
					}()
					cur = iteVal(conds[i], o.v, cur)
				}()
			}
			if !good {
				delete(a.names, nm)
			} else {
				a.names[nm] = &nameB{v: cur, addr: nb.addr, obj: nb.obj, pos: nb.pos}
			}
		}
		phis := map[*ssa.Phi]*Val{}
		for p := range first.phis {
			v := js[n-1].phis[p]
			for i := n - 2; i >= 0; i-- {
				if js[i].phis[p] != v {
					v = iteVal(conds[i], js[i].phis[p], v)
				}
			}
			phis[p] = v
		}
		out = []*joined{{a, st, sp.b, phis}}
	}()
	if !ok {
		return js
	}
	return out
}

func (x *Exec) infeasible(st *State) bool {
	if st.dead {
		return true
	}
	return x.pr.infeasible(st.pcTerms())
}

func (x *Exec) instrs(a *act, st *State, b *ssa.BasicBlock, i int) []Outcome {
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			return nil
		}
		x.steps++
		if x.steps > 2000000 || x.paths > 6000 {
			panic(unsupported("too many paths in " + x.root.Key))
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.Jump:
			return x.enter(a, st, b.Succs[0], b)
		case *ssa.If:
			return x.fork(a, st, x.val(a, in.Cond).t, b, b.Succs[0], b.Succs[1])
		case *ssa.Return:
			var rs []*Val
			for _, r := range in.Results {
				rs = append(rs, x.val(a, r))
			}
			x.paths++
			return []Outcome{{st, rs, a}}
		case *ssa.Panic:
			x.safe(st, a, "explicit-panic", tFalse, in.Pos())
			return nil
		case *ssa.Call:
			outs := x.call(a, st, &in.Call, in, in.Pos())
			if len(outs) == 0 {
				return nil
			}
			if len(outs) == 1 {
				st = outs[0].st
				x.setCall(a, in, outs[0].rets)
				continue
			}
			var all []Outcome
			for k, o := range outs {
				a2 := a
				if k < len(outs)-1 {
					a2 = a.clone()
				}
				x.setCall(a2, in, o.rets)
				all = append(all, x.instrs(a2, o.st, b, i+1)...)
			}
			return all
		case *ssa.RunDefers:
			ds := a.defers
			a.defers = nil
			return x.runDefers(a, st, ds, func(a *act, st *State) []Outcome { return x.instrs(a, st, b, i+1) })
		case *ssa.Select:
			return x.selectStmt(a, st, in, func(a *act, st *State) []Outcome { return x.instrs(a, st, b, i+1) })
		default:
			x.simple(a, st, b.Instrs[i])
		}
	}
	return nil
}

func (x *Exec) runDefers(a *act, st *State, ds []*deferred, k func(*act, *State) []Outcome) []Outcome {
	if len(ds) == 0 {
		return k(a, st)
	}
	d := ds[len(ds)-1]
	outs := x.callWith(a, st, d.call, d.args, d.site.Pos(), true)
	var all []Outcome
	for i, o := range outs {
		a2 := a
		if i < len(outs)-1 {
			a2 = a.clone()
		}
		all = append(all, x.runDefers(a2, o.st, ds[:len(ds)-1], k)...)
	}
	return all
}

func (x *Exec) setCall(a *act, in *ssa.Call, rets []*Val) {
	switch len(rets) {
	case 0:
		a.env[in] = &Val{typ: in.Type(), comps: []*Val{}}
	case 1:
		a.env[in] = rets[0]
	default:
		a.env[in] = &Val{typ: in.Type(), comps: rets}
	}
}

// deferNoop: a call deferred inside a loop that cannot change the heap (a function
// value returned by a dependency, under no contract).
func (x *Exec) deferNoop(in *ssa.Defer, d *deferred) string {
	if in.Call.IsInvoke() || len(d.args) != 1 {
		return ""
	}
	t := d.args[0].t
	if _, ok := fnByTerm[t]; ok || t == nil {
		return ""
	}
	k := paramOrigin[t]
	if _, ok := x.cs.callbacks[k]; ok || k == "" || !strings.Contains(k, "#") {
		return ""
	}
	return k
}

func (x *Exec) simple(a *act, st *State, ins ssa.Instruction) {
	switch in := ins.(type) {
	case *ssa.DebugRef:
		if o := in.Object(); o != nil {
			if vr, isVar := o.(*types.Var); isVar && !vr.IsField() {
				if v, ok := a.env[in.X]; ok {
					// a captured or addressed variable keeps its cell: the value of an
					// assignment to it is not its value later
					if cur := a.names[o.Name()]; in.IsAddr || cur == nil || !cur.addr || !cur.pos.IsValid() || cur.pos != o.Pos() {
						a.names[o.Name()] = &nameB{v: v, addr: in.IsAddr, obj: o, pos: o.Pos()}
					}
				} else if c, ok := in.X.(*ssa.Const); ok {
					if cur := a.names[o.Name()]; cur != nil && cur.addr && cur.pos.IsValid() && cur.pos == o.Pos() {
						break
					}
					a.names[o.Name()] = &nameB{v: constVal(c), obj: o}
				}
			}
		}
	case *ssa.Alloc:
		el := in.Type().(*types.Pointer).Elem()
		r := x.newRef(st, in.Comment)
		v := &Val{t: r, typ: in.Type()}
		if at, ok := under(el).(*types.Array); ok {
			for _, c := range layout(at.Elem()) {
				x.storeWhole(st, elemKey(at.Elem())+c.suffix, c.sort, r, ConstArr(ArrSort("Int", c.sort), zeroTerm(c)))
			}
		} else {
			x.zeroObject(st, &Loc{key: objKey(el), ref: r, typ: el})
			onces := []string{}
			if el.String() == "sync.Once" {
				onces = append(onces, "cell.sync.Once.$done")
			} else if s, ok := under(el).(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Type().String() == "sync.Once" {
						onces = append(onces, objKey(el)+"."+s.Field(i).Name()+".$done")
					}
				}
			}
			for _, k := range onces {
				x.hset(st, k, Store(x.hget(st, k, ArrSort("Int", "Bool")), r, tFalse), r)
			}
		}
		a.env[in] = v
		if in.Comment != "" {
			a.names[in.Comment] = &nameB{v: v, addr: true, pos: in.Pos()}
		}
	case *ssa.FieldAddr:
		p := x.val(a, in.X)
		stt := in.X.Type().Underlying().(*types.Pointer).Elem()
		l := x.ptrLoc(p, stt)
		if p.loc == nil {
			x.safe(st, a, "nil-deref", Not(Eq(p.t, Int(0))), in.Pos())
		}
		a.env[in] = &Val{loc: fieldLoc(l, under(stt).(*types.Struct), in.Field), typ: in.Type()}
	case *ssa.Field:
		v := x.val(a, in.X)
		a.env[in] = v.comps[in.Field]
	case *ssa.IndexAddr:
		idx := x.val(a, in.Index).t
		base := x.val(a, in.X)
		switch u := under(in.X.Type()).(type) {
		case *types.Slice:
			x.safe(st, a, "index-bounds", And(Le(Int(0), idx), Lt(idx, base.comps[2].t)), in.Pos())
			a.env[in] = &Val{loc: &Loc{key: elemKey(u.Elem()), ref: base.comps[0].t, idx: Add(base.comps[1].t, idx), typ: u.Elem()}, typ: in.Type()}
		case *types.Pointer:
			at := under(u.Elem()).(*types.Array)
			if base.loc != nil {
				panic(unsupported("array field"))
			}
			x.safe(st, a, "index-bounds", And(Le(Int(0), idx), Lt(idx, Int(at.Len()))), in.Pos())
			a.env[in] = &Val{loc: &Loc{key: elemKey(at.Elem()), ref: base.t, idx: idx, typ: at.Elem()}, typ: in.Type()}
		default:
			panic(unsupported("indexaddr " + in.X.Type().String()))
		}
	case *ssa.Index:
		s := x.val(a, in.X)
		idx := x.val(a, in.Index).t
		if b, ok := under(in.X.Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			x.safe(st, a, "index-bounds", And(Le(Int(0), idx), Lt(idx, App("strlen", "Int", s.t))), in.Pos())
			a.env[in] = scalar(App("str.at$", "Int", s.t, idx), in.Type())
			return
		}
		panic(unsupported("index of array value"))
	case *ssa.Store:
		p := x.val(a, in.Addr)
		el := in.Addr.Type().Underlying().(*types.Pointer).Elem()
		l := x.ptrLoc(p, el)
		if p.loc == nil {
			x.safe(st, a, "nil-deref", Not(Eq(p.t, Int(0))), in.Pos())
		}
		x.guardCheck(st, a, l, true, in.Pos())
		x.frameCheck(st, a, l, in.Pos())
		x.store(st, l, x.val(a, in.Val))
	case *ssa.UnOp:
		x.unop(a, st, in)
	case *ssa.BinOp:
		a.env[in] = x.binop(a, st, in)
	case *ssa.ChangeType:
		v := x.val(a, in.X)
		n := *v
		n.typ = in.Type()
		a.env[in] = &n
	case *ssa.ChangeInterface:
		v := *x.val(a, in.X)
		v.typ = in.Type()
		a.env[in] = &v
	case *ssa.Convert:
		a.env[in] = x.convert(a, st, in)
	case *ssa.MultiConvert:
		a.env[in] = freshVal("mconv", in.Type())
	case *ssa.MakeInterface:
		a.env[in] = scalar(x.box(st, x.val(a, in.X), in.X.Type()), in.Type())
	case *ssa.TypeAssert:
		x.typeAssert(a, st, in)
	case *ssa.Extract:
		v := x.val(a, in.Tuple)
		a.env[in] = v.comps[in.Index]
	case *ssa.MakeMap:
		m := under(in.Type()).(*types.Map)
		r := x.newRef(st, "map")
		k := mapKey(m)
		ks := x.keySort(m)
		x.storeWhole(st, k+".dom", "Bool", r, ConstArr(ArrSort(ks, "Bool"), tFalse))
		for _, c := range layout(m.Elem()) {
			x.storeWhole(st, k+".val"+c.suffix, c.sort, r, ConstArr(ArrSort(ks, c.sort), zeroTerm(c)))
		}
		x.storeWhole(st, k+".len", "", r, Int(0))
		a.env[in] = scalar(r, in.Type())
	case *ssa.MakeChan:
		r := x.newRef(st, "chan")
		x.storeWhole(st, "chan.closed", "", r, tFalse)
		x.storeWhole(st, "chan.cap", "", r, x.val(a, in.Size).t)
		a.env[in] = scalar(r, in.Type())
	case *ssa.MakeSlice:
		el := under(in.Type()).(*types.Slice).Elem()
		n, c := x.val(a, in.Len).t, x.val(a, in.Cap).t
		x.safe(st, a, "makeslice-len", And(Le(Int(0), n), Le(n, c)), in.Pos())
		r := x.newRef(st, "arr")
		for _, cc := range layout(el) {
			x.storeWhole(st, elemKey(el)+cc.suffix, cc.sort, r, ConstArr(ArrSort("Int", cc.sort), zeroTerm(cc)))
		}
		a.env[in] = mkSlice(in.Type(), r, Int(0), n, c)
		x.seqEmptyFact(st, a.env[in])
	case *ssa.MakeClosure:
		f := in.Fn.(*ssa.Function)
		var bs []*Val
		for _, b := range in.Bindings {
			bs = append(bs, x.val(a, b))
		}
		fnCtr++
		t := Int(-fnCtr)
		fnByTerm[t] = &closure{f, bs}
		a.env[in] = scalar(t, in.Type())
	case *ssa.Slice:
		a.env[in] = x.slice(a, st, in)
	case *ssa.Lookup:
		x.lookup(a, st, in)
	case *ssa.MapUpdate:
		m := under(in.Map.Type()).(*types.Map)
		r := x.val(a, in.Map).t
		x.safe(st, a, "nil-map-write", Not(Eq(r, Int(0))), in.Pos())
		x.mapGuard(st, a, in.Map, true, in.Pos())
		x.mapStore(st, a, m, r, x.val(a, in.Key), x.val(a, in.Value), in.Pos())
	case *ssa.Range:
		x.rangeInit(a, st, in)
	case *ssa.Next:
		x.next(a, st, in)
	case *ssa.Defer:
		d := &deferred{call: &in.Call, site: in}
		d.args = x.callArgs(a, &in.Call)
		a.defers = append(a.defers, d)
		if len(a.loops) > 0 {
			for _, lc := range a.loops {
				if lc.loop.blocks[in.Block()] {
					if k := x.deferNoop(in, d); k != "" {
						x.trust["defer-in-loop:"+k]++
						a.defers = a.defers[:len(a.defers)-1]
						break
					}
					panic(unsupported("defer in loop"))
				}
			}
		}
	case *ssa.Go:
		x.goStmt(a, st, in)
	case *ssa.Send:
		x.chanSend(st, a, x.val(a, in.Chan), in.Chan, x.val(a, in.X), in.Pos(), true)
	default:
		panic(unsupported(fmt.Sprintf("instruction %T in %s", ins, fnName(a.fn))))
	}
}

func (x *Exec) storeWhole(st *State, key, csort string, ref *Term, v *Term) {
	h := x.hget(st, key, ArrSort("Int", v.sort))
	x.hset(st, key, Store(h, ref, v), ref)
}

func mkSlice(t types.Type, arr, off, n, c *Term) *Val {
	it := types.Typ[types.Int]
	return &Val{typ: t, comps: []*Val{scalar(arr, it), scalar(off, it), scalar(n, it), scalar(c, it)}}
}

func (x *Exec) frameCheck(st *State, a *act, l *Loc, pos token.Pos) {
	if x.silent > 0 || l.ref == nil {
		return
	}
	for _, c := range layout(l.typ) {
		x.frameKey(st, a, l.key+c.suffix, l.ref, pos)
	}
}

func (x *Exec) frameKey(st *State, a *act, key string, ref *Term, pos token.Pos) {
	if x.silent > 0 {
		return
	}
	if strings.HasPrefix(key, "g.") {
		ref = nil
	}
	if ref != nil && ref.fresh && x.alloc0 != nil && ref.stamp > x.alloc0.stamp {
		return
	}
	imm := false
	for p := range x.cs.immutable {
		if key == p || strings.HasPrefix(key, p+".") {
			imm = true
		}
	}
	if x.frameAny && !imm {
		return
	}
	var gs []*Term
	if ref != nil {
		gs = append(gs, Le(x.alloc0, ref), Eq(ref, Int(0))) // nothing lives at the nil reference
	}
	if !imm || !x.frameAny {
		for _, al := range x.allowed {
			if key == al.key || (strings.HasPrefix(key, "map[") && al.key == key+".dom") || strings.HasPrefix(key, al.key+".") || strings.HasPrefix(key, al.key+"@") {
				if al.ref == nil {
					return
				}
				if ref != nil {
					gs = append(gs, Eq(al.ref, ref))
				}
			}
		}
	}
	x.check(st, a, "frame", key, Or(gs...), pos)
}

func (x *Exec) unop(a *act, st *State, in *ssa.UnOp) {
	v := x.val(a, in.X)
	switch in.Op {
	case token.MUL:
		el := under(in.X.Type()).(*types.Pointer).Elem()
		l := x.ptrLoc(v, el)
		if v.loc == nil {
			x.safe(st, a, "nil-deref", Not(Eq(v.t, Int(0))), in.Pos())
		}
		if _, ok := under(el).(*types.Array); ok {
			panic(unsupported("array load"))
		}
		x.guardCheck(st, a, l, false, in.Pos())
		r := x.load(st, l)
		if x.wirewf && l.idx != nil {
			// elements of repeated message fields are non-nil
			if pt, ok := under(el).(*types.Pointer); ok && isPB(pt.Elem()) {
				st.fact(Implies(Lt(l.ref, x.alloc0), Not(Eq(r.t, Int(0)))))
			}
		}
		a.env[in] = r
	case token.NOT:
		a.env[in] = scalar(Not(v.t), in.Type())
	case token.SUB:
		if v.t.sort == "Flt" {
			a.env[in] = scalar(Op("-", "Flt", v.t), in.Type())
		} else {
			a.env[in] = scalar(x.arith(Sub(Int(0), v.t), in.Type()), in.Type())
		}
	case token.XOR:
		a.env[in] = scalar(App("bitnot", "Int", v.t), in.Type())
	case token.ARROW:
		x.chanRecv(a, st, in, v)
	default:
		panic(unsupported("unop " + in.Op.String()))
	}
}

func isPB(t types.Type) bool {
	k := typeKey(t)
	return strings.HasPrefix(k, "gpb.") || strings.HasPrefix(k, "tpb.") || strings.HasPrefix(k, "fpb.")
}

func intRange(b *types.Basic) (*Term, *Term) {
	bits, signed := 64, true
	switch b.Kind() {
	case types.Int8:
		bits = 8
	case types.Int16:
		bits = 16
	case types.Int32:
		bits = 32
	case types.Uint8:
		bits, signed = 8, false
	case types.Uint16:
		bits, signed = 16, false
	case types.Uint32:
		bits, signed = 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		signed = false
	}
	one := big.NewInt(1)
	if signed {
		h := new(big.Int).Lsh(one, uint(bits-1))
		return BigInt(new(big.Int).Neg(h)), BigInt(new(big.Int).Sub(h, one))
	}
	return Int(0), BigInt(new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one))
}

// wrapTo reduces t into the range of the integer type.
func wrapTo(t *Term, typ types.Type) *Term {
	b, ok := under(typ).(*types.Basic)
	if !ok {
		return t
	}
	lo, hi := intRange(b)
	if t.isInt() && t.intVal().Cmp(lo.intVal()) >= 0 && t.intVal().Cmp(hi.intVal()) <= 0 {
		return t
	}
	m := BigInt(new(big.Int).Add(new(big.Int).Sub(hi.intVal(), lo.intVal()), big.NewInt(1)))
	w := Add(lo, Op("mod", "Int", Sub(t, lo), m))
	// the common in-range case is kept linear
	return Ite(And(Le(lo, t), Le(t, hi)), t, w)
}

func (x *Exec) arith(t *Term, typ types.Type) *Term {
	if x.exact {
		return wrapTo(t, typ)
	}
	return t
}

func tdiv(a, b *Term) *Term { // Go truncated division
	return Ite(Le(Int(0), a), Op("div", "Int", a, b), Sub(Int(0), Op("div", "Int", Sub(Int(0), a), b)))
}

func (x *Exec) binop(a *act, st *State, in *ssa.BinOp) *Val {
	l, r := x.val(a, in.X), x.val(a, in.Y)
	t := in.Type()
	switch in.Op {
	case token.EQL, token.NEQ:
		e := x.goEq(st, l, r, in.X.Type(), in.Y.Type())
		if in.Op == token.NEQ {
			e = Not(e)
		}
		return scalar(e, t)
	}
	p, q := l.t, r.t
	if p == nil || q == nil {
		panic(unsupported("binop " + in.Op.String()))
	}
	return scalar(x.arithOp(st, a, in.Op, p, q, t, in.Pos()), t)
}

func (x *Exec) arithOp(st *State, a *act, op token.Token, p, q *Term, t types.Type, pos token.Pos) *Term {
	switch p.sort {
	case "Str":
		switch op {
		case token.ADD:
			return strCat(p, q)
		case token.LSS:
			return strLt(p, q)
		case token.GTR:
			return strLt(q, p)
		case token.LEQ:
			return Not(strLt(q, p))
		case token.GEQ:
			return Not(strLt(p, q))
		}
	case "Flt":
		switch op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			o := map[token.Token]string{token.ADD: "+", token.SUB: "-", token.MUL: "*", token.QUO: "/"}[op]
			return Op(o, "Flt", p, q)
		case token.LSS:
			return Op("<", "Bool", p, q)
		case token.GTR:
			return Op("<", "Bool", q, p)
		case token.LEQ:
			return Op("<=", "Bool", p, q)
		case token.GEQ:
			return Op("<=", "Bool", q, p)
		}
	case "Int":
		switch op {
		case token.ADD:
			return x.arith(Add(p, q), t)
		case token.SUB:
			r := x.arith(Sub(p, q), t)
			return r
		case token.MUL:
			return x.arith(Mul(p, q), t)
		case token.QUO:
			if a != nil {
				x.safe(st, a, "div-zero", Not(Eq(q, Int(0))), pos)
			}
			return x.arith(tdiv(p, q), t)
		case token.REM:
			if a != nil {
				x.safe(st, a, "div-zero", Not(Eq(q, Int(0))), pos)
			}
			return Sub(p, Mul(q, tdiv(p, q)))
		case token.LSS:
			return Lt(p, q)
		case token.GTR:
			return Lt(q, p)
		case token.LEQ:
			return Le(p, q)
		case token.GEQ:
			return Le(q, p)
		case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
			if p.isInt() && q.isInt() && op == token.SHL && q.intVal().IsInt64() && q.intVal().Int64() < 64 {
				return x.arith(Mul(p, BigInt(new(big.Int).Lsh(big.NewInt(1), uint(q.intVal().Int64())))), t)
			}
			return App("bit."+opName(op), "Int", p, q)
		}
	}
	panic(unsupported("operator " + op.String() + " on " + p.sort))
}

func opName(o token.Token) string {
	return map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.SHL: "shl", token.SHR: "shr", token.AND_NOT: "andnot"}[o]
}

func strLt(p, q *Term) *Term {
	if p == q {
		return tFalse
	}
	if p.op == "lit" && q.op == "lit" {
		return Bool(p.name < q.name)
	}
	return App("str.lt$", "Bool", p, q)
}
func strCat(p, q *Term) *Term {
	if p.op == "lit" && q.op == "lit" {
		return StrLit(p.name + q.name)
	}
	if p.op == "lit" && p.name == "" {
		return q
	}
	if q.op == "lit" && q.name == "" {
		return p
	}
	return App("str.cat$", "Str", p, q)
}

func (x *Exec) goEq(st *State, l, r *Val, lt, rt types.Type) *Term {
	// comparing slices/maps/funcs to nil
	if _, ok := under(lt).(*types.Slice); ok {
		if isNilVal(r) {
			return Eq(l.comps[0].t, Int(0))
		}
		return Eq(r.comps[0].t, Int(0))
	}
	_, li := under(lt).(*types.Interface)
	_, ri := under(rt).(*types.Interface)
	if li && !ri {
		r = scalar(x.box(st, r, rt), lt)
	}
	if ri && !li {
		l = scalar(x.box(st, l, lt), rt)
	}
	return eqVal(l, r)
}

func isNilVal(v *Val) bool {
	for _, t := range flat(v) {
		if !(t.op == "int" && t.name == "0") {
			return false
		}
	}
	return true
}

func (x *Exec) box(st *State, v *Val, t types.Type) *Term {
	tag := Int(int64(typeTag(t)))
	if !payloadBoxed(t) {
		return AnyBox(tag, flat(v)[0])
	}
	fs := flat(v)
	if len(fs) == 0 { // struct{}
		return AnyBox(tag, Int(0))
	}
	r := x.newRef(st, "box")
	for i, c := range layout(t) {
		key := "box." + typeKey(t) + c.suffix
		x.storeWhole(st, key, c.sort, r, fs[i])
	}
	return AnyBox(tag, r)
}

func (x *Exec) unbox(st *State, a *Term, t types.Type) *Val {
	ps := payloadSort(t)
	p := AnyVal(a, ps)
	if !payloadBoxed(t) {
		v := unflat(t, []*Term{p})
		x.wf(st, v, t)
		return v
	}
	var ts []*Term
	for _, c := range layout(t) {
		h := x.hget(st, "box."+typeKey(t)+c.suffix, ArrSort("Int", c.sort))
		ts = append(ts, Select(h, p))
	}
	v := unflat(t, ts)
	x.wf(st, v, t)
	return v
}

// dynIs: dynamic type of interface value a is (or implements) t.
func (x *Exec) dynIs(a *Term, t types.Type) *Term {
	if it, ok := under(t).(*types.Interface); ok {
		if it.Empty() {
			return Not(Eq(a, nilAny))
		}
		if a.op == "ctor" {
			if a.name == "nilI" {
				return tFalse
			}
			if tg := a.args[0]; tg.isInt() {
				dt := tagTypes[tg.intVal().Int64()]
				if _, isSpec := dt.(*specType); !isSpec {
					return Bool(types.Implements(dt, it))
				}
			}
		}
		return And(Not(Eq(a, nilAny)), App("impl$"+typeKey(t), "Bool", a))
	}
	return AnyHas(a, typeTag(t), payloadSort(t))
}

func (x *Exec) typeAssert(a *act, st *State, in *ssa.TypeAssert) {
	v := x.val(a, in.X).t
	ok := x.dynIs(v, in.AssertedType)
	var r *Val
	if _, isI := under(in.AssertedType).(*types.Interface); isI {
		r = scalar(v, in.AssertedType)
		if in.CommaOk {
			r = scalar(Ite(ok, v, nilAny), in.AssertedType)
		}
	} else {
		st2 := st
		r = x.unbox(st2, v, in.AssertedType)
		if x.wirewf {
			if pt, isP := under(in.AssertedType).(*types.Pointer); isP && isPB(pt.Elem()) {
				if n, isN := in.X.Type().(*types.Named); isN && strings.HasPrefix(n.Obj().Name(), "is") {
					// the wrapper of a oneof is never a nil pointer
					st.fact(Implies(ok, Not(Eq(r.t, Int(0)))))
				} else {
					st.fact(Implies(And(ok, Lt(r.t, x.alloc0)), Not(Eq(r.t, Int(0)))))
				}
			}
		}
		if in.CommaOk {
			r = iteVal(ok, r, zeroVal(in.AssertedType))
		}
	}
	if in.CommaOk {
		a.env[in] = &Val{typ: in.Type(), comps: []*Val{r, scalar(ok, types.Typ[types.Bool])}}
		return
	}
	x.safe(st, a, "type-assert", ok, in.Pos())
	a.env[in] = r
}

func (x *Exec) convert(a *act, st *State, in *ssa.Convert) *Val {
	v := x.val(a, in.X)
	f, t := under(in.X.Type()), under(in.Type())
	fb, fok := f.(*types.Basic)
	tb, tok := t.(*types.Basic)
	if fok && tok {
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			flo, fhi := intRange(fb)
			tlo, thi := intRange(tb)
			if flo.intVal().Cmp(tlo.intVal()) >= 0 && fhi.intVal().Cmp(thi.intVal()) <= 0 {
				return scalar(v.t, in.Type())
			}
			return scalar(wrapTo(v.t, in.Type()), in.Type())
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			if v.t.isInt() {
				return scalar(realLit(new(big.Rat).SetInt(v.t.intVal())), in.Type())
			}
			return scalar(Op("to_real", "Flt", v.t), in.Type())
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			tr := Ite(Op("<=", "Bool", realLit(new(big.Rat)), v.t), Op("to_int", "Int", v.t), Sub(Int(0), Op("to_int", "Int", Op("-", "Flt", v.t))))
			return scalar(tr, in.Type())
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			if tb.Kind() == types.Float32 && fb.Kind() != types.Float32 {
				return scalar(App("f32round", "Flt", v.t), in.Type())
			}
			return scalar(v.t, in.Type())
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return scalar(v.t, in.Type())
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return scalar(App("runestr", "Str", v.t), in.Type())
		}
	}
	if tok && tb.Info()&types.IsString != 0 { // []byte -> string
		if sl, ok := f.(*types.Slice); ok {
			h := x.hget(st, elemKey(sl.Elem()), x.heapSort("", "Int", true))
			return scalar(App("bytes2str", "Str", Select(h, v.comps[0].t), v.comps[1].t, v.comps[2].t), in.Type())
		}
	}
	if fok && fb.Info()&types.IsString != 0 {
		if sl, ok := t.(*types.Slice); ok {
			r := x.newRef(st, "bytes")
			n := App("strlen", "Int", v.t)
			inner := App("str2bytes", ArrSort("Int", "Int"), v.t)
			x.storeWhole(st, elemKey(sl.Elem()), "Int", r, inner)
			st.fact(Eq(App("bytes2str", "Str", inner, Int(0), n), v.t))
			return mkSlice(in.Type(), r, Int(0), n, n)
		}
	}
	if _, ok := t.(*types.Pointer); ok {
		n := *v
		n.typ = in.Type()
		return &n
	}
	panic(unsupported(fmt.Sprintf("convert %s to %s", in.X.Type(), in.Type())))
}

func (x *Exec) slice(a *act, st *State, in *ssa.Slice) *Val {
	base := x.val(a, in.X)
	var lo, hi *Term
	lo = Int(0)
	if in.Low != nil {
		lo = x.val(a, in.Low).t
	}
	if in.High != nil {
		hi = x.val(a, in.High).t
	}
	switch u := under(in.X.Type()).(type) {
	case *types.Slice:
		arr, off, n, c := base.comps[0].t, base.comps[1].t, base.comps[2].t, base.comps[3].t
		if hi == nil {
			hi = n
		}
		x.safe(st, a, "slice-bounds", And(Le(Int(0), lo), Le(lo, hi), Le(hi, c)), in.Pos())
		nc := Sub(c, lo)
		if in.Max != nil {
			nc = Sub(x.val(a, in.Max).t, lo)
		}
		r := mkSlice(in.Type(), arr, Add(off, lo), Sub(hi, lo), nc)
		x.seqSubFact(st, base, r, lo)
		return r
	case *types.Pointer:
		at := under(u.Elem()).(*types.Array)
		if hi == nil {
			hi = Int(at.Len())
		}
		r := mkSlice(in.Type(), base.t, lo, Sub(hi, lo), Sub(Int(at.Len()), lo))
		return r
	case *types.Basic:
		n := App("strlen", "Int", base.t)
		if hi == nil {
			hi = n
		}
		x.safe(st, a, "slice-bounds", And(Le(Int(0), lo), Le(lo, hi), Le(hi, n)), in.Pos())
		r := App("substr", "Str", base.t, lo, hi)
		st.fact(Eq(App("strlen", "Int", r), Sub(hi, lo)))
		return scalar(r, in.Type())
	}
	panic(unsupported("slice of " + in.X.Type().String()))
}

// ---------- maps ----------

func (x *Exec) keySort(m *types.Map) string {
	l := layout(m.Key())
	if len(l) != 1 {
		panic(unsupported("map key of type " + m.Key().String()))
	}
	return l[0].sort
}

func (x *Exec) mapDom(st *State, m *types.Map, r *Term) *Term {
	ks := x.keySort(m)
	h := x.hget(st, mapKey(m)+".dom", ArrSort("Int", ArrSort(ks, "Bool")))
	return Select(h, r)
}

func (x *Exec) mapHas(st *State, m *types.Map, r *Term, k *Term) *Term {
	return And(Not(Eq(r, Int(0))), Select(x.mapDom(st, m, r), k))
}

func (x *Exec) mapGet(st *State, m *types.Map, r *Term, k *Term) *Val {
	ks := x.keySort(m)
	var ts []*Term
	for _, c := range layout(m.Elem()) {
		h := x.hget(st, mapKey(m)+".val"+c.suffix, ArrSort("Int", ArrSort(ks, c.sort)))
		ts = append(ts, Select(Select(h, r), k))
	}
	v := unflat(m.Elem(), ts)
	x.wf(st, v, m.Elem())
	return v
}

func (x *Exec) mapLen(st *State, m *types.Map, r *Term) *Term {
	h := x.hget(st, mapKey(m)+".len", ArrSort("Int", "Int"))
	n := Select(h, r)
	if !n.isInt() {
		st.fact(Le(Int(0), n))
		ks := x.keySort(m)
		dom := x.mapDom(st, m, r)
		st.fact(Implies(Eq(n, Int(0)), Eq(dom, ConstArr(ArrSort(ks, "Bool"), tFalse))))
		w := App("domwit$"+ks, ks, dom)
		st.fact(Implies(Not(Eq(n, Int(0))), Select(dom, w)))
		w2 := App("domwit2$"+ks, ks, dom)
		st.fact(Implies(Lt(Int(1), n), And(Select(dom, w2), Not(Eq(w, w2)))))
		kk := BoundVar("k", ks)
		st.fact(Implies(Eq(n, Int(1)), Forall([]*Term{kk}, Implies(Select(dom, kk), Eq(kk, w)))))
	}
	return Ite(Eq(r, Int(0)), Int(0), n)
}

func (x *Exec) lookup(a *act, st *State, in *ssa.Lookup) {
	m, ok := under(in.X.Type()).(*types.Map)
	if !ok {
		idx := x.val(a, in.Index).t
		s := x.val(a, in.X).t
		x.safe(st, a, "index-bounds", And(Le(Int(0), idx), Lt(idx, App("strlen", "Int", s))), in.Pos())
		a.env[in] = scalar(App("str.at$", "Int", s, idx), in.Type())
		return
	}
	x.mapGuard(st, a, in.X, false, in.Pos())
	r := x.val(a, in.X).t
	k := flat(x.val(a, in.Index))[0]
	has := x.mapHas(st, m, r, k)
	v := x.mapGet(st, m, r, k)
	if x.wirewf {
		if pt, ok := under(m.Elem()).(*types.Pointer); ok && isPB(pt.Elem()) {
			st.fact(Implies(And(has, Lt(r, x.alloc0)), Not(Eq(v.t, Int(0)))))
		}
	}
	v = iteVal(has, v, zeroVal(m.Elem()))
	if in.CommaOk {
		a.env[in] = &Val{typ: in.Type(), comps: []*Val{v, scalar(has, types.Typ[types.Bool])}}
	} else {
		a.env[in] = v
	}
}

func (x *Exec) mapStore(st *State, a *act, m *types.Map, r *Term, kv, vv *Val, pos token.Pos) {
	k := flat(kv)[0]
	key := mapKey(m)
	x.frameKey(st, a, key, r, pos)
	has := x.mapHas(st, m, r, k)
	n := x.mapLen(st, m, r)
	dom := x.mapDom(st, m, r)
	ks := x.keySort(m)
	x.storeWhole(st, key+".dom", "", r, Store(dom, k, tTrue))
	fs := flat(vv)
	for i, c := range layout(m.Elem()) {
		kk := key + ".val" + c.suffix
		h := x.hget(st, kk, ArrSort("Int", ArrSort(ks, c.sort)))
		x.hset(st, kk, Store(h, r, Store(Select(h, r), k, fs[i])), r)
	}
	x.storeWhole(st, key+".len", "", r, Ite(has, n, Add(n, Int(1))))
}

func (x *Exec) mapDelete(st *State, a *act, m *types.Map, r *Term, kv *Val, pos token.Pos) {
	k := flat(kv)[0]
	key := mapKey(m)
	has := x.mapHas(st, m, r, k)
	if has == tFalse {
		return
	}
	n := x.mapLen(st, m, r)
	x.frameKey(st, a, key, r, pos)
	dom := x.mapDom(st, m, r)
	x.storeWhole(st, key+".dom", "", r, Store(dom, k, tFalse))
	x.storeWhole(st, key+".len", "", r, Ite(has, Sub(n, Int(1)), n))
}

// ---------- range over maps ----------

func (x *Exec) rangeInit(a *act, st *State, in *ssa.Range) {
	m, ok := under(in.X.Type()).(*types.Map)
	if !ok {
		a.env[in] = scalar(NewVar("striter", "Int"), in.Type())
		return
	}
	x.mapGuard(st, a, in.X, false, in.Pos())
	r := x.val(a, in.X).t
	ks := x.keySort(m)
	id := fmt.Sprintf("$vis.%s.%s", fnName(a.fn), in.Name())
	x.cs.ghosts[id] = ArrSort(ks, "Bool")
	x.gset(st, id, ConstArr(ArrSort(ks, "Bool"), tFalse))
	dom0 := x.mapDom(st, m, r)
	x.cs.ghosts[id+".dom0"] = ArrSort(ks, "Bool")
	x.gset(st, id+".dom0", dom0)
	x.cs.ghosts[id+".n"] = "Int"
	x.gset(st, id+".n", Int(0))
	a.iters[in] = id
	a.env[in] = scalar(r, in.Type())
}

func (x *Exec) next(a *act, st *State, in *ssa.Next) {
	tup := in.Type().(*types.Tuple)
	rg, _ := in.Iter.(*ssa.Range)
	ok := NewVar("ok", "Bool")
	if in.IsString || rg == nil {
		a.env[in] = &Val{typ: tup, comps: []*Val{scalar(ok, tup.At(0).Type()), freshVal("k", tup.At(1).Type()), freshVal("v", tup.At(2).Type())}}
		return
	}
	m := under(rg.X.Type()).(*types.Map)
	r := a.env[rg].t
	id := a.iters[rg]
	vis := st.ghost[id]
	ks := x.keySort(m)
	kt := m.Key()
	kv := freshVal("k", kt)
	k := flat(kv)[0]
	dom := x.mapDom(st, m, r)
	isnil := Eq(r, Int(0))
	bk := BoundVar("k", ks)
	dom0 := st.ghost[id+".dom0"]
	var done *Term
	if dom0 == dom {
		done = Forall([]*Term{bk}, Implies(Select(dom, bk), Select(vis, bk)))
		// the map is not written by the loop: only its keys are visited
		if vis.op == "var" {
			st.fact(Forall([]*Term{bk}, Implies(Select(vis, bk), And(Not(isnil), Select(dom, bk))), []*Term{Select(vis, bk)}))
		}
	} else {
		done = Forall([]*Term{bk}, Implies(And(Select(dom, bk), Select(dom0, bk)), Select(vis, bk)))
	}
	st.assume(Implies(Not(ok), Or(isnil, done)))
	st.assume(Implies(ok, And(Not(isnil), Select(dom, k), Not(Select(vis, k)))))
	x.wf(st, kv, kt)
	// visited grows only on ok
	x.gset(st, id, Ite(ok, Store(vis, k, tTrue), vis))
	cnt := st.ghost[id+".n"]
	st.fact(Le(Int(0), cnt))
	if dom0 == dom {
		// finite cardinalities: the iteration visits each key once
		ln := x.mapLen(st, m, r)
		st.fact(Implies(ok, Lt(cnt, ln)))
		st.fact(Implies(Not(ok), Eq(cnt, ln)))
	}
	x.gset(st, id+".n", Ite(ok, Add(cnt, Int(1)), cnt))
	v := x.mapGet(st, m, r, k)
	if x.wirewf {
		if pt, isP := under(m.Elem()).(*types.Pointer); isP && isPB(pt.Elem()) {
			st.fact(Implies(And(ok, Lt(r, x.alloc0)), Not(Eq(v.t, Int(0)))))
		}
	}
	fix := func(t types.Type, v *Val) *Val {
		if b, isB := t.(*types.Basic); isB && b.Kind() == types.Invalid {
			return &Val{typ: t, comps: []*Val{}}
		}
		return v
	}
	a.env[in] = &Val{typ: tup, comps: []*Val{scalar(ok, tup.At(0).Type()), fix(tup.At(1).Type(), kv), fix(tup.At(2).Type(), v)}}
}
