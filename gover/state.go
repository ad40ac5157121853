package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// PC is a persistent list of path conditions. fact entries hold on every path.
type PC struct {
	t    *Term
	fact bool
	prev *PC
	n    int
}

type State struct {
	pc     *PC
	heap   map[string]*Term
	ghost  map[string]*Term
	alloc  *Term
	locks  map[string]*heldLock
	atlock *State
	atunlock *State
	dead   bool
}

type heldLock struct {
	key  string // lock class, e.g. "coalesce.Queue.Mutex"
	ref  *Term  // owner object
	mode string // "w" or "r"
	snap *State // the state right after the acquisition (nil for a lock held on entry)
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, alloc: s.alloc, atlock: s.atlock, atunlock: s.atunlock, heap: make(map[string]*Term, len(s.heap)), ghost: make(map[string]*Term, len(s.ghost)), locks: map[string]*heldLock{}}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	for k, v := range s.locks {
		n.locks[k] = v
	}
	return n
}

func (s *State) assume(t *Term) {
	if t == tTrue {
		return
	}
	if t == tFalse {
		s.dead = true
	}
	n := 1
	if s.pc != nil {
		n = s.pc.n + 1
	}
	s.pc = &PC{t, false, s.pc, n}
}

func (s *State) fact(t *Term) {
	if t == tTrue || (t.bound && hasFreeBound(t, nil)) {
		return // facts about quantified terms are not emitted
	}
	for p, i := s.pc, 0; p != nil && i < 400; p, i = p.prev, i+1 {
		if p.t == t {
			return
		}
	}
	n := 1
	if s.pc != nil {
		n = s.pc.n + 1
	}
	s.pc = &PC{t, true, s.pc, n}
}

func (s *State) pcTerms() []*Term {
	var out []*Term
	for p := s.pc; p != nil; p = p.prev {
		out = append(out, p.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

type writeRec struct {
	full bool
	refs map[*Term]bool
}

// recorder collects the writes made while executing a loop body.
type recorder struct {
	heap  map[string]*writeRec
	ghost map[string]bool
	sorts map[string]string
	s0    int
	obs   []*Obligation
	loop  *Loop
	id    int
	exits []loopExit
}

// loopExit is a path that left the loop; it continues once the loop's write set is known.
type loopExit struct {
	a       *act
	st      *State
	b, pred *ssa.BasicBlock
}

var actIDs int

type loopCtx struct {
	hdr  *ssa.BasicBlock
	loop *Loop
	spec *LoopSpec
	ord  int
	fn   *ssa.Function
	pre  *State // state at loop entry
	phi0 map[*ssa.Phi]*Val
}

type act struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Val
	defers []*deferred
	names  map[string]*nameB
	loops  map[*ssa.BasicBlock]*loopCtx
	con    *Contract
	depth  int
	iters  map[ssa.Value]string
	args   []*Val
	entry  *State
	caller *act
	id     int
}

type nameB struct {
	v    *Val
	addr bool
	obj  types.Object
	pos  token.Pos // the variable whose cell this is
}

type deferred struct {
	call *ssa.CallCommon
	args []*Val // evaluated: fn value + args
	site ssa.Instruction
}

func (a *act) clone() *act {
	n := &act{id: a.id, fn: a.fn, con: a.con, depth: a.depth, args: a.args, entry: a.entry, caller: a.caller}
	n.env = make(map[ssa.Value]*Val, len(a.env))
	for k, v := range a.env {
		n.env[k] = v
	}
	n.names = make(map[string]*nameB, len(a.names))
	for k, v := range a.names {
		n.names[k] = v
	}
	n.loops = make(map[*ssa.BasicBlock]*loopCtx, len(a.loops))
	for k, v := range a.loops {
		n.loops[k] = v
	}
	n.iters = make(map[ssa.Value]string, len(a.iters))
	for k, v := range a.iters {
		n.iters[k] = v
	}
	n.defers = append([]*deferred(nil), a.defers...)
	return n
}

type Outcome struct {
	st   *State
	rets []*Val
	act  *act
}

// ---- heap access ----

func (x *Exec) heapSort(key string, sort string, two bool) string {
	if two {
		return ArrSort("Int", ArrSort("Int", sort))
	}
	return ArrSort("Int", sort)
}

func (x *Exec) hget(st *State, key, sort string) *Term {
	if t, ok := st.heap[key]; ok {
		if t.sort != sort {
			panic(fmt.Sprintf("heap %s sort %s vs %s", key, t.sort, sort))
		}
		return t
	}
	t := NamedVar("H."+key, sort)
	st.heap[key] = t
	x.heapSorts[key] = sort
	return t
}

func (x *Exec) hset(st *State, key string, arr *Term, ref *Term) {
	x.heapSorts[key] = arr.sort
	st.heap[key] = arr
	for _, r := range x.recs {
		w := r.heap[key]
		if w == nil {
			w = &writeRec{refs: map[*Term]bool{}}
			r.heap[key] = w
			r.sorts[key] = arr.sort
		}
		if ref == nil {
			w.full = true
			continue
		}
		for _, l := range iteLeaves(ref, nil) {
			switch {
			case l.fresh && l.stamp > r.s0: // allocated inside the loop
			case l.stamp <= r.s0:
				w.refs[l] = true
			default:
				w.full = true
			}
		}
	}
}

func iteLeaves(t *Term, out []*Term) []*Term {
	if t.op == "ite" {
		return iteLeaves(t.args[2], iteLeaves(t.args[1], out))
	}
	return append(out, t)
}

func (x *Exec) gset(st *State, name string, t *Term) {
	st.ghost[name] = t
	for _, r := range x.recs {
		r.ghost[name] = true
	}
}

func (x *Exec) gget(st *State, name string) *Term {
	if t, ok := st.ghost[name]; ok {
		return t
	}
	srt, ok := x.cs.ghosts[name]
	if !ok {
		panic(unsupported("ghost " + name + " not declared"))
	}
	t := NamedVar("G."+name, srt)
	st.ghost[name] = t
	return t
}

// rangeFacts adds well-formedness facts for a value of a Go type.
func (x *Exec) wf(st *State, v *Val, t types.Type) {
	fs := flat(v)
	for i, c := range layout(t) {
		tm := fs[i]
		if tm.isInt() || tm.bound {
			continue
		}
		if strings.HasSuffix(c.suffix, ".arr") {
			off, ln, cp := fs[i+1], fs[i+2], fs[i+3]
			st.fact(And(Le(Int(0), off), Le(Int(0), ln), Le(ln, cp)))
			if !tm.fresh {
				st.fact(Implies(Eq(tm, Int(0)), Eq(cp, Int(0))))
			}
		}
		if c.isRef && c.sort == "Int" {
			if !tm.fresh {
				st.fact(And(Le(Int(0), tm), Lt(tm, st.alloc)))
			}
			continue
		}
		if c.sort == "Int" && c.typ != nil {
			if b, ok := under(c.typ).(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				lo, hi := intRange(b)
				if b.Info()&types.IsUnsigned != 0 || x.exact || x.rangeFacts {
					st.fact(Le(lo, tm))
				}
				if x.exact || x.rangeFacts {
					st.fact(Le(tm, hi))
				}
			}
		}
		if c.sort == "Any" {
			x.wfAny(st, tm)
		}
	}
}

func (x *Exec) wfAny(st *State, tm *Term) {
	if tm.op == "ctor" || tm.op == "ite" {
		return
	}
	st.fact(Implies(AnyIs("boxI", tm), And(Lt(AnyVal(tm, "Int"), st.alloc))))
}

func (x *Exec) readComp(st *State, l *Loc, c comp) *Term {
	if l.idx != nil {
		h := x.hget(st, l.key+c.suffix, x.heapSort("", c.sort, true))
		return Select(Select(h, l.ref), l.idx)
	}
	h := x.hget(st, l.key+c.suffix, x.heapSort("", c.sort, false))
	return Select(h, l.ref)
}

func (x *Exec) load(st *State, l *Loc) *Val {
	if v, ok := x.constGlobal(l); ok {
		return v
	}
	var ts []*Term
	for _, c := range layout(l.typ) {
		ts = append(ts, x.readComp(st, l, c))
	}
	v := unflat(l.typ, ts)
	x.wf(st, v, l.typ)
	return v
}

func (x *Exec) store(st *State, l *Loc, v *Val) {
	fs := flat(v)
	for i, c := range layout(l.typ) {
		x.storeComp(st, l, c, fs[i])
	}
}

func (x *Exec) storeComp(st *State, l *Loc, c comp, t *Term) {
	key := l.key + c.suffix
	if l.idx != nil {
		h := x.hget(st, key, x.heapSort("", c.sort, true))
		x.hset(st, key, Store(h, l.ref, Store(Select(h, l.ref), l.idx, t)), l.ref)
		return
	}
	h := x.hget(st, key, x.heapSort("", c.sort, false))
	x.hset(st, key, Store(h, l.ref, t), l.ref)
}

func (x *Exec) newRef(st *State, base string) *Term {
	r := NewVar("new."+base, "Int")
	r.fresh = true
	st.fact(Le(st.alloc, r))
	na := Add(r, Int(1))
	st.alloc = na
	return r
}

func (x *Exec) zeroObject(st *State, l *Loc) {
	for _, c := range layout(l.typ) {
		x.storeComp(st, l, c, zeroTerm(c))
	}
}

// ptrLoc: the location a pointer value designates.
func (x *Exec) ptrLoc(p *Val, elem types.Type) *Loc {
	if p.loc != nil {
		return p.loc
	}
	if l, ok := locByTerm[p.t]; ok {
		return l
	}
	return &Loc{key: objKey(elem), ref: p.t, typ: elem}
}

func fieldLoc(l *Loc, st *types.Struct, i int) *Loc {
	f := st.Field(i)
	return &Loc{key: l.key + "." + f.Name(), ref: l.ref, idx: l.idx, typ: f.Type()}
}
