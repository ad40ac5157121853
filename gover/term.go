package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Terms are hash-consed SMT terms. Sorts are SMT-LIB sort strings.
type Term struct {
	op    string // "var","int","lit"(string literal),"app", builtin SMT op, "forall","exists"
	name  string // var/app name, numeral, literal
	args  []*Term
	sort  string
	id    int
	stamp int  // largest creation stamp of any symbol inside
	fresh bool // var that denotes a freshly allocated reference
	bound bool // contains a bound variable
	// frame variables: an array var equal to base for refs older than fstamp
	fbase  *Term
	fstamp int
	pats   [][]*Term
	bvars  []*Term
}

type ufDecl struct {
	name string
	args []string
	ret  string
}

var (
	tmap      = map[string]*Term{}
	tcount    int
	stampCtr  int
	ufs       = map[string]*ufDecl{}
	strLits   = map[string]*Term{}
	varCtr    = map[string]int{}
	termCount int
)

func mk(op, name, srt string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(srt)
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	k := sb.String()
	if t, ok := tmap[k]; ok {
		return t
	}
	tcount++
	t := &Term{op: op, name: name, sort: srt, args: args, id: tcount}
	for _, a := range args {
		if a.stamp > t.stamp {
			t.stamp = a.stamp
		}
		if a.bound {
			t.bound = true
		}
	}
	tmap[k] = t
	return t
}

var (
	tTrue  = mk("true", "", "Bool")
	tFalse = mk("false", "", "Bool")
)

func nextStamp() int { stampCtr++; return stampCtr }

// Var makes a new, uniquely named symbol.
func NewVar(base, srt string) *Term {
	base = sanitize(base)
	varCtr[base]++
	n := fmt.Sprintf("%s!%d", base, varCtr[base])
	t := mk("var", n, srt)
	t.stamp = nextStamp()
	return t
}

// NamedVar returns the symbol with the exact name (created on first use, stamp 0).
func NamedVar(name, srt string) *Term { return mk("var", sanitize(name), srt) }

func BoundVar(name, srt string) *Term {
	varCtr["?"]++
	t := mk("var", fmt.Sprintf("?%s%d", sanitize(name), varCtr["?"]), srt)
	t.bound = true
	return t
}

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '_', c == '.', c == '!', c == '$', c == '?', c == '@':
			b.WriteRune(c)
		default:
			b.WriteByte('_')
		}
	}
	return b.String()
}

func Int(n int64) *Term       { return mk("int", fmt.Sprint(n), "Int") }
func BigInt(n *big.Int) *Term { return mk("int", n.String(), "Int") }
func (t *Term) isInt() bool   { return t.op == "int" }
func (t *Term) intVal() *big.Int {
	n, _ := new(big.Int).SetString(t.name, 10)
	return n
}
func Bool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func StrLit(s string) *Term {
	if t, ok := strLits[s]; ok {
		return t
	}
	t := mk("lit", s, "Str")
	strLits[s] = t
	return t
}

func Not(a *Term) *Term {
	switch {
	case a == tTrue:
		return tFalse
	case a == tFalse:
		return tTrue
	case a.op == "not":
		return a.args[0]
	}
	return mk("not", "", "Bool", a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == tTrue || seen[a] {
			return true
		}
		if a == tFalse || seen[Not(a)] {
			return false
		}
		if a.op == "and" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tFalse
		}
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return mk("and", "", "Bool", out...)
}

func Or(as ...*Term) *Term {
	ns := make([]*Term, len(as))
	for i, a := range as {
		ns[i] = Not(a)
	}
	r := And(ns...)
	if r.op == "and" {
		os := make([]*Term, len(r.args))
		for i, a := range r.args {
			os[i] = Not(a)
		}
		return mk("or", "", "Bool", os...)
	}
	return Not(r)
}

func Implies(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue || a == b {
		return tTrue
	}
	if b == tFalse {
		return Not(a)
	}
	return mk("=>", "", "Bool", a, b)
}

func Ite(c, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %s vs %s (%s / %s)", a.sort, b.sort, a, b))
	}
	switch {
	case c == tTrue, a == b:
		return a
	case c == tFalse:
		return b
	}
	if a.sort == "Bool" {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return Not(c)
		}
		if a == tTrue {
			return Or(c, b)
		}
		if b == tFalse {
			return And(c, a)
		}
		if a == tFalse {
			return And(Not(c), b)
		}
		if b == tTrue {
			return Or(Not(c), a)
		}
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	return mk("ite", "", a.sort, c, a, b)
}

// isCtor reports whether t is a value constructor with known identity.
func isCtor(t *Term) bool {
	return t.op == "int" || t.op == "lit" || t.op == "ctor" || t == tTrue || t == tFalse
}

// distinctRefs reports whether a and b are certainly different references.
func distinctRefs(a, b *Term) bool {
	if a.fresh && b.fresh {
		return a != b
	}
	if a.fresh && !b.bound && b.stamp < a.stamp {
		return true
	}
	if b.fresh && !a.bound && a.stamp < b.stamp {
		return true
	}
	return false
}

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %s vs %s: %s = %s", a.sort, b.sort, a, b))
	}
	if a.sort == "Bool" {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return Not(b)
		}
		if b == tFalse {
			return Not(a)
		}
	}
	if (a.op == "int" && b.op == "int") || (a.op == "lit" && b.op == "lit") {
		return tFalse
	}
	if a.op == "ctor" && b.op == "ctor" {
		if a.name != b.name {
			return tFalse
		}
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if a.sort == "Int" && distinctRefs(a, b) {
		return tFalse
	}
	if a.sort == "Int" {
		// x + c = c2
		if a.op == "int" {
			a, b = b, a
		}
		if b.op == "int" && a.op == "+" && len(a.args) == 2 && a.args[1].isInt() {
			return Eq(a.args[0], BigInt(new(big.Int).Sub(b.intVal(), a.args[1].intVal())))
		}
		d := Sub(a, b)
		if d.isInt() {
			return Bool(d.name == "0")
		}
	}
	// push equality with a constructor through ite when it resolves
	if isCtor(b) && a.op == "ite" {
		x, y := Eq(a.args[1], b), Eq(a.args[2], b)
		if x == tTrue || x == tFalse || y == tTrue || y == tFalse {
			return Ite(a.args[0], x, y)
		}
	}
	if isCtor(a) && b.op == "ite" {
		return Eq(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "", "Bool", a, b)
}

// linear normal form for Int sums
func lin(t *Term, k *big.Int, m map[*Term]*big.Int, c *big.Int) {
	switch {
	case t.op == "int":
		c.Add(c, new(big.Int).Mul(k, t.intVal()))
	case t.op == "+":
		for _, a := range t.args {
			lin(a, k, m, c)
		}
	case t.op == "*" && t.args[0].isInt():
		lin(t.args[1], new(big.Int).Mul(k, t.args[0].intVal()), m, c)
	default:
		if m[t] == nil {
			m[t] = new(big.Int)
		}
		m[t].Add(m[t], k)
	}
}

func unlin(m map[*Term]*big.Int, c *big.Int) *Term {
	var ks []*Term
	for t, k := range m {
		if k.Sign() != 0 {
			ks = append(ks, t)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var ts []*Term
	for _, t := range ks {
		k := m[t]
		if k.IsInt64() && k.Int64() == 1 {
			ts = append(ts, t)
		} else {
			ts = append(ts, mk("*", "", "Int", BigInt(k), t))
		}
	}
	if c.Sign() != 0 || len(ts) == 0 {
		ts = append(ts, BigInt(c))
	}
	if len(ts) == 1 {
		return ts[0]
	}
	return mk("+", "", "Int", ts...)
}

func Add(as ...*Term) *Term {
	m, c := map[*Term]*big.Int{}, new(big.Int)
	for _, a := range as {
		if a.sort != "Int" {
			panic("add of " + a.sort)
		}
		lin(a, big.NewInt(1), m, c)
	}
	return unlin(m, c)
}
func Sub(a, b *Term) *Term {
	m, c := map[*Term]*big.Int{}, new(big.Int)
	lin(a, big.NewInt(1), m, c)
	lin(b, big.NewInt(-1), m, c)
	return unlin(m, c)
}
func Mul(a, b *Term) *Term {
	if b.isInt() {
		a, b = b, a
	}
	if a.isInt() {
		m, c := map[*Term]*big.Int{}, new(big.Int)
		lin(b, a.intVal(), m, c)
		return unlin(m, c)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("*", "", "Int", a, b)
}
func Le(a, b *Term) *Term {
	d := Sub(a, b)
	if d.isInt() {
		return Bool(d.intVal().Sign() <= 0)
	}
	return mk("<=", "", "Bool", a, b)
}
func Lt(a, b *Term) *Term {
	d := Sub(a, b)
	if d.isInt() {
		return Bool(d.intVal().Sign() < 0)
	}
	return mk("<", "", "Bool", a, b)
}

// arrays
func arrSorts(s string) (string, string) {
	// "(Array K V)"
	in := s[len("(Array ") : len(s)-1]
	d := 0
	for i, c := range in {
		switch c {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}
func ArrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

func distinctIdx(a, b *Term) bool {
	return Eq(a, b) == tFalse
}

func Select(a, i *Term) *Term {
	k, v := arrSorts(a.sort)
	if k != i.sort {
		panic(fmt.Sprintf("select index sort %s, array %s", i.sort, a.sort))
	}
	for {
		switch {
		case a.op == "store":
			if a.args[1] == i {
				return a.args[2]
			}
			if distinctIdx(a.args[1], i) {
				a = a.args[0]
				continue
			}
		case a.op == "constarr":
			return a.args[0]
		case a.op == "ite":
			x, y := Select(a.args[1], i), Select(a.args[2], i)
			return Ite(a.args[0], x, y)
		case a.op == "var" && a.fbase != nil && !i.bound && i.stamp < a.fstamp:
			a = a.fbase
			continue
		}
		break
	}
	return mk("select", "", v, a, i)
}

func Store(a, i, x *Term) *Term {
	k, v := arrSorts(a.sort)
	if k != i.sort || v != x.sort {
		panic(fmt.Sprintf("store sorts: array %s idx %s val %s", a.sort, i.sort, x.sort))
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	return mk("store", "", a.sort, a, i, x)
}

func ConstArr(srt string, v *Term) *Term { return mk("constarr", "", srt, v) }

func DeclUF(name string, args []string, ret string) {
	if o, ok := ufs[name]; ok {
		if o.ret != ret || strings.Join(o.args, " ") != strings.Join(args, " ") {
			panic(fmt.Sprintf("UF %s redeclared: %v %s vs %v %s", name, o.args, o.ret, args, ret))
		}
		return
	}
	ufs[name] = &ufDecl{name, args, ret}
}

func App(name string, ret string, args ...*Term) *Term {
	name = sanitize(name)
	var as []string
	for _, a := range args {
		as = append(as, a.sort)
	}
	DeclUF(name, as, ret)
	return mk("app", name, ret, args...)
}

// Op builds a raw SMT operator application.
func Op(op, ret string, args ...*Term) *Term { return mk(op, "", ret, args...) }

func Quant(q string, bvs []*Term, body *Term, pats ...[]*Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	var names []string
	for _, b := range bvs {
		names = append(names, b.name)
	}
	k := q
	key := strings.Join(names, ",")
	for _, p := range pats {
		for _, x := range p {
			key += fmt.Sprintf(";%d", x.id)
		}
	}
	t := mk(k, key, "Bool", body)
	t.bvars = bvs
	t.pats = pats
	t.bound = hasFreeBound(body, bvs)
	return t
}

func hasFreeBound(t *Term, bvs []*Term) bool {
	set := map[*Term]bool{}
	for _, b := range bvs {
		set[b] = true
	}
	var rec func(t *Term) bool
	memo := map[*Term]bool{}
	rec = func(t *Term) bool {
		if !t.bound || memo[t] {
			return false
		}
		memo[t] = true
		if t.op == "var" {
			return !set[t]
		}
		for _, b := range t.bvars {
			set[b] = true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func Forall(bvs []*Term, body *Term, pats ...[]*Term) *Term {
	return Quant("forall", bvs, body, pats...)
}
func Exists(bvs []*Term, body *Term) *Term { return Quant("exists", bvs, body) }

// Subst replaces variables by terms, rebuilding with simplification.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = rec(a)
			if as[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, as, rec)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, as []*Term, rec func(*Term) *Term) *Term {
	switch t.op {
	case "not":
		return Not(as[0])
	case "and":
		return And(as...)
	case "or":
		return Or(as...)
	case "=>":
		return Implies(as[0], as[1])
	case "ite":
		return Ite(as[0], as[1], as[2])
	case "=":
		return Eq(as[0], as[1])
	case "+":
		return Add(as...)
	case "*":
		return Mul(as[0], as[1])
	case "<=":
		return Le(as[0], as[1])
	case "<":
		return Lt(as[0], as[1])
	case "select":
		return Select(as[0], as[1])
	case "store":
		return Store(as[0], as[1], as[2])
	case "forall", "exists":
		var pats [][]*Term
		for _, p := range t.pats {
			var q []*Term
			for _, x := range p {
				q = append(q, rec(x))
			}
			pats = append(pats, q)
		}
		return Quant(t.op, t.bvars, as[0], pats...)
	case "app":
		return mk("app", t.name, t.sort, as...)
	case "sel":
		return AnySel(t.name, t.sort, as[0])
	case "is":
		return AnyIs(t.name, as[0])
	case "seq.++":
		return SeqCat(as...)
	}
	return mk(t.op, t.name, t.sort, as...)
}

var wflMemo = map[*Term]*Term{}

// expandWfl spells out the case splits casesL(r) of a goal.
func expandWfl(t *Term) *Term {
	if len(t.args) == 0 {
		return t
	}
	if r, ok := wflMemo[t]; ok {
		return r
	}
	as := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		as[i] = expandWfl(a)
		ch = ch || as[i] != a
	}
	r := t
	if t.op == "wfl" {
		l := as[0]
		r = Or(Eq(l, mk("ctor", "lnil", "Lst")), Eq(l, mk("lcons", "", "Lst", mk("lhd", "", "Str", l), mk("ltl", "", "Lst", l))))
	} else if ch {
		r = rebuild(t, as, func(x *Term) *Term { return x })
	}
	wflMemo[t] = r
	return r
}

// The Any datatype: interface values.
// (nilI) (boxI tag Int) (boxS tag Str) (boxB tag Bool) (boxF tag Flt)
var anyCtor = map[string]string{"Int": "boxI", "Str": "boxS", "Bool": "boxB", "Flt": "boxF"}

const anyDecl = `(declare-datatypes ((Any 0)) (((nilI) (boxI (tagI Int) (valI Int)) (boxS (tagS Int) (valS Str)) (boxB (tagB Int) (valB Bool)) (boxF (tagF Int) (valF Flt)))))`

var nilAny = mk("ctor", "nilI", "Any")

func AnyBox(tag *Term, v *Term) *Term {
	c, ok := anyCtor[v.sort]
	if !ok {
		panic("box of sort " + v.sort)
	}
	return mk("ctor", c, "Any", tag, v)
}

func AnyIs(ctor string, a *Term) *Term {
	if a.op == "ctor" {
		return Bool(a.name == ctor)
	}
	if a.op == "ite" {
		x, y := AnyIs(ctor, a.args[1]), AnyIs(ctor, a.args[2])
		return Ite(a.args[0], x, y)
	}
	return mk("is", ctor, "Bool", a)
}
func AnySel(sel string, srt string, a *Term) *Term {
	if a.op == "ctor" && len(a.args) == 2 && ("box"+sel[3:]) == a.name {
		if sel[:3] == "tag" {
			return a.args[0]
		}
		return a.args[1]
	}
	if a.op == "ite" {
		x, y := AnySel(sel, srt, a.args[1]), AnySel(sel, srt, a.args[2])
		if x.op != "sel" || y.op != "sel" {
			return Ite(a.args[0], x, y)
		}
	}
	return mk("sel", sel, srt, a)
}

// AnyHas: value a has dynamic type tag (payload sort vs).
func AnyHas(a *Term, tag int, vs string) *Term {
	c := anyCtor[vs]
	return And(AnyIs(c, a), Eq(AnySel("tag"+c[3:], "Int", a), Int(int64(tag))))
}
func AnyVal(a *Term, vs string) *Term {
	c := anyCtor[vs]
	return AnySel("val"+c[3:], vs, a)
}

// sequences
func SeqSort(e string) string { return "(Seq " + e + ")" }
func SeqEmpty(e string) *Term { return mk("seqempty", "", SeqSort(e)) }
func SeqUnit(v *Term) *Term   { return mk("seq.unit", "", SeqSort(v.sort), v) }
func SeqCat(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		if a.op == "seqempty" {
			continue
		}
		if a.op == "seq.++" {
			out = append(out, a.args...)
			continue
		}
		out = append(out, a)
	}
	switch len(out) {
	case 0:
		return as[0]
	case 1:
		return out[0]
	}
	return mk("seq.++", "", out[0].sort, out...)
}
func SeqLen(s *Term) *Term {
	switch s.op {
	case "seqempty":
		return Int(0)
	case "seq.unit":
		return Int(1)
	case "seq.++":
		var ls []*Term
		for _, a := range s.args {
			ls = append(ls, SeqLen(a))
		}
		return Add(ls...)
	}
	return mk("seq.len", "", "Int", s)
}
func SeqNth(s, i *Term) *Term {
	if s.op == "seq.unit" && i.isInt() && i.name == "0" {
		return s.args[0]
	}
	if s.op == "seq.++" && i.isInt() {
		n := i
		for _, a := range s.args {
			if a.op == "seq.unit" {
				if n.name == "0" {
					return a.args[0]
				}
				n = Sub(n, Int(1))
				continue
			}
			break
		}
	}
	e := s.sort[len("(Seq ") : len(s.sort)-1]
	return mk("seq.nth", "", e, s, i)
}
func SeqSub(s, off, n *Term) *Term { return mk("seq.extract", "", s.sort, s, off, n) }

// ---------- printing ----------
func (t *Term) String() string {
	var sb strings.Builder
	writeTerm(&sb, t, nil)
	s := sb.String()
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func litName(s string) string {
	var b strings.Builder
	for _, c := range []byte(s) {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "@%02x", c)
		}
	}
	return "lit$" + b.String()
}

func writeTerm(sb *strings.Builder, t *Term, names map[*Term]string) {
	if names != nil {
		if n, ok := names[t]; ok {
			sb.WriteString(n)
			return
		}
	}
	writeNode(sb, t, names)
}

func writeNode(sb *strings.Builder, t *Term, names map[*Term]string) {
	switch t.op {
	case "var":
		sb.WriteString(t.name)
	case "true", "false":
		sb.WriteString(t.op)
	case "int":
		if strings.HasPrefix(t.name, "-") {
			sb.WriteString("(- " + t.name[1:] + ")")
		} else {
			sb.WriteString(t.name)
		}
	case "lit":
		sb.WriteString(litName(t.name))
	case "ctor", "app":
		if len(t.args) == 0 {
			sb.WriteString(t.name)
			return
		}
		writeList(sb, t.name, t.args, names)
	case "sel":
		writeList(sb, t.name, t.args, names)
	case "is":
		writeList(sb, "(_ is "+t.name+")", t.args, names)
	case "constarr":
		if t.args[0].op == "lit" || t.args[0].op == "var" {
			sb.WriteString(constArrName(t))
			return
		}
		writeList(sb, "(as const "+t.sort+")", t.args, names)
	case "wfl": // a tautology: case split on a list, wanted in goals only
		sb.WriteString("true")
	case "seqempty":
		if seqUninterp {
			sb.WriteString(seqOp("seq.empty", t.sort))
			return
		}
		sb.WriteString("(as seq.empty " + t.sort + ")")
	case "forall", "exists":
		sb.WriteString("(" + t.op + " (")
		for _, b := range t.bvars {
			sb.WriteString("(" + b.name + " " + b.sort + ")")
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		writeTerm(sb, t.args[0], names)
		for _, p := range t.pats {
			sb.WriteString(" :pattern (")
			for i, x := range p {
				if i > 0 {
					sb.WriteByte(' ')
				}
				writeTerm(sb, x, names)
			}
			sb.WriteString(")")
		}
		if len(t.pats) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
	default:
		if seqUninterp && strings.HasPrefix(t.op, "seq.") {
			switch t.op {
			case "seq.++":
				// right-nested concatenations
				op := seqOp("seq.cat", t.sort)
				for i, a := range t.args {
					if i < len(t.args)-1 {
						sb.WriteString("(" + op + " ")
					}
					writeTerm(sb, a, names)
					if i < len(t.args)-1 {
						sb.WriteByte(' ')
					}
				}
				sb.WriteString(strings.Repeat(")", len(t.args)-1))
			case "seq.unit":
				writeList(sb, seqOp("seq.unit", t.sort), t.args, names)
			case "seq.extract":
				writeList(sb, seqOp("seq.sub", t.sort), t.args, names)
			default:
				writeList(sb, seqOp(t.op, t.args[0].sort), t.args, names)
			}
			return
		}
		writeList(sb, t.op, t.args, names)
	}
}

func writeList(sb *strings.Builder, head string, args []*Term, names map[*Term]string) {
	sb.WriteString("(" + head)
	for _, a := range args {
		sb.WriteByte(' ')
		writeTerm(sb, a, names)
	}
	sb.WriteByte(')')
}

func constArrName(t *Term) string { return fmt.Sprintf("carr$%d", t.id) }

// seqOp names a sequence operation in the encoding in use.
func seqOp(op, srt string) string {
	if !seqUninterp {
		return op
	}
	return "sq." + op[4:] + "$" + srt[5:len(srt)-1]
}
