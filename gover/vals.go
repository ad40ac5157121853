package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic Go value.
type Val struct {
	t     *Term  // scalar
	comps []*Val // struct, tuple, slice (arr,off,len,cap)
	loc   *Loc   // interior pointer (t may be nil)
	typ   types.Type
}

// Loc is an address: heap[key+suffix][ref] or heap[key+suffix][ref][idx].
type Loc struct {
	key string
	ref *Term
	idx *Term
	typ types.Type // type of the thing pointed to
}

type comp struct {
	suffix string
	sort   string
	isRef  bool // pointer-like: bounded by the allocation counter
	typ    types.Type
}

var layoutCache = map[types.Type][]comp{}
var typeAlias = map[string]string{}

func under(t types.Type) types.Type { return t.Underlying() }

func isSpecSort(t types.Type) (string, bool) {
	if s, ok := t.(*specType); ok {
		return s.sort, true
	}
	return "", false
}

// specType is a pseudo go type carrying an SMT sort.
type specType struct{ sort string }

func (s *specType) Underlying() types.Type { return s }
func (s *specType) String() string         { return "spec:" + s.sort }

var specTypes = map[string]*specType{}

func SpecT(s string) types.Type {
	if t, ok := specTypes[s]; ok {
		return t
	}
	t := &specType{s}
	specTypes[s] = t
	return t
}

func layout(t types.Type) []comp {
	if l, ok := layoutCache[t]; ok {
		return l
	}
	var l []comp
	switch u := under(t).(type) {
	case *specType:
		l = []comp{{"", u.sort, false, t}}
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			l = []comp{{"", "Bool", false, t}}
		case u.Info()&types.IsInteger != 0:
			l = []comp{{"", "Int", false, t}}
		case u.Info()&types.IsString != 0:
			l = []comp{{"", "Str", false, t}}
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			l = []comp{{"", "Flt", false, t}}
		default: // unsafe.Pointer, untyped nil
			l = []comp{{"", "Int", true, t}}
		}
	case *types.Pointer, *types.Map, *types.Chan:
		l = []comp{{"", "Int", true, t}}
	case *types.Signature:
		l = []comp{{"", "Int", false, t}}
	case *types.Interface:
		l = []comp{{"", "Any", false, t}}
	case *types.Slice:
		it := types.Typ[types.Int]
		l = []comp{{".arr", "Int", true, t}, {".off", "Int", false, it}, {".len", "Int", false, it}, {".cap", "Int", false, it}}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, c := range layout(f.Type()) {
				l = append(l, comp{"." + f.Name() + c.suffix, c.sort, c.isRef, c.typ})
			}
		}
	case *types.Array:
		for _, c := range layout(u.Elem()) {
			l = append(l, comp{"@" + c.suffix, ArrSort("Int", c.sort), false, t})
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			for _, c := range layout(u.At(i).Type()) {
				l = append(l, comp{fmt.Sprintf("#%d", i) + c.suffix, c.sort, c.isRef, c.typ})
			}
		}
	default:
		panic(unsupported(fmt.Sprintf("layout of %s (%T)", t, u)))
	}
	layoutCache[t] = l
	return l
}

type unsupportedErr string

func unsupported(s string) unsupportedErr { return unsupportedErr(s) }

// typeKey names the heap region of objects of type t.
func typeKey(t types.Type) string {
	switch x := t.(type) {
	case *types.Named:
		o := x.Obj()
		p := ""
		if o.Pkg() != nil {
			p = shortPkg(o.Pkg().Path()) + "."
		}
		k := p + o.Name()
		if ta := x.TypeArgs(); ta != nil {
			for i := 0; i < ta.Len(); i++ {
				k += "~" + typeKey(ta.At(i))
			}
		}
		if a, ok := typeAlias[k]; ok {
			return a
		}
		return k
	case *types.Alias:
		return typeKey(types.Unalias(t))
	case *types.Pointer:
		return "*" + typeKey(x.Elem())
	case *types.Slice:
		return "[]" + typeKey(x.Elem())
	case *types.Map:
		return "map[" + typeKey(x.Key()) + "]" + typeKey(x.Elem())
	case *types.Interface:
		if x.Empty() {
			return "any"
		}
	case *types.Basic:
		return x.Name()
	}
	return types.TypeString(t, func(p *types.Package) string { return shortPkg(p.Path()) })
}

// objKey is the heap key of the pointee of a plain pointer to t.
func objKey(t types.Type) string {
	if _, ok := under(t).(*types.Struct); ok {
		return typeKey(t)
	}
	return "cell." + typeKey(t)
}

func elemKey(elem types.Type) string { return "elems." + typeKey(elem) }
func mapKey(m *types.Map) string     { return "map[" + typeKey(m.Key()) + "]" + typeKey(m.Elem()) }

const modPath = "github.com/openconfig/gnmi/"

func shortPkg(p string) string {
	if strings.HasPrefix(p, modPath) {
		p = p[len(modPath):]
		switch p {
		case "proto/gnmi":
			return "gpb"
		case "proto/target":
			return "tpb"
		}
		if strings.HasPrefix(p, "testing/fake/proto") {
			return "fpb"
		}
		return strings.ReplaceAll(p, "/", "_")
	}
	return p
}

// fnName is the short name of a function used as a contract key.
func fnName(f *ssa.Function) string {
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, modPath+"proto/gnmi.", "gpb.")
	s = strings.ReplaceAll(s, modPath+"proto/target.", "tpb.")
	s = strings.ReplaceAll(s, modPath, "")
	return s
}

func flat(v *Val) []*Term {
	if v.loc != nil && v.t == nil {
		v.t = locTerm(v.loc)
	}
	if v.t != nil {
		return []*Term{v.t}
	}
	var out []*Term
	for _, c := range v.comps {
		out = append(out, flat(c)...)
	}
	return out
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// unflat builds a value of type t from component terms.
func unflat(t types.Type, ts []*Term) *Val {
	v, rest := unflat1(t, ts)
	if len(rest) != 0 {
		panic("unflat: leftover terms for " + t.String())
	}
	return v
}

func unflat1(t types.Type, ts []*Term) (*Val, []*Term) {
	switch u := under(t).(type) {
	case *types.Slice:
		v := &Val{typ: t}
		for i := 0; i < 4; i++ {
			v.comps = append(v.comps, &Val{t: ts[i], typ: types.Typ[types.Int]})
		}
		return v, ts[4:]
	case *types.Struct:
		v := &Val{typ: t, comps: []*Val{}}
		for i := 0; i < u.NumFields(); i++ {
			var f *Val
			f, ts = unflat1(u.Field(i).Type(), ts)
			v.comps = append(v.comps, f)
		}
		return v, ts
	case *types.Tuple:
		v := &Val{typ: t, comps: []*Val{}}
		for i := 0; i < u.Len(); i++ {
			var f *Val
			f, ts = unflat1(u.At(i).Type(), ts)
			v.comps = append(v.comps, f)
		}
		return v, ts
	case *types.Array:
		n := len(layout(t))
		v := &Val{typ: t, comps: []*Val{}}
		for i := 0; i < n; i++ {
			v.comps = append(v.comps, &Val{t: ts[i], typ: SpecT(ts[i].sort)})
		}
		return v, ts[n:]
	}
	v := &Val{t: ts[0], typ: t}
	if l, ok := locByTerm[ts[0]]; ok {
		v.loc = l
	}
	return v, ts[1:]
}

var locByTerm = map[*Term]*Loc{}
var locTermMemo = map[string]*Term{}

// locTerm encodes an interior pointer as an opaque non-nil reference.
func locTerm(l *Loc) *Term {
	k := l.key + "|" + fmt.Sprint(l.ref.id)
	if l.idx != nil {
		k += "|" + fmt.Sprint(l.idx.id)
	}
	if t, ok := locTermMemo[k]; ok {
		return t
	}
	args := []*Term{l.ref}
	name := "addr$" + l.key
	if l.idx != nil {
		args = append(args, l.idx)
		name += "$i"
	}
	t := App(name, "Int", args...)
	locTermMemo[k] = t
	locByTerm[t] = l
	return t
}

func scalar(t *Term, typ types.Type) *Val { return &Val{t: t, typ: typ} }

func zeroTerm(c comp) *Term {
	switch c.sort {
	case "Int":
		return Int(0)
	case "Bool":
		return tFalse
	case "Str":
		return StrLit("")
	case "Flt":
		return NamedVar("flt.zero", "Flt")
	case "Any":
		return nilAny
	}
	if strings.HasPrefix(c.sort, "(Array ") {
		_, v := arrSorts(c.sort)
		return ConstArr(c.sort, zeroTerm(comp{"", v, false, nil}))
	}
	if strings.HasPrefix(c.sort, "(Seq ") {
		return SeqEmpty(c.sort[5 : len(c.sort)-1])
	}
	panic("zero of sort " + c.sort)
}

func zeroVal(t types.Type) *Val {
	var ts []*Term
	for _, c := range layout(t) {
		ts = append(ts, zeroTerm(c))
	}
	return unflat(t, ts)
}

func freshVal(base string, t types.Type) *Val {
	var ts []*Term
	for _, c := range layout(t) {
		ts = append(ts, NewVar(base+c.suffix, c.sort))
	}
	return unflat(t, ts)
}

func iteVal(c *Term, a, b *Val) *Val {
	fa, fb := flat(a), flat(b)
	if len(fa) != len(fb) {
		panic(unsupported("ite of different shapes"))
	}
	ts := make([]*Term, len(fa))
	for i := range fa {
		ts[i] = Ite(c, fa[i], fb[i])
	}
	return unflat(a.typ, ts)
}

func eqVal(a, b *Val) *Term {
	fa, fb := flat(a), flat(b)
	if len(fa) != len(fb) {
		panic(unsupported(fmt.Sprintf("eq of different shapes %v %v", a.typ, b.typ)))
	}
	var cs []*Term
	for i := range fa {
		cs = append(cs, Eq(fa[i], fb[i]))
	}
	return And(cs...)
}

// ---- dynamic type tags ----
var typeTags = map[string]int{}
var tagTypes = []types.Type{nil}

func typeTag(t types.Type) int {
	k := types.TypeString(types.Unalias(t), nil)
	if n, ok := typeTags[k]; ok {
		return n
	}
	n := len(tagTypes)
	typeTags[k] = n
	tagTypes = append(tagTypes, t)
	return n
}

// payloadSort: the sort used inside Any for a dynamic type.
func payloadSort(t types.Type) string {
	l := layout(t)
	if len(l) == 1 {
		switch l[0].sort {
		case "Int", "Str", "Bool", "Flt":
			return l[0].sort
		}
	}
	return "Int" // boxed on the heap
}
func payloadBoxed(t types.Type) bool {
	l := layout(t)
	if len(l) == 1 {
		switch l[0].sort {
		case "Int", "Str", "Bool", "Flt":
			return false
		}
	}
	return true
}
