package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

type Clause struct {
	Label  string
	Src    string
	Expr   ast.Expr
	Line   string
	Safety bool
}

type LoopSpec struct {
	Invs []*Clause
	Phis map[string]string
}

type Mod struct {
	Expr  ast.Expr
	Ghost string
	Any   bool
	Src   string
}

type HoldsC struct {
	Expr ast.Expr
	Mode string
}

type Contract struct {
	Key      string
	Pkg      string
	Params   []string
	Props    []string
	Requires []*Clause
	Ensures  []*Clause
	Modifies []Mod
	Loops    map[int]*LoopSpec
	Holds    []HoldsC
	Flags    map[string]bool
	Inline   bool
	Trusted  bool
	PureFn   bool
	Extern   bool
	Self     string
	Reads    []string
	Uses     []string
	InstUses []string
	File     string
	Why      string
	Asserts  []*Clause
	Timeout  int
	GhostSet []*goEvent
	Hooks    []*ghostHook
	OnLock   []*goEvent // ghost assignments right after a guard acquisition
	OnUnlock []*goEvent // ghost assignments right before a guard release
	Stable   []*Clause  // rely: facts no other goroutine invalidates
	HoldsAny []HoldsAny
	ThenCall int // the returned function is called this many times before thenensures
	ThenEns  []*Clause
	Iter     *IterSpec
	AtInvs   []*ghostHook // invariants over the iterations of higher-order callees
	Waits    []string // every blocking select waits on these channels too
}

// IterSpec: the function calls functions it is given once per element of a set
type IterSpec struct {
	Var   string
	Type  ast.Expr
	Where []*Clause
	Steps []iterStep
	Ends  []*Clause
}

type iterStep struct {
	Kind  string // if, try, call, set
	Ghost string
	Expr  ast.Expr
}

// ghostHook: ghost assignment just before or after the calls of a function
type ghostHook struct {
	After  bool
	Callee string
	Ghost  string
	Expr   ast.Expr
	Assert *Clause
}

type HoldsAny struct {
	Class string
	Mode  string
}

// chanEvent: ghost effects of channel operations on a struct field
type chanEvent struct {
	Op    string // send, recv, close
	Key   string
	Self  string
	Val   string
	Pkg   string
	Reqs  []*Clause
	Sets  []*goEvent
	Assum []*Clause
	Mods  []Mod
}

type Guard struct {
	Class          string
	Self           string
	Pkg            string
	Type           types.Type
	TypeName       string
	Fields         []string
	All            []Mod // contents of every object of a kind, e.g. all(T.f), allmaps(map[K]V)
	Ghosts         []string
	Invs           []*Clause
	Guarantees     []*Clause         // two-state: what a critical section may do (old: at acquisition)
	BoxedMaps      map[string]string // interface-typed field -> map type it may hold
	ReadOnlyWrites bool
}

type Def struct {
	Name   string
	Params []string
	Types  []string
	Body   ast.Expr
	Pkg    string
	Src    string
}

type UFSpec struct {
	Name string
	Args []string
	Ret  string
	Pkg  string
}

type Lemma struct {
	Name   string
	Pkg    string
	Vars   []string
	Types  []string
	Req    []*Clause
	Ens    []*Clause
	Induct string
	Props  []string
	Axiom  bool
	Uses   []string
	Pats   []string
	Why    string
}

type goEvent struct {
	Ghost string
	Expr  ast.Expr
}

type Contracts struct {
	prop string
	funcs      map[string]*Contract
	callbacks  map[string]*Contract
	ghosts     map[string]string
	traceGhost map[string]bool
	guards     map[string]*Guard
	guarded    map[string]*Guard
	guardedAny map[string]*Guard
	immutable  map[string]bool
	defs       map[string]*Def
	ufs        map[string]*UFSpec
	lemmas     map[string]*Lemma
	lemmaOrder []string
	raw        string
	goEvents   map[string][]*goEvent
	goStates   map[string][]*goEvent
	chanEvents map[string]*chanEvent // op+" "+key
	closeOnly  map[string]string     // field key -> guarding lock class ("" if none)
	lockLevel  map[string]int
	lockNested map[string]bool
	shortLocks map[string]bool
	keySorts   map[string]string
	pkgs       map[string]*packages.Package // short -> package
	byName     map[string]*types.Package
	files      []string
}

func NewContracts() *Contracts {
	return &Contracts{funcs: map[string]*Contract{}, callbacks: map[string]*Contract{}, ghosts: map[string]string{}, traceGhost: map[string]bool{}, guards: map[string]*Guard{}, guarded: map[string]*Guard{}, guardedAny: map[string]*Guard{}, immutable: map[string]bool{}, defs: map[string]*Def{}, ufs: map[string]*UFSpec{}, lemmas: map[string]*Lemma{}, goEvents: map[string][]*goEvent{}, goStates: map[string][]*goEvent{}, chanEvents: map[string]*chanEvent{}, closeOnly: map[string]string{}, lockLevel: map[string]int{}, lockNested: map[string]bool{}, shortLocks: map[string]bool{}, keySorts: map[string]string{}, pkgs: map[string]*packages.Package{}, byName: map[string]*types.Package{}}
}

func (cs *Contracts) pkgOf(short string) *types.Package {
	if p, ok := cs.pkgs[short]; ok {
		return p.Types
	}
	return nil
}

var reLabel = regexp.MustCompile(`^([a-zA-Z][\w-]*):\s+(.*)$`)

func qualify(pkg, name string) string {
	if strings.HasPrefix(name, "(*") {
		return "(*" + pkg + "." + name[2:]
	}
	if strings.HasPrefix(name, "(") {
		return "(" + pkg + "." + name[1:]
	}
	return pkg + "." + name
}

func parseExprS(s string) (ast.Expr, error) {
	return parser.ParseExpr(rewriteImp(s))
}

// rewriteImp turns A ==> B and A <==> B into implies(A,B), iff(A,B).
func rewriteImp(s string) string {
	if !strings.Contains(s, "==>") {
		return s
	}
	// split into comma segments at depth 0
	var segs []string
	d, st := 0, 0
	inStr := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' && (i == 0 || s[i-1] != '\\') {
			inStr = !inStr
		}
		if inStr {
			continue
		}
		switch c {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				segs = append(segs, s[st:i])
				st = i + 1
			}
		}
	}
	segs = append(segs, s[st:])
	for i, g := range segs {
		segs[i] = rewriteSeg(g)
	}
	return strings.Join(segs, ",")
}

func rewriteSeg(s string) string {
	d := 0
	inStr := false
	for i := 0; i+2 < len(s); i++ {
		c := s[i]
		if c == '"' {
			inStr = !inStr
		}
		if inStr {
			continue
		}
		switch c {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		}
		if d == 0 && strings.HasPrefix(s[i:], "<==>") {
			return "iff(" + rewriteSeg(s[:i]) + "," + rewriteSeg(s[i+4:]) + ")"
		}
		if d == 0 && strings.HasPrefix(s[i:], "==>") {
			return "implies(" + rewriteSeg(s[:i]) + "," + rewriteSeg(s[i+3:]) + ")"
		}
	}
	// no top-level arrow: descend into parentheses
	var sb strings.Builder
	for i := 0; i < len(s); {
		c := s[i]
		if c == '"' {
			j := i + 1
			for j < len(s) && s[j] != '"' {
				j++
			}
			sb.WriteString(s[i : j+1])
			i = j + 1
			continue
		}
		if c == '(' || c == '[' {
			d, j := 0, i
			for ; j < len(s); j++ {
				if s[j] == '(' || s[j] == '[' {
					d++
				}
				if s[j] == ')' || s[j] == ']' {
					d--
					if d == 0 {
						break
					}
				}
			}
			if j >= len(s) {
				panic("unbalanced: " + s)
			}
			sb.WriteByte(c)
			sb.WriteString(rewriteImp(s[i+1 : j]))
			sb.WriteByte(s[j])
			i = j + 1
			continue
		}
		sb.WriteByte(c)
		i++
	}
	return sb.String()
}

func (cs *Contracts) clause(s, where string) *Clause {
	c := &Clause{Src: s, Line: where}
	if m := reLabel.FindStringSubmatch(s); m != nil && m[1] != "forall" {
		c.Label, s = m[1], m[2]
	}
	e, err := parseExprS(s)
	if err != nil {
		panic(fmt.Sprintf("%s: %v in %q", where, err, s))
	}
	c.Expr = e
	return c
}

func mustExpr(s, where string) ast.Expr {
	e, err := parseExprS(s)
	if err != nil {
		panic(fmt.Sprintf("%s: %v in %q", where, err, s))
	}
	return e
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if strings.TrimSpace(s[st:]) != "" {
		out = append(out, strings.TrimSpace(s[st:]))
	}
	return out
}

// header: name(p1,p2,...) with balanced receiver parens
func splitHeader(s string) (string, []string) {
	s = strings.TrimSpace(s)
	if !strings.HasSuffix(s, ")") {
		return s, nil
	}
	d := 0
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == ')' {
			d++
		}
		if s[i] == '(' {
			d--
			if d == 0 {
				if i == 0 {
					return s, nil
				}
				return s[:i], splitTop(s[i+1 : len(s)-1])
			}
		}
	}
	return s, nil
}

func (cs *Contracts) Load(dir string) {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(fs)
	for _, f := range fs {
		cs.loadFile(f)
	}
}

func (cs *Contracts) loadFile(f string) {
	cs.files = append(cs.files, f)
	b, err := os.ReadFile(f)
	if err != nil {
		panic(err)
	}
	var lines []string
	var nums []int
	acc, start := "", 0
	for i, l := range strings.Split(string(b), "\n") {
		if k := strings.Index(l, "//"); k >= 0 && !strings.Contains(l[:k], "\"") {
			l = l[:k]
		}
		l = strings.TrimRight(l, " \t")
		if acc == "" {
			start = i + 1
		}
		if strings.HasSuffix(l, "\\") {
			acc += strings.TrimSuffix(l, "\\") + " "
			continue
		}
		lines = append(lines, strings.TrimSpace(acc+l))
		nums = append(nums, start)
		acc = ""
	}
	pkg := ""
	var con *Contract
	var loop *LoopSpec
	var grd *Guard
	var lem *Lemma
	var cev *chanEvent
	for i, l := range lines {
		if l == "" {
			continue
		}
		where := fmt.Sprintf("%s:%d", filepath.Base(f), nums[i])
		kw, rest, _ := strings.Cut(l, " ")
		rest = strings.TrimSpace(rest)
		switch kw {
		case "forprops":
			// the file states contracts for these properties only
			if cs.prop != "" {
				hit := false
				for _, p := range strings.Fields(rest) {
					hit = hit || p == cs.prop
				}
				if !hit {
					return
				}
			}
		case "package":
			pkg = rest
			con, loop, grd, lem = nil, nil, nil, nil
		case "alias":
			p := strings.Split(rest, "=")
			typeAlias[strings.TrimSpace(p[0])] = strings.TrimSpace(p[1])
		case "ghost", "trace":
			n, s, _ := strings.Cut(rest, " ")
			s = strings.TrimSpace(s)
			if m, ok := specSortNames[s]; ok {
				s = m
			}
			if _, dup := cs.ghosts[n]; dup {
				panic(where + ": ghost " + n + " declared twice")
			}
			cs.ghosts[n] = s
			if kw == "trace" {
				cs.traceGhost[n] = true
			}
		case "raw":
			cs.raw += rest + "\n"
		case "immutable":
			for _, k := range splitTop(rest) {
				cs.immutable[k] = true
			}
		case "uf":
			// uf name(T1,T2) R
			j := strings.LastIndex(rest, ")")
			n, as := splitHeader(rest[:j+1])
			cs.ufs[n] = &UFSpec{n, as, strings.TrimSpace(rest[j+1:]), pkg}
		case "def":
			h, body, ok := strings.Cut(rest, " = ")
			if !ok {
				panic(where + ": def needs ' = '")
			}
			n, ps := splitHeader(h)
			d := &Def{Name: n, Body: mustExpr(body, where), Pkg: pkg, Src: body}
			for _, p := range ps {
				nm, ty, _ := strings.Cut(p, " ")
				d.Params = append(d.Params, nm)
				d.Types = append(d.Types, ty)
			}
			cs.defs[n] = d
		case "level":
			n, s, _ := strings.Cut(rest, " ")
			v, _ := strconv.Atoi(strings.Fields(s)[0])
			cs.lockLevel[n] = v
			if strings.Contains(s, "nested") {
				cs.lockNested[n] = true
			}
			if strings.Contains(s, "short") {
				cs.shortLocks[n] = true
			}
		case "lemma", "axiom":
			con, loop, grd = nil, nil, nil
			h, why, _ := strings.Cut(rest, " -- ")
			n, ps := splitHeader(h)
			lem = &Lemma{Name: n, Pkg: pkg, Axiom: kw == "axiom", Why: why}
			for _, p := range ps {
				nm, ty, _ := strings.Cut(p, " ")
				lem.Vars = append(lem.Vars, nm)
				lem.Types = append(lem.Types, ty)
			}
			cs.lemmas[n] = lem
			cs.lemmaOrder = append(cs.lemmaOrder, n)
		case "guard":
			// guard T.mu(self)
			con, loop, lem = nil, nil, nil
			n, ps := splitHeader(rest)
			tn, _, _ := strings.Cut(n, ".")
			grd = &Guard{Class: shortPkg(modPath+pkg) + "." + n, Self: ps[0], Pkg: pkg, TypeName: tn}
			cs.guards[grd.Class] = grd
		case "func", "extern", "callback", "iface":
			loop, grd, lem = nil, nil, nil
			n, ps := splitHeader(rest)
			con = &Contract{Pkg: pkg, Params: ps, Loops: map[int]*LoopSpec{}, Flags: map[string]bool{}, File: where}
			switch kw {
			case "func":
				con.Key = qualify(pkg, n)
				cs.funcs[con.Key] = con
			case "extern":
				con.Key = n
				con.Extern, con.Trusted = true, true
				cs.funcs[con.Key] = con
			default:
				con.Key = n
				con.Extern, con.Trusted = true, true
				cs.callbacks[con.Key] = con
			}
		case "event":
			// event send|recv|close T.f(self, val)
			op, r, _ := strings.Cut(rest, " ")
			n, ps := splitHeader(r)
			ck := shortPkg(modPath+pkg) + "." + n
			if strings.Count(n, ".") > 1 { // qualified by its own package
				ck = n
			}
			cev = &chanEvent{Op: op, Key: ck, Pkg: pkg}
			if len(ps) > 0 {
				cev.Self = ps[0]
			}
			if len(ps) > 1 {
				cev.Val = ps[1]
			}
			con, loop, grd, lem = nil, nil, nil, nil
			cs.chanEvents[op+" "+cev.Key] = cev
		case "closeonly":
			// closeonly T.f [by T.mu]: nothing is ever sent on the channel
			n, by, _ := strings.Cut(rest, " by ")
			q := shortPkg(modPath+pkg) + "."
			if by != "" {
				by = q + strings.TrimSpace(by)
			}
			cs.closeOnly[q+strings.TrimSpace(n)] = by
		case "ghostset":
			g, ex, _ := strings.Cut(rest, ":=")
			ge := &goEvent{strings.TrimSpace(g), mustExpr(ex, where)}
			if con != nil {
				con.GhostSet = append(con.GhostSet, ge)
			} else {
				cev.Sets = append(cev.Sets, ge)
			}
		case "before", "after":
			// before KEY g := expr   |   before KEY assert label: expr
			n, e, _ := strings.Cut(rest, " ")
			h := &ghostHook{After: kw == "after", Callee: n}
			if r, ok := strings.CutPrefix(strings.TrimSpace(e), "assert "); ok {
				h.Assert = cs.clause(r, where)
			} else {
				g, ex, _ := strings.Cut(e, ":=")
				h.Ghost, h.Expr = strings.TrimSpace(g), mustExpr(ex, where)
			}
			con.Hooks = append(con.Hooks, h)
		case "at":
			// at KEY invariant label: expr
			n, e, _ := strings.Cut(rest, " ")
			r, ok := strings.CutPrefix(strings.TrimSpace(e), "invariant ")
			if !ok {
				panic(where + ": at KEY invariant")
			}
			con.AtInvs = append(con.AtInvs, &ghostHook{Callee: n, Assert: cs.clause(r, where)})
		case "iterate":
			n, t, _ := strings.Cut(rest, " ")
			con.Iter = &IterSpec{Var: n, Type: mustExpr(t, where)}
		case "iterwhere":
			con.Iter.Where = append(con.Iter.Where, cs.clause(rest, where))
		case "iterend":
			con.Iter.Ends = append(con.Iter.Ends, cs.clause(rest, where))
		case "step":
			k, e, _ := strings.Cut(rest, " ")
			if k == "set" {
				g, ex, _ := strings.Cut(e, ":=")
				con.Iter.Steps = append(con.Iter.Steps, iterStep{Kind: k, Ghost: strings.TrimSpace(g), Expr: mustExpr(ex, where)})
			} else {
				con.Iter.Steps = append(con.Iter.Steps, iterStep{Kind: k, Expr: mustExpr(e, where)})
			}
		case "waits":
			con.Waits = append(con.Waits, splitTop(rest)...)
		case "assume":
			cev.Assum = append(cev.Assum, cs.clause(rest, where))
		case "onlock", "onunlock":
			g, ex, _ := strings.Cut(rest, ":=")
			ge := &goEvent{strings.TrimSpace(g), mustExpr(ex, where)}
			if kw == "onlock" {
				con.OnLock = append(con.OnLock, ge)
			} else {
				con.OnUnlock = append(con.OnUnlock, ge)
			}
		case "stable":
			con.Stable = append(con.Stable, cs.clause(rest, where))
		case "holdsany":
			m, c, _ := strings.Cut(rest, " ")
			con.HoldsAny = append(con.HoldsAny, HoldsAny{shortPkg(modPath+pkg) + "." + strings.TrimSpace(c), m})
		case "thencall":
			con.ThenCall, _ = strconv.Atoi(rest)
		case "thenensures":
			con.ThenEns = append(con.ThenEns, cs.clause(rest, where))
		case "props":
			if lem != nil {
				lem.Props = strings.Fields(rest)
			} else {
				con.Props = strings.Fields(rest)
			}
		case "self":
			con.Self = rest
			con.Params = append([]string{rest}, con.Params...)
		case "requires":
			if lem != nil {
				lem.Req = append(lem.Req, cs.clause(rest, where))
			} else if con == nil && cev != nil {
				cev.Reqs = append(cev.Reqs, cs.clause(rest, where))
			} else {
				con.Requires = append(con.Requires, cs.clause(rest, where))
			}
		case "saferequires":
			c := cs.clause(rest, where)
			c.Safety = true
			con.Requires = append(con.Requires, c)
		case "ensures":
			if lem != nil {
				lem.Ens = append(lem.Ens, cs.clause(rest, where))
			} else {
				con.Ensures = append(con.Ensures, cs.clause(rest, where))
			}
		case "induct":
			lem.Induct = rest
		case "pattern":
			lem.Pats = append(lem.Pats, rest)
		case "use":
			if lem != nil {
				lem.Uses = append(lem.Uses, strings.Fields(rest)...)
			} else {
				con.Uses = append(con.Uses, strings.Fields(rest)...)
			}
		case "modifies":
			for _, m := range splitTop(rest) {
				if con == nil && strings.HasPrefix(m, "ghost(") {
					cev.Mods = append(cev.Mods, Mod{Ghost: m[6 : len(m)-1], Src: m})
					continue
				}
				if con == nil {
					cev.Mods = append(cev.Mods, Mod{Expr: mustExpr(m, where), Src: m})
					continue
				}
				switch {
				case m == "any":
					con.Modifies = append(con.Modifies, Mod{Any: true, Src: m})
				case strings.HasPrefix(m, "ghost("):
					con.Modifies = append(con.Modifies, Mod{Ghost: m[6 : len(m)-1], Src: m})
				default:
					con.Modifies = append(con.Modifies, Mod{Expr: mustExpr(m, where), Src: m})
				}
			}
		case "holds":
			m, e, _ := strings.Cut(rest, " ")
			con.Holds = append(con.Holds, HoldsC{mustExpr(e, where), m})
		case "loop":
			n, err := strconv.Atoi(strings.Fields(rest)[0])
			if err != nil {
				panic(where + ": loop ordinal")
			}
			loop = &LoopSpec{Phis: map[string]string{}}
			con.Loops[n] = loop
		case "bind":
			// bind name type : the loop's phi of that type
			n, t, _ := strings.Cut(rest, " ")
			loop.Phis[n] = strings.TrimSpace(t)
		case "invariant":
			if grd != nil {
				grd.Invs = append(grd.Invs, cs.clause(rest, where))
			} else {
				loop.Invs = append(loop.Invs, cs.clause(rest, where))
			}
		case "fields":
			grd.Fields = append(grd.Fields, splitTop(rest)...)
		case "readers":
			// writes are allowed under the read lock (documented discipline)
			grd.ReadOnlyWrites = true
		case "all":
			for _, m := range splitTop(rest) {
				grd.All = append(grd.All, Mod{Expr: mustExpr(m, where), Src: m})
			}
		case "boxedmap":
			// boxedmap f T: field f, of interface type, may hold a map of type T protected by the same lock
			f := strings.Fields(rest)
			if grd.BoxedMaps == nil {
				grd.BoxedMaps = map[string]string{}
			}
			grd.BoxedMaps[f[0]] = f[1]
		case "guarantee":
			grd.Guarantees = append(grd.Guarantees, cs.clause(rest, where))
		case "gghost":
			grd.Ghosts = append(grd.Ghosts, splitTop(rest)...)
		case "reads":
			con.Reads = append(con.Reads, splitTop(rest)...)
		case "flags":
			for _, k := range strings.Fields(rest) {
				con.Flags[k] = true
			}
		case "inline":
			con.Inline = true
		case "timeout":
			con.Timeout, _ = strconv.Atoi(rest)
		case "trusted":
			con.Trusted = true
			con.Why = rest
		case "pure":
			con.PureFn = true
		case "gostate":
			n, body, _ := strings.Cut(rest, " ")
			g, ex, _ := strings.Cut(body, ":=")
			k := qualify(pkg, n)
			cs.goStates[k] = append(cs.goStates[k], &goEvent{strings.TrimSpace(g), mustExpr(ex, where)})
		case "goevent":
			n, e, _ := strings.Cut(rest, " ")
			g, ex, _ := strings.Cut(e, ":=")
			cs.goEvents[qualify(pkg, n)] = append(cs.goEvents[qualify(pkg, n)], &goEvent{strings.TrimSpace(g), mustExpr(ex, where)})
		default:
			panic(where + ": unknown keyword " + kw)
		}
	}
}

func (cs *Contracts) resolveGuards() {
	for _, g := range cs.guards {
		p := cs.pkgOf(g.Pkg)
		if p == nil {
			continue
		}
		o := p.Scope().Lookup(g.TypeName)
		if o == nil {
			g.Type = nil
			continue
		}
		g.Type = o.Type()
		for _, f := range g.Fields {
			cs.guarded[objKey(g.Type)+"."+f] = g
		}
		for _, m := range g.All {
			c, ok := m.Expr.(*ast.CallExpr)
			if !ok || len(c.Args) != 1 {
				continue
			}
			if sel, ok := c.Args[0].(*ast.SelectorExpr); ok {
				if id, ok := sel.X.(*ast.Ident); ok {
					if o := p.Scope().Lookup(id.Name); o != nil {
						cs.guardedAny[objKey(o.Type())+"."+sel.Sel.Name] = g
					}
				}
			}
		}
	}
}

// ---------- evaluation ----------

type SV struct {
	v *Val
	t types.Type
}

type Env struct {
	x     *Exec
	st    *State
	old   *State
	vars  map[string]*SV
	pkg   *types.Package
	con   *Contract
	a     *act
	lc    *loopCtx
	vars2 map[string]*SV
	phi0  bool // loop phis denote their values at loop entry
	pre   *State // state before an iteration
}

func (x *Exec) envFor(a *act, st *State, lc *loopCtx) *Env {
	e := &Env{x: x, st: st, old: x.oldState(a), vars: map[string]*SV{}, a: a, lc: lc, con: a.con}
	if a.fn.Package() != nil {
		e.pkg = a.fn.Package().Pkg
	} else if a.fn.Parent() != nil && a.fn.Parent().Package() != nil {
		e.pkg = a.fn.Parent().Package().Pkg
	}
	if a.con != nil {
		for i, p := range a.con.Params {
			if i < len(a.args) {
				e.vars[p] = &SV{v: a.args[i], t: a.args[i].typ}
			}
		}
	}
	return e
}

func (x *Exec) oldState(a *act) *State { return a.entry }

func (x *Exec) evalClause(c *Clause, e *Env) *Term {
	x.silent++
	defer func() {
		x.silent--
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				panic(unsupported(c.Line + ": " + string(u)))
			}
			panic(r)
		}
	}()
	sv := e.eval(c.Expr)
	if sv.v.t == nil || sv.v.t.sort != "Bool" {
		panic(unsupported("clause is not boolean: " + c.Src))
	}
	return sv.v.t
}

func (e *Env) sub() *Env {
	n := *e
	n.vars = make(map[string]*SV, len(e.vars)+2)
	for k, v := range e.vars {
		n.vars[k] = v
	}
	return &n
}

func bad(f string, a ...any) { panic(unsupported(fmt.Sprintf(f, a...))) }

func boolSV(t *Term) *SV { return &SV{v: scalar(t, types.Typ[types.Bool]), t: types.Typ[types.Bool]} }
func intSV(t *Term) *SV  { return &SV{v: scalar(t, types.Typ[types.Int]), t: types.Typ[types.Int]} }
func specSV(t *Term) *SV {
	var ty types.Type
	switch t.sort {
	case "Int":
		ty = types.Typ[types.Int]
	case "Bool":
		ty = types.Typ[types.Bool]
	case "Str":
		ty = types.Typ[types.String]
	case "Flt":
		ty = types.Typ[types.Float64]
	case "Any":
		ty = types.NewInterfaceType(nil, nil)
	default:
		ty = SpecT(t.sort)
	}
	return &SV{v: scalar(t, ty), t: ty}
}

var specSortNames = map[string]string{"Seq": "(Seq Str)", "SeqI": "(Seq Int)", "SeqA": "(Seq Any)", "Str": "Str", "Int": "Int", "Bool": "Bool", "Flt": "Flt", "Any": "Any", "MapSB": "(Array Str Bool)", "SetStr": "(Array Str Bool)", "SetAny": "(Array Any Bool)", "SetInt": "(Array Int Bool)", "SetSeq": "(Array (Seq Str) Bool)", "MapSA": "(Array (Seq Str) Any)", "MapAI": "(Array Any Int)", "MapSI": "(Array Str Int)", "MapII": "(Array Int Int)", "MapSeqI": "(Array (Seq Str) Int)", "List": "Lst", "SetList": "(Array Lst Bool)", "MapLA": "(Array Lst Any)", "MapIS": "(Array Int Str)", "MapILA": "(Array Int (Array Lst Any))", "MapILSA": "(Array Int (Array Lst (Array Any Bool)))", "SetII": "(Array Int Bool)", "MapIL": "(Array Int Lst)", "MapLI": "(Array Lst Int)", "MapILI": "(Array Int (Array Lst Int))", "MapIII": "(Array Int (Array Int Int))", "MapIIB": "(Array Int (Array Int Bool))", "LSA": "(Array Lst (Array Any Bool))", "MapAB": "(Array Any Bool)", "MapIB": "(Array Int Bool)", "MapISI": "(Array Int (Array Str Int))", "MapIQ": "(Array Int (Seq Str))", "MapIA": "(Array Int Any)", "MapISB": "(Array Int (Array Str Bool))"}

func (e *Env) resolveType(x ast.Expr) types.Type {
	switch n := x.(type) {
	case *ast.Ident:
		if s, ok := specSortNames[n.Name]; ok {
			switch s {
			case "Str":
				return types.Typ[types.String]
			case "Int":
				return types.Typ[types.Int]
			case "Bool":
				return types.Typ[types.Bool]
			case "Flt":
				return types.Typ[types.Float64]
			case "Any":
				return types.NewInterfaceType(nil, nil)
			}
			return SpecT(s)
		}
		if o := types.Universe.Lookup(n.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
		if e.pkg != nil {
			if o, ok := e.pkg.Scope().Lookup(n.Name).(*types.TypeName); ok {
				return o.Type()
			}
		}
	case *ast.StarExpr:
		return types.NewPointer(e.resolveType(n.X))
	case *ast.ArrayType:
		if n.Len == nil {
			return types.NewSlice(e.resolveType(n.Elt))
		}
	case *ast.MapType:
		return types.NewMap(e.resolveType(n.Key), e.resolveType(n.Value))
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil)
	case *ast.StructType:
		if n.Fields.NumFields() == 0 {
			return types.NewStruct(nil, nil)
		}
	case *ast.ChanType:
		return types.NewChan(types.SendRecv, e.resolveType(n.Value))
	case *ast.ParenExpr:
		return e.resolveType(n.X)
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok {
			if p := e.x.cs.findPkg(id.Name, e.pkg); p != nil {
				if o, ok := p.Scope().Lookup(n.Sel.Name).(*types.TypeName); ok {
					return o.Type()
				}
			}
		}
	}
	bad("type %s", exprStr(x))
	return nil
}

func (cs *Contracts) findPkg(name string, from *types.Package) *types.Package {
	switch name {
	case "gpb":
		return cs.byName["github.com/openconfig/gnmi/proto/gnmi"]
	case "tpb":
		return cs.byName["github.com/openconfig/gnmi/proto/target"]
	case "fpb":
		return cs.byName["github.com/openconfig/gnmi/testing/fake/proto"]
	}
	if from != nil {
		for _, p := range from.Imports() {
			if p.Name() == name {
				return p
			}
		}
	}
	for path, p := range cs.byName {
		if p.Name() == name && strings.HasPrefix(path, modPath) {
			return p
		}
	}
	return nil
}

func exprStr(x ast.Expr) string {
	var sb strings.Builder
	ast.Fprint(&sb, nil, x, nil)
	return types.ExprString(x)
}

// rangedOver: the slice S of a loop whose header tests i < len(S).
func rangedOver(hdr *ssa.BasicBlock) ssa.Value {
	for _, in := range hdr.Instrs { // range over a map
		if nx, ok := in.(*ssa.Next); ok {
			if r, ok := nx.Iter.(*ssa.Range); ok {
				return r.X
			}
		}
	}
	i, ok := hdr.Instrs[len(hdr.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	b, ok := i.Cond.(*ssa.BinOp)
	if !ok || b.Op != token.LSS {
		return nil
	}
	c, ok := b.Y.(*ssa.Call)
	if !ok {
		return nil
	}
	if f, ok := c.Call.Value.(*ssa.Builtin); !ok || f.Name() != "len" {
		return nil
	}
	return c.Call.Args[0]
}

func (e *Env) lookupIdent(name string) *SV {
	switch name {
	case "true":
		return boolSV(tTrue)
	case "false":
		return boolSV(tFalse)
	case "nil":
		return &SV{v: nil, t: types.Typ[types.UntypedNil]}
	}
	if v, ok := e.vars[name]; ok && e.lc == nil {
		return v
	}
	if e.lc != nil {
		if v, ok := e.vars["?"+name]; ok { // bound by a quantifier
			return v
		}
		if name == "iter" {
			return intSV(e.st.ghost[iterName(e.a, e.lc)])
		}
		if name == "ranged" { // the slice whose length bounds the loop
			if s := rangedOver(e.lc.hdr); s != nil {
				return &SV{v: e.x.val(e.a, s), t: s.Type()}
			}
			bad("ranged: loop %d does not count up to the length of a slice", e.lc.ord)
		}
		if e.lc.spec != nil {
			if ty, ok := e.lc.spec.Phis[name]; ok {
				var found *ssa.Phi
				n := 0
				for _, in := range e.lc.hdr.Instrs {
					p, isP := in.(*ssa.Phi)
					if !isP {
						break
					}
					if typeStr(p.Type()) == ty {
						if p.Comment == name {
							found, n = p, 1
							break
						}
						found = p
						n++
					}
				}
				if n == 1 && e.phi0 {
					if v, ok := e.lc.phi0[found]; ok {
						return &SV{v: v, t: found.Type()}
					}
				}
				if n == 1 {
					return &SV{v: e.a.env[found], t: found.Type()}
				}
				if nb, ok := e.a.names[name]; ok {
					return e.fromName(nb)
				}
				// a captured variable kept in memory, or renamed: unique allocation of that type
				bad("loop variable %s of type %s (%d candidates)", name, ty, n)
			}
		}
	}
	if v, ok := e.vars2[name]; ok {
		return v
	}
	if e.a != nil {
		if nb, ok := e.a.names[name]; ok {
			return e.fromName(nb)
		}
	}
	if v, ok := e.vars[name]; ok {
		return v
	}
	if _, ok := e.x.cs.ghosts[name]; ok {
		return specSV(e.x.gget(e.st, name))
	}
	if u, ok := e.x.cs.ufs[name]; ok && len(u.Args) == 0 {
		return e.callUF(u, nil)
	}
	if d, ok := e.x.cs.defs[name]; ok && len(d.Params) == 0 {
		return e.callDef(d, nil)
	}
	if e.pkg != nil {
		switch o := e.pkg.Scope().Lookup(name).(type) {
		case *types.Const:
			return constSV(o)
		case *types.Var:
			l := &Loc{key: "g." + shortPkg(e.pkg.Path()) + "." + name, ref: Int(0), typ: o.Type()}
			if v, ok := e.x.constGlobal(l); ok {
				return &SV{v: v, t: o.Type()}
			}
			return &SV{v: e.x.load(e.st, l), t: o.Type()}
		}
	}
	if e.vars2 != nil && e.x.root != nil { // hooks in an inlined callee: parameters of the function under contract
		if v, ok := e.x.rootVars[name]; ok {
			return v
		}
	}
	bad("identifier %s", name)
	return nil
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (e *Env) fromName(nb *nameB) *SV {
	if nb.addr {
		el := nb.v.typ.Underlying().(*types.Pointer).Elem()
		l := e.x.ptrLoc(nb.v, el)
		return &SV{v: e.x.load(e.st, l), t: el}
	}
	return &SV{v: nb.v, t: nb.v.typ}
}

func constSV(o *types.Const) *SV {
	v := ssa.NewConst(o.Val(), o.Type())
	if b, ok := o.Type().(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		v = ssa.NewConst(o.Val(), types.Default(o.Type()))
	}
	r := constVal(v)
	return &SV{v: r, t: r.typ}
}

func (e *Env) coerce(s *SV, t types.Type) *SV {
	if s.v == nil {
		z := zeroVal(t)
		return &SV{v: z, t: t}
	}
	if b, ok := s.t.(*types.Basic); ok && b.Kind() == types.Int && s.v.t != nil && s.v.t.isInt() {
		if tb, ok := under(t).(*types.Basic); ok && tb.Info()&types.IsFloat != 0 {
			return &SV{v: scalar(realLit(new(big.Rat).SetInt(s.v.t.intVal())), t), t: t}
		}
	}
	return s
}

func (e *Env) eval(n ast.Expr) *SV {
	switch n := n.(type) {
	case *ast.ParenExpr:
		return e.eval(n.X)
	case *ast.Ident:
		return e.lookupIdent(n.Name)
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT:
			v := constant.MakeFromLiteral(n.Value, token.INT, 0)
			b, _ := new(big.Int).SetString(v.ExactString(), 10)
			return intSV(BigInt(b))
		case token.STRING:
			s, _ := strconv.Unquote(n.Value)
			return specSV(StrLit(s))
		case token.FLOAT:
			r, _ := new(big.Rat).SetString(n.Value)
			return specSV(realLit(r))
		}
	case *ast.UnaryExpr:
		v := e.eval(n.X)
		switch n.Op {
		case token.NOT:
			return boolSV(Not(v.v.t))
		case token.SUB:
			return &SV{v: scalar(Sub(Int(0), v.v.t), v.t), t: v.t}
		}
	case *ast.StarExpr:
		v := e.eval(n.X)
		el := under(v.t).(*types.Pointer).Elem()
		return &SV{v: e.x.load(e.st, e.x.ptrLoc(v.v, el)), t: el}
	case *ast.BinaryExpr:
		return e.binary(n)
	case *ast.SelectorExpr:
		return e.selector(n)
	case *ast.IndexExpr:
		return e.index(e.eval(n.X), n.Index)
	case *ast.SliceExpr:
		v := e.eval(n.X)
		lo := Int(0)
		if n.Low != nil {
			lo = e.eval(n.Low).v.t
		}
		if v.v.t != nil && strings.HasPrefix(v.v.t.sort, "(Seq") {
			hi := SeqLen(v.v.t)
			if n.High != nil {
				hi = e.eval(n.High).v.t
			}
			return specSV(SeqSub(v.v.t, lo, Sub(hi, lo)))
		}
		hi := v.v.comps[2].t
		if n.High != nil {
			hi = e.eval(n.High).v.t
		}
		return &SV{v: mkSlice(v.t, v.v.comps[0].t, Add(v.v.comps[1].t, lo), Sub(hi, lo), Sub(v.v.comps[3].t, lo)), t: v.t}
	case *ast.TypeAssertExpr:
		v := e.eval(n.X)
		t := e.resolveType(n.Type)
		return &SV{v: e.x.unbox(e.st, v.v.t, t), t: t}
	case *ast.CallExpr:
		return e.callExpr(n)
	}
	bad("spec expression %s", exprStr(n))
	return nil
}

func (e *Env) binary(n *ast.BinaryExpr) *SV {
	switch n.Op {
	case token.LAND:
		return boolSV(And(e.eval(n.X).v.t, e.eval(n.Y).v.t))
	case token.LOR:
		return boolSV(Or(e.eval(n.X).v.t, e.eval(n.Y).v.t))
	}
	l, r := e.eval(n.X), e.eval(n.Y)
	if l.v == nil && r.v == nil {
		return boolSV(Bool(n.Op == token.EQL))
	}
	if l.v == nil {
		l = e.coerce(l, r.t)
	}
	if r.v == nil {
		r = e.coerce(r, l.t)
	}
	l, r = e.coerce(l, r.t), e.coerce(r, l.t)
	switch n.Op {
	case token.EQL, token.NEQ:
		var t *Term
		if _, ok := under(l.t).(*types.Slice); ok && isNilVal(r.v) {
			t = Eq(l.v.comps[0].t, Int(0))
		} else if l.v.t != nil && r.v.t != nil && l.v.t.sort != r.v.t.sort {
			// interface versus concrete
			if l.v.t.sort == "Any" {
				t = Eq(l.v.t, e.x.box(e.st, r.v, r.t))
			} else if r.v.t.sort == "Any" {
				t = Eq(e.x.box(e.st, l.v, l.t), r.v.t)
			} else {
				bad("comparing %s with %s in %s", l.v.t.sort, r.v.t.sort, exprStr(n))
			}
		} else {
			t = eqVal(l.v, r.v)
		}
		if n.Op == token.NEQ {
			t = Not(t)
		}
		return boolSV(t)
	}
	p, q := l.v.t, r.v.t
	if p != nil && strings.HasPrefix(p.sort, "(Seq") && n.Op == token.ADD {
		return specSV(SeqCat(p, q))
	}
	if p == nil || q == nil {
		bad("operands of %s", exprStr(n))
	}
	saved := e.x.exact
	e.x.exact = false // specification arithmetic is mathematical
	t := e.x.arithOp(e.st, nil, n.Op, p, q, l.t, token.NoPos)
	e.x.exact = saved
	if t.sort == "Bool" {
		return boolSV(t)
	}
	return &SV{v: scalar(t, l.t), t: l.t}
}

func (e *Env) selector(n *ast.SelectorExpr) *SV {
	if id, ok := n.X.(*ast.Ident); ok {
		if _, isVar := e.vars[id.Name]; !isVar && (e.a == nil || e.a.names[id.Name] == nil) && e.x.cs.ghosts[id.Name] == "" {
			if p := e.x.cs.findPkg(id.Name, e.pkg); p != nil {
				switch o := p.Scope().Lookup(n.Sel.Name).(type) {
				case *types.Const:
					return constSV(o)
				case *types.Var:
					l := &Loc{key: "g." + shortPkg(p.Path()) + "." + o.Name(), ref: Int(0), typ: o.Type()}
					return &SV{v: e.x.load(e.st, l), t: o.Type()}
				}
				bad("package member %s", exprStr(n))
			}
		}
	}
	v := e.eval(n.X)
	return e.field(v, n.Sel.Name)
}

func (e *Env) field(v *SV, name string) *SV {
	if v.v == nil {
		bad("field %s of nil", name)
	}
	obj, path, _ := types.LookupFieldOrMethod(v.t, true, e.pkgFor(v.t), name)
	if _, ok := obj.(*types.Var); !ok {
		bad("no field %s in %s", name, v.t)
	}
	cur := v
	for _, i := range path {
		switch u := under(cur.t).(type) {
		case *types.Pointer:
			s := under(u.Elem()).(*types.Struct)
			l := fieldLoc(e.x.ptrLoc(cur.v, u.Elem()), s, i)
			cur = &SV{v: e.x.load(e.st, l), t: s.Field(i).Type()}
		case *types.Struct:
			cur = &SV{v: cur.v.comps[i], t: u.Field(i).Type()}
		}
	}
	return cur
}

func (e *Env) pkgFor(t types.Type) *types.Package {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg()
	}
	return e.pkg
}

func (e *Env) index(v *SV, ix ast.Expr) *SV {
	i := e.eval(ix)
	switch u := under(v.t).(type) {
	case *types.Slice:
		l := &Loc{key: elemKey(u.Elem()), ref: v.v.comps[0].t, idx: Add(v.v.comps[1].t, i.v.t), typ: u.Elem()}
		return &SV{v: e.x.load(e.st, l), t: u.Elem()}
	case *types.Map:
		k := flat(e.asKey(i, u.Key()))[0]
		has := e.x.mapHas(e.st, u, v.v.t, k)
		val := e.x.mapGet(e.st, u, v.v.t, k)
		return &SV{v: iteVal(has, val, zeroVal(u.Elem())), t: u.Elem()}
	case *specType:
		if strings.HasPrefix(u.sort, "(Seq") {
			return specSV(SeqNth(v.v.t, i.v.t))
		}
		if strings.HasPrefix(u.sort, "(Array") {
			return specSV(Select(v.v.t, i.v.t))
		}
	}
	bad("index of %s", v.t)
	return nil
}

func (e *Env) asKey(i *SV, t types.Type) *Val {
	if _, ok := under(t).(*types.Interface); ok && i.v.t != nil && i.v.t.sort != "Any" {
		return scalar(e.x.box(e.st, i.v, i.t), t)
	}
	return i.v
}

func (e *Env) callUF(u *UFSpec, args []*Term) *SV {
	p := e.sub()
	if q := e.x.cs.pkgOf(u.Pkg); q != nil {
		p.pkg = q
	}
	rt := p.resolveType(mustExpr(u.Ret, "uf "+u.Name))
	l := layout(rt)
	if len(l) != 1 {
		bad("uf result type")
	}
	t := App(u.Name, l[0].sort, args...)
	return &SV{v: scalar(t, rt), t: rt}
}

func (e *Env) callDef(d *Def, args []*SV) *SV {
	n := &Env{x: e.x, st: e.st, old: e.old, vars: map[string]*SV{}, pkg: e.pkg, con: e.con}
	if p := e.x.cs.pkgOf(d.Pkg); p != nil {
		n.pkg = p
	}
	if len(args) != len(d.Params) {
		bad("def %s: %d arguments", d.Name, len(args))
	}
	for i, p := range d.Params {
		a := args[i]
		if d.Types[i] != "" {
			t := n.resolveType(mustExpr(d.Types[i], "def"))
			a = n.coerce(a, t)
			a = &SV{v: a.v, t: t}
		}
		n.vars[p] = a
	}
	return n.eval(d.Body)
}

func (e *Env) quant(n *ast.CallExpr, all bool) *SV {
	name := n.Args[0].(*ast.Ident).Name
	t := e.resolveType(n.Args[1])
	l := layout(t)
	if len(l) != 1 {
		bad("quantified type %s", t)
	}
	bv := BoundVar(name, l[0].sort)
	s := e.sub()
	sv := &SV{v: &Val{t: bv, typ: t}, t: t}
	s.vars[name] = sv
	s.vars["?"+name] = sv
	if e.a != nil {
		a2 := *e.a
		s.a = &a2
		a2.names = map[string]*nameB{}
		for k, v := range e.a.names {
			if k != name {
				a2.names[k] = v
			}
		}
	}
	body := s.eval(n.Args[2]).v.t
	var pats [][]*Term
	for _, p := range n.Args[3:] {
		pt := s.eval(p).v.t
		if pt != nil && !isVarTerm(pt) && pt.bound {
			pats = append(pats, []*Term{e.cleanPat(pt)})
		}
	}
	q := "exists"
	if all {
		q = "forall"
		// merge directly nested universal quantifiers
		if body.op == "forall" && len(pats) == 0 {
			return boolSV(Quant("forall", append([]*Term{bv}, body.bvars...), body.args[0], body.pats...))
		}
	}
	return boolSV(Quant(q, []*Term{bv}, body, pats...))
}

// cleanPat names the ground subterms of a pattern that solvers reject there.
func (e *Env) cleanPat(t *Term) *Term {
	m := map[*Term]*Term{}
	var bad func(t *Term) bool
	bad = func(t *Term) bool {
		switch t.op {
		case "ite", "not", "and", "or", "=", "=>", "<", "<=":
			return true
		}
		for _, a := range t.args {
			if bad(a) {
				return true
			}
		}
		return false
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.bound {
			if m[t] == nil && bad(t) {
				v := NewVar("pat", t.sort)
				e.st.fact(Eq(v, t))
				m[t] = v
			}
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	if len(m) == 0 {
		return t
	}
	return Subst(t, m)
}

func isVarTerm(t *Term) bool {
	return t.op == "var" || t.op == "ite" || t.op == "not" || t.op == "and" || t.op == "or" || t.op == "="
}

func (e *Env) withState(st *State) *Env {
	n := *e
	n.st = st
	return &n
}

func (e *Env) callExpr(n *ast.CallExpr) *SV {
	if id, ok := n.Fun.(*ast.Ident); ok {
		switch id.Name {
		case "forall":
			return e.quant(n, true)
		case "exists":
			return e.quant(n, false)
		case "old":
			o := e.withState(e.old)
			o.a = nil
			if e.a != nil {
				// names still denote entry values of parameters
				o.lc = nil
			}
			r := o.eval(n.Args[0])
			return r
		case "atunlock":
			// the state right before the last release of a guard
			src := e.st.atunlock
			if src == nil {
				src = e.old
			}
			o := e.withState(src)
			o.lc = nil
			o.a = nil
			return o.eval(n.Args[0])
		case "atlock":
			// the state right after the first lock acquisition of this function
			src := e.st.atlock
			if src == nil {
				src = e.old
			}
			o := e.withState(src)
			o.lc = nil
			o.a = nil
			return o.eval(n.Args[0])
		case "pre":
			if e.lc == nil && e.pre != nil {
				o := e.withState(e.pre)
				return o.eval(n.Args[0])
			}
			o := e.withState(e.lc.pre)
			o.phi0 = true
			return o.eval(n.Args[0])
		case "implies":
			l := e.eval(n.Args[0]).v.t
			if l == tFalse {
				return boolSV(tTrue)
			}
			return boolSV(Implies(l, e.eval(n.Args[1]).v.t))
		case "iff":
			return boolSV(Eq(e.eval(n.Args[0]).v.t, e.eval(n.Args[1]).v.t))
		case "ite":
			c := e.eval(n.Args[0]).v.t
			a, b := e.eval(n.Args[1]), e.eval(n.Args[2])
			if a.v == nil {
				a = e.coerce(a, b.t)
			}
			b = e.coerce(b, a.t)
			return &SV{v: iteVal(c, a.v, b.v), t: a.t}
		case "len", "cap":
			v := e.eval(n.Args[0])
			switch u := under(v.t).(type) {
			case *types.Slice:
				if id.Name == "cap" {
					return intSV(v.v.comps[3].t)
				}
				return intSV(v.v.comps[2].t)
			case *types.Map:
				return intSV(e.x.mapLen(e.st, u, v.v.t))
			case *types.Basic:
				if v.v.t.op == "lit" {
					return intSV(Int(int64(len(v.v.t.name))))
				}
				return intSV(App("strlen", "Int", v.v.t))
			case *specType:
				return intSV(SeqLen(v.v.t))
			}
			bad("len of %s", v.t)
		case "has":
			v := e.eval(n.Args[0])
			k := e.eval(n.Args[1])
			if m, ok := under(v.t).(*types.Map); ok {
				return boolSV(e.x.mapHas(e.st, m, v.v.t, flat(e.asKey(k, m.Key()))[0]))
			}
			return boolSV(Select(v.v.t, k.v.t))
		case "domain":
			v := e.eval(n.Args[0])
			m := under(v.t).(*types.Map)
			return specSV(e.x.mapDom(e.st, m, v.v.t))
		case "visited":
			k := e.eval(n.Args[0])
			id := e.iterOf(n)
			return boolSV(Select(e.st.ghost[id], k.v.t))
		case "ndom0":
			id := e.iterOf(n)
			k := e.eval(n.Args[0])
			return boolSV(Select(e.st.ghost[id+".dom0"], k.v.t))
		case "store":
			a, i, v := e.eval(n.Args[0]), e.eval(n.Args[1]), e.eval(n.Args[2])
			_, es := arrSorts(a.v.t.sort)
			vt := v.v
			if vt == nil {
				vt = scalar(zeroTerm(comp{"", es, false, nil}), SpecT(es))
			}
			it := i.v.t
			ks, _ := arrSorts(a.v.t.sort)
			if ks == "Any" && it.sort != "Any" {
				it = e.x.box(e.st, i.v, i.t)
			}
			vtt := flat(vt)[0]
			if es == "Any" && vtt.sort != "Any" {
				vtt = e.x.box(e.st, v.v, v.t)
			}
			return specSV(Store(a.v.t, it, vtt))
		case "constarr":
			t := e.resolveType(n.Args[0])
			v := e.eval(n.Args[1])
			return specSV(ConstArr(layout(t)[0].sort, v.v.t))
		case "seqof":
			v := e.eval(n.Args[0])
			return specSV(e.x.seqOf(e.st, v.v))
		case "offof":
			// offof(s): the index in the backing array of element 0 of slice s
			v := e.eval(n.Args[0])
			return &SV{v: scalar(v.v.comps[1].t, types.Typ[types.Int]), t: types.Typ[types.Int]}
		case "rawat":
			// rawat(s, j): element j of the backing array of slice s (element i is rawat(s, offof(s)+i))
			v := e.eval(n.Args[0])
			j := e.eval(n.Args[1]).v.t
			el := under(v.t).(*types.Slice).Elem()
			l := layout(el)
			if len(l) != 1 {
				bad("rawat of struct slice")
			}
			inner := e.x.innerOf(e.st, elemKey(el), l[0].suffix, l[0].sort, v.v.comps[0].t)
			return &SV{v: scalar(mk("select", "", l[0].sort, inner, j), el), t: el}
		case "seqpre":
			// seqpre(s, i): the first i elements of slice s, with its recursion equations
			v := e.eval(n.Args[0])
			i := e.eval(n.Args[1]).v.t
			el := under(v.t).(*types.Slice).Elem()
			l := layout(el)
			if len(l) != 1 {
				bad("seqpre of struct slice")
			}
			inner := e.x.innerOf(e.st, elemKey(el), l[0].suffix, l[0].sort, v.v.comps[0].t)
			off := v.v.comps[1].t
			t := seqUF(inner, off, i)
			if !i.bound {
				e.st.fact(Implies(Eq(i, Int(0)), Eq(t, SeqEmpty(l[0].sort))))
				pv := Sub(i, Int(1))
				e.st.fact(Implies(Lt(Int(0), i), Eq(t, SeqCat(seqUF(inner, off, pv), SeqUnit(Select(inner, Add(off, pv)))))))
				e.st.fact(Implies(Lt(Int(0), i), Implies(Eq(pv, Int(0)), Eq(seqUF(inner, off, pv), SeqEmpty(l[0].sort)))))
			}
			return specSV(t)
		case "by":
			// by(lemma(args), ..., P): P, with the named lemma instances available
			for _, h := range n.Args[:len(n.Args)-1] {
				hc := h.(*ast.CallExpr)
				l := e.x.cs.lemmas[exprStr(hc.Fun)]
				if l == nil {
					bad("unknown lemma %s", exprStr(hc.Fun))
				}
				if len(hc.Args) != len(l.Vars) {
					bad("lemma %s: %d arguments", l.Name, len(hc.Args))
				}
				le := &Env{x: e.x, st: &State{heap: map[string]*Term{}, ghost: map[string]*Term{}, alloc: Int(1)}, vars: map[string]*SV{}, pkg: e.x.cs.pkgOf(l.Pkg)}
				le.old = le.st
				skip := false
				for i, v := range l.Vars {
					t := le.resolveType(mustExpr(l.Types[i], "lemma"))
					av := e.coerce(e.eval(hc.Args[i]), t)
					tm := flat(av.v)[0]
					if layout(t)[0].sort == "Any" && tm.sort != "Any" {
						tm = e.x.box(e.st, av.v, av.t)
					}
					if tm.bound { // under a quantifier no instance is added
						skip = true
					}
					le.vars[v] = &SV{v: &Val{t: tm, typ: t}, t: t}
				}
				if skip {
					continue
				}
				e.st.fact(e.x.lemmaInst(l, le))
				e.x.usedLemmas(l)
			}
			return e.eval(n.Args[len(n.Args)-1])
		case "lnil":
			return specSV(mk("ctor", "lnil", "Lst"))
		case "lcons":
			return specSV(mk("lcons", "", "Lst", e.eval(n.Args[0]).v.t, e.eval(n.Args[1]).v.t))
		case "lhd":
			return specSV(mk("lhd", "", "Str", e.eval(n.Args[0]).v.t))
		case "ltl":
			return specSV(mk("ltl", "", "Lst", e.eval(n.Args[0]).v.t))
		case "isnilL":
			return boolSV(Eq(e.eval(n.Args[0]).v.t, mk("ctor", "lnil", "Lst")))
		case "casesL":
			return boolSV(mk("wfl", "", "Bool", e.eval(n.Args[0]).v.t))
		case "listof":
			v := e.eval(n.Args[0])
			return specSV(e.x.listOf(e.st, v.v))
		case "asptr":
			// asptr(i, T): the reference i as a pointer of type T
			v := e.eval(n.Args[0])
			t := e.resolveType(n.Args[1])
			return &SV{v: scalar(v.v.t, t), t: t}
		case "nth":
			v := e.eval(n.Args[0])
			i := e.eval(n.Args[1])
			return specSV(SeqNth(v.v.t, i.v.t))
		case "itercount":
			return intSV(e.st.ghost[e.iterOf(n)+".n"])
		case "unit":
			return specSV(SeqUnit(e.eval(n.Args[0]).v.t))
		case "empty":
			return specSV(SeqEmpty("Str"))
		case "emptyof":
			return specSV(SeqEmpty(layout(e.resolveType(n.Args[0]))[0].sort))
		case "cat":
			var ts []*Term
			for _, a := range n.Args {
				ts = append(ts, e.eval(a).v.t)
			}
			return specSV(SeqCat(ts...))
		case "typeis":
			v := e.eval(n.Args[0])
			return boolSV(e.x.dynIs(v.v.t, e.resolveType(n.Args[1])))
		case "boxed":
			v := e.eval(n.Args[0])
			t := v.t
			if len(n.Args) > 1 {
				t = e.resolveType(n.Args[1])
			}
			return specSV(e.x.box(e.st, v.v, t))
		case "fresh":
			v := e.eval(n.Args[0])
			return boolSV(Le(e.old.alloc, flat(v.v)[0]))
		case "allocated":
			v := e.eval(n.Args[0])
			return boolSV(Lt(flat(v.v)[0], e.st.alloc))
		case "unchanged":
			// unchanged(x.f): same value as in the old state
			a := e.eval(n.Args[0])
			b := e.withState(e.old).eval(n.Args[0])
			return boolSV(eqVal(a.v, b.v))
		case "isnil":
			v := e.eval(n.Args[0])
			return boolSV(Eq(flat(v.v)[0], zeroTerm(layout(v.t)[0])))
		case "ref":
			return intSV(flat(e.eval(n.Args[0]).v)[0])
		case "closed":
			v := e.eval(n.Args[0])
			return boolSV(Select(e.x.hget(e.st, "chan.closed", ArrSort("Int", "Bool")), v.v.t))
		case "chcap":
			v := e.eval(n.Args[0])
			return intSV(Select(e.x.hget(e.st, "chan.cap", ArrSort("Int", "Int")), v.v.t))
		case "locked":
			l := e.x.evalLocExpr(n.Args[0], e)
			return boolSV(e.x.heldTerm(e.st, l.key, l.ref, false))
		case "raw":
			// raw("op", "sort", args...)
			op, _ := strconv.Unquote(n.Args[0].(*ast.BasicLit).Value)
			so, _ := strconv.Unquote(n.Args[1].(*ast.BasicLit).Value)
			var ts []*Term
			for _, a := range n.Args[2:] {
				ts = append(ts, e.eval(a).v.t)
			}
			return specSV(mk(op, "", so, ts...))
		case "elemsame":
			bad("elemsame")
		}
		if d, ok := e.x.cs.defs[id.Name]; ok {
			var as []*SV
			for _, a := range n.Args {
				as = append(as, e.eval(a))
			}
			return e.callDef(d, as)
		}
		if u, ok := e.x.cs.ufs[id.Name]; ok {
			var ts []*Term
			pe := e.sub()
			if q := e.x.cs.pkgOf(u.Pkg); q != nil {
				pe.pkg = q
			}
			if len(n.Args) != len(u.Args) {
				bad("uf %s: %d args", id.Name, len(n.Args))
			}
			for i, a := range n.Args {
				sv := e.eval(a)
				t := pe.resolveType(mustExpr(u.Args[i], "uf"))
				sv = e.coerce(sv, t)
				if layout(t)[0].sort == "Any" && sv.v.t != nil && sv.v.t.sort != "Any" {
					ts = append(ts, e.x.box(e.st, sv.v, sv.t))
					continue
				}
				ts = append(ts, flat(sv.v)...)
			}
			return e.callUF(u, ts)
		}
		// package function
		if e.pkg != nil {
			if f, ok := e.pkg.Scope().Lookup(id.Name).(*types.Func); ok {
				return e.goCall(e.x.prog.FuncValue(f), nil, n.Args)
			}
			if tn, ok := e.pkg.Scope().Lookup(id.Name).(*types.TypeName); ok && len(n.Args) == 1 {
				v := e.eval(n.Args[0])
				return &SV{v: v.v, t: tn.Type()}
			}
		}
		if o, ok := types.Universe.Lookup(id.Name).(*types.TypeName); ok && len(n.Args) == 1 {
			v := e.eval(n.Args[0])
			if sl, isSl := under(v.t).(*types.Slice); isSl && id.Name == "string" {
				return &SV{v: scalar(App("bytes2str", "Str", e.x.innerOf(e.st, elemKey(sl.Elem()), "", "Int", v.v.comps[0].t), v.v.comps[1].t, v.v.comps[2].t), o.Type()), t: o.Type()}
			}
			return &SV{v: &Val{t: v.v.t, typ: o.Type()}, t: o.Type()}
		}
		bad("function %s", id.Name)
	}
	if sel, ok := n.Fun.(*ast.SelectorExpr); ok {
		if id, ok := sel.X.(*ast.Ident); ok {
			if _, isVar := e.vars[id.Name]; !isVar && (e.a == nil || e.a.names[id.Name] == nil) {
				if p := e.x.cs.findPkg(id.Name, e.pkg); p != nil {
					if f, ok := p.Scope().Lookup(sel.Sel.Name).(*types.Func); ok {
						return e.goCall(e.x.prog.FuncValue(f), nil, n.Args)
					}
				}
			}
		}
		recv := e.eval(sel.X)
		obj, _, _ := types.LookupFieldOrMethod(recv.t, true, e.pkgFor(recv.t), sel.Sel.Name)
		if f, ok := obj.(*types.Func); ok {
			sf := e.x.prog.FuncValue(f)
			if sf != nil {
				return e.goCall(sf, recv, n.Args)
			}
		}
		bad("method %s", exprStr(n))
	}
	bad("call %s", exprStr(n))
	return nil
}

func (e *Env) iterOf(n *ast.CallExpr) string {
	if e.a == nil {
		bad("visited outside a loop")
	}
	// iterator whose Next is in the loop's header (or inside the loop)
	if e.lc != nil {
		for _, in := range e.lc.hdr.Instrs {
			if nx, ok := in.(*ssa.Next); ok {
				if id, ok := e.a.iters[nx.Iter]; ok {
					return id
				}
			}
		}
	}
	if len(n.Args) > 1 {
		// visited(k, ord): iterator of loop ord
		ord := int(e.eval(n.Args[1]).v.t.intVal().Int64())
		for h, l := range loopsOf(e.a.fn) {
			if l.ord == ord {
				for _, in := range h.Instrs {
					if nx, ok := in.(*ssa.Next); ok {
						if id, ok := e.a.iters[nx.Iter]; ok {
							return id
						}
					}
				}
			}
		}
	}
	bad("no map iterator for visited()")
	return ""
}

// goCall evaluates a side-effect free Go function inside a specification.
func (e *Env) goCall(f *ssa.Function, recv *SV, argx []ast.Expr) *SV {
	if f == nil {
		bad("no function value")
	}
	var args []*Val
	if recv != nil {
		args = append(args, recv.v)
	}
	for i, a := range argx {
		sv := e.eval(a)
		pt := f.Signature.Params().At(i).Type()
		sv = e.coerce(sv, pt)
		if _, ok := under(pt).(*types.Interface); ok && sv.v.t != nil && sv.v.t.sort != "Any" {
			sv = &SV{v: scalar(e.x.box(e.st, sv.v, sv.t), pt), t: pt}
		}
		args = append(args, sv.v)
	}
	st := e.st.clone()
	base := st.pc
	dummy := &act{fn: f, env: map[ssa.Value]*Val{}, names: map[string]*nameB{}, loops: map[*ssa.BasicBlock]*loopCtx{}}
	dummy.fn = nil
	recs := e.x.recs
	e.x.recs = nil
	outs := e.x.callFn(&act{fn: e.x.rootFn, depth: 1}, st, f, args, nil, token.NoPos)
	e.x.recs = recs
	if len(outs) != 1 {
		bad("spec call of %s has %d outcomes", fnName(f), len(outs))
	}
	// keep unconditional facts
	bn := 0
	if base != nil {
		bn = base.n
	}
	var fs []*Term
	for p := outs[0].st.pc; p != nil && p.n > bn; p = p.prev {
		if p.fact && !p.t.bound {
			fs = append(fs, p.t)
		}
	}
	for i := len(fs) - 1; i >= 0; i-- {
		e.st.fact(fs[i])
	}
	r := outs[0].rets[0]
	return &SV{v: r, t: f.Signature.Results().At(0).Type()}
}

// evalLoc evaluates an lvalue expression to its location.
func (x *Exec) evalLoc(n ast.Expr, e *Env) *Loc {
	x.silent++
	defer func() { x.silent-- }()
	return x.evalLocExpr(n, e)
}

func (x *Exec) evalLocExpr(n ast.Expr, e *Env) *Loc {
	switch n := n.(type) {
	case *ast.ParenExpr:
		return x.evalLocExpr(n.X, e)
	case *ast.SelectorExpr:
		v := e.eval(n.X)
		obj, path, _ := types.LookupFieldOrMethod(v.t, true, e.pkgFor(v.t), n.Sel.Name)
		if obj == nil {
			bad("no field %s", exprStr(n))
		}
		var l *Loc
		t := v.t
		if p, ok := under(t).(*types.Pointer); ok {
			l = x.ptrLoc(v.v, p.Elem())
			t = p.Elem()
		} else {
			l = x.evalLocExpr(n.X, e)
		}
		for _, i := range path {
			s := under(t).(*types.Struct)
			l = fieldLoc(l, s, i)
			t = s.Field(i).Type()
		}
		return l
	case *ast.StarExpr:
		v := e.eval(n.X)
		el := under(v.t).(*types.Pointer).Elem()
		return x.ptrLoc(v.v, el)
	case *ast.Ident:
		if e.a != nil {
			if nb, ok := e.a.names[n.Name]; ok && nb.addr {
				return x.ptrLoc(nb.v, nb.v.typ.Underlying().(*types.Pointer).Elem())
			}
		}
		if e.pkg != nil {
			if o, ok := e.pkg.Scope().Lookup(n.Name).(*types.Var); ok {
				return &Loc{key: "g." + shortPkg(e.pkg.Path()) + "." + n.Name, ref: Int(0), typ: o.Type()}
			}
		}
	}
	bad("location %s", exprStr(n))
	return nil
}

func (x *Exec) evalMods(con *Contract, e *Env) []modItem {
	x.silent++
	defer func() { x.silent-- }()
	var out []modItem
	for _, m := range con.Modifies {
		switch {
		case m.Any:
			out = append(out, modItem{any: true})
		case m.Ghost != "":
			out = append(out, modItem{ghost: m.Ghost})
		default:
			out = append(out, x.evalMod(m.Expr, e)...)
		}
	}
	return out
}

func (x *Exec) evalMod(n ast.Expr, e *Env) []modItem {
	var out []modItem
	if c, ok := n.(*ast.CallExpr); ok {
		if id, ok := c.Fun.(*ast.Ident); ok {
			switch id.Name {
			case "all": // all(T.f): the field of every object;  all("key")
				if sel, ok := c.Args[0].(*ast.SelectorExpr); ok {
					t := e.resolveType(sel.X)
					l := x.fieldByName(t, Int(0), sel.Sel.Name)
					for _, cc := range layout(l.typ) {
						out = append(out, modItem{key: l.key + cc.suffix, sort: ArrSort("Int", cc.sort)})
					}
					return out
				}
			case "allmaps":
				t := e.resolveType(c.Args[0]).Underlying().(*types.Map)
				return x.mapMods(t, nil)
			case "allelems":
				el := e.resolveType(c.Args[0])
				for _, cc := range layout(el) {
					out = append(out, modItem{key: elemKey(el) + cc.suffix, sort: x.heapSort("", cc.sort, true)})
				}
				return out
			case "mapof":
				v := e.eval(c.Args[0])
				return x.mapMods(under(v.t).(*types.Map), v.v.t)
			case "elems":
				v := e.eval(c.Args[0])
				el := under(v.t).(*types.Slice).Elem()
				for _, cc := range layout(el) {
					out = append(out, modItem{key: elemKey(el) + cc.suffix, sort: x.heapSort("", cc.sort, true), ref: v.v.comps[0].t})
				}
				return out
			case "object":
				v := e.eval(c.Args[0])
				el := under(v.t).(*types.Pointer).Elem()
				l := x.ptrLoc(v.v, el)
				for _, cc := range layout(el) {
					out = append(out, modItem{key: l.key + cc.suffix, sort: ArrSort("Int", cc.sort), ref: l.ref})
				}
				return out
			case "allobjects":
				t := e.resolveType(c.Args[0])
				for _, cc := range layout(t) {
					out = append(out, modItem{key: objKey(t) + cc.suffix, sort: ArrSort("Int", cc.sort)})
				}
				return out
			}
		}
	}
	l := x.evalLocExpr(n, e)
	for _, cc := range layout(l.typ) {
		out = append(out, modItem{key: l.key + cc.suffix, sort: ArrSort("Int", cc.sort), ref: l.ref})
	}
	return out
}

func (x *Exec) mapMods(m *types.Map, r *Term) []modItem {
	k := mapKey(m)
	ks := x.keySort(m)
	out := []modItem{{key: k + ".dom", sort: ArrSort("Int", ArrSort(ks, "Bool")), ref: r}, {key: k + ".len", sort: ArrSort("Int", "Int"), ref: r}}
	for _, c := range layout(m.Elem()) {
		out = append(out, modItem{key: k + ".val" + c.suffix, sort: ArrSort("Int", ArrSort(ks, c.sort)), ref: r})
	}
	return out
}
