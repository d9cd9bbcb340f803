// Package ai is a path-partitioned abstract interpreter over go/ssa.
//
// Abstract values are hash-consed terms over a finite vocabulary of access
// paths, constants, allocation sites and uninterpreted operations; an abstract
// state maps memory cells to terms and carries a conjunction of literals (a
// finite atom set plus a zone of linear inequalities). In-module calls are
// analysed in context (inlined), library calls by a table of transfer
// functions, loops by widening every varying quantity to a loop symbol and
// iterating to an inductive fixpoint. Nothing is executed and no solver is
// involved; equality of terms is syntactic.
package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Term is an interned abstract value.
type Term struct {
	ID   int
	Op   string
	S    string
	Args []*Term
	Typ  types.Type // advisory, except for Op "ifc", "is", "ta", "agg", "zero"
	C    constant.Value
	X    any
	lin  *Lin
}

var (
	interned  = map[string]*Term{}
	allTerms  []*Term
	typeMap   typeutil.Map
	typeCount int
	xids      = map[any]int{}
)

// ResetTerms drops all interned terms (used between build configurations).
func ResetTerms() {
	traceIDs = map[string]int{}
	interned = map[string]*Term{}
	allTerms = nil
	typeMap = typeutil.Map{}
	typeCount = 0
	xids = map[any]int{}
}

func typeID(t types.Type) int {
	if t == nil {
		return 0
	}
	if v := typeMap.At(t); v != nil {
		return v.(int)
	}
	typeCount++
	typeMap.Set(t, typeCount)
	return typeCount
}

func xid(x any) int {
	if x == nil {
		return 0
	}
	if n, ok := xids[x]; ok {
		return n
	}
	xids[x] = len(xids) + 1
	return xids[x]
}

func mk(op, s string, typ types.Type, keyTyp bool, c constant.Value, x any, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte(0)
	b.WriteString(s)
	if keyTyp {
		b.WriteString("\x00t")
		b.WriteString(strconv.Itoa(typeID(typ)))
	}
	if c != nil {
		b.WriteString("\x00c")
		b.WriteString(c.Kind().String())
		b.WriteString(c.ExactString())
	}
	if x != nil {
		b.WriteString("\x00x")
		b.WriteString(strconv.Itoa(xid(x)))
	}
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.ID))
	}
	k := b.String()
	if t := interned[k]; t != nil {
		return t
	}
	t := &Term{ID: len(allTerms) + 1, Op: op, S: s, Typ: typ, C: c, X: x, Args: args}
	interned[k] = t
	allTerms = append(allTerms, t)
	return t
}

func termByID(id int) *Term { return allTerms[id-1] }

// --- constructors

func K(c constant.Value, typ types.Type) *Term { return mk("const", "", typ, false, c, nil) }
func Int(n int64) *Term                        { return K(constant.MakeInt64(n), types.Typ[types.Int]) }
func Bool(b bool) *Term                        { return K(constant.MakeBool(b), types.Typ[types.Bool]) }
func Str(s string) *Term                       { return K(constant.MakeString(s), types.Typ[types.String]) }

var NilT *Term

func Nil() *Term { return mk("nil", "", types.Typ[types.UntypedNil], false, nil, nil) }

func True() *Term  { return Bool(true) }
func False() *Term { return Bool(false) }

func Sym(name string, typ types.Type) *Term { return mk("sym", name, typ, typ != nil, nil, nil) }
func App(name string, typ types.Type, args ...*Term) *Term {
	return mk("app", name, typ, false, nil, nil, args...)
}
func FnT(f *ssa.Function) *Term { return mk("fn", "", f.Signature, false, nil, f) }
func CloT(f *ssa.Function, binds []*Term) *Term {
	return mk("clo", "", f.Signature, false, nil, f, binds...)
}
func GlobT(g *ssa.Global) *Term { return mk("glob", "", g.Type(), false, nil, g) }
func ObjT(site string, elem types.Type) *Term {
	return mk("obj", site, elem, false, nil, nil)
}
func FA(base *Term, i int, typ types.Type) *Term {
	return mk("fa", strconv.Itoa(i), typ, false, nil, nil, base)
}
func IA(base, idx *Term, typ types.Type) *Term { return mk("ia", "", typ, false, nil, nil, base, idx) }
func IfcT(t types.Type, v *Term) *Term         { return mk("ifc", "", t, true, nil, nil, v) }
func TupT(vs ...*Term) *Term                   { return mk("tup", "", nil, false, nil, nil, vs...) }
func ldT(addr *Term, epoch string, typ types.Type) *Term {
	return mk("ld", epoch, typ, false, nil, nil, addr)
}

// Ld is the initial content of an external address.
func Ld(addr *Term, typ types.Type) *Term { return ldT(addr, "", typ) }

func AggT(typ types.Type, fs []*Term) *Term {
	// Collapse field(v,0..n) back to v.
	if len(fs) > 0 {
		var v *Term
		ok := true
		for i, f := range fs {
			if f.Op == "field" && f.S == strconv.Itoa(i) && (v == nil || v == f.Args[0]) {
				v = f.Args[0]
				continue
			}
			ok = false
			break
		}
		if ok && v.Typ != nil {
			if st, o := v.Typ.Underlying().(*types.Struct); o && st.NumFields() == len(fs) {
				return v
			}
		}
	}
	return mk("agg", "", typ, true, nil, nil, fs...)
}

func FieldT(v *Term, i int, typ types.Type) *Term {
	if v.Op == "agg" && i < len(v.Args) {
		return v.Args[i]
	}
	return mk("field", strconv.Itoa(i), typ, false, nil, nil, v)
}

// TA is the payload of interface value x asserted to hold concrete type t.
func TA(t types.Type, x *Term) *Term {
	if x.Op == "ifc" && types.Identical(x.Typ, t) {
		return x.Args[0]
	}
	return mk("ta", "", t, true, nil, nil, x)
}

// IsT is the proposition "interface value x holds/implements t".
func IsT(t types.Type, x *Term) *Term { return mk("is", "", t, true, nil, nil, x) }

// Slice value: backing, lo, len.
func SlT(backing, lo, n *Term, typ types.Type) *Term {
	return mk("sl", "", typ, false, nil, nil, backing, lo, n)
}

func (t *Term) IsConst() bool { return t.Op == "const" }
func (t *Term) IsNil() bool   { return t.Op == "nil" }
func (t *Term) Bool() (bool, bool) {
	if t.Op == "const" && t.C.Kind() == constant.Bool {
		return constant.BoolVal(t.C), true
	}
	return false, false
}
func (t *Term) Str() (string, bool) {
	if t.Op == "const" && t.C.Kind() == constant.String {
		return constant.StringVal(t.C), true
	}
	return "", false
}
func (t *Term) Int() (int64, bool) {
	if t.Op == "const" && t.C.Kind() == constant.Int {
		return constant.Int64Val(t.C)
	}
	return 0, false
}

func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	if d == 0 {
		return "…"
	}
	args := func() string {
		var s []string
		for _, a := range t.Args {
			s = append(s, a.str(d-1))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case "const":
		return t.C.String()
	case "nil":
		return "nil"
	case "sym":
		return t.S
	case "app":
		return t.S + "(" + args() + ")"
	case "fn":
		return t.X.(*ssa.Function).Name()
	case "clo":
		return t.X.(*ssa.Function).Name() + "{" + args() + "}"
	case "glob":
		g := t.X.(*ssa.Global)
		return "&" + g.Pkg.Pkg.Name() + "." + g.Name()
	case "obj":
		return "new:" + t.S
	case "fa":
		return "&" + t.Args[0].str(d-1) + "." + t.fieldName()
	case "ia":
		return "&" + t.Args[0].str(d-1) + "[" + t.Args[1].str(d-1) + "]"
	case "ld":
		s := t.Args[0].str(d - 1)
		if strings.HasPrefix(s, "&") {
			s = s[1:]
		} else {
			s = "*" + s
		}
		if t.S != "" {
			s += "#" + t.S
		}
		return s
	case "field":
		return t.Args[0].str(d-1) + ".f" + t.S
	case "ifc":
		return "ifc<" + typeStr(t.Typ) + ">(" + args() + ")"
	case "ta":
		return t.Args[0].str(d-1) + ".(" + typeStr(t.Typ) + ")"
	case "is":
		return "(" + t.Args[0].str(d-1) + " is " + typeStr(t.Typ) + ")"
	case "lin":
		return t.lin.String()
	case "le":
		return "(" + t.Args[0].str(d-1) + " <= 0)"
	}
	s := t.Op
	if t.S != "" {
		s += ":" + t.S
	}
	return s + "(" + args() + ")"
}

func typeStr(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (t *Term) fieldName() string {
	i, _ := strconv.Atoi(t.S)
	if st := pointee(t.Args[0]); st != nil {
		if s, ok := st.Underlying().(*types.Struct); ok && i < s.NumFields() {
			return s.Field(i).Name()
		}
	}
	return "f" + t.S
}

// pointee guesses the type an address term points to.
func pointee(a *Term) types.Type {
	switch a.Op {
	case "obj":
		return a.Typ
	case "fa", "ia":
		return a.Typ
	case "glob":
		return a.Typ.(*types.Pointer).Elem()
	}
	if a.Typ != nil {
		if p, ok := a.Typ.Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
	}
	return nil
}

// Subterms calls f for t and all its subterms (each once).
func (t *Term) Subterms(f func(*Term)) {
	seen := map[int]bool{}
	var walk func(*Term)
	walk = func(u *Term) {
		if seen[u.ID] {
			return
		}
		seen[u.ID] = true
		f(u)
		for _, a := range u.Args {
			walk(a)
		}
	}
	walk(t)
}

// Mentions reports whether u occurs in t.
func (t *Term) Mentions(u *Term) bool {
	found := false
	t.Subterms(func(x *Term) {
		if x == u {
			found = true
		}
	})
	return found
}

// Root returns the root of an address term.
func (t *Term) Root() *Term {
	for t.Op == "fa" || t.Op == "ia" {
		t = t.Args[0]
	}
	return t
}

// Subst replaces occurrences of old by new.
func (t *Term) Subst(m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var walk func(*Term) *Term
	walk = func(u *Term) *Term {
		if r, ok := m[u]; ok {
			return r
		}
		if len(u.Args) == 0 {
			return u
		}
		if r, ok := memo[u]; ok {
			return r
		}
		as := make([]*Term, len(u.Args))
		ch := false
		for i, a := range u.Args {
			as[i] = walk(a)
			ch = ch || as[i] != a
		}
		r := u
		if ch {
			switch u.Op {
			case "lin":
				l := &Lin{K: u.lin.K}
				for i, a := range as {
					l = l.plus(linOf(a).scale(u.lin.Co[i]))
				}
				r = l.Term()
			case "le":
				r = LeZero(linOf(as[0]))
			case "eq":
				r = Eq(as[0], as[1])
			case "not":
				r = Not(as[0])
			case "field":
				i, _ := strconv.Atoi(u.S)
				r = FieldT(as[0], i, u.Typ)
			case "agg":
				r = AggT(u.Typ, as)
			case "ta":
				r = TA(u.Typ, as[0])
			case "len":
				r = Len(as[0])
			case "substr":
				r = SubStr(as[0], as[1], as[2])
			default:
				if f := foldBits(u, as); f != nil {
					r = f
					break
				}
				keyTyp := u.Op == "ifc" || u.Op == "is" || u.Op == "zero"
				r = mk(u.Op, u.S, u.Typ, keyTyp, u.C, u.X, as...)
			}
		}
		memo[u] = r
		return r
	}
	return walk(t)
}

// foldBits evaluates a bit operation on constants.
func foldBits(u *Term, as []*Term) *Term {
	if u.Op != "app" || len(as) != 2 {
		return nil
	}
	a, ok1 := as[0].Int()
	b, ok2 := as[1].Int()
	switch {
	case u.S == "&" && (ok1 && a == 0 || ok2 && b == 0):
		return K(constant.MakeInt64(0), u.Typ)
	case !ok1 || !ok2:
		return nil
	case u.S == "&":
		return K(constant.MakeInt64(a&b), u.Typ)
	case u.S == "|":
		return K(constant.MakeInt64(a|b), u.Typ)
	case u.S == "^":
		return K(constant.MakeInt64(a^b), u.Typ)
	case u.S == "&^":
		return K(constant.MakeInt64(a&^b), u.Typ)
	}
	return nil
}

// --- linear integer terms

// Lin is sum(Co[i]*At[i]) + K with At sorted by ID.
type Lin struct {
	At []*Term
	Co []int64
	K  int64
}

func linOf(t *Term) *Lin {
	if t.lin != nil {
		return t.lin
	}
	if n, ok := t.Int(); ok {
		return &Lin{K: n}
	}
	return &Lin{At: []*Term{t}, Co: []int64{1}}
}

func (a *Lin) plus(b *Lin) *Lin {
	m := map[int]int64{}
	for i, t := range a.At {
		m[t.ID] += a.Co[i]
	}
	for i, t := range b.At {
		m[t.ID] += b.Co[i]
	}
	r := &Lin{K: a.K + b.K}
	var ids []int
	for id, c := range m {
		if c != 0 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		r.At = append(r.At, termByID(id))
		r.Co = append(r.Co, m[id])
	}
	return r
}

func (a *Lin) scale(n int64) *Lin {
	if n == 0 {
		return &Lin{}
	}
	r := &Lin{K: a.K * n, At: a.At}
	for _, c := range a.Co {
		r.Co = append(r.Co, c*n)
	}
	return r
}
func (a *Lin) minus(b *Lin) *Lin { return a.plus(b.scale(-1)) }

func (a *Lin) String() string {
	s := ""
	for i, t := range a.At {
		c := a.Co[i]
		switch {
		case c == 1 && s == "":
			s += t.str(5)
		case c == 1:
			s += "+" + t.str(5)
		case c == -1:
			s += "-" + t.str(5)
		default:
			s += fmt.Sprintf("%+d*%s", c, t.str(5))
		}
	}
	if a.K != 0 || s == "" {
		s += fmt.Sprintf("%+d", a.K)
	}
	return s
}

// Term returns the canonical term of a.
func (a *Lin) Term() *Term {
	if len(a.At) == 0 {
		return Int(a.K)
	}
	if len(a.At) == 1 && a.Co[0] == 1 && a.K == 0 {
		return a.At[0]
	}
	var b strings.Builder
	for _, c := range a.Co {
		fmt.Fprintf(&b, "%d,", c)
	}
	t := mk("lin", b.String(), types.Typ[types.Int], false, constant.MakeInt64(a.K), nil, a.At...)
	t.lin = a
	return t
}

func Add(a, b *Term) *Term { return linOf(a).plus(linOf(b)).Term() }
func Sub(a, b *Term) *Term { return linOf(a).minus(linOf(b)).Term() }

// LeZero is the proposition L <= 0, canonicalised so that a proposition and its
// negation share one atom.
func LeZero(l *Lin) *Term {
	if len(l.At) == 0 {
		return Bool(l.K <= 0)
	}
	if y, k, ok := quotient(l); ok {
		// c is the bound of the quotient y/k, which is rounded towards zero
		if c := -l.K; l.Co[0] == 1 {
			if c >= 0 {
				return Le(y, Int(k*c+k-1))
			}
			return Le(y, Int(k*c))
		}
		if c := l.K; c > 0 {
			return Le(Int(k*c), y)
		} else {
			return Le(Int(k*c-(k-1)), y)
		}
	}
	if l.Co[0] < 0 {
		// not (-L + 1 <= 0)
		n := l.scale(-1)
		n = &Lin{At: n.At, Co: n.Co, K: n.K + 1}
		return Not(mkLe(n))
	}
	return mkLe(l)
}

// JunkOf recognises an element of a slice that a loop wrote: its index, the
// loop's mark and the slice's backing.
func JunkOf(t *Term) (idx *Term, tag string, back *Term, ok bool) {
	if t.Op != "app" || t.S != "junk" || len(t.Args) != 2 {
		return
	}
	tag, ok = t.Args[1].Str()
	if !ok {
		return
	}
	n, err := strconv.Atoi(tag[strings.LastIndexByte(tag, '#')+1:])
	if err != nil || n <= 0 {
		return nil, "", nil, false
	}
	return t.Args[0], tag, termByID(n), true
}

// quotient recognises a multiple by one or minus one of y/k plus a constant.
func quotient(l *Lin) (y *Term, k int64, ok bool) {
	if len(l.At) != 1 || l.Co[0] != 1 && l.Co[0] != -1 || l.At[0].Op != "app" || l.At[0].S != "/" {
		return nil, 0, false
	}
	q := l.At[0]
	k, ok = q.Args[1].Int()
	const big = 1 << 31
	return q.Args[0], k, ok && k > 0 && k < big && l.K < big && l.K > -big
}

func mkLe(l *Lin) *Term {
	// len(x) <= 0 and len(x)-... on strings: canonicalise emptiness to eq(x,"").
	if len(l.At) == 1 && l.Co[0] == 1 && l.At[0].Op == "len" && l.K == 0 {
		x := l.At[0].Args[0]
		if isStringTerm(x) {
			return Eq(x, Str(""))
		}
		return mk("eq", "", types.Typ[types.Bool], false, nil, nil, sortPair(l.At[0], Int(0))...)
	}
	return mk("le", "", types.Typ[types.Bool], false, nil, nil, l.Term())
}

func isStringTerm(t *Term) bool {
	if t.Typ == nil {
		return false
	}
	b, ok := t.Typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func sortPair(a, b *Term) []*Term {
	if a.ID > b.ID {
		a, b = b, a
	}
	return []*Term{a, b}
}

// Le is a <= b on integers.
func Le(a, b *Term) *Term { return LeZero(linOf(a).minus(linOf(b))) }

// Lt is a < b on integers.
func Lt(a, b *Term) *Term {
	l := linOf(a).minus(linOf(b))
	return LeZero(&Lin{At: l.At, Co: l.Co, K: l.K + 1})
}

func Not(t *Term) *Term {
	if b, ok := t.Bool(); ok {
		return Bool(!b)
	}
	if t.Op == "not" {
		return t.Args[0]
	}
	return mk("not", "", types.Typ[types.Bool], false, nil, nil, t)
}

func neverNil(t *Term) bool {
	switch t.Op {
	case "obj", "fn", "clo", "ifc", "fa", "ia", "glob", "agg":
		return true
	}
	return false
}

// Eq is the proposition a == b.
func Eq(a, b *Term) *Term {
	if a == b {
		return True()
	}
	if a.IsConst() && b.IsConst() && a.C.Kind() == b.C.Kind() {
		return Bool(constant.Compare(a.C, token.EQL, b.C))
	}
	if a.IsNil() && neverNil(b) || b.IsNil() && neverNil(a) {
		return False()
	}
	// a slice made by the program is nil only if it is a zero-length slice of nil
	if a.Op == "ifc" && b.Op == "ifc" {
		if !types.Identical(a.Typ, b.Typ) {
			return False()
		}
		return Eq(a.Args[0], b.Args[0])
	}
	if a.Op == "obj" && b.Op == "obj" {
		return False()
	}
	if a.Op == "glob" && b.Op == "glob" {
		return False()
	}
	if a.Op == "fn" && b.Op == "fn" {
		return False()
	}
	if t := eqString(a, b); t != nil {
		return t
	}
	if t := eqString(b, a); t != nil {
		return t
	}
	// booleans
	if v, ok := a.Bool(); ok {
		if v {
			return b
		}
		return Not(b)
	}
	if v, ok := b.Bool(); ok {
		if v {
			return a
		}
		return Not(a)
	}
	if s, ok := a.Str(); ok && s != "" && b.Op == "len" {
		_ = s
	}
	// integers: canonical linear form
	if isLinear(a) || isLinear(b) {
		l := linOf(a).minus(linOf(b))
		if len(l.At) == 0 {
			return Bool(l.K == 0)
		}
		if l.Co[0] < 0 {
			l = l.scale(-1)
		}
		if _, _, ok := quotient(l); ok {
			return And(LeZero(l), LeZero(l.scale(-1)))
		}
		if len(l.At) == 1 && l.Co[0] == 1 {
			x := l.At[0]
			if x.Op == "len" && l.K == 0 && isStringTerm(x.Args[0]) {
				return Eq(x.Args[0], Str(""))
			}
			return mk("eq", "", types.Typ[types.Bool], false, nil, nil, sortPair(x, Int(-l.K))...)
		}
		if len(l.At) == 2 && l.Co[0] == 1 && l.Co[1] == -1 && l.K == 0 {
			return mk("eq", "", types.Typ[types.Bool], false, nil, nil, sortPair(l.At[0], l.At[1])...)
		}
		return mk("eq", "", types.Typ[types.Bool], false, nil, nil, sortPair(l.Term(), Int(0))...)
	}
	return mk("eq", "", types.Typ[types.Bool], false, nil, nil, sortPair(a, b)...)
}

// eqString simplifies comparisons of parts of strings with constants.
func eqString(a, b *Term) *Term {
	switch {
	case b.IsConst() && a.Op == "app" && a.S == "index" && len(a.Args) == 2 && isStringTerm(a.Args[0]):
		// the first byte
		if n, ok := b.Int(); ok && n > 0 && n < 128 && a.Args[1] == Int(0) {
			return App("strings.HasPrefix", types.Typ[types.Bool], a.Args[0], Str(string(rune(n))))
		}
	case a.Op == "app" && a.S == "strings.Index" && b == Int(0):
		return App("strings.HasPrefix", types.Typ[types.Bool], a.Args[0], a.Args[1])
	case a.Op == "substr" && !b.IsConst() && a.Args[1] == Int(0) && a.Args[2] == Len(b):
		return App("strings.HasPrefix", types.Typ[types.Bool], a.Args[0], b)
	case a.Op == "substr":
		c, ok := b.Str()
		n, ok2 := Sub(a.Args[2], a.Args[1]).Int()
		if ok && c == "" {
			return Eq(a.Args[1], a.Args[2])
		}
		if !ok || !ok2 {
			return nil
		}
		if int(n) != len(c) {
			return False()
		}
		if a.Args[1] == Int(0) && c != "" {
			return App("strings.HasPrefix", types.Typ[types.Bool], a.Args[0], b)
		}
	case a.Op == "concat":
		c, ok := b.Str()
		if !ok {
			return nil
		}
		ps := a.Args
		if h, ok := ps[0].Str(); ok {
			if !strings.HasPrefix(c, h) {
				return False()
			}
			c, ps = c[len(h):], ps[1:]
		}
		if len(ps) > 0 {
			if h, ok := ps[len(ps)-1].Str(); ok {
				if !strings.HasSuffix(c, h) {
					return False()
				}
				c, ps = c[:len(c)-len(h)], ps[:len(ps)-1]
			}
		}
		if len(ps) < len(a.Args) {
			r := Str("")
			for _, p := range ps {
				r = Concat(r, p)
			}
			return Eq(r, Str(c))
		}
	}
	return nil
}

func isLinear(t *Term) bool {
	if t.lin != nil || t.Op == "len" {
		return true
	}
	if t.Typ == nil {
		return false
	}
	b, ok := t.Typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

// Len of a string, slice, map or channel.
func Len(x *Term) *Term {
	switch x.Op {
	case "const":
		if s, ok := x.Str(); ok {
			return Int(int64(len(s)))
		}
	case "nil":
		return Int(0)
	case "sl":
		return x.Args[2]
	case "substr":
		return Sub(x.Args[2], x.Args[1])
	case "app":
		// one name for every group and the whole expression; the results of
		// a failed search are other terms
		switch x.S {
		case "(*regexp.Regexp).SubexpNames", "(*regexp.Regexp).FindStringSubmatch":
			return Add(App("(*regexp.Regexp).NumSubexp", types.Typ[types.Int], x.Args[0]), Int(1))
		}
	}
	return mk("len", "", types.Typ[types.Int], false, nil, nil, x)
}

// SubStr is s[lo:hi].
func SubStr(s, lo, hi *Term) *Term {
	if s.Op == "substr" {
		return SubStr(s.Args[0], Add(s.Args[1], lo), Add(s.Args[1], hi))
	}
	if l, ok := lo.Int(); ok {
		if h, ok2 := hi.Int(); ok2 {
			if c, ok3 := s.Str(); ok3 && 0 <= l && l <= h && h <= int64(len(c)) {
				return Str(c[l:h])
			}
			if l == h {
				return Str("")
			}
		}
		if l == 0 && hi == Len(s) {
			return s
		}
	}
	if lo == hi {
		return Str("")
	}
	return mk("substr", "", types.Typ[types.String], false, nil, nil, s, lo, hi)
}

// Concat of strings.
func Concat(a, b *Term) *Term {
	var parts []*Term
	add := func(t *Term) {
		ps := []*Term{t}
		if t.Op == "concat" {
			ps = t.Args
		}
		for _, p := range ps {
			if s, ok := p.Str(); ok {
				if s == "" {
					continue
				}
				if n := len(parts); n > 0 {
					if q, ok := parts[n-1].Str(); ok {
						parts[n-1] = Str(q + s)
						continue
					}
				}
			}
			parts = append(parts, p)
		}
	}
	add(a)
	add(b)
	if len(parts) == 0 {
		return Str("")
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return mk("concat", "", types.Typ[types.String], false, nil, nil, parts...)
}

// Zero value of a type.
func Zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return K(constant.MakeBool(false), t)
		case u.Info()&types.IsString != 0:
			return K(constant.MakeString(""), t)
		case u.Info()&types.IsInteger != 0:
			return K(constant.MakeInt64(0), t)
		case u.Info()&types.IsNumeric != 0:
			return K(constant.MakeFloat64(0), t)
		}
		return Nil()
	case *types.Struct:
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = Zero(u.Field(i).Type())
		}
		return AggT(t, fs)
	case *types.Array:
		return mk("zero", "", t, true, nil, nil)
	case *types.Tuple:
		vs := make([]*Term, u.Len())
		for i := range vs {
			vs[i] = Zero(u.At(i).Type())
		}
		return TupT(vs...)
	}
	return Nil()
}

// Pointee is the type an address term points to, if known.
func Pointee(a *Term) types.Type { return pointee(a) }

// TermByID finds a term.
func TermByID(id int) *Term { return termByID(id) }
