// Package rules holds one rule per property. A rule drives the abstract
// interpreter over the entry points the property talks about and compares what
// the code does on every abstract path with what the property demands.
package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"runtime/debug"
	"sort"
	"strings"

	"gojicheck/ai"
	"gojicheck/load"

	"golang.org/x/tools/go/ssa"
)

// Finding is one violated obligation.
type Finding struct {
	Rule      string
	Construct string
	Pos       string
	Msg       string
	Config    string
}

// Key identifies a finding across line changes.
func (f Finding) Key() string { return f.Rule + "|" + f.Construct }

// Ctx is what a rule works with.
type Ctx struct {
	Prop     string
	Config   string
	P        *load.Program
	M        *ai.Machine
	Thorough bool

	Findings []Finding
	Oblig    map[string]int
	Samples  []string
	Entries  []string
	seen     map[string]bool
}

// Rule decides one property.
type Rule struct {
	Prop string
	// What the rule decides, in a sentence or two.
	Technique string
	Explain   string
	// Limits says what is assumed or not covered.
	Limits string
	// Min is the number of obligations confirmed by hand, per kind; fewer
	// means that the rule no longer sees what it must see.
	Min map[string]int
	// Configs other than linux/amd64 that the quick tier also covers.
	Configs []load.Config
	Run     func(c *Ctx)
}

// All is the registry.
var All = map[string]*Rule{}

func register(r *Rule) { All[r.Prop] = r }

func Props() []string {
	var s []string
	for k := range All {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

// Execute runs the rule, turning panics of the analysis into findings.
func Execute(r *Rule, c *Ctx) {
	if c.Oblig == nil {
		c.Oblig = map[string]int{}
	}
	c.seen = map[string]bool{}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(giveUp); ok {
					return
				}
				c.fail(token.NoPos, "undecided", "analysis", "the analysis failed: %v\n%s", e, debug.Stack())
			}
		}()
		for _, e := range c.P.Errors {
			c.fail(token.NoPos, "typecheck", "package", "%v", e)
		}
		if len(c.P.Errors) > 0 {
			return
		}
		r.Run(c)
	}()
	if len(c.Findings) == 0 {
		for k, n := range r.Min {
			if c.Oblig[k] < n {
				c.fail(token.NoPos, "vacuous", k, "only %d obligations of kind %q were found, at least %d are expected", c.Oblig[k], k, n)
			}
		}
	}
}

type giveUp struct{}

func (c *Ctx) fail(pos token.Pos, rule, construct, format string, a ...any) {
	f := Finding{Rule: rule, Construct: construct, Msg: fmt.Sprintf(format, a...), Config: c.Config}
	if pos.IsValid() {
		f.Pos = c.P.Pos(pos)
	}
	k := f.Key() + "|" + f.Pos + "|" + f.Msg
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.Findings = append(c.Findings, f)
}

// must is fail followed by giving up the rule.
func (c *Ctx) must(pos token.Pos, rule, construct, format string, a ...any) {
	c.fail(pos, rule, construct, format, a...)
	panic(giveUp{})
}

// check records an obligation of the given kind.
func (c *Ctx) check(ok bool, pos token.Pos, kind, construct, format string, a ...any) bool {
	c.Oblig[kind]++
	if !ok {
		c.fail(pos, kind, construct, format, a...)
	}
	return ok
}

func (c *Ctx) sample(format string, a ...any) {
	if len(c.Samples) < 12 {
		c.Samples = append(c.Samples, fmt.Sprintf(format, a...))
	}
}

func (c *Ctx) entry(fn *ssa.Function) {
	s := fn.String()
	for _, e := range c.Entries {
		if e == s {
			return
		}
	}
	c.Entries = append(c.Entries, s)
}

// problems turns the imprecisions a machine had to report into findings.
func (c *Ctx) problems(m *ai.Machine, what string) {
	for _, p := range m.Problems {
		c.fail(token.NoPos, "undecided", what, "%s", p)
	}
}

// --- resolving entry points

const mod = load.ModPath

func (c *Ctx) pkg(path string) *load.Pkg {
	full := mod
	if path != "" {
		full += "/" + path
	}
	p := c.P.Pkgs[full]
	if p == nil {
		c.must(token.NoPos, "anchor", "package "+full, "package not found")
	}
	return p
}

// hasFn returns the package-level function, or nil.
func (c *Ctx) hasFn(path, name string) *ssa.Function {
	return c.pkg(path).SSA.Func(name)
}

func (c *Ctx) fn(path, name string) *ssa.Function {
	f := c.hasFn(path, name)
	if f == nil || len(f.Blocks) == 0 {
		c.must(token.NoPos, "anchor", "func "+path+"."+name, "function not found")
	}
	c.entry(f)
	return f
}

func (c *Ctx) named(path, name string) *types.Named {
	o := c.pkg(path).Types.Scope().Lookup(name)
	if o == nil {
		c.must(token.NoPos, "anchor", "type "+path+"."+name, "type not found")
	}
	n, ok := types.Unalias(o.Type()).(*types.Named)
	if !ok {
		c.must(token.NoPos, "anchor", "type "+path+"."+name, "not a defined type")
	}
	return n
}

// meth finds a method of *T (or T), possibly promoted.
func (c *Ctx) meth(t types.Type, name string) *ssa.Function {
	f := c.hasMeth(t, name)
	if f == nil {
		c.must(token.NoPos, "anchor", "method "+t.String()+"."+name, "method not found")
	}
	c.entry(f)
	return f
}

func (c *Ctx) hasMeth(t types.Type, name string) *ssa.Function {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return nil
	}
	ms := c.P.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return c.P.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func ptr(t types.Type) types.Type { return types.NewPointer(t) }

// std returns an object of a standard library package known to the program.
func (c *Ctx) std(path, name string) types.Object {
	p := c.P.Std(path)
	if p == nil {
		c.must(token.NoPos, "anchor", path+"."+name, "package not imported by the analysed code")
	}
	o := p.Scope().Lookup(name)
	if o == nil {
		c.must(token.NoPos, "anchor", path+"."+name, "not found")
	}
	return o
}

// ifaceMeth is a method of a named interface type.
func (c *Ctx) ifaceMeth(t types.Type, name string) *types.Func {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, name)
	f, ok := o.(*types.Func)
	if !ok {
		c.must(token.NoPos, "anchor", t.String()+"."+name, "method not found")
	}
	return f
}

// field gives the index and type of a struct field; ok is false if absent.
func field(t types.Type, name string) (int, types.Type, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return 0, nil, false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i, s.Field(i).Type(), true
		}
	}
	return 0, nil, false
}

// fa is the address of a named field of the struct that p points to.
func (c *Ctx) fa(p *ai.Term, t types.Type, name string) (*ai.Term, types.Type) {
	i, ft, ok := field(t, name)
	if !ok {
		c.must(token.NoPos, "anchor", t.String()+"."+name, "field not found")
	}
	return ai.FA(p, i, ft), ft
}

func (c *Ctx) load(m *ai.Machine, st *ai.State, p *ai.Term, t types.Type, path ...string) *ai.Term {
	v := p
	for _, f := range path {
		a, ft := c.fa(v, t, f)
		v = m.Load(st, a, ft)
		t = ft
	}
	return v
}

// agg is the struct value stored at address p.
func agg(m *ai.Machine, st *ai.State, p *ai.Term, t types.Type) *ai.Term {
	return m.Load(st, p, t)
}

// --- events

// flat calls f for every event, including those of loop iterations (inLoop).
func flat(evs []*ai.Event, f func(e *ai.Event, inLoop bool)) {
	var walk func(evs []*ai.Event, in bool)
	walk = func(evs []*ai.Event, in bool) {
		for _, e := range evs {
			if e.Kind == "loop" {
				for _, it := range e.Loop.Iters {
					walk(it.Trace.Events(), true)
				}
				continue
			}
			f(e, in)
		}
	}
	walk(evs, false)
}

func trace(evs []*ai.Event) string {
	var s []string
	for _, e := range evs {
		x := e.String()
		if len(x) > 300 {
			x = strings.ToValidUTF8(x[:300], "") + "…"
		}
		s = append(s, "    "+x)
	}
	return strings.Join(s, "\n")
}

func facts(st *ai.State) string {
	fs := st.Facts()
	if len(fs) > 24 {
		fs = append(fs[:24], "…")
	}
	return strings.Join(fs, " && ")
}

func isNil(st *ai.State, t *ai.Term) int { return st.Decide(ai.Eq(t, ai.Nil())) }

func short(fn string) string { return strings.ReplaceAll(fn, mod+"/", "") }
