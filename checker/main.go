// gojicheck decides the properties of /verif/properties.jsonl for the Go
// sources in a goji tree by static analysis (see ../DESIGN.md).
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	rtdebug "runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"gojicheck/ai"
	"gojicheck/load"
	"gojicheck/rules"

	"golang.org/x/tools/go/ssa"
)

func main() {
	prop := flag.String("property", "", "property id(s), comma separated, or all")
	tier := flag.String("tier", "", "quick or thorough")
	repo := flag.String("repo", "/repo", "tree to analyse")
	verif := flag.String("verif", "/verif", "where evidence goes")
	debug := flag.String("debug", "", "print the abstract paths of functions with this name suffix")
	verbose := flag.Bool("v", false, "print findings in full")
	list := flag.Bool("list", false, "list the rules as JSON")
	flag.Parse()
	if *list {
		var rs []map[string]string
		for _, p := range rules.Props() {
			r := rules.All[p]
			rs = append(rs, map[string]string{"Prop": r.Prop, "Technique": r.Technique, "Explain": r.Explain, "Limits": r.Limits})
		}
		b, _ := json.Marshal(rs)
		os.Stdout.Write(b)
		return
	}
	if f := os.Getenv("GC_PROFILE"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier == "" {
		*tier = "quick"
	}
	if *debug != "" {
		debugFn(*repo, *debug)
		return
	}
	props := rules.Props()
	if *prop != "all" && *prop != "" {
		props = strings.Split(*prop, ",")
	}
	rc := 0
	for _, p := range props {
		if !check(p, *tier, *repo, *verif, *verbose) {
			rc = 1
		}
	}
	pprof.StopCPUProfile()
	os.Exit(rc)
}

func cfgName(c load.Config) string {
	s := c.GOOS + "/" + c.GOARCH
	if len(c.Tags) > 0 {
		s += "+" + strings.Join(c.Tags, "+")
	}
	if c.MaxRelease > 0 {
		s += fmt.Sprintf("@go1.%d", c.MaxRelease)
	}
	return s
}

// check decides one property; it reports whether it holds.
func check(id, tier, repo, verif string, verbose bool) bool {
	start := time.Now()
	r := rules.All[id]
	replay := filepath.Join(verif, "evidence", "replay-"+id+".txt")
	os.MkdirAll(filepath.Dir(replay), 0o777)
	os.Remove(replay)
	var findings []rules.Finding
	ev := map[string]any{}
	cov := map[string]any{}
	if r == nil {
		findings = append(findings, rules.Finding{Rule: "setup", Construct: id, Msg: "no rule for this property"})
	} else {
		cfgs := append([]load.Config{{GOOS: "linux", GOARCH: "amd64"}}, r.Configs...)
		if tier == "thorough" {
			cfgs = append(cfgs, load.Config{GOOS: "darwin", GOARCH: "arm64"}, load.Config{GOOS: "windows", GOARCH: "amd64"}, load.Config{GOOS: "linux", GOARCH: "386"})
		}
		oblig := map[string]int{}
		var names, samples []string
		entries := map[string]bool{}
		funcs := map[string]bool{}
		blocks, paths, loops, opaque := 0, 0, 0, map[string]int{}
		done := map[string]bool{}
		for _, cfg := range cfgs {
			n := cfgName(cfg)
			if done[n] {
				continue
			}
			done[n] = true
			names = append(names, n)
			cfg.Repo = repo
			ai.ResetTerms()
			p, err := load.Load(cfg)
			if err != nil {
				findings = append(findings, rules.Finding{Rule: "load", Construct: n, Msg: err.Error(), Config: n})
				continue
			}
			c := &rules.Ctx{Prop: id, Config: n, P: p, Thorough: tier == "thorough"}
			func() {
				defer func() {
					if e := recover(); e != nil {
						findings = append(findings, rules.Finding{Rule: "undecided", Construct: "initialisers", Msg: fmt.Sprint(e) + "\n" + string(rtdebug.Stack()), Config: n})
					}
				}()
				c.M = ai.New(p)
			}()
			if c.M == nil {
				continue
			}
			rules.Execute(r, c)
			findings = append(findings, c.Findings...)
			for k, v := range c.Oblig {
				oblig[k] += v
			}
			if len(samples) == 0 {
				samples = c.Samples
			}
			for _, e := range c.Entries {
				entries[strings.ReplaceAll(e, load.ModPath, "goji")] = true
			}
			for f, k := range c.M.Funcs {
				funcs[strings.ReplaceAll(f.String(), load.ModPath, "goji")] = true
				_ = k
			}
			blocks += c.M.Stat.Blocks
			paths += c.M.Stat.Paths
			loops += c.M.Stat.Loops
			for k, v := range c.M.Opaques {
				opaque[k] += v
			}
		}
		total := 0
		for _, v := range oblig {
			total += v
		}
		cov["explanation"] = r.Explain
		cov["technique"] = r.Technique
		cov["obligations_by_rule"] = oblig
		cov["obligations"] = total
		cov["violated"] = len(findings)
		cov["configurations"] = names
		cov["entry_points"] = keys(entries)
		cov["functions_analysed"] = keys(funcs)
		cov["basic_blocks_interpreted"] = blocks
		cov["abstract_paths"] = paths
		cov["loops_summarised"] = loops
		cov["calls_leaving_the_analysed_code"] = len(opaque)
		cov["samples"] = samples
	}
	// Known findings are reported and do not count.
	known := loadKnown(filepath.Join(verif, "KNOWN_FINDINGS.txt"), id)
	var bad []rules.Finding
	for _, f := range findings {
		if d, ok := known[f.Key()]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, d)
			continue
		}
		bad = append(bad, f)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev["property"], ev["tier"], ev["seed"], ev["level"] = id, tier, seed, "other"
	ev["coverage"] = cov
	ev["wall_s"] = time.Since(start).Seconds()
	if len(cov) == 0 {
		cov["explanation"] = "no rule"
	}
	if len(bad) > 0 {
		var b strings.Builder
		for i, f := range bad {
			if i == 40 {
				fmt.Fprintf(&b, "... and %d more\n", len(bad)-i)
				break
			}
			fmt.Fprintf(&b, "%s: [%s/%s] %s: %s (%s)\n", f.Pos, id, f.Rule, f.Construct, f.Msg, f.Config)
		}
		os.WriteFile(replay, []byte(b.String()), 0o666)
		cov["findings"] = strings.Split(b.String(), "\n")
	}
	js, _ := json.MarshalIndent(ev, "", "  ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(js, '\n'), 0o666); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	if len(bad) > 0 {
		for i, f := range bad {
			msg := f.Msg
			if !verbose {
				if j := strings.IndexByte(msg, '\n'); j > 0 {
					msg = msg[:j]
				}
				if len(msg) > 400 {
					msg = strings.ToValidUTF8(msg[:400], "") + "…"
				}
			}
			if i < 8 || verbose {
				fmt.Printf("%s: [%s/%s] %s: %s\n", f.Pos, id, f.Rule, f.Construct, msg)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return false
	}
	n := 0
	if o, ok := cov["obligations"].(int); ok {
		n = o
	}
	fmt.Printf("ok property=%s obligations=%d wall=%.2fs\n", id, n, time.Since(start).Seconds())
	return true
}

func keys(m map[string]bool) []string {
	s := []string{}
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

// loadKnown reads lines "known: property=<id> <rule>|<construct> :: <text>".
func loadKnown(path, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property="+id+" ")
		if !ok {
			continue
		}
		k, d, _ := strings.Cut(rest, " :: ")
		out[k] = d
	}
	return out
}

func debugFn(repo, want string) {
	t := time.Now()
	p, err := load.Load(load.Config{Repo: repo})
	if err != nil {
		fmt.Println(err)
		return
	}
	fmt.Println("load", time.Since(t))
	t = time.Now()
	m := ai.New(p)
	fmt.Println("init", time.Since(t), len(m.InitStates()), m.Problems)
	for fn := range ai.AllFunctions(p) {
		if strings.HasSuffix(fn.String(), want) {
			runFn(m, fn)
		}
	}
}

func runFn(m *ai.Machine, fn *ssa.Function) {
	st := ai.NewState()
	var args []*ai.Term
	for _, q := range fn.Params {
		args = append(args, ai.Sym(q.Name(), q.Type()))
	}
	sub := m.Sub()
	sub.UserPanics = os.Getenv("UP") != ""
	t := time.Now()
	var free []*ai.Term
	for _, q := range fn.FreeVars {
		free = append(free, ai.Sym(q.Name(), q.Type()))
	}
	outs := sub.ExecFun(ai.CloT(fn, free), args, st)
	fmt.Println("==", fn, len(outs), "outcomes", time.Since(t), "problems", sub.Problems)
	for _, o := range outs {
		fmt.Println(" ", o.Kind, o.Vals, o.Pan)
		for _, f := range o.St.Facts() {
			fmt.Println("      fact", f)
		}
		for _, e := range o.St.Trace() {
			fmt.Println("      ev", e)
		}
	}
}
