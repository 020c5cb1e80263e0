package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	modRoot = "github.com/SKAARHOJ/rawpanel-lib"
	rwpPath = modRoot + "/ibeam_rawpanel"
)

type Violation struct {
	Rule, Key, Msg string
}

type ScenarioResult struct {
	Name        string   `json:"name"`
	Runs        int      `json:"schedules_analysed,omitempty"`
	Obligations int      `json:"obligations"`
	Proved      int      `json:"discharged"`
	Undecided   int      `json:"undecided,omitempty"`
	Detail      []string `json:"undecided_detail,omitempty"`
	Imprecise   []string `json:"imprecise,omitempty"`
	Functions   int      `json:"functions_analysed,omitempty"`
	Steps       int      `json:"instructions_analysed,omitempty"`
	Seconds     float64  `json:"seconds"`
}

type Check struct {
	prop, tier string
	only       string
	start      time.Time
	pkgs       []*packages.Package
	prog       *ssa.Program
	mu         sync.Mutex
	viol       []Violation
	res        []*ScenarioResult
	wg         sync.WaitGroup
	sem        chan struct{}
	rules      []string
	funcs      map[string]bool
	root       string
	samples    []string
	expl       string
	knownKeys  map[string]string
}

func newCheck(prop, tier string) *Check {
	root := os.Getenv("VERIF_DIR")
	if root == "" {
		root = "/verif"
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	return &Check{prop: prop, tier: tier, sem: make(chan struct{}, n), funcs: map[string]bool{}, root: root}
}

func (c *Check) thorough() bool { return c.tier == "thorough" }

func (c *Check) load() error {
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: filepath.Join(c.root, "spec"), Env: env}
	if ov := os.Getenv("RP_OVERLAY"); ov != "" { // development aid: analyse edited copies of files
		cfg.Overlay = map[string][]byte{}
		for _, x := range strings.Split(ov, ";") {
			if i := strings.IndexByte(x, '='); i > 0 {
				b, err := os.ReadFile(x[i+1:])
				if err != nil {
					return err
				}
				cfg.Overlay[x[:i]] = b
			}
		}
	}
	p, err := packages.Load(cfg, "rpspec", modRoot, modRoot+"/gorwp", modRoot+"/topology", modRoot+"/ibeam_lib_monogfx")
	if err != nil {
		return err
	}
	for _, q := range p {
		for _, e := range q.Errors {
			return fmt.Errorf("%v", e)
		}
		if q.Types == nil || q.IllTyped {
			return fmt.Errorf("package %s does not type-check", q.PkgPath)
		}
	}
	c.pkgs = p
	c.prog, _ = ssautil.AllPackages(p, ssa.InstantiateGenerics)
	c.prog.Build()
	return nil
}

func (c *Check) pkg(path string) *ssa.Package {
	p := c.prog.ImportedPackage(path)
	return p
}

// fn resolves "Name" or "Type.Method" in a package.
func (c *Check) fn(path, name string) *ssa.Function {
	p := c.pkg(path)
	if p == nil {
		return nil
	}
	if i := strings.IndexByte(name, '.'); i > 0 {
		tn, _ := p.Pkg.Scope().Lookup(name[:i]).(*types.TypeName)
		if tn == nil {
			return nil
		}
		if f := c.prog.LookupMethod(types.NewPointer(tn.Type()), p.Pkg, name[i+1:]); f != nil {
			return f
		}
		return nil
	}
	return p.Func(name)
}

// need resolves a function or records the missing anchor as a violation.
func (c *Check) need(path, name string) *ssa.Function {
	f := c.fn(path, name)
	if f == nil || len(f.Blocks) == 0 {
		c.violate("anchor", path+"."+name, "public entry point "+name+" not found in package "+path)
		return nil
	}
	return f
}

func (c *Check) violate(rule, key, msg string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, v := range c.viol {
		if v.Rule == rule && v.Key == key {
			return
		}
	}
	c.viol = append(c.viol, Violation{rule, key, msg})
}

// enough: further counterexamples would not change the verdict.
func (c *Check) enough() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.knownKeys == nil {
		c.knownKeys = c.known()
	}
	n := 0
	for _, v := range c.viol {
		if _, ok := c.knownKeys[v.Rule+"|"+v.Key]; !ok {
			n++
		}
	}
	return n >= 30 || n > 0 && time.Since(c.start) > 75*time.Second
}

// Scenario is one abstract input analysed from scratch.
type Scenario struct {
	*Eng
	c    *Check
	r    *ScenarioResult
	name string
}

func (c *Check) scenario(name string, f func(s *Scenario)) {
	if c.only != "" && !strings.Contains(name, c.only) {
		return
	}
	c.wg.Add(1)
	go func() {
		defer c.wg.Done()
		c.sem <- struct{}{}
		defer func() { <-c.sem }()
		t0 := time.Now()
		e := NewInterp(c.prog)
		e.deadline = t0.Add(c.limit())
		e.maxTerms = 4_000_000
		s := &Scenario{Eng: e, c: c, r: &ScenarioResult{Name: name}, name: name}
		func() {
			defer func() {
				if x := recover(); x != nil {
					msg := fmt.Sprint("analysis gave up: ", x)
					if os.Getenv("RPDEBUG") != "" {
						if os.Getenv("RPSTACK") != "" {
							msg += "\n" + string(debug.Stack())
						}
						for i := len(e.stack) - 1; i >= 0; i-- {
							msg += "\n in " + e.stack[i].String()
						}
					}
					s.undecided(msg)
				}
			}()
			if c.enough() {
				s.undecided("not analysed: enough violations were found")
				return
			}
			if time.Since(c.start) > 10*time.Minute {
				s.undecided("not analysed: time budget of the check used up")
				return
			}
			f(s)
		}()
		s.r.Seconds = time.Since(t0).Seconds()
		s.r.Functions = len(e.visited)
		s.r.Steps = e.steps
		for n, k := range e.notes {
			s.r.Imprecise = append(s.r.Imprecise, fmt.Sprintf("%s (x%d)", n, k))
		}
		sort.Strings(s.r.Imprecise)
		c.mu.Lock()
		c.res = append(c.res, s.r)
		for fn := range e.visited {
			if fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modRoot) {
				c.funcs[fn.String()] = true
			}
		}
		c.mu.Unlock()
	}()
}

// limit bounds one scenario; what is not decided in time counts as undecided.
func (c *Check) limit() time.Duration {
	if d, err := time.ParseDuration(os.Getenv("RP_LIMIT")); err == nil {
		return d
	}
	if c.thorough() {
		return 10 * time.Minute
	}
	return 100 * time.Second
}

func (s *Scenario) ok() { s.r.Obligations++; s.r.Proved++ }
func (s *Scenario) undecided(why string) {
	s.r.Obligations++
	s.r.Undecided++
	if len(s.r.Detail) < 12 {
		s.r.Detail = append(s.r.Detail, why)
	}
}
func (s *Scenario) violate(rule, key, msg string) {
	if s.tainted != "" {
		s.undecided("no model of " + s.tainted + "; apparent violation not reported: " + rule + " " + key)
		return
	}
	s.r.Obligations++
	s.c.violate(rule, key, "["+s.name+"] "+msg)
}

func (c *Check) wait() { c.wg.Wait() }

func (c *Check) posStr(p token.Pos) string {
	ps := c.prog.Fset.Position(p)
	return strings.TrimPrefix(ps.Filename, "/repo/") + ":" + strconv.Itoa(ps.Line)
}

// known findings: "finding: property=<id> key=<rule>|<key> <text>"
func (c *Check) known() map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(c.root, "known-findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: property="+c.prop+" key=<") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+c.prop+" key=<")
		i := strings.Index(rest, "> ")
		if i < 0 {
			continue
		}
		out[rest[:i]] = rest[i+2:]
	}
	return out
}

func (c *Check) finish() int {
	sort.Slice(c.res, func(i, j int) bool { return c.res[i].Name < c.res[j].Name })
	known := c.known()
	var fresh []Violation
	for _, v := range c.viol {
		if txt, ok := known[v.Rule+"|"+v.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, txt)
			continue
		}
		fresh = append(fresh, v)
	}
	obl, dis, und := 0, 0, 0
	var und1 []string
	for _, r := range c.res {
		obl += r.Obligations
		dis += r.Proved
		und += r.Undecided
		for _, d := range r.Detail {
			und1 = append(und1, r.Name+": "+d)
		}
	}
	evDir := filepath.Join(c.root, "evidence")
	if d := os.Getenv("RP_EVDIR"); d != "" {
		evDir = d
	}
	os.MkdirAll(evDir, 0o755)
	var fn []string
	for f := range c.funcs {
		fn = append(fn, f)
	}
	sort.Strings(fn)
	cov := map[string]any{
		"explanation":        c.expl,
		"obligations":        obl,
		"discharged":         dis,
		"undecided":          und,
		"undecided_detail":   und1,
		"scenarios":          c.res,
		"functions_analysed": fn,
		"rules":              c.rules,
		"samples":            c.samples,
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	vs := 0
	for i, v := range fresh {
		path := filepath.Join(evDir, fmt.Sprintf("%s-%d.replay.txt", c.prop, i+1))
		os.WriteFile(path, []byte(fmt.Sprintf("property: %s\nrule: %s\ninstance: %s\n\n%s\n\nre-run: /verif/run.sh %s\n", c.prop, v.Rule, v.Key, v.Msg, c.prop)), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n  rule %s, instance %s\n  %s\n", c.prop, path, v.Rule, v.Key, strings.ReplaceAll(v.Msg, "\n", "\n  "))
		vs++
	}
	ev := map[string]any{
		"property": c.prop, "tier": c.tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(c.start).Seconds(), "violations": vs,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evDir, c.prop+".json"), b, 0o644)
	fmt.Printf("%s %s: %d obligations, %d discharged, %d undecided, %d violations, %d scenarios, %.1fs\n", c.prop, c.tier, obl, dis, und, len(fresh), len(c.res), time.Since(c.start).Seconds())
	if os.Getenv("RPDEBUG") != "" {
		for _, r := range c.res {
			fmt.Printf("  %-40s obl %d ok %d und %d steps %d %.2fs\n", r.Name, r.Obligations, r.Proved, r.Undecided, r.Steps, r.Seconds)
			for _, d := range r.Detail {
				fmt.Println("      undecided:", d)
			}
			for _, d := range r.Imprecise {
				fmt.Println("      note:", d)
			}
		}
	}
	if len(fresh) > 0 {
		return 1
	}
	return 0
}
