package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/types"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	fProp    = flag.String("prop", "", "property id")
	fHarness = flag.String("harness", "", "regexp of harness names (default: all of the property)")
	fBudget  = flag.Duration("budget", 60*time.Second, "exploration time")
	fDir     = flag.String("dir", "/verif/harness", "harness module")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fOverlay = flag.String("overlay", "", "go build overlay file")
	fOut     = flag.String("out", "", "result file (JSON)")
	fWorkers = flag.Int("j", 0, "workers")
	fV       = flag.Bool("v", false, "verbose")
	fCPU     = flag.String("cpuprofile", "", "")
	fFirst   = flag.Bool("first", false, "stop at the first violation")
	fTrace   = flag.Bool("trace", false, "")
	fSample  = flag.Int("samples", 12, "path models kept per harness")
	fList    = flag.Bool("list", false, "list harnesses")
	fWarm    = flag.Bool("warm", true, "run warm-up functions")
	fSeed    = flag.Int64("seed", 1, "seed of the choice of sampled paths")
	fTimes   = flag.Bool("times", false, "per-harness summary")
	fForks   = flag.Bool("forks", false, "list where paths fork")
)

const buildTags = "math_big_pure_go,purego,netgo,osusergo"

type overlayFile struct{ Replace map[string]string }

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(3)
}

func loadProg() (*Prog, map[string]*ssa.Function, map[string]string) {
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        *fDir,
		BuildFlags: []string{"-tags=" + buildTags},
		Env:        append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "CGO_ENABLED=0"),
	}
	if *fOverlay != "" {
		var o overlayFile
		data, err := os.ReadFile(*fOverlay)
		if err != nil {
			fatal("%v", err)
		}
		if err := json.Unmarshal(data, &o); err != nil {
			fatal("%v", err)
		}
		cfg.Overlay = map[string][]byte{}
		for k, v := range o.Replace {
			b, err := os.ReadFile(v)
			if err != nil {
				fatal("%v", err)
			}
			cfg.Overlay[k] = b
		}
	}
	pkgs, err := packages.Load(cfg, "verif/harness/p")
	if err != nil {
		fatal("load: %v", err)
	}
	nerr := 0
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if nerr < 10 && (strings.Contains(p.PkgPath, "verif/") || strings.Contains(p.PkgPath, "ofxgo")) {
				fmt.Fprintln(os.Stderr, e)
				nerr++
			}
		}
	})
	if nerr > 0 {
		fatal("the code under test or the harness does not type-check")
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{prog: prog, funcs: map[*ssa.Function]*Func{}, globals: map[*ssa.Global]int32{}}
	hs := map[string]*ssa.Function{}
	docs := map[string]string{}
	var roots []*types.Package
	for _, pk := range pkgs {
		roots = append(roots, pk.Types)
		if pk.PkgPath != "verif/harness/p" {
			continue
		}
		sp := prog.Package(pk.Types)
		for name, mem := range sp.Members {
			f, ok := mem.(*ssa.Function)
			if !ok {
				continue
			}
			if strings.HasPrefix(name, "Warmup") && name != "WarmupNative" {
				if *fWarm {
					p.warmup = append(p.warmup, f)
				}
			} else if regexp.MustCompile(`^C[0-9]+_`).MatchString(name) && f.Signature.Params().Len() == 0 {
				hs[name] = f
			}
		}
		for _, file := range pk.Syntax {
			for _, d := range file.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Doc != nil {
					docs[fd.Name.Name] = strings.TrimSpace(fd.Doc.Text())
				}
			}
		}
	}
	sort.Slice(p.warmup, func(i, j int) bool { return p.warmup[i].Name() < p.warmup[j].Name() })
	p.wk = initTypes(p)
	p.order = pkgOrder(p, roots)
	return p, hs, docs
}

// Result is what the driver script reads.
type Result struct {
	Property  string         `json:"property"`
	Tier      string         `json:"tier"`
	Harnesses []*HResult     `json:"harnesses"`
	Functions map[string]int `json:"functions_by_package"`
	RepoFuncs []string       `json:"repo_functions"`
	LoadS     float64        `json:"load_s"`
	InitS     float64        `json:"init_s"`
	ExploreS  float64        `json:"explore_s"`
	Skipped   []string       `json:"init_skipped"`
	Solver    string         `json:"solver"`
}

type HResult struct {
	Name       string           `json:"name"`
	Bounds     string           `json:"bounds"`
	Complete   bool             `json:"complete"`
	Stats      Stats            `json:"stats"`
	Why        map[string]int   `json:"why"`
	Reach      map[string]int64 `json:"reach"`
	Cpu        float64          `json:"cpu_s"`
	Violations []*Violation     `json:"violations"`
	Samples    []*PathModel     `json:"samples"`
	Cut        []*PathModel     `json:"cut"`
}

// memoryLimit is half of the memory available now, from 4 to 14 GB.
func memoryLimit() int64 {
	limit := int64(14 << 30)
	b, _ := os.ReadFile("/proc/meminfo")
	for _, l := range strings.Split(string(b), "\n") {
		var kb int64
		if n, _ := fmt.Sscanf(l, "MemAvailable: %d kB", &kb); n == 1 && kb<<9 < limit {
			limit = kb << 9
		}
	}
	if limit < 4<<30 {
		limit = 4 << 30
	}
	return limit
}

func main() {
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(memoryLimit())
	if *fCPU != "" {
		f, _ := os.Create(*fCPU)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	p, hs, docs := loadProg()
	loadS := time.Since(t0)
	if *fV {
		fmt.Fprintf(os.Stderr, "loaded in %v\n", loadS)
	}
	var names []string
	re := regexp.MustCompile(*fHarness)
	for n := range hs {
		if *fProp != "" && !strings.HasPrefix(n, *fProp+"_") {
			continue
		}
		if !re.MatchString(n) {
			continue
		}
		if *fTier == "quick" && strings.HasSuffix(n, "_deep") {
			continue
		}
		names = append(names, n)
	}
	sort.Strings(names)
	if *fList {
		for _, n := range names {
			fmt.Println(n)
		}
		return
	}
	if len(names) == 0 {
		fatal("no harness for %s", *fProp)
	}
	nw := *fWorkers
	if nw == 0 {
		nw = runtime.NumCPU()
	}
	x := &Explorer{p: p, nworkers: nw, maxViol: 3, sampleN: *fSample, first: *fFirst, stepLimit: 60_000_000, verbose: *fV}
	x.cond = sync.NewCond(&x.mu)
	var ms []*M
	for i := 0; i < nw; i++ {
		m := newMachine(p, x)
		m.wid = i
		m.trace = *fTrace
		ms = append(ms, m)
	}
	var wg sync.WaitGroup
	for _, m := range ms {
		wg.Add(1)
		go func(m *M) { defer wg.Done(); m.init() }(m)
	}
	wg.Wait()
	initS := time.Since(t0) - loadS
	x.start = time.Now()
	x.deadline = x.start.Add(*fBudget)
	x.hdeadline = map[*Harness]time.Time{}
	var hl []*Harness
	for i, n := range names {
		h := &Harness{name: n, fn: hs[n], why: map[string]int{}, reach: map[string]int64{}, funcs: map[*Func]int64{}, rng: rand.New(rand.NewSource(*fSeed*1000 + int64(i)))}
		hl = append(hl, h)
		x.put(&Job{h: h})
	}
	for _, m := range ms {
		wg.Add(1)
		go func(m *M) {
			defer wg.Done()
			for {
				j := x.take()
				if j == nil {
					break
				}
				m.runJob(j)
				x.done(j)
			}
			m.solver.close()
		}(m)
	}
	wg.Wait()
	res := &Result{Property: *fProp, Tier: *fTier, LoadS: loadS.Seconds(), InitS: initS.Seconds(), ExploreS: time.Since(x.start).Seconds(), Functions: map[string]int{}}
	allf := map[*Func]bool{}
	for _, f := range p.funcs {
		if f.seen.Load() {
			allf[f] = true
		}
	}
	sk := map[string]bool{}
	for _, m := range ms {
		for s := range m.skipped {
			sk[s] = true
		}
	}
	for s := range sk {
		res.Skipped = append(res.Skipped, s)
	}
	sort.Strings(res.Skipped)
	for f := range allf {
		if f.f.Pkg == nil {
			continue
		}
		pp := f.f.Pkg.Pkg.Path()
		res.Functions[pp]++
		if strings.HasPrefix(pp, "github.com/aclindsa/") {
			res.RepoFuncs = append(res.RepoFuncs, f.name)
		}
	}
	sort.Strings(res.RepoFuncs)
	if v, err := exec.Command(z3Name(), "--version").Output(); err == nil {
		res.Solver = strings.TrimSpace(string(v))
	}
	for _, h := range hl {
		complete := !h.cut && h.stats.Limited == 0 && h.stats.Unknown == 0 && h.stats.Approx == 0 && h.pend == 0
		r := &HResult{Name: h.name, Bounds: docs[h.name], Complete: complete, Stats: h.stats, Why: h.why, Reach: h.reach, Cpu: h.cpu.Seconds(), Violations: h.viol, Samples: h.sample}
		for _, c := range h.cutSample {
			if c != nil {
				r.Cut = append(r.Cut, c)
			}
		}
		if h.cut {
			r.Why["time budget"]++
		}
		res.Harnesses = append(res.Harnesses, r)
	}
	data, err := json.MarshalIndent(res, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	if *fOut != "" {
		os.MkdirAll(filepath.Dir(*fOut), 0755)
		if err := os.WriteFile(*fOut, data, 0644); err != nil {
			fatal("%v", err)
		}
	}
	if *fTimes || *fOut == "" {
		for _, r := range res.Harnesses {
			s := r.Stats
			fmt.Printf("%-40s complete=%-5v paths=%d steps=%.2gM queries=%d (%.1fs) fast=%d asserts=%d/%d infeas=%d limited=%d cpu=%.1fs reach=%v viol=%d\n", r.Name, r.Complete, s.Paths, float64(s.Steps)/1e6, s.Queries, float64(s.SolverNs)/1e9, s.FastDec, s.AssertQ, s.Asserts, s.Infeasible, s.Limited, r.Cpu, r.Reach, len(r.Violations))
			for _, k := range sortedKeys(r.Why) {
				fmt.Printf("      %d x %s\n", r.Why[k], k)
			}
			for _, v := range r.Violations {
				fmt.Printf("   VIOL %s: %s\n", v.Kind, v.Msg)
				for _, i := range v.Ins {
					fmt.Printf(" %s=%d", i.Label, i.Value)
				}
				fmt.Println()
			}
		}
		fmt.Printf("load %.1fs init %.1fs explore %.1fs\n", res.LoadS, res.InitS, res.ExploreS)
		if *fForks {
			var sites []string
			for s := range forkSites {
				sites = append(sites, s)
			}
			sort.Slice(sites, func(i, j int) bool { return forkSites[sites[i]] > forkSites[sites[j]] })
			for i, s := range sites {
				if i < 12 {
					fmt.Printf("%d forks at\n%s\n", forkSites[s], s)
				}
			}
		}
	}
}
