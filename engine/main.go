// Command engine decides properties of /repo by symbolic execution of its current source.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	repoDir  = envOr("VERIF_REPO", "/repo")
	verifDir = envOr("VERIF_DIR", "/verif")
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// overlayFiles maps paths below /repo to the harness sources.
func overlayFiles() (map[string]string, error) {
	out := map[string]string{}
	base := filepath.Join(verifDir, "harness")
	err := filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(base, p)
			out[filepath.Join(repoDir, "zz_verif", rel)] = p
		}
		return nil
	})
	return out, err
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
}

func loadEngine(tier string) (*Engine, *ssa.Package, error) {
	files, err := overlayFiles()
	if err != nil {
		return nil, nil, err
	}
	ov := map[string][]byte{}
	for k, v := range files {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, nil, err
		}
		ov[k] = b
	}
	models := map[string][]byte{}
	addLibraryModels(models)
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Overlay: ov, Env: goEnv()}
	cfg.ParseFile = func(fset *token.FileSet, name string, src []byte) (*ast.File, error) {
		if m, ok := models[name]; ok {
			src = m
		}
		return parser.ParseFile(fset, name, src, parser.AllErrors|parser.ParseComments)
	}
	var pk []*packages.Package
	for round := 0; ; round++ {
		if pk, err = packages.Load(cfg, repoModule+"/zz_verif/h"); err != nil {
			return nil, nil, err
		}
		var errs []string
		again := false
		packages.Visit(pk, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
				again = dropDecl(ov, e.Pos) || again
			}
		})
		if len(errs) == 0 {
			break
		}
		if !again || round > 40 {
			return nil, nil, fmt.Errorf("loading: %s", strings.Join(errs, "; "))
		}
	}
	prog, pkgs := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, sizes: types.SizesFor("gc", "amd64"), stats: &SolverStats{}, coverFns: true, byName: map[string]*ssa.Package{}, tier: tier}
	for _, p := range prog.AllPackages() {
		e.byName[p.Pkg.Path()] = p
	}
	if t := e.typeByName("runtime", "errorString"); t != nil {
		e.runtimeErrT = t
	} else {
		return nil, nil, fmt.Errorf("runtime.errorString not loaded")
	}
	return e, pkgs[0], nil
}

// pruned holds the harness files without the declarations that do not compile against the
// current source, and dropped the harnesses that are lost with them.
var (
	pruned  = map[string][]byte{}
	dropped []string
)

// dropDecl blanks the declaration of a harness file at a position, or the import on its line.
func dropDecl(ov map[string][]byte, pos string) bool {
	parts := strings.Split(pos, ":")
	if len(parts) < 2 || filepath.Dir(parts[0]) != filepath.Join(repoDir, "zz_verif", "h") {
		return false
	}
	line, _ := strconv.Atoi(parts[1])
	src := ov[parts[0]]
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, parts[0], src, 0)
	if err != nil {
		return false
	}
	blank := func(n ast.Node) bool {
		from, to := fset.Position(n.Pos()), fset.Position(n.End())
		if line < from.Line || line > to.Line {
			return false
		}
		out := append([]byte{}, src...)
		for i := from.Offset; i < to.Offset; i++ {
			if out[i] != '\n' {
				out[i] = ' '
			}
		}
		ov[parts[0]], pruned[parts[0]] = out, out
		return true
	}
	for _, i := range f.Imports {
		if blank(i) {
			return true
		}
	}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		if blank(d) {
			if fn, ok := d.(*ast.FuncDecl); ok && len(fn.Name.Name) > 4 && fn.Name.Name[3] == '_' {
				dropped = append(dropped, fn.Name.Name)
			}
			return true
		}
	}
	return false
}

// addLibraryModels rewrites one third-party loop: the Latin-1 encoder of x/text searches its
// table inside Transform; the copy calls the library's own EncodeRune there instead, and the
// decoder copies its table entry instead of taking its address.
func addLibraryModels(ov map[string][]byte) {
	cmd := exec.Command("go", "list", "-f", "{{.Dir}}", "golang.org/x/text/encoding/charmap")
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	out, err := cmd.Output()
	if err != nil {
		return
	}
	file := filepath.Join(strings.TrimSpace(string(out)), "charmap.go")
	b, err := os.ReadFile(file)
	if err != nil {
		return
	}
	s := strings.Replace(string(b), "decode := &m.charmap.decode[c]", "decode := m.charmap.decode[c]", 1)
	i := strings.Index(s, "\t\t// Binary search in [low, high)")
	if i < 0 {
		return
	}
	k := strings.Index(s[i:], "\t\tnSrc += size")
	if k < 0 {
		return
	}
	ov[file] = []byte(s[:i] + `		b, ok := m.charmap.EncodeRune(r)
		if !ok {
			err = internal.RepertoireError(m.charmap.replacement)
			break loop
		}
		dst[nDst] = b
		nDst++
` + s[i+k:])
}

// coverNames lists the cover points written in a harness and its closures.
func coverNames(fn *ssa.Function) []string {
	var out []string
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(*ssa.Call); ok {
					if g := c.Call.StaticCallee(); g != nil && g.Pkg != nil {
						if g.Pkg.Pkg.Path() == vxPath && g.Name() == "Cover" {
							if k, ok := c.Call.Args[0].(*ssa.Const); ok {
								out = append(out, constant.StringVal(k.Value))
							}
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			rec(a)
		}
	}
	rec(fn)
	return out
}

type harness struct {
	fn    *ssa.Function
	doc   string
	steps int64
	share float64 // weight of the time budget
	tier  string
	raw   bool // no library models
	text  bool // no merging of functions that take strings
}

func findHarnesses(pkg *ssa.Package, prop string) []harness {
	var hs []harness
	for name, m := range pkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(name, prop+"_") {
			continue
		}
		h := harness{fn: f, steps: 500000, share: 1}
		if d := docOf(f); d != "" {
			var keep []string
			for _, l := range strings.Split(d, "\n") {
				l = strings.TrimSpace(l)
				switch {
				case strings.HasPrefix(l, "vx:steps "):
					h.steps, _ = strconv.ParseInt(strings.TrimSpace(l[9:]), 10, 64)
				case strings.HasPrefix(l, "vx:share "):
					h.share, _ = strconv.ParseFloat(strings.TrimSpace(l[9:]), 64)
				case strings.HasPrefix(l, "vx:tier "):
					h.tier = strings.TrimSpace(l[8:])
				case l == "vx:text":
					h.text = true
				case l == "vx:raw":
					h.raw = true
				case l != "":
					keep = append(keep, l)
				}
			}
			h.doc = strings.Join(keep, " ")
		}
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].fn.Name() < hs[j].fn.Name() })
	return hs
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", envOr("VERIF_TIER", "quick"), "quick or thorough")
	only := flag.String("harness", "", "run only this harness")
	workers := flag.Int("workers", runtime.NumCPU(), "workers")
	first := flag.Bool("first", false, "stop at the first confirmed violation")
	budget := flag.Float64("budget", 0, "seconds for exploration")
	bin := flag.String("solver", "", "solver binary")
	tmo := flag.Int("tmo", 4000, "solver timeout ms")
	noMerge := flag.Bool("nomerge", false, "disable state merging")
	verbose := flag.Bool("v", false, "print per-harness statistics")
	maxSamp := flag.Int("samples", 60, "paths replayed natively per harness")
	replayFile := flag.String("replay", "", "replay a recorded counterexample natively")
	flag.Parse()
	if *replayFile != "" {
		os.Exit(replayMain(*replayFile))
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	os.Setenv("VERIF_TIER", *tier)
	if *budget == 0 {
		*budget = 400
		if *tier == "thorough" {
			*budget = 600
		}
	}
	if f := os.Getenv("VX_PROF"); f != "" {
		w, err := os.Create(f)
		if err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	t0 := time.Now()
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	eng, pkg, err := loadEngine(*tier)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load the code under check:", err)
		os.Exit(3)
	}
	eng.seed = seed
	if *bin == "" {
		*bin = "z3-new"
		if _, err := exec.LookPath(*bin); err != nil {
			*bin = "z3"
		}
	}
	eng.solverBin = *bin
	eng.solverTimeout = *tmo
	hs := findHarnesses(pkg, *prop)
	var sel []harness
	for _, h := range hs {
		if *only != "" && h.fn.Name() != *only {
			continue
		}
		if h.tier != "" && h.tier != *tier {
			continue
		}
		sel = append(sel, h)
	}
	var lost []string
	for _, d := range dropped {
		if strings.HasPrefix(d, *prop+"_") {
			lost = append(lost, d)
		}
	}
	if len(sel) == 0 && len(lost) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", *prop)
		os.Exit(3)
	}
	loadT := time.Since(t0)
	nat := newNative()
	defer nat.close()
	natErr := make(chan error, 1)
	go func() { natErr <- nat.build() }()
	worlds := make([]*World, *workers)
	for i := range worlds {
		worlds[i] = NewWorld(eng)
		worlds[i].noMerge = *noMerge
	}
	eng.first = *first
	known := loadKnown()
	rep := &report{Prop: *prop, Tier: *tier, Seed: seed, Load: loadT, Lost: lost}
	end := t0.Add(time.Duration(*budget * float64(time.Second)))
	built, settled := false, false
	for i, h := range sel {
		if *first && settled {
			break
		}
		rest := 0.0
		for _, g := range sel[i:] {
			rest += g.share
		}
		left := time.Until(end)
		d := time.Now().Add(time.Duration(float64(left) * h.share / rest))
		for _, w := range worlds {
			w.raw, w.noMerge, w.text = h.raw, h.raw || *noMerge, h.text
		}
		ht := time.Now()
		q0 := *eng.stats
		st := eng.Explore(worlds, h.fn, d, h.steps, *maxSamp)
		if !built {
			if err := <-natErr; err != nil {
				fmt.Fprintln(os.Stderr, "cannot build the native replayer:", err)
				os.Exit(3)
			}
			built = true
		}
		hr := nat.judge(h, st)
		hr.Wall = time.Since(ht).Seconds()
		hr.Queries = eng.stats.Queries - q0.Queries
		hr.SatN, hr.UnsatN, hr.UnknownN = eng.stats.SatN-q0.SatN, eng.stats.UnsatN-q0.UnsatN, eng.stats.UnknownN-q0.UnknownN
		hr.SolverS = float64(eng.stats.Nanos-q0.Nanos) / 1e9
		rep.H = append(rep.H, hr)
		for _, v := range hr.Viol {
			if soon := time.Now().Add(40 * time.Second); matchKnown(known, *prop, v.Harness, v) == nil && soon.Before(end) {
				end = soon // the verdict is settled; look at the other harnesses briefly
			}
			settled = settled || matchKnown(known, *prop, v.Harness, v) == nil
		}
		if *verbose {
			b, _ := json.MarshalIndent(hr, "", " ")
			fmt.Fprintln(os.Stderr, string(b))
		}
	}
	for _, w := range worlds {
		w.sol.Close()
	}
	code := rep.finish(known, time.Since(t0).Seconds())
	nat.close()
	pprof.StopCPUProfile()
	printForks()
	os.Exit(code)
}
