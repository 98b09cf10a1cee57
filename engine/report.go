package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
)

func docOf(f *ssa.Function) string {
	if d, ok := f.Syntax().(*ast.FuncDecl); ok && d.Doc != nil {
		return d.Doc.Text()
	}
	return ""
}

// native builds and drives the natively compiled harnesses.
type native struct {
	dir string
	bin string
}

func newNative() *native {
	base := filepath.Join(verifDir, "build")
	os.MkdirAll(base, 0o755)
	d, err := os.MkdirTemp(base, "run-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	return &native{dir: d, bin: filepath.Join(d, "replay")}
}

func (n *native) close() { os.RemoveAll(n.dir) }

func (n *native) build() error {
	files, err := overlayFiles()
	if err != nil {
		return err
	}
	i := 0
	for k, b := range pruned {
		f := filepath.Join(n.dir, fmt.Sprintf("pruned%d.go", i))
		i++
		if err := os.WriteFile(f, b, 0o644); err != nil {
			return err
		}
		files[k] = f
	}
	// registry of harnesses
	names := map[string]bool{}
	for k, v := range files {
		if filepath.Base(filepath.Dir(k)) != "h" {
			continue
		}
		b, err := os.ReadFile(v)
		if err != nil {
			return err
		}
		sc := bufio.NewScanner(bytes.NewReader(b))
		sc.Buffer(nil, 1<<20)
		for sc.Scan() {
			l := sc.Text()
			if strings.HasPrefix(l, "func C") {
				if i := strings.Index(l, "()"); i > 0 && len(l) > 9 && l[8] == '_' {
					names[l[5:i]] = true
				}
			}
		}
	}
	var ns []string
	for k := range names {
		ns = append(ns, k)
	}
	sort.Strings(ns)
	var sb strings.Builder
	sb.WriteString("package main\n\nimport \"" + repoModule + "/zz_verif/h\"\n\nfunc init() {\n")
	for _, k := range ns {
		fmt.Fprintf(&sb, "\tregistry[%q] = h.%s\n", k, k)
	}
	sb.WriteString("}\n")
	reg := filepath.Join(n.dir, "registry.go")
	if err := os.WriteFile(reg, []byte(sb.String()), 0o644); err != nil {
		return err
	}
	files[filepath.Join(repoDir, "zz_verif", "replay", "registry.go")] = reg
	ov, _ := json.Marshal(map[string]any{"Replace": files})
	ovf := filepath.Join(n.dir, "overlay.json")
	if err := os.WriteFile(ovf, ov, 0o644); err != nil {
		return err
	}
	cmd := exec.Command("go", "build", "-overlay", ovf, "-o", n.bin, repoModule+"/zz_verif/replay")
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v: %s", err, out)
	}
	return nil
}

type natReq struct {
	Harness string   `json:"harness"`
	Inputs  []uint64 `json:"inputs"`
	Repeat  int      `json:"repeat"`
}

type natRes struct {
	End string   `json:"end"`
	Msg string   `json:"msg"`
	Obs []string `json:"obs"`
}

// run executes requests in one process; the answer list is shorter when the process died.
func (n *native) run(reqs []natReq, timeout time.Duration) (res []natRes, died string) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, n.bin)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Dir = n.dir
	var in bytes.Buffer
	enc := json.NewEncoder(&in)
	for _, r := range reqs {
		enc.Encode(r)
	}
	cmd.Stdin = &in
	var out, serr bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &limited{b: &serr, n: 4000}
	err := cmd.Run()
	sc := bufio.NewScanner(&out)
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		var r natRes
		if json.Unmarshal(sc.Bytes(), &r) == nil {
			res = append(res, r)
		}
	}
	if ctx.Err() != nil {
		return res, "timeout"
	}
	if err != nil {
		l := strings.SplitN(serr.String(), "\n", 2)[0]
		return res, "crash: " + l
	}
	return res, ""
}

type limited struct {
	b *bytes.Buffer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

type hresult struct {
	Name      string           `json:"harness"`
	Bounds    string           `json:"what_and_bounds"`
	Paths     int64            `json:"paths"`
	Done      int64            `json:"paths_completed"`
	Assumed   int64            `json:"paths_cut_by_assumption"`
	Forks     int64            `json:"branch_forks"`
	Merges    int64            `json:"joins"`
	Steps     int64            `json:"ssa_steps"`
	Asserts   int64            `json:"assertions_checked"`
	Queries   int64            `json:"solver_queries"`
	SatN      int64            `json:"sat"`
	UnsatN    int64            `json:"unsat"`
	UnknownN  int64            `json:"unknown"`
	SolverS   float64          `json:"solver_seconds"`
	Wall      float64          `json:"wall_s"`
	Complete  bool             `json:"explored_completely"`
	Incon     map[string]int64 `json:"not_decided,omitempty"`
	Covers    map[string]int64 `json:"cover_points"`
	Missing   []string         `json:"cover_points_missed,omitempty"`
	Validated int              `json:"paths_replayed_natively"`
	Mismatch  []string         `json:"replay_mismatches,omitempty"`
	Viol      []Violation      `json:"violations,omitempty"`
	Spurious  []Violation      `json:"unconfirmed_candidates,omitempty"`
	Fns       []string         `json:"functions_encoded"`
	Stubs     map[string]int64 `json:"modelled_calls,omitempty"`
	Samples   []string         `json:"samples"`
}

func (n *native) judge(h harness, st *RunStats) *hresult {
	hr := &hresult{Name: h.fn.Name(), Bounds: h.doc, Paths: st.Paths, Done: st.Done, Assumed: st.Assumed, Forks: st.Forks, Merges: st.Merges, Steps: st.Steps,
		Asserts: st.Asserts, Incon: map[string]int64{}, Covers: st.Covers, Stubs: st.Stubs}
	for k, v := range st.Incon {
		if len(k) > 600 {
			k = k[:600]
		}
		hr.Incon[k] += v
	}
	if st.TimedOut {
		hr.Incon["time budget reached"]++
	}
	for f := range st.Fns {
		if strings.Contains(f, "/zz_verif/") {
			continue
		}
		hr.Fns = append(hr.Fns, strings.ReplaceAll(f, repoModule+"/", ""))
	}
	sort.Strings(hr.Fns)
	for _, c := range coverNames(h.fn) {
		if st.Covers[c] == 0 {
			hr.Missing = append(hr.Missing, c)
		}
	}
	// counterexamples
	confirmed := map[string]bool{}
	for _, v := range st.Viol {
		key := violKey(v.Kind, v.Msg)
		if confirmed[key] {
			continue
		}
		reqs := []natReq{{v.Harness, v.Inputs, 64}}
		res, died := n.run(reqs, 20*time.Second)
		switch {
		case died != "":
			v.Native = died
			v.Conf = died == "timeout" && v.Kind == "hang" || strings.HasPrefix(died, "crash")
			if strings.HasPrefix(died, "crash") && v.Kind == "assert" {
				v.Native = died
			}
		case len(res) == 1 && (res[0].End == "violation" || res[0].End == "panic" || res[0].End == "alloc"):
			v.Native = res[0].End + ": " + res[0].Msg
			v.Conf = true
		case len(res) == 1:
			v.Native = res[0].End + ": " + res[0].Msg
		}
		if v.Conf {
			confirmed[key] = true
			hr.Viol = append(hr.Viol, v)
		} else {
			hr.Spurious = append(hr.Spurious, v)
		}
	}
	var sp []Violation
	for _, v := range hr.Spurious {
		if confirmed[violKey(v.Kind, v.Msg)] {
			continue
		}
		sp = append(sp, v)
		if v.Kind == "hang" {
			hr.Incon["step bound reached although the native run finished"]++
		} else {
			hr.Incon["counterexample not confirmed natively: "+v.Msg]++
		}
	}
	hr.Spurious = sp
	// validation of completed paths
	var reqs []natReq
	for _, s := range st.Samples {
		reqs = append(reqs, natReq{h.fn.Name(), s.Inputs, 1})
	}
	if len(reqs) > 0 {
		res, died := n.run(reqs, 60*time.Second)
		for i, r := range res {
			s := st.Samples[i]
			if len(hr.Samples) < 3 {
				hr.Samples = append(hr.Samples, fmtSample(s))
			}
			if r.End == "violation" || r.End == "panic" || r.End == "alloc" {
				hr.Viol = append(hr.Viol, Violation{Harness: h.fn.Name(), Kind: "sample", Msg: r.End + ": " + r.Msg, Inputs: s.Inputs, Names: s.Names, Native: r.End + ": " + r.Msg, Conf: true})
				continue
			}
			if r.End != "done" || strings.Join(r.Obs, "\n") != strings.Join(s.Obs, "\n") {
				hr.Mismatch = append(hr.Mismatch, fmt.Sprintf("inputs %v: predicted done %v, native %s %s %v", s.Inputs, s.Obs, r.End, r.Msg, r.Obs))
				continue
			}
			hr.Validated++
		}
		if died != "" {
			hr.Mismatch = append(hr.Mismatch, "native run of samples: "+died)
		}
	}
	if len(hr.Mismatch) > 0 {
		hr.Incon["replay of a sampled path differs from the prediction"] += int64(len(hr.Mismatch))
		if len(hr.Mismatch) > 5 {
			hr.Mismatch = hr.Mismatch[:5]
		}
	}
	hr.Complete = len(hr.Incon) == 0
	return hr
}

func fmtSample(s Sample) string {
	var sb strings.Builder
	for i := range s.Inputs {
		if i > 40 {
			sb.WriteString(" ...")
			break
		}
		fmt.Fprintf(&sb, "%s=%d ", s.Names[i], s.Inputs[i])
	}
	if len(s.Obs) > 0 {
		sb.WriteString("=> " + strings.Join(s.Obs, " "))
	}
	return strings.TrimSpace(sb.String())
}

type knownEntry struct {
	prop, harness, match, text string
	hit                        bool
}

// loadKnown reads "known: property=ID harness=NAME match="SUBSTRING" TEXT" lines.
func loadKnown() []*knownEntry {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []*knownEntry
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		k := &knownEntry{}
		l = strings.TrimSpace(l[6:])
		for {
			switch {
			case strings.HasPrefix(l, "property="), strings.HasPrefix(l, "harness="):
				i := strings.IndexByte(l, ' ')
				if i < 0 {
					i = len(l)
				}
				kv := strings.SplitN(l[:i], "=", 2)
				if kv[0] == "property" {
					k.prop = kv[1]
				} else {
					k.harness = kv[1]
				}
				l = strings.TrimSpace(l[i:])
				continue
			case strings.HasPrefix(l, "match=\""):
				r := l[7:]
				i := strings.IndexByte(r, '"')
				if i >= 0 {
					k.match = r[:i]
					l = strings.TrimSpace(r[i+1:])
					continue
				}
			}
			break
		}
		k.text = l
		if k.prop != "" && k.harness != "" && k.match != "" {
			out = append(out, k)
		}
	}
	return out
}

type report struct {
	Prop string
	Tier string
	Seed int64
	Load time.Duration
	H    []*hresult
	Lost []string // harnesses that do not compile against the current source
}

func (r *report) finish(known []*knownEntry, wall float64) int {
	ev := filepath.Join(verifDir, "evidence")
	os.MkdirAll(filepath.Join(ev, "replay"), 0o755)
	var paths, forks, steps, valid, queries, asserts, merges, done int64
	var solver float64
	fns := map[string]bool{}
	var samples []any
	var viol []any
	var incomplete []string
	var bounds []string
	complete := 0
	code := 0
	var lines []string
	nv := 0
	vacuous := false
	for _, h := range r.H {
		paths += h.Paths
		done += h.Done
		forks += h.Forks
		steps += h.Steps
		merges += h.Merges
		valid += int64(h.Validated)
		queries += h.Queries
		asserts += h.Asserts
		solver += h.SolverS
		for _, f := range h.Fns {
			fns[f] = true
		}
		for _, s := range h.Samples {
			if len(samples) < 12 {
				samples = append(samples, h.Name+": "+s)
			}
		}
		bounds = append(bounds, h.Name+": "+h.Bounds)
		if h.Complete {
			complete++
		} else {
			var ks []string
			for k, v := range h.Incon {
				ks = append(ks, fmt.Sprintf("%s (x%d)", k, v))
			}
			sort.Strings(ks)
			incomplete = append(incomplete, h.Name+": "+strings.Join(ks, "; "))
		}
		for _, v := range h.Viol {
			if k := matchKnown(known, r.Prop, h.Name, v); k != nil {
				if !k.hit {
					k.hit = true
					lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s", r.Prop, k.text))
				}
				continue
			}
			nv++
			p := filepath.Join(ev, "replay", fmt.Sprintf("%s-%d.json", r.Prop, nv))
			b, _ := json.MarshalIndent(map[string]any{"property": r.Prop, "harness": v.Harness, "kind": v.Kind, "message": v.Msg, "inputs": v.Inputs, "names": v.Names, "native": v.Native, "tier": r.Tier,
				"how": "cd /verif && ./bin/engine -replay " + p}, "", " ")
			os.WriteFile(p, b, 0o644)
			lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", r.Prop, p))
			fmt.Fprintf(os.Stderr, "%s: %s: %s [native: %s]\n", h.Name, v.Kind, v.Msg, v.Native)
			viol = append(viol, map[string]any{"harness": h.Name, "message": v.Msg, "native": v.Native, "replay": p})
			code = 1
		}
		if len(h.Missing) > 0 {
			if len(h.Incon) == 0 && len(h.Viol) == 0 {
				vacuous = true
				fmt.Fprintf(os.Stderr, "%s: cover points not reached: %v (not decided: %v)\n", h.Name, h.Missing, h.Incon)
			}
		}
		if h.Done == 0 && len(h.Viol) == 0 && len(h.Incon) == 0 {
			vacuous = true
			fmt.Fprintf(os.Stderr, "%s: no path completed (not decided: %v)\n", h.Name, h.Incon)
		}
	}
	if code == 0 && vacuous {
		code = 2
	}
	for _, l := range r.Lost {
		incomplete = append(incomplete, l+": does not compile against the exported names of the current source")
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	if len(samples) == 0 {
		samples = append(samples, "no path completed")
	}
	cov := map[string]any{
		"states":                        paths,
		"transitions":                   forks,
		"traces_validated_against_impl": valid,
		"samples":                       samples,
		"paths_completed":               done,
		"ssa_instructions_executed":     steps,
		"joins":                         merges,
		"solver_queries_discharged":     queries,
		"assertions_decided":            asserts,
		"solver_seconds":                solver,
		"functions_encoded":             fl,
		"bounds":                        bounds,
		"harnesses":                     len(r.H),
		"harnesses_explored_completely": complete,
		"not_decided":                   incomplete,
		"per_harness":                   r.H,
		"load_seconds":                  r.Load.Seconds(),
		"meaning":                       "states = symbolic paths run to their end, each standing for all inputs satisfying its path condition; transitions = branch points where both sides were feasible and explored",
	}
	out := map[string]any{"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": "model_checking", "coverage": cov, "wall_s": wall,
		"assumptions": []string{
			"the SSA form of the current /repo source is executed; calls listed under modelled_calls use a model instead of the library body",
			"inputs beyond the bounds stated per harness are not covered",
		}}
	if len(viol) > 0 {
		out["violations"] = viol
	}
	b, _ := json.MarshalIndent(out, "", " ")
	if err := os.WriteFile(filepath.Join(ev, r.Prop+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	fmt.Printf("%s tier=%s harnesses=%d complete=%d paths=%d queries=%d assertions=%d solver=%.1fs wall=%.1fs exit=%d\n", r.Prop, r.Tier, len(r.H), complete, paths, queries, asserts, solver, wall, code)
	for _, s := range incomplete {
		fmt.Println("not decided:", s)
	}
	return code
}

func matchKnown(known []*knownEntry, prop, h string, v Violation) *knownEntry {
	for _, k := range known {
		if k.prop == prop && k.harness == h && strings.Contains(v.Msg, k.match) {
			return k
		}
	}
	return nil
}

func replayMain(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var r struct {
		Harness string
		Inputs  []uint64
		Tier    string
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	os.Setenv("VERIF_TIER", r.Tier)
	n := newNative()
	defer n.close()
	if err := n.build(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	res, died := n.run([]natReq{{r.Harness, r.Inputs, 64}}, 20*time.Second)
	fmt.Println(res, died)
	if died != "" || len(res) == 0 || res[0].End != "done" {
		return 1
	}
	return 0
}
