package main

import (
	"fmt"
	"go/token"
	"go/types"
	"maps"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

const repoModule = "github.com/patrickhuber/go-wasm"
const vxPath = repoModule + "/zz_verif/vx"

// Engine holds what all workers share.
type Engine struct {
	prog          *ssa.Program
	sizes         types.Sizes
	stats         *SolverStats
	solverBin     string
	first         bool
	solverTimeout int
	runtimeErrT   types.Type
	mvMu          sync.Mutex
	coverFns      bool
	byName        map[string]*ssa.Package
	tier          string
	seed          int64
}

func (e *Engine) fnByName(pkg, name string) *ssa.Function {
	p := e.byName[pkg]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

func (e *Engine) typeByName(pkg, name string) types.Type {
	p := e.byName[pkg]
	if p == nil {
		return nil
	}
	t := p.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

// Decision kinds.
const (
	dTrue = iota
	dFalse
	dForcedTrue
	dForcedFalse
	dVal
	dValForced
	dNotVal
)

type decision struct {
	k uint8
	v uint64
}

type workItem struct {
	prefix []decision
	model  Model
}

type inputVar struct {
	Name string
	T    *Term
}

type observation struct {
	Name string
	V    Value
}

type path struct {
	prefix     []decision
	pos        int
	decs       []decision
	pc         []*Term
	known      map[*Term]bool
	model      Model
	vars       []*Term
	inputs     []inputVar
	obs        []observation
	covers     map[string]bool
	steps      int64
	maxSteps   int64
	allocLimit uint64
	mapOrder   bool
	nvar       int
	forks      int
	failTag    string
	queries    int
	until      time.Time
}

// Violation is a candidate counterexample.
type Violation struct {
	Harness string   `json:"harness"`
	Kind    string   `json:"kind"`
	Msg     string   `json:"msg"`
	Inputs  []uint64 `json:"inputs"`
	Names   []string `json:"names"`
	Native  string   `json:"native,omitempty"`
	Conf    bool     `json:"confirmed"`
}

// Sample is a completed path with concrete inputs and predicted observations.
type Sample struct {
	Inputs []uint64
	Names  []string
	Obs    []string
	End    string
}

// RunStats aggregates one harness exploration.
type RunStats struct {
	mu         sync.Mutex
	Paths      int64
	Done       int64
	Assumed    int64
	Steps      int64
	Forks      int64
	Merges     int64
	Asserts    int64
	Incon      map[string]int64
	Covers     map[string]int64
	Viol       []Violation
	violKeys   map[string]bool
	Samples    []Sample
	sampleStep int64
	TimedOut   bool
	Fns        map[string]bool
	Stubs      map[string]int64
	MaxDepth   int
}

type job struct {
	eng      *Engine
	fn       *ssa.Function
	name     string
	st       *RunStats
	mu       sync.Mutex
	cond     *sync.Cond
	stack    []workItem
	active   int
	deadline time.Time
	stop     bool
	maxSteps int64
	pathTime time.Duration
	maxViol  int
	maxSamp  int
}

func (w *World) endPath(kind, msg string) {
	if w.sub != nil {
		panic(mergeAbort{"end " + kind})
	}
	panic(pathEnd{kind, msg})
}

// freshVar makes a new symbolic input of width w (0 = bool).
func (w *World) freshVar(name string, width uint8) *Term {
	nm := fmt.Sprintf("%s#%d", name, w.p.nvar)
	w.p.nvar++
	v := w.ts.Var(nm, width)
	w.p.vars = append(w.p.vars, v)
	return v
}

func (w *World) addPC(c *Term) {
	if c.IsTrue() {
		return
	}
	w.p.pc = append(w.p.pc, c)
	w.p.known[c] = true
	// conjunctions give their parts
	if c.op == OpBAnd {
		w.learn(c)
	}
}

func (w *World) learn(c *Term) {
	if c.op == OpBAnd {
		w.learn(c.a[0])
		w.learn(c.a[1])
		return
	}
	w.p.known[c] = true
}

func (w *World) query(extra *Term) (Sat, Model) {
	r, m := w.sol.Check(w.p.pc, extra, w.p.vars)
	if r == Unknown && !w.ending && w.sol.over() {
		panic(pathEnd{"deadline", ""})
	}
	return r, m
}

// branch decides a symbolic condition, forking when both sides are feasible.
func (w *World) branch(c *Term) bool {
	if c.IsConst() {
		return c.val == 1
	}
	if c.id == 0 {
		c = w.ts.intern(c)
	}
	if w.sub != nil {
		return w.sub.branch(w, c)
	}
	p := w.p
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.decs = append(p.decs, d)
		switch d.k {
		case dTrue:
			w.addPC(c)
			return true
		case dFalse:
			w.addPC(w.ts.BNot(c))
			return false
		case dForcedTrue:
			return true
		case dForcedFalse:
			return false
		}
		panic(pathEnd{"replay mismatch", fmt.Sprintf("decision %d at branch", d.k)})
	}
	if w.p.known[c] {
		p.decs = append(p.decs, decision{k: dForcedTrue})
		p.pos++
		return true
	}
	nc := w.ts.BNot(c)
	if w.p.known[nc] {
		p.decs = append(p.decs, decision{k: dForcedFalse})
		p.pos++
		return false
	}
	side := w.ts.EvalBool(c, p.model)
	other := nc
	if !side {
		other = c
	}
	r, m := w.query(other)
	p.pos++
	switch r {
	case Unsat:
		if side {
			p.decs = append(p.decs, decision{k: dForcedTrue})
		} else {
			p.decs = append(p.decs, decision{k: dForcedFalse})
		}
		return side
	case Unknown:
		// cannot decide the other side: it stays unexplored and the run is reported incomplete
		w.incon("solver gave no answer at a branch")
		if side {
			p.decs = append(p.decs, decision{k: dTrue})
			w.addPC(c)
		} else {
			p.decs = append(p.decs, decision{k: dFalse})
			w.addPC(nc)
		}
		return side
	}
	// fork
	p.forks++
	w.noteFork()
	alt := make([]decision, len(p.decs)+1)
	copy(alt, p.decs)
	if side {
		alt[len(p.decs)] = decision{k: dFalse}
		p.decs = append(p.decs, decision{k: dTrue})
		w.addPC(c)
	} else {
		alt[len(p.decs)] = decision{k: dTrue}
		p.decs = append(p.decs, decision{k: dFalse})
		w.addPC(nc)
	}
	w.push(workItem{prefix: alt, model: m})
	return side
}

const concretizeLimit = 5000

// concretize forks over the feasible values of t.
func (w *World) concretize(t *Term) uint64 {
	if t.IsConst() {
		return t.val
	}
	if w.sub != nil {
		panic(mergeAbort{"concretize"})
	}
	p := w.p
	n := 0
	for {
		if p.pos < len(p.prefix) {
			d := p.prefix[p.pos]
			p.pos++
			p.decs = append(p.decs, d)
			eq := w.ts.Eq(t, w.ts.C(t.w, d.v))
			switch d.k {
			case dVal:
				w.addPC(eq)
				return d.v
			case dValForced:
				return d.v
			case dNotVal:
				w.addPC(w.ts.BNot(eq))
				n++
				continue
			}
			panic(pathEnd{"replay mismatch", fmt.Sprintf("decision %d at value split", d.k)})
		}
		if n > concretizeLimit {
			w.endPath("limit", "too many values at "+w.where())
		}
		v := w.ts.Eval(t, p.model)
		eq := w.ts.Eq(t, w.ts.C(t.w, v))
		ne := w.ts.BNot(eq)
		r, m := w.query(ne)
		p.pos++
		if r == Unsat {
			p.decs = append(p.decs, decision{k: dValForced, v: v})
			return v
		}
		if r == Unknown {
			w.incon("solver gave no answer at a value split")
		} else {
			p.forks++
			w.noteFork()
			alt := make([]decision, len(p.decs)+1)
			copy(alt, p.decs)
			alt[len(p.decs)] = decision{k: dNotVal, v: v}
			w.push(workItem{prefix: alt, model: m})
		}
		p.decs = append(p.decs, decision{k: dVal, v: v})
		w.addPC(eq)
		return v
	}
}

// choose forks over the n values of a fresh variable, all of which are feasible.
func (w *World) choose(v *Term, n uint64) uint64 {
	p := w.p
	var k uint64
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		if d.k != dVal {
			panic(pathEnd{"replay mismatch", fmt.Sprintf("decision %d at choice", d.k)})
		}
		k = d.v
		p.decs = append(p.decs, d)
	} else {
		for i := n - 1; i > 0; i-- {
			alt := make([]decision, len(p.decs)+1)
			copy(alt, p.decs)
			alt[len(p.decs)] = decision{k: dVal, v: i}
			m := maps.Clone(p.model)
			m[v.name] = i
			w.push(workItem{prefix: alt, model: m})
			p.forks++
			w.noteFork()
		}
		if p.model[v.name] != 0 {
			p.model = maps.Clone(p.model)
			p.model[v.name] = 0
		}
		p.decs = append(p.decs, decision{k: dVal})
	}
	p.pos++
	w.addPC(w.ts.Eq(v, w.ts.C(v.w, k)))
	return k
}

func (w *World) push(it workItem) {
	j := w.job
	j.mu.Lock()
	j.stack = append(j.stack, it)
	j.cond.Signal()
	j.mu.Unlock()
}

func (w *World) incon(why string) {
	w.job.st.mu.Lock()
	w.job.st.Incon[why]++
	w.job.st.mu.Unlock()
}

// assume restricts the path.
func (w *World) assume(c *Term) {
	if c.IsTrue() {
		return
	}
	if c.IsFalse() {
		w.endPath("assume", "")
	}
	if c.id == 0 {
		c = w.ts.intern(c)
	}
	if w.p.known[c] {
		return
	}
	if w.p.pos < len(w.p.prefix) {
		// the model found for the full prefix satisfies it
		w.addPC(c)
		return
	}
	if w.ts.EvalBool(c, w.p.model) {
		w.addPC(c)
		return
	}
	r, m := w.query(c)
	if r == IsSat {
		w.addPC(c)
		w.p.model = m
		return
	}
	if r == Unknown {
		w.incon("solver gave no answer at an assumption")
	}
	w.endPath("assume", "")
}

// assert checks that c holds on every completion of this path.
func (w *World) assert(c *Term, tag, msg string) {
	atomic.AddInt64(&w.job.st.Asserts, 1)
	if c.IsTrue() {
		return
	}
	if w.sub != nil {
		panic(mergeAbort{"assert"})
	}
	if c.id == 0 {
		c = w.ts.intern(c)
	}
	if c.IsFalse() {
		w.violation(tag, msg, w.p.model)
		w.endPath("violation", msg)
	}
	if w.p.pos < len(w.p.prefix) {
		// already checked when this prefix was first run
		w.addPC(c)
		return
	}
	if w.p.known[c] {
		return
	}
	nc := w.ts.BNot(c)
	if !w.ts.EvalBool(c, w.p.model) {
		w.violation(tag, msg, w.p.model)
	} else {
		r, m := w.query(nc)
		switch r {
		case Unsat:
			w.addPC(c)
			return
		case Unknown:
			w.incon("solver gave no answer for an assertion: " + msg)
			w.addPC(c)
			return
		}
		w.violation(tag, msg, m)
	}
	// continue with the property assumed
	r, m := w.query(c)
	if r != IsSat {
		w.endPath("violation", msg)
	}
	w.p.model = m
	w.addPC(c)
}

func (w *World) fail(tag, msg string) {
	if w.sub != nil {
		panic(mergeAbort{"fail"})
	}
	w.violation(tag, msg, w.p.model)
	w.endPath("violation", msg)
}

func (w *World) concreteInputs(m Model) (vals []uint64, names []string) {
	for _, in := range w.p.inputs {
		vals = append(vals, w.ts.Eval(in.T, m))
		names = append(names, in.Name)
	}
	return
}

// violKey groups candidates: by text, crashes by innermost frame, hangs together.
func violKey(kind, msg string) string {
	if kind == "hang" {
		return kind
	}
	if i := strings.Index(msg, " < "); i > 0 {
		msg = msg[:i]
	}
	return kind + "|" + msg
}

func (w *World) violation(kind, msg string, m Model) {
	vals, names := w.concreteInputs(m)
	st := w.job.st
	st.mu.Lock()
	defer st.mu.Unlock()
	key := violKey(kind, msg)
	if st.violKeys[key] {
		// keep a few alternatives per message
		n := 0
		for _, v := range st.Viol {
			if violKey(v.Kind, v.Msg) == key {
				n++
			}
		}
		if n >= 3 {
			return
		}
	}
	st.violKeys[key] = true
	st.Viol = append(st.Viol, Violation{Harness: w.job.name, Kind: kind, Msg: msg, Inputs: vals, Names: names})
	if len(st.Viol) >= w.job.maxViol {
		w.job.mu.Lock()
		w.job.stop = true
		w.job.cond.Broadcast()
		w.job.mu.Unlock()
	}
}

// ---- local merging of pure calls -------------------------------------------------------

type subRun struct {
	parent *subRun
	decs   []bool
	conds  []*Term
	pos    int
	region bool
	guard  *Term
}

const subMaxDecs = 60
const subMaxRuns = 300

func (s *subRun) branch(w *World, c *Term) bool {
	if s.region {
		if k, v := s.lookup(w, c); k {
			return v
		}
		panic(mergeAbort{"branch in region"})
	}
	if k, v := s.lookup(w, c); k {
		return v
	}
	if s.pos < len(s.decs) {
		d := s.decs[s.pos]
		s.pos++
		if d {
			s.conds = append(s.conds, c)
		} else {
			s.conds = append(s.conds, w.ts.BNot(c))
		}
		return d
	}
	if len(s.decs) >= subMaxDecs {
		panic(mergeAbort{"too deep"})
	}
	s.decs = append(s.decs, true)
	s.pos++
	s.conds = append(s.conds, c)
	return true
}

// lookup finds c among conditions already known on this local path.
func (s *subRun) lookup(w *World, c *Term) (bool, bool) {
	nc := w.ts.BNot(c)
	for r := s; r != nil; r = r.parent {
		for _, x := range r.conds {
			if x == c {
				return true, true
			}
			if x == nc {
				return true, false
			}
		}
	}
	if w.p.known[c] {
		return true, true
	}
	if w.p.known[nc] {
		return true, false
	}
	return false, false
}

func (s *subRun) feasible(w *World) bool {
	c := w.ts.T
	for r := s; r != nil; r = r.parent {
		for _, x := range r.conds {
			c = w.ts.BAnd(c, x)
		}
		if r.guard != nil {
			c = w.ts.BAnd(c, r.guard)
		}
	}
	if c.IsFalse() {
		return false
	}
	r, _ := w.query(c)
	return r != Unsat
}

func scalarType(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&(types.IsBoolean|types.IsInteger|types.IsFloat) != 0
}

func (w *World) mergeable(fi *fnInfo, args []Value) bool {
	if !fi.branchy {
		return false
	}
	res := fi.fn.Signature.Results()
	if res.Len() == 0 {
		return false
	}
	for i := 0; i < res.Len(); i++ {
		if !scalarType(res.At(i).Type()) {
			return false
		}
	}
	if w.text {
		ps := fi.fn.Signature.Params()
		for i := 0; i < ps.Len(); i++ {
			if b := basicOf(ps.At(i).Type()); b != nil && b.Info()&types.IsString != 0 {
				return false
			}
		}
	}
	return true
}

type subResult struct {
	decs  []bool
	conds []*Term
	v     Value
}

// callMerged runs a pure function over all its local paths and joins the results.
func (w *World) callMerged(caller *frame, fi *fnInfo, args []Value, env []Value) (res Value, ok bool) {
	parent := w.sub
	cur := w.curFrame
	var results []subResult
	var decs []bool
	defer func() {
		w.sub = parent
		w.curFrame = cur
	}()
	for runs := 0; ; runs++ {
		if runs > subMaxRuns {
			return nil, false
		}
		s := &subRun{parent: parent, decs: decs}
		undo0 := len(w.undo)
		steps0 := w.p.steps
		var out Value
		status := 0 // 0 ok, 1 drop, 2 abort
		func() {
			defer func() {
				if r := recover(); r != nil {
					w.sub = s
					switch r.(type) {
					case mergeAbort:
						if len(s.conds) > 0 && !s.feasible(w) {
							status = 1
						} else {
							status = 2
						}
					case targetPanic:
						if len(s.conds) > 0 && !s.feasible(w) {
							status = 1
						} else {
							status = 2
						}
					default:
						panic(r)
					}
				}
			}()
			w.sub = s
			out = w.callPlain(caller, fi, args, env)
		}()
		w.sub = parent
		w.curFrame = cur
		w.rollback(undo0)
		if status == 2 {
			w.p.steps = steps0
			return nil, false
		}
		if status == 0 {
			results = append(results, subResult{append([]bool{}, s.decs...), append([]*Term{}, s.conds...), out})
		}
		// next combination
		decs = s.decs
		i := len(decs) - 1
		for i >= 0 && !decs[i] {
			i--
		}
		if i < 0 {
			break
		}
		decs = append([]bool{}, decs[:i+1]...)
		decs[i] = false
	}
	if len(results) == 0 {
		return nil, false
	}
	if len(results) == 1 {
		return results[0].v, true
	}
	v, ok := w.mergeResults(results, 0)
	if ok {
		atomic.AddInt64(&w.job.st.Merges, 1)
	}
	return v, ok
}

func (w *World) mergeResults(rs []subResult, d int) (Value, bool) {
	if len(rs) == 1 {
		return rs[0].v, true
	}
	var tr, fa []subResult
	for _, r := range rs {
		if r.decs[d] {
			tr = append(tr, r)
		} else {
			fa = append(fa, r)
		}
	}
	if len(tr) == 0 {
		return w.mergeResults(fa, d+1)
	}
	if len(fa) == 0 {
		return w.mergeResults(tr, d+1)
	}
	a, ok := w.mergeResults(tr, d+1)
	if !ok {
		return nil, false
	}
	b, ok := w.mergeResults(fa, d+1)
	if !ok {
		return nil, false
	}
	return w.mergeVal(tr[0].conds[d], a, b)
}

// isPure is a static check that a function has no effects outside its own allocations.
func (w *World) isPure(fi *fnInfo) bool {
	if fi.pure == 0 {
		fi.pure = 2 // recursion counts as impure
		if w.computePure(fi) {
			fi.pure = 1
		}
	}
	return fi.pure == 1
}

func (w *World) computePure(fi *fnInfo) bool {
	fn := fi.fn
	if fi.ext != nil {
		return pureExt(fn)
	}
	if fn.Blocks == nil || fi.hasDef || fn.Name() == "init" {
		return false
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.Store:
				if !localRoot(ins.Addr) {
					return false
				}
			case *ssa.MapUpdate, *ssa.Defer, *ssa.Go, *ssa.RunDefers, *ssa.Send, *ssa.Select, *ssa.MakeChan, *ssa.MakeMap, *ssa.MakeClosure:
				return false
			case *ssa.Range:
				if _, ok := ins.X.Type().Underlying().(*types.Basic); !ok {
					return false
				}
			case *ssa.UnOp:
				if ins.Op == token.ARROW {
					return false
				}
			case *ssa.Call:
				if ins.Call.Method != nil {
					continue // dynamic check
				}
				switch v := ins.Call.Value.(type) {
				case *ssa.Builtin:
					switch v.Name() {
					case "len", "cap", "min", "max", "ssa:wrapnilchk":
					default:
						return false
					}
				case *ssa.Function:
					if !w.isPure(w.info(v)) {
						return false
					}
				default:
				}
			}
		}
	}
	return true
}

func localRoot(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return false
			}
			v = x.X
		default:
			return false
		}
	}
}

// ---- collapsing of side-effect free control flow ---------------------------------------------

type exitEdge struct {
	target int
	g      *Term
	phis   []Value
	regs   map[int]Value // registers written on the way
}

type regWrite struct {
	slot int
	old  Value
}

// tryCollapse follows both sides of a symbolic branch through side-effect free
// blocks and joins them where they meet again.  On success the frame is placed
// at the chosen exit block with its phis already assigned.
func (w *World) tryCollapse(fr *frame, blk *ssa.BasicBlock, c *Term) (done bool) {
	if w.noMerge {
		return false
	}
	fi := fr.fi
	s0, s1 := blk.Succs[0].Index, blk.Succs[1].Index
	if !fi.blocks[s0].pure && !fi.blocks[s1].pure {
		if s0 != s1 {
			return false
		}
	}
	if w.sub != nil && w.sub.region {
		return false
	}
	parent := w.sub
	cur := w.curFrame
	if k, v := (&subRun{parent: parent}).lookup(w, c); k {
		_ = v
		return false
	}
	var exits []exitEdge
	onStack := map[int]bool{blk.Index: true}
	count := 0
	aborted := false
	var log []regWrite
	region := &subRun{parent: parent, region: true}
	setReg := func(slot int, v Value) {
		log = append(log, regWrite{slot, fr.regs[slot]})
		fr.regs[slot] = v
	}
	undoRegs := func(n int) {
		for len(log) > n {
			l := log[len(log)-1]
			fr.regs[l.slot] = l.old
			log = log[:len(log)-1]
		}
	}
	ranBlock := false
	exit := func(b int, g *Term, phis []Value) {
		e := exitEdge{target: b, g: g, phis: phis, regs: make(map[int]Value, len(log))}
		for _, l := range log {
			e.regs[l.slot] = fr.regs[l.slot]
		}
		exits = append(exits, e)
	}
	var visit func(b, prev int, g *Term)
	visit = func(b, prev int, g *Term) {
		if g.IsFalse() {
			return
		}
		cb := &fi.blocks[b]
		phis := make([]Value, len(cb.phis))
		if len(phis) > 0 {
			pi := -1
			for i, p := range fi.fn.Blocks[b].Preds {
				if p.Index == prev {
					pi = i
				}
			}
			for i := range cb.phis {
				phis[i] = fr.get(&cb.phis[i].a[pi])
			}
		}
		count++
		if !cb.pure || onStack[b] || count > 40 {
			if count > 80 {
				panic(mergeAbort{"region too big"})
			}
			exit(b, g, phis)
			return
		}
		// try to run the block; if it cannot be run speculatively it becomes an exit
		onStack[b] = true
		mark := len(log)
		ok := func() (ok bool) {
			defer func() {
				if r := recover(); r != nil {
					switch r.(type) {
					case mergeAbort, targetPanic:
						undoRegs(mark)
						ok = false
						w.sub = region
						w.curFrame = fr
					default:
						panic(r)
					}
				}
			}()
			region.conds = append(region.conds[:0], g)
			region.guard = nil
			for i := range cb.phis {
				setReg(cb.phis[i].dst, phis[i])
			}
			for i := range cb.ins {
				ci := &cb.ins[i]
				fr.cur = ci.ins
				w.p.steps++
				switch ci.ins.(type) {
				case *ssa.If, *ssa.Jump:
					continue
				}
				region.conds = append(region.conds[:0], g)
				w.sub = region
				v := w.evalIns(fr, ci)
				setReg(ci.dst, v)
			}
			return true
		}()
		if !ok {
			onStack[b] = false
			exit(b, g, phis)
			return
		}
		ranBlock = true
		last := &cb.ins[len(cb.ins)-1]
		sblk := fi.fn.Blocks[b]
		switch last.ins.(type) {
		case *ssa.If:
			d := fr.get(&last.a[0]).(*Term)
			m := len(log)
			visit(sblk.Succs[0].Index, b, w.ts.BAnd(g, d))
			undoRegs(m)
			visit(sblk.Succs[1].Index, b, w.ts.BAnd(g, w.ts.BNot(d)))
		case *ssa.Jump:
			visit(sblk.Succs[0].Index, b, g)
		default:
			panic(mergeAbort{"terminator"})
		}
		undoRegs(mark)
		onStack[b] = false
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(mergeAbort); ok {
					aborted = true
					return
				}
				panic(r)
			}
		}()
		w.sub = region
		visit(s0, blk.Index, c)
		visit(s1, blk.Index, w.ts.BNot(c))
	}()
	w.sub = parent
	w.curFrame = cur
	// what was written on the way went to objects allocated there; they may live on in
	// registers, so their contents stay
	undoRegs(0)
	if aborted {
		return false
	}
	// group exits by target
	var order []int
	groups := map[int][]exitEdge{}
	for _, e := range exits {
		if _, ok := groups[e.target]; !ok {
			order = append(order, e.target)
		}
		groups[e.target] = append(groups[e.target], e)
	}
	if len(exits) == len(order) && len(exits) == 2 {
		// nothing gained unless blocks were run; plain branching is simpler
		if !ranBlock {
			return false
		}
	}
	if len(exits) == len(order) && len(exits) > 2 {
		// every exit distinct: no join gained, but the conditions are the same as forking
		return false
	}
	// merge phis per target
	merged := map[int][]Value{}
	for t, es := range groups {
		ph := es[len(es)-1].phis
		ph = append([]Value{}, ph...)
		for i := len(es) - 2; i >= 0; i-- {
			for k := range ph {
				v, ok := w.mergeVal(es[i].g, es[i].phis[k], ph[k])
				if !ok {
					return false
				}
				ph[k] = v
			}
		}
		merged[t] = ph
	}
	// merge registers
	mregs := map[int]map[int]Value{}
	for t, es := range groups {
		m := map[int]Value{}
		for _, e := range es {
			for slot := range e.regs {
				m[slot] = nil
			}
		}
		for slot := range m {
			var v Value
			for i := len(es) - 1; i >= 0; i-- {
				x, ok := es[i].regs[slot]
				if !ok {
					x = fr.regs[slot]
				}
				switch {
				case x == nil:
				case v == nil:
					v = x
				default:
					nv, ok := w.mergeVal(es[i].g, x, v)
					if !ok {
						return false
					}
					v = nv
				}
			}
			m[slot] = v
		}
		mregs[t] = m
	}
	atomic.AddInt64(&w.job.st.Merges, 1)
	// choose the exit
	sort.SliceStable(order, func(i, j int) bool { return false })
	chosen := order[len(order)-1]
	for _, t := range order[:len(order)-1] {
		g := w.ts.F
		for _, e := range groups[t] {
			g = w.ts.BOr(g, e.g)
		}
		if w.branch(g) {
			chosen = t
			break
		}
	}
	for s, v := range mregs[chosen] {
		fr.regs[s] = v
	}
	ph := merged[chosen]
	for i := range fi.blocks[chosen].phis {
		fr.regs[fi.blocks[chosen].phis[i].dst] = ph[i]
	}
	fr.prev = -1
	fr.block = chosen
	return true
}

// ---- running -------------------------------------------------------------------------------------

func (w *World) runPath(j *job, it workItem) {
	st := j.st
	p := &path{prefix: it.prefix, model: it.model, known: map[*Term]bool{}, covers: map[string]bool{}, maxSteps: j.maxSteps, until: time.Now().Add(j.pathTime)}
	if p.model == nil {
		p.model = Model{}
	}
	w.p = p
	w.sub = nil
	w.curFrame = nil
	w.ending = false
	undo0 := len(w.undo)
	end := "done"
	msg := ""
	func() {
		defer func() {
			r := recover()
			w.ending = true
			if r == nil {
				return
			}
			switch r := r.(type) {
			case pathEnd:
				end, msg = r.kind, r.msg
				if end == "steps" {
					w.sub = nil
					ok, m := w.modelFor()
					if ok {
						w.violation("hang", "does not finish within the step bound: "+msg, m)
					}
					end = "violation"
				}
			case targetPanic:
				end = "violation"
				w.sub = nil
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(pathEnd); !ok {
								panic(r)
							}
						}
					}()
					w.fail("panic", "uncaught panic: "+w.panicText(r.v)+" at "+r.where)
				}()
			case unsupportedErr:
				end, msg = "unsupported", r.msg+" at "+w.where()
			case mergeAbort:
				end, msg = "unsupported", "merge abort escaped: "+r.why
			default:
				panic(r)
			}
		}()
		w.callFn(nil, j.fn, nil, nil)
	}()
	atomic.AddInt64(&st.Paths, 1)
	atomic.AddInt64(&st.Steps, p.steps)
	atomic.AddInt64(&st.Forks, int64(p.forks))
	st.mu.Lock()
	for c := range p.covers {
		st.Covers[c]++
	}
	switch end {
	case "done":
		st.Done++
	case "assume":
		st.Assumed++
	case "violation":
	case "deadline":
		st.TimedOut = true
	default:
		st.Incon[end+": "+msg]++
	}
	if len(p.decs) > st.MaxDepth {
		st.MaxDepth = len(p.decs)
	}
	need := end == "done" && (len(st.Samples) < j.maxSamp && (st.Done <= int64(j.maxSamp/2) || st.Done%st.sampleStep == 0))
	if need && st.Done > int64(j.maxSamp/2) {
		st.sampleStep = st.sampleStep*3/2 + 1
	}
	st.mu.Unlock()
	if need {
		// the path's model must satisfy the whole path condition
		okModel := true
		for _, c := range p.pc {
			if !w.ts.EvalBool(c, p.model) {
				okModel = false
				break
			}
		}
		if !okModel {
			r, m := w.query(w.ts.T)
			if r == IsSat {
				p.model = m
				okModel = true
			}
		}
		if okModel {
			vals, names := w.concreteInputs(p.model)
			s := Sample{Inputs: vals, Names: names, End: end}
			for _, o := range p.obs {
				s.Obs = append(s.Obs, o.Name+"="+w.render(o.V, p.model))
			}
			st.mu.Lock()
			st.Samples = append(st.Samples, s)
			st.mu.Unlock()
		}
	}
	w.rollback(undo0)
}

var (
	forkNotes = os.Getenv("VX_FORKS") != ""
	forkMu    sync.Mutex
	forkAt    = map[string]int{}
)

// noteFork counts forks by place, for diagnosis.
func (w *World) noteFork() {
	if forkNotes {
		p := w.where()
		forkMu.Lock()
		forkAt[p]++
		forkMu.Unlock()
	}
}

func printForks() {
	var ks []string
	for k := range forkAt {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return forkAt[ks[i]] > forkAt[ks[j]] })
	for i, k := range ks {
		if i == 25 {
			break
		}
		fmt.Fprintf(os.Stderr, "%7d forks at %s\n", forkAt[k], k)
	}
}

// modelFor returns a model of the whole path condition.
func (w *World) modelFor() (bool, Model) {
	for _, c := range w.p.pc {
		if !w.ts.EvalBool(c, w.p.model) {
			r, m := w.query(w.ts.T)
			return r == IsSat, m
		}
	}
	return true, w.p.model
}

func (j *job) next() (workItem, bool) {
	j.mu.Lock()
	defer j.mu.Unlock()
	for {
		if j.stop {
			return workItem{}, false
		}
		if time.Now().After(j.deadline) {
			j.st.TimedOut = true
			j.stop = true
			j.cond.Broadcast()
			return workItem{}, false
		}
		if n := len(j.stack); n > 0 {
			it := j.stack[n-1]
			j.stack[n-1] = workItem{}
			j.stack = j.stack[:n-1]
			j.active++
			return it, true
		}
		if j.active == 0 {
			j.cond.Broadcast()
			return workItem{}, false
		}
		j.cond.Wait()
	}
}

func (j *job) done() {
	j.mu.Lock()
	j.active--
	if j.active == 0 && len(j.stack) == 0 {
		j.cond.Broadcast()
	}
	j.mu.Unlock()
}

// Explore runs all paths of fn with the given workers.
func (e *Engine) Explore(worlds []*World, fn *ssa.Function, deadline time.Time, maxSteps int64, maxSamp int) *RunStats {
	st := &RunStats{Incon: map[string]int64{}, Covers: map[string]int64{}, violKeys: map[string]bool{}, sampleStep: 2, Fns: map[string]bool{}, Stubs: map[string]int64{}}
	j := &job{eng: e, fn: fn, name: fn.Name(), st: st, deadline: deadline, maxSteps: maxSteps, pathTime: 40 * time.Second, maxViol: 12, maxSamp: maxSamp}
	j.cond = sync.NewCond(&j.mu)
	j.stack = []workItem{{}}
	var wg sync.WaitGroup
	if e.first {
		j.maxViol = 2
	}
	tick := time.AfterFunc(time.Until(deadline), func() {
		j.mu.Lock()
		j.cond.Broadcast()
		j.mu.Unlock()
	})
	defer tick.Stop()
	var perr atomic.Value
	for _, w := range worlds {
		wg.Add(1)
		go func(w *World) {
			defer wg.Done()
			w.job = j
			w.sol.deadline, w.sol.where = j.deadline, w.where
			w.fnSeen = map[*ssa.Function]bool{}
			w.stubs = map[string]int64{}
			for {
				it, ok := j.next()
				if !ok {
					break
				}
				func() {
					defer func() {
						if r := recover(); r != nil {
							perr.Store(fmt.Sprintf("engine failure in %s: %v\n%s", fn.Name(), r, stackTrace()))
							j.mu.Lock()
							j.stop = true
							j.cond.Broadcast()
							j.mu.Unlock()
						}
					}()
					w.runPath(j, it)
				}()
				j.done()
			}
			st.mu.Lock()
			for f := range w.fnSeen {
				st.Fns[f.String()] = true
			}
			for k, v := range w.stubs {
				st.Stubs[k] += v
			}
			st.mu.Unlock()
		}(w)
	}
	wg.Wait()
	if s := perr.Load(); s != nil {
		st.Incon[s.(string)]++
	}
	return st
}
