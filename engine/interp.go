package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// unsupportedErr aborts a path the engine cannot encode.
type unsupportedErr struct{ msg string }

func unsupported(msg string) unsupportedErr { return unsupportedErr{msg} }

// pathEnd aborts a path for a stated reason.
type pathEnd struct {
	kind string // "assume", "done", "steps", "limit", "infeasible", "violation"
	msg  string
}

// mergeAbort leaves local merge mode.
type mergeAbort struct{ why string }

// targetPanic is a panic of the interpreted program.
type targetPanic struct {
	v     Value
	where string
}

type opndKind uint8

const (
	okSlot opndKind = iota
	okConst
	okGlobal
	okFn
	okNone
	okFree
)

type opnd struct {
	k   opndKind
	idx int
	v   Value
	g   *ssa.Global
}

type cinstr struct {
	ins ssa.Instruction
	dst int
	a   []opnd
}

type cblock struct {
	phis []cinstr
	ins  []cinstr
	pure bool // only side-effect free instructions up to the final If/Jump
}

type fnInfo struct {
	fn      *ssa.Function
	n       int
	blocks  []cblock
	ext     extFn
	hasDef  bool
	slots   map[ssa.Value]int
	pure    int8 // 0 unknown 1 pure 2 impure
	branchy bool
	inRepo  bool
	isVx    string
}

type deferred struct {
	fn   Value
	args []Value
}

type frame struct {
	w         *World
	fi        *fnInfo
	regs      []Value
	env       []Value
	caller    *frame
	block     int
	prev      int
	pc        int
	defers    []deferred
	panicking bool
	panicVal  interface{}
	result    Value
	depth     int
	cur       ssa.Instruction
}

// World is one worker's interpreter state.
type World struct {
	raw        bool // run library code without models
	text       bool // run functions that take strings path by path
	ending     bool // the path is over; queries no longer end it
	eng        *Engine
	prog       *ssa.Program
	ts         *Terms
	sol        *Solver
	fns        map[*ssa.Function]*fnInfo
	globals    map[*ssa.Global]Ptr
	inited     map[*ssa.Package]int
	initing    bool
	undo       []undoEnt
	identCache map[[2]types.Type]bool
	methCache  map[methKey]*ssa.Function
	implCache  map[[2]types.Type]bool
	constCache map[*ssa.Const]Value
	zerobase   map[types.Type]Ptr
	sub        *subRun
	p          *path
	fnSeen     map[*ssa.Function]bool
	curFrame   *frame
	noMerge    bool
	stubs      map[string]int64
	job        *job
	onceDone   map[*Value]bool
	errTypes   map[string]types.Type
}

type methKey struct {
	t types.Type
	m string
	p *types.Package
}

func NewWorld(e *Engine) *World {
	w := &World{eng: e, prog: e.prog, fns: map[*ssa.Function]*fnInfo{}, globals: map[*ssa.Global]Ptr{}, inited: map[*ssa.Package]int{},
		identCache: map[[2]types.Type]bool{}, methCache: map[methKey]*ssa.Function{}, implCache: map[[2]types.Type]bool{},
		constCache: map[*ssa.Const]Value{}, zerobase: map[types.Type]Ptr{}, fnSeen: map[*ssa.Function]bool{}, stubs: map[string]int64{}, onceDone: map[*Value]bool{}, errTypes: map[string]types.Type{}}
	w.ts = NewTerms()
	w.sol = NewSolver(w.ts, e.stats, e.solverBin, e.solverTimeout)
	return w
}

// ---- compilation of ssa functions to slot form ------------------------------------

func (w *World) info(fn *ssa.Function) *fnInfo {
	if fi, ok := w.fns[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn, slots: map[ssa.Value]int{}}
	w.fns[fn] = fi
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	fi.ext = externals[name]
	if fn.Pkg != nil {
		pp := fn.Pkg.Pkg.Path()
		fi.inRepo = strings.HasPrefix(pp, repoModule)
		if pp == vxPath {
			fi.isVx = fn.Name()
			if f, ok := vxFns[fn.Name()]; ok {
				fi.ext = f
			}
		}
	}
	for _, p := range fn.Params {
		fi.slots[p] = fi.n
		fi.n++
	}
	fvIdx := map[ssa.Value]int{}
	for i, p := range fn.FreeVars {
		fvIdx[p] = i
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				fi.slots[v] = fi.n
				fi.n++
			}
			switch ins.(type) {
			case *ssa.Defer:
				fi.hasDef = true
			case *ssa.If:
				fi.branchy = true
			}
		}
	}
	if fn.Recover != nil {
		fi.hasDef = true
	}
	mk := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case nil:
			return opnd{k: okNone}
		case *ssa.Const:
			return opnd{k: okConst, v: w.constVal(v)}
		case *ssa.Global:
			return opnd{k: okGlobal, g: v}
		case *ssa.Function, *ssa.Builtin:
			return opnd{k: okFn, v: v}
		}
		if i, ok := fvIdx[v]; ok {
			return opnd{k: okFree, idx: i}
		}
		i, ok := fi.slots[v]
		if !ok {
			panic(fmt.Sprintf("no slot for %v in %v", v, fn))
		}
		return opnd{k: okSlot, idx: i}
	}
	fi.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &fi.blocks[bi]
		cb.pure = true
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{ins: ins, dst: -1}
			if v, ok := ins.(ssa.Value); ok {
				ci.dst = fi.slots[v]
			}
			if phi, ok := ins.(*ssa.Phi); ok {
				for _, e := range phi.Edges {
					ci.a = append(ci.a, mk(e))
				}
				cb.phis = append(cb.phis, ci)
				continue
			}
			for _, o := range ins.Operands(nil) {
				if o == nil {
					ci.a = append(ci.a, opnd{k: okNone})
				} else {
					ci.a = append(ci.a, mk(*o))
				}
			}
			cb.ins = append(cb.ins, ci)
			if !w.pureIns(ins) {
				cb.pure = false
			}
		}
	}
	return fi
}

// pureIns says whether ins may be executed speculatively.
func (w *World) pureIns(ins ssa.Instruction) bool {
	switch ins := ins.(type) {
	case *ssa.BinOp:
		if ins.Op == token.QUO || ins.Op == token.REM {
			if c, ok := ins.Y.(*ssa.Const); ok && c.Value != nil && constant.Sign(c.Value) != 0 {
				return true
			}
			return isFloat(ins.X.Type())
		}
		return true
	case *ssa.UnOp:
		return ins.Op != token.ARROW
	case *ssa.Convert, *ssa.ChangeType, *ssa.Extract, *ssa.Field, *ssa.FieldAddr, *ssa.If, *ssa.Jump, *ssa.Phi,
		*ssa.MakeInterface, *ssa.ChangeInterface, *ssa.Index, *ssa.IndexAddr, *ssa.Lookup, *ssa.Slice, *ssa.TypeAssert:
		return true
	case *ssa.Call:
		if b, ok := ins.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "min", "max":
				return true
			}
			return false
		}
		return true // checked when executed
	}
	return false
}

func (w *World) constVal(c *ssa.Const) Value {
	if v, ok := w.constCache[c]; ok {
		return v
	}
	v := w.constVal0(c)
	w.constCache[c] = v
	return v
}

func (w *World) constVal0(c *ssa.Const) Value {
	if c.Value == nil {
		return w.zero(c.Type())
	}
	b := basicOf(c.Type())
	if b == nil {
		if tp, ok := c.Type().Underlying().(*types.Interface); ok {
			_ = tp
		}
		panic(unsupported("const of type " + c.Type().String()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return w.ts.B(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(c.Value))
		}
		return mkStr(string(rune(c.Int64())))
	case b.Info()&types.IsFloat != 0:
		f := c.Float64()
		if w.width(b) == 32 {
			return w.ts.C(32, uint64(math.Float32bits(float32(f))))
		}
		return w.ts.C(64, math.Float64bits(f))
	case b.Info()&types.IsInteger != 0 || b.Kind() == types.UnsafePointer:
		if b.Info()&types.IsUnsigned != 0 {
			return w.ts.C(w.width(b), c.Uint64())
		}
		return w.ts.C(w.width(b), uint64(c.Int64()))
	}
	panic(unsupported("const " + c.String()))
}

func (fr *frame) get(o *opnd) Value {
	switch o.k {
	case okSlot:
		return fr.regs[o.idx]
	case okConst:
		return o.v
	case okFn:
		return o.v
	case okFree:
		return fr.env[o.idx]
	case okGlobal:
		return fr.w.global(o.g)
	}
	return nil
}

// global returns the cell of a package variable, running the package's initialiser first.
func (w *World) global(g *ssa.Global) Ptr {
	if p, ok := w.globals[g]; ok {
		return p
	}
	w.ensureInit(g.Pkg)
	if p, ok := w.globals[g]; ok {
		return p
	}
	p := new(Value)
	*p = w.zero(g.Type().Underlying().(*types.Pointer).Elem())
	w.globals[g] = p
	return p
}

func (w *World) ensureInit(pkg *ssa.Package) {
	if w.inited[pkg] != 0 {
		return
	}
	w.inited[pkg] = 1
	if f := noInit[pkg.Pkg.Path()]; f {
		return
	}
	init := pkg.Func("init")
	if init == nil {
		return
	}
	oldI, oldSub, oldCur := w.initing, w.sub, w.curFrame
	oldSteps, oldMax := w.p.steps, w.p.maxSteps
	w.p.maxSteps = 1 << 60
	w.initing = true
	w.sub = nil
	defer func() {
		w.initing, w.sub, w.curFrame = oldI, oldSub, oldCur
		w.p.steps, w.p.maxSteps = oldSteps, oldMax
	}()
	// set the guard so that a nested reference does not run it twice
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupportedErr); ok {
					panic(unsupported("init of " + pkg.Pkg.Path() + ": " + u.msg))
				}
				panic(r)
			}
		}()
		w.callFn(nil, init, nil, nil)
	}()
	w.inited[pkg] = 2
}

// ---- panics -----------------------------------------------------------------------

func (w *World) where() string {
	var sb strings.Builder
	n := 0
	for f := w.curFrame; f != nil && n < 12; f = f.caller {
		pos := token.NoPos
		if f.cur != nil {
			pos = f.cur.Pos()
		}
		p := w.prog.Fset.Position(pos)
		fmt.Fprintf(&sb, "%s", f.fi.fn.String())
		if p.IsValid() {
			fn := p.Filename
			if i := strings.LastIndex(fn, "/"); i >= 0 {
				fn = fn[i+1:]
			}
			fmt.Fprintf(&sb, "(%s:%d)", fn, p.Line)
		}
		sb.WriteString(" < ")
		n++
	}
	return sb.String()
}

func (w *World) runtimePanic(msg string) {
	panic(targetPanic{v: Iface{w.eng.runtimeErrT, mkStr(msg)}, where: w.where()})
}

// ---- calls --------------------------------------------------------------------------

const maxDepth = 400

func (w *World) callValue(caller *frame, fv Value, args []Value) Value {
	switch f := fv.(type) {
	case *ssa.Function:
		if f == nil {
			w.runtimePanic("invalid memory address or nil pointer dereference")
		}
		return w.callFn(caller, f, args, nil)
	case *Closure:
		if f == nil {
			w.runtimePanic("invalid memory address or nil pointer dereference")
		}
		return w.callFn(caller, f.fn, args, f.env)
	case *NativeFn:
		if f == nil {
			w.runtimePanic("invalid memory address or nil pointer dereference")
		}
		return f.f(w, caller, args)
	case *ssa.Builtin:
		return w.builtin(caller, f, args, nil)
	case nil:
		w.runtimePanic("invalid memory address or nil pointer dereference")
	}
	panic(unsupported(fmt.Sprintf("call of %T", fv)))
}

func (w *World) callFn(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	fi := w.info(fn)
	if fi.ext != nil {
		if w.sub != nil && !pureExt(fn) {
			panic(mergeAbort{"external " + fn.String()})
		}
		if fi.isVx == "" {
			w.stubs[fn.String()]++
		}
		old := w.curFrame
		r := fi.ext(w, caller, fn, args)
		w.curFrame = old
		if r != Value(useSource) {
			return r
		}
	}
	if fn.Blocks == nil {
		panic(unsupported("no body: " + fn.String()))
	}
	if fn.Pkg != nil && w.inited[fn.Pkg] == 0 && fn.Name() != "init" {
		w.ensureInit(fn.Pkg)
	}
	if fn.Name() == "init" && fn.Pkg != nil && caller != nil && fn.Synthetic != "" && fn.Pkg.Func("init") == fn {
		return nil // dependency initialisers run on demand
	}
	if w.sub != nil && !w.isPure(fi) {
		panic(mergeAbort{"impure " + fn.String()})
	}
	if !w.initing && w.sub == nil && !w.noMerge && w.isPure(fi) && w.mergeable(fi, args) {
		if r, ok := w.callMerged(caller, fi, args, env); ok {
			return r
		}
	} else if w.sub != nil && w.mergeable(fi, args) {
		if r, ok := w.callMerged(caller, fi, args, env); ok {
			return r
		}
	}
	return w.callPlain(caller, fi, args, env)
}

func (w *World) callPlain(caller *frame, fi *fnInfo, args []Value, env []Value) Value {
	if w.eng.coverFns && fi.inRepo && !w.fnSeen[fi.fn] {
		w.fnSeen[fi.fn] = true
	}
	fr := &frame{w: w, fi: fi, caller: caller, env: env, regs: make([]Value, fi.n), prev: -1}
	if caller != nil {
		fr.depth = caller.depth + 1
	}
	if fr.depth > maxDepth {
		w.endPath("steps", "call depth limit at "+fi.fn.String())
	}
	copy(fr.regs, args)
	old := w.curFrame
	w.curFrame = fr
	if fi.hasDef {
		w.runFrameDefer(fr)
	} else {
		w.runFrame(fr)
	}
	w.curFrame = old
	return fr.result
}

func (w *World) runFrameDefer(fr *frame) {
	done := false
	for {
		func() {
			defer func() {
				if done {
					return
				}
				r := recover()
				tp, ok := r.(targetPanic)
				if !ok {
					panic(r) // engine control flow
				}
				w.curFrame = fr
				fr.panicking = true
				fr.panicVal = tp
				w.runDefers(fr)
				// recovered
				if fr.fi.fn.Recover == nil {
					fr.result = w.zero(fr.fi.fn.Signature.Results())
					done = true
					return
				}
				fr.prev = -1
				fr.block = fr.fi.fn.Recover.Index
			}()
			w.runFrame(fr)
			done = true
		}()
		if done {
			return
		}
	}
}

// runDefers runs deferred calls in LIFO order; re-panics if still panicking.
func (w *World) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			ok := false
			defer func() {
				if ok {
					return
				}
				r := recover()
				if tp, is := r.(targetPanic); is {
					w.curFrame = fr
					fr.panicking = true
					fr.panicVal = tp
					return
				}
				panic(r)
			}()
			w.callValue(fr, d.fn, d.args)
			ok = true
		}()
	}
	if fr.panicking {
		pv := fr.panicVal
		panic(pv)
	}
}

func (w *World) doRecover(fr *frame) Value {
	// fr is the deferred function's frame; its caller is the frame running defers.
	if fr != nil && !fr.panicking && fr.caller != nil && fr.caller.panicking {
		fr.caller.panicking = false
		tp := fr.caller.panicVal.(targetPanic)
		fr.caller.panicVal = nil
		if i, ok := tp.v.(Iface); ok {
			return i
		}
		return tp.v
	}
	return Iface{}
}

func (w *World) runFrame(fr *frame) {
	fi := fr.fi
	for {
		cb := &fi.blocks[fr.block]
		if len(cb.phis) > 0 && fr.prev >= 0 {
			pi := -1
			for i, p := range fi.fn.Blocks[fr.block].Preds {
				if p.Index == fr.prev {
					pi = i
					break
				}
			}
			if len(cb.phis) == 1 {
				fr.regs[cb.phis[0].dst] = fr.get(&cb.phis[0].a[pi])
			} else {
				tmp := make([]Value, len(cb.phis))
				for i := range cb.phis {
					tmp[i] = fr.get(&cb.phis[i].a[pi])
				}
				for i := range cb.phis {
					fr.regs[cb.phis[i].dst] = tmp[i]
				}
			}
		}
		fr.pc = 0
		next := w.runInstrs(fr, cb, fr.pc)
		if next < 0 {
			return
		}
		if next == blockResume {
			continue // region collapse set block and phis
		}
	}
}

const (
	blockReturn = -1
	blockJump   = 1
	blockResume = 2
)

// runInstrs runs a block's instructions; phis of the next block are handled by runFrame.
func (w *World) runInstrs(fr *frame, cb *cblock, start int) int {
	for i := start; i < len(cb.ins); i++ {
		ci := &cb.ins[i]
		fr.cur = ci.ins
		w.p.steps++
		if w.p.steps > w.p.maxSteps {
			w.endPath("steps", "step limit at "+w.where())
		}
		if w.p.steps&255 == 0 && !w.p.until.IsZero() {
			w.checkTime()
		}
		switch ins := ci.ins.(type) {
		case *ssa.If:
			c := fr.get(&ci.a[0]).(*Term)
			blk := fr.fi.fn.Blocks[fr.block]
			if !c.IsConst() && w.tryCollapse(fr, blk, c) {
				return blockResume
			}
			fr.prev = fr.block
			if w.branch(c) {
				fr.block = blk.Succs[0].Index
			} else {
				fr.block = blk.Succs[1].Index
			}
			return blockJump
		case *ssa.Jump:
			fr.prev = fr.block
			fr.block = fr.fi.fn.Blocks[fr.block].Succs[0].Index
			return blockJump
		case *ssa.Return:
			switch len(ci.a) {
			case 0:
			case 1:
				fr.result = fr.get(&ci.a[0])
			default:
				t := make(Tuple, len(ci.a))
				for j := range ci.a {
					t[j] = fr.get(&ci.a[j])
				}
				fr.result = t
			}
			return blockReturn
		case *ssa.RunDefers:
			w.runDefers(fr)
		case *ssa.Panic:
			v := fr.get(&ci.a[0])
			if iv, ok := v.(Iface); ok && iv.t == nil {
				w.runtimePanic("panic called with nil argument")
			}
			panic(targetPanic{v: v, where: w.where()})
		case *ssa.Defer:
			fn, args := w.prepareCall(fr, &ins.Call, ci.a)
			fr.defers = append(fr.defers, deferred{fn, args})
		case *ssa.Go:
			panic(unsupported("go statement"))
		case *ssa.Store:
			p := fr.get(&ci.a[0]).(Ptr)
			if p == nil {
				w.nilDeref()
			}
			w.store(p, fr.get(&ci.a[1]))
		case *ssa.MapUpdate:
			m, _ := fr.get(&ci.a[0]).(*Map)
			w.mapUpdate(m, fr.get(&ci.a[1]), fr.get(&ci.a[2]))
		case *ssa.Send, *ssa.Select:
			panic(unsupported("channel operation"))
		case *ssa.DebugRef:
		default:
			fr.regs[ci.dst] = w.evalIns(fr, ci)
		}
	}
	panic("block without terminator")
}

// checkTime ends the path when its own or the run's time is over.
func (w *World) checkTime() {
	now := time.Now()
	if now.After(w.job.deadline) {
		panic(pathEnd{"deadline", ""})
	}
	if now.After(w.p.until) {
		panic(pathEnd{"steps", "path time limit at " + w.where()})
	}
}

func (w *World) nilDeref() {
	w.runtimePanic("invalid memory address or nil pointer dereference")
}

func (w *World) prepareCall(fr *frame, c *ssa.CallCommon, a []opnd) (Value, []Value) {
	// operand order of CallCommon: Value, Args...
	v := fr.get(&a[0])
	args := make([]Value, 0, len(c.Args)+1)
	var fn Value
	if c.Method == nil {
		fn = v
	} else {
		recv, ok := v.(Iface)
		if !ok {
			panic(unsupported(fmt.Sprintf("invoke on %T", v)))
		}
		if recv.t == nil {
			w.nilDeref()
		}
		fn = w.method(recv.t, c.Method)
		args = append(args, recv.v)
	}
	for i := range c.Args {
		args = append(args, fr.get(&a[1+i]))
	}
	return fn, args
}

func (w *World) method(t types.Type, m *types.Func) *ssa.Function {
	return w.methodByName(t, m.Pkg(), m.Name())
}

func (w *World) methodByName(t types.Type, pkg *types.Package, name string) *ssa.Function {
	k := methKey{t, name, pkg}
	if token.IsExported(name) {
		k.p = nil
	}
	if f, ok := w.methCache[k]; ok {
		return f
	}
	sel := types.NewMethodSet(t).Lookup(pkg, name)
	var f *ssa.Function
	if sel != nil {
		w.eng.mvMu.Lock()
		f = w.prog.MethodValue(sel)
		w.eng.mvMu.Unlock()
	}
	w.methCache[k] = f
	return f
}

func (w *World) implements(t types.Type, it *types.Interface) bool {
	k := [2]types.Type{t, it}
	if r, ok := w.implCache[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	w.implCache[k] = r
	return r
}

// idx concretises or range-checks an index; returns concrete value or the symbolic term when within bounds.
func (w *World) checkIndex(t *Term, n int, signed bool) *Term {
	if t.w < 64 {
		if signed {
			t = w.ts.Sext(t, 64)
		} else {
			t = w.ts.Zext(t, 64)
		}
	}
	if t.IsConst() {
		if t.val >= uint64(n) {
			w.runtimePanic(fmt.Sprintf("index out of range [%d] with length %d", int64(t.val), n))
		}
		return t
	}
	if !w.branch(w.ts.Cmp(OpUlt, t, w.ts.C(64, uint64(n)))) {
		w.runtimePanic(fmt.Sprintf("index out of range with length %d", n))
	}
	return t
}

func (w *World) evalIns(fr *frame, ci *cinstr) Value {
	switch ins := ci.ins.(type) {
	case *ssa.BinOp:
		return w.binop(ins.Op, ins.X.Type(), ins.Y.Type(), fr.get(&ci.a[0]), fr.get(&ci.a[1]))
	case *ssa.UnOp:
		return w.unop(ins, fr.get(&ci.a[0]))
	case *ssa.Call:
		if b, ok := ins.Call.Value.(*ssa.Builtin); ok {
			args := make([]Value, len(ins.Call.Args))
			for i := range args {
				args[i] = fr.get(&ci.a[1+i])
			}
			return w.builtin(fr, b, args, &ins.Call)
		}
		fn, args := w.prepareCall(fr, &ins.Call, ci.a)
		return w.callValue(fr, fn, args)
	case *ssa.ChangeInterface:
		return fr.get(&ci.a[0])
	case *ssa.ChangeType:
		return fr.get(&ci.a[0])
	case *ssa.Convert:
		return w.convert(ins.X.Type(), ins.Type(), fr.get(&ci.a[0]))
	case *ssa.MultiConvert:
		return w.convert(ins.X.Type(), ins.Type(), fr.get(&ci.a[0]))
	case *ssa.SliceToArrayPointer:
		s := fr.get(&ci.a[0]).(Slice)
		at := ins.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if int(at.Len()) > len(s) {
			w.runtimePanic("cannot convert slice to array pointer")
		}
		p := new(Value)
		*p = Array(s[:at.Len():at.Len()])
		return p
	case *ssa.MakeInterface:
		return Iface{ins.X.Type(), copyVal(fr.get(&ci.a[0]))}
	case *ssa.Extract:
		return fr.get(&ci.a[0]).(Tuple)[ins.Index]
	case *ssa.Slice:
		return w.slice(fr, ins, ci)
	case *ssa.Alloc:
		et := ins.Type().Underlying().(*types.Pointer).Elem()
		if st, ok := et.Underlying().(*types.Struct); ok && st.NumFields() == 0 && ins.Heap {
			if p, ok := w.zerobase[et]; ok {
				return p
			}
			p := new(Value)
			*p = Struct{}
			w.zerobase[et] = p
			return p
		}
		p := new(Value)
		*p = w.zero(et)
		return p
	case *ssa.MakeSlice:
		et := ins.Type().Underlying().(*types.Slice).Elem()
		return w.makeSlice(et, fr.get(&ci.a[0]).(*Term), fr.get(&ci.a[1]).(*Term), isSigned(ins.Len.Type()), isSigned(ins.Cap.Type()))
	case *ssa.MakeMap:
		return w.newMap(ins.Type().Underlying().(*types.Map))
	case *ssa.MakeChan:
		panic(unsupported("make chan"))
	case *ssa.MakeClosure:
		env := make([]Value, len(ci.a)-1)
		for i := range env {
			env[i] = fr.get(&ci.a[1+i])
		}
		return &Closure{fn: ins.Fn.(*ssa.Function), env: env}
	case *ssa.Range:
		x := fr.get(&ci.a[0])
		switch x := x.(type) {
		case *Map:
			it := &Iter{m: x}
			if x != nil {
				w.mapOrder(x, it)
			}
			return it
		case *Str:
			return &Iter{str: x}
		}
		panic(unsupported("range"))
	case *ssa.Next:
		return w.next(fr, ins, fr.get(&ci.a[0]).(*Iter))
	case *ssa.FieldAddr:
		p := fr.get(&ci.a[0]).(Ptr)
		if p == nil {
			w.nilDeref()
		}
		s, ok := (*p).(Struct)
		if !ok {
			panic(unsupported(fmt.Sprintf("fieldaddr on %T", *p)))
		}
		return &s[ins.Field]
	case *ssa.Field:
		return copyVal(fr.get(&ci.a[0]).(Struct)[ins.Field])
	case *ssa.IndexAddr:
		x := fr.get(&ci.a[0])
		it := fr.get(&ci.a[1]).(*Term)
		var cells []Value
		switch x := x.(type) {
		case Slice:
			cells = x
		case Ptr:
			if x == nil {
				w.nilDeref()
			}
			cells = (*x).(Array)
		default:
			panic(unsupported(fmt.Sprintf("indexaddr %T", x)))
		}
		t := w.checkIndex(it, len(cells), isSigned(ins.Index.Type()))
		if t.IsConst() {
			return &cells[t.val]
		}
		// symbolic address: only loads are supported lazily
		if onlyLoads(ins) {
			if v, ok := w.muxIndex(cells, t); ok {
				p := new(Value)
				*p = v
				return p
			}
		}
		return &cells[w.concretize(t)]
	case *ssa.Index:
		x := fr.get(&ci.a[0])
		it := fr.get(&ci.a[1]).(*Term)
		switch x := x.(type) {
		case Array:
			t := w.checkIndex(it, len(x), isSigned(ins.Index.Type()))
			if t.IsConst() {
				return copyVal(x[t.val])
			}
			if v, ok := w.muxIndex(x, t); ok {
				return v
			}
			return copyVal(x[w.concretize(t)])
		case *Str:
			return w.strIndex(x, it, isSigned(ins.Index.Type()))
		}
		panic(unsupported("index"))
	case *ssa.Lookup:
		x := fr.get(&ci.a[0])
		switch x := x.(type) {
		case *Str:
			return w.strIndex(x, fr.get(&ci.a[1]).(*Term), isSigned(ins.Index.Type()))
		case *Map:
			v, ok := w.mapLookup(x, fr.get(&ci.a[1]))
			if v == nil {
				v = w.zero(ins.X.Type().Underlying().(*types.Map).Elem())
			}
			if ins.CommaOk {
				return Tuple{v, ok}
			}
			return v
		}
		panic(unsupported("lookup"))
	case *ssa.TypeAssert:
		return w.typeAssert(ins, fr.get(&ci.a[0]).(Iface))
	}
	panic(unsupported(fmt.Sprintf("instruction %T", ci.ins)))
}

// onlyLoads: every use of the address is a plain load.
func onlyLoads(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
		case *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !onlyLoads(r) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// muxIndex reads cells[t] for symbolic in-range t as an ite over runs of equal elements.
func (w *World) muxIndex(cells []Value, t *Term) (Value, bool) {
	n := len(cells)
	if n == 0 || n > 4096 {
		return nil, false
	}
	if _, ok := cells[0].(*Term); ok {
		// find interval of t cheaply: try binary tree over runs
		type run struct {
			start, end int
			v          *Term
			ramp       bool // values grow by one with the index
		}
		var runs []run
		for i := 0; i < n; i++ {
			ct := cells[i].(*Term)
			if len(runs) > 0 {
				r := &runs[len(runs)-1]
				if !r.ramp && same(r.v, ct) {
					r.end = i + 1
					continue
				}
				if r.v.IsConst() && ct.IsConst() && r.v.w > 1 && (r.ramp || r.end-r.start == 1) &&
					ct.val == (r.v.val+uint64(i-r.start))&mask(r.v.w) {
					r.ramp = true
					r.end = i + 1
					continue
				}
			}
			runs = append(runs, run{i, i + 1, ct, false})
		}
		var build func(a, b int) *Term
		build = func(a, b int) *Term {
			if b-a == 1 {
				r := runs[a]
				if !r.ramp {
					return r.v
				}
				x := t
				if r.v.w < t.w {
					x = w.ts.Extract(t, 0, r.v.w)
				}
				return w.ts.Bin(OpAdd, x, w.ts.C(r.v.w, r.v.val-uint64(r.start)))
			}
			m := (a + b) / 2
			return w.ts.Ite(w.ts.Cmp(OpUlt, t, w.ts.C(64, uint64(runs[m-1].end))), build(a, m), build(m, b))
		}
		return build(0, len(runs)), true
	}
	res := cells[n-1]
	switch res.(type) {
	case Struct, *Str, Array, Iface:
	default:
		return nil, false
	}
	if n > 300 {
		return nil, false
	}
	if st, ok := res.(Struct); ok {
		out := make(Struct, len(st))
		for k := range st {
			col := make([]Value, n)
			for i := range cells {
				col[i] = cells[i].(Struct)[k]
			}
			v, ok := w.muxIndex(col, t)
			if !ok {
				return nil, false
			}
			out[k] = v
		}
		return out, true
	}
	if ar, ok := res.(Array); ok {
		out := make(Array, len(ar))
		for k := range ar {
			col := make([]Value, n)
			for i := range cells {
				col[i] = cells[i].(Array)[k]
			}
			v, ok := w.muxIndex(col, t)
			if !ok {
				return nil, false
			}
			out[k] = v
		}
		return out, true
	}
	for i := n - 2; i >= 0; i-- {
		r, ok := w.mergeVal(w.ts.Eq(t, w.ts.C(64, uint64(i))), cells[i], res)
		if !ok {
			return nil, false
		}
		res = r
	}
	return copyVal(res), true
}

func (w *World) strIndex(s *Str, it *Term, signed bool) Value {
	t := w.checkIndex(it, s.Len(), signed)
	if t.IsConst() {
		return w.strByte(s, int(t.val))
	}
	cells := make([]Value, s.Len())
	for i := range cells {
		cells[i] = w.strByte(s, i)
	}
	if v, ok := w.muxIndex(cells, t); ok {
		return v
	}
	return w.strByte(s, int(w.concretize(t)))
}

func (w *World) typeAssert(ins *ssa.TypeAssert, x Iface) Value {
	ok := false
	var v Value
	if x.t != nil {
		if it, isI := ins.AssertedType.Underlying().(*types.Interface); isI {
			if w.implements(x.t, it) {
				ok = true
				v = x
			}
		} else if w.identical(x.t, ins.AssertedType) {
			ok = true
			v = copyVal(x.v)
		}
	}
	if ins.CommaOk {
		if !ok {
			v = w.zero(ins.AssertedType)
		}
		return Tuple{v, w.ts.B(ok)}
	}
	if !ok {
		dt := "nil"
		if x.t != nil {
			dt = x.t.String()
		}
		w.runtimePanic(fmt.Sprintf("interface conversion: %s is not %s", dt, ins.AssertedType))
	}
	return v
}

func (w *World) slice(fr *frame, ins *ssa.Slice, ci *cinstr) Value {
	// operands: X Low High Max
	x := fr.get(&ci.a[0])
	var n, c int
	var cells []Value
	var str *Str
	switch x := x.(type) {
	case Slice:
		cells = x
		n, c = len(x), cap(x)
	case *Str:
		str = x
		n, c = x.Len(), x.Len()
	case Ptr:
		if x == nil {
			w.nilDeref()
		}
		cells = (*x).(Array)
		n, c = len(cells), len(cells)
	default:
		panic(unsupported(fmt.Sprintf("slice of %T", x)))
	}
	get := func(i int, v ssa.Value, def int) *Term {
		if ci.a[i].k == okNone {
			return w.ts.C(64, uint64(def))
		}
		t := fr.get(&ci.a[i]).(*Term)
		if t.w < 64 {
			if isSigned(v.Type()) {
				t = w.ts.Sext(t, 64)
			} else {
				t = w.ts.Zext(t, 64)
			}
		}
		return t
	}
	lo, hi := get(1, ins.Low, 0), get(2, ins.High, n)
	mx := get(3, ins.Max, c)
	// bounds: 0 <= lo <= hi <= max <= cap
	ct := w.ts.C(64, uint64(c))
	ok := w.ts.BAnd(w.ts.Cmp(OpUle, lo, hi), w.ts.BAnd(w.ts.Cmp(OpUle, hi, mx), w.ts.Cmp(OpUle, mx, ct)))
	if !w.branch(ok) {
		w.runtimePanic(fmt.Sprintf("slice bounds out of range (len %d cap %d)", n, c))
	}
	l := int(w.concretize(lo))
	h := int(w.concretize(hi))
	m := int(w.concretize(mx))
	if str != nil {
		return w.strSlice(str, l, h)
	}
	if s, isS := x.(Slice); isS && s == nil {
		return Slice(nil)
	}
	return Slice(cells[l:h:m])
}

func (w *World) makeSlice(et types.Type, lt, ct *Term, ls, cs bool) Value {
	ext := func(t *Term, s bool) *Term {
		if t.w == 64 {
			return t
		}
		if s {
			return w.ts.Sext(t, 64)
		}
		return w.ts.Zext(t, 64)
	}
	lt, ct = ext(lt, ls), ext(ct, cs)
	same := lt == ct
	esz := w.eng.sizes.Sizeof(et)
	if esz == 0 {
		esz = 1
	}
	// Go panics for negative or absurd sizes
	maxN := uint64(1) << 47 / uint64(esz)
	okc := w.ts.BAnd(w.ts.Cmp(OpUle, ct, w.ts.C(64, maxN)), w.ts.Cmp(OpUle, lt, ct))
	if !w.branch(okc) {
		w.runtimePanic("makeslice: len out of range")
	}
	lim := uint64(1 << 20)
	if w.p.allocLimit > 0 {
		lim = w.p.allocLimit / uint64(esz)
		if lim == 0 {
			lim = 1
		}
	}
	if !w.branch(w.ts.Cmp(OpUle, ct, w.ts.C(64, lim))) {
		if w.p.allocLimit > 0 {
			w.fail("alloc", fmt.Sprintf("single allocation larger than %d bytes at %s", w.p.allocLimit, w.where()))
		}
		w.endPath("limit", "allocation larger than the engine bound at "+w.where())
	}
	n := w.concretize(lt)
	c := n
	if !same {
		c = w.concretize(ct)
	}
	return w.newSlice(et, int(n), int(c))
}

func (w *World) newSlice(et types.Type, n, c int) Slice {
	s := make(Slice, c)
	if isAgg(et) {
		for i := range s {
			s[i] = w.zero(et)
		}
	} else if c > 0 {
		z := w.zero(et)
		for i := range s {
			s[i] = z
		}
	}
	return s[:n]
}

func (w *World) mapOrder(m *Map, it *Iter) {
	for i, k := range m.keys {
		if !m.dead[i] {
			it.keys = append(it.keys, k)
		}
	}
	// Go's map iteration order is unspecified: explore two extreme orders when asked.
	if w.p.mapOrder && !w.initing && len(it.keys) > 1 && w.sub == nil {
		v := w.freshVar("maporder", 0)
		if w.branch(v) {
			for i, j := 0, len(it.keys)-1; i < j; i, j = i+1, j-1 {
				it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
			}
		}
	}
}

func (w *World) next(fr *frame, ins *ssa.Next, it *Iter) Value {
	bump := func(n int) {
		old := it.pos
		it.pos += n
		if !w.initing {
			w.undo = append(w.undo, undoEnt{f: func() { it.pos = old }})
		}
	}
	if ins.IsString {
		if it.pos >= it.str.Len() {
			return Tuple{w.ts.F, w.ts.C(64, 0), w.ts.C(32, 0)}
		}
		p := it.pos
		r, n := w.decodeRune(fr, w.strSlice(it.str, p, min(it.str.Len(), p+4)))
		bump(n)
		return Tuple{w.ts.T, w.ts.C(64, uint64(p)), r}
	}
	tt := ins.Type().(*types.Tuple)
	zeroOr := func(i int) Value {
		t := tt.At(i).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return w.zero(t)
	}
	for it.m != nil && it.pos < len(it.keys) {
		k := it.keys[it.pos]
		bump(1)
		// entry may have been deleted
		idx := -1
		for i := range it.m.keys {
			if !it.m.dead[i] && &it.m.keys[i] != nil && sameKey(it.m.keys[i], k) {
				idx = i
				break
			}
		}
		if idx < 0 {
			continue
		}
		return Tuple{w.ts.T, copyVal(k), copyVal(it.m.vals[idx])}
	}
	return Tuple{w.ts.F, zeroOr(1), zeroOr(2)}
}

func sameKey(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && same(x, y)
	case *Str:
		y, ok := b.(*Str)
		if !ok || x.Len() != y.Len() {
			return false
		}
		if x == y {
			return true
		}
		if x.b == nil && y.b == nil {
			return x.s == y.s
		}
		if x.b == nil || y.b == nil {
			return false
		}
		for i := range x.b {
			if !same(x.b[i], y.b[i]) {
				return false
			}
		}
		return true
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x == y
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return false
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		return types.Identical(x.t, y.t) && sameKey(x.v, y.v)
	case Struct:
		y, ok := b.(Struct)
		if !ok {
			return false
		}
		for i := range x {
			if !sameKey(x[i], y[i]) {
				return false
			}
		}
		return true
	case Array:
		y, ok := b.(Array)
		if !ok {
			return false
		}
		for i := range x {
			if !sameKey(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// decodeRune decodes the first rune of s (1..4 bytes given); forks on symbolic bytes.
func (w *World) decodeRune(fr *frame, s *Str) (*Term, int) {
	if s.b == nil {
		for i, r := range s.s {
			_ = i
			n := len(string(r))
			if r == 0xFFFD && !strings.HasPrefix(s.s, "�") {
				n = 1
			}
			return w.ts.C(32, uint64(uint32(r))), n
		}
		return w.ts.C(32, 0), 0
	}
	if w.branch(w.ts.Cmp(OpUlt, s.b[0], w.ts.C(8, 0x80))) {
		return w.ts.Zext(s.b[0], 32), 1
	}
	f := w.eng.fnByName("unicode/utf8", "DecodeRuneInString")
	if f == nil {
		panic(unsupported("utf8 not loaded"))
	}
	r := w.callFn(fr, f, []Value{s}, nil).(Tuple)
	return r[0].(*Term), int(w.concretize(r[1].(*Term)))
}

func (w *World) unop(ins *ssa.UnOp, x Value) Value {
	switch ins.Op {
	case token.MUL:
		p, ok := x.(Ptr)
		if !ok {
			panic(unsupported(fmt.Sprintf("load of %T", x)))
		}
		if p == nil {
			w.nilDeref()
		}
		return copyVal(*p)
	case token.NOT:
		return w.ts.BNot(x.(*Term))
	case token.SUB:
		t := x.(*Term)
		if isFloat(ins.X.Type()) {
			return w.ts.Bin(OpXor, t, w.ts.C(t.w, uint64(1)<<(t.w-1)))
		}
		return w.ts.Neg(t)
	case token.XOR:
		return w.ts.Not(x.(*Term))
	}
	panic(unsupported("unop " + ins.Op.String()))
}

func (w *World) binop(op token.Token, xt, yt types.Type, x, y Value) Value {
	switch op {
	case token.EQL:
		return w.equal(xt, x, y)
	case token.NEQ:
		return w.ts.BNot(w.equal(xt, x, y))
	}
	if a, ok := x.(*Str); ok {
		b := y.(*Str)
		switch op {
		case token.ADD:
			return w.strConcat(a, b)
		case token.LSS:
			return w.strLess(a, b)
		case token.GTR:
			return w.strLess(b, a)
		case token.LEQ:
			return w.ts.BNot(w.strLess(b, a))
		case token.GEQ:
			return w.ts.BNot(w.strLess(a, b))
		}
	}
	a, ok1 := x.(*Term)
	b, ok2 := y.(*Term)
	if !ok1 || !ok2 {
		panic(unsupported(fmt.Sprintf("binop %s on %T %T", op, x, y)))
	}
	if isFloat(xt) {
		switch op {
		case token.ADD:
			return w.ts.FBin(OpFAdd, a, b)
		case token.SUB:
			return w.ts.FBin(OpFSub, a, b)
		case token.MUL:
			return w.ts.FBin(OpFMul, a, b)
		case token.QUO:
			return w.ts.FBin(OpFDiv, a, b)
		case token.LSS:
			return w.ts.FLt(a, b)
		case token.LEQ:
			return w.ts.FLe(a, b)
		case token.GTR:
			return w.ts.FLt(b, a)
		case token.GEQ:
			return w.ts.FLe(b, a)
		}
	}
	sg := isSigned(xt)
	switch op {
	case token.ADD:
		return w.ts.Bin(OpAdd, a, b)
	case token.SUB:
		return w.ts.Bin(OpSub, a, b)
	case token.MUL:
		return w.ts.Bin(OpMul, a, b)
	case token.QUO, token.REM:
		if !b.IsConst() || b.val == 0 {
			if w.branch(w.ts.Eq(b, w.ts.C(b.w, 0))) {
				w.runtimePanic("integer divide by zero")
			}
		}
		switch {
		case op == token.QUO && sg:
			return w.ts.Bin(OpSDiv, a, b)
		case op == token.QUO:
			return w.ts.Bin(OpUDiv, a, b)
		case sg:
			return w.ts.Bin(OpSRem, a, b)
		default:
			return w.ts.Bin(OpURem, a, b)
		}
	case token.AND:
		if a.w == 0 {
			return w.ts.BAnd(a, b)
		}
		return w.ts.Bin(OpAnd, a, b)
	case token.OR:
		if a.w == 0 {
			return w.ts.BOr(a, b)
		}
		return w.ts.Bin(OpOr, a, b)
	case token.XOR:
		return w.ts.Bin(OpXor, a, b)
	case token.AND_NOT:
		return w.ts.Bin(OpAnd, a, w.ts.Not(b))
	case token.SHL, token.SHR:
		if isSigned(yt) {
			if w.branch(w.ts.Cmp(OpSlt, b, w.ts.C(b.w, 0))) {
				w.runtimePanic("negative shift amount")
			}
		}
		var o Op
		switch {
		case op == token.SHL:
			o = OpShl
		case sg:
			o = OpAshr
		default:
			o = OpLshr
		}
		if b.w > a.w {
			big := w.ts.Cmp(OpUle, w.ts.C(b.w, uint64(a.w)), b)
			sh := w.ts.Extract(b, 0, a.w)
			if o == OpAshr {
				sh = w.ts.Ite(big, w.ts.C(a.w, uint64(a.w-1)), sh)
				return w.ts.Bin(o, a, sh)
			}
			return w.ts.Ite(big, w.ts.C(a.w, 0), w.ts.Bin(o, a, sh))
		}
		return w.ts.Bin(o, a, w.ts.Zext(b, a.w))
	case token.LSS:
		if sg {
			return w.ts.Cmp(OpSlt, a, b)
		}
		return w.ts.Cmp(OpUlt, a, b)
	case token.LEQ:
		if sg {
			return w.ts.Cmp(OpSle, a, b)
		}
		return w.ts.Cmp(OpUle, a, b)
	case token.GTR:
		if sg {
			return w.ts.Cmp(OpSlt, b, a)
		}
		return w.ts.Cmp(OpUlt, b, a)
	case token.GEQ:
		if sg {
			return w.ts.Cmp(OpSle, b, a)
		}
		return w.ts.Cmp(OpUle, b, a)
	}
	panic(unsupported("binop " + op.String()))
}

func (w *World) convert(from, to types.Type, x Value) Value {
	ft, tt := from.Underlying(), to.Underlying()
	switch tt := tt.(type) {
	case *types.Slice:
		if s, ok := x.(*Str); ok {
			eb := basicOf(tt.Elem())
			if eb.Kind() == types.Uint8 {
				out := make(Slice, s.Len())
				for i := range out {
					out[i] = w.strByte(s, i)
				}
				return out
			}
			// []rune
			out := Slice{}
			for p := 0; p < s.Len(); {
				r, n := w.decodeRune(w.curFrame, w.strSlice(s, p, min(s.Len(), p+4)))
				out = append(out, r)
				p += n
			}
			return out
		}
		return x
	case *types.Pointer:
		return x
	case *types.Basic:
		if tt.Info()&types.IsString != 0 {
			switch x := x.(type) {
			case *Str:
				return x
			case Slice:
				eb := basicOf(ft.(*types.Slice).Elem())
				if eb.Kind() == types.Uint8 {
					bs := make([]*Term, len(x))
					for i := range x {
						bs[i] = x[i].(*Term)
					}
					return w.strFromTerms(bs)
				}
				var r Value = emptyStr
				for _, e := range x {
					r = w.strConcat(r.(*Str), w.runeStr(e.(*Term)))
				}
				return r
			case *Term:
				t := x
				if t.w < 32 {
					t = w.ts.Zext(t, 32)
				} else if t.w > 32 {
					if !w.branch(w.ts.Cmp(OpUle, t, w.ts.C(t.w, 0x10ffff))) {
						return mkStr("�")
					}
					t = w.ts.Extract(t, 0, 32)
				}
				return w.runeStr(t)
			}
			panic(unsupported("convert to string"))
		}
		if tt.Kind() == types.UnsafePointer {
			return x
		}
		t, ok := x.(*Term)
		if !ok {
			panic(unsupported(fmt.Sprintf("convert %s to %s", from, to)))
		}
		tw := w.width(tt)
		ff, tf := isFloat(from), isFloat(to)
		switch {
		case ff && tf:
			return w.ts.FUn(OpFCvt, tw, t, 0)
		case ff:
			return w.floatToInt(t, tt, tw)
		case tf:
			if isSigned(from) {
				return w.ts.FUn(OpS2F, tw, t, 0)
			}
			return w.ts.FUn(OpU2F, tw, t, 0)
		case isSigned(from):
			return w.ts.Sext(t, tw)
		default:
			return w.ts.Zext(t, tw)
		}
	}
	return x
}

// floatToInt follows amd64: out-of-range conversions give the "integer indefinite" value.
func (w *World) floatToInt(t *Term, tt *types.Basic, tw uint8) *Term {
	if t.IsConst() {
		f := fconst(t)
		switch tt.Kind() {
		case types.Int8:
			return w.ts.C(8, uint64(int8(f)))
		case types.Int16:
			return w.ts.C(16, uint64(int16(f)))
		case types.Int32:
			return w.ts.C(32, uint64(int32(f)))
		case types.Uint8:
			return w.ts.C(8, uint64(uint8(f)))
		case types.Uint16:
			return w.ts.C(16, uint64(uint16(f)))
		case types.Uint32:
			return w.ts.C(32, uint64(uint32(f)))
		case types.Uint64, types.Uint, types.Uintptr:
			return w.ts.C(64, uint64(f))
		default:
			return w.ts.C(64, uint64(int64(f)))
		}
	}
	f64 := w.ts.FUn(OpFCvt, 64, t, 0)
	c := func(f float64) *Term { return w.ts.C(64, math.Float64bits(f)) }
	in := func(lo, hi float64) *Term {
		return w.ts.BAnd(w.ts.FLt(c(lo), f64), w.ts.FLt(f64, c(hi)))
	}
	if tt.Kind() == types.Uint64 || tt.Kind() == types.Uint || tt.Kind() == types.Uintptr {
		return w.ts.Ite(in(-1, 18446744073709551616.0), w.ts.mk1(OpF2U, 64, f64, 0), w.ts.C(64, 1<<63))
	}
	r := w.ts.Ite(w.ts.BAnd(w.ts.FLe(c(-9223372036854775808.0), f64), w.ts.FLt(f64, c(9223372036854775808.0))), w.ts.mk1(OpF2S, 64, f64, 0), w.ts.C(64, 1<<63))
	if tt.Kind() == types.Int32 {
		return w.ts.Ite(in(-2147483649.0, 2147483648.0), w.ts.Extract(r, 0, 32), w.ts.C(32, 1<<31))
	}
	if tw == 64 {
		return r
	}
	return w.ts.Extract(r, 0, tw)
}

// runeStr encodes a rune as a UTF-8 string (forks on its length class).
func (w *World) runeStr(t *Term) *Str {
	if t.IsConst() {
		return mkStr(string(rune(int32(t.val))))
	}
	lt := func(n uint64) bool { return w.branch(w.ts.Cmp(OpUlt, t, w.ts.C(32, n))) }
	x := func(lo, n uint8, hi uint64) *Term {
		return w.ts.Bin(OpOr, w.ts.Zext(w.ts.Extract(t, lo, n), 8), w.ts.C(8, hi))
	}
	switch {
	case lt(0x80):
		return w.strFromTerms([]*Term{w.ts.Extract(t, 0, 8)})
	case lt(0x800):
		return w.strFromTerms([]*Term{x(6, 5, 0xc0), x(0, 6, 0x80)})
	case lt(0x10000):
		if w.branch(w.ts.BAnd(w.ts.Cmp(OpUle, w.ts.C(32, 0xd800), t), w.ts.Cmp(OpUlt, t, w.ts.C(32, 0xe000)))) {
			return mkStr("�")
		}
		return w.strFromTerms([]*Term{x(12, 4, 0xe0), x(6, 6, 0x80), x(0, 6, 0x80)})
	case lt(0x110000):
		return w.strFromTerms([]*Term{x(18, 3, 0xf0), x(12, 6, 0x80), x(6, 6, 0x80), x(0, 6, 0x80)})
	}
	return mkStr("�")
}

func (w *World) builtin(fr *frame, b *ssa.Builtin, args []Value, cc *ssa.CallCommon) Value {
	n64 := func(n int) *Term { return w.ts.C(64, uint64(n)) }
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *Str:
			return n64(x.Len())
		case Slice:
			return n64(len(x))
		case Array:
			return n64(len(x))
		case *Map:
			if x == nil {
				return n64(0)
			}
			return n64(x.n)
		case Ptr:
			return n64(len((*x).(Array)))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return n64(cap(x))
		case Array:
			return n64(len(x))
		case Ptr:
			return n64(len((*x).(Array)))
		}
	case "append":
		s := args[0].(Slice)
		var add []Value
		switch y := args[1].(type) {
		case Slice:
			add = y
		case *Str:
			add = make([]Value, y.Len())
			for i := range add {
				add[i] = w.strByte(y, i)
			}
		}
		return w.appendVals(s, add)
	case "copy":
		dst := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case Slice:
			src = y
		case *Str:
			src = make([]Value, y.Len())
			for i := range src {
				src[i] = w.strByte(y, i)
			}
		}
		n := min(len(dst), len(src))
		if n > 0 {
			tmp := make([]Value, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyVal(src[i])
			}
			for i := 0; i < n; i++ {
				w.store(&dst[i], tmp[i])
			}
		}
		return n64(n)
	case "delete":
		m, _ := args[0].(*Map)
		w.mapDelete(m, args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				for i := range x.keys {
					if !x.dead[i] {
						w.mapDelete(x, x.keys[i])
					}
				}
			}
		case Slice:
			et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				w.store(&x[i], w.zero(et))
			}
		}
		return nil
	case "recover":
		return w.doRecover(fr)
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			var less *Term
			if s, ok := r.(*Str); ok {
				less = w.strLess(y.(*Str), s)
				if b.Name() == "max" {
					less = w.strLess(s, y.(*Str))
				}
				if w.branch(less) {
					r = y
				}
				continue
			}
			t := cc.Args[0].Type()
			a, c := r.(*Term), y.(*Term)
			if isFloat(t) {
				panic(unsupported("float min/max"))
			}
			op := OpUlt
			if isSigned(t) {
				op = OpSlt
			}
			if b.Name() == "min" {
				r = w.ts.Ite(w.ts.Cmp(op, c, a), c, a)
			} else {
				r = w.ts.Ite(w.ts.Cmp(op, a, c), c, a)
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p == nil {
			w.nilDeref()
		}
		return args[0]
	case "ssa:deferstack":
		return Ptr(nil)
	case "String": // unsafe.String on pointer to first byte
	}
	panic(unsupported("builtin " + b.Name()))
}

// appendVals follows the capacity growth of the gc runtime closely enough that
// aliasing of spare capacity behaves as in Go.
func (w *World) appendVals(s Slice, add []Value) Slice {
	n := len(s) + len(add)
	if len(add) == 0 {
		return s
	}
	if n <= cap(s) {
		ns := s[:n]
		tmp := make([]Value, len(add))
		for i := range add {
			tmp[i] = copyVal(add[i])
		}
		for i := range tmp {
			w.set(&ns[len(s)+i], tmp[i])
		}
		return ns
	}
	c := cap(s)
	nc := c * 2
	if c >= 256 {
		nc = c + (c+3*256)/4
	}
	if nc < n {
		nc = n
	}
	if nc < 8 && n <= 8 {
		// small size classes round up for byte-sized elements only; keep exact otherwise
		if t, ok := add[0].(*Term); ok && t.w == 8 {
			nc = 8
		}
	}
	ns := make(Slice, n, nc)
	for i := range s {
		ns[i] = copyVal(s[i])
	}
	for i := range add {
		ns[len(s)+i] = copyVal(add[i])
	}
	// spare capacity must hold zero values
	if nc > n {
		z := zeroLike(w, add[0])
		full := ns[:nc]
		for i := n; i < nc; i++ {
			full[i] = copyVal(z)
		}
	}
	return ns
}

func zeroLike(w *World, v Value) Value {
	switch v := v.(type) {
	case *Term:
		if v.w == 0 {
			return w.ts.F
		}
		return w.ts.C(v.w, 0)
	case *Str:
		return emptyStr
	case Ptr:
		return Ptr(nil)
	case Struct:
		o := make(Struct, len(v))
		for i := range v {
			o[i] = zeroLike(w, v[i])
		}
		return o
	case Array:
		o := make(Array, len(v))
		for i := range v {
			o[i] = zeroLike(w, v[i])
		}
		return o
	case Slice:
		return Slice(nil)
	case Iface:
		return Iface{}
	case *Map:
		return (*Map)(nil)
	case *Closure, *ssa.Function, *NativeFn:
		return (*Closure)(nil)
	}
	return nil
}
