package main

import (
	"fmt"
	"go/types"
	"math"
	"runtime/debug"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// extFn replaces a function by an engine model; returning useSource interprets the body after all.
type extFn func(w *World, caller *frame, fn *ssa.Function, args []Value) Value

type useSourceT struct{}

var useSource = useSourceT{}

func stackTrace() string { return string(debug.Stack()) }

// packages whose initialisers are never run (runtime internals; their variables read as zero)
var noInit = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "time": true, "reflect": true, "internal/cpu": true, "internal/godebug": true,
	"internal/bytealg": true, "sync": true, "sync/atomic": true, "internal/poll": true, "internal/reflectlite": true, "internal/abi": true,
	"internal/testlog": true, "io/fs": true, "path": true, "internal/oserror": true, "internal/syscall/unix": true, "internal/race": true,
	"unsafe": true, "errors": true, "internal/runtime/atomic": true, "internal/chacha8rand": true, "math/rand": true,
}

var externals map[string]extFn

func pureExt(fn *ssa.Function) bool {
	n := fn.String()
	if fn.Origin() != nil {
		n = fn.Origin().String()
	}
	switch {
	case strings.HasPrefix(n, "math."), strings.HasPrefix(n, "unicode."), strings.HasPrefix(n, "unicode/utf8."),
		strings.HasPrefix(n, "internal/bytealg."), strings.HasPrefix(n, "strconv."):
		return n != "internal/bytealg.MakeNoZero"
	}
	if n == "(*golang.org/x/text/encoding/charmap.Charmap).EncodeRune" {
		return true
	}
	if strings.HasPrefix(n, vxPath+".Thorough") || strings.HasPrefix(n, vxPath+".Symbolic") {
		return true
	}
	return false
}

func (w *World) n64(n int) *Term { return w.ts.C(64, uint64(n)) }

func (w *World) mkErr(pkg, typ string, fields ...Value) Iface {
	t := w.eng.typeByName(pkg, typ)
	p := new(Value)
	*p = Struct(fields)
	return Iface{types.NewPointer(t), p}
}

// ptrType returns the canonical *T for a named type so that identity caches hit.
func (w *World) errorsNew(msg string) Iface {
	return w.mkErr("errors", "errorString", mkStr(msg))
}

func byteTerms(v Value) []*Term {
	s := v.(Slice)
	out := make([]*Term, len(s))
	for i := range s {
		out[i] = s[i].(*Term)
	}
	return out
}

func (w *World) indexByte(bs []*Term, c *Term) Value {
	for i, b := range bs {
		if w.branch(w.ts.Eq(b, c)) {
			return w.n64(i)
		}
	}
	return w.ts.C(64, ^uint64(0))
}

func (w *World) indexBytes(a, b []*Term) Value {
	for i := 0; i+len(b) <= len(a); i++ {
		c := w.ts.T
		for k := range b {
			c = w.ts.BAnd(c, w.ts.Eq(a[i+k], b[k]))
		}
		if w.branch(c) {
			return w.n64(i)
		}
	}
	return w.ts.C(64, ^uint64(0))
}

func (w *World) countByte(bs []*Term, c *Term) Value {
	n := w.n64(0)
	for _, b := range bs {
		n = w.ts.Bin(OpAdd, n, w.ts.Ite(w.ts.Eq(b, c), w.n64(1), w.n64(0)))
	}
	return n
}

func fround(mode uint64) extFn {
	return func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
		return w.ts.FUn(OpFRnd, 64, a[0].(*Term), mode)
	}
}

func ident(w *World, c *frame, fn *ssa.Function, a []Value) Value { return a[0] }

func noop(w *World, c *frame, fn *ssa.Function, a []Value) Value {
	return w.zeroResults(fn)
}

func (w *World) zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return w.zero(r.At(0).Type())
	}
	t := make(Tuple, r.Len())
	for i := range t {
		t[i] = w.zero(r.At(i).Type())
	}
	return t
}

func init() {
	externals = map[string]extFn{
		"math.Float32bits":     ident,
		"math.Float32frombits": ident,
		"math.Float64bits":     ident,
		"math.Float64frombits": ident,
		"math.Ceil":            fround(0),
		"math.Floor":           fround(1),
		"math.Trunc":           fround(2),
		"math.RoundToEven":     fround(3),
		"math.ceil":            fround(0),
		"math.floor":           fround(1),
		"math.trunc":           fround(2),
		"math.Sqrt": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			return w.ts.FUn(OpFSqrt, 64, a[0].(*Term), 0)
		},
		"math.Abs": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			return w.ts.Bin(OpAnd, a[0].(*Term), w.ts.C(64, 1<<63-1))
		},
		"math.IsNaN": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			return w.ts.FIsNaN(a[0].(*Term))
		},
		"math.NaN": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			return w.ts.C(64, 0x7FF8000000000001)
		},
		"math.Log2": mathLog2,
		"math.Pow":  concreteF2(math.Pow), "math.Log": concreteF1(math.Log), "math.Exp": concreteF1(math.Exp),
		"math.Log10": concreteF1(math.Log10), "math.Exp2": concreteF1(math.Exp2), "math.Log1p": concreteF1(math.Log1p),
		"math.Mod": concreteF2(math.Mod),

		// closed form of the table search for ISO 8859-1; C08_Latin1Table decides that it is one
		"(*golang.org/x/text/encoding/charmap.Charmap).EncodeRune": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			p, ok := a[0].(Ptr)
			g, _ := fn.Pkg.Members["iso8859_1"].(*ssa.Global)
			if w.raw || !ok || g == nil || w.global(g) != p {
				return useSource
			}
			r := a[1].(*Term)
			in := w.ts.Cmp(OpUlt, r, w.ts.C(32, 0x100))
			return Tuple{w.ts.Ite(in, w.ts.Extract(r, 0, 8), w.ts.C(8, 0x1a)), in}
		},

		// with a symbolic limit, read one byte at a time: the number of bytes asked for stays concrete
		"(*io.LimitedReader).Read": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			p, ok := a[0].(Ptr)
			if !ok || p == nil {
				return useSource
			}
			st, ok := (*p).(Struct)
			if !ok || len(st) != 2 {
				return useSource
			}
			buf, ok := a[1].(Slice)
			if n, isT := st[1].(*Term); ok && isT && !n.IsConst() && len(buf) > 1 {
				a[1] = buf[:1]
			}
			return useSource
		},

		"errors.Is": extErrorsIs,
		"errors.As": extErrorsAs,

		"fmt.Errorf": extErrorf,
		"fmt.Sprintf": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			return w.sprintf(c, a[0].(*Str), a[1].(Slice), false)
		},
		"fmt.Sprint":   extSprint(""),
		"fmt.Sprintln": extSprint("\n"),
		"fmt.Printf":   noop, "fmt.Println": noop, "fmt.Print": noop, "fmt.Fprintln": noop,
		"fmt.Fprintf": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			s := w.sprintf(c, a[1].(*Str), a[2].(Slice), false)
			iw := a[0].(Iface)
			m := w.methodByName(iw.t, nil, "Write")
			return w.callFn(c, m, []Value{iw.v, w.bytesOf(s)}, nil)
		},

		"internal/bytealg.IndexByte": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			return w.indexByte(byteTerms(a[0]), a[1].(*Term))
		},
		"internal/bytealg.IndexByteString": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			return w.indexByte(w.strTerms(a[0].(*Str)), a[1].(*Term))
		},
		"internal/bytealg.Index": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			return w.indexBytes(byteTerms(a[0]), byteTerms(a[1]))
		},
		"internal/bytealg.IndexString": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			return w.indexBytes(w.strTerms(a[0].(*Str)), w.strTerms(a[1].(*Str)))
		},
		"internal/bytealg.Count": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			return w.countByte(byteTerms(a[0]), a[1].(*Term))
		},
		"internal/bytealg.CountString": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			return w.countByte(w.strTerms(a[0].(*Str)), a[1].(*Term))
		},
		"internal/bytealg.Compare": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			x, y := w.strFromTerms(byteTerms(a[0])), w.strFromTerms(byteTerms(a[1]))
			return w.ts.Ite(w.strEq(x, y), w.n64(0), w.ts.Ite(w.strLess(x, y), w.ts.C(64, ^uint64(0)), w.n64(1)))
		},
		"internal/bytealg.CompareString": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			x, y := a[0].(*Str), a[1].(*Str)
			return w.ts.Ite(w.strEq(x, y), w.n64(0), w.ts.Ite(w.strLess(x, y), w.ts.C(64, ^uint64(0)), w.n64(1)))
		},
		"internal/bytealg.Equal": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			return w.strEq(w.strFromTerms(byteTerms(a[0])), w.strFromTerms(byteTerms(a[1])))
		},
		"internal/bytealg.MakeNoZero": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			return w.newSlice(types.Typ[types.Uint8], int(w.concretize(a[0].(*Term))), int(w.concretize(a[0].(*Term))))
		},
		"strings.Index": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			return w.indexBytes(w.strTerms(a[0].(*Str)), w.strTerms(a[1].(*Str)))
		},
		"strings.IndexByte": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			return w.indexByte(w.strTerms(a[0].(*Str)), a[1].(*Term))
		},
		"bytes.IndexByte": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			return w.indexByte(byteTerms(a[0]), a[1].(*Term))
		},
		"strings.Clone": ident,
		"(*strings.Builder).String": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			p := a[0].(Ptr)
			if p == nil {
				w.nilDeref()
			}
			st := (*p).(Struct)
			buf := st[len(st)-1].(Slice)
			return w.strFromTerms(byteTerms(buf))
		},
		"(*strings.Builder).copyCheck": noop,
		"internal/abi.NoEscape":        ident,
		"internal/abi.Escape":          ident,
		"internal/stringslite.Clone":   ident,
		"(*sync.Once).Do":              extOnceDo,
		"(*sync.Mutex).Lock":           noop, "(*sync.Mutex).Unlock": noop, "(*sync.RWMutex).Lock": noop, "(*sync.RWMutex).Unlock": noop,
		"(*sync.RWMutex).RLock": noop, "(*sync.RWMutex).RUnlock": noop,
		"(*sync.Pool).Put": noop,
		"(*sync.Pool).Get": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			st := (*a[0].(Ptr)).(Struct)
			nf := st[len(st)-1]
			if isNilFunc(nf) {
				return Iface{}
			}
			return w.callValue(c, nf, nil)
		},
		"runtime.KeepAlive":        noop,
		"runtime.GC":               noop,
		"runtime.SetFinalizer":     noop,
		"internal/godebug.New":     func(w *World, c *frame, fn *ssa.Function, a []Value) Value { return Ptr(new(Value)) },
		"strconv.ParseFloat":       extParseFloat,
		"unicode.Is":               extUnicodeIs,
		"unicode.isExcludingLatin": extUnicodeIs,
		"unicode.is16":             func(w *World, c *frame, fn *ssa.Function, a []Value) Value { return useSource },
		"sort.Slice":               extSortSlice, "sort.SliceStable": extSortSlice,
		"reflect.DeepEqual": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			return w.deepEqual(a[0], a[1], 0)
		},
	}
}

func concreteF1(f func(float64) float64) extFn {
	return func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		if !t.IsConst() {
			panic(unsupported(fn.String() + " of a symbolic number"))
		}
		return w.ts.C(64, math.Float64bits(f(math.Float64frombits(t.val))))
	}
}
func concreteF2(f func(a, b float64) float64) extFn {
	return func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
		t, u := a[0].(*Term), a[1].(*Term)
		if !t.IsConst() || !u.IsConst() {
			panic(unsupported(fn.String() + " of a symbolic number"))
		}
		return w.ts.C(64, math.Float64bits(f(math.Float64frombits(t.val), math.Float64frombits(u.val))))
	}
}

// mathLog2: exact on concrete input; on a symbolic input that is an integer
// converted to float it returns a value constrained by the contract of Log2:
// exact on powers of two, strictly between k and k+1 otherwise.
func mathLog2(w *World, c *frame, fn *ssa.Function, a []Value) Value {
	t := a[0].(*Term)
	if t.IsConst() {
		return w.ts.C(64, math.Float64bits(math.Log2(math.Float64frombits(t.val))))
	}
	if w.sub != nil {
		panic(mergeAbort{"log2"})
	}
	v := w.freshVar("log2", 64)
	fc := func(f float64) *Term { return w.ts.C(64, math.Float64bits(f)) }
	cond := w.ts.T
	one := fc(1)
	w.assume(w.ts.BAnd(w.ts.FLe(one, t), w.ts.FLt(t, fc(1<<40))))
	for k := 0; k < 40; k++ {
		p := fc(math.Ldexp(1, k))
		np := fc(math.Ldexp(1, k+1))
		exact := w.ts.FEq(t, p)
		inside := w.ts.BAnd(w.ts.FLt(p, t), w.ts.FLt(t, np))
		cond = w.ts.BAnd(cond, w.ts.BOr(w.ts.BNot(exact), w.ts.Eq(v, fc(float64(k)))))
		cond = w.ts.BAnd(cond, w.ts.BOr(w.ts.BNot(inside), w.ts.BAnd(w.ts.FLt(fc(float64(k)), v), w.ts.FLt(v, fc(float64(k+1))))))
	}
	w.assume(cond)
	return v
}

func extOnceDo(w *World, c *frame, fn *ssa.Function, a []Value) Value {
	p := a[0].(Ptr)
	st := (*p).(Struct)
	// a per-engine marker is kept in the last field slot
	key := &st[0]
	if w.onceDone[key] {
		return nil
	}
	if !w.initing {
		w.undo = append(w.undo, undoEnt{f: func() { delete(w.onceDone, key) }})
	}
	w.onceDone[key] = true
	w.callValue(c, a[1], nil)
	return nil
}

func extErrorsIs(w *World, c *frame, fn *ssa.Function, a []Value) Value {
	err, target := a[0].(Iface), a[1].(Iface)
	if err.t == nil || target.t == nil {
		return w.equal(fn.Signature.Params().At(0).Type(), err, target)
	}
	is := w.eng.fnByName("errors", "is")
	return w.callFn(c, is, []Value{err, target, w.ts.B(types.Comparable(target.t))}, nil)
}

func extErrorsAs(w *World, c *frame, fn *ssa.Function, a []Value) Value {
	err, target := a[0].(Iface), a[1].(Iface)
	if target.t == nil {
		w.runtimePanic("errors: target cannot be nil")
	}
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		w.runtimePanic("errors: target must be a non-nil pointer")
	}
	et := pt.Elem()
	dst := target.v.(Ptr)
	var walk func(e Iface) bool
	walk = func(e Iface) bool {
		for e.t != nil {
			if it, ok := et.Underlying().(*types.Interface); ok {
				if w.implements(e.t, it) {
					w.store(dst, e)
					return true
				}
			} else if w.identical(e.t, et) {
				w.store(dst, e.v)
				return true
			}
			m := w.methodByName(e.t, nil, "Unwrap")
			if m == nil {
				return false
			}
			r := w.callFn(c, m, []Value{e.v}, nil)
			switch r := r.(type) {
			case Iface:
				e = r
			case Slice:
				for _, x := range r {
					if walk(x.(Iface)) {
						return true
					}
				}
				return false
			default:
				return false
			}
		}
		return false
	}
	return w.ts.B(walk(err))
}

// ---- fmt -------------------------------------------------------------------------------

func (w *World) bytesOf(s *Str) Slice {
	out := make(Slice, s.Len())
	for i := range out {
		out[i] = w.strByte(s, i)
	}
	return out
}

func extErrorf(w *World, c *frame, fn *ssa.Function, a []Value) Value {
	format := a[0].(*Str)
	args, _ := a[1].(Slice)
	fs := format.s
	if format.b != nil {
		fs = "<symbolic format>"
	}
	var wrapped []Value
	argi := 0
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			continue
		}
		i++
		for i < len(fs) && strings.IndexByte("+-# 0123456789.", fs[i]) >= 0 {
			i++
		}
		if i >= len(fs) {
			break
		}
		if fs[i] == '%' {
			continue
		}
		if fs[i] == 'w' && argi < len(args) {
			if e, ok := args[argi].(Iface); ok && e.t != nil {
				if m := w.methodByName(e.t, nil, "Error"); m != nil {
					wrapped = append(wrapped, e)
				}
			}
		}
		argi++
	}
	msg := w.sprintf(c, format, args, true)
	switch len(wrapped) {
	case 0:
		t := w.eng.typeByName("fmt", "fmtError")
		if t == nil {
			return w.mkErrPtr("errors", "errorString", msg)
		}
		return w.mkErrPtr("errors", "errorString", msg)
	case 1:
		return w.mkErrPtr("fmt", "wrapError", msg, wrapped[0])
	}
	return w.mkErrPtr("fmt", "wrapErrors", msg, Slice(wrapped))
}

func (w *World) mkErrPtr(pkg, typ string, fields ...Value) Value {
	k := pkg + "." + typ
	pt, ok := w.errTypes[k]
	if !ok {
		t := w.eng.typeByName(pkg, typ)
		if t == nil {
			panic(unsupported("type " + k + " not loaded"))
		}
		pt = types.NewPointer(t)
		w.errTypes[k] = pt
	}
	p := new(Value)
	*p = Struct(fields)
	return Iface{pt, p}
}

func extSprint(suffix string) extFn {
	return func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
		r := emptyStr
		args, _ := a[0].(Slice)
		for i, x := range args {
			if i > 0 && suffix != "" {
				r = w.strConcat(r, mkStr(" "))
			}
			r = w.strConcat(r, w.fmtValue(c, 'v', x.(Iface), false))
		}
		return w.strConcat(r, mkStr(suffix))
	}
}

// sprintf formats concretely where it can; with lax set, symbolic operands become a placeholder
// (only used for error messages, whose text is never compared).
func (w *World) sprintf(c *frame, format *Str, args Slice, lax bool) *Str {
	if format.b != nil {
		if lax {
			return mkStr("<symbolic format>")
		}
		panic(unsupported("symbolic format string"))
	}
	fs := format.s
	out := emptyStr
	lit := strings.Builder{}
	flush := func() {
		if lit.Len() > 0 {
			out = w.strConcat(out, mkStr(lit.String()))
			lit.Reset()
		}
	}
	argi := 0
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			lit.WriteByte(fs[i])
			continue
		}
		j := i
		i++
		for i < len(fs) && strings.IndexByte("+-# 0123456789.", fs[i]) >= 0 {
			i++
		}
		if i >= len(fs) {
			lit.WriteString("%!(NOVERB)")
			break
		}
		verb := fs[i]
		if verb == '%' {
			lit.WriteByte('%')
			continue
		}
		if argi >= len(args) {
			lit.WriteString("%!" + string(verb) + "(MISSING)")
			continue
		}
		flush()
		arg, _ := args[argi].(Iface)
		argi++
		spec := fs[j:i]
		s := w.fmtSpec(c, spec, verb, arg, lax)
		out = w.strConcat(out, s)
	}
	flush()
	return out
}

func (w *World) fmtSpec(c *frame, spec string, verb byte, arg Iface, lax bool) *Str {
	if spec != "%" {
		// widths and flags: only concrete numbers and strings
		if t, ok := arg.v.(*Term); ok && t.IsConst() && t.w > 0 {
			if isFloat(arg.t) {
				return mkStr(fmt.Sprintf(spec+string(verb), fconst(t)))
			}
			if isSigned(arg.t) {
				return mkStr(fmt.Sprintf(spec+string(verb), t.S()))
			}
			return mkStr(fmt.Sprintf(spec+string(verb), t.val))
		}
		if s, ok := arg.v.(*Str); ok && s.b == nil {
			return mkStr(fmt.Sprintf(spec+string(verb), s.s))
		}
		if !lax {
			panic(unsupported("formatted print of a symbolic value"))
		}
		return mkStr("<?>")
	}
	return w.fmtValue(c, verb, arg, lax)
}

func (w *World) fmtValue(c *frame, verb byte, arg Iface, lax bool) *Str {
	if verb == 'T' {
		if arg.t == nil {
			return mkStr("<nil>")
		}
		return mkStr(types.TypeString(arg.t, func(p *types.Package) string { return p.Name() }))
	}
	if arg.t == nil {
		return mkStr("<nil>")
	}
	if lax {
		// message text is opaque; avoid running user code on it
		switch v := arg.v.(type) {
		case *Str:
			return v
		case *Term:
			if !v.IsConst() {
				return mkStr("<sym>")
			}
		default:
			return mkStr("<val>")
		}
	}
	if !scalarType(arg.t) || hasMethods(arg.t) {
		if m := w.methodByName(arg.t, nil, "Error"); m != nil && verb != 'd' {
			return w.callFn(c, m, []Value{arg.v}, nil).(*Str)
		}
		if m := w.methodByName(arg.t, nil, "String"); m != nil && verb != 'd' {
			return w.callFn(c, m, []Value{arg.v}, nil).(*Str)
		}
	}
	switch v := arg.v.(type) {
	case *Str:
		if verb == 'q' {
			if v.b != nil {
				panic(unsupported("%q of symbolic string"))
			}
			return mkStr(strconv.Quote(v.s))
		}
		return v
	case *Term:
		if !v.IsConst() {
			if verb == 'c' {
				return w.runeStr(w.ts.Zext(v, 32))
			}
			n := w.concretize(v)
			v = w.ts.C(v.w, n)
		}
		if v.w == 0 {
			return mkStr(fmt.Sprint(v.val == 1))
		}
		if isFloat(arg.t) {
			if v.w == 32 {
				return mkStr(fmt.Sprintf("%"+string(verb), math.Float32frombits(uint32(v.val))))
			}
			return mkStr(fmt.Sprintf("%"+string(verb), fconst(v)))
		}
		if isSigned(arg.t) {
			return mkStr(fmt.Sprintf("%"+string(verb), v.S()))
		}
		return mkStr(fmt.Sprintf("%"+string(verb), v.val))
	}
	if lax {
		return mkStr("<val>")
	}
	panic(unsupported(fmt.Sprintf("formatting %s", arg.t)))
}

func hasMethods(t types.Type) bool {
	_, ok := t.(*types.Named)
	return ok
}

func (w *World) panicText(v Value) string {
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		return fmt.Sprintf("%v", v)
	}
	if s, ok := i.v.(*Str); ok && s.b == nil {
		return s.s
	}
	if p, ok := i.v.(Ptr); ok && p != nil {
		if st, ok := (*p).(Struct); ok && len(st) > 0 {
			if s, ok := st[0].(*Str); ok && s.b == nil {
				return s.s
			}
		}
	}
	return i.t.String()
}

// ---- strconv, unicode, sort ------------------------------------------------------------------

func extParseFloat(w *World, c *frame, fn *ssa.Function, a []Value) Value {
	s := a[0].(*Str)
	bs := a[1].(*Term)
	if s.b != nil || !bs.IsConst() {
		return useSource
	}
	f, err := strconv.ParseFloat(s.s, int(bs.val))
	var e Value = Iface{}
	if err != nil {
		ne := err.(*strconv.NumError)
		g := "ErrSyntax"
		if ne.Err == strconv.ErrRange {
			g = "ErrRange"
		}
		gl := w.eng.byName["strconv"].Var(g)
		inner := *w.global(gl)
		e = w.mkErrPtr("strconv", "NumError", mkStr("ParseFloat"), s, inner)
	}
	return Tuple{w.ts.C(64, math.Float64bits(f)), e}
}

// extUnicodeIs turns a range table lookup into one disjunction.
func extUnicodeIs(w *World, c *frame, fn *ssa.Function, a []Value) Value {
	tab := a[0].(Ptr)
	r := a[1].(*Term)
	if r.IsConst() {
		// evaluate below with constants folds to a constant
	}
	st := (*tab).(Struct)
	res := w.ts.F
	rng := func(lo, hi, stride *Term) {
		l, h, s := w.ts.Zext(lo, 32), w.ts.Zext(hi, 32), stride.val
		cnd := w.ts.BAnd(w.ts.Cmp(OpUle, l, r), w.ts.Cmp(OpUle, r, h))
		if s > 1 {
			d := w.ts.Bin(OpSub, r, l)
			cnd = w.ts.BAnd(cnd, w.ts.Eq(w.ts.Bin(OpURem, d, w.ts.C(32, s)), w.ts.C(32, 0)))
		}
		res = w.ts.BOr(res, cnd)
	}
	for _, e := range st[0].(Slice) {
		x := e.(Struct)
		rng(x[0].(*Term), x[1].(*Term), x[2].(*Term))
	}
	for _, e := range st[1].(Slice) {
		x := e.(Struct)
		rng(x[0].(*Term), x[1].(*Term), x[2].(*Term))
	}
	return res
}

func extSortSlice(w *World, c *frame, fn *ssa.Function, a []Value) Value {
	s := a[0].(Iface).v.(Slice)
	less := a[1]
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			r := w.callValue(c, less, []Value{w.n64(j), w.n64(j - 1)}).(*Term)
			if !w.branch(r) {
				break
			}
			x, y := copyVal(s[j]), copyVal(s[j-1])
			w.store(&s[j], y)
			w.store(&s[j-1], x)
		}
	}
	return nil
}

// deepEqual compares two interface values like reflect.DeepEqual (acyclic data).
func (w *World) deepEqual(x, y Value, depth int) *Term {
	if depth > 60 {
		panic(unsupported("DeepEqual recursion"))
	}
	a, b := x.(Iface), y.(Iface)
	if a.t == nil || b.t == nil {
		return w.ts.B(a.t == nil && b.t == nil)
	}
	if !w.identical(a.t, b.t) {
		return w.ts.F
	}
	return w.deepEq(a.t, a.v, b.v, depth+1)
}

func (w *World) deepEq(t types.Type, x, y Value, d int) *Term {
	if d > 60 {
		panic(unsupported("DeepEqual recursion"))
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p, q := x.(Ptr), y.(Ptr)
		if p == q {
			return w.ts.T
		}
		if p == nil || q == nil {
			return w.ts.F
		}
		return w.deepEq(u.Elem(), *p, *q, d+1)
	case *types.Slice:
		a, b := x.(Slice), y.(Slice)
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return w.ts.F
		}
		r := w.ts.T
		for i := range a {
			r = w.ts.BAnd(r, w.deepEq(u.Elem(), a[i], b[i], d+1))
		}
		return r
	case *types.Array:
		a, b := x.(Array), y.(Array)
		r := w.ts.T
		for i := range a {
			r = w.ts.BAnd(r, w.deepEq(u.Elem(), a[i], b[i], d+1))
		}
		return r
	case *types.Struct:
		a, b := x.(Struct), y.(Struct)
		r := w.ts.T
		for i := range a {
			r = w.ts.BAnd(r, w.deepEq(u.Field(i).Type(), a[i], b[i], d+1))
		}
		return r
	case *types.Interface:
		return w.deepEqual(x, y, d+1)
	case *types.Map:
		a, _ := x.(*Map)
		b, _ := y.(*Map)
		if (a == nil) != (b == nil) {
			return w.ts.F
		}
		if a == nil {
			return w.ts.T
		}
		if a.n != b.n {
			return w.ts.F
		}
		r := w.ts.T
		for i := range a.keys {
			if a.dead[i] {
				continue
			}
			j := w.mapFind(b, a.keys[i])
			if j < 0 {
				return w.ts.F
			}
			r = w.ts.BAnd(r, w.deepEq(u.Elem(), a.vals[i], b.vals[j], d+1))
		}
		return r
	case *types.Signature:
		return w.ts.B(isNilFunc(x) && isNilFunc(y))
	}
	return w.equal(t, x, y)
}

// ---- vx: the harness interface --------------------------------------------------------------------

var vxFns map[string]extFn

func vxVar(width uint8) extFn {
	return func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
		return w.input(a[0].(*Str).s, width)
	}
}

func (w *World) input(name string, width uint8) *Term {
	v := w.freshVar(name, width)
	w.p.inputs = append(w.p.inputs, inputVar{name, v})
	return v
}

func init() {
	vxFns = map[string]extFn{
		"U8": vxVar(8), "U16": vxVar(16), "U32": vxVar(32), "U64": vxVar(64), "Bool": vxVar(0),
		"Choice": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			n := a[1].(*Term)
			v := w.input(a[0].(*Str).s, 16)
			if n.IsConst() && n.val > 0 && w.sub == nil {
				return w.ts.C(64, w.choose(v, n.val))
			}
			w.assume(w.ts.Cmp(OpUlt, v, w.ts.Extract(n, 0, 16)))
			k := w.concretize(v)
			return w.ts.C(64, k)
		},
		// Pick is a bounded number that stays symbolic.
		"Pick": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			n := a[1].(*Term)
			v := w.input(a[0].(*Str).s, 16)
			w.assume(w.ts.Cmp(OpUlt, v, w.ts.Extract(n, 0, 16)))
			return w.ts.Zext(v, 64)
		},
		"Concrete": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			return w.ts.C(64, w.concretize(a[0].(*Term)))
		},
		"Bytes": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			n := int(w.concretize(a[1].(*Term)))
			s := make(Slice, n)
			for i := range s {
				s[i] = w.input(a[0].(*Str).s, 8)
			}
			return s
		},
		"Str": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			n := int(w.concretize(a[1].(*Term)))
			s := make([]*Term, n)
			for i := range s {
				s[i] = w.input(a[0].(*Str).s, 8)
			}
			return w.strFromTerms(s)
		},
		"Assume": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			w.assume(a[0].(*Term))
			return nil
		},
		"Assert": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			w.assert(a[0].(*Term), "assert", a[1].(*Str).s)
			return nil
		},
		"Fail": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			w.fail("assert", a[0].(*Str).s)
			return nil
		},
		"Stop": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			w.endPath("done", "")
			return nil
		},
		"Cover": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			w.p.covers[a[0].(*Str).s] = true
			return nil
		},
		"Observe": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			w.p.obs = append(w.p.obs, observation{a[0].(*Str).s, a[1]})
			return nil
		},
		"ObserveStr": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			w.p.obs = append(w.p.obs, observation{a[0].(*Str).s, a[1]})
			return nil
		},
		"AllocLimit": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			w.p.allocLimit = w.concretize(a[0].(*Term))
			return nil
		},
		"MapOrder": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			w.p.mapOrder = true
			return nil
		},
		"Thorough": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			return w.ts.B(w.eng.tier == "thorough")
		},
		"Symbolic": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			return w.ts.T
		},
		"PanicText": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			return mkStr(w.panicText(a[0]))
		},
		// Or, And, Not, Implies build one condition without forking.
		"And": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			r := w.ts.T
			for _, x := range a[0].(Slice) {
				r = w.ts.BAnd(r, x.(*Term))
			}
			return r
		},
		"Or": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			r := w.ts.F
			for _, x := range a[0].(Slice) {
				r = w.ts.BOr(r, x.(*Term))
			}
			return r
		},
		"DeepEqual": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			return w.deepEqual(a[0], a[1], 0)
		},
		"Ite64": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			return w.ts.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
		},
		"IteStr": func(w *World, c *frame, fn *ssa.Function, a []Value) Value {
			v, ok := w.mergeVal(a[0].(*Term), a[1], a[2])
			if !ok {
				if w.branch(a[0].(*Term)) {
					return a[1]
				}
				return a[2]
			}
			return v
		},
	}
}

func (w *World) render(v Value, m Model) string {
	switch v := v.(type) {
	case *Term:
		return strconv.FormatUint(w.ts.Eval(v, m), 10)
	case *Str:
		b := make([]byte, v.Len())
		for i := range b {
			b[i] = byte(w.ts.Eval(w.strByte(v, i), m))
		}
		return strconv.Quote(string(b))
	}
	return fmt.Sprintf("%T", v)
}
