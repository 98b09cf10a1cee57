package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a run-time value of the interpreted program:
//
//	*Term   bool, integers, floats (as bit patterns), uintptr
//	*Str    string
//	*Value  pointer (nil pointer is (*Value)(nil))
//	Struct, Array  aggregates (copied on load and store)
//	Slice   slice; shares the backing array like a Go slice
//	Iface   interface value
//	*Map, *Closure, *ssa.Function, *ssa.Builtin, Tuple, *Iter
type Value interface{}

type Ptr = *Value
type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value

// Iface is an interface value; t==nil is the nil interface.
type Iface struct {
	t types.Type
	v Value
}

// Closure is a function value with captured variables.
type Closure struct {
	fn  *ssa.Function
	env []Value
}

// NativeFn is a function value implemented by the engine.
type NativeFn struct {
	name string
	f    func(w *World, fr *frame, args []Value) Value
}

// Str is an immutable string of concrete length; b is non-nil if any byte may be symbolic.
type Str struct {
	s string
	b []*Term
}

func (s *Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

var emptyStr = &Str{}

func mkStr(s string) *Str { return &Str{s: s} }

func (w *World) strByte(s *Str, i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return w.ts.C(8, uint64(s.s[i]))
}

func (w *World) strFromTerms(b []*Term) *Str {
	if len(b) == 0 {
		return emptyStr
	}
	for _, t := range b {
		if !t.IsConst() {
			return &Str{b: b}
		}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.val)
	}
	return &Str{s: string(bs)}
}

func (w *World) strTerms(s *Str) []*Term {
	if s.b != nil {
		return s.b
	}
	out := make([]*Term, len(s.s))
	for i := range out {
		out[i] = w.ts.C(8, uint64(s.s[i]))
	}
	return out
}

func (w *World) strSlice(s *Str, lo, hi int) *Str {
	if s.b != nil {
		return w.strFromTerms(s.b[lo:hi])
	}
	return &Str{s: s.s[lo:hi]}
}

func (w *World) strConcat(a, b *Str) *Str {
	if a.b == nil && b.b == nil {
		return &Str{s: a.s + b.s}
	}
	x := w.strTerms(a)
	out := make([]*Term, 0, len(x)+b.Len())
	out = append(out, x...)
	out = append(out, w.strTerms(b)...)
	return w.strFromTerms(out)
}

func (w *World) strEq(a, b *Str) *Term {
	if a.Len() != b.Len() {
		return w.ts.F
	}
	if a.b == nil && b.b == nil {
		return w.ts.B(a.s == b.s)
	}
	r := w.ts.T
	for i := 0; i < a.Len(); i++ {
		r = w.ts.BAnd(r, w.ts.Eq(w.strByte(a, i), w.strByte(b, i)))
		if r.IsFalse() {
			return r
		}
	}
	return r
}

func (w *World) strLess(a, b *Str) *Term {
	if a.b == nil && b.b == nil {
		return w.ts.B(a.s < b.s)
	}
	n := min(a.Len(), b.Len())
	r := w.ts.B(a.Len() < b.Len())
	for i := n - 1; i >= 0; i-- {
		x, y := w.strByte(a, i), w.strByte(b, i)
		r = w.ts.Ite(w.ts.Eq(x, y), r, w.ts.Cmp(OpUlt, x, y))
	}
	return r
}

// Map keeps entries in insertion order.
type Map struct {
	kt, vt types.Type
	keys   []Value
	vals   []Value
	dead   []bool
	n      int
	idx    map[string]int // concrete key -> position
	symKey bool           // some key is symbolic
}

// Iter is a range iterator.
type Iter struct {
	m    *Map
	keys []Value
	pos  int
	str  *Str
}

func (w *World) zero(t types.Type) Value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.UnsafePointer:
			return Ptr(nil)
		case t.Info()&types.IsString != 0:
			return emptyStr
		case t.Info()&types.IsBoolean != 0:
			return w.ts.F
		case t.Kind() == types.UntypedNil:
			return Iface{}
		case t.Info()&types.IsComplex != 0:
			panic(unsupported("complex numbers"))
		default:
			return w.ts.C(w.width(t), 0)
		}
	case *types.Pointer:
		return Ptr(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Array:
		n := int(t.Len())
		a := make(Array, n)
		if n > 0 {
			if isAgg(t.Elem()) {
				for i := range a {
					a[i] = w.zero(t.Elem())
				}
			} else {
				z := w.zero(t.Elem())
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = w.zero(t.Field(i).Type())
		}
		return s
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return (*Map)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return Ptr(nil)
	case *types.Tuple:
		if t.Len() == 1 {
			return w.zero(t.At(0).Type())
		}
		tp := make(Tuple, t.Len())
		for i := range tp {
			tp[i] = w.zero(t.At(i).Type())
		}
		return tp
	case *types.TypeParam:
		panic(unsupported("zero of type parameter"))
	}
	panic(unsupported(fmt.Sprintf("zero of %s", t)))
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (w *World) width(b *types.Basic) uint8 {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.Float64, types.UntypedInt, types.UntypedFloat:
		return 64
	}
	panic(unsupported("width of " + b.String()))
}

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func isSigned(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func isFloat(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsFloat != 0
}

// copyVal copies aggregates deeply.
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		o := make(Struct, len(v))
		for i, e := range v {
			o[i] = copyVal(e)
		}
		return o
	case Array:
		o := make(Array, len(v))
		if len(v) > 0 {
			switch v[0].(type) {
			case Struct, Array:
				for i, e := range v {
					o[i] = copyVal(e)
				}
			default:
				copy(o, v)
			}
		}
		return o
	}
	return v
}

type undoEnt struct {
	p   Ptr
	old Value
	f   func()
}

// store writes v (copied) to *p, keeping the addresses of nested parts valid.
func (w *World) store(p Ptr, v Value) {
	switch nv := v.(type) {
	case Struct:
		if old, ok := (*p).(Struct); ok && len(old) == len(nv) {
			for i := range nv {
				w.store(&old[i], nv[i])
			}
			return
		}
		v = copyVal(v)
	case Array:
		if old, ok := (*p).(Array); ok && len(old) == len(nv) {
			for i := range nv {
				w.store(&old[i], nv[i])
			}
			return
		}
		v = copyVal(v)
	}
	w.set(p, v)
}

func (w *World) set(p Ptr, v Value) {
	if !w.initing {
		w.undo = append(w.undo, undoEnt{p: p, old: *p})
	}
	*p = v
}

func (w *World) rollback(n int) {
	for i := len(w.undo) - 1; i >= n; i-- {
		u := w.undo[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
		w.undo[i] = undoEnt{}
	}
	w.undo = w.undo[:n]
}

// ---- equality -----------------------------------------------------------------

func (w *World) equal(t types.Type, x, y Value) *Term {
	switch x := x.(type) {
	case *Term:
		if isFloat(t) {
			return w.ts.FEq(x, y.(*Term))
		}
		return w.ts.Eq(x, y.(*Term))
	case *Str:
		return w.strEq(x, y.(*Str))
	case Ptr:
		return w.ts.B(x == y.(Ptr))
	case Iface:
		yi, ok := y.(Iface)
		if !ok {
			panic(unsupported("iface compare"))
		}
		if x.t == nil || yi.t == nil {
			return w.ts.B(x.t == nil && yi.t == nil)
		}
		if !w.identical(x.t, yi.t) {
			return w.ts.F
		}
		if !types.Comparable(x.t) {
			w.runtimePanic("comparing uncomparable type " + x.t.String())
		}
		return w.equal(x.t, x.v, yi.v)
	case Struct:
		st := t.Underlying().(*types.Struct)
		r := w.ts.T
		ys := y.(Struct)
		for i := range x {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = w.ts.BAnd(r, w.equal(st.Field(i).Type(), x[i], ys[i]))
		}
		return r
	case Array:
		at := t.Underlying().(*types.Array)
		r := w.ts.T
		ya := y.(Array)
		for i := range x {
			r = w.ts.BAnd(r, w.equal(at.Elem(), x[i], ya[i]))
		}
		return r
	case *Map:
		ym, _ := y.(*Map)
		return w.ts.B(x == ym)
	case Slice:
		ys, _ := y.(Slice)
		if x == nil || ys == nil {
			return w.ts.B(x == nil && ys == nil)
		}
		panic(unsupported("slice compare"))
	case *Closure:
		yc, _ := y.(*Closure)
		if y == nil || isNilFunc(y) {
			return w.ts.B(x == nil)
		}
		return w.ts.B(x == yc)
	case *ssa.Function:
		return w.ts.B(x == nil && isNilFunc(y))
	case *NativeFn:
		return w.ts.B(x == nil && isNilFunc(y))
	case nil:
		return w.ts.B(y == nil || isNilFunc(y))
	}
	panic(unsupported(fmt.Sprintf("equal on %T", x)))
}

func isNilFunc(v Value) bool {
	switch v := v.(type) {
	case *Closure:
		return v == nil
	case *ssa.Function:
		return v == nil
	case *NativeFn:
		return v == nil
	case nil:
		return true
	}
	return false
}

func (w *World) identical(a, b types.Type) bool {
	if a == b {
		return true
	}
	k := [2]types.Type{a, b}
	if r, ok := w.identCache[k]; ok {
		return r
	}
	r := types.Identical(a, b)
	w.identCache[k] = r
	return r
}

// ---- map ------------------------------------------------------------------------

// keyString gives a canonical string for a fully concrete key; ok=false if symbolic.
func (w *World) keyString(v Value, sb *strings.Builder) bool {
	switch v := v.(type) {
	case *Term:
		if !v.IsConst() {
			return false
		}
		fmt.Fprintf(sb, "%d:%d,", v.w, v.val)
	case *Str:
		if v.b != nil {
			return false
		}
		fmt.Fprintf(sb, "%q,", v.s)
	case Ptr:
		fmt.Fprintf(sb, "%p,", v)
	case Iface:
		if v.t == nil {
			sb.WriteString("nil,")
			return true
		}
		fmt.Fprintf(sb, "i%s{", v.t.String())
		return w.keyString(v.v, sb)
	case Struct:
		for _, e := range v {
			if !w.keyString(e, sb) {
				return false
			}
		}
		sb.WriteByte(';')
	case Array:
		for _, e := range v {
			if !w.keyString(e, sb) {
				return false
			}
		}
		sb.WriteByte(';')
	default:
		panic(unsupported(fmt.Sprintf("map key %T", v)))
	}
	return true
}

func (w *World) newMap(t *types.Map) *Map {
	return &Map{kt: t.Key(), vt: t.Elem(), idx: map[string]int{}}
}

// mapFind locates key, forking on symbolic comparisons; -1 if absent.
func (w *World) mapFind(m *Map, key Value) int {
	if m == nil {
		return -1
	}
	var sb strings.Builder
	conc := w.keyString(key, &sb)
	if conc && !m.symKey {
		if i, ok := m.idx[sb.String()]; ok {
			return i
		}
		return -1
	}
	for i := range m.keys {
		if m.dead[i] {
			continue
		}
		c := w.equal(m.kt, m.keys[i], key)
		if w.branch(c) {
			return i
		}
	}
	return -1
}

// mapLookup returns value (copied) and presence; merges without forking where it can.
func (w *World) mapLookup(m *Map, key Value) (Value, *Term) {
	if m == nil {
		return nil, w.ts.F
	}
	var sb strings.Builder
	conc := w.keyString(key, &sb)
	if conc && !m.symKey {
		if i, ok := m.idx[sb.String()]; ok {
			return copyVal(m.vals[i]), w.ts.T
		}
		return w.zero(m.vt), w.ts.F
	}
	present := w.ts.F
	res := w.zero(m.vt)
	for i := len(m.keys) - 1; i >= 0; i-- {
		if m.dead[i] {
			continue
		}
		c := w.equal(m.kt, m.keys[i], key)
		if c.IsFalse() {
			continue
		}
		r, ok := w.mergeVal(c, m.vals[i], res)
		if !ok {
			j := w.mapFind(m, key)
			if j < 0 {
				return w.zero(m.vt), w.ts.F
			}
			return copyVal(m.vals[j]), w.ts.T
		}
		res = r
		present = w.ts.BOr(present, c)
	}
	return copyVal(res), present
}

func (w *World) mapUpdate(m *Map, key, val Value) {
	if m == nil {
		w.runtimePanic("assignment to entry in nil map")
	}
	i := w.mapFind(m, key)
	val = copyVal(val)
	if i >= 0 {
		w.set(&m.vals[i], val)
		return
	}
	var sb strings.Builder
	conc := w.keyString(key, &sb)
	ks := sb.String()
	pos := len(m.keys)
	oldSym := m.symKey
	ok0, ov0, od0 := m.keys, m.vals, m.dead
	m.keys = append(m.keys, copyVal(key))
	m.vals = append(m.vals, val)
	m.dead = append(m.dead, false)
	m.n++
	if conc {
		m.idx[ks] = pos
	} else {
		m.symKey = true
	}
	if !w.initing {
		w.undo = append(w.undo, undoEnt{f: func() {
			m.keys, m.vals, m.dead = ok0, ov0, od0
			m.n--
			m.symKey = oldSym
			if conc {
				delete(m.idx, ks)
			}
		}})
	}
}

func (w *World) mapDelete(m *Map, key Value) {
	if m == nil {
		return
	}
	i := w.mapFind(m, key)
	if i < 0 {
		return
	}
	var sb strings.Builder
	conc := w.keyString(m.keys[i], &sb)
	ks := sb.String()
	m.dead[i] = true
	m.n--
	if conc {
		delete(m.idx, ks)
	}
	if !w.initing {
		w.undo = append(w.undo, undoEnt{f: func() {
			m.dead[i] = false
			m.n++
			if conc {
				m.idx[ks] = i
			}
		}})
	}
}

// mergeVal builds ite(c,a,b) for values of equal shape.
func (w *World) mergeVal(c *Term, a, b Value) (Value, bool) {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || y.w != x.w {
			return nil, false
		}
		return w.ts.Ite(c, x, y), true
	case *Str:
		y, ok := b.(*Str)
		if !ok || x.Len() != y.Len() {
			return nil, false
		}
		if x == y || (x.b == nil && y.b == nil && x.s == y.s) {
			return x, true
		}
		out := make([]*Term, x.Len())
		for i := range out {
			out[i] = w.ts.Ite(c, w.strByte(x, i), w.strByte(y, i))
		}
		return w.strFromTerms(out), true
	case Ptr:
		y, ok := b.(Ptr)
		if ok && x == y {
			return x, true
		}
		return nil, false
	case Struct:
		y, ok := b.(Struct)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		o := make(Struct, len(x))
		for i := range x {
			v, ok := w.mergeVal(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			o[i] = v
		}
		return o, true
	case Array:
		y, ok := b.(Array)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		o := make(Array, len(x))
		for i := range x {
			v, ok := w.mergeVal(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			o[i] = v
		}
		return o, true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		o := make(Tuple, len(x))
		for i := range x {
			v, ok := w.mergeVal(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			o[i] = v
		}
		return o, true
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return nil, false
		}
		if x.t == nil && y.t == nil {
			return x, true
		}
		if x.t == nil || y.t == nil || !w.identical(x.t, y.t) {
			return nil, false
		}
		v, ok := w.mergeVal(c, x.v, y.v)
		if !ok {
			return nil, false
		}
		return Iface{x.t, v}, true
	case Slice:
		y, ok := b.(Slice)
		if !ok || len(x) != len(y) || cap(x) != cap(y) {
			return nil, false
		}
		if cap(x) == 0 {
			if (x == nil) == (y == nil) {
				return x, true
			}
			return nil, false
		}
		if &x[:1][0] == &y[:1][0] {
			return x, true
		}
		return nil, false
	case *Map:
		y, ok := b.(*Map)
		return x, ok && x == y
	case *Closure:
		y, ok := b.(*Closure)
		return x, ok && x == y
	case *ssa.Function:
		y, ok := b.(*ssa.Function)
		return x, ok && x == y
	case nil:
		return nil, b == nil
	}
	return nil, false
}
