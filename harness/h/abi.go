package h

import (
	"bytes"
	"fmt"
	"math"
	"strconv"

	"github.com/patrickhuber/go-wasm/abi/kind"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/encoding"
	"github.com/patrickhuber/go-wasm/zz_verif/vx"
)

// ---- a reference description of component types -----------------------------------------

const (
	kBool = iota
	kU8
	kS8
	kU16
	kS16
	kU32
	kS32
	kU64
	kS64
	kF32
	kF64
	kChar
	kString
	kList
	kRecord
	kTuple
	kVariant
	kUnion
	kEnum
	kOption
	kResult
	kFlags
)

type ty struct {
	k   int
	sub []*ty // nil entry: case without payload
	n   int   // labels of an enum or flags
	v   types.ValType
}

func leaf(k int) *ty {
	t := &ty{k: k}
	switch k {
	case kBool:
		t.v = types.NewBool()
	case kU8:
		t.v = types.NewU8()
	case kS8:
		t.v = types.NewS8()
	case kU16:
		t.v = types.NewU16()
	case kS16:
		t.v = types.NewS16()
	case kU32:
		t.v = types.NewU32()
	case kS32:
		t.v = types.NewS32()
	case kU64:
		t.v = types.NewU64()
	case kS64:
		t.v = types.NewS64()
	case kF32:
		t.v = types.NewF32()
	case kF64:
		t.v = types.NewF64()
	case kChar:
		t.v = types.NewChar()
	case kString:
		t.v = types.NewString()
	}
	return t
}

func label(p string, i int) string { return p + strconv.Itoa(i) }

func record(sub ...*ty) *ty {
	var fs []types.Field
	for i, s := range sub {
		fs = append(fs, types.Field{Label: label("f", i), Type: s.v})
	}
	return &ty{k: kRecord, sub: sub, v: types.NewRecord(fs...)}
}

func subTypes(sub []*ty) []types.ValType {
	var ts []types.ValType
	for _, s := range sub {
		ts = append(ts, s.v)
	}
	return ts
}

func tuple(sub ...*ty) *ty {
	return &ty{k: kTuple, sub: sub, v: types.NewTuple(subTypes(sub)...)}
}

func union(sub ...*ty) *ty {
	return &ty{k: kUnion, sub: sub, v: types.NewUnion(subTypes(sub)...)}
}

func variant(sub ...*ty) *ty {
	var cs []types.Case
	for i, s := range sub {
		c := types.Case{Label: label("c", i)}
		if s != nil {
			c.Type = s.v
		}
		cs = append(cs, c)
	}
	return &ty{k: kVariant, sub: sub, v: types.NewVariant(cs...)}
}

func enum(n int) *ty {
	var ls []string
	sub := make([]*ty, n)
	for i := 0; i < n; i++ {
		ls = append(ls, label("c", i))
	}
	return &ty{k: kEnum, n: n, sub: sub, v: types.NewEnum(ls...)}
}

func option(s *ty) *ty {
	return &ty{k: kOption, sub: []*ty{nil, s}, v: types.NewOption(s.v)}
}

func result(ok, er *ty) *ty {
	var a, b types.ValType
	if ok != nil {
		a = ok.v
	}
	if er != nil {
		b = er.v
	}
	return &ty{k: kResult, sub: []*ty{ok, er}, v: types.NewResult(a, b)}
}

func list(s *ty) *ty {
	return &ty{k: kList, sub: []*ty{s}, v: types.NewList(s.v)}
}

func flags(n int) *ty {
	var ls []string
	for i := 0; i < n; i++ {
		ls = append(ls, label("b", i))
	}
	return &ty{k: kFlags, n: n, v: types.NewFlags(ls...)}
}

func (t *ty) caseLabel(i int) string {
	switch t.k {
	case kUnion:
		return strconv.Itoa(i)
	case kOption:
		if i == 0 {
			return "none"
		}
		return "some"
	case kResult:
		if i == 0 {
			return "ok"
		}
		return "error"
	}
	return label("c", i)
}

func (t *ty) fieldLabel(i int) string {
	if t.k == kTuple {
		return strconv.Itoa(i)
	}
	return label("f", i)
}

func (t *ty) isVariant() bool { return t.k >= kVariant && t.k <= kResult }

// ---- reference layout of the canonical ABI -------------------------------------------------

func alignUp(p, a uint32) uint32 { return (p + a - 1) / a * a }

func (t *ty) discSize() uint32 {
	n := len(t.sub)
	if n <= 256 {
		return 1
	}
	if n <= 65536 {
		return 2
	}
	return 4
}

func (t *ty) payloadAlign() uint32 {
	a := uint32(1)
	for _, s := range t.sub {
		if s != nil && s.align() > a {
			a = s.align()
		}
	}
	return a
}

func (t *ty) align() uint32 {
	switch t.k {
	case kBool, kU8, kS8:
		return 1
	case kU16, kS16:
		return 2
	case kU64, kS64, kF64:
		return 8
	case kRecord, kTuple:
		return t.payloadAlign()
	case kFlags:
		if t.n <= 8 {
			return 1
		}
		if t.n <= 16 {
			return 2
		}
		return 4
	}
	if t.isVariant() {
		a := t.payloadAlign()
		if t.discSize() > a {
			a = t.discSize()
		}
		return a
	}
	return 4
}

func (t *ty) size() uint32 {
	switch t.k {
	case kBool, kU8, kS8:
		return 1
	case kU16, kS16:
		return 2
	case kU64, kS64, kF64, kString, kList:
		return 8
	case kRecord, kTuple:
		s := uint32(0)
		for _, f := range t.sub {
			s = alignUp(s, f.align()) + f.size()
		}
		return alignUp(s, t.align())
	case kFlags:
		switch {
		case t.n == 0:
			return 0
		case t.n <= 8:
			return 1
		case t.n <= 16:
			return 2
		}
		return 4 * uint32((t.n+31)/32)
	}
	if t.isVariant() {
		m := uint32(0)
		for _, c := range t.sub {
			if c != nil && c.size() > m {
				m = c.size()
			}
		}
		return alignUp(alignUp(t.discSize(), t.payloadAlign())+m, t.align())
	}
	return 4
}

// least is the number of bytes that some value needs: a case without payload needs only the
// discriminant, and nothing needs the padding at the end.
func (t *ty) least() uint32 {
	switch {
	case t.isVariant():
		return t.discSize()
	case t.k == kRecord || t.k == kTuple:
		s, need := uint32(0), uint32(0)
		for _, f := range t.sub {
			s = alignUp(s, f.align())
			need = s + f.least()
			s += f.size()
		}
		return need
	}
	return t.size()
}

func (t *ty) flat() []kind.Kind {
	switch t.k {
	case kU64, kS64:
		return []kind.Kind{kind.U64}
	case kF32:
		return []kind.Kind{kind.Float32}
	case kF64:
		return []kind.Kind{kind.Float64}
	case kString, kList:
		return []kind.Kind{kind.U32, kind.U32}
	case kRecord, kTuple:
		var r []kind.Kind
		for _, s := range t.sub {
			r = append(r, s.flat()...)
		}
		return r
	case kFlags:
		var r []kind.Kind
		for i := 0; i < (t.n+31)/32; i++ {
			r = append(r, kind.U32)
		}
		return r
	}
	if t.isVariant() {
		r := []kind.Kind{kind.U32}
		for _, c := range t.sub {
			if c == nil {
				continue
			}
			for i, f := range c.flat() {
				if i+1 < len(r) {
					if r[i+1] != f {
						if r[i+1] == kind.U32 && f == kind.Float32 || r[i+1] == kind.Float32 && f == kind.U32 {
							r[i+1] = kind.U32
						} else {
							r[i+1] = kind.U64
						}
					}
				} else {
					r = append(r, f)
				}
			}
		}
		return r
	}
	return []kind.Kind{kind.U32}
}

// ---- symbolic values --------------------------------------------------------------------------

const maxList = 2

func validChar(r uint32) bool {
	return vx.Or(r < 0xd800, vx.And(r > 0xdfff, r < 0x110000))
}

// value is an arbitrary value of the type; lists up to maxList elements, strings up to two ASCII bytes.
func (t *ty) value() any {
	switch t.k {
	case kBool:
		return vx.Bool("bool")
	case kU8:
		return vx.U8("u8")
	case kS8:
		return int8(vx.U8("s8"))
	case kU16:
		return vx.U16("u16")
	case kS16:
		return int16(vx.U16("s16"))
	case kU32:
		return vx.U32("u32")
	case kS32:
		return int32(vx.U32("s32"))
	case kU64:
		return vx.U64("u64")
	case kS64:
		return int64(vx.U64("s64"))
	case kF32:
		return math.Float32frombits(vx.U32("f32"))
	case kF64:
		return math.Float64frombits(vx.U64("f64"))
	case kChar:
		r := vx.U32("char")
		vx.Assume(validChar(r))
		return rune(r)
	case kString:
		s := vx.Str("str", vx.Choice("strlen", 3))
		for i := 0; i < len(s); i++ {
			vx.Assume(s[i] < 0x80)
		}
		return s
	case kList:
		l := []any{}
		n := vx.Choice("listlen", maxList+1)
		for i := 0; i < n; i++ {
			l = append(l, t.sub[0].value())
		}
		return l
	case kRecord, kTuple:
		m := map[string]any{}
		for i, s := range t.sub {
			m[t.fieldLabel(i)] = s.value()
		}
		return m
	case kFlags:
		m := map[string]any{}
		for i := 0; i < t.n; i++ {
			m[label("b", i)] = vx.Bool("flag")
		}
		return m
	}
	if t.isVariant() {
		i := vx.Choice("case", len(t.sub))
		var v any
		if t.sub[i] != nil {
			v = t.sub[i].value()
		}
		return map[string]any{t.caseLabel(i): v}
	}
	panic(fmt.Sprintf("no value for kind %d", t.k))
}

func canon32(b uint32) uint32 {
	if b&0x7fffffff > 0x7f800000 {
		return 0x7fc00000
	}
	return b
}

func canon64(b uint64) uint64 {
	if b&(1<<63-1) > 0x7ff0000000000000 {
		return 0x7ff8000000000000
	}
	return b
}

// same says whether got is the value want of the type, NaNs being canonical in got.
func (t *ty) same(got, want any) bool {
	switch t.k {
	case kBool:
		g, ok := got.(bool)
		return ok && g == want.(bool)
	case kU8:
		g, ok := got.(uint8)
		return ok && g == want.(uint8)
	case kS8:
		g, ok := got.(int8)
		return ok && g == want.(int8)
	case kU16:
		g, ok := got.(uint16)
		return ok && g == want.(uint16)
	case kS16:
		g, ok := got.(int16)
		return ok && g == want.(int16)
	case kU32:
		g, ok := got.(uint32)
		return ok && g == want.(uint32)
	case kS32:
		g, ok := got.(int32)
		return ok && g == want.(int32)
	case kU64:
		g, ok := got.(uint64)
		return ok && g == want.(uint64)
	case kS64:
		g, ok := got.(int64)
		return ok && g == want.(int64)
	case kF32:
		g, ok := got.(float32)
		return ok && math.Float32bits(g) == canon32(math.Float32bits(want.(float32)))
	case kF64:
		g, ok := got.(float64)
		return ok && math.Float64bits(g) == canon64(math.Float64bits(want.(float64)))
	case kChar:
		g, ok := got.(rune)
		return ok && g == want.(rune)
	case kString:
		g, ok := got.(string)
		return ok && g == want.(string)
	case kList:
		g, ok := got.([]any)
		w := want.([]any)
		if !ok || len(g) != len(w) {
			return false
		}
		r := true
		for i := range w {
			r = vx.And(r, t.sub[0].same(g[i], w[i]))
		}
		return r
	case kRecord, kTuple:
		g, ok := got.(map[string]any)
		w := want.(map[string]any)
		if !ok || len(g) != len(w) {
			return false
		}
		r := true
		for i, s := range t.sub {
			x, has := g[t.fieldLabel(i)]
			if !has {
				return false
			}
			r = vx.And(r, s.same(x, w[t.fieldLabel(i)]))
		}
		return r
	case kFlags:
		g, ok := got.(map[string]any)
		w := want.(map[string]any)
		if !ok || len(g) != len(w) {
			return false
		}
		r := true
		for i := 0; i < t.n; i++ {
			x, has := g[label("b", i)].(bool)
			if !has {
				return false
			}
			r = vx.And(r, x == w[label("b", i)].(bool))
		}
		return r
	}
	g, ok := got.(map[string]any)
	w := want.(map[string]any)
	if !ok || len(g) != 1 {
		return false
	}
	for i, s := range t.sub {
		if x, has := w[t.caseLabel(i)]; has {
			y, has := g[t.caseLabel(i)]
			if !has {
				return false
			}
			if s == nil {
				return y == nil
			}
			return s.same(y, x)
		}
	}
	return false
}

// inDomain says whether got is some value of the type with canonical NaNs.
func (t *ty) inDomain(got any) bool {
	switch t.k {
	case kBool:
		_, ok := got.(bool)
		return ok
	case kU8:
		_, ok := got.(uint8)
		return ok
	case kS8:
		_, ok := got.(int8)
		return ok
	case kU16:
		_, ok := got.(uint16)
		return ok
	case kS16:
		_, ok := got.(int16)
		return ok
	case kU32:
		_, ok := got.(uint32)
		return ok
	case kS32:
		_, ok := got.(int32)
		return ok
	case kU64:
		_, ok := got.(uint64)
		return ok
	case kS64:
		_, ok := got.(int64)
		return ok
	case kF32:
		g, ok := got.(float32)
		return ok && canon32(math.Float32bits(g)) == math.Float32bits(g)
	case kF64:
		g, ok := got.(float64)
		return ok && canon64(math.Float64bits(g)) == math.Float64bits(g)
	case kChar:
		g, ok := got.(rune)
		return ok && validChar(uint32(g))
	case kString:
		_, ok := got.(string)
		return ok
	case kList:
		g, ok := got.([]any)
		if !ok && got != nil {
			return false
		}
		r := true
		for i := range g {
			r = vx.And(r, t.sub[0].inDomain(g[i]))
		}
		return r
	case kRecord, kTuple:
		g, ok := got.(map[string]any)
		if !ok || len(g) != len(t.sub) {
			return false
		}
		r := true
		for i, s := range t.sub {
			x, has := g[t.fieldLabel(i)]
			if !has {
				return false
			}
			r = vx.And(r, s.inDomain(x))
		}
		return r
	case kFlags:
		g, ok := got.(map[string]any)
		if !ok || len(g) != t.n {
			return false
		}
		for i := 0; i < t.n; i++ {
			if _, has := g[label("b", i)].(bool); !has {
				return false
			}
		}
		return true
	}
	g, ok := got.(map[string]any)
	if !ok || len(g) != 1 {
		return false
	}
	for i, s := range t.sub {
		if y, has := g[t.caseLabel(i)]; has {
			if s == nil {
				return y == nil
			}
			return s.inDomain(y)
		}
	}
	return false
}

// ---- choosing types ---------------------------------------------------------------------------------

var allLeaves = []int{kBool, kU8, kS8, kU16, kS16, kU32, kS32, kU64, kS64, kF32, kF64, kChar}
var someLeaves = []int{kU8, kS16, kU32, kU64, kF32, kF64}
var fewLeaves = []int{kU8, kU64, kF32}

func pickLeaf(set []int) *ty { return leaf(set[vx.Choice("leaf", len(set))]) }

// pickOne is any type one level deep over the given leaves.
func pickOne(set []int) *ty {
	switch vx.Choice("shape", 10) {
	case 0:
		return record(pickLeaf(set))
	case 1:
		return record(pickLeaf(set), pickLeaf(set))
	case 2:
		return tuple(pickLeaf(set), pickLeaf(set))
	case 3:
		return variant(pickOpt(set), pickOpt(set))
	case 4:
		return union(pickLeaf(set), pickLeaf(set))
	case 5:
		return enum(3)
	case 6:
		return option(pickLeaf(set))
	case 7:
		return result(pickOpt(set), pickOpt(set))
	case 8:
		return list(pickLeaf(set))
	}
	return flags(flagCounts[vx.Choice("flags", len(flagCounts))])
}

var flagCounts = []int{0, 1, 8, 9, 16, 17, 32, 33, 64, 65}

func pickOpt(set []int) *ty {
	k := vx.Choice("opt", len(set)+1)
	if k == len(set) {
		return nil
	}
	return leaf(set[k])
}

// pickInner is a one-level type used inside another one.
func pickInner(set []int) *ty {
	switch vx.Choice("inner", 7) {
	case 0:
		return record(leaf(set[0]), pickLeaf(set))
	case 1:
		return variant(nil, pickLeaf(set))
	case 2:
		return union(pickLeaf(set), leaf(set[0]))
	case 3:
		return list(pickLeaf(set))
	case 4:
		return flags(9)
	case 5:
		return leaf(kString)
	}
	return tuple(pickLeaf(set), leaf(set[0]), leaf(set[0]))
}

// pickTwo is a type two levels deep.
func pickTwo(set []int) *ty {
	in := pickInner(set)
	switch vx.Choice("outer", 7) {
	case 0:
		return record(pickLeaf(set), in)
	case 1:
		return record(in, pickLeaf(set))
	case 2:
		return variant(in, pickLeaf(set), nil)
	case 3:
		return list(in)
	case 4:
		return option(in)
	case 5:
		return result(pickLeaf(set), in)
	}
	return tuple(in, in)
}

// ---- contexts -----------------------------------------------------------------------------------------

// arena is a well-behaved guest allocator: it hands out aligned blocks above base.
type arena struct {
	base, size uint32
}

func (a *arena) realloc(old, oldSize, align, n uint32) (uint32, error) {
	p := alignUp(a.base, align)
	if p+n > a.size {
		return 0, fmt.Errorf("out of memory")
	}
	a.base = p + n
	return p, nil
}

func newInstance() *types.ComponentInstance {
	return &types.ComponentInstance{MayEnter: true, MayLeave: true,
		Handles: types.HandleTables{ResourceTypeToTable: map[types.ResourceType]*types.HandleTable{}}}
}

func context(mem []byte, enc encoding.Encoding, realloc types.ReallocFunc) *types.CallContext {
	return &types.CallContext{
		Options:  &types.CanonicalOptions{Memory: bytes.NewBuffer(mem), StringEncoding: enc, Realloc: realloc},
		Instance: newInstance(),
	}
}

func isErr(err error) uint64 {
	if err != nil {
		return 1
	}
	return 0
}

// pickThree wraps a two-level type once more.
func pickThree(set []int) *ty {
	in := pickTwo(set)
	switch vx.Choice("outermost", 5) {
	case 0:
		return record(leaf(set[0]), in)
	case 1:
		return variant(nil, in)
	case 2:
		return list(in)
	case 3:
		return result(in, leaf(set[1]))
	}
	return tuple(in, leaf(set[0]))
}
