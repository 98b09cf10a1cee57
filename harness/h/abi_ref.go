package h

import (
	"math"

	"github.com/patrickhuber/go-wasm/abi/kind"
	"github.com/patrickhuber/go-wasm/abi/values"
	"github.com/patrickhuber/go-wasm/zz_verif/vx"
)

// ---- reference loader: the value that bytes of memory denote ---------------------------------

func le(mem []byte, p, n uint32) uint64 {
	var r uint64
	for i := uint32(0); i < n; i++ {
		r |= uint64(mem[p+i]) << (8 * i)
	}
	return r
}

// load is the value of type t at ptr, or false if the bytes denote none.
func (t *ty) load(mem []byte, ptr uint64) (any, bool) {
	if ptr+uint64(t.size()) > uint64(len(mem)) {
		return nil, false
	}
	p := uint32(ptr)
	switch t.k {
	case kBool:
		return mem[p] != 0, true
	case kU8:
		return mem[p], true
	case kS8:
		return int8(mem[p]), true
	case kU16:
		return uint16(le(mem, p, 2)), true
	case kS16:
		return int16(le(mem, p, 2)), true
	case kU32:
		return uint32(le(mem, p, 4)), true
	case kS32:
		return int32(le(mem, p, 4)), true
	case kU64:
		return le(mem, p, 8), true
	case kS64:
		return int64(le(mem, p, 8)), true
	case kF32:
		return math.Float32frombits(uint32(le(mem, p, 4))), true
	case kF64:
		return math.Float64frombits(le(mem, p, 8)), true
	case kChar:
		c := uint32(le(mem, p, 4))
		if !validChar(c) {
			return nil, false
		}
		return rune(c), true
	case kString:
		return loadString(mem, uint32(le(mem, p, 4)), uint32(le(mem, p+4, 4)))
	case kList:
		return t.loadList(mem, uint32(le(mem, p, 4)), uint32(le(mem, p+4, 4)))
	case kRecord, kTuple:
		m := map[string]any{}
		for i, s := range t.sub {
			p = alignUp(p, s.align())
			v, ok := s.load(mem, uint64(p))
			if !ok {
				return nil, false
			}
			m[t.fieldLabel(i)] = v
			p += s.size()
		}
		return m, true
	case kFlags:
		m := map[string]any{}
		for i := 0; i < t.n; i++ {
			m[label("b", i)] = mem[p+uint32(i)/8]>>(i%8)&1 == 1
		}
		return m, true
	}
	d := le(mem, p, t.discSize())
	if d >= uint64(len(t.sub)) {
		return nil, false
	}
	i := int(vx.Concrete(d))
	if t.sub[i] == nil {
		return map[string]any{t.caseLabel(i): nil}, true
	}
	v, ok := t.sub[i].load(mem, uint64(alignUp(p+t.discSize(), t.payloadAlign())))
	if !ok {
		return nil, false
	}
	return map[string]any{t.caseLabel(i): v}, true
}

// loadString is the UTF-8 reading; only ASCII contents are compared.
func loadString(mem []byte, ptr, n uint32) (any, bool) {
	if uint64(ptr)+uint64(n) > uint64(len(mem)) {
		return nil, false
	}
	p, l := uint32(vx.Concrete(uint64(ptr))), uint32(vx.Concrete(uint64(n)))
	return string(mem[p : p+l]), true
}

func (t *ty) loadList(mem []byte, ptr, n uint32) (any, bool) {
	e := t.sub[0]
	if ptr%e.align() != 0 || uint64(ptr)+uint64(n)*uint64(e.size()) > uint64(len(mem)) {
		return nil, false
	}
	p, l := uint32(vx.Concrete(uint64(ptr))), uint32(vx.Concrete(uint64(n)))
	r := []any{}
	for i := uint32(0); i < l; i++ {
		v, ok := e.load(mem, uint64(p+i*e.size()))
		if !ok {
			return nil, false
		}
		r = append(r, v)
	}
	return r, true
}

// ---- reference lifting: the value that core values denote ---------------------------------------

type core struct {
	k kind.Kind
	v uint64 // bits
}

func (c core) value() values.Value {
	switch c.k {
	case kind.U32:
		return values.U32(uint32(c.v))
	case kind.U64:
		return values.U64(c.v)
	case kind.Float32:
		return values.Float32(math.Float32frombits(uint32(c.v)))
	}
	return values.Float64(math.Float64frombits(c.v))
}

// pickCore is an arbitrary core value of the kind.
func pickCore(k kind.Kind) core {
	switch k {
	case kind.U32, kind.Float32:
		return core{k, uint64(vx.U32("core32"))}
	}
	return core{k, vx.U64("core64")}
}

// bits of a lowered core value
func coreOf(v values.Value) core {
	switch x := v.Value().(type) {
	case uint32:
		return core{v.Kind(), uint64(x)}
	case uint64:
		return core{v.Kind(), x}
	case float32:
		return core{v.Kind(), uint64(math.Float32bits(x))}
	case float64:
		return core{v.Kind(), math.Float64bits(x)}
	}
	vx.Fail("a core value holds a Go value that is no core number")
	return core{}
}

// lift reads a value of type t from the bits of its flat slots.
func (t *ty) lift(mem []byte, c []uint64) (any, bool) {
	switch t.k {
	case kBool:
		return uint32(c[0]) != 0, true
	case kU8:
		return uint8(c[0]), true
	case kS8:
		return int8(c[0]), true
	case kU16:
		return uint16(c[0]), true
	case kS16:
		return int16(c[0]), true
	case kU32:
		return uint32(c[0]), true
	case kS32:
		return int32(c[0]), true
	case kU64:
		return c[0], true
	case kS64:
		return int64(c[0]), true
	case kF32:
		return math.Float32frombits(uint32(c[0])), true
	case kF64:
		return math.Float64frombits(c[0]), true
	case kChar:
		if !validChar(uint32(c[0])) {
			return nil, false
		}
		return rune(c[0]), true
	case kString:
		return loadString(mem, uint32(c[0]), uint32(c[1]))
	case kList:
		return t.loadList(mem, uint32(c[0]), uint32(c[1]))
	case kRecord, kTuple:
		m := map[string]any{}
		for i, s := range t.sub {
			v, ok := s.lift(mem, c)
			if !ok {
				return nil, false
			}
			m[t.fieldLabel(i)] = v
			c = c[len(s.flat()):]
		}
		return m, true
	case kFlags:
		m := map[string]any{}
		for i := 0; i < t.n; i++ {
			m[label("b", i)] = c[i/32]>>(i%32)&1 == 1
		}
		return m, true
	}
	d := uint32(c[0])
	if d >= uint32(len(t.sub)) {
		return nil, false
	}
	i := int(vx.Concrete(uint64(d)))
	if t.sub[i] == nil {
		return map[string]any{t.caseLabel(i): nil}, true
	}
	v, ok := t.sub[i].lift(mem, c[1:])
	if !ok {
		return nil, false
	}
	return map[string]any{t.caseLabel(i): v}, true
}

// ---- host values of the wrong shape ----------------------------------------------------------------

// anyValue is a Go value of some shape a host could pass.
func anyValue() any {
	switch vx.Choice("host", 18) {
	case 0:
		return nil
	case 1:
		return vx.Bool("bool")
	case 2:
		return vx.U8("u8")
	case 3:
		return int8(vx.U8("s8"))
	case 4:
		return vx.U16("u16")
	case 5:
		return int16(vx.U16("s16"))
	case 6:
		return vx.U32("u32")
	case 7:
		return int32(vx.U32("s32"))
	case 8:
		return vx.U64("u64")
	case 9:
		return int64(vx.U64("s64"))
	case 10:
		return int(vx.U64("int"))
	case 11:
		return math.Float32frombits(vx.U32("f32"))
	case 12:
		return math.Float64frombits(vx.U64("f64"))
	case 13:
		return "ab"
	case 14:
		return []any{vx.U8("u8")}
	case 15:
		return map[string]any{}
	case 16:
		return map[string]any{[]string{"c0", "f0", "b0", "0", "some", "none"}[vx.Choice("key", 6)]: vx.U8("u8")}
	}
	return map[string]any{"c0": nil, "c1": nil}
}

// fits says whether v is a sized integer of another Go type, but of the same signedness
// as the type, so that accepting or refusing it is left open when its value is in range.
func (t *ty) fits(v any) bool {
	var u uint64
	switch x := v.(type) {
	case uint8:
		u = uint64(x)
	case uint16:
		u = uint64(x)
	case uint32:
		u = uint64(x)
	case uint64:
		u = x
	case int8:
		return t.fitsSigned(int64(x))
	case int16:
		return t.fitsSigned(int64(x))
	case int32:
		return t.fitsSigned(int64(x))
	case int64:
		return t.fitsSigned(x)
	default:
		return false
	}
	switch t.k {
	case kU8:
		return u < 1<<8
	case kU16:
		return u < 1<<16
	case kU32:
		return u < 1<<32
	}
	return t.k == kU64
}

func (t *ty) fitsSigned(i int64) bool {
	switch t.k {
	case kS8:
		return i == int64(int8(i))
	case kS16:
		return i == int64(int16(i))
	case kS32:
		return i == int64(int32(i))
	}
	return t.k == kS64
}

// belongs says whether the host value is a value of the type.
func (t *ty) belongs(v any) bool {
	if t.k >= kU8 && t.k <= kS64 && t.fits(v) && !t.inDomain(v) {
		vx.Stop()
	}
	switch t.k {
	case kList:
		l, ok := v.([]any)
		if !ok {
			return false
		}
		for _, x := range l {
			if !t.sub[0].belongs(x) {
				return false
			}
		}
		return true
	case kF32:
		_, ok := v.(float32)
		return ok
	case kF64:
		_, ok := v.(float64)
		return ok
	case kRecord, kTuple:
		m, ok := v.(map[string]any)
		if !ok {
			return false
		}
		for i, s := range t.sub {
			x, has := m[t.fieldLabel(i)]
			if !has || !s.belongs(x) {
				return false
			}
		}
		return true
	case kFlags:
		m, ok := v.(map[string]any)
		if !ok {
			return false
		}
		for i := 0; i < t.n; i++ {
			if _, has := m[label("b", i)].(bool); !has {
				return false
			}
		}
		return true
	}
	if t.isVariant() {
		m, ok := v.(map[string]any)
		if !ok || len(m) != 1 {
			return false
		}
		for i, s := range t.sub {
			if x, has := m[t.caseLabel(i)]; has {
				return s == nil || s.belongs(x)
			}
		}
		return false
	}
	return t.inDomain(v)
}
