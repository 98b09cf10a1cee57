package h

import (
	"math"

	"github.com/patrickhuber/go-wasm/abi/kind"
	"github.com/patrickhuber/go-wasm/abi/values"
	"github.com/patrickhuber/go-wasm/zz_verif/vx"
)

// anyCore is a core value of any kind with any bits, and those bits.
func anyCore(k kind.Kind) (values.Value, uint64) {
	switch k {
	case kind.U32:
		x := vx.U32("u32")
		return values.U32(x), uint64(x)
	case kind.U64:
		x := vx.U64("u64")
		return values.U64(x), x
	case kind.Float32:
		x := vx.U32("f32")
		return values.Float32(math.Float32frombits(x)), uint64(x)
	default:
		x := vx.U64("f64")
		return values.Float64(math.Float64frombits(x)), x
	}
}

func anyKind() kind.Kind { return kinds[vx.Choice("kind", len(kinds))] }

// isCore says whether v is the Go value of kind k with the given bits.
func isCore(v any, k kind.Kind, bits uint64) bool {
	switch x := v.(type) {
	case uint32:
		return vx.And(k == kind.U32, uint64(x) == bits)
	case uint64:
		return vx.And(k == kind.U64, x == bits)
	case float32:
		return vx.And(k == kind.Float32, uint64(math.Float32bits(x)) == bits)
	case float64:
		return vx.And(k == kind.Float64, math.Float64bits(x) == bits)
	}
	return false
}

// C31_Values covers any core value of any kind: its kind and value, and the zero of every kind number.
func C31_Values() {
	k := anyKind()
	v, bits := anyCore(k)
	vx.Assert(v.Kind() == k, "a value has another kind")
	vx.Assert(isCore(v.Value(), k, bits), "a value is not the number it was made of")
	n := kind.Kind(vx.Choice("number", 6) - 1)
	z, err := values.Zero(n)
	if n < kind.U32 || n > kind.Float64 {
		vx.Assert(err != nil, "a number that is no kind has a zero")
		vx.Cover("none")
		return
	}
	vx.Assert(err == nil && z.Kind() == n, "the zero of a kind has another kind")
	vx.Assert(isCore(z.Value(), n, 0), "the zero of a kind is not zero")
	vx.Cover("zero")
}

// C31_Next covers iterators over 0 to 3 values of any kinds, read with any kinds, once past the end.
func C31_Next() {
	n := vx.Choice("count", 4)
	var vs []values.Value
	var ks []kind.Kind
	var bits []uint64
	for i := 0; i < n; i++ {
		k := anyKind()
		v, b := anyCore(k)
		vs, ks, bits = append(vs, v), append(ks, k), append(bits, b)
	}
	it := values.NewIterator(vs...)
	for i := 0; i <= n; i++ {
		vx.Assert(it.Length() == n, "the length is not the number of values")
		vx.Assert(it.Index() == i, "the index is not the number of values read")
		k := anyKind()
		var v any
		var err error
		vx.NoPanic("next", func() { v, err = it.Next(k) })
		if i == n {
			vx.Assert(err != nil, "a value is read past the end")
			vx.Cover("end")
			return
		}
		vx.Assert((err == nil) == (k == ks[i]), "a value is read as another kind or refused as its own")
		if err != nil {
			vx.Cover("refused")
			return
		}
		vx.Assert(isCore(v, k, bits[i]), "a value is not the one at its place")
	}
}

// C31_Coerce covers coercing iterators over 0 to 3 slots of any kinds, read as themselves or as what the join of two kinds may have held, and slots whose value has another kind.
func C31_Coerce() {
	n := vx.Choice("count", 4)
	var vs []values.Value
	var have, is []kind.Kind
	var bits []uint64
	for i := 0; i < n; i++ {
		k := anyKind()
		v, b := anyCore(k)
		vs, is, bits = append(vs, v), append(is, k), append(bits, b)
		slot := k
		if i == n-1 {
			slot = anyKind()
		}
		have = append(have, slot)
	}
	inner := values.NewIterator(vs...)
	it := values.NewCoerceValueIterator(inner, have)
	vx.Assert(it.ValueIterator() == inner, "the inner iterator is another one")
	for i := 0; i <= n; i++ {
		vx.Assert(it.Length() == n && it.Index() == i, "length or index are not those of the values")
		vx.Assert(len(it.FlatTypes()) == n-i, "the kinds left are not those of the values left")
		want := anyKind()
		if i < n {
			h := have[i]
			vx.Assume(want == h || h == kind.U64 || h == kind.U32 && want == kind.Float32)
		}
		var v any
		var err error
		vx.NoPanic("next", func() { v, err = it.Next(want) })
		if i == n {
			vx.Assert(err != nil, "a value is read past the end")
			vx.Cover("end")
			return
		}
		if have[i] != is[i] {
			vx.Assert(err != nil, "a value of another kind than its slot is read")
			vx.Cover("refused")
			return
		}
		vx.Assert(err == nil, "a value is refused")
		b := bits[i]
		if want == kind.U32 || want == kind.Float32 {
			b = uint64(uint32(b))
		}
		vx.Assert(isCore(v, want, b), "a slot does not give the value it holds")
		if want != have[i] {
			vx.Cover("coerced")
		}
	}
}
