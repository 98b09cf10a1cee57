package h

import (
	"bytes"
	"math"

	aio "github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/kind"
	"github.com/patrickhuber/go-wasm/abi/values"
	"github.com/patrickhuber/go-wasm/api"
	"github.com/patrickhuber/go-wasm/binary"
	"github.com/patrickhuber/go-wasm/encoding"
	"github.com/patrickhuber/go-wasm/zz_verif/vx"
)

// copyOf is a copy of a host value that shares nothing with it.
func copyOf(v any) any {
	switch v := v.(type) {
	case map[string]any:
		m := map[string]any{}
		for k, x := range v {
			m[k] = copyOf(x)
		}
		return m
	case []any:
		l := []any{}
		for _, x := range v {
			l = append(l, copyOf(x))
		}
		return l
	}
	return v
}

// unchanged says whether two host values are the same to the last bit.
func unchanged(a, b any) bool {
	switch x := a.(type) {
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		same := true
		for k, v := range x {
			w, ok := y[k]
			if !ok {
				return false
			}
			same = vx.And(same, unchanged(v, w))
		}
		return same
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		same := true
		for i := range x {
			same = vx.And(same, unchanged(x[i], y[i]))
		}
		return same
	case float32:
		y, ok := b.(float32)
		return ok && math.Float32bits(x) == math.Float32bits(y)
	case float64:
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	}
	return a == b
}

// spoil changes everything inside a host value that can be changed.
func spoil(v any) {
	switch v := v.(type) {
	case map[string]any:
		var ks []string
		for k, x := range v {
			spoil(x)
			ks = append(ks, k)
		}
		for _, k := range ks {
			delete(v, k)
		}
		v["spoiled"] = true
	case []any:
		for i := range v {
			spoil(v[i])
			v[i] = "spoiled"
		}
	}
}

func sharedType() *ty {
	switch vx.Choice("levels", 3) {
	case 0:
		return leaf(kString)
	case 1:
		return pickOne(someLeaves)
	}
	return pickTwo(fewLeaves)
}

// C33_Memory covers one- and two-level types and strings: a value that was loaded or lifted is still the same after every byte of memory was replaced by any other and another value was loaded, and after everything in that other value was changed.
func C33_Memory() {
	t := sharedType()
	mem := vx.Bytes("mem", 160)
	a := &arena{48, 160}
	cx := context(mem, encoding.UTF8, a.realloc)
	v := t.value()
	var got, more any
	var err error
	if vx.Choice("way", 2) == 0 {
		vx.Assume(aio.Store(cx, v, t.v, 8) == nil)
		got, err = aio.Load(cx, t.v, 8)
		vx.Assume(err == nil)
		more, err = aio.Load(cx, t.v, 8)
		vx.Assume(err == nil)
	} else {
		flat, err := aio.LowerFlat(cx, v, t.v)
		vx.Assume(err == nil)
		got, err = aio.LiftFlat(cx, values.NewIterator(flat...), t.v)
		vx.Assume(err == nil)
		more, err = aio.LiftFlat(cx, values.NewIterator(flat...), t.v)
		vx.Assume(err == nil)
	}
	before := append([]byte{}, mem...)
	spoil(more)
	vx.Assert(t.same(got, v), "changing one loaded value changes another")
	vx.Assert(sameBytes(mem, before), "changing a loaded value changes memory")
	copy(mem, vx.Bytes("later", 160))
	vx.Assert(t.same(got, v), "a loaded value changes with memory")
	vx.Cover("loaded")
}

// C33_Host covers one- and two-level types and strings: storing and lowering, successful or with an allocator that fails or has too little room, leave the host value as it was, and what was stored does not change with the host value.
func C33_Host() {
	t := sharedType()
	mem := vx.Bytes("mem", 160)
	a := &arena{48, []uint32{48, 60, 160}[vx.Choice("room", 3)]}
	cx := context(mem, encoding.UTF8, a.realloc)
	v := t.value()
	was := copyOf(v)
	if vx.Choice("way", 2) == 0 {
		err := aio.Store(cx, v, t.v, 8)
		vx.Assert(unchanged(v, was), "storing a value changes it")
		before := append([]byte{}, mem...)
		spoil(v)
		vx.Assert(sameBytes(mem, before), "memory changes with the host value")
		if err != nil {
			vx.Cover("failed")
		}
		vx.Cover("stored")
		return
	}
	flat, err := aio.LowerFlat(cx, v, t.v)
	vx.Assert(unchanged(v, was), "lowering a value changes it")
	if err == nil {
		// the core values stay readable after they have been read
		seq := append([]values.Value{}, flat...)
		_, err = aio.LiftFlat(cx, values.NewIterator(flat...), t.v)
		vx.Assert(err == nil, "lifting a lowered value fails")
		for i := range seq {
			vx.Assert(coreOf(flat[i]) == coreOf(seq[i]), "lifting changes the core values")
		}
	}
	vx.Cover("lowered")
}

// C33_Flat covers one- and two-level types: flattened types and lowered sequences do not change when they, parts of them or types that contain them are flattened and other values are lowered later.
func C33_Flat() {
	t := sharedType()
	first, err := aio.FlattenType(t.v)
	vx.Assume(err == nil)
	was := append([]kind.Kind{}, first...)
	for _, o := range []*ty{t, variant(nil, t, leaf(kF64)), record(t, leaf(kU64)), option(t)} {
		got, err := aio.FlattenType(o.v)
		vx.Assert(err == nil, "no flattening for a type")
		sameKinds(got, o.flat(), "a type flattened after its part")
	}
	sameKinds(first, was, "a flattened type after others")
	cx := context(vx.Bytes("mem", 160), encoding.UTF8, (&arena{0, 160}).realloc)
	a, err := aio.LowerFlat(cx, t.value(), t.v)
	vx.Assume(err == nil)
	seq := append([]values.Value{}, a...)
	if vx.Choice("other", 2) == 0 {
		_, err = aio.LowerFlat(cx, map[string]any{"c0": nil}, variant(nil, t, leaf(kF64)).v)
	} else {
		_, err = aio.LowerFlat(cx, vx.U64("later"), leaf(kU64).v)
	}
	vx.Assert(err == nil, "lowering a value fails")
	for i := range seq {
		vx.Assert(coreOf(a[i]) == coreOf(seq[i]), "lowering another value changes the core values")
	}
	vx.Cover("flat")
}

// C33_Document covers a module with all supported sections: it stays the same after its bytes were replaced by any others and another module was read with the same reader and buffer.
func C33_Document() {
	b, _, check := wholeModule()
	was := append([]byte{}, b...)
	r := bytes.NewReader(b)
	d, err := binary.Read(r)
	vx.Assume(err == nil)
	vx.Assert(sameBytes(b, was), "reading a module changes its bytes")
	m, ok := d.Directive.(*api.Module)
	vx.Assume(ok)
	b2, _, check2 := wholeModule()
	vx.Assume(len(b2) == len(b))
	copy(b, b2)
	check(m)
	r.Reset(b)
	d, err = binary.Read(r)
	vx.Assert(err == nil, "a module is refused after another")
	m2, ok := d.Directive.(*api.Module)
	vx.Assert(ok, "a module is something else after another")
	check2(m2)
	check(m)
	vx.Cover("documents")
}

// C33_Text covers texts of up to 2 characters and all codecs: encoding and decoding leave the bytes given as they were and the result does not change with them, or with a later use of the same codec.
func C33_Text() {
	enc, c := anyCodec()
	text, rs, cl := anyText(2)
	want, ok := encodeRef(enc, text, rs, cl)
	vx.Assume(ok)
	src := append([]byte{}, text...)
	var out bytes.Buffer
	vx.Assume(encoding.Encode(c, &out, bytes.NewReader(src)) == nil)
	vx.Assert(sameBytes(src, text), "encoding changes the text")
	got := out.Bytes()
	str, err := encoding.EncodeString(c, string(text))
	vx.Assume(err == nil)
	back, err := encoding.DecodeString(c, bytes.NewReader(got))
	vx.Assume(err == nil)
	vx.Assert(sameBytes(got, want), "decoding changes the bytes")
	for i := range got {
		got[i] ^= 0x55
		src[i%len(src)] = '?'
	}
	vx.Assert(back == string(text), "a decoded text changes with the bytes")
	_, err = encoding.EncodeString(c, "zz")
	vx.Assert(err == nil, "a codec refuses text after another")
	vx.Assert(sameBytes(str, want), "encoded text changes with the next one")
	vx.Cover("text")
}
