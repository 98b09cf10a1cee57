package h

import (
	"fmt"
	"math"

	aio "github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/kind"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"
	"github.com/patrickhuber/go-wasm/encoding"
	"github.com/patrickhuber/go-wasm/zz_verif/vx"
)

// ---- C01 ---------------------------------------------------------------------------------------

func memRoundTrip(t *ty, ptr, heap, size uint32) {
	mem := vx.Bytes("mem", int(size))
	a := &arena{heap, size}
	cx := context(mem, encoding.UTF8, a.realloc)
	v := t.value()
	err := aio.Store(cx, v, t.v, ptr)
	vx.Assert(err == nil, "storing a value at an aligned in-bounds address fails")
	got, err := aio.Load(cx, t.v, ptr)
	vx.Assert(err == nil, "loading a stored value fails")
	vx.Assert(t.same(got, v), "the loaded value differs from the stored one")
	vx.Cover("round trip")
}

// C01_Leaves covers every scalar type, all its values, at every aligned address of a 16-byte memory with arbitrary contents.
func C01_Leaves() {
	t := pickLeaf(allLeaves)
	slots := int(16 / t.align())
	ptr := uint32(vx.Choice("slot", slots)) * t.align()
	memRoundTrip(t, ptr, 16, 16)
}

// C01_OneLevel covers records, tuples, variants, unions, enums, options, results, lists (up to 2 elements) and flags (up to 65 labels) over all twelve scalar types, all values.
func C01_OneLevel() {
	t := pickOne(allLeaves)
	memRoundTrip(t, 0, 24, 56)
}

// C01_TwoLevels covers two-level nestings over u8, u64 and f32 and short strings, all values.
func C01_TwoLevels() {
	t := pickTwo(fewLeaves)
	memRoundTrip(t, 8, 48, 160)
}

// C01_ThreeLevels covers three-level nestings over u8, u64 and f32, all values.
//
// vx:tier thorough
func C01_ThreeLevels() {
	t := pickThree(fewLeaves)
	memRoundTrip(t, 0, 80, 400)
}

// C01_Discriminants covers variants of 255, 256, 257 and 300 cases with a payload in the last one: the last two cases and the first, all payloads.
func C01_Discriminants() {
	n := []int{2, 255, 256, 257, 300}[vx.Choice("cases", 5)]
	sub := make([]*ty, n)
	sub[n-1] = leaf(kU32)
	t := variant(sub...)
	mem := vx.Bytes("mem", 8)
	cx := context(mem, encoding.UTF8, nil)
	i := []int{0, n - 2, n - 1}[vx.Choice("case", 3)]
	var p any
	if i == n-1 {
		p = vx.U32("u32")
	}
	v := map[string]any{t.caseLabel(i): p}
	vx.Assert(aio.Store(cx, v, t.v, 0) == nil, "storing a variant fails")
	got, err := aio.Load(cx, t.v, 0)
	vx.Assert(err == nil, "loading a stored variant fails")
	vx.Assert(t.same(got, v), "the loaded variant differs from the stored one")
	vx.Cover("round trip")
}

// ---- C02 ---------------------------------------------------------------------------------------

func flatRoundTrip(t *ty, size uint32) {
	mem := vx.Bytes("mem", int(size))
	a := &arena{0, size}
	cx := context(mem, encoding.UTF8, a.realloc)
	v := t.value()
	flat, err := aio.LowerFlat(cx, v, t.v)
	vx.Assert(err == nil, "lowering a value fails")
	want := t.flat()
	vx.Assert(len(flat) == len(want), "the lowered sequence has the wrong length")
	for i := range want {
		vx.Assert(flat[i].Kind() == want[i], "a lowered core value has the wrong kind")
	}
	flat = append(flat, values.U32(7))
	it := values.NewIterator(flat...)
	got, err := aio.LiftFlat(cx, it, t.v)
	vx.Assert(err == nil, "lifting a lowered value fails")
	vx.Assert(it.Index() == len(want), "lifting does not consume exactly the lowered sequence")
	vx.Assert(t.same(got, v), "the lifted value differs from the lowered one")
	vx.Cover("round trip")
}

// C02_Leaves covers every scalar type, all its values.
func C02_Leaves() { flatRoundTrip(pickLeaf(allLeaves), 0) }

// C02_OneLevel covers one-level composites over all twelve scalar types (lists up to 2 elements, flags up to 65 labels), all values.
func C02_OneLevel() { flatRoundTrip(pickOne(allLeaves), 32) }

// C02_Joins covers variants whose two cases are records of up to two scalars out of u32, u64, f32, f64, so every join of slots occurs, all values.
func C02_Joins() {
	set := []int{kU8, kU64, kF32, kF64}
	a := record(pickLeaf(set), pickLeaf(set))
	b := record(pickLeaf(set), pickLeaf(set))
	flatRoundTrip(variant(a, nil, b), 0)
}

// C02_TwoLevels covers two-level nestings over u8, u64 and f32 and short strings, all values.
func C02_TwoLevels() { flatRoundTrip(pickTwo(fewLeaves), 128) }

// C02_ThreeLevels covers three-level nestings over u8, u64 and f32, all values.
//
// vx:tier thorough
func C02_ThreeLevels() { flatRoundTrip(pickThree(fewLeaves), 400) }

// ---- C03 ---------------------------------------------------------------------------------------

func layout(t *ty) {
	a, err := aio.Alignment(t.v)
	vx.Assert(err == nil, "no alignment for a type")
	vx.Assert(a == t.align(), "wrong alignment")
	s, err := aio.Size(t.v)
	vx.Assert(err == nil, "no size for a type")
	vx.Assert(s == t.size(), "wrong size")
	f, err := aio.FlattenType(t.v)
	vx.Assert(err == nil, "no flattening for a type")
	want := t.flat()
	vx.Assert(len(f) == len(want), "wrong number of flattened core types")
	for i := range want {
		vx.Assert(f[i] == want[i], "wrong flattened core type")
	}
	vx.Cover("layout")
}

// C03_AlignTo covers every 32-bit address and the alignments 1, 2, 4 and 8.
func C03_AlignTo() {
	p := vx.U32("ptr")
	a := uint32(1) << vx.Choice("align", 4)
	got, err := aio.AlignTo(p, a)
	want := (uint64(p) + uint64(a) - 1) &^ (uint64(a) - 1)
	if err != nil {
		vx.Assert(want > math.MaxUint32, "rounding up fails although the result fits")
		vx.Cover("no room")
		return
	}
	vx.Assert(want <= math.MaxUint32, "rounding up past the end of the address space wraps around")
	vx.Assert(uint64(got) == want, "not the least multiple that is not smaller")
	vx.Cover("rounded")
}

// C03_Types covers all scalar types, all one-level types over the twelve scalars and the two-level nestings over u8, u64, f32 and strings.
func C03_Types() {
	switch vx.Choice("level", 3) {
	case 0:
		layout(pickLeaf(append([]int{kString}, allLeaves...)))
	case 1:
		layout(pickOne(allLeaves))
	default:
		layout(pickTwo(someLeaves))
	}
}

// C03_Wide covers records of three fields over six scalar types, and variants of three cases.
func C03_Wide() {
	if vx.Choice("shape", 2) == 0 {
		layout(record(pickLeaf(someLeaves), pickLeaf(someLeaves), pickLeaf(someLeaves)))
	} else {
		layout(variant(pickOpt(someLeaves), pickOpt(someLeaves), pickOpt(someLeaves)))
	}
}

// C03_Counts covers enums and flags at every size where the width changes, up to 65537 cases and 130 labels, and payload alignment 1 to 8 behind each discriminant.
//
// vx:steps 30000000
func C03_Counts() {
	if vx.Choice("shape", 2) == 0 {
		n := []int{1, 2, 3, 127, 128, 129, 255, 256, 257, 258, 4096, 65535, 65536, 65537}[vx.Choice("cases", 14)]
		sub := make([]*ty, n)
		if p := vx.Choice("payload", 5); p < 4 {
			sub[0] = leaf([]int{kU8, kU16, kF32, kU64}[p])
		}
		layout(variant(sub...))
	} else {
		layout(flags([]int{0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 95, 96, 97, 130}[vx.Choice("labels", 18)]))
	}
}

// C03_Functions covers function types of up to three parameters and two results over u8, u64, f32, a two-field record and a list, with flat limits 1 to 4.
func C03_Functions() {
	pick := func() *ty {
		switch vx.Choice("param", 5) {
		case 0:
			return leaf(kU8)
		case 1:
			return leaf(kU64)
		case 2:
			return leaf(kF32)
		case 3:
			return record(leaf(kF64), leaf(kS8))
		}
		return list(leaf(kU8))
	}
	var ps, rs []types.Parameter
	var fp, fr []kind.Kind
	np := vx.Choice("params", 4)
	for i := 0; i < np; i++ {
		t := pick()
		ps = append(ps, types.Parameter{Type: t.v})
		fp = append(fp, t.flat()...)
	}
	nr := vx.Choice("results", 3)
	for i := 0; i < nr; i++ {
		t := pick()
		rs = append(rs, types.Parameter{Type: t.v})
		fr = append(fr, t.flat()...)
	}
	mp, mr := 1+vx.Choice("maxparams", 4), 1+vx.Choice("maxresults", 2)
	ft := types.NewFuncType(ps, rs)
	lift, err := aio.FlattenFuncTypeLift(ft, mp, mr)
	vx.Assert(err == nil, "flattening a function type fails")
	lower, err := aio.FlattenFuncTypeLower(ft, mp, mr)
	vx.Assert(err == nil, "flattening a function type fails")
	if len(fp) > mp {
		fp = []kind.Kind{kind.U32}
	}
	lp, lr := fp, fr
	if len(fr) > mr {
		lp = append(append([]kind.Kind{}, fp...), kind.U32)
		lr = nil
		fr = []kind.Kind{kind.U32}
	}
	sameKinds(lift.Params(), fp, "lifted parameters")
	sameKinds(lift.Results(), fr, "lifted results")
	sameKinds(lower.Params(), lp, "lowered parameters")
	sameKinds(lower.Results(), lr, "lowered results")
	vx.Cover("function type")
}

func sameKinds(got, want []kind.Kind, what string) {
	vx.Assert(len(got) == len(want), "wrong number of "+what)
	for i := range want {
		vx.Assert(got[i] == want[i], "wrong core type in "+what)
	}
}

// ---- C04 ---------------------------------------------------------------------------------------

// C04_Confined covers the one- and two-level types over u8, u64 and f32 at a fixed aligned address with an honest allocator, all values and all memory contents.
func C04_Confined() {
	var t *ty
	if vx.Choice("level", 2) == 0 {
		t = pickOne(someLeaves)
	} else {
		t = pickTwo(fewLeaves)
	}
	const size, ptr, heap = 160, 8, 56
	mem := vx.Bytes("mem", size)
	before := append([]byte{}, mem...)
	a := &arena{heap, size}
	cx := context(mem, encoding.UTF8, a.realloc)
	v := t.value()
	err := aio.Store(cx, v, t.v, ptr)
	vx.Assert(err == nil, "storing a value at an aligned in-bounds address fails")
	ok := true
	for i := uint32(0); i < size; i++ {
		if i >= ptr && i < ptr+t.size() || i >= heap && i < a.base {
			continue
		}
		ok = vx.And(ok, mem[i] == before[i])
	}
	vx.Assert(ok, "a byte outside the value and its allocated blocks is changed")
	vx.Cover("stored")
}

// C04_Destination covers every 32-bit destination address in a memory of 20 bytes, for the scalar types and small composites.
func C04_Destination() {
	t := smallType()
	const size = 20
	mem := make([]byte, size)
	for i := range mem {
		mem[i] = 0xa5
	}
	ptr := vx.U32("ptr")
	cx := context(mem, encoding.UTF8, func(o, os, a, n uint32) (uint32, error) { return 0, nil })
	v := t.value()
	err := aio.Store(cx, v, t.v, ptr)
	bad := vx.Or(ptr&(t.align()-1) != 0, uint64(ptr)+uint64(t.size()) > size)
	if err != nil {
		vx.Assert(bad, "an aligned in-bounds destination is refused")
		for i := range mem {
			vx.Assert(mem[i] == 0xa5, "a refused store changes memory")
		}
		vx.Cover("refused")
		return
	}
	vx.Assert(!bad, "a misaligned or out-of-bounds destination is accepted")
	vx.Cover("stored")
}

// smallType is a type without allocation.
func smallType() *ty {
	k := vx.Choice("type", len(allLeaves)+5)
	if k < len(allLeaves) {
		return leaf(allLeaves[k])
	}
	switch k - len(allLeaves) {
	case 0:
		return record(leaf(kU8), leaf(kU32))
	case 1:
		return variant(nil, leaf(kU16))
	case 2:
		return flags(9)
	case 3:
		return option(leaf(kU64))
	}
	return tuple(leaf(kF64), leaf(kU8))
}

// C04_Allocator covers every 32-bit address (or failure) the guest allocator may return while a list of up to 2 elements or a string is stored into or lowered to a memory of 24 bytes, in every string encoding.
func C04_Allocator() {
	const size = 24
	mem := make([]byte, size)
	for i := range mem {
		mem[i] = 0xa5
	}
	ret := vx.U32("realloc")
	fails := vx.Choice("realloc fails", 2) == 1
	var wantAlign, wantSize uint32
	calls := 0
	realloc := func(o, os, a, n uint32) (uint32, error) {
		calls++
		vx.Assert(a == wantAlign, "the allocator is asked for the wrong alignment")
		vx.Assert(n == wantSize, "the allocator is asked for the wrong size")
		if fails {
			return 0, fmt.Errorf("out of memory")
		}
		return ret, nil
	}
	enc := encoding.UTF8
	var t *ty
	var v any
	switch vx.Choice("type", 5) {
	case 0:
		t = list(pickLeaf(someLeaves))
		l := t.value().([]any)
		v, wantAlign, wantSize = l, t.sub[0].align(), uint32(len(l))*t.sub[0].size()
	case 1:
		t, v, wantAlign, wantSize = leaf(kString), "abc", 1, 3
	case 2:
		enc = encoding.UTF16
		t, v, wantAlign, wantSize = leaf(kString), "abc", 2, 6
	case 3:
		enc = encoding.Latin1Utf16
		t, v, wantAlign, wantSize = leaf(kString), "abc", 2, 3
	default:
		enc = encoding.Latin1Utf16
		t, v, wantAlign, wantSize = leaf(kString), "aЖc", 2, 6
	}
	cx := context(mem, enc, realloc)
	var err error
	if vx.Choice("lower", 2) == 1 {
		_, err = aio.LowerFlat(cx, v, t.v)
	} else {
		err = aio.Store(cx, v, t.v, 0)
	}
	vx.Assert(calls == 1, "the allocator is not called exactly once")
	bad := vx.Or(fails, ret&(wantAlign-1) != 0, uint64(ret)+uint64(wantSize) > size)
	if err != nil {
		vx.Assert(bad, "a good block from the allocator is refused")
		vx.Cover("refused")
		return
	}
	vx.Assert(!bad, "a misaligned or out-of-bounds block from the allocator is accepted")
	vx.Cover("stored")
}

// C04_HostValues covers storing and lowering host values of 18 Go shapes (all scalar contents) as each scalar type and seven composites: refused exactly when the value is not one of the type.
func C04_HostValues() {
	t := hostType()
	v := anyValue()
	mem := make([]byte, 64)
	a := &arena{32, 64}
	cx := context(mem, encoding.UTF8, a.realloc)
	var err error
	if vx.Choice("lower", 2) == 1 {
		_, err = aio.LowerFlat(cx, v, t.v)
	} else {
		err = aio.Store(cx, v, t.v, 0)
	}
	ok := t.belongs(v)
	if err != nil {
		vx.Assert(!ok, "a value of the type is refused")
		vx.Cover("refused")
		return
	}
	vx.Assert(ok, "a value that does not belong to the type is accepted")
	vx.Cover("accepted")
}

func hostType() *ty {
	k := vx.Choice("type", len(allLeaves)+9)
	if k < len(allLeaves) {
		return leaf(allLeaves[k])
	}
	switch k - len(allLeaves) {
	case 0:
		return leaf(kString)
	case 1:
		return list(leaf(kU8))
	case 2:
		return record(leaf(kU8))
	case 3:
		return tuple(leaf(kF32))
	case 4:
		return variant(leaf(kU8), nil)
	case 5:
		return variant(leaf(kF32), nil)
	case 6:
		return flags(1)
	case 7:
		return option(leaf(kChar))
	}
	return union(leaf(kU8), leaf(kS8))
}

// ---- C05 ---------------------------------------------------------------------------------------

// checkLoad compares loading with the reference reading of the bytes.
func checkLoad(t *ty, mem []byte, ptr uint32, compare bool) {
	cx := context(mem, encoding.UTF8, nil)
	got, err := aio.Load(cx, t.v, ptr)
	if err == nil {
		vx.Assert(t.inDomain(got), "the loaded value does not belong to the type")
	}
	if !compare {
		return
	}
	want, ok := t.load(mem, uint64(ptr))
	if !ok {
		vx.Assert(err != nil, "bytes that denote no value are accepted")
		vx.Cover("refused")
		return
	}
	vx.Assert(err == nil, "bytes that denote a value are refused")
	if t.k != kString {
		vx.Assert(t.same(got, want), "the loaded value is not the one the bytes denote")
	}
	vx.Cover("loaded")
}

// C05_Address covers every 32-bit address (also unaligned) in a memory of 12 arbitrary bytes, for the scalar types and small composites.
func C05_Address() {
	t := smallType()
	mem := vx.Bytes("mem", 12)
	ptr := vx.U32("ptr")
	need := t.least()
	inside := uint64(ptr)+uint64(t.size()) <= 12
	if ptr&(t.align()-1) != 0 {
		cx := context(mem, encoding.UTF8, nil)
		got, err := aio.Load(cx, t.v, ptr)
		if err == nil {
			vx.Assert(t.inDomain(got), "the loaded value does not belong to the type")
		}
		vx.Cover("unaligned")
		return
	}
	if inside {
		ptr = uint32(vx.Concrete(uint64(ptr)))
		checkLoad(t, mem, ptr, true)
		return
	}
	cx := context(mem, encoding.UTF8, nil)
	got, err := aio.Load(cx, t.v, ptr)
	if err == nil {
		vx.Assert(uint64(ptr)+uint64(need) <= 12, "loading outside memory succeeds")
		vx.Assert(t.inDomain(got), "the loaded value does not belong to the type")
	}
	vx.Cover("outside")
}

// C05_OneLevel covers all one-level types without lists over all twelve scalars, from arbitrary bytes at address 8 of a 24-byte memory.
func C05_OneLevel() {
	t := pickOne(allLeaves)
	if t.k == kList {
		vx.Stop()
	}
	checkLoad(t, vx.Bytes("mem", 24), 8, true)
}

// C05_Lists covers lists of scalars, records and variants, and strings, whose pointer and length are arbitrary 32-bit numbers, in a memory of 20 arbitrary bytes.
func C05_Lists() {
	mem := vx.Bytes("mem", 20)
	switch vx.Choice("type", 9) {
	case 0:
		checkLoad(list(leaf(kU8)), mem, 0, true)
	case 1:
		checkLoad(list(leaf(kU16)), mem, 0, true)
	case 2:
		checkLoad(list(leaf(kU64)), mem, 0, true)
	case 3:
		checkLoad(list(leaf(kChar)), mem, 0, true)
	case 4:
		checkLoad(list(record(leaf(kU8), leaf(kU32))), mem, 0, true)
	case 5:
		checkLoad(list(variant(nil, leaf(kU16))), mem, 0, true)
	case 6:
		checkLoad(list(leaf(kF64)), mem, 4, true)
	case 7:
		checkLoad(option(list(leaf(kU32))), mem, 0, true)
	default:
		checkLoad(list(list(leaf(kU32))), mem, 0, true)
	}
}

// C05_Strings covers strings whose pointer and length are arbitrary 32-bit numbers, in a memory of 12 bytes with ASCII contents where the string lies.
func C05_Strings() {
	mem := vx.Bytes("mem", 12)
	for i := 8; i < 12; i++ {
		mem[i] = 'x'
	}
	cx := context(mem, encoding.UTF8, nil)
	ptr, n := uint32(le(mem, 0, 4)), uint32(le(mem, 4, 4))
	vx.Assume(vx.Or(ptr >= 8, n == 0))
	got, err := aio.Load(cx, types.NewString(), 0)
	inside := uint64(ptr)+uint64(n) <= 12
	if err != nil {
		vx.Assert(!inside, "a string inside memory is refused")
		vx.Cover("refused")
		return
	}
	vx.Assert(inside, "a string outside memory is accepted")
	s, ok := got.(string)
	vx.Assert(ok, "the loaded value is not a string")
	vx.Assert(uint32(len(s)) == n, "the loaded string has the wrong length")
	vx.Cover("loaded")
}

// C05_TwoLevels covers the two-level types over u8, u64 and f32 from arbitrary bytes; list pointers range over a 32-byte memory.
//
// vx:tier thorough
func C05_TwoLevels() {
	t := pickTwo(fewLeaves)
	checkLoad(t, vx.Bytes("mem", 32), 0, t.noString())
}

func (t *ty) noString() bool {
	if t.k == kString {
		return false
	}
	for _, s := range t.sub {
		if s != nil && !s.noString() {
			return false
		}
	}
	return true
}

// C05_Refinements covers variants of three cases each of which may refine any label (also itself or a cycle): loading arbitrary bytes ends.
func C05_Refinements() {
	v := refinedVariant()
	mem := vx.Bytes("mem", 4)
	cx := context(mem, encoding.UTF8, nil)
	_, err := aio.Load(cx, v, 0)
	vx.Assert((err != nil) == (mem[0] > 2), "loading a variant with refinements fails or succeeds wrongly")
	vx.Cover("ended")
}

func refinedVariant() types.Variant {
	var cs []types.Case
	for i := 0; i < 3; i++ {
		c := types.Case{Label: label("c", i)}
		if k := vx.Choice("refines", 5); k > 0 {
			s := label("c", k-1)
			c.Refines = &s
		}
		cs = append(cs, c)
	}
	return types.NewVariant(cs...)
}

// ---- C06 ---------------------------------------------------------------------------------------

func checkLift(t *ty, mem []byte, seq []core) {
	var vs []values.Value
	for _, c := range seq {
		vs = append(vs, c.value())
	}
	cx := context(mem, encoding.UTF8, nil)
	it := values.NewIterator(vs...)
	got, err := aio.LiftFlat(cx, it, t.v)
	if err == nil {
		vx.Assert(t.inDomain(got), "the lifted value does not belong to the type")
	}
	want := t.flat()
	good := len(seq) >= len(want)
	var bits []uint64
	for i := range want {
		if !good || seq[i].k != want[i] {
			good = false
			break
		}
		bits = append(bits, seq[i].v)
	}
	if !good {
		vx.Assert(err != nil, "a sequence that is too short or of the wrong kinds is accepted")
		vx.Cover("wrong sequence")
		return
	}
	w, ok := t.lift(mem, bits)
	if !ok {
		vx.Assert(err != nil, "core values that denote no value are accepted")
		vx.Cover("refused")
		return
	}
	vx.Assert(err == nil, "core values that denote a value are refused")
	vx.Assert(it.Index() == len(want), "lifting does not consume exactly the slots of the type")
	vx.Assert(t.same(got, w), "the lifted value is not the one the core values denote")
	vx.Cover("lifted")
}

var kinds = []kind.Kind{kind.U32, kind.U64, kind.Float32, kind.Float64}

// C06_Sequences covers sequences of 0 to 3 core values of any kinds and any contents, for the scalar types and small composites.
func C06_Sequences() {
	t := smallType()
	var seq []core
	n := vx.Choice("len", 4)
	for i := 0; i < n; i++ {
		seq = append(seq, pickCore(kinds[vx.Choice("kind", 4)]))
	}
	checkLift(t, nil, seq)
}

func rightSequence(t *ty) []core {
	var seq []core
	for _, k := range t.flat() {
		seq = append(seq, pickCore(k))
	}
	return seq
}

// C06_OneLevel covers one-level types without lists over all twelve scalars, with core values of the right kinds and any contents.
func C06_OneLevel() {
	t := pickOne(allLeaves)
	if t.k == kList {
		vx.Stop()
	}
	checkLift(t, nil, rightSequence(t))
}

// C06_TwoLevels covers two-level types over u8, u64 and f32, with core values of the right kinds and any contents; list pointers range over a 16-byte memory of arbitrary contents.
func C06_TwoLevels() {
	t := pickTwo(fewLeaves)
	if !t.noString() || t.k == kList && t.sub[0].k == kList {
		vx.Stop()
	}
	checkLift(t, vx.Bytes("mem", 16), rightSequence(t))
}

// C06_Short covers one-level types over six scalars with sequences of right kinds that stop anywhere before the end.
func C06_Short() {
	t := pickOne(someLeaves)
	seq := rightSequence(t)
	if len(seq) == 0 || len(seq) > 4 {
		vx.Stop()
	}
	checkLift(t, vx.Bytes("mem", 8), seq[:vx.Choice("cut", len(seq))])
}

// C06_Refinements covers variants of three cases each of which may refine any label (also itself or a cycle): lifting ends.
func C06_Refinements() {
	v := refinedVariant()
	d := vx.U32("disc")
	cx := context(nil, encoding.UTF8, nil)
	_, err := aio.LiftFlat(cx, values.NewIterator(values.U32(d)), v)
	vx.Assert((err != nil) == (d > 2), "lifting a variant with refinements fails or succeeds wrongly")
	vx.Cover("ended")
}

// ---- C07 ---------------------------------------------------------------------------------------

// C07_Direct covers all bit patterns of both float types stored, loaded, lowered and lifted.
func C07_Direct() {
	mem := vx.Bytes("mem", 8)
	cx := context(mem, encoding.UTF8, nil)
	if vx.Choice("width", 2) == 0 {
		b := vx.U32("bits")
		f := math.Float32frombits(b)
		switch vx.Choice("way", 4) {
		case 0:
			vx.Assert(aio.Store(cx, f, types.NewF32(), 4) == nil, "storing a float fails")
			vx.Assert(uint32(le(mem, 4, 4)) == canon32(b), "stored bits differ")
		case 1:
			for i := 0; i < 4; i++ {
				mem[i] = byte(b >> (8 * i))
			}
			v, err := aio.Load(cx, types.NewF32(), 0)
			vx.Assert(err == nil, "loading a float fails")
			vx.Assert(math.Float32bits(v.(float32)) == canon32(b), "loaded bits differ")
		case 2:
			vs, err := aio.LowerFlat(cx, f, types.NewF32())
			vx.Assert(err == nil && len(vs) == 1, "lowering a float fails")
			vx.Assert(coreOf(vs[0]).v == uint64(canon32(b)), "lowered bits differ")
		default:
			v, err := aio.LiftFlat(cx, values.NewIterator(values.Float32(f)), types.NewF32())
			vx.Assert(err == nil, "lifting a float fails")
			vx.Assert(math.Float32bits(v.(float32)) == canon32(b), "lifted bits differ")
		}
	} else {
		b := vx.U64("bits")
		f := math.Float64frombits(b)
		switch vx.Choice("way", 4) {
		case 0:
			vx.Assert(aio.Store(cx, f, types.NewF64(), 0) == nil, "storing a float fails")
			vx.Assert(le(mem, 0, 8) == canon64(b), "stored bits differ")
		case 1:
			for i := 0; i < 8; i++ {
				mem[i] = byte(b >> (8 * i))
			}
			v, err := aio.Load(cx, types.NewF64(), 0)
			vx.Assert(err == nil, "loading a float fails")
			vx.Assert(math.Float64bits(v.(float64)) == canon64(b), "loaded bits differ")
		case 2:
			vs, err := aio.LowerFlat(cx, f, types.NewF64())
			vx.Assert(err == nil && len(vs) == 1, "lowering a float fails")
			vx.Assert(coreOf(vs[0]).v == canon64(b), "lowered bits differ")
		default:
			v, err := aio.LiftFlat(cx, values.NewIterator(values.Float64(f)), types.NewF64())
			vx.Assert(err == nil, "lifting a float fails")
			vx.Assert(math.Float64bits(v.(float64)) == canon64(b), "lifted bits differ")
		}
	}
	vx.Cover("moved")
}

// C07_Slots covers all bit patterns of both float types as a variant case next to a case of every other scalar type, so that they travel in float, i32 and i64 slots, lowered and lifted.
func C07_Slots() {
	fk := []int{kF32, kF64}[vx.Choice("width", 2)]
	t := variant(pickLeaf(allLeaves), leaf(fk))
	cx := context(nil, encoding.UTF8, nil)
	want := t.flat()
	var bits, can uint64
	var f any
	if fk == kF32 {
		b := vx.U32("bits")
		bits, can, f = uint64(b), uint64(canon32(b)), math.Float32frombits(b)
	} else {
		b := vx.U64("bits")
		bits, can, f = b, canon64(b), math.Float64frombits(b)
	}
	if vx.Choice("way", 2) == 0 {
		vs, err := aio.LowerFlat(cx, map[string]any{"c1": f}, t.v)
		vx.Assert(err == nil && len(vs) == 2, "lowering a float case fails")
		c := coreOf(vs[1])
		vx.Assert(c.k == want[1], "the float travels in a slot of the wrong kind")
		vx.Assert(c.v == can, "lowered bits differ")
	} else {
		if want[1] == kind.U64 && fk == kF32 {
			bits |= uint64(vx.U32("high")) << 32 // ignored upper half of the slot
		}
		it := values.NewIterator(values.U32(1), core{want[1], bits}.value())
		v, err := aio.LiftFlat(cx, it, t.v)
		vx.Assert(err == nil, "lifting a float case fails")
		vx.Assert(t.same(v, map[string]any{"c1": f}), "lifted bits differ")
	}
	vx.Cover("moved")
}
