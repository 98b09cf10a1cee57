package h

import (
	"bytes"
	"fmt"
	"strconv"

	aio "github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"
	"github.com/patrickhuber/go-wasm/encoding"
	"github.com/patrickhuber/go-wasm/zz_verif/vx"
	"golang.org/x/text/encoding/charmap"
)

// ---- C08: strings ----------------------------------------------------------------------------

// runeUTF8 is any code point of the class: 0 ASCII, 1 other Latin-1, 2 other two-byte,
// 3 three-byte, 4 four-byte; its UTF-8 bytes and its number.
func runeUTF8(class int) ([]byte, uint32) {
	c := vx.U32("rune")
	switch class {
	case 0:
		vx.Assume(c < 0x80)
		return []byte{byte(c)}, c
	case 1:
		vx.Assume(vx.And(c >= 0x80, c < 0x100))
	case 2:
		vx.Assume(vx.And(c >= 0x100, c < 0x800))
	case 3:
		vx.Assume(vx.And(c >= 0x800, c < 0x10000, vx.Or(c < 0xd800, c > 0xdfff)))
		return []byte{byte(0xe0 | c>>12), byte(0x80 | c>>6&0x3f), byte(0x80 | c&0x3f)}, c
	case 4:
		vx.Assume(vx.And(c >= 0x10000, c < 0x110000))
		return []byte{byte(0xf0 | c>>18), byte(0x80 | c>>12&0x3f), byte(0x80 | c>>6&0x3f), byte(0x80 | c&0x3f)}, c
	}
	return []byte{byte(0xc0 | c>>6), byte(0x80 | c&0x3f)}, c
}

func utf16Bytes(rs []uint32, cl []int, big bool) []byte {
	var out []byte
	unit := func(u uint32) {
		if big {
			out = append(out, byte(u>>8), byte(u))
		} else {
			out = append(out, byte(u), byte(u>>8))
		}
	}
	for i, r := range rs {
		if cl[i] == 4 {
			unit(0xd800 | (r-0x10000)>>10)
			unit(0xdc00 | (r-0x10000)&0x3ff)
		} else {
			unit(r)
		}
	}
	return out
}

var encodings = []encoding.Encoding{encoding.UTF8, encoding.UTF16, encoding.Latin1Utf16, encoding.UTF16LE, encoding.UTF16BE, encoding.Latin1}

func checkString(max int) {
	enc := encodings[vx.Choice("encoding", len(encodings))]
	n := vx.Choice("runes", max+1)
	var text []byte
	var rs []uint32
	var cl []int
	wide := false
	for i := 0; i < n; i++ {
		c := vx.Choice("class", 5)
		b, r := runeUTF8(c)
		text, rs, cl = append(text, b...), append(rs, r), append(cl, c)
		wide = wide || c > 1
	}
	s := string(text)
	const size = 8 + 4*4 + 4
	mem := vx.Bytes("mem", size)
	a := &arena{8, size}
	cx := context(mem, enc, a.realloc)
	if enc == encoding.Latin1 && wide {
		vx.Assert(aio.Store(cx, s, types.NewString(), 0) != nil, "a string outside Latin-1 is stored as Latin-1")
		vx.Cover("not Latin-1")
		return
	}
	var want []byte
	var units, tag uint32
	switch {
	case enc == encoding.UTF8:
		want, units = text, uint32(len(text))
	case enc == encoding.UTF16BE:
		want = utf16Bytes(rs, cl, true)
		units = uint32(len(want) / 2)
	case enc == encoding.Latin1 || enc == encoding.Latin1Utf16 && !wide:
		for _, r := range rs {
			want = append(want, byte(r))
		}
		units = uint32(len(want))
	default:
		want = utf16Bytes(rs, cl, false)
		units = uint32(len(want) / 2)
		if enc == encoding.Latin1Utf16 {
			tag = 1 << 31
		}
	}
	var ptr, length uint32
	if vx.Choice("flat", 2) == 0 {
		vx.Assert(aio.Store(cx, s, types.NewString(), 0) == nil, "storing a string fails")
		ptr, length = uint32(le(mem, 0, 4)), uint32(le(mem, 4, 4))
	} else {
		vs, err := aio.LowerFlat(cx, s, types.NewString())
		vx.Assert(err == nil && len(vs) == 2, "lowering a string fails")
		ptr, length = uint32(coreOf(vs[0]).v), uint32(coreOf(vs[1]).v)
	}
	vx.Assert(length == units|tag, "the stored length is not the number of code units")
	vx.Assert(ptr == 8, "the string is not in the block of the allocator")
	ok := true
	for i := range want {
		ok = vx.And(ok, mem[8+i] == want[i])
	}
	vx.Assert(ok, "the stored bytes are not the encoded string")
	got, err := aio.LiftFlat(cx, values.NewIterator(values.U32(ptr), values.U32(length)), types.NewString())
	vx.Assert(err == nil, "lifting a stored string fails")
	g, isStr := got.(string)
	vx.Assert(isStr && len(g) == len(s), "the loaded string has another length")
	vx.Assert(g == s, "the loaded string differs")
	vx.Cover("round trip")
}

// C08_RoundTrip covers strings of up to 3 arbitrary code points (4 in the thorough tier) in UTF-8, UTF-16 (little, big endian), Latin-1 and the dual encoding, stored or lowered, then lifted.
//
// vx:share 3
func C08_RoundTrip() {
	if vx.Thorough() {
		checkString(4)
	} else {
		checkString(3)
	}
}

// C08_Range covers every 32-bit pointer and length (UTF-16 lengths below 2^31) of a string in a memory of 9 zero bytes, in every encoding.
func C08_Range() {
	enc := encodings[vx.Choice("encoding", len(encodings))]
	mem := make([]byte, 9)
	cx := context(mem, enc, nil)
	ptr, length := vx.U32("ptr"), vx.U32("len")
	unit, align := uint64(1), uint32(1)
	n := uint64(length)
	switch enc {
	case encoding.UTF16, encoding.UTF16LE, encoding.UTF16BE:
		unit, align = 2, 2
		vx.Assume(length < 1<<31) // see C08_Utf16Tag
	case encoding.Latin1Utf16:
		align = 2
		if length >= 1<<31 {
			unit = 2
			n -= 1 << 31
		}
	case encoding.Latin1:
		align = 2 // the alignment this encoding declares
	}
	got, err := aio.LiftFlat(cx, values.NewIterator(values.U32(ptr), values.U32(length)), types.NewString())
	good := vx.And(ptr&(align-1) == 0, uint64(ptr)+n*unit <= 9)
	if err != nil {
		vx.Assert(!good, "a string that fits memory is refused")
		vx.Cover("refused")
		return
	}
	vx.Assert(good, "a string that is misaligned or reaches outside memory is accepted")
	s, ok := got.(string)
	vx.Assert(ok && uint64(len(s)) == n, "the loaded string has the wrong length")
	vx.Cover("loaded")
}

// C08_Utf16Tag covers UTF-16 lengths of 2^31 and more in a memory of 8 bytes: none of them fits.
func C08_Utf16Tag() {
	cx := context(make([]byte, 8), encoding.UTF16, nil)
	length := vx.U32("len")
	vx.Assume(length >= 1<<31)
	_, err := aio.LiftFlat(cx, values.NewIterator(values.U32(0), values.U32(length)), types.NewString())
	vx.Assert(err != nil, "a UTF-16 string of 2^31 or more code units is accepted from a memory of 8 bytes")
	vx.Cover("refused")
}

// C08_Units covers the tagged code unit count: every 32-bit number.
func C08_Units() {
	i := vx.U32("units")
	t := aio.UInt32ToTaggedCodeUnits(i)
	vx.Assert(t.CodeUnits == i&0x7fffffff, "wrong code unit count")
	vx.Assert(t.UTF16 == (i>>31 == 1), "wrong tag")
	vx.Assert(t.ToUInt32() == i, "the tagged count does not survive")
	vx.Cover("units")
}

// ---- C09: handle tables ------------------------------------------------------------------------

// tableState is any table of up to n slots in which the free list holds each empty slot once.
func tableState(n int) (*types.HandleTable, []*types.HandleElem) {
	ht := &types.HandleTable{}
	size := vx.Choice("slots", n+1)
	var live []*types.HandleElem
	var free []uint32
	for i := 0; i < size; i++ {
		if vx.Choice("live", 2) == 1 {
			h := &types.HandleElem{Rep: vx.U32("rep"), Own: true}
			live = append(live, h)
		} else {
			live = append(live, nil)
			free = append(free, uint32(i))
		}
	}
	// any order of the free list
	for len(free) > 0 {
		k := vx.Choice("free", len(free))
		ht.Free = append(ht.Free, free[k])
		free = append(append([]uint32{}, free[:k]...), free[k+1:]...)
	}
	ht.Array = append(ht.Array, live...)
	return ht, live
}

func checkTable(ht *types.HandleTable, live []*types.HandleElem) {
	for i, h := range live {
		got, err := ht.Get(uint32(i))
		if h == nil {
			vx.Assert(err != nil, "a removed index is still accepted")
			continue
		}
		vx.Assert(err == nil, "a live index is refused")
		vx.Assert(got == h, "a live index yields another handle")
	}
	i := vx.U32("beyond")
	vx.Assume(i >= uint32(len(live)))
	_, err := ht.Get(i)
	vx.Assert(err != nil, "an index that was never issued is accepted")
	// the state is again one the step starts from
	seen := make([]bool, len(live))
	for _, f := range ht.Free {
		f = uint32(vx.Concrete(uint64(f)))
		vx.Assert(int(f) < len(live) && live[f] == nil && !seen[f], "the free list is not the set of removed indices")
		seen[f] = true
	}
	for i, h := range live {
		vx.Assert(h != nil || seen[i], "a removed index is lost from the free list")
	}
}

// C09_Add is an inductive step: one addition to any consistent table of up to 4 slots (5 in the thorough tier), any free-list order.
func C09_Add() {
	ht, live := tableState(tableSlots())
	h := &types.HandleElem{Rep: vx.U32("new")}
	i, err := ht.Add(h)
	vx.Assert(err == nil, "adding a handle fails")
	vx.Assert(i <= uint32(len(live)), "an addition leaves unused indices behind")
	i = uint32(vx.Concrete(uint64(i)))
	if int(i) == len(live) {
		live = append(live, h)
	} else {
		vx.Assert(live[i] == nil, "an addition returns an index that is still live")
		live[i] = h
	}
	checkTable(ht, live)
	vx.Cover("added")
}

func tableSlots() int {
	if vx.Thorough() {
		return 5
	}
	return 4
}

// C09_Remove is an inductive step: removing any 32-bit index from any consistent table of up to 4 slots (5 in the thorough tier).
func C09_Remove() {
	ht, live := tableState(tableSlots())
	rt := types.NewResourceType(nil, nil)
	i := vx.U32("index")
	h, err := ht.Remove(rt, i)
	known := false
	for k := range live {
		if live[k] != nil && uint32(k) == i {
			known = true
			vx.Assert(err == nil, "removing a live handle fails")
			vx.Assert(h == live[k], "removing yields another handle")
			live[k] = nil
		}
	}
	if !known {
		vx.Assert(err != nil, "removing a dead or unknown index succeeds")
		vx.Cover("refused")
	} else {
		vx.Cover("removed")
	}
	checkTable(ht, live)
}

// C09_Histories covers all sequences of 4 (5 in the thorough tier) additions, removals and lookups on two tables, with arbitrary removal indices.
func C09_Histories() {
	ops := 4
	if vx.Thorough() {
		ops = 5
	}
	rts := []types.ResourceType{types.NewResourceType(nil, nil), types.NewResourceType(nil, newInstance())}
	tabs := &types.HandleTables{}
	if vx.Choice("map", 2) == 1 {
		tabs.ResourceTypeToTable = map[types.ResourceType]*types.HandleTable{}
	}
	live := [2]map[uint32]*types.HandleElem{{}, {}}
	for k := 0; k < ops; k++ {
		w := vx.Choice("table", 2)
		if vx.Choice("op", 2) == 0 {
			h := &types.HandleElem{Rep: uint32(k)}
			i, err := tabs.Add(rts[w], h)
			vx.Assert(err == nil, "adding a handle fails")
			i = uint32(vx.Concrete(uint64(i)))
			vx.Assert(live[w][i] == nil, "an addition returns an index that is still live")
			live[w][i] = h
		} else {
			i := uint32(vx.Choice("index", ops))
			h, err := tabs.Remove(rts[w], i)
			if live[w][i] == nil {
				vx.Assert(err != nil, "removing a dead or unknown index succeeds")
			} else {
				vx.Assert(err == nil, "removing a live handle fails")
				vx.Assert(h == live[w][i], "removing yields another handle")
				delete(live[w], i)
			}
		}
		for w := 0; w < 2; w++ {
			for i := uint32(0); i < uint32(ops); i++ {
				h, err := tabs.Get(rts[w], i)
				if live[w][i] == nil {
					vx.Assert(err != nil, "a dead index is accepted")
				} else {
					vx.Assert(err == nil, "a live index is refused")
					vx.Assert(h == live[w][i], "a live index yields another handle")
				}
			}
		}
	}
	vx.Cover("history")
}

// ---- C10: ownership ------------------------------------------------------------------------------

// handleWorld is an instance with one handle of resource type rt at index 0 in any state.
type handleWorld struct {
	inst, impl *types.ComponentInstance
	rt         types.ResourceType
	h          *types.HandleElem
	scope      *types.CallContext
	dtors      int
	dtorRep    uint32
}

func newHandleWorld() *handleWorld {
	w := &handleWorld{inst: newInstance(), impl: newInstance()}
	w.rt = types.NewResourceType(func(rep uint32) { w.dtors++; w.dtorRep = rep }, w.impl)
	w.h = &types.HandleElem{Rep: vx.U32("rep"), LendCount: vx.Choice("lends", 3), Own: vx.Choice("own", 2) == 1}
	if !w.h.Own {
		w.scope = &types.CallContext{Instance: w.inst}
		w.h.Scope = w.scope
	}
	i, err := w.inst.Handles.Add(w.rt, w.h)
	vx.Assert(err == nil && i == 0, "adding a handle to an empty table fails")
	if w.scope != nil {
		vx.Assert(w.scope.BorrowCount == 1, "a borrowed handle is not counted in its call")
	}
	return w
}

func (w *handleWorld) present() bool {
	h, err := w.inst.Handles.Get(w.rt, 0)
	return err == nil && h == w.h
}

func (w *handleWorld) context() *types.CallContext {
	return &types.CallContext{Instance: w.inst, Options: &types.CanonicalOptions{Memory: bytes.NewBuffer(make([]byte, 8)), StringEncoding: encoding.UTF8}}
}

// C10_LiftOwn covers lifting (flat or from memory) any index as an owned handle, when index 0 is owned or borrowed, lent 0 to 2 times.
func C10_LiftOwn() {
	w := newHandleWorld()
	i := vx.U32("index")
	cx := w.context()
	got, err := w.lift(cx, i, types.NewOwn(w.rt))
	if i == 0 && w.h.Own && w.h.LendCount == 0 {
		vx.Assert(err == nil, "lifting an owned handle fails")
		rep, ok := got.(uint32)
		vx.Assert(ok && rep == w.h.Rep, "lifting an owned handle yields another representation")
		vx.Assert(!w.present(), "a lifted owned handle stays in the table")
		vx.Cover("lifted")
		return
	}
	vx.Assert(err != nil, "a borrowed, lent or unknown handle is lifted as owned")
	vx.Assert(w.present(), "a refused handle is removed from the table")
	if w.scope != nil {
		vx.Assert(w.scope.BorrowCount == 1, "a refused lift changes the borrow count")
	}
	vx.Assert(w.dtors == 0, "lifting runs the destructor")
	vx.Cover("refused")
}

func (w *handleWorld) lift(cx *types.CallContext, i uint32, t types.ValType) (any, error) {
	if vx.Choice("memory", 2) == 1 {
		mem := cx.Options.Memory.Bytes()
		for k := 0; k < 4; k++ {
			mem[k] = byte(i >> (8 * k))
		}
		return aio.Load(cx, t, 0)
	}
	return aio.LiftFlat(cx, values.NewIterator(values.U32(i)), t)
}

// C10_LiftBorrow covers lifting (flat or from memory) any index as a borrow, one or two times, and the end of the call.
func C10_LiftBorrow() {
	w := newHandleWorld()
	lends := w.h.LendCount
	i := vx.U32("index")
	cx := w.context()
	times := 1 + vx.Choice("times", 2)
	for k := 0; k < times; k++ {
		got, err := w.lift(cx, i, types.NewBorrow(w.rt))
		if i != 0 {
			vx.Assert(err != nil, "an unknown handle is borrowed")
			vx.Assert(w.h.LendCount == lends, "a refused borrow is counted")
			vx.Cover("refused")
			return
		}
		vx.Assert(err == nil, "borrowing a handle fails")
		rep, ok := got.(uint32)
		vx.Assert(ok && rep == w.h.Rep, "borrowing yields another representation")
		vx.Assert(w.h.LendCount == lends+k+1, "a borrow is not counted against the lender")
		vx.Assert(w.present(), "borrowing removes the handle")
		vx.Assert(aio.CanonResourceDrop(w.inst, w.rt, 0) != nil, "a lent handle is dropped")
		_, err = aio.LiftFlat(w.context(), values.NewIterator(values.U32(0)), types.NewOwn(w.rt))
		vx.Assert(err != nil, "a lent handle is given away")
	}
	vx.Assert(cx.ExitCall() == nil, "a call without received borrows cannot end")
	vx.Assert(w.h.LendCount == lends, "the end of the call does not return the lends")
	vx.Cover("borrowed")
}

// C10_Lower covers lowering any representation as an owned handle or a borrow (flat or to memory), to an instance that does or does not implement the resource.
func C10_Lower() {
	inst := newInstance()
	impl := newInstance()
	same := vx.Choice("same", 2) == 1
	if same {
		impl = inst
	}
	rt := types.NewResourceType(nil, impl)
	rep := vx.U32("rep")
	mem := make([]byte, 8)
	cx := &types.CallContext{Instance: inst, Options: &types.CanonicalOptions{Memory: bytes.NewBuffer(mem), StringEncoding: encoding.UTF8}}
	own := vx.Choice("own", 2) == 1
	var t types.ValType = types.NewBorrow(rt)
	if own {
		t = types.NewOwn(rt)
	}
	var i uint32
	if vx.Choice("memory", 2) == 1 {
		vx.Assert(aio.Store(cx, rep, t, 4) == nil, "storing a handle fails")
		i = uint32(le(mem, 4, 4))
	} else {
		vs, err := aio.LowerFlat(cx, rep, t)
		vx.Assert(err == nil && len(vs) == 1, "lowering a handle fails")
		i = uint32(coreOf(vs[0]).v)
	}
	if same && !own {
		vx.Assert(i == rep, "the implementing instance does not receive the representation itself")
		vx.Assert(cx.BorrowCount == 0, "a borrow passed to the implementing instance is counted")
		vx.Cover("representation")
		return
	}
	h, err := inst.Handles.Get(rt, i)
	vx.Assert(err == nil, "the lowered index is not in the table")
	vx.Assert(h.Rep == rep && h.LendCount == 0, "the lowered handle is another resource or lent")
	vx.Assert(h.Own == own, "the lowered handle has the wrong ownership")
	if own {
		vx.Assert(cx.BorrowCount == 0 && h.Scope == nil, "an owned handle is scoped to the call")
		vx.Assert(cx.ExitCall() == nil, "a call that received an owned handle cannot end")
		vx.Cover("own")
		return
	}
	vx.Assert(cx.BorrowCount == 1 && h.Scope == cx, "a borrow is not counted in the call")
	vx.Assert(cx.ExitCall() != nil, "a call ends while a borrow it received is outstanding")
	vx.Assert(aio.CanonResourceDrop(inst, rt, i) == nil, "dropping a borrow fails")
	vx.Assert(cx.BorrowCount == 0, "dropping a borrow is not counted")
	vx.Assert(cx.ExitCall() == nil, "a call cannot end after its borrows are dropped")
	vx.Cover("borrow")
}

// C10_Drop covers dropping any index when index 0 is owned or borrowed, lent 0 to 2 times, with and without a destructor, inside or outside the implementing instance.
func C10_Drop() {
	w := newHandleWorld()
	i := vx.U32("index")
	mayEnter := vx.Choice("mayenter", 2) == 1
	w.impl.MayEnter = mayEnter
	inst := w.inst
	err := aio.CanonResourceDrop(inst, w.rt, i)
	if i != 0 || w.h.LendCount > 0 {
		vx.Assert(err != nil, "a lent or unknown handle is dropped")
		vx.Assert(w.present() && w.dtors == 0, "a refused drop has effects")
		vx.Cover("refused")
		return
	}
	if w.h.Own && !mayEnter {
		vx.Assert(err != nil && w.dtors == 0, "a destructor runs in an instance that may not be entered")
		vx.Cover("no entry")
		return
	}
	vx.Assert(err == nil, "dropping a handle fails")
	vx.Assert(!w.present(), "a dropped handle stays in the table")
	if w.h.Own {
		vx.Assert(w.dtors == 1 && w.dtorRep == w.h.Rep, "the destructor does not run exactly once for the dropped resource")
	} else {
		vx.Assert(w.dtors == 0, "dropping a borrow runs the destructor")
		vx.Assert(w.scope.BorrowCount == 0, "dropping a borrow is not counted in its call")
	}
	vx.Assert(aio.CanonResourceDrop(inst, w.rt, 0) != nil, "a handle is dropped twice")
	if w.h.Own {
		vx.Assert(w.dtors == 1, "the destructor runs twice")
	}
	vx.Cover("dropped")
}

// C10_NewRep covers creating a resource and reading its representation, any 32-bit representation.
func C10_NewRep() {
	w := newHandleWorld()
	rep := vx.U32("rep2")
	i, err := aio.CanonResourceNew(w.inst, w.rt, rep)
	vx.Assert(err == nil, "creating a resource fails")
	idx, ok := i.(uint32)
	vx.Assert(ok && idx != 0, "a new resource takes a live index")
	got, err := aio.CanonResourceRep(w.inst, w.rt, idx)
	vx.Assert(err == nil && got == rep, "a new resource has another representation")
	got, err = aio.CanonResourceRep(w.inst, w.rt, 0)
	vx.Assert(err == nil && got == w.h.Rep, "creating a resource changes another one")
	h, _ := w.inst.Handles.Get(w.rt, idx)
	vx.Assert(h.Own && h.LendCount == 0, "a new resource is not owned")
	other := vx.U32("other")
	vx.Assume(other > idx)
	_, err = aio.CanonResourceRep(w.inst, w.rt, other)
	vx.Assert(err != nil, "an unknown handle has a representation")
	vx.Cover("created")
}

// C10_Call covers a call out of a component that passes one own and one borrowed handle and gets an own result back, any representations; the borrow is returned when the call ends.
func C10_Call() {
	inst := newInstance()
	rt := types.NewResourceType(nil, newInstance())
	a, b, c := vx.U32("a"), vx.U32("b"), vx.U32("c")
	ia, _ := aio.CanonResourceNew(inst, rt, a)
	ib, _ := aio.CanonResourceNew(inst, rt, b)
	hb, _ := inst.Handles.Get(rt, ib.(uint32))
	opts := &types.CanonicalOptions{Memory: bytes.NewBuffer(nil), StringEncoding: encoding.UTF8}
	ft := types.NewFuncType([]types.Parameter{{Type: types.NewOwn(rt)}, {Type: types.NewBorrow(rt)}}, []types.Parameter{{Type: types.NewOwn(rt)}})
	ran := 0
	callee := func(args []any) ([]any, types.PostReturnFunc, error) {
		ran++
		vx.Assert(len(args) == 2 && args[0] == any(a) && args[1] == any(b), "the callee receives other representations")
		_, err := inst.Handles.Get(rt, ia.(uint32))
		vx.Assert(err != nil, "an own handle that was passed on is still usable")
		vx.Assert(hb.LendCount == 1, "a borrow passed on is not counted during the call")
		return []any{c}, func() {}, nil
	}
	res, err := aio.CanonLower(opts, inst, callee, true, ft, []any{values.U32(ia.(uint32)), values.U32(ib.(uint32))}, 16, 1)
	vx.Assert(err == nil && len(res) == 1 && ran == 1, "a call with handles fails")
	vx.Assert(hb.LendCount == 0, "a borrow is not returned after the call")
	rv, ok := res[0].(values.Value)
	vx.Assert(ok, "the result is no core value")
	rep, err := aio.CanonResourceRep(inst, rt, uint32(coreOf(rv).v))
	vx.Assert(err == nil && rep == c, "the returned own handle is another resource")
	vx.Cover("called")
}

// C10_OutstandingBorrow covers a lifted call whose core function keeps or drops the borrow it received: finishing the call must be refused while it is kept.
func C10_OutstandingBorrow() {
	inst := newInstance()
	rt := types.NewResourceType(nil, newInstance())
	rep := vx.U32("rep")
	keep := vx.Choice("keep", 2) == 1
	opts := &types.CanonicalOptions{Memory: bytes.NewBuffer(nil), StringEncoding: encoding.UTF8}
	ft := types.NewFuncType([]types.Parameter{{Type: types.NewBorrow(rt)}}, nil)
	ended := false
	callee := func(x any) (any, error) {
		v := x.([]any)[0].(values.Value)
		if !keep {
			if err := aio.CanonResourceDrop(inst, rt, uint32(coreOf(v).v)); err != nil {
				return nil, err
			}
		}
		return []any{}, nil
	}
	_, post, err := aio.CanonLift(opts, inst, callee, ft, []any{rep}, 16, 1)
	if err == nil {
		if !vx.Panics(post) {
			ended = true
		}
	}
	if keep {
		vx.Assert(!ended, "a lifted call ends silently while a borrow it received is outstanding")
		vx.Cover("kept")
	} else {
		vx.Assert(ended, "a lifted call that dropped its borrows does not end")
		vx.Cover("dropped")
	}
}

// ---- C11: calls --------------------------------------------------------------------------------

func callTypes(n int) []*ty {
	var ts []*ty
	for i := 0; i < n; i++ {
		switch vx.Choice("param", 5) {
		case 0:
			ts = append(ts, leaf(kU8))
		case 1:
			ts = append(ts, leaf(kS64))
		case 2:
			ts = append(ts, leaf(kF32))
		case 3:
			ts = append(ts, variant(leaf(kU16), leaf(kF64)))
		default:
			ts = append(ts, list(leaf(kU16)))
		}
	}
	return ts
}

func funcType(ps, rs []*ty) types.FuncType {
	var p, r []types.Parameter
	for i, t := range ps {
		p = append(p, types.Parameter{Name: label("p", i), Type: t.v})
	}
	for i, t := range rs {
		r = append(r, types.Parameter{Name: label("r", i), Type: t.v})
	}
	return types.NewFuncType(p, r)
}

func flatCount(ts []*ty) int {
	n := 0
	for _, t := range ts {
		n += len(t.flat())
	}
	return n
}

// checkArgs compares core values handed to core code with the component values vals.
func checkArgs(mem []byte, ts []*ty, vals []any, flat []any, max int, what string) {
	if flatCount(ts) <= max {
		vx.Assert(len(flat) == flatCount(ts), "wrong number of flat "+what)
		for i, t := range ts {
			var bits []uint64
			for _, k := range t.flat() {
				v, ok := flat[0].(values.Value)
				vx.Assert(ok && v.Kind() == k, "wrong kind of flat "+what)
				bits = append(bits, coreOf(v).v)
				flat = flat[1:]
			}
			got, ok := t.lift(mem, bits)
			vx.Assert(ok && t.same(canonical(t, got), vals[i]), "the "+what+" differ from what was passed")
		}
		return
	}
	vx.Assert(len(flat) == 1, "spilled "+what+" are not one pointer")
	v, ok := flat[0].(values.Value)
	vx.Assert(ok, "the pointer to spilled "+what+" is not a core value")
	tp := tuple(ts...)
	got, ok := tp.load(mem, coreOf(v).v)
	vx.Assert(ok, "spilled "+what+" are not at the pointer")
	for i, t := range ts {
		vx.Assert(t.same(canonical(t, got.(map[string]any)[strconv.Itoa(i)]), vals[i]), "the spilled "+what+" differ from what was passed")
	}
}

// canonical is the identity: lowered floats already carry canonical NaNs.
func canonical(t *ty, v any) any { return v }

// produce writes component values as core results: flat, or as a tuple at ptr.
func produce(cx *types.CallContext, ts []*ty, vals []any, max int, ptr uint32) []any {
	var out []any
	if flatCount(ts) <= max {
		for i, t := range ts {
			vs, err := aio.LowerFlat(cx, vals[i], t.v)
			vx.Assert(err == nil, "lowering a value fails")
			for _, v := range vs {
				out = append(out, v)
			}
		}
		return out
	}
	p := ptr
	for i, t := range ts {
		p = alignUp(p, t.align())
		vx.Assert(aio.Store(cx, vals[i], t.v, p) == nil, "storing a value fails")
		p += t.size()
	}
	return []any{values.U32(ptr)}
}

func valuesOf(ts []*ty) []any {
	var vs []any
	for _, t := range ts {
		vs = append(vs, t.value())
	}
	return vs
}

// C11_Lift covers calls of a lifted function with 0 to 3 parameters and 0 to 2 results out of five types, flat limits 1, 3 and 16, all values.
//
// vx:share 2
func C11_Lift() {
	ps, rs := callTypes(vx.Choice("params", 3+more())), callTypes(vx.Choice("results", 3))
	max := []int{16, 1, 3}[vx.Choice("max", 3)]
	const size = 240
	mem := make([]byte, size)
	a := &arena{64, size}
	opts := &types.CanonicalOptions{Memory: bytes.NewBuffer(mem), StringEncoding: encoding.UTF8, Realloc: a.realloc}
	inst := newInstance()
	args, results := valuesOf(ps), valuesOf(rs)
	ran := 0
	callee := func(x any) (any, error) {
		ran++
		flat, ok := x.([]any)
		vx.Assert(ok, "the core function is not given a list of values")
		checkArgs(mem, ps, args, flat, max, "arguments")
		return produce(&types.CallContext{Options: opts, Instance: inst}, rs, results, max, 0), nil
	}
	got, post, err := aio.CanonLift(opts, inst, callee, funcType(ps, rs), args, max, max)
	vx.Assert(err == nil, "a call of a lifted function fails")
	vx.Assert(ran == 1, "the core function does not run exactly once")
	vx.Assert(len(got) == len(results), "wrong number of results")
	for i, t := range rs {
		vx.Assert(t.same(got[i], results[i]), "a result differs from what the core function returned")
	}
	post()
	vx.Cover("called")
}

func more() int {
	if vx.Thorough() {
		return 1
	}
	return 0
}

// C11_Lower covers calls of a lowered import with 0 to 3 parameters and 0 to 2 results out of five types, flat limits 1, 3 and 16, all values.
//
// vx:share 2
func C11_Lower() {
	ps, rs := callTypes(vx.Choice("params", 3+more())), callTypes(vx.Choice("results", 3))
	max := []int{16, 1, 3}[vx.Choice("max", 3)]
	const size = 300
	mem := make([]byte, size)
	a := &arena{128, size}
	opts := &types.CanonicalOptions{Memory: bytes.NewBuffer(mem), StringEncoding: encoding.UTF8, Realloc: a.realloc}
	inst := newInstance()
	args, results := valuesOf(ps), valuesOf(rs)
	ran := 0
	callee := func(got []any) ([]any, types.PostReturnFunc, error) {
		ran++
		vx.Assert(len(got) == len(args), "wrong number of arguments")
		for i, t := range ps {
			vx.Assert(t.same(got[i], args[i]), "an argument differs from what was passed")
		}
		return results, func() {}, nil
	}
	flat := produce(&types.CallContext{Options: opts, Instance: inst}, ps, args, max, 0)
	const out = 64
	if flatCount(rs) > max {
		flat = append(flat, values.U32(out))
	}
	got, err := aio.CanonLower(opts, inst, callee, true, funcType(ps, rs), flat, max, max)
	vx.Assert(err == nil, "a call of a lowered function fails")
	vx.Assert(ran == 1, "the import does not run exactly once")
	if flatCount(rs) > max {
		// the caller finds the results where it asked for them
		checkArgs(mem, rs, results, []any{values.U32(out)}, max, "results")
	} else {
		checkArgs(mem, rs, results, got, max, "results")
	}
	vx.Cover("called")
}

// C11_Many covers tuples of 11 and 17 parameters of alternating u8 and u32 that spill through memory, all values: order is kept beyond the tenth.
func C11_Many() {
	n := []int{11, 17}[vx.Choice("params", 2)]
	var ts []*ty
	for i := 0; i < n; i++ {
		ts = append(ts, leaf([]int{kU8, kU32}[i%2]))
	}
	const size = 160
	mem := make([]byte, size)
	cx := context(mem, encoding.UTF8, nil)
	vals := valuesOf(ts)
	flat := produce(cx, ts, vals, 4, 0)
	var vts []types.ValType
	for _, t := range ts {
		vts = append(vts, t.v)
	}
	got, err := aio.LiftValues(cx, 4, values.NewIterator(flat[0].(values.Value)), vts)
	vx.Assert(err == nil, "lifting spilled values fails")
	vx.Assert(len(got) == n, "wrong number of lifted values")
	for i, t := range ts {
		vx.Assert(t.same(got[i], vals[i]), "spilled values are lifted in another order")
	}
	vx.Cover("lifted")
}

// C11_BadPointers covers every 32-bit pointer to spilled values in a memory of 24 bytes, for lifting and lowering.
func C11_BadPointers() {
	ts := []types.ValType{types.NewU8(), types.NewU64(), types.NewU8()} // 24 bytes, alignment 8
	mem := make([]byte, 32)
	ptr := vx.U32("ptr")
	cx := context(mem, encoding.UTF8, func(o, os, a, n uint32) (uint32, error) { return ptr, nil })
	var err error
	switch vx.Choice("way", 3) {
	case 0:
		_, err = aio.LiftValues(cx, 2, values.NewIterator(values.U32(ptr)), ts)
	case 1:
		_, err = aio.LowerValues(cx, 2, []any{uint8(1), uint64(2), uint8(3)}, ts, nil)
	default:
		_, err = aio.LowerValues(cx, 2, []any{uint8(1), uint64(2), uint8(3)}, ts, values.NewIterator(values.U32(ptr)))
	}
	good := vx.Or(ptr == 0, ptr == 8)
	vx.Assert((err == nil) == good, "a bad pointer to spilled values is accepted or a good one refused")
	vx.Cover("pointer")
}

// C11_WrongCount covers calls with one argument too few or too many, and results of the wrong number: an error, not a crash.
func C11_WrongCount() {
	ts := []types.ValType{types.NewU8(), types.NewU32()}
	cx := context(make([]byte, 32), encoding.UTF8, func(o, os, a, n uint32) (uint32, error) { return 0, nil })
	n := vx.Choice("given", 4)
	max := []int{16, 1}[vx.Choice("max", 2)]
	var vs []any
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			vs = append(vs, vx.U8("u8"))
		} else {
			vs = append(vs, vx.U32("u32"))
		}
	}
	_, err := aio.LowerValues(cx, max, vs, ts, nil)
	vx.Assert((err == nil) == (n == 2), "a call with the wrong number of arguments is accepted or a right one refused")
	vx.Cover("count")
}

// ---- C12: guards ---------------------------------------------------------------------------------

// C12_Lift covers calls into an instance with every combination of permissions, whose core function and post-return observe them, succeed or fail.
func C12_Lift() {
	inst := newInstance()
	inst.MayEnter, inst.MayLeave = vx.Bool("mayenter"), vx.Bool("mayleave")
	enter, leave := inst.MayEnter, inst.MayLeave
	fails := vx.Choice("fails", 2) == 1
	ran, posts, allocs := 0, 0, 0
	mem := make([]byte, 32)
	opts := &types.CanonicalOptions{Memory: bytes.NewBuffer(mem), StringEncoding: encoding.UTF8,
		Realloc: func(o, os, a, n uint32) (uint32, error) {
			allocs++
			vx.Assert(!inst.MayLeave, "the instance may be left while arguments are lowered")
			return 8, nil
		},
		PostReturn: func() { posts++ },
	}
	callee := func(x any) (any, error) {
		ran++
		vx.Assert(vx.And(inst.MayLeave, inst.MayEnter == enter), "the core function does not see the permissions it should have")
		if fails {
			return nil, fmt.Errorf("trap")
		}
		return []any{values.U32(7)}, nil
	}
	ft := types.NewFuncType([]types.Parameter{{Type: types.NewList(types.NewU8())}}, []types.Parameter{{Type: types.NewU32()}})
	got, post, err := aio.CanonLift(opts, inst, callee, ft, []any{[]any{uint8(1)}}, 16, 1)
	if !vx.And(enter, leave) {
		vx.Assert(err != nil, "a call into an instance that may not be entered or left is accepted")
		vx.Assert(ran == 0 && allocs == 0 && posts == 0, "guest code runs although the call is refused")
		vx.Assert(vx.And(inst.MayEnter == enter, inst.MayLeave == leave), "a refused call changes the permissions")
		vx.Cover("refused")
		return
	}
	vx.Assert(ran == 1 && allocs == 1, "the core function does not run exactly once")
	if fails {
		vx.Assert(err != nil, "a trap of the core function is lost")
		vx.Cover("trapped")
		return
	}
	vx.Assert(err == nil && len(got) == 1, "a call fails")
	vx.Assert(posts == 0, "post-return runs before the caller is done with the results")
	post()
	vx.Assert(posts == 1, "post-return does not run exactly once")
	vx.Assert(vx.And(inst.MayEnter == enter, inst.MayLeave == leave), "a call changes the permissions")
	vx.Cover("called")
}

// C12_Lower covers calls out of an instance with every combination of permissions, whose callee observes them, succeeds or fails.
func C12_Lower() {
	inst := newInstance()
	inst.MayEnter, inst.MayLeave = vx.Bool("mayenter"), vx.Bool("mayleave")
	enter, leave := inst.MayEnter, inst.MayLeave
	fails := vx.Choice("fails", 2) == 1
	imported := vx.Choice("import", 2) == 1
	ran, posts, allocs := 0, 0, 0
	mem := make([]byte, 32)
	opts := &types.CanonicalOptions{Memory: bytes.NewBuffer(mem), StringEncoding: encoding.UTF8,
		Realloc: func(o, os, a, n uint32) (uint32, error) {
			allocs++
			vx.Assert(!inst.MayLeave, "the instance may be left while results are lowered")
			vx.Assert(posts == 0, "post-return runs before the results are lowered")
			return 8, nil
		},
	}
	callee := func(args []any) ([]any, types.PostReturnFunc, error) {
		ran++
		if imported {
			vx.Assert(!inst.MayEnter, "the caller can be re-entered while it calls an import")
		}
		if fails {
			return nil, nil, fmt.Errorf("trap")
		}
		return []any{[]any{uint8(1)}}, func() { posts++ }, nil
	}
	ft := types.NewFuncType([]types.Parameter{{Type: types.NewU32()}}, []types.Parameter{{Type: types.NewList(types.NewU8())}})
	got, err := aio.CanonLower(opts, inst, callee, imported, ft, []any{values.U32(5)}, 16, 16)
	if !vx.And(enter, leave) {
		vx.Assert(err != nil, "a call out of an instance that may not be left or entered is accepted")
		vx.Assert(ran == 0 && allocs == 0 && posts == 0, "code runs although the call is refused")
		vx.Assert(vx.And(inst.MayEnter == enter, inst.MayLeave == leave), "a refused call changes the permissions")
		vx.Cover("refused")
		return
	}
	vx.Assert(ran == 1, "the callee does not run exactly once")
	if fails {
		vx.Assert(err != nil && allocs == 0, "a trap of the callee is lost")
		vx.Cover("trapped")
		return
	}
	vx.Assert(err == nil && len(got) == 2, "a call fails")
	vx.Assert(posts == 1 && allocs == 1, "post-return does not run exactly once")
	vx.Assert(vx.And(inst.MayEnter == enter, inst.MayLeave == leave), "a call changes the permissions")
	vx.Cover("called")
}

// C08_Transcode: the helpers that copy a text into memory as it is or as UTF-16, with an
// allocator that moves the block when it shrinks.
func C08_Transcode() {
	text, rs, cl := anyText(2 + more())
	const size = 40
	mem := vx.Bytes("mem", size)
	base := uint32(4)
	realloc := func(old, oldSize, align, n uint32) (uint32, error) {
		p := alignUp(base, align)
		if p+n > size {
			return 0, fmt.Errorf("out of memory")
		}
		if oldSize < n {
			copy(mem[p:], mem[old:old+oldSize])
		} else {
			copy(mem[p:], mem[old:old+n])
		}
		base = p + n
		return p, nil
	}
	cx := context(mem, encoding.UTF8, realloc)
	var ptr, units uint32
	var err error
	want, n := text, uint32(len(text))
	if vx.Choice("helper", 2) == 0 {
		ptr, units, err = aio.StoreStringCopy(cx, string(text), n, 1, 1, encoding.NewUTF8())
	} else {
		ptr, units, err = aio.StoreUtf8ToUtf16(cx, string(text), n)
		want = utf16Bytes(rs, cl, false)
		n = uint32(len(want) / 2)
	}
	vx.Assert(err == nil, "copying a text fails")
	vx.Assert(units == n, "the length is not the number of code units")
	vx.Assert(ptr >= 4 && ptr+uint32(len(want)) <= size, "the text is not in the block of the allocator")
	vx.Assert(sameBytes(mem[ptr:ptr+uint32(len(want))], want), "the stored bytes are not the text")
	vx.Cover("copied")
}

// C08_Latin1Table covers every code point: the Latin-1 table of x/text is the identity below 256 (the other harnesses use that closed form for it).
//
// vx:raw
func C08_Latin1Table() {
	r := vx.U32("rune")
	vx.Assume(r <= 0x10ffff)
	b, ok := charmap.ISO8859_1.EncodeRune(rune(r))
	vx.Assert(ok == (r < 0x100), "wrong repertoire")
	if ok {
		vx.Assert(uint32(b) == r, "wrong byte")
		vx.Cover("in")
	} else {
		vx.Assert(b == 0x1a, "wrong replacement")
		vx.Cover("out")
	}
}
