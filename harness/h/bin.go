package h

import (
	"bytes"
	"io"

	"github.com/patrickhuber/go-wasm/api"
	"github.com/patrickhuber/go-wasm/binary"
	"github.com/patrickhuber/go-wasm/zz_verif/vx"
)

// ---- reference encoder ---------------------------------------------------------------------

// lebOf encodes v, which must be below 1<<(7*n), in exactly n bytes.
func lebOf(v uint32, n int) []byte {
	var out []byte
	for i := 0; i < n; i++ {
		b := byte(v>>(7*i)) & 0x7f
		if i < n-1 {
			b |= 0x80
		}
		out = append(out, b)
	}
	return out
}

// anyIndex is any 32-bit number in an encoding of any permitted length.
func anyIndex(name string) (uint32, []byte) {
	v := vx.U32(name)
	n := []int{1, 2, 5, 3, 4}[vx.Choice("leblen", lebLens())]
	if n < 5 {
		vx.Assume(v < 1<<(7*n))
	}
	return v, lebOf(v, n)
}

func lebLens() int {
	if vx.Thorough() {
		return 5
	}
	return 3
}

var valTypes = []api.ValType{api.I32Type, api.I64Type, api.F32Type, api.F64Type}

// anyValType is any of the four number types (as a symbolic byte) and its code.
func anyValType() byte {
	b := vx.U8("valtype")
	vx.Assume(vx.And(b >= 0x7c, b <= 0x7f))
	return b
}

func isValType(got api.ValType, b byte) bool {
	switch b {
	case 0x7f:
		return got == api.I32Type
	case 0x7e:
		return got == api.I64Type
	case 0x7d:
		return got == api.F32Type
	}
	return got == api.F64Type
}

func resultType(max int) ([]byte, []byte) {
	n := vx.Choice("types", max+1)
	var ts []byte
	for i := 0; i < n; i++ {
		ts = append(ts, anyValType())
	}
	return append([]byte{byte(n)}, ts...), ts
}

func sectionOf(id byte, body []byte) []byte {
	return append([]byte{id, byte(len(body))}, body...)
}

var modulePreamble = []byte{0, 'a', 's', 'm', 1, 0, 0, 0}

// chunks delivers at most n bytes at a time, and the last of them together with the end of file.
type chunks struct {
	b []byte
	n int
}

func (c *chunks) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p, c.b)
	if n > c.n {
		n = c.n
	}
	c.b = c.b[n:]
	if len(c.b) == 0 {
		return n, io.EOF
	}
	return n, nil
}

func readerOf(b []byte) io.Reader {
	if vx.Choice("chunks", 2) == 1 {
		return &chunks{b, 1}
	}
	return bytes.NewReader(b)
}

func readModule(b []byte) *api.Module {
	doc, err := binary.Read(readerOf(b))
	vx.Assert(err == nil, "reading a well-formed module fails")
	vx.Assert(doc.Preamble.Version == 1 && doc.Preamble.Layer == 0, "wrong preamble")
	m, ok := doc.Directive.(*api.Module)
	vx.Assert(ok, "a module is not read as a module")
	return m
}

func checkTypes(got []api.ValType, want []byte, what string) {
	vx.Assert(len(got) == len(want), "wrong number of "+what)
	for i := range want {
		vx.Assert(isValType(got[i], want[i]), "wrong "+what)
	}
}

// ---- C15 -------------------------------------------------------------------------------------

// C15_Types covers type sections of 0 to 2 function types (3 in the thorough tier) with up to 2 parameters and 1 result, or 1 parameter and 2 results, of any number type.
func C15_Types() {
	n := vx.Choice("count", 3+more())
	body := []byte{byte(n)}
	var ps, rs [][]byte
	for i := 0; i < n; i++ {
		p, pt := resultType(2 - i%2)
		r, rt := resultType(1 + i%2)
		ps, rs = append(ps, pt), append(rs, rt)
		body = append(append(append(body, 0x60), p...), r...)
	}
	m := readModule(append(append([]byte{}, modulePreamble...), sectionOf(1, body)...))
	vx.Assert(len(m.Types) == n, "wrong number of function types")
	for i := range ps {
		checkTypes(m.Types[i].Parameters.Types, ps[i], "parameters")
		checkTypes(m.Types[i].Returns.Types, rs[i], "results")
	}
	vx.Assert(len(m.Funcs) == 0 && len(m.Exports) == 0, "functions or exports from nowhere")
	vx.Cover("types")
}

// instr is one instruction: its bytes and a test for it.
func instr() ([]byte, func(api.Instruction) bool) {
	if vx.Choice("instr", 2) == 0 {
		return []byte{0x6a}, func(i api.Instruction) bool { _, ok := i.(api.I32Add); return ok }
	}
	v, b := anyIndex("local")
	return append([]byte{0x20}, b...), func(i api.Instruction) bool {
		g, ok := i.(api.LocalGet)
		return ok && uint32(g.Index) == v
	}
}

func isEnd(i api.Instruction) bool { _, ok := i.(api.End); return ok }

// code is a function body: locals in up to groups groups and up to instrs instructions.
func code(groups, instrs int) ([]byte, []byte, []func(api.Instruction) bool) {
	g := vx.Choice("groups", groups+1)
	body := []byte{byte(g)}
	var locals []byte
	for i := 0; i < g; i++ {
		c := vx.Choice("locals", 3)
		t := anyValType()
		body = append(body, byte(c), t)
		for k := 0; k < c; k++ {
			locals = append(locals, t)
		}
	}
	var tests []func(api.Instruction) bool
	for i := vx.Choice("instrs", instrs+1); i > 0; i-- {
		b, f := instr()
		body, tests = append(body, b...), append(tests, f)
	}
	return append(body, 0x0b), locals, append(tests, isEnd)
}

func checkCode(f *api.Func, locals []byte, tests []func(api.Instruction) bool) {
	checkTypes(f.Locals, locals, "locals")
	vx.Assert(f.Body != nil && len(f.Body.Instructions) == len(tests), "wrong number of instructions")
	for i, t := range tests {
		vx.Assert(t(f.Body.Instructions[i]), "wrong instruction")
	}
}

// C15_Code covers one function with any 32-bit type index, up to 2 groups of 0 to 2 equal locals and up to 2 instructions (3 in the thorough tier) with any operands; numbers in shortest and in padded encodings.
//
// vx:share 2
func C15_Code() {
	idx, enc := anyIndex("type")
	body, locals, tests := code(2, 2+more())
	b := append([]byte{}, modulePreamble...)
	b = append(b, sectionOf(3, append([]byte{1}, enc...))...)
	b = append(b, sectionOf(10, append([]byte{1, byte(len(body))}, body...))...)
	m := readModule(b)
	vx.Assert(len(m.Funcs) == 1 && uint32(m.Funcs[0].Type) == idx, "wrong function or type index")
	checkCode(m.Funcs[0], locals, tests)
	vx.Cover("code")
}

// C15_Functions covers 0 to 3 functions with any one-byte type indices and different bodies.
func C15_Functions() {
	n := vx.Choice("count", 4)
	fs, cs := []byte{byte(n)}, []byte{byte(n)}
	var idx []byte
	var locals [][]byte
	var tests [][]func(api.Instruction) bool
	for i := 0; i < n; i++ {
		x := vx.U8("type")
		vx.Assume(x < 0x80)
		idx, fs = append(idx, x), append(fs, x)
		v, a := vx.U8("local"), vx.Choice("add", 2)
		vx.Assume(v < 0x80)
		t := anyValType()
		body := []byte{1, byte(i), t, 0x20, v}
		var l []byte
		for k := 0; k < i; k++ {
			l = append(l, t)
		}
		ts := []func(api.Instruction) bool{func(i api.Instruction) bool {
			g, ok := i.(api.LocalGet)
			return ok && uint32(g.Index) == uint32(v)
		}}
		if a == 1 {
			body = append(body, 0x6a)
			ts = append(ts, func(i api.Instruction) bool { _, ok := i.(api.I32Add); return ok })
		}
		body = append(body, 0x0b)
		cs = append(append(cs, byte(len(body))), body...)
		locals, tests = append(locals, l), append(tests, append(ts, isEnd))
	}
	b := append([]byte{}, modulePreamble...)
	b = append(append(b, sectionOf(3, fs)...), sectionOf(10, cs)...)
	m := readModule(b)
	vx.Assert(len(m.Funcs) == n, "wrong number of functions")
	for i := range idx {
		vx.Assert(uint32(m.Funcs[i].Type) == uint32(idx[i]), "wrong type index")
		checkCode(m.Funcs[i], locals[i], tests[i])
	}
	vx.Cover("functions")
}

// C15_Exports covers 0 to 2 function exports with names of 0 to 3 arbitrary bytes and any indices.
func C15_Exports() {
	n := vx.Choice("count", 3)
	body := []byte{byte(n)}
	var names []string
	var idx []uint32
	for i := 0; i < n; i++ {
		s := vx.Str("name", vx.Choice("len", 4))
		v, enc := anyIndex("index")
		names, idx = append(names, s), append(idx, v)
		body = append(append(append(append(body, byte(len(s))), s...), 0), enc...)
	}
	m := readModule(append(append([]byte{}, modulePreamble...), sectionOf(7, body)...))
	vx.Assert(len(m.Exports) == n, "wrong number of exports")
	for i := range names {
		vx.Assert(len(m.Exports[i].Name) == len(names[i]), "wrong length of an export name")
		vx.Assert(m.Exports[i].Name == names[i], "wrong export name")
		d, ok := m.Exports[i].Description.(*api.FuncExportDescription)
		vx.Assert(ok && uint32(d.FuncIdx) == idx[i], "wrong export index")
	}
	vx.Cover("exports")
}

// wholeModule is a module with all supported sections; cuts are the section boundaries.
func wholeModule() (b []byte, cuts []int, check func(m *api.Module)) {
	p, r := anyValType(), byte(0x7e)
	idx, local, exp := vx.U8("type"), vx.U8("local"), vx.U8("export")
	vx.Assume(vx.And(idx < 0x80, local < 0x80, exp < 0x80))
	name := vx.Str("name", 1)
	secs := [][]byte{
		sectionOf(1, []byte{1, 0x60, 1, p, 1, r}),
		sectionOf(3, []byte{1, idx}),
		sectionOf(7, []byte{1, 1, name[0], 0, exp}),
		sectionOf(10, []byte{1, 6, 1, 1, p, 0x20, local, 0x0b}),
	}
	b = append(b, modulePreamble...)
	for _, s := range secs {
		cuts = append(cuts, len(b))
		b = append(b, s...)
	}
	cuts = append(cuts, len(b))
	return b, cuts, func(m *api.Module) {
		vx.Assert(len(m.Types) == 1 && len(m.Funcs) == 1 && len(m.Exports) == 1, "wrong number of types, functions or exports")
		checkTypes(m.Types[0].Parameters.Types, []byte{p}, "parameters")
		checkTypes(m.Types[0].Returns.Types, []byte{r}, "results")
		vx.Assert(uint32(m.Funcs[0].Type) == uint32(idx), "wrong type index")
		checkCode(m.Funcs[0], []byte{p}, []func(api.Instruction) bool{func(i api.Instruction) bool {
			g, ok := i.(api.LocalGet)
			return ok && uint32(g.Index) == uint32(local)
		}, isEnd})
		vx.Assert(m.Exports[0].Name == name, "wrong export name")
		d, ok := m.Exports[0].Description.(*api.FuncExportDescription)
		vx.Assert(ok && uint32(d.FuncIdx) == uint32(exp), "wrong export index")
	}
}

// C15_Skipped covers a module with all supported sections and up to 2 unsupported sections (any other section number, 0 to 2 arbitrary bytes, sizes also in padded encoding) at any boundaries.
//
// vx:share 2
func C15_Skipped() {
	b, cuts, check := wholeModule()
	var out []byte
	left, from := vx.Choice("skipped", 3), 0
	for _, at := range cuts {
		out = append(out, b[from:at]...)
		from = at
		for left > 0 && vx.Choice("here", 2) == 1 {
			left--
			id := vx.U8("id")
			vx.Assume(vx.And(id != 1, id != 3, id != 7, id != 10))
			data := vx.Bytes("data", vx.Choice("size", 3))
			out = append(out, id)
			out = append(append(out, lebOf(uint32(len(data)), 1+4*vx.Choice("padded", 2))...), data...)
		}
	}
	check(readModule(append(out, b[from:]...)))
	vx.Cover("skipped")
}

// C15_Large covers an unsupported section of 200 or 300 bytes with arbitrary first bytes between two sections, and a name of 130 bytes.
func C15_Large() {
	n := []int{127, 128, 300}[vx.Choice("size", 3)]
	data := append(vx.Bytes("data", 2), make([]byte, n-2)...)
	name := append(vx.Bytes("name", 2), bytes.Repeat([]byte{'x'}, 128)...)
	b := append([]byte{}, modulePreamble...)
	b = append(append(append(b, 0), lebOf(uint32(n), 2)...), data...)
	b = append(b, 7)
	exp := append(append([]byte{1}, lebOf(130, 2)...), name...)
	exp = append(exp, 0, 5)
	b = append(append(b, lebOf(uint32(len(exp)), 2)...), exp...)
	m := readModule(b)
	vx.Assert(len(m.Exports) == 1 && m.Exports[0].Name == string(name), "wrong export name")
	vx.Cover("large")
}

// C15_Preamble covers every version and layer, and every single-byte change of the magic number.
func C15_Preamble() {
	version, layer := vx.U16("version"), vx.U16("layer")
	b := []byte{0, 'a', 's', 'm', byte(version), byte(version >> 8), byte(layer), byte(layer >> 8)}
	k, x := vx.Choice("magic", 5), vx.U8("byte")
	good := true
	if k < 4 {
		good = x == b[k]
		b[k] = x
	}
	doc, err := binary.Read(readerOf(b))
	if err != nil {
		vx.Assert(!vx.And(good, vx.Or(vx.And(version == 1, layer == 0), vx.And(version == 0xa, layer == 1))), "an empty module or component is refused")
		vx.Cover("refused")
		return
	}
	vx.Assert(good, "a wrong magic number is accepted")
	vx.Assert(doc.Preamble.Version == version && doc.Preamble.Layer == layer, "wrong preamble")
	switch doc.Directive.(type) {
	case *api.Module:
		vx.Assert(vx.And(version == 1, layer == 0), "something else is read as a module")
		vx.Cover("module")
	case *api.Component:
		vx.Assert(vx.And(version == 0xa, layer == 1), "something else is read as a component")
		vx.Cover("component")
	default:
		vx.Fail("neither module nor component")
	}
}

// C15_Sizes covers a module with all supported sections in which one declared section size, function size or the number of functions or bodies is any wrong one-byte number.
func C15_Sizes() {
	b, cuts, check := wholeModule()
	// section sizes, the body size, and the counts of functions and bodies
	at := []int{cuts[0] + 1, cuts[1] + 1, cuts[2] + 1, cuts[3] + 1, cuts[3] + 3, cuts[1] + 2, cuts[3] + 2}[vx.Choice("which", 7)]
	x := vx.U8("number")
	vx.Assume(x < 0x80)
	right := x == b[at]
	b[at] = x
	doc, err := binary.Read(readerOf(b))
	if right {
		vx.Assert(err == nil, "a well-formed module is refused")
		check(doc.Directive.(*api.Module))
		vx.Cover("right")
		return
	}
	vx.Assert(err != nil, "a module with a wrong size or count is accepted")
	vx.Cover("wrong")
}

// C15_Truncated covers a module with all supported sections cut at any byte: only the section boundaries that leave every function with code are modules.
func C15_Truncated() {
	b, cuts, _ := wholeModule()
	at := 8 + vx.Choice("at", len(b)-8)
	_, err := binary.Read(readerOf(b[:at]))
	if at == cuts[0] || at == cuts[1] { // empty, or types only
		vx.Assert(err == nil, "a well-formed module is refused")
		vx.Cover("boundary")
		return
	}
	vx.Assert(err != nil, "a truncated module is accepted")
	vx.Cover("truncated")
}

// ---- reference recogniser --------------------------------------------------------------------

// scan reads the contents of a section byte by byte; bad is set when they are not well formed.
type scan struct {
	b   []byte
	at  int
	bad bool
}

func (s *scan) byte() byte {
	if s.bad || s.at >= len(s.b) {
		s.bad = true
		return 0
	}
	s.at++
	return s.b[s.at-1]
}

func (s *scan) u32() uint32 {
	var v uint64
	for i := 0; i < 5; i++ {
		c := s.byte()
		if s.bad {
			return 0
		}
		v |= uint64(c&0x7f) << (7 * i)
		if c < 0x80 {
			if v >= 1<<32 {
				s.bad = true
			}
			return uint32(v)
		}
	}
	s.bad = true
	return 0
}

// count is a number of items of at least one byte each.
func (s *scan) count() int {
	v := s.u32()
	for n := 0; n <= len(s.b)-s.at; n++ {
		if v == uint32(n) {
			return n
		}
	}
	s.bad = true
	return 0
}

func (s *scan) types() []byte {
	var ts []byte
	for n := s.count(); n > 0 && !s.bad; n-- {
		t := s.byte()
		if t < 0x7c || t > 0x7f {
			s.bad = true
		}
		ts = append(ts, t)
	}
	return ts
}

func (s *scan) end() bool { return !s.bad && s.at == len(s.b) }

// C15_Codes covers a type, function, export or code section whose 6 content bytes (8 in the thorough tier) are arbitrary: exactly the well-formed ones are accepted, and with the items they hold.
//
// vx:share 2
func C15_Codes() {
	body := vx.Bytes("b", 6+2*more())
	s := &scan{b: body}
	b := append([]byte{}, modulePreamble...)
	var check func(m *api.Module)
	switch vx.Choice("section", 4) {
	case 0:
		var ps, rs [][]byte
		for n := s.count(); n > 0 && !s.bad; n-- {
			if s.byte() != 0x60 {
				s.bad = true
			}
			ps = append(ps, s.types())
			rs = append(rs, s.types())
		}
		b = append(b, sectionOf(1, body)...)
		check = func(m *api.Module) {
			vx.Assert(len(m.Types) == len(ps), "wrong number of function types")
			for i := range ps {
				checkTypes(m.Types[i].Parameters.Types, ps[i], "parameters")
				checkTypes(m.Types[i].Returns.Types, rs[i], "results")
			}
		}
	case 1:
		n := s.count()
		var idx []uint32
		for i := 0; i < n && !s.bad; i++ {
			idx = append(idx, s.u32())
		}
		b = append(b, sectionOf(3, body)...)
		b = append(b, 10, byte(1+3*n), byte(n))
		for i := 0; i < n; i++ {
			b = append(b, 2, 0, 0x0b)
		}
		check = func(m *api.Module) {
			vx.Assert(len(m.Funcs) == len(idx), "wrong number of functions")
			for i := range idx {
				vx.Assert(uint32(m.Funcs[i].Type) == idx[i], "wrong type index")
			}
		}
	case 2:
		var names []string
		var idx []uint32
		for n := s.count(); n > 0 && !s.bad; n-- {
			k := s.count()
			names = append(names, string(body[s.at:s.at+k]))
			s.at += k
			if s.byte() != 0 {
				s.bad = true
			}
			idx = append(idx, s.u32())
		}
		b = append(b, sectionOf(7, body)...)
		check = func(m *api.Module) {
			vx.Assert(len(m.Exports) == len(idx), "wrong number of exports")
			for i := range idx {
				vx.Assert(m.Exports[i].Name == names[i], "wrong export name")
				d, ok := m.Exports[i].Description.(*api.FuncExportDescription)
				vx.Assert(ok && uint32(d.FuncIdx) == idx[i], "wrong export index")
			}
		}
	case 3: // the instructions of one function
		var ops []byte
		var idx []uint32
		for !s.bad && s.at < len(body) {
			op, v := s.byte(), uint32(0)
			if op == 0x20 {
				v = s.u32()
			} else if op != 0x6a && op != 0x0b {
				s.bad = true
			}
			ops, idx = append(ops, op), append(idx, v)
			if op == 0x0b {
				break
			}
		}
		if len(ops) > 0 && ops[len(ops)-1] != 0x0b {
			s.bad = true
		}
		b = append(b, sectionOf(3, []byte{1, 0})...)
		b = append(b, sectionOf(10, append([]byte{1, byte(1 + len(body)), 0}, body...))...)
		check = func(m *api.Module) {
			is := m.Funcs[0].Body.Instructions
			vx.Assert(len(is) == len(ops), "wrong number of instructions")
			for i, op := range ops {
				ok := false
				switch x := is[i].(type) {
				case api.LocalGet:
					ok = op == 0x20 && uint32(x.Index) == idx[i]
				case api.I32Add:
					ok = op == 0x6a
				case api.End:
					ok = op == 0x0b
				}
				vx.Assert(ok, "wrong instruction")
			}
		}
	}
	doc, err := binary.Read(readerOf(b))
	if !s.end() {
		vx.Assert(err != nil, "a malformed section is accepted")
		vx.Cover("malformed")
		return
	}
	vx.Assert(err == nil, "a well-formed section is refused")
	m, ok := doc.Directive.(*api.Module)
	vx.Assert(ok, "a module is not read as a module")
	check(m)
	vx.Cover("well formed")
}

// ---- C16 -------------------------------------------------------------------------------------

const allocLimit = 1 << 16

func checkRead(b []byte) {
	vx.AllocLimit(allocLimit)
	doc, err := binary.Read(readerOf(b))
	if err != nil {
		vx.Cover("error")
		return
	}
	vx.Assert(doc != nil && doc.Directive != nil, "neither a document nor an error")
	if m, ok := doc.Directive.(*api.Module); ok {
		// nothing in it takes less than a byte of input
		vx.Assert(len(m.Types) <= len(b) && len(m.Funcs) <= len(b) && len(m.Exports) <= len(b), "more items than the input holds")
		for _, f := range m.Funcs {
			vx.Assert(f != nil && f.Body != nil, "a function without code")
		}
	}
	vx.Cover("document")
}

// C16_Any covers all byte strings of up to 10 bytes.
func C16_Any() {
	checkRead(vx.Bytes("b", vx.Choice("len", 11)))
}

// C16_Module covers the module preamble followed by any 9 bytes (10 in the thorough tier).
//
// vx:share 3
func C16_Module() {
	checkRead(append(append([]byte{}, modulePreamble...), vx.Bytes("b", 9+more())...))
}

// C16_Section covers a type, function or export section whose 9 content bytes (10 in the thorough tier) are arbitrary.
//
// vx:share 3
func C16_Section() {
	n := 9 + more()
	b := append([]byte{}, modulePreamble...)
	id := []byte{1, 3, 7}[vx.Choice("section", 3)]
	checkRead(append(append(b, id, byte(n)), vx.Bytes("b", n)...))
}

// C16_Code covers a code section for one function without locals whose 6 instruction bytes (8 in the thorough tier) are arbitrary.
func C16_Code() {
	n := 6 + 2*more()
	b := append(append([]byte{}, modulePreamble...), sectionOf(3, []byte{1, 0})...)
	checkRead(append(append(b, 10, byte(n)+3, 1, byte(n)+1, 0), vx.Bytes("b", n)...))
}

// C16_Bodies covers a code section for one or two functions whose 7 content bytes (8 in the thorough tier) are any of the numbers 0 to 3, the instructions and the types.
//
// vx:share 2
func C16_Bodies() {
	n := 7 + more()
	f := vx.Choice("functions", 2) + 1
	b := append(append([]byte{}, modulePreamble...), sectionOf(3, append([]byte{byte(f)}, make([]byte, f)...))...)
	c := vx.Bytes("b", n)
	for _, x := range c {
		vx.Assume(vx.Or(x <= 3, x == 0x0b, x == 0x20, x == 0x6a, vx.And(x >= 0x7c, x <= 0x7f)))
	}
	checkRead(append(append(b, 10, byte(n)), c...))
}

// C16_Claims covers counts and sizes of any 32-bit value in every place that holds one, with 2 arbitrary bytes behind them (a group of at most 3 locals).
func C16_Claims() {
	claim := lebOf(vx.U32("claim"), 5)
	rest := vx.Bytes("b", 2)
	b := append([]byte{}, modulePreamble...)
	big := func(id byte, body ...byte) {
		b = append(append(b, id), 0xff, 0xff, 0xff, 0xff, 0x0f) // the section claims 4 GB, too
		b = append(b, body...)
	}
	switch vx.Choice("place", 12) {
	case 0: // size of an unsupported section
		b = append(b, 0)
	case 1: // number of types
		big(1)
	case 2: // number of parameters
		big(1, 1, 0x60)
	case 3: // number of results
		big(1, 1, 0x60, 0)
	case 4: // number of functions
		big(3)
	case 5: // number of exports
		big(7)
	case 6: // length of a name
		big(7, 1)
	case 7: // number of bodies
		b = append(b, sectionOf(3, []byte{1, 0})...)
		big(10)
	case 8: // size of a body
		b = append(b, sectionOf(3, []byte{1, 0})...)
		big(10, 1)
	case 9: // number of groups of locals
		b = append(b, sectionOf(3, []byte{1, 0})...)
		big(10, 1, 0x7f)
		vx.Assume(vx.And(rest[0] <= 3, rest[1] != 0))
	case 10: // size of a section
		b = append(b, 1)
	case 11: // number of locals in a group, within the limit that decoders set
		b = append(b, sectionOf(3, []byte{1, 0})...)
		big(10, 1, 0x7f, 1)
		c := uint32(claim[0]&0x7f) | uint32(claim[1]&0x7f)<<7 | uint32(claim[2]&0x7f)<<14 | uint32(claim[3]&0x7f)<<21 | uint32(claim[4])<<28
		vx.Assume(vx.Or(c <= 2, c > 50000))
	}
	checkRead(append(append(b, claim...), rest...))
}

// C16_Readers covers the single readers on any 5 bytes.
func C16_Readers() {
	vx.AllocLimit(allocLimit)
	r := readerOf(vx.Bytes("b", 5))
	switch vx.Choice("reader", 10) {
	case 9:
		binary.ReadUInt32(r)
	case 0:
		binary.ReadType(r)
	case 1:
		binary.ReadValueTypeVector(r)
	case 2:
		binary.ReadFunc(r)
	case 3:
		binary.ReadExport(r)
	case 4:
		binary.ReadString(r)
	case 5:
		binary.ReadExpression(r)
	case 6:
		binary.ReadInstruction(r)
	case 7:
		binary.ReadPreamble(r)
	default:
		binary.ReadSectionHeader(r)
	}
	vx.Cover("returned")
}
