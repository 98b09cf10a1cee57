package h

import (
	"strings"

	"github.com/patrickhuber/go-types"
	opt "github.com/patrickhuber/go-types/option"

	"github.com/patrickhuber/go-wasm/wat/ast"
	"github.com/patrickhuber/go-wasm/wat/lex"
	"github.com/patrickhuber/go-wasm/wat/parse"
	"github.com/patrickhuber/go-wasm/zz_verif/vx"
)

// Holes: an interface that must hold something but is nil. An optional identifier or
// maximum that is nil counts as absent.

func wholeTypes(ts []ast.ValType) bool {
	for _, t := range ts {
		if t == nil {
			return false
		}
	}
	return true
}

func wholeResults(rs []ast.Result) bool {
	for _, r := range rs {
		if !wholeTypes(r.Types) {
			return false
		}
	}
	return true
}

func wholeParams(ps []ast.Parameter) bool {
	for _, p := range ps {
		if !wholeTypes(p.Types) {
			return false
		}
	}
	return true
}

func wholeIndex(x ast.Index) bool {
	switch x := x.(type) {
	case nil:
		return false
	case *ast.RawIndex:
		return x != nil
	case *ast.IDIndex:
		return x != nil
	}
	return true
}

func wholeInsts(is []ast.Instruction) bool {
	for _, i := range is {
		if !wholeInst(i) {
			return false
		}
	}
	return true
}

func wholeInst(i ast.Instruction) bool {
	switch i := i.(type) {
	case nil:
		return false
	case ast.Folded:
		return wholeInst(i.Instruction) && wholeInsts(i.Parameters)
	case ast.Block:
		return wholeResults(i.BlockType.Results) && wholeInsts(i.Instructions)
	case ast.Loop:
		return wholeResults(i.BlockType.Results) && wholeInsts(i.Instructions)
	case ast.If:
		if i.Else != nil {
			if e, ok := i.Else.Deconstruct(); ok && !wholeInsts(e.Instructions) {
				return false
			}
		}
		return wholeResults(i.BlockType.Results) && wholeInsts(i.Clause) && wholeInsts(i.Then.Instructions)
	case ast.Br:
		return wholeIndex(i.Index)
	case ast.BrIf:
		return wholeIndex(i.Index)
	case ast.BrTable:
		for _, x := range i.Indicies {
			if !wholeIndex(x) {
				return false
			}
		}
	case ast.Call:
		return wholeIndex(i.Index)
	case ast.LocalGet:
		return wholeIndex(i.Index)
	case ast.LocalSet:
		return wholeIndex(i.Index)
	case ast.LocalTee:
		return wholeIndex(i.Index)
	case ast.GlobalGet:
		return wholeIndex(i.Index)
	case ast.GlobalSet:
		return wholeIndex(i.Index)
	}
	return true
}

func wholeDirective(d ast.Directive) bool {
	m, ok := d.(*ast.Module)
	if !ok {
		c, ok := d.(*ast.Component)
		return ok && c != nil
	}
	if m == nil {
		return false
	}
	for _, f := range m.Functions {
		for _, l := range f.Locals {
			if l.Type == nil {
				return false
			}
		}
		if !wholeParams(f.Parameters) || !wholeResults(f.Results) || !wholeInsts(f.Instructions) {
			return false
		}
	}
	for _, t := range m.Types {
		if !wholeParams(t.FuncType.Parameters) || !wholeResults(t.FuncType.Results) {
			return false
		}
	}
	for _, t := range m.Tables {
		if t.TableType.RefType == nil {
			return false
		}
	}
	for _, g := range m.Globals {
		if g.Type.Type == nil || !wholeInsts(g.Instructions) {
			return false
		}
	}
	return true
}

// watTotal parses text and requires an error or a tree without holes.
func watTotal(text string) {
	var d ast.Directive
	var err error
	vx.NoPanic("parsing a module", func() { d, err = parse.Parse(lex.New(text)) })
	if err == nil {
		vx.Assert(wholeDirective(d), "the syntax tree has a hole")
		vx.Cover("tree")
	} else {
		vx.Cover("error")
	}
}

// watContexts are beginnings of modules; closing is what completes the shortest of them.
var watContexts = []string{
	"", "(", "(module ", "(component ",
	"(module (func ", "(module (func (", "(module (func (param ", "(module (func (result ",
	"(module (func (local ", "(module (func (export ", "(module (func (import ",
	"(module (type ", "(module (type (func ", "(module (type (func (param ",
	"(module (table ", "(module (table 1 funcref (", "(module (global ", "(module (global i32 (",
	"(module (global (mut ", "(module (memory ", "(module (func nop ",
	"(module (func (block ", "(module (func (block (", "(module (func (loop ", "(module (func (if ",
	"(module (func (if (then ", "(module (func (if (then) (else ",
	"(module (func (call ", "(module (func (call_indirect ", "(module (func (call_indirect (type ",
	"(module (func i32.const ", "(module (func (f32.const ", "(module (func (br_table ",
	"(module (func (drop ", "(module (func local.get ",
}

var watVocabulary = []string{
	"(", ")", "module", "component", "func", "type", "table", "global", "memory", "mut", "elem",
	"param", "result", "local", "export", "import", "then", "else", "block", "loop", "if",
	"funcref", "externref", "i32", "f64", "$x", "0", "-1", "1.5", "nan", "\"s\"", "\"\\ff\"",
	"i32.const", "f64.const", "local.get", "br_table", "br", "call", "call_indirect", "i32.add", "drop", "return",
	"i32.rem_s", "end", "(;c;)", ";;c\n", "\"", "(;", ",", "\x00", "\xff", "99999999999",
}

// closing completes any context; the parser stops behind the module.
const closing = ")))))))"

// C21_Tokens: every context followed by up to two tokens of the vocabulary (three in the
// thorough tier) and by closing parentheses, or by nothing behind the first token.
//
// vx:text
// vx:share 3
func C21_Tokens() {
	text := watContexts[vx.Choice("context", len(watContexts))]
	n := 2 + more()
	for i := 0; i < n; i++ {
		k := vx.Choice("token", len(watVocabulary)+1)
		if k == 0 {
			if vx.Choice("open", 2) == 1 {
				watTotal(text)
				return
			}
			break
		}
		text += watVocabulary[k-1] + " "
	}
	watTotal(text + closing)
}

// C21_Bytes: every context followed by 1 or 2 arbitrary bytes (3 in the thorough tier)
// and by closing parentheses or nothing.
//
// vx:text
func C21_Bytes() {
	text := watContexts[vx.Choice("context", len(watContexts))]
	text += vx.Str("bytes", 1+vx.Choice("len", 2+more()))
	watTotal(text + closing[7*vx.Choice("open", 2):])
}

// C21_Words: every context followed by a word that begins with a letter, of 3 to 9
// characters, and by closing parentheses.
//
// vx:text
func C21_Words() {
	text := watContexts[vx.Choice("context", len(watContexts))]
	w := word("word", []int{3, 5, 7, 9, 4, 6, 8, 10}[vx.Choice("len", 4+4*more())])
	vx.Assume(vx.And(w[0] >= 'a', w[0] <= 'z'))
	text += w
	watTotal(text + closing)
}

// Comparison with the expected tree, where nil and None are both absent.

func sameText(a, b types.Option[string]) bool {
	var s, t string
	var x, y bool
	if a != nil {
		s, x = a.Deconstruct()
	}
	if b != nil {
		t, y = b.Deconstruct()
	}
	return x == y && s == t
}

func sameLimits(a, b ast.Limits) bool {
	var s, t uint32
	var x, y bool
	if a.Max != nil {
		s, x = a.Max.Deconstruct()
	}
	if b.Max != nil {
		t, y = b.Max.Deconstruct()
	}
	return x == y && s == t && a.Min == b.Min
}

func sameTypes(a, b []ast.ValType) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameParams(a, b []ast.Parameter) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameText(a[i].ID, b[i].ID) || !sameTypes(a[i].Types, b[i].Types) {
			return false
		}
	}
	return true
}

// sameResults compares the types of all results in order.
func sameResults(a, b []ast.Result) bool {
	var s, t []ast.ValType
	for _, r := range a {
		s = append(s, r.Types...)
	}
	for _, r := range b {
		t = append(t, r.Types...)
	}
	return sameTypes(s, t)
}

func sameInsts(a, b []ast.Instruction) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameInst(a[i], b[i]) {
			return false
		}
	}
	return true
}

func sameInst(a, b ast.Instruction) bool {
	switch b := b.(type) {
	case ast.Folded:
		a, ok := a.(ast.Folded)
		return ok && sameInst(a.Instruction, b.Instruction) && sameInsts(a.Parameters, b.Parameters)
	case ast.Block:
		a, ok := a.(ast.Block)
		return ok && sameText(a.Name, b.Name) && sameResults(a.BlockType.Results, b.BlockType.Results) && sameInsts(a.Instructions, b.Instructions)
	case ast.Loop:
		a, ok := a.(ast.Loop)
		return ok && sameText(a.Name, b.Name) && sameResults(a.BlockType.Results, b.BlockType.Results) && sameInsts(a.Instructions, b.Instructions)
	case ast.If:
		a, ok := a.(ast.If)
		if !ok || !sameText(a.Name, b.Name) || !sameResults(a.BlockType.Results, b.BlockType.Results) ||
			!sameInsts(a.Clause, b.Clause) || !sameInsts(a.Then.Instructions, b.Then.Instructions) {
			return false
		}
		x, xok := a.Else.Deconstruct()
		y, yok := b.Else.Deconstruct()
		return xok == yok && sameInsts(x.Instructions, y.Instructions)
	}
	return vx.DeepEqual(a, b)
}

func sameFunc(a, b ast.Function) bool {
	if !sameText(a.ID, b.ID) || len(a.Locals) != len(b.Locals) || len(a.Exports) != len(b.Exports) {
		return false
	}
	for i := range a.Locals {
		if a.Locals[i] != b.Locals[i] {
			return false
		}
	}
	for i := range a.Exports {
		if a.Exports[i].Name != b.Exports[i].Name {
			return false
		}
	}
	if len(a.Imports) != len(b.Imports) {
		return false
	}
	for i := range a.Imports {
		if a.Imports[i] != b.Imports[i] {
			return false
		}
	}
	return sameParams(a.Parameters, b.Parameters) && sameResults(a.Results, b.Results) && sameInsts(a.Instructions, b.Instructions)
}

func sameModule(a, b *ast.Module) bool {
	if len(a.Functions) != len(b.Functions) || len(a.Memory) != len(b.Memory) || len(a.Types) != len(b.Types) ||
		len(a.Tables) != len(b.Tables) || len(a.Globals) != len(b.Globals) {
		return false
	}
	for i := range a.Functions {
		if !sameFunc(a.Functions[i], b.Functions[i]) {
			return false
		}
	}
	for i, x := range a.Memory {
		if y := b.Memory[i]; !sameText(x.ID, y.ID) || !sameLimits(x.Limits, y.Limits) {
			return false
		}
	}
	for i, x := range a.Types {
		if y := b.Types[i]; !sameText(x.ID, y.ID) || !sameParams(x.FuncType.Parameters, y.FuncType.Parameters) ||
			!sameResults(x.FuncType.Results, y.FuncType.Results) {
			return false
		}
	}
	for i, x := range a.Tables {
		y := b.Tables[i]
		if !sameText(x.ID, y.ID) || !sameLimits(x.TableType.Limits, y.TableType.Limits) ||
			x.TableType.RefType != y.TableType.RefType || len(x.Elements) != len(y.Elements) {
			return false
		}
		for j := range x.Elements {
			if x.Elements[j] != y.Elements[j] {
				return false
			}
		}
	}
	for i, x := range a.Globals {
		if y := b.Globals[i]; !sameText(x.ID, y.ID) || x.Type != y.Type || !sameInsts(x.Instructions, y.Instructions) {
			return false
		}
	}
	return true
}

// checkModule parses text and requires the tree want.
func checkModule(text string, want *ast.Module) {
	var d ast.Directive
	var err error
	vx.NoPanic("parsing a module", func() { d, err = parse.Parse(lex.New(text)) })
	vx.Assert(err == nil, "a valid module is refused")
	m, ok := d.(*ast.Module)
	vx.Assert(ok && m != nil, "a module is something else")
	vx.Assert(sameModule(m, want), "the tree of a module differs from its text")
	vx.Cover("tree")
}

// Generators return text and the tree for it.

func ident(name string) string { return "$" + word(name, 1+vx.Choice("idlen", 2+more())) }

// maybeID is an identifier followed by a space, or nothing.
func maybeID(name string) (string, types.Option[string]) {
	if vx.Choice("has id", 2) == 0 {
		return "", opt.None[string]()
	}
	id := ident(name)
	return id + " ", opt.Some(id)
}

var watTypes = []struct {
	text string
	t    ast.ValType
}{{"i32", ast.I32{}}, {"i64", ast.I64{}}, {"f32", ast.F32{}}, {"f64", ast.F64{}}}

// number is an unsigned number of the given number of digits.
func number(name string, n int) (string, uint32) {
	if vx.Choice("hex", 2) == 1 {
		t, b := hexDigits(name, n, false, []string{"cd"})
		v, _ := valueOf(b, 16)
		return "0x" + t, uint32(v)
	}
	t, b := digits(name, n, false)
	v, _ := valueOf(b, 10)
	return t, uint32(v)
}

func limits() (string, ast.Limits) {
	t, v := number("min", 1+2*vx.Choice("digits", 2))
	if vx.Choice("max", 2) == 0 {
		return t, ast.Limits{Min: v, Max: opt.None[uint32]()}
	}
	u, w := number("max", 8)
	return t + " " + u, ast.Limits{Min: v, Max: opt.Some(w)}
}

func index() (string, ast.Index) {
	if vx.Choice("index", 2) == 0 {
		t, v := number("index", 1+2*vx.Choice("digits", 2))
		return t, &ast.RawIndex{Index: v}
	}
	id := ident("index")
	return id, &ast.IDIndex{ID: id}
}

var plain = []struct {
	text string
	i    ast.Instruction
}{
	{"return", ast.Return{}}, {"drop", ast.Drop{}}, {"select", ast.Select{}}, {"memory.grow", ast.MemoryGrow{}},
	{"i32.load", ast.I32Load{}}, {"i32.store", ast.I32Store{}},
	{"f32.add", ast.F32Add{}}, {"f32.sub", ast.F32Sub{}}, {"f32.mul", ast.F32Mul{}}, {"f32.div", ast.F32Div{}},
	{"f32.sqrt", ast.F32Sqrt{}}, {"f32.min", ast.F32Min{}}, {"f32.max", ast.F32Max{}}, {"f32.ceil", ast.F32Ceil{}},
	{"f32.floor", ast.F32Floor{}}, {"f32.trunc", ast.F32Trunc{}}, {"f32.nearest", ast.F32Nearest{}},
	{"i32.add", ast.I32Add{}}, {"i32.sub", ast.I32Sub{}}, {"i32.mul", ast.I32Mul{}},
	{"i32.div_s", ast.I32DivS{}}, {"i32.div_u", ast.I32DivU{}}, {"i32.rem_s", ast.I32RemS{}}, {"i32.rem_u", ast.I32RemU{}},
	{"i32.and", ast.I32And{}}, {"i32.or", ast.I32Or{}}, {"i32.xor", ast.I32Xor{}}, {"i32.shl", ast.I32Shl{}},
	{"i32.shr_s", ast.I32ShrS{}}, {"i32.shr_u", ast.I32ShrU{}}, {"i32.rotl", ast.I32Rotl{}}, {"i32.rotr", ast.I32Rotr{}},
	{"i32.clz", ast.I32Clz{}}, {"i32.ctz", ast.I32Ctz{}}, {"i32.popcnt", ast.I32Popcnt{}},
	{"i32.extend8_s", ast.I32Extend8S{}}, {"i32.extend16_s", ast.I32Extend16S{}}, {"i32.eqz", ast.I32Eqz{}},
	{"i32.eq", ast.I32Eq{}}, {"i32.ne", ast.I32Ne{}}, {"i32.lt_s", ast.I32LtS{}}, {"i32.lt_u", ast.I32LtU{}},
	{"i32.le_s", ast.I32LeS{}}, {"i32.le_u", ast.I32LeU{}}, {"i32.gt_s", ast.I32GtS{}}, {"i32.gt_u", ast.I32GtU{}},
	{"i32.ge_s", ast.I32GeS{}}, {"i32.ge_u", ast.I32GeU{}},
}

// withOperand is an instruction with an index or a constant.
func withOperand(k int) (string, ast.Instruction) {
	if k >= 9 {
		neg := vx.Choice("neg", 2) == 1
		t, b := digits("const", 3, false)
		v, _ := valueOf(b, 10)
		if neg {
			t, v = "-"+t, -v
		}
		switch k {
		case 9:
			return "i32.const " + t, ast.I32Const{Value: int32(v)}
		case 10:
			return "i64.const " + t, ast.I64Const{Value: int64(v)}
		case 11:
			return "f32.const " + t[:len(t)-3] + "0x1p3", ast.F32Const{Value: float32([]float64{8, -8}[len(t)-3])}
		}
		return "f64.const " + t[:len(t)-3] + "0.5", ast.F64Const{Value: []float64{0.5, -0.5}[len(t)-3]}
	}
	t, x := index()
	switch k {
	case 0:
		return "br " + t, ast.Br{Index: x}
	case 1:
		return "br_if " + t, ast.BrIf{Index: x}
	case 2:
		b := ast.BrTable{Indicies: []ast.Index{x}}
		t = "br_table " + t
		for k := vx.Choice("labels", 3); k > 0; k-- {
			u, x := index()
			t += " " + u
			b.Indicies = append(b.Indicies, x)
		}
		return t, b
	case 3:
		return "call " + t, ast.Call{Index: x}
	case 4:
		return "local.get " + t, ast.LocalGet{Index: x}
	case 5:
		return "local.set " + t, ast.LocalSet{Index: x}
	case 6:
		return "local.tee " + t, ast.LocalTee{Index: x}
	case 7:
		return "global.get " + t, ast.GlobalGet{Index: x}
	}
	return "global.set " + t, ast.GlobalSet{Index: x}
}

const operands = 13

func oneFunc(f ast.Function) *ast.Module { return &ast.Module{Functions: []ast.Function{f}} }

// C22_Plain: every instruction without operands, by itself, in parentheses, with folded
// operands, and between others.
//
// vx:text
func C22_Plain() {
	p := plain[vx.Choice("instruction", len(plain))]
	get := ast.LocalGet{Index: &ast.RawIndex{Index: 1}}
	switch vx.Choice("form", 5) {
	case 0:
		checkModule("(module (func "+p.text+"))", oneFunc(ast.Function{Instructions: []ast.Instruction{p.i}}))
	case 1:
		checkModule("(module (func ("+p.text+")))", oneFunc(ast.Function{Instructions: []ast.Instruction{p.i}}))
	case 2:
		checkModule("(module (func ("+p.text+"(local.get 1))))",
			oneFunc(ast.Function{Instructions: []ast.Instruction{ast.Folded{Instruction: p.i, Parameters: []ast.Instruction{get}}}}))
	case 3:
		checkModule("(module (func local.get 1 "+p.text+" drop))",
			oneFunc(ast.Function{Instructions: []ast.Instruction{get, p.i, ast.Drop{}}}))
	case 4:
		checkModule("(module (func (local.get 1) "+p.text+" (drop) return))",
			oneFunc(ast.Function{Instructions: []ast.Instruction{get, p.i, ast.Drop{}, ast.Return{}}}))
	}
}

// C22_Operands: every instruction with an operand: all indices of 1 or 3 digits, all
// identifiers of 1 or 2 characters (up to 3 in the thorough tier), constants of three digits.
//
// vx:text
func C22_Operands() {
	t, i := withOperand(vx.Choice("instruction", operands))
	switch vx.Choice("form", 3) {
	case 0:
		checkModule("(module (func "+t+" drop))", oneFunc(ast.Function{Instructions: []ast.Instruction{i, ast.Drop{}}}))
	case 1:
		checkModule("(module (func ("+t+") (drop)))", oneFunc(ast.Function{Instructions: []ast.Instruction{i, ast.Drop{}}}))
	case 2:
		checkModule("(module (func (drop ("+t+" (select)))))", oneFunc(ast.Function{Instructions: []ast.Instruction{
			ast.Folded{Instruction: ast.Drop{}, Parameters: []ast.Instruction{
				ast.Folded{Instruction: i, Parameters: []ast.Instruction{ast.Select{}}}}}}}))
	}
}

// tree is an instruction in parentheses with folded operands to the given depth.
func tree(depth int) (string, ast.Instruction) {
	n := 0
	if depth > 0 {
		n = vx.Choice("operands", 3)
	}
	p := plain[1+n] // drop, select, memory.grow
	if n == 0 {
		return "(" + p.text + ")", p.i
	}
	text, f := "("+p.text, ast.Folded{Instruction: p.i}
	for k := 0; k < n; k++ {
		t, i := tree(depth - 1)
		text += t
		f.Parameters = append(f.Parameters, i)
	}
	return text + ")", f
}

// C22_Folded: up to two expressions of depth two, among instructions that are not folded.
//
// vx:text
func C22_Folded() {
	text := "(module (func "
	var want []ast.Instruction
	for k := 0; k < 2; k++ {
		if vx.Choice("plain", 2) == 1 {
			text += " return "
			want = append(want, ast.Return{})
		}
		t, i := tree(2)
		text += t
		want = append(want, i)
	}
	checkModule(text+"))", oneFunc(ast.Function{Instructions: want}))
}

// C22_Control: blocks, loops, conditionals and indirect calls.
//
// vx:text
func C22_Control() {
	kind := vx.Choice("kind", 4)
	if kind == 3 {
		id := ident("type")
		checkModule("(module (func (call_indirect (type "+id+") (select))))", oneFunc(ast.Function{Instructions: []ast.Instruction{
			ast.Folded{Instruction: ast.CallIndirect{Type: ast.TypeUse{Index: id}}, Parameters: []ast.Instruction{ast.Select{}}}}}))
		return
	}
	text, name := maybeID("name")
	text = []string{"block ", "loop ", "if "}[kind] + text
	var results []ast.Result
	for k := vx.Choice("results", 3); k > 0; k-- {
		v := watTypes[vx.Choice("type", len(watTypes))]
		text += "(result " + v.text + ")"
		results = append(results, ast.Result{Types: []ast.ValType{v.t}})
	}
	bt := ast.BlockType{Results: results}
	var body []ast.Instruction
	inner := ""
	for k := vx.Choice("body", 3); k > 0; k-- {
		if vx.Choice("inner", 2) == 0 {
			inner += "(drop (select))"
			body = append(body, ast.Folded{Instruction: ast.Drop{}, Parameters: []ast.Instruction{ast.Select{}}})
		} else {
			inner += "(block $b (return))"
			body = append(body, ast.Block{Name: opt.Some("$b"), Instructions: []ast.Instruction{ast.Return{}}})
		}
	}
	var i ast.Instruction
	switch kind {
	case 0:
		text += inner
		i = ast.Block{Name: name, BlockType: bt, Instructions: body}
	case 1:
		text += inner
		i = ast.Loop{Name: name, BlockType: bt, Instructions: body}
	case 2:
		text += "(local.get 1)(then (return)" + inner + ")"
		f := ast.If{Name: name, BlockType: bt, Clause: []ast.Instruction{ast.LocalGet{Index: &ast.RawIndex{Index: 1}}},
			Then: ast.Then{Instructions: append([]ast.Instruction{ast.Return{}}, body...)}, Else: opt.None[ast.Else]()}
		if vx.Choice("else", 2) == 1 {
			text += "(else" + inner + ")"
			f.Else = opt.Some(ast.Else{Instructions: body})
		}
		i = f
	}
	checkModule("(module (func ("+text+")(drop)))", oneFunc(ast.Function{Instructions: []ast.Instruction{i, ast.Drop{}}}))
}

func params(max int) (string, []ast.Parameter) {
	text := ""
	var ps []ast.Parameter
	for k, n := 0, vx.Choice("params", max+1); k < n; k++ {
		v := watTypes[2]
		if k == 0 {
			v = watTypes[vx.Choice("type", len(watTypes))]
		}
		switch vx.Choice("param", 3) {
		case 0:
			id := "$" + word("param", 2)
			text += "(param " + id + " " + v.text + ")"
			ps = append(ps, ast.Parameter{ID: opt.Some(id), Types: []ast.ValType{v.t}})
		case 1:
			text += "(param " + v.text + ")"
			ps = append(ps, ast.Parameter{Types: []ast.ValType{v.t}})
		case 2:
			text += "(param i64 " + v.text + " f32)"
			ps = append(ps, ast.Parameter{Types: []ast.ValType{ast.I64{}, v.t, ast.F32{}}})
		}
	}
	return text, ps
}

func resultList(max int) (string, []ast.Result) {
	text := ""
	var rs []ast.Result
	for k, n := 0, vx.Choice("results", max+1); k < n; k++ {
		v := watTypes[3]
		if k == 0 {
			v = watTypes[vx.Choice("type", len(watTypes))]
		}
		if vx.Choice("several", 2) == 1 {
			text += "(result " + v.text + " f32 i64)"
			rs = append(rs, ast.Result{Types: []ast.ValType{v.t, ast.F32{}, ast.I64{}}})
			continue
		}
		text += "(result " + v.text + ")"
		rs = append(rs, ast.Result{Types: []ast.ValType{v.t}})
	}
	return text, rs
}

// C22_Func: functions with identifier, export, a parameter group (2 in the
// thorough tier), a result, a local
// and an instruction.
//
// vx:text
// vx:share 5
func C22_Func() {
	id, oid := maybeID("func")
	f := ast.Function{ID: oid}
	text := "(module (func " + id
	if vx.Choice("export", 2) == 1 {
		text += "(export \"ab\")"
		f.Exports = []ast.InlineExport{{Name: "ab"}}
	}
	p, ps := params(1 + more())
	r, rs := resultList(1)
	text, f.Parameters, f.Results = text+p+r, ps, rs
	if vx.Choice("local", 2) == 1 {
		v := watTypes[vx.Choice("type", len(watTypes))]
		text += "(local " + v.text + ")(local i64)"
		f.Locals = []ast.Local{{Type: v.t}, {Type: ast.I64{}}}
	}
	f.Instructions = []ast.Instruction{ast.Return{}}
	checkModule(text+" return))", oneFunc(f))
}

// C22_Import: an imported function with names of up to 2 letters each, with and without
// export, parameters and results.
//
// vx:text
func C22_Import() {
	id, oid := maybeID("func")
	f := ast.Function{ID: oid}
	text := "(module (func " + id
	if vx.Choice("export", 2) == 1 {
		text += "(export \"ab\")"
		f.Exports = []ast.InlineExport{{Name: "ab"}}
	}
	letters := func(name string) string {
		b := vx.Bytes(name, vx.Choice("len", 3))
		for i := range b {
			vx.Assume(vx.And(b[i] >= 'a', b[i] <= 'z'))
		}
		return string(b)
	}
	f.Imports = []ast.InlineImport{{Module: letters("module"), Field: letters("field")}}
	text += "(import \"" + f.Imports[0].Module + "\" \"" + f.Imports[0].Field + "\")"
	if vx.Choice("signature", 2) == 1 {
		text += "(param i32)(result f64)"
		f.Parameters = []ast.Parameter{{Types: []ast.ValType{ast.I32{}}}}
		f.Results = []ast.Result{{Types: []ast.ValType{ast.F64{}}}}
	}
	checkModule(text+"))", oneFunc(f))
}

// C22_Memory, C22_Table, C22_Type, C22_Global: declarations with all numbers of the stated
// digits and identifiers.
//
// vx:text
func C22_Memory() {
	id, oid := maybeID("id")
	t, l := limits()
	checkModule("(module (memory "+id+t+"))", &ast.Module{Memory: []ast.Memory{{ID: oid, Limits: l}}})
}

// vx:text
func C22_Table() {
	id, oid := maybeID("id")
	t, l := limits()
	table := ast.Table{ID: oid, TableType: ast.TableType{Limits: l, RefType: ast.FuncRef{}}}
	text := "(module (table " + id + t + " funcref"
	if vx.Choice("extern", 2) == 1 {
		text = "(module (table " + id + t + " externref"
		table.TableType.RefType = ast.ExternRef{}
	}
	if vx.Choice("elem", 2) == 1 {
		text = "(module (table " + id + " funcref (elem "
		table.TableType = ast.TableType{RefType: ast.FuncRef{}}
		for k := vx.Choice("elems", 3); k > 0; k-- {
			e := ident("elem")
			text += e + " "
			table.Elements = append(table.Elements, ast.Element{ID: e})
		}
		text += ")"
	}
	checkModule(text+"))", &ast.Module{Tables: []ast.Table{table}})
}

// vx:text
func C22_Type() {
	id, oid := maybeID("id")
	p, ps := params(2)
	r, rs := resultList(2)
	checkModule("(module (type "+id+"(func "+p+r+")))",
		&ast.Module{Types: []ast.Type{{ID: oid, FuncType: ast.FuncType{Parameters: ps, Results: rs}}}})
}

// vx:text
func C22_Global() {
	id, oid := maybeID("id")
	v := watTypes[vx.Choice("type", len(watTypes))]
	g := ast.Global{ID: oid, Type: ast.GlobalType{Type: v.t}}
	text := v.text
	if vx.Choice("mut", 2) == 1 {
		text, g.Type.Mutable = "(mut "+v.text+")", true
	}
	t, i := withOperand(9 + vx.Choice("instruction", 4))
	g.Instructions = []ast.Instruction{i}
	checkModule("(module (global "+id+text+" ("+t+")))", &ast.Module{Globals: []ast.Global{g}})
}

// C22_Order: three declarations of any kind keep their order.
//
// vx:text
func C22_Order() {
	text := "(module "
	want := &ast.Module{}
	for k := 0; k < 3; k++ {
		v := watTypes[k+1]
		id := "$" + string(rune('a'+k))
		switch vx.Choice("item", 5) {
		case 0:
			text += "(func " + id + " (local " + v.text + ") return)"
			want.Functions = append(want.Functions, ast.Function{ID: opt.Some(id), Locals: []ast.Local{{Type: v.t}}, Instructions: []ast.Instruction{ast.Return{}}})
		case 1:
			text += "(type " + id + "(func (param " + v.text + ")))"
			want.Types = append(want.Types, ast.Type{ID: opt.Some(id), FuncType: ast.FuncType{Parameters: []ast.Parameter{{Types: []ast.ValType{v.t}}}}})
		case 2:
			text += "(table " + id + " 7 funcref)"
			want.Tables = append(want.Tables, ast.Table{ID: opt.Some(id), TableType: ast.TableType{Limits: ast.Limits{Min: 7}, RefType: ast.FuncRef{}}})
		case 3:
			text += "(global " + id + " " + v.text + "(i32.const " + string(rune('1'+k)) + "))"
			want.Globals = append(want.Globals, ast.Global{ID: opt.Some(id), Type: ast.GlobalType{Type: v.t}, Instructions: []ast.Instruction{ast.I32Const{Value: int32(k + 1)}}})
		case 4:
			text += "(memory " + id + " 1 2)"
			want.Memory = append(want.Memory, ast.Memory{ID: opt.Some(id), Limits: ast.Limits{Min: 1, Max: opt.Some(uint32(2))}})
		}
	}
	checkModule(text+")", want)
}

// layoutText has a | where there may be, and a _ where there must be, whitespace or a
// comment between two tokens.
const layoutText = "|(|module|(|func_$f|(|export|\"a\"|)|(|param_$x_i32|)_local.get_$x|(|drop|(|i32.const_-7|)|)|)|(|memory_1_2|)|)|"

var layoutTree = &ast.Module{
	Functions: []ast.Function{{
		ID:         opt.Some("$f"),
		Exports:    []ast.InlineExport{{Name: "a"}},
		Parameters: []ast.Parameter{{ID: opt.Some("$x"), Types: []ast.ValType{ast.I32{}}}},
		Instructions: []ast.Instruction{
			ast.LocalGet{Index: &ast.IDIndex{ID: "$x"}},
			ast.Folded{Instruction: ast.Drop{}, Parameters: []ast.Instruction{ast.I32Const{Value: -7}}},
		},
	}},
	Memory: []ast.Memory{{Limits: ast.Limits{Min: 1, Max: opt.Some(uint32(2))}}},
}

// anyGap is whitespace or a comment.
func anyGap() string {
	switch vx.Choice("gap", 4) {
	case 0:
		c := vx.U8("space")
		vx.Assume(vx.Or(c == ' ', c == '\t', c == '\n', c == '\r'))
		return string([]byte{c})
	case 1:
		c := vx.U8("block")
		vx.Assume(vx.And(c < 0x80, c != '('))
		return "(;" + string([]byte{c}) + ";)"
	case 2:
		c := vx.U8("line")
		vx.Assume(vx.And(c < 0x80, c != '\n'))
		return ";;" + string([]byte{c}) + "\n"
	}
	return " (;;) \n ;;\n"
}

// C22_Layout: a module with whitespace or a comment at any two places between tokens.
//
// vx:text
// vx:share 3
func C22_Layout() {
	gaps := strings.Count(layoutText, "|") + strings.Count(layoutText, "_")
	first := vx.Choice("first", gaps)
	second := vx.Choice("second", gaps)
	vx.Assume(second >= first)
	text, n := "", 0
	for i := 0; i < len(layoutText); i++ {
		c := layoutText[i]
		if c != '|' && c != '_' {
			text += string(rune(c))
			continue
		}
		if n == first || n == second {
			g := anyGap()
			if g[0] == ';' && strings.HasSuffix(text, "(") {
				g = " " + g // or it would be a block comment
			}
			text += g
		} else if c == '_' {
			text += " "
		}
		n++
	}
	want := *layoutTree
	want.Functions = append([]ast.Function{}, want.Functions...)
	want.Functions[0].Parameters = []ast.Parameter{{ID: opt.Some("$x"), Types: []ast.ValType{ast.I32{}}}}
	checkModule(text, &want)
}

// C22_Strings: export names with all characters and escapes.
//
// vx:text
func C22_Strings() {
	text, want := "", ""
	for k := 1 + vx.Choice("parts", 2); k > 0; k-- {
		switch vx.Choice("part", 4) {
		case 0:
			c := vx.U8("char")
			vx.Assume(vx.And(c >= ' ', c < 0x7f, c != '"', c != '\\'))
			text += string([]byte{c})
			want += string([]byte{c})
		case 1:
			t, b := hexDigits("escape", 2, false, anyPattern)
			v, _ := valueOf(b, 16)
			text += "\\" + t
			want += string([]byte{byte(v)})
		case 2:
			i := vx.Choice("letter", 6)
			text += "\\" + "tnr\"'\\"[i:i+1]
			want += "\t\n\r\"'\\"[i : i+1]
		case 3:
			i := vx.Choice("unicode", 4)
			text += []string{"\\u{41}", "\\u{e9}", "\\u{20AC}", "\\u{1_F600}"}[i]
			want += []string{"A", "\u00e9", "\u20ac", "\U0001f600"}[i]
		}
	}
	checkModule("(module (func (export \""+text+"\")))", oneFunc(ast.Function{Exports: []ast.InlineExport{{Name: want}}}))
}
