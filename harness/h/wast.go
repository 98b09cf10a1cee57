package h

import (
	"math"

	opt "github.com/patrickhuber/go-types/option"

	"github.com/patrickhuber/go-wasm/wast/ast"
	"github.com/patrickhuber/go-wasm/wast/parse"
	wat "github.com/patrickhuber/go-wasm/wat/ast"
	"github.com/patrickhuber/go-wasm/zz_verif/vx"
)

func wholeQuote(q ast.QuoteWat) bool {
	switch q := q.(type) {
	case *ast.Wat:
		return q != nil && wholeDirective(q.Wat)
	case *ast.QuoteModule:
		return q != nil
	case *ast.QuoteComponent:
		return q != nil
	}
	return false
}

func wholeAction(a ast.Action) bool {
	i, ok := a.(ast.Invoke)
	if !ok {
		return a != nil
	}
	for _, c := range i.Const {
		if c == nil {
			return false
		}
	}
	return true
}

func wholeScript(w *ast.Wast) bool {
	if w == nil {
		return false
	}
	for _, d := range w.Directives {
		switch d := d.(type) {
		case nil:
			return false
		case ast.WatDirective:
			if !wholeQuote(d.Wat) {
				return false
			}
		case ast.AssertInvalid:
			if !wholeQuote(d.Module) {
				return false
			}
		case ast.AssertMalformed:
			if !wholeQuote(d.Module) {
				return false
			}
		case ast.AssertTrap:
			if !wholeAction(d.Action) {
				return false
			}
		case ast.AssertReturn:
			if !wholeAction(d.Action) {
				return false
			}
			for _, r := range d.Results {
				if r == nil {
					return false
				}
			}
		}
	}
	return true
}

// wastTotal parses text as a script and requires an error or a tree without holes.
func wastTotal(text string) {
	var w *ast.Wast
	var err error
	vx.NoPanic("parsing a script", func() { w, err = parse.Parse(text) })
	if err == nil {
		vx.Assert(wholeScript(w), "the syntax tree has a hole")
		vx.Cover("tree")
	} else {
		vx.Cover("error")
	}
}

var wastContexts = []string{
	"", "(", "(module) ", "(module quote ", "(component quote ", "(module ",
	"(assert_return ", "(assert_return (", "(assert_return (invoke ", "(assert_return (invoke \"f\" ",
	"(assert_return (invoke \"f\" (", "(assert_return (invoke \"f\" (i32.const ", "(assert_return (invoke \"f\") ",
	"(assert_return (invoke \"f\") (", "(assert_return (invoke \"f\") (f64.const ", "(assert_return (get ",
	"(assert_trap ", "(assert_trap (", "(assert_trap (invoke \"f\") ", "(assert_invalid ", "(assert_invalid (",
	"(assert_invalid (module) ", "(assert_invalid (module quote ", "(assert_malformed ", "(assert_malformed (component) ",
	"(assert_malformed (module quote \"x\") ",
}

var wastVocabulary = []string{
	"(", ")", "module", "component", "quote", "invoke", "get", "func", "assert_return", "assert_trap",
	"assert_invalid", "assert_malformed", "i32.const", "i64.const", "f32.const", "f64.const", "ref.null", "ref.extern",
	"v128.const", "$x", "0", "-1", "1.5", "nan:canonical", "\"s\"", "\"\\0g\"", "i32", "binary",
	"(;c;)", ";;c\n", "\"", "(;", ",", "\x00", "\xff", "99999999999",
}

// C21_Script: every beginning of a script followed by up to two tokens of the vocabulary
// (three in the thorough tier) and by 0 to 4 closing parentheses.
//
// vx:text
// vx:share 2
func C21_Script() {
	text := wastContexts[vx.Choice("context", len(wastContexts))]
	n := 2 + more()
	for i := 0; i < n; i++ {
		k := vx.Choice("token", len(wastVocabulary)+1)
		if k == 0 {
			break
		}
		text += wastVocabulary[k-1] + " "
	}
	wastTotal(text + "))))"[:vx.Choice("closing", 5)])
}

// C21_ScriptBytes: every beginning of a script followed by 1 or 2 arbitrary bytes (3 in the
// thorough tier) and by 0 to 4 closing parentheses.
//
// vx:text
func C21_ScriptBytes() {
	text := wastContexts[vx.Choice("context", len(wastContexts))]
	text += vx.Str("bytes", 1+vx.Choice("len", 2+more()))
	wastTotal(text + "))))"[:vx.Choice("closing", 5)])
}

// C21_ScriptWords: every beginning of a script followed by a word that begins with a
// letter, of 3 to 16 characters.
//
// vx:text
// vx:share 2
func C21_ScriptWords() {
	text := wastContexts[vx.Choice("context", len(wastContexts))]
	w := word("word", []int{3, 6, 9, 13, 14, 16, 4, 5, 8, 10}[vx.Choice("len", 6+4*more())])
	vx.Assume(vx.And(w[0] >= 'a', w[0] <= 'z'))
	wastTotal(text + w + " \"s\"" + "))))"[:1+vx.Choice("closing", 3)])
}

// Expected values.

type constant struct {
	kind  int
	value uint64 // the bits
}

var constKinds = []string{"i32.const ", "i64.const ", "f32.const ", "f64.const "}

// anyConst is a constant in parentheses.
func anyConst() (string, constant) {
	kind := vx.Choice("const", 4)
	sign := ""
	if vx.Choice("neg", 2) == 1 {
		sign = "-"
	}
	var t string
	var v uint64
	if kind < 2 {
		var b []byte
		t, b = digits("const", 3, false)
		v, _ = valueOf(b, 10)
		if sign == "-" {
			v = -v
		}
		if kind == 0 {
			v = uint64(uint32(v))
		}
		return "(" + constKinds[kind] + sign + t + ")", constant{kind, v}
	}
	mant, width := 23, 32
	if kind == 3 {
		mant, width = 52, 64
	}
	exp := uint64(1)<<(width-1-mant) - 1
	switch vx.Choice("float", 3) {
	case 0:
		var b []byte
		t, b = hexDigits("payload", 3, false, []string{"cd"})
		p, _ := valueOf(b, 16)
		t, v = "nan:0x"+t, exp<<mant|p
	case 1:
		t, v = "inf", exp<<mant
	case 2:
		// 2^d, which the exponent field shows
		d := vx.Choice("exponent", 3)
		t, v = "0x1p"+[]string{"0", "-3", "9"}[d], (exp/2+[]uint64{0, 1<<64 - 3, 9}[d])<<mant
	}
	if sign == "-" {
		v |= 1 << (width - 1)
	}
	return "(" + constKinds[kind] + sign + t + ")", constant{kind, v}
}

func sameConst(got any, want constant) bool {
	switch c := got.(type) {
	case ast.I32Const:
		return vx.And(want.kind == 0, uint64(uint32(c.Value)) == want.value)
	case ast.I64Const:
		return vx.And(want.kind == 1, uint64(c.Value) == want.value)
	case ast.F32Const:
		return vx.And(want.kind == 2, uint64(math.Float32bits(c.Value)) == want.value)
	case ast.F64Const:
		return vx.And(want.kind == 3, math.Float64bits(c.Value) == want.value)
	}
	return false
}

// script parses text, which must have n directives.
func script(text string, n int) []ast.Directive {
	var w *ast.Wast
	var err error
	vx.NoPanic("parsing a script", func() { w, err = parse.Parse(text) })
	vx.Assert(err == nil, "a valid script is refused")
	vx.Assert(w != nil && len(w.Directives) == n, "the number of directives is wrong")
	vx.Cover("script")
	return w.Directives
}

// name is a string of n characters, quoted and not.
func name(what string, n int) (string, string) {
	b := vx.Bytes(what, n)
	for _, c := range b {
		vx.Assume(vx.And(c >= ' ', c < 0x7f, c != '"', c != '\\'))
	}
	return "\"" + string(b) + "\"", string(b)
}

// action is an invocation and a check of what the parser made of it.
func action(max int) (string, func(ast.Action) bool) {
	id, oid := "", opt.None[string]()
	if vx.Choice("has id", 2) == 1 {
		s := "$" + word("id", 2)
		id, oid = s+" ", opt.Some(s)
	}
	q, fn := name("name", vx.Choice("namelen", 3))
	text := "(invoke " + id + q
	var args []constant
	for k := vx.Choice("args", max+1); k > 0; k-- {
		t, c := anyConst()
		text += t
		args = append(args, c)
	}
	return text + ")", func(a ast.Action) bool {
		i, ok := a.(ast.Invoke)
		if !ok || !sameText(i.Name, oid) || i.String != fn || len(i.Const) != len(args) {
			return false
		}
		for k := range args {
			if !sameConst(i.Const[k], args[k]) {
				return false
			}
		}
		return true
	}
}

// C23_Return: an invocation with up to 1 argument and 1 result of all kinds.
//
// vx:text
// vx:share 2
func C23_Return() {
	a, ok := action(1)
	text := "(assert_return " + a
	var results []constant
	for k := vx.Choice("results", 2); k > 0; k-- {
		t, c := anyConst()
		text += t
		results = append(results, c)
	}
	d, is := script(text+")", 1)[0].(ast.AssertReturn)
	vx.Assert(is, "assert_return is something else")
	vx.Assert(ok(d.Action), "the action differs from the text")
	vx.Assert(len(d.Results) == len(results), "the number of results is wrong")
	for k := range results {
		vx.Assert(sameConst(d.Results[k], results[k]), "a result differs from the text")
	}
}

// C23_Many: invocations with up to 3 arguments and results keep their order.
//
// vx:text
func C23_Many() {
	n, m := vx.Choice("args", 4), vx.Choice("results", 4)
	text := "(assert_return (invoke \"f\""
	var vs []constant
	for k := 0; k < n+m; k++ {
		t, b := digits("v", 2, false)
		v, _ := valueOf(b, 10)
		kind := (k + n) % 2
		if k == n {
			text += ")"
		}
		text += "(" + constKinds[kind] + t + ")"
		vs = append(vs, constant{kind, v})
	}
	if m == 0 {
		text += ")"
	}
	d, is := script(text+")", 1)[0].(ast.AssertReturn)
	vx.Assert(is, "assert_return is something else")
	i, is := d.Action.(ast.Invoke)
	vx.Assert(is && len(i.Const) == n && len(d.Results) == m, "the number of arguments or results is wrong")
	for k, v := range vs {
		if k < n {
			vx.Assert(sameConst(i.Const[k], v), "an argument differs from the text")
		} else {
			vx.Assert(sameConst(d.Results[k-n], v), "a result differs from the text")
		}
	}
}

// C23_Trap: an invocation with up to 1 argument and all messages of up to 3 characters.
//
// vx:text
func C23_Trap() {
	a, ok := action(1)
	q, msg := name("message", vx.Choice("len", 4))
	d, is := script("(assert_trap "+a+q+")", 1)[0].(ast.AssertTrap)
	vx.Assert(is, "assert_trap is something else")
	vx.Assert(ok(d.Action), "the action differs from the text")
	vx.Assert(d.Failure == msg, "the message differs from the text")
}

// quoted is a module, quoted or not, and a check of what the parser made of it.
func quoted() (string, func(ast.QuoteWat) bool) {
	switch vx.Choice("module", 4) {
	case 0:
		q, s := name("quote", 1+2*vx.Choice("quotelen", 2))
		return "(module quote " + q + ")", func(w ast.QuoteWat) bool {
			m, ok := w.(*ast.QuoteModule)
			return ok && m.Quote == s
		}
	case 1:
		q, s := name("quote", 1+2*vx.Choice("quotelen", 2))
		return "(component quote " + q + ")", func(w ast.QuoteWat) bool {
			m, ok := w.(*ast.QuoteComponent)
			return ok && m.Quote == s
		}
	case 2:
		return "(component)", func(w ast.QuoteWat) bool {
			m, ok := w.(*ast.Wat)
			if !ok {
				return false
			}
			c, ok := m.Wat.(*wat.Component)
			return ok && c != nil
		}
	}
	id := "$" + word("id", 2)
	n, v := number("min", 3)
	return "(module (func " + id + " return)(memory " + n + "))", func(w ast.QuoteWat) bool {
		m, ok := w.(*ast.Wat)
		if !ok {
			return false
		}
		d, ok := m.Wat.(*wat.Module)
		return ok && sameModule(d, &wat.Module{
			Functions: []wat.Function{{ID: opt.Some(id), Instructions: []wat.Instruction{wat.Return{}}}},
			Memory:    []wat.Memory{{Limits: wat.Limits{Min: v}}},
		})
	}
}

// C23_Modules: modules and assertions about modules, quoted and not.
//
// vx:text
func C23_Modules() {
	t, ok := quoted()
	switch vx.Choice("directive", 3) {
	case 0:
		d, is := script(t, 1)[0].(ast.WatDirective)
		vx.Assert(is && ok(d.Wat), "a module differs from the text")
	case 1:
		q, msg := name("message", 3)
		d, is := script("(assert_invalid "+t+q+")", 1)[0].(ast.AssertInvalid)
		vx.Assert(is && ok(d.Module), "a module differs from the text")
		vx.Assert(d.Failure == msg, "the message differs from the text")
	case 2:
		q, msg := name("message", 3)
		d, is := script("(assert_malformed "+t+q+")", 1)[0].(ast.AssertMalformed)
		vx.Assert(is && ok(d.Module), "a module differs from the text")
		vx.Assert(d.Failure == msg, "the message differs from the text")
	}
}

var scriptParts = []string{
	"(module (func $a return))", "(assert_return (invoke \"b\"))", "(assert_trap (invoke \"c\") \"m\")",
	"(assert_invalid (module quote \"d\") \"n\")", "(assert_malformed (component) \"o\")", "(component)",
}

func isPart(d ast.Directive, k int) bool {
	switch d := d.(type) {
	case ast.WatDirective:
		w, ok := d.Wat.(*ast.Wat)
		if !ok {
			return false
		}
		switch m := w.Wat.(type) {
		case *wat.Module:
			return k == 0 && len(m.Functions) == 1
		case *wat.Component:
			return k == 5
		}
	case ast.AssertReturn:
		i, ok := d.Action.(ast.Invoke)
		return ok && k == 1 && i.String == "b"
	case ast.AssertTrap:
		i, ok := d.Action.(ast.Invoke)
		return ok && k == 2 && i.String == "c" && d.Failure == "m"
	case ast.AssertInvalid:
		q, ok := d.Module.(*ast.QuoteModule)
		return ok && k == 3 && q.Quote == "d" && d.Failure == "n"
	case ast.AssertMalformed:
		_, ok := d.Module.(*ast.Wat)
		return ok && k == 4 && d.Failure == "o"
	}
	return false
}

// C23_Order: up to 3 directives of any kind (4 in the thorough tier), with whitespace or a
// comment at one place between them.
//
// vx:text
func C23_Order() {
	n := vx.Choice("n", 4+more())
	gap := vx.Choice("gap", n+1)
	text := ""
	var ks []int
	for i := 0; i < n; i++ {
		if i == gap {
			text += anyGap()
		}
		k := vx.Choice("part", len(scriptParts))
		text += scriptParts[k]
		ks = append(ks, k)
	}
	if gap == n {
		text += anyGap()
	}
	ds := script(text, n)
	for i, k := range ks {
		vx.Assert(isPart(ds[i], k), "a directive differs from the text")
	}
}
