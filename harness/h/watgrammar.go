package h

import (
	"strings"

	wast "github.com/patrickhuber/go-wasm/wast/parse"
	"github.com/patrickhuber/go-wasm/wat/lex"
	"github.com/patrickhuber/go-wasm/wat/parse"
	"github.com/patrickhuber/go-wasm/wat/token"
	"github.com/patrickhuber/go-wasm/zz_verif/vx"
)

// ---- reference grammar of the supported module text and scripts --------------------------------

// watGrammar recognises a sequence of tokens; ok ends as whether they belong to the grammar.
type watGrammar struct {
	t  []string
	ok bool
}

// watTokens splits a text without comments.
func watTokens(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		j := i + 1
		switch {
		case s[i] == ' ':
			i++
			continue
		case s[i] == '(' || s[i] == ')':
		case s[i] == '"':
			for s[j] != '"' {
				j++
			}
			j++
		default:
			for j < len(s) && !strings.Contains(" ()\"", s[j:j+1]) {
				j++
			}
		}
		out = append(out, s[i:j])
		i = j
	}
	return out
}

func (g *watGrammar) at(k int) string {
	if !g.ok || k >= len(g.t) {
		return ""
	}
	return g.t[k]
}

func (g *watGrammar) eat(s ...string) bool {
	for i := range s {
		if g.at(i) != s[i] {
			return false
		}
	}
	g.t = g.t[len(s):]
	return true
}

func (g *watGrammar) want(s string) {
	if !g.eat(s) {
		g.ok = false
	}
}

// take accepts a token of one kind.
func (g *watGrammar) take(is func(string) bool) bool {
	if t := g.at(0); t != "" && is(t) {
		g.t = g.t[1:]
		return true
	}
	return false
}

func (g *watGrammar) need(is func(string) bool) {
	if !g.take(is) {
		g.ok = false
	}
}

func oneOf(list ...string) func(string) bool {
	return func(s string) bool {
		for _, x := range list {
			if x == s {
				return true
			}
		}
		return false
	}
}

var (
	isID      = func(s string) bool { return len(s) > 1 && s[0] == '$' }
	isStr     = func(s string) bool { return s[0] == '"' }
	isU32     = oneOf("0", "7", "0x1F")
	isI32     = oneOf("0", "7", "0x1F", "-1", "+1")
	isFlt     = oneOf("0", "7", "0x1F", "-1", "+1", "1.5", "nan", "inf")
	isNumType = oneOf("i32", "i64", "f32", "f64")
	isRefType = oneOf("funcref", "externref")
	isIdx     = func(s string) bool { return isID(s) || isU32(s) }
)

// isPlain says whether s is an instruction without operand.
func isPlain(s string) bool {
	for _, p := range plain {
		if p.text == s {
			return true
		}
	}
	return false
}

func (g *watGrammar) group(name string) bool { return g.eat("(", name) }

// signature is parameters, then results.
func (g *watGrammar) signature(params bool) {
	for params && g.group("param") {
		if g.take(isID) {
			g.need(isNumType)
		} else {
			for g.take(isNumType) {
			}
		}
		g.want(")")
	}
	for g.group("result") {
		for g.take(isNumType) {
		}
		g.want(")")
	}
}

func (g *watGrammar) limits() {
	g.need(isU32)
	g.take(isU32)
}

// folded is any number of instructions in parentheses.
func (g *watGrammar) folded() {
	for g.at(0) == "(" && g.at(1) != "then" && g.at(1) != "else" {
		g.want("(")
		switch {
		case g.eat("block"), g.eat("loop"):
			g.take(isID)
			g.signature(false)
			g.folded()
		case g.eat("if"):
			g.take(isID)
			g.signature(false)
			g.folded()
			g.want("(")
			g.want("then")
			g.folded()
			g.want(")")
			if g.group("else") {
				g.folded()
				g.want(")")
			}
		default:
			g.plain()
			g.folded()
		}
		g.want(")")
	}
}

func (g *watGrammar) plain() {
	switch {
	case g.take(oneOf("br", "br_if", "call", "local.get", "local.set", "local.tee", "global.get", "global.set")):
		g.need(isIdx)
	case g.eat("br_table"):
		g.need(isIdx)
		for g.take(isIdx) {
		}
	case g.eat("call_indirect"):
		g.want("(")
		g.want("type")
		g.need(isID)
		g.want(")")
	case g.take(oneOf("i32.const", "i64.const")):
		g.need(isI32)
	case g.take(oneOf("f32.const", "f64.const")):
		g.need(isFlt)
	default:
		g.need(isPlain)
	}
}

func (g *watGrammar) field() {
	g.want("(")
	switch {
	case g.eat("func"):
		g.take(isID)
		for g.group("export") {
			g.need(isStr)
			g.want(")")
		}
		if g.group("import") {
			g.need(isStr)
			g.need(isStr)
			g.want(")")
			g.signature(true)
			break
		}
		g.signature(true)
		for g.group("local") {
			g.need(isNumType)
			g.want(")")
		}
		for g.ok && g.at(0) != ")" {
			if g.at(0) == "(" {
				n := len(g.t)
				g.folded()
				g.ok = g.ok && len(g.t) < n
			} else {
				g.plain()
			}
		}
	case g.eat("type"):
		g.take(isID)
		g.want("(")
		g.want("func")
		g.signature(true)
		g.want(")")
	case g.eat("table"):
		g.take(isID)
		if g.take(isRefType) {
			g.want("(")
			g.want("elem")
			for g.take(isID) {
			}
			g.want(")")
			break
		}
		g.limits()
		g.need(isRefType)
	case g.eat("global"):
		g.take(isID)
		if g.group("mut") {
			g.need(isNumType)
			g.want(")")
		} else {
			g.need(isNumType)
		}
		g.folded()
	case g.eat("memory"):
		g.take(isID)
		g.limits()
	default:
		g.ok = false
	}
	g.want(")")
}

func (g *watGrammar) module() {
	g.want("(")
	if g.eat("component") {
		g.want(")")
		return
	}
	g.want("module")
	for g.ok && g.at(0) == "(" {
		g.field()
	}
	g.want(")")
}

func (g *watGrammar) quoted() {
	if g.eat("(", "module", "quote") || g.eat("(", "component", "quote") {
		g.need(isStr)
		g.want(")")
		return
	}
	g.module()
}

func (g *watGrammar) consts() {
	for g.ok && g.eat("(") {
		if g.take(oneOf("i32.const", "i64.const")) {
			g.need(isI32)
		} else {
			g.need(oneOf("f32.const", "f64.const"))
			g.need(isFlt)
		}
		g.want(")")
	}
}

func (g *watGrammar) action() {
	g.want("(")
	g.want("invoke")
	g.take(isID)
	g.need(isStr)
	g.consts()
	g.want(")")
}

func (g *watGrammar) script() {
	for g.ok && len(g.t) > 0 {
		switch {
		case g.eat("(", "assert_return"):
			g.action()
			g.consts()
		case g.eat("(", "assert_trap"):
			g.action()
			g.need(isStr)
		case g.eat("(", "assert_invalid"), g.eat("(", "assert_malformed"):
			g.quoted()
			g.need(isStr)
		default:
			g.quoted()
			continue
		}
		g.want(")")
	}
}

// checkGrammar requires that the text is parsed without error exactly when it belongs to
// the grammar.
func checkGrammar(text string, script bool) {
	checkSentence(watTokens(text), text, script)
}

func checkSentence(toks []string, text string, script bool) {
	g := &watGrammar{t: toks, ok: true}
	var err error
	end := true
	if script {
		g.script()
		vx.NoPanic("parsing a script", func() { _, err = wast.Parse(text) })
	} else {
		g.module()
		vx.NoPanic("parsing a module", func() {
			l := lex.New(text)
			_, err = parse.Parse(l)
			if err == nil {
				var tok *token.Token
				tok, err = parse.Peek(l)
				end = err == nil && tok.Type == token.EndOfStream
			}
		})
	}
	if g.ok && len(g.t) == 0 {
		vx.Assert(err == nil && end, "text of the grammar is refused")
		vx.Cover("in")
	} else {
		vx.Assert(err != nil || !end, "text outside the grammar is accepted")
		vx.Cover("out")
	}
}

// closed adds the closing parentheses that are missing.
func closed(text string) string {
	depth := 0
	for _, t := range watTokens(text) {
		if t == "(" {
			depth++
		} else if t == ")" {
			depth--
		}
	}
	for ; depth > 0; depth-- {
		text += ")"
	}
	return text
}

// following is up to n tokens of a vocabulary.
func following(vocabulary []string, n int) string {
	text := ""
	for i := 0; i < n; i++ {
		k := vx.Choice("token", len(vocabulary)+1)
		if k == 0 {
			break
		}
		text += vocabulary[k-1] + " "
	}
	return text
}

var grammarContexts = []string{
	"", "(module ", "(component ", "(module (func ", "(module (func $f ", "(module (func (", "(module (func (param ", "(module (func (param $p ",
	"(module (func (param i32) ", "(module (func (param i32) (", "(module (func (result ", "(module (func (result i32) (", "(module (func (local ", "(module (func (local i32) (",
	"(module (func (export ", "(module (func (export \"e\") (", "(module (func (import ", "(module (func (import \"m\" ", "(module (func (import \"m\" \"n\") (",
	"(module (func (drop) (", "(module (func drop ", "(module (func drop (",
	"(module (type ", "(module (type (", "(module (type (func ", "(module (type (func (param i32) (", "(module (type (func (result i32) (", "(module (type (func) ",
	"(module (table ", "(module (table $t ", "(module (table 0 ", "(module (table 0 7 ", "(module (table funcref ", "(module (table funcref (elem ", "(module (table funcref (elem $x) ", "(module (table 0 funcref ",
	"(module (global ", "(module (global (mut ", "(module (global i32 ", "(module (global i32 (i32.const 0) ",
	"(module (memory ", "(module (memory 0 ", "(module (memory 0 7 ",
	"(module (func (block ", "(module (func (block $b ", "(module (func (block (", "(module (func (block (result i32) (", "(module (func (block (drop) ", "(module (func (loop (drop) (",
	"(module (func (if ", "(module (func (if $i (", "(module (func (if (then) ", "(module (func (if (then) (", "(module (func (if (then) (else) ", "(module (func (if (then) (else) (", "(module (func (if (then ", "(module (func (if (then) (else ",
	"(module (func (if (result i32) (drop) (", "(module (func (if (drop) (then) (",
	"(module (func (call ", "(module (func (call_indirect ", "(module (func (call_indirect (type ", "(module (func (call_indirect (type $t) (",
	"(module (func (br_table ", "(module (func (br_table 0 ", "(module (func br_table 0 ", "(module (func i32.const ", "(module (func (f32.const ", "(module (func (i32.const 0 ", "(module (func block ", "(module (func loop ", "(module (func if ", "(module) ",
}

var grammarVocabulary = []string{
	"(", ")", "module", "component", "func", "type", "table", "global", "memory", "mut", "elem",
	"param", "result", "local", "export", "import", "then", "else", "block", "loop", "if",
	"funcref", "externref", "i32", "f64", "$x", "0", "-1", "1.5", "\"s\"",
	"i32.const", "f64.const", "local.get", "br_table", "call_indirect", "i32.add", "drop", "return", "end", "start", "data",
}

// C29_Tokens: every context followed by up to two tokens of the vocabulary (three in the
// thorough tier) and by the closing parentheses that are missing.
//
// vx:text
// vx:share 3
func C29_Tokens() {
	text := grammarContexts[vx.Choice("context", len(grammarContexts))]
	checkGrammar(closed(text+following(grammarVocabulary, 2+more())), false)
}

// C29_Words: every context followed by a word of any letters, digits, dots and
// underscores behind a letter or dollar sign, of 2 to 9 characters, and by nothing or a number.
//
// vx:text
// vx:share 3
func C29_Words() {
	text := grammarContexts[vx.Choice("context", len(grammarContexts))]
	b := vx.Bytes("word", []int{2, 3, 4, 5, 6, 9, 7, 8}[vx.Choice("len", 6+2*more())])
	for i, c := range b {
		letter := vx.And(c >= 'a', c <= 'z')
		if i == 0 {
			vx.Assume(vx.Or(letter, c == '$'))
		} else {
			vx.Assume(vx.Or(letter, vx.And(c >= '0', c <= '9'), c == '.', c == '_'))
		}
	}
	after := []string{"", " 0"}[vx.Choice("after", 2)]
	rest := closed(text)[len(text):]
	toks := append(watTokens(text), string(b))
	toks = append(append(toks, watTokens(after)...), watTokens(rest)...)
	checkSentence(toks, text+string(b)+after+rest, false)
}

var grammarGroups = []string{
	"(export \"e\") ", "(import \"m\" \"n\") ", "(param i32) ", "(result i32) ", "(local i32) ", "(drop) ", "drop ", "(then) ", "(else) ", "(elem $x) ", "0 ", "funcref ", "$x ", "(type $x) ", "(mut i32) ", "(if (then)) ",
}

var grammarHeads = []string{"(module (func ", "(module (type (func ", "(module (func (block ", "(module (func (loop ", "(module (func (if ", "(module (table ", "(module (global ", "(module (memory ", "(module (func (call_indirect ", "(module (func (br_table "}

// C29_Order: every kind of declaration and control instruction with any three parts (four
// in the thorough tier) in any order.
//
// vx:text
// vx:share 2
func C29_Order() {
	text := grammarHeads[vx.Choice("head", len(grammarHeads))]
	checkGrammar(closed(text+following(grammarGroups, 3+more())), false)
}

var grammarTexts = []string{
	"(module (func $f (export \"e\") (param $p i32) (param i32 f64) (result i32) (local i32) (local f64) (drop (local.get 0)) return))",
	"(module (func (if $i (result i32) (local.get 0) (then (drop) (return)) (else (block $b (result i32) (br 0))))))",
	"(module (type $t (func (param i32) (result f64))) (table $x 0 7 funcref) (memory $m 0 7) (global $g (mut i32) (i32.const -1)))",
	"(module (table funcref (elem $x $y)) (func (import \"m\" \"n\") (param i32)) (func (call_indirect (type $t) (i32.const 0)) br_table 0 $x 7))",
}

// edit is the text with one token left out, doubled, exchanged with the next one or
// replaced by one of the vocabulary (in the thorough tier also with one put in front).
func edit(text string, vocabulary []string) string {
	toks := watTokens(text)
	at := vx.Choice("at", len(toks))
	out := append([]string{}, toks[:at]...)
	v := len(vocabulary)
	switch e := vx.Choice("edit", 3+v+v*more()); {
	case e == 0:
		out = append(out, toks[at+1:]...)
	case e == 1:
		out = append(append(out, toks[at]), toks[at:]...)
	case e == 2:
		if at+1 == len(toks) {
			vx.Stop()
		}
		out = append(append(out, toks[at+1], toks[at]), toks[at+2:]...)
	case e < 3+v:
		out = append(append(out, vocabulary[e-3]), toks[at+1:]...)
	default:
		out = append(append(out, vocabulary[e-3-v]), toks[at:]...)
	}
	return strings.Join(out, " ")
}

// C29_Edits: complete modules with any one token left out, doubled, exchanged or replaced.
//
// vx:text
// vx:share 2
func C29_Edits() {
	checkGrammar(edit(grammarTexts[vx.Choice("text", len(grammarTexts))], grammarVocabulary), false)
}

var scriptVocabulary = []string{
	"(", ")", "module", "component", "quote", "invoke", "get", "func", "assert_return", "assert_trap",
	"assert_invalid", "assert_malformed", "i32.const", "i64.const", "f32.const", "f64.const", "ref.null",
	"$x", "0", "-1", "1.5", "\"s\"", "i32", "binary", "register",
}

// C29_Script: every beginning of a script followed by up to two tokens of the vocabulary
// (three in the thorough tier) and by the closing parentheses that are missing.
//
// vx:text
func C29_Script() {
	text := wastContexts[vx.Choice("context", len(wastContexts))]
	checkGrammar(closed(text+following(scriptVocabulary, 2+more())), true)
}

var scriptTexts = []string{
	"(module (func $f)) (assert_return (invoke $m \"f\" (i32.const 0) (f64.const 1.5)) (i64.const -1) (f32.const 0))",
	"(assert_trap (invoke \"f\" (i32.const 7)) \"s\") (assert_invalid (module quote \"a\") \"b\") (component)",
	"(assert_malformed (module (memory 0)) \"s\") (component quote \"s\") (module quote \"t\") (assert_return (invoke \"f\"))",
}

// C29_ScriptEdits: complete scripts with any one token left out, doubled, exchanged or
// replaced.
//
// vx:text
func C29_ScriptEdits() {
	checkGrammar(edit(scriptTexts[vx.Choice("text", len(scriptTexts))], scriptVocabulary), true)
}

// C29_ScriptWords: every beginning of a script followed by a word of any letters, digits,
// dots and underscores behind a letter or dollar sign, and by nothing, a number or a string.
//
// vx:text
func C29_ScriptWords() {
	text := wastContexts[vx.Choice("context", len(wastContexts))]
	b := vx.Bytes("word", []int{2, 3, 5, 6, 9, 13, 4, 8}[vx.Choice("len", 6+2*more())])
	for i, c := range b {
		letter := vx.And(c >= 'a', c <= 'z')
		if i == 0 {
			vx.Assume(vx.Or(letter, c == '$'))
		} else {
			vx.Assume(vx.Or(letter, vx.And(c >= '0', c <= '9'), c == '.', c == '_'))
		}
	}
	after := []string{"", " 0", " \"s\""}[vx.Choice("after", 3)]
	rest := closed(text)[len(text):]
	toks := append(watTokens(text), string(b))
	toks = append(append(toks, watTokens(after)...), watTokens(rest)...)
	checkSentence(toks, text+string(b)+after+rest, true)
}
