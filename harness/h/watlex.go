package h

import (
	"github.com/patrickhuber/go-wasm/wat/lex"
	"github.com/patrickhuber/go-wasm/wat/token"
	"github.com/patrickhuber/go-wasm/zz_verif/vx"
)

// ---- reference grammar of WebAssembly text tokens ------------------------------------------

func isWatSpace(c byte) bool {
	return vx.Or(c == ' ', vx.And(c >= '\t', c <= '\r'))
}

func isDec(c byte) bool { return vx.And(c >= '0', c <= '9') }

func isHexDigit(c byte) bool {
	return vx.Or(isDec(c), vx.And(c >= 'a', c <= 'f'), vx.And(c >= 'A', c <= 'F'))
}

// isWordChar are the idchars of the specification.
func isWordChar(c byte) bool {
	return vx.And(c > ' ', c < 0x7f, c != '"', c != '(', c != ')', c != ',', c != ';',
		c != '[', c != ']', c != '{', c != '}')
}

// watTok is the token of the specification that starts at from: its end and its
// kind, "" when there is none, "nested" for a comment with a comment inside.
func watTok(s string, from int) (int, token.Type) {
	at := func(i int, c byte) bool { return i < len(s) && s[i] == c }
	c := s[from]
	switch {
	case isWatSpace(c):
		i := from
		for i < len(s) && isWatSpace(s[i]) {
			i++
		}
		return i, token.Whitespace
	case c == ';':
		if !at(from+1, ';') {
			return 0, ""
		}
		for i := from + 2; i < len(s); i++ {
			if s[i] == '\n' {
				return i + 1, token.LineComment
			}
		}
		return len(s), token.LineComment
	case c == '(':
		if !at(from+1, ';') {
			return from + 1, token.OpenParen
		}
		for i := from + 2; i < len(s); i++ {
			if s[i] == '(' && at(i+1, ';') {
				return 0, "nested"
			}
			if s[i] == ';' && at(i+1, ')') {
				return i + 2, token.BlockComment
			}
		}
		return 0, ""
	case c == ')':
		return from + 1, token.CloseParen
	case c == '"':
		for i := from + 1; i < len(s); i++ {
			if s[i] == '\\' {
				i++
			} else if s[i] == '"' {
				return i + 1, token.String
			}
		}
		return 0, ""
	case isWordChar(c):
		i := from
		for i < len(s) && isWordChar(s[i]) {
			i++
		}
		if c == '$' && i > from+1 {
			return i, token.Id
		}
		return i, token.Reserved
	}
	return 0, ""
}

// isWordKind says whether a word of the text may have this kind.
func isWordKind(ty token.Type) bool {
	switch ty {
	case token.Reserved, token.Integer, token.Float, token.Module, token.Component, token.Keyword:
		return true
	}
	return false
}

// checkTokens lexes s and compares with the reference, which decides where tokens
// start and end, where they lie, and whether the text is lexically well-formed.
func checkTokens(s string) {
	l := lex.New(s)
	pos, line, col := 0, 0, 0
	for {
		var tok *token.Token
		var err error
		vx.NoPanic("lexing", func() { tok, err = l.Next() })
		if pos == len(s) {
			vx.Assert(err == nil, "the end of the text is an error")
			vx.Assert(tok.Type == token.EndOfStream, "something is lexed after the end of the text")
			vx.Assert(tok.Position == pos, "the end of the text is at the wrong place")
			vx.Cover("end")
			return
		}
		end, kind := watTok(s, pos)
		if kind == "nested" {
			vx.Stop()
		}
		if kind == "" {
			vx.Assert(err != nil, "text that is no token is accepted")
			vx.Cover("bad")
			return
		}
		vx.Assert(err == nil, "a token is refused")
		vx.Assert(tok.Type != token.EndOfStream, "the text ends early")
		vx.Assert(tok.Position == pos, "a token has the wrong position")
		vx.Assert(tok.Line == line, "a token has the wrong line")
		vx.Assert(tok.Column == col, "a token has the wrong column")
		vx.Assert(len(tok.Capture) == end-pos, "a token has the wrong length")
		vx.Assert(tok.Capture == s[pos:end], "a token has the wrong text")
		if kind == token.Reserved {
			vx.Assert(isWordKind(tok.Type), "a word has the wrong kind")
		} else {
			vx.Assert(tok.Type == kind, "a token has the wrong kind")
		}
		for ; pos < end; pos++ {
			if s[pos] == '\n' {
				line++
				col = 0
			} else {
				col++
			}
		}
	}
}

// C17_Any: all texts of up to 4 bytes (5 in the thorough tier).
//
// vx:text
// vx:share 3
func C17_Any() {
	n := vx.Choice("len", 5+more())
	checkTokens(vx.Str("text", n))
}

// C17_Comments: comments and strings with any 3 bytes (5 in the thorough tier)
// inside, and one more behind.
//
// vx:text
func C17_Comments() {
	in := vx.Str("in", vx.Choice("inlen", 4+2*more()))
	after := vx.Str("after", vx.Choice("afterlen", 2))
	checkTokens([]string{"(;", ";;", "\""}[vx.Choice("open", 3)] + in + []string{";)", "\n", "\""}[vx.Choice("close", 3)] + after)
}

// C17_Lines: positions after every sequence of 4 pieces (6 in the thorough tier),
// each of one or two bytes or a comment or string that contains a line break.
//
// vx:text
func C17_Lines() {
	pieces := []string{"\n", "a", "(", "\"\n\"", "(;\n;)", ";;\n", " \r"}
	s := ""
	n := 4 + 2*more()
	for i := 0; i < n; i++ {
		s += pieces[vx.Choice("piece", len(pieces))]
	}
	checkTokens(s)
}

// C17_Nested: a block comment inside a block comment ends with its own mark.
//
// vx:text
func C17_Nested() {
	c := vx.U8("c")
	vx.Assume(vx.And(c >= 'a', c <= 'z'))
	s := "(;(;;)" + string(rune(c)) + ";)"
	tok, err := lex.New(s).Next()
	vx.Assert(err == nil && len(tok.Capture) == len(s), "a nested block comment ends at the first end mark")
}

// ---- words ---------------------------------------------------------------------------------

// spans[i][j] says whether s[i:j] is a sequence of digits with single underscores
// between them.
func digitSpans(s string, digit func(byte) bool) [][]bool {
	n := len(s)
	d := make([][]bool, n+1)
	for i := 0; i <= n; i++ {
		d[i] = make([]bool, n+1)
		for j := i + 1; j <= n; j++ {
			last := digit(s[j-1])
			if j == i+1 {
				d[i][j] = last
				continue
			}
			ok := vx.And(d[i][j-1], last)
			if j > i+2 {
				ok = vx.Or(ok, vx.And(d[i][j-2], s[j-2] == '_', last))
			}
			d[i][j] = ok
		}
	}
	return d
}

func lower(c byte) byte { return c | 0x20 }

// floatFrom says whether s[from:] is a float without sign or prefix.
func floatFrom(s string, from int, d, dec [][]bool, e byte) bool {
	n := len(s)
	mant := func(j int) bool {
		if j <= from {
			return false
		}
		ok := d[from][j]
		for k := from + 1; k < j; k++ {
			dot := vx.And(d[from][k], s[k] == '.')
			if k+1 < j {
				dot = vx.And(dot, d[k+1][j])
			}
			ok = vx.Or(ok, dot)
		}
		return ok
	}
	ok := mant(n)
	for k := from + 1; k+1 < n; k++ {
		exp := dec[k+1][n]
		if k+2 < n {
			exp = vx.Or(exp, vx.And(vx.Or(s[k+1] == '+', s[k+1] == '-'), dec[k+2][n]))
		}
		ok = vx.Or(ok, vx.And(mant(k), vx.Or(s[k] == e, s[k] == e-0x20), exp))
	}
	return ok
}

// numberForms says whether s is an integer, and whether it is a float (of which the
// integers are a part).
func numberForms(s string) (bool, bool) {
	n := len(s)
	dec, hex := digitSpans(s, isDec), digitSpans(s, isHexDigit)
	isInt, isFloat := false, false
	for from := 0; from <= 1 && from < n; from++ {
		start := true
		if from == 1 {
			start = vx.Or(s[0] == '+', s[0] == '-')
		}
		isInt = vx.Or(isInt, vx.And(start, dec[from][n]))
		isFloat = vx.Or(isFloat, vx.And(start, floatFrom(s, from, dec, dec, 'e')))
		if n > from+2 {
			x := vx.And(start, s[from] == '0', s[from+1] == 'x')
			isInt = vx.Or(isInt, vx.And(x, hex[from+2][n]))
			isFloat = vx.Or(isFloat, vx.And(x, floatFrom(s, from+2, hex, dec, 'p')))
		}
		rest := s[from:]
		isFloat = vx.Or(isFloat, vx.And(start, vx.Or(rest == "inf", rest == "nan", rest == "nan:canonical", rest == "nan:arithmetic")))
		if len(rest) > 6 {
			isFloat = vx.Or(isFloat, vx.And(start, rest[:6] == "nan:0x", hex[from+6][n]))
		}
	}
	return isInt, vx.Or(isFloat, isInt)
}

// checkWord requires that s, which consists of word characters, is one token of the
// kind the grammar gives it, also when a delimiter and something else follow.
func checkWord(s string) {
	after := []string{"", ")", " 1"}[vx.Choice("after", 3)]
	var tok *token.Token
	var err error
	vx.NoPanic("lexing", func() { tok, err = lex.New(s + after).Next() })
	vx.Assert(err == nil, "a word is refused")
	vx.Assert(len(tok.Capture) == len(s), "a word is not taken as a whole")
	isInt, isFloat := numberForms(s)
	isID := len(s) > 1 && s[0] == '$'
	vx.Assert((tok.Type == token.Id) == isID, "identifiers are what starts with a dollar sign")
	vx.Assert((tok.Type == token.Integer) == isInt, "integers are not what the grammar says")
	vx.Assert((tok.Type == token.Float) == vx.And(isFloat, !isInt), "floats are not what the grammar says")
	vx.Assert((tok.Type == token.Module) == (s == "module"), "the keyword module is not recognised exactly")
	vx.Assert((tok.Type == token.Component) == (s == "component"), "the keyword component is not recognised exactly")
	if tok.Type == token.Integer {
		vx.Cover("integer")
	}
	if tok.Type == token.Float {
		vx.Cover("float")
	}
	if tok.Type == token.Reserved {
		vx.Cover("reserved")
	}
}

// word is any sequence of n word characters.
func word(name string, n int) string {
	s := vx.Str(name, n)
	for i := 0; i < n; i++ {
		vx.Assume(isWordChar(s[i]))
	}
	return s
}

// C18_Words: all words of up to 7 characters (9 in the thorough tier).
//
// vx:text
func C18_Words() {
	checkWord(word("word", 1+vx.Choice("len", 7+2*more())))
}

// C18_Decimal: words of up to 8 characters (10 in the thorough tier) that start with a digit.
//
// vx:text
func C18_Decimal() {
	s := word("word", 1+vx.Choice("len", 8+2*more()))
	vx.Assume(isDec(s[0]))
	checkWord([]string{"", "-", "+"}[vx.Choice("sign", 3)] + s)
}

// C18_Hex: words that start with 0x and a sign or none, and 7 more characters
// (9 in the thorough tier).
//
// vx:text
func C18_Hex() {
	checkWord([]string{"", "-", "+"}[vx.Choice("sign", 3)] + "0x" + word("word", vx.Choice("len", 7+2*more())))
}

// C18_Nan: the words that start with inf or nan.
//
// vx:text
func C18_Nan() {
	p := []string{"nan", "nan:0x", "inf", "nan:", "nan:canonical", "nan:arithmetic"}[vx.Choice("prefix", 6)]
	checkWord([]string{"", "-", "+"}[vx.Choice("sign", 3)] + p + word("word", vx.Choice("len", 4+2*more())))
}

// C18_Near: words that differ in one character from a word with a meaning.
//
// vx:text
func C18_Near() {
	w := []byte([]string{"module", "component", "nan:canonical", "nan:arithmetic", "nan:0x4_0", "-inf", "0x1.8p+3", "-1.5e-3"}[vx.Choice("word", 8)])
	i := vx.Choice("at", len(w))
	w[i] = vx.U8("c")
	vx.Assume(isWordChar(w[i]))
	checkWord(string(w))
}
