package h

import (
	"unicode"
	"unicode/utf8"

	watlex "github.com/patrickhuber/go-wasm/wat/lex"
	"github.com/patrickhuber/go-wasm/wit/lex"
	"github.com/patrickhuber/go-wasm/wit/token"
	"github.com/patrickhuber/go-wasm/zz_verif/vx"
)

// ---- reference grammar of WIT tokens -------------------------------------------------------

var witKeywords = []string{"use", "type", "func", "u8", "u16", "u32", "u64", "s8", "s16", "s32", "s64",
	"float32", "float64", "char", "resource", "own", "borrow", "record", "flags", "variant", "enum",
	"union", "bool", "string", "option", "result", "future", "stream", "list", "_", "as", "from",
	"static", "interface", "tuple", "world", "import", "export", "package", "constructor", "include", "with"}

const witPunctuation = "=,:.;(){}<>*@+-/"

func witLetter(r rune) bool {
	if r < 0x80 {
		return vx.Or(vx.And(r >= 'a', r <= 'z'), vx.And(r >= 'A', r <= 'Z'))
	}
	return unicode.IsLetter(r)
}

func witDigit(r rune) bool {
	if r < 0x80 {
		return vx.And(r >= '0', r <= '9')
	}
	return unicode.IsDigit(r)
}

func witSpace(r rune) bool {
	if r < 0x80 {
		return vx.Or(r == ' ', vx.And(r >= '\t', r <= '\r'))
	}
	return unicode.IsSpace(r)
}

// witTok is the token that starts at from: its end and kind, "word" for a keyword or
// identifier, "" when there is none.
func witTok(s string, from int) (int, token.TokenType) {
	rune_ := func(i int) (rune, int) {
		if s[i] < 0x80 {
			return rune(s[i]), 1
		}
		return utf8.DecodeRuneInString(s[i:])
	}
	span := func(i int, f func(rune) bool) int {
		for i < len(s) {
			r, w := rune_(i)
			if !f(r) {
				break
			}
			i += w
		}
		return i
	}
	part := func(r rune) bool { return vx.Or(witLetter(r), witDigit(r), r == '-') }
	start := func(r rune) bool { return vx.Or(witLetter(r), r == '_') }
	is := func(i int, c byte) bool { return i < len(s) && s[i] == c }
	r, w := rune_(from)
	switch {
	case witSpace(r):
		return span(from+w, witSpace), token.Whitespace
	case r == '/' && is(from+1, '/'):
		i := from
		for i < len(s) && s[i] != '\n' {
			i++
		}
		return i, token.LineComment
	case r == '/' && is(from+1, '*'):
		depth := 1
		i := from + 2
		for depth > 0 {
			switch {
			case i >= len(s):
				return 0, ""
			case s[i] == '/' && is(i+1, '*'):
				depth++
				i += 2
			case s[i] == '*' && is(i+1, '/'):
				depth--
				i += 2
			default:
				i++
			}
		}
		return i, token.BlockComment
	case r == '-' && is(from+1, '>'):
		return from + 2, token.RightArrow
	case r == '%':
		if from+1 < len(s) {
			if r, _ := rune_(from + 1); start(r) || r == '-' {
				_, w := rune_(from + 1)
				return span(from+1+w, part), token.ExplicitId
			}
		}
		return 0, ""
	case start(r):
		return span(from+w, part), "word"
	case witDigit(r) && r < 0x80:
		return span(from, func(r rune) bool { return r < 0x80 && witDigit(r) }), token.Integer
	}
	for i := 0; i < len(witPunctuation); i++ {
		if r == rune(witPunctuation[i]) {
			return from + 1, token.TokenType(witPunctuation[i : i+1])
		}
	}
	return 0, ""
}

// isWitWord requires the kind of a word: a keyword or an identifier.
func isWitWord(s string, ty token.TokenType) bool {
	key := false
	for _, k := range witKeywords {
		if len(k) != len(s) {
			continue
		}
		key = vx.Or(key, s == k)
		if ty == token.TokenType(k) {
			return s == k
		}
	}
	return ty == token.Id && !key
}

func checkWitTokens(s string) {
	l := lex.New(s)
	pos, line, col := 0, 0, 0
	for {
		var tok *token.Token
		var err error
		vx.NoPanic("lexing", func() { tok, err = l.Next() })
		if pos == len(s) {
			vx.Assert(err == nil, "the end of the text is an error")
			vx.Assert(tok.Type == token.EndOfStream, "something is lexed after the end of the text")
			vx.Assert(tok.Position == pos, "the end of the text is at the wrong place")
			vx.Cover("end")
			return
		}
		end, kind := witTok(s, pos)
		if kind == "" {
			vx.Assert(err != nil, "text that is no token is accepted")
			vx.Cover("bad")
			return
		}
		vx.Assert(err == nil, "a token is refused")
		vx.Assert(tok.Type != token.EndOfStream, "the text ends early")
		vx.Assert(tok.Position == pos, "a token has the wrong position")
		vx.Assert(tok.Line == line, "a token has the wrong line")
		vx.Assert(tok.Column == col, "a token has the wrong column")
		vx.Assert(len(tok.Capture) == end-pos, "a token has the wrong length")
		vx.Assert(tok.Capture == s[pos:end], "a token has the wrong text")
		if kind == "word" {
			vx.Assert(isWitWord(s[pos:end], tok.Type), "a word has the wrong kind")
		} else {
			vx.Assert(tok.Type == kind, "a token has the wrong kind")
		}
		for ; pos < end; pos++ {
			if s[pos] == '\n' {
				line++
				col = 0
			} else {
				col++
			}
		}
	}
}

func ascii(name string, n int) string {
	s := vx.Str(name, n)
	for i := 0; i < n; i++ {
		vx.Assume(s[i] < 0x80)
	}
	return s
}

// C24_Any: all ASCII texts of up to 3 characters (4 in the thorough tier).
//
// vx:text
// vx:share 2
func C24_Any() {
	checkWitTokens(ascii("text", vx.Choice("len", 4+more())))
}

// C24_Comments: comments with 4 characters (6 in the thorough tier) inside, which are
// slashes, stars, line breaks and letters.
//
// vx:text
func C24_Comments() {
	in := vx.Str("in", vx.Choice("inlen", 5+2*more()))
	for i := 0; i < len(in); i++ {
		vx.Assume(vx.Or(in[i] == '/', in[i] == '*', in[i] == '\n', vx.And(in[i] >= 'a', in[i] <= 'z')))
	}
	checkWitTokens([]string{"/*", "//"}[vx.Choice("open", 2)] + in + []string{"*/", "\n", "*/*/"}[vx.Choice("close", 3)])
}

// C24_Lines: positions after every sequence of 4 pieces (6 in the thorough tier).
//
// vx:text
func C24_Lines() {
	pieces := []string{"\n", "a", "{", "/*\n*/", "//\n", " \r", "é", "->"}
	s := ""
	n := 4 + 2*more()
	for i := 0; i < n; i++ {
		s += pieces[vx.Choice("piece", len(pieces))]
	}
	checkWitTokens(s)
}

// C24_Keywords: every keyword, with one character replaced, removed or added anywhere.
//
// vx:text
// vx:share 2
func C24_Keywords() {
	k := witKeywords[vx.Choice("keyword", len(witKeywords))]
	i := vx.Choice("at", len(k)+1)
	c := ascii("c", 1)
	switch vx.Choice("how", 4) {
	case 0:
	case 1:
		k = k[:i] + c + k[i:]
	case 2:
		if i == len(k) {
			vx.Stop()
		}
		k = k[:i] + c + k[i+1:]
	case 3:
		if i == len(k) {
			vx.Stop()
		}
		k = k[:i] + k[i+1:]
	}
	checkWitTokens(k)
}

// C24_Bytes: all byte strings of up to 3 bytes that are not UTF-8 throughout are
// errors outside comments.
//
// vx:text
func C24_Bytes() {
	b := vx.U8("byte")
	vx.Assume(vx.And(b >= 0x80))
	before := []string{"", "a", "1", "%", "/*", "//", "-"}[vx.Choice("before", 7)]
	after := []string{"", "a", "*/", "\n"}[vx.Choice("after", 4)]
	checkWitTokens(before + string([]byte{b}) + after)
}

// C24_Unicode: characters outside ASCII, of every class that Latin-1 and some other
// blocks have, alone, inside and after a word and in a comment.
//
// vx:text
func C24_Unicode() {
	var r rune
	switch vx.Choice("block", 2) {
	case 0:
		r = 0x80 + rune(vx.Choice("latin", 0x80))
	case 1:
		r = []rune{0x2028, 0x3000, 0x0660, 0x0969, 0xff21, 0xff11, 0x4e00, 0x1d400, 0x1f600, 0x301, 0xfeff}[vx.Choice("other", 11)]
	}
	before := []string{"", "a", "1", "%", "/*", "//", " "}[vx.Choice("before", 7)]
	after := []string{"", "a", "*/", "\n"}[vx.Choice("after", 4)]
	checkWitTokens(before + string(r) + after)
}

// ---- looking ahead -------------------------------------------------------------------------

type anyTok struct {
	ty, text       string
	pos, line, col int
	err            bool
}

type anyLexer interface {
	next() anyTok
	peek() anyTok
	clone() anyLexer
}

type watLexer struct{ l *watlex.Lexer }

func (w watLexer) next() anyTok {
	t, err := w.l.Next()
	if err != nil {
		return anyTok{err: true}
	}
	return anyTok{string(t.Type), t.Capture, t.Position, t.Line, t.Column, false}
}

func (w watLexer) peek() anyTok {
	t, err := w.l.Peek()
	if err != nil {
		return anyTok{err: true}
	}
	return anyTok{string(t.Type), t.Capture, t.Position, t.Line, t.Column, false}
}

func (w watLexer) clone() anyLexer { return watLexer{w.l.Clone()} }

type witLexer struct{ l *lex.Lexer }

func (w witLexer) next() anyTok {
	t, err := w.l.Next()
	if err != nil {
		return anyTok{err: true}
	}
	return anyTok{string(t.Type), t.Capture, t.Position, t.Line, t.Column, false}
}

func (w witLexer) peek() anyTok {
	t, err := w.l.Peek()
	if err != nil {
		return anyTok{err: true}
	}
	return anyTok{string(t.Type), t.Capture, t.Position, t.Line, t.Column, false}
}

func (w witLexer) clone() anyLexer { return witLexer{w.l.Clone()} }

func sameTok(a, b anyTok) bool {
	if a.err || b.err {
		return a.err == b.err
	}
	return a.ty == b.ty && len(a.text) == len(b.text) && a.text == b.text && a.pos == b.pos && a.line == b.line && a.col == b.col
}

// checkLookahead runs a sequence of operations on a lexer and its clones; the n-th
// token taken from any of them must be the n-th token of a lexer that only goes on.
func checkLookahead(start func() anyLexer, steps int) {
	plain := start()
	var want []anyTok
	vx.NoPanic("lexing", func() {
		for i := 0; i <= steps; i++ {
			want = append(want, plain.next())
		}
	})
	ls := []anyLexer{start()}
	at := []int{0}
	for i := 0; i < steps; i++ {
		k := 0
		if len(ls) > 1 {
			k = vx.Choice("which", len(ls))
		}
		switch vx.Choice("op", 3) {
		case 0:
			var t anyTok
			vx.NoPanic("reading a token", func() { t = ls[k].next() })
			vx.Assert(sameTok(t, want[at[k]]), "a token read is not the next one")
			at[k]++
		case 1:
			var t anyTok
			vx.NoPanic("looking ahead", func() { t = ls[k].peek() })
			vx.Assert(sameTok(t, want[at[k]]), "a token looked at is not the next one")
		case 2:
			if len(ls) > 1 {
				vx.Stop()
			}
			ls = append(ls, ls[k].clone())
			at = append(at, at[k])
		}
	}
	for k := range ls {
		vx.Assert(sameTok(ls[k].next(), want[at[k]]), "a token read at the end is not the next one")
	}
	vx.Cover("done")
}

// C19_Wat: all texts of 2 bytes (3 in the thorough tier) and all sequences of 4 operations.
//
// vx:text
func C19_Wat() {
	s := vx.Str("text", vx.Choice("len", 3+more()))
	checkLookahead(func() anyLexer { return watLexer{watlex.New(s)} }, 4)
}

// C19_Wit: the same for the WIT lexer, ASCII texts and 3 operations.
//
// vx:text
func C19_Wit() {
	s := ascii("text", vx.Choice("len", 3+more()))
	checkLookahead(func() anyLexer { return witLexer{lex.New(s)} }, 3+more())
}

// C19_Long: 7 operations (8 in the thorough tier) on some texts with words, lines and errors.
//
// vx:text
func C19_Long() {
	if vx.Choice("lexer", 2) == 0 {
		s := []string{"(module\n\"a\" )", "a (; ;) $b;x", "0x1 ;;"}[vx.Choice("text", 3)]
		checkLookahead(func() anyLexer { return watLexer{watlex.New(s)} }, 7+more())
		return
	}
	s := []string{"use a;\n%b", "a /* */ -> 1 !x", "u8{}//"}[vx.Choice("text", 3)]
	checkLookahead(func() anyLexer { return witLexer{lex.New(s)} }, 7+more())
}
