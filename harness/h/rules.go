package h

import (
	"github.com/patrickhuber/go-wasm/wat/lex"
	"github.com/patrickhuber/go-wasm/wat/token"
	"github.com/patrickhuber/go-wasm/zz_verif/vx"
)

// ruleFor is a rule for the pattern, by itself or as an automaton, and its lexeme.
func ruleFor(pattern string, ty token.Type) (lex.Rule, lex.Lexeme) {
	if vx.Choice("rule", 2) == 0 {
		r := &lex.StringRule{String: pattern, TokenType: ty}
		return r, (&lex.StringFactory{}).Lexeme(r)
	}
	start, end := lex.FromString(pattern)
	end.Final = true
	r := &lex.DfaRule{Dfa: &lex.Dfa{Start: start}, TokenType: ty}
	return r, (&lex.DfaFactory{}).Lexeme(r)
}

// C32_Rules covers patterns of 1 to 3 arbitrary bytes and texts of 1 to 4.
//
// vx:raw
func C32_Rules() {
	pattern := vx.Str("pattern", 1+vx.Choice("plen", 3))
	text := vx.Str("text", 1+vx.Choice("tlen", 4))
	rule, l := ruleFor(pattern, token.Id)
	vx.Assert(rule.Type() == token.Id, "a rule has another type")
	vx.Assert(l.Rule() == rule, "a lexeme belongs to another rule")
	vx.Assert(rule.Check(text[0]) == (text[0] == pattern[0]), "a rule starts with another byte than its pattern")
	for i := 0; i < len(text); i++ {
		ok := l.Eat(text[i])
		vx.Assert(ok == (i < len(pattern) && text[i] == pattern[i]), "a rule goes on with another byte than its pattern")
		if !ok {
			vx.Cover("stopped")
			return
		}
		vx.Assert(l.Accepted() == (i+1 == len(pattern)), "a rule accepts something else than its pattern")
	}
	vx.Cover("eaten")
}

// C32_Lexer covers lexers of two rules with patterns of the same length, 1 or 2, over texts of up to 3 bytes: tokens have the type of the first rule that matches.
//
// vx:raw
func C32_Lexer() {
	n := 1 + vx.Choice("plen", 2)
	p, q := vx.Str("p", n), vx.Str("q", n)
	text := vx.Str("text", vx.Choice("tlen", 4))
	l := lex.New(text)
	a, _ := ruleFor(p, token.Id)
	b, _ := ruleFor(q, token.String)
	l.Rules = []lex.Rule{a, b}
	for at := 0; ; at += n {
		var tok *token.Token
		var err error
		vx.NoPanic("next", func() { tok, err = l.Next() })
		if at == len(text) {
			vx.Assert(err == nil && tok.Type == token.EndOfStream, "no end of stream")
			vx.Cover("end")
			return
		}
		ty := token.EndOfStream
		if at+n <= len(text) {
			switch text[at : at+n] {
			case p:
				ty = token.Id
			case q:
				ty = token.String
			}
		}
		if ty == token.EndOfStream {
			vx.Assert(err != nil, "text that matches no rule is a token")
			vx.Cover("refused")
			return
		}
		vx.Assert(err == nil, "text that matches a rule is refused")
		vx.Assert(tok.Type == ty, "a token has the type of another rule")
		vx.Assert(tok.Capture == text[at:at+n] && tok.Position == at, "a token is not the matched text")
	}
}
