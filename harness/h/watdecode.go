package h

import (
	"bytes"
	"errors"
	"io"

	"github.com/patrickhuber/go-wasm/api"
	"github.com/patrickhuber/go-wasm/wat"
	"github.com/patrickhuber/go-wasm/wat/ast"
	"github.com/patrickhuber/go-wasm/wat/lex"
	"github.com/patrickhuber/go-wasm/wat/parse"
	"github.com/patrickhuber/go-wasm/wat/token"
	"github.com/patrickhuber/go-wasm/zz_verif/vx"
)

func decodeText(r io.Reader) (d api.Directive, err error) {
	vx.NoPanic("decoding text", func() { d, err = wat.NewDecoder(r).Decode(r) })
	return d, err
}

// checkDecoded requires a module or component, as written, exactly when the text is one
// module or component and nothing else.
func checkDecoded(text string, r io.Reader) {
	l := lex.New(text)
	want, err := parse.Parse(l)
	if err == nil {
		var tok *token.Token
		tok, err = parse.Peek(l)
		if err == nil && tok.Type != token.EndOfStream {
			err = errors.New("something behind it")
		}
	}
	d, e := decodeText(r)
	vx.Assert((e == nil) == (err == nil), "the decoder and the parser disagree on what is well-formed")
	if err != nil {
		vx.Cover("refused")
		return
	}
	checkKind(d, want)
}

func checkKind(d api.Directive, want any) {
	switch x := d.(type) {
	case *api.Module:
		vx.Assert(x != nil && isModule(want), "something else is decoded as a module")
		vx.Cover("module")
	case *api.Component:
		vx.Assert(x != nil && !isModule(want), "something else is decoded as a component")
		vx.Cover("component")
	default:
		vx.Fail("neither module nor component")
	}
}

// C30_Texts: a module, component or beginning of one between any 2 bytes (3 in the
// thorough tier) in front or behind, delivered at once or byte by byte.
//
// vx:text
func C30_Texts() {
	text := []string{"(module)", "(component)", "(module (func $a))", "(module", "", "module)"}[vx.Choice("text", 6)]
	x := vx.Str("bytes", vx.Choice("len", 3+more()))
	if vx.Choice("front", 2) == 1 {
		text = x + text
	} else {
		text += x
	}
	checkDecoded(text, readerOf([]byte(text)))
}

// C30_Inside: a module with any 3 bytes inside (4 in the thorough tier).
//
// vx:text
func C30_Inside() {
	text := "(module" + vx.Str("bytes", 1+vx.Choice("len", 3+more())) + ")"
	checkDecoded(text, bytes.NewReader([]byte(text)))
}

type failing struct {
	b   []byte
	err error
}

func (f *failing) Read(p []byte) (int, error) {
	if len(f.b) == 0 {
		return 0, f.err
	}
	n := copy(p, f.b)
	f.b = f.b[n:]
	return n, nil
}

// C30_Reader: a reader that fails behind any part of a module; the failure is reported.
//
// vx:text
func C30_Reader() {
	text := "(module (func)) "
	fault := errors.New("fault")
	_, err := decodeText(&failing{[]byte(text)[:vx.Choice("at", len(text)+1)], fault})
	vx.Assert(err != nil, "a failing reader is ignored")
	vx.Assert(errors.Is(err, fault), "the error of the reader is lost")
	vx.Cover("failed")
}

// C30_Content: a function of the text is a function of the decoded module.
//
// vx:text
func C30_Content() {
	b := vx.U8("c")
	vx.Assume(vx.And(b >= 'a', b <= 'z'))
	d, err := decodeText(bytes.NewReader([]byte("(module (func $" + string(rune(b)) + "))")))
	vx.Assert(err == nil, "a module is refused")
	m, ok := d.(*api.Module)
	vx.Assert(ok, "a module is not decoded as a module")
	vx.Assert(len(m.Funcs) == 1, "the functions of a text module are dropped by the decoder")
}

func isModule(d any) bool {
	_, ok := d.(*ast.Module)
	return ok
}
