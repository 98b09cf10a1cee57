package h

import (
	"bufio"
	"bytes"

	opt "github.com/patrickhuber/go-types/option"
	aio "github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/values"
	"github.com/patrickhuber/go-wasm/api"
	"github.com/patrickhuber/go-wasm/binary"
	"github.com/patrickhuber/go-wasm/encoding"
	"github.com/patrickhuber/go-wasm/leb128"
	wast "github.com/patrickhuber/go-wasm/wast/ast"
	wastparse "github.com/patrickhuber/go-wasm/wast/parse"
	"github.com/patrickhuber/go-wasm/wat/ast"
	watlex "github.com/patrickhuber/go-wasm/wat/lex"
	"github.com/patrickhuber/go-wasm/wat/parse"
	wit "github.com/patrickhuber/go-wasm/wit/ast"
	"github.com/patrickhuber/go-wasm/wit/lex"
	witparse "github.com/patrickhuber/go-wasm/wit/parse"
	"github.com/patrickhuber/go-wasm/zz_verif/vx"
)

// inTurns takes the tokens of one text alone and then in any turns with those of another.
func inTurns(one, other func() anyLexer) {
	const n = 3
	var want []anyTok
	plain := one()
	for i := 0; i < n; i++ {
		want = append(want, plain.next())
	}
	a, b := one(), other()
	for i := 0; i < n; {
		if vx.Choice("turn", 2) == 0 {
			vx.Assert(sameTok(a.next(), want[i]), "a token changes with what another lexer reads")
			i++
			continue
		}
		// the other one goes on to its end, an error included
		for j := 0; j < 4; j++ {
			b.next()
		}
		for ; i < n; i++ {
			vx.Assert(sameTok(a.next(), want[i]), "a token changes with what another lexer reads")
		}
	}
	vx.Cover("tokens")
}

// C34_WatLexer: any 2 bytes (3 in the thorough tier), the other text being one of ten.
//
// vx:text
func C34_WatLexer() {
	s := vx.Str("text", vx.Choice("len", 3+more()))
	if len(s) == 2 && vx.Choice("comment", 2) == 1 {
		s = "(;" + s[:1] + ";)" + s[1:]
	}
	o := []string{"(;", "\"a", "$b ;; c\n)", "nan 0x1", "\xff", "(func", "\"\\61\" 1", "-1 1.5", "i32.const 7", " "}[vx.Choice("other", 10)]
	inTurns(func() anyLexer { return watLexer{watlex.New(s)} }, func() anyLexer { return watLexer{watlex.New(o)} })
}

// C34_WitLexer: any 2 ASCII characters (3 in the thorough tier), the other text being one of eight.
//
// vx:text
func C34_WitLexer() {
	s := ascii("text", vx.Choice("len", 3+more()))
	if len(s) == 2 && vx.Choice("comment", 2) == 1 {
		s = "/*" + s[:1] + "*/" + s[1:]
	}
	o := []string{"/*", "%", "a//c\nb", "u8 1", "\xff", "->", "use a.b", " "}[vx.Choice("other", 8)]
	inTurns(func() anyLexer { return witLexer{lex.New(s)} }, func() anyLexer { return witLexer{lex.New(o)} })
}

// C34_Modules: a module with any identifier of up to 2 characters and any number of one digit, before
// and after any of the contexts of C21, closed, left open or followed by a word.
//
// vx:text
func C34_Modules() {
	id := ident("id")
	n, v := number("n", 1)
	text := "(module (func " + id + " (;c;) (param i32) (result f64) local.get " + n + "(drop (i32.const " + n + "))) (memory " + n + "))"
	read := func() *ast.Module {
		d, err := parse.Parse(watlex.New(text))
		vx.Assert(err == nil, "a module is refused, or refused after another text")
		m, ok := d.(*ast.Module)
		vx.Assert(ok, "a module is something else")
		return m
	}
	first := read()
	other := watContexts[vx.Choice("context", len(watContexts))] + []string{"", closing, "i32 $a \"b\" 3", "(result i64)" + closing, "(; a", "\"b"}[vx.Choice("rest", 6)]
	d, err := parse.Parse(watlex.New(other))
	if err != nil {
		vx.Cover("refused")
	}
	// a tree that was returned earlier is not changed, either
	if m, ok := d.(*ast.Module); ok && err == nil && m != nil {
		for i := range m.Functions {
			m.Functions[i] = ast.Function{}
		}
	}
	second := read()
	vx.Assert(sameModule(first, second), "a module differs from the one parsed before")
	vx.Assert(len(first.Functions) == 1 && len(first.Memory) == 1 && first.Memory[0].Limits.Min == v, "a module differs from its text")
	f := first.Functions[0]
	vx.Assert(sameText(f.ID, opt.Some(id)) && len(f.Parameters) == 1 && len(f.Results) == 1 && len(f.Instructions) == 2, "a function differs from its text")
	vx.Cover("again")
}

// C34_Scripts: a directive with any name of up to 2 characters and constant of one digit before and after any of
// the contexts of C21.
//
// vx:text
func C34_Scripts() {
	q, s := name("name", 1+vx.Choice("len", 2))
	n, v := number("n", 1)
	text := "(assert_return (invoke " + q + " (i32.const " + n + ")))"
	read := func(what string) *wast.Wast {
		w, err := wastparse.Parse(text)
		vx.Assert(err == nil && w != nil && len(w.Directives) == 1, what)
		return w
	}
	check := func(w *wast.Wast, what string) {
		r, ok := w.Directives[0].(wast.AssertReturn)
		vx.Assert(ok, what)
		i, ok := r.Action.(wast.Invoke)
		vx.Assert(ok && i.String == s && len(i.Const) == 1 && len(r.Results) == 0, what)
		c, ok := i.Const[0].(wast.I32Const)
		vx.Assert(ok && c.Value == int32(v), what)
	}
	first := read("a script is refused")
	other := wastContexts[vx.Choice("context", len(wastContexts))] + []string{"", ")))))", "\"a\" (i32.const 1)", "i32 $a 3)"}[vx.Choice("rest", 4)]
	if _, err := wastparse.Parse(other); err != nil {
		vx.Cover("refused")
	}
	check(read("a script is refused after another text"), "a script differs after another text")
	check(first, "a script changes with another text")
	vx.Cover("again")
}

// C34_Wit: a file with any identifiers before and after any of the contexts of C25.
//
// vx:text
func C34_Wit() {
	a, b := witID("a"), witID("b")
	text := "interface " + a + "{type " + b + "=/*/* c */*/list<u8>;f:func(p:" + b + ")->result<_,string>;}"
	read := func(what string) *wit.Ast {
		t, err := witparse.Parse(text)
		vx.Assert(err == nil && t != nil, what)
		return t
	}
	p := &witShow{}
	first := read("a file is refused")
	want := p.file(first)
	other := witContexts[vx.Choice("context", len(witContexts))] + []string{"", "}", "a:u8,}", "u8>;}", ";", "/* a", "/*/* b */"}[vx.Choice("rest", 7)]
	if _, err := witparse.Parse(other); err != nil {
		vx.Cover("refused")
	}
	vx.Assert(p.file(read("a file is refused after another text")) == want, "a file differs after another text")
	vx.Assert(p.file(first) == want, "a tree changes with another text")
	vx.Assert(!p.hole, "the syntax tree has a hole")
	vx.Cover("again")
}

// C34_Binary: a module with all supported sections before and after a module that begins with any section number and any 3 bytes.
func C34_Binary() {
	b, _, check := wholeModule()
	m := readModule(b)
	bad := append(append([]byte{}, modulePreamble...), vx.Bytes("bad", 3)...)
	vx.AllocLimit(1 << 20)
	if _, err := binary.Read(bytes.NewReader(bad)); err != nil {
		vx.Cover("refused")
	}
	doc, err := binary.Read(bytes.NewReader(b))
	vx.Assert(err == nil, "a module is refused after another")
	m2, ok := doc.Directive.(*api.Module)
	vx.Assert(ok, "a module is something else after another")
	check(m2)
	check(m)
	vx.Cover("again")
}

// C34_Codecs: any character with a codec that has just decoded any 2 bytes or encoded any character or malformed text.
func C34_Codecs() {
	f := encoding.DefaultFactory()
	enc := encodings[vx.Choice("encoding", len(encodings))]
	c, err := f.Get(enc)
	vx.Assume(err == nil)
	if vx.Choice("before", 2) == 0 {
		encoding.DecodeString(c, bytes.NewReader(vx.Bytes("bytes", 1+vx.Choice("n", 2))))
	} else {
		b, _ := runeUTF8(vx.Choice("class", 5))
		b = b[:1+vx.Choice("cut", len(b))]
		encoding.EncodeString(c, "a"+string(b))
	}
	if vx.Choice("get", 2) == 1 {
		c, err = f.Get(enc)
		vx.Assert(err == nil, "an encoding has no codec later")
	}
	k := vx.Choice("class", 5)
	text, r := runeUTF8(k)
	want, ok := encodeRef(enc, text, []uint32{r}, []int{k})
	got, err := encoding.EncodeString(c, string(text))
	vx.Assert((err == nil) == ok, "a codec refuses or accepts other text than before")
	if ok {
		vx.Assert(sameBytes(got, want), "a codec encodes differently after other text")
		back, err := encoding.DecodeString(c, bytes.NewReader(want))
		vx.Assert(err == nil && back == string(text), "a codec decodes differently after other text")
	}
	vx.Cover("again")
}

// C34_Values: one-level types: storing and loading, lowering and lifting in a context in which any bytes were loaded, any core value was lifted, or a value was stored without success.
func C34_Values() {
	t := pickOne(fewLeaves)
	mem := vx.Bytes("mem", 56)
	full := false
	a := &arena{24, 56}
	cx := context(mem, encoding.UTF8, func(old, oldSize, align, n uint32) (uint32, error) {
		if full {
			return 1 << 31, nil
		}
		return a.realloc(old, oldSize, align, n)
	})
	v := t.value()
	switch vx.Choice("before", 4) {
	case 0:
		aio.Load(cx, t.v, 0)
	case 1:
		aio.LiftFlat(cx, values.NewIterator(values.U32(vx.U32("core"))), t.v)
	case 2:
		full = true
		aio.Store(cx, []any{vx.U8("u8"), "x"}, list(leaf(kU8)).v, 0)
		aio.Store(cx, v, t.v, 0)
		full = false
	case 3:
		full = true
		aio.LowerFlat(cx, v, t.v)
		full = false
	}
	layout(t)
	vx.Assert(aio.Store(cx, v, t.v, 8) == nil, "storing fails after another operation")
	got, err := aio.Load(cx, t.v, 8)
	vx.Assert(err == nil, "loading fails after another operation")
	vx.Assert(t.same(got, v), "the loaded value differs after another operation")
	flat, err := aio.LowerFlat(cx, v, t.v)
	vx.Assert(err == nil, "lowering fails after another operation")
	got, err = aio.LiftFlat(cx, values.NewIterator(flat...), t.v)
	vx.Assert(err == nil, "lifting fails after another operation")
	vx.Assert(t.same(got, v), "the lifted value differs after another operation")
	vx.Cover("again")
}

// C34_Numbers: any three 32-bit numbers written one after another with one writer and read with one reader, in any of the three ways.
func C34_Numbers() {
	var buf bytes.Buffer
	w := bufio.NewWriterSize(&buf, 16)
	var v [3]uint32
	for i := range v {
		v[i] = vx.U32("v")
		if i == 1 {
			v[i] >>= 18
		}
		_, err := leb128.Encode(w, v[i])
		vx.Assert(err == nil, "writing a number fails after another")
	}
	w.Flush()
	r := bufio.NewReaderSize(bytes.NewReader(buf.Bytes()), 16)
	rest := buf.Bytes()
	way := vx.Choice("way", 3)
	for i := range v {
		var g uint32
		var n int
		var err error
		switch way {
		case 0:
			g, _, err = leb128.Decode(r)
		case 1:
			g, _, err = leb128.DecodeReader(r)
		default:
			g, n, err = leb128.DecodeSlice(rest)
			rest = rest[n:]
		}
		vx.Assert(err == nil, "reading a number fails after another")
		vx.Assert(g == v[i], "a number differs after another")
	}
	vx.Cover("again")
}
