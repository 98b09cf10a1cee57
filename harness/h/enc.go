package h

import (
	"bytes"
	"io"
	"strings"

	"github.com/patrickhuber/go-wasm/encoding"
	"github.com/patrickhuber/go-wasm/zz_verif/vx"
)

// pieces is a reader that returns its data in pieces of one or two bytes, and the end of
// the data with the last piece or after it.
type pieces struct {
	b     []byte
	n     int
	early bool
}

func (p *pieces) Read(b []byte) (int, error) {
	if len(p.b) == 0 {
		return 0, io.EOF
	}
	n := p.n
	if n > len(p.b) {
		n = len(p.b)
	}
	n = copy(b, p.b[:n])
	p.b = p.b[n:]
	if p.early && len(p.b) == 0 {
		return n, io.EOF
	}
	return n, nil
}

// anyReader reads b at once or in pieces.
func anyReader(b []byte) io.Reader {
	switch vx.Choice("reader", 4) {
	case 1:
		return &pieces{b, 1, false}
	case 2:
		return &pieces{b, 1, true}
	case 3:
		return &pieces{b, 2, false}
	}
	return bytes.NewReader(b)
}

// anyCodec is any of the codecs, made directly or found by its name.
func anyCodec() (encoding.Encoding, encoding.Codec) {
	enc := encodings[vx.Choice("encoding", len(encodings))]
	c, err := encoding.DefaultFactory().Get(enc)
	vx.Assert(err == nil, "an encoding has no codec")
	vx.Assert(c.Encoding() == enc, "the codec is of another encoding")
	return enc, c
}

// encodeRef is the encoded text; ok tells whether there is one.
func encodeRef(enc encoding.Encoding, text []byte, rs []uint32, cl []int) (want []byte, ok bool) {
	switch enc {
	case encoding.UTF8:
		return text, true
	case encoding.UTF16BE:
		return utf16Bytes(rs, cl, true), true
	case encoding.UTF16, encoding.UTF16LE:
		return utf16Bytes(rs, cl, false), true
	}
	for i, r := range rs {
		if cl[i] > 1 {
			return nil, false
		}
		want = append(want, byte(r))
	}
	return want, true
}

func anyText(max int) (text []byte, rs []uint32, cl []int) {
	n := vx.Choice("runes", max+1)
	for i := 0; i < n; i++ {
		c := vx.Choice("class", 5)
		b, r := runeUTF8(c)
		text, rs, cl = append(text, b...), append(rs, r), append(cl, c)
	}
	return
}

func sameBytes(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vx.And(ok, a[i] == b[i])
	}
	return ok
}

// C28_Encode: all texts of up to 3 characters (4 in the thorough tier) with every codec.
func C28_Encode() {
	enc, c := anyCodec()
	text, rs, cl := anyText(3 + more())
	want, ok := encodeRef(enc, text, rs, cl)
	var got []byte
	var err error
	vx.NoPanic("encoding", func() { got, err = encoding.EncodeString(c, string(text)) })
	vx.Assert((err == nil) == ok, "text of the encoding is refused or other text accepted")
	if err != nil {
		vx.Cover("refused")
		return
	}
	vx.Assert(sameBytes(got, want), "the bytes are not the encoded text")
	back, err := encoding.DecodeString(c, bytes.NewReader(got))
	vx.Assert(err == nil, "encoded text is refused")
	vx.Assert(back == string(text), "decoding gives another text")
	vx.Cover("encoded")
}

// C28_Readers: texts of up to 2 characters whose readers return one or two bytes at a time.
func C28_Readers() {
	enc, c := anyCodec()
	text, rs, cl := anyText(2 + more())
	want, ok := encodeRef(enc, text, rs, cl)
	var out bytes.Buffer
	var err error
	vx.NoPanic("encoding", func() { err = encoding.Encode(c, &out, anyReader(text)) })
	vx.Assert((err == nil) == ok, "text of the encoding is refused or other text accepted")
	if err != nil {
		vx.Cover("refused")
		return
	}
	vx.Assert(sameBytes(out.Bytes(), want), "the bytes are not the encoded text")
	back, err := encoding.DecodeString(c, anyReader(want))
	vx.Assert(err == nil, "encoded text is refused")
	vx.Assert(back == string(text), "decoding gives another text")
	vx.Cover("encoded")
}

// C28_Writer: texts of up to 2 characters into a writer with less room than the result: the error is returned.
func C28_Writer() {
	enc, c := anyCodec()
	text, rs, cl := anyText(2)
	want, ok := encodeRef(enc, text, rs, cl)
	if !ok || len(want) == 0 {
		return
	}
	room := vx.Choice("room", len(want)+1)
	var err error
	if vx.Choice("way", 2) == 0 {
		vx.NoPanic("encoding", func() { err = encoding.Encode(c, &noWriter{room}, bytes.NewReader(text)) })
		vx.Assert((err == nil) == (room == len(want)), "an error of the writer is not returned when encoding")
		vx.Cover("encoded")
		return
	}
	vx.Assume(room <= len(text))
	vx.NoPanic("decoding", func() { err = encoding.Decode(c, &noWriter{room}, bytes.NewReader(want)) })
	vx.Assert((err == nil) == (room == len(text)), "an error of the writer is not returned when decoding")
	vx.Cover("decoded")
}

// failReader gives what it has, at once or byte by byte, and fails then.
type failReader struct {
	b   []byte
	one bool
}

func (r *failReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.ErrClosedPipe
	}
	n := len(r.b)
	if r.one {
		n = 1
	}
	n = copy(p, r.b[:n])
	r.b = r.b[n:]
	return n, nil
}

// C28_Reader: texts of up to 2 characters from a reader that fails at any place: the error is returned.
func C28_Reader() {
	enc, c := anyCodec()
	text, rs, cl := anyText(2)
	want, ok := encodeRef(enc, text, rs, cl)
	if !ok {
		return
	}
	var err error
	var out bytes.Buffer
	one := vx.Choice("one", 2) == 1
	if vx.Choice("way", 2) == 0 {
		r := &failReader{text[:vx.Choice("cut", len(text)+1)], one}
		vx.NoPanic("encoding", func() { err = encoding.Encode(c, &out, r) })
		vx.Assert(err != nil, "an error of the reader is not returned when encoding")
		vx.Cover("encoded")
		return
	}
	r := &failReader{want[:vx.Choice("cut", len(want)+1)], one}
	vx.NoPanic("decoding", func() {
		if one {
			_, err = encoding.DecodeString(c, r)
		} else {
			err = encoding.Decode(c, &out, r)
		}
	})
	vx.Assert(err != nil, "an error of the reader is not returned when decoding")
	vx.Cover("decoded")
}

// C28_Truncated: UTF-8 text that ends inside a character is refused or replaced by
// U+FFFD, never dropped.
func C28_Truncated() {
	enc, c := anyCodec()
	text, rs, cl := anyText(1)
	cut, _ := runeUTF8(2 + vx.Choice("cut", 3))
	cut = cut[:1+vx.Choice("length", len(cut)-1)]
	var out bytes.Buffer
	var err error
	vx.NoPanic("encoding", func() { err = encoding.Encode(c, &out, anyReader(append(text, cut...))) })
	vx.Cover("encoded")
	if err != nil {
		return
	}
	var ends [][]byte
	for k := 1; k <= len(cut); k++ {
		t, r, l := text, rs, cl
		for j := 0; j < k; j++ {
			t, r, l = append(t, 0xef, 0xbf, 0xbd), append(r, 0xfffd), append(l, 3)
		}
		if w, ok := encodeRef(enc, t, r, l); ok {
			ends = append(ends, w)
		}
	}
	ok := false
	for _, w := range ends {
		ok = vx.Or(ok, sameBytes(out.Bytes(), w))
	}
	vx.Assert(ok, "the end of the text is lost")
}

// C28_Decode: any bytes (up to 4, 6 in the thorough tier) with every codec: the result is
// the text, malformed UTF-16 is refused or marked with U+FFFD, UTF-8 does not become
// shorter, and Latin-1 has one character for each byte.
func C28_Decode() {
	enc, c := anyCodec()
	b := vx.Bytes("bytes", vx.Choice("len", 5+2*more()))
	var got string
	var err error
	vx.NoPanic("decoding", func() { got, err = encoding.DecodeString(c, bytes.NewReader(b)) })
	if err != nil {
		vx.Assert(enc != encoding.Latin1 && enc != encoding.Latin1Utf16, "a Latin-1 byte is refused")
		return
	}
	switch enc {
	case encoding.Latin1, encoding.Latin1Utf16:
		want := ""
		for _, x := range b {
			if x < 0x80 {
				want += string([]byte{x})
			} else {
				want += string([]byte{0xc0 | x>>6, 0x80 | x&0x3f})
			}
		}
		vx.Assert(got == want, "decoding Latin-1 gives another text")
	case encoding.UTF8:
		vx.Assert(len(got) >= len(b), "part of the text is lost")
	default:
		want, bad := "", false
		for i := 0; i < len(b); {
			if i+1 == len(b) {
				bad = true
				break
			}
			u := unit16(enc, b[i:])
			switch {
			case u < 0x80:
				want += string([]byte{byte(u)})
			case u < 0x800:
				want += string([]byte{byte(0xc0 | u>>6), byte(0x80 | u&0x3f)})
			case u >= 0xd800 && u < 0xdc00 && i+3 < len(b) && unit16(enc, b[i+2:])>>10 == 0x37:
				r := 0x10000 + (u&0x3ff)<<10 + unit16(enc, b[i+2:])&0x3ff
				want += string([]byte{byte(0xf0 | r>>18), byte(0x80 | r>>12&0x3f), byte(0x80 | r>>6&0x3f), byte(0x80 | r&0x3f)})
				i += 2
			case u>>11 == 0x1b:
				bad = true
			default:
				want += string([]byte{byte(0xe0 | u>>12), byte(0x80 | u>>6&0x3f), byte(0x80 | u&0x3f)})
			}
			i += 2
		}
		if bad {
			vx.Assert(strings.Contains(got, "\ufffd"), "malformed text is not marked")
			vx.Cover("malformed")
			return
		}
		vx.Assert(got == want, "decoding UTF-16 gives another text")
	}
	vx.Cover("decoded")
}

func unit16(enc encoding.Encoding, b []byte) uint32 {
	if enc == encoding.UTF16BE {
		return uint32(b[0])<<8 | uint32(b[1])
	}
	return uint32(b[1])<<8 | uint32(b[0])
}

// C28_Names: any name of up to 12 characters is found exactly if it is that of an encoding.
//
// vx:text
func C28_Names() {
	var name encoding.Encoding
	if k := vx.Choice("name", len(encodings)+1); k < len(encodings) {
		b := []byte(encodings[k])
		b[vx.Choice("place", len(b))] = vx.U8("letter")
		name = encoding.Encoding(b)
	} else {
		name = encoding.Encoding(vx.Str("name", vx.Choice("len", 13)))
	}
	known := false
	for _, e := range encodings {
		known = vx.Or(known, e == name)
	}
	f := encoding.DefaultFactory()
	c, err := f.Get(name)
	l, ok := f.Lookup(name)
	vx.Assert(ok == (err == nil), "the two ways to look up a codec differ")
	vx.Assert(ok == known, "an encoding is unknown or an unknown one is found")
	if !ok {
		vx.Cover("unknown")
		return
	}
	vx.Assert(c == l && c.Encoding() == name, "another codec is found")
	size, align := 1, 1
	if strings.HasPrefix(string(name), "utf-16") {
		size, align = 2, 2
	}
	if strings.HasSuffix(string(name), "utf16") {
		align = 2
	}
	vx.Assert(c.RuneSize() == size, "wrong size of a code unit")
	if name != encoding.Latin1 {
		vx.Assert(c.Alignment() == align, "wrong alignment")
	}
	vx.Cover("known")
}
