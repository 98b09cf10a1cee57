// Package h holds the harnesses: for each property the functions named <id>_*.
package h

import (
	"bufio"
	"bytes"
	"io"

	"github.com/patrickhuber/go-wasm/leb128"
	"github.com/patrickhuber/go-wasm/zz_verif/vx"
)

// lebRef is the reference reading of an unsigned 32-bit LEB128 number: length 0 means malformed.
func lebRef(b []byte) (v uint32, n int) {
	var x uint64
	for i := 0; i < len(b) && i < 5; i++ {
		x |= uint64(b[i]&0x7f) << (7 * uint(i))
		if b[i] < 0x80 {
			if x > 0xffffffff {
				return 0, 0
			}
			return uint32(x), i + 1
		}
	}
	return 0, 0
}

// C13_Encode covers all 2^32 numbers: the written bytes are the shortest form and the count is right.
func C13_Encode() {
	v := vx.U32("v")
	var buf bytes.Buffer
	w := bufio.NewWriterSize(&buf, 16)
	n, err := leb128.Encode(w, v)
	vx.Assert(err == nil, "encoding into a buffer fails")
	w.Flush()
	b := buf.Bytes()
	vx.Assert(n == len(b), "reported length differs from the bytes written")
	vx.Assert(len(b) >= 1 && len(b) <= 5, "length out of range")
	want := 1
	if v >= 1<<7 {
		want = 2
	}
	if v >= 1<<14 {
		want = 3
	}
	if v >= 1<<21 {
		want = 4
	}
	if v >= 1<<28 {
		want = 5
	}
	vx.Assert(len(b) == want, "encoding is not the shortest form")
	rv, rn := lebRef(b)
	vx.Assert(rn == len(b), "encoding is not well formed")
	vx.Assert(rv == v, "encoding denotes another number")
	if n == 5 {
		vx.Cover("five bytes")
	}
	if n == 1 {
		vx.Cover("one byte")
	}
	vx.Observe("n", uint64(n))
	vx.Observe("v", uint64(v))
}

// noWriter refuses what is written beyond its room.
type noWriter struct{ room int }

func (w *noWriter) Write(b []byte) (int, error) {
	if len(b) > w.room {
		n := w.room
		w.room = 0
		return n, io.ErrShortWrite
	}
	w.room -= len(b)
	return len(b), nil
}

// C13_Writer covers all 2^32 numbers behind 0 to 16 bytes in a full or filling buffer whose writer takes any number of bytes: an error of the writer is returned.
func C13_Writer() {
	v := vx.U32("v")
	room := vx.Choice("room", 18)
	w := bufio.NewWriterSize(&noWriter{room}, 16)
	used := vx.Choice("used", 17)
	w.Write(make([]byte, used))
	n, err := leb128.Encode(w, v)
	want := 5
	for _, s := range []uint32{28, 21, 14, 7} {
		if v < 1<<s {
			want--
		}
	}
	if err == nil {
		vx.Assert(n == want, "part of a number is dropped without an error")
		err = w.Flush()
		// all of it is written, or the writer refused it later
		vx.Assert((err == nil) == (used+n <= room), "a number is written where there is no room, or refused")
		vx.Cover("written")
		return
	}
	vx.Assert(used+want > room, "a number is refused though there is room")
	vx.Cover("refused")
}

// C13_Decode covers all 2^32 numbers in shortest form followed by up to two arbitrary bytes, for the three decoders.
func C13_Decode() {
	v := vx.U32("v")
	var buf bytes.Buffer
	w := bufio.NewWriterSize(&buf, 16)
	n, err := leb128.Encode(w, v)
	vx.Assert(err == nil, "encoding into a buffer fails")
	w.Flush()
	b := append(buf.Bytes(), vx.Bytes("tail", vx.Choice("tails", 3))...)
	switch vx.Choice("decoder", 3) {
	case 0:
		br := bufio.NewReaderSize(bytes.NewReader(b), 16)
		g, m, err := leb128.Decode(br)
		vx.Assert(err == nil, "Decode rejects an encoded number")
		vx.Assert(g == v, "Decode gives another number")
		vx.Assert(m == n, "Decode reports a wrong length")
		rest, err := io.ReadAll(br)
		vx.Assert(err == nil && len(rest) == len(b)-n, "Decode consumes a wrong number of bytes")
		vx.Cover("Decode")
		vx.Observe("g", uint64(g))
	case 1:
		r := bytes.NewReader(b)
		g, m, err := leb128.DecodeReader(r)
		vx.Assert(err == nil, "DecodeReader rejects an encoded number")
		vx.Assert(g == v, "DecodeReader gives another number")
		vx.Assert(m == n, "DecodeReader reports a wrong length")
		vx.Assert(r.Len() == len(b)-n, "DecodeReader consumes a wrong number of bytes")
		vx.Cover("DecodeReader")
		vx.Observe("g", uint64(g))
	case 2:
		g, m, err := leb128.DecodeSlice(b)
		vx.Assert(err == nil, "DecodeSlice rejects an encoded number")
		vx.Assert(g == v, "DecodeSlice gives another number")
		vx.Assert(m == n, "DecodeSlice reports a wrong length")
		vx.Cover("DecodeSlice")
		vx.Observe("g", uint64(g))
	}
}

// moody is a reader over b that behaves in every way the io.Reader contract allows for one-byte reads.
type moody struct {
	b     []byte
	idle  int
	moods int
}

func (m *moody) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if m.idle > 0 && m.moods > 0 {
		m.moods--
		if vx.Bool("idle") {
			m.idle--
			return 0, nil
		}
	}
	if len(m.b) == 0 {
		return 0, io.EOF
	}
	n := 1
	if len(p) > 1 && len(m.b) > 1 && m.moods > 0 {
		m.moods--
		if vx.Bool("two") {
			n = 2
		}
	}
	copy(p[:n], m.b[:n])
	m.b = m.b[n:]
	if len(m.b) == 0 && vx.Bool("eofwithdata") {
		return n, io.EOF
	}
	return n, nil
}

// C14_Agree covers all byte strings up to 7 (thorough 11) bytes: each decoder accepts exactly the well-formed ones and agrees with the reference.
func C14_Agree() {
	max := 8
	if vx.Thorough() {
		max = 12
	}
	b := vx.Bytes("b", vx.Choice("len", max))
	rv, rn := lebRef(b)
	var g uint32
	var m int
	var err error
	switch vx.Choice("decoder", 3) {
	case 0:
		g, m, err = leb128.Decode(bufio.NewReaderSize(bytes.NewReader(b), 16))
	case 1:
		g, m, err = leb128.DecodeReader(bytes.NewReader(b))
	case 2:
		g, m, err = leb128.DecodeSlice(b)
	}
	if rn == 0 {
		vx.Assert(err != nil, "malformed number accepted")
		vx.Cover("malformed")
	} else {
		vx.Assert(err == nil, "well formed number rejected")
		vx.Assert(g == rv, "wrong value")
		vx.Assert(m == rn, "wrong length")
		vx.Cover("well formed")
	}
	vx.Observe("g", uint64(g))
	vx.Observe("m", uint64(m))
}

// C14_Readers covers all byte strings up to 6 bytes read through a reader that may deliver end-of-file with the last data, idle once, or deliver short reads.
func C14_Readers() {
	b := vx.Bytes("b", vx.Choice("len", 7))
	rv, rn := lebRef(b)
	r := &moody{b: b, idle: 1, moods: 4}
	var g uint32
	var m int
	var err error
	if vx.Choice("decoder", 2) == 0 {
		g, m, err = leb128.DecodeReader(r)
	} else {
		g, m, err = leb128.Decode(bufio.NewReaderSize(r, 16))
	}
	if rn == 0 {
		vx.Assert(err != nil, "malformed number accepted")
		vx.Cover("malformed")
	} else {
		vx.Assert(err == nil, "well formed number rejected because of how the reader delivers it")
		vx.Assert(g == rv, "wrong value")
		vx.Assert(m == rn, "wrong length")
		vx.Cover("well formed")
	}
}
