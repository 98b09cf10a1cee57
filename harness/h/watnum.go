package h

import (
	"math"
	"strconv"

	"github.com/patrickhuber/go-wasm/wat/lex"
	"github.com/patrickhuber/go-wasm/wat/parse"
	"github.com/patrickhuber/go-wasm/zz_verif/vx"
)

var signs = []string{"", "-", "+"}

// digits is any sequence of n decimal digits, with an underscore behind the first one if
// asked. The digits are remainders, which shows the engine their range.
func digits(name string, n int, under bool) (string, []byte) {
	b := vx.Bytes(name, n)
	for i := range b {
		b[i] = '0' + b[i]%10
	}
	if under && n > 1 {
		return string(b[:1]) + "_" + string(b[1:]), b
	}
	return string(b), b
}

// Patterns of hexadecimal digits, repeated as often as needed: d is 0 to 7, n is 8 or 9,
// a and A are a or b, c and C are c to f. A digit is a constant with some free bits.
var anyPattern = []string{"d", "c", "C", "nacd", "dACn"}

func hexDigits(name string, n int, under bool, patterns []string) (string, []byte) {
	b := vx.Bytes(name, n)
	p := patterns[vx.Choice("pattern", len(patterns))]
	for i := range b {
		switch p[i%len(p)] {
		case 'd':
			b[i] = '0' + b[i]&7
		case 'n':
			b[i] = '8' + b[i]&1
		case 'a':
			b[i] = 'a' + b[i]&1
		case 'A':
			b[i] = 'A' + b[i]&1
		case 'c':
			b[i] = 'c' + b[i]&3
		default:
			b[i] = 'C' + b[i]&3
		}
	}
	if under && n > 1 {
		return string(b[:1]) + "_" + string(b[1:]), b
	}
	return string(b), b
}

func digitValue(c byte) uint64 {
	v := uint64(c - '0')
	v = vx.Ite64(c >= 'A', uint64(c-'A')+10, v)
	return vx.Ite64(c >= 'a', uint64(c-'a')+10, v)
}

// valueOf is the number the digits denote, and whether it exceeds 64 bits.
func valueOf(b []byte, base uint64) (uint64, bool) {
	v, over := uint64(0), false
	for _, c := range b {
		d := digitValue(c)
		over = vx.Or(over, v > math.MaxUint64/base, vx.And(v == math.MaxUint64/base, d > math.MaxUint64%base))
		v = v*base + d
	}
	return v, over
}

// anyInteger is an integer literal with its parts.
func anyInteger(decLens, hexLens []int) (text, sign string, v uint64, over bool) {
	sign = signs[vx.Choice("sign", 3)]
	under := vx.Choice("underscore", 2) == 1
	if vx.Choice("base", 2) == 0 {
		t, b := digits("digits", decLens[vx.Choice("n", len(decLens))], under)
		v, over = valueOf(b, 10)
		return sign + t, sign, v, over
	}
	t, b := hexDigits("digits", hexLens[vx.Choice("n", len(hexLens))], under, anyPattern)
	v, over = valueOf(b, 16)
	return sign + "0x" + t, sign, v, over
}

// inRange says whether sign and v are a number of the width; some numbers with a plus
// sign are neither required nor forbidden.
func inRange(sign string, v uint64, over bool, width int) (ok, unclear bool) {
	half := uint64(1) << (width - 1)
	switch sign {
	case "-":
		return vx.And(!over, v <= half), false
	case "+":
		return vx.And(!over, v < half), vx.And(!over, v >= half, v <= half-1+half)
	}
	return vx.And(!over, v <= half-1+half), false
}

// C20_Int32: decimal integers of 1, 2 and 9 to 11 digits and hexadecimal ones of 1 and
// 7 to 9 digits, all digits, signs, with and without underscore.
//
// vx:text
func C20_Int32() {
	text, sign, v, over := anyInteger([]int{1, 2, 9, 10, 11}, []int{1, 7, 8, 9})
	var got int32
	var err error
	vx.NoPanic("parsing a number", func() { got, err = parse.ParseInt32(lex.New(text)) })
	ok, unclear := inRange(sign, v, over, 32)
	vx.Assume(!unclear)
	vx.Assert((err == nil) == ok, "the range of 32-bit integers is wrong")
	if err != nil {
		vx.Cover("refused")
		return
	}
	want := vx.Ite64(sign == "-", -v, v)
	vx.Assert(uint32(got) == uint32(want), "a 32-bit integer has the wrong value")
	vx.Cover("value")
}

// ends are numbers around the ends of the 64-bit ranges without their last digits.
var ends = []string{
	"922337203685477", // 2^63
	"922337203685478",
	"1844674407370955", // 2^64
	"1844674407370956",
	"9999999999999999",
	"18446744073709551", // too long
	"09223372036854775",
	"00018446744073709551",
}

// C20_Int64: decimal integers of 1, 10 and 18 digits, those of 19 to 24 digits whose
// first digits put them close to the ends of the ranges, and hexadecimal ones of 1, 9 and
// 15 to 17 digits.
//
// vx:text
func C20_Int64() {
	var text, sign string
	var v uint64
	var over bool
	if vx.Choice("near", 2) == 0 {
		text, sign, v, over = anyInteger([]int{1, 10, 18}, []int{1, 9, 15, 16, 17})
	} else {
		sign = signs[vx.Choice("sign", 3)]
		start := ends[vx.Choice("start", len(ends))]
		t, b := digits("digits", 4+more(), vx.Choice("underscore", 2) == 1)
		v, over = valueOf(append([]byte(start), b...), 10)
		text = sign + start + t
	}
	var got int64
	var err error
	vx.NoPanic("parsing a number", func() { got, err = parse.ParseInt64(lex.New(text)) })
	ok, unclear := inRange(sign, v, over, 64)
	vx.Assume(!unclear)
	vx.Assert((err == nil) == ok, "the range of 64-bit integers is wrong")
	if err != nil {
		vx.Cover("refused")
		return
	}
	want := vx.Ite64(sign == "-", -v, v)
	vx.Assert(uint64(got) == want, "a 64-bit integer has the wrong value")
	vx.Cover("value")
}

// float parses text with the parser of the width and returns the bits.
func float(text string, width int) (bits uint64, err error) {
	vx.NoPanic("parsing a number", func() {
		if width == 32 {
			var f float32
			f, err = parse.ParseFloat32(lex.New(text))
			bits = uint64(math.Float32bits(f))
		} else {
			var f float64
			f, err = parse.ParseFloat64(lex.New(text))
			bits = math.Float64bits(f)
		}
	})
	return
}

func anyWidth() int { return []int{32, 64}[vx.Choice("width", 2)] }

// form is a sign and whether there is an underscore.
func form() (string, bool) {
	i := vx.Choice("form", 3+3*more())
	return signs[i%3], (i == 1) != (i >= 3)
}

// C20_Decimal: decimal floats with up to 2 digits before and behind the point (3 before
// it in the thorough tier) and an exponent of up to 7; the standard library,
// which is trusted to round, says what the number without underscores is.
//
// vx:text
// vx:raw
// vx:share 3
func C20_Decimal() {
	width := anyWidth()
	sign, under := form()
	t, b := digits("int", 1+vx.Choice("n", 2+more()), under)
	plain := string(b)
	if n := vx.Choice("frac", 4); n > 0 {
		f, b := digits("frac", n-1, under)
		t, plain = t+"."+f, plain+"."+string(b)
	}
	if e := vx.Choice("exp", 3+2*more()); e > 0 {
		d := string([]byte{'0' + vx.U8("e")&7})
		d = []string{"e", "E-", "E", "e+"}[e-1] + d
		t, plain = t+d, plain+d
	}
	got, err := float(sign+t, width)
	vx.Assert(err == nil, "a decimal number is refused")
	want, err := strconv.ParseFloat(sign+plain, width)
	vx.Assume(err == nil)
	if width == 32 {
		vx.Assert(got == uint64(math.Float32bits(float32(want))), "a decimal number has the wrong value")
	} else {
		vx.Assert(got == math.Float64bits(want), "a decimal number has the wrong value")
	}
	vx.Cover("value")
}

// hexBits is the float nearest to m*2^e, ties to even, and whether it is too large.
func hexBits(m uint64, e, width int) (uint64, bool) {
	mant, bias := 23, 127
	if width == 64 {
		mant, bias = 52, 1023
	}
	if m == 0 {
		return 0, false
	}
	top := 63
	for m>>top == 0 {
		top--
	}
	exp := top + e // the value is in [2^exp, 2^(exp+1))
	if exp > bias {
		return 0, true
	}
	low := exp - mant // the weight of the last bit kept
	biased := uint64(exp + bias)
	if exp < 1-bias {
		low = 1 - bias - mant
		biased = 1
	}
	var q uint64
	switch s := low - e; {
	case s <= 0:
		q = m << -s
	case s > 64:
		q = 0
	case s == 64:
		q = vx.Ite64(m > 1<<63, 1, 0)
	default:
		q = m >> s
		rest := m & (1<<s - 1)
		half := uint64(1) << (s - 1)
		q += vx.Ite64(vx.Or(rest > half, vx.And(rest == half, q&1 == 1)), 1, 0)
	}
	bits := (biased-1)<<mant + q // a carry moves into the exponent
	return bits, bits>>mant >= uint64(2*bias+1)
}

// C20_Hex: hexadecimal floats with all digits: 1 or 8 before and 0 to 2 behind the point
// for 32 bits, 1 or 15 and 0 to 1 for 64 bits, with exponents that reach zero, the
// subnormal range and infinity.
//
// vx:text
// vx:share 4
func C20_Hex() {
	width := anyWidth()
	lens, fracs := []int{1, 8}, []int{-1, 0, 2}
	exps := []string{"", "p-3", "p-149", "p-152", "p96", "p101", "P+1", "p-180", "p0", "p-148", "p-150", "p128"}
	if width == 64 {
		lens, fracs = []int{1, 15}, []int{-1, 0, 1}
		exps = []string{"", "p+2", "p-1075", "p-1140", "p964", "p967", "P-1", "p-1074", "p-1077", "p1024"}
	}
	sign, under := form()
	n := lens[vx.Choice("n", 2)]
	t, b := hexDigits("int", n, under, []string{"dACn", "nacd", "C"}[:2+more()])
	var fb []byte
	if n := fracs[vx.Choice("f", 3)]; n >= 0 {
		var f string
		f, fb = hexDigits("frac", n, false, []string{"cd"})
		t += "." + f
	}
	m, _ := valueOf(append(append([]byte{}, b...), fb...), 16)
	exp := exps[vx.Choice("exp", 6+(len(exps)-6)*more())]
	e := 0
	if exp != "" {
		e, _ = strconv.Atoi(exp[1:])
	}
	got, err := float(sign+"0x"+t+exp, width)
	want, over := hexBits(m, e-4*len(fb), width)
	vx.Assert((err == nil) == !over, "the range of floats is wrong")
	if err != nil {
		vx.Cover("overflow")
		return
	}
	if sign == "-" {
		want |= 1 << (width - 1)
	}
	vx.Assert(got == want, "a hexadecimal number has the wrong value")
	vx.Cover("value")
}

// C20_Integral: integers where a float is expected, of up to 7 decimal digits (exactly
// representable) or 9 hexadecimal ones.
//
// vx:text
// vx:raw
func C20_Integral() {
	width := anyWidth()
	sign, under := form()
	if vx.Choice("base", 2) == 0 {
		t, b := digits("digits", []int{1, 3, 7}[vx.Choice("n", 3)], under)
		got, err := float(sign+t, width)
		vx.Assert(err == nil, "an integer is no float")
		f, err := strconv.ParseFloat(sign+string(b), width)
		vx.Assume(err == nil)
		want := math.Float64bits(f)
		if width == 32 {
			want = uint64(math.Float32bits(float32(f)))
		}
		vx.Assert(got == want, "an integer has the wrong value as float")
		return
	}
	n := []int{1, 8, 9}[vx.Choice("n", 3)]
	t, b := hexDigits("digits", n, under, []string{"dACn", "nacd", "C"}[:2+more()])
	got, err := float(sign+"0x"+t, width)
	vx.Assert(err == nil, "an integer is no float")
	v, _ := valueOf(b, 16)
	want, _ := hexBits(v, 0, width)
	if sign == "-" {
		want |= 1 << (width - 1)
	}
	vx.Assert(got == want, "an integer has the wrong value as float")
}

// C20_Nan: infinities and NaNs, with all payloads of up to 7 (14 for 64 bits) digits.
//
// vx:text
func C20_Nan() {
	width := anyWidth()
	mant := 23
	if width == 64 {
		mant = 52
	}
	sign := signs[vx.Choice("sign", 3)]
	exp := uint64(1)<<(width-1-mant) - 1
	neg := uint64(0)
	if sign == "-" {
		neg = 1 << (width - 1)
	}
	switch vx.Choice("kind", 4) {
	case 0:
		got, err := float(sign+"inf", width)
		vx.Assert(err == nil && got == neg|exp<<mant, "an infinity has the wrong value")
	case 1:
		got, err := float(sign+"nan", width)
		vx.Assert(err == nil && got == neg|exp<<mant|1<<(mant-1), "a NaN has the wrong value")
	case 2:
		text := []string{"nan:canonical", "nan:arithmetic"}[vx.Choice("pattern", 2)]
		got, err := float(sign+text, width)
		vx.Assert(err == nil && got&^(1<<(width-1)) == exp<<mant|1<<(mant-1), "a NaN pattern has the wrong value")
	case 3:
		lens := []int{1, 6, 7, 9}
		if width == 64 {
			lens = []int{1, 13, 14, 17}
		}
		t, b := hexDigits("payload", lens[vx.Choice("n", 4)], vx.Choice("underscore", 2) == 1, anyPattern)
		v, over := valueOf(b, 16)
		got, err := float(sign+"nan:0x"+t, width)
		vx.Assert((err == nil) == vx.And(!over, v > 0, v < 1<<mant), "the range of NaN payloads is wrong")
		if err == nil {
			vx.Assert(got == neg|exp<<mant|v, "a NaN has the wrong payload")
			vx.Cover("payload")
		}
	}
}

var literals = []struct {
	text     string
	b32, b64 uint64
}{
	{"0.1", 0x3dcccccd, 0x3fb999999999999a},
	{"1e10", 0x501502f9, 0x4202a05f20000000},
	{"1.0e-10", 0x2edbe6ff, 0x3ddb7cdfd9d7bdbb},
	{"16777217", 0x4b800000, 0x4170000010000000},
	{"16777219", 0x4b800002, 0x4170000030000000},
	{"123_456_789", 0x4ceb79a3, 0x419d6f3454000000},
	{"3.4028235e38", 0x7f7fffff, 0x47efffffe54daff8},
	{"1.4e-45", 0x00000001, 0x369ff868bf4d956a},
	{"9007199254740993", 0x5a000000, 0x4340000000000000},
	{"18446744073709551616", 0x5f800000, 0x43f0000000000000},
	{"0x1.fffffep127", 0x7f7fffff, 0x47efffffe0000000},
	{"0x1p-149", 0x00000001, 0x36a0000000000000},
	{"-0", 0x80000000, 0x8000000000000000},
	{"-0x0", 0x80000000, 0x8000000000000000},
	{"-0.0", 0x80000000, 0x8000000000000000},
	{"010", 0x41200000, 0x4024000000000000},
}

// C20_Literals: known values, and numbers too large.
//
// vx:text
func C20_Literals() {
	i := vx.Choice("literal", len(literals)+4)
	if i < len(literals) {
		l := literals[i]
		got, err := float(l.text, 32)
		vx.Assert(err == nil && got == l.b32, "a literal has the wrong value in 32 bits")
		got, err = float(l.text, 64)
		vx.Assert(err == nil && got == l.b64, "a literal has the wrong value in 64 bits")
		return
	}
	switch i - len(literals) {
	case 0:
		_, err := float("3.5e38", 32)
		vx.Assert(err != nil, "a number too large for 32 bits is accepted")
	case 1:
		_, err := float("1.8e308", 64)
		vx.Assert(err != nil, "a number too large for 64 bits is accepted")
	case 2:
		_, err := float("0x1p128", 32)
		vx.Assert(err != nil, "a number too large for 32 bits is accepted")
	case 3:
		bits, err := float("1e308", 64)
		vx.Assert(err == nil && bits == 0x7fe1ccf385ebc8a0, "a large number has the wrong value")
	}
}

// C20_Other: anything but a number is refused by the number parsers.
//
// vx:text
func C20_Other() {
	text := word("word", 1+vx.Choice("len", 3+more()))
	isInt, isFloat := numberForms(text)
	switch vx.Choice("parser", 4) {
	case 0:
		_, err := parse.ParseInt32(lex.New(text))
		vx.Assert(vx.Implies(!isInt, err != nil), "something else is a 32-bit integer")
	case 1:
		_, err := parse.ParseInt64(lex.New(text))
		vx.Assert(vx.Implies(!isInt, err != nil), "something else is a 64-bit integer")
	case 2:
		_, err := parse.ParseFloat32(lex.New(text))
		vx.Assert(vx.Implies(!isFloat, err != nil), "something else is a 32-bit float")
	case 3:
		_, err := parse.ParseFloat64(lex.New(text))
		vx.Assert(vx.Implies(!isFloat, err != nil), "something else is a 64-bit float")
	}
}
