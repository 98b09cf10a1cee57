package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Op is the operator of a term node.
type Op uint8

const (
	OpConst Op = iota
	OpVar
	// bit-vector
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpAnd
	OpOr
	OpXor
	OpNot
	OpNeg
	OpShl
	OpLshr
	OpAshr
	OpExtract // val = lo ; width w
	OpConcat  // a high, b low
	OpZext
	OpSext
	OpIte
	// predicates (w == 0)
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpBAnd
	OpBOr
	OpBNot
	// floating point on IEEE bit patterns
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFSqrt
	OpFRnd // val: 0 ceil 1 floor 2 trunc 3 nearest-even 4 nearest-away
	OpFCvt // f32<->f64 by widths
	OpS2F  // signed bv -> float of width w
	OpU2F
	OpF2S // float -> signed 64 (in range assumed by guard)
	OpF2U
)

// Term is a hash-consed expression; w==0 is Bool, otherwise a bit-vector width.
type Term struct {
	op   Op
	w    uint8
	n    uint8
	id   uint32
	val  uint64
	a    [3]*Term
	name string
	sent uint32 // solver generation in which this node was defined
	// evaluation memo
	evGen uint32
	evVal uint64
	size  uint32
	// unsigned bounds that follow from the structure alone
	umin, umax uint64
}

type termKey struct {
	op         Op
	w          uint8
	val        uint64
	a0, a1, a2 uint32
	name       string
}

// Terms is a per-worker term factory.
type Terms struct {
	tab    map[termKey]*Term
	next   uint32
	small  [65][]*Term
	T, F   *Term
	evGen  uint32
	nnodes uint64
}

func NewTerms() *Terms {
	ts := &Terms{tab: map[termKey]*Term{}, next: 1}
	ts.T = ts.intern(&Term{op: OpConst, w: 0, val: 1})
	ts.F = ts.intern(&Term{op: OpConst, w: 0, val: 0})
	return ts
}

func (ts *Terms) intern(t *Term) *Term {
	k := termKey{op: t.op, w: t.w, val: t.val, name: t.name}
	for i := 0; i < int(t.n); i++ {
		if t.a[i].id == 0 {
			t.a[i] = ts.intern(t.a[i])
		}
	}
	if t.n > 0 {
		k.a0 = t.a[0].id
	}
	if t.n > 1 {
		k.a1 = t.a[1].id
	}
	if t.n > 2 {
		k.a2 = t.a[2].id
	}
	if o, ok := ts.tab[k]; ok {
		return o
	}
	t.id = ts.next
	ts.next++
	sz := uint32(1)
	for i := 0; i < int(t.n); i++ {
		sz += t.a[i].size
		if sz > 1<<30 {
			sz = 1 << 30
		}
	}
	t.size = sz
	if t.w > 0 {
		t.umin, t.umax = t.bounds()
	}
	ts.tab[k] = t
	ts.nnodes++
	return t
}

// rng gives the unsigned bounds of a bit-vector term.
func (t *Term) rng() (uint64, uint64) {
	if t.op == OpConst {
		return t.val, t.val
	}
	return t.umin, t.umax
}

// bounds derives the unsigned bounds of a term from those of its operands.
func (t *Term) bounds() (uint64, uint64) {
	m := mask(t.w)
	switch t.op {
	case OpConst:
		return t.val, t.val
	case OpIte:
		al, ah := t.a[1].rng()
		bl, bh := t.a[2].rng()
		return min(al, bl), max(ah, bh)
	case OpZext:
		return t.a[0].rng()
	case OpSext:
		l, h := t.a[0].rng()
		if h <= mask(t.a[0].w-1) {
			return l, h
		}
	case OpConcat:
		hl, hh := t.a[0].rng()
		ll, lh := t.a[1].rng()
		k := t.a[1].w
		return hl<<k | ll, hh<<k | lh
	case OpExtract:
		l, h := t.a[0].rng()
		l, h = l>>t.val, h>>t.val
		if h <= m {
			return l, h
		}
	case OpAdd:
		al, ah := t.a[0].rng()
		bl, bh := t.a[1].rng()
		h, c := bits.Add64(ah, bh, 0)
		if c == 0 && h <= m {
			return al + bl, h
		}
		if l, c := bits.Add64(al, bl, 0); c == 1 || l > m {
			return l & m, h & m // every sum wraps exactly once
		}
	case OpMul:
		al, ah := t.a[0].rng()
		bl, bh := t.a[1].rng()
		if c, h := bits.Mul64(ah, bh); c == 0 && h <= m {
			return al * bl, h
		}
	case OpUDiv:
		al, ah := t.a[0].rng()
		if bl, bh := t.a[1].rng(); bl > 0 {
			return al / bh, ah / bl
		}
	case OpURem:
		_, ah := t.a[0].rng()
		if bl, bh := t.a[1].rng(); bl > 0 {
			return 0, min(ah, bh-1)
		}
	case OpAnd:
		_, ah := t.a[0].rng()
		_, bh := t.a[1].rng()
		return 0, min(ah, bh)
	case OpOr:
		al, ah := t.a[0].rng()
		bl, bh := t.a[1].rng()
		return max(al, bl), mask(uint8(bits.Len64(ah | bh)))
	case OpXor:
		_, ah := t.a[0].rng()
		_, bh := t.a[1].rng()
		return 0, mask(uint8(bits.Len64(ah | bh)))
	}
	return 0, m
}

// noWrap says that t is an addition to x that cannot wrap.
func noWrap(t, x *Term) bool {
	if t.op != OpAdd || (!same(t.a[0], x) && !same(t.a[1], x)) {
		return false
	}
	_, ah := t.a[0].rng()
	_, bh := t.a[1].rng()
	h, c := bits.Add64(ah, bh, 0)
	return c == 0 && h <= mask(t.w)
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (t *Term) IsConst() bool { return t.op == OpConst }
func (t *Term) IsTrue() bool  { return t.op == OpConst && t.val == 1 && t.w == 0 }
func (t *Term) IsFalse() bool { return t.op == OpConst && t.val == 0 && t.w == 0 }

// S returns the constant as a signed integer.
func (t *Term) S() int64 { return sx(t.val, t.w) }

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func (ts *Terms) C(w uint8, v uint64) *Term {
	v &= mask(w)
	if w == 0 {
		panic("C: bool")
	}
	if v < 512 {
		sm := ts.small[w]
		if sm == nil {
			sm = make([]*Term, 512)
			ts.small[w] = sm
		}
		if sm[v] == nil {
			sm[v] = ts.intern(&Term{op: OpConst, w: w, val: v})
		}
		return sm[v]
	}
	return &Term{op: OpConst, w: w, val: v, size: 1}
}

func (ts *Terms) B(b bool) *Term {
	if b {
		return ts.T
	}
	return ts.F
}

func (ts *Terms) Var(name string, w uint8) *Term {
	return ts.intern(&Term{op: OpVar, w: w, name: name})
}

func same(a, b *Term) bool {
	if a == b {
		return true
	}
	return a.op == OpConst && b.op == OpConst && a.w == b.w && a.val == b.val
}

func (ts *Terms) mk1(op Op, w uint8, a *Term, val uint64) *Term {
	return ts.intern(&Term{op: op, w: w, n: 1, val: val, a: [3]*Term{a}})
}
func (ts *Terms) mk2(op Op, w uint8, a, b *Term) *Term {
	return ts.intern(&Term{op: op, w: w, n: 2, a: [3]*Term{a, b}})
}
func (ts *Terms) mk3(op Op, w uint8, a, b, c *Term) *Term {
	return ts.intern(&Term{op: op, w: w, n: 3, a: [3]*Term{a, b, c}})
}

func (ts *Terms) isConstIte(t *Term) bool {
	// ite tree with few constant leaves
	return t.op == OpIte && t.a[1].IsConst() && (t.a[2].IsConst() || ts.isConstIte(t.a[2]))
}

// Bin builds a bit-vector binary operation with folding.
func (ts *Terms) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %d %d op %d", a.w, b.w, op))
	}
	w := a.w
	if a.IsConst() && b.IsConst() {
		return ts.C(w, evalBin(op, w, a.val, b.val))
	}
	switch op {
	case OpAdd:
		if a.IsConst() && a.val == 0 {
			return b
		}
		if b.IsConst() && b.val == 0 {
			return a
		}
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() && a.op == OpAdd && a.a[1].IsConst() {
			return ts.Bin(OpAdd, a.a[0], ts.C(w, a.a[1].val+b.val))
		}
		if r := ts.orPieces(a, b); r != nil {
			return r
		}
		// ite(c,k1,k2)+k
		if b.IsConst() && a.op == OpIte && a.a[1].IsConst() && a.a[2].IsConst() {
			return ts.Ite(a.a[0], ts.Bin(op, a.a[1], b), ts.Bin(op, a.a[2], b))
		}
	case OpSub:
		if b.IsConst() {
			return ts.Bin(OpAdd, a, ts.C(w, -b.val))
		}
		if same(a, b) {
			return ts.C(w, 0)
		}
	case OpMul:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			switch {
			case b.val == 0:
				return b
			case b.val == 1:
				return a
			case bits.OnesCount64(b.val) == 1:
				return ts.Bin(OpShl, a, ts.C(w, uint64(bits.TrailingZeros64(b.val))))
			}
		}
	case OpUDiv:
		if b.IsConst() && b.val == 1 {
			return a
		}
		if b.IsConst() && b.val != 0 && bits.OnesCount64(b.val) == 1 {
			return ts.Bin(OpLshr, a, ts.C(w, uint64(bits.TrailingZeros64(b.val))))
		}
	case OpURem:
		if b.IsConst() && b.val != 0 && bits.OnesCount64(b.val) == 1 {
			return ts.Bin(OpAnd, a, ts.C(w, b.val-1))
		}
	case OpAnd:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			if a.op == OpZext {
				// (zext x) & m
				iw := a.a[0].w
				if b.val&mask(iw) == mask(iw) {
					return a
				}
				return ts.Zext(ts.Bin(OpAnd, a.a[0], ts.C(iw, b.val)), w)
			}
			// low mask -> zext(extract)
			if b.val&(b.val+1) == 0 {
				k := uint8(bits.Len64(b.val))
				return ts.Zext(ts.Extract(a, 0, k), w)
			}
		}
		if same(a, b) {
			return a
		}
	case OpOr:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.val == 0 {
				return a
			}
			if b.val == mask(w) {
				return b
			}
		}
		if same(a, b) {
			return a
		}
		if r := ts.orPieces(a, b); r != nil {
			return r
		}
	case OpXor:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() && b.val == 0 {
			return a
		}
		if same(a, b) {
			return ts.C(w, 0)
		}
	case OpShl, OpLshr, OpAshr:
		if b.IsConst() {
			if b.val == 0 {
				return a
			}
			if b.val >= uint64(w) && op != OpAshr {
				return ts.C(w, 0)
			}
			if op == OpLshr {
				k := uint8(b.val)
				return ts.Zext(ts.Extract(a, k, w-k), w)
			}
			if op == OpShl {
				k := uint8(b.val)
				return ts.Concat(ts.Extract(a, 0, w-k), ts.C(k, 0))
			}
		}
		if a.IsConst() && a.val == 0 {
			return a
		}
	}
	return ts.mk2(op, w, a, b)
}

func (ts *Terms) Not(a *Term) *Term {
	if a.IsConst() {
		return ts.C(a.w, ^a.val)
	}
	return ts.mk1(OpNot, a.w, a, 0)
}
func (ts *Terms) Neg(a *Term) *Term {
	if a.IsConst() {
		return ts.C(a.w, -a.val)
	}
	return ts.mk1(OpNeg, a.w, a, 0)
}

// Extract takes w bits starting at lo.
func (ts *Terms) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if w == 0 || lo+w > a.w {
		panic(fmt.Sprintf("bad extract lo=%d w=%d of %d", lo, w, a.w))
	}
	switch a.op {
	case OpConst:
		return ts.C(w, a.val>>lo)
	case OpExtract:
		return ts.Extract(a.a[0], uint8(a.val)+lo, w)
	case OpZext:
		iw := a.a[0].w
		if lo >= iw {
			return ts.C(w, 0)
		}
		if lo+w <= iw {
			return ts.Extract(a.a[0], lo, w)
		}
		return ts.Zext(ts.Extract(a.a[0], lo, iw-lo), w)
	case OpSext:
		iw := a.a[0].w
		if lo+w <= iw {
			return ts.Extract(a.a[0], lo, w)
		}
	case OpConcat:
		lw := a.a[1].w
		if lo >= lw {
			return ts.Extract(a.a[0], lo-lw, w)
		}
		if lo+w <= lw {
			return ts.Extract(a.a[1], lo, w)
		}
		return ts.Concat(ts.Extract(a.a[0], 0, lo+w-lw), ts.Extract(a.a[1], lo, lw-lo))
	case OpAnd, OpOr, OpXor:
		return ts.Bin(a.op, ts.Extract(a.a[0], lo, w), ts.Extract(a.a[1], lo, w))
	case OpNot:
		return ts.Not(ts.Extract(a.a[0], lo, w))
	case OpAdd, OpMul, OpSub:
		if lo == 0 && a.size < 64 {
			return ts.Bin(a.op, ts.Extract(a.a[0], 0, w), ts.Extract(a.a[1], 0, w))
		}
	case OpIte:
		if a.a[1].IsConst() || a.a[2].IsConst() || a.size < 32 {
			return ts.Ite(a.a[0], ts.Extract(a.a[1], lo, w), ts.Extract(a.a[2], lo, w))
		}
	}
	return ts.mk1(OpExtract, w, a, uint64(lo))
}

func (ts *Terms) Concat(hi, lo *Term) *Term {
	w := hi.w + lo.w
	if hi.IsConst() && lo.IsConst() {
		return ts.C(w, hi.val<<lo.w|lo.val)
	}
	if hi.IsConst() && hi.val == 0 {
		return ts.Zext(lo, w)
	}
	if hi.op == OpExtract && lo.op == OpExtract && hi.a[0] == lo.a[0] && hi.val == lo.val+uint64(lo.w) {
		return ts.Extract(hi.a[0], uint8(lo.val), w)
	}
	// concat(zext x, lo) = zext(concat(x,lo))
	if hi.op == OpZext {
		return ts.Zext(ts.Concat(hi.a[0], lo), w)
	}
	// concat(a, concat(b, c)) -> right assoc merge of extracts
	if lo.op == OpConcat && hi.op == OpExtract && lo.a[0].op == OpExtract && hi.a[0] == lo.a[0].a[0] && hi.val == lo.a[0].val+uint64(lo.a[0].w) {
		return ts.Concat(ts.Extract(hi.a[0], uint8(lo.a[0].val), hi.w+lo.a[0].w), lo.a[1])
	}
	if hi.op == OpConcat {
		return ts.Concat(hi.a[0], ts.Concat(hi.a[1], lo))
	}
	return ts.mk2(OpConcat, w, hi, lo)
}

func (ts *Terms) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return ts.Extract(a, 0, w)
	}
	if a.IsConst() {
		return ts.C(w, a.val)
	}
	if a.op == OpZext {
		return ts.Zext(a.a[0], w)
	}
	if a.op == OpIte && a.a[1].IsConst() && (a.a[2].IsConst() || ts.isConstIte(a.a[2])) {
		return ts.Ite(a.a[0], ts.Zext(a.a[1], w), ts.Zext(a.a[2], w))
	}
	return ts.mk1(OpZext, w, a, 0)
}
func (ts *Terms) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return ts.Extract(a, 0, w)
	}
	if a.IsConst() {
		return ts.C(w, uint64(sx(a.val, a.w)))
	}
	if a.op == OpZext {
		return ts.Zext(a.a[0], w)
	}
	return ts.mk1(OpSext, w, a, 0)
}

type piece struct {
	lo uint8
	t  *Term
}

// pieces decomposes t into disjoint parts with zeros elsewhere.
func (ts *Terms) pieces(t *Term, off uint8, out []piece) ([]piece, bool) {
	switch t.op {
	case OpZext:
		return ts.pieces(t.a[0], off, out)
	case OpConcat:
		out, ok := ts.pieces(t.a[1], off, out)
		if !ok {
			return nil, false
		}
		return ts.pieces(t.a[0], off+t.a[1].w, out)
	case OpConst:
		if t.val == 0 {
			return out, true
		}
		lo := uint8(bits.TrailingZeros64(t.val))
		hi := uint8(bits.Len64(t.val))
		return append(out, piece{off + lo, ts.C(hi-lo, t.val>>lo)}), true
	}
	return append(out, piece{off, t}), true
}

// orPieces recognises an or of disjoint parts (byte assembly), so that a word
// read back byte by byte folds to the word that was written.
func (ts *Terms) orPieces(a, b *Term) *Term {
	if a.op != OpZext && a.op != OpConcat && b.op != OpZext && b.op != OpConcat {
		return nil
	}
	var buf [16]piece
	ps, ok := ts.pieces(a, 0, buf[:0])
	if !ok {
		return nil
	}
	ps, ok = ts.pieces(b, 0, ps)
	if !ok {
		return nil
	}
	// insertion sort
	for i := 1; i < len(ps); i++ {
		for j := i; j > 0 && ps[j].lo < ps[j-1].lo; j-- {
			ps[j], ps[j-1] = ps[j-1], ps[j]
		}
	}
	pos := uint8(0)
	var acc *Term
	add := func(t *Term) {
		if acc == nil {
			acc = t
		} else {
			acc = ts.Concat(t, acc)
		}
	}
	for _, p := range ps {
		if p.lo < pos {
			return nil // overlap
		}
		if p.lo > pos {
			add(ts.C(p.lo-pos, 0))
		}
		add(p.t)
		pos = p.lo + p.t.w
	}
	if pos > a.w || acc == nil {
		return nil
	}
	return ts.Zext(acc, a.w)
}

func (ts *Terms) Ite(c, a, b *Term) *Term {
	if c.IsConst() {
		if c.val == 1 {
			return a
		}
		return b
	}
	if same(a, b) {
		return a
	}
	if a.w == 0 {
		if a.IsTrue() {
			return ts.BOr(c, b)
		}
		if a.IsFalse() {
			return ts.BAnd(ts.BNot(c), b)
		}
		if b.IsTrue() {
			return ts.BOr(ts.BNot(c), a)
		}
		if b.IsFalse() {
			return ts.BAnd(c, a)
		}
	}
	if c.op == OpBNot {
		return ts.Ite(c.a[0], b, a)
	}
	if a.op == OpIte && a.a[0] == c {
		a = a.a[1]
	}
	if b.op == OpIte && b.a[0] == c {
		b = b.a[2]
	}
	// ite(c,x,ite(d,x,y)) = ite(c|d, x, y)
	if b.op == OpIte && same(b.a[1], a) {
		return ts.Ite(ts.BOr(c, b.a[0]), a, b.a[2])
	}
	return ts.mk3(OpIte, a.w, c, a, b)
}

func (ts *Terms) Eq(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.w, b.w))
	}
	if same(a, b) {
		return ts.T
	}
	if a.IsConst() && b.IsConst() {
		return ts.B(a.val == b.val)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.IsConst() {
			if b.val == 1 {
				return a
			}
			return ts.BNot(a)
		}
		return ts.mk2(OpEq, 0, a, b)
	}
	if b.IsConst() {
		switch a.op {
		case OpZext:
			iw := a.a[0].w
			if b.val > mask(iw) {
				return ts.F
			}
			return ts.Eq(a.a[0], ts.C(iw, b.val))
		case OpSext:
			iw := a.a[0].w
			if uint64(sx(b.val&mask(iw), iw))&mask(a.w) != b.val {
				return ts.F
			}
			return ts.Eq(a.a[0], ts.C(iw, b.val))
		case OpIte:
			if a.a[1].IsConst() && (a.a[2].IsConst() || ts.isConstIte(a.a[2])) {
				return ts.Ite(a.a[0], ts.Eq(a.a[1], b), ts.Eq(a.a[2], b))
			}
		case OpAdd:
			if a.a[1].IsConst() {
				return ts.Eq(a.a[0], ts.C(a.w, b.val-a.a[1].val))
			}
		case OpXor:
			if a.a[1].IsConst() {
				return ts.Eq(a.a[0], ts.C(a.w, b.val^a.a[1].val))
			}
		case OpConcat:
			lo := a.a[1]
			return ts.BAnd(ts.Eq(a.a[0], ts.C(a.a[0].w, b.val>>lo.w)), ts.Eq(lo, ts.C(lo.w, b.val)))
		case OpNot:
			return ts.Eq(a.a[0], ts.C(a.w, ^b.val))
		}
	}
	if a.op == OpZext && b.op == OpZext && a.a[0].w == b.a[0].w {
		return ts.Eq(a.a[0], b.a[0])
	}
	if al, ah := a.rng(); true {
		if bl, bh := b.rng(); ah < bl || bh < al {
			return ts.F
		}
	}
	if a.id == 0 {
		a = ts.intern(a)
	}
	if b.id == 0 {
		b = ts.intern(b)
	}
	if !b.IsConst() && a.id > b.id {
		a, b = b, a
	}
	return ts.mk2(OpEq, 0, a, b)
}

func (ts *Terms) Cmp(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic("cmp width mismatch")
	}
	if a.IsConst() && b.IsConst() {
		return ts.B(evalCmp(op, a.w, a.val, b.val))
	}
	if same(a, b) {
		return ts.B(op == OpUle || op == OpSle)
	}
	al, ah := a.rng()
	bl, bh := b.rng()
	if sm := mask(a.w - 1); (op == OpSlt || op == OpSle) && ah <= sm && bh <= sm {
		if op == OpSlt {
			return ts.Cmp(OpUlt, a, b)
		}
		return ts.Cmp(OpUle, a, b)
	}
	switch op {
	case OpUlt:
		if ah < bl {
			return ts.T
		}
		if al >= bh || noWrap(a, b) {
			return ts.F
		}
		if b.IsConst() && b.val == 0 {
			return ts.F
		}
		if b.IsConst() && b.val == 1 {
			return ts.Eq(a, ts.C(a.w, 0))
		}
		if a.IsConst() && a.val == mask(a.w) {
			return ts.F
		}
	case OpUle:
		if ah <= bl || noWrap(b, a) {
			return ts.T
		}
		if al > bh {
			return ts.F
		}
		if a.IsConst() && a.val == 0 {
			return ts.T
		}
		if b.IsConst() && b.val == mask(a.w) {
			return ts.T
		}
	}
	// narrow zero-extended operands
	az, bz := zextInner(a), zextInner(b)
	if op == OpSlt || op == OpSle {
		if (az != nil || (a.IsConst() && a.S() >= 0)) && (bz != nil || (b.IsConst() && b.S() >= 0)) {
			if op == OpSlt {
				op = OpUlt
			} else {
				op = OpUle
			}
			return ts.Cmp(op, a, b)
		}
		if az != nil && b.IsConst() && b.S() < 0 {
			return ts.F
		}
		if bz != nil && a.IsConst() && a.S() < 0 {
			return ts.T
		}
	}
	if op == OpUlt || op == OpUle {
		if az != nil && b.IsConst() {
			if b.val > mask(az.w) {
				return ts.T
			}
			return ts.Cmp(op, az, ts.C(az.w, b.val))
		}
		if bz != nil && a.IsConst() {
			if a.val > mask(bz.w) {
				return ts.F
			}
			return ts.Cmp(op, ts.C(bz.w, a.val), bz)
		}
		if az != nil && bz != nil && az.w == bz.w {
			return ts.Cmp(op, az, bz)
		}
	}
	if b.IsConst() && a.op == OpIte && a.a[1].IsConst() && (a.a[2].IsConst() || ts.isConstIte(a.a[2])) {
		return ts.Ite(a.a[0], ts.Cmp(op, a.a[1], b), ts.Cmp(op, a.a[2], b))
	}
	if a.IsConst() && b.op == OpIte && b.a[1].IsConst() && (b.a[2].IsConst() || ts.isConstIte(b.a[2])) {
		return ts.Ite(b.a[0], ts.Cmp(op, a, b.a[1]), ts.Cmp(op, a, b.a[2]))
	}
	return ts.mk2(op, 0, a, b)
}

func zextInner(a *Term) *Term {
	if a.op == OpZext {
		return a.a[0]
	}
	return nil
}

func (ts *Terms) BNot(a *Term) *Term {
	if a.IsConst() {
		return ts.B(a.val == 0)
	}
	if a.op == OpBNot {
		return a.a[0]
	}
	switch a.op {
	case OpUlt:
		return ts.Cmp(OpUle, a.a[1], a.a[0])
	case OpUle:
		return ts.Cmp(OpUlt, a.a[1], a.a[0])
	case OpSlt:
		return ts.Cmp(OpSle, a.a[1], a.a[0])
	case OpSle:
		return ts.Cmp(OpSlt, a.a[1], a.a[0])
	}
	return ts.mk1(OpBNot, 0, a, 0)
}
func (ts *Terms) BAnd(a, b *Term) *Term {
	if a.IsConst() {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.IsConst() {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpBNot && a.a[0] == b) || (b.op == OpBNot && b.a[0] == a) {
		return ts.F
	}
	// eq(x,c1) & eq(x,c2)
	if a.op == OpEq && b.op == OpEq && a.a[0] == b.a[0] && a.a[1].IsConst() && b.a[1].IsConst() && a.a[1].val != b.a[1].val {
		return ts.F
	}
	return ts.mk2(OpBAnd, 0, a, b)
}
func (ts *Terms) BOr(a, b *Term) *Term {
	if a.IsConst() {
		if a.val == 1 {
			return a
		}
		return b
	}
	if b.IsConst() {
		if b.val == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpBNot && a.a[0] == b) || (b.op == OpBNot && b.a[0] == a) {
		return ts.T
	}
	return ts.mk2(OpBOr, 0, a, b)
}

// ---- floating point -------------------------------------------------------

func fexp(w uint8) (eb, mb uint8) {
	if w == 32 {
		return 8, 23
	}
	return 11, 52
}

func (ts *Terms) FIsNaN(a *Term) *Term {
	if a.op == OpIte && a.w == 64 && a.a[2].op == OpFCvt && a.a[0] == ts.FIsNaN(a.a[2].a[0]) {
		return a.a[0] // widening keeps exactly the NaNs
	}
	_, mb := fexp(a.w)
	abs := ts.Bin(OpAnd, a, ts.C(a.w, mask(a.w-1)))
	inf := ts.C(a.w, mask(a.w-1-mb)<<mb)
	return ts.Cmp(OpUlt, inf, abs)
}
func (ts *Terms) fIsZero(a *Term) *Term {
	return ts.Eq(ts.Bin(OpAnd, a, ts.C(a.w, mask(a.w-1))), ts.C(a.w, 0))
}
func (ts *Terms) FEq(a, b *Term) *Term {
	if a == b {
		return ts.BNot(ts.FIsNaN(a))
	}
	nn := ts.BAnd(ts.BNot(ts.FIsNaN(a)), ts.BNot(ts.FIsNaN(b)))
	return ts.BAnd(nn, ts.BOr(ts.Eq(a, b), ts.BAnd(ts.fIsZero(a), ts.fIsZero(b))))
}
func (ts *Terms) fKey(a *Term) *Term {
	// monotone unsigned key, with -0 == +0
	sign := ts.C(a.w, uint64(1)<<(a.w-1))
	neg := ts.Cmp(OpUle, sign, a)
	k := ts.Ite(neg, ts.Bin(OpSub, ts.C(a.w, 0), a), ts.Bin(OpOr, a, sign))
	return k
}
func (ts *Terms) FLt(a, b *Term) *Term {
	nn := ts.BAnd(ts.BNot(ts.FIsNaN(a)), ts.BNot(ts.FIsNaN(b)))
	return ts.BAnd(nn, ts.Cmp(OpUlt, ts.fKey(a), ts.fKey(b)))
}
func (ts *Terms) FLe(a, b *Term) *Term {
	nn := ts.BAnd(ts.BNot(ts.FIsNaN(a)), ts.BNot(ts.FIsNaN(b)))
	return ts.BAnd(nn, ts.Cmp(OpUle, ts.fKey(a), ts.fKey(b)))
}
func (ts *Terms) FBin(op Op, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return ts.C(a.w, evalFBin(op, a.w, a.val, b.val))
	}
	if op == OpFDiv && b.IsConst() && fconst(b) == 1 {
		return a // x/1 == x (also for NaN quieting, which is ignored for signalling inputs)
	}
	if op == OpFMul && b.IsConst() && fconst(b) == 1 {
		return a
	}
	return ts.mk2(op, a.w, a, b)
}
func fconst(t *Term) float64 {
	if t.w == 32 {
		return float64(math.Float32frombits(uint32(t.val)))
	}
	return math.Float64frombits(t.val)
}
func (ts *Terms) FUn(op Op, w uint8, a *Term, val uint64) *Term {
	if a.IsConst() {
		return ts.C(w, evalFUn(op, w, a.w, a.val, val))
	}
	if op == OpFCvt {
		// NaN payloads move like the hardware does: quieted and shifted.
		nan := ts.FIsNaN(a)
		var nv *Term
		if a.w == 32 && w == 64 {
			nv = ts.Concat(ts.Concat(ts.Extract(a, 31, 1), ts.Concat(ts.C(12, 0xfff), ts.Extract(a, 0, 22))), ts.C(29, 0))
		} else if a.w == 64 && w == 32 {
			nv = ts.Concat(ts.Extract(a, 63, 1), ts.Concat(ts.C(9, 0x1ff), ts.Extract(a, 29, 22)))
		} else {
			return a
		}
		// f64 -> f32 of a converted f32 is the f32
		if a.op == OpIte && w == 32 && a.a[2].op == OpFCvt && a.a[2].a[0].w == 32 {
			inner := a.a[2].a[0]
			return ts.Ite(ts.FIsNaN(inner), ts.Bin(OpOr, inner, ts.C(32, 0x400000)), inner)
		}
		return ts.Ite(nan, nv, ts.mk1(OpFCvt, w, a, 0))
	}
	return ts.mk1(op, w, a, val)
}

// ---- concrete evaluation ----------------------------------------------------

func evalBin(op Op, w uint8, a, b uint64) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (a + b) & m
	case OpSub:
		return (a - b) & m
	case OpMul:
		return (a * b) & m
	case OpUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OpURem:
		if b == 0 {
			return a
		}
		return a % b
	case OpSDiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OpSRem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OpAnd:
		return a & b
	case OpOr:
		return a | b
	case OpXor:
		return a ^ b
	case OpShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OpLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OpAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sx(a, w)>>b) & m
	}
	panic("evalBin")
}

func evalCmp(op Op, w uint8, a, b uint64) bool {
	switch op {
	case OpUlt:
		return a < b
	case OpUle:
		return a <= b
	case OpSlt:
		return sx(a, w) < sx(b, w)
	case OpSle:
		return sx(a, w) <= sx(b, w)
	}
	panic("evalCmp")
}

func evalFBin(op Op, w uint8, a, b uint64) uint64 {
	if w == 32 {
		x, y := math.Float32frombits(uint32(a)), math.Float32frombits(uint32(b))
		var r float32
		switch op {
		case OpFAdd:
			r = x + y
		case OpFSub:
			r = x - y
		case OpFMul:
			r = x * y
		case OpFDiv:
			r = x / y
		}
		return uint64(math.Float32bits(r))
	}
	x, y := math.Float64frombits(a), math.Float64frombits(b)
	var r float64
	switch op {
	case OpFAdd:
		r = x + y
	case OpFSub:
		r = x - y
	case OpFMul:
		r = x * y
	case OpFDiv:
		r = x / y
	}
	return math.Float64bits(r)
}

func evalFUn(op Op, w, aw uint8, a uint64, val uint64) uint64 {
	f := func() float64 {
		if aw == 32 {
			return float64(math.Float32frombits(uint32(a)))
		}
		return math.Float64frombits(a)
	}
	out := func(x float64) uint64 {
		if w == 32 {
			return uint64(math.Float32bits(float32(x)))
		}
		return math.Float64bits(x)
	}
	switch op {
	case OpFSqrt:
		return out(math.Sqrt(f()))
	case OpFRnd:
		switch val {
		case 0:
			return out(math.Ceil(f()))
		case 1:
			return out(math.Floor(f()))
		case 2:
			return out(math.Trunc(f()))
		case 3:
			return out(math.RoundToEven(f()))
		default:
			return out(math.Round(f()))
		}
	case OpFCvt:
		return out(f())
	case OpS2F:
		if w == 32 {
			return uint64(math.Float32bits(float32(sx(a, aw))))
		}
		return math.Float64bits(float64(sx(a, aw)))
	case OpU2F:
		if w == 32 {
			return uint64(math.Float32bits(float32(a)))
		}
		return math.Float64bits(float64(a))
	case OpF2S:
		return uint64(int64(f())) & mask(w)
	case OpF2U:
		return uint64(f()) & mask(w)
	}
	panic("evalFUn")
}

// Model maps variable terms to values.
type Model map[string]uint64

// Eval evaluates t under m (missing variables are 0).
func (ts *Terms) Eval(t *Term, m Model) uint64 {
	ts.evGen++
	return ts.eval(t, m)
}

func (ts *Terms) EvalBool(t *Term, m Model) bool { return ts.Eval(t, m) != 0 }

func (ts *Terms) eval(t *Term, m Model) uint64 {
	switch t.op {
	case OpConst:
		return t.val
	case OpVar:
		return m[t.name]
	}
	if t.evGen == ts.evGen {
		return t.evVal
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OpAdd, OpSub, OpMul, OpUDiv, OpSDiv, OpURem, OpSRem, OpAnd, OpOr, OpXor, OpShl, OpLshr, OpAshr:
		r = evalBin(t.op, t.w, ts.eval(t.a[0], m), ts.eval(t.a[1], m))
	case OpNot:
		r = ^ts.eval(t.a[0], m) & mask(t.w)
	case OpNeg:
		r = -ts.eval(t.a[0], m) & mask(t.w)
	case OpExtract:
		r = (ts.eval(t.a[0], m) >> t.val) & mask(t.w)
	case OpConcat:
		r = ts.eval(t.a[0], m)<<t.a[1].w | ts.eval(t.a[1], m)
	case OpZext:
		r = ts.eval(t.a[0], m)
	case OpSext:
		r = uint64(sx(ts.eval(t.a[0], m), t.a[0].w)) & mask(t.w)
	case OpIte:
		if ts.eval(t.a[0], m) != 0 {
			r = ts.eval(t.a[1], m)
		} else {
			r = ts.eval(t.a[2], m)
		}
	case OpEq:
		r = b2u(ts.eval(t.a[0], m) == ts.eval(t.a[1], m))
	case OpUlt, OpUle, OpSlt, OpSle:
		r = b2u(evalCmp(t.op, t.a[0].w, ts.eval(t.a[0], m), ts.eval(t.a[1], m)))
	case OpBAnd:
		r = 0
		if ts.eval(t.a[0], m) != 0 {
			r = ts.eval(t.a[1], m)
		}
	case OpBOr:
		r = 1
		if ts.eval(t.a[0], m) == 0 {
			r = ts.eval(t.a[1], m)
		}
	case OpBNot:
		r = 1 - ts.eval(t.a[0], m)
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		r = evalFBin(t.op, t.w, ts.eval(t.a[0], m), ts.eval(t.a[1], m))
	case OpFSqrt, OpFRnd, OpFCvt, OpS2F, OpU2F, OpF2S, OpF2U:
		r = evalFUn(t.op, t.w, t.a[0].w, ts.eval(t.a[0], m), t.val)
	default:
		panic("eval op")
	}
	t.evGen = ts.evGen
	t.evVal = r
	return r
}

// ---- SMT-LIB printing ----------------------------------------------------------

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constSMT(t *Term) string {
	if t.w == 0 {
		if t.val == 1 {
			return "true"
		}
		return "false"
	}
	if t.w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(t.w/4), t.val)
	}
	return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
}

var opNames = map[Op]string{OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpSDiv: "bvsdiv", OpURem: "bvurem", OpSRem: "bvsrem",
	OpAnd: "bvand", OpOr: "bvor", OpXor: "bvxor", OpNot: "bvnot", OpNeg: "bvneg", OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr", OpConcat: "concat",
	OpIte: "ite", OpEq: "=", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle", OpBAnd: "and", OpBOr: "or", OpBNot: "not"}

func fpSort(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

// emit writes definitions for t and its unsent children to sb, returns reference text.
func (ts *Terms) emit(sb *strings.Builder, t *Term, gen uint32, sent *[]*Term) string {
	if t.op == OpConst {
		return constSMT(t)
	}
	if t.op == OpVar {
		nm := "|" + t.name + "|"
		if t.sent != gen {
			t.sent = gen
			fmt.Fprintf(sb, "(declare-const %s %s)\n", nm, sortName(t.w))
		}
		return nm
	}
	nm := fmt.Sprintf("t%d", t.id)
	if t.sent == gen {
		return nm
	}
	var as [3]string
	for i := 0; i < int(t.n); i++ {
		as[i] = ts.emit(sb, t.a[i], gen, sent)
	}
	var body string
	toFP := func(i int) string {
		return fmt.Sprintf("((_ to_fp %s) %s)", fpSort(t.a[i].w), as[i])
	}
	switch t.op {
	case OpExtract:
		body = fmt.Sprintf("((_ extract %d %d) %s)", t.val+uint64(t.w)-1, t.val, as[0])
	case OpZext:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a[0].w, as[0])
	case OpSext:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a[0].w, as[0])
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		n := map[Op]string{OpFAdd: "fp.add", OpFSub: "fp.sub", OpFMul: "fp.mul", OpFDiv: "fp.div"}[t.op]
		body = fmt.Sprintf("(%s RNE %s %s)", n, toFP(0), toFP(1))
	case OpFSqrt:
		body = fmt.Sprintf("(fp.sqrt RNE %s)", toFP(0))
	case OpFRnd:
		rm := []string{"RTP", "RTN", "RTZ", "RNE", "RNA"}[t.val]
		body = fmt.Sprintf("(fp.roundToIntegral %s %s)", rm, toFP(0))
	case OpFCvt:
		body = fmt.Sprintf("((_ to_fp %s) RNE %s)", fpSort(t.w), toFP(0))
	case OpS2F:
		body = fmt.Sprintf("((_ to_fp %s) RNE %s)", fpSort(t.w), as[0])
	case OpU2F:
		body = fmt.Sprintf("((_ to_fp_unsigned %s) RNE %s)", fpSort(t.w), as[0])
	case OpF2S:
		body = fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, toFP(0))
	case OpF2U:
		body = fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.w, toFP(0))
	default:
		body = "(" + opNames[t.op]
		for i := 0; i < int(t.n); i++ {
			body += " " + as[i]
		}
		body += ")"
	}
	switch t.op {
	case OpFAdd, OpFSub, OpFMul, OpFDiv, OpFSqrt, OpFRnd, OpFCvt, OpS2F, OpU2F:
		// bit pattern of a floating-point result; NaN results are pinned to the default quiet NaN
		nan := "#x7fc00000"
		if t.w == 64 {
			nan = "#x7ff8000000000000"
		}
		fmt.Fprintf(sb, "(define-fun f%d () (_ FloatingPoint %s) %s)\n", t.id, fpSort(t.w), body)
		body = fmt.Sprintf("(ite (fp.isNaN f%d) %s (fp.to_ieee_bv f%d))", t.id, nan, t.id)
	}
	fmt.Fprintf(sb, "(define-fun %s () %s %s)\n", nm, sortName(t.w), body)
	t.sent = gen
	return nm
}

func (t *Term) String() string {
	if t.IsConst() {
		if t.w == 0 {
			return fmt.Sprint(t.val == 1)
		}
		return fmt.Sprintf("%d:%d", t.val, t.w)
	}
	if t.op == OpVar {
		return t.name
	}
	if t.size > 200 {
		return fmt.Sprintf("<t%d size %d>", t.id, t.size)
	}
	s := "(" + opNames[t.op]
	if s == "(" {
		s = fmt.Sprintf("(op%d/%d[%d]", t.op, t.w, t.val)
	}
	for i := 0; i < int(t.n); i++ {
		s += " " + t.a[i].String()
	}
	return s + ")"
}
