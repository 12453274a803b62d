package main

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"
)

// Symbolic terms: hash-consed DAG of booleans (w==0) and bit-vectors (w=1..64).

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	ONeg
	OBNot
	OULT
	OULE
	OSLT
	OSLE
	OZExt
	OSExt
	OExtract // low bits only: extract [w-1:0]
)

type Term struct {
	op      Op
	w       uint8
	a, b, c *Term
	val     uint64
	name    string
	id      int
	size    int
	// evaluation memo
	gen int
	ev  uint64
	// solver emission
	emitted bool
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c *Term
	val     uint64
}

type TF struct {
	tab   map[tkey]*Term
	n     int
	gen   int
	True  *Term
	False *Term
}

func newTF() *TF {
	f := &TF{tab: map[tkey]*Term{}}
	f.True = f.mk(OConst, 0, nil, nil, nil, 1)
	f.False = f.mk(OConst, 0, nil, nil, nil, 0)
	return f
}

func (f *TF) mk(op Op, w uint8, a, b, c *Term, val uint64) *Term {
	k := tkey{op, w, a, b, c, val}
	if t := f.tab[k]; t != nil {
		return t
	}
	f.n++
	sz := 1
	if a != nil {
		sz += a.size
	}
	if b != nil {
		sz += b.size
	}
	if c != nil {
		sz += c.size
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, val: val, id: f.n, size: sz}
	f.tab[k] = t
	return t
}

func (f *TF) newVar(name string, w uint8) *Term {
	f.n++
	return &Term{op: OVar, w: w, name: name, id: f.n, size: 1}
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (f *TF) Const(v uint64, w uint8) *Term { return f.mk(OConst, w, nil, nil, nil, v&mask(w)) }
func (f *TF) Bool(b bool) *Term {
	if b {
		return f.True
	}
	return f.False
}

func (t *Term) isConst() bool { return t.op == OConst }

func (f *TF) Not(a *Term) *Term {
	if a.op == OConst {
		return f.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return f.mk(ONot, 0, a, nil, nil, 0)
}

func (f *TF) And(a, b *Term) *Term {
	if a.op == OConst {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return f.False
	}
	return f.mk(OAnd, 0, a, b, nil, 0)
}

func (f *TF) Or(a, b *Term) *Term {
	if a.op == OConst {
		if a.val == 1 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.val == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return f.True
	}
	return f.mk(OOr, 0, a, b, nil, 0)
}

func (f *TF) Eq(a, b *Term) *Term {
	if a == b {
		return f.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.op == OConst && b.op == OConst {
		return f.Bool(a.val == b.val)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.w == 0 && b.op == OConst {
		if b.val == 1 {
			return a
		}
		return f.Not(a)
	}
	if b.op == OConst {
		if a.op == OZExt {
			iw := a.a.w
			if b.val&^mask(iw) != 0 {
				return f.False
			}
			return f.Eq(a.a, f.Const(b.val, iw))
		}
		if a.op == OSExt {
			iw := a.a.w
			if uint64(sx(b.val&mask(iw), iw))&mask(a.w) != b.val {
				return f.False
			}
			return f.Eq(a.a, f.Const(b.val, iw))
		}
		if a.op == OAdd && a.b.op == OConst {
			return f.Eq(a.a, f.Const(b.val-a.b.val, a.w))
		}
		if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
			return f.Or(f.And(a.a, f.Eq(a.b, b)), f.And(f.Not(a.a), f.Eq(a.c, b)))
		}
	} else if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return f.Eq(a.a, b.a)
	} else if a.id > b.id {
		a, b = b, a
	}
	return f.mk(OEq, 0, a, b, nil, 0)
}

func (f *TF) Ite(c, a, b *Term) *Term {
	if c.op == OConst {
		if c.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		return f.Or(f.And(c, a), f.And(f.Not(c), b))
	}
	return f.mk(OIte, a.w, c, a, b, 0)
}

func evalOp(op Op, w uint8, x, y uint64, aw uint8) uint64 {
	b2 := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch op {
	case OAdd:
		return (x + y) & mask(w)
	case OSub:
		return (x - y) & mask(w)
	case OMul:
		return (x * y) & mask(w)
	case OUDiv:
		if y == 0 {
			return mask(w)
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		sxv, syv := sx(x, w), sx(y, w)
		if syv == 0 {
			if sxv < 0 {
				return 1
			}
			return mask(w)
		}
		if syv == -1 {
			return uint64(-sxv) & mask(w)
		}
		return uint64(sxv/syv) & mask(w)
	case OSRem:
		sxv, syv := sx(x, w), sx(y, w)
		if syv == 0 {
			return x
		}
		if syv == -1 {
			return 0
		}
		return uint64(sxv%syv) & mask(w)
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & mask(w)
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w)>>y) & mask(w)
	case ONeg:
		return (-x) & mask(w)
	case OBNot:
		return (^x) & mask(w)
	case OULT:
		return b2(x < y)
	case OULE:
		return b2(x <= y)
	case OSLT:
		return b2(sx(x, aw) < sx(y, aw))
	case OSLE:
		return b2(sx(x, aw) <= sx(y, aw))
	case OZExt:
		return x
	case OSExt:
		return uint64(sx(x, aw)) & mask(w)
	case OExtract:
		return x & mask(w)
	}
	panic("evalOp")
}

// umax gives an upper bound (unsigned) of a bit-vector term.
func umax(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OZExt:
		return umax(t.a)
	case OIte:
		return max(umax(t.b), umax(t.c))
	case OBAnd:
		return min(umax(t.a), umax(t.b))
	case OLShr:
		if t.b.op == OConst && t.b.val < 64 {
			return umax(t.a) >> t.b.val
		}
	case OAdd:
		s, c := bits.Add64(umax(t.a), umax(t.b), 0)
		if c == 0 && s <= mask(t.w) {
			return s
		}
	}
	return mask(t.w)
}

func (f *TF) Bin(op Op, a, b *Term) *Term {
	w := a.w
	cmp := op == OULT || op == OULE || op == OSLT || op == OSLE
	if a.w != b.w {
		panic(fmt.Sprintf("Bin width mismatch op %d: %d %d", op, a.w, b.w))
	}
	rw := w
	if cmp {
		rw = 0
	}
	if a.op == OConst && b.op == OConst {
		return f.mk(OConst, rw, nil, nil, nil, evalOp(op, w, a.val, b.val, w))
	}
	switch op {
	case OAdd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.b.op == OConst {
				return f.Bin(OAdd, a.a, f.Const(a.b.val+b.val, w))
			}
		}
	case OSub:
		if a == b {
			return f.Const(0, w)
		}
		if b.op == OConst {
			return f.Bin(OAdd, a, f.Const(-b.val, w))
		}
	case OMul:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		}
	case OBAnd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OBOr, OBXor:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.val == 0 {
			return a
		}
		if a == b {
			if op == OBXor {
				return f.Const(0, w)
			}
			return a
		}
	case OShl, OLShr, OAShr:
		if b.op == OConst && b.val == 0 {
			return a
		}
	case OULT:
		if a == b {
			return f.False
		}
		if b.op == OConst && umax(a) < b.val {
			return f.True
		}
		if b.op == OConst && b.val == 0 {
			return f.False
		}
		if a.op == OConst && umax(b) <= a.val {
			return f.False
		}
		if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
			return f.Bin(OULT, a.a, b.a)
		}
	case OULE:
		if a == b {
			return f.True
		}
		if b.op == OConst && umax(a) <= b.val {
			return f.True
		}
		if a.op == OConst && umax(b) < a.val {
			return f.False
		}
		if a.op == OConst && a.val == 0 {
			return f.True
		}
		if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
			return f.Bin(OULE, a.a, b.a)
		}
	case OSLT, OSLE:
		if a == b {
			return f.Bool(op == OSLE)
		}
		half := uint64(1) << (w - 1)
		ua, ub := umax(a), umax(b)
		if ua < half && ub < half { // both non-negative
			if op == OSLT {
				return f.Bin(OULT, a, b)
			}
			return f.Bin(OULE, a, b)
		}
		if a.op == OConst && a.val >= half && ub < half {
			return f.True
		}
		if b.op == OConst && b.val >= half && ua < half {
			return f.False
		}
	}
	return f.mk(op, rw, a, b, nil, 0)
}

func (f *TF) Un(op Op, a *Term) *Term {
	if a.op == OConst {
		return f.mk(OConst, a.w, nil, nil, nil, evalOp(op, a.w, a.val, 0, a.w))
	}
	return f.mk(op, a.w, a, nil, nil, 0)
}

func (f *TF) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return f.Extract(a, w)
	}
	if a.op == OConst {
		return f.Const(a.val, w)
	}
	if a.op == OZExt {
		return f.ZExt(a.a, w)
	}
	return f.mk(OZExt, w, a, nil, nil, 0)
}

func (f *TF) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return f.Extract(a, w)
	}
	if a.op == OConst {
		return f.Const(uint64(sx(a.val, a.w)), w)
	}
	if umax(a) < uint64(1)<<(a.w-1) {
		return f.ZExt(a, w)
	}
	return f.mk(OSExt, w, a, nil, nil, 0)
}

func (f *TF) Extract(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return f.Const(a.val, w)
	}
	if a.op == OZExt || a.op == OSExt {
		if a.a.w >= w {
			return f.Extract(a.a, w)
		}
		if a.op == OZExt {
			return f.ZExt(a.a, w)
		}
		return f.SExt(a.a, w)
	}
	return f.mk(OExtract, w, a, nil, nil, 0)
}

// Model maps variable id to value.
type Model map[int]uint64

func (f *TF) Eval(t *Term, m Model) uint64 {
	f.gen++
	return f.eval(t, m)
}

func (f *TF) eval(t *Term, m Model) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return m[t.id]
	}
	if t.gen == f.gen {
		return t.ev
	}
	var r uint64
	switch t.op {
	case ONot:
		r = 1 - f.eval(t.a, m)
	case OAnd:
		r = f.eval(t.a, m)
		if r == 1 {
			r = f.eval(t.b, m)
		}
	case OOr:
		r = f.eval(t.a, m)
		if r == 0 {
			r = f.eval(t.b, m)
		}
	case OEq:
		if f.eval(t.a, m) == f.eval(t.b, m) {
			r = 1
		}
	case OIte:
		if f.eval(t.a, m) == 1 {
			r = f.eval(t.b, m)
		} else {
			r = f.eval(t.c, m)
		}
	default:
		x := f.eval(t.a, m)
		var y uint64
		if t.b != nil {
			y = f.eval(t.b, m)
		}
		w := t.w
		if w == 0 {
			w = t.a.w
		}
		r = evalOp(t.op, w, x, y, t.a.w)
	}
	t.gen = f.gen
	t.ev = r
	return r
}

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", ONeg: "bvneg", OBNot: "bvnot", OULT: "bvult", OULE: "bvule", OSLT: "bvslt", OSLE: "bvsle",
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return "(_ bv" + strconv.FormatUint(t.val, 10) + " " + strconv.Itoa(int(t.w)) + ")"
	case OVar:
		return "v" + strconv.Itoa(t.id)
	}
	return "t" + strconv.Itoa(t.id)
}

func (t *Term) sort() string {
	if t.w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(t.w)) + ")"
}

func (t *Term) body() string {
	switch t.op {
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OExtract:
		return fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, t.a.ref())
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opNames[t.op])
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(x.ref())
		}
	}
	sb.WriteByte(')')
	return sb.String()
}
