package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
)

// Value is one of:
//   bool | *Term(w=0)              booleans
//   int64 | *Term(w=8..64)         integers (canonical: sign- or zero-extended)
//   float64, complex128            floats (concrete only)
//   string | *SymStr               strings
//   *Value                         pointers
//   Struct, Array, Slice           aggregates
//   *Map, Iface, *Closure, Tuple, *MapIter, *StrIter, *Opaque
type Value = any

type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value

type Iface struct {
	T *RType
	V Value
}

type Closure struct {
	Fn  *Func
	Env []Value
}

type SymStr struct{ b []Value } // bytes: int64 or *Term(8)

type Opaque struct {
	kind string
	data any
}

type StrIter struct {
	s Value
	i int
}

type MapIter struct {
	m    *Map
	i    int
	done []int
	any  bool // arbitrary order
}

// RType is a canonical dynamic type.
type RType struct {
	T       types.Type
	id      int
	methods map[string]*Func
	impl    map[types.Type]bool
	name    string
	refl    *Opaque
}

func (t *RType) String() string {
	if t == nil {
		return "nil"
	}
	return t.name
}

type mapEnt struct {
	k, v Value
	live bool
}

type Map struct {
	ents []*mapEnt
	idx  map[any]*mapEnt
	n    int
	sym  int // number of live entries with a symbolic key
	kt   types.Type
}

// hkey returns a Go-comparable representation of a concrete key.
func hkey(v Value) (any, bool) {
	switch x := v.(type) {
	case bool, int64, string, float64, *Value, *Opaque, *Map:
		return x, true
	case nil:
		return nil, true
	case *Term, *SymStr:
		return nil, false
	case Iface:
		if x.T == nil {
			return "<nil iface>", true
		}
		k, ok := hkey(x.V)
		if !ok {
			return nil, false
		}
		return [2]any{x.T, k}, true
	case Struct:
		var sb strings.Builder
		for _, e := range x {
			k, ok := hkey(e)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", k, k)
		}
		return sb.String(), true
	case Array:
		var sb strings.Builder
		for _, e := range x {
			k, ok := hkey(e)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", k, k)
		}
		return "A" + sb.String(), true
	}
	panic(unsupported{fmt.Sprintf("map key %T", v)})
}

type unsupported struct{ msg string }

// intInfo: width and signedness of an integer type (w==0 when not an integer).
func intInfo(t types.Type) (w uint8, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 0, false
}

func norm(x int64, w uint8, signed bool) int64 {
	switch w {
	case 64:
		return x
	case 32:
		if signed {
			return int64(int32(x))
		}
		return int64(uint32(x))
	case 16:
		if signed {
			return int64(int16(x))
		}
		return int64(uint16(x))
	case 8:
		if signed {
			return int64(int8(x))
		}
		return int64(uint8(x))
	}
	panic("norm width")
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isAggregate(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case u.Kind() == types.UntypedNil:
			return (*Value)(nil)
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		if len(a) > 0 {
			if isAggregate(u.Elem()) {
				for i := range a {
					a[i] = zero(u.Elem())
				}
			} else {
				z := zero(u.Elem())
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return (*Opaque)(nil)
	case *types.Tuple:
		tu := make(Tuple, u.Len())
		for i := range tu {
			tu[i] = zero(u.At(i).Type())
		}
		return tu
	}
	panic(unsupported{"zero of " + t.String()})
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		c := make(Struct, len(x))
		for i, e := range x {
			c[i] = copyVal(e)
		}
		return c
	case Array:
		c := make(Array, len(x))
		for i, e := range x {
			c[i] = copyVal(e)
		}
		return c
	}
	return v
}

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen %T", v))
}

func strAt(v Value, i int) Value {
	switch s := v.(type) {
	case string:
		return int64(s[i])
	case *SymStr:
		return s.b[i]
	}
	panic("strAt")
}

func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(*Term); ok {
			return &SymStr{b: append([]Value(nil), b...)}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.(int64))
	}
	return string(bs)
}

func strBytes(v Value) []Value {
	switch s := v.(type) {
	case string:
		b := make([]Value, len(s))
		for i := range b {
			b[i] = int64(s[i])
		}
		return b
	case *SymStr:
		return s.b
	}
	panic("strBytes")
}

func strSlice(v Value, lo, hi int) Value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SymStr:
		return mkStr(s.b[lo:hi])
	}
	panic("strSlice")
}

func strConcat(a, b Value) Value {
	sa, ok1 := a.(string)
	sb, ok2 := b.(string)
	if ok1 && ok2 {
		return sa + sb
	}
	if ok1 && sa == "" {
		return b
	}
	if ok2 && sb == "" {
		return a
	}
	x := strBytes(a)
	y := strBytes(b)
	r := make([]Value, 0, len(x)+len(y))
	r = append(r, x...)
	r = append(r, y...)
	return mkStr(r)
}

func f32(x float64) float64 { return float64(float32(x)) }

// show renders a value for reports under a model.
func (m *VM) show(v Value, md Model) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		return strconv.FormatBool(x)
	case int64:
		return strconv.FormatInt(x, 10)
	case float64:
		return strconv.FormatFloat(x, 'g', -1, 64)
	case string:
		return strconv.Quote(x)
	case *Term:
		u := m.tf.Eval(x, md)
		if x.w == 0 {
			return strconv.FormatBool(u == 1)
		}
		return strconv.FormatInt(sx(u, x.w), 10)
	case *SymStr:
		bs := make([]byte, len(x.b))
		for i, e := range x.b {
			switch y := e.(type) {
			case int64:
				bs[i] = byte(y)
			case *Term:
				bs[i] = byte(m.tf.Eval(y, md))
			}
		}
		return strconv.Quote(string(bs))
	case Iface:
		if x.T == nil {
			return "nil"
		}
		switch y := x.V.(type) {
		case *Term:
			// canonical signedness from the dynamic type
			if y.w != 0 {
				_, s := intInfo(x.T.T)
				u := m.tf.Eval(y, md)
				if s {
					return strconv.FormatInt(sx(u, y.w), 10)
				}
				return strconv.FormatUint(u, 10)
			}
			return m.show(y, md)
		case int64:
			if w, s := intInfo(x.T.T); w == 64 && !s {
				return strconv.FormatUint(uint64(y), 10)
			}
			return m.show(y, md)
		case bool, string, *SymStr, float64:
			return m.show(y, md)
		case *Value:
			if y == nil {
				return "nilptr"
			}
		}
		return "<" + x.T.name + ">"
	case *Value:
		if x == nil {
			return "nilptr"
		}
		return "<ptr>"
	}
	return fmt.Sprintf("<%T>", v)
}

// Go's append growth (go1.23 runtime/slice.go, runtime/msize.go).
var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(size int, noscan bool) int {
	req := size
	hdr := 0
	if !noscan && req > 512 {
		hdr = 8
		req += 8
	}
	if req <= 32768-8 || (hdr == 0 && req <= 32768-8) {
		for _, c := range sizeClasses {
			if c >= req {
				return c - hdr
			}
		}
	}
	req = size + 8191
	return req &^ 8191
}

func growCap(newLen, oldCap, elemSize int, noscan bool) int {
	newcap := oldCap
	if newLen > 2*oldCap {
		newcap = newLen
	} else if oldCap < 256 {
		newcap = 2 * oldCap
	} else {
		for newcap < newLen {
			newcap += (newcap + 3*256) >> 2
		}
	}
	if elemSize == 0 {
		return max(newcap, newLen)
	}
	if newcap > math.MaxInt32 {
		panic(unsupported{"huge slice"})
	}
	return roundupsize(newcap*elemSize, noscan) / elemSize
}

func noPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString == 0 && u.Kind() != types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !noPointers(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return u.Len() == 0 || noPointers(u.Elem())
	}
	return false
}
